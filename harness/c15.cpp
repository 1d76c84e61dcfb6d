// C15: SHA-1 and Base64 against mbedtls' implementations, used as an oracle independent of the library's
#define VH_MAIN
#include <vh.h>
#include <mbedtls/sha1.h>
#include <mbedtls/base64.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/Base64.h>

static void check_sha(const std::string &in)
{
    unsigned char want[20];
    mbedtls_sha1_ret((const unsigned char*)in.data(), in.size(), want);
    std::string got = fr::Sha1::sha1_digest(in);
    VH_CHECK(got == std::string((char*)want, 20), "sha1-mismatch", "length ", in.size(), " input ", vh::hex(in), " got ", vh::hex(got));
    vh::count("sha1_digests");
}
static void check_b64(const std::string &in)
{
    std::string want(in.size() * 4 / 3 + 8, '\0');
    size_t n = 0;
    mbedtls_base64_encode((unsigned char*)&want[0], want.size(), &n, (const unsigned char*)in.data(), in.size());
    want.resize(n);
    std::string got = fr::Base64::encode(in);
    if(got != want)
        vh::violation("base64-mismatch", vh::cat("length ", in.size(), " input ", vh::hex(in), " got ", vh::show(got), " want ", vh::show(want)));
}

// Every length up to several blocks, with several contents each, so that every padding case is met
VH_SECTION(sha_lengths, 700, 1400)
{
    size_t n = index;
    for(int style = 0; style < 6; style++)
    {
        std::string s = style == 0 ? std::string(n, '\0') : style == 1 ? std::string(n, '\xff') : style == 2 ? std::string(n, '\x80') : rng.bytes(n);
        check_sha(s);
        check_b64(s);
        vh::distinct(vh::hash_str(s));
    }
    if(index % 64 == 55) vh::sample("sha_lengths", vh::cat("length ", n, " -> ", vh::hex(fr::Sha1::sha1_digest(std::string(n, 'a')))));
    vh::evaluated(11);
}
// Every single byte at every position of a block
VH_SECTION(sha_positions, 130, 130)
{
    for(int v = 0; v < 256; v++)
    {
        std::string s(130, 'x');
        s[index] = (char)v;
        check_sha(s);
        s.resize(index + 1);
        check_b64(s);
        vh::distinct(vh::hash_str(s));
    }
    vh::evaluated(511);
}
VH_FUZZ_SECTION(random, 6000, 200000)
{
    size_t n = rng.size(rng.chance(1, 30) ? 300000 : 3000);
    std::string s = rng.bytes(n);
    check_sha(s);
    check_b64(s);
    vh::count(n < 56 ? "len<56" : n < 64 ? "len 56..63" : n == 64 ? "len 64" : "len>64");
    vh::distinct(vh::hash_str(s));
    vh::sample("random", vh::cat(n, " bytes ", vh::hex(s, 20)));
}
// More than 2^29 bytes, where the bit count no longer fits in 32 bits
VH_SECTION_X(sha_large, 1, 3, false, 300)
{
    std::string s((size_t)(1u << 29) + index * 64 + rng.below(200), '\0');
    for(size_t a = 0; a < s.size(); a += 4096) s[a] = (char)rng.byte();
    check_sha(s);
    vh::distinct(s.size());
    vh::count("sha1_over_2^29_bytes");
}
// Every string of up to two bytes, exhaustively, and every last byte triple of interest
VH_SECTION(base64_short, 257, 257)
{
    if(index == 256) { check_b64(""); vh::evaluated(0); return; }
    std::string s(1, (char)index);
    check_b64(s);
    for(int b = 0; b < 256; b++)
    {
        std::string t = s + (char)b;
        check_b64(t);
        vh::distinct(vh::hash_str(t));
        for(int c = 0; c < 256; c += vh::thorough() ? 1 : 5)
            check_b64(t + (char)((c + b) & 255));
    }
    vh::evaluated(256 + 256 * (vh::thorough() ? 256 : 52));
    vh::count("base64_short_inputs", 257 + 256 * (vh::thorough() ? 256 : 52));
}
