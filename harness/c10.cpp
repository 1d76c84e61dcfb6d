// C10: percent-encoding against a reference decoder, and the shape of what is encoded
#define VH_MAIN
#include <vh.h>
#include <frnetlib/Http.h>
using fr::Http;

static int hexval(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static std::string ref_decode(const std::string &s)
{
    std::string r;
    for(size_t a = 0; a < s.size(); a++)
    {
        if(s[a] == '+') r += ' ';
        else if(s[a] == '%' && a + 2 < s.size() && hexval(s[a + 1]) >= 0 && hexval(s[a + 2]) >= 0)
        {
            r += (char)(hexval(s[a + 1]) * 16 + hexval(s[a + 2]));
            a += 2;
        }
        else r += s[a];
    }
    return r;
}
static void check_encode(const std::string &s)
{
    std::string e = Http::url_encode(s);
    size_t want = 0;
    for(size_t a = 0; a < e.size(); a++)
    {
        unsigned char c = (unsigned char)e[a];
        bool plain = isalnum(c) || (c && strchr("-_.!~*'()", c)) || c == '+';
        if(c == '%')
        {
            auto up = [](char x) { return (x >= '0' && x <= '9') || (x >= 'A' && x <= 'F'); };
            VH_CHECK(a + 2 < e.size() && up(e[a + 1]) && up(e[a + 2]), "encode-escape", "input ", vh::hex(s), " gave ", vh::show(e));
            a += 2;
        }
        else VH_CHECK(plain && c < 128, "encode-reserved", "input ", vh::hex(s), " gave ", vh::show(e));
        want++;
    }
    VH_CHECK(want == s.size(), "encode-length", "input ", vh::hex(s), " gave ", vh::show(e));
    VH_CHECK(ref_decode(e) == s, "encode-wrong", "input ", vh::hex(s), " gave ", vh::show(e));
    std::string d = Http::url_decode(e);
    VH_CHECK(d == s, "roundtrip", "input ", vh::hex(s), " encoded ", vh::show(e), " decoded ", vh::hex(d));
    vh::count("encoded");
}
static void check_decode(const std::string &s)
{
    std::string d = Http::url_decode(s);
    VH_CHECK(d == ref_decode(s), "decode", "input ", vh::show(s), " gave ", vh::hex(d), " want ", vh::hex(ref_decode(s)));
    vh::count("decoded");
}

// Exhaustive: all strings of one and two bytes, all escapes %XY, and each of them cut short or followed by something
VH_SECTION(exhaustive, 256, 256)
{
    std::string a(1, (char)index);
    check_encode(a);
    check_decode(a);
    check_decode("%" + a);
    check_decode("x%" + a);
    for(int b = 0; b < 256; b++)
    {
        std::string ab = a + (char)b;
        check_encode(ab);
        check_decode(ab);
        check_decode("%" + ab);
        check_decode("a%" + ab + "b");
        check_decode("%" + ab + "%");
        check_decode("%%" + ab);
        check_decode("%2" + ab);
        vh::distinct(vh::hash_str(ab));
    }
    vh::evaluated(256 * 7 + 3);
    vh::sample("exhaustive", vh::cat("%", vh::show(a), "41 -> ", vh::show(Http::url_decode("%" + a + "41"))));
}
VH_FUZZ_SECTION(random, 360000, 2000000)
{
    size_t n = rng.size(rng.chance(1, 50) ? 70000 : 200);
    std::string s = rng.bytes(n);
    check_encode(s);
    check_decode(s);
    std::string t;
    size_t parts = rng.below(12);
    for(size_t a = 0; a < parts; a++)
    {
        switch(rng.below(5))
        {
            case 0: t += '%'; break;
            case 1: t += "%" + rng.from("0123456789abcdefABCDEFgG%+ -x", rng.below(4)); break;
            case 2: t += Http::url_encode(rng.bytes(rng.below(6))); break;
            case 3: t += rng.bytes(rng.below(4)); break;
            case 4: t += rng.from("+ %", 1); break;
        }
    }
    check_decode(t);
    if(t.find('%') != std::string::npos) { vh::distinct(vh::hash_str(t)); vh::sample("random", vh::show(t)); }
}
