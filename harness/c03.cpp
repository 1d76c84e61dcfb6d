// C03: extraction from hostile packets stays inside them, and allocates in proportion to them
#define VH_MAIN
#include <vh_packet.h>
#include <vh_alloc.h>
#include <frnetlib/TcpSocket.h>
#include <sys/socket.h>
using namespace vp;

struct World
{
    fr::Packet p;
    std::string s; // what the packet contains
    std::string trace;
};

template<typename T> static void extract(World &w, const char *name)
{
    size_t at = w.p.get_cursor();
    Cur c{w.s, at};
    T want{};
    bool ok = Tr<T>::dec(c, want);
    T got{};
    bool threw = false;
    const size_t left = w.s.size() - at;
    size_t largest = 0;
    int64_t peak = 0;
    {
        vh::AllocScope scope;
        try { w.p >> got; }
        catch(const std::out_of_range &) { threw = true; }
        catch(const std::exception &e) { scope.pause(); vh::violation("wrong-exception", vh::cat(name, " threw ", e.what(), " content ", vh::hex(w.s), " at ", at)); threw = true; }
        largest = scope.largest();
        peak = scope.peak();
    }
    VH_CHECK(largest <= 65536 + 256 * left && peak <= (int64_t)(65536 + 512 * left), "memory", name, " with ", left, " bytes left allocated up to ", largest, " bytes at once, ", peak, " in total; content ", vh::hex(w.s), " at ", at);
    size_t now = w.p.get_cursor();
    VH_CHECK(now <= w.s.size() && w.p.size() == w.s.size() && w.p.get_bytes_remaining() == w.s.size() - now, "position", name, " left the cursor at ", now, " of ", w.p.size());
    VH_CHECK(threw == !ok, ok ? "refused-valid" : "accepted-truncated", name, " at ", at, " of ", vh::hex(w.s), w.trace);
    if(ok && !threw)
    {
        VH_CHECK(now == c.pos, "position", name, " read ", now - at, " bytes instead of ", c.pos - at, " content ", vh::hex(w.s));
        if(!c.loose_bool)
            VH_CHECK(Tr<T>::eq(got, want), "wrong-value", name, " at ", at, " of ", vh::hex(w.s));
    }
    vh::count(ok ? "extractions which succeeded" : "extractions which threw");
}
static void extract_bool_checked(World &w)
{
    union { bool b; uint8_t u; } x;
    x.u = 0;
    try { w.p >> x.b; } catch(const std::out_of_range &) {}
    VH_CHECK(x.u <= 1, "invalid-bool", (int)x.u);
}
static void raw(World &w, Rng &rng)
{
    size_t at = w.p.get_cursor(), left = w.s.size() - at;
    size_t n;
    switch(rng.below(5))
    {
        case 0: n = left; break;
        case 1: n = left + 1 + rng.below(3); break;
        case 2: n = (size_t)rng.word(); break;
        default: n = rng.below(left + 2); break;
    }
    bool ok = n <= left;
    const size_t cap = ok ? n : (n <= 65536 ? n : 16);
    std::unique_ptr<char[]> dest(new char[cap]);
    bool threw = false;
    try { w.p.extract_raw(dest.get(), n); } catch(const std::out_of_range &) { threw = true; }
    VH_CHECK(threw == !ok, ok ? "refused-valid" : "accepted-truncated", "extract_raw(", n, ") with ", left, " left");
    if(ok && !threw) VH_CHECK(memcmp(dest.get(), w.s.data() + at, n) == 0, "wrong-value", "extract_raw(", n, ")");
    VH_CHECK(w.p.get_cursor() == (ok ? at + n : at), "position", "extract_raw(", n, ") moved from ", at, " to ", w.p.get_cursor());
    vh::count(ok ? "extractions which succeeded" : "extractions which threw");
}
static void assertion(World &w, Rng &rng)
{
    size_t left = w.s.size() - w.p.get_cursor();
    size_t n = rng.coin() ? (size_t)rng.word() : left + rng.below(4) - rng.below(2);
    bool threw = false;
    try { w.p.assert_bytes_remaining(n); } catch(const std::out_of_range &) { threw = true; }
    VH_CHECK(threw == (n > left), "assert-bytes", "assert_bytes_remaining(", n, ") with ", left, " left");
}

typedef void (*Extract)(World &, const char *);
static const std::vector<std::pair<Extract, const char*>> &extracts()
{
    #define X(T) {extract<T>, #T},
    static const std::vector<std::pair<Extract, const char*>> e = { VP_TYPES(X) };
    return e;
}

static std::string hostile_content(Rng &rng)
{
    if(rng.fuzzing()) { std::string s; size_t n = rng.below(400); for(size_t a = 0; a < n && !rng.exhausted(); a++) s += (char)rng.byte(); return s; }
    std::string s;
    size_t n = rng.below(5);
    if(rng.chance(1, 6)) s = rng.bytes(rng.below(100));
    else for(size_t a = 0; a < n && s.size() < 5000; a++)
    {
        random_item(rng)->enc(s);
        if(rng.chance(1, 3)) put_be(s, rng.word(), (int)rng.pick<int>({1, 2, 4, 4, 8}));
    }
    // Length fields become wrong
    for(size_t a = rng.below(4); a > 0 && s.size() >= 4; a--)
    {
        size_t at = rng.coin() ? rng.below(std::min<size_t>(s.size() - 3, 8)) : rng.below(s.size() - 3);
        uint32_t v;
        switch(rng.below(6))
        {
            case 0: v = (uint32_t)(s.size() - at - 4 + rng.below(3) - 1); break;
            case 1: v = 0xFFFFFFFFu - (uint32_t)rng.below(8); break;
            case 2: v = 0x7FFFFFFFu + (uint32_t)rng.below(4); break;
            default: v = (uint32_t)rng.word(); break;
        }
        std::string f;
        put_be(f, v, 4);
        s.replace(at, 4, f);
    }
    if(rng.coin()) s.resize(rng.below(s.size() + 1));
    return s;
}
static void load(World &w, Rng &rng)
{
    if(rng.fuzzing() || rng.below(4) != 0 || w.s.size() > 60000) { w.p.add_raw(w.s.data(), w.s.size()); return; }
    // As it would really arrive
    int fds[2];
    if(socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) _exit(94);
    fr::TcpSocket sock;
    sock.set_descriptor(&fds[0]);
    std::string out;
    put_be(out, w.s.size(), 4);
    out += w.s;
    if(::send(fds[1], out.data(), out.size(), MSG_NOSIGNAL) != (ssize_t)out.size()) _exit(94);
    if(sock.receive(w.p) != fr::Socket::Status::Success) vh::violation("receive", vh::hex(out));
    close(fds[1]);
    vh::count("received packets");
}
static void run(Rng &rng, World &w)
{
    load(w, rng);
    vh::distinct(vh::hash_str(w.s));
    size_t steps = 1 + rng.below(10);
    for(size_t a = 0; a < steps; a++)
    {
        switch(rng.below(12))
        {
            case 0: case 1: raw(w, rng); break;
            case 2: assertion(w, rng); break;
            case 3: w.p.set_cursor(rng.coin() ? (size_t)rng.word() : rng.below(w.s.size() + 2)); break;
            case 4: w.p.seek_cursor((ssize_t)(rng.coin() ? (int64_t)rng.word() : (int64_t)rng.below(20) - 10)); break;
            case 5: extract_bool_checked(w); break;
            default:
            {
                auto &e = extracts()[rng.below(extracts().size())];
                if(vh::st().replaying) w.trace += vh::cat(" ", e.second);
                e.first(w, e.second);
            }
        }
        VH_CHECK(w.p.get_cursor() <= w.p.size(), "position", w.p.get_cursor(), " of ", w.p.size());
    }
    // Nothing in the packet has changed
    w.p.set_cursor(0);
    std::string after(w.s.size(), '\0');
    try { if(!after.empty()) w.p.extract_raw(&after[0], after.size()); } catch(const std::exception &) { vh::violation("content", "can't be read back"); }
    VH_CHECK(after == w.s, "content", "changed by extraction");
}
VH_FUZZ_SECTION(hostile, 240000, 3000000)
{
    World w;
    w.s = hostile_content(rng);
    vh::sample("hostile", vh::hex(w.s, 60), 4);
    run(rng, w);
}
// Every truncation of every kind of value
VH_SECTION(truncations, 12000, 60000)
{
    auto &e = extracts()[index % extracts().size()];
    std::string full;
    // find an item of the very same type
    factories()[index % extracts().size()](rng)->enc(full);
    if(full.size() > 400) full.resize(400);
    for(size_t n = 0; n <= full.size(); n += full.size() > 100 ? 1 + rng.below(6) : 1)
    {
        World w;
        w.s = full.substr(0, n);
        w.p.add_raw(w.s.data(), n);
        e.first(w, e.second);
        vh::evaluated();
    }
    vh::distinct(vh::hash_str(full));
}
// Length fields alone: each container type, with little following them
VH_SECTION(lengths, 8000, 40000)
{
    auto &e = extracts()[index % extracts().size()];
    for(int a = 0; a < 12; a++)
    {
        World w;
        put_be(w.s, a < 4 ? 0xFFFFFFFFull >> a : rng.word(), 4);
        if(rng.coin()) put_be(w.s, rng.word(), 4);
        w.s += rng.bytes(rng.below(16));
        w.p.add_raw(w.s.data(), w.s.size());
        e.first(w, e.second);
        vh::distinct(vh::hash_str(w.s));
    }
    vh::evaluated(11);
}
