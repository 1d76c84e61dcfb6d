// C04: a packet against a model made of a string and a position
#define VH_MAIN
#include <vh_packet.h>
#include <frnetlib/TcpSocket.h>
#include <sys/socket.h>
using namespace vp;

struct Model { std::string s; size_t pos = 0; };
struct Both { fr::Packet p; Model m; };

static std::string trace_text;
static void note(const std::string &t) { trace_text += (trace_text.empty() ? "" : " ") + t; if(trace_text.size() > 4000) trace_text.erase(0, 1000); }
static void compare(Both &b, const char *op)
{
    const auto &m = b.m;
    VH_CHECK(b.p.size() == m.s.size(), "size", op, ": size ", b.p.size(), " instead of ", m.s.size(), " after ", trace_text);
    VH_CHECK(b.p.get_cursor() == m.pos, "cursor", op, ": cursor ", b.p.get_cursor(), " instead of ", m.pos, " of ", m.s.size(), " after ", trace_text);
    VH_CHECK(b.p.get_bytes_remaining() == m.s.size() - m.pos, "remaining", op, ": ", b.p.get_bytes_remaining(), " instead of ", m.s.size() - m.pos, " after ", trace_text);
}
static void compare_content(Both &b, const char *op)
{
    fr::Packet c(b.p);
    std::string rest(b.m.s.size() - b.m.pos, '\0'), all(b.m.s.size(), '\0');
    try
    {
        c.extract_raw(&rest[0], rest.size());
        c.set_cursor(0);
        c.extract_raw(&all[0], all.size());
        VH_CHECK(rest == b.m.s.substr(b.m.pos), "content-from-cursor", op, " after ", trace_text);
        VH_CHECK(all == b.m.s, "content", op, " after ", trace_text);
        VH_CHECK(c.get_bytes_remaining() == 0, "content-size", op);
    }
    catch(const std::exception &e) { vh::violation("content-unreadable", vh::cat(op, ": ", e.what(), " after ", trace_text)); }
}
template<typename T> static void add(Both &b, Rng &rng)
{
    T v = Tr<T>::gen(rng, 1);
    b.p << v;
    Tr<T>::enc(b.m.s, v);
}
template<typename T> static void take(Both &b)
{
    Cur c{b.m.s, b.m.pos};
    T want{}, got{};
    bool ok = Tr<T>::dec(c, want), threw = false;
    try { b.p >> got; } catch(const std::out_of_range &) { threw = true; }
    VH_CHECK(threw == !ok, "extract-outcome", Tr<T>::name(), threw ? " threw" : " didn't throw", " after ", trace_text);
    if(ok && !threw)
    {
        if(!c.loose_bool) VH_CHECK(Tr<T>::eq(want, got), "extract-value", Tr<T>::name(), " after ", trace_text);
        b.m.pos = c.pos;
        vh::count("extractions");
    }
    else vh::count("failed extractions");
}
// If it fails, some of it may have been read, but the packet remains what it is
template<typename T> static void take_compound(Both &b)
{
    Cur c{b.m.s, b.m.pos};
    T want{}, got{};
    if(Tr<T>::dec(c, want)) { take<T>(b); return; }
    bool threw = false;
    try { b.p >> got; } catch(const std::out_of_range &) { threw = true; }
    VH_CHECK(threw, "extract-outcome", Tr<T>::name(), " didn't throw after ", trace_text);
    const size_t now = b.p.get_cursor();
    VH_CHECK(now >= b.m.pos && now <= b.m.s.size(), "cursor-after-failure", Tr<T>::name(), ": cursor ", now, ", was ", b.m.pos, " of ", b.m.s.size(), " after ", trace_text);
    if(now <= b.m.s.size()) b.m.pos = now;
    vh::count("failed extractions of strings and containers");
}
static int64_t some_offset(Rng &rng, const Model &m)
{
    switch(rng.below(6))
    {
        case 0: return (int64_t)rng.word();
        case 1: return INT64_MIN + (int64_t)rng.below(3);
        case 2: return INT64_MAX - (int64_t)rng.below(3);
        case 3: return -(int64_t)m.pos + (int64_t)rng.below(9) - 4;
        case 4: return (int64_t)(m.s.size() - m.pos) + (int64_t)rng.below(9) - 4;
        default: return (int64_t)rng.below(60) - 30;
    }
}

VH_FUZZ_SECTION(histories, 150000, 1500000)
{
    trace_text.clear();
    std::vector<std::unique_ptr<Both>> all;
    for(int a = 0; a < 2; a++) all.emplace_back(new Both);
    size_t steps = rng.fuzzing() ? 60 : 5 + rng.below(80);
    uint64_t h = 0;
    for(size_t a = 0; a < steps && !(rng.fuzzing() && rng.exhausted()); a++)
    {
        size_t which = rng.below(all.size());
        Both &b = *all[which];
        const char *op = "";
        unsigned kind = (unsigned)rng.below(28);
        switch(kind)
        {
            case 0: op = "add u8"; add<uint8_t>(b, rng); break;
            case 1: op = "add u16"; add<uint16_t>(b, rng); break;
            case 2: op = "add u32"; add<uint32_t>(b, rng); break;
            case 3: op = "add i64"; add<int64_t>(b, rng); break;
            case 4: op = "add double"; add<double>(b, rng); break;
            case 5: op = "add string"; add<std::string>(b, rng); break;
            case 6: op = "add bool"; add<bool>(b, rng); break;
            case 7: { op = "add raw"; std::string s = rng.bytes(rng.below(50)); b.p.add_raw(s.data(), s.size()); b.m.s += s; break; }
            case 8: op = "take u8"; take<uint8_t>(b); break;
            case 9: op = "take u16"; take<uint16_t>(b); break;
            case 10: op = "take i32"; take<int32_t>(b); break;
            case 11: op = "take u64"; take<uint64_t>(b); break;
            case 12: op = "take float"; take<float>(b); break;
            case 13: op = "take bool"; take<bool>(b); break;
            case 14: op = "take enum"; take<EI16>(b); break;
            case 15:
            {
                op = "take raw";
                size_t left = b.m.s.size() - b.m.pos, n = rng.coin() ? rng.below(left + 1) : (size_t)rng.word();
                std::string s(n <= left ? n : 1, '\0');
                bool threw = false;
                try { b.p.extract_raw(&s[0], n); } catch(const std::out_of_range &) { threw = true; }
                VH_CHECK(threw == (n > left), "extract-outcome", "raw ", n, " of ", left, " after ", trace_text);
                if(n <= left && !threw) { VH_CHECK(b.m.s.compare(b.m.pos, n, s) == 0, "extract-value", "raw after ", trace_text); b.m.pos += n; }
                break;
            }
            case 16: case 17:
            {
                op = "seek";
                int64_t o = some_offset(rng, b.m);
                b.p.seek_cursor((ssize_t)o);
                if(o < 0) b.m.pos = (uint64_t)-(o + 1) + 1 >= b.m.pos ? 0 : b.m.pos + (size_t)o;
                else b.m.pos = (uint64_t)o >= b.m.s.size() - b.m.pos ? b.m.s.size() : b.m.pos + (size_t)o;
                note(vh::cat("seek(", o, ")"));
                vh::count("seeks");
                break;
            }
            case 18: case 19:
            {
                op = "set_cursor";
                size_t o = rng.coin() ? (size_t)some_offset(rng, b.m) : rng.below(b.m.s.size() + 6);
                b.p.set_cursor(o);
                b.m.pos = std::min(o, b.m.s.size());
                note(vh::cat("set_cursor(", o, ")"));
                vh::count("seeks");
                break;
            }
            case 20: op = "rewind"; b.p.set_cursor(); b.m.pos = 0; break;
            case 21: op = "clear"; if(rng.below(3) == 0) { b.p.clear(); b.m = Model(); } break;
            case 22: op = "reserve"; b.p.reserve(rng.below(100000)); break;
            case 23: { op = "copy"; size_t o = rng.below(all.size()); all[o]->p = b.p; all[o]->m = Model(b.m); break; }
            case 24: { op = "copy construct"; std::unique_ptr<Both> n(new Both{fr::Packet(b.p), b.m}); if(all.size() < 4) all.push_back(std::move(n)); else all[which] = std::move(n); break; }
            case 25: { op = "move"; std::unique_ptr<Both> n(new Both{fr::Packet(std::move(b.p)), b.m}); b.p.clear(); b.m = Model(); compare(b, "moved from, cleared"); all[rng.below(all.size())] = std::move(n); break; }
            case 26:
                switch(rng.below(3))
                {
                    case 0: op = "take string"; take_compound<std::string>(b); break;
                    case 1: op = "take vector"; take_compound<std::vector<uint16_t>>(b); break;
                    default: op = "take pair"; take_compound<std::pair<uint32_t, std::string>>(b); break;
                }
                break;
            case 27:
            {
                op = "send";
                if(rng.fuzzing() || rng.below(4) || b.m.s.size() > 50000) break;
                int fds[2];
                if(socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) _exit(94);
                fr::TcpSocket sock;
                sock.set_descriptor(&fds[0]);
                auto st = sock.send(b.p);
                std::string wire(b.m.s.size() + 4, '\0');
                ssize_t n = ::recv(fds[1], &wire[0], wire.size(), MSG_WAITALL);
                std::string want;
                put_be(want, b.m.s.size(), 4);
                VH_CHECK(st == fr::Socket::Status::Success && n == (ssize_t)wire.size() && wire == want + b.m.s, "sent-content", "after ", trace_text);
                close(fds[1]);
                vh::count("sends");
                break;
            }
        }
        if(kind < 16 || kind > 19) note(op);
        h = vh::mix(h ^ (kind * 977 + all[which]->m.pos * 31 + all[which]->m.s.size()));
        for(auto &x : all) compare(*x, op);
        if(rng.below(4) == 0) for(auto &x : all) compare_content(*x, op);
    }
    for(auto &x : all) compare_content(*x, "end");
    vh::count("operations", steps);
    vh::distinct(h);
    vh::sample("histories", trace_text, 3);
}
// Every small size, position and offset, exhaustively
VH_SECTION(small_exhaustive, 24, 24)
{
    trace_text = "exhaustive";
    size_t size = index;
    for(size_t pos = 0; pos <= size; pos++)
    {
        for(int64_t o = -(int64_t)size - 6; o <= (int64_t)size + 6; o++)
        {
            Both b;
            for(size_t a = 0; a < size; a++) { b.p << (uint8_t)(a + 1); b.m.s += (char)(a + 1); }
            b.p.set_cursor(pos);
            b.m.pos = pos;
            compare(b, "set_cursor");
            b.p.seek_cursor(o);
            int64_t t = (int64_t)pos + o;
            b.m.pos = t < 0 ? 0 : std::min<size_t>((size_t)t, size);
            compare(b, "seek_cursor");
            compare_content(b, "seek_cursor");
            if(o >= 0) { b.p.set_cursor((size_t)o); b.m.pos = std::min<size_t>((size_t)o, size); compare(b, "set_cursor"); }
            vh::evaluated();
            vh::distinct(vh::mix(size * 10007 + pos * 101 + (uint64_t)(o + 50)));
        }
        for(int64_t o : {INT64_MIN, INT64_MIN + 1, INT64_MIN + 4, INT64_MIN + 5, INT64_MAX, INT64_MAX - 1, INT64_MAX - 4, INT64_MAX - 5, (int64_t)INT32_MAX, (int64_t)INT32_MIN, (int64_t)UINT32_MAX, -(int64_t)UINT32_MAX})
        {
            Both b;
            for(size_t a = 0; a < size; a++) { b.p << (uint8_t)(a + 1); b.m.s += (char)(a + 1); }
            b.p.set_cursor(pos);
            b.p.seek_cursor(o);
            b.m.pos = o < 0 ? 0 : size;
            compare(b, "extreme seek_cursor");
            b.p.set_cursor((size_t)o);
            b.m.pos = size;
            compare(b, "extreme set_cursor");
            vh::evaluated();
        }
    }
    vh::count("seeks", (size + 1) * (2 * size + 25));
}
