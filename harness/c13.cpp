// C13: WebSocket frame reception is exact on any byte stream
#define VH_MAIN
#include <vh.h>
#include <vh_mock.h>
#include <vh_net.h>
#include <vh_ws.h>
#include <frnetlib/TcpSocket.h>
using vh::Rng;
using vh::MockSocket;
using fr::Socket;
using fr::WebFrame;
typedef Socket::Status St;

static vw::Frame frame(Rng &r, bool to_server, size_t most)
{
    vw::Frame f;
    f.fin = r.coin();
    f.opcode = r.coin() ? r.pick<unsigned>({0, 1, 2, 8, 9, 10}) : (unsigned)r.below(16);
    f.masked = to_server;
    f.payload = r.bytes(r.size(most));
    f.form = vw::shortest(f.payload.size());
    if(r.chance(1, 3)) f.form = 8;
    else if(f.form == 0 && r.chance(1, 3)) f.form = 2;
    for(auto &k : f.key) k = r.chance(1, 4) ? (uint8_t)(r.below(2) * 255) : r.byte();
    return f;
}
static std::string about(const vw::Frame &f) { return vh::cat(f.masked ? "masked" : "unmasked", " frame, opcode ", f.opcode, f.fin ? ", final, " : ", not final, ", f.payload.size(), " bytes, length in ", f.form, " more bytes"); }
static bool known(unsigned opcode) { return opcode <= 2 || (opcode >= 8 && opcode <= 10); }
static bool same(WebFrame &f, const vw::Frame &w, const std::string &how)
{
    const bool ok = (unsigned)f.get_opcode() == w.opcode && f.is_final() == w.fin && f.get_payload() == w.payload;
    if(!ok)
    {
        std::string p = f.get_payload();
        size_t at = 0;
        while(at < p.size() && at < w.payload.size() && p[at] == w.payload[at]) at++;
        vh::violation("frame", vh::cat(about(w), how, " received as opcode ", (unsigned)f.get_opcode(), f.is_final() ? ", final, " : ", not final, ", p.size(), " bytes, differing at ", at));
    }
    return ok;
}
// Receives, making sure that nothing's lost whenever it's told to come back
static St next(MockSocket &in, WebFrame &f)
{
    for(;;)
    {
        const size_t before = in.in_pos;
        St st = in.receive(f);
        if(st != St::WouldBlock && st != St::Timeout) return st;
        VH_CHECK(in.in_pos == before, "blocked-but-consumed", vh::status_name(st), " with ", in.in_pos - before, " bytes gone");
        vh::count("blocked receives");
        if(in.in_pos == in.in.size() && in.next_stop >= in.stops.size() && in.at_end != St::Disconnected) return st;
    }
}
static void finished(St st, const std::string &how) { VH_CHECK(st != St::Success && st != St::WouldBlock && st != St::Timeout, "end-of-stream", how, ": ", vh::status_name(st)); }

// Frames in any segmentation, then the end of the stream
VH_FUZZ_SECTION(streams, 96000, 600000)
{
    Rng &r = rng;
    const bool server = r.coin();
    MockSocket in(&r);
    in.max_chunk = r.pick<size_t>({1, 2, 5, 300, 70000, SIZE_MAX});
    in.block_pct = r.coin() ? 0 : (unsigned)r.below(60);
    in.blocking = r.coin();
    std::vector<vw::Frame> sent;
    std::vector<size_t> starts;
    for(size_t n = 1 + r.below(6); n > 0; n--)
    {
        sent.push_back(frame(r, server, r.chance(1, 15) ? 300000 : 2000));
        starts.push_back(in.in.size());
        in.in += vw::encode(sent.back());
    }
    // cut short, perhaps
    size_t whole = sent.size();
    if(r.chance(1, 3))
    {
        const size_t cut = r.below(in.in.size());
        while(whole > 0 && starts[whole - 1] + vw::encode(sent[whole - 1]).size() > cut) whole--;
        in.in.resize(cut);
        vh::count("cut streams");
    }
    std::unique_ptr<WebFrame> f;
    for(size_t n = 0; n < whole; n++)
    {
        if(!f || r.coin()) f = vw::make(!server);
        St st = next(in, *f);
        VH_CHECK(st == St::Success, "receive", about(sent[n]), ": ", vh::status_name(st));
        if(st != St::Success || !same(*f, sent[n], "")) return;
        VH_CHECK(in.in_pos <= starts[n] + vw::encode(sent[n]).size(), "read-ahead", about(sent[n]), ": ", in.in_pos, " instead of ", starts[n] + vw::encode(sent[n]).size());
        vh::count("frames");
    }
    finished(next(in, *(f ? std::move(f) : vw::make(!server))), "after all frames");
    vh::distinct(vh::hash_str(in.in, in.max_chunk * 100 + in.block_pct));
    if(vh::want_sample("streams")) vh::sample("streams", vh::cat(server ? "server" : "client", " reading ", vh::hex(in.in, 60)));
}
// One frame, interrupted and ended at each of its positions
VH_SECTION(positions, 12000, 40000)
{
    Rng &r = rng;
    const bool server = r.coin();
    vw::Frame a = frame(r, server, 90), b = frame(r, server, 20);
    const std::string wire = vw::encode(a) + vw::encode(b);
    const size_t first = vw::encode(a).size();
    for(size_t at = 0; at <= wire.size(); at++)
    {
        vh::evaluated();
        {
            MockSocket in(&r);
            in.in = wire;
            for(size_t k = 1 + r.below(3); k > 0; k--) in.stops.emplace_back(at, St::WouldBlock);
            auto f = vw::make(!server);
            for(auto *w : {&a, &b})
            {
                St st = next(in, *f);
                VH_CHECK(st == St::Success, "receive-interrupted", about(*w), " interrupted at ", at, ": ", vh::status_name(st));
                if(st != St::Success || !same(*f, *w, vh::cat(" interrupted at ", at))) return;
            }
        }
        {
            MockSocket in(&r);
            in.in = wire.substr(0, at);
            auto f = vw::make(!server);
            St st = next(in, *f);
            if(at >= first)
            {
                VH_CHECK(st == St::Success, "receive", about(a), ": ", vh::status_name(st));
                if(at == wire.size()) continue;
                st = next(in, *f);
            }
            finished(st, vh::cat("ended at ", at, " of ", first, " and ", wire.size() - first));
        }
        // timed out: nothing may have been consumed if that's what is reported
        {
            MockSocket in(&r);
            in.in = wire;
            in.stops.emplace_back(at, St::Timeout);
            auto f = vw::make(!server);
            St st = in.receive(*f);
            if(at == 0)
            {
                VH_CHECK(st == St::Timeout && in.in_pos == 0, "timeout", vh::status_name(st), " at ", in.in_pos);
                st = in.receive(*f);
                VH_CHECK(st == St::Success, "receive-after-timeout", about(a), ": ", vh::status_name(st));
                if(st == St::Success) same(*f, a, " after a timeout");
            }
            else if(st == St::WouldBlock || st == St::Timeout)
                VH_CHECK(in.in_pos == 0, "blocked-but-consumed", vh::status_name(st), " with ", in.in_pos, " bytes gone");
            else if(st == St::Success) same(*f, a, vh::cat(" timing out at ", at));
        }
        vh::count("positions");
    }
    vh::distinct(vh::hash_str(wire));
}
// A frame masked when it shouldn't be, or the other way round, among others
VH_FUZZ_SECTION(wrongly_masked, 32000, 200000)
{
    Rng &r = rng;
    const bool server = r.coin();
    MockSocket in(&r);
    in.max_chunk = r.pick<size_t>({1, 20, SIZE_MAX});
    in.at_end = r.coin() ? St::Disconnected : St::WouldBlock;
    const size_t good = r.below(3);
    std::vector<vw::Frame> sent;
    for(size_t n = 0; n < good; n++) sent.push_back(frame(r, server, 300));
    sent.push_back(frame(r, !server, r.pick<size_t>({0, 10, 500, 70000})));
    for(auto &f : sent) in.in += vw::encode(f);
    auto f = vw::make(!server);
    for(size_t n = 0; n < good; n++)
    {
        St st = next(in, *f);
        VH_CHECK(st == St::Success, "receive", about(sent[n]), ": ", vh::status_name(st));
        if(st != St::Success || !same(*f, sent[n], "")) return;
    }
    St st = next(in, *f);
    VH_CHECK(st != St::Success && st != St::WouldBlock && st != St::Timeout, server ? "unmasked-accepted" : "masked-accepted", about(sent[good]), ": ", vh::status_name(st));
    vh::count(server ? "unmasked frames to servers" : "masked frames to clients");
    vh::distinct(vh::hash_str(in.in));
}
// Anything at all: compared with what a decoder of our own makes of it
VH_FUZZ_SECTION(arbitrary, 96000, 600000)
{
    Rng &r = rng;
    const bool server = r.coin();
    MockSocket in(&r);
    in.max_chunk = r.pick<size_t>({1, 20, SIZE_MAX});
    in.block_pct = r.coin() ? 0 : 20;
    switch(r.below(3))
    {
        case 0: in.in = r.bytes(r.below(300)); break;
        case 1:
            for(size_t n = 1 + r.below(4); n > 0; n--) in.in += vw::encode(frame(r, server, 200));
            for(size_t n = r.below(4); n > 0 && !in.in.empty(); n--)
                switch(r.below(3))
                {
                    case 0: in.in[r.below(in.in.size())] = (char)r.byte(); break;
                    case 1: in.in.erase(r.below(in.in.size()), 1 + r.below(3)); break;
                    default: in.in.insert(r.below(in.in.size()), r.bytes(1 + r.below(3))); break;
                }
            break;
        default:
        {
            // a length which can't be true
            vw::Frame f = frame(r, server, 50);
            f.form = r.pick<unsigned>({2, 8});
            uint64_t declared = r.word();
            if(f.form == 2) declared = 60 + declared % 65000;
            else if(declared <= f.payload.size()) declared += 1ull << 32;
            in.in = vw::header(f, declared) + f.payload;
            vh::count("false lengths");
        }
    }
    auto f = vw::make(!server);
    size_t at = 0;
    for(;;)
    {
        vw::Frame w;
        const size_t from = at;
        const bool complete = vw::decode(in.in, at, w);
        const bool wrong = in.in.size() - from >= 2 && (((uint8_t)in.in[from + 1] >> 7) != 0) != server;
        St st = next(in, *f);
        if(!complete || wrong) { finished(st, vh::cat(wrong ? "wrong masking at " : "incomplete at ", from, " of ", vh::hex(in.in))); vh::count(wrong ? "refused" : "incomplete"); break; }
        if(st != St::Success && (w.rsv || !known(w.opcode))) { vh::count("reserved refused"); break; }
        VH_CHECK(st == St::Success, "receive", about(w), " at ", from, " of ", vh::hex(in.in), ": ", vh::status_name(st));
        if(st != St::Success || !same(*f, w, vh::cat(" at ", from, " of ", vh::hex(in.in)))) return;
        vh::count("frames in arbitrary data");
    }
    vh::distinct(vh::hash_str(in.in));
}
// Written by a peer in segments to a real socket, with reading interrupted
VH_SECTION(real, 1600, 8000)
{
    Rng &r = rng;
    auto p = r.coin() ? vn::pair() : vn::tcp_pair();
    int32_t x = p.first.release();
    fr::TcpSocket s;
    s.set_descriptor(&x);
    const bool blocking = r.coin(), server = r.coin();
    s.set_blocking(blocking);
    std::vector<vw::Frame> sent;
    std::string stream;
    const size_t most = r.pick<size_t>({60, 1000, 300000});
    for(size_t n = 1 + r.below(6); n > 0; n--) { sent.push_back(frame(r, server, most)); stream += vw::encode(sent.back()); }
    if(r.chance(1, 3)) stream += vw::encode(frame(r, server, 100)).substr(0, 1);
    uint64_t seed = r.fork();
    const size_t piece = stream.size() < 500 ? 1 + r.below(8) : 1 + stream.size() / (1 + r.below(60));
    std::thread peer([&]{
        Rng own(seed);
        for(size_t at = 0; at < stream.size();)
        {
            size_t n = own.chance(1, 4) ? stream.size() : 1 + own.below(piece);
            n = std::min(n, stream.size() - at);
            vn::write_all(p.second.fd, stream.substr(at, n));
            at += n;
            if(own.coin()) std::this_thread::sleep_for(std::chrono::microseconds(own.below(300)));
        }
        p.second.reset();
    });
    {
        vn::HookScope h;
        Rng own(seed + 1);
        h->rng = &own; h->eintr_pct = 10; h->again_pct = (unsigned)own.below(30); h->short_pct = stream.size() < 30000 ? (unsigned)own.below(60) : 0;
        std::unique_ptr<WebFrame> f;
        bool ok = true;
        for(size_t n = 0; n <= sent.size() && ok; n++)
        {
            if(!f || own.coin()) f = vw::make(!server);
            St st;
            for(;;)
            {
                const uint64_t before = h->recv_bytes;
                st = s.receive(*f);
                if(st != St::WouldBlock && st != St::Timeout) break;
                VH_CHECK(h->recv_bytes == before, "blocked-but-consumed", h->recv_bytes - before, " bytes gone");
                vh::count("blocked receives");
            }
            if(n == sent.size()) { finished(st, "after all frames"); break; }
            VH_CHECK(st == St::Success, "receive", about(sent[n]), ": ", vh::status_name(st));
            ok = st == St::Success && same(*f, sent[n], " over a real socket");
            vh::count("frames over real sockets");
        }
        if(!ok) s.disconnect();
        vh::count("injected interruptions", h->eintrs + h->agains + h->shorts);
    }
    peer.join();
    vh::distinct(vh::hash_str(stream, seed));
}
// Waiting with a timeout for whole frames
VH_SECTION(timeouts, 480, 2000)
{
    Rng &r = rng;
    auto p = vn::pair();
    int32_t x = p.first.release();
    fr::TcpSocket s;
    s.set_descriptor(&x);
    s.set_receive_timeout(1 + (uint32_t)r.below(4));
    const bool server = r.coin();
    std::vector<vw::Frame> sent;
    for(size_t n = 1 + r.below(6); n > 0; n--) sent.push_back(frame(r, server, 100));
    uint64_t seed = r.fork();
    std::thread peer([&]{
        Rng own(seed);
        for(auto &f : sent)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(own.below(12000)));
            vn::write_all(p.second.fd, vw::encode(f));
        }
    });
    {
        vn::HookScope h;
        auto f = vw::make(!server);
        for(auto &w : sent)
        {
            St st;
            for(;;)
            {
                const uint64_t before = h->recv_bytes;
                st = s.receive(*f);
                if(st != St::Timeout) break;
                VH_CHECK(h->recv_bytes == before, "timeout-but-consumed", h->recv_bytes - before);
                vh::count("timed out receives");
            }
            VH_CHECK(st == St::Success, "receive", about(w), ": ", vh::status_name(st));
            if(st != St::Success || !same(*f, w, " after timeouts")) break;
        }
    }
    peer.join();
    vh::distinct(vh::mix(seed));
}
