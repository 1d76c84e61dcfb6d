// C05: packets are delivered exactly once, in order and intact
#define VH_MAIN
#include <vh.h>
#include <vh_mock.h>
#include <vh_net.h>
#include <frnetlib/Packet.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
using vh::Rng;
using vh::MockSocket;
using fr::Packet;
using fr::Socket;
typedef Socket::Status St;

static std::string payload(Rng &r, size_t most)
{
    switch(r.below(4))
    {
        case 0: return r.bytes(r.below(9));
        case 1: return std::string(r.below(40), r.coin() ? '\0' : '\x01'); // looks like lengths
        default: return r.bytes(r.size(most));
    }
}
static void fill(Packet &p, const std::string &s) { p.add_raw(s.data(), s.size()); }
// All that's in a packet, from its beginning
static std::string content(const Packet &received)
{
    Packet p(received);
    std::string s;
    s.resize(p.get_bytes_remaining());
    if(!s.empty()) p.extract_raw(&s[0], s.size());
    return s;
}
static void expect(const Packet &p, const std::string &want, size_t n, const std::string &how)
{
    if(p.get_bytes_remaining() != want.size()) { vh::violation("size", vh::cat("packet ", n, ": ", p.get_bytes_remaining(), " bytes to read instead of ", want.size(), how)); return; }
    VH_CHECK(p.size() == want.size(), "packet-size", "packet ", n, ": ", p.size(), " instead of ", want.size(), how);
    std::string c = content(p);
    if(c != want)
    {
        size_t at = 0;
        while(c[at] == want[at]) at++;
        vh::violation("content", vh::cat("packet ", n, " of ", want.size(), " bytes differs at ", at, how));
    }
}

// Sent and received through sockets of our own
VH_FUZZ_SECTION(streams, 64000, 400000)
{
    Rng &r = rng;
    MockSocket out(&r), in(&r);
    out.max_send = r.pick<size_t>({1, 3, 50, 5000, 200000, SIZE_MAX});
    out.send_block_pct = r.coin() ? 0 : (unsigned)r.below(70);
    out.blocking = r.coin();
    std::vector<std::string> sent;
    std::string shape;
    size_t n = 1 + r.below(6);
    Packet reused_out;
    for(size_t a = 0; a < n; a++)
    {
        std::string s = payload(r, r.chance(1, 10) ? 200000 : 3000);
        if(out.max_send < 50 && s.size() > 20000) s.resize(20000);
        const size_t before = out.out.size();
        St st;
        if(r.coin())
        {
            reused_out.clear();
            fill(reused_out, s);
            if(s.size() > 2 && r.coin()) { char c; reused_out.extract_raw(&c, 1); } // having been read from doesn't matter
            st = out.send(reused_out);
            if(r.chance(1, 5) && st == St::Success) { sent.push_back(s); st = out.send(reused_out); vh::count("sent again"); }
        }
        else { Packet p; fill(p, s); st = out.send(p); }
        VH_CHECK(st == St::Success, "send-status", vh::status_name(st));
        VH_CHECK(out.out.size() > before, "send-nothing", "");
        sent.push_back(s);
        shape += vh::cat(s.size(), ",");
    }
    in.in = out.out;
    in.max_chunk = r.pick<size_t>({1, 2, 5, 100, 4096, SIZE_MAX});
    if(in.in.size() > 50000 && in.max_chunk < 100) in.max_chunk = 1000;
    in.block_pct = r.coin() ? 0 : (unsigned)r.below(80);
    in.blocking = r.coin();
    in.at_end = r.pick<St>({St::Disconnected, St::WouldBlock, St::Timeout, St::ReceiveError});
    Packet reused;
    const bool reuse = r.coin();
    if(reuse) { reused << std::string("left over") << 5; std::string x; if(r.coin()) reused >> x; }
    std::string how = vh::cat(" (sizes ", shape.substr(0, 80), " pieces of ", in.max_chunk, reuse ? " reused)" : ")");
    for(size_t a = 0; a < sent.size(); a++)
    {
        Packet fresh;
        Packet &p = reuse ? reused : fresh;
        St st;
        size_t tries = 0;
        for(;;)
        {
            const size_t before = in.in_pos;
            st = in.receive(p);
            if(st != St::WouldBlock && st != St::Timeout) break;
            VH_CHECK(in.in_pos == before, "blocked-but-consumed", in.in_pos - before, " bytes gone", how);
            vh::count("blocked receives");
            if(++tries > 100000) vn::broken("never ready");
        }
        if(st != St::Success) { vh::violation("receive-status", vh::cat(vh::status_name(st), " for packet ", a, how)); return; }
        expect(p, sent[a], a, how);
        if(reuse && r.coin()) { char c; if(p.get_bytes_remaining()) p.extract_raw(&c, 1); }
    }
    VH_CHECK(in.in_pos == in.in.size(), "left-over", in.in.size() - in.in_pos, how);
    Packet none;
    in.block_pct = 0;
    St st = in.receive(none);
    VH_CHECK(st == in.at_end, "end-status", vh::status_name(st), " instead of ", vh::status_name(in.at_end));
    vh::count("packets", sent.size());
    vh::count("interruptions", in.blocks + out.send_blocks);
    vh::distinct(vh::hash_str(out.out, in.max_chunk));
    vh::sample("streams", how, 3);
}

// One interruption at each position of a message: either nothing has been consumed, or the message is delivered
VH_SECTION(interrupted_everywhere, 6000, 30000)
{
    Rng &r = rng;
    std::string a = payload(r, 60), b = payload(r, 60);
    MockSocket out(&r);
    Packet pa, pb; fill(pa, a); fill(pb, b);
    out.send(pa); out.send(pb);
    const size_t n = out.out.size();
    for(size_t at = 0; at <= n; at++)
    {
        for(int twice = 1; twice <= 2; twice++)
        {
            MockSocket in(&r);
            in.in = out.out;
            for(int t = 0; t < twice; t++) in.stops.emplace_back(at, St::WouldBlock);
            const std::string *want[] = {&a, &b};
            Packet p;
            for(int k = 0; k < 2; k++)
            {
                St st;
                for(;;)
                {
                    const size_t before = in.in_pos;
                    st = in.receive(p);
                    if(st != St::WouldBlock) break;
                    VH_CHECK(in.in_pos == before, "blocked-but-consumed", in.in_pos - before, " bytes gone, interrupted at ", at, " of ", n);
                }
                VH_CHECK(st == St::Success, "receive-status", vh::status_name(st), " interrupted at ", at, " of ", n);
                if(st == St::Success) expect(p, *want[k], (size_t)k, vh::cat(" interrupted at ", at));
            }
            vh::evaluated();
        }
        // A timeout within a message is reported as something that can't be mistaken for nothing having been consumed
        MockSocket in(&r);
        in.in = out.out;
        in.stops.emplace_back(at, St::Timeout);
        Packet p;
        const size_t first = 4 + a.size();
        St st = in.receive(p);
        if(st == St::Timeout) VH_CHECK(in.in_pos == 0, "timeout-but-consumed", in.in_pos, " bytes gone");
        if(at == 0) VH_CHECK(st == St::Timeout, "timeout-status", vh::status_name(st));
        if(at >= first) VH_CHECK(st == St::Success, "receive-status", vh::status_name(st), " interrupted at ", at);
        if(st == St::Success) expect(p, a, 0, vh::cat(" timeout at ", at));
        if(at == 0 && st == St::Timeout) { st = in.receive(p); VH_CHECK(st == St::Success, "receive-status", vh::status_name(st), " after a timeout"); if(st == St::Success) expect(p, a, 0, " after a timeout"); }
        vh::evaluated();
    }
    vh::count("positions", n + 1);
    vh::distinct(vh::hash_str(out.out));
}

// The connection ends at any position
VH_SECTION(cut_short, 6000, 40000)
{
    Rng &r = rng;
    std::vector<std::string> sent;
    MockSocket out(&r);
    std::vector<size_t> ends;
    for(size_t a = 1 + r.below(3); a > 0; a--) { sent.push_back(payload(r, 100)); Packet p; fill(p, sent.back()); out.send(p); ends.push_back(out.out.size()); }
    for(size_t cut = 0; cut <= out.out.size(); cut += 1 + (out.out.size() > 400 ? r.below(20) : 0))
    {
        MockSocket in(&r);
        in.in = out.out.substr(0, cut);
        in.max_chunk = r.pick<size_t>({1, 7, SIZE_MAX});
        in.at_end = r.pick<St>({St::Disconnected, St::ReceiveError});
        Packet p;
        if(r.coin()) p << std::string("left over from before, which is fairly long");
        size_t got = 0;
        for(;;)
        {
            St st = in.receive(p);
            if(st != St::Success) { VH_CHECK(st != St::WouldBlock && st != St::Timeout, "cut-status", vh::status_name(st)); break; }
            if(got >= sent.size() || ends[got] > cut) { vh::violation("cut-success", vh::cat("success after ", cut, " of ", out.out.size(), " bytes")); break; }
            expect(p, sent[got], got, vh::cat(" cut at ", cut));
            got++;
        }
        size_t whole = 0;
        while(whole < ends.size() && ends[whole] <= cut) whole++;
        VH_CHECK(got == whole, "cut-lost", got, " of ", whole, " packets which had arrived, cut at ", cut);
        vh::evaluated();
    }
    // failing to send is reported, and what did get through is a beginning of what was to be sent
    MockSocket f(&r);
    f.send_fail_at = r.below(out.out.size());
    f.max_send = r.pick<size_t>({1, 9, SIZE_MAX});
    bool failed = false;
    for(auto &s : sent) { Packet p; fill(p, s); if(f.send(p) != St::Success) { failed = true; break; } }
    VH_CHECK(failed && out.out.compare(0, f.out.size(), f.out) == 0, "send-failure", failed ? "wrong bytes" : "not reported");
    vh::count("cut streams");
    vh::distinct(vh::hash_str(out.out, 3));
}

// Real sockets, with the system calls interrupted and cut short, the ends running in threads of their own
static void real_case(Rng &r, fr::TcpSocket &a, fr::TcpSocket &b, const std::string &kind, bool small = false)
{
    struct Way { std::vector<std::string> messages; };
    const bool both = r.coin();
    Way ways[2];
    for(int w = 0; w < (both ? 2 : 1); w++)
    {
        size_t n = 1 + r.below(25);
        size_t most = r.pick<size_t>({20, 2000, 150000});
        if(most > 100000) n = 1 + n % 5;
        if(small) most = std::min<size_t>(most, 8000);
        for(size_t k = 0; k < n; k++) ways[w].messages.push_back(payload(r, most));
    }
    const bool blocking[4] = {r.coin(), r.coin(), false, false};
    a.set_blocking(blocking[0]);
    b.set_blocking(blocking[1]);
    uint64_t seeds[4] = {r.fork(), r.fork(), r.fork(), r.fork()};
    const unsigned eintr = (unsigned)r.below(3) * 15, again = (unsigned)r.below(3) * 20, shorts = (unsigned)r.below(3) * 40;
    const size_t chunk = r.pick<size_t>({1, 10, 1000});
    std::atomic<bool> stop{false};
    auto sender = [&](fr::TcpSocket *s, Way *w, uint64_t seed) {
        vn::HookScope h;
        Rng own(seed);
        h->rng = &own; h->eintr_pct = eintr; h->again_pct = again; h->short_pct = shorts; h->max_chunk = std::max<size_t>(chunk, 100);
        Packet reused;
        for(auto &m : w->messages)
        {
            reused.clear();
            fill(reused, m);
            St st = s->send(reused);
            if(st != St::Success) { vh::violation("real-send", vh::cat(kind, ": ", vh::status_name(st), " sending ", m.size(), " bytes")); stop = true; return; }
            if(own.chance(1, 6)) std::this_thread::sleep_for(std::chrono::milliseconds(own.below(4)));
        }
        vh::count("injected interruptions", h->eintrs + h->agains + h->shorts);
    };
    auto receiver = [&](fr::TcpSocket *s, Way *w, uint64_t seed) {
        vn::HookScope h;
        Rng own(seed);
        size_t total = 0;
        for(auto &m : w->messages) total += m.size();
        h->rng = &own; h->eintr_pct = eintr; h->again_pct = again; h->short_pct = total < 30000 || chunk > 500 ? shorts : 0; h->max_chunk = chunk;
        Packet p;
        const bool fresh = own.coin();
        for(size_t k = 0; k < w->messages.size(); k++)
        {
            if(fresh) p = Packet();
            St st;
            for(;;)
            {
                const uint64_t before = h->recv_bytes;
                st = s->receive(p);
                if(st != St::WouldBlock && st != St::Timeout) break;
                VH_CHECK(h->recv_bytes == before, "real-blocked-but-consumed", kind, ": ", h->recv_bytes - before, " bytes gone");
                vh::count("blocked receives");
                if(stop) return;
                if(own.chance(1, 4)) std::this_thread::yield();
            }
            if(st != St::Success) { vh::violation("real-receive", vh::cat(kind, ": ", vh::status_name(st), " for packet ", k, " of ", w->messages[k].size(), " bytes")); return; }
            expect(p, w->messages[k], k, vh::cat(" over ", kind));
        }
        vh::count("packets over real sockets", w->messages.size());
        vh::count("injected interruptions", h->eintrs + h->agains + h->shorts);
    };
    std::vector<std::thread> t;
    t.emplace_back(sender, &a, &ways[0], seeds[0]);
    t.emplace_back(receiver, &b, &ways[0], seeds[1]);
    for(auto &x : t) x.join();
    t.clear();
    if(both && !stop)
    {
        t.emplace_back(sender, &b, &ways[1], seeds[2]);
        t.emplace_back(receiver, &a, &ways[1], seeds[3]);
        for(auto &x : t) x.join();
    }
    // after which there's nothing else
    b.set_blocking(false);
    Packet p;
    if(!stop) { St st = b.receive(p); VH_CHECK(st == St::WouldBlock, "real-extra", kind, ": ", vh::status_name(st)); }
    a.disconnect();
    if(!stop) { St st; do st = b.receive(p); while(st == St::WouldBlock); VH_CHECK(st == St::Disconnected, "real-end", kind, ": ", vh::status_name(st)); }
    vh::distinct(vh::mix(seeds[0]));
}
VH_SECTION(real_pairs, 1600, 12000)
{
    auto p = rng.coin() ? vn::pair() : vn::tcp_pair();
    const bool small = rng.coin();
    if(small) { vn::buffers(p.first.fd, 2304); vn::buffers(p.second.fd, 2304); }
    int32_t x = p.first.release(), y = p.second.release();
    fr::TcpSocket a, b;
    a.set_descriptor(&x);
    b.set_descriptor(&y);
    real_case(rng, a, b, "pair", small);
}
// More than sockets hold
VH_SECTION(large, 240, 1500)
{
    Rng &r = rng;
    auto p = r.coin() ? vn::pair() : vn::tcp_pair();
    if(r.below(4)) { const int n = r.pick({60000, 150000, 400000, 1500000}); vn::buffers(p.first.fd, n); vn::buffers(p.second.fd, n); }
    int32_t x = p.first.release(), y = p.second.release();
    fr::TcpSocket a, b;
    a.set_descriptor(&x);
    b.set_descriptor(&y);
    std::vector<std::string> messages;
    for(size_t n = 1 + r.below(4); n > 0; n--) messages.push_back(vn::stream(vn::large(r, messages.empty() ? 24000000 : 3000000), r.u64()));
    if(r.coin()) messages.insert(messages.begin() + (long)r.below(messages.size()), payload(r, 50));
    const bool blocking[2] = {r.coin(), r.coin()};
    a.set_blocking(blocking[0]);
    b.set_blocking(blocking[1]);
    b.set_receive_timeout((uint32_t)vh::patience(30000));
    const unsigned shorts = r.coin() ? 40 : 0;
    const size_t most = r.pick<size_t>({70000, 300000, 2000000});
    const uint64_t seeds[2] = {r.fork(), r.fork()};
    St sent = St::Success;
    std::thread t([&]{
        vn::HookScope h;
        Rng own(seeds[0]);
        h->rng = &own; h->short_pct = shorts; h->again_pct = shorts / 2; h->eintr_pct = shorts / 4; h->max_chunk = most;
        for(auto &m : messages) { Packet q; fill(q, m); sent = a.send(q); if(sent != St::Success) { a.shutdown(); return; } }
        a.disconnect();
    });
    vn::HookScope h;
    Rng own(seeds[1]);
    h->rng = &own; h->short_pct = shorts; h->max_chunk = most;
    Packet q;
    bool fine = true;
    const auto begin = vn::Clock::now();
    for(size_t k = 0; k < messages.size() && fine; k++)
    {
        St st;
        if(own.coin()) std::this_thread::sleep_for(std::chrono::milliseconds(own.below(8)));
        for(;;)
        {
            const uint64_t before = h->recv_bytes;
            st = b.receive(q);
            if(st != St::WouldBlock || blocking[1] || vn::ms_since(begin) > vh::patience(40000)) break;
            VH_CHECK(h->recv_bytes == before, "real-blocked-but-consumed", h->recv_bytes - before, " bytes gone");
        }
        VH_CHECK(st == St::Success, "large-receive", vh::status_name(st), " for packet ", k, " of ", messages[k].size(), " bytes");
        fine = st == St::Success;
        if(fine) expect(q, messages[k], k, " (large)");
    }
    if(fine) { St st; do st = b.receive(q); while(st == St::WouldBlock && !blocking[1] && vn::ms_since(begin) < vh::patience(40000)); VH_CHECK(st == St::Disconnected, "large-end", vh::status_name(st)); }
    b.disconnect();
    t.join();
    if(fine) VH_CHECK(sent == St::Success, "large-send", vh::status_name(sent));
    vh::count("large packets", messages.size());
    vh::distinct(vh::mix(seeds[0]));
}
VH_SECTION(real_connections, 640, 4000)
{
    fr::TcpListener l;
    fr::TcpSocket a, b;
    int port = 0;
    if(l.listen("0") != St::Success) { vh::violation("listen", strerror(errno)); return; }
    port = vn::port_of(l.get_socket_descriptor());
    if(a.connect("127.0.0.1", std::to_string(port), std::chrono::seconds(5)) != St::Success) { vh::violation("connect", strerror(errno)); return; }
    if(l.accept(b) != St::Success) { vh::violation("accept", strerror(errno)); return; }
    if(rng.coin()) real_case(rng, a, b, "client to server");
    else real_case(rng, b, a, "server to client");
}
// Waiting in blocking mode with a timeout, for packets which arrive in one piece
VH_SECTION(timeouts, 480, 2000)
{
    Rng &r = rng;
    auto p = vn::pair();
    int32_t y = p.second.release();
    fr::TcpSocket b;
    b.set_descriptor(&y);
    b.set_receive_timeout(1 + (uint32_t)r.below(4));
    std::vector<std::string> sent, wire;
    for(size_t k = 1 + r.below(6); k > 0; k--)
    {
        sent.push_back(r.bytes(r.below(100)));
        MockSocket out(&r);
        Packet q; fill(q, sent.back());
        out.send(q);
        wire.push_back(out.out);
    }
    uint64_t seed = r.fork();
    std::thread t([&]{
        Rng own(seed);
        for(auto &m : wire)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(own.below(12000)));
            vn::write_all(p.first.fd, m);
        }
    });
    vn::HookScope h;
    Packet q;
    for(size_t k = 0; k < sent.size(); k++)
    {
        St st;
        for(;;)
        {
            const uint64_t before = h->recv_bytes;
            st = b.receive(q);
            if(st != St::Timeout) break;
            VH_CHECK(h->recv_bytes == before, "timeout-but-consumed", h->recv_bytes - before);
            vh::count("timed out receives");
        }
        VH_CHECK(st == St::Success, "timeout-receive", vh::status_name(st), " for packet ", k);
        if(st != St::Success) break;
        expect(q, sent[k], k, " after timeouts");
    }
    t.join();
    vh::distinct(vh::mix(seed));
}
// Small packets sent by a peer of our own in one go, or in dribs and drabs
VH_SECTION(segmented_peer, 1200, 6000)
{
    Rng &r = rng;
    auto p = vn::tcp_pair();
    int32_t x = p.first.release();
    fr::TcpSocket s;
    s.set_descriptor(&x);
    const bool blocking = r.coin();
    s.set_blocking(blocking);
    std::vector<std::string> sent;
    std::string stream;
    MockSocket out(&r);
    for(size_t a = 1 + r.below(5); a > 0; a--) { sent.push_back(payload(r, 50)); Packet q; fill(q, sent.back()); out.send(q); }
    stream = out.out;
    uint64_t seed = r.fork();
    std::thread peer([&]{
        Rng own(seed);
        for(size_t at = 0; at < stream.size();)
        {
            size_t n = own.chance(1, 3) ? stream.size() : 1 + own.below(8);
            n = std::min(n, stream.size() - at);
            vn::write_all(p.second.fd, stream.substr(at, n));
            at += n;
            if(own.coin()) std::this_thread::sleep_for(std::chrono::microseconds(own.below(400)));
        }
        p.second.reset();
    });
    Packet q;
    vn::HookScope h;
    for(size_t a = 0; a < sent.size(); a++)
    {
        St st;
        for(;;)
        {
            const uint64_t before = h->recv_bytes;
            st = s.receive(q);
            if(st != St::WouldBlock && st != St::Timeout) break;
            VH_CHECK(!blocking && st == St::WouldBlock, "peer-blocked", vh::status_name(st));
            VH_CHECK(h->recv_bytes == before, "real-blocked-but-consumed", h->recv_bytes - before);
            vh::count("blocked receives");
        }
        VH_CHECK(st == St::Success, "peer-receive", vh::status_name(st), " for packet ", a);
        if(st != St::Success) break;
        expect(q, sent[a], a, " from a peer");
    }
    peer.join();
    St st;
    do st = s.receive(q); while(st == St::WouldBlock);
    VH_CHECK(st == St::Disconnected, "real-end", vh::status_name(st));
    vh::count("segmented streams");
    vh::distinct(vh::hash_str(stream, seed));
}
