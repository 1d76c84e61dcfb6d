// C12: WebSocket frames sent are valid RFC 6455 frames that decode to the same frame
#define VH_MAIN
#include <vh.h>
#include <vh_mock.h>
#include <vh_net.h>
#include <vh_ws.h>
#include <frnetlib/TcpSocket.h>
using vh::Rng;
using vh::MockSocket;
using fr::Socket;
using fr::WebFrame;
typedef Socket::Status St;
static const unsigned OPCODES[] = {0, 1, 2, 8, 9, 10};

struct Spec { bool client, fin; unsigned opcode; std::string payload; };
static Spec spec(Rng &r, size_t most)
{
    Spec s;
    s.client = r.coin();
    s.fin = r.coin();
    s.opcode = OPCODES[r.below(6)];
    s.payload = r.bytes(r.size(most));
    return s;
}
static std::string about(const Spec &s) { return vh::cat(s.client ? "client" : "server", " frame, opcode ", s.opcode, s.fin ? ", final, " : ", not final, ", s.payload.size(), " bytes"); }
static void set(WebFrame &f, const Spec &s)
{
    f.set_opcode(vw::opcode(s.opcode));
    f.set_final(s.fin);
    f.set_payload(s.payload);
}
static void unchanged(WebFrame &f, const Spec &s, const char *when)
{
    VH_CHECK(f.get_payload() == s.payload, "payload-changed", when, ": ", about(s));
    VH_CHECK((unsigned)f.get_opcode() == s.opcode && f.is_final() == s.fin, "header-changed", when, ": ", about(s));
}
// One frame off the wire
static bool verify(const std::string &wire, size_t &at, const Spec &s, vw::Frame &got)
{
    const size_t from = at;
    if(!vw::decode(wire, at, got)) { vh::violation("incomplete", vh::cat(about(s), ", sent ", vh::hex(wire.substr(from), 24))); return false; }
    const bool ok = got.fin == s.fin && got.opcode == s.opcode && got.rsv == 0;
    VH_CHECK(ok, "header", about(s), ", sent ", vh::hex(wire.substr(from), 24));
    VH_CHECK(got.masked == s.client, "masking", about(s), ", sent ", vh::hex(wire.substr(from), 24));
    VH_CHECK(got.form == vw::shortest(s.payload.size()), "length-form", about(s), ", sent ", vh::hex(wire.substr(from), 24));
    VH_CHECK(got.payload == s.payload, "payload", about(s), ", decodes to ", got.payload.size(), " bytes ", vh::hex(got.payload, 24));
    return ok && got.payload == s.payload;
}
static void received_by_opposite(Rng &r, const std::string &wire, const std::vector<Spec> &specs)
{
    MockSocket in(&r);
    in.in = wire;
    in.max_chunk = r.pick<size_t>({1, 7, 4000, SIZE_MAX});
    in.block_pct = r.coin() ? 0 : 30;
    std::unique_ptr<WebFrame> f;
    for(size_t n = 0; n < specs.size(); n++)
    {
        if(!f || r.coin()) f = vw::make(!specs[n].client);
        St st;
        do st = in.receive(*f); while(st == St::WouldBlock);
        VH_CHECK(st == St::Success, "not-received", about(specs[n]), ": ", vh::status_name(st));
        if(st != St::Success) return;
        VH_CHECK(f->get_payload() == specs[n].payload && (unsigned)f->get_opcode() == specs[n].opcode && f->is_final() == specs[n].fin, "received-differently",
                 about(specs[n]), " received as opcode ", (unsigned)f->get_opcode(), f->is_final() ? ", final, " : ", not final, ", f->get_payload().size(), " bytes");
        vh::count("received back");
    }
    VH_CHECK(in.in_pos == wire.size(), "bytes-left", wire.size() - in.in_pos);
}

// Some frames over one connection, each perhaps sent again, through a transport which splits, blocks and fails
VH_FUZZ_SECTION(sequences, 72000, 600000)
{
    Rng &r = rng;
    const bool client = r.coin();
    MockSocket out(&r);
    out.max_send = r.pick<size_t>({1, 3, 100, 200000, SIZE_MAX});
    out.send_block_pct = r.coin() ? 0 : (unsigned)r.below(60);
    out.blocking = r.coin();
    std::vector<Spec> sent;
    std::unique_ptr<WebFrame> f;
    for(size_t n = 1 + r.below(5); n > 0; n--)
    {
        Spec s = spec(r, r.chance(1, 12) ? 200000 : 3000);
        s.client = client;
        if(!f || r.coin()) f = vw::make(client);
        set(*f, s);
        if(r.chance(1, 5))
        {
            // it doesn't get through at first
            MockSocket bad(&r);
            bad.send_fail_at = r.below(s.payload.size() + 2 + (client ? 4 : 0));
            if(r.coin()) bad.is_connected = false;
            bad.max_send = r.pick<size_t>({1, SIZE_MAX});
            St st = bad.send(*f);
            VH_CHECK(st != St::Success, "failure-unreported", about(s));
            unchanged(*f, s, "after a failed send");
            vh::count("failed sends");
        }
        const size_t times = 1 + r.below(3);
        for(size_t k = 0; k < times; k++)
        {
            St st = out.send(*f);
            VH_CHECK(st == St::Success, "send", about(s), ": ", vh::status_name(st));
            unchanged(*f, s, "after sending");
            sent.push_back(s);
            if(k) vh::count("sent again");
        }
        vh::distinct(vh::hash_str(s.payload, s.opcode * 4 + s.fin * 2 + s.client));
    }
    size_t at = 0;
    vw::Frame got, last;
    size_t n = 0;
    for(auto &s : sent)
    {
        if(!verify(out.out, at, s, got)) return;
        if(s.client && n) VH_CHECK(memcmp(got.key, last.key, 4) != 0, "same-key", about(s), ": masked with ", vh::hex(std::string((char*)got.key, 4)), " like the frame before");
        last = got;
        n++;
        vh::count(s.client ? "masked frames" : "unmasked frames");
    }
    VH_CHECK(at == out.out.size(), "extra-bytes", out.out.size() - at);
    received_by_opposite(r, out.out, sent);
    if(vh::want_sample("sequences")) vh::sample("sequences", about(sent[0]) + " as " + vh::hex(out.out, 24));
}
// Every size around the changes of form, in both roles, with every opcode and final flag
VH_SECTION(sizes, 430, 430)
{
    const size_t size = index < 400 ? index : 65521 + (index - 400);
    std::string payload = rng.bytes(size);
    for(unsigned v = 0; v < 24; v++)
    {
        Spec s{(v & 1) != 0, (v & 2) != 0, OPCODES[v / 4], payload};
        auto f = vw::make(s.client);
        set(*f, s);
        MockSocket out(&rng);
        St st = out.send(*f);
        VH_CHECK(st == St::Success, "send", about(s), ": ", vh::status_name(st));
        size_t at = 0;
        vw::Frame got;
        if(!verify(out.out, at, s, got)) return;
        VH_CHECK(at == out.out.size(), "extra-bytes", out.out.size() - at);
        unchanged(*f, s, "after sending");
        received_by_opposite(rng, out.out, {s});
        vh::count("sizes and roles");
        vh::evaluated();
        vh::distinct(size * 64 + v);
    }
}
// Keys of many frames, by several objects over several connections
VH_SECTION(keys, 600, 4000)
{
    std::unique_ptr<WebFrame> f[3];
    for(auto &x : f) x = vw::make(true);
    MockSocket one(&rng), other(&rng);
    MockSocket *out[2] = {&one, &other};
    uint32_t last = 0;
    std::set<uint32_t> seen;
    const size_t n = 200;
    for(size_t a = 0; a < n; a++)
    {
        auto &o = *out[rng.below(2)];
        auto &x = f[rng.below(3)];
        if(rng.chance(1, 4)) x->set_payload(rng.bytes(rng.below(10)));
        const size_t from = o.out.size();
        o.send(*x);
        size_t at = from;
        vw::Frame got;
        if(!vw::decode(o.out, at, got) || !got.masked) { vh::violation("key-missing", vh::hex(o.out.substr(from), 24)); return; }
        uint32_t k;
        memcpy(&k, got.key, 4);
        VH_CHECK(!a || k != last, "same-key", "twice in a row: ", vh::hex(std::string((char*)got.key, 4)));
        seen.insert(k);
        last = k;
    }
    VH_CHECK(seen.size() > n - 8, "same-key", "only ", seen.size(), " different keys in ", n, " frames");
    vh::count("keys", n);
    vh::distinct(vh::mix(last));
}
// Over real sockets, with system calls interrupted and cut short, read by a peer of our own
VH_SECTION(real, 900, 6000)
{
    Rng &r = rng;
    auto p = r.coin() ? vn::pair() : vn::tcp_pair();
    const bool small = r.coin();
    if(small) { vn::buffers(p.first.fd, 2304); vn::buffers(p.second.fd, 2304); }
    int32_t x = p.first.release();
    fr::TcpSocket s;
    s.set_descriptor(&x);
    s.set_blocking(r.coin());
    const bool client = r.coin();
    std::vector<Spec> sent;
    for(size_t n = 1 + r.below(5); n > 0; n--) { sent.push_back(spec(r, small ? 9000 : r.pick<size_t>({300, 400000}))); sent.back().client = client; }
    uint64_t seed = r.fork();
    std::thread t([&]{
        vn::HookScope h;
        Rng own(seed);
        h->rng = &own; h->eintr_pct = 10; h->again_pct = 20; h->short_pct = (unsigned)own.below(60); h->max_chunk = 500;
        for(auto &one : sent)
        {
            auto f = vw::make(client);
            set(*f, one);
            St st = s.send(*f);
            VH_CHECK(st == St::Success, "send", about(one), ": ", vh::status_name(st));
            unchanged(*f, one, "after sending");
        }
        vh::count("injected interruptions", h->eintrs + h->agains + h->shorts);
        s.disconnect();
    });
    std::string wire;
    for(;;)
    {
        bool ended;
        std::string got = vn::read_some(p.second.fd, 1 + r.below(100000), 20000, &ended);
        wire += got;
        if(ended || got.empty()) break;
    }
    t.join();
    size_t at = 0;
    vw::Frame got;
    for(auto &one : sent)
        if(!verify(wire, at, one, got)) return;
    VH_CHECK(at == wire.size(), "extra-bytes", wire.size() - at);
    vh::count("frames over real sockets", sent.size());
    vh::distinct(vh::hash_str(wire, 2));
}
// More than fits into a socket, so that sending stops and goes on at any place
VH_SECTION(large, 180, 1500)
{
    Rng &r = rng;
    auto p = r.coin() ? vn::pair() : vn::tcp_pair();
    if(r.below(4)) { const int n = r.pick({60000, 150000, 400000, 1500000}); vn::buffers(p.first.fd, n); vn::buffers(p.second.fd, n); }
    int32_t x = p.first.release();
    fr::TcpSocket s;
    s.set_descriptor(&x);
    s.set_blocking(r.coin());
    s.set_send_timeout((uint32_t)vh::patience(30000));
    const bool client = r.coin();
    std::vector<Spec> sent;
    for(size_t n = 1 + r.below(3); n > 0; n--) { sent.push_back(spec(r, 300)); sent.back().client = client; sent.back().payload = vn::stream(vn::large(r, sent.size() == 1 ? 24000000 : 2000000), r.u64()); }
    const uint64_t seed = r.fork();
    std::thread t([&]{
        vn::HookScope h;
        Rng own(seed);
        h->rng = &own; h->eintr_pct = 10; h->again_pct = 20; h->short_pct = (unsigned)own.below(60); h->max_chunk = own.pick<size_t>({70000, 300000, 2000000});
        for(auto &one : sent)
        {
            auto f = vw::make(client);
            set(*f, one);
            St st = s.send(*f);
            VH_CHECK(st == St::Success, "large-send", one.payload.size(), " bytes: ", vh::status_name(st));
            if(st != St::Success) break;
        }
        s.disconnect();
    });
    std::string wire;
    for(;;)
    {
        bool ended;
        std::string got = vn::read_some(p.second.fd, 1 + r.below(400000), 20000, &ended);
        wire += got;
        if(r.chance(1, 30)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if(ended || got.empty()) break;
    }
    p.second.reset();
    t.join();
    size_t at = 0;
    vw::Frame got;
    for(auto &one : sent)
        if(!verify(wire, at, one, got)) return;
    VH_CHECK(at == wire.size(), "extra-bytes", wire.size() - at);
    vh::count("large frames", sent.size());
    vh::distinct(vh::mix(seed));
}
// Longer than 32 bits can tell
struct Counting : MockSocket
{
    explicit Counting(Rng *r) : MockSocket(r) {}
    std::string head;
    uint64_t total = 0;
    St send_raw(const char *data, size_t size, size_t &sent) override
    {
        if(head.size() < 64) head.append(data + sent, std::min<size_t>(size - sent, 64 - head.size()));
        total += size - sent;
        sent = size;
        return St::Success;
    }
    uint64_t left = 0;
    St receive_raw(void *data, size_t size, size_t &received) override
    {
        if(in_pos < in.size()) return MockSocket::receive_raw(data, size, received);
        received = std::min<uint64_t>(size, left);
        if(!received) return St::Disconnected;
        memset(data, 'y', received);
        left -= received;
        return St::Success;
    }
};
VH_SECTION_X(huge, 1, 1, false, 240)
{
    const uint64_t size = (1ull << 32) + 7;
    {
        Counting out(&rng);
        auto f = vw::make(false);
        f->set_opcode(WebFrame::Opcode::Binary);
        f->set_payload(std::string(size, 'x'));
        St st = out.send(*f);
        const std::string want = std::string("\x82\x7f\0\0\0\x01\0\0\0\x07", 10);
        VH_CHECK(st == St::Success && out.head.compare(0, 10, want) == 0 && out.total == size + 10, "huge", vh::status_name(st), ", ", out.total, " bytes: ", vh::hex(out.head, 20));
    }
    {
        Counting in(&rng);
        in.in = std::string("\x82\x7f\0\0\0\x01\0\0\0\x07", 10);
        in.left = size;
        auto f = vw::make(true);
        St st = in.receive(*f);
        size_t got = 0;
        if(st == St::Success) got = f->get_payload().size();
        VH_CHECK(st == St::Success && got == size && in.left == 0, "huge-receive", vh::status_name(st), ", ", got, " bytes, ", in.left, " left");
    }
    vh::count("frames over 4 GiB", 2);
    vh::distinct(size);
}
// A class of one's own, which says the opcode right away
struct OwnFrame : WebFrame
{
    bool client;
    OwnFrame(bool c, Opcode o) : WebFrame(o), client(c) {}
    bool is_client() const override { return client; }
};
// What the opcodes are called, and what a frame is when nothing was said about it
VH_SECTION(names, 120, 400)
{
    typedef WebFrame::Opcode Op;
    const std::vector<std::pair<Op, unsigned>> all = {{Op::Continuation, 0}, {Op::Text, 1}, {Op::Binary, 2}, {Op::Disconnect, 8}, {Op::Ping, 9}, {Op::Pong, 10}};
    for(auto &o : all)
        for(int client = 0; client < 2; client++)
        {
            const unsigned said = (unsigned)rng.below(8); // 1: opcode, 2: final, 4: payload
            MockSocket out(&rng);
            auto f = vw::make(client);
            const bool own = said & 1 && rng.coin();
            if(own) f.reset(new OwnFrame(client, o.first));
            const bool fin = rng.coin();
            const std::string payload = rng.bytes(rng.below(130));
            if(said & 1 && !own) f->set_opcode(o.first);
            if(said & 2) f->set_final(fin);
            if(said & 4) f->set_payload(payload);
            vw::Frame g;
            size_t at = 0;
            const St st = out.send(*f);
            const bool whole = st == St::Success && vw::decode(out.out, at, g) && at == out.out.size();
            VH_CHECK(whole, "named", vh::status_name(st), " ", vh::hex(out.out, 20));
            if(!whole) continue;
            VH_CHECK(g.opcode == (said & 1 ? o.second : 1), "opcode-number", "opcode ", g.opcode, " is sent for ", said & 1 ? vh::cat("that of number ", o.second) : "a frame without one");
            VH_CHECK(g.fin == (said & 2 ? fin : true), "final-default", said, " ", g.fin);
            VH_CHECK(g.payload == (said & 4 ? payload : ""), "payload-default", vh::hex(g.payload, 20));
            // And back
            MockSocket in(&rng);
            vw::Frame h;
            h.opcode = o.second;
            h.masked = client;
            for(auto &k : h.key) k = (uint8_t)rng.below(256);
            in.in = vw::encode(h);
            auto r = vw::make(!client);
            const St back = in.receive(*r);
            VH_CHECK(back == St::Success && r->get_opcode() == o.first && r->is_final() && r->get_payload().empty(), "opcode-number", "opcode ", o.second, " is received as ", (int)r->get_opcode());
            vh::distinct(vh::hash_str(out.out));
        }
    vh::evaluated(all.size() * 4);
    vh::count("named opcodes", all.size() * 2);
}
