// C26: HTTP messages are exchanged whole over connections
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_conn.h>
#include <vh_http.h>
#include <vh_pair.h>
using namespace vc;
using fr::HttpRequest;
using fr::HttpResponse;
using std::chrono::milliseconds;
typedef fr::Http Http;

#define PATIENCE vh::patience(30000)

// ---- a message, by its parts ----
struct Spec
{
    bool request = true;
    int method = 0, version = 2, status = 200;
    std::string uri = "/", body;
    vhttp::Pairs get, post, headers;
};
static Spec spec(Rng &r, bool request, bool large = true)
{
    Spec s;
    s.request = request;
    s.method = (int)r.below(5);
    s.version = 1 + (int)r.below(2);
    s.status = (int)r.range(100, 999);
    s.uri = vhttp::uri(r);
    s.headers = vhttp::headers(r);
    if(request && r.coin()) s.get = vhttp::arguments(r);
    if(request && s.method == 1 && r.coin()) s.post = vhttp::arguments(r);
    if(s.post.empty())
    {
        do s.body = vhttp::body(r); while(!large && s.body.size() > 20000);
        if(r.chance(1, 6)) s.body = r.bytes(large ? r.pick({4096, 4095, 8192, 100000, 16384, 400000}) : r.pick({4096, 4095, 8192, 16384, 20000}));
        if(large && r.chance(1, 60)) s.body = std::string(3000000 + r.below(1000), 'b') + r.bytes(40);
    }
    return s;
}
static void fill(HttpRequest &h, const Spec &s)
{
    h.set_type((Http::RequestType)s.method);
    h.set_uri(s.uri);
    for(auto &g : s.get) h.get(g.first) = g.second;
    for(auto &p : s.post) h.post(p.first) = p.second;
}
static void fill(HttpResponse &h, const Spec &s) { h.set_status((Http::RequestStatus)s.status); }
template<typename H> static H made(const Spec &s)
{
    H h;
    fill(h, s);
    h.set_version((Http::RequestVersion)s.version);
    for(auto &p : s.headers) h.header(p.first) = p.second;
    if(s.post.empty()) h.set_body(s.body);
    return h;
}
static std::string differs(HttpRequest &h, const Spec &s)
{
    if((int)h.get_type() != s.method) return "method";
    if(h.get_uri() != s.uri) return "uri " + h.get_uri();
    for(auto &g : s.get) if(!h.get_exists(g.first) || h.get(g.first) != g.second) return "query argument " + g.first;
    for(auto &p : s.post) if(!h.post_exists(p.first) || h.post(p.first) != p.second) return "form argument " + p.first;
    return "";
}
static std::string differs(HttpResponse &h, const Spec &s) { return (int)h.get_status() != s.status ? "status" : ""; }
template<typename H> static std::string mistaken(H &h, const Spec &s)
{
    std::string d = differs(h, s);
    if(!d.empty()) return d;
    if((int)h.get_version() != s.version) return "version";
    for(auto &p : s.headers) if(!h.header_exists(p.first) || h.header(p.first) != p.second) return "header " + p.first;
    if(s.post.empty() && h.get_body() != s.body) return vh::cat("body of ", h.get_body().size(), " bytes instead of ", s.body.size(), h.get_body().size() == s.body.size() ? ", changed" : "");
    return "";
}
static std::string brief(const Spec &s) { return vh::cat(s.request ? "request" : "response", " with ", s.headers.size(), " headers, ", s.get.size(), "+", s.post.size(), " arguments and ", s.body.size(), " bytes"); }

// ---- what is sent is on the wire, once ----
VH_SECTION_X(sends, 1400, 20000, false, 180)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(rng.chance(3, 4)) c.s->set_send_timeout(60000);
    if(!c.open(k.w)) return;
    const bool blocking = rng.coin(), narrow = rng.coin(), large = !narrow && rng.chance(1, 3);
    if(large) { int b = rng.pick({60000, 150000, 400000}); vn::buffers(c.fd(), b); vn::buffers(c.peer_fd(), b); }
    if(narrow) { int b = rng.pick({4000, 20000}); vn::buffers(c.fd(), b); vn::buffers(c.peer_fd(), b); }
    if(!blocking) c.s->set_blocking(false);
    const std::string what = vh::cat(blocking ? "" : "non-blocking ", c.name);
    struct Item { bool raw; HttpRequest q; HttpResponse a; bool request; std::string text; };
    std::vector<Item> items;
    std::string expected;
    for(size_t n = 1 + rng.below(4); n > 0; n--)
    {
        items.emplace_back();
        Item &i = items.back();
        i.raw = rng.chance(1, 5);
        i.request = rng.coin();
        if(i.raw) i.text = rng.bytes(1 + rng.below(5000));
        else
        {
            Spec s = spec(rng, i.request, !narrow);
            if(large && s.post.empty()) s.body = rng.bytes(rng.pick({70000, 140000, 300000, 1000000, 3000000}) + rng.below(1000));
            if(i.request) { i.q = made<HttpRequest>(s); i.text = i.q.construct(c.s->get_remote_address()); }
            else { i.a = made<HttpResponse>(s); i.text = i.a.construct(c.s->get_remote_address()); }
        }
        expected += i.text;
    }
    std::string arrived, excess;
    std::atomic<bool> sent{false}, failed{false};
    auto last = vn::Clock::now();
    const int lazy = narrow || large ? (int)rng.below(3) : 0;
    std::thread reader([&]{
        if(lazy == 1) std::this_thread::sleep_for(milliseconds(20));
        while(arrived.size() < expected.size())
        {
            const std::string more = c.take(std::min<size_t>(expected.size() - arrived.size(), lazy == 2 ? 20000 : SIZE_MAX), 200);
            arrived += more;
            if(!more.empty()) last = vn::Clock::now();
            else if(vn::ms_since(last) > (sent && failed ? 400 : PATIENCE)) break;
        }
        // More than there should be, or something else: no use waiting for it to end
        while(!sent && excess.empty() && arrived == expected) excess = c.take(1, 15);
        if(!sent && (!excess.empty() || arrived != expected)) ::shutdown(c.peer_fd(), SHUT_RDWR);
        while(!sent) std::this_thread::sleep_for(milliseconds(1));
        if(excess.empty()) excess = c.take(1, 15);
    });
    {
        vn::HookScope h;
        Rng own(rng.fork());
        h->rng = &own;
        if(rng.coin()) { h->eintr_pct = 20; h->short_pct = 40; h->max_chunk = 700; if(!blocking) h->again_pct = 20; }
        if(large && rng.coin()) { h->short_pct = 90; h->max_chunk = rng.pick({30000, 100000, 200000}); if(!blocking) h->again_pct = 30; }
        for(auto &i : items)
        {
            if(i.raw)
            {
                size_t n = 0;
                St st;
                do st = c.s->send_raw(i.text.data(), i.text.size(), n); while(!blocking && st == St::WouldBlock);
                VH_CHECK(st == St::Success && n == i.text.size(), "raw-send", what, ": ", fr::Socket::status_to_string(st));
                continue;
            }
            const St st = i.request ? c.s->send(i.q) : c.s->send(i.a);
            if(st != St::Success) failed = true;
            VH_CHECK(st == St::Success, "send-status", what, ": ", fr::Socket::status_to_string(st), " for ", vh::show(i.text, 200));
            const std::string again = i.request ? i.q.construct(c.s->get_remote_address()) : i.a.construct(c.s->get_remote_address());
            if(again != i.text) failed = true;
            VH_CHECK(again == i.text, "send-changes-message", what);
            vh::count("messages sent");
        }
        if(large) vh::count("large messages through medium buffers", items.size());
        vh::count("sends cut short", h->shorts);
        vh::count("sends interrupted or told to wait", h->eintrs + h->agains);
    }
    sent = true;
    reader.join();
    if(arrived != expected)
    {
        size_t at = 0;
        while(at < std::min(arrived.size(), expected.size()) && arrived[at] == expected[at]) at++;
        vh::violation("wire-differs", vh::cat(what, ": ", arrived.size(), " bytes instead of ", expected.size(), ", from ", at, " on ", vh::show(arrived.substr(at, 60)), " instead of ", vh::show(expected.substr(at, 60))));
    }
    VH_CHECK(excess.empty(), "sent-more", what);
    VH_CHECK(c.s->connected() && c.s->get_blocking() == blocking, "send-changes-state", what);
    vh::distinct(vh::hash_str(expected));
    if(vh::want_sample("sends")) vh::sample("sends", vh::cat(what, ": ", items.size(), " items, ", expected.size(), " bytes"));
}
// ---- a peer which doesn't read: a send gives up after its timeout, and what got out is the beginning of the message ----
VH_SECTION_X(unread, 70, 1000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    const uint32_t t = (uint32_t)rng.range(20, 100);
    if(!c.open(k.w)) return;
    c.s->set_send_timeout(t);
    vn::buffers(c.fd(), 20000);
    vn::buffers(c.peer_fd(), 20000);
    HttpResponse h;
    h.set_body(rng.bytes(2000000));
    const std::string text = h.construct(c.s->get_remote_address());
    auto b = vn::Clock::now();
    const St st = c.s->send(h);
    const double ms = vn::ms_since(b);
    VH_CHECK(st == St::Timeout, "unread-status", c.name, ": ", fr::Socket::status_to_string(st));
    VH_CHECK(ms >= t - 10.5, "timeout-early", c.name, " after ", ms, " of ", t, " ms");
    const std::string got = c.take(text.size(), 300);
    VH_CHECK(got.size() < text.size() && text.compare(0, got.size(), got) == 0, "unread-wire", c.name, ": ", got.size(), " bytes");
    vh::count("sends which timed out");
    vh::distinct(vh::mix(index));
}

// ---- requests and responses in turns between two library sockets ----
enum Mode { Blocking, Polling, Timing };
struct Side
{
    fr::Socket &s;
    Mode mode;
    Rng r;
    uint64_t waits = 0;
    std::string error;
    Side(fr::Socket &sock, Mode m, uint64_t seed) : s(sock), mode(m), r(seed)
    {
        if(m == Polling) s.set_blocking(false);
        if(m == Timing) s.set_receive_timeout(15);
    }
    bool fail(const std::string &e) { if(error.empty()) error = e; s.shutdown(); return false; }
    template<typename H> bool send(const Spec &m)
    {
        const H h = made<H>(m);
        St st = s.send(h);
        return st == St::Success || fail(vh::cat("sending ", brief(m), ": ", fr::Socket::status_to_string(st)));
    }
    template<typename H> bool receive(const Spec &m, bool fresh)
    {
        H h;
        if(!fresh) h = made<H>(spec(r, m.request)), h = H();
        St st;
        auto b = vn::Clock::now();
        for(;;)
        {
            st = s.receive(h);
            const bool wait = (st == St::WouldBlock && mode == Polling) || (st == St::Timeout && mode == Timing);
            if(!wait) break;
            waits++;
            if(vn::ms_since(b) > PATIENCE) return fail("nothing arrived: " + brief(m));
            if(mode == Polling && r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        if(st != St::Success) return fail(vh::cat("receiving ", brief(m), ": ", fr::Socket::status_to_string(st)));
        const std::string d = mistaken(h, m);
        return d.empty() || fail("received another " + brief(m) + ": " + d);
    }
};
static void faults(Rng &r, bool nonblocking)
{
    auto &h = vn::hook();
    h.rng = &r;
    h.eintr_pct = 10;
    h.short_pct = 30;
    h.max_chunk = 2000;
    if(nonblocking) h.again_pct = 10;
}
VH_SECTION_X(turns, 400, 8000, false, 240)
{
    Pair p((Type)(index % 3 == 2 && rng.chance(2, 3) ? Tls : index % 3));
    if(!p.open()) return;
    const bool narrow = rng.coin(); // which is slow
    if(narrow) p.narrow(rng.pick({4000, 30000}));
    const size_t rounds = 1 + rng.below(rng.chance(1, 10) ? 60 : 12);
    std::vector<Spec> q, a;
    for(size_t n = 0; n < rounds; n++) { q.push_back(spec(rng, true, !narrow)); a.push_back(spec(rng, false, !narrow)); }
    const bool faulty = rng.coin(), server_is_connecting = rng.chance(1, 4);
    // A message which arrives late within itself times out, so the timing mode is only for ones which don't
    auto mode = [&]{ return (Mode)rng.below(2); };
    Side client(server_is_connecting ? *p.b : *p.a, mode(), rng.fork()), server(server_is_connecting ? *p.a : *p.b, mode(), rng.fork());
    const std::string what = vh::cat(TYPES[p.type], ", ", rounds, " rounds, client ", client.mode ? "non-blocking" : "blocking", ", server ", server.mode ? "non-blocking" : "blocking", faulty ? ", interrupted" : "");
    std::atomic<size_t> done{0};
    const uint64_t seeds[2] = {rng.fork(), rng.fork()};
    std::thread t([&]{
        vn::HookScope h;
        Rng own(seeds[0]);
        if(faulty) faults(own, server.mode == Polling);
        for(size_t n = 0; n < rounds; n++)
        {
            if(!server.receive<HttpRequest>(q[n], own.coin())) return;
            if(own.chance(1, 10)) std::this_thread::sleep_for(milliseconds(3));
            if(!server.send<HttpResponse>(a[n])) return;
        }
    });
    {
        vn::HookScope h;
        Rng own(seeds[1]);
        if(faulty) faults(own, client.mode == Polling);
        for(size_t n = 0; n < rounds; n++)
        {
            if(own.chance(1, 10)) std::this_thread::sleep_for(milliseconds(3));
            if(!client.send<HttpRequest>(q[n]) || !client.receive<HttpResponse>(a[n], own.coin())) break;
            done++;
        }
    }
    t.join();
    VH_CHECK(client.error.empty() && server.error.empty(), "exchange", what, ", after ", (size_t)done, ": client: ", client.error, "; server: ", server.error);
    // and nothing's left over
    for(Side *s : {&client, &server})
    {
        if(!s->error.empty() || p.type == Tls) continue;
        s->s.set_blocking(false);
        char b;
        size_t n = 0;
        St st = s->s.receive_raw(&b, 1, n);
        VH_CHECK(st == St::WouldBlock, "left-over", what, ": ", fr::Socket::status_to_string(st));
    }
    vh::count("exchanges", done);
    vh::count("waits", client.waits + server.waits);
    vh::distinct(vh::mix(seeds[0]));
    if(vh::want_sample("turns")) vh::sample("turns", what);
}

// ---- messages from elsewhere, one at a time, in pieces ----
template<typename H> static void from_elsewhere(Rng &rng, uint64_t index, bool request)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    c.settle();
    c.s->set_receive_timeout(PATIENCE);
    const unsigned mode = (unsigned)rng.below(3);
    if(mode == Polling) c.s->set_blocking(false);
    const size_t n = 1 + rng.below(6);
    const std::string what = vh::cat(c.name, mode == Polling ? ", non-blocking" : mode == Timing ? ", with a timeout" : "");
    for(size_t a = 0; a < n; a++)
    {
        vhttp::Message m = vhttp::message(rng, request);
        H h;
        // Nothing there yet
        if(mode != Blocking)
        {
            if(mode == Timing) c.s->set_receive_timeout(12);
            for(int t = 0; t < 2; t++)
            {
                St st = c.s->receive(h);
                VH_CHECK(st == (mode == Polling ? St::WouldBlock : St::Timeout), "nothing-there", what, ": ", fr::Socket::status_to_string(st), " before message ", a);
                if(rng.coin()) break;
            }
            if(mode == Timing) c.s->set_receive_timeout(PATIENCE);
            vh::count("asked too early");
        }
        const uint64_t seed = rng.fork();
        std::thread feeder([&, seed]{
            Rng r(seed);
            const size_t most = r.pick({1, 7, 300, 5000, 100000000});
            unsigned pauses = 6;
            for(size_t at = 0; at < m.text.size();)
            {
                size_t piece = std::min(m.text.size() - at, 1 + (size_t)r.below(m.text.size() > 5000 && most < 300 ? 3000 : most));
                if(!c.feed(m.text.substr(at, piece))) return;
                at += piece;
                if(pauses && r.chance(1, 4)) { pauses--; std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000))); }
            }
        });
        St st;
        auto b = vn::Clock::now();
        {
            vn::HookScope hook;
            Rng own(rng.fork());
            if(rng.coin()) faults(own, mode == Polling);
            for(;;)
            {
                const uint64_t before = hook->recv_bytes;
                st = c.s->receive(h);
                if(mode != Polling || st != St::WouldBlock) break;
                VH_CHECK(hook->recv_bytes == before, "blocked-but-consumed", what, ": ", hook->recv_bytes - before, " bytes gone");
                if(vn::ms_since(b) >= PATIENCE) break;
            }
        }
        feeder.join();
        VH_CHECK(st == St::Success, "refused", what, ": ", fr::Socket::status_to_string(st), " for message ", a, ", ", vh::show(m.text, 300));
        if(st != St::Success) return;
        const std::string d = vhttp::differs(h, m, rng);
        VH_CHECK(d.empty(), "received-differs", what, ", message ", a, ": ", d, " in ", vh::show(m.text, 300));
        vh::count("messages received");
        vh::distinct(vh::hash_str(m.text));
    }
}
VH_SECTION_X(requests, 1200, 20000, false, 180) { from_elsewhere<HttpRequest>(rng, index, true); }
VH_SECTION_X(responses, 1200, 20000, false, 180) { from_elsewhere<HttpResponse>(rng, index, false); }
