// C25: memory is given back: repeating anything leaves the heap as it was
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_conn.h>
#include <vh_http.h>
#include <vh_leak.h>
#include <vh_mock.h>
#include <vh_packet.h>
#include <vh_ws.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/URL.h>
using vh::Rng;
using fr::Socket;
typedef Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;

static const char *const CALLS[] = {"socket", "bind", "listen", "connect", "accept", "setsockopt", "getsockopt", "fcntl", "poll", "getaddrinfo", "epoll_create", "epoll_ctl"};
static int plausible(const std::string &name, Rng &r)
{
    if(name == "socket") return r.pick({EMFILE, ENFILE, EAFNOSUPPORT});
    if(name == "bind") return r.pick({EADDRINUSE, EACCES, EADDRNOTAVAIL});
    if(name == "connect") return r.pick({ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EACCES});
    if(name == "accept") return r.pick({EMFILE, ECONNABORTED});
    if(name == "getaddrinfo") return r.pick({EAI_AGAIN, EAI_NONAME, EAI_MEMORY, EAI_FAIL});
    return r.pick({ENOMEM, ENOBUFS, EINVAL});
}
// Lets the nth call on this thread fail
struct Fault
{
    vn::HookScope h;
    long calls = 0;
    Fault(Rng &r, long nth)
    {
        if(nth >= 0)
            h->fail = [this, nth, &r](const char *name, int, int &err) {
                if(!strcmp(name, "shutdown") || !strcmp(name, "epoll_wait")) return false;
                if(calls++ != nth) return false;
                err = plausible(name, r);
                lk::Quiet q;
                vh::count(std::string("failed calls: ") + name);
                return true;
            };
    }
};
static addrinfo *address(uint16_t port, addrinfo *next = nullptr)
{
    auto *a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6));
    a->ai_addr = (sockaddr*)(a + 1);
    a->ai_socktype = SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    a->ai_next = next;
    auto *s = (sockaddr_in*)a->ai_addr; a->ai_family = s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->ai_addrlen = sizeof *s;
    return a;
}
static uint16_t dead_port()
{
    static vn::Fd f = []{ vn::Fd x(__real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if(__real_bind(x.fd, (sockaddr*)&a, sizeof a)) vn::broken("bind"); return x; }();
    return (uint16_t)vn::port_of(f.fd);
}
static std::shared_ptr<fr::SSLContext> trusting() { static auto c = vt::context({"ca"}); return c; }
static void drain(int fd)
{
    const int flags = __real_fcntl(fd, F_GETFL, 0L);
    __real_fcntl(fd, F_SETFL, (long)(flags | O_NONBLOCK));
    for(;;) { int f = __real_accept(fd, nullptr, nullptr); if(f < 0) break; __real_close(f); }
    __real_fcntl(fd, F_SETFL, (long)flags);
}
static void upgrade(int fd, bool good) { vn::write_all(fd, good ? "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n" : "GET / HTTP/1.1\r\nHost: x\r\nX: y\r\n\r\n"); }

// ---- what is repeated: each leaves nothing behind, whichever way it goes ----
typedef void (*Op)(Rng &, long nth);
static void connect_with(Rng &r, Socket &s, long nth)
{
    vn::Server srv;
    const unsigned way = (unsigned)r.below(5), behaviour = (unsigned)r.below(4);
    std::atomic<bool> over{false};
    std::thread peer([&]{
        while(!over)
        {
            vn::Fd f = srv.accept_within(3);
            if(f.fd < 0) continue;
            if(behaviour == 1) vn::write_all(f.fd, "HTTP/1.1 400 Bad Request\r\nA: b\r\nContent-Length: 0\r\n\r\n");
            else if(behaviour == 2) vn::write_all(f.fd, std::string("\x16\x03\x03\0\x02xy", 7));
            else if(behaviour == 3) vn::reset_connection(f);
        }
    });
    for(int again = 0; again < 2; again++)
    {
        Fault f(r, again ? -1 : nth);
        f.h->resolve = [&](const char *, const char *, const addrinfo *, addrinfo **res) {
            if(way == 0) return EAI_NONAME;
            *res = way == 1 ? address(dead_port()) : way == 2 ? address(dead_port(), address(srv.port)) : way == 3 ? address(dead_port(), address(dead_port())) : address(srv.port, address(dead_port()));
            return 0;
        };
        s.connect("some.host.with.a.long.name.example", srv.port_text(), std::chrono::seconds(5));
        if(r.coin()) s.disconnect();
    }
    over = true;
    peer.join();
}
static void op_connect(Rng &r, long nth) { fr::TcpSocket s; connect_with(r, s, nth); }
static void op_connect_ws(Rng &r, long nth) { Web s; connect_with(r, s, nth); }
static void op_connect_tls(Rng &r, long nth) { fr::SSLSocket s(trusting()); connect_with(r, s, nth); }
static void op_real_lookup(Rng &r, long nth)
{
    fr::TcpSocket s;
    Fault f(r, nth);
    s.connect(r.pick<const char*>({"127.0.0.1", "::1", "localhost", "not an address", "256.1.1.1"}), std::to_string(dead_port()), std::chrono::seconds(1));
}
static void op_listen(Rng &r, long nth)
{
    static vn::Server taken(AF_INET, 1, 0, true);
    fr::TcpListener l;
    l.set_inet_version(r.pick({Socket::IP::any, Socket::IP::v4, Socket::IP::v6}));
    {
        Fault f(r, nth);
        l.listen(r.pick<std::string>({"0", "0", "notaport", "70000", taken.port_text()}));
    }
    l.listen("0");
    if(r.coin()) { fr::TcpListener m(std::move(l)); }
}
static void op_accept(Rng &r, long nth)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) return;
    for(int a = 0; a < 2; a++)
    {
        vn::Fd peer = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
        const bool web = r.coin();
        if(web) upgrade(peer.fd, r.chance(2, 3));
        ::shutdown(peer.fd, SHUT_WR);
        Fault f(r, nth);
        try
        {
            if(web) { Web s; l.accept(s); if(r.coin()) s.disconnect(); }
            else { fr::TcpSocket s; l.accept(s); fr::Packet p; s.receive(p); }
            if(r.chance(1, 4)) { fr::SSLSocket wrong(trusting()); l.accept(wrong); }
        }
        catch(const std::exception &) {}
    }
}
static void op_tls_listener(Rng &r, long nth)
{
    const char *const NAMES[] = {"good.pem", "good.key", "rsa.pem", "rsa.key", "chain.pem", "missing.pem", "ca.pem", "good.pem"};
    const std::string c = NAMES[r.below(8)], k = NAMES[r.below(8)];
    try
    {
        fr::SSLListener l(trusting(), vt::path(c), vt::path(k));
        Fault f(r, nth);
        l.listen("0");
        if(r.coin()) l.listen("0");
    }
    catch(const std::exception &) { lk::Quiet q; vh::count("listeners which couldn't be made"); }
}
static void op_tls_accept(Rng &r, long nth)
{
    auto l = vt::listener("good", trusting());
    if(l->listen("0") != St::Success) return;
    for(int a = 0; a < 2; a++)
    {
        vn::Fd peer = vn::dial((uint16_t)vn::port_of(l->get_socket_descriptor()));
        const unsigned b = (unsigned)r.below(3);
        if(b == 1) vn::write_all(peer.fd, "GET / HTTP/1.1\r\n\r\n");
        if(b == 2) vn::write_all(peer.fd, std::string("\x16\x03\x01\0\x05hello", 10));
        ::shutdown(peer.fd, SHUT_WR);
        fr::SSLSocket s(trusting());
        try
        {
            Fault f(r, nth);
            if(r.chance(1, 4)) { fr::TcpSocket wrong; l->accept(wrong); }
            l->accept(s);
        }
        catch(const std::exception &) {}
        drain(l->get_socket_descriptor());
    }
    // Nothing to accept from
    const unsigned how = (unsigned)r.below(3);
    if(how == 0) l->shutdown();
    else if(how == 1) __real_fcntl(l->get_socket_descriptor(), F_SETFL, (long)O_NONBLOCK);
    else l = vt::listener("good", trusting());
    for(int a = 0; a < 2; a++) { fr::SSLSocket s(trusting()); if(l->accept(s) != St::AcceptError) { lk::Quiet q; vh::violation("accepted-nothing", vh::cat("way ", how)); } }
}
static void op_tls_session(Rng &r, long nth)
{
    auto l = vt::listener(r.pick<const char*>({"good", "wrong_host", "untrusted", "rsa"}), trusting());
    if(l->listen("0") != St::Success) return;
    const uint16_t port = (uint16_t)vn::port_of(l->get_socket_descriptor());
    auto c = std::make_shared<fr::SSLSocket>(trusting()), s = std::make_shared<fr::SSLSocket>(trusting());
    if(r.chance(1, 3)) c->verify_certificates(false);
    for(int again = 0; again < 2; again++) // also without disconnecting in between
    {
        std::thread t([&]{ l->accept(*s); });
        St st;
        {
            Fault f(r, again ? -1 : nth);
            st = c->connect("localhost", std::to_string(port), std::chrono::seconds(20));
        }
        if(st != St::Success) vn::dial(port);
        t.join();
        if(st == St::Success && s->connected())
        {
            fr::Packet p(std::string(r.below(40000), 'x')), q;
            std::thread w([&]{ c->send(p); });
            s->receive(q);
            w.join();
            { lk::Quiet quiet; vh::count("TLS sessions"); }
        }
        if(r.coin()) c->disconnect();
        if(r.coin()) s->disconnect();
        drain(l->get_socket_descriptor());
    }
    c.reset();
    s.reset();
}
static void op_tls_context(Rng &r, long)
{
    fr::SSLContext c;
    for(int a = 0; a < 3; a++)
    {
        const std::string n = r.pick<const char*>({"ca.pem", "ca2.pem", "good.key", "missing.pem", "chain.pem", ""});
        if(r.coin()) c.load_ca_certs_from_file(n.empty() ? n : vt::path(n));
        else if(n == "missing.pem" || n.empty()) c.load_ca_certs_from_memory(r.pick<std::string>({"", "x", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", std::string(3, '\0')}));
        else { std::string t = vt::file(n); if(r.coin()) t.resize(r.below(t.size())); c.load_ca_certs_from_memory(t); }
    }
    auto shared = std::make_shared<fr::SSLContext>();
    fr::SSLSocket a(shared), b(shared);
    shared.reset();
}
static void op_web_session(Rng &r, long nth)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) return;
    const uint16_t port = (uint16_t)vn::port_of(l.get_socket_descriptor());
    Web c, s;
    for(int again = 0; again < 2; again++)
    {
        std::thread t([&]{ try { l.accept(s); } catch(const std::runtime_error &) {} });
        St st;
        {
            Fault f(r, again ? -1 : nth);
            st = c.connect("127.0.0.1", std::to_string(port), "/path", {"one", "two"}, std::chrono::seconds(20));
        }
        if(st != St::Success) vn::dial(port);
        t.join();
        if(st == St::Success && s.connected())
        {
            fr::ClientWebFrame f; fr::ServerWebFrame g;
            f.set_payload(std::string(r.below(3000), 'x'));
            c.send(f);
            s.receive(g);
            { lk::Quiet quiet; vh::count("WebSocket sessions"); }
        }
        if(r.coin()) c.disconnect();
        if(r.coin()) s.disconnect();
        drain(l.get_socket_descriptor());
    }
}
static void op_packets(Rng &r, long)
{
    fr::Packet p;
    for(size_t a = r.below(8); a > 0; a--) vp::random_item(r)->add(p);
    if(r.coin()) p.add_raw(r.bytes(20).data(), 20);
    fr::Packet copy(p), moved(std::move(copy)), assigned;
    assigned << std::string(100, 'a');
    assigned = p;
    p.set_cursor(r.below(p.size() + 1));
    for(size_t a = r.below(8); a > 0; a--) try { vp::random_item(r)->extract_equal(p); } catch(const std::exception &) {}
    std::string e;
    vp::put_be(e, p.size() + r.below(3) * 100, 4);
    e += std::string(p.size(), 'x');
    vh::MockSocket m(&r);
    m.in = e;
    m.set_max_receive_size(r.coin() ? 0 : 40);
    fr::Packet got;
    m.receive(got);
    m.receive(assigned);
}
template<typename H> static void http(Rng &r, bool request)
{
    std::string t = vhttp::message(r, request).text;
    if(r.coin()) { size_t at = r.below(t.size()); t[at] = (char)r.byte(); }
    if(r.chance(1, 4)) t.resize(r.below(t.size()));
    if(r.chance(1, 8)) t = "GET / HTTP/1.1\r\nA: " + std::string(60000, 'x');
    H h;
    for(size_t at = 0; at < t.size();) { size_t n = std::min(t.size() - at, 1 + r.below(t.size())); if(h.parse(t.data() + at, n) != St::NotEnoughData) break; at += n; }
    H copy(h), other;
    other.header("x") = "y";
    other = h;
    h = std::move(copy);
    vh::MockSocket m(&r);
    m.in = t + t;
    m.max_chunk = 100;
    m.receive(other);
    m.receive(h);
    other.set_body("something");
    m.send(other);
}
static void op_requests(Rng &r, long) { http<fr::HttpRequest>(r, true); }
static void op_responses(Rng &r, long) { http<fr::HttpResponse>(r, false); }
static void op_frames(Rng &r, long)
{
    const bool client = r.coin();
    vh::MockSocket m(&r);
    for(int a = 0; a < 3; a++)
    {
        vw::Frame f;
        f.opcode = (unsigned)r.pick({1, 2, 8, 9});
        f.masked = r.chance(1, 10) ? client : !client;
        f.payload = r.bytes(r.size(70000));
        f.form = vw::shortest(f.payload.size());
        m.in += vw::encode(f);
    }
    if(r.coin()) m.in.resize(r.below(m.in.size()));
    m.set_max_receive_size(r.coin() ? 0 : 300);
    auto g = vw::make(client);
    for(int a = 0; a < 3; a++) m.receive(*g);
    m.send(*g);
}
static void op_urls(Rng &r, long)
{
    fr::URL u("https://example.com:1/a?b#c"), v;
    v.parse(r.bytes(r.below(60)));
    v = u;
    u.parse(v.get_url());
    fr::Http::url_decode(fr::Http::url_encode(r.bytes(50)));
    fr::Base64::encode(fr::Sha1::sha1_digest(r.bytes(100)));
}
static void op_selector(Rng &r, long nth)
{
    std::vector<std::shared_ptr<fr::SocketDescriptor>> members;
    std::vector<vn::Fd> peers;
    try
    {
        fr::SocketSelector sel;
        Fault f(r, nth);
        for(int a = 0; a < 4; a++)
        {
            auto p = vn::pair();
            auto s = std::make_shared<fr::TcpSocket>();
            int32_t fd = p.first.release();
            s->set_descriptor(&fd);
            if(r.coin()) vn::write_all(p.second.fd, "x");
            peers.push_back(std::move(p.second));
            members.push_back(s);
            if(r.chance(1, 5)) s->disconnect();
            try { sel.add(s, &sel); if(r.chance(1, 4)) sel.add(s, nullptr); } catch(const std::exception &) {}
        }
        sel.wait(std::chrono::milliseconds(0));
        for(auto &s : members) { if(r.chance(1, 4)) std::static_pointer_cast<fr::TcpSocket>(s)->disconnect(); if(r.coin()) sel.remove(s); }
        members.clear(); // what's left belongs to the selector only
        sel.wait(std::chrono::milliseconds(0));
    }
    catch(const std::exception &) {}
}
struct NamedOp { const char *name; Op op; bool calls; };
static const NamedOp OPS[] = {
    {"connecting", op_connect, true}, {"connecting a WebSocket", op_connect_ws, true}, {"connecting with TLS", op_connect_tls, true}, {"looking up", op_real_lookup, true},
    {"listening", op_listen, true}, {"accepting", op_accept, true}, {"making a TLS listener", op_tls_listener, true}, {"accepting with TLS", op_tls_accept, true},
    {"a TLS session", op_tls_session, true}, {"a TLS context", op_tls_context, false}, {"a WebSocket session", op_web_session, true}, {"a selector", op_selector, true},
    {"packets", op_packets, false}, {"requests", op_requests, false}, {"responses", op_responses, false}, {"frames", op_frames, false}, {"URLs", op_urls, false}};
static const unsigned N_OPS = sizeof OPS / sizeof *OPS;
static void repeated(const NamedOp &o, uint64_t seed, long nth)
{
    const unsigned REPS = 5;
    lk::Watch w;
    const uint64_t before = lk::allocations();
    for(unsigned a = 1; a <= REPS; a++)
    {
        w.repetition(a);
        Rng r(seed);
        o.op(r, nth);
    }
    const std::string l = w.leaked(2, REPS);
    if(!l.empty()) vh::violation(vh::cat("leak: ", o.name), vh::cat("each time ", l, nth >= 0 ? vh::cat(" (call ", nth, " failing)") : std::string()));
    vh::count("allocations followed", lk::allocations() - before);
    vh::count("repetitions", REPS);
    vh::count(vh::cat("operations: ", o.name));
    vh::distinct(vh::mix(seed) ^ (uint64_t)nth);
    if(vh::want_sample("repeated")) vh::sample("repeated", vh::cat(o.name, ": ", REPS, " times, ", lk::allocations() - before, " allocations, none left"));
}
VH_SECTION(operations, 2800, 40000) { repeated(OPS[index % N_OPS], rng.u64(), -1); }
VH_SECTION(failing_calls, 1600, 20000)
{
    const NamedOp *o;
    unsigned n = (unsigned)(index % 11);
    for(o = OPS;; o++) if(o->calls && n-- == 0) break;
    repeated(*o, rng.u64(), (long)(index / 11 % 16));
}

// ---- objects which live on: the same messages again and again, and no more memory than the first time ----
static void lives_on(const char *name, size_t bytes, uint64_t seed, unsigned reps, const std::function<void(Rng &)> &once)
{
    lk::Watch w;
    size_t early = 0;
    const unsigned settle = reps / 4;
    for(unsigned a = 1; a <= reps; a++)
    {
        w.repetition(a);
        Rng r(seed);
        once(r);
        if(a == settle) early = w.bytes();
    }
    const size_t late = w.bytes();
    const std::string l = w.leaked(settle, reps - 1);
    if(!l.empty()) vh::violation(vh::cat("grows: ", name), vh::cat("each time ", l));
    // what is accumulated in one block is seen by its size
    else if(late > early + 6000 + 3 * bytes) vh::violation(vh::cat("grows: ", name), vh::cat(early, " bytes more than at first after ", settle, " repetitions, ", late, " after ", reps, ", of ", bytes, " bytes each"));
    vh::count("repetitions", reps);
    vh::count(vh::cat("living on: ", name));
    vh::distinct(vh::mix(seed + bytes));
    if(vh::want_sample("living on")) vh::sample("living on", vh::cat(name, ": ", reps, " times, ", early, " bytes after ", settle, ", ", late, " at the end"));
}
template<typename H> static void parser_lives(Rng &rng, const char *name, bool request, bool socket)
{
    std::string t;
    for(int a = 0; a < 3; a++)
    {
        vhttp::Message m;
        do m = vhttp::message(rng, request); while(m.text.size() > 4000);
        t = m.text.size() > t.size() ? m.text : t;
    }
    if(rng.chance(1, 5)) { t = t.substr(0, 1) == "G" || !request ? "BAD nonsense\r\nA: " + std::string(500, 'x') + "\r\n\r\n" : t; }
    H h;
    lives_on(name, t.size(), rng.u64(), 64, [&](Rng &r) {
        if(socket)
        {
            vh::MockSocket m(&r);
            m.in = t;
            m.max_chunk = 700;
            m.receive(h);
            m.send(h);
            h = H();
            m.in_pos = 0;
            m.receive(h);
            return;
        }
        h = H();
        for(size_t at = 0; at < t.size();) { size_t n = std::min(t.size() - at, 1 + r.below(300)); if(h.parse(t.data() + at, n) != St::NotEnoughData) break; at += n; }
    });
}
VH_SECTION(parsers, 800, 20000)
{
    switch(index % 4)
    {
        case 0: parser_lives<fr::HttpRequest>(rng, "a request", true, false); break;
        case 1: parser_lives<fr::HttpResponse>(rng, "a response", false, false); break;
        case 2: parser_lives<fr::HttpRequest>(rng, "a received request", true, true); break;
        default: parser_lives<fr::HttpResponse>(rng, "a received response", false, true); break;
    }
}
VH_SECTION(messages, 600, 15000)
{
    const size_t n = rng.below(6000);
    fr::Packet p, q;
    auto f = vw::make(true), g = vw::make(false);
    fr::URL u;
    lives_on("packets, frames and URLs", 4 * n, rng.u64(), 64, [&](Rng &r) {
        vh::MockSocket m(&r);
        p.clear();
        p << std::string(n, 'x') << std::vector<uint16_t>{1, 2, 3};
        m.send(p);
        m.in = m.out;
        m.receive(q);
        std::string s;
        q >> s;
        p = q;
        m.out.clear();
        f->set_payload(s);
        m.send(*f);
        m.in += m.out;
        m.receive(*g);
        u.parse("http://example.com/" + s);
    });
}
// One connection, used for long
VH_SECTION(connections, 240, 4000)
{
    const vc::Kind k = vc::kind(index);
    vc::Conn c(k.t);
    if(!c.open(k.w)) return;
    const size_t n = 1 + rng.below(4000);
    const bool polled = rng.coin();
    fr::SocketSelector sel;
    if(polled) sel.add(c.s, nullptr);
    fr::Packet p, q;
    fr::HttpRequest h;
    const bool client = k.t == vc::Ws && k.w == vc::Connect;
    lives_on(vc::TYPES[k.t], 6 * n, rng.u64(), 48, [&](Rng &r) {
        p.clear();
        p << std::string(n, 'x');
        c.s->send(p);
        std::string back;
        { lk::Quiet quiet; back = c.take(n + 8, 30000); }
        c.feed(back);
        if(polled) sel.wait(std::chrono::milliseconds(0));
        c.s->receive(q);
        if(k.t == vc::Ws)
        {
            auto f = vw::make(client), g = vw::make(client);
            f->set_payload(std::string(n, 'y'));
            c.s->send(*f);
            vn::read_some(c.raw.fd, f->get_payload().size() + (n > 125 ? 4 : 2) + (client ? 4 : 0), 30000);
            vw::Frame w;
            w.opcode = 1;
            w.masked = !client;
            w.payload = std::string(n, 'z');
            w.form = vw::shortest(n);
            c.feed(vw::encode(w));
            c.s->receive(*g);
        }
        c.s->set_blocking(false);
        char b[8];
        size_t got;
        c.s->receive_raw(b, sizeof b, got);
        c.s->set_blocking(true);
        c.s->set_receive_timeout((uint32_t)r.below(2) * 1000);
        if(polled) { sel.remove(c.s); sel.add(c.s, &sel); }
    });
}
// Sockets, listeners and selectors which are used again and again
VH_SECTION(reuse, 320, 5000)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) vn::broken("listen");
    auto tls = vt::listener("good", trusting());
    if(tls->listen("0") != St::Success) vn::broken("listen");
    fr::TcpSocket t, u;
    Web w;
    fr::SSLSocket s(trusting()), z(trusting());
    const unsigned kind = (unsigned)(index % 4);
    static const char *const NAMES[] = {"connecting again", "TLS connecting again", "accepting WebSockets again", "listening again"};
    lives_on(NAMES[kind], 100, rng.u64(), kind == 1 ? 12 : 32, [&](Rng &r) {
        const uint16_t port = (uint16_t)vn::port_of(l.get_socket_descriptor());
        if(kind == 0)
        {
            t.connect("127.0.0.1", std::to_string(r.coin() ? port : dead_port()), std::chrono::seconds(5));
            if(t.connected()) l.accept(u);
            if(r.coin()) t.disconnect();
        }
        else if(kind == 1)
        {
            std::thread a([&]{ tls->accept(z); });
            if(s.connect("localhost", std::to_string(vn::port_of(tls->get_socket_descriptor())), std::chrono::seconds(20)) != St::Success) vn::dial((uint16_t)vn::port_of(tls->get_socket_descriptor()));
            a.join();
        }
        else if(kind == 2)
        {
            vn::Fd peer = vn::dial(port);
            upgrade(peer.fd, r.coin());
            ::shutdown(peer.fd, SHUT_WR);
            try { l.accept(w); } catch(const std::runtime_error &) {}
        }
        else { tls->listen("0"); fr::TcpListener m; m.listen("0"); m.listen("notaport"); }
    });
}
