// C30: running out of memory fails the operation, and nothing else
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_ws.h>
#include <vh_oom.h>
#include <frnetlib/Base64.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Packet.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/URL.h>
#include <frnetlib/WebSocket.h>
using vh::Rng;
using fr::Socket;
typedef Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;

// One attempt, with one allocation failing
struct Trial
{
    long nth;
    bool keeps;
    long calls = 0, failed = 0;
    bool threw = false, wrong = false;
    std::string name, error;
    // where descriptors closed by mistake would be
    int sentinels[3] = {-1, -1, -1};

    // Calls the library. True if it returned.
    template<typename F> bool act(F f)
    {
        threw = false;
        {
            oom::Armed a(nth, keeps);
            try { f(); }
            catch(const std::bad_alloc &) { threw = true; }
            catch(const std::exception &e) { oom::Pause p; threw = true; error = e.what(); wrong = true; }
            calls = oom::state().calls;
            failed = oom::state().failed;
        }
        if(!failed && (threw || wrong)) vh::violation("throws", vh::cat(name, " threw ", wrong ? error : "std::bad_alloc", " for no reason"));
        for(int &s : sentinels) if(s < 0) s = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        return !threw;
    }
    // Exceptions which stand for a failed status
    void allow(const char *text) { if(wrong && error.find(text) != std::string::npos) wrong = false; }
    void truthful(const fr::SocketDescriptor &s)
    {
        const int fd = s.get_socket_descriptor();
        VH_CHECK(s.connected() == (fd > -1), "state", name, ": connected ", s.connected(), ", with descriptor ", fd);
        if(fd < 0) return;
        bool bad = __real_fcntl(fd, F_GETFD) < 0;
        for(int k : sentinels) bad = bad || k == fd;
        VH_CHECK(!bad, "state", name, ": has descriptor ", fd, ", which isn't its own");
    }
};
typedef void (*Op)(Trial &, Rng &);

static std::string words(Rng &r, size_t n) { return r.from("abcdefghijklmnopqrstuvwxyz", n); }
static std::string content(const fr::Packet &p) { fr::Packet q(p); q.set_cursor(0); std::string s(q.get_bytes_remaining(), '\0'); if(!s.empty()) q.extract_raw(&s[0], s.size()); return s; }

struct Values
{
    std::string a;
    std::vector<std::string> b;
    std::map<std::string, uint32_t> c;
    std::unordered_map<uint16_t, std::string> d;
    std::pair<std::string, double> e;
    explicit Values(Rng &r) : a(words(r, r.below(60))), e(words(r, 20 + r.below(40)), 1.5)
    {
        for(size_t n = r.below(6); n; n--) b.push_back(words(r, r.below(50)));
        for(size_t n = r.below(6); n; n--) c[words(r, 1 + r.below(40))] = (uint32_t)r.u64();
        for(size_t n = r.below(6); n; n--) d[(uint16_t)r.u64()] = words(r, r.below(40));
    }
    Values() {}
    bool operator==(const Values &o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e; }
    void in(fr::Packet &p) const { p << a << b << c << d << e; }
    void out(fr::Packet &p) { p >> a >> b >> c >> d >> e; }
};

static void op_pack(Trial &t, Rng &r)
{
    Values v(r);
    fr::Packet expected, p;
    v.in(expected);
    const std::string before = words(r, r.below(100));
    if(r.coin()) p.reserve(r.below(100));
    p.add_raw(before.data(), before.size());
    const bool done = t.act([&]{ v.in(p); });
    const std::string now = content(p);
    VH_CHECK(now.compare(0, before.size(), before) == 0, "content", "packing: what was there before is ", vh::show(now));
    if(done) VH_CHECK(now == before + content(expected), "swallowed", "packing gives ", vh::show(now));
    p.clear();
    v.in(p);
    VH_CHECK(content(p) == content(expected), "afterwards", "packing after a failure gives ", vh::show(content(p)));
}
static void op_unpack(Trial &t, Rng &r)
{
    Values v(r), got;
    fr::Packet p;
    v.in(p);
    const std::string all = content(p);
    if(t.act([&]{ got.out(p); })) VH_CHECK(got == v && p.get_bytes_remaining() == 0, "swallowed", "unpacking: ", vh::show(content(p)));
    VH_CHECK(content(p) == all && p.get_cursor() <= all.size(), "content", "unpacking: the cursor is ", p.get_cursor(), ", and the content ", vh::show(content(p)));
    p.set_cursor(0);
    Values again;
    again.out(p);
    VH_CHECK(again == v, "afterwards", "unpacking after a failure");
}
static void op_packet_copy(Trial &t, Rng &r)
{
    Values v(r);
    fr::Packet p, q;
    v.in(p);
    q << words(r, 50);
    const std::string all = content(p), other = content(q);
    const int how = (int)r.below(3);
    const bool done = t.act([&]{ if(how == 0) { fr::Packet c(p); (void)c; } else if(how == 1) q = p; else { fr::Packet c(v.a, v.b, v.c); fr::Packet d; d.add(v.a, v.b); d.add_range(v.b.begin(), v.b.end()); } });
    VH_CHECK(content(p) == all, "content", "copying a packet: ", vh::show(content(p)));
    if(how == 1) VH_CHECK(content(q) == (done ? all : other), "content", "assigning a packet leaves ", vh::show(content(q)));
}

static void fill(fr::HttpRequest &h, Rng &r)
{
    h.set_type(fr::Http::RequestType::Post);
    h.set_uri("/" + words(r, 40));
    for(size_t n = r.below(4); n; n--) h.header("x-" + words(r, 5 + r.below(30))) = words(r, r.below(60));
    for(size_t n = r.below(4); n; n--) h.get(words(r, 5 + r.below(30))) = words(r, r.below(60));
    if(r.coin()) for(size_t n = 1 + r.below(4); n; n--) h.post(words(r, 5 + r.below(30))) = words(r, 1 + r.below(60));
    else h.set_body(words(r, r.below(3000)));
}
static void fill(fr::HttpResponse &h, Rng &r)
{
    h.set_status(fr::Http::RequestStatus::NotFound);
    for(size_t n = r.below(4); n; n--) h.header("x-" + words(r, 5 + r.below(30))) = words(r, r.below(60));
    h.set_body(words(r, r.below(3000)));
}
template<typename H> static void build(Trial &t, Rng &r)
{
    H h, expected;
    const uint64_t seed = r.u64();
    { Rng k(seed); fill(expected, k); }
    const std::string host = words(r, 40);
    const bool done = t.act([&]{ Rng k(seed); fill(h, k); });
    if(done) VH_CHECK(h.construct(host) == expected.construct(host), "swallowed", "populating gives ", vh::show(h.construct(host)));
    h.construct(host);
    { H fresh; h = fresh; Rng k(seed); fill(h, k); }
    VH_CHECK(h.construct(host) == expected.construct(host), "afterwards", "populating after a failure gives ", vh::show(h.construct(host)));
}
static void op_build_request(Trial &t, Rng &r) { build<fr::HttpRequest>(t, r); }
static void op_build_response(Trial &t, Rng &r) { build<fr::HttpResponse>(t, r); }
template<typename H> static void construct(Trial &t, Rng &r)
{
    H h;
    fill(h, r);
    const std::string host = words(r, 40), expected = h.construct(host);
    std::string got;
    if(t.act([&]{ got = h.construct(host); })) VH_CHECK(got == expected, "swallowed", "constructing gives ", vh::show(got));
    VH_CHECK(h.construct(host) == expected, "content", "constructing, which failed, changes it to ", vh::show(h.construct(host)));
}
static void op_construct_request(Trial &t, Rng &r) { construct<fr::HttpRequest>(t, r); }
static void op_construct_response(Trial &t, Rng &r) { construct<fr::HttpResponse>(t, r); }
static std::string text_of(fr::HttpRequest *, Rng &r) { fr::HttpRequest h; fill(h, r); return h.construct("host.example"); }
static std::string text_of(fr::HttpResponse *, Rng &r)
{
    fr::HttpResponse h;
    fill(h, r);
    if(r.coin()) return h.construct("host.example");
    std::string s = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nX-Some-Header-Name: and its value which is long\r\n\r\n";
    for(size_t n = r.below(5); n; n--) { std::string c = words(r, 1 + r.below(500)); char b[20]; snprintf(b, sizeof b, "%zx", c.size()); s += std::string(b) + "\r\n" + c + "\r\n"; }
    return s + "0\r\n\r\n";
}
template<typename H> static void parse(Trial &t, Rng &r)
{
    const std::string text = text_of((H*)nullptr, r);
    const size_t cut = r.below(text.size());
    H expected, h;
    expected.parse(text.data(), text.size());
    St s = St::Unknown;
    t.act([&]{ s = h.parse(text.data(), cut); if(s == St::NotEnoughData) s = h.parse(text.data() + cut, text.size() - cut); });
    if(!t.threw)
    {
        if(s == St::Success) VH_CHECK(h.construct("x") == expected.construct("x"), "swallowed", "parsing ", vh::show(text), " gives ", vh::show(h.construct("x")));
        else VH_CHECK(t.failed && s == St::ParseError, "status", "parsing: ", (int)s);
    }
    h.construct("x");
    h = H();
    VH_CHECK(h.parse(text.data(), text.size()) == St::Success && h.construct("x") == expected.construct("x"), "afterwards", "parsing after a failure gives ", vh::show(h.construct("x")));
}
static void op_parse_request(Trial &t, Rng &r) { parse<fr::HttpRequest>(t, r); }
static void op_parse_response(Trial &t, Rng &r) { parse<fr::HttpResponse>(t, r); }

static void op_url(Trial &t, Rng &r)
{
    const std::string text = "https://" + words(r, 30) + ".example:8443/" + words(r, 30) + "?" + words(r, 30) + "#" + words(r, 30);
    fr::URL expected(text), u, copy;
    const bool done = t.act([&]{ u.parse(text); copy = u; });
    if(done) VH_CHECK(u == expected && copy == expected, "swallowed", "parsing ", text);
    u.parse(text);
    VH_CHECK(u == expected, "afterwards", "parsing ", text, " after a failure");
}
static void op_texts(Trial &t, Rng &r)
{
    const std::string raw = r.bytes(r.below(300));
    std::string encoded = fr::Http::url_encode(raw), b = fr::Base64::encode(raw), d = fr::Sha1::sha1_digest(raw), e, f, g, h;
    if(t.act([&]{ e = fr::Http::url_encode(raw); f = fr::Http::url_decode(encoded); g = fr::Base64::encode(raw); h = fr::Sha1::sha1_digest(raw); }))
        VH_CHECK(e == encoded && f == raw && g == b && h == d, "swallowed", "encoding ", vh::show(raw));
}
static void op_names(Trial &t, Rng &)
{
    std::string a, b, c;
    fr::URL::Scheme s = fr::URL::Unknown;
    if(t.act([&]{ a = fr::Http::get_mimetype("some/file/with a long name.html"); s = fr::URL::string_to_scheme("HTTPS"); b = Socket::status_to_string(St::ReceiveError); c = fr::Http::get_mimetype("unknown.with-a-long-extension"); }))
        VH_CHECK(a == "text/html" && s == fr::URL::HTTPS && !b.empty() && c == "application/octet-stream", "swallowed", "names: ", a, " ", (int)s, " ", b, " ", c);
}

// ---- messages over connections ----
struct Pair
{
    std::shared_ptr<fr::TcpSocket> s;
    vn::Fd peer;
    explicit Pair(std::shared_ptr<fr::TcpSocket> with = std::make_shared<fr::TcpSocket>()) : s(with) { auto p = vn::pair(); int f = p.first.release(); s->set_descriptor(&f); peer = std::move(p.second); s->set_remote_address("some.address.with.a.long.name.example:80"); }
};
template<typename M> static void sends(Trial &t, Rng &r, M &m, bool exact = true)
{
    Pair p;
    St s = St::Unknown;
    std::string before, now;
    if(exact) { Pair q; if(q.s->send(m) != St::Success) vn::broken("send"); q.s->disconnect(); before = vn::read_some(q.peer.fd, SIZE_MAX, 2000); }
    const bool done = t.act([&]{ s = p.s->send(m); });
    if(done) VH_CHECK(s == St::Success, "status", "sending: ", (int)s);
    t.truthful(*p.s);
    VH_CHECK(p.s->connected(), "state", "sending disconnects");
    if(!done) { St again = p.s->send(m); VH_CHECK(again == St::Success, "afterwards", "sending after a failure: ", (int)again); }
    p.s->disconnect();
    now = vn::read_some(p.peer.fd, SIZE_MAX, 2000);
    if(exact) VH_CHECK(now == before, "swallowed", "sending puts ", vh::show(now), " on the connection, rather than ", vh::show(before));
    (void)r;
}
static void op_send_packet(Trial &t, Rng &r) { fr::Packet p; Values v(r); v.in(p); sends(t, r, p); }
static void op_send_request(Trial &t, Rng &r) { fr::HttpRequest h; fill(h, r); sends(t, r, h); }
static void op_send_response(Trial &t, Rng &r) { fr::HttpResponse h; fill(h, r); sends(t, r, h); }
static void op_send_frame(Trial &t, Rng &r)
{
    fr::ClientWebFrame c;
    fr::ServerWebFrame s;
    const bool client = r.coin();
    fr::WebFrame &f = client ? static_cast<fr::WebFrame&>(c) : s;
    f.set_payload(r.bytes(r.below(500)));
    sends(t, r, f, !client);
}
static void op_receive_packet(Trial &t, Rng &r)
{
    Values v(r);
    fr::Packet p, q;
    v.in(p);
    if(r.coin()) q << words(r, 100);
    Pair a;
    { Pair b; b.s->send(p); b.s->disconnect(); vn::write_all(a.peer.fd, vn::read_some(b.peer.fd, SIZE_MAX, 2000)); }
    St s = St::Unknown;
    if(t.act([&]{ s = a.s->receive(q); })) VH_CHECK(s == St::Success && content(q) == content(p), "swallowed", "receiving a packet: ", (int)s, ", ", vh::show(content(q)));
    t.truthful(*a.s);
    q.get_bytes_remaining();
    a.s->disconnect();
    Pair c;
    { Pair b; b.s->send(p); b.s->disconnect(); vn::write_all(c.peer.fd, vn::read_some(b.peer.fd, SIZE_MAX, 2000)); }
    s = c.s->receive(q);
    VH_CHECK(s == St::Success && content(q) == content(p), "afterwards", "receiving a packet after a failure: ", (int)s, ", ", vh::show(content(q)));
}
template<typename H> static void receives_http(Trial &t, Rng &r)
{
    const std::string text = text_of((H*)nullptr, r);
    H expected, h;
    expected.parse(text.data(), text.size());
    Pair a;
    vn::write_all(a.peer.fd, text);
    St s = St::Unknown;
    t.act([&]{ s = a.s->receive(h); });
    if(!t.threw)
    {
        if(s == St::Success) VH_CHECK(h.construct("x") == expected.construct("x"), "swallowed", "receiving ", vh::show(text), " gives ", vh::show(h.construct("x")));
        else VH_CHECK(t.failed && s == St::ParseError, "status", "receiving: ", (int)s);
    }
    t.truthful(*a.s);
    Pair b;
    vn::write_all(b.peer.fd, text);
    h = H();
    s = b.s->receive(h);
    VH_CHECK(s == St::Success && h.construct("x") == expected.construct("x"), "afterwards", "receiving after a failure: ", (int)s);
}
static void op_receive_request(Trial &t, Rng &r) { receives_http<fr::HttpRequest>(t, r); }
static void op_receive_response(Trial &t, Rng &r) { receives_http<fr::HttpResponse>(t, r); }
static void op_receive_frame(Trial &t, Rng &r)
{
    fr::ClientWebFrame c;
    fr::ServerWebFrame s;
    const bool client = r.coin();
    fr::WebFrame &f = client ? static_cast<fr::WebFrame&>(c) : s;
    vw::Frame w;
    w.masked = !client;
    w.payload = r.bytes(r.below(4) ? r.below(500) : r.below(100000));
    w.form = vw::shortest(w.payload.size());
    auto feed = [&](Pair &p) { vn::write_all(p.peer.fd, vw::encode(w)); };
    Pair a;
    feed(a);
    St st = St::Unknown;
    if(t.act([&]{ st = a.s->receive(f); })) VH_CHECK(st == St::Success && f.get_payload() == w.payload, "swallowed", "receiving a frame: ", (int)st);
    t.truthful(*a.s);
    f.get_payload();
    Pair b;
    feed(b);
    st = b.s->receive(f);
    VH_CHECK(st == St::Success && f.get_payload() == w.payload, "afterwards", "receiving a frame after a failure: ", (int)st);
}

// ---- connections ----
static addrinfo *address(uint16_t port)
{
    auto *a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6));
    a->ai_addr = (sockaddr*)(a + 1);
    a->ai_socktype = SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    auto *s = (sockaddr_in*)a->ai_addr; a->ai_family = s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->ai_addrlen = sizeof *s;
    return a;
}
// Every name is this machine's, also long ones
struct Names
{
    vn::HookScope h;
    explicit Names(uint16_t port) { h->resolve = [port](const char *, const char *, const addrinfo *, addrinfo **res) { oom::Pause p; *res = address(port); return 0; }; }
};
static const char *const HOSTS[] = {"localhost", "a", "some.host.with.a.long.name.example"};
static void op_connect(Trial &t, Rng &r)
{
    vn::Server srv;
    fr::TcpSocket s;
    Names n(srv.port);
    const std::string host = HOSTS[r.below(3)], port = srv.port_text();
    if(r.coin()) { s.connect("x", port, std::chrono::seconds(5)); srv.accept(); }
    St st = St::Unknown;
    const bool done = t.act([&]{ st = s.connect(host, port, std::chrono::seconds(5)); });
    if(done) VH_CHECK(st == St::Success ? s.connected() && s.get_remote_address() == host + ":" + port : t.failed > 0, "swallowed", "connecting: ", (int)st, ", ", s.get_remote_address());
    t.truthful(s);
    if(r.coin()) { s.disconnect(); t.truthful(s); }
    st = s.connect(host, port, std::chrono::seconds(5));
    VH_CHECK(st == St::Success && s.connected() && s.get_remote_address() == host + ":" + port, "afterwards", "connecting after a failure: ", (int)st);
    t.truthful(s);
}
static void op_listen(Trial &t, Rng &r)
{
    fr::TcpListener l;
    fr::TcpSocket s;
    if(r.coin()) l.listen("0");
    St st = St::Unknown;
    vn::Fd client;
    t.act([&]{ st = l.listen("0"); { oom::Pause p; if(st == St::Success) client = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor())); } if(st == St::Success) st = l.accept(s); });
    if(!t.threw) VH_CHECK(st == St::Success ? s.connected() && s.get_remote_address() == "127.0.0.1" : t.failed > 0, "swallowed", "accepting: ", (int)st, ", ", s.get_remote_address());
    t.truthful(l);
    t.truthful(s);
    s.disconnect();
    VH_CHECK(l.listen("0") == St::Success, "afterwards", "listening after a failure");
    client = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
    VH_CHECK(l.accept(s) == St::Success && s.connected() && s.get_remote_address() == "127.0.0.1", "afterwards", "accepting after a failure");
    t.truthful(s);
}
static void op_selector(Trial &t, Rng &r)
{
    std::vector<std::shared_ptr<Pair>> members;
    for(size_t n = 1 + r.below(6); n; n--) members.push_back(std::make_shared<Pair>());
    auto extra = std::make_shared<Pair>();
    std::vector<std::weak_ptr<fr::TcpSocket>> gone;
    {
        fr::SocketSelector sel;
        int data[8];
        for(size_t a = 0; a < members.size(); a++) { sel.add(members[a]->s, &data[a]); vn::write_all(members[a]->peer.fd, "x"); }
        vn::write_all(extra->peer.fd, "x");
        std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void*>> got;
        const int how = (int)r.below(3);
        const bool done = t.act([&]{ if(how == 0) sel.add(extra->s, &data[7]); else if(how == 1) got = sel.wait(std::chrono::milliseconds(1000)); else { sel.remove(members[0]->s); } });
        if(how == 1 && done) VH_CHECK(got.size() == members.size(), "swallowed", "waiting gives ", got.size(), " of ", members.size());
        if(how == 2) VH_CHECK(done, "throws", "removing a socket");
        // It's in or not
        size_t expected = members.size() - (how == 2 ? 1 : 0) + (how == 0 && done ? 1 : 0);
        auto now = sel.wait(std::chrono::milliseconds(1000));
        VH_CHECK(now.size() == expected, "content", how == 0 ? "adding" : how == 1 ? "waiting" : "removing", done ? "" : ", which failed,", " leaves ", now.size(), " ready members rather than ", expected);
        for(auto &m : now) for(size_t a = 0; a < members.size(); a++) if(m.first == members[a]->s) VH_CHECK(m.second == &data[a], "content", "the opaque value of a member changed");
        if(how == 0 && !done)
        {
            VH_CHECK(!sel.remove(extra->s), "content", "adding, which failed, made it a member");
            VH_CHECK(extra->s.use_count() == 1, "content", "adding, which failed, keeps the socket");
            sel.add(extra->s, &data[7]);
            VH_CHECK(sel.wait(std::chrono::milliseconds(1000)).size() == expected + 1, "afterwards", "adding after a failure");
        }
    }
    for(auto &m : members) VH_CHECK(m->s.use_count() == 1, "content", "the selector is gone, and a member isn't");
}
static const char REQUEST[] = "GET /some/path/of/the/server HTTP/1.1\r\nHost: some.host.example\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
static void op_accept_ws(Trial &t, Rng &)
{
    static fr::TcpListener l;
    if(!l.connected() && l.listen("0") != St::Success) vn::broken("listen");
    const uint16_t port = (uint16_t)vn::port_of(l.get_socket_descriptor());
    Web s;
    vn::Fd c = vn::dial(port);
    vn::write_all(c.fd, REQUEST);
    St st = St::Unknown;
    t.act([&]{ st = l.accept(s); });
    t.allow("WebSock");
    if(t.threw && t.wrong) vh::violation("throws", vh::cat("accepting a WebSocket: ", t.error));
    t.truthful(s);
    if(!t.threw) VH_CHECK(st == St::Success && vn::read_some(c.fd, 12, 2000) == "HTTP/1.1 101", "swallowed", "accepting a WebSocket: ", (int)st);
    s.disconnect();
    c = vn::dial(port);
    vn::write_all(c.fd, REQUEST);
    try { st = l.accept(s); } catch(const std::exception &e) { st = St::Unknown; }
    VH_CHECK(st == St::Success && vn::read_some(c.fd, 12, 2000) == "HTTP/1.1 101", "afterwards", "accepting a WebSocket after a failure: ", (int)st);
}
static void op_connect_ws(Trial &t, Rng &r)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) vn::broken("listen");
    const uint16_t port = (uint16_t)vn::port_of(l.get_socket_descriptor());
    std::atomic<bool> over{false};
    std::thread server([&]{
        std::vector<std::shared_ptr<Web>> kept;
        while(!over)
        {
            pollfd p{l.get_socket_descriptor(), POLLIN, 0};
            if(__real_poll(&p, 1, 2) != 1) continue;
            auto s = std::make_shared<Web>();
            s->set_receive_timeout(20000);
            try { if(l.accept(*s) == St::Success) kept.push_back(s); } catch(const std::exception &) {}
        }
    });
    {
        Web s;
        Names n(port);
        const std::string host = HOSTS[r.below(3)];
        St st = St::Unknown;
        t.act([&]{ st = s.connect(host, std::to_string(port), "/path", {"some-long-protocol-name", "another"}, std::chrono::seconds(20)); });
        if(!t.threw) VH_CHECK(st == St::Success ? s.connected() : t.failed && !s.connected(), "swallowed", "connecting a WebSocket: ", (int)st);
        t.truthful(s);
        s.disconnect();
        st = s.connect(host, std::to_string(port), std::chrono::seconds(20));
        VH_CHECK(st == St::Success && s.connected(), "afterwards", "connecting a WebSocket after a failure: ", (int)st);
    }
    over = true;
    server.join();
}
// ---- TLS ----
static void op_context(Trial &t, Rng &r)
{
    const bool file = r.coin();
    const std::string path = vt::path("ca.pem"), pem = vt::file("ca.pem");
    auto c = vt::context({"ca2"});
    bool ok = false;
    t.act([&]{ ok = file ? c->load_ca_certs_from_file(path) : c->load_ca_certs_from_memory(pem); });
    if(!t.threw && !t.failed) VH_CHECK(ok, "status", "loading certificates failed");
    bool again = file ? c->load_ca_certs_from_file(path) : c->load_ca_certs_from_memory(pem);
    VH_CHECK(again, "afterwards", "loading certificates after a failure");
}
static void op_tls_listener(Trial &t, Rng &r)
{
    static auto c = vt::context({});
    const std::string cert = vt::path(r.pick<const char*>({"good.pem", "good.pem", "nothing-of-this-name.pem"})), key = vt::path(r.pick<const char*>({"good.key", "good.key", "nothing-of-this-name.key"}));
    const bool good = cert.find("nothing") == std::string::npos && key.find("nothing") == std::string::npos;
    std::unique_ptr<fr::SSLListener> l;
    t.act([&]{ try { l.reset(new fr::SSLListener(c, cert, key)); } catch(const std::runtime_error &e) { if(good && !oom::state().failed) throw; } });
    if(!good) VH_CHECK(!l, "status", "a TLS listener without credentials");
    else if(!t.threw && !t.failed) VH_CHECK((bool)l, "status", "no TLS listener");
    // If there is one, it has got its credentials
    if(l && !t.threw)
    {
        if(l->listen("0") != St::Success) vn::broken("listen");
        static auto trusting = vt::context({"ca"});
        fr::SSLSocket a(trusting), b(trusting);
        std::string why;
        VH_CHECK(vt::connect(*l, a, b, &why), "swallowed", "a TLS listener which was made doesn't serve: ", why);
    }
}
static void op_new_context(Trial &t, Rng &)
{
    std::unique_ptr<fr::SSLContext> c;
    t.act([&]{ try { c.reset(new fr::SSLContext); } catch(const std::runtime_error &) { if(!oom::state().failed) throw; } });
    if(!t.threw && !t.failed) VH_CHECK((bool)c, "status", "no TLS context");
    fr::SSLContext another;
    VH_CHECK(another.load_ca_certs_from_file(vt::path("ca.pem")), "afterwards", "a TLS context after a failure");
}
static std::shared_ptr<fr::SSLListener> tls_listener()
{
    static auto l = []{ auto k = vt::listener(); if(k->listen("0") != St::Success) vn::broken("listen"); return k; }();
    return l;
}
static void drain(int fd)
{
    const int flags = __real_fcntl(fd, F_GETFL, 0L);
    __real_fcntl(fd, F_SETFL, (long)(flags | O_NONBLOCK));
    for(;;) { int f = __real_accept(fd, nullptr, nullptr); if(f < 0) break; __real_close(f); }
    __real_fcntl(fd, F_SETFL, (long)flags);
}
static bool works(fr::SSLSocket &a, fr::SSLSocket &b)
{
    size_t n = 0;
    char x = 0;
    return a.send_raw("!", 1, n) == St::Success && b.receive_raw(&x, 1, n) == St::Success && n == 1 && x == '!';
}
static void op_connect_tls(Trial &t, Rng &r)
{
    static auto trusting = vt::context({"ca"});
    auto l = tls_listener();
    const uint16_t port = (uint16_t)vn::port_of(l->get_socket_descriptor());
    auto attempt = [&](fr::SSLSocket &s, fr::SSLSocket &server, std::function<void()> f) {
        std::atomic<bool> over{false};
        St a = St::Unknown;
        std::thread th([&]{
            while(!over)
            {
                pollfd p{l->get_socket_descriptor(), POLLIN, 0};
                if(__real_poll(&p, 1, 2) != 1) continue;
                a = l->accept(server);
                break;
            }
        });
        f();
        if(!s.connected()) s.disconnect();
        over = true;
        if(a == St::Unknown && t.threw) s.disconnect();
        th.join();
        return a == St::Success;
    };
    fr::SSLSocket s(trusting);
    if(r.coin()) s.verify_certificates(false);
    const bool kept = r.coin();
    fr::SSLSocket server(trusting), other(trusting);
    const std::string host = "localhost", text = std::to_string(port);
    {
        Names n(port);
        St st = St::Unknown;
        if(kept) attempt(s, other, [&]{ s.connect(host, text, std::chrono::seconds(20)); });
        bool accepted = attempt(s, server, [&]{ t.act([&]{ st = s.connect(host, text, std::chrono::seconds(20)); }); t.truthful(s); });
        if(!t.threw) VH_CHECK(st == St::Success ? s.connected() && accepted && works(s, server) : t.failed && !s.connected(), "swallowed", "connecting a TLS socket: ", (int)st);
    }
    s.disconnect();
    t.truthful(s);
    server.disconnect();
    drain(l->get_socket_descriptor());
    Names n(port);
    t.threw = false;
    St st = St::Unknown;
    bool accepted = attempt(s, server, [&]{ st = s.connect(host, text, std::chrono::seconds(20)); });
    VH_CHECK(st == St::Success && accepted && works(s, server) && works(server, s), "afterwards", "connecting a TLS socket after a failure: ", (int)st);
}
// With a name which doesn't fit into a short string. No server is needed to get to the end of that, so it's not one of TLS.
static void op_connect_tls_long(Trial &t, Rng &r)
{
    static auto trusting = vt::context({"ca"});
    vn::Server srv;
    std::atomic<bool> over{false};
    std::thread th([&]{ while(!over) { vn::Fd f = srv.accept_within(2); if(f.fd >= 0) vn::write_all(f.fd, "HTTP/1.1 400 Bad Request\r\n\r\n"); } });
    {
        fr::SSLSocket s(trusting);
        Names n(srv.port);
        St st = St::Unknown;
        const std::string host = HOSTS[r.below(3)], port = srv.port_text();
        t.act([&]{ st = s.connect(host, port, std::chrono::seconds(20)); });
        if(!t.threw) VH_CHECK(st != St::Success && !s.connected(), "status", "connecting a TLS socket to something else: ", (int)st);
        t.truthful(s);
        if(r.coin()) { s.disconnect(); t.truthful(s); }
    }
    over = true;
    th.join();
}
static void op_accept_tls(Trial &t, Rng &)
{
    static auto trusting = vt::context({"ca"});
    auto l = tls_listener();
    const uint16_t port = (uint16_t)vn::port_of(l->get_socket_descriptor());
    fr::SSLSocket server(trusting);
    St c = St::Unknown;
    auto attempt = [&](fr::SSLSocket &client, std::function<void()> f) {
        std::thread th([&]{ Names n(port); c = client.connect("localhost", std::to_string(port), std::chrono::seconds(20)); });
        pollfd p{l->get_socket_descriptor(), POLLIN, 0};
        __real_poll(&p, 1, 20000);
        f();
        // It may still be waiting
        if(!server.connected()) drain(l->get_socket_descriptor());
        th.join();
        return c == St::Success;
    };
    {
        fr::SSLSocket client(trusting);
        St st = St::Unknown;
        bool connected = attempt(client, [&]{ t.act([&]{ st = l->accept(server); }); t.truthful(server); });
        // mbedtls overlooks it if there's no memory to work out its last message with, and then only the client can tell
        if(!t.threw) VH_CHECK(st == St::Success ? server.connected() && (connected ? works(server, client) : t.failed > 0) : t.failed && !server.connected(), "swallowed", "accepting a TLS socket: ", (int)st, ", the client: ", (int)c, ", failed ", t.failed, ", ", t.name, ", address ", server.get_remote_address());
    }
    server.disconnect();
    t.truthful(server);
    drain(l->get_socket_descriptor());
    fr::SSLSocket client(trusting);
    St st = St::Unknown;
    bool connected = attempt(client, [&]{ st = l->accept(server); });
    VH_CHECK(st == St::Success && connected && works(server, client) && works(client, server), "afterwards", "accepting a TLS socket after a failure: ", (int)st);
}

struct Named { const char *name; Op f; unsigned most; };
static const Named OPS[] = {
    {"packing", op_pack, 40}, {"unpacking", op_unpack, 40}, {"copying packets", op_packet_copy, 20}, {"populating a request", op_build_request, 40}, {"populating a response", op_build_response, 30},
    {"constructing a request", op_construct_request, 40}, {"constructing a response", op_construct_response, 30}, {"parsing a request", op_parse_request, 60}, {"parsing a response", op_parse_response, 60},
    {"URLs", op_url, 40}, {"texts", op_texts, 30}, {"names", op_names, 20}, {"sending a packet", op_send_packet, 4}, {"sending a request", op_send_request, 40}, {"sending a response", op_send_response, 30},
    {"sending a frame", op_send_frame, 10}, {"receiving a packet", op_receive_packet, 6}, {"receiving a request", op_receive_request, 60}, {"receiving a response", op_receive_response, 60}, {"receiving a frame", op_receive_frame, 10},
    {"connecting", op_connect, 8}, {"listening and accepting", op_listen, 8}, {"selecting", op_selector, 12}, {"accepting a WebSocket", op_accept_ws, 40}, {"connecting a WebSocket", op_connect_ws, 24},
};
static const Named TLS[] = {
    {"making a TLS context", op_new_context, 8}, {"loading certificates", op_context, 16}, {"making a TLS listener", op_tls_listener, 16}, {"connecting to something other than TLS", op_connect_tls_long, 16}, {"connecting with TLS", op_connect_tls, 8}, {"accepting with TLS", op_accept_tls, 8},
};
static long attempt(const Named &op, uint64_t seed, long nth, bool keeps, bool follow)
{
    const auto before = vn::descriptors();
    Trial t;
    t.nth = nth;
    t.keeps = keeps;
    t.name = vh::cat(op.name, nth < 0 ? "" : vh::cat(", with allocation ", nth, " failing", keeps ? " and all after it" : ""));
    oom::follow(true);
    {
        Rng r(seed);
        op.f(t, r);
    }
    const size_t left = t.failed && !t.wrong && follow ? oom::left_behind() : 0;
    if(t.wrong) vh::violation("throws", vh::cat(t.name, " throws ", t.error));
    for(int &s : t.sentinels)
    {
        if(s < 0) continue;
        struct stat a{}, b{};
        VH_CHECK(!::fstat(s, &a) && !::stat("/dev/null", &b) && a.st_rdev == b.st_rdev && S_ISCHR(a.st_mode), "closed-twice", t.name, " closes a descriptor which isn't its own");
        __real_close(s);
    }
    const auto after = vn::descriptors();
    if(left)
    {
        // Only now, as this starts a symbolizer
        std::string where;
        oom::left_behind(&where);
        vh::violation("left-behind", vh::cat(t.name, " leaves ", left, " blocks behind, one of them from ", where));
    }
    oom::follow(false);
    if(nth >= 0 && after.size() != before.size()) vh::violation("descriptors", vh::cat(t.name, ": ", after.size(), " descriptors are open rather than ", before.size()));
    if(t.failed) { vh::count("failed allocations"); vh::count(std::string("failed: ") + op.name); if(t.threw) vh::count("bad_alloc thrown"); else vh::count("failures reported or survived"); }
    vh::evaluated(1);
    return t.calls;
}
static void every(const Named &op, Rng &rng)
{
    oom::install();
    const uint64_t seed = rng.u64();
    const long n = attempt(op, seed, -1, false, false);
    vh::distinct(vh::mix(seed));
    for(unsigned a = 0; a < op.most && n; a++)
    {
        // Where there are many, those at the ends are rather the library's own
        const uint64_t from = rng.below(3);
        const long nth = n <= (long)op.most ? (long)a : from == 0 ? (long)rng.below(8) : from == 1 ? n - 1 - (long)rng.below(8) : (long)rng.below((uint64_t)n);
        if(nth >= n) break;
        attempt(op, seed, nth, rng.chance(1, 4), true);
    }
}
VH_SECTION_X(operations, 1600, 30000, false, 120) { every(OPS[index % (sizeof OPS / sizeof *OPS)], rng); }
VH_SECTION_X(tls, 160, 3000, false, 240) { every(TLS[index % (sizeof TLS / sizeof *TLS)], rng); }
