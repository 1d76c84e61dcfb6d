// C20: independent objects can be used from many threads at once
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_mock.h>
#include <vh_http.h>
#include <vh_tls.h>
#include <vh_ws.h>
#include <frnetlib/Base64.h>
#include <frnetlib/Packet.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/URL.h>
#include <frnetlib/WebSocket.h>
#include <memory>
using vh::Rng;
typedef fr::Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;
using std::chrono::milliseconds;

// Lets them off at the same time, without ordering anything that follows more than needed
struct Gate
{
    std::atomic<unsigned> waiting{0};
    const unsigned n;
    explicit Gate(unsigned c) : n(c) {}
    void pass() { waiting.fetch_add(1, std::memory_order_relaxed); while(waiting.load(std::memory_order_relaxed) < n) std::this_thread::yield(); }
};
// What a thread saw. Nothing here may depend on anything but its seed.
struct Digest
{
    uint64_t h = 1;
    uint64_t things = 0;
    void add(const std::string &s) { h = vh::hash_str(s, h); things++; }
    void add(uint64_t v) { h = vh::mix(h ^ v); things++; }
};

static void packets(Rng &r, Digest &d)
{
    vh::MockSocket m(&r);
    std::vector<std::string> v{r.bytes(r.below(100)), r.bytes(r.below(10))};
    std::map<uint16_t, std::string> map{{(uint16_t)r.u64(), r.bytes(5)}, {(uint16_t)r.u64(), ""}};
    double f = (double)r.below(100000) / 7;
    uint64_t n = r.u64();
    fr::Packet p(v, map, f, n, r.coin());
    m.send(p);
    d.add(m.out);
    m.in = m.out;
    m.max_chunk = 7;
    fr::Packet q;
    d.add((uint64_t)m.receive(q));
    std::vector<std::string> v2; std::map<uint16_t, std::string> map2; double f2; uint64_t n2; bool b2;
    q >> v2 >> map2 >> f2 >> n2 >> b2;
    for(auto &x : v2) d.add(x);
    for(auto &x : map2) d.add(x.second);
    d.add(n2); d.add(b2);
    try { q >> n2; d.add(1); } catch(const std::exception &) { d.add(2); }
}
static void http(Rng &r, Digest &d)
{
    fr::HttpRequest q;
    q.set_type(r.pick({fr::Http::RequestType::Get, fr::Http::RequestType::Post, fr::Http::RequestType::Put}));
    q.set_uri(vhttp::uri(r).substr(0, 60));
    for(auto &h : vhttp::headers(r)) q.header(h.first) = h.second;
    for(auto &a : vhttp::arguments(r)) { q.get(a.first) = a.second; if(r.coin()) q.post(a.second) = a.first; }
    if(r.coin()) q.set_body(r.bytes(r.below(200)));
    std::string text = q.construct("localhost");
    // (the order of headers isn't fixed)
    d.add(text.size());
    fr::HttpRequest p;
    St st = St::NotEnoughData;
    for(size_t at = 0; at < text.size() && st == St::NotEnoughData;) { size_t n = std::min<size_t>(text.size() - at, 1 + r.below(50)); st = p.parse(text.data() + at, n); at += n; }
    d.add((uint64_t)st);
    d.add(p.get_body());
    d.add(p.get_uri());
    fr::HttpResponse a, b;
    a.set_status(r.pick({fr::Http::RequestStatus::Ok, fr::Http::RequestStatus::NotFound, fr::Http::RequestStatus::SwitchingProtocols}));
    a.set_body(r.bytes(r.below(300)));
    text = a.construct("h");
    d.add((uint64_t)b.parse(text.data(), text.size()));
    d.add(b.get_body());
    std::string chunked = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n0\r\n\r\n";
    fr::HttpResponse c;
    d.add((uint64_t)c.parse(chunked.data(), chunked.size()));
    d.add(c.get_body());
    // Whole messages through sockets
    for(int n = 0; n < 3; n++)
    {
        vh::MockSocket m(&r);
        m.max_chunk = 1 + r.below(600);
        vhttp::Message msg = vhttp::message(r, n == 0);
        d.add((uint64_t)m.send(a));
        m.in = msg.text;
        if(n == 0) { fr::HttpRequest h; d.add((uint64_t)m.receive(h)); d.add(vhttp::differs(h, msg, r)); }
        else { fr::HttpResponse h; d.add((uint64_t)m.receive(h)); d.add(vhttp::differs(h, msg, r)); }
    }
    d.add(fr::Http::url_encode(r.bytes(20)));
    d.add(fr::Http::url_decode(r.bytes(20)));
    d.add(fr::Http::get_mimetype(r.pick<std::string>({"a.html", "b.jpg", "c.nothing", "d.tar.gz", "e.png", "f"})));
    d.add((uint64_t)fr::Http::string_to_request_type(r.pick<std::string>({"GET", "PO", "DELETE", "x"})));
}
static void frames(Rng &r, Digest &d)
{
    const bool client = r.coin();
    auto f = vw::make(client), g = vw::make(!client);
    vh::MockSocket m(&r);
    std::string first;
    for(int a = 0; a < 3; a++)
    {
        f->set_payload(r.bytes(r.pick<size_t>({0, 5, 125, 126, 300, 70000}) % (a ? 400 : 70001)));
        f->set_opcode(r.coin() ? fr::WebFrame::Opcode::Text : fr::WebFrame::Opcode::Binary);
        f->set_final(r.coin());
        m.send(*f);
    }
    size_t at = 0;
    vw::Frame x;
    std::string last_key;
    while(vw::decode(m.out, at, x))
    {
        d.add(x.payload);
        d.add(x.opcode * 2 + x.fin);
        std::string key((const char*)x.key, 4);
        d.add(client && key == last_key); // keys change
        last_key = key;
    }
    m.in = m.out;
    m.max_chunk = 100;
    for(int a = 0; a < 3; a++) { d.add((uint64_t)m.receive(*g)); d.add(g->get_payload()); }
}
static void odds(Rng &r, Digest &d)
{
    fr::URL u(r.pick<std::string>({"http://a.b/c?d=e#f", "https://example.org", "WSS://h:99/x", "ftp://q", "?", "nothing://", "a:1"}));
    d.add(u.get_host()); d.add(u.get_port()); d.add(u.get_path()); d.add(u.get_query()); d.add(u.get_fragment()); d.add((uint64_t)u.get_scheme());
    d.add(fr::URL::scheme_to_string(fr::URL::Scheme::HTTPS));
    // Names nobody has come across before
    const std::string name = r.from("abcdefghijklmnopqrstuvwxyz", 6 + r.below(6));
    d.add((uint64_t)fr::URL::string_to_scheme(name));
    fr::URL v(name + "://" + name + ".example:" + std::to_string(r.below(65536)) + "/" + name);
    d.add(v.get_host()); d.add(v.get_port()); d.add((uint64_t)v.get_scheme()); d.add(v.get_url());
    d.add(fr::Http::get_mimetype("x." + name));
    d.add((uint64_t)fr::Http::string_to_transfer_encoding(name));
    d.add((uint64_t)fr::Http::string_to_request_type(name));
    d.add(fr::Http::url_decode(fr::Http::url_encode(name + "/ " + name)));
    d.add((uint64_t)fr::URL::string_to_scheme("SFTP"));
    errno = EAGAIN;
    std::string s = fr::Socket::status_to_string((St)r.below(25));
    d.add(s);
    std::string b = r.bytes(r.below(200));
    d.add(fr::Base64::encode(b));
    d.add(fr::Sha1::sha1_digest(b));
}
// Over connections of its own
static void local(Rng &r, Digest &d)
{
    fr::TcpListener l;
    fr::TcpSocket a, b;
    if(l.listen("0") != St::Success) { d.add(99); return; }
    d.add((uint64_t)a.connect("127.0.0.1", std::to_string(vn::port_of(l.get_socket_descriptor())), std::chrono::seconds(20)));
    d.add((uint64_t)l.accept(b));
    d.add(b.get_remote_address());
    for(int n = 0; n < 4; n++)
    {
        fr::Packet p(r.bytes(r.below(3000)), (uint32_t)n), q;
        d.add((uint64_t)a.send(p));
        d.add((uint64_t)b.receive(q));
        std::string s; uint32_t k; q >> s >> k;
        d.add(s); d.add(k);
    }
    fr::HttpRequest q1, q2;
    q1.set_uri("/abc");
    q1.set_type(fr::Http::RequestType::Post);
    q1.set_body(r.bytes(r.below(5000)));
    d.add((uint64_t)a.send(q1));
    d.add((uint64_t)b.receive(q2));
    d.add(q2.get_body());
    d.add(q2.get_uri());
    b.set_blocking(false);
    char c;
    size_t n;
    d.add((uint64_t)b.receive_raw(&c, 1, n));
    a.disconnect();
    St st;
    auto begin = vn::Clock::now();
    do st = b.receive_raw(&c, 1, n); while(st == St::WouldBlock && vn::ms_since(begin) < 20000);
    d.add((uint64_t)st);
}
static void select(Rng &r, Digest &d)
{
    fr::SocketSelector sel;
    std::vector<std::shared_ptr<fr::TcpSocket>> s;
    std::vector<vn::Fd> peers;
    for(size_t a = 0; a < 6; a++)
    {
        auto p = vn::pair();
        int fd = p.first.release();
        s.push_back(std::make_shared<fr::TcpSocket>());
        s.back()->set_descriptor(&fd);
        peers.push_back(std::move(p.second));
        sel.add(s.back(), (void*)(uintptr_t)(a + 1));
    }
    std::set<uint64_t> seen;
    for(size_t a = 0; a < 6; a++) if(r.coin()) vn::write_all(peers[a].fd, "x");
    for(int n = 0; n < 8; n++) for(auto &x : sel.wait(milliseconds(0))) { seen.insert((uint64_t)(uintptr_t)x.second); if(x.first != s[(uintptr_t)x.second - 1]) d.add(77); }
    for(auto x : seen) d.add(x);
    d.add((uint64_t)(uintptr_t)sel.remove(s[2]));
}
static void web(Rng &r, Digest &d)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) { d.add(99); return; }
    Web c, s;
    St st = St::Unknown;
    const std::string port = std::to_string(vn::port_of(l.get_socket_descriptor()));
    std::thread t([&]{ st = c.connect("127.0.0.1", port, "/x", {"p"}, std::chrono::seconds(20)); });
    try { d.add((uint64_t)l.accept(s)); } catch(const std::exception &) { d.add(98); }
    t.join();
    d.add((uint64_t)st);
    fr::ClientWebFrame cf;
    fr::ServerWebFrame sf;
    cf.set_payload(r.bytes(r.below(1000)));
    d.add((uint64_t)c.send(cf));
    d.add((uint64_t)s.receive(sf));
    d.add(sf.get_payload());
    d.add((uint64_t)s.send(sf));
    d.add((uint64_t)c.receive(cf));
    d.add(cf.get_payload());
}
// A TLS connection, the context being everybody's
static std::shared_ptr<fr::SSLContext> shared_context() { static auto c = vt::context(); return c; }
static void tls(Rng &r, Digest &d)
{
    auto l = std::make_shared<fr::SSLListener>(shared_context(), vt::path("good.pem"), vt::path("good.key"));
    if(l->listen("0") != St::Success) { d.add(99); return; }
    fr::SSLSocket c(shared_context()), s(shared_context());
    d.add(vt::connect(*l, c, s));
    fr::Packet p(r.bytes(r.below(5000))), q;
    d.add((uint64_t)c.send(p));
    d.add((uint64_t)s.receive(q));
    std::string x;
    q >> x;
    d.add(x);
    d.add((uint64_t)s.send(q));
    fr::Packet z;
    d.add((uint64_t)c.receive(z));
    z >> x;
    d.add(x);
    c.disconnect();
    s.disconnect();
}
typedef void (*Work)(Rng &, Digest &);
static const Work WORK[] = {packets, http, frames, odds, local, select, web, tls};
static const char *const WORK_NAMES[] = {"packets", "http", "frames", "odds", "sockets", "selectors", "websockets", "tls"};
static const unsigned TLS_WORK = 7;

static void run_together(Rng &rng, unsigned threads, const std::vector<std::pair<unsigned, uint64_t>> *fixed, unsigned rounds, bool alone_first)
{
    struct Plan { std::vector<std::pair<unsigned, uint64_t>> work; Digest alone, together; };
    std::vector<Plan> plan(threads);
    for(auto &p : plan)
    {
        if(fixed) p.work = *fixed;
        else for(unsigned a = 0; a < rounds; a++) p.work.emplace_back((unsigned)rng.below(rng.chance(1, 8) ? 8 : 7), rng.fork());
        if(fixed) for(auto &w : p.work) w.second = rng.fork();
    }
    auto execute = [](Plan &p, Digest &d) { for(auto &w : p.work) { Rng r(w.second); WORK[w.first](r, d); } };
    if(alone_first) for(auto &p : plan) execute(p, p.alone);
    Gate gate(threads);
    std::vector<std::thread> t;
    for(auto &p : plan) t.emplace_back([&]{ gate.pass(); execute(p, p.together); });
    for(auto &x : t) x.join();
    if(!alone_first) for(auto &p : plan) execute(p, p.alone);
    for(auto &p : plan)
    {
        if(p.alone.h != p.together.h)
        {
            std::string w;
            for(auto &x : p.work) w += vh::cat(WORK_NAMES[x.first], " ");
            vh::violation("results-differ", vh::cat("a thread working on its own objects (", w, ") sees something else when there are ", threads));
        }
        for(auto &x : p.work) vh::count(vh::cat("work: ", WORK_NAMES[x.first]));
        vh::count("results compared", p.alone.things);
        vh::distinct(p.alone.h);
    }
}

// The very first uses, when things are set up. These are only first in a process of their own.
VH_SECTION_X(first_uses, 8, 8, false, 120)
{
    std::vector<std::pair<unsigned, uint64_t>> w;
    for(unsigned a = 0; a < 8; a++) w.emplace_back((unsigned)((a + index) % 8), 0);
    run_together(rng, 8, &w, 0, false);
}
VH_SECTION_X(same_work, 160, 1600, false, 120)
{
    std::vector<std::pair<unsigned, uint64_t>> w(index % 8 == TLS_WORK ? 1 : 6, std::make_pair((unsigned)(index % 8), 0ull));
    run_together(rng, 4 + (unsigned)rng.below(5), &w, 0, rng.coin());
}
VH_SECTION_X(mixed_work, 200, 3000, false, 120)
{
    run_together(rng, 2 + (unsigned)rng.below(7), nullptr, 8, rng.coin());
    (void)index;
}

// Several threads accept from one listener
template<typename L, typename S, typename MakeS> static void accept_together(Rng &rng, L &l, MakeS make, bool secure)
{
    const unsigned acceptors = 2 + (unsigned)rng.below(5), clients = acceptors + (unsigned)rng.below(secure ? 8 : 40), dialers = 1 + (unsigned)rng.below(4);
    const std::string port = std::to_string(vn::port_of(l.get_socket_descriptor()));
    std::vector<std::vector<uint32_t>> got(acceptors);
    std::vector<std::vector<std::string>> trouble(acceptors + dialers);
    std::vector<std::vector<uint32_t>> answers(dialers);
    std::atomic<unsigned> next{0};
    Gate gate(acceptors + dialers);
    std::vector<std::thread> t;
    // Each takes clients until there are none left to be taken. Which are as many as there'll be.
    for(unsigned a = 0; a < acceptors; a++) t.emplace_back([&, a]{
        gate.pass();
        while(next.fetch_add(1, std::memory_order_relaxed) < clients)
        {
            auto s = make();
            St st = l.accept(*s);
            if(st != St::Success) { trouble[a].push_back(vh::cat("accept: ", (int)st)); continue; }
            s->set_receive_timeout(20000);
            fr::Packet p;
            if((st = s->receive(p)) != St::Success) { trouble[a].push_back(vh::cat("receive: ", (int)st)); continue; }
            uint32_t id;
            p >> id;
            got[a].push_back(id);
            fr::Packet q(id, a);
            if((st = s->send(q)) != St::Success) trouble[a].push_back(vh::cat("send: ", (int)st));
            fr::Packet end;
            s->receive(end); // until it's closed
        }
    });
    for(unsigned n = 0; n < dialers; n++) t.emplace_back([&, n]{
        gate.pass();
        for(unsigned id = n; id < clients; id += dialers)
        {
            auto s = make();
            St st = s->connect("localhost", port, std::chrono::seconds(20));
            if(st != St::Success) { trouble[acceptors + n].push_back(vh::cat("connect: ", (int)st)); vn::dial((uint16_t)atoi(port.c_str())); continue; }
            s->set_receive_timeout(20000);
            fr::Packet p(id);
            if((st = s->send(p)) != St::Success) { trouble[acceptors + n].push_back(vh::cat("send: ", (int)st)); continue; }
            fr::Packet q;
            if((st = s->receive(q)) != St::Success) { trouble[acceptors + n].push_back(vh::cat("receive: ", (int)st)); continue; }
            uint32_t back, who;
            q >> back >> who;
            if(back != id) trouble[acceptors + n].push_back(vh::cat("client ", id, " was answered as ", back));
            answers[n].push_back(who);
        }
    });
    for(auto &x : t) x.join();
    std::map<uint32_t, int> times;
    uint64_t schedule = acceptors;
    for(unsigned a = 0; a < acceptors; a++) for(auto id : got[a]) { times[id]++; schedule = vh::mix(schedule ^ (id * 31 + a)); }
    for(auto &v : trouble) for(auto &x : v) { vh::violation("shared-listener", vh::cat(secure ? "TLS, " : "", acceptors, " acceptors, ", clients, " clients: ", x)); return; }
    for(unsigned id = 0; id < clients; id++) if(times[id] != 1) { vh::violation("not-handed-out-once", vh::cat(secure ? "TLS, " : "", "client ", id, " was accepted by ", times[id], " of ", acceptors, " threads")); return; }
    vh::count(secure ? "TLS connections handed out" : "connections handed out", clients);
    vh::distinct(schedule);
}
VH_SECTION_X(acceptors, 160, 1500, false, 120)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) vn::broken("listen");
    accept_together<fr::TcpListener, fr::TcpSocket>(rng, l, []{ return std::make_shared<fr::TcpSocket>(); }, false);
    (void)index;
}
VH_SECTION_X(tls_acceptors, 40, 400, false, 120)
{
    auto l = std::make_shared<fr::SSLListener>(shared_context(), vt::path("good.pem"), vt::path("good.key"));
    if(l->listen("0") != St::Success) vn::broken("listen");
    accept_together<fr::SSLListener, fr::SSLSocket>(rng, *l, []{ return std::make_shared<fr::SSLSocket>(shared_context()); }, true);
    (void)index;
}

// One connection, one thread sending and one receiving at each end
VH_SECTION_X(duplex, 240, 3000, false, 120)
{
    auto p = rng.coin() ? vn::tcp_pair() : vn::pair();
    const bool frames = rng.coin(), blocking = rng.chance(3, 4);
    fr::TcpSocket a, b;
    int fa = p.first.release(), fb = p.second.release();
    a.set_descriptor(&fa);
    b.set_descriptor(&fb);
    if(!blocking) { a.set_blocking(false); b.set_blocking(false); }
    if(rng.coin()) { a.set_receive_timeout(60000); b.set_send_timeout(60000); }
    const uint64_t seeds[2] = {rng.fork(), rng.fork()};
    const unsigned counts[2] = {(unsigned)rng.range(1, 60), (unsigned)rng.range(1, 60)};
    std::string trouble[4];
    auto send = [&](fr::TcpSocket &s, int way) {
        Rng r(seeds[way]);
        for(unsigned n = 0; n < counts[way]; n++)
        {
            std::string x = r.bytes(r.chance(1, 10) ? r.below(100000) : r.below(500));
            St st;
            if(frames) { auto f = vw::make(way == 0); f->set_payload(x); f->set_opcode(fr::WebFrame::Opcode::Binary); st = s.send(*f); }
            else { fr::Packet q(x, n); st = s.send(q); }
            if(st != St::Success) { trouble[way] = vh::cat("sending ", n, ": ", vh::status_name(st)); s.shutdown(); return; }
        }
    };
    auto receive = [&](fr::TcpSocket &s, int way) {
        Rng r(seeds[way]);
        for(unsigned n = 0; n < counts[way]; n++)
        {
            std::string x = r.bytes(r.chance(1, 10) ? r.below(100000) : r.below(500)), y;
            St st;
            uint32_t k = n;
            fr::Packet q;
            auto f = vw::make(way == 1);
            do { st = frames ? s.receive(*f) : s.receive(q); } while(st == St::WouldBlock);
            if(st == St::Success) { if(frames) y = f->get_payload(); else q >> y >> k; }
            if(st != St::Success || x != y || k != n) { trouble[2 + way] = vh::cat("receiving ", n, ": ", vh::status_name(st), x != y ? ", it differs" : ""); s.shutdown(); return; }
        }
    };
    std::thread t[4] = {std::thread([&]{ send(a, 0); }), std::thread([&]{ receive(b, 0); }), std::thread([&]{ send(b, 1); }), std::thread([&]{ receive(a, 1); })};
    for(auto &x : t) x.join();
    for(auto &x : trouble) if(!x.empty()) { vh::violation("duplex", vh::cat(frames ? "frames" : "packets", blocking ? "" : ", non-blocking", ": ", x)); break; }
    vh::count("messages both ways", counts[0] + counts[1]);
    vh::distinct(vh::mix(seeds[0]));
    (void)index;
}
