// C24: connect and listen reach exactly the requested endpoint
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_conn.h>
#include <csignal>
#include <pthread.h>
#include <sys/resource.h>
using vh::Rng;
using namespace vc;
using std::chrono::milliseconds;
typedef fr::Socket::IP IP;

static const int MARGIN = 6000; // ms, for what should be over
static std::string text(St s) { try { return fr::Socket::status_to_string(s); } catch(const std::exception &) { return vh::cat((int)s); } }
static const char *version(IP v) { return v == IP::v4 ? "IPv4" : v == IP::v6 ? "IPv6" : "any version"; }
// Settles on a version: what was chosen before it doesn't matter
template<class T> static void choose(Rng &r, T &s, IP v)
{
    if(r.chance(1, 3)) for(uint64_t a = r.range(1, 3); a--;) s.set_inet_version(r.pick({IP::any, IP::v4, IP::v6}));
    s.set_inet_version(v);
}

// ---- addresses ----
struct Address
{
    sockaddr_storage s{};
    socklen_t len = 0;
    Address() {}
    Address(const std::string &ip, uint16_t port)
    {
        auto *a = (sockaddr_in*)&s;
        auto *b = (sockaddr_in6*)&s;
        if(inet_pton(AF_INET, ip.c_str(), &a->sin_addr) == 1) { a->sin_family = AF_INET; a->sin_port = htons(port); len = sizeof *a; }
        else if(inet_pton(AF_INET6, ip.c_str(), &b->sin6_addr) == 1) { b->sin6_family = AF_INET6; b->sin6_port = htons(port); len = sizeof *b; }
        else vn::broken("address " + ip);
    }
    static Address of(int fd, bool peer)
    {
        Address a;
        a.len = sizeof a.s;
        if(peer ? getpeername(fd, (sockaddr*)&a.s, &a.len) : getsockname(fd, (sockaddr*)&a.s, &a.len)) a.len = 0;
        return a;
    }
    int family() const { return s.ss_family; }
    uint16_t port() const { return ntohs(family() == AF_INET ? ((sockaddr_in*)&s)->sin_port : ((sockaddr_in6*)&s)->sin6_port); }
    std::string ip() const
    {
        char b[INET6_ADDRSTRLEN] = "?";
        if(len) inet_ntop(family(), family() == AF_INET ? (void*)&((sockaddr_in*)&s)->sin_addr : (void*)&((sockaddr_in6*)&s)->sin6_addr, b, sizeof b);
        return b;
    }
    std::string str() const { return len ? vh::cat(ip(), " port ", port()) : "nothing"; }
    bool operator==(const Address &o) const { return len && o.len && str() == o.str(); }
};
// A list of results of getaddrinfo, to be freed by freeaddrinfo
static addrinfo *result(const Address &w, int family_shown)
{
    auto *a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
    a->ai_addr = (sockaddr*)(a + 1);
    memcpy(a->ai_addr, &w.s, w.len);
    a->ai_addrlen = w.len;
    a->ai_socktype = SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    a->ai_family = family_shown;
    return a;
}
static vn::Fd listening(const std::string &ip, uint16_t port, int backlog)
{
    Address a(ip, port);
    vn::Fd f(vn::brief(__real_socket(a.family(), SOCK_STREAM | SOCK_CLOEXEC, 0)));
    int one = 1;
    __real_setsockopt(f.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if(a.family() == AF_INET6) __real_setsockopt(f.fd, IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one);
    if(f.fd < 0 || __real_bind(f.fd, (sockaddr*)&a.s, a.len) || __real_listen(f.fd, backlog)) { f.reset(); }
    return f;
}
// If it's this process which listens on a port. Another may have been given the number since.
static bool listens(uint16_t port)
{
    for(int fd = 0; fd < 4096; fd++)
    {
        int on = 0;
        socklen_t n = sizeof on;
        if(!getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) && on && vn::port_of(fd) == port) return true;
    }
    return false;
}
static bool have_v6() { static bool r = listening("::1", 0, 1).fd >= 0; return r; }
static vn::Fd dial_from(const Address &to, const std::string &from)
{
    vn::Fd f(vn::brief(__real_socket(to.family(), SOCK_STREAM | SOCK_CLOEXEC, 0)));
    Address a(from, 0);
    if(__real_bind(f.fd, (sockaddr*)&a.s, a.len) || __real_connect(f.fd, (sockaddr*)&to.s, to.len)) f.reset();
    return f;
}
static vn::Fd accept_within(int fd, int ms) { pollfd p{fd, POLLIN, 0}; return __real_poll(&p, 1, ms) == 1 ? vn::Fd(vn::brief(__real_accept(fd, nullptr, nullptr))) : vn::Fd(); }
static std::string some_ip(Rng &r) { return vh::cat("127.", r.below(3), ".", r.below(3), ".", 1 + r.below(4)); }

// ---- somewhere to connect to ----
enum SpotKind { Good, GoodV6, Refused, Unreachable, NoFamily, FailsLater, SilentSpot, Late };
static const char *const SPOT[] = {"good", "good (IPv6)", "refusing", "unreachable", "of an unknown family", "failing later", "silent", "late"};
struct Spot
{
    SpotKind kind;
    Address at;
    vn::Fd fd;
    std::vector<vn::Fd> fill;
    explicit Spot(Rng &r, SpotKind k) : kind(k)
    {
        if(k == GoodV6 && !have_v6()) kind = k = Good;
        switch(k)
        {
            case Good: fd = listening(some_ip(r), 0, 16); break;
            case GoodV6: fd = listening("::1", 0, 16); break;
            case Refused: case FailsLater:
            {
                // Taken, but not listened to
                Address a(r.chance(1, 3) && have_v6() ? "::1" : some_ip(r), 0);
                fd.fd = __real_socket(a.family(), SOCK_STREAM | SOCK_CLOEXEC, 0);
                if(__real_bind(fd.fd, (sockaddr*)&a.s, a.len)) vn::broken("bind");
                break;
            }
            case Unreachable: at = Address(r.pick<const char*>({"255.255.255.255", "224.0.0.9"}), 80); return;
            case NoFamily: at = Address("127.0.0.1", 9); return;
            case SilentSpot: case Late:
                fd = listening(some_ip(r), 0, 0);
                if(fd.fd < 0) vn::broken("listen");
                at = Address::of(fd.fd, false);
                // Full as it is
                for(int a = 0; a < 4; a++)
                {
                    vn::Fd f(vn::brief(__real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0)));
                    __real_connect(f.fd, (sockaddr*)&at.s, at.len);
                    pollfd p{f.fd, POLLOUT, 0};
                    bool done = __real_poll(&p, 1, 40) == 1;
                    fill.push_back(std::move(f));
                    if(!done) break;
                    if(a == 3) vn::broken("endless backlog");
                }
                return;
        }
        if(fd.fd < 0) vn::broken("spot");
        at = Address::of(fd.fd, false);
    }
    bool good() const { return kind == Good || kind == GoodV6; }
    // Makes room, after a while. There may be connections of its own first.
    vn::Fd let_in(const Address &who, int ms)
    {
        auto b = vn::Clock::now();
        fill.clear();
        while(vn::ms_since(b) < ms)
        {
            auto f = accept_within(fd.fd, 50);
            if(f.fd >= 0 && Address::of(f.fd, true) == who) return f;
        }
        return vn::Fd();
    }
};

// What a socket that has just been connected is like
static void check_connected(fr::Socket &s, const Address &to, const std::string &name, const std::string &port, const std::string &what)
{
    if(!s.connected()) { vh::violation("not-connected", what); return; }
    const Address there = Address::of(s.get_socket_descriptor(), true);
    if(!(there == to)) vh::violation("wrong-endpoint", vh::cat(what, ": is connected to ", there.str(), " instead of ", to.str()));
    if(!s.get_blocking() || !actually_blocking(s.get_socket_descriptor())) vh::violation("not-blocking", vh::cat(what, ": reported ", s.get_blocking(), ", in fact ", actually_blocking(s.get_socket_descriptor())));
    const std::string &r = s.get_remote_address();
    if(r != name + ":" + port && r != name) vh::violation("remote-address", vh::cat(what, ": ", vh::show(r), " instead of ", name, ":", port));
}
static void check_failed(fr::Socket &s, St st, const std::string &what)
{
    if(st == St::Success)
    {
        const Address there = Address::of(s.get_socket_descriptor(), true);
        // Where nobody of this process listens, somebody else may
        if(s.connected() && there.len && !listens(there.port())) { vh::count("listeners of others"); return; }
        vh::violation("success-without-peer", vh::cat(what, ": to ", there.str()));
    }
    else if(s.connected()) vh::violation("failed-but-connected", vh::cat(what, ": ", text(st)));
}
// Both ends of the same connection
static void check_exchange(Rng &r, fr::Socket &s, int peer, const std::string &what)
{
    std::string d = r.bytes(1 + r.below(100));
    size_t n = 0;
    St st = s.send_raw(d.data(), d.size(), n);
    if(st != St::Success || vn::read_some(peer, d.size(), 20000) != d) { vh::violation("wrong-connection", vh::cat(what, ": what's sent doesn't arrive (", text(st), ")")); return; }
    vn::write_all(peer, d);
    std::string e(d.size(), '\0');
    st = s.receive_all(&e[0], e.size());
    if(st != St::Success || e != d) vh::violation("wrong-connection", vh::cat(what, ": what's sent back doesn't arrive (", text(st), ")"));
}

// A few bytes of WebSocket or TLS server on the other end, for one connection
static void ws_reply(int fd)
{
    std::string q;
    while(q.find("\r\n\r\n") == std::string::npos) { auto more = vn::read_some(fd, 1, 20000); if(more.empty()) return; q += more; }
    std::string low = q, key;
    for(auto &c : low) c = (char)tolower(c);
    size_t p = low.find("sec-websocket-key:");
    if(p != std::string::npos) { p += 18; while(q[p] == ' ') p++; key = q.substr(p, q.find("\r\n", p) - p); }
    vn::write_all(fd, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + fr::Base64::encode(fr::Sha1::sha1_digest(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")) + "\r\n\r\n");
}
static std::shared_ptr<fr::Socket> make(Type t, bool verify = true)
{
    static auto context = vt::context();
    if(t == Tcp) return std::make_shared<fr::TcpSocket>();
    if(t == Ws) return std::make_shared<Web>();
    auto s = std::make_shared<fr::SSLSocket>(context);
    s->verify_certificates(verify);
    return s;
}

// Names with several addresses, any of which may work
static void fallback(Rng &rng, bool slow)
{
    const Type type = slow || rng.chance(4, 5) ? Tcp : Ws;
    std::vector<std::unique_ptr<Spot>> spots;
    const size_t n = rng.range(1, slow ? 4 : 6);
    int first = -1, silent = 0;
    for(size_t a = 0; a < n; a++)
    {
        SpotKind k;
        if(rng.chance(1, 4)) k = rng.coin() ? Good : GoodV6;
        else k = rng.pick({Refused, Refused, Unreachable, NoFamily, FailsLater, FailsLater});
        if(slow && (a == 0 || rng.chance(1, 4)) && silent < 2) { k = SilentSpot; silent++; }
        spots.emplace_back(new Spot(rng, k));
    }
    if(slow && rng.chance(2, 3)) spots.emplace_back(new Spot(rng, rng.coin() ? Good : GoodV6));
    std::string list;
    for(size_t a = 0; a < spots.size(); a++) { list += (a ? ", " : "") + std::string(SPOT[spots[a]->kind]); if(first < 0 && spots[a]->good()) first = (int)a; }
    auto s = make(type);
    const IP v = rng.pick({IP::any, IP::v4, IP::v6});
    if(rng.coin()) choose(rng, *s, v);
    // It may have had another life
    const unsigned before = (unsigned)rng.below(4);
    vn::Fd earlier;
    if(before == 1 && type == Tcp)
    {
        vn::Server srv;
        if(s->connect("127.0.0.1", srv.port_text(), std::chrono::seconds(20)) == St::Success) { earlier = srv.accept(); s->set_blocking(false); }
    }
    const unsigned timeout = slow ? (unsigned)rng.range(1, 2) : 20;
    const std::string name = rng.pick<const char*>({"some.host", "example.org", "a", "127.0.0.1", "::1"}), port = rng.pick<const char*>({"80", "1234", "http", "65535"});
    const std::string what = vh::cat(TYPES[type], " socket", before == 1 ? " connected elsewhere" : "", " connecting to a name with these addresses: ", list, "; timeout ", timeout, " s");
    St st = St::Unknown;
    double ms = 0;
    std::thread server;
    vn::Fd accepted;
    if(first >= 0) server = std::thread([&]{
        accepted = accept_within(spots[(size_t)first]->fd.fd, (int)timeout * 1000 * (1 + silent) + MARGIN);
        if(accepted.fd >= 0 && type == Ws) ws_reply(accepted.fd);
    });
    uint64_t interruptions = 0;
    {
        vn::HookScope h;
        std::string asked;
        h->resolve = [&](const char *host, const char *service, const addrinfo *hints, addrinfo **res) -> int {
            asked = vh::cat(host ? host : "", ":", service ? service : "");
            if(hints && hints->ai_socktype != SOCK_STREAM) asked += " (not a stream)";
            addrinfo *l = nullptr;
            for(size_t a = spots.size(); a--;) { auto *x = result(spots[a]->at, spots[a]->kind == NoFamily ? 222 : spots[a]->at.family()); x->ai_next = l; l = x; }
            *res = l;
            return 0;
        };
        // Waiting may be interrupted
        const bool interrupt = rng.coin();
        h->fail = [&](const char *call, int, int &err) { if(interrupt && interruptions < 5 && !strcmp(call, "poll") && rng.coin()) { err = EINTR; interruptions++; return true; } return false; };
        // What the network may say, sooner or later
        const int error = rng.pick({ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, ENETDOWN, EHOSTDOWN, EACCES, EPERM, EADDRNOTAVAIL, ENOBUFS});
        h->fails_later = [&](const sockaddr *to) -> int {
            for(auto &x : spots)
                if(x->kind == FailsLater && to->sa_family == x->at.family() && !memcmp(to, &x->at.s, to->sa_family == AF_INET ? 8 : 24)) return error;
            return 0;
        };
        auto b = vn::Clock::now();
        st = s->connect(name, port, std::chrono::seconds(timeout));
        ms = vn::ms_since(b);
        vh::count("connections failing later", h->failed_later);
        if(asked != name + ":" + port) vh::violation("asks-for-something-else", vh::cat(what, ": ", vh::show(asked), " instead of ", name, ":", port));
    }
    if(first >= 0 && (st != St::Success || !(Address::of(s->get_socket_descriptor(), true) == spots[(size_t)first]->at))) __real_shutdown(spots[(size_t)first]->fd.fd, SHUT_RDWR);
    if(server.joinable()) server.join();
    if(first < 0)
    {
        check_failed(*s, st, what);
        vh::count("no address works");
    }
    else if(st != St::Success) vh::violation("fallback", vh::cat(what, ": ", text(st), " after ", ms, " ms"));
    else
    {
        check_connected(*s, spots[(size_t)first]->at, name, port, what);
        if(accepted.fd < 0) vh::violation("wrong-connection", what);
        else { if(!(Address::of(accepted.fd, true) == Address::of(s->get_socket_descriptor(), false))) vh::violation("wrong-connection", what); else if(type == Tcp) check_exchange(rng, *s, accepted.fd, what); }
        // Nobody else was bothered
        for(size_t a = (size_t)first + 1; a < spots.size(); a++)
            if(spots[a]->good()) { auto f = accept_within(spots[a]->fd.fd, 0); if(f.fd >= 0) vh::violation("connects-twice", what); }
        vh::count(first ? "connected to a later address" : "connected to the first address");
    }
    if(ms > (silent + (first >= 0 ? 1 : 0)) * timeout * 1000.0 + MARGIN) vh::violation("unbounded", vh::cat(what, ": took ", ms, " ms"));
    if(slow && first < 0 && silent && ms < timeout * 1000.0 * silent - 20) vh::violation("gave-up-early", vh::cat(what, ": took ", ms, " ms"));
    if(earlier.fd >= 0 && vn::closed_within(earlier.fd, 20000) != 1) vh::violation("earlier-connection", what + ": the earlier connection is still open");
    vh::count("addresses", spots.size());
    vh::count("interruptions", interruptions);
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample(slow ? "slow" : "fallback")) vh::sample(slow ? "slow" : "fallback", what + ": " + text(st));
}
VH_SECTION(addresses, 6000, 80000) { (void)index; fallback(rng, false); }
VH_SECTION_X(slow_addresses, 36, 400, false, 120) { (void)index; fallback(rng, true); }

// What getaddrinfo makes of names itself
VH_SECTION(names, 20000, 300000)
{
    const Type type = rng.chance(3, 4) ? Tcp : Ws;
    // Who listens on the port
    const bool v4 = rng.chance(2, 3), v6 = have_v6() && rng.coin();
    vn::Fd l4, l6;
    uint16_t port = 0;
    for(int a = 0; a < 50; a++)
    {
        l4 = listening("127.0.0.1", 0, 16);
        port = Address::of(l4.fd, false).port();
        if(have_v6()) { l6 = listening("::1", port, 16); if(l6.fd < 0) { l4.reset(); continue; } }
        break;
    }
    if(l4.fd < 0) vn::broken("two listeners on one port");
    // Without listening, the port is still ours
    auto deaf = [&](vn::Fd &f, const char *ip) { f.reset(); Address a(ip, port); f.fd = __real_socket(a.family(), SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; __real_setsockopt(f.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); return __real_bind(f.fd, (sockaddr*)&a.s, a.len) == 0; };
    if(!v4 && !deaf(l4, "127.0.0.1")) return;
    if(have_v6() && !v6 && !deaf(l6, "::1")) return;
    const IP v = rng.pick({IP::any, IP::v4, IP::v6});
    struct Name { const char *name; int family; bool must; };
    static const Name table[] = {{"127.0.0.1", AF_INET, true}, {"::1", AF_INET6, true}, {"localhost", 0, true}, {"127.0.0.2", -1, false}, {"127.3.2.1", -1, false}, {"256.0.0.1", -1, false},
                                 {"", -1, false}, {"no such host", -1, false}, {"a..b", -1, false}, {"127.0.0.1:80", -1, false}, {"[::1]", -1, false}, {"http://127.0.0.1", -1, false}};
    const Name &n = table[rng.chance(2, 3) ? rng.below(3) : rng.below(sizeof table / sizeof *table)];
    std::string p = std::to_string(port);
    // Not quite that port
    const unsigned twist = rng.chance(1, 4) ? 1 + (unsigned)rng.below(5) : 0;
    if(twist == 1) p = std::to_string(65536u * (1 + (unsigned)rng.below(4)) + port);
    if(twist == 2) p = "no-such-service";
    if(twist == 3) p += "x";
    if(twist == 4) p = "-" + p;
    if(twist == 5) p = std::to_string(((unsigned long long)1 << (32 + rng.below(10))) + port);
    bool can4 = v4 && v != IP::v6 && (n.family == AF_INET || n.family == 0), can6 = v6 && v != IP::v4 && (n.family == AF_INET6 || n.family == 0);
    if(twist) can4 = can6 = false;
    if(n.family == -1) can4 = can6 = false;
    auto s = make(type);
    choose(rng, *s, v);
    const std::string what = vh::cat(TYPES[type], " socket for ", version(v), " connecting to '", n.name, "' port ", p, " with ", v4 ? "a" : "no", " listener on 127.0.0.1 port ", port, " and ", v6 ? "one" : "none", " on ::1");
    std::atomic<bool> over{false};
    vn::Fd accepted;
    std::thread server([&]{
        auto b = vn::Clock::now();
        while(vn::ms_since(b) < 20000)
        {
            pollfd f[2] = {{v4 ? l4.fd : -1, POLLIN, 0}, {v6 ? l6.fd : -1, POLLIN, 0}};
            if(__real_poll(f, 2, over ? 0 : 2) > 0) { accepted = vn::Fd(vn::brief(__real_accept(f[0].revents ? l4.fd : l6.fd, nullptr, nullptr))); if(type == Ws) ws_reply(accepted.fd); break; }
            if(over) break;
        }
    });
    auto b = vn::Clock::now();
    St st;
    {
        // Without asking a name server
        vn::HookScope h;
        const bool six_first = rng.coin();
        h->resolve = [&](const char *host, const char *service, const addrinfo *hints, addrinfo **res) -> int {
            addrinfo k{};
            if(hints) k = *hints;
            k.ai_flags |= AI_NUMERICHOST;
            if(!host || std::string(host) != "localhost") return __real_getaddrinfo(host, service, &k, res);
            addrinfo *a = nullptr, *c = nullptr;
            int x = k.ai_family == AF_INET6 ? -1 : __real_getaddrinfo("127.0.0.1", service, &k, &a);
            int y = k.ai_family == AF_INET || !have_v6() ? -1 : __real_getaddrinfo("::1", service, &k, &c);
            if(x && y) return x == -1 ? y == -1 ? EAI_NONAME : y : x;
            if(a && c) { auto *first = six_first ? c : a, *second = six_first ? a : c, *last = first; while(last->ai_next) last = last->ai_next; last->ai_next = second; *res = first; }
            else *res = a ? a : c;
            return 0;
        };
        st = s->connect(n.name, p, std::chrono::seconds(10));
    }
    double ms = vn::ms_since(b);
    over = true;
    server.join();
    if(!can4 && !can6) { check_failed(*s, st, what); vh::count("nothing there"); }
    else if(st == St::Success)
    {
        Address there = Address::of(s->get_socket_descriptor(), true);
        const bool six = there.family() == AF_INET6;
        check_connected(*s, Address(six ? "::1" : "127.0.0.1", port), n.name, p, what);
        if(six ? !can6 : !can4) vh::violation("wrong-version", vh::cat(what, ": is connected to ", there.str()));
        if(accepted.fd >= 0 && type == Tcp) check_exchange(rng, *s, accepted.fd, what);
        vh::count("connected by name");
    }
    else vh::violation("not-reached", vh::cat(what, ": ", text(st)));
    if(ms > MARGIN) vh::violation("unbounded", vh::cat(what, ": took ", ms, " ms"));
    vh::count(vh::cat("versions: ", version(v)));
    vh::distinct(vh::hash_str(vh::cat(TYPES[type], version(v), n.name, v4, v6, twist)));
    if(vh::want_sample("names")) vh::sample("names", what + ": " + text(st));
}

// Names which don't resolve, whatever the reason
VH_SECTION(unresolved, 1500, 3000)
{
    const Type type = (Type)(index % 3);
    auto s = make(type);
    const int why = rng.pick({EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_SERVICE, EAI_FAMILY});
    vn::HookScope h;
    std::string calls;
    h->resolve = [&](const char *, const char *, const addrinfo *, addrinfo **) { return why; };
    h->after = [&](const char *name, int, long, int) { calls += std::string(name) + " "; };
    St st = s->connect("some.host", "80", std::chrono::seconds(1));
    h->after = nullptr;
    check_failed(*s, st, vh::cat(TYPES[type], ", not resolving because of ", gai_strerror(why)));
    if(calls.find("connect") != std::string::npos) vh::violation("connects-anyway", vh::cat(TYPES[type], ": ", calls));
    vh::count("names which don't resolve");
    vh::distinct(vh::mix((uint64_t)why * 3 + type));
}

// Servers which don't get to the end
VH_SECTION_X(timeouts, 48, 500, false, 120)
{
    const Type type = (Type)(index % 3);
    const unsigned timeout = (unsigned)rng.range(1, 2);
    // 0: doesn't accept, 1: accepts, and that's it, 2: goes on forever
    const unsigned how = type == Tcp ? 0 : (unsigned)(index / 3 % 3);
    auto s = make(type, false);
    const std::string what = vh::cat(TYPES[type], " socket with a timeout of ", timeout, " s and a server which ", how == 0 ? "doesn't accept" : how == 1 ? "accepts, but says nothing" : "says too little at a time");
    // Longer timeouts for later don't hold it up, and are kept
    const uint32_t receive_timeout = rng.pick({0u, 3000u, 60000u, 86400000u, 4294967295u}), send_timeout = rng.pick({0u, 0u, 3000u, 86400000u});
    if(receive_timeout || rng.coin()) s->set_receive_timeout(receive_timeout);
    if(send_timeout || rng.coin()) s->set_send_timeout(send_timeout);
    Spot spot(rng, how == 0 ? SilentSpot : Good);
    std::atomic<bool> over{false};
    std::thread server([&]{
        if(how == 0) return;
        auto c = accept_within(spot.fd.fd, 20000);
        // A certificate, or so it seems
        std::string d = type == Tls ? std::string("\x16\x03\x03\x30\x00\x02\x00\x2f\xfc", 9) + std::string(4000, 'a') : "HTTP/1.1 101 Switching Protocols\r\nX: " + std::string(10000, 'a');
        size_t at = 0;
        const size_t step = rng.range(1, 4);
        while(!over) { if(how == 2 && at < d.size()) { vn::write_all(c.fd, d.substr(at, step)); at += step; } std::this_thread::sleep_for(milliseconds(40)); }
    });
    std::thread signaller;
    if(rng.coin())
    {
        static bool once = []{ struct sigaction a{}; a.sa_handler = [](int){}; sigaction(SIGUSR1, &a, nullptr); return true; }();
        (void)once;
        pthread_t self = pthread_self();
        signaller = std::thread([&, self]{ for(int a = 0; a < 20 && !over; a++) { std::this_thread::sleep_for(milliseconds(60)); if(!over) pthread_kill(self, SIGUSR1); } });
        vh::count("with signals");
    }
    auto b = vn::Clock::now();
    St st;
    try { st = s->connect(spot.at.ip(), std::to_string(spot.at.port()), std::chrono::seconds(timeout)); }
    catch(const std::exception &e) { vh::violation("exception", vh::cat(what, ": ", e.what())); st = St::Unknown; }
    double ms = vn::ms_since(b);
    over = true;
    server.join();
    if(signaller.joinable()) signaller.join();
    check_failed(*s, st, what);
    if(ms > 2000.0 * timeout + MARGIN) vh::violation("unbounded", vh::cat(what, ": took ", ms, " ms"));
    if(ms < 1000.0 * timeout - 20) vh::violation("gave-up-early", vh::cat(what, ": took ", ms, " ms"));
    if(s->get_receive_timeout() != receive_timeout || s->get_send_timeout() != send_timeout) vh::violation("timeout-value", vh::cat(what, ": ", s->get_receive_timeout(), " rather than ", receive_timeout));
    vh::count("connects timed out");
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample("timeouts")) vh::sample("timeouts", vh::cat(what, ": ", text(st), " after ", ms, " ms"));
}

// A server which takes its time, but less than allowed
VH_SECTION_X(late, 24, 300, false, 120)
{
    const Type type = rng.coin() ? Tcp : Ws;
    Spot spot(rng, Late);
    auto s = make(type);
    const unsigned wait = (unsigned)rng.range(10, 400);
    // Room is made while it waits. The second attempt of the kernel comes after a second.
    vn::Fd accepted;
    std::atomic<bool> over{false};
    std::thread server([&]{
        std::this_thread::sleep_for(milliseconds(wait));
        std::vector<Address> fillers;
        for(auto &f : spot.fill) fillers.push_back(Address::of(f.fd, false));
        auto b = vn::Clock::now();
        while(vn::ms_since(b) < 40000 && !over)
        {
            auto f = accept_within(spot.fd.fd, 20);
            if(f.fd < 0) continue;
            Address who = Address::of(f.fd, true);
            bool filler = false;
            for(auto &x : fillers) filler |= x == who;
            if(filler) continue;
            accepted = std::move(f);
            if(type == Ws) ws_reply(accepted.fd);
            return;
        }
    });
    static bool once = []{ struct sigaction a{}; a.sa_handler = [](int){}; sigaction(SIGUSR1, &a, nullptr); return true; }();
    (void)once;
    pthread_t self = pthread_self();
    const unsigned signals = (unsigned)rng.below(6);
    std::atomic<bool> connected{false};
    std::thread signaller([&, self]{ for(unsigned a = 0; a < signals && !connected; a++) { std::this_thread::sleep_for(milliseconds(50)); pthread_kill(self, SIGUSR1); } });
    const std::string name = spot.at.ip(), port = std::to_string(spot.at.port());
    St st = s->connect(name, port, std::chrono::seconds(30));
    connected = true;
    signaller.join();
    if(st != St::Success) over = true;
    server.join();
    const std::string what = vh::cat(TYPES[type], " socket connecting to a server which only has room after ", wait, " ms, interrupted by ", signals, " signals");
    if(st != St::Success) { vh::violation("gave-up-early", vh::cat(what, ": ", text(st))); return; }
    check_connected(*s, spot.at, name, port, what);
    if(accepted.fd < 0) vh::violation("wrong-connection", what);
    else if(type == Tcp) check_exchange(rng, *s, accepted.fd, what);
    vh::count("connected late");
    vh::distinct(vh::hash_str(what));
}

// ---- listeners ----
static std::shared_ptr<fr::Listener> make_listener(Type t)
{
    if(t == Tls) { static auto c = vt::context({}); return vt::listener("good", c); }
    return std::make_shared<fr::TcpListener>();
}
// A free port
static uint16_t free_port(Rng &r)
{
    for(int a = 0; a < 200; a++)
    {
        uint16_t p = (uint16_t)r.range(10000, 32000); // where ephemeral ports aren't
        auto f = listening("0.0.0.0", p, 1);
        auto g = have_v6() ? listening("::", p, 1) : vn::Fd();
        if(f.fd >= 0 && (!have_v6() || g.fd >= 0)) return p;
    }
    vn::broken("no free port");
}
VH_SECTION(listeners, 1600, 20000)
{
    const Type type = rng.chance(1, 5) ? Tls : rng.chance(1, 5) ? Ws : Tcp;
    const IP v = !have_v6() ? rng.pick({IP::any, IP::v4}) : rng.pick({IP::any, IP::v4, IP::v6});
    auto l = make_listener(type);
    if(v != IP::any || rng.coin()) choose(rng, *l, v);
    const std::string kind = type == Tls ? "TLS" : "plain";
    const bool again = rng.chance(1, 4);
    uint16_t old = 0;
    if(again)
    {
        if(l->listen("0") != St::Success) vn::broken("listen");
        old = (uint16_t)vn::port_of(l->get_socket_descriptor());
    }
    const bool any_port = rng.chance(1, 4);
    uint16_t port = 0;
    St st = St::Unknown;
    for(int a = 0; a < 5 && st != St::Success; a++)
    {
        port = any_port ? 0 : free_port(rng);
        st = l->listen(std::to_string(port));
    }
    const std::string what = vh::cat(kind, " listener for ", version(v), " on port ", port);
    if(st != St::Success) { vh::violation("does-not-listen", vh::cat(what, ": ", text(st))); return; }
    const Address at = Address::of(l->get_socket_descriptor(), false);
    if(!any_port && at.port() != port) vh::violation("wrong-port", vh::cat(what, ": ", at.str()));
    if(any_port && at.port() == 0) vh::violation("wrong-port", vh::cat(what, ": ", at.str()));
    port = at.port();
    if(v == IP::v4 && at.family() != AF_INET) vh::violation("wrong-version", vh::cat(what, ": ", at.str()));
    if(v == IP::v6 && at.family() != AF_INET6) vh::violation("wrong-version", vh::cat(what, ": ", at.str()));
    if(v == IP::v4 && have_v6()) { auto f = dial_from(Address("::1", port), "::1"); if(f.fd >= 0) vh::violation("wrong-version", vh::cat(what, ": reached over IPv6")); }
    if(again && old != port) { auto f = vn::dial(old, at.family()); if(f.fd >= 0 && listens(old)) vh::violation("still-listens", vh::cat(what, ": the port it listened on before still answers")); }
    if(rng.chance(1, 8))
    {
        // Not moving elsewhere
        fr::TcpListener other;
        vn::Server taken(AF_INET, 1, 0, true);
        other.set_inet_version(IP::v4);
        St x = other.listen(taken.port_text());
        if(x == St::Success || other.connected()) vh::violation("listens-on-a-taken-port", vh::cat(taken.port_text(), ": ", text(x), " ", Address::of(other.get_socket_descriptor(), false).str()));
        vh::count("taken ports");
    }
    // Clients from several addresses, in order
    struct Client { vn::Fd fd; std::string from, token; std::thread tls; std::shared_ptr<fr::SSLSocket> s; St st = St::Unknown; };
    std::vector<std::unique_ptr<Client>> clients;
    const size_t n = type == Tls ? 1 + rng.below(2) : 1 + rng.below(8);
    std::unique_ptr<fr::TcpListener> moved;
    fr::Listener *now = l.get();
    for(size_t a = 0; a < n; a++)
    {
        clients.emplace_back(new Client);
        Client &c = *clients.back();
        const bool six = at.family() == AF_INET6;
        c.from = six ? "::1" : some_ip(rng);
        c.token = vh::cat("client ", a, " ", rng.u64());
        c.fd = dial_from(Address(six ? "::1" : "127.0.0.1", port), c.from);
        if(c.fd.fd < 0) { vh::violation("not-reachable", vh::cat(what, " from ", c.from)); return; }
        if(type == Ws) vn::write_all(c.fd.fd, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
        if(type != Tls) vn::write_all(c.fd.fd, c.token);
    }
    if(type != Tls && rng.chance(1, 4)) { moved.reset(new fr::TcpListener(std::move(static_cast<fr::TcpListener&>(*l)))); now = moved.get(); vh::count("moved listeners"); }
    std::vector<std::shared_ptr<fr::Socket>> kept;
    const bool keep = rng.coin();
    std::shared_ptr<fr::Socket> same = make(type);
    for(size_t a = 0; a < n; a++)
    {
        Client &c = *clients[a];
        auto s = keep ? make(type) : same;
        if(type == Tls)
        {
            // Somebody who speaks TLS takes over
            c.tls = std::thread([&]{
                mbedtls_ssl_context ssl; mbedtls_ssl_config conf; mbedtls_entropy_context e; mbedtls_ctr_drbg_context d; mbedtls_net_context net;
                mbedtls_ssl_init(&ssl); mbedtls_ssl_config_init(&conf); mbedtls_entropy_init(&e); mbedtls_ctr_drbg_init(&d); mbedtls_net_init(&net);
                mbedtls_ctr_drbg_seed(&d, mbedtls_entropy_func, &e, nullptr, 0);
                mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
                mbedtls_ssl_conf_authmode(&conf, MBEDTLS_SSL_VERIFY_NONE);
                mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &d);
                mbedtls_ssl_setup(&ssl, &conf);
                net.fd = c.fd.fd;
                mbedtls_ssl_set_bio(&ssl, &net, mbedtls_net_send, mbedtls_net_recv, nullptr);
                int r = mbedtls_ssl_handshake(&ssl);
                if(r == 0) mbedtls_ssl_write(&ssl, (const unsigned char*)c.token.data(), c.token.size());
                if(r) __real_shutdown(c.fd.fd, SHUT_RDWR);
                mbedtls_ssl_free(&ssl); mbedtls_ssl_config_free(&conf); mbedtls_ctr_drbg_free(&d); mbedtls_entropy_free(&e);
            });
        }
        St x = St::Unknown;
        try { x = now->accept(*s); } catch(const std::exception &e) { vh::violation("exception", vh::cat(what, ": ", e.what())); }
        if(c.tls.joinable()) c.tls.join();
        const std::string who = vh::cat(what, ", client ", a, " of ", n, " from ", c.from);
        if(x != St::Success) { vh::violation("not-accepted", vh::cat(who, ": ", text(x))); break; }
        if(s->get_remote_address() != c.from) vh::violation("remote-address", vh::cat(who, ": ", vh::show(s->get_remote_address())));
        if(!(Address::of(s->get_socket_descriptor(), true) == Address::of(c.fd.fd, false))) { vh::violation("order", vh::cat(who, ": ", Address::of(s->get_socket_descriptor(), true).str(), " is accepted instead")); break; }
        if(!s->get_blocking() || !actually_blocking(s->get_socket_descriptor())) vh::violation("not-blocking", who);
        std::string got(c.token.size(), '\0');
        s->set_receive_timeout(20000);
        x = s->receive_all(&got[0], got.size());
        if(x != St::Success || got != c.token) vh::violation("order", vh::cat(who, ": says ", vh::show(got), " (", text(x), ")"));
        s->set_receive_timeout(0);
        if(keep) kept.push_back(s);
        vh::count("clients accepted");
    }
    // And that was all of them
    pollfd p{now->get_socket_descriptor(), POLLIN, 0};
    if(__real_poll(&p, 1, 0) != 0) vh::violation("accepted-again", what);
    kept.clear();
    same.reset();
    now->close_socket();
    { auto f = vn::dial(port, at.family()); if(f.fd >= 0 && listens(port)) vh::violation("still-listens", vh::cat(what, ": after it was closed")); }
    vh::count(vh::cat("listeners for ", version(v)));
    vh::distinct(vh::hash_str(vh::cat(what, n, type)));
    if(vh::want_sample("listeners")) vh::sample("listeners", vh::cat(what, " with ", n, " clients"));
}
// Ports which aren't
VH_SECTION(bad_ports, 2000, 3000)
{
    auto l = make_listener(rng.coin() ? Tls : Tcp);
    uint16_t port = free_port(rng);
    const std::string p = rng.pick<std::string>({std::to_string(65536ull + port), std::to_string(65536ull * 7 + port), std::to_string(4294967296ull + port), "99999999999999999999999", "no-such-service", "-" + std::to_string(port), std::to_string(port) + "x", "0x50", "1 2"});
    const bool was = rng.coin();
    if(was && l->listen("0") != St::Success) vn::broken("listen");
    St st = l->listen(p);
    if(st == St::Success) vh::violation("listens-elsewhere", vh::cat("port ", p, ": ", Address::of(l->get_socket_descriptor(), false).str()));
    else if(l->connected()) vh::violation("failed-but-listening", vh::cat("port ", p, ": ", Address::of(l->get_socket_descriptor(), false).str()));
    vh::count("bad ports");
    vh::distinct(vh::hash_str(p));
}
// Two listeners on one port, as is allowed: each connection goes to one of them
VH_SECTION(shared_port, 1500, 2000)
{
    (void)index;
    fr::TcpListener a, b;
    a.set_inet_version(IP::v4); b.set_inet_version(IP::v4);
    if(a.listen("0") != St::Success) vn::broken("listen");
    const uint16_t port = (uint16_t)vn::port_of(a.get_socket_descriptor());
    St st = b.listen(std::to_string(port));
    if(st != St::Success) { vh::violation("does-not-listen", vh::cat("a second listener on a port: ", text(st))); return; }
    std::map<std::string, int> seen;
    std::vector<vn::Fd> clients;
    for(size_t n = 1 + rng.below(12); n; n--) { clients.push_back(vn::dial(port)); if(clients.back().fd < 0) vn::broken("dial"); seen[Address::of(clients.back().fd, false).str()] = 0; }
    fr::TcpListener *ls[] = {&a, &b};
    std::vector<std::shared_ptr<fr::TcpSocket>> kept;
    for(auto *l : ls)
        for(;;)
        {
            pollfd p{l->get_socket_descriptor(), POLLIN, 0};
            if(__real_poll(&p, 1, 0) != 1) break;
            auto s = std::make_shared<fr::TcpSocket>();
            if(l->accept(*s) != St::Success) { vh::violation("not-accepted", "one of two listeners"); break; }
            std::string who = Address::of(s->get_socket_descriptor(), true).str();
            if(!seen.count(who) || seen[who]++) vh::violation("accepted-again", who);
            kept.push_back(s);
        }
    for(auto &x : seen) if(!x.second) vh::violation("not-accepted", "by neither of two listeners");
    vh::count("shared by two listeners", seen.size());
    vh::distinct(rng.u64());
}
// Everything a client needs goes along with its kind of socket
VH_SECTION_X(tls, 200, 2500, false, 120)
{
    const IP v = !have_v6() ? IP::v4 : rng.pick({IP::v4, IP::v6, IP::any});
    auto l = vt::listener();
    choose(rng, *l, v);
    if(l->listen("0") != St::Success) vn::broken("listen");
    const Address at = Address::of(l->get_socket_descriptor(), false);
    const bool six = at.family() == AF_INET6;
    const IP cv = rng.pick({IP::any, six ? IP::v6 : IP::v4, six ? IP::v4 : IP::v6});
    const bool can = cv == IP::any || (cv == IP::v6) == six;
    auto context = vt::context();
    fr::SSLSocket c(context), s(context);
    c.verify_certificates(false);
    choose(rng, c, cv);
    const bool fall = rng.coin();
    const std::string name = fall ? "some.host" : six ? "::1" : "127.0.0.1", port = std::to_string(at.port());
    St a = St::Unknown, b;
    if(rng.chance(1, 3))
    {
        // Both have had another connection before
        vn::HookScope h;
        h->resolve = [&](const char *, const char *, const addrinfo *, addrinfo **res) -> int { *res = result(Address(six ? "::1" : "127.0.0.1", at.port()), at.family()); return 0; };
        std::thread u([&]{ a = l->accept(s); });
        b = c.connect("an.earlier.host", std::to_string(at.port()), std::chrono::seconds(20));
        if(b != St::Success) vn::dial(at.port(), at.family());
        u.join();
        if(a != St::Success || b != St::Success) { vh::violation("not-reached", vh::cat("TLS client's first connection: ", text(b), ", accept: ", text(a))); return; }
        check_connected(c, Address(six ? "::1" : "127.0.0.1", at.port()), "an.earlier.host", std::to_string(at.port()), "TLS client's first connection");
        if(rng.coin()) s.disconnect();
        if(rng.coin()) c.disconnect();
        a = St::Unknown;
        vh::count("TLS clients which connect again");
    }
    std::thread t([&]{ a = l->accept(s); });
    int family = -1;
    {
        vn::HookScope h;
        Spot refused(rng, Refused);
        h->resolve = [&](const char *, const char *, const addrinfo *hints, addrinfo **res) -> int {
            family = hints ? hints->ai_family : 0;
            if(!fall) return __real_getaddrinfo(name.c_str(), port.c_str(), hints, res);
            addrinfo *x = result(Address(six ? "::1" : "127.0.0.1", at.port()), at.family()), *y = result(refused.at, refused.at.family());
            y->ai_next = x;
            *res = y;
            return 0;
        };
        b = c.connect(name, port, std::chrono::seconds(20));
    }
    if(b != St::Success) vn::dial(at.port(), at.family());
    t.join();
    const std::string what = vh::cat("TLS client for ", version(cv), " connecting to ", at.str());
    if(family != (cv == IP::any ? AF_UNSPEC : cv == IP::v4 ? AF_INET : AF_INET6)) vh::violation("wrong-version", vh::cat(what, ": family ", family, " is looked up"));
    if(!can && !fall) { check_failed(c, b, what); vh::count("TLS clients for the other version"); }
    else
    {
        if(a != St::Success || b != St::Success) { vh::violation("not-reached", vh::cat(what, ": ", text(b), ", accept: ", text(a))); return; }
        check_connected(c, Address(six ? "::1" : "127.0.0.1", at.port()), name, port, what);
        if(s.get_remote_address() != (six ? "::1" : "127.0.0.1")) vh::violation("remote-address", vh::cat(what, ": ", vh::show(s.get_remote_address())));
        if(!s.get_blocking() || !actually_blocking(s.get_socket_descriptor())) vh::violation("not-blocking", what);
        vh::count("TLS clients");
    }
    vh::distinct(vh::hash_str(vh::cat(what, fall, (int)v)));
    s.disconnect();
}

// In a process with a great many descriptors
VH_SECTION_X(many_descriptors, 8, 80, false, 120)
{
    rlimit r;
    getrlimit(RLIMIT_NOFILE, &r);
    r.rlim_cur = r.rlim_max < 4096 ? r.rlim_max : 4096;
    setrlimit(RLIMIT_NOFILE, &r);
    std::vector<vn::Fd> fill;
    int last = -1;
    while(last < 1100)
    {
        int f = open("/dev/null", O_RDONLY | O_CLOEXEC);
        if(f < 0) { vh::count("too few descriptors"); return; }
        fill.emplace_back(f);
        last = f;
    }
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    if(c.fd() < FD_SETSIZE) return;
    c.settle();
    std::string d = rng.bytes(1000);
    if(!c.feed(d)) vn::broken("feed");
    std::string e(d.size(), '\0');
    if(c.s->receive_all(&e[0], e.size()) != St::Success || d != e) vh::violation("many-descriptors", c.name);
    {
        Spot spot(rng, index & 1 ? SilentSpot : Good);
        auto s = make(Tcp);
        St st = s->connect(spot.at.ip(), std::to_string(spot.at.port()), std::chrono::seconds(1));
        if(spot.good()) { if(st != St::Success) vh::violation("many-descriptors", vh::cat("connect: ", text(st))); else check_connected(*s, spot.at, spot.at.ip(), std::to_string(spot.at.port()), "with many descriptors"); }
        else check_failed(*s, st, "with many descriptors");
    }
    vh::count("descriptors past FD_SETSIZE");
    vh::distinct(index + 4242);
}
