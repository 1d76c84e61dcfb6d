// C16: descriptors are closed exactly once and connection state is truthful
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <sys/stat.h>
#include <vh_tls.h>
#include <vh_pair.h>
#include <frnetlib/Packet.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/WebSocket.h>
#include <memory>
using vh::Rng;
using fr::Socket;
typedef Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;

static const char *const NAMES[] = {"socket", "bind", "listen", "connect", "accept", "setsockopt", "getsockopt", "fcntl", "poll", "getaddrinfo", "epoll_create", "epoll_ctl"};
static int plausible(const std::string &name, Rng &r)
{
    if(name == "socket") return r.pick({EMFILE, ENFILE, EAFNOSUPPORT});
    if(name == "bind") return r.pick({EADDRINUSE, EACCES, EADDRNOTAVAIL});
    if(name == "listen") return EADDRINUSE;
    if(name == "connect") return r.pick({ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EACCES});
    if(name == "accept") return r.pick({EMFILE, ECONNABORTED, EINTR, EAGAIN});
    if(name == "setsockopt" || name == "getsockopt") return r.pick({ENOBUFS, EINVAL, ENOPROTOOPT});
    if(name == "fcntl") return r.pick({EPERM, EINVAL});
    if(name == "poll") return r.pick({ENOMEM, EINVAL});
    if(name == "getaddrinfo") return r.pick({EAI_AGAIN, EAI_NONAME, EAI_MEMORY, EAI_FAIL});
    if(name == "epoll_create") return EMFILE;
    return r.pick({ENOMEM, ENOSPC, ECONNRESET});
}

// What is open, and whose it is
struct World
{
    Rng &r;
    const bool sentinels;
    std::map<int, std::string> baseline;
    std::vector<vn::Fd> mine;
    std::map<int, std::string> fill;
    std::vector<std::pair<std::weak_ptr<fr::SocketDescriptor>, std::string>> objects;
    std::vector<std::unique_ptr<fr::SocketSelector>> selectors;
    std::vector<std::shared_ptr<fr::SocketDescriptor>> held; // by a selector, as far as that's known
    std::string history, last;
    int devnull, top = 0;
    bool broken = false;

    World(Rng &rng, bool s) : r(rng), sentinels(s)
    {
        devnull = open("/dev/null", O_RDONLY | O_CLOEXEC);
        if(devnull < 0) vn::broken("/dev/null");
        baseline = vn::descriptors();
        top = baseline.empty() ? 10 : baseline.rbegin()->first + 12;
    }
    ~World()
    {
        for(auto &f : fill) __real_close(f.first);
        __real_close(devnull);
    }
    void fail(const std::string &key, const std::string &detail) { broken = true; vh::violation(key, vh::cat(detail, " after ", last, " [", history.size() > 900 ? "..." + history.substr(history.size() - 900) : history, "]")); }
    // Occupies a number as soon as it's free
    void occupy(int fd)
    {
        int n = __real_fcntl(devnull, F_DUPFD_CLOEXEC, (long)fd);
        if(n != fd) { if(n >= 0) __real_close(n); return; }
        fill[fd] = "/dev/null";
    }
    template<typename T> std::shared_ptr<T> own(std::shared_ptr<T> o, const std::string &name) { objects.emplace_back(o, name); return o; }
    void op(const std::string &what) { last = what; history += (history.empty() ? "" : ", ") + what; }

    void check()
    {
        if(broken) return;
        auto now = vn::descriptors();
        std::set<int> accounted;
        for(auto &b : baseline)
        {
            if(!now.count(b.first) || now[b.first] != b.second) { fail("foreign-descriptor-closed", vh::cat("descriptor ", b.first, " (", b.second, ") of the process is gone")); return; }
            accounted.insert(b.first);
        }
        for(auto &f : fill)
        {
            if(!now.count(f.first) || now[f.first] != f.second) { fail("foreign-descriptor-closed", vh::cat("descriptor ", f.first, ", which had been closed before, was closed again, having another owner")); return; }
            accounted.insert(f.first);
        }
        for(auto &m : mine)
        {
            if(m.fd < 0) continue;
            if(!now.count(m.fd)) { fail("foreign-descriptor-closed", vh::cat("descriptor ", m.fd, " of the peer is gone")); return; }
            accounted.insert(m.fd);
        }
        for(size_t a = 0; a < objects.size();)
        {
            auto o = objects[a].first.lock();
            if(!o) { objects.erase(objects.begin() + (long)a); continue; }
            const int fd = o->get_socket_descriptor();
            if(o->connected())
            {
                if(fd < 0) { fail("connected-without-descriptor", objects[a].second); return; }
                if(!now.count(fd)) { fail("connected-with-closed-descriptor", vh::cat(objects[a].second, " has ", fd)); return; }
                if(now[fd].compare(0, 7, "socket:") != 0) { fail("connected-with-foreign-descriptor", vh::cat(objects[a].second, " has ", fd, ", ", now[fd])); return; }
                if(!accounted.insert(fd).second) { fail("descriptor-shared", vh::cat(objects[a].second, " has ", fd, ", which something else has too")); return; }
                vh::count("descriptors owned");
            }
            else if(fd >= 0) { fail("descriptor-when-not-connected", vh::cat(objects[a].second, " has ", fd)); return; }
            a++;
        }
        size_t epolls = 0;
        for(auto &n : now)
        {
            if(accounted.count(n.first)) continue;
            if(n.second == "anon_inode:[eventpoll]") { epolls++; continue; }
            fail("leaked", vh::cat("descriptor ", n.first, " (", n.second, ") belongs to no object"));
            return;
        }
        if(epolls != selectors.size()) { fail("leaked", vh::cat(epolls, " epoll descriptors for ", selectors.size(), " selectors")); return; }
        if(sentinels)
        {
            if(!now.empty()) top = std::max(top, now.rbegin()->first);
            for(int n = 3; n <= top && n < 400; n++) if(!now.count(n)) occupy(n);
        }
        vh::count("states checked");
    }
};
// Lets one call of the library fail, and watches close
struct Watch
{
    vn::HookScope h;
    World &w;
    uint64_t calls = 0;
    bool injected = false;
    Watch(World &world, long nth, int only = -1) : w(world)
    {
        h->fail = [this, nth, only](const char *name, int, int &err) {
            if(!strcmp(name, "recv") || !strcmp(name, "send") || !strcmp(name, "shutdown") || !strcmp(name, "epoll_wait")) return false;
            if(only >= 0 && strcmp(name, NAMES[only])) return false;
            if(nth < 0 || (long)calls++ != nth) return false;
            err = plausible(name, w.r);
            injected = true;
            w.last += vh::cat(" with ", name, " failing (", !strcmp(name, "getaddrinfo") ? gai_strerror(err) : strerror(err), ")");
            vh::count(std::string("injected: ") + name);
            return true;
        };
        h->after = [this](const char *name, int fd, long result, int err) {
            if(strcmp(name, "close")) return;
            vh::count("closes seen");
            if(fd < 0) return;
            if(result != 0 && err == EBADF) w.fail("closed-twice", vh::cat("close(", fd, ") of something not open"));
            else if(w.sentinels) w.occupy(fd);
        };
    }
};
static long draw_fault(World &w) { return w.r.chance(2, 5) ? (long)w.r.below(14) : -1; }

// ---- addresses ----
static addrinfo *address(uint16_t port, bool v6 = false)
{
    auto *a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6));
    a->ai_addr = (sockaddr*)(a + 1);
    a->ai_socktype = SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    if(v6) { auto *s = (sockaddr_in6*)a->ai_addr; a->ai_family = s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = in6addr_loopback; a->ai_addrlen = sizeof *s; }
    else { auto *s = (sockaddr_in*)a->ai_addr; a->ai_family = s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->ai_addrlen = sizeof *s; }
    return a;
}
// A port at which nothing listens, though it's taken
struct DeadPort { vn::Fd fd; uint16_t port; DeadPort() { vn::Server s; port = s.port; fd = std::move(s.fd); __real_close(fd.release()); fd = vn::Fd(__real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0; __real_bind(fd.fd, (sockaddr*)&a, sizeof a); port = (uint16_t)vn::port_of(fd.fd); } };

// ---- operations ----
// How a connection attempt is meant to go
enum Way { Good, Refused, Unknown, List, DeadList };
static const char *const WAYS[] = {"good", "refused", "unknown name", "several addresses", "several dead addresses"};
// Connects to a server of our own; TLS and WebSocket clients are then let down
static void connect_op(World &w, Socket &s, const std::string &name, Way way, long fault, bool letdown)
{
    w.op(vh::cat("connect(", WAYS[way], ") of ", name));
    vn::Server srv;
    DeadPort dead;
    const std::string port = std::to_string(way == Refused ? dead.port : srv.port);
    const unsigned behaviour = (unsigned)w.r.below(4);
    vn::Fd accepted;
    std::atomic<bool> over{false};
    std::thread peer;
    if(letdown)
        peer = std::thread([&]{
            while(!over)
            {
                vn::Fd f = srv.accept_within(20);
                if(f.fd < 0) continue;
                if(behaviour == 1) vn::write_all(f.fd, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n");
                else if(behaviour == 2) vn::write_all(f.fd, std::string("\x16\x03\x03\0\x02xy", 7));
                else if(behaviour == 3) vn::reset_connection(f);
            }
        });
    St st;
    {
        Watch x(w, fault);
        x.h->resolve = [&](const char *node, const char *, const addrinfo *, addrinfo **res) {
            if(way == Unknown) return EAI_NONAME;
            if(way == List || way == DeadList)
            {
                addrinfo *l = way == List ? address(srv.port) : address(dead.port);
                for(int a = 0; a < 3; a++) { addrinfo *m = address(dead.port, a == 1); m->ai_next = l; l = m; }
                *res = l;
                return 0;
            }
            (void)node;
            *res = address((uint16_t)atoi(port.c_str()));
            return 0;
        };
        st = s.connect("some.host", port, std::chrono::seconds(5));
    }
    over = true;
    if(peer.joinable()) peer.join();
    if(st == St::Success && !s.connected()) w.fail("success-but-not-connected", name);
    if(st != St::Success && s.connected()) w.fail("failed-but-connected", vh::cat(name, ", status ", (int)st));
    if((way == Refused || way == Unknown || way == DeadList || letdown) && st == St::Success) w.fail("success-without-peer", name);
    if(st == St::Success && s.connected())
    {
        // the other end is ours
        vn::Fd f = srv.accept_within(2000);
        if(f.fd >= 0) w.mine.push_back(std::move(f));
    }
    vh::count(st == St::Success ? "connects" : "failed connects");
}
static void listen_op(World &w, fr::Listener &l, const std::string &name, unsigned way, long fault)
{
    static const char *const ways[] = {"any port", "no port", "port in use", "the same port again"};
    w.op(vh::cat("listen(", ways[way], ") on ", name));
    vn::Server taken(AF_INET, 1, 0, true);
    std::string port = "0";
    if(way == 1) port = w.r.pick<const char*>({"notaport", "-", "no port"});
    if(way == 2) { port = taken.port_text(); l.set_inet_version(Socket::IP::v4); }
    if(way == 3 && l.connected()) port = std::to_string(vn::port_of(l.get_socket_descriptor()));
    St st;
    {
        Watch x(w, fault);
        st = l.listen(port);
    }
    if(way == 2) l.set_inet_version(Socket::IP::any);
    if(st == St::Success && !l.connected()) w.fail("success-but-not-connected", name);
    if(st != St::Success && l.connected()) w.fail("failed-but-connected", vh::cat(name, ", status ", (int)st));
    if((way == 1 || way == 2) && st == St::Success) w.fail("success-without-port", name);
    vh::count(st == St::Success ? "listens" : "failed listens");
}
// Whoever may be waiting has gone
static void drain(int fd)
{
    const int flags = __real_fcntl(fd, F_GETFL, 0L);
    __real_fcntl(fd, F_SETFL, (long)(flags | O_NONBLOCK));
    for(;;) { int f = __real_accept(fd, nullptr, nullptr); if(f < 0) break; __real_close(f); }
    __real_fcntl(fd, F_SETFL, (long)flags);
}
// Accepts a connection of ours, or finds there's none
static void accept_op(World &w, fr::Listener &l, Socket &s, const std::string &name, bool pending, long fault)
{
    if(!l.connected()) return;
    w.op(vh::cat("accept(", pending ? "" : "nothing there", ") into ", name));
    const int fd = l.get_socket_descriptor();
    const int flags = __real_fcntl(fd, F_GETFL, 0L);
    __real_fcntl(fd, F_SETFL, (long)(flags | O_NONBLOCK));
    drain(fd);
    __real_fcntl(fd, F_SETFL, (long)(flags | O_NONBLOCK));
    vn::Fd peer;
    if(pending)
    {
        __real_fcntl(fd, F_SETFL, (long)flags);
        peer = vn::dial((uint16_t)vn::port_of(fd));
        if(peer.fd < 0) { __real_fcntl(fd, F_SETFL, (long)flags); return; }
        const unsigned b = (unsigned)w.r.below(3);
        if(b == 1) vn::write_all(peer.fd, "GET / HTTP/1.1\r\n\r\n");
        if(b == 2) vn::write_all(peer.fd, std::string("\x16\x03\x01\0\x05hello", 10));
        ::shutdown(peer.fd, SHUT_WR);
    }
    const bool was = s.connected();
    St st = St::Unknown;
    bool thrown = false;
    {
        Watch x(w, fault);
        try { st = l.accept(s); }
        catch(const std::runtime_error &) { thrown = true; }
    }
    if(l.connected()) __real_fcntl(l.get_socket_descriptor(), F_SETFL, (long)flags);
    if(!thrown && st == St::Success && !s.connected()) w.fail("success-but-not-connected", name);
    if(!thrown && st != St::Success && !was && s.connected()) w.fail("failed-but-connected", vh::cat(name, ", status ", (int)st));
    if(!pending && st == St::Success) w.fail("success-without-peer", name);
    if(peer.fd >= 0) w.mine.push_back(std::move(peer));
    vh::count(thrown ? "refused WebSocket clients" : st == St::Success ? "accepts" : "failed accepts");
}
static void disconnect_op(World &w, Socket &s, const std::string &name)
{
    w.op("disconnect of " + name);
    {
        Watch x(w, -1);
        s.disconnect();
    }
    if(s.connected()) w.fail("connected-after-disconnect", name);
    vh::count("disconnects");
}
static void oversize_op(World &w, Socket &s, const std::string &name)
{
    auto p = vn::pair();
    w.op("refusing a message on " + name);
    int32_t fd = p.first.release();
    {
        Watch x(w, -1);
        s.set_descriptor(&fd);
        s.set_max_receive_size(3);
        vn::write_all(p.second.fd, std::string("\0\0\0\x09", 4));
        fr::Packet q;
        s.receive(q);
        s.set_max_receive_size(0);
    }
    if(s.connected()) w.fail("connected-after-refusal", name);
    vh::count("refusals");
}
static void descriptor_op(World &w, fr::TcpSocket &s, const std::string &name, bool same)
{
    w.op(vh::cat("set_descriptor(", same ? "its own" : "another", ") of ", name));
    Watch x(w, -1);
    if(same)
    {
        if(!s.connected()) return;
        int32_t fd = s.get_socket_descriptor();
        s.fr::TcpSocket::set_descriptor(&fd);
        if(s.get_socket_descriptor() != fd || !s.connected()) w.fail("descriptor-lost", name);
        return;
    }
    auto p = vn::pair();
    w.mine.push_back(std::move(p.second));
    int32_t fd = p.first.release();
    s.fr::TcpSocket::set_descriptor(&fd);
    if(s.get_socket_descriptor() != fd || !s.connected()) w.fail("descriptor-not-set", name);
    vh::count("descriptors set");
}
// Things which neither open nor close anything
static void touch_op(World &w, Socket &s, const std::string &name, long fault)
{
    const bool was = s.connected();
    const int fd = s.get_socket_descriptor();
    const unsigned k = (unsigned)w.r.below(5);
    w.op(vh::cat("touching(", k, ") ", name));
    {
        Watch x(w, fault);
        if(k == 0) s.set_blocking(w.r.coin());
        else if(k == 1) s.set_receive_timeout(1 + (uint32_t)w.r.below(100));
        else if(k == 2) s.set_send_timeout(1 + (uint32_t)w.r.below(100));
        else if(k == 3) { if(was) s.shutdown(); }
        else { s.set_remote_address("x"); s.get_blocking(); }
    }
    if(s.connected() != was || s.get_socket_descriptor() != fd) w.fail("state-changed", name);
}
static void close_listener_op(World &w, fr::Listener &l, const std::string &name)
{
    w.op("closing " + name);
    {
        Watch x(w, -1);
        if(w.r.coin() && l.connected()) l.shutdown();
        l.close_socket();
    }
    if(l.connected()) w.fail("connected-after-close", name);
    vh::count("listener closes");
}
// A connection between two of the library's own
static void tls_pair_op(World &w, fr::SSLListener &l, fr::SSLSocket &c, fr::SSLSocket &s, bool trusted, long fault)
{
    if(!l.connected()) return;
    w.op(vh::cat("TLS connection", trusted ? "" : " (untrusted)"));
    drain(l.get_socket_descriptor());
    const bool was = s.connected();
    const uint16_t port = (uint16_t)vn::port_of(l.get_socket_descriptor());
    c.verify_certificates(true);
    St a = St::Unknown, b;
    std::thread t([&]{ a = l.accept(s); });
    {
        Watch x(w, fault);
        x.h->resolve = [&](const char *, const char *, const addrinfo *, addrinfo **res) { *res = address(port); return 0; };
        b = c.connect(trusted ? "localhost" : "another.host", std::to_string(port), std::chrono::seconds(10));
    }
    if(b != St::Success) { vn::Fd f = vn::dial(port); }
    t.join();
    if((b == St::Success) != c.connected()) w.fail(b == St::Success ? "success-but-not-connected" : "failed-but-connected", vh::cat("TLS client, status ", (int)b));
    if(!trusted && b == St::Success) w.fail("success-without-peer", "TLS client not trusting the server");
    if(a == St::Success && !s.connected()) w.fail("success-but-not-connected", "TLS server side");
    if(a != St::Success && !was && s.connected()) w.fail("failed-but-connected", vh::cat("TLS server side, status ", (int)a));
    vh::count(b == St::Success ? "TLS connections" : "failed TLS connections");
}
static void web_pair_op(World &w, fr::TcpListener &l, Web &c, Web &s, long fault)
{
    if(!l.connected()) return;
    w.op("WebSocket connection");
    drain(l.get_socket_descriptor());
    const std::string port = std::to_string(vn::port_of(l.get_socket_descriptor()));
    bool good = false;
    std::thread t([&]{ try { good = l.accept(s) == St::Success; } catch(const std::runtime_error &) {} });
    St b;
    {
        Watch x(w, fault);
        x.h->resolve = [&](const char *, const char *p, const addrinfo *, addrinfo **res) { *res = address((uint16_t)atoi(p)); return 0; };
        b = c.connect("some.host", port, std::chrono::seconds(10));
    }
    if(b != St::Success) { vn::Fd f = vn::dial((uint16_t)atoi(port.c_str())); }
    t.join();
    if((b == St::Success) != c.connected()) w.fail(b == St::Success ? "success-but-not-connected" : "failed-but-connected", vh::cat("WebSocket client, status ", (int)b));
    if(good && !s.connected()) w.fail("success-but-not-connected", "WebSocket server side");
    vh::count(b == St::Success ? "WebSocket connections" : "failed WebSocket connections");
}

// ---- everything together ----
struct Zoo
{
    World &w;
    std::shared_ptr<fr::SSLContext> trusting, empty;
    std::vector<std::shared_ptr<fr::TcpSocket>> tcp;
    std::vector<std::shared_ptr<Web>> web;
    std::vector<std::shared_ptr<fr::SSLSocket>> ssl;
    std::vector<std::shared_ptr<fr::TcpListener>> listeners;
    std::vector<std::shared_ptr<fr::SSLListener>> ssl_listeners;
    size_t names = 0;
    Zoo(World &world, bool tls) : w(world)
    {
        if(tls)
        {
            static auto t = vt::context({"ca"});
            trusting = t;
            for(int a = 0; a < 2; a++) add_ssl();
            add_ssl_listener();
        }
        for(int a = 0; a < 2; a++) add_tcp();
        for(int a = 0; a < 2; a++) add_web();
        add_listener();
    }
    void add_tcp() { tcp.push_back(w.own(std::make_shared<fr::TcpSocket>(), vh::cat("TcpSocket ", names++))); }
    void add_web() { web.push_back(w.own(std::make_shared<Web>(), vh::cat("WebSocket ", names++))); }
    void add_ssl() { ssl.push_back(w.own(std::make_shared<fr::SSLSocket>(trusting), vh::cat("SSLSocket ", names++))); }
    void add_listener() { listeners.push_back(w.own(std::make_shared<fr::TcpListener>(), vh::cat("TcpListener ", names++))); }
    void add_ssl_listener() { ssl_listeners.push_back(w.own(vt::listener("good"), vh::cat("SSLListener ", names++))); }
    ~Zoo()
    {
        // sockets before the listener they came from
        w.op("the end");
        {
            Watch x(w, -1);
            w.selectors.clear();
            tcp.clear(); web.clear(); ssl.clear(); listeners.clear(); ssl_listeners.clear();
        }
        w.check();
    }
    void step()
    {
        Rng &r = w.r;
        auto &t = tcp[r.below(tcp.size())];
        auto &b = web[r.below(web.size())];
        auto &l = listeners[r.below(listeners.size())];
        const bool tls = !ssl.empty();
        const long fault = draw_fault(w);
        const Way way = (Way)r.below(5);
        switch(r.below(tls ? 28 : 20))
        {
            case 0: case 1: case 2: connect_op(w, *t, "TcpSocket", way, fault, false); break;
            case 3: connect_op(w, *b, "WebSocket", way, fault, true); break;
            case 4: case 5: listen_op(w, *l, "TcpListener", (unsigned)r.below(4), fault); break;
            case 6: if(!l->connected()) listen_op(w, *l, "TcpListener", 0, -1); accept_op(w, *l, *t, "TcpSocket", r.chance(4, 5), fault); break;
            case 7: if(!l->connected()) listen_op(w, *l, "TcpListener", 0, -1); accept_op(w, *l, *b, "WebSocket", true, fault); break;
            case 8: disconnect_op(w, *t, "TcpSocket"); break;
            case 9: disconnect_op(w, *b, "WebSocket"); break;
            case 10: oversize_op(w, *t, "TcpSocket"); break;
            case 11: descriptor_op(w, *t, "TcpSocket", r.coin()); break;
            case 12: touch_op(w, *t, "TcpSocket", fault); break;
            case 13: close_listener_op(w, *l, "TcpListener"); break;
            case 14:
            {
                w.op("moving a TcpListener");
                const bool was = l->connected();
                const int fd = l->get_socket_descriptor();
                Watch x(w, -1);
                auto n = w.own(std::make_shared<fr::TcpListener>(std::move(*l)), vh::cat("TcpListener ", names++));
                if(n->connected() != was || n->get_socket_descriptor() != fd) w.fail("move", "the new one isn't connected as the old one was");
                if(l->connected()) w.fail("move", "the old one is still connected");
                if(r.coin()) l = n; // destroys the old one
                else { listeners.push_back(n); if(listeners.size() > 4) listeners.erase(listeners.begin() + (long)r.below(4)); }
                vh::count("moves");
                break;
            }
            case 15:
            {
                w.op("destroying a socket");
                Watch x(w, -1);
                if(r.coin()) { tcp.erase(tcp.begin() + (long)r.below(tcp.size())); add_tcp(); }
                else { web.erase(web.begin() + (long)r.below(web.size())); add_web(); }
                vh::count("destroyed");
                break;
            }
            case 16:
            {
                w.op("destroying a TcpListener");
                Watch x(w, -1);
                listeners.erase(listeners.begin() + (long)r.below(listeners.size()));
                if(listeners.empty()) add_listener();
                vh::count("destroyed");
                break;
            }
            case 17:
                if(w.selectors.size() < 3 && r.chance(2, 3))
                {
                    w.op("making a selector");
                    Watch x(w, fault);
                    try { w.selectors.emplace_back(new fr::SocketSelector()); }
                    catch(const std::runtime_error &) {}
                }
                else if(!w.selectors.empty())
                {
                    w.op("destroying a selector");
                    Watch x(w, -1);
                    w.selectors.erase(w.selectors.begin() + (long)r.below(w.selectors.size()));
                }
                vh::count("selector operations");
                break;
            case 18:
                if(!w.selectors.empty())
                {
                    w.op("adding to, waiting for and removing from a selector");
                    auto &sel = w.selectors[r.below(w.selectors.size())];
                    std::shared_ptr<fr::SocketDescriptor> o = r.coin() ? std::shared_ptr<fr::SocketDescriptor>(t) : l;
                    Watch x(w, fault);
                    try
                    {
                        if(r.chance(2, 3)) sel->add(o, nullptr);
                        if(r.chance(1, 3)) { x.w.last += " (disconnected in between)"; t->disconnect(); }
                        sel->wait(std::chrono::milliseconds(0));
                        if(r.chance(2, 3)) sel->remove(o);
                    }
                    catch(const std::logic_error &) {}
                    catch(const std::runtime_error &) {}
                    vh::count("selector operations");
                }
                break;
            case 19: if(!l->connected()) listen_op(w, *l, "TcpListener", 0, -1); web_pair_op(w, *l, *b, web[0] == b ? *web[1] : *web[0], fault); break;
            case 20: connect_op(w, *ssl[r.below(ssl.size())], "SSLSocket", way, fault, true); break;
            case 21: listen_op(w, *ssl_listeners[0], "SSLListener", (unsigned)r.below(4), fault); break;
            case 22: if(!ssl_listeners[0]->connected()) listen_op(w, *ssl_listeners[0], "SSLListener", 0, -1); accept_op(w, *ssl_listeners[0], *ssl[r.below(ssl.size())], "SSLSocket", r.chance(4, 5), -1); break;
            case 23: case 24: if(!ssl_listeners[0]->connected()) listen_op(w, *ssl_listeners[0], "SSLListener", 0, -1); tls_pair_op(w, *ssl_listeners[0], *ssl[0], *ssl[1], r.chance(2, 3), fault); break;
            case 25: disconnect_op(w, *ssl[r.below(ssl.size())], "SSLSocket"); break;
            case 26: close_listener_op(w, *ssl_listeners[0], "SSLListener"); break;
            default:
                if(r.coin()) { touch_op(w, *ssl[r.below(ssl.size())], "SSLSocket", fault); break; }
                w.op("destroying an SSLSocket");
                Watch x(w, -1);
                ssl.erase(ssl.begin() + (long)r.below(ssl.size()));
                add_ssl();
                vh::count("destroyed");
                break;
        }
    }
};

static uint64_t n_ops(const World &w) { return (uint64_t)std::count(w.history.begin(), w.history.end(), ',') + 1; }
static void run(Rng &r, bool tls)
{
    World w(r, r.coin());
    {
        Zoo z(w, tls);
        const size_t n = 5 + r.below(25);
        for(size_t a = 0; a < n && !w.broken; a++)
        {
            z.step();
            w.check();
            if(w.mine.size() > 12) w.mine.erase(w.mine.begin(), w.mine.begin() + 6);
        }
    }
    vh::count("operations", n_ops(w));
    vh::distinct(vh::hash_str(w.history));
    if(vh::want_sample("histories", 2)) vh::sample("histories", w.history.substr(0, 280));
}
VH_SECTION(histories, 3000, 60000) { (void)index; run(rng, false); }
VH_SECTION(tls_histories, 600, 12000) { (void)index; run(rng, true); }

// Each operation with each call in it failing, on objects which were connected before or not
VH_SECTION(faults, 1600, 8000)
{
    const unsigned op = (unsigned)(index % 20);
    const long nth = (long)(index / 20) % 20;
    const bool before = index / 400 % 2, sentinels = index / 800 % 2;
    World w(rng, sentinels);
    {
        const bool tls = op >= 13;
        Zoo z(w, tls);
        auto &t = z.tcp[0];
        auto &b = z.web[0];
        auto &l = z.listeners[0];
        if(before)
        {
            descriptor_op(w, *t, "TcpSocket", false);
            descriptor_op(w, *b, "WebSocket", false);
        }
        if(before || op >= 7) listen_op(w, *l, "TcpListener", 0, -1);
        if(tls && (before || op >= 16)) { listen_op(w, *z.ssl_listeners[0], "SSLListener", 0, -1); if(before) tls_pair_op(w, *z.ssl_listeners[0], *z.ssl[0], *z.ssl[1], true, -1); }
        w.check();
        switch(op)
        {
            case 0: connect_op(w, *t, "TcpSocket", Good, nth, false); break;
            case 1: connect_op(w, *t, "TcpSocket", Refused, nth, false); break;
            case 2: connect_op(w, *t, "TcpSocket", List, nth, false); break;
            case 3: connect_op(w, *t, "TcpSocket", DeadList, nth, false); break;
            case 4: listen_op(w, *l, "TcpListener", 0, nth); break;
            case 5: listen_op(w, *l, "TcpListener", 2, nth); break;
            case 6: connect_op(w, *b, "WebSocket", Good, nth, true); break;
            case 7: listen_op(w, *l, "TcpListener", 3, nth); break;
            case 8: accept_op(w, *l, *t, "TcpSocket", true, nth); break;
            case 9: accept_op(w, *l, *t, "TcpSocket", false, nth); break;
            case 10: accept_op(w, *l, *b, "WebSocket", true, nth); break;
            case 11: web_pair_op(w, *l, *b, *z.web[1], nth); break;
            case 12: { w.op("selector"); Watch x(w, nth); try { w.selectors.emplace_back(new fr::SocketSelector()); w.selectors[0]->add(l, nullptr); w.selectors[0]->remove(l); } catch(const std::exception &) {} break; }
            case 13: connect_op(w, *z.ssl[0], "SSLSocket", Good, nth, true); break;
            case 14: connect_op(w, *z.ssl[0], "SSLSocket", DeadList, nth, true); break;
            case 15: listen_op(w, *z.ssl_listeners[0], "SSLListener", 0, nth); break;
            case 16: tls_pair_op(w, *z.ssl_listeners[0], *z.ssl[0], *z.ssl[1], true, nth); break;
            case 17: tls_pair_op(w, *z.ssl_listeners[0], *z.ssl[0], *z.ssl[1], false, nth); break;
            case 18: accept_op(w, *z.ssl_listeners[0], *z.ssl[1], "SSLSocket", true, -1); break;
            default: accept_op(w, *z.ssl_listeners[0], *z.ssl[1], "SSLSocket", false, -1); break;
        }
        w.check();
        // whatever has happened, it can be used again
        if(op < 4 && !w.broken) { connect_op(w, *t, "TcpSocket", Good, -1, false); if(!t->connected()) w.fail("unusable", "TcpSocket"); w.check(); }
        if((op == 4 || op == 5 || op == 7) && !w.broken) { listen_op(w, *l, "TcpListener", 0, -1); if(!l->connected()) w.fail("unusable", "TcpListener"); w.check(); }
        if((op == 13 || op == 14 || op >= 16) && !w.broken) { if(!z.ssl_listeners[0]->connected()) listen_op(w, *z.ssl_listeners[0], "SSLListener", 0, -1); tls_pair_op(w, *z.ssl_listeners[0], *z.ssl[0], *z.ssl[1], true, -1); if(!z.ssl[0]->connected() || !z.ssl[1]->connected()) w.fail("unusable", "SSLSocket"); w.check(); }
    }
    vh::count("operations with a failing call");
    vh::distinct(vh::hash_str(w.history, index));
}
// Listeners which can't be made, and clients of the wrong kind
VH_SECTION(wrong_use, 40, 400)
{
    World w(rng, rng.coin());
    w.op("SSLListener without certificate");
    {
        Watch x(w, -1);
        static auto c = vt::context({"ca"});
        try { fr::SSLListener l(c, vt::path("missing.pem"), vt::path("good.key")); w.fail("no-exception", "missing certificate"); } catch(const std::runtime_error &) {}
        try { fr::SSLListener l(c, vt::path("good.pem"), vt::path("missing.key")); w.fail("no-exception", "missing key"); } catch(const std::runtime_error &) {}
    }
    w.check();
    {
        auto l = w.own(std::make_shared<fr::TcpListener>(), "TcpListener");
        listen_op(w, *l, "TcpListener", 0, -1);
        auto s = w.own(std::make_shared<fr::SSLSocket>(vt::context({})), "SSLSocket");
        w.op("accepting an SSLSocket from a TcpListener");
        vn::Fd peer = vn::dial((uint16_t)vn::port_of(l->get_socket_descriptor()));
        w.mine.push_back(std::move(peer));
        try { l->accept(*s); w.fail("no-exception", "SSLSocket from a TcpListener"); } catch(const std::bad_cast &) {}
        w.check();
        auto t = w.own(std::make_shared<fr::TcpSocket>(), "TcpSocket");
        accept_op(w, *l, *t, "TcpSocket", true, -1);
        w.check();
        Watch x(w, -1);
        t.reset(); l.reset(); s.reset();
    }
    w.op("the end");
    w.check();
    vh::count("wrong uses");
    vh::distinct(index);
}
// Number 0 is a descriptor like any other, for those who don't have a standard input
struct NoInput
{
    int kept = -1;
    bool closed = false, had = __real_fcntl(0, F_GETFD) >= 0;
    NoInput() { if(!had && open("/dev/null", O_RDONLY) != 0) vn::broken("/dev/null"); }
    void close_it()
    {
        kept = (int)__real_fcntl(0, F_DUPFD_CLOEXEC, 300L);
        if(kept < 0) vn::broken("dup of the standard input");
        __real_close(0);
        closed = true;
    }
    bool used() const { return closed && vn::descriptors().count(0); }
    ~NoInput() { if(kept >= 0) { dup2(kept, 0); __real_close(kept); } if(!had) __real_close(0); }
};
VH_SECTION(zero, 240, 2400)
{
    const vc::Type type = rng.pick({vc::Tcp, vc::Tls, vc::Ws});
    unsigned stage = (unsigned)(index % 5);
    if(stage == 4 && type != vc::Tcp) stage = 2;
    static const char *const STAGES[] = {"a selector", "a listener", "a connection", "a member which is adopted", "an accepted connection"};
    const std::string what = vh::cat(vc::TYPES[type], " sockets where descriptor 0 goes to ", STAGES[stage]);
    vc::Pair warm(type); // whatever is kept for good is set up
    if(index < 8 && !warm.open()) return;
    NoInput none;
    std::string owner;
    {
        auto fail = [&](const std::string &key, const std::string &detail) { vh::violation(key, vh::cat(what, ": ", detail)); };
        if(stage == 0) none.close_it();
        fr::SocketSelector selector;
        if(stage == 0 && none.used()) owner = "selector";
        if(stage == 1) none.close_it();
        std::shared_ptr<fr::Listener> l;
        if(type == vc::Tls) l = vt::listener();
        else l = std::make_shared<fr::TcpListener>();
        const St listened = l->listen("0");
        if(listened != St::Success || !l->connected()) { fail("zero-listen", vh::cat((int)listened)); return; }
        if(stage == 1 && l->get_socket_descriptor() == 0) owner = "listener";
        const int port = vn::port_of(l->get_socket_descriptor());
        if(stage == 2) none.close_it();
        vc::Pair p(type);
        St accepted = St::Unknown;
        std::thread t;
        if(stage != 4) t = std::thread([&]{ try { accepted = l->accept(*p.b); } catch(const std::exception &) {} });
        const St connected = p.a->connect("localhost", std::to_string(port), std::chrono::seconds(20));
        if(connected != St::Success) vn::dial((uint16_t)port);
        if(stage == 4) { none.close_it(); accepted = l->accept(*p.b); }
        else t.join();
        if(connected != St::Success || accepted != St::Success) { fail("zero-connect", vh::cat((int)(connected), ", ", (int)(accepted))); return; }
        if(p.a->get_socket_descriptor() == 0) owner = "connected";
        if(p.b->get_socket_descriptor() == 0) owner = "accepted";
        for(auto *x : {p.a.get(), p.b.get()}) if(!x->connected()) fail("zero-connected", vh::cat("descriptor ", x->get_socket_descriptor()));
        if(stage == 3)
        {
            // Give it to a socket of its own
            none.close_it();
            int two[2];
            if(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, two)) vn::broken("socketpair");
            vn::Fd other(two[1]);
            int32_t mine = two[0];
            auto adopted = std::make_shared<fr::TcpSocket>();
            adopted->set_descriptor(&mine);
            if(mine == 0) owner = "adopted";
            if(!adopted->connected() || adopted->get_socket_descriptor() != mine) fail("zero-connected", vh::cat("adopted ", mine, ", has ", adopted->get_socket_descriptor()));
            fr::Packet q;
            q << std::string("hello");
            const St sent = adopted->send(q);
            char b[13];
            if(sent != St::Success || __real_recv(two[1], b, sizeof b, MSG_WAITALL) != 13) fail("zero-exchange", vh::cat("adopted: ", (int)(sent)));
            selector.add(adopted, &mine);
            if(__real_send(two[1], "x", 1, MSG_NOSIGNAL) != 1) vn::broken("send");
            auto ready = selector.wait(std::chrono::milliseconds(10000));
            if(ready.size() != 1 || ready[0].first != adopted || ready[0].second != &mine) fail("zero-selected", vh::cat("adopted: ", ready.size()));
            ready.clear();
            if(selector.remove(adopted) != &mine) fail("zero-removed", "adopted");
            if(rng.coin()) adopted->disconnect();
            adopted.reset();
            if(none.used()) fail("zero-open", "the descriptor of an adopted socket is still open");
        }
        for(int turn = 0; turn < 2; turn++)
        {
            auto &from = turn ? p.b : p.a, &to = turn ? p.a : p.b;
            fr::Packet q, g;
            const std::string text = rng.bytes(rng.below(5000));
            q << text;
            const St sent = from->send(q);
            selector.add(to, to.get());
            bool reported = false;
            for(int a = 0; a < 3 && !reported; a++) for(auto &x : selector.wait(std::chrono::milliseconds(10000))) reported |= x.first == to && x.second == to.get();
            if(!reported) fail("zero-selected", turn ? "connected" : "accepted");
            if(selector.remove(to) != to.get()) fail("zero-removed", turn ? "connected" : "accepted");
            std::string got;
            St received = sent == St::Success ? to->receive(g) : St::Unknown;
            if(received == St::Success) g >> got;
            if(received != St::Success || got != text) fail("zero-exchange", vh::cat((int)(sent), ", ", (int)(received)));
        }
        if(rng.coin()) p.a->disconnect();
        if(rng.coin()) p.b->disconnect();
        if(rng.coin()) l->close_socket();
    }
    if(none.used()) vh::violation("zero-open", vh::cat(what, ": descriptor 0 is still open when everything is gone"));
    if(!owner.empty()) vh::count("descriptor 0: " + owner);
    vh::distinct(vh::hash_str(what + owner));
}

// Listening descriptors which listeners are given, and which they're relieved of
VH_SECTION(given_listeners, 160, 2400)
{
    const vc::Type type = rng.pick({vc::Tcp, vc::Tls, vc::Ws});
    const bool taken = rng.coin(), used = rng.coin(), before = rng.coin();
    const std::string what = vh::cat(type == vc::Tls ? "TLS" : "plain", " listener", before ? " which listened before" : "", " given a descriptor", taken ? " which is then taken back" : "");
    auto fail = [&](const std::string &key, const std::string &detail) { vh::violation(key, vh::cat(what, ": ", detail)); };
    auto open_as = [](int fd, ino_t ino) { struct stat st; return __real_fcntl(fd, F_GETFD) >= 0 && fstat(fd, &st) == 0 && st.st_ino == ino; };
    vc::Pair p(type);
    vn::Fd raw(vn::brief(__real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)));
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if(raw.fd < 0 || __real_bind(raw.fd, (sockaddr*)&a, sizeof a) || __real_listen(raw.fd, 8)) vn::broken("listen");
    struct stat st;
    if(fstat(raw.fd, &st)) vn::broken("fstat");
    const ino_t ino = st.st_ino;
    const int fd = raw.release(), port = vn::port_of(fd);
    {
        std::shared_ptr<fr::Listener> l;
        if(type == vc::Tls) l = vt::listener();
        else l = std::make_shared<fr::TcpListener>();
        if(before)
        {
            if(l->listen("0") != St::Success) vn::broken("listen");
            l->close_socket();
        }
        if(l->connected()) fail("given-state", "connected before");
        l->set_socket_descriptor(fd);
        if(!l->connected() || l->get_socket_descriptor() != fd) fail("given-state", vh::cat("has ", l->get_socket_descriptor(), " rather than ", fd));
        if(used)
        {
            St accepted = St::Unknown;
            std::thread t([&]{ try { accepted = l->accept(*p.b); } catch(const std::exception &) {} });
            const St connected = p.a->connect("localhost", std::to_string(port), std::chrono::seconds(20));
            if(connected != St::Success) vn::dial((uint16_t)port);
            t.join();
            if(connected != St::Success || accepted != St::Success) fail("given-accept", vh::cat((int)(connected), ", ", (int)(accepted)));
            else
            {
                fr::Packet q(std::string("hello")), g;
                std::string text;
                if(p.a->send(q) == St::Success && p.b->receive(g) == St::Success) g >> text;
                if(text != "hello") fail("given-accept", "nothing arrives");
                vh::count("given listeners accepting");
            }
        }
        if(!open_as(fd, ino)) fail("given-closed", "it's closed while in use");
        if(taken)
        {
            l->set_socket_descriptor(-1);
            if(l->connected() || l->get_socket_descriptor() != -1) fail("given-state", "still connected, its descriptor having been taken");
            if(rng.coin()) l->close_socket();
        }
        else if(rng.coin())
        {
            l->close_socket();
            if(l->connected()) fail("given-state", "connected when closed");
            if(open_as(fd, ino)) fail("given-open", "it's still open after close_socket");
        }
    }
    if(taken && !open_as(fd, ino)) fail("given-closed", "it's closed though it was taken back");
    if(!taken && open_as(fd, ino)) fail("given-open", "it's still open when the listener is gone");
    if(open_as(fd, ino)) __real_close(fd);
    vh::count("given listeners");
    vh::distinct(vh::hash_str(what, (uint64_t)type * 2 + used));
}
