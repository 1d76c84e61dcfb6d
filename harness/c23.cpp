// C23: a vanishing or hostile peer is reported, never fatal
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_ws.h>
#include <vh_conn.h>
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
using vh::Rng;
using namespace vc;
using std::chrono::milliseconds;

static std::string text(St s) { try { return fr::Socket::status_to_string(s); } catch(const std::exception &) { return vh::cat((int)s); } }

// The ways a peer can go
enum End { Close, Reset, Half, Bare, BareReset, Silent, ENDS };
static const char *const END[] = {"closed the connection", "reset the connection", "shut down its sending side", "closed the connection without notice", "reset the connection without notice", "fell silent"};
static End random_end(Rng &r, Type t)
{
    End e = (End)r.below(t == Tls ? 6 : 4);
    return t != Tls && e == Bare ? Silent : e;
}
static void linger_reset(int fd) { linger l{1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
static void go(Conn &c, End e)
{
    switch(e)
    {
        case Close: c.hang_up(); break;
        case Reset: linger_reset(c.peer_fd()); c.hang_up(); break;
        case Half: __real_shutdown(c.peer_fd(), SHUT_WR); break;
        case Bare: case BareReset:
        {
            if(!c.tls) { if(e == BareReset) linger_reset(c.peer_fd()); c.hang_up(); break; }
            // From under the TLS socket, so that it can't say goodbye
            vn::Fd null(open("/dev/null", O_RDWR | O_CLOEXEC));
            if(e == BareReset) linger_reset(c.peer_fd());
            dup2(null.fd, c.peer_fd());
            c.hang_up();
            break;
        }
        default: break;
    }
}

// A message of each kind, its encoding, and whether it's what was received
struct Message
{
    How how;
    std::string body, bytes;
    Message() {}
    Message(Rng &r, How h, bool to_client, size_t most) : how(h)
    {
        body = r.bytes(r.chance(1, 10) ? r.below(most) : r.below(60));
        switch(h)
        {
            case Raw: case All: if(body.empty()) body = "x"; bytes = body; break;
            case PacketMsg: { uint32_t n = htonl((uint32_t)body.size()); bytes.assign((char*)&n, 4); bytes += body; break; }
            case Request: bytes = vh::cat("POST /", body.size(), " HTTP/1.1\r\nContent-Length: ", body.size(), "\r\n\r\n", body); break;
            case Response: if(r.coin() && !body.empty()) bytes = vh::cat("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", std::hex, body.size(), "\r\n", body, "\r\n0\r\n\r\n"); else bytes = vh::cat("HTTP/1.1 200 OK\r\nContent-Length: ", body.size(), "\r\n\r\n", body); break;
            default:
            {
                vw::Frame f;
                f.opcode = r.coin() ? 1 : 2;
                f.masked = !to_client;
                for(auto &k : f.key) k = r.byte();
                f.payload = body;
                f.form = vw::shortest(body.size());
                bytes = vw::encode(f);
            }
        }
    }
};
// Receives the next one. In non-blocking mode this goes on until there is something.
struct Taker
{
    How how;
    bool client;
    std::string got;
    Taker(How h, bool c) : how(h), client(c) {}
    St operator()(fr::Socket &s, size_t expected)
    {
        auto begin = vn::Clock::now();
        std::vector<char> b(std::max<size_t>(expected, 1));
        size_t n = 0, done = 0;
        for(;;)
        {
            St r = St::Unknown;
            switch(how)
            {
                case Raw: n = 0; r = s.receive_raw(&b[done], b.size() - done, n); done += n; got.assign(b.data(), done); if(r == St::Success && done < expected) continue; break;
                case All: r = s.receive_all(b.data(), b.size()); got.assign(b.data(), b.size()); break;
                case PacketMsg: { fr::Packet p; r = s.receive(p); if(r == St::Success) { got.assign(p.get_bytes_remaining(), 0); p.extract_raw(&got[0], got.size()); } break; }
                case Request: { fr::HttpRequest q; r = s.receive(q); got = q.get_body(); if(r == St::Success && q.get_uri() != vh::cat("/", expected)) got += " " + q.get_uri(); break; }
                case Response: { fr::HttpResponse q; r = s.receive(q); got = q.get_body(); break; }
                default: { auto f = vw::make(client); r = s.receive(*f); got = f->get_payload(); break; }
            }
            if(r != St::WouldBlock) return r;
            if(vn::ms_since(begin) > 20000) return r;
            std::this_thread::sleep_for(std::chrono::microseconds(300));
        }
    }
};
static St send_something(fr::Socket &s, Rng &r, bool client, size_t n = 20)
{
    std::string d(n, 'd');
    switch(r.below(5))
    {
        case 0: { size_t k = 0; return s.send_raw(d.data(), d.size(), k); }
        case 1: { fr::Packet p; p << d; return s.send(p); }
        case 2: { fr::HttpRequest q; q.set_body(d); return s.send(q); }
        case 3: { fr::HttpResponse q; q.set_body(d); return s.send(q); }
        default: { auto f = vw::make(client); f->set_payload(d); return s.send(*f); }
    }
}
// Whether it's over for this connection: everything fails within a few attempts and goes on failing
static void dead(Conn &c, Rng &r, const std::string &what, bool client, bool sending)
{
    for(int a = 0; a < 3; a++)
    {
        Taker t((How)r.below(HOWS), client);
        St s = t(*c.s, 1);
        if(s == St::Success) vh::violation("receives-from-nowhere", vh::cat(what, ": then ", HOW[t.how], " succeeded"));
        if(s == St::WouldBlock) vh::violation("never-ends", vh::cat(what, ": then ", HOW[t.how], " would block for 20 s"));
    }
    if(!sending) return;
    auto begin = vn::Clock::now();
    St s = St::Success;
    int tries = 0;
    while(s == St::Success && vn::ms_since(begin) < 20000) { s = send_something(*c.s, r, client); if(s == St::Success && ++tries > 2) std::this_thread::sleep_for(milliseconds(1)); }
    if(s == St::Success) { vh::violation("sends-to-nowhere", vh::cat(what, ": sending succeeds for 20 s")); return; }
    for(int a = 0; a < 3; a++) if((s = send_something(*c.s, r, client)) == St::Success) vh::violation("sends-to-nowhere", vh::cat(what, ": sending first fails, then succeeds"));
    vh::count("sends refused");
}

// One connection whose peer leaves some complete messages, part of one more, and goes
static void abandoned(Rng &rng, Kind k, End end, const std::string &prefix)
{
    Conn c(k.t);
    if(!c.open(k.w)) return;
    c.settle();
    const bool client = k.w == Connect;
    const bool block = end == Silent || rng.chance(2, 3);
    if(end == Silent) c.s->set_receive_timeout((uint32_t)rng.range(20, 60));
    else if(rng.chance(1, 4)) c.s->set_receive_timeout(20000);
    if(!block && c.s->set_blocking(false) != St::Success) vh::violation("set-blocking", c.name);
    std::vector<Message> whole;
    const How only = (How)rng.below(HOWS);
    const bool mixed = rng.chance(1, 3);
    auto kind_of_message = [&]{ How h = mixed ? (How)rng.below(HOWS) : only; return h; };
    std::string stream;
    for(size_t n = rng.below(4); n; n--) { whole.emplace_back(rng, kind_of_message(), client, 20000); stream += whole.back().bytes; }
    // HTTP messages take what follows them along, so there these only come one by one
    bool http = false;
    for(auto &m : whole) http |= m.how == Request || m.how == Response;
    Message part(rng, kind_of_message(), client, 5000);
    http |= part.how == Request || part.how == Response;
    const size_t cut = rng.coin() ? 0 : part.how == Raw ? 0 : rng.below(part.bytes.size());
    const bool interleave = http || rng.coin();
    const std::string what = vh::cat(prefix, c.name, block ? "" : " (non-blocking)", ", whose peer ", END[end], " after ", whole.size(), " messages and ", cut, " bytes of a further one (", HOW[part.how], ")");
    Taker t(Raw, client);
    auto expect = [&](const Message &m) {
        t.how = m.how;
        St s = t(*c.s, m.body.size());
        if(s != St::Success) { vh::violation("lost", vh::cat(what, ": ", HOW[m.how], " of ", m.body.size(), " bytes: ", text(s))); return false; }
        if(t.got != m.body) { vh::violation("changed", vh::cat(what, ": ", HOW[m.how], ": ", vh::show(t.got), " instead of ", vh::show(m.body))); return false; }
        vh::count("messages delivered");
        return true;
    };
    size_t delivered = 0;
    bool all_arrived = true;
    if(interleave)
    {
        // The last complete one is still waiting when the peer goes
        for(; delivered + 1 < whole.size(); delivered++) { if(!c.feed(whole[delivered].bytes)) vn::broken("feed"); if(!expect(whole[delivered])) return; }
        const bool last_too = !whole.empty() && http && cut;
        if(last_too) { if(!c.feed(whole.back().bytes)) vn::broken("feed"); if(!expect(whole.back())) return; delivered++; }
        stream.clear();
        for(size_t a = delivered; a < whole.size(); a++) stream += whole[a].bytes;
    }
    stream += part.bytes.substr(0, cut);
    std::thread feeder;
    if(rng.chance(1, 4) && end != Reset && end != BareReset && end != Silent)
    {
        // Goes while being received from
        std::vector<size_t> pieces;
        for(size_t left = stream.size(); left;) { size_t n = 1 + rng.below(left); pieces.push_back(n); left -= n; }
        const unsigned delay = (unsigned)rng.below(2000);
        feeder = std::thread([&, pieces, delay]{ size_t at = 0; for(size_t n : pieces) { c.feed(stream.substr(at, n)); at += n; std::this_thread::sleep_for(std::chrono::microseconds(delay)); } go(c, end); });
        vh::count("peers that went while being received from");
    }
    else
    {
        if(!stream.empty() && !c.feed(stream)) vn::broken("feed");
        if((end == Reset || end == BareReset) && !stream.empty())
        {
            // Only what has arrived before a reset is certain
            int want = (int)stream.size(), have = 0;
            for(int a = 0; a < 2000 && have < want; a++) { ioctl(c.fd(), FIONREAD, &have); if(have < want) std::this_thread::sleep_for(milliseconds(1)); }
            all_arrived = have >= want;
        }
        go(c, end);
    }
    // A connection which is gone may only be noticed by sending
    const bool first_send = end != Silent && end != Half && rng.chance(1, 6) && !feeder.joinable();
    if(first_send && (end == Reset || end == BareReset)) send_something(*c.s, rng, client);
    for(; delivered < whole.size(); delivered++) if(!all_arrived || !expect(whole[delivered])) break;
    St s = St::Unknown;
    if(delivered == whole.size())
    {
        t.how = part.how;
        s = t(*c.s, part.body.size());
        if(s == St::Success) vh::violation("incomplete-message", vh::cat(what, ": delivered as ", vh::show(t.got)));
        else if(s == St::WouldBlock) vh::violation("never-ends", vh::cat(what, ": would block for 20 s"));
        else if((end == Close || end == Half || end == Bare) && s != St::Disconnected) vh::violation("close-not-reported", vh::cat(what, ": ", text(s)));
    }
    if(feeder.joinable()) feeder.join();
    if(end == Half && c.s->connected())
    {
        // Nothing more arrives, but the peer still listens
        std::string d = rng.bytes(1 + rng.below(300));
        size_t sent = 0;
        St x = c.s->send_raw(d.data(), d.size(), sent);
        std::string got = x == St::Success ? c.take(d.size(), 20000) : "";
        if(x != St::Success || sent != d.size() || got != d) vh::violation("half-closed", vh::cat(what, ": sending to it: ", text(x), ", ", got.size(), " of ", d.size(), " bytes arrived"));
        vh::count("sends to half-closed peers");
        c.hang_up();
    }
    if(end == Silent && rng.coin()) { c.hang_up(); }
    if(end != Silent) dead(c, rng, what, client, true);
    vh::count(vh::cat("peers that ", END[end]));
    vh::count(vh::cat("at a ", c.type == Tls ? "TLS" : c.type == Ws ? "WebSocket" : "plain", " socket"));
    vh::distinct(vh::hash_str(what + HOW[only]));
    if(vh::want_sample(prefix)) vh::sample(prefix, what + ": " + text(s));
    if(rng.coin()) { c.s->disconnect(); c.s->disconnect(); if(c.s->connected()) vh::violation("still-connected", what); }
}

// In a process where it's the first thing to be done with the library, as anything may have set what happens to signals
VH_SECTION_X(fresh, 120, 3000, false, 120)
{
    const Kind k = kind(index);
    const End end = random_end(rng, k.t);
    Rng own(rng.fork());
    const unsigned scenario = (unsigned)rng.below(4);
    fflush(stdout);
    pid_t p = fork();
    if(p < 0) vn::broken("fork");
    if(!p)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGPIPE, SIG_DFL);
        if(scenario == 0)
        {
            // Adopted straight away
            auto pr = vn::tcp_pair();
            linger_reset(pr.second.fd);
            fr::TcpSocket s;
            int fd = pr.first.release();
            s.set_descriptor(&fd);
            pr.second.reset();
            for(int a = 0; a < 4; a++) { size_t n = 0; if(s.send_raw("abc", 3, n) == St::Success && a > 1) vh::violation("sends-to-nowhere", "adopted"); }
        }
        else if(scenario == 1)
        {
            // A listener which made all of it
            fr::TcpListener l;
            if(l.listen("0") != St::Success) vn::broken("listen");
            auto peer = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
            fr::TcpSocket s;
            if(l.accept(s) != St::Success) vn::broken("accept");
            linger_reset(peer.fd);
            peer.reset();
            std::this_thread::sleep_for(milliseconds(1));
            for(int a = 0; a < 4; a++) { fr::Packet q; q << "abc"; if(s.send(q) == St::Success && a > 1) vh::violation("sends-to-nowhere", "accepted"); }
        }
        else
        {
            for(int a = 0; a < 3; a++) abandoned(own, k, a ? random_end(own, k.t) : end, "in a new process, ");
        }
        fflush(stdout);
        _exit(vh::st().violations ? 1 : 0);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    const std::string what = vh::cat(TYPES[k.t], " socket, ", WAYS[k.w], ", scenario ", scenario);
    if(WIFSIGNALED(st)) vh::violation("killed", vh::cat("the process is killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), "): ", what));
    else if(WEXITSTATUS(st) == 94) vn::broken("in a child");
    else if(WEXITSTATUS(st) > 1) vh::violation("process-ended", vh::cat("exit status ", WEXITSTATUS(st), ": ", what));
    vh::count("new processes");
    vh::distinct(index + 77777);
}

VH_SECTION_X(receiving, 3600, 60000, false, 120)
{
    const Kind k = kind(index);
    abandoned(rng, k, random_end(rng, k.t), "");
}

// Every position in a message of each kind
VH_SECTION_X(positions, 480, 4000, false, 180)
{
    const Kind k = kind(index / HOWS);
    const How how = (How)(index % HOWS);
    const bool client = k.w == Connect;
    static const End ends[] = {Close, Half, Reset};
    Message m(rng, how, client, 100);
    if(how == Raw) return;
    const size_t step = m.bytes.size() > 12 ? 1 + m.bytes.size() / 6 : 1;
    for(size_t cut = rng.below(step); cut < m.bytes.size(); cut += step)
    {
        Conn c(k.t);
        if(!c.open(k.w)) return;
        c.settle();
        const End end = ends[rng.below(3)];
        if(cut && !c.feed(m.bytes.substr(0, cut))) vn::broken("feed");
        go(c, end);
        Taker t(how, client);
        St s = t(*c.s, m.body.size());
        const std::string what = vh::cat(c.name, ", ", HOW[how], ", whose peer ", END[end], " after ", cut, " of ", m.bytes.size(), " bytes");
        if(s == St::Success) vh::violation("incomplete-message", what);
        else if(end != Reset && s != St::Disconnected) vh::violation("close-not-reported", vh::cat(what, ": ", text(s)));
        vh::count("positions");
        vh::distinct(vh::hash_str(what));
    }
}

// A send which the peer doesn't let finish
VH_SECTION_X(sending, 280, 4000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    const bool client = k.w == Connect;
    vn::buffers(c.fd(), 40000);
    vn::buffers(c.peer_fd(), 40000);
    const End end = rng.pick({Close, Reset, BareReset});
    const bool block = rng.chance(2, 3);
    if(!block) c.s->set_blocking(false);
    else if(rng.chance(1, 3)) c.s->set_send_timeout(20000);
    const size_t takes = rng.pick<size_t>({0, 1, 1000, 50000, 300000}), delay = rng.below(8);
    const size_t size = (size_t)rng.range(3, 5) << 20;
    std::thread peer([&, takes, delay, end]{
        if(takes) c.take(takes, 1000);
        std::this_thread::sleep_for(milliseconds(delay));
        go(c, end);
    });
    const std::string what = vh::cat(c.name, block ? "" : " (non-blocking)", ", whose peer ", END[end], " after taking ", takes, " of ", size, " bytes");
    St s = send_something(*c.s, rng, client, size);
    if(s == St::WouldBlock)
    {
        // Only of a raw send, which may be tried again
        auto b = vn::Clock::now();
        std::string d(size, 'x');
        size_t n = 0;
        while(s == St::WouldBlock && vn::ms_since(b) < 20000) { n = 0; s = c.s->send_raw(d.data(), d.size(), n); std::this_thread::sleep_for(std::chrono::microseconds(200)); }
        if(s == St::WouldBlock) vh::violation("never-ends", vh::cat(what, ": would block for 20 s"));
    }
    peer.join();
    if(s == St::Success) vh::violation("sends-to-nowhere", what);
    dead(c, rng, what, client, true);
    vh::count("sends cut off");
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample("sending")) vh::sample("sending", what + ": " + text(s));
}

// Connections which end during the TLS handshake
struct Cut
{
    vn::Server server;
    uint16_t target;
    size_t up, down; // bytes let through
    bool reset;
    uint64_t seed;
    unsigned garble; // what comes instead
    std::thread t;
    size_t passed_up = 0, passed_down = 0;
    Cut(uint16_t to, size_t u, size_t d, bool r, uint64_t s, unsigned g) : target(to), up(u), down(d), reset(r), seed(s), garble(g)
    {
        t = std::thread([this]{ run(); });
    }
    ~Cut() { if(t.joinable()) t.join(); }
    void run()
    {
        vn::Fd c = server.accept_within(20000), s = vn::dial(target);
        if(c.fd < 0 || s.fd < 0) return;
        Rng r(seed);
        std::vector<char> b(20000);
        for(;;)
        {
            pollfd p[2] = {{c.fd, POLLIN, 0}, {s.fd, POLLIN, 0}};
            if(__real_poll(p, 2, passed_up + passed_down ? 200 : 20000) <= 0) break;
            bool over = false;
            for(int w = 0; w < 2 && !over; w++)
            {
                if(!p[w].revents) continue;
                ssize_t n = __real_recv(p[w].fd, b.data(), b.size(), 0);
                if(n <= 0) { over = true; break; }
                size_t &passed = w ? passed_down : passed_up;
                const size_t limit = w ? down : up;
                const size_t k = std::min((size_t)n, limit - passed);
                vn::write_all(w ? c.fd : s.fd, std::string(b.data(), k));
                passed += k;
                if(passed >= limit)
                {
                    if(garble == 1) vn::write_all(w ? c.fd : s.fd, r.bytes(1 + r.below(400)));
                    if(garble == 2) vn::write_all(w ? c.fd : s.fd, std::string("\x16\x03\x03\x00\x20", 5) + r.bytes(32) + std::string("\x15\x03\x03\x00\x02\x02\x28", 7));
                    if(garble == 3) vn::write_all(w ? c.fd : s.fd, std::string("\x15\x03\x03\x00\x02\x01\x00", 7));
                    over = true;
                }
            }
            if(over) break;
        }
        if(reset) { linger_reset(c.fd); linger_reset(s.fd); }
    }
};
VH_SECTION_X(tls_handshakes, 600, 8000, false, 120)
{
    static auto listener = []{ auto l = vt::listener(); if(l->listen("0") != St::Success) vn::broken("listen"); return l; }();
    static auto context = vt::context();
    const uint16_t port = (uint16_t)vn::port_of(listener->get_socket_descriptor());
    // Whole handshakes take about 500 bytes up and 1500 down
    const bool up = rng.coin();
    const size_t at = up ? (rng.coin() ? rng.below(340) : rng.below(600)) : (rng.coin() ? rng.below(1700) : rng.below(140));
    Cut cut(port, up ? at : SIZE_MAX, up ? SIZE_MAX : at, rng.coin(), rng.fork(), (unsigned)rng.below(4));
    fr::SSLSocket client(context), server(context);
    St a = St::Unknown, c = St::Unknown;
    std::string thrown;
    std::thread t([&]{ try { a = listener->accept(server); } catch(const std::exception &e) { thrown = e.what(); } });
    try { c = client.connect("localhost", cut.server.port_text(), std::chrono::seconds(20)); } catch(const std::exception &e) { thrown = e.what(); }
    t.join();
    cut.t.join();
    const std::string what = vh::cat("a TLS handshake cut after ", at, " bytes from the ", up ? "client" : "server", ", continued by garbage ", cut.garble);
    if(!thrown.empty()) vh::violation("exception", vh::cat(what, ": ", thrown));
    // One side may be done before the other, but then it notices afterwards
    if(c == St::Success && a == St::Success && (up ? cut.passed_up : cut.passed_down) < 50) vh::violation("handshake-of-nothing", what);
    char b[8];
    size_t n = 0;
    if(c == St::Success)
    {
        if(client.receive_raw(b, 8, n) == St::Success) vh::violation("receives-from-nowhere", what);
        vh::count("clients cut afterwards");
    }
    else { if(client.connected()) vh::violation("still-connected", what); vh::count("connects cut"); }
    if(a == St::Success)
    {
        if(server.receive_raw(b, 8, n) == St::Success) vh::violation("receives-from-nowhere", what);
        vh::count("servers cut afterwards");
    }
    else vh::count("accepts cut");
    // Neither is the worse for it
    if(rng.chance(1, 6))
    {
        fr::SSLSocket other(context);
        std::string why;
        if(!vt::connect(*listener, client, other, &why)) vh::violation("unusable-afterwards", vh::cat(what, ": ", why));
        vh::count("used again afterwards");
    }
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample("tls_handshakes")) vh::sample("tls_handshakes", vh::cat(what, ": connect ", (int)c, ", accept ", (int)a));
}

VH_SECTION_X(websocket_handshakes, 6000, 60000, false, 120)
{
    const bool reset = rng.coin(), junk = rng.chance(1, 5);
    if(index & 1)
    {
        const std::string q = vh::cat("GET /chat HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nX: ", std::string(rng.below(30), 'p'), "\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
        fr::TcpListener l;
        if(l.listen("0") != St::Success) vn::broken("listen");
        auto peer = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
        const size_t cut = rng.chance(1, 8) ? q.size() : rng.below(q.size());
        vn::write_all(peer.fd, q.substr(0, cut));
        if(junk) vn::write_all(peer.fd, rng.bytes(rng.below(300)) + "\r\n\r\n");
        const bool later = rng.chance(1, 3);
        std::thread t([&]{ if(later) std::this_thread::sleep_for(std::chrono::microseconds(500)); if(reset) linger_reset(peer.fd); peer.reset(); });
        if(!later) t.join();
        const std::string what = vh::cat("a WebSocket client ", reset ? "resetting" : "closing", " after ", cut, " of ", q.size(), " bytes of its request", junk ? " and junk" : "");
        Web s;
        St r = St::Unknown;
        bool refused = false;
        try { r = l.accept(s); } catch(const std::runtime_error &) { refused = true; }
        if(t.joinable()) t.join();
        if(r == St::Success && cut < q.size() && !junk) vh::violation("handshake-of-nothing", what);
        for(int a = 0; a < 4; a++)
        {
            fr::ClientWebFrame f;
            St x = s.receive(f);
            if(x == St::Success && !junk) vh::violation("receives-from-nowhere", what);
            std::this_thread::sleep_for(std::chrono::microseconds(200));
            fr::ServerWebFrame g;
            g.set_payload("abc");
            x = s.send(g);
            if(x == St::Success && a > 2 && reset) vh::violation("sends-to-nowhere", what);
        }
        if(rng.coin()) s.disconnect();
        vh::count(refused ? "requests refused" : r == St::Success ? "requests accepted" : "accepts failed");
        vh::distinct(vh::hash_str(what));
        return;
    }
    vn::Server server;
    const bool early = rng.chance(1, 8);
    const size_t where = rng.below(140);
    const size_t extra = rng.below(40);
    std::string junk_bytes = junk ? rng.bytes(rng.below(300)) + "\r\n\r\n" : "";
    size_t whole = 0, sent = 0;
    std::thread t([&]{
        auto c = server.accept_within(20000);
        if(c.fd < 0) return;
        std::string q, key;
        if(!early)
        {
            while(q.find("\r\n\r\n") == std::string::npos) { auto more = vn::read_some(c.fd, 1, 20000); if(more.empty()) break; q += more; }
            std::string low = q;
            for(auto &x : low) x = (char)tolower(x);
            size_t p = low.find("sec-websocket-key:");
            if(p != std::string::npos) { p += 18; while(q[p] == ' ') p++; key = q.substr(p, q.find("\r\n", p) - p); }
        }
        std::string a = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nX: " + std::string(extra, 'p') + "\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + fr::Base64::encode(fr::Sha1::sha1_digest(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")) + "\r\n\r\n";
        whole = a.size();
        sent = early ? 0 : std::min(where, a.size());
        vn::write_all(c.fd, a.substr(0, sent) + junk_bytes);
        if(reset) linger_reset(c.fd);
    });
    Web s;
    St r = s.connect("127.0.0.1", server.port_text(), std::chrono::seconds(20));
    t.join();
    const std::string what = vh::cat("a WebSocket server ", reset ? "resetting" : "closing", " after ", sent, " of ", whole, " bytes of its reply", junk ? " and junk" : "");
    if(r == St::Success && sent < whole && !junk) vh::violation("handshake-of-nothing", what);
    if(r == St::Success && !junk) { fr::ServerWebFrame f; if(s.receive(f) == St::Success) vh::violation("receives-from-nowhere", what); }
    if(r != St::Success && s.connected()) vh::violation("still-connected", vh::cat(what, ": ", text(r)));
    if(rng.coin()) s.disconnect();
    vh::count(r == St::Success ? "replies accepted" : "replies refused");
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample("websocket_handshakes")) vh::sample("websocket_handshakes", what + ": " + text(r));
}

// Clients gone before they're accepted
VH_SECTION_X(gone_before_accept, 6000, 60000, false, 120)
{
    fr::TcpListener l;
    if(l.listen("0") != St::Success) vn::broken("listen");
    struct Client { bool gone, reset; std::string said; vn::Fd fd; };
    std::vector<Client> clients;
    for(size_t n = rng.range(1, 6); n; n--)
    {
        Client c;
        c.gone = rng.chance(2, 3); c.reset = rng.coin();
        c.said = vh::cat("<", n, rng.from("abc", rng.below(20)), ">");
        c.fd = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
        if(c.fd.fd < 0) vn::broken("dial");
        vn::write_all(c.fd.fd, c.said);
        if(c.gone) { if(c.reset) linger_reset(c.fd.fd); c.fd.reset(); }
        clients.push_back(std::move(c));
    }
    for(size_t a = 0; a < clients.size(); a++)
    {
        Client &c = clients[a];
        fr::TcpSocket s;
        const std::string what = vh::cat("client ", a, " of ", clients.size(), c.gone ? c.reset ? ", which has reset its connection" : ", which has closed" : "");
        pollfd p{l.get_socket_descriptor(), POLLIN, 0};
        if(__real_poll(&p, 1, 0) == 0) { vh::count("dropped from the queue"); break; }
        St r = l.accept(s);
        if(r != St::Success) { if(!c.reset) vh::violation("not-accepted", vh::cat(what, ": ", text(r))); continue; }
        std::string got(c.said.size(), '\0');
        St x = s.receive_all(&got[0], got.size());
        if(x == St::Success ? got != c.said : !c.reset) vh::violation("lost", vh::cat(what, ": ", text(x), " ", vh::show(got)));
        if(c.gone)
        {
            char b[4]; size_t n = 0;
            x = s.receive_raw(b, 4, n);
            if(c.reset ? x == St::Success : x != St::Disconnected) vh::violation("close-not-reported", vh::cat(what, ": ", text(x)));
            auto begin = vn::Clock::now();
            do { n = 0; x = s.send_raw("abcd", 4, n); } while(x == St::Success && vn::ms_since(begin) < 20000);
            if(x == St::Success) vh::violation("sends-to-nowhere", what);
        }
        else
        {
            size_t n = 0;
            x = s.send_raw(c.said.data(), c.said.size(), n);
            if(x != St::Success || vn::read_some(c.fd.fd, c.said.size(), 20000) != c.said) vh::violation("others-suffer", vh::cat(what, ": ", text(x)));
            vh::count("others unaffected");
        }
        vh::count("accepted after they had gone", c.gone);
        vh::distinct(vh::hash_str(what + c.said));
    }
}

// Anything at all, over a real connection
VH_SECTION_X(hostile, 2400, 40000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    const bool client = k.w == Connect;
    c.s->set_max_receive_size((uint32_t)rng.pick({1, 100, 65536}));
    const bool block = rng.coin();
    if(!block) c.s->set_blocking(false);
    std::string d;
    for(size_t n = rng.range(1, 4); n; n--)
    {
        switch(rng.below(5))
        {
            case 0: d += rng.bytes(rng.below(400)); break;
            case 1: { Message m(rng, (How)rng.below(HOWS), rng.coin(), 3000); d += m.bytes; break; }
            case 2: { Message m(rng, (How)rng.below(HOWS), client, 500); if(!m.bytes.empty()) m.bytes[rng.below(std::min<size_t>(m.bytes.size(), 12))] = (char)rng.byte(); d += m.bytes; break; }
            case 3: d += rng.pick<std::string>({"GET ", "HTTP/1.1 200 OK\r\n", "\r\n\r\n", "Content-Length: 99999999999\r\n", "Transfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n", std::string("\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff", 10), std::string("\x88\x00", 2), std::string("\x88\x80\0\0\0\0", 6), std::string("\x89\x80\0\0\0\0", 6), std::string("\xff\xff\xff\xff", 4)}); break;
            default: d += rng.from(std::string(" \r\n:;=&?%\0", 10) + "a1", rng.below(200));
        }
    }
    // Raw TLS records get broken too
    const bool broken_tls = k.t == Tls && rng.chance(1, 3);
    const End end = rng.pick({Close, Reset, Half});
    std::thread peer([&]{
        if(broken_tls) vn::write_all(c.peer_fd(), d); else c.feed(d);
        go(c, end);
    });
    How h = (How)rng.below(HOWS);
    const bool fixed = rng.coin();
    Taker t(h, client);
    St s = St::Success;
    std::string thrown;
    size_t received = 0;
    auto begin = vn::Clock::now();
    // HTTP messages and frames of any size come to an end as the data does, and so does everything else
    for(; vn::ms_since(begin) < 20000; received++)
    {
        t.how = fixed ? h : (How)rng.below(HOWS);
        try { s = t(*c.s, 1 + rng.below(40)); } catch(const std::exception &e) { thrown = e.what(); break; }
        if(s != St::Success && !(s == St::ParseError || s == St::Error)) break;
        if(received > d.size() + 10) break;
    }
    peer.join();
    const std::string what = vh::cat(c.name, ", receiving ", d.size(), " bytes: ", vh::show(d, 100));
    if(!thrown.empty()) vh::violation("exception", vh::cat(what, ": ", HOW[t.how], ": ", thrown));
    if(received > d.size() + 10 || s == St::WouldBlock || (s == St::Success && thrown.empty())) vh::violation("never-ends", vh::cat(what, ": ", received, " receives, then ", text(s)));
    if(end == Half && c.s->connected() && rng.coin()) send_something(*c.s, rng, client);
    c.hang_up();
    dead(c, rng, what, client, true);
    vh::count("hostile peers");
    vh::count("received from hostile peers", received);
    vh::distinct(vh::hash_str(d));
    if(rng.coin()) c.s->disconnect();
}

// Operations on what isn't connected fail, and touch nothing
VH_SECTION_X(unconnected, 1400, 20000, false, 120)
{
    const Kind k = kind(index);
    const unsigned how = (unsigned)rng.below(4); // never connected, failed to, disconnected, disconnected because of what was received
    std::vector<vn::Fd> fill;
    Conn c(k.t);
    std::string state;
    if(how == 1)
    {
        uint16_t port;
        { vn::Server s; port = s.port; }
        St r = c.s->connect("127.0.0.1", std::to_string(port), std::chrono::seconds(5));
        if(r == St::Success) return; // it was taken again
        state = "after failing to connect";
    }
    else if(how == 2)
    {
        if(!c.open(k.w)) return;
        c.s->disconnect();
        state = "after disconnecting";
    }
    else if(how == 3)
    {
        if(!c.open(k.w)) return;
        c.s->set_max_receive_size(10);
        c.feed(std::string("\xf0\0\0\0", 4));
        fr::Packet p;
        c.s->receive(p);
        c.s->set_max_receive_size(0);
        if(c.s->connected()) { vh::violation("still-connected", c.name + " after an oversized packet"); return; }
        state = "after being disconnected over an oversized packet";
    }
    else state = "never connected";
    state = vh::cat(TYPES[k.t], " socket, ", WAYS[k.w], ", ", state);
    // Whatever number it had belongs to someone else now
    auto other = vn::pair();
    for(int a = 0; a < 12; a++) { auto p = vn::pair(); fill.push_back(std::move(p.first)); fill.push_back(std::move(p.second)); }
    auto before = vn::descriptors();
    if(c.s->get_socket_descriptor() != -1 || c.s->connected()) vh::violation("still-connected", state);
    {
        vn::HookScope h;
        std::string touched;
        h->after = [&](const char *name, int fd, long, int) { if(fd >= 0) touched += vh::cat(name, "(", fd, ") "); };
        for(size_t n = rng.range(3, 14); n; n--)
        {
            const unsigned op = (unsigned)rng.below(12);
            const bool client = rng.coin();
            St s = St::Unknown;
            std::string name;
            bool must_fail = true;
            try
            {
                switch(op)
                {
                    case 0: case 1: case 2: case 3: name = "sending"; s = send_something(*c.s, rng, client); break;
                    case 4: case 5: case 6: case 7: { Receiver r((How)rng.below(HOWS), client); name = HOW[r.how]; s = r(*c.s); if(r.how == Raw && r.got) vh::violation("received-count", vh::cat(state, ": ", r.got)); break; }
                    case 8: name = "set_blocking"; s = c.s->set_blocking(rng.coin()); break;
                    case 9: name = "shutdown"; must_fail = false; c.s->shutdown(); break;
                    case 10: name = "disconnect"; must_fail = false; c.s->disconnect(); break;
                    default: name = "setting timeouts"; must_fail = false; c.s->set_receive_timeout((uint32_t)rng.below(3000)); c.s->set_send_timeout((uint32_t)rng.below(3000)); c.s->get_blocking(); c.s->get_remote_address();
                }
            }
            catch(const std::exception &e) { vh::violation("exception", vh::cat(state, ": ", name, ": ", e.what())); }
            if(must_fail && (s == St::Success || s == St::WouldBlock || s == St::Timeout || s == St::NotEnoughData)) vh::violation("works-unconnected", vh::cat(state, ": ", name, ": ", text(s)));
            if(!touched.empty()) { vh::violation("touches-others", vh::cat(state, ": ", name, ": ", touched)); break; }
            if(c.s->connected()) { vh::violation("connected-by-itself", vh::cat(state, ": ", name)); break; }
            vh::count("operations on unconnected sockets");
        }
    }
    if(vn::descriptors() != before) vh::violation("touches-others", state + ": descriptors have changed");
    char b;
    for(auto &f : fill) if(__real_recv(f.fd, &b, 1, MSG_DONTWAIT) != -1 || errno != EAGAIN) { vh::violation("touches-others", state + ": another connection got data or was closed"); break; }
    vh::count(vh::cat("state: ", how));
    vh::distinct(index + 5555);
    // Afterwards it can be connected
    if(rng.chance(1, 4) && c.open(k.w))
    {
        c.s->set_receive_timeout(20000);
        Message m(rng, PacketMsg, true, 100);
        c.feed(m.bytes);
        Taker t(PacketMsg, true);
        St s = t(*c.s, 1);
        if(s != St::Success || t.got != m.body) vh::violation("unusable-afterwards", vh::cat(state, ": ", text(s)));
        vh::count("connected afterwards");
    }
}

VH_SECTION(unconnected_listeners, 400, 4000)
{
    static auto context = vt::context({});
    std::shared_ptr<fr::Listener> l;
    if(index & 1) l = vt::listener();
    else l = std::make_shared<fr::TcpListener>();
    const unsigned how = (unsigned)rng.below(3);
    std::string state = vh::cat(index & 1 ? "TLS" : "plain", " listener, ", how == 0 ? "never listening" : how == 1 ? "closed" : "failed to listen");
    if(how == 1) { if(l->listen("0") != St::Success) vn::broken("listen"); l->close_socket(); }
    if(how == 2) { St r = l->listen("no such port"); if(r == St::Success) vh::violation("listens-nowhere", state); }
    auto other = vn::pair();
    auto before = vn::descriptors();
    {
        vn::HookScope h;
        std::string touched;
        h->after = [&](const char *name, int fd, long, int) { if(fd >= 0) touched += vh::cat(name, "(", fd, ") "); };
        for(int a = 0; a < 4; a++)
        {
            std::string name;
            switch(rng.below(4))
            {
                case 0: case 1:
                {
                    name = "accept";
                    St s;
                    if(index & 1) { fr::SSLSocket c(context); s = l->accept(c); if(c.connected()) vh::violation("connected-by-itself", state); }
                    else { fr::TcpSocket c; s = l->accept(c); if(c.connected()) vh::violation("connected-by-itself", state); }
                    if(s == St::Success || s == St::WouldBlock) vh::violation("works-unconnected", vh::cat(state, ": accept: ", text(s)));
                    break;
                }
                case 2: name = "shutdown"; l->shutdown(); break;
                default: name = "close_socket"; l->close_socket();
            }
            if(!touched.empty()) { vh::violation("touches-others", vh::cat(state, ": ", name, ": ", touched)); break; }
            if(l->connected()) vh::violation("connected-by-itself", vh::cat(state, ": ", name));
            vh::count("operations on listeners which don't listen");
        }
    }
    if(vn::descriptors() != before) vh::violation("touches-others", state + ": descriptors have changed");
    vh::distinct(index + 999);
}
