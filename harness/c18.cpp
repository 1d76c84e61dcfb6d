// C18: blocking mode, timeouts and shutdown behave as documented
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_conn.h>
#include <condition_variable>
#include <csignal>
#include <memory>
#include <pthread.h>
using vh::Rng;
using std::chrono::milliseconds;

// The kernel counts timeouts in ticks, and the one begun counts
static const double TICK = 10.5;
static const int MARGIN = 4000; // by when something which should have happened has, whatever else the machine is doing

using namespace vc;

// Runs this, and something else to end it should it not end
template<typename F> static bool ends(F f, const std::function<void()> &rescue, int ms)
{
    std::mutex m;
    std::condition_variable cv;
    bool over = false, rescued = false;
    std::thread t([&]{
        std::unique_lock<std::mutex> l(m);
        if(!cv.wait_for(l, milliseconds(ms), [&]{ return over; })) { rescued = true; l.unlock(); rescue(); }
    });
    f();
    { std::lock_guard<std::mutex> l(m); over = true; }
    cv.notify_all();
    t.join();
    return !rescued;
}

static std::string pattern(size_t n, uint64_t seed)
{
    std::string s(n, '\0');
    for(size_t a = 0; a < n; a += 8) { uint64_t v = vh::mix(seed + a); memcpy(&s[a], &v, std::min<size_t>(8, n - a)); }
    return s;
}

VH_SECTION_X(receive_timeouts, 448, 6000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    const bool before = rng.coin(), reuse = rng.chance(1, 4), later = rng.chance(1, 5);
    const uint32_t t = (uint32_t)(rng.chance(1, 12) ? rng.pick({999, 1000, 1001, 1090, 2050}) : rng.range(20, 160));
    // The other way's timeout is another
    const bool other = rng.chance(2, 3);
    const uint32_t send_timeout = rng.pick({0u, 1u, 20u, 1250u, 5000u, 7200000u});
    auto set_other = [&]{ if(other && rng.coin()) c.s->set_send_timeout(send_timeout); };
    if(before) set_other();
    if(before) c.s->set_receive_timeout(t);
    set_other();
    if(later) { c.s->set_receive_timeout(rng.pick({1u, 100000u, 0u})); if(before) c.s->set_receive_timeout(t); }
    if(reuse && !c.open(kind(index).w)) return;
    if(reuse && rng.coin()) { c.s->disconnect(); }
    if(!c.open(k.w)) return;
    if(!before) c.s->set_receive_timeout(t);
    if(!before || k.t == Tcp) set_other(); // what is left of the handshake isn't held up
    c.settle();
    Receiver r((How)rng.below(HOWS), k.w == Connect);
    const std::string what = vh::cat(HOW[r.how], " by a ", c.name, ", with a timeout of ", t, " ms set ", before ? "before" : "after", " it was", reuse ? ", on a reused object" : "");
    VH_CHECK(c.s->get_receive_timeout() == t, "timeout-value", what, ": ", c.s->get_receive_timeout());
    St st = St::Unknown;
    double ms = 0;
    // Some of them with signals arriving
    const unsigned signals = rng.chance(1, 4) ? (unsigned)rng.range(1, 4) : 0;
    std::thread signaller;
    std::atomic<bool> quit{false};
    if(signals)
    {
        static bool once = []{ struct sigaction a{}; a.sa_handler = [](int){}; sigaction(SIGUSR1, &a, nullptr); return true; }();
        (void)once;
        pthread_t self = pthread_self();
        signaller = std::thread([&, self]{ for(unsigned a = 0; a < signals && !quit; a++) { std::this_thread::sleep_for(milliseconds(7)); pthread_kill(self, SIGUSR1); } });
    }
    bool ended = ends([&]{ auto b = vn::Clock::now(); st = r(*c.s); ms = vn::ms_since(b); }, [&]{ c.feed(r.message()); }, (int)t + MARGIN);
    quit = true;
    if(signaller.joinable()) { signaller.join(); vh::count("interrupted by signals"); }
    if(!ended) { vh::violation("timeout-ignored", vh::cat(what, " took ", ms, " ms: ", fr::Socket::status_to_string(st))); return; }
    VH_CHECK(st == St::Timeout, "not-a-timeout", what, ": ", fr::Socket::status_to_string(st), " after ", ms, " ms");
    VH_CHECK(ms >= t - TICK, "timeout-early", what, " took ", ms, " ms");
    if(r.how == Raw) VH_CHECK(r.got == 0, "received-count", what, ": ", r.got);
    VH_CHECK(c.s->connected() && c.s->get_blocking(), "timeout-changes-state", what);
    // Which does no harm
    if(st == St::Timeout && rng.coin())
    {
        c.s->set_receive_timeout(60000);
        if(!c.feed(r.message())) vn::broken("feed");
        st = r(*c.s);
        VH_CHECK(st == St::Success, "unusable-after-timeout", what, ": then ", fr::Socket::status_to_string(st));
        vh::count("received after a timeout");
    }
    vh::count("receive timeouts");
    vh::distinct(vh::mix(t * 131 + k.t * 7 + k.w * 3 + r.how * 1000003));
}

// Waits for as long as it takes without a timeout, or with a long one
VH_SECTION_X(waiting, 280, 3000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    const uint32_t t = rng.pick({0u, 0u, 60000u, 3600000u, 2147483647u, 2147483648u, 4294967295u, 65536000u});
    const bool before = rng.coin();
    if(before) c.s->set_receive_timeout(t);
    if(!c.open(k.w)) return;
    if(!before) { if(rng.coin()) c.s->set_receive_timeout(30); c.s->set_receive_timeout(t); }
    if(rng.coin()) { c.s->set_blocking(false); c.s->set_blocking(true); }
    Receiver r((How)rng.below(HOWS), k.w == Connect);
    const std::string what = vh::cat(HOW[r.how], " by a ", c.name, ", with a timeout of ", t);
    c.settle();
    const int delay = rng.pick({0, 10, 60, 150});
    std::atomic<bool> fed{false};
    std::thread th([&]{ std::this_thread::sleep_for(milliseconds(delay)); fed = true; c.feed(r.message()); });
    St st = r(*c.s);
    bool was = fed;
    th.join();
    VH_CHECK(was, "didnt-wait", what, " returned ", fr::Socket::status_to_string(st), " before there was any data");
    if(was) VH_CHECK(st == St::Success, "didnt-receive", what, ": ", fr::Socket::status_to_string(st));
    vh::count("waits for data");
    vh::distinct(vh::mix(index));
}

// The timeouts last set are the ones which count
VH_SECTION_X(changed_timeouts, 280, 3000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    const bool sends = rng.coin(), before = rng.coin();
    auto set = [&](uint32_t t) { if(sends) c.s->set_send_timeout(t); else c.s->set_receive_timeout(t); };
    auto get = [&]{ return sends ? c.s->get_send_timeout() : c.s->get_receive_timeout(); };
    const uint32_t first = (uint32_t)rng.range(10, 40), last = rng.pick({0u, 0u, 60000u, 86400000u});
    if(before) set(first);
    if(!c.open(k.w)) return;
    if(!before) set(first);
    c.settle();
    std::string what = vh::cat(sends ? "send" : "receive", " timeout of a ", c.name, ": ", first, " ms, ", before ? "before" : "after", " it was connected");
    std::string data, arrived;
    size_t at = 0;
    if(sends) { vn::buffers(c.fd(), 20000); vn::buffers(c.peer_fd(), 20000); data = pattern(600000 + rng.below(5000), index); }
    char b[16];
    size_t n = 0;
    if(rng.coin()) // reach the first
    {
        St st = St::Unknown;
        double ms = 0;
        bool ended = ends([&]{ auto t0 = vn::Clock::now(); st = sends ? c.s->send_raw(data.data(), data.size(), at) : c.s->receive_raw(b, sizeof b, n); ms = vn::ms_since(t0); }, [&]{ c.s->shutdown(); }, (int)first + MARGIN);
        if(!ended) { vh::violation("timeout-ignored", what); return; }
        VH_CHECK(st == St::Timeout && ms >= first - TICK, "not-a-timeout", what, ": ", fr::Socket::status_to_string(st), " after ", ms, " ms");
    }
    for(size_t a = rng.below(3); a > 0; a--) { uint32_t t = rng.pick({1u, 30u, 0u, 500u, 4000000u}); what += vh::cat(", then ", t); set(t); }
    if(rng.coin()) { c.s->set_blocking(false); c.s->set_blocking(true); }
    if(rng.coin()) { if(sends) c.s->set_receive_timeout(20); else c.s->set_send_timeout(20); what += " (and 20 ms for the other way)"; }
    what += vh::cat(", then ", last);
    set(last);
    VH_CHECK(get() == last, "timeout-value", what, ": ", get());
    // It takes longer than the first was
    std::atomic<bool> fed{false};
    std::thread th([&]{
        std::this_thread::sleep_for(milliseconds(first + 60));
        fed = true;
        if(sends) arrived = c.take(data.size(), 40000);
        else c.feed("x");
    });
    St st = sends ? c.s->send_raw(data.data(), data.size(), at) : c.s->receive_raw(b, sizeof b, n);
    const bool was = fed;
    th.join();
    VH_CHECK(was, "timeout-outlives-change", what, ": ", fr::Socket::status_to_string(st), " before anything could be ", sends ? "sent" : "received");
    if(was) VH_CHECK(st == St::Success, "timeout-outlives-change", what, ": ", fr::Socket::status_to_string(st));
    if(was && sends) VH_CHECK(arrived == data, "sent-differs", what, ": ", arrived.size(), " of ", data.size());
    vh::count("timeouts changed");
    vh::distinct(vh::mix(index));
}

VH_SECTION_X(non_blocking, 420, 6000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(rng.coin()) c.s->set_receive_timeout((uint32_t)rng.pick({1, 50, 60000}));
    if(!c.open(k.w)) return;
    if(rng.coin()) c.s->set_send_timeout(20000);
    c.settle();
    if(c.s->set_blocking(false) != St::Success) { vh::violation("set-blocking-failed", c.name); return; }
    Receiver r((How)rng.below(HOWS), k.w == Connect);
    const std::string what = vh::cat(HOW[r.how], " by a non-blocking ", c.name);
    for(int a = 0; a < 3; a++)
    {
        St st = St::Unknown;
        double ms = 0;
        bool ended = ends([&]{ auto b = vn::Clock::now(); st = r(*c.s); ms = vn::ms_since(b); }, [&]{ c.feed(r.message()); }, MARGIN);
        VH_CHECK(ended, "non-blocking-waits", what, ": ", ms, " ms");
        if(!ended) return;
        VH_CHECK(st == St::WouldBlock, "not-would-block", what, ": ", fr::Socket::status_to_string(st));
        if(r.how == Raw) VH_CHECK(r.got == 0, "received-count", what, ": ", r.got);
    }
    c.feed(r.message());
    St st = St::WouldBlock;
    for(auto b = vn::Clock::now(); st == St::WouldBlock && vn::ms_since(b) < 10000;) st = r(*c.s);
    VH_CHECK(st == St::Success, "didnt-receive", what, ": ", fr::Socket::status_to_string(st));
    st = r(*c.s);
    VH_CHECK(st == St::WouldBlock, "not-would-block", what, ", having received everything: ", fr::Socket::status_to_string(st));
    // Blocking again
    c.s->set_blocking(true);
    c.s->set_receive_timeout(0);
    std::atomic<bool> fed{false};
    Receiver r2(r.how, k.w == Connect);
    std::thread th([&]{ std::this_thread::sleep_for(milliseconds(30)); fed = true; c.feed(r2.message()); });
    st = r2(*c.s);
    bool was = fed;
    th.join();
    VH_CHECK(was && st == St::Success, "didnt-wait", what, ", once blocking again: ", fr::Socket::status_to_string(st));
    vh::count("non-blocking receives");
    vh::distinct(vh::mix(index));
}

// The mode reported is the one in effect
VH_SECTION_X(modes, 700, 12000, false, 120)
{
    const Type t = index % 4 == 3 ? Tls : index % 4 == 2 ? Ws : Tcp;
    Conn c(t);
    std::string history;
    vn::HookScope h;
    const int steps = 6 + (int)rng.below(14);
    for(int a = 0; a < steps; a++)
    {
        switch(rng.below(6))
        {
            case 0: case 1:
            {
                Way w = t == Tcp ? (Way)rng.below(3) : (Way)rng.below(2);
                history += vh::cat(WAYS[w], ", ");
                if(!c.open(w)) return;
                if(w != Adopt)
                {
                    VH_CHECK(c.s->get_blocking(), "not-blocking-at-first", TYPES[t], " socket: ", history);
                    VH_CHECK(actually_blocking(c.fd()), "not-blocking-at-first", TYPES[t], " socket, descriptor: ", history);
                }
                vh::count("connections with a mode");
                break;
            }
            case 2: case 3:
            {
                bool b = rng.coin(), up = c.s->connected();
                history += vh::cat("set_blocking(", b, "), ");
                St st = c.s->set_blocking(b);
                VH_CHECK((st == St::Success) == up, "set-blocking-status", TYPES[t], " socket: ", history, " ", (int)st);
                if(up) VH_CHECK(c.s->get_blocking() == b, "set-blocking-ignored", TYPES[t], " socket: ", history);
                vh::count("modes set");
                break;
            }
            case 4:
                if(t == Tls || !c.s->connected()) break;
                // Fails
                {
                    bool injected = false, b = rng.coin();
                    h->fail = [&](const char *n, int, int &e) { if(strcmp(n, "fcntl")) return false; injected = true; e = EPERM; return true; };
                    St st = c.s->set_blocking(b);
                    h->fail = nullptr;
                    if(injected) { history += vh::cat("set_blocking(", b, ") failing, "); VH_CHECK(st != St::Success, "set-blocking-status", TYPES[t], " socket: ", history, " ", (int)st); vh::count("modes not set"); }
                }
                break;
            case 5:
                history += rng.coin() ? "disconnect, " : "failed connect, ";
                if(history.compare(history.size() - 6, 4, "nect") == 0 && history.find("failed") != std::string::npos && rng.coin()) c.s->connect("127.0.0.1", "1", std::chrono::seconds(2));
                else c.s->disconnect();
                break;
        }
        if(c.s->connected()) VH_CHECK(c.s->get_blocking() == actually_blocking(c.fd()), "mode-differs", TYPES[t], " socket reports ", c.s->get_blocking() ? "" : "non-", "blocking: ", history);
        vh::count("modes compared");
    }
    vh::distinct(vh::hash_str(history) + t);
}

// An adopted descriptor keeps its mode, whichever it is
VH_SECTION(adopted_modes, 40, 400)
{
    auto p = vn::tcp_pair();
    const bool nb = rng.coin();
    if(nb) __real_fcntl(p.first.fd, F_SETFL, __real_fcntl(p.first.fd, F_GETFL, 0) | O_NONBLOCK);
    fr::TcpSocket s;
    int fd = p.first.release();
    s.set_descriptor(&fd);
    VH_CHECK(s.get_blocking() == actually_blocking(fd), "mode-differs", "adopted descriptor, ", nb ? "non-" : "", "blocking");
    const bool to = rng.coin();
    s.set_blocking(to);
    VH_CHECK(s.get_blocking() == to && actually_blocking(fd) == to, "mode-differs", "adopted descriptor, then set to ", to);
    vh::count("adopted modes");
    vh::distinct(vh::mix(index));
}

// A send that can't proceed says how far it got
VH_SECTION_X(stalled_sends, 210, 3000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    const bool blocking = rng.coin(), before = rng.coin();
    const bool second = blocking && rng.chance(1, 6); // of seconds and a part of one
    const uint32_t t = (uint32_t)(second ? rng.pick({999, 1000, 1001, 1100, 2050}) : rng.range(20, 120));
    // The other way's timeout is another
    const uint32_t receive_timeout = rng.pick({0u, 0u, 1250u, 3000u, 60000u, 7200000u});
    const bool other = rng.coin(), other_first = rng.coin();
    auto set = [&]{
        if(other && other_first) c.s->set_receive_timeout(receive_timeout);
        if(blocking) c.s->set_send_timeout(t);
        if(other && !other_first) c.s->set_receive_timeout(receive_timeout);
    };
    if(before) set();
    if(!c.open(k.w)) return;
    if(!before) set();
    if(blocking) VH_CHECK(c.s->get_send_timeout() == t, "timeout-value", "send timeout: ", c.s->get_send_timeout(), " rather than ", t);
    c.settle();
    const bool small = rng.chance(15, 16);
    if(small) { int b = rng.pick({20000, 65536}); vn::buffers(c.fd(), b); vn::buffers(c.peer_fd(), b); }
    if(!blocking) c.s->set_blocking(false);
    const std::string data = pattern((small ? 1000000 : 24u << 20) + rng.below(5000), index);
    const std::string what = vh::cat("send by a ", blocking ? "" : "non-", "blocking ", c.name, blocking ? vh::cat(" with a timeout of ", t, " ms") : "", other ? vh::cat(" (and one for receiving of ", receive_timeout, ")") : "");
    size_t at = 0;
    std::string arrived;
    const int rounds = 1 + (second ? 0 : (int)rng.below(4));
    for(int round = 0; round < rounds; round++)
    {
        St st = St::Unknown;
        double ms = 0;
        const bool own_count = rng.coin(); // continues with the same count, or with what is left
        size_t n = own_count ? at : 0;
        bool ended = ends([&]{ auto b = vn::Clock::now(); st = own_count ? c.s->send_raw(data.data(), data.size(), n) : c.s->send_raw(data.data() + at, data.size() - at, n); ms = vn::ms_since(b); },
                          [&]{ c.s->shutdown(); }, (int)t + MARGIN * 2);
        size_t now = own_count ? n : at + n;
        if(!ended) { vh::violation(blocking ? "timeout-ignored" : "non-blocking-waits", vh::cat(what, " took ", ms, " ms")); return; }
        if(st == St::Success && round && now == data.size()) { at = now; break; } // there was room for the rest
        VH_CHECK(st == (blocking ? St::Timeout : St::WouldBlock), "send-status", what, ": ", fr::Socket::status_to_string(st), ", ", now, " bytes sent");
        if(blocking) VH_CHECK(ms >= t - TICK, "timeout-early", what, " took ", ms, " ms");
        VH_CHECK(now >= at && now <= data.size(), "sent-count", what, ": ", now, " after ", at);
        if(now < at || now > data.size() || st == St::Success) return;
        at = now;
        vh::count("stalled sends");
        if(second) vh::count("stalled for seconds");
        // All of it, or some
        const bool all = rng.coin() || round + 1 == rounds;
        arrived += c.take(all ? at - arrived.size() : 1 + rng.below(at - arrived.size()), 40000);
        if(all)
        {
            if(arrived.size() < at) { vh::violation("sent-count", vh::cat(what, " counted ", at, " bytes, of which ", arrived.size(), " arrived")); return; }
            std::string more = round + 1 == rounds ? c.take(1, 100) : "";
            if(!more.empty()) { vh::violation("sent-count", vh::cat(what, " counted ", at, " bytes, but more arrived")); return; }
        }
        if(arrived != data.substr(0, arrived.size())) { vh::violation("sent-differs", what); return; }
    }
    VH_CHECK(c.s->connected(), "send-changes-state", what);
    // And is completed, now that it's read
    if(rng.coin())
    {
        std::thread reader([&]{ arrived += c.take(data.size() - arrived.size(), 40000); });
        St st = St::Unknown;
        size_t n = at;
        if(blocking) c.s->set_send_timeout(20000);
        auto b = vn::Clock::now();
        do
        {
            st = c.s->send_raw(data.data(), data.size(), n);
            pollfd p{c.fd(), POLLOUT, 0};
            if(st == St::WouldBlock) __real_poll(&p, 1, 20);
        } while(!blocking && st == St::WouldBlock && vn::ms_since(b) < 40000);
        reader.join();
        VH_CHECK(st == St::Success && n == data.size(), "send-not-completed", what, ": ", fr::Socket::status_to_string(st));
        VH_CHECK(arrived == data, "sent-differs", what, ", once completed: ", arrived.size(), " of ", data.size());
        vh::count("sends completed");
    }
    vh::distinct(vh::mix(index));
}

// Released from elsewhere
VH_SECTION_X(shutdowns, 280, 4000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    c.settle();
    if(rng.chance(1, 4)) c.s->set_receive_timeout(100000);
    Receiver r((How)rng.below(HOWS), k.w == Connect);
    const std::string what = vh::cat(HOW[r.how], " by a ", c.name);
    const int delay = rng.pick({0, 1, 10, 40});
    St st = St::Unknown;
    std::thread th([&]{ std::this_thread::sleep_for(milliseconds(delay)); c.s->shutdown(); });
    double ms = 0;
    auto b = vn::Clock::now();
    bool ended = ends([&]{ st = r(*c.s); ms = vn::ms_since(b); }, [&]{ c.hang_up(); }, delay + MARGIN);
    th.join();
    VH_CHECK(ended, "shutdown-doesnt-release", what, " returned ", fr::Socket::status_to_string(st), " after ", ms, " ms");
    if(ended) VH_CHECK(st != St::Success && st != St::Timeout && st != St::WouldBlock, "shutdown-status", what, ": ", fr::Socket::status_to_string(st));
    vh::count("receives released");
    vh::distinct(vh::mix(index * 10 + r.how));
}
VH_SECTION_X(shut_listeners, 120, 1500, false, 120)
{
    std::shared_ptr<fr::Listener> l;
    std::shared_ptr<fr::Socket> s;
    const int type = (int)(index % 3);
    static auto context = vt::context();
    if(type == Tls) { l = vt::listener(); s = std::make_shared<fr::SSLSocket>(context); }
    else { l = std::make_shared<fr::TcpListener>(); if(type == Ws) s = std::make_shared<Web>(); else s = std::make_shared<fr::TcpSocket>(); }
    l->set_inet_version(rng.pick({fr::Socket::IP::v4, fr::Socket::IP::v6, fr::Socket::IP::any}));
    if(l->listen("0") != St::Success) vn::broken("listen");
    const int delay = rng.pick({0, 1, 10, 40});
    const int listening_on = l->get_socket_descriptor(), port = vn::port_of(listening_on);
    std::thread th([&]{ std::this_thread::sleep_for(milliseconds(delay)); l->shutdown(); });
    St st = St::Unknown;
    double ms = 0;
    auto b = vn::Clock::now();
    const int fd = listening_on;
    bool ended = ends([&]{ try { st = l->accept(*s); } catch(const std::exception &) {} ms = vn::ms_since(b); }, [&]{ for(int f : {AF_INET, AF_INET6}) vn::dial((uint16_t)port, f); }, delay + MARGIN);
    th.join();
    VH_CHECK(ended, "shutdown-doesnt-release", "accept from a ", TYPES[type], " listener returned after ", ms, " ms");
    VH_CHECK(st != St::Success && !s->connected(), "shutdown-status", "accept from a ", TYPES[type], " listener: ", (int)st);
    // That's not closing it
    VH_CHECK(l->connected() && l->get_socket_descriptor() == fd && __real_fcntl(fd, F_GETFD) >= 0 && vn::port_of(fd) == port, "shutdown-closes", "a ", TYPES[type], " listener has descriptor ", l->get_socket_descriptor(), " rather than ", fd);
    vh::count("accepts released");
    vh::distinct(vh::mix(index));
}

// Nobody waits. It's still there.
VH_SECTION_X(shut_idle, 120, 1500, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    c.settle();
    if(rng.coin()) c.s->set_blocking(false);
    const int fd = c.fd();
    c.s->shutdown();
    VH_CHECK(c.s->connected() && c.fd() == fd && __real_fcntl(fd, F_GETFD) >= 0, "shutdown-closes", "a ", c.name, " has descriptor ", c.fd(), " rather than ", fd);
    Receiver r((How)rng.below(HOWS), k.w == Connect);
    St st = St::Unknown;
    bool ended = ends([&]{ st = r(*c.s); }, [&]{ c.hang_up(); }, MARGIN);
    VH_CHECK(ended && st != St::Success && st != St::Timeout && st != St::WouldBlock, "shutdown-status", HOW[r.how], " by a ", c.name, " which was shut down: ", fr::Socket::status_to_string(st));
    c.s->disconnect();
    VH_CHECK(!c.s->connected(), "shutdown-state", "a ", c.name, " which was shut down and disconnected is connected");
    vh::count("shut down while idle");
    vh::distinct(vh::mix(index * 10 + r.how));
}
