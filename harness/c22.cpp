// C22: an event-driven HTTP service, written as in the examples, answers every request exactly once
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <condition_variable>
#include <memory>
#include <queue>
using vh::Rng;
typedef fr::Socket::Status St;
using std::chrono::milliseconds;

#define PATIENCE vh::patience(30000) // ms, within which an answer has to arrive
static const char *const METHODS[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
static const unsigned CODES[] = {200, 201, 404, 500, 302};

// What a request says, and what the answer to it has to be
struct Ask
{
    std::string client, token, method, path, query_key, query_value, header, body;
    size_t want = 0;
};
static std::string filler(const std::string &token, size_t n)
{
    uint64_t h = vh::hash_str(token);
    std::string s(n, '\0');
    for(size_t a = 0; a < n; a++) { if(!(a & 7)) h = vh::mix(h); s[a] = (char)(h >> (8 * (a & 7))); }
    return s;
}
static std::string answer_body(const Ask &a) { return vh::cat(a.method, " ", a.path, " ", a.query_value, " ", a.header, " ", vh::hash_str(a.body), "/", a.body.size(), "\n") + filler(a.token, a.want); }
static unsigned answer_code(const Ask &a) { return CODES[vh::hash_str(a.token) % 5]; }

static Ask random_ask(Rng &r, const std::string &client, unsigned number, bool slow)
{
    Ask a;
    a.client = client;
    a.token = vh::cat(client, ".", number, ".", r.u64());
    a.method = METHODS[r.below(5)];
    a.path = "/" + r.from("abcdefgh/.-_", r.below(20));
    a.query_value = r.from("abcxyz019", r.below(12));
    a.header = "h" + r.from("abc def:;,=", r.below(30)) + "e";
    if(a.method != "GET" && r.chance(3, 4)) a.body = r.bytes(slow ? r.below(40) : r.chance(1, 10) ? r.below(60000) : r.below(3000));
    a.want = r.chance(1, 15) ? r.below(300000) : r.chance(1, 3) ? r.below(5000) : r.below(50);
    return a;
}
static std::string cased(Rng &r, std::string s) { if(r.coin()) for(auto &c : s) c = r.coin() ? (char)toupper(c) : (char)tolower(c); return s; }
static std::string request_text(Rng &r, const Ask &a)
{
    std::string s = a.method + " " + a.path + (a.query_value.empty() && r.coin() ? "" : "?v=" + a.query_value) + " HTTP/1.1\r\n";
    std::vector<std::string> h = {cased(r, "X-Token") + ": " + a.token, cased(r, "X-Client") + ": " + a.client, cased(r, "X-Want") + ": " + std::to_string(a.want), cased(r, "X-Header") + ": " + a.header, cased(r, "Host") + ": somewhere"};
    if(!a.body.empty() || r.coin()) h.push_back(cased(r, "Content-Length") + ": " + std::to_string(a.body.size()));
    for(size_t x = h.size(); x > 1; x--) std::swap(h[x - 1], h[r.below(x)]);
    for(auto &x : h) s += x + "\r\n";
    s += "\r\n";
    return s + a.body;
}

// ---- the service ----
struct Log
{
    std::mutex m;
    std::map<std::string, int> answered;   // by token
    std::atomic<uint64_t> requests{0}, accepted{0}, dropped{0}, refused{0};
};
struct Session
{
    std::string client;  // who's using it
    fr::HttpRequest partial_request;
    unsigned number = 0;
};
struct Service
{
    enum Shape { Simple, Pool, Several };
    Shape shape;
    bool tls;
    uint64_t seed;
    unsigned faults;
    Log &log;
    std::string port = "0";
    std::vector<std::shared_ptr<fr::Listener>> listeners;
    std::vector<std::thread> loops, workers;
    std::atomic<bool> running{true};
    std::atomic<uint64_t> leftover{0};
    std::mutex m;
    std::condition_variable cv;
    std::queue<std::pair<std::shared_ptr<fr::Socket>, fr::HttpRequest>> jobs;
    std::shared_ptr<fr::SSLContext> context;

    Service(Shape s, bool t, uint64_t se, unsigned f, Log &l) : shape(s), tls(t), seed(se), faults(f), log(l)
    {
        if(tls) { static auto c = vt::context(); context = c; }
        for(int a = 0; a < (shape == Several ? 3 : 1); a++)
        {
            std::shared_ptr<fr::Listener> x;
            if(tls) x = vt::listener();
            else x = std::make_shared<fr::TcpListener>();
            x->set_inet_version(fr::Socket::IP::v4);
            if(x->listen(port) != St::Success) vn::broken("listen");
            port = std::to_string(vn::port_of(x->get_socket_descriptor()));
            listeners.push_back(x);
        }
        if(shape == Pool) for(int a = 0; a < 2; a++) workers.emplace_back([this, a]{ work(a); });
        for(size_t a = 0; a < listeners.size(); a++) loops.emplace_back([this, a]{ loop(a); });
    }
    ~Service() { stop(); }
    void stop()
    {
        running = false;
        for(auto &t : loops) if(t.joinable()) t.join();
        cv.notify_all();
        for(auto &t : workers) if(t.joinable()) t.join();
    }
    void disturb(Rng &r)
    {
        auto &h = vn::hook();
        h.reset();
        if(!faults) return;
        h.on = true;
        h.rng = &r;
        h.eintr_pct = 4; h.again_pct = 4; h.short_pct = faults > 1 ? 60 : 15; h.max_chunk = faults > 1 ? 300 : 30;
        h.fail = [&r](const char *call, int, int &err) {
            if(!strcmp(call, "epoll_wait") && r.chance(1, 30)) { err = EINTR; return true; }
            if(!strcmp(call, "accept") && r.chance(1, 30)) { err = r.pick({ECONNABORTED, EINTR, EMFILE}); return true; }
            return false;
        };
    }
    void answer(const std::shared_ptr<fr::Socket> &client, fr::HttpRequest request)
    {
        Ask a;
        a.token = request.header("x-token");
        a.client = request.header("x-client");
        switch(request.get_type())
        {
            case fr::Http::RequestType::Get: a.method = "GET"; break;
            case fr::Http::RequestType::Post: a.method = "POST"; break;
            case fr::Http::RequestType::Put: a.method = "PUT"; break;
            case fr::Http::RequestType::Delete: a.method = "DELETE"; break;
            case fr::Http::RequestType::Patch: a.method = "PATCH"; break;
            default: a.method = "?";
        }
        a.path = request.get_uri();
        a.query_value = request.get_exists("v") ? request.get("v") : "";
        a.header = request.header("x-header");
        a.body = request.get_body();
        a.want = std::min<size_t>(strtoull(request.header("x-want").c_str(), nullptr, 10), 1000000);
        { std::lock_guard<std::mutex> l(log.m); log.answered[a.token]++; }
        log.requests++;
        fr::HttpResponse response;
        response.set_status((fr::Http::RequestStatus)answer_code(a));
        response.header("X-Token") = a.token;
        response.set_body(answer_body(a));
        client->send(response);
    }
    void work(int number)
    {
        Rng r(seed + 100 + (uint64_t)number);
        disturb(r);
        for(;;)
        {
            std::pair<std::shared_ptr<fr::Socket>, fr::HttpRequest> job;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait_for(l, milliseconds(50), [&]{ return !jobs.empty(); });
                if(jobs.empty()) { if(!running) return; continue; }
                job = std::move(jobs.front());
                jobs.pop();
            }
            answer(job.first, std::move(job.second));
        }
    }
    // As in examples/concurrent_http_server
    void loop(size_t which)
    {
        Rng r(seed + which);
        disturb(r);
        auto listener = listeners[which];
        std::set<Session*> sessions;
        fr::SocketSelector selector;
        selector.add(listener, nullptr);
        auto drop = [&](const std::shared_ptr<fr::Socket> &client) {
            auto *s = static_cast<Session*>(selector.remove(client));
            if(!sessions.erase(s)) vh::violation("opaque", "the session removed isn't one");
            delete s;
            log.dropped++;
        };
        while(running)
        {
            auto ready = selector.wait(milliseconds(20));
            for(auto &socket : ready)
            {
                if(socket.first->get_socket_descriptor() == listener->get_socket_descriptor())
                {
                    std::shared_ptr<fr::Socket> client;
                    if(tls) client = std::make_shared<fr::SSLSocket>(context);
                    else client = std::make_shared<fr::TcpSocket>();
                    if(listener->accept(*client) == St::Success)
                    {
                        client->set_blocking(false);
                        auto *s = new Session;
                        sessions.insert(s);
                        selector.add(client, s);
                        log.accepted++;
                    }
                    continue;
                }
                auto client = std::static_pointer_cast<fr::Socket>(socket.first);
                auto *session = static_cast<Session*>(socket.second);
                if(!sessions.count(session)) { vh::violation("opaque", "the session reported isn't one"); continue; }
                char data[0x1000];
                for(;;)
                {
                    size_t received = 0;
                    auto status = client->receive_raw(data, sizeof data, received);
                    if(status == St::Success)
                    {
                        auto parsed = session->partial_request.parse(data, received);
                        if(parsed == St::Success)
                        {
                            // One connection's data belongs to one client
                            const std::string who = session->partial_request.header("x-client");
                            if(session->number++ == 0) session->client = who;
                            else if(session->client != who) vh::violation("cross-talk", vh::cat("a request of ", vh::show(who), " on the connection of ", vh::show(session->client)));
                            if(shape == Pool)
                            {
                                std::lock_guard<std::mutex> l(m);
                                jobs.emplace(client, std::move(session->partial_request));
                                cv.notify_one();
                            }
                            else answer(client, std::move(session->partial_request));
                            session->partial_request = fr::HttpRequest();
                        }
                        else if(parsed != St::NotEnoughData) { log.refused++; drop(client); break; }
                    }
                    else if(status == St::WouldBlock) break;
                    else { drop(client); break; }
                    // Of a TLS record there may be more which isn't reported again
                    if(!tls) break;
                }
            }
        }
        leftover += sessions.size();
        for(auto *s : sessions) delete s;
        vn::hook().reset();
    }
};

// ---- clients ----
// A connection of either kind
struct Wire
{
    vn::Fd raw;
    std::unique_ptr<fr::SSLSocket> tls;
    bool dial(const std::string &port, bool secure)
    {
        if(!secure) { raw = vn::dial((uint16_t)atoi(port.c_str())); return raw.fd >= 0; }
        static auto context = vt::context();
        tls.reset(new fr::SSLSocket(context));
        return tls->connect("localhost", port, std::chrono::seconds(30)) == St::Success;
    }
    bool put(const std::string &s) { if(!tls) return vn::write_all(raw.fd, s); size_t n = 0; return tls->send_raw(s.data(), s.size(), n) == St::Success; }
    // empty: nothing in time, or the end
    std::string get(int ms, bool *ended = nullptr)
    {
        if(!tls)
        {
            char b[65536];
            pollfd p{raw.fd, POLLIN, 0};
            if(ended) *ended = false;
            if(__real_poll(&p, 1, ms) <= 0) return "";
            ssize_t n = __real_recv(raw.fd, b, sizeof b, 0);
            if(n <= 0) { if(ended) *ended = true; return ""; }
            return std::string(b, (size_t)n);
        }
        char b[20000];
        size_t n = 0;
        tls->set_receive_timeout((uint32_t)ms);
        St s = tls->receive_raw(b, sizeof b, n);
        if(ended) *ended = s != St::Success && s != St::Timeout;
        return s == St::Success ? std::string(b, n) : "";
    }
    int fd() const { return tls ? tls->get_socket_descriptor() : raw.fd; }
    void gone(bool reset)
    {
        if(reset) { linger l{1, 0}; __real_setsockopt(fd(), SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        raw.reset();
        if(tls) tls->disconnect();
    }
};
// Takes one answer off. An empty string if it's as it should be.
static std::string take_answer(Wire &w, Rng &r, const Ask &a, std::string &rest, bool slow)
{
    std::string s = rest;
    auto begin = vn::Clock::now();
    size_t head = std::string::npos, length = 0;
    for(;;)
    {
        if(head == std::string::npos && (head = s.find("\r\n\r\n")) != std::string::npos)
        {
            head += 4;
            std::string low = s.substr(0, head);
            for(auto &c : low) c = (char)tolower(c);
            size_t p = low.find("content-length:");
            if(p == std::string::npos) return "has no length: " + vh::show(low);
            length = strtoull(low.c_str() + p + 15, nullptr, 10);
        }
        if(head != std::string::npos && s.size() >= head + length) break;
        bool ended = false;
        std::string more = w.get(PATIENCE, &ended);
        if(ended) return vh::cat("ends after ", s.size(), " bytes");
        if(more.empty() || vn::ms_since(begin) > 2 * PATIENCE) return vh::cat("doesn't arrive within ", vn::ms_since(begin), " ms (", s.size(), " bytes did)");
        s += more;
        if(slow && r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
    }
    rest = s.substr(head + length);
    const std::string line = s.substr(0, s.find("\r\n"));
    if(line.compare(0, 9, "HTTP/1.1 ") != 0 || (unsigned)atoi(line.c_str() + 9) != answer_code(a)) return "begins with " + vh::show(line) + " instead of " + std::to_string(answer_code(a));
    std::string low = s.substr(0, head);
    for(auto &c : low) c = (char)tolower(c);
    if(low.find("x-token: " + a.token + "\r\n") == std::string::npos) return "is for another request: " + vh::show(s.substr(0, head), 300);
    if(s.compare(head, length, answer_body(a)) != 0) return "is wrong: " + vh::show(s.substr(head, 200)) + " instead of " + vh::show(answer_body(a).substr(0, 200));
    return "";
}
enum Manner { Proper, Slow, Library, HalfSent, HalfSilent, Malformed, Unread, Hasty, Idle, MANNERS };
static const char *const MANNER[] = {"proper", "slow", "using the library", "leaving a request unfinished", "silent within a request", "malformed", "leaving without reading", "leaving at once", "idle"};

struct Crowd
{
    Service &s;
    Log &log;
    uint64_t seed;
    std::atomic<uint64_t> served{0};
    std::mutex m;
    std::map<std::string, int> once, at_most_once; // tokens of requests which are answered once, and of ones whose client doesn't wait
    std::vector<Wire> linger;                      // connections which stay until the end

    Crowd(Service &x, Log &l, uint64_t se) : s(x), log(l), seed(se) {}
    void send_in_pieces(Wire &w, Rng &r, const std::string &t, bool slow)
    {
        size_t at = 0;
        const unsigned style = (unsigned)r.below(4);
        while(at < t.size())
        {
            size_t n = style == 0 && !slow ? t.size() - at : style == 1 ? 1 + r.below(7) : 1 + r.below(std::min<size_t>(t.size(), 2000));
            if(at > 400) n += r.below(t.size());
            n = std::min(n, t.size() - at);
            if(!w.put(t.substr(at, n))) return;
            at += n;
            if(slow || r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(slow ? 3000 : 200)));
        }
    }
    void client(unsigned number, Manner how)
    {
        Rng r(seed ^ vh::mix(number));
        const std::string me = vh::cat("c", number);
        Wire w;
        if(!w.dial(s.port, s.tls))
        {
            // The TLS server may be busy with somebody who has left
            vh::violation("not-served", vh::cat("a client can't connect (", MANNER[how], ", ", s.tls ? "TLS" : "plain", ")"));
            return;
        }
        const std::string what = vh::cat("client ", number, " (", MANNER[how], s.tls ? ", TLS" : "", s.shape == Service::Pool ? ", workers" : s.shape == Service::Several ? ", several loops" : "", ")");
        std::string rest;
        unsigned requests = (unsigned)r.range(1, how == Slow ? 3 : 8);
        if(how == Library && !s.tls)
        {
            fr::TcpSocket t;
            w.raw.reset();
            if(t.connect("127.0.0.1", s.port, std::chrono::seconds(30)) != St::Success) { vh::violation("not-served", what); return; }
            t.set_receive_timeout(PATIENCE);
            for(unsigned a = 0; a < requests; a++)
            {
                Ask q = random_ask(r, me, a, false);
                { std::lock_guard<std::mutex> l(m); once[q.token] = 1; }
                fr::HttpRequest x;
                x.set_type(q.method == "GET" ? fr::Http::RequestType::Get : q.method == "POST" ? fr::Http::RequestType::Post : q.method == "PUT" ? fr::Http::RequestType::Put : q.method == "DELETE" ? fr::Http::RequestType::Delete : fr::Http::RequestType::Patch);
                x.set_uri(q.path);
                x.get("v") = q.query_value;
                x.header("X-Token") = q.token; x.header("X-Client") = q.client; x.header("X-Want") = std::to_string(q.want); x.header("X-Header") = q.header;
                x.set_body(q.body);
                St st = t.send(x);
                fr::HttpResponse y;
                if(st == St::Success) st = t.receive(y);
                if(st != St::Success) { vh::violation("no-answer", vh::cat(what, ": ", fr::Socket::status_to_string(st))); return; }
                if((unsigned)y.get_status() != answer_code(q) || y.header("x-token") != q.token || y.get_body() != answer_body(q)) { vh::violation("wrong-answer", vh::cat(what, " to request ", a, ": ", (unsigned)y.get_status(), " ", vh::show(y.header("x-token")), " ", vh::show(y.get_body()))); return; }
                served++;
            }
            vh::count("clients using the library");
            return;
        }
        if(how == Idle) { std::lock_guard<std::mutex> l(m); linger.push_back(std::move(w)); return; }
        if(how == Hasty) { w.gone(r.coin()); return; }
        if(how == HalfSent || how == HalfSilent || how == Malformed || how == Unread) requests = (unsigned)r.below(3);
        for(unsigned a = 0; a < requests; a++)
        {
            Ask q = random_ask(r, me, a, how == Slow);
            { std::lock_guard<std::mutex> l(m); once[q.token] = 1; }
            send_in_pieces(w, r, request_text(r, q), how == Slow);
            std::string wrong = take_answer(w, r, q, rest, how == Slow);
            if(!wrong.empty()) { vh::violation(wrong.find("arrive") != std::string::npos || wrong.find("ends") != std::string::npos ? "no-answer" : "wrong-answer", vh::cat("the answer to request ", a, " (", q.method, ", ", q.body.size(), " bytes, wants ", q.want, ") of ", what, " ", wrong)); return; }
            if(!rest.empty()) { vh::violation("more-than-one-answer", vh::cat(what, ": ", vh::show(rest))); return; }
            served++;
        }
        Ask q = random_ask(r, me, requests, false);
        std::string t = request_text(r, q);
        switch(how)
        {
            case HalfSent: { t.resize(r.below(t.size())); send_in_pieces(w, r, t, false); w.gone(r.coin()); break; }
            case HalfSilent: { t.resize(r.below(t.size())); send_in_pieces(w, r, t, false); std::lock_guard<std::mutex> l(m); linger.push_back(std::move(w)); break; }
            case Malformed:
            {
                t = r.pick<std::string>({"BREW /pot HTTP/1.1\r\n\r\n", "GET /\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 12x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "\x16\x03\x01\x02\r\n\r\n", "GET / HTTP/1.1\r\nX: " + std::string(5000, 'x')});
                if(t.size() > 5000) { while(t.size() < 2000000) t += t; }
                send_in_pieces(w, r, t, false);
                bool ended = false;
                std::string got;
                auto b = vn::Clock::now();
                while(!ended && vn::ms_since(b) < PATIENCE) got += w.get(1000, &ended);
                if(!ended) vh::violation("malformed-kept", vh::cat(what, ": ", vh::show(t)));
                if(!got.empty()) vh::violation("malformed-answered", vh::cat(what, ": ", vh::show(t), " gets ", vh::show(got)));
                break;
            }
            case Unread:
            {
                q.want = r.coin() ? 400000 : 100;
                t = request_text(r, q);
                { std::lock_guard<std::mutex> l(m); at_most_once[q.token] = 1; }
                send_in_pieces(w, r, t, false);
                if(r.coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
                if(r.coin()) w.get(50);
                w.gone(r.coin());
                break;
            }
            default:
            {
                // Nothing more comes
                if(w.tls) { w.gone(false); break; }
                __real_shutdown(w.raw.fd, SHUT_WR);
                bool ended = false;
                std::string got;
                auto b = vn::Clock::now();
                while(!ended && vn::ms_since(b) < PATIENCE) got += w.get(1000, &ended);
                if(!got.empty()) vh::violation("more-than-one-answer", vh::cat(what, ": ", vh::show(got)));
                if(!ended) vh::violation("not-closed", what);
            }
        }
        vh::count(vh::cat("clients: ", MANNER[how]));
    }
};

static void service(Rng &rng, bool tls, unsigned most)
{
    Log log;
    // Sending and receiving on one TLS connection from two threads isn't supported, so no workers there
    const auto shape = tls ? rng.pick({Service::Simple, Service::Several}) : (Service::Shape)rng.below(3);
    Service s(shape, tls, rng.fork(), (unsigned)rng.below(3), log);
    Crowd c(s, log, rng.fork());
    const unsigned clients = (unsigned)rng.range(4, most);
    std::vector<std::pair<unsigned, Manner>> who;
    for(unsigned a = 0; a < clients; a++)
    {
        Manner m = rng.coin() ? rng.pick({Proper, Slow, Library}) : (Manner)rng.below(MANNERS);
        // TLS handshakes are waited for, so nobody may leave during them
        if(tls && m == Hasty) m = Proper;
        who.emplace_back(a, m);
    }
    // Most of them at once
    std::vector<std::thread> t;
    std::atomic<size_t> next{0};
    const size_t threads = std::min<size_t>(clients, rng.pick<size_t>({2, 12, 40, 80}));
    for(size_t a = 0; a < threads; a++)
        t.emplace_back([&]{ for(;;) { size_t n = next++; if(n >= who.size()) return; c.client(who[n].first, who[n].second); } });
    for(auto &x : t) x.join();
    // It's still there, and so are those which have been silent
    c.client(clients, Proper);
    for(auto &w : c.linger) { char b; if(__real_recv(w.fd(), &b, 1, MSG_DONTWAIT | MSG_PEEK) == 0) vh::violation("idle-disconnected", "a connection which just was silent was closed"); }
    // Everybody else is let go of
    auto b = vn::Clock::now();
    while(log.accepted - log.dropped > c.linger.size() && vn::ms_since(b) < PATIENCE) std::this_thread::sleep_for(milliseconds(2));
    const uint64_t open = log.accepted - log.dropped;
    s.stop();
    if(open != c.linger.size()) vh::violation("sessions", vh::cat(open, " sessions instead of the ", c.linger.size(), " of clients which are still there"));
    for(auto &x : log.answered)
    {
        const bool known = c.once.count(x.first) || c.at_most_once.count(x.first);
        if(!known) vh::violation("cross-talk", vh::cat("a request was received which nobody sent: ", vh::show(x.first)));
        else if(x.second != 1) vh::violation("answered-twice", vh::cat(vh::show(x.first), " was received ", x.second, " times"));
    }
    for(auto &x : c.once) if(!log.answered.count(x.first) && !vh::st().violations) vh::violation("no-answer", "a request was answered without being received");
    vh::count("requests answered", c.served);
    vh::count("connections", log.accepted);
    vh::count("malformed requests refused", log.refused);
    vh::count(vh::cat("services: ", tls ? "TLS, " : "", shape == Service::Simple ? "one loop" : shape == Service::Pool ? "with workers" : "several loops"));
    vh::distinct(rng.u64());
    for(auto &x : log.answered) vh::distinct(vh::hash_str(x.first));
    if(vh::want_sample(tls ? "tls" : "http")) vh::sample(tls ? "tls" : "http", vh::cat(clients, " clients at a ", tls ? "TLS" : "plain", " service: ", c.served, " requests answered on ", log.accepted.load(), " connections, ", log.dropped.load(), " of which ended"));
}
VH_SECTION_X(http, 240, 4000, false, 240) { (void)index; service(rng, false, rng.chance(1, 6) ? 150 : 40); }
VH_SECTION_X(https, 40, 800, false, 240) { (void)index; service(rng, true, 16); }
