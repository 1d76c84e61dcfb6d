// C19: TLS connections authenticate the server and keep data private and intact
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Packet.h>
#include <frnetlib/WebFrame.h>
#include <memory>
using vh::Rng;
typedef fr::Socket::Status St;
using std::chrono::milliseconds;

static std::string random_text(Rng &r, size_t n)
{
    std::string s(n, '\0');
    for(size_t a = 0; a < n; a += 8) { uint64_t v = r.u64(); memcpy(&s[a], &v, std::min<size_t>(8, n - a)); }
    return s;
}

struct Record { unsigned type, version; std::string body; };
// Takes a record off a stream. -1: isn't one, 0: incomplete.
static int take_record(const std::string &s, size_t &at, Record &r)
{
    if(s.size() - at < 5) return 0;
    auto b = [&](size_t n) { return (unsigned)(uint8_t)s[at + n]; };
    r.type = b(0);
    r.version = b(1) << 8 | b(2);
    const size_t n = b(3) << 8 | b(4);
    if(r.type < 20 || r.type > 23 || b(1) != 3 || b(2) > 4 || n > 16384 + 2048) return -1;
    if(s.size() - at < 5 + n) return 0;
    r.body = s.substr(at + 5, n);
    at += 5 + n;
    return 1;
}

// Sits between client and server, and sees what can be seen there
struct Wire
{
    struct Way { std::string seen; bool ended = false; };
    vn::Server server;
    uint16_t target;
    uint64_t seed;
    bool chop;                // splits and delays
    Way up, down;             // client to server, and back
    // Given each record going down once there's encrypted data (numbered from 0), returns what becomes of it
    std::function<std::string(unsigned, const std::string&)> meddle;
    std::mutex m;
    std::thread t;
    std::atomic<bool> stop{false};

    Wire(uint16_t to, uint64_t s, bool c) : target(to), seed(s), chop(c) {}
    ~Wire() { finish(); }
    void start() { t = std::thread([this]{ run(); }); }
    void finish() { stop = true; if(t.joinable()) t.join(); }
    std::string port() const { return server.port_text(); }
    void run()
    {
        Rng r(seed);
        vn::Fd c;
        while(c.fd < 0) { if(stop) return; c = server.accept_within(50); }
        vn::Fd s = vn::dial(target);
        int one = 1;
        __real_setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::string pending_up, pending_down, records;
        unsigned number = 0;
        auto active = vn::Clock::now();
        std::vector<char> b(70000);
        auto put = [&](int fd, std::string &d) {
            if(d.empty()) return;
            size_t n = d.size();
            if(chop && r.chance(3, 4)) n = std::min<size_t>(n, 1 + r.below(r.coin() ? 20 : 3000));
            ssize_t k = __real_send(fd, d.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT);
            if(k > 0) d.erase(0, (size_t)k);
            else if(k < 0 && errno != EAGAIN) d.clear();
        };
        for(;;)
        {
            if(stop && vn::ms_since(active) > (pending_up.empty() && pending_down.empty() ? 40 : 2000)) break;
            pollfd p[2] = {{c.fd, 0, 0}, {s.fd, 0, 0}};
            if(!up.ended && pending_up.size() < 200000) p[0].events |= POLLIN;
            if(!down.ended && pending_down.size() < 200000) p[1].events |= POLLIN;
            if(!pending_down.empty()) p[0].events |= POLLOUT;
            if(!pending_up.empty()) p[1].events |= POLLOUT;
            if(up.ended) p[0].fd = pending_down.empty() ? -1 : c.fd;
            if(down.ended) p[1].fd = pending_up.empty() ? -1 : s.fd;
            __real_poll(p, 2, 20);
            if(chop && r.chance(1, 30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
            for(int w = 0; w < 2; w++)
            {
                Way &way = w ? down : up;
                if(!(p[w].revents & (POLLIN | POLLHUP | POLLERR)) || way.ended) continue;
                ssize_t n = __real_recv(w ? s.fd : c.fd, b.data(), b.size(), MSG_DONTWAIT);
                if(n < 0 && (errno == EAGAIN || errno == EINTR)) continue;
                std::lock_guard<std::mutex> l(m);
                active = vn::Clock::now();
                if(n <= 0) { way.ended = true; continue; }
                way.seen.append(b.data(), (size_t)n);
                if(!w) pending_up.append(b.data(), (size_t)n);
                else if(!meddle) pending_down.append(b.data(), (size_t)n);
                else
                {
                    records.append(b.data(), (size_t)n);
                    size_t at = 0, from = 0;
                    Record rec;
                    while(take_record(records, at, rec) == 1)
                    {
                        std::string whole = records.substr(from, at - from);
                        from = at;
                        pending_down += rec.type == 23 ? meddle(number++, whole) : whole;
                    }
                    records.erase(0, from);
                }
            }
            put(s.fd, pending_up);
            put(c.fd, pending_down);
            if(up.ended && pending_up.empty() && s.fd >= 0) __real_shutdown(s.fd, SHUT_WR);
            if(down.ended && pending_down.empty()) __real_shutdown(c.fd, SHUT_WR);
            if((up.ended && pending_up.empty()) && (down.ended && pending_down.empty())) break;
        }
    }
    // What was seen is TLS and nothing else, and contains none of these
    void judge(const std::string &what, const std::vector<std::string> &secrets, bool may_be_cut, bool data_expected)
    {
        finish();
        for(int w = 0; w < 2; w++)
        {
            const std::string &s = w ? down.seen : up.seen;
            size_t at = 0, data = 0, records = 0;
            Record r;
            int x;
            while((x = take_record(s, at, r)) == 1) { records++; data += r.type == 23; }
            const char *dir = w ? "from the server" : "from the client";
            if(x < 0) { vh::violation("not-tls-on-the-wire", vh::cat(what, ", ", dir, ": ", vh::hex(s.substr(at, 40)))); return; }
            if(at != s.size() && !may_be_cut) { vh::violation("cut-record", vh::cat(what, ", ", dir)); return; }
            if(!w && !data_expected && data) { vh::violation("data-sent-unauthenticated", vh::cat(what, ": ", data, " records")); return; }
            for(auto &t : secrets) if(t.size() >= 8 && s.find(t) != std::string::npos) { vh::violation("plaintext-on-the-wire", vh::cat(what, ", ", dir, ": ", vh::hex(t))); return; }
            vh::count("records seen", records);
            vh::count("bytes seen", s.size());
        }
    }
};

static fr::SSLListener &server_with(const std::string &cert)
{
    static std::map<std::string, std::shared_ptr<fr::SSLListener>> all;
    auto &l = all[cert];
    if(!l) { l = vt::listener(cert); if(l->listen("0") != St::Success) vn::broken("listen"); }
    return *l;
}
static uint16_t port_with(const std::string &cert) { return (uint16_t)vn::port_of(server_with(cert).get_socket_descriptor()); }

struct Cert { const char *name; const char *ca; std::vector<std::string> names; }; // ca: which vouches for it, "" if none can
static const std::vector<Cert> &certs()
{
    static const std::vector<Cert> c = {
        {"good", "ca", {"localhost"}}, {"good2", "ca2", {"localhost"}}, {"rsa", "ca", {"localhost"}}, {"chain", "ca", {"localhost"}},
        {"wrong_host", "ca", {"example.org"}}, {"san_only", "ca", {"example.org"}}, {"near_host", "ca", {"localhos", "localhost.example.org", "xlocalhost"}},
        {"wildcard", "ca", {"*.example.org"}}, {"expired", "", {}}, {"future", "", {}}, {"untrusted", "other_ca", {"localhost"}}, {"selfsigned", "", {}},
        {"notca_chain", "", {}}, {"old_chain", "", {}}, {"forged", "", {}}, {"spoofed", "", {}}};
    return c;
}
static const std::vector<std::string> &hosts()
{
    static const std::vector<std::string> h = {"localhost", "LocalHost", "example.org", "www.example.org", "a.b.example.org", "ocalhost", "localhost.localdomain", "127.0.0.1"};
    return h;
}
static const std::vector<std::vector<std::string>> &ca_sets()
{
    static const std::vector<std::vector<std::string>> s = {{"ca"}, {}, {"other_ca"}, {"ca", "ca2"}, {"ca2", "other_ca", "ca"}, {"ca2"}};
    return s;
}
static std::string lower(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static bool names_match(const std::string &pattern, const std::string &host)
{
    if(pattern.compare(0, 2, "*.")) return lower(pattern) == lower(host);
    size_t dot = host.find('.');
    return dot != std::string::npos && dot > 0 && lower(host.substr(dot)) == lower(pattern.substr(1));
}
static bool acceptable(const Cert &c, const std::vector<std::string> &cas, const std::string &host)
{
    bool trusted = false, named = false;
    for(auto &x : cas) trusted |= x == c.ca;
    for(auto &n : c.names) named |= names_match(n, host);
    return trusted && named;
}
// Loads CAs one way or another
static void load(fr::SSLContext &c, const std::vector<std::string> &cas, Rng &r)
{
    bool ok = true;
    if(r.chance(1, 4)) { std::string all; for(auto &n : cas) all += vt::file(n + ".pem"); if(!all.empty()) ok = c.load_ca_certs_from_memory(all); }
    else for(auto &n : cas)
    {
        switch(r.below(3))
        {
            case 0: ok &= c.load_ca_certs_from_file(vt::path(n + ".pem")); break;
            case 1: ok &= c.load_ca_certs_from_memory(vt::file(n + ".pem")); break;
            default:
            {
                mbedtls_x509_crt x;
                mbedtls_x509_crt_init(&x);
                if(mbedtls_x509_crt_parse_file(&x, vt::path(n + ".pem").c_str())) vn::broken("certificate");
                ok &= c.load_ca_certs_from_memory(std::string((const char*)x.raw.p, x.raw.len));
                mbedtls_x509_crt_free(&x);
            }
        }
    }
    if(!ok) vh::violation("ca-not-loaded", "loading a CA certificate failed");
}

// One connect, by way of a wire
static bool attempt(fr::SSLSocket &c, const Cert &cert, const std::string &host, const std::vector<std::string> &cas, bool verify, Rng &r, const std::string &before = "")
{
    std::string what = vh::cat("connect to '", host, "' with certificate '", cert.name, "', ", verify ? "" : "not ", "verified by {");
    for(auto &x : cas) what += x + " ";
    what += "}" + before;
    const bool expect = !verify || acceptable(cert, cas, host);
    auto &l = server_with(cert.name);
    Wire wire(port_with(cert.name), r.fork(), r.chance(1, 4));
    wire.start();
    static auto sc = vt::context({});
    fr::SSLSocket s(sc);
    std::string got, reply = random_text(r, 24), secret = random_text(r, 24);
    St accepted = St::Unknown;
    std::thread t([&]{
        accepted = l.accept(s);
        if(accepted != St::Success) return;
        s.set_receive_timeout(10000);
        char b[64];
        size_t n = 0;
        while(got.size() < secret.size() && s.receive_raw(b, sizeof b, n) == St::Success) got.append(b, n);
        n = 0;
        if(got.size() >= secret.size()) s.send_raw(reply.data(), reply.size(), n);
    });
    St st = St::Unknown;
    {
        vn::HookScope h;
        h->resolve = [](const char *, const char *service, const addrinfo *hints, addrinfo **res) { addrinfo x = *hints; return __real_getaddrinfo("127.0.0.1", service, &x, res); };
        st = c.connect(host, wire.port(), std::chrono::seconds(20));
    }
    bool ok = true;
    auto fail = [&](const char *key, const std::string &d) { ok = false; vh::violation(key, what + ": " + d); };
    if((st == St::Success) != expect) fail(expect ? "refused" : verify ? "accepted-unauthenticated" : "refused", fr::Socket::status_to_string(st));
    if(c.connected() != (st == St::Success)) fail("connected-after-failure", vh::cat("connected() is ", c.connected()));
    size_t n = 0;
    if(st == St::Success)
    {
        c.set_receive_timeout(10000);
        if(c.send_raw(secret.data(), secret.size(), n) != St::Success) fail("send-failed", "");
        std::string back;
        char b[64];
        while(back.size() < reply.size() && c.receive_raw(b, sizeof b, n) == St::Success) back.append(b, n);
        c.set_receive_timeout(0);
        t.join();
        if(got != secret || back != reply) fail("data-differs", vh::cat(got.size(), " and ", back.size(), " bytes arrived"));
        vh::count(verify ? "authenticated connections" : "unverified connections");
    }
    else
    {
        fr::Packet p(secret, secret);
        if(c.send(p) == St::Success) fail("sent-after-failure", "");
        { std::lock_guard<std::mutex> g(wire.m); if(wire.up.seen.empty()) { wire.stop = true; vn::dial(port_with(cert.name)); } }
        wire.stop = true;
        t.join();
        if(!got.empty()) fail("data-sent-unauthenticated", vh::hex(got));
        vh::count("refused servers");
    }
    s.disconnect();
    if(st == St::Success && r.coin()) c.disconnect();
    wire.stop = true;
    wire.judge(what, {secret, reply, secret.substr(4, 12), reply.substr(4, 12)}, true, st == St::Success);
    vh::distinct(vh::hash_str(what));
    if(vh::want_sample("connect", 3)) vh::sample("connect", what + ": " + fr::Socket::status_to_string(st), 3);
    return ok;
}

// Each certificate, name and set of CAs. 0..767 verified, above not.
VH_SECTION_X(certificates, 960, 1920, false, 120)
{
    const size_t nc = certs().size(), nh = hosts().size(), ns = ca_sets().size();
    uint64_t i = index;
    const Cert &cert = certs()[i % nc];
    i /= nc;
    const std::string &host = hosts()[i % nh];
    i /= nh;
    const bool verify = i < ns;
    const auto &cas = ca_sets()[verify ? i : rng.below(ns)];
    if(!verify && index > nc * nh * (ns + 1) && !vh::thorough()) return;
    auto context = std::make_shared<fr::SSLContext>();
    const bool early = rng.coin();
    if(early) load(*context, cas, rng);
    fr::SSLSocket c(context);
    if(!early) load(*context, cas, rng);
    if(!verify) c.verify_certificates(false);
    else if(rng.chance(1, 4)) { if(rng.coin()) c.verify_certificates(false); c.verify_certificates(true); }
    if(rng.chance(1, 4)) c.set_inet_version(fr::Socket::IP::v4);
    attempt(c, cert, host, cas, verify, rng);
}

// One object, for one connection after another
VH_SECTION_X(reuse, 160, 2400, false, 120)
{
    const auto &cas = ca_sets()[rng.below(ca_sets().size())];
    auto context = std::make_shared<fr::SSLContext>();
    load(*context, cas, rng);
    fr::SSLSocket c(context);
    bool verify = true;
    std::string before;
    const int n = 2 + (int)rng.below(5);
    for(int a = 0; a < n; a++)
    {
        if(rng.chance(1, 3)) { verify = rng.coin(); c.verify_certificates(verify); }
        const Cert &cert = rng.chance(1, 3) ? certs()[0] : certs()[rng.below(certs().size())];
        const std::string &host = rng.chance(2, 3) ? hosts()[0] : hosts()[rng.below(hosts().size())];
        if(!attempt(c, cert, host, cas, verify, rng, vh::cat(", following", before.empty() ? " nothing" : before))) return;
        before += vh::cat(" ", cert.name, verify ? "" : " (unverified)");
        if(!c.connected()) vh::count("reused after a failure"); else vh::count("reused while connected");
    }
    (void)index;
}

// Messages of every kind, either way
struct Msg { bool up; unsigned kind; std::string text; unsigned variant; };
static void roundtrip(fr::Socket &s, bool client, const std::vector<Msg> &script, std::string &error, const std::atomic<bool> &stop)
{
    auto again = [&](const std::function<St()> &f) {
        St st;
        do { st = f(); if(st == St::WouldBlock) { pollfd p{s.get_socket_descriptor(), POLLIN, 0}; __real_poll(&p, 1, 1); } } while(st == St::WouldBlock && !stop);
        return st;
    };
    for(size_t a = 0; a < script.size() && error.empty() && !stop; a++)
    {
        const Msg &m = script[a];
        St st = St::Unknown;
        std::string got;
        const bool sending = m.up == client;
        switch(m.kind)
        {
            case 0:
                if(sending) { fr::Packet p(m.text, (uint32_t)a); st = s.send(p); }
                else { fr::Packet p; st = again([&]{ return s.receive(p); }); uint32_t n = 0; if(st == St::Success) { p >> got >> n; if(n != a) got += "?"; } }
                break;
            case 1:
                if(sending) { size_t n = 0; do { st = s.send_raw(m.text.data(), m.text.size(), n); } while(st == St::WouldBlock && !stop); if(st == St::Success && n != m.text.size()) error = vh::cat("send_raw succeeded with a count of ", n); }
                else
                {
                    st = St::Success;
                    std::vector<char> b(1 + m.variant % 40000);
                    while(st == St::Success && got.size() < m.text.size()) { size_t n = 0; st = again([&]{ return s.receive_raw(b.data(), std::min(b.size(), m.text.size() - got.size()), n); }); if(st == St::Success) got.append(b.data(), n); }
                }
                break;
            case 2:
                if(m.up)
                {
                    fr::HttpRequest q;
                    if(sending) { q.set_type(fr::Http::RequestType::Post); q.set_uri("/secret"); q.header("X") = "y"; q.set_body(m.text); st = s.send(q); }
                    else { st = again([&]{ return s.receive(q); }); got = q.get_body(); if(st == St::Success && q.get_uri() != "/secret") got += "?"; }
                }
                else
                {
                    fr::HttpResponse q;
                    if(sending) { q.set_status(fr::Http::RequestStatus::Ok); q.set_body(m.text); st = s.send(q); }
                    else { st = again([&]{ return s.receive(q); }); got = q.get_body(); if(st == St::Success && q.get_status() != fr::Http::RequestStatus::Ok) got += "?"; }
                }
                break;
            default:
            {
                fr::ClientWebFrame cf;
                fr::ServerWebFrame sf;
                fr::WebFrame &f = client ? (fr::WebFrame&)cf : sf;
                if(sending) { f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_payload(m.text); st = s.send(f); }
                else { st = again([&]{ return s.receive(f); }); got = f.get_payload(); }
            }
        }
        if(error.empty() && st != St::Success) error = vh::cat("message ", a, " (", sending ? "sending" : "receiving", " kind ", m.kind, " of ", m.text.size(), " bytes): ", fr::Socket::status_to_string(st));
        else if(!sending && got != m.text) error = vh::cat("message ", a, " (kind ", m.kind, " of ", m.text.size(), " bytes) differs, ", got.size(), " bytes received");
        if(!sending) vh::count("messages received");
    }
}
VH_SECTION_X(messages, 480, 6000, false, 120)
{
    static auto context = vt::context();
    Wire wire(port_with("good"), rng.fork(), rng.coin());
    wire.start();
    fr::SSLSocket c(context), s(context);
    if(rng.chance(1, 8)) c.verify_certificates(false);
    St accepted = St::Unknown, st;
    std::thread t([&]{ accepted = server_with("good").accept(s); });
    st = c.connect("localhost", wire.port(), std::chrono::seconds(20));
    if(st != St::Success) wire.stop = true;
    t.join();
    if(st != St::Success || accepted != St::Success) { vh::violation("no-connection", vh::cat((int)st, " ", (int)accepted)); return; }
    std::vector<Msg> script;
    std::vector<std::string> secrets;
    const size_t count = 3 + rng.below(14);
    bool up = rng.coin(), turn = false;
    for(size_t a = 0; a < count; a++)
    {
        if(turn || rng.coin()) up = !up;
        Msg m{up, (unsigned)rng.below(4), "", (unsigned)rng.u64()};
        size_t n = rng.chance(1, 12) ? 100000 + rng.below(300000) : rng.chance(1, 4) ? rng.pick<size_t>({0, 1, 15, 16, 4095, 4096, 4097, 16383, 16384, 16385, 16400, 32767, 32768, 32769}) : rng.below(3000);
        if(m.kind == 1 && !n) n = 1;
        m.text = random_text(rng, n);
        for(size_t at : {(size_t)0, n / 2, n > 16 ? n - 16 : 0}) if(n >= at + 12) secrets.push_back(m.text.substr(at, 12));
        turn = m.kind == 2; // what follows a HTTP message at once isn't kept
        script.push_back(std::move(m));
    }
    secrets.push_back("HTTP/1.1");
    secrets.push_back("POST /secret");
    // Modes are set once connected
    const bool nb_c = rng.coin(), nb_s = rng.coin();
    if(nb_c && c.set_blocking(false) != St::Success) { vh::violation("set-blocking-failed", "client"); return; }
    if(nb_s && s.set_blocking(false) != St::Success) { vh::violation("set-blocking-failed", "server"); return; }
    std::string e1, e2;
    std::atomic<bool> stop{false};
    std::thread other([&]{ roundtrip(s, false, script, e2, stop); if(!e2.empty()) { stop = true; s.shutdown(); } });
    roundtrip(c, true, script, e1, stop);
    if(!e1.empty()) { stop = true; c.shutdown(); }
    other.join();
    std::string kinds;
    for(auto &m : script) kinds += vh::cat(m.up ? "^" : "v", m.kind, ":", m.text.size(), " ");
    if(!e1.empty() || !e2.empty()) vh::violation("message-lost", vh::cat("client (", nb_c ? "non-" : "", "blocking): ", e1, "; server (", nb_s ? "non-" : "", "blocking): ", e2, " [", kinds, "]"));
    else
    {
        // Nothing more than was sent
        s.set_blocking(false); c.set_blocking(false);
        char b;
        size_t n;
        if(c.receive_raw(&b, 1, n) == St::Success || s.receive_raw(&b, 1, n) == St::Success) vh::violation("message-duplicated", kinds);
        // One leaves, the other notices
        (rng.coin() ? c : s).disconnect();
        fr::SSLSocket &rest = c.connected() ? c : s;
        St x;
        auto begin = vn::Clock::now();
        do { x = rest.receive_raw(&b, 1, n); } while(x == St::WouldBlock && vn::ms_since(begin) < 10000);
        if(x == St::Success || x == St::WouldBlock) vh::violation("end-not-noticed", vh::cat((int)x));
    }
    c.disconnect();
    s.disconnect();
    wire.judge("messages", secrets, !e1.empty() || !e2.empty(), true);
    vh::count("conversations");
    vh::distinct(vh::hash_str(kinds));
    (void)index;
}

// What has been changed on the way isn't taken for what was sent
VH_SECTION_X(meddling, 210, 3000, false, 120)
{
    static auto context = vt::context();
    const size_t count = 3 + rng.below(10);
    const unsigned at = (unsigned)rng.below(count);
    const int way = (int)(index % 7);
    static const char *const WAYS[] = {"bit flipped", "duplicated", "dropped", "swapped with the next", "replaced by plaintext", "cut", "joined by an earlier one"};
    Wire wire(port_with("good"), rng.fork(), false);
    Rng r2(rng.fork());
    std::string held, first;
    std::vector<size_t> sizes;
    wire.meddle = [&](unsigned n, const std::string &rec) {
        if(n == 0) first = rec;
        if(n <= at) sizes.push_back(rec.size());
        std::string out = rec;
        if(n == at) switch(way)
        {
            case 0: out[5 + r2.below(out.size() - 5)] ^= (char)(1 << r2.below(8)); break;
            case 1: out += rec; break;
            case 2: return std::string();
            case 3: held = rec; return std::string();
            case 4: { std::string p = std::string("\0\0\0\4evil", 8); out = std::string("\x17\x03\x03", 3) + (char)0 + (char)p.size() + p; break; }
            case 5: out.resize(5 + r2.below(out.size() - 5)); break;
            case 6: out = first + rec; break;
        }
        else if(way == 3 && n == at + 1) { out = rec + held; }
        return out;
    };
    wire.start();
    fr::SSLSocket c(context), s(context);
    St accepted = St::Unknown, st;
    std::thread t([&]{ accepted = server_with("good").accept(s); });
    st = c.connect("localhost", wire.port(), std::chrono::seconds(20));
    if(st != St::Success) wire.stop = true;
    t.join();
    if(st != St::Success || accepted != St::Success) { vh::violation("no-connection", vh::cat((int)st, " ", (int)accepted)); return; }
    std::vector<std::string> texts;
    for(size_t a = 0; a < count; a++) texts.push_back(random_text(rng, rng.below(200)));
    std::vector<size_t> lengths;
    for(auto &x : texts)
    {
        // Sent as it is, so that it's usually one record
        size_t n = 0, l = x.size();
        std::string m;
        for(size_t v : {l + 4, l}) for(int b = 24; b >= 0; b -= 8) m += (char)(v >> b);
        m += x;
        lengths.push_back(m.size());
        if(s.send_raw(m.data(), m.size(), n) != St::Success || n != m.size()) vn::broken("send");
    }
    std::thread closer([&]{ std::this_thread::sleep_for(milliseconds(20)); s.disconnect(); });
    c.set_receive_timeout(10000);
    size_t got = 0;
    bool wrong = false;
    for(;;)
    {
        fr::Packet p;
        St x = c.receive(p);
        if(x != St::Success) break;
        std::string y;
        try { p >> y; } catch(const std::exception &) { wrong = true; }
        if(wrong || got >= texts.size() || y != texts[got]) { wrong = true; break; }
        got++;
    }
    closer.join();
    c.disconnect();
    wire.finish();
    // How messages are divided into records is the sender's business: only if each was one record is it known which have been meddled with
    bool one_each = sizes.size() == at + 1;
    for(size_t a = 0; a < sizes.size(); a++) if(sizes[a] <= lengths[a] || sizes[a] - lengths[a] != sizes[0] - lengths[0]) one_each = false;
    // Cut short or reordered at the very end, the others are all there
    const size_t most = way == 1 ? at + 1 : way == 6 ? (at == 0 ? 1 : at) : at;
    if(wrong) vh::violation("meddling-unnoticed", vh::cat("record ", at, " of ", count, " was ", WAYS[way], ", and something else was received"));
    else if(!one_each) vh::count("messages of several records");
    else if(got > most) vh::violation("meddling-unnoticed", vh::cat("record ", at, " of ", count, " was ", WAYS[way], ", and ", got, " messages were received"));
    else if(got < std::min<size_t>(most, at)) vh::violation("intact-messages-lost", vh::cat("record ", at, " of ", count, " was ", WAYS[way], ", and only ", got, " messages were received"));
    vh::count(vh::cat("records ", WAYS[way]));
    vh::distinct(vh::mix(index * 100 + at));
}
