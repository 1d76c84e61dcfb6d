// C14: the WebSocket handshake admits only proper peers and loses nothing
#define VH_MAIN
#include <vh.h>
#include <vh_http.h>
#include <vh_mock.h>
#include <vh_net.h>
#include <vh_ws.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/WebSocket.h>
#include <mbedtls/sha1.h>
#include <mbedtls/base64.h>
using vh::Rng;
using fr::Socket;
using fr::WebFrame;
typedef Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;
using vhttp::lower;
using vhttp::Pairs;

static std::string base64(const std::string &s)
{
    std::string o(s.size() * 2 + 8, '\0');
    size_t n = 0;
    if(mbedtls_base64_encode((unsigned char*)&o[0], o.size(), &n, (const unsigned char*)s.data(), s.size())) vn::broken("base64");
    o.resize(n);
    return o;
}
static std::string accept_value(const std::string &key)
{
    std::string k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", d(20, '\0');
    mbedtls_sha1_ret((const unsigned char*)k.data(), k.size(), (unsigned char*)&d[0]);
    return base64(d);
}
// The head of a message: its first line, and headers with names in lower case
struct Head { std::string line; std::map<std::string, std::string> headers; bool ok = false; size_t size = 0; };
static Head dissect(const std::string &text)
{
    Head h;
    size_t end = text.find("\r\n\r\n");
    if(end == std::string::npos) return h;
    h.size = end + 4;
    size_t at = text.find("\r\n");
    h.line = text.substr(0, at);
    at += 2;
    while(at < end + 2)
    {
        size_t e = text.find("\r\n", at), c = text.find(':', at);
        if(c == std::string::npos || c > e) return h;
        std::string v = text.substr(c + 1, e - c - 1);
        while(!v.empty() && v.front() == ' ') v.erase(0, 1);
        while(!v.empty() && v.back() == ' ') v.pop_back();
        if(!h.headers.emplace(lower(text.substr(at, c - at)), v).second) return h;
        at = e + 2;
    }
    h.ok = true;
    return h;
}
static void write_pieces(Rng &r, int fd, const std::string &s)
{
    const unsigned style = (unsigned)r.below(4);
    for(size_t at = 0; at < s.size();)
    {
        size_t n = style == 0 ? s.size() : style == 1 ? 1 + r.below(4) : 1 + r.below(200);
        n = std::min(n, s.size() - at);
        if(!vn::write_all(fd, s.substr(at, n))) return;
        at += n;
        if(style && r.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    }
}
static vw::Frame frame(Rng &r, bool masked)
{
    vw::Frame f;
    f.masked = masked;
    f.fin = r.coin();
    f.opcode = r.pick<unsigned>({0, 1, 2, 9, 10});
    f.payload = r.bytes(r.size(r.chance(1, 10) ? 8000 : 300));
    f.form = vw::shortest(f.payload.size());
    for(auto &k : f.key) k = r.byte();
    return f;
}
static std::string about(const vw::Frame &f) { return vh::cat("opcode ", f.opcode, ", ", f.payload.size(), " bytes"); }
// A read of everything the peer's been sent, including the end
static std::string until_end(int fd, bool &ended) { return vn::read_some(fd, SIZE_MAX, 10000, &ended); }

static void send_frame(Web &s, bool client, const vw::Frame &w)
{
    auto f = vw::make(client);
    f->set_opcode(vw::opcode(w.opcode));
    f->set_final(w.fin);
    f->set_payload(w.payload);
    St st = s.send(*f);
    VH_CHECK(st == St::Success, "send", about(w), ": ", vh::status_name(st));
}
static bool receive_frame(Web &s, bool client, const vw::Frame &w, const std::string &how)
{
    auto f = vw::make(client);
    St st;
    do st = s.receive(*f); while(st == St::WouldBlock);
    const bool ok = st == St::Success && f->get_payload() == w.payload && (unsigned)f->get_opcode() == w.opcode && f->is_final() == w.fin;
    VH_CHECK(ok, "frame-lost", how, about(w), ": ", vh::status_name(st), st == St::Success ? vh::cat(", got opcode ", (unsigned)f->get_opcode(), ", ", f->get_payload().size(), " bytes") : "");
    return ok;
}
// What the peer's been sent after the handshake: these frames and then, perhaps, a Disconnect frame and the end
static void check_sent(const std::string &text, const std::vector<vw::Frame> &want, bool masked, bool disconnected, bool ended, const std::string &who)
{
    size_t at = 0;
    vw::Frame f;
    for(auto &w : want)
    {
        const bool whole = vw::decode(text, at, f);
        VH_CHECK(whole && f.payload == w.payload && f.opcode == w.opcode && f.fin == w.fin && f.masked == masked && !f.rsv, "frame-sent", who, ", ", about(w), ": ", whole ? "opcode " + std::to_string(f.opcode) : "missing", " in ", vh::hex(text, 40));
        if(!whole) return;
    }
    if(disconnected)
    {
        const size_t from = at;
        const bool whole = vw::decode(text, at, f);
        VH_CHECK(whole && f.opcode == 8 && f.fin && !f.rsv && f.masked == masked && (f.payload.empty() || (f.payload.size() >= 2 && f.payload.size() <= 125)), "disconnect-frame", who, ": ", whole ? "wrong: " : "missing: ", vh::hex(text.substr(from), 30));
        VH_CHECK(ended, "not-closed", who);
    }
    VH_CHECK(at == text.size(), "extra-bytes", who, ": ", vh::hex(text.substr(std::min(at, text.size())), 40));
}

// ---- the server's side ----
struct Request { std::string text, key, what; bool proper; };
static Request request(Rng &r, bool proper)
{
    Request q;
    q.proper = proper;
    std::string method = "GET", upgrade = r.pick<const char*>({"websocket", "WebSocket", "WEBSOCKET", "websocket", "webSocket"});
    if(r.chance(1, 4)) upgrade = vhttp::recase(r, "websocket");
    std::string raw(16, '\0');
    for(auto &c : raw) c = (char)r.byte();
    q.key = r.chance(1, 5) ? r.from("abcdefXYZ0189+/=", 1 + r.below(60)) : base64(raw);
    bool has_upgrade = true, has_key = true;
    if(!proper)
    {
        switch(r.below(7))
        {
            case 0: method = r.pick<const char*>({"POST", "PUT", "DELETE", "PATCH"}); q.what = "method " + method; break;
            case 1: has_upgrade = false; q.what = "no Upgrade"; break;
            case 2: upgrade = r.pick<const char*>({"h2c", "websocke", "websockets", "web socket", "TLS/1.0", "xwebsocket", "ebsocket", "w", "web-socket", "websocket2"}); q.what = "Upgrade " + upgrade; break;
            case 3: has_key = false; q.what = "no key"; break;
            case 4: q.key.clear(); q.what = "empty key"; break;
            case 5: has_upgrade = has_key = false; q.what = "an ordinary request"; break;
            default: has_key = false; method = "POST"; q.what = "POST without key"; break;
        }
    }
    Pairs h;
    for(auto &p : vhttp::headers(r, 6))
    {
        std::string l = lower(p.first);
        if(l != "upgrade" && l != "connection" && l != "host" && l.find("websocket") == std::string::npos && l != "expect") h.push_back(p);
    }
    auto insert = [&](const char *k, const std::string &v) { h.insert(h.begin() + (long)r.below(h.size() + 1), std::make_pair(r.coin() ? std::string(k) : vhttp::recase(r, k), v)); };
    insert("Host", "server.example.com");
    if(has_upgrade) insert("Upgrade", upgrade);
    insert("Connection", r.pick<const char*>({"Upgrade", "keep-alive, Upgrade", "upgrade"}));
    if(has_key) insert("Sec-WebSocket-Key", q.key);
    insert("Sec-WebSocket-Version", "13");
    if(r.coin()) insert("Sec-WebSocket-Protocol", "chat, superchat");
    if(r.coin()) insert("Origin", "http://example.com");
    std::string path = vhttp::uri(r);
    if(r.chance(1, 4)) path += "?" + std::string(r.pick<const char*>({"a=b", "token=%41%20x&y=z", "x", "a=b&c=d"}));
    q.text = method + " " + path + " HTTP/1.1\r\n";
    for(auto &p : h) q.text += p.first + ": " + p.second + "\r\n";
    if(method != "GET" && r.coin()) q.text += "Content-Length: 0\r\n";
    q.text += "\r\n";
    return q;
}
// Lets a server have a connection: accepted by a listener, or given its descriptor. False if it has thrown.
static bool serve(Rng &r, Web &s, vn::Fd &peer, std::function<void(int)> &&write, std::thread &t)
{
    auto start = [&](int fd) { t = std::thread([fd, write]{ write(fd); }); };
    try
    {
        if(r.coin())
        {
            fr::TcpListener l;
            if(l.listen("0") != St::Success) vn::broken("listen");
            peer = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
            if(peer.fd < 0) vn::broken("dial");
            start(peer.fd);
            return l.accept(s) == St::Success;
        }
        auto p = r.coin() ? vn::pair() : vn::tcp_pair();
        peer = std::move(p.second);
        int32_t fd = p.first.release();
        start(peer.fd);
        s.set_descriptor(&fd);
        return true;
    }
    catch(const std::runtime_error &) { return false; }
}
VH_SECTION(server_admits, 6400, 50000)
{
    Rng &r = rng;
    Request q = request(r, true);
    std::vector<vw::Frame> early, out;
    std::string wire = q.text;
    for(size_t n = r.below(4); n > 0; n--) { early.push_back(frame(r, true)); wire += vw::encode(early.back()); }
    for(size_t n = r.below(3); n > 0; n--) out.push_back(frame(r, false));
    Web s;
    vn::Fd peer;
    std::thread t;
    const uint64_t seed = r.fork();
    vn::HookScope h;
    Rng own(seed);
    h->rng = &own;
    if(r.coin()) { h->eintr_pct = 10; h->short_pct = 30; h->max_chunk = 50; }
    const bool ok = serve(r, s, peer, [&wire, seed](int fd) { Rng x(seed + 1); write_pieces(x, fd, wire); }, t);
    VH_CHECK(ok && s.connected(), "refused", "request ", vh::show(q.text, 600));
    if(ok)
    {
        if(r.coin()) s.set_blocking(false);
        const bool first = r.coin();
        if(first) for(auto &f : out) send_frame(s, false, f);
        for(auto &f : early)
            if(!receive_frame(s, false, f, vh::cat("of ", early.size(), " right after the handshake, "))) break;
        vh::count("early frames to servers", early.size());
        if(!first) for(auto &f : out) send_frame(s, false, f);
        t.join();
        // let it have the last word, or the peer
        const bool closing = r.chance(15, 16);
        if(closing)
        {
            if(r.below(4) == 0) s.set_max_receive_size((uint32_t)r.pick<int>({1, 2, 125, 100000}));
            if(r.below(4) == 0) s.set_receive_timeout(500 + (uint32_t)r.below(20000));
            s.disconnect();
            VH_CHECK(!s.connected(), "connected-after-disconnect", "server");
        }
        bool ended = false;
        std::string got = closing ? until_end(peer.fd, ended) : vn::read_some(peer.fd, SIZE_MAX, 50);
        Head a = dissect(got);
        const std::string what = vh::show(got.substr(0, 300), 300);
        VH_CHECK(a.ok && a.line.compare(0, 13, "HTTP/1.1 101 ") == 0, "not-101", what);
        VH_CHECK(lower(a.headers["upgrade"]) == "websocket" && lower(a.headers["connection"]).find("upgrade") != std::string::npos, "reply-headers", what);
        VH_CHECK(a.headers["sec-websocket-accept"] == accept_value(q.key), "accept-value", "key ", q.key, ": ", what);
        check_sent(got.substr(a.size), out, false, closing, ended, "server");
        vh::count("admitted");
        vh::count("disconnected by the server", closing);
    }
    else t.join();
    vh::distinct(vh::hash_str(wire));
    if(vh::want_sample("server_admits")) vh::sample("server_admits", vh::show(q.text, 300));
}
VH_SECTION(server_refuses, 6400, 50000)
{
    Rng &r = rng;
    Request q = request(r, false);
    if(r.chance(1, 8))
    {
        // not even a request
        q.text = r.pick<std::string>({r.bytes(1 + r.below(200)), "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nSec-WebSocket-Key: abc\r\n\r\n", std::string("GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSo"), "\r\n\r\n", ""});
        q.what = "not a request: " + vh::show(q.text);
    }
    // frames, as if all were well
    std::string wire = q.text;
    if(r.coin()) wire += vw::encode(frame(r, true));
    Web s;
    vn::Fd peer;
    std::thread t;
    const uint64_t seed = r.fork();
    const bool ok = serve(r, s, peer, [&wire, seed](int fd) { Rng x(seed + 1); write_pieces(x, fd, wire); ::shutdown(fd, SHUT_WR); }, t);
    VH_CHECK(!ok || !s.connected(), "admitted-improper", q.what);
    if(r.coin()) s.disconnect();
    else s.fr::TcpSocket::disconnect();
    bool ended;
    std::string got = until_end(peer.fd, ended);
    t.join();
    VH_CHECK(got.find("101") == std::string::npos || got.compare(0, 5, "HTTP/") != 0 || got.find("101") > 12, "improper-answered-101", q.what, ": ", vh::show(got, 300));
    vh::count("refused requests");
    vh::count("refused: " + q.what.substr(0, q.what.find(' ', q.what.find(' ') + 1)).substr(0, 14));
    vh::distinct(vh::hash_str(wire, 2));
}

// ---- the client's side ----
static bool base64_of_16(const std::string &k, std::string &raw)
{
    raw.assign(32, '\0');
    size_t n = 0;
    if(k.size() != 24 || mbedtls_base64_decode((unsigned char*)&raw[0], raw.size(), &n, (const unsigned char*)k.data(), k.size()) || n != 16) return false;
    raw.resize(16);
    return true;
}
struct Reply { std::string text; bool proper = true; std::string what; };
static Reply reply(Rng &r, const std::string &key, bool proper)
{
    Reply p;
    p.proper = proper;
    std::string status = "101", accept = accept_value(key);
    bool has_accept = true;
    if(!proper)
    {
        switch(r.below(12))
        {
            case 0: status = r.pick<const char*>({"200", "100", "102", "404", "400", "426", "301", "500", "999", "201", "1"}); p.what = "status " + status; break;
            case 1: { std::string raw(16, (char)r.byte()); accept = accept_value(base64(raw)); p.what = "accept value of another key"; break; }
            case 2: accept = accept.substr(0, r.below(accept.size())); p.what = "accept value cut short"; break;
            case 3: { size_t n = r.below(27); while(!isalpha((unsigned char)accept[n])) n = (n + 1) % 27; accept[n] = (char)(accept[n] ^ 0x20); p.what = "accept value in another case"; break; }
            case 4: has_accept = false; p.what = "no accept value"; break;
            case 5: accept = key; p.what = "key as accept value"; break;
            case 6: accept += r.pick<const char*>({"=", "A", "x", ", x"}); p.what = "accept value with more behind"; break;
            case 7: { size_t n = r.below(27); accept[n] = accept[n] == 'A' ? 'B' : 'A'; p.what = "accept value with one letter changed"; break; }
            case 8: accept = base64(std::string(20, '\0')); p.what = "accept value of nothing"; break;
            case 9: p.text = r.bytes(1 + r.below(300)); p.what = "garbage"; return p;
            case 10: p.text = "GET /chat HTTP/1.1\r\nSec-WebSocket-Accept: " + accept + "\r\n\r\n"; p.what = "a request"; return p;
            default: p.what = "cut short"; break;
        }
    }
    Pairs h;
    for(auto &x : vhttp::headers(r, 5))
    {
        std::string l = lower(x.first);
        if(l != "upgrade" && l != "connection" && l.find("websocket") == std::string::npos) h.push_back(x);
    }
    auto insert = [&](const char *k, const std::string &v) { h.insert(h.begin() + (long)r.below(h.size() + 1), std::make_pair(r.coin() ? std::string(k) : vhttp::recase(r, k), v)); };
    insert("Upgrade", r.pick<const char*>({"websocket", "WebSocket", "WEBSOCKET"}));
    insert("Connection", r.pick<const char*>({"Upgrade", "upgrade"}));
    if(has_accept) insert("Sec-WebSocket-Accept", accept);
    p.text = "HTTP/1.1 " + status + " " + r.pick<const char*>({"Switching Protocols", "Whatever", "OK"}) + "\r\n";
    for(auto &x : h) p.text += x.first + ": " + x.second + "\r\n";
    p.text += "\r\n";
    if(p.what == "cut short") p.text.resize(r.below(p.text.size()));
    return p;
}
// Accepts, reads a request, answers, and is left with the connection
struct Peer
{
    vn::Fd fd;
    std::string request;
    Reply sent;
};
static void answer(vn::Server &srv, Peer &p, uint64_t seed, bool proper, const std::string &frames)
{
    Rng r(seed);
    p.fd = srv.accept_within(20000);
    if(p.fd.fd < 0) return;
    while(p.request.find("\r\n\r\n") == std::string::npos)
    {
        std::string more = vn::read_some(p.fd.fd, 1, 10000);
        if(more.empty()) return;
        p.request += more;
    }
    Head h = dissect(p.request);
    p.sent = reply(r, h.headers["sec-websocket-key"], proper);
    // A frame may begin with what is missing
    write_pieces(r, p.fd.fd, p.sent.what == "cut short" ? p.sent.text : p.sent.text + frames);
    if(!proper) ::shutdown(p.fd.fd, SHUT_WR);
}
static void check_request(const Peer &p, const std::string &path, const std::vector<std::string> &protocols, std::string *raw = nullptr)
{
    Head h = dissect(p.request);
    const std::string what = vh::show(p.request, 400);
    VH_CHECK(h.ok && h.line == "GET " + path + " HTTP/1.1", "request-line", "path ", path, ": ", what);
    VH_CHECK(lower(h.headers["upgrade"]) == "websocket", "request-upgrade", what);
    VH_CHECK(lower(h.headers["connection"]).find("upgrade") != std::string::npos && h.headers["sec-websocket-version"] == "13" && !h.headers["host"].empty(), "request-headers", what);
    std::string key;
    VH_CHECK(base64_of_16(h.headers["sec-websocket-key"], key), "request-key", "not 16 bytes: ", what);
    std::string list;
    for(auto &x : protocols) list += (list.empty() ? "" : ", ") + x;
    VH_CHECK(h.headers.count("sec-websocket-protocol") == (protocols.empty() ? 0u : 1u) && h.headers["sec-websocket-protocol"] == list, "request-protocols", "instead of ", list, ": ", what);
    static std::set<std::string> seen;
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    VH_CHECK(seen.insert(key).second, "key-reused", vh::hex(key));
    if(raw) *raw = key;
}
VH_SECTION(client_admits, 4000, 30000)
{
    Rng &r = rng;
    vn::Server srv;
    Peer p;
    std::vector<vw::Frame> early, out;
    std::string frames;
    for(size_t n = r.below(4); n > 0; n--) { early.push_back(frame(r, false)); frames += vw::encode(early.back()); }
    for(size_t n = r.below(3); n > 0; n--) out.push_back(frame(r, true));
    std::string path = "/";
    std::vector<std::string> protocols;
    const uint64_t seed = r.fork();
    std::thread t([&]{ answer(srv, p, seed, true, frames); });
    Web s;
    St st;
    {
        vn::HookScope h;
        Rng own(seed + 5);
        h->rng = &own;
        if(r.coin()) { h->eintr_pct = 10; h->short_pct = 30; h->max_chunk = 50; }
        if(r.coin()) st = s.connect("127.0.0.1", srv.port_text(), std::chrono::seconds(20));
        else
        {
            path = vhttp::uri(r);
            if(r.chance(1, 3)) path += "?" + std::string(r.pick<const char*>({"a=b", "token=%41%20x&y=z", "x", "a=b&c=d"}));
            for(size_t n = r.below(6) == 0 ? 4 + r.below(60) : r.below(4); n > 0; n--) protocols.push_back(r.from("abcxyz.", 1 + r.below(8)));
            st = s.connect("127.0.0.1", srv.port_text(), path, protocols, std::chrono::seconds(20));
        }
    }
    VH_CHECK(st == St::Success && s.connected(), "server-refused", vh::status_name(st), " for ", vh::show(p.sent.text, 500));
    if(st == St::Success)
    {
        if(r.coin()) s.set_blocking(false);
        const bool first = r.coin();
        if(first) for(auto &f : out) send_frame(s, true, f);
        for(auto &f : early)
            if(!receive_frame(s, true, f, vh::cat("of ", early.size(), " right after the handshake, "))) break;
        vh::count("early frames to clients", early.size());
        if(!first) for(auto &f : out) send_frame(s, true, f);
        t.join();
        const bool closing = r.chance(15, 16);
        if(closing)
        {
            if(r.below(4) == 0) s.set_max_receive_size((uint32_t)r.pick<int>({1, 2, 125, 100000}));
            if(r.below(4) == 0) s.set_receive_timeout(500 + (uint32_t)r.below(20000));
            s.disconnect();
            VH_CHECK(!s.connected(), "connected-after-disconnect", "client");
        }
        bool ended = false;
        std::string got = closing ? until_end(p.fd.fd, ended) : vn::read_some(p.fd.fd, SIZE_MAX, 50);
        check_sent(got, out, true, closing, ended, "client");
        vh::count("disconnected by the client", closing);
        vh::count("connected");
    }
    else t.join();
    check_request(p, path, protocols);
    vh::distinct(vh::hash_str(p.sent.text + frames));
    if(vh::want_sample("client_admits")) vh::sample("client_admits", vh::show(p.request, 300));
}
VH_SECTION(client_refuses, 4000, 30000)
{
    Rng &r = rng;
    vn::Server srv;
    Web s;
    std::string frames;
    if(r.coin()) frames = vw::encode(frame(r, false));
    for(int round = 0; round < 2; round++)
    {
        Peer p;
        const uint64_t seed = r.fork();
        const bool proper = round == 1; // the object can be used for another attempt
        std::thread t([&]{ answer(srv, p, seed, proper, proper ? "" : frames); });
        St st = s.connect("127.0.0.1", srv.port_text(), std::chrono::seconds(20));
        t.join();
        if(proper) { VH_CHECK(st == St::Success && s.connected(), "refused-after-failure", vh::status_name(st)); break; }
        VH_CHECK(st != St::Success && st != St::WouldBlock && st != St::NotEnoughData, "improper-accepted", p.sent.what, ": ", vh::status_name(st), " for ", vh::show(p.sent.text, 500));
        VH_CHECK(!s.connected(), "connected-after-failure", p.sent.what, ": ", vh::status_name(st));
        VH_CHECK(p.fd.fd >= 0 && vn::closed_within(p.fd.fd, 10000), "left-open", p.sent.what);
        check_request(p, "/", {});
        vh::count("refused replies");
        vh::distinct(vh::hash_str(p.sent.text));
        if(r.coin()) break;
    }
}
// Keys of many connections: no byte of them may be predictable
VH_SECTION(keys, 16, 64)
{
    std::string all[16];
    vn::Server srv;
    const size_t n = 64;
    for(size_t a = 0; a < n; a++)
    {
        Peer p;
        std::thread t([&]{ answer(srv, p, a, true, ""); });
        Web s;
        s.connect("127.0.0.1", srv.port_text(), std::chrono::seconds(20));
        t.join();
        std::string key;
        check_request(p, "/", {}, &key);
        if(key.size() == 16) for(size_t k = 0; k < 16; k++) all[k] += key[k];
    }
    for(size_t k = 0; k < 16; k++)
    {
        std::set<char> values(all[k].begin(), all[k].end());
        VH_CHECK(values.size() > 24, "key-not-random", "byte ", k, " has only ", values.size(), " values in ", n, " keys");
        unsigned some = 0, every = 0xFF;
        for(char c : all[k]) { some |= (uint8_t)c; every &= (uint8_t)c; }
        VH_CHECK(all[k].empty() || (some == 0xFF && every == 0), "key-not-random", "byte ", k, " has bits which are always the same in ", n, " keys: ", some, " ", every);
    }
    vh::count("keys", n);
    vh::distinct(vh::hash_str(all[0] + all[15]));
}
// ---- both ----
VH_SECTION(together, 1600, 15000)
{
    Rng &r = rng;
    fr::TcpListener l;
    if(l.listen("0") != St::Success) vn::broken("listen");
    const std::string port = std::to_string(vn::port_of(l.get_socket_descriptor()));
    Web c, s;
    for(int round = 0; round < (int)(1 + r.below(2)); round++)
    {
        // in a second round the roles are the other way around
        Web &client = round ? s : c, &server = round ? c : s;
        std::vector<vw::Frame> up, down;
        for(size_t n = r.below(4); n > 0; n--) up.push_back(frame(r, true));
        for(size_t n = r.below(4); n > 0; n--) down.push_back(frame(r, false));
        const bool client_ends = r.coin();
        std::thread t([&]{
            try { if(l.accept(server) != St::Success) { vh::violation("accept", strerror(errno)); return; } }
            catch(const std::exception &e) { vh::violation("refused", e.what()); return; }
            for(auto &f : down) send_frame(server, false, f);
            for(auto &f : up) if(!receive_frame(server, false, f, "from the client, ")) return;
            auto f = vw::make(false);
            if(client_ends)
            {
                St st = server.receive(*f);
                VH_CHECK(st == St::Success && f->get_opcode() == WebFrame::Opcode::Disconnect && f->is_final(), "no-disconnect-frame", "from the client: ", vh::status_name(st));
                st = server.receive(*f);
                VH_CHECK(st == St::Disconnected, "after-disconnect-frame", "from the client: ", vh::status_name(st));
            }
            else server.disconnect();
        });
        const std::string path = vhttp::uri(r);
        St st = client.connect("127.0.0.1", port, path, {}, std::chrono::seconds(20));
        VH_CHECK(st == St::Success, "connect", vh::status_name(st), " to ", path);
        if(st != St::Success) { t.join(); return; }
        for(auto &f : up) send_frame(client, true, f);
        bool ok = true;
        for(auto &f : down) ok = ok && receive_frame(client, true, f, "from the server, ");
        auto f = vw::make(true);
        if(!ok) client.shutdown();
        if(client_ends) client.disconnect();
        else if(ok)
        {
            st = client.receive(*f);
            VH_CHECK(st == St::Success && f->get_opcode() == WebFrame::Opcode::Disconnect && f->is_final(), "no-disconnect-frame", "from the server: ", vh::status_name(st));
            st = client.receive(*f);
            VH_CHECK(st == St::Disconnected, "after-disconnect-frame", "from the server: ", vh::status_name(st));
        }
        t.join();
        if(r.coin()) client.disconnect();
        if(r.coin()) server.disconnect();
        vh::count("conversations");
        vh::distinct(vh::hash_str(path, r.fork()));
    }
}
