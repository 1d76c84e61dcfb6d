// Connections of every type, made in every way, with the harness at the other end, and the ways to receive from them
#ifndef VH_CONN_H
#define VH_CONN_H
#include "vh.h"
#include "vh_net.h"
#include "vh_tls.h"
#include <frnetlib/Base64.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Packet.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/WebFrame.h>
#include <frnetlib/WebSocket.h>
#include <memory>

namespace vc
{
using vh::Rng;
typedef fr::Socket::Status St;
typedef fr::WebSocket<fr::TcpSocket> Web;

enum Way { Connect, Accept, Adopt };
enum Type { Tcp, Tls, Ws };
[[maybe_unused]] static const char *const TYPES[] = {"TCP", "TLS", "WebSocket"};
[[maybe_unused]] static const char *const WAYS[] = {"connected", "accepted", "adopted"};

inline bool actually_blocking(int fd) { return !(__real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK); }

struct Conn
{
    Type type;
    std::shared_ptr<fr::Socket> s;      // under test
    vn::Fd raw;                         // the other end
    std::shared_ptr<fr::SSLSocket> tls; // or this
    std::shared_ptr<fr::SSLListener> tls_listener;
    std::string name;

    explicit Conn(Type t) : type(t)
    {
        static auto context = vt::context();
        if(t == Tcp) s = std::make_shared<fr::TcpSocket>();
        else if(t == Tls) s = std::make_shared<fr::SSLSocket>(context);
        else s = std::make_shared<Web>();
    }
    ~Conn() { s.reset(); tls.reset(); }
    void hang_up() { raw.reset(); if(tls) tls->disconnect(); tls.reset(); }
    // Makes a (further) connection
    bool open(Way w)
    {
        name = vh::cat(TYPES[type], " socket, ", WAYS[w]);
        hang_up();
        std::string why;
        if(type == Tls)
        {
            static auto context = vt::context();
            static auto listener = []{ auto l = vt::listener(); if(l->listen("0") != St::Success) vn::broken("listen"); return l; }();
            tls = std::make_shared<fr::SSLSocket>(context);
            auto &mine = static_cast<fr::SSLSocket&>(*s);
            bool ok = w == Connect ? vt::connect(*listener, mine, *tls, &why) : vt::connect(*listener, *tls, mine, &why);
            if(!ok) vh::violation("no-connection", vh::cat(name, ": ", why));
            return ok;
        }
        if(w == Connect)
        {
            vn::Server server;
            std::thread t([&]{
                raw = server.accept_within(20000);
                if(type != Ws) return;
                // Just enough of a WebSocket server
                std::string q, key;
                while(q.find("\r\n\r\n") == std::string::npos) { auto more = vn::read_some(raw.fd, 1, 20000); if(more.empty()) return; q += more; }
                for(auto &c : q) if(q.compare((size_t)(&c - q.data()), 18, "Sec-WebSocket-Key:") == 0 || q.compare((size_t)(&c - q.data()), 18, "sec-websocket-key:") == 0) { size_t b = (size_t)(&c - q.data()) + 18; key = q.substr(b, q.find("\r\n", b) - b); break; }
                key.erase(0, key.find_first_not_of(' '));
                vn::write_all(raw.fd, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + fr::Base64::encode(fr::Sha1::sha1_digest(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")) + "\r\n\r\n");
            });
            St r = s->connect("127.0.0.1", server.port_text(), std::chrono::seconds(20));
            if(r != St::Success) vn::dial(server.port);
            t.join();
            if(r != St::Success && !hasty()) vh::violation("no-connection", vh::cat(name, ": ", (int)r));
            return r == St::Success;
        }
        if(w == Accept || type == Ws)
        {
            fr::TcpListener l;
            if(l.listen("0") != St::Success) vn::broken("listen");
            raw = vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
            if(type == Ws) vn::write_all(raw.fd, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
            St r = St::Unknown;
            try { r = l.accept(*s); } catch(const std::exception &e) { why = e.what(); }
            if(r != St::Success) { if(!hasty()) vh::violation("no-connection", vh::cat(name, ": ", (int)r, " ", why)); return false; }
            if(type == Ws)
            {
                std::string a;
                while(a.find("\r\n\r\n") == std::string::npos) { auto more = vn::read_some(raw.fd, 1, 20000); if(more.empty()) vn::broken("handshake"); a += more; }
            }
            return true;
        }
        auto p = vn::tcp_pair();
        int fd = p.first.release();
        s->set_descriptor(&fd);
        raw = std::move(p.second);
        return true;
    }
    // Whether its timeout may have passed during the handshake
    bool hasty() const { bool h = type == Ws && s->get_receive_timeout() && s->get_receive_timeout() < 5000; if(h) vh::count("handshakes timed out"); return h; }
    bool feed(const std::string &d)
    {
        if(!tls) return vn::write_all(raw.fd, d);
        size_t n = 0;
        return tls->send_raw(d.data(), d.size(), n) == St::Success;
    }
    // As much, or what there is within the time
    std::string take(size_t n, int ms)
    {
        if(!tls) return vn::read_some(raw.fd, n, ms);
        tls->set_receive_timeout((uint32_t)ms);
        std::string r;
        std::vector<char> b(32768);
        while(r.size() < n)
        {
            size_t k = 0;
            if(tls->receive_raw(b.data(), std::min(b.size(), n - r.size()), k) != St::Success) break;
            r.append(b.data(), k);
        }
        return r;
    }
    int fd() const { return s->get_socket_descriptor(); }
    int peer_fd() const { return tls ? tls->get_socket_descriptor() : raw.fd; }
    // TLS handshakes may leave a record behind (tickets)
    void settle() { if(type != Tls) return; char b; size_t n; bool was = s->get_blocking(); s->set_blocking(false); for(int a = 0; a < 3; a++) s->receive_raw(&b, 1, n); s->set_blocking(was); }
};
struct Kind { Type t; Way w; };
inline Kind kind(uint64_t n)
{
    static const Kind k[] = {{Tcp, Connect}, {Tcp, Accept}, {Tcp, Adopt}, {Tls, Connect}, {Tls, Accept}, {Ws, Connect}, {Ws, Accept}};
    return k[n % 7];
}

// The ways to receive
enum How { Raw, All, PacketMsg, Request, Response, Frame, HOWS };
[[maybe_unused]] static const char *const HOW[] = {"receive_raw", "receive_all", "receive of a Packet", "receive of a HttpRequest", "receive of a HttpResponse", "receive of a frame"};
struct Receiver
{
    How how;
    char buffer[64];
    size_t got = 0;
    fr::Packet p;
    fr::HttpRequest q;
    fr::HttpResponse a;
    std::unique_ptr<fr::WebFrame> f;
    bool client;
    Receiver(How h, bool c) : how(h), client(c) { if(c) f.reset(new fr::ClientWebFrame()); else f.reset(new fr::ServerWebFrame()); }
    St operator()(fr::Socket &s)
    {
        switch(how)
        {
            case Raw: got = 999; return s.receive_raw(buffer, sizeof buffer, got);
            case All: return s.receive_all(buffer, 8);
            case PacketMsg: return s.receive(p);
            case Request: return s.receive(q);
            case Response: return s.receive(a);
            default: return s.receive(*f);
        }
    }
    // What ends it
    std::string message() const
    {
        switch(how)
        {
            case Raw: case All: return "abcdefgh";
            case PacketMsg: return std::string("\0\0\0\3abc", 7);
            case Request: return "GET /x HTTP/1.1\r\nA: b\r\n\r\n";
            case Response: return "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc";
            default: return client ? std::string("\x81\3abc", 5) : std::string("\x81\x83\0\0\0\0abc", 9);
        }
    }
};
}
#endif
