// Two library sockets connected to each other
#ifndef VH_PAIR_H
#define VH_PAIR_H
#include "vh_conn.h"

namespace vc
{
// 'a' connected to a listener, which accepted 'b'
struct Pair
{
    Type type;
    std::shared_ptr<fr::Socket> a, b;
    explicit Pair(Type t) : type(t)
    {
        static auto context = vt::context();
        auto make = [&]() -> std::shared_ptr<fr::Socket> {
            if(t == Tcp) return std::make_shared<fr::TcpSocket>();
            if(t == Tls) return std::make_shared<fr::SSLSocket>(context);
            return std::make_shared<Web>();
        };
        a = make();
        b = make();
    }
    bool open()
    {
        std::string why;
        bool ok;
        if(type == Tls)
        {
            static auto listener = []{ auto l = vt::listener(); if(l->listen("0") != St::Success) vn::broken("listen"); return l; }();
            ok = vt::connect(*listener, static_cast<fr::SSLSocket&>(*a), static_cast<fr::SSLSocket&>(*b), &why);
        }
        else
        {
            fr::TcpListener l;
            if(l.listen("0") != St::Success) vn::broken("listen");
            const int port = vn::port_of(l.get_socket_descriptor());
            St accepted = St::Unknown;
            std::thread t([&]{ try { accepted = l.accept(*b); } catch(const std::exception &e) { why = e.what(); } });
            St connected = a->connect("127.0.0.1", std::to_string(port), std::chrono::seconds(20));
            if(connected != St::Success) vn::dial((uint16_t)port);
            t.join();
            ok = connected == St::Success && accepted == St::Success;
            why += vh::cat(" connect: ", (int)connected, ", accept: ", (int)accepted);
        }
        if(!ok) vh::violation("no-connection", vh::cat(TYPES[type], ": ", why));
        // What would hang ends with Timeout, a while after it should have been over
        for(auto *s : {a.get(), b.get()}) if(ok) { s->set_receive_timeout((uint32_t)vh::patience(40000)); s->set_send_timeout((uint32_t)vh::patience(40000)); }
        return ok;
    }
    // Small buffers make for short counts and waiting
    void narrow(int bytes) { vn::buffers(a->get_socket_descriptor(), bytes); vn::buffers(b->get_socket_descriptor(), bytes); }
};
}
#endif
