// TLS peers and certificates for the checks
#ifndef VH_TLS_H
#define VH_TLS_H
#include "vh.h"
#include "vh_net.h"
#include <frnetlib/SSLContext.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLSocket.h>

namespace vt
{
    inline std::string path(const std::string &name)
    {
        const char *d = getenv("VH_CERTS");
        return std::string(d ? d : "/verif/certs") + "/" + name;
    }
    inline std::string file(const std::string &name)
    {
        FILE *f = fopen(path(name).c_str(), "rb");
        if(!f) vn::broken(name);
        std::string s;
        char b[4096];
        size_t n;
        while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
        return s;
    }
    inline std::shared_ptr<fr::SSLContext> context(const std::vector<std::string> &cas = {"ca"})
    {
        auto c = std::make_shared<fr::SSLContext>();
        for(auto &n : cas) if(!c->load_ca_certs_from_file(path(n + ".pem"))) vn::broken("loading " + n);
        return c;
    }
    inline std::shared_ptr<fr::SSLListener> listener(const std::string &cert = "good", std::shared_ptr<fr::SSLContext> c = nullptr)
    {
        if(!c) { static auto shared = context({}); c = shared; }
        return std::make_shared<fr::SSLListener>(c, path(cert + ".pem"), path(cert + ".key"));
    }
    // A connected pair. False if it doesn't work out.
    inline bool connect(fr::SSLListener &l, fr::SSLSocket &client, fr::SSLSocket &server, std::string *why = nullptr)
    {
        fr::Socket::Status a = fr::Socket::Status::Unknown, c;
        std::thread t([&]{ a = l.accept(server); });
        c = client.connect("localhost", std::to_string(vn::port_of(l.get_socket_descriptor())), std::chrono::seconds(20));
        if(c != fr::Socket::Status::Success) vn::dial((uint16_t)vn::port_of(l.get_socket_descriptor()));
        t.join();
        if(why) *why = vh::cat("connect: ", (int)c, ", accept: ", (int)a);
        return a == fr::Socket::Status::Success && c == fr::Socket::Status::Success;
    }
}
#endif
