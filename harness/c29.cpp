// C29: TLS credentials are loaded or refused truthfully, and stay usable
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <frnetlib/Packet.h>
#include <mbedtls/ecp.h>
#include <mbedtls/pem.h>
#include <sys/mman.h>
#include <memory>
using vh::Rng;
typedef fr::Socket::Status St;

// ---- authorities made here, each with a server's certificate ----
struct Authority { std::string pem, der, leaf_pem, leaf_der, leaf_key, leaf_key_der; };
struct Makers
{
    mbedtls_entropy_context entropy;
    mbedtls_ctr_drbg_context drbg;
    std::vector<Authority> all;
    static std::string pem_of(const char *what, const std::string &der)
    {
        std::vector<unsigned char> b(der.size() * 2 + 200);
        size_t n = 0;
        const std::string h = std::string("-----BEGIN ") + what + "-----\n", f = std::string("-----END ") + what + "-----\n";
        if(mbedtls_pem_write_buffer(h.c_str(), f.c_str(), (const unsigned char*)der.data(), der.size(), b.data(), b.size(), &n) != 0) vn::broken("PEM");
        return std::string((char*)b.data(), n - 1);
    }
    std::string issue(mbedtls_pk_context &subject_key, const std::string &subject, mbedtls_pk_context &issuer_key, const std::string &issuer, bool ca, int serial)
    {
        mbedtls_x509write_cert w;
        mbedtls_x509write_crt_init(&w);
        mbedtls_mpi n;
        mbedtls_mpi_init(&n);
        unsigned char b[4096];
        int r = mbedtls_mpi_lset(&n, serial);
        mbedtls_x509write_crt_set_version(&w, MBEDTLS_X509_CRT_VERSION_3);
        mbedtls_x509write_crt_set_md_alg(&w, MBEDTLS_MD_SHA256);
        mbedtls_x509write_crt_set_subject_key(&w, &subject_key);
        mbedtls_x509write_crt_set_issuer_key(&w, &issuer_key);
        r |= mbedtls_x509write_crt_set_serial(&w, &n);
        r |= mbedtls_x509write_crt_set_subject_name(&w, subject.c_str());
        r |= mbedtls_x509write_crt_set_issuer_name(&w, issuer.c_str());
        r |= mbedtls_x509write_crt_set_validity(&w, "20000101000000", "20491231000000");
        r |= mbedtls_x509write_crt_set_basic_constraints(&w, ca, -1);
        const int len = mbedtls_x509write_crt_der(&w, b, sizeof b, mbedtls_ctr_drbg_random, &drbg);
        if(r != 0 || len <= 0) vn::broken(vh::cat("making a certificate: ", r, " ", len));
        mbedtls_x509write_crt_free(&w);
        mbedtls_mpi_free(&n);
        return std::string((char*)b + sizeof b - len, (size_t)len);
    }
    void key(mbedtls_pk_context &k)
    {
        mbedtls_pk_init(&k);
        if(mbedtls_pk_setup(&k, mbedtls_pk_info_from_type(MBEDTLS_PK_ECKEY)) != 0 || mbedtls_ecp_gen_key(MBEDTLS_ECP_DP_SECP256R1, mbedtls_pk_ec(k), mbedtls_ctr_drbg_random, &drbg) != 0) vn::broken("making a key");
    }
    Makers()
    {
        mbedtls_entropy_init(&entropy);
        mbedtls_ctr_drbg_init(&drbg);
        if(mbedtls_ctr_drbg_seed(&drbg, mbedtls_entropy_func, &entropy, nullptr, 0) != 0) vn::broken("seeding");
        for(int a = 0; a < 10; a++)
        {
            mbedtls_pk_context ck, lk;
            key(ck);
            key(lk);
            Authority x;
            const std::string name = vh::cat("CN=VH made ", a);
            x.der = issue(ck, name, ck, name, true, a * 2 + 1);
            x.leaf_der = issue(lk, "CN=localhost", ck, name, false, a * 2 + 2);
            unsigned char b[4096];
            if(mbedtls_pk_write_key_pem(&lk, b, sizeof b) != 0) vn::broken("writing a key");
            x.leaf_key = (char*)b;
            const int n = mbedtls_pk_write_key_der(&lk, b, sizeof b);
            if(n <= 0) vn::broken("writing a key");
            x.leaf_key_der.assign((char*)b + sizeof b - n, (size_t)n);
            x.pem = pem_of("CERTIFICATE", x.der);
            x.leaf_pem = pem_of("CERTIFICATE", x.leaf_der);
            mbedtls_pk_free(&ck);
            mbedtls_pk_free(&lk);
            all.push_back(x);
        }
    }
};
static const std::vector<Authority> &authorities() { static Makers *m = new Makers; return m->all; }

// A file which only this process has
struct File
{
    int fd;
    File(const std::string &s) : fd(memfd_create("vh", 0))
    {
        if(fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) vn::broken("file");
    }
    ~File() { __real_close(fd); }
    std::string path() const { return vh::cat("/proc/self/fd/", fd); }
};

// Whether a context's authorities vouch for a certificate
static bool vouches(fr::SSLContext &c, const std::string &leaf_der)
{
    mbedtls_x509_crt l;
    mbedtls_x509_crt_init(&l);
    if(mbedtls_x509_crt_parse_der(&l, (const unsigned char*)leaf_der.data(), leaf_der.size()) != 0) vn::broken("a certificate");
    uint32_t flags = 0;
    const int r = mbedtls_x509_crt_verify(&l, &c.cacert, nullptr, "localhost", &flags, nullptr, nullptr);
    mbedtls_x509_crt_free(&l);
    return r == 0;
}
// A certificate's text with something wrong in it, which leaves the block recognisable
static std::string spoiled(Rng &r, std::string pem)
{
    const size_t body = pem.find('\n', pem.find("-----BEGIN")) + 1, end = pem.find("-----END");
    switch(r.below(4))
    {
        case 0: pem[body + r.below(40)] = r.pick({'*', '!', '_', '\x01'}); break;   // isn't base64
        case 1: pem.erase(body + 65 * r.below(3), 65); break;                       // a line is missing
        case 2: pem = pem.substr(0, body) + pem.substr(end); break;                // empty
        default: // something else
        {
            const std::string x = Makers::pem_of("X", r.bytes(60 + r.below(300)));
            const size_t b = x.find('\n') + 1;
            pem = pem.substr(0, body) + x.substr(b, x.find("-----END") - b) + pem.substr(end);
        }
    }
    return pem;
}
struct Load { std::string text, what; bool fine = true; std::vector<size_t> holds; bool partly = false; };
static Load some_load(Rng &r)
{
    const auto &a = authorities();
    Load l;
    switch(r.below(10))
    {
        case 0: // one, DER
        {
            const size_t n = r.below(a.size());
            l.text = a[n].der;
            l.holds = {n};
            l.what = "DER";
            if(r.chance(1, 3)) { l.fine = false; l.holds.clear(); l.text.resize(r.below(l.text.size())); l.what = "cut DER"; }
            break;
        }
        case 1: // nothing of the kind
            l.fine = false;
            l.text = r.pick<std::string>({"", " ", "\n", "garbage", "-----BEGIN CERTIFICATE-----", "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n", "-----BEGIN ", "-----END CERTIFICATE-----\n", std::string(4, '\0'), r.bytes(r.below(2000)), "# no certificates\n",
                                          a[0].leaf_key, a[0].leaf_key_der});
            l.what = "nothing";
            break;
        default: // any number, PEM
        {
            const size_t n = 1 + r.below(r.chance(1, 20) ? 150 : r.coin() ? 2 : 6);
            const bool bad = r.chance(1, 3), crlf = r.chance(1, 5);
            const size_t which = r.below(n);
            for(size_t i = 0; i < n; i++)
            {
                const size_t c = r.below(a.size());
                std::string t = a[c].pem;
                if(bad && (i == which || r.chance(1, 8))) { t = spoiled(r, t); l.fine = false; l.partly = true; l.holds.clear(); }
                else if(l.fine) l.holds.push_back(c);
                if(r.chance(1, 4)) l.text += r.pick<std::string>({"# an authority\n", "\n\n", "VH made\n=======\n", "subject=/CN=VH\nissuer=/CN=VH\n"});
                l.text += t;
            }
            if(r.chance(1, 4)) while(!l.text.empty() && l.text.back() == '\n') l.text.pop_back();
            else if(r.chance(1, 5)) l.text += "\n# the end\n";
            if(crlf) { std::string t; for(char c : l.text) { if(c == '\n') t += '\r'; t += c; } l.text = t; }
            l.what = vh::cat(n, " PEM", bad ? ", not all well" : "", crlf ? ", CRLF" : "");
        }
    }
    return l;
}
VH_SECTION(contexts, 1500, 20000)
{
    const auto &a = authorities();
    auto c = std::make_shared<fr::SSLContext>();
    std::set<size_t> in, perhaps;
    std::string story;
    for(size_t n = 1 + rng.below(6); n > 0; n--)
    {
        const Load l = some_load(rng);
        bool got;
        const unsigned way = (unsigned)rng.below(4);
        if(way == 0) { got = c->load_ca_certs_from_file(vh::cat("/proc/self/fd/", 90000 + rng.below(1000))); story += " [missing]"; vh::count("missing files"); }
        else if(way == 1) { File f(l.text); got = c->load_ca_certs_from_file(f.path()); story += " [file: " + l.what + "]"; }
        else { got = c->load_ca_certs_from_memory(l.text); story += " [" + l.what + "]"; }
        const bool should = way != 0 && l.fine;
        VH_CHECK(got == should, should ? "refused" : "took-bad", "loading said ", got, " after", story, ": ", vh::show(l.text, 200));
        vh::count(should ? "loads: fine" : "loads: refused");
        if(should) in.insert(l.holds.begin(), l.holds.end());
        if(way != 0 && l.partly) for(size_t i = 0; i < a.size(); i++) perhaps.insert(i);
        // What's trusted is what was loaded, whatever failed since
        for(size_t i = 0; i < a.size(); i++)
        {
            const bool v = vouches(*c, a[i].leaf_der);
            if(in.count(i)) VH_CHECK(v, "forgotten", "authority ", i, " was loaded but isn't trusted after", story);
            else if(!perhaps.count(i)) VH_CHECK(!v, "trusted", "authority ", i, " is trusted without having been loaded after", story);
            vh::count("authorities looked up");
        }
    }
    vh::distinct(vh::hash_str(story, rng.fork()));
    if(vh::want_sample("contexts")) vh::sample("contexts", story);
}

// ---- servers' credentials ----
struct Credentials { std::string cert, key, what; bool fine = true; std::vector<std::string> trust; bool chain = false; };
static Credentials some_credentials(Rng &r)
{
    const auto &a = authorities();
    const size_t n = r.below(a.size());
    Credentials c;
    switch(r.below(6))
    {
        case 0: c.cert = a[n].leaf_der; c.what = "DER certificate"; c.key = a[n].leaf_key; c.trust = {a[n].pem}; break;
        case 1: c.cert = vt::file("rsa.pem"); c.key = vt::file("rsa.key"); c.trust = {vt::file("ca.pem")}; c.what = "RSA"; break;
        case 2: case 3: c.cert = vt::file("chain.pem"); c.key = vt::file("chain.key"); c.trust = {vt::file("ca.pem")}; c.what = "chain"; c.chain = true; break;
        case 4: c.cert = "# a server\n" + a[n].leaf_pem + "\n# the rest\n"; c.key = a[n].leaf_key; c.trust = {a[n].pem}; c.what = "with comments"; break;
        default: c.cert = a[n].leaf_pem; c.key = a[n].leaf_key; c.trust = {a[n].pem}; c.what = "PEM"; if(r.coin()) { c.key = a[n].leaf_key_der; c.what = "DER key"; }
    }
    const unsigned wrong = (unsigned)r.below(14);
    if(wrong < 8) c.fine = false;
    switch(wrong)
    {
        case 0: c.cert = r.pick<std::string>({"", "garbage", r.bytes(300), c.key}); c.what += ", no certificate"; break;
        case 1: c.key = r.pick<std::string>({"", "garbage", r.bytes(300), c.cert}); c.what += ", no key"; break;
        case 2: c.cert = spoiled(r, a[n].leaf_pem); c.what += ", bad certificate"; break;
        case 3: c.cert = a[n].leaf_pem + spoiled(r, a[n].pem); c.what += ", bad rest of the chain"; break;
        case 4: c.key = vt::file("locked.key"); c.what += ", locked key"; break;
        case 5: { size_t b = c.key.find("-----BEGIN"); if(b == std::string::npos) c.key.resize(r.below(c.key.size())); else c.key = spoiled(r, a[n].leaf_key.substr(a[n].leaf_key.find("-----BEGIN"))); c.what += ", bad key"; break; }
        case 6: c.cert = ""; c.what += ", missing certificate file"; break;
        case 7: c.key = ""; c.what += ", missing key file"; break;
        default: break;
    }
    if(wrong == 6) c.cert = "-";
    if(wrong == 7) c.key = "-";
    return c;
}
static std::shared_ptr<fr::SSLContext> trusting(const std::vector<std::string> &pems)
{
    auto c = std::make_shared<fr::SSLContext>();
    for(auto &p : pems) if(!c->load_ca_certs_from_memory(p)) vn::broken("loading an authority");
    return c;
}
// Says something both ways. Empty if it went well.
static std::string talk(Rng &r, fr::SSLSocket &x, fr::SSLSocket &y)
{
    for(int way = 0; way < 2; way++)
    {
        fr::Packet out, in;
        const std::string s = r.bytes(r.below(400));
        std::string got;
        out << s;
        fr::SSLSocket &from = way ? y : x, &to = way ? x : y;
        from.set_receive_timeout(20000);
        to.set_receive_timeout(20000);
        St st = from.send(out);
        if(st != St::Success) return vh::cat("sending reports ", (int)st);
        st = to.receive(in);
        if(st != St::Success) return vh::cat("receiving reports ", (int)st);
        in >> got;
        if(got != s) return "something else arrived";
    }
    return "";
}
VH_SECTION(listeners, 1500, 20000)
{
    const Credentials c = some_credentials(rng);
    auto shared = trusting({});
    std::unique_ptr<File> cf(c.cert == "-" ? nullptr : new File(c.cert)), kf(c.key == "-" ? nullptr : new File(c.key));
    std::shared_ptr<fr::SSLListener> l;
    bool threw = false;
    const std::string missing = vh::cat("/proc/self/fd/", 90000 + rng.below(1000));
    try { l = std::make_shared<fr::SSLListener>(shared, cf ? cf->path() : missing, kf ? kf->path() : missing); }
    catch(const std::runtime_error &) { threw = true; }
    VH_CHECK(threw == !c.fine, threw ? "refused" : "took-bad", "a listener with ", c.what, threw ? " is refused" : " is taken");
    vh::distinct(vh::hash_str(c.what, rng.fork()));
    if(threw) { vh::count("listeners refused"); return; }
    // The files aren't needed any more
    cf.reset();
    kf.reset();
    if(rng.coin()) shared.reset();
    vh::count("listeners made");
    if(vh::want_sample("listeners")) vh::sample("listeners", c.what);
    if(rng.chance(2, 3) && !c.chain) return;
    if(l->listen("0") != St::Success) vn::broken("listening");
    for(size_t n = 1 + rng.below(3); n > 0; n--)
    {
        // Whatever it was made from, it's the whole chain that's presented
        auto cc = trusting(c.trust);
        fr::SSLSocket x(cc), y(nullptr);
        if(rng.coin()) cc.reset();
        std::string why;
        VH_CHECK(vt::connect(*l, x, y, &why), "unusable", "a listener with ", c.what, " can't be connected to: ", why);
        const std::string t = talk(rng, x, y);
        VH_CHECK(t.empty(), "unusable", "with ", c.what, ": ", t);
        vh::count(c.chain ? "sessions with chains" : "sessions");
    }
}

// Connects, or doesn't
static bool connect(fr::SSLListener &l, fr::SSLSocket &client, fr::SSLSocket &server, std::string &why)
{
    St a = St::Unknown;
    std::thread t([&]{ a = l.accept(server); });
    const St c = client.connect("localhost", std::to_string(vn::port_of(l.get_socket_descriptor())), std::chrono::seconds(20));
    t.join();
    why = vh::cat("connect: ", (int)c, ", accept: ", (int)a);
    return a == St::Success && c == St::Success;
}

// ---- contexts which are shared, added to, and let go of ----
VH_SECTION(lives, 500, 6000)
{
    const auto &a = authorities();
    struct Server { size_t authority; std::shared_ptr<fr::SSLListener> l; };
    std::vector<Server> servers;
    for(int n = 0; n < 2; n++)
    {
        Server s;
        s.authority = rng.below(a.size());
        File cf(a[s.authority].leaf_pem), kf(a[s.authority].leaf_key);
        s.l = std::make_shared<fr::SSLListener>(trusting({}), cf.path(), kf.path());
        if(s.l->listen("0") != St::Success) vn::broken("listening");
        servers.push_back(s);
    }
    auto c = std::make_shared<fr::SSLContext>();
    std::set<size_t> in;
    struct Client { std::unique_ptr<fr::SSLSocket> s, peer; };
    std::vector<Client> clients;
    std::string story;
    for(size_t steps = 4 + rng.below(10); steps > 0; steps--)
    {
        switch(rng.below(6))
        {
            case 0:
            {
                if(!c) break;
                const size_t n = rng.coin() ? servers[rng.below(2)].authority : rng.below(a.size());
                if(!(rng.coin() ? c->load_ca_certs_from_memory(a[n].pem) : c->load_ca_certs_from_file(File(a[n].pem).path()))) vh::violation("refused", vh::cat("a good authority is refused after", story));
                in.insert(n);
                story += vh::cat(" +", n);
                break;
            }
            case 1:
                if(!c) break;
                if(c->load_ca_certs_from_memory(rng.pick<std::string>({"", "garbage", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"})) || c->load_ca_certs_from_file("/nonexistent/vh")) vh::violation("took-bad", "garbage is taken for an authority");
                story += " bad";
                break;
            case 2: // a new socket
                if(!c) break;
                clients.push_back({std::unique_ptr<fr::SSLSocket>(new fr::SSLSocket(c)), nullptr});
                story += " new";
                break;
            case 3:
                if(clients.empty() || !rng.chance(1, 3)) break;
                c.reset(); // the sockets keep it
                story += " let go";
                vh::count("contexts let go of");
                break;
            default:
            {
                if(clients.empty()) break;
                Client &k = clients[rng.below(clients.size())];
                Server &s = servers[rng.below(2)];
                if(k.peer) { k.s->disconnect(); k.peer.reset(); }
                k.peer.reset(new fr::SSLSocket(nullptr));
                const bool should = in.count(s.authority) > 0;
                std::string why;
                const bool did = connect(*s.l, *k.s, *k.peer, why);
                story += vh::cat(" connect:", s.authority);
                VH_CHECK(did == should, should ? "forgotten" : "trusted", "connecting ", should ? "should have worked: " : "shouldn't have worked: ", why, " after", story);
                vh::count(should ? "connects which should work" : "connects which shouldn't");
                if(!did) k.peer.reset();
            }
        }
        // Every session goes on, whatever becomes of the others
        for(auto &k : clients) if(k.peer)
        {
            const std::string t = talk(rng, *k.s, *k.peer);
            VH_CHECK(t.empty(), "unusable", "a session is broken: ", t, " after", story);
            vh::count("sessions kept up");
        }
    }
    for(auto &k : clients) { k.peer.reset(); k.s.reset(); }
    vh::distinct(vh::hash_str(story, rng.fork()));
    if(vh::want_sample("lives")) vh::sample("lives", story);
}
