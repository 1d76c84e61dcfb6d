// C28: messages are values: copies and moves equal what they were made of, and nothing done to one affects another
#define VH_MAIN
#include <vh.h>
#include <vh_mock.h>
#include <vh_packet.h>
#include <vh_ws.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Packet.h>
#include <frnetlib/URL.h>
#include <memory>
#include <sys/wait.h>
using vh::Rng;
typedef fr::Socket::Status St;
typedef fr::Http Http;

// What a type can do, and everything there is to see of it. Doing the same to equal objects must leave them equal: 'act' depends on its seed
// and the object only. 'd' is the data which has yet to arrive.
template<typename T> struct Of;

static const char *const KEYS[] = {"alpha", "beta", "x-gamma", "content-type", "delta", "host", "connection"};
static const unsigned N_KEYS = 7;

// ---- packets ----
template<> struct Of<fr::Packet>
{
    static const char *name() { return "packet"; }
    static void act(fr::Packet &p, uint64_t seed, std::string &)
    {
        Rng r(seed);
        switch(r.below(12))
        {
            case 0: case 1: case 2: case 3: vp::random_item(r)->add(p); break;
            case 4: case 5: try { vp::random_item(r)->extract_equal(p); } catch(const std::out_of_range &) {} break;
            case 6: p.clear(); break;
            case 7: p.set_cursor(r.below(p.size() + 1)); break;
            case 8: { std::string s = r.bytes(r.below(30)); p.add_raw(s.data(), s.size()); break; }
            case 9: { std::string s(r.below(10), '\0'); try { p.extract_raw(&s[0], s.size()); } catch(const std::out_of_range &) {} break; }
            case 10: { vh::MockSocket m(&r); m.send(p); break; }
            default:
            {
                vh::MockSocket m(&r);
                std::string payload = r.bytes(r.below(60));
                vp::put_be(m.in, payload.size(), 4);
                m.in += payload;
                if(r.chance(1, 4)) m.in.resize(r.below(m.in.size()));
                if(r.chance(1, 4)) m.set_max_receive_size(10);
                m.max_chunk = 7;
                m.receive(p);
            }
        }
    }
    static std::string see(const fr::Packet &p)
    {
        fr::Packet all(p);
        all.set_cursor(0);
        std::string s(all.get_bytes_remaining(), '\0');
        all.extract_raw(&s[0], s.size());
        return vh::cat(p.size(), "@", p.get_cursor(), "-", p.get_bytes_remaining(), ":", s);
    }
};
// ---- HTTP messages ----
static std::string http_text(Rng &r, bool request)
{
    std::string t, body;
    if(request) t = std::string(r.pick<const char*>({"GET", "POST", "PUT"})) + " /" + r.from("abc", r.below(5)) + r.pick<std::string>({"", "?alpha=1", "?alpha=2&beta=3&delta"}) + " HTTP/1." + (r.coin() ? "0" : "1") + "\r\n";
    else t = "HTTP/1.1 " + std::to_string(r.range(200, 599)) + " OK\r\n";
    for(unsigned a = 0; a < 4; a++) if(r.coin()) t += std::string(KEYS[a]) + ": " + r.from("abc ", r.below(9)) + "z\r\n";
    if(!request && r.coin())
    {
        t += r.pick<std::string>({"Transfer-Encoding: chunked\r\n\r\n", "Transfer-Encoding: gzip\r\ntransfer-encoding: chunked\r\n\r\n", "transfer-encoding: gzip, chunked\r\n\r\n"});
        for(size_t a = 1 + r.below(4); a > 0; a--) { std::string c = r.bytes(1 + r.below(20)); char h[9]; snprintf(h, sizeof h, "%zx", c.size()); t += std::string(h) + "\r\n" + c + "\r\n"; }
        t += "0\r\n\r\n";
    }
    else
    {
        body = r.coin() ? r.bytes(r.below(60)) : "alpha=x&delta=y";
        if(!request && r.chance(1, 3)) t += "Transfer-Encoding: identity\r\n";
        t += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    }
    if(r.chance(1, 6)) t[r.below(t.size())] = (char)r.byte();
    return t;
}
template<typename H> struct OfHttp
{
    static const bool request = std::is_same<H, fr::HttpRequest>::value;
    static const char *name() { return request ? "request" : "response"; }
    static void act(H &h, uint64_t seed, std::string &d)
    {
        Rng r(seed);
        switch(r.below(14))
        {
            case 0: h.header(KEYS[r.below(N_KEYS)]) = r.from("abc", r.below(40)); break;
            case 1: h.get(KEYS[r.below(5)]) = r.from("abc", r.below(20)); break;
            case 2: h.post(KEYS[r.below(5)]) = r.from("abc", r.below(20)); break;
            case 3: h.set_body(r.bytes(r.below(100))); break;
            case 4: h.set_uri("/" + r.from("abc", r.below(30))); break;
            case 5: h.set_type((Http::RequestType)r.below(5)); h.set_version((Http::RequestVersion)(1 + r.below(2))); break;
            case 6: h.set_status((Http::RequestStatus)r.range(100, 599)); break;
            case 7: { vh::MockSocket m(&r); m.max_send = 50; m.send(h); break; }
            case 8: { h.header(KEYS[r.below(N_KEYS)]) += "more"; break; }
            case 9:
            {
                vh::MockSocket m(&r);
                m.in = http_text(r, request);
                if(r.chance(1, 3)) m.in.resize(r.below(m.in.size()));
                m.max_chunk = 40;
                m.receive(h);
                d.clear();
                break;
            }
            default:
            {
                if(d.empty()) d = http_text(r, request);
                const size_t n = 1 + r.below(d.size());
                const St st = h.parse(d.data(), n);
                d.erase(0, n);
                if(st != St::NotEnoughData) d.clear();
            }
        }
    }
    static std::string see(const H &c)
    {
        H &h = const_cast<H&>(c); // the accessors of what exists aren't const
        std::string s = vh::cat((int)c.get_type(), " ", c.get_uri(), " ", (int)c.get_version(), " ", (int)c.get_status(), "\n", c.get_body(), "\n", c.construct("some.host").size());
        for(auto k : KEYS)
        {
            if(c.header_exists(k)) s += vh::cat("\nH ", k, "=", h.header(k));
            if(c.get_exists(k)) s += vh::cat("\nG ", k, "=", h.get(k));
            if(c.post_exists(k)) s += vh::cat("\nP ", k, "=", h.post(k));
        }
        return s;
    }
};
template<> struct Of<fr::HttpRequest> : OfHttp<fr::HttpRequest> {};
template<> struct Of<fr::HttpResponse> : OfHttp<fr::HttpResponse> {};
// ---- frames ----
template<typename F, bool CLIENT> struct OfFrame
{
    static const char *name() { return CLIENT ? "client's frame" : "server's frame"; }
    static void act(F &f, uint64_t seed, std::string &)
    {
        Rng r(seed);
        switch(r.below(6))
        {
            case 0: f.set_payload(r.bytes(r.below(300))); break;
            case 1: f.set_opcode((fr::WebFrame::Opcode)r.pick({0, 1, 2, 8, 9, 10})); break;
            case 2: f.set_final(r.coin()); break;
            case 3: { vh::MockSocket m(&r); m.send(f); break; }
            default:
            {
                vh::MockSocket m(&r);
                vw::Frame x;
                x.opcode = (unsigned)r.pick({0, 1, 2, 8, 9});
                x.fin = r.coin();
                x.masked = r.chance(1, 8) ? CLIENT : !CLIENT;
                x.payload = r.bytes(r.below(r.coin() ? 20 : 300));
                x.form = vw::shortest(x.payload.size());
                m.in = vw::encode(x);
                if(r.chance(1, 3)) m.in.resize(r.below(m.in.size()));
                m.max_chunk = 30;
                m.receive(f);
            }
        }
    }
    static std::string see(const F &c) { F &f = const_cast<F&>(c); return vh::cat((int)f.get_opcode(), f.is_final() ? " final " : " ", f.get_payload()); }
};
template<> struct Of<fr::ClientWebFrame> : OfFrame<fr::ClientWebFrame, true> {};
template<> struct Of<fr::ServerWebFrame> : OfFrame<fr::ServerWebFrame, false> {};
// ---- URLs ----
template<> struct Of<fr::URL>
{
    static const char *name() { return "URL"; }
    static void act(fr::URL &u, uint64_t seed, std::string &)
    {
        Rng r(seed);
        const std::string w = r.from("abcd", 1 + r.below(30));
        switch(r.below(8))
        {
            case 0: u.set_host(w); break;
            case 1: u.set_port(std::to_string(r.below(65536))); break;
            case 2: u.set_path("/" + w); break;
            case 3: u.set_query(w); break;
            case 4: u.set_fragment(w); break;
            case 5: u.set_scheme((fr::URL::Scheme)r.below(5)); break;
            default: u.parse(r.pick<std::string>({"http://", "https://", "", "wss://"}) + r.pick<std::string>({w, w + ":80", "[::1]:9"}) + r.pick<std::string>({"", "/", "/" + w, "/" + w + "?" + w, "?" + w + "#" + w, "#x"}));
        }
    }
    static std::string see(const fr::URL &u) { return vh::cat((int)u.get_scheme(), "|", u.get_host(), "|", u.get_port(), "|", u.get_path(), "|", u.get_query(), "|", u.get_fragment(), "|", u.get_url(), "|", u.get_uri()); }
};

// An object, and what was done to get there
template<typename T> struct Kept { std::unique_ptr<T> o{new T()}; std::vector<uint64_t> past; std::string rest; bool moved = false; };
template<typename T> static std::string expected(const Kept<T> &k)
{
    T fresh;
    std::string rest;
    for(uint64_t a : k.past) Of<T>::act(fresh, a, rest);
    return Of<T>::see(fresh);
}
template<typename T> static T through(T v) { return v; }
template<typename T> static void values(Rng &rng, bool large)
{
    typedef Of<T> O;
    std::vector<Kept<T>> k(4);
    std::string story;
    const size_t steps = 6 + rng.below(large ? 60 : 24);
    auto check = [&](const Kept<T> &x, const char *when) {
        if(x.moved) return true;
        const std::string is = O::see(*x.o), should = expected(x);
        VH_CHECK(O::see(*x.o) == is, "seeing-changes", O::name(), ": ", story);
        if(is == should) return true;
        vh::violation("differs", vh::cat(O::name(), " ", when, ": ", vh::show(is, 300), " instead of ", vh::show(should, 300), " after ", story));
        return false;
    };
    for(size_t s = 0; s < steps; s++)
    {
        const size_t i = rng.below(k.size()), j = (i + 1 + rng.below(k.size() - 1)) % k.size();
        Kept<T> &x = k[i], &y = k[j];
        auto act = [&](Kept<T> &z) {
            if(z.moved) return;
            const uint64_t a = rng.u64();
            O::act(*z.o, a, z.rest);
            z.past.push_back(a);
            vh::count("changes");
        };
        auto same = [&](Kept<T> &to, const Kept<T> &from) { to.past = from.past; to.rest = from.rest; to.moved = from.moved; };
        switch(rng.below(16))
        {
            case 0: case 1: // copies
                if(x.moved) break;
                if(rng.coin()) *y.o = *x.o; else y.o.reset(new T(*x.o));
                same(y, x);
                story += vh::cat(" ", j, "=", i);
                vh::count("copies");
                // Change one of them at once
                if(rng.coin()) act(rng.coin() ? x : y);
                break;
            case 2: // moves
                if(x.moved) break;
                if(rng.coin()) *y.o = std::move(*x.o); else y.o.reset(new T(std::move(*x.o)));
                same(y, x);
                x.moved = true;
                story += vh::cat(" ", j, "<-", i);
                vh::count("moves");
                break;
            case 3: // made anew, whatever it was
                if(rng.coin()) *x.o = T(); else { T fresh; *x.o = fresh; }
                x.past.clear();
                x.rest.clear();
                x.moved = false;
                story += vh::cat(" ", i, "=new");
                vh::count("made anew");
                break;
            case 4:
                if(x.moved) break;
                { T &alias = *x.o; *x.o = alias; } // to itself
                story += vh::cat(" ", i, "=", i);
                break;
            case 5: std::swap(*x.o, *y.o); std::swap(x.past, y.past); std::swap(x.rest, y.rest); std::swap(x.moved, y.moved); story += vh::cat(" swap", i, j); vh::count("moves"); break;
            case 6:
                if(x.moved) break;
                *y.o = through(*x.o);
                same(y, x);
                story += vh::cat(" ", j, "=f(", i, ")");
                vh::count("copies");
                break;
            case 7: // within a container which grows
            {
                if(x.moved) break;
                std::vector<T> v;
                for(int a = 0; a < 5; a++) v.push_back(*x.o);
                v.erase(v.begin());
                *y.o = v[rng.below(v.size())];
                same(y, x);
                story += vh::cat(" ", j, "=v", i);
                vh::count("copies");
                break;
            }
            case 8: y.o.reset(new T()); y.past.clear(); y.rest.clear(); y.moved = false; story += vh::cat(" new", j); break; // and the old one's gone
            default: act(x); story += vh::cat(" ", i, "!"); break;
        }
        if(!check(x, "changed") || !check(y, "changed")) return;
    }
    for(auto &x : k) if(!check(x, "in the end")) return;
    vh::count(vh::cat("stories: ", O::name()));
    vh::distinct(vh::hash_str(story, rng.fork()));
    if(vh::want_sample(O::name(), 1)) vh::sample(O::name(), vh::cat(O::name(), ":", story), 1);
}
// What an object comes to hold, seen from a process of its own: one in which nothing else was ever done, or other objects were used before
template<typename T> static std::string by(const std::vector<uint64_t> &acts)
{
    T o;
    std::string rest, all;
    for(uint64_t a : acts) { Of<T>::act(o, a, rest); all += Of<T>::see(o) + "\n--\n"; }
    return all;
}
static std::string lived(unsigned kind, const std::vector<uint64_t> &acts)
{
    switch(kind)
    {
        case 0: return by<fr::Packet>(acts);
        case 1: return by<fr::HttpRequest>(acts);
        case 2: return by<fr::HttpResponse>(acts);
        case 3: return by<fr::ClientWebFrame>(acts);
        case 4: return by<fr::ServerWebFrame>(acts);
        default: return by<fr::URL>(acts);
    }
}
static bool in_a_process(const std::function<std::string()> &f, std::string &result)
{
    int p[2];
    if(pipe(p)) { fprintf(stderr, "HARNESS pipe\n"); _exit(94); }
    pid_t child = fork();
    if(child < 0) { fprintf(stderr, "HARNESS fork\n"); _exit(94); }
    if(child == 0)
    {
        close(p[0]);
        std::string r = f();
        for(size_t at = 0; at < r.size();) { ssize_t n = write(p[1], r.data() + at, r.size() - at); if(n <= 0) _exit(3); at += (size_t)n; }
        _exit(0);
    }
    close(p[1]);
    result.clear();
    char b[4096];
    for(ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) result.append(b, (size_t)n);
    close(p[0]);
    int status = 0;
    waitpid(child, &status, 0);
    return status == 0;
}
// Comes first, nothing having been used yet in this process
VH_SECTION(alone, 400, 8000)
{
    const unsigned kind = (unsigned)(index % 6);
    std::vector<uint64_t> acts(1 + rng.below(40));
    for(auto &a : acts) a = rng.u64();
    std::vector<std::pair<unsigned, std::vector<uint64_t>>> before(1 + rng.below(4));
    for(auto &b : before) { b.first = rng.coin() ? kind : (unsigned)rng.below(6); b.second.resize(1 + rng.below(40)); for(auto &a : b.second) a = rng.u64(); }
    std::string alone, after;
    bool fine = in_a_process([&]{ return lived(kind, acts); }, alone);
    fine &= in_a_process([&]{ for(auto &b : before) lived(b.first, b.second); return lived(kind, acts); }, after);
    VH_CHECK(fine, "died", "kind ", kind, ", a process didn't get through");
    size_t at = 0;
    while(at < alone.size() && at < after.size() && alone[at] == after[at]) at++;
    const size_t from = at > 60 ? at - 60 : 0;
    VH_CHECK(alone == after, "depends-on-others", "kind ", kind, " after ", before.size(), " other objects: ", vh::show(after.substr(from, 200), 300), " instead of ", vh::show(alone.substr(from, 200), 300));
    vh::count("objects seen alone and after others");
    vh::distinct(vh::hash_str(alone));
}
VH_SECTION(packets, 8000, 150000) { values<fr::Packet>(rng, rng.coin()); }
VH_SECTION(requests, 12000, 200000) { values<fr::HttpRequest>(rng, rng.coin()); }
VH_SECTION(responses, 12000, 200000) { values<fr::HttpResponse>(rng, rng.coin()); }
VH_SECTION(frames, 6000, 100000) { if(index % 2) values<fr::ClientWebFrame>(rng, false); else values<fr::ServerWebFrame>(rng, false); }
VH_SECTION(urls, 6000, 100000) { values<fr::URL>(rng, false); }
