// C07: HTTP messages built through the API parse back to the same message
#define VH_MAIN
#include <vh.h>
#include <vh_http.h>
using namespace vhttp;
using fr::HttpRequest;
using fr::HttpResponse;
using fr::Socket;

// Independent look at serialised text
struct Text
{
    std::string start, payload;
    Pairs headers; // names in lower case
    bool ok = false;
    std::string why;
};
static Text dissect(const std::string &s)
{
    Text t;
    size_t at = 0;
    bool first = true;
    for(;;)
    {
        size_t e = s.find('\n', at);
        if(e == std::string::npos) { t.why = "the header doesn't end"; return t; }
        if(e == at || s[e - 1] != '\r') { t.why = "a line doesn't end in CRLF"; return t; }
        std::string line = s.substr(at, e - 1 - at);
        at = e + 1;
        if(line.find('\r') != std::string::npos) { t.why = "stray CR"; return t; }
        if(first) { t.start = line; first = false; if(line.empty()) { t.why = "no start line"; return t; } continue; }
        if(line.empty()) break;
        size_t c = line.find(':');
        if(c == std::string::npos || c == 0) { t.why = "not a header: " + line; return t; }
        std::string name = lower(line.substr(0, c)), value = line.substr(c + 1);
        if(name.find_first_not_of(TOKEN) != std::string::npos) { t.why = "header name " + name; return t; }
        if(!value.empty() && value[0] == ' ') value.erase(0, 1);
        t.headers.emplace_back(name, value);
    }
    t.payload = s.substr(at);
    t.ok = true;
    return t;
}
static int times(const Text &t, const std::string &n) { int c = 0; for(auto &h : t.headers) c += h.first == n; return c; }
static std::string value(const Text &t, const std::string &n) { for(auto &h : t.headers) if(h.first == n) return h.second; return ""; }

struct Model
{
    bool request = true;
    int method = 6, version = 2, status = 200;
    std::string uri = "/", body;
    std::map<std::string, std::string> get, post, headers; // by lower case name
};
static std::string describe(const Model &m)
{
    std::string s = vh::cat(m.request ? "request" : "response", " method=", m.method, " version=", m.version, " status=", m.status, " uri=", vh::show(m.uri), " body=", vh::show(m.body));
    for(auto &g : m.get) s += " get:" + vh::show(g.first) + "=" + vh::show(g.second);
    for(auto &g : m.post) s += " post:" + vh::show(g.first) + "=" + vh::show(g.second);
    for(auto &g : m.headers) s += " header:" + vh::show(g.first) + "=" + vh::show(g.second);
    return s;
}
static const std::string *lookup(const std::map<std::string, std::string> &m, const std::string &k)
{
    auto i = m.find(k);
    return i == m.end() ? nullptr : &i->second;
}
// Splits a=b&c=d
static std::map<std::string, std::string> split_arguments(const std::string &s)
{
    std::map<std::string, std::string> r;
    std::istringstream in(s);
    std::string part;
    while(std::getline(in, part, '&'))
    {
        size_t e = part.find('=');
        r[part.substr(0, e)] = e == std::string::npos ? "" : part.substr(e + 1);
    }
    return r;
}

static void check_text(const Model &m, const std::string &text, const std::string &host)
{
    Text t = dissect(text);
    VH_CHECK(t.ok, "malformed", t.why, ": ", vh::show(text, 400), " from ", describe(m));
    if(!t.ok) return;
    std::string version = m.version == 1 ? "HTTP/1.0" : "HTTP/1.1";
    if(m.request)
    {
        std::string before = std::string(METHODS[m.method == 6 ? 0 : m.method]) + " " + m.uri, after = " " + version;
        bool good = t.start.size() >= before.size() + after.size() && t.start.compare(0, before.size(), before) == 0 &&
            t.start.compare(t.start.size() - after.size(), after.size(), after) == 0;
        VH_CHECK(good, "start-line", vh::show(t.start, 400), " from ", describe(m));
        if(good)
        {
            std::string q = t.start.substr(before.size(), t.start.size() - before.size() - after.size());
            bool mark = m.get.empty() || (!q.empty() && q[0] == '?');
            VH_CHECK(mark && split_arguments(q.substr(q.empty() ? 0 : 1)) == m.get && (!m.get.empty() || q.empty()), "query-text", vh::show(t.start, 400), " from ", describe(m));
        }
    }
    else
    {
        std::string begin = version + " " + std::to_string(m.status);
        VH_CHECK(t.start.compare(0, begin.size(), begin) == 0 && (t.start.size() == begin.size() || t.start[begin.size()] == ' '), "start-line", vh::show(t.start), " from ", describe(m));
    }
    for(auto &h : t.headers)
    {
        VH_CHECK(times(t, h.first) == 1, "repeated-header", h.first, " in ", vh::show(text, 400));
        bool expected = m.headers.count(h.first) || h.first == "connection" || h.first == (m.request ? "host" : "content-type") || h.first == "content-length";
        VH_CHECK(expected, "extra-header", h.first, " in ", vh::show(text, 400));
    }
    for(auto &h : m.headers)
    {
        if(h.first == "content-length") continue;
        VH_CHECK(times(t, h.first) == 1, "header-text", h.first, " is there ", times(t, h.first), " times in ", vh::show(text, 400));
        VH_CHECK(value(t, h.first) == h.second, "header-text", h.first, " in ", vh::show(text, 400), " instead of ", vh::show(h.second));
    }
    VH_CHECK(times(t, "connection") == 1, "default-connection", vh::show(text, 400));
    if(m.request)
    {
        VH_CHECK(times(t, "host") == 1, "default-host", vh::show(text, 400));
        if(!m.headers.count("host")) VH_CHECK(value(t, "host") == host, "default-host", vh::show(text, 400), " for ", host);
    }
    else VH_CHECK(times(t, "content-type") == 1, "default-content-type", vh::show(text, 400));
    if(!t.payload.empty())
        VH_CHECK(times(t, "content-length") == 1 && value(t, "content-length") == std::to_string(t.payload.size()), "content-length",
            vh::show(value(t, "content-length")), " for ", t.payload.size(), " bytes in ", vh::show(text, 400));
    if(m.post.empty()) VH_CHECK(t.payload == m.body, "payload", vh::show(t.payload), " instead of ", vh::show(m.body));
    else
    {
        std::string p = t.payload;
        while(!p.empty() && (p.back() == '\n' || p.back() == '\r')) p.pop_back();
        VH_CHECK(split_arguments(p) == m.post, "form-text", vh::show(t.payload), " from ", describe(m));
    }
}

template<typename H> static void compare(vh::Rng &r, H &h, const Model &m, const std::string &text)
{
    std::string at = vh::cat(" from ", vh::show(text, 300), " made of ", describe(m));
    if(m.request)
    {
        VH_CHECK((int)h.get_type() == (m.method == 6 ? 0 : m.method), "method", (int)h.get_type(), at);
        VH_CHECK(h.get_uri() == m.uri, "uri", vh::show(h.get_uri()), at);
    }
    else VH_CHECK((int)h.get_status() == m.status, "status", (int)h.get_status(), at);
    VH_CHECK((int)h.get_version() == m.version, "version", (int)h.get_version(), at);
    for(auto &g : m.get)
    {
        std::string k = recase(r, g.first);
        VH_CHECK(h.get_exists(k), "query-missing", vh::show(k), at);
        VH_CHECK(h.get(k) == g.second, "query-value", vh::show(k), " is ", vh::show(h.get(k)), at);
    }
    for(auto &g : m.post)
    {
        std::string k = recase(r, g.first);
        VH_CHECK(h.post_exists(k), "form-missing", vh::show(k), at);
        VH_CHECK(h.post(k) == g.second, "form-value", vh::show(k), " is ", vh::show(h.post(k)), at);
    }
    for(auto &g : m.headers)
    {
        if(g.first == "content-length") continue;
        std::string k = recase(r, g.first);
        VH_CHECK(h.header_exists(k), "header-missing", vh::show(k), at);
        VH_CHECK(h.header(k) == g.second, "header-value", vh::show(k), " is ", vh::show(h.header(k)), at);
    }
    for(const char *none : {"no.such.thing", "zz"})
    {
        if(!m.get.count(none)) VH_CHECK(!h.get_exists(none), "query-invented", none, at);
        if(!m.post.count(none) && m.body.empty()) VH_CHECK(!h.post_exists(none), "form-invented", none, at);
        if(!m.headers.count(none)) VH_CHECK(!h.header_exists(none), "header-invented", none, at);
    }
    if(m.post.empty()) VH_CHECK(h.get_body() == m.body, "body", vh::show(h.get_body()), at);
}

// Applies random API calls to an object and to the model
template<typename H> static void populate(vh::Rng &r, H &h, Model &m)
{
    if(m.request)
    {
        if(r.below(8) && m.post.empty()) { m.method = (int)r.below(5); h.set_type((fr::Http::RequestType)m.method); }
        if(r.below(8))
        {
            std::string u = uri(r);
            // which arguments and fragments can't be in
            m.uri = u;
            bool bare = u.size() > 1 && u[1] != '/' && r.chance(1, 4);
            h.set_uri(bare ? u.substr(1) : u);
            if(r.chance(1, 10)) h.set_uri(""); // changes nothing
        }
        if(r.coin()) for(auto &a : arguments(r))
        {
            if(m.get.count(lower(a.first))) continue;
            m.get[lower(a.first)] = a.second;
            h.get(recase(r, a.first)) = a.second;
        }
    }
    else if(r.below(8))
    {
        m.status = r.coin() ? r.pick<int>({100, 101, 200, 204, 301, 304, 404, 500, 599}) : (int)r.range(100, 999);
        h.set_status((fr::Http::RequestStatus)m.status);
    }
    if(r.coin()) { m.version = 1 + (int)r.below(2); h.set_version((fr::Http::RequestVersion)m.version); }
    for(auto &a : headers(r))
    {
        if(m.headers.count(lower(a.first))) continue;
        m.headers[lower(a.first)] = a.second;
        h.header(recase(r, a.first)) = a.second;
    }
    if(r.chance(1, 10) && !m.headers.empty()) // changed afterwards
    {
        auto i = m.headers.begin();
        std::advance(i, (long)r.below(m.headers.size()));
        i->second = header_value(r);
        h.header(recase(r, i->first)) = i->second;
    }
    const bool form = m.request && m.method == 1 && m.body.empty() && (r.coin() || !m.post.empty());
    if(form) for(auto &a : arguments(r))
    {
        if(m.post.count(lower(a.first))) continue;
        m.post[lower(a.first)] = a.second;
        h.post(recase(r, a.first)) = a.second;
    }
    else if(m.post.empty() && r.coin()) { m.body = body(r); h.set_body(m.body); }
}
template<typename H> static void round(vh::Rng &r, const H &h, const Model &m, const char *kind)
{
    std::string host = r.pick<std::string>({"example.com", "127.0.0.1:8080", "[::1]"});
    std::string text = h.construct(host);
    check_text(m, text, host);
    H back;
    auto s = back.parse(text.data(), text.size());
    if(text.find("\r\n\r\n") > MAX_HTTP_HEADER_SIZE) return; // more than is accepted
    VH_CHECK(s == Socket::Status::Success, "not-parsed", Socket::status_to_string(s), " for ", vh::show(text, 400));
    if(s != Socket::Status::Success) return;
    compare(r, back, m, text);
    vh::evaluated();
    // A parsed message can be built again, and gives the same one
    if(m.post.empty() && r.chance(1, 4))
    {
        std::string again = back.construct(host);
        bool post_body = m.request && m.method == 1 && !m.body.empty(); // is parsed as a form as well
        if(!post_body)
        {
            H third;
            auto s3 = third.parse(again.data(), again.size());
            VH_CHECK(s3 == Socket::Status::Success, "rebuilt", Socket::status_to_string(s3), " for ", vh::show(again, 400));
            if(s3 == Socket::Status::Success) compare(r, third, m, again);
            vh::count("rebuilt");
        }
    }
    vh::count(kind);
    if(!m.body.empty()) vh::count("bodies");
    if(!m.post.empty()) vh::count("forms");
    if(!m.get.empty()) vh::count("queries");
    vh::distinct(vh::hash_str(describe(m)));
    vh::sample(kind, vh::show(text, 250), 3);
}

VH_FUZZ_SECTION(requests, 180000, 2000000)
{
    HttpRequest h;
    Model m;
    ample() = !rng.fuzzing() && rng.chance(1, 25);
    if(ample()) vh::count("large messages");
    for(size_t a = 1 + rng.below(3) / 2; a > 0; a--) // also built, changed and built again
    {
        populate(rng, h, m);
        round(rng, h, m, "requests");
    }
    if(rng.chance(1, 8)) { HttpRequest c(h); round(rng, c, m, "copies"); HttpRequest d(std::move(c)); round(rng, d, m, "copies"); }
}
VH_FUZZ_SECTION(responses, 150000, 2000000)
{
    HttpResponse h;
    Model m;
    m.request = false;
    ample() = !rng.fuzzing() && rng.chance(1, 25);
    if(ample()) vh::count("large messages");
    for(size_t a = 1 + rng.below(3) / 2; a > 0; a--)
    {
        populate(rng, h, m);
        round(rng, h, m, "responses");
    }
    if(rng.chance(1, 8)) { HttpResponse c(h); round(rng, c, m, "copies"); }
}
// A stale Content-Length, from the application or from an earlier body, isn't sent along
VH_FUZZ_SECTION(stale_length, 18000, 200000)
{
    ample() = false;
    auto go = [&](auto &h, Model &m) {
        populate(rng, h, m);
        if(m.post.empty()) { m.body = rng.bytes(1 + rng.below(50)); h.set_body(m.body); }
        m.headers["content-length"] = "stale";
        h.header(recase(rng, "Content-Length")) = std::to_string(rng.below(200));
        round(rng, h, m, "with a stale length");
        if(m.post.empty()) { m.body = rng.bytes(1 + rng.below(200)); h.set_body(m.body); round(rng, h, m, "with a stale length"); }
    };
    if(rng.coin()) { HttpRequest h; Model m; go(h, m); }
    else { HttpResponse h; Model m; m.request = false; go(h, m); }
}
// Every status code, method and version
VH_SECTION(enumerated, 1000, 1000)
{
    for(int v = 1; v <= 2; v++)
    {
        HttpResponse h; Model m;
        m.request = false; m.status = (int)index; m.version = v;
        if(index < 100) continue;
        h.set_status((fr::Http::RequestStatus)index);
        h.set_version((fr::Http::RequestVersion)v);
        round(rng, h, m, "status codes");
    }
    if(index < 10)
    {
        HttpRequest h; Model m;
        m.method = (int)index % 5; m.version = 1 + (int)index / 5;
        h.set_type((fr::Http::RequestType)m.method); h.set_version((fr::Http::RequestVersion)m.version);
        round(rng, h, m, "methods");
        // A header name, query name or form name is the same in every case
        h.header("ABC-def") = "1"; h.get("Q") = "2"; h.post("P") = "3";
        VH_CHECK(h.header("abc-DEF") == "1" && h.get("q") == "2" && h.post("p") == "3" && h.header_exists("aBc-dEf") && h.get_exists("q") && h.post_exists("p"), "letter-case", "");
    }
}
