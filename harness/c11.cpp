// C11: URLs assembled from components are taken apart into the same ones
#define VH_MAIN
#include <vh.h>
#include <frnetlib/URL.h>
using fr::URL;
using vh::Rng;

struct Parts
{
    std::string scheme, host, port, path, query, fragment; // as given
    bool has_scheme = false, has_port = false, has_query = false, has_fragment = false;
    URL::Scheme want_scheme = URL::Unknown;
    std::string want_host, want_port, want_path;
    std::string text;
};
static const std::vector<std::pair<std::string, std::pair<URL::Scheme, std::string>>> known = {
    {"http", {URL::HTTP, "80"}}, {"https", {URL::HTTPS, "443"}}, {"ftp", {URL::FTP, "21"}}, {"mailto", {URL::MAILTO, ""}},
    {"irc", {URL::IRC, "6697"}}, {"sftp", {URL::SFTP, "22"}}};

static std::string host(Rng &r)
{
    switch(r.below(5))
    {
        case 0: return vh::cat(r.below(256), ".", r.below(256), ".", r.below(256), ".", r.below(256));
        case 1: return "[" + r.from("0123456789abcdef:", 1 + r.below(20)) + "]";
        case 2: return "localhost";
        default: return r.from("abcdefghijklmnopqrstuvwxyz0123456789-.ABC_", 1 + r.below(20));
    }
}
static Parts assemble(Rng &r)
{
    Parts p;
    p.has_scheme = r.below(3) != 0;
    if(p.has_scheme)
    {
        if(r.below(5))
        {
            auto &k = known[r.below(known.size())];
            p.scheme = k.first;
            for(auto &c : p.scheme) if(r.chance(1, 4)) c = (char)toupper(c);
            p.want_scheme = k.second.first;
            p.want_port = k.second.second;
        }
        else
        {
            do p.scheme = r.from("abcdefghijklmnopqrstuvwxyzXYZ0123+-.", 1 + r.below(9));
            while(URL::string_to_scheme(p.scheme) != URL::Unknown);
        }
        p.text = p.scheme + "://";
    }
    bool empty_port = false;
    const bool host_given = p.has_scheme || r.below(6) != 0;
    if(host_given)
    {
        p.host = host(r);
        p.text += p.host;
        p.has_port = r.coin();
        if(p.has_port) { p.port = std::to_string(r.below(70000)); p.text += ":" + p.port; p.want_port = p.port; }
        else empty_port = r.chance(1, 20); // which is a missing one
    }
    static const char *const PATH = "abcXYZ019-._~!$&'()*+,;=:@/%[]";
    static const std::vector<std::string> bits = {"://", ":80", "//", "http://x.com:1/", "@", ":", "[::1]", "%2F", "host:99"};
    auto piece = [&](const char *extra) {
        std::string s, alphabet = std::string(PATH) + extra;
        for(size_t a = r.below(4); a > 0; a--) s += r.coin() ? r.from(alphabet, r.below(12)) : r.pick(bits);
        return s;
    };
    if(r.below(4) || !host_given) p.path = "/" + piece("");
    p.has_query = r.coin();
    if(p.has_query) p.query = piece("?");
    p.has_fragment = r.coin();
    if(p.has_fragment) p.fragment = piece("?#");
    if(empty_port && (p.has_scheme || p.path.compare(0, 2, "//"))) p.text += ":"; // host:// would be a scheme
    p.text += p.path;
    if(p.has_query) p.text += "?" + p.query;
    if(p.has_fragment) p.text += "#" + p.fragment;
    p.want_host = p.host;
    p.want_path = p.path;
    if(p.text == p.host) { p.want_path = "/" + p.host; p.want_host = ""; } // a lone word is a path
    return p;
}
static std::string describe(const URL &u)
{
    return vh::cat("scheme=", (int)u.get_scheme(), " host='", vh::show(u.get_host()), "' port='", vh::show(u.get_port()), "' path='", vh::show(u.get_path()), "' query='", vh::show(u.get_query()), "' fragment='", vh::show(u.get_fragment()), "'");
}
static void check(const URL &u, const Parts &p, const char *how)
{
    VH_CHECK(u.get_scheme() == p.want_scheme, "scheme", how, " '", p.text, "': ", describe(u));
    VH_CHECK(u.get_host() == p.want_host, "host", how, " '", p.text, "': ", describe(u));
    VH_CHECK(u.get_port() == p.want_port, "port", how, " '", p.text, "': ", describe(u), " expected ", p.want_port);
    VH_CHECK(u.get_path() == p.want_path, "path", how, " '", p.text, "': ", describe(u));
    VH_CHECK(u.get_query() == p.query, "query", how, " '", p.text, "': ", describe(u));
    VH_CHECK(u.get_fragment() == p.fragment, "fragment", how, " '", p.text, "': ", describe(u));
    std::string uri = u.get_path() + (u.get_query().empty() ? "" : "?" + u.get_query()) + (u.get_fragment().empty() ? "" : "#" + u.get_fragment());
    VH_CHECK(u.get_uri() == uri, "uri", how, " '", p.text, "' gives '", u.get_uri(), "'");
}
static void reprint(const URL &u, const std::string &from)
{
    if(u.get_scheme() == URL::Unknown || u.get_host().empty()) return;
    std::string printed = u.get_url();
    URL again(printed);
    VH_CHECK(again == u, "reprint", "'", vh::show(from), "' is printed as '", vh::show(printed), "': ", describe(again), " instead of ", describe(u));
    vh::count("reprinted");
}
static bool same(const URL &a, const URL &b) { return a == b && describe(a) == describe(b); }

VH_FUZZ_SECTION(components, 960000, 5000000)
{
    static URL reused; // has seen all the URLs before
    Parts p = assemble(rng);
    URL u(p.text);
    check(u, p, "fresh");
    reused.parse(p.text);
    check(reused, p, "reused");
    VH_CHECK(same(u, reused), "history", p.text);
    URL copy(u);
    VH_CHECK(same(copy, u), "copy", p.text);
    reprint(u, p.text);
    vh::count(p.want_scheme == URL::Unknown ? "without known scheme" : "with known scheme");
    if(!p.has_port && !p.want_port.empty()) vh::count("guessed ports");
    vh::distinct(vh::hash_str(p.text));
    vh::sample("components", p.text, 6);
}
// Sequences of parses and of setters on one object, also of its own parts
VH_FUZZ_SECTION(histories, 64000, 200000)
{
    URL u;
    for(size_t a = 2 + rng.below(6); a > 0; a--)
    {
        switch(rng.below(6))
        {
            case 0: u.set_host("changed.example"); u.set_port("1"); u.set_fragment("f"); break;
            case 1: u.set_scheme(URL::IRC); u.set_query("q"); u.set_path("/p"); break;
            case 2:
            {
                const std::string *own[] = {&u.get_path(), &u.get_host(), &u.get_query(), &u.get_fragment(), &u.get_port()};
                const std::string *o = own[rng.below(5)];
                std::string text = *o;
                URL fresh(text);
                u.parse(*o);
                VH_CHECK(same(u, fresh), "own-part", "'", vh::show(text), "': ", describe(u), " instead of ", describe(fresh));
                break;
            }
            default:
            {
                Parts p = assemble(rng);
                u.parse(p.text);
                check(u, p, "in sequence");
                vh::distinct(vh::hash_str(p.text));
            }
        }
    }
}
// Anything at all: it doesn't fail, history plays no part, and printing is stable
VH_FUZZ_SECTION(arbitrary, 640000, 3000000)
{
    static URL reused;
    std::string s;
    if(rng.coin()) s = rng.bytes(rng.below(40));
    else if(rng.coin()) s = rng.from("htp:/?#[]@.a1", rng.below(14));
    else
    {
        s = assemble(rng).text;
        for(size_t a = rng.below(4); a > 0 && !s.empty(); a--)
            switch(rng.below(3))
            {
                case 0: s.erase(rng.below(s.size()), 1 + rng.below(3)); break;
                case 1: s.insert(rng.below(s.size() + 1), 1, ":/?#[]@"[rng.below(7)]); break;
                case 2: s[rng.below(s.size())] = (char)rng.byte(); break;
            }
    }
    try
    {
        URL u(s);
        reused.parse(s);
        VH_CHECK(same(u, reused), "history", "'", vh::show(s), "': ", describe(reused), " instead of ", describe(u));
        reprint(u, s);
        (void)u.get_uri();
    }
    catch(const std::exception &e) { vh::violation("threw", vh::cat("'", vh::show(s), "': ", e.what())); }
    vh::distinct(vh::hash_str(s));
    vh::count("arbitrary strings");
}
// A default constructed URL is empty
VH_SECTION(empty, 20, 20)
{
    alignas(URL) char space[sizeof(URL)];
    memset(space, (int)rng.byte(), sizeof space);
    URL *u = new(space) URL;
    VH_CHECK(u->get_scheme() == URL::Unknown && u->get_url().empty(), "default", (int)u->get_scheme());
    u->~URL();
    URL e("");
    VH_CHECK(e.get_scheme() == URL::Unknown && e.get_host().empty() && e.get_port().empty() && e.get_path().empty() && e.get_query().empty() && e.get_fragment().empty(), "empty", describe(e));
}
