// HTTP messages: generated together with what a parser should make of them, independently of the library
#ifndef VH_HTTP_H
#define VH_HTTP_H
#include "vh.h"
#include <algorithm>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>

namespace vhttp
{
    using vh::Rng;
    using fr::Http;
    typedef std::vector<std::pair<std::string, std::string>> Pairs;

    static const char *const TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
    static const char *const NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";

    inline std::string lower(std::string s) { for(auto &c : s) c = (char)tolower((unsigned char)c); return s; }
    inline std::string recase(Rng &r, std::string s) { for(auto &c : s) c = (char)(r.coin() ? tolower((unsigned char)c) : toupper((unsigned char)c)); return s; }
    inline bool has(const Pairs &p, const std::string &lname) { for(auto &x : p) if(lower(x.first) == lname) return true; return false; }

    // Whether to make long names and many of them. Their total stays within the default header limit.
    inline bool &ample() { static bool a = false; return a; }
    // Percent-encoding of our own, as values are to be legal where they are placed
    inline std::string encode(const std::string &s)
    {
        std::string r;
        char b[4];
        for(unsigned char c : s)
        {
            if(isalnum(c) || (c && strchr("-_.~", c))) r += (char)c;
            else if(c == ' ') r += '+';
            else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
        }
        return r;
    }
    inline std::string header_value(Rng &r)
    {
        if(r.chance(1, 20)) return "";
        size_t n = 1 + (ample() && r.chance(1, 30) ? r.below(6000) : r.chance(1, 12) ? r.below(300) : r.below(30));
        std::string v(n, 'x');
        for(auto &c : v) c = (char)r.range(32, 126);
        if(r.coin()) v = r.from("abc:; ,=HTTP/1.0GET\"0123", n);
        if(v.front() == ' ') v.front() = 'a';
        if(v.back() == ' ') v.back() = 'z';
        return v;
    }
    inline Pairs headers(Rng &r, size_t max = 8)
    {
        static const std::vector<std::string> common = {"Host", "Connection", "Content-Type", "Accept", "User-Agent", "Cookie", "X-Content-Length", "Content-Lengths", "Upgrade", "ETag", "Set-Cookie", "Transfer", "Encoding"};
        Pairs p;
        size_t n = r.below((ample() && r.coin() ? 100 : max) + 1);
        for(size_t a = 0; a < n; a++)
        {
            std::string k = !(ample() && r.coin()) && r.coin() ? r.pick(common) : r.from(TOKEN, 1 + r.below(ample() ? 90 : 16));
            std::string l = lower(k);
            if(has(p, l) || l == "content-length" || l == "transfer-encoding") continue;
            p.emplace_back(r.coin() ? k : recase(r, k), header_value(r));
        }
        return p;
    }
    inline Pairs arguments(Rng &r, size_t max = 6, bool allow_empty_value = true)
    {
        Pairs p;
        size_t n = r.below((ample() && r.coin() ? 60 : max) + 1);
        for(size_t a = 0; a < n; a++)
        {
            std::string k = encode(r.coin() ? r.from(NAME, 1 + r.below(ample() ? 90 : 8)) : r.bytes(1 + r.below(ample() ? 40 : 4)));
            if(has(p, lower(k))) continue;
            std::string v = encode(r.coin() ? r.from("abc019 &=?%+#/", r.below(12)) : r.bytes(r.below(ample() && r.chance(1, 10) ? 500 : 20)));
            if(r.chance(1, 6)) v = r.from("abc?/:@;,=!$'()*", r.below(12)); // needn't be encoded either
            if(v.empty() && !allow_empty_value) v = "v";
            p.emplace_back(k, v);
        }
        return p;
    }
    inline std::string uri(Rng &r)
    {
        static const char *const PATH = "abcXYZ019-_.~!$'()*,;:@/%+=&";
        std::string u = "/";
        switch(r.below(6))
        {
            case 0: break;
            case 1: u += "HTTP/" + r.from(PATH, r.below(6)); break;
            case 2: u += r.from(PATH, r.below(6)) + "HTTP"; break;
            case 3: u += r.from(PATH, r.below(200)); break;
            default: u += r.from(PATH, r.below(20)); break;
        }
        return u;
    }
    inline std::string body(Rng &r)
    {
        if(r.chance(1, 40) && !r.fuzzing()) return r.bytes(r.size(200000));
        switch(r.below(5))
        {
            case 0: return "";
            case 1: { std::string s; size_t n = r.below(12); for(size_t a = 0; a < n; a++) s += r.pick<const char*>({"\r\n", "\n", "\r\n\r\n", "0\r\n\r\n", "\n\n", "a", "=", "&", "GET / HTTP/1.1", "HTTP/1.1 200 OK\r\n"}); return s; }
            case 2: return r.from("a=b&c=d\r\n%", r.below(40));
            default: return r.bytes(r.below(120));
        }
    }

    // A message as text, and what is in it
    struct Message
    {
        bool request = true, chunked = false, length_declared = false, form = false;
        int method = 0;
        std::string uri;
        Pairs get, post, headers;
        int version = 1; // HTTP/1.x
        int status = 200;
        std::string body;
        std::string text;       // all of it
        size_t header_size = 0; // up to and including its terminator
        size_t header_bare = 0; // without the terminator
    };
    static const char *const METHODS[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};

    inline std::string chunk_encode(Rng &r, const std::string &b, bool plain = false)
    {
        std::string o;
        char h[40];
        size_t at = 0;
        while(at < b.size())
        {
            size_t n = 1 + r.below(r.coin() ? 20 : b.size());
            n = std::min(n, b.size() - at);
            snprintf(h, sizeof h, r.coin() ? "%zx" : "%zX", n);
            if(!plain && r.chance(1, 10)) o += std::string(r.below(4), '0');
            o += h;
            if(!plain && r.chance(1, 6)) o += ";" + r.pick<std::string>({"ext", "a=b", "name=\"quoted\"", "x;y=z"});
            o += "\r\n" + b.substr(at, n) + "\r\n";
            at += n;
        }
        o += plain ? "0" : std::string(1 + r.below(3) / 2, '0');
        if(!plain && r.chance(1, 8)) o += ";last";
        o += "\r\n";
        if(!plain && r.chance(1, 4)) for(size_t a = 1 + r.below(2); a > 0; a--) o += "X-Trailer" + std::to_string(a) + ": " + r.from("abc 019", 1 + r.below(9)) + "\r\n";
        o += "\r\n";
        return o;
    }

    // A complete, well-formed message
    inline Message message(Rng &r, bool request, bool lf_allowed = true)
    {
        Message m;
        m.request = request;
        const bool lf = lf_allowed && r.chance(1, 10); // bare newlines, which are accepted too
        const std::string eol = lf ? "\n" : "\r\n";
        m.version = (int)r.below(4) ? 1 : 0;
        m.headers = headers(r);
        std::string first;
        if(request)
        {
            m.method = (int)r.below(5);
            m.uri = uri(r);
            first = std::string(METHODS[m.method]) + " " + m.uri;
            if(r.coin()) m.get = arguments(r);
            for(size_t a = 0; a < m.get.size(); a++) first += (a ? "&" : "?") + m.get[a].first + "=" + m.get[a].second;
            first += " HTTP/1." + std::to_string(m.version);
        }
        else
        {
            m.status = r.coin() ? r.pick<int>({100, 101, 200, 204, 301, 304, 404, 500, 599}) : (int)r.range(100, 999);
            first = "HTTP/1." + std::to_string(m.version) + " " + std::to_string(m.status) + r.pick<std::string>({" OK", " ", " Not Found", " HTTP/1.1 300 x", ""});
        }
        std::string payload;
        unsigned kind = (unsigned)r.below(request ? 3 : 4);
        Pairs lines = m.headers;
        std::string declared;
        if(kind == 0) {} // no body
        else if(kind == 3)
        {
            m.chunked = true;
            m.length_declared = true;
            m.body = body(r);
            payload = chunk_encode(r, m.body);
            // A list of encodings may be split over several lines, wherever there's a comma
            declared = recase(r, "Transfer-Encoding") + ": " + r.pick<std::string>({"chunked", "Chunked", "CHUNKED", "gzip, chunked", "gzip,chunked", "deflate, gzip, chunked"});
            if(r.chance(1, 5)) declared = recase(r, "Transfer-Encoding") + ": " + r.pick<std::string>({"gzip", "deflate", "compress"}) + eol + declared;
        }
        else
        {
            m.length_declared = true;
            if(request && m.method == 1 && r.coin())
            {
                m.form = true;
                m.post = arguments(r);
                for(size_t a = 0; a < m.post.size(); a++) m.body += (a ? "&" : "") + m.post[a].first + "=" + m.post[a].second;
                if(r.coin() && !m.body.empty()) m.body += "\r\n";
            }
            else m.body = body(r);
            payload = m.body;
            declared = recase(r, "Content-Length") + (r.below(5) ? ": " : ":") + std::to_string(m.body.size());
            if(!request && r.chance(1, 4)) declared = r.coin() ? declared + eol + recase(r, "Transfer-Encoding") + ": identity" : recase(r, "Transfer-Encoding") + ": " + r.pick<std::string>({"identity", "Identity", "none"}) + eol + declared;
        }
        m.text = first + eol;
        size_t at = lines.empty() ? 0 : r.below(lines.size() + 1);
        for(size_t a = 0; a <= lines.size(); a++)
        {
            if(a == at && !declared.empty()) m.text += declared + eol;
            if(a < lines.size()) m.text += lines[a].first + (r.below(5) ? ": " : ":") + lines[a].second + eol;
        }
        m.header_bare = m.text.size() - eol.size();
        m.text += eol;
        m.header_size = m.text.size();
        m.text += payload;
        return m;
    }

    // Compares what was parsed with what is in the message. Returns a description of the first difference.
    template<typename H> std::string differs(H &h, const Message &m, Rng &r)
    {
        if(m.request)
        {
            if((int)h.get_type() != m.method) return vh::cat("method ", (int)h.get_type(), " instead of ", m.method);
            if(h.get_uri() != m.uri) return vh::cat("uri ", vh::show(h.get_uri()), " instead of ", vh::show(m.uri));
            for(auto &g : m.get)
            {
                std::string k = recase(r, g.first);
                if(!h.get_exists(k)) return "query argument " + vh::show(k) + " is missing";
                if(h.get(k) != g.second) return vh::cat("query argument ", vh::show(k), " is ", vh::show(h.get(k)), " instead of ", vh::show(g.second));
            }
            if(h.get_exists("no.such.argument")) return "an argument which isn't there exists";
            if(m.form) for(auto &g : m.post)
            {
                std::string k = recase(r, g.first);
                if(!h.post_exists(k)) return "form argument " + vh::show(k) + " is missing";
                if(h.post(k) != g.second) return vh::cat("form argument ", vh::show(k), " is ", vh::show(h.post(k)), " instead of ", vh::show(g.second));
            }
        }
        else if((int)h.get_status() != m.status) return vh::cat("status ", (int)h.get_status(), " instead of ", m.status);
        if((h.get_version() == Http::RequestVersion::V1) != (m.version == 0)) return "version";
        for(auto &g : m.headers)
        {
            std::string k = recase(r, g.first);
            if(!h.header_exists(k)) return "header " + vh::show(k) + " is missing";
            if(h.header(k) != g.second) return vh::cat("header ", vh::show(k), " is ", vh::show(h.header(k)), " instead of ", vh::show(g.second));
        }
        if(h.header_exists("no-such-header")) return "a header which isn't there exists";
        if(h.get_body() != m.body) return vh::cat("body ", vh::show(h.get_body()), " instead of ", vh::show(m.body));
        return "";
    }
}
#endif
