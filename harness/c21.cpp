// C21: conversions between values and names, exhaustively over enumerators, letter cases and prefixes
#define VH_MAIN
#include <vh.h>
#include <fstream>
#include <set>
#include <frnetlib/Http.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/URL.h>
#include <frnetlib/Socket.h>
using fr::Http;
using fr::URL;

static std::vector<std::pair<std::string, std::string>> load_table(const char *name)
{
    std::vector<std::pair<std::string, std::string>> r;
    const char *dir = getenv("VERIF_DIR");
    std::ifstream f(std::string(dir ? dir : "/verif") + "/golden/" + name);
    std::string a, b;
    while(f >> a >> b) r.emplace_back(a, b);
    if(r.size() < 100) { fprintf(stderr, "no golden table\n"); _exit(94); }
    return r;
}
static const std::vector<std::pair<std::string, std::string>> &mime() { static auto t = load_table("mime.txt"); return t; }
static std::string vary_case(vh::Rng &rng, std::string s)
{
    unsigned how = (unsigned)rng.below(4);
    for(auto &c : s) c = (char)(how == 0 ? tolower(c) : how == 1 ? toupper(c) : rng.coin() ? toupper(c) : tolower(c));
    return s;
}

static const std::vector<std::pair<std::string, Http::RequestType>> methods = {
    {"GET", Http::RequestType::Get}, {"POST", Http::RequestType::Post}, {"PUT", Http::RequestType::Put},
    {"DELETE", Http::RequestType::Delete}, {"PATCH", Http::RequestType::Patch}};

VH_SECTION(methods_all, 1, 1)
{
    std::set<std::string> names;
    for(auto &m : methods)
    {
        std::string name = Http::request_type_to_string(m.second);
        VH_CHECK(name == m.first, "method-name", m.first, " is printed as ", name);
        VH_CHECK(Http::string_to_request_type(name) == m.second, "method-inverse", name);
        names.insert(name);
        for(size_t n = 0; n < m.first.size(); n++)
        {
            auto got = Http::string_to_request_type(m.first.substr(0, n));
            VH_CHECK(got == Http::RequestType::Partial, "method-partial", "'", m.first.substr(0, n), "' gives ", (int)got);
            vh::evaluated();
        }
        vh::distinct(vh::hash_str(name));
    }
    VH_CHECK(names.size() == methods.size(), "method-distinct", names.size());
    for(int v : {5, 6, 7, 8, 100, 1 << 20})
        VH_CHECK(Http::request_type_to_string((Http::RequestType)v) == "UNKNOWN", "method-fallback", v);
    vh::sample("methods_all", "GET POST PUT DELETE PATCH, and each proper prefix");
}
// Text which isn't a method, nor the beginning of one, nor begins with one
VH_FUZZ_SECTION(methods_other, 40000, 1000000)
{
    std::string s;
    if(rng.coin()) s = rng.bytes(rng.below(9));
    else
    {
        s = rng.pick(methods).first;
        switch(rng.below(4))
        {
            case 0: s[rng.below(s.size())] = (char)rng.byte(); break;
            case 1: s.erase(rng.below(s.size()), 1); break;
            case 2: s.insert(rng.below(s.size()), 1, (char)rng.range('A', 'Z')); break;
            case 3: s = vary_case(rng, s); break;
        }
    }
    bool exact = false, prefix = false, extended = false;
    for(auto &m : methods)
    {
        exact |= s == m.first;
        prefix |= m.first.compare(0, s.size(), s) == 0;
        extended |= s.compare(0, m.first.size(), m.first) == 0;
    }
    auto got = Http::string_to_request_type(s);
    if(exact || extended) return; // known, or followed by more, which the function accepts
    VH_CHECK(got == (prefix ? Http::RequestType::Partial : Http::RequestType::Unknown), prefix ? "method-partial" : "method-unrecognised", "'", vh::show(s), "' gives ", (int)got);
    vh::distinct(vh::hash_str(s));
    vh::sample("methods_other", vh::cat("'", vh::show(s), "' -> ", (int)got));
}
VH_SECTION(schemes, 20000, 40000)
{
    static const std::vector<std::pair<std::string, URL::Scheme>> all = {{"http", URL::HTTP}, {"https", URL::HTTPS}, {"ftp", URL::FTP},
        {"mailto", URL::MAILTO}, {"irc", URL::IRC}, {"sftp", URL::SFTP}};
    std::set<std::string> names;
    for(auto &s : all)
    {
        std::string name = URL::scheme_to_string(s.second);
        VH_CHECK(name == s.first, "scheme-name", s.first, " is printed as ", name);
        VH_CHECK(URL::string_to_scheme(name) == s.second, "scheme-inverse", name);
        std::string v = vary_case(rng, s.first);
        VH_CHECK(URL::string_to_scheme(v) == s.second, "scheme-case", v);
        vh::distinct(vh::hash_str(v));
        names.insert(name);
    }
    VH_CHECK(names.size() == all.size(), "scheme-distinct", names.size());
    VH_CHECK(URL::string_to_scheme(URL::scheme_to_string(URL::Unknown)) == URL::Unknown, "scheme-unknown", "");
    std::string o = rng.coin() ? rng.bytes(rng.below(8)) : rng.pick(all).first;
    if(rng.coin()) o.insert(rng.below(o.size() + 1), 1, (char)rng.byte());
    std::string lower = o;
    for(auto &c : lower) c = (char)tolower((unsigned char)c);
    bool known = false;
    for(auto &s : all) known |= s.first == lower;
    if(!known)
        VH_CHECK(URL::string_to_scheme(o) == URL::Unknown, "scheme-fallback", vh::show(o));
    vh::evaluated(12);
}
VH_SECTION(encodings, 20000, 40000)
{
    typedef Http::TransferEncoding T;
    static const std::vector<std::pair<std::string, T>> all = {{"none", T::None}, {"chunked", T::Chunked}, {"compress", T::Compress},
        {"deflate", T::Deflate}, {"gzip", T::Gzip}, {"identity", T::Identity}};
    for(auto &e : all)
    {
        std::string v = vary_case(rng, e.first);
        VH_CHECK(Http::string_to_transfer_encoding(v) == e.second, "encoding", v);
        vh::distinct(vh::hash_str(v));
    }
    std::string o = rng.coin() ? rng.bytes(rng.below(9)) : rng.pick(all).first;
    if(rng.coin()) o.insert(rng.below(o.size() + 1), 1, (char)rng.byte());
    std::string lower = o;
    for(auto &c : lower) c = (char)tolower((unsigned char)c);
    bool known = false;
    for(auto &e : all) known |= e.first == lower;
    if(!known)
        VH_CHECK(Http::string_to_transfer_encoding(o) == T::None, "encoding-fallback", vh::show(o));
    vh::evaluated(6);
}
// Each status has a description of its own, whatever errno is
VH_SECTION(statuses, 2000, 4000)
{
    using S = fr::Socket::Status;
    static const std::vector<S> all = {S::Unknown, S::Success, S::ListenFailed, S::BindFailed, S::Disconnected, S::Error, S::WouldBlock,
        S::ConnectionFailed, S::HandshakeFailed, S::VerificationFailed, S::MaxPacketSizeExceeded, S::NotEnoughData, S::ParseError,
        S::HttpHeaderTooBig, S::HttpBodyTooBig, S::AddressLookupFailure, S::SendError, S::ReceiveError, S::AcceptError, S::SSLError,
        S::NoRouteToHost, S::Timeout};
    std::set<std::string> texts;
    int err = index < 140 ? (int)index : (int)rng.below(1 << 20) - (1 << 19);
    for(auto s : all)
    {
        errno = err;
        std::string t = fr::Socket::status_to_string(s);
        VH_CHECK(!t.empty(), "status-empty", (int)s);
        if(s != S::Unknown) VH_CHECK(t != "Unknown", "status-unknown", (int)s, " has no description");
        VH_CHECK(texts.insert(t).second, "status-shared", (int)s, " '", t, "' describes several statuses, errno ", err);
        vh::distinct(vh::hash_str(t));
    }
    vh::evaluated(all.size());
    int64_t lo = (int64_t)S::Timeout;
    for(int a = 0; a < 20; a++)
    {
        int v = (int)rng.word();
        if(a < 4) v = (int)(lo + 1 + a);
        if(v >= 0 && v <= lo) continue;
        std::string t = fr::Socket::status_to_string((S)v);
        VH_CHECK(t == "Unknown", "status-out-of-range", v, " gives ", t);
    }
    errno = err;
    vh::sample("statuses", vh::cat("errno ", err, ": ", vh::show(fr::Socket::status_to_string(S::SendError))));
}
// Each HTTP status by its name has its registered number, on the way out and on the way in
VH_SECTION(codes, 300, 600)
{
    typedef Http::RequestStatus S;
    static const std::vector<std::pair<S, unsigned>> all = {
    {S::Continue, 100}, {S::SwitchingProtocols, 101}, {S::Ok, 200}, {S::Created, 201}, {S::Accepted, 202}, {S::NonAuthorativeInformation, 203},
    {S::NoContent, 204}, {S::ResetContent, 205}, {S::PartialContent, 206}, {S::IMUsed, 226}, {S::MultipleChoices, 300}, {S::MovedPermanently, 301},
    {S::Found, 302}, {S::SeeOther, 303}, {S::NotModified, 304}, {S::UseProxy, 305}, {S::TemporaryRedirect, 307}, {S::PermanentRedirect, 308},
    {S::BadRequest, 400}, {S::Unauthorised, 401}, {S::PaymentRequired, 402}, {S::Forbidden, 403}, {S::NotFound, 404}, {S::MethodNotAllowed, 405},
    {S::NotAcceptable, 406}, {S::ProxyAuthenticationRequired, 407}, {S::RequestTimeout, 408}, {S::Conflict, 409}, {S::Gone, 410},
    {S::LengthRequired, 411}, {S::PreconditionFailed, 412}, {S::RequestEntityTooLarge, 413}, {S::RequestURITooLong, 414},
    {S::UnsupportedMediaType, 415}, {S::RequestedRangeNotSatisfiable, 416}, {S::ExpectationFailed, 417}, {S::ImATeapot, 418},
    {S::UnprocessableEntity, 422}, {S::UpgradeRequired, 426}, {S::PreconditionRequired, 428}, {S::TooManyRequests, 429},
    {S::RequestHeaderFieldTooLarge, 431}, {S::UnvailableForLegalReasons, 451}, {S::InternalServerError, 500}, {S::NotImplemented, 501},
    {S::BadGateway, 502}, {S::ServiceUnavailable, 503}, {S::GatewayTimeout, 504}, {S::HTTPVersionNotSupported, 505}, {S::VariantAlsoNegotiates, 506},
    {S::NotExtended, 510}, {S::NetworkAuthenticationRequired, 511}, {S::NetworkReadTimeoutError, 598}, {S::NetworkConnectTimeoutError, 599},
    };
    auto both = [&](S status, unsigned number, const char *kind)
    {
        fr::HttpResponse out;
        out.set_status(status);
        const std::string text = out.construct("host");
        const size_t at = text.find(' ');
        const std::string said = at == std::string::npos ? "" : text.substr(at + 1, text.find_first_of(" \r", at + 1) - at - 1);
        VH_CHECK(said == std::to_string(number), "status-number", kind, " ", number, " is sent as ", vh::show(text, 60));
        fr::HttpResponse in;
        const std::string reply = vh::cat("HTTP/1.1 ", number, rng.coin() ? " Some Reason" : rng.coin() ? "" : " ", "\r\nContent-Length: 0\r\n\r\n");
        const auto st = in.parse(reply.data(), reply.size());
        VH_CHECK(st == fr::Socket::Status::Success && in.get_status() == status, "status-number", kind, " ", number, " is received as ", (int)in.get_status(), ", ", (int)st);
        vh::distinct(vh::hash_str(kind + said));
    };
    for(auto &s : all) both(s.first, s.second, "named");
    for(int a = 0; a < 20; a++) { const unsigned n = (unsigned)rng.range(100, 999); both((S)n, n, "unnamed"); }
    vh::evaluated(all.size() + 20);
    vh::count("status numbers", all.size() + 20);
}
VH_SECTION(mime_known, 4, 4)
{
    for(auto &m : mime())
    {
        VH_CHECK(Http::get_mimetype(m.first) == m.second, "mime-known", m.first, " gives ", Http::get_mimetype(m.first), " instead of ", m.second);
        VH_CHECK(Http::get_mimetype(m.first.substr(1)) == m.second, "mime-extension", m.first.substr(1), " gives ", Http::get_mimetype(m.first.substr(1)));
        for(int a = 0; a < 8; a++)
        {
            std::string stem = rng.from("abcXYZ019_- ./", rng.below(12));
            VH_CHECK(Http::get_mimetype(stem + m.first) == m.second, "mime-stem", vh::show(stem + m.first), " gives ", Http::get_mimetype(stem + m.first));
            // Another extension before the last one has no say
            std::string two = "a" + rng.pick(mime()).first + m.first;
            VH_CHECK(Http::get_mimetype(two) == m.second, "mime-last-extension", two, " gives ", Http::get_mimetype(two));
        }
        vh::distinct(vh::hash_str(m.first));
        vh::evaluated(18);
        vh::count("known_extensions");
    }
    vh::sample("mime_known", mime()[0].first + " -> " + Http::get_mimetype("x" + mime()[0].first));
}
VH_FUZZ_SECTION(mime_unknown, 20000, 500000)
{
    static std::set<std::string> known;
    if(known.empty()) for(auto &m : mime()) known.insert(m.first);
    std::string ext;
    if(rng.coin()) ext = rng.bytes(rng.below(8));
    else
    {
        ext = rng.pick(mime()).first.substr(1);
        if(rng.coin()) ext.insert(rng.below(ext.size() + 1), 1, (char)rng.range(33, 126));
        else ext.erase(rng.below(ext.size()), 1);
    }
    for(auto &c : ext) if(c == '.') c = '_';
    std::string name = (rng.coin() ? rng.from("abc./", rng.below(10)) : std::string("file")) + "." + ext;
    std::string type = Http::get_mimetype(name);
    if(known.count("." + ext)) return;
    VH_CHECK(type == "application/octet-stream", "mime-unknown", vh::show(name), " gives ", type);
    std::string bare = Http::get_mimetype(ext);
    VH_CHECK(bare == "application/octet-stream", "mime-unknown", vh::show(ext), " gives ", bare);
    vh::distinct(vh::hash_str(ext));
    vh::sample("mime_unknown", vh::show(name));
}
