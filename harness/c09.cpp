// C09: HTTP parsing of arbitrary bytes is safe and bounded
#define VH_MAIN
#include <vh.h>
#include <vh_http.h>
#include <vh_mock.h>
#include <vh_alloc.h>
using namespace vhttp;
using fr::HttpRequest;
using fr::HttpResponse;
using fr::Socket;
typedef Socket::Status St;
static const size_t H_MAX = MAX_HTTP_HEADER_SIZE, B_MAX = MAX_HTTP_BODY_SIZE;

static bool allowed(St s)
{
    return s == St::Success || s == St::NotEnoughData || s == St::ParseError || s == St::HttpHeaderTooBig || s == St::HttpBodyTooBig;
}
template<typename H> static St piece(H &h, const char *p, size_t n, const char *what, const std::string &context)
{
    std::unique_ptr<char[]> copy(new char[n ? n : 1]); // reading beyond it is noticed
    memcpy(copy.get(), p, n);
    try
    {
        St s = h.parse(copy.get(), n);
        VH_CHECK(allowed(s), std::string("status-") + what, vh::status_name(s), " for ", vh::show(context, 400));
        return s;
    }
    catch(const std::exception &e) { vh::violation(std::string("threw-") + what, vh::cat(e.what(), " for ", vh::show(context, 400))); }
    return St::ParseError;
}
// Feeds everything, in pieces of up to 'most' bytes. Returns the first conclusive status.
struct Outcome { St status = St::NotEnoughData; size_t at = 0; };
template<typename H> static Outcome feed(Rng &r, H &h, const std::string &text, size_t most, const char *what)
{
    Outcome o;
    while(o.at < text.size() && o.status == St::NotEnoughData)
    {
        size_t n = std::min(text.size() - o.at, most == 1 || most == SIZE_MAX ? most : 1 + (size_t)r.below(most));
        o.status = piece(h, text.data() + o.at, n, what, text);
        o.at += n;
    }
    return o;
}
static size_t some_size(Rng &r) { return r.pick<size_t>({1, 3, 20, 200, SIZE_MAX}); }

static void mutate(Rng &r, std::string &s)
{
    static const std::vector<std::string> bits = {"\r\n", "\n", "\r", "\n\n", "\r\n\r\n", "HTTP/1.1", " HTTP", ":", " ", "Content-Length: ", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n",
        "chunked", "0\r\n\r\n", "FFFFFFFFFFFFFFFF", "ffffffffffffffff\r\n", "7fffffffffffffff\r\n", "fffffffffffffffb\r\n", "fffffffffffffffc\r\n", "18446744073709551615", "18446744073709551616", "-1", "&", "=", "?", "GET", "POST / HTTP/1.1\r\n", std::string(1, '\0'), "%", "+"};
    for(size_t a = 1 + r.below(6); a > 0; a--)
    {
        size_t at = s.empty() ? 0 : r.below(s.size() + 1);
        switch(r.below(7))
        {
            case 0: if(at < s.size()) s.erase(at, 1 + r.below(8)); break;
            case 1: s.insert(at, r.pick(bits)); break;
            case 2: if(at < s.size()) s[at] = (char)r.byte(); break;
            case 3: if(at < s.size()) s.erase(at); break;
            case 4: { std::string d = s.substr(at, r.below(30)); s.insert(s.empty() ? 0 : r.below(s.size() + 1), d); break; }
            case 5: s.insert(at, r.bytes(r.below(10))); break;
            case 6: s.insert(at, std::string(r.below(50), "0\r\n :aF"[r.below(7)])); break;
        }
    }
}
static std::string nonsense(Rng &r, bool request)
{
    std::string s;
    switch(r.below(4))
    {
        case 0: s = r.bytes(r.below(200)); break;
        case 1:
            for(size_t a = r.below(15); a > 0; a--) s += r.pick<std::string>({"GET", " ", "/", "POST", "HTTP", "/1.1", "\r\n", "\n", ":", "a", "?", "&", "=", "Content-Length", "5", "200", "Transfer-Encoding:", "chunked", "0", std::string(1, '\0')});
            break;
        default:
        {
            Message m = message(r, request);
            if(m.text.size() > 3000) m.text.resize(3000);
            s = m.text;
            mutate(r, s);
        }
    }
    if(r.coin()) s = (request ? "POST / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n") + s;
    return s;
}
template<typename H> static void arbitrary_case(Rng &r, bool request)
{
    std::string s = nonsense(r, request);
    H h;
    size_t most = some_size(r), at = 0, errors = 0;
    St last = St::NotEnoughData;
    while(at < s.size())
    {
        size_t n = std::min(s.size() - at, most == SIZE_MAX ? most : 1 + (size_t)r.below(most));
        last = piece(h, s.data() + at, n, "arbitrary", s);
        at += n;
        if(last != St::NotEnoughData && ++errors > 3) break; // goes on for a while, whatever it said
    }
    vh::count(vh::status_name(last));
    // What was gathered can be looked at
    (void)h.get_uri(); (void)h.get_body().size(); (void)h.header_exists("content-length"); (void)h.get_exists("a"); (void)h.post_exists("b");
    vh::distinct(vh::hash_str(s, request));
    vh::sample(vh::status_name(last), vh::show(s), 1);
}
VH_FUZZ_SECTION(arbitrary_requests, 120000, 3000000) { arbitrary_case<HttpRequest>(rng, true); }
VH_FUZZ_SECTION(arbitrary_responses, 120000, 3000000) { arbitrary_case<HttpResponse>(rng, false); }
VH_FUZZ_SECTION(raw, 8000, 1000000)
{
    bool request = rng.coin();
    size_t cut = rng.below(100);
    std::string s = rng.bytes(rng.fuzzing() ? 600 : rng.below(600));
    if(rng.fuzzing()) s = s.c_str(); // unused input is zeroes
    HttpRequest q; HttpResponse p;
    cut = std::min(cut, s.size());
    for(auto &x : {s.substr(0, cut), s.substr(cut)})
    {
        if(request) piece(q, x.data(), x.size(), "raw", s);
        else piece(p, x.data(), x.size(), "raw", s);
    }
    vh::distinct(vh::hash_str(s));
}
// Received over a socket
VH_FUZZ_SECTION(sockets, 40000, 500000)
{
    bool request = rng.coin();
    vh::MockSocket s(&rng);
    s.in = nonsense(rng, request);
    s.max_chunk = some_size(rng);
    s.block_pct = (unsigned)rng.below(30);
    s.runaway = 200000;
    HttpRequest q; HttpResponse p;
    try
    {
        St st = request ? s.receive(q) : s.receive(p);
        VH_CHECK((allowed(st) && st != St::NotEnoughData) || st == St::Disconnected || (st == St::WouldBlock && s.in_pos == 0), "socket-status", vh::status_name(st), " for ", vh::show(s.in, 400));
        vh::count("received over a socket");
    }
    catch(const std::exception &e) { vh::violation("socket-threw", vh::cat(e.what(), " for ", vh::show(s.in, 400))); }
}

// Messages which are well-formed but for one thing
template<typename H> static void expect_error(Rng &r, const std::string &text, const char *what, bool too_big_will_do = false)
{
    H h;
    Outcome o = feed(r, h, text, some_size(r), what);
    bool ok = o.status == St::ParseError || (too_big_will_do && o.status == St::HttpBodyTooBig);
    VH_CHECK(ok, std::string("accepted-") + what, vh::status_name(o.status), " for ", vh::show(text, 400));
    vh::count(std::string("refused: ") + what);
    vh::distinct(vh::hash_str(text));
    vh::sample(what, vh::show(text, 120), 1);
}
static std::string lines(Rng &r) { std::string s; for(auto &h : headers(r, 4)) if(s.size() + h.first.size() + h.second.size() + 300 < H_MAX) s += h.first + ": " + h.second + "\r\n"; return s; }
static std::string not_a_number(Rng &r, bool hex)
{
    std::string digits = hex ? "0123456789abcdefABCDEF" : "0123456789";
    std::string n = r.from(digits, 1 + r.below(3));
    switch(r.below(9))
    {
        case 0: return "-" + n;
        case 1: return "+" + n;
        case 2: return "0x" + n;
        case 3: return n + r.pick<std::string>({"g", "x", ".", ",", "-", "z1", "h", "$"});
        case 4: return r.pick<std::string>({"x", "q", "zz", "$", ".", "!", "none"}) + n;
        case 5: return n + " " + n;
        case 6: return "";
        case 7: return n + "." + n;
        default: return r.from("ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ!$*.-+", 1 + r.below(5));
    }
}
VH_FUZZ_SECTION(malformed, 120000, 1000000)
{
    Rng &r = rng;
    const std::string rest = lines(r);
    std::string u = uri(r);
    std::string version = " HTTP/1." + std::to_string(r.below(2));
    switch(r.below(9))
    {
        case 0:
        {
            // the method
            std::string m;
            do
            {
                m = r.pick<std::string>({"GET", "POST", "PUT", "DELETE", "PATCH"});
                switch(r.below(6))
                {
                    case 0: m = r.from("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1 + r.below(8)); break;
                    case 1: m += r.from("ABCDEFGHIJKLMNOPQRSTUVWXYZ/_1", 1 + r.below(4)); break;
                    case 2: m = m.substr(0, r.below(m.size())); break;
                    case 3: for(auto &c : m) c = (char)tolower(c); break;
                    case 4: m = r.pick<std::string>({"HEAD", "OPTIONS", "TRACE", "CONNECT", "HTTP/1.1"}); break;
                    default: m[r.below(m.size())] = (char)('A' + r.below(26)); break;
                }
            }
            while(m == "GET" || m == "POST" || m == "PUT" || m == "DELETE" || m == "PATCH");
            expect_error<HttpRequest>(r, m + " " + u + version + "\r\n" + rest + "\r\n", "unknown method");
            break;
        }
        case 1:
        {
            // the version
            std::string v = r.pick<std::string>({"", " ", " HTTQ/1.1", " FTP/1.1", " HTTP", " HTTP/", " HTTP/x.y", " http/1.1", " HTTP/1", "HTTP/1.1x", " HTTP/1.1x", " 1.1"});
            std::string path = "/" + r.from("abcXYZ019", r.below(8));
            if(v == "HTTP/1.1x") path += "q";
            expect_error<HttpRequest>(r, std::string(METHODS[r.below(5)]) + " " + path + v + "\r\n" + rest + "\r\n", "no HTTP version");
            break;
        }
        case 2:
        {
            // the status
            std::string s;
            do s = not_a_number(r, false);
            while(s.find(' ') != std::string::npos);
            std::string reason = r.pick<std::string>({"", " ", " OK", " 200", " 404 Not Found"});
            if(s.empty()) reason = "";
            expect_error<HttpResponse>(r, "HTTP/1.1" + std::string(r.below(4) || !s.empty() ? " " : "") + s + reason + "\r\n" + rest + "\r\n", "no numeric status");
            break;
        }
        case 3:
            expect_error<HttpResponse>(r, r.pick<std::string>({"HTML/1.1 200 OK", "200 OK", "http/1.1 200 OK", "GET / HTTP/1.1", " HTTP/1.1 200 OK", "\r\nHTTP/1.1 200 OK"}) + "\r\n" + rest + "\r\n", "not HTTP");
            break;
        case 4:
        case 5:
        {
            std::string l = recase(r, "Content-Length") + ":" + (r.below(3) ? " " : "") + not_a_number(r, false) + "\r\n", b = r.bytes(r.below(30));
            if(r.coin()) expect_error<HttpRequest>(r, std::string(METHODS[r.below(5)]) + " " + u + version + "\r\n" + (r.coin() ? rest + l : l + rest) + "\r\n" + b, "Content-Length");
            else expect_error<HttpResponse>(r, "HTTP/1.1 200 OK\r\n" + (r.coin() ? rest + l : l + rest) + "\r\n" + b, "Content-Length");
            break;
        }
        case 6:
        case 7:
        {
            std::string t = "HTTP/1.1 200 OK\r\n" + rest + recase(r, "Transfer-Encoding") + ": chunked\r\n\r\n";
            std::string good = chunk_encode(r, r.from("abc", r.below(30)), true);
            good.resize(good.size() - 5); // without its end
            std::string bad = not_a_number(r, true);
            if(r.chance(1, 4)) bad += ";ext=1";
            expect_error<HttpResponse>(r, t + good + bad + "\r\nabc\r\n0\r\n\r\n", "chunk size");
            break;
        }
        default:
        {
            // numbers beyond what there is
            std::string big = r.pick<std::string>({"18446744073709551616", "99999999999999999999999", "340282366920938463463374607431768211456"}) + r.from("0123456789", r.below(5));
            if(r.coin()) expect_error<HttpResponse>(r, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + r.pick<std::string>({"fffffffffffffffff", "10000000000000000", "FFFFFFFFFFFFFFFFFFFFFFFF", "ffffffffffffffff", "8000000000000000", "fffffffffffffffc"}) + "\r\nabc\r\n0\r\n\r\n", "huge number", true);
            else if(r.coin()) expect_error<HttpRequest>(r, "POST / HTTP/1.1\r\nContent-Length: " + big + "\r\n\r\nabc", "huge number", true);
            else expect_error<HttpResponse>(r, "HTTP/1.1 200 OK\r\nContent-Length: " + big + "\r\n\r\nabc", "huge number", true);
        }
    }
}
// A huge but representable length is no reason to set anything aside
VH_SECTION(declared, 4000, 20000)
{
    uint64_t n = rng.coin() ? rng.word() : (1ull << rng.below(64)) + B_MAX;
    bool request = rng.coin();
    std::string text = (request ? "POST / HTTP/1.1\r\nContent-Length: " : "HTTP/1.1 200 OK\r\nContent-Length: ") + std::to_string(n) + "\r\n\r\nabc";
    HttpRequest q; HttpResponse p;
    vh::AllocScope heap;
    Outcome o = request ? feed(rng, q, text, some_size(rng), "declared") : feed(rng, p, text, some_size(rng), "declared");
    int64_t peak = heap.peak();
    heap.pause();
    bool ok = n <= 3 ? o.status == St::Success : n <= B_MAX ? o.status == St::NotEnoughData : o.status == St::NotEnoughData || o.status == St::HttpBodyTooBig || o.status == St::ParseError;
    VH_CHECK(ok, "declared-status", n, ": ", vh::status_name(o.status));
    VH_CHECK(peak < 40000, "declared-memory", n, " takes ", peak, " bytes");
    vh::count("declared lengths");
}

// Parts of messages which never end. Something within 'limit' bytes is accepted, and no later than slack bytes after it, it's refused.
static int64_t bound() { return (int64_t)(200 * std::min<size_t>(H_MAX, 60000) + 6 * B_MAX + 100000); }
template<typename H> static void endless(Rng &r, const char *what, const std::string &start, const std::function<std::string()> &more, size_t limit, size_t slack, St want, size_t most)
{
    H h;
    St s = St::NotEnoughData;
    size_t fed = 0;
    int64_t peak = 0;
    vh::AllocScope heap;
    s = piece(h, start.data(), start.size(), what, start);
    heap.pause();
    std::string queue;
    while(s == St::NotEnoughData && fed <= limit + slack)
    {
        while(queue.size() < most) queue += more();
        size_t n = std::min(1 + (size_t)r.below(most), queue.size());
        if(fed + n > limit && fed < limit) n = limit - fed; // exactly up to the limit
        heap.resume();
        s = piece(h, queue.data(), n, what, start);
        peak = std::max(peak, heap.peak());
        heap.pause();
        queue.erase(0, n);
        fed += n;
        if(fed <= limit && limit != SIZE_MAX / 2) VH_CHECK(s == St::NotEnoughData, std::string("refused-early-") + what, vh::status_name(s), " after ", fed, " of ", limit);
    }
    VH_CHECK(s == want, std::string("not-refused-") + what, vh::status_name(s), " after ", fed, " bytes, with a limit of ", limit);
    VH_CHECK(peak <= bound(), std::string("memory-") + what, peak, " bytes after ", fed);
    vh::count(std::string("endless ") + what);
}
VH_SECTION(endless_parts, 800, 8000)
{
    Rng &r = rng;
    const size_t most = r.pick<size_t>({1, 10, 100, 1000, 5000});
    if(most < 100 && H_MAX > 5000) return;
    const std::string req = "POST / HTTP/1.1\r\n", resp = "HTTP/1.1 200 OK\r\n", chunked = "Transfer-Encoding: chunked\r\n\r\n";
    auto fill = [&]{ return r.from("abc:;= ", 100); };
    auto header = [&]{ return r.coin() ? "X" + r.from("abcdef", 6) + ": " + r.from("abc", r.below(30)) + "\r\n" : r.from("abcdef", r.below(3)) + ":\r\n"; };
    auto no_blank = [&]{ std::string s = header(); return s.size() == 2 ? std::string("a:\r\n") : s; };
    switch(r.below(10))
    {
        case 0: endless<HttpRequest>(r, "request line", "GET /", [&]{ return r.from("abc?&=", 100); }, H_MAX - 5, 8, St::HttpHeaderTooBig, most); break;
        case 1: endless<HttpRequest>(r, "request headers", req, no_blank, H_MAX - req.size(), 8, St::HttpHeaderTooBig, most); break;
        case 2: endless<HttpResponse>(r, "response headers", resp, no_blank, H_MAX - resp.size(), 8, St::HttpHeaderTooBig, most); break;
        case 3: endless<HttpResponse>(r, "status line", resp.substr(0, 12), fill, H_MAX - 12, 8, St::HttpHeaderTooBig, most); break;
        case 4:
        {
            if(B_MAX > 100000) return;
            std::string l = "Content-Length: " + std::to_string(B_MAX + 1 + r.below(1000000)) + "\r\n\r\n";
            auto data = [&]{ return r.bytes(100); };
            if(r.coin()) endless<HttpRequest>(r, "request body", req + l, data, B_MAX, 8, St::HttpBodyTooBig, most);
            else endless<HttpResponse>(r, "response body", resp + l, data, B_MAX, 8, St::HttpBodyTooBig, most);
            break;
        }
        case 5:
            // the length of a chunk, never ending
            endless<HttpResponse>(r, "chunk extension", resp + chunked + "5;", [&]{ return r.from("abc:;= ", 100); }, H_MAX - 2, 8, St::HttpHeaderTooBig, most); break;
        case 6:
            endless<HttpResponse>(r, "trailers", resp + chunked + "0\r\n", no_blank, H_MAX - 8, 16, St::HttpHeaderTooBig, most); break;
        case 7:
        {
            // many small chunks
            if(B_MAX > 100000) return;
            size_t n = 1 + r.below(40);
            char head[20];
            snprintf(head, sizeof head, "%zx\r\n", n);
            size_t whole_chunk = n + strlen(head) + 2;
            size_t count = B_MAX / n; // fits
            endless<HttpResponse>(r, "chunks", resp + chunked, [&]{ return head + r.bytes(n) + "\r\n"; }, count * whole_chunk, whole_chunk + 8, St::HttpBodyTooBig, most);
            break;
        }
        case 8:
        {
            // many small chunks with long extensions, of which nothing remains
            if(B_MAX > 100000) return;
            size_t e = r.below(H_MAX - 10);
            endless<HttpResponse>(r, "chunks with extensions", resp + chunked, [&]{ return "1;" + std::string(e, 'e') + "\r\nx\r\n"; }, B_MAX * (7 + e), 7 + e + 8, St::HttpBodyTooBig, std::max<size_t>(most, 100));
            break;
        }
        default:
        {
            // a chunk which is too large by itself, or with those before
            size_t before = r.below(B_MAX > 100000 ? 2000 : B_MAX);
            std::string t = resp + chunked;
            if(before) { char head[20]; snprintf(head, sizeof head, "%zx\r\n", before); t += head + r.bytes(before) + "\r\n"; }
            char head[20];
            snprintf(head, sizeof head, "%zx\r\n", B_MAX - before + 1 + (r.coin() ? 0 : (size_t)r.below(100000)));
            if(B_MAX > 100000)
            {
                HttpResponse h;
                Outcome o = feed(r, h, t + head, 1000, "large chunk");
                VH_CHECK(o.status == St::NotEnoughData || o.status == St::HttpBodyTooBig, "large-chunk", vh::status_name(o.status));
                break;
            }
            // refused at once or once too much has arrived
            HttpResponse h;
            Outcome o = feed(r, h, t + head + r.bytes(B_MAX - before + 8), 1000, "large chunk");
            VH_CHECK(o.status == St::HttpBodyTooBig, "large-chunk", vh::status_name(o.status), " for ", before, " then ", head);
            vh::count("endless large chunk");
        }
    }
    vh::distinct(vh::mix(index));
}
// Headers and bodies which are too large, arriving all at once
VH_SECTION(at_once, 480, 6000)
{
    Rng &r = rng;
    const bool request = r.coin(), tail = r.coin();
    if(index % 3)
    {
        // The header, the blank line after it not being counted
        size_t size = H_MAX - 8 + r.below(24);
        if(r.chance(1, 3)) size = H_MAX + r.below(3 * H_MAX);
        std::string text = request ? "GET / HTTP/1.1" : "HTTP/1.1 200 OK";
        while(text.size() < size)
        {
            size_t left = size - text.size();
            if(left < 6) { text.replace(request ? 5 : 15, 0, std::string(left, 'x')); break; }
            std::string line = "\r\na: " + std::string(r.chance(1, 3) ? left - 5 : std::min<size_t>(left - 5, 1 + r.below(400)), 'b');
            if(left > line.size() && left - line.size() < 6) line += std::string(left - line.size(), 'c');
            text += line;
        }
        if(text.size() != size) { fprintf(stderr, "at_once: %zu != %zu\n", text.size(), size); _exit(94); }
        text += "\r\n\r\n";
        if(tail) text += r.bytes(r.below(2000));
        HttpRequest q; HttpResponse p;
        size_t first = r.coin() ? text.size() : r.below(text.size());
        St s = request ? piece(q, text.data(), first, "at-once", text) : piece(p, text.data(), first, "at-once", text);
        if(s == St::NotEnoughData && first < text.size()) s = request ? piece(q, text.data() + first, text.size() - first, "at-once", text) : piece(p, text.data() + first, text.size() - first, "at-once", text);
        if(size <= H_MAX) VH_CHECK(s == St::Success || (tail && s == St::HttpBodyTooBig), "header-refused-at-once", size, " of ", H_MAX, ": ", vh::status_name(s));
        if(size > H_MAX + 8) VH_CHECK(s == St::HttpHeaderTooBig, "header-accepted-at-once", size, " of ", H_MAX, ": ", vh::status_name(s));
        vh::count(size <= H_MAX ? "headers at once within the limit" : "headers at once beyond the limit");
        vh::distinct(vh::hash_str(text));
        return;
    }
    // A body without a length
    if(B_MAX > 100000) return;
    size_t size = B_MAX - 4 + r.below(12);
    if(r.chance(1, 3)) size = B_MAX + r.below(3 * B_MAX);
    std::string head = request ? "PUT / HTTP/1.1\r\nA: b\r\n\r\n" : "HTTP/1.1 200 OK\r\nA: b\r\n\r\n", text = head + std::string(size, 'b');
    HttpRequest q; HttpResponse p;
    size_t first = r.coin() ? 0 : r.below(head.size());
    if(first) VH_CHECK((request ? piece(q, text.data(), first, "at-once", text) : piece(p, text.data(), first, "at-once", text)) == St::NotEnoughData, "at-once-early", first);
    St s = request ? piece(q, text.data() + first, text.size() - first, "at-once", text) : piece(p, text.data() + first, text.size() - first, "at-once", text);
    VH_CHECK(s == (size > B_MAX ? St::HttpBodyTooBig : St::Success), size > B_MAX ? "body-accepted-at-once" : "body-refused-at-once", size, " of ", B_MAX, ": ", vh::status_name(s));
    vh::count(size > B_MAX ? "bodies at once beyond the limit" : "bodies at once within the limit");
    vh::distinct(vh::hash_str(text));
}
// Bodies of the maximum size are accepted, and those one larger aren't
VH_SECTION_X(largest_bodies, 80, 400, false, 120)
{
    bool request = index % 2 == 0, chunked = index % 4 == 3, over = index / 4 % 2 == 1;
    size_t size = B_MAX + (over ? 1 : 0);
    std::string b(size, 'b');
    std::string text = request ? "POST / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n";
    if(chunked)
    {
        text += "Transfer-Encoding: chunked\r\n\r\n";
        for(size_t at = 0; at < size;) { size_t n = std::min<size_t>(size - at, 1 + rng.below(size / 3 + 1)); char h[20]; snprintf(h, sizeof h, "%zx\r\n", n); text += h + b.substr(at, n) + "\r\n"; at += n; }
        text += "0\r\n\r\n";
    }
    else text += "Content-Length: " + std::to_string(size) + "\r\n\r\n" + b;
    HttpRequest q; HttpResponse p;
    size_t most = B_MAX > 100000 ? 400000 : some_size(rng);
    Outcome o = request ? feed(rng, q, text, most, "largest") : feed(rng, p, text, most, "largest");
    VH_CHECK(o.status == (over ? St::HttpBodyTooBig : St::Success), over ? "largest-over" : "largest-refused", vh::status_name(o.status), " for ", size);
    if(!over && o.status == St::Success) VH_CHECK((request ? q.get_body() : p.get_body()) == b, "largest-content", size);
    vh::count("largest bodies");
}
