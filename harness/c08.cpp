// C08: HTTP parsing does not depend on how the bytes arrive
#define VH_MAIN
#include <vh.h>
#include <vh_http.h>
#include <vh_mock.h>
using namespace vhttp;
using fr::HttpRequest;
using fr::HttpResponse;
using fr::Socket;
typedef std::vector<size_t> Cuts; // sizes of the pieces

static std::string cut_text(const Cuts &c) { std::string s; for(size_t a = 0; a < c.size() && a < 12; a++) s += (a ? "+" : "") + std::to_string(c[a]); return s + (c.size() > 12 ? "+.." : ""); }

struct Outcome { Socket::Status status = Socket::Status::NotEnoughData; size_t at = 0; };
// Feeds pieces until the parser has made up its mind. Every piece is in a block of its own, so that reading past it is noticed.
template<typename H> static Outcome feed(H &h, const std::string &text, const Cuts &cuts)
{
    Outcome o;
    for(size_t c : cuts)
    {
        c = std::min(c, text.size() - o.at);
        std::unique_ptr<char[]> piece(new char[c ? c : 1]);
        memcpy(piece.get(), text.data() + o.at, c);
        o.status = h.parse(piece.get(), c);
        o.at += c;
        if(o.status != Socket::Status::NotEnoughData) break;
    }
    return o;
}
static Cuts whole(size_t n) { return Cuts{n}; }
static Cuts bytewise(size_t n) { return Cuts(n, 1); }
static Cuts random_cuts(Rng &r, size_t n)
{
    Cuts c;
    size_t most = r.pick<size_t>({2, 5, 20, 100, n / 2 + 1});
    for(size_t at = 0; at < n;) { size_t k = std::min(n - at, 1 + (size_t)r.below(most)); c.push_back(k); at += k; }
    if(r.chance(1, 10)) c.insert(c.begin() + (long)r.below(c.size() + 1), 0); // an empty piece too
    if(c.back() == 0) c.pop_back();
    return c;
}
template<typename H> static void check(Rng &r, const Message &m, const std::string &text, const Cuts &cuts, const char *how)
{
    H h;
    Outcome o = feed(h, text, cuts);
    auto where = [&]{ return vh::cat(" (", how, " ", cut_text(cuts), ") of ", m.text.size(), " bytes ", vh::show(text, 500)); };
    vh::evaluated();
    if(o.status == Socket::Status::NotEnoughData) { vh::violation("incomplete", "the message isn't complete" + where()); return; }
    VH_CHECK(o.status == Socket::Status::Success, "status", Socket::status_to_string(o.status), " after ", o.at, where());
    if(o.status != Socket::Status::Success) return;
    VH_CHECK(o.at >= m.text.size(), "early", "success after ", o.at, where());
    std::string d = differs(h, m, r);
    VH_CHECK(d.empty(), std::string("content-") + how, d, where());
}
template<typename H> static void one(Rng &r, bool request)
{
    Message m = message(r, request);
    const size_t n = m.text.size();
    std::string text = m.text;
    check<H>(r, m, text, whole(n), "whole");
    for(int a = 0; a < 3; a++) check<H>(r, m, text, random_cuts(r, n), "pieces");
    if(n <= 1500) check<H>(r, m, text, bytewise(n), "bytewise");
    if(m.length_declared && n <= 5000)
    {
        // what follows in the last piece isn't part of it
        std::string extra = r.coin() ? r.bytes(1 + r.below(40)) : r.pick<std::string>({"GET / HTTP/1.1\r\n\r\n", "\r\n", "HTTP/1.1 200 OK\r\n\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "&x=y"});
        size_t first = r.below(n);
        Cuts c = random_cuts(r, first + 1);
        size_t sum = 0;
        for(size_t x : c) sum += x;
        c.push_back(n + extra.size() - sum);
        check<H>(r, m, text + extra, c, "followed");
        check<H>(r, m, text + extra, whole(n + extra.size()), "followed");
        vh::count("followed by other data");
    }
    vh::count(m.chunked ? "chunked" : m.length_declared ? "with a length" : "without a body");
    vh::distinct(vh::hash_str(m.text));
    vh::sample(request ? "request" : "response", vh::show(m.text, 250), 4);
}
VH_FUZZ_SECTION(requests, 48000, 500000) { one<HttpRequest>(rng, true); }
VH_FUZZ_SECTION(responses, 48000, 500000) { one<HttpResponse>(rng, false); }

// Every two-way split, and every three-way split of small ones
template<typename H> static void splits(Rng &r, bool request)
{
    Message m;
    do m = message(r, request);
    while(m.text.size() > 500);
    const size_t n = m.text.size();
    for(size_t a = 1; a < n; a++) check<H>(r, m, m.text, Cuts{a, n - a}, "split");
    if(n <= 60)
    {
        for(size_t a = 1; a < n; a++) for(size_t b = a + 1; b < n; b++) check<H>(r, m, m.text, Cuts{a, b - a, n - b}, "split in three");
        vh::count("split in three everywhere");
    }
    vh::count("split everywhere");
    vh::distinct(vh::hash_str(m.text));
}
VH_SECTION(request_splits, 1600, 20000) { splits<HttpRequest>(rng, true); }
VH_SECTION(response_splits, 1600, 20000) { splits<HttpResponse>(rng, false); }

// Chunked bodies of given sizes, cut at and around every boundary
VH_SECTION(chunks, 2400, 40000)
{
    Message m;
    m.request = false; m.chunked = true; m.length_declared = true;
    m.body = rng.coin() ? rng.bytes(rng.below(300)) : body(rng);
    if(rng.chance(1, 30)) m.body = rng.bytes(rng.size(300000));
    m.text = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
    size_t header = m.text.size();
    m.text += chunk_encode(rng, m.body, rng.coin());
    const size_t n = m.text.size();
    // after the header, cut next to line ends
    Cuts at;
    for(size_t a = header > 4 ? header - 4 : 0; a < n; a++)
        if(m.text[a] == '\r' || m.text[a] == '\n') for(size_t b = a; b <= a + 2 && b < n; b++) if(b && rng.coin()) at.push_back(b);
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    if(at.size() > 400) at.resize(400);
    Cuts c;
    size_t last = 0;
    for(size_t x : at) if(x > last) { c.push_back(x - last); last = x; }
    c.push_back(n - last);
    check<HttpResponse>(rng, m, m.text, c, "line ends");
    check<HttpResponse>(rng, m, m.text, whole(n), "whole");
    check<HttpResponse>(rng, m, m.text, random_cuts(rng, n), "pieces");
    vh::count("chunked");
    vh::distinct(vh::hash_str(m.text));
}

// Through a socket which hands over pieces and interrupts
template<typename H> static void socket_case(Rng &r, bool request)
{
    Message m = message(r, request);
    vh::MockSocket s(&r);
    s.in = m.text;
    s.max_chunk = r.pick<size_t>({1, 2, 7, 50, 1000, SIZE_MAX});
    if(m.text.size() > 20000 && s.max_chunk < 50) s.max_chunk = 3000;
    s.block_pct = r.coin() ? 0 : (unsigned)r.below(60);
    s.at_end = r.coin() ? Socket::Status::WouldBlock : Socket::Status::Disconnected;
    if(s.at_end == Socket::Status::WouldBlock) s.runaway = 5000000;
    H h;
    Socket::Status status;
    size_t tries = 0;
    do status = s.receive(h);
    while(status == Socket::Status::WouldBlock && s.in_pos == 0 && ++tries < 100000);
    auto where = [&]{ return vh::cat(" of ", m.text.size(), " bytes, in pieces of up to ", s.max_chunk, ": ", vh::show(m.text, 400)); };
    VH_CHECK(status == Socket::Status::Success, "socket-status", vh::status_name(status), " after ", s.in_pos, where());
    if(status != Socket::Status::Success) return;
    VH_CHECK(s.in_pos == m.text.size(), "socket-early", s.in_pos, where());
    std::string d = differs(h, m, r);
    VH_CHECK(d.empty(), "socket-content", d, where());
    vh::count("through a socket");
    vh::count("interruptions", s.blocks);
    vh::distinct(vh::hash_str(m.text, 7));
}
VH_FUZZ_SECTION(sockets, 32000, 400000)
{
    if(rng.coin()) socket_case<HttpRequest>(rng, true);
    else socket_case<HttpResponse>(rng, false);
}

// Near the configured limits the status is the same too
#if MAX_HTTP_HEADER_SIZE < 5000
template<typename H> static void limit_case(Rng &r, bool request)
{
    const size_t H_MAX = MAX_HTTP_HEADER_SIZE, B_MAX = MAX_HTTP_BODY_SIZE;
    std::string eol = r.below(6) ? "\r\n" : "\n";
    std::string first = request ? "POST /x HTTP/1.1" : "HTTP/1.1 200 OK";
    unsigned kind = (unsigned)r.below(request ? 2 : 4);
    std::string text;
    size_t size;
    bool fits;
    const char *what;
    if(kind == 0) // header
    {
        what = "header";
        size = H_MAX - 6 + r.below(14);
        text = first + eol + "X: ";
        text += r.from("abc:", size - text.size());
        fits = size <= H_MAX;
        text += eol + eol;
    }
    else if(kind == 1) // body
    {
        what = "body";
        size = B_MAX - 6 + r.below(14);
        text = first + eol + "Content-Length: " + std::to_string(size) + eol + eol + r.bytes(size);
        fits = size <= B_MAX;
    }
    else if(kind == 2) // chunked body
    {
        what = "chunked body";
        size = B_MAX - 6 + r.below(14);
        std::string b = r.bytes(size);
        text = first + "\r\nTransfer-Encoding: chunked\r\n\r\n" + chunk_encode(r, b);
        fits = size <= B_MAX;
    }
    else // the length of a chunk with its extensions, or trailers
    {
        what = r.coin() ? "extension" : "trailer";
        size = H_MAX - 6 + r.below(14);
        text = first + "\r\nTransfer-Encoding: chunked\r\n\r\n";
        std::string fill = r.from("abc", size - 2);
        if(*what == 'e') text += "3;" + fill + "\r\nabc\r\n0\r\n\r\n";
        else text += "3\r\nabc\r\n0\r\nT:" + fill + "\r\n\r\n";
        fits = size < H_MAX - 4; // about
    }
    H h;
    Outcome o = feed(h, text, whole(text.size()));
    if(fits) VH_CHECK(o.status == Socket::Status::Success, vh::cat("limit-refused-", *what), what, " of ", size, " bytes: ", vh::status_name(o.status));
    for(int a = 0; a < 3; a++)
    {
        H g;
        Cuts c = a == 0 ? bytewise(text.size()) : random_cuts(r, text.size());
        Outcome p = feed(g, text, c);
        vh::evaluated();
        VH_CHECK(p.status == o.status, vh::cat("limit-depends-", *what), what, " of ", size, " bytes: ", vh::status_name(o.status), " or ", vh::status_name(p.status), " when in pieces ", cut_text(c));
    }
    vh::count(vh::cat(what, fits ? " within the limit" : " around or over the limit"));
    vh::distinct(vh::hash_str(text));
}
VH_SECTION(limits, 6000, 60000)
{
    if(rng.coin()) limit_case<HttpRequest>(rng, true);
    else limit_case<HttpResponse>(rng, false);
}
#endif
