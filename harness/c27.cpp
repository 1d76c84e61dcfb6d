// C27: streams of bytes and mixed messages arrive complete
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <vh_conn.h>
#include <vh_pair.h>
#include <vh_packet.h>
#include <vh_ws.h>
using namespace vc;
using fr::Socket;
using std::chrono::milliseconds;

#define PATIENCE vh::patience(30000)
enum Mode { Blocking, Polling, Timing };
static const char *const MODES[] = {"blocking", "non-blocking", "with timeouts"};

using vn::stream;
static void faults(Rng &r, Mode m)
{
    auto &h = vn::hook();
    h.rng = &r;
    h.eintr_pct = 15;
    h.short_pct = 40;
    h.max_chunk = r.pick({3, 200, 4000});
    if(m == Polling) h.again_pct = 15;
}
static void wait_for(Socket &s, short what) { pollfd p{s.get_socket_descriptor(), what, 0}; __real_poll(&p, 1, 20); }

// Puts all of it on the socket, a piece at a time
static std::string put(Socket &s, Mode m, const std::string &d, size_t most, Rng &r)
{
    size_t at = 0;
    const auto begin = vn::Clock::now();
    uint64_t waits = 0;
    while(at < d.size() || r.chance(1, 4))
    {
        const size_t n = std::min(d.size() - at, (size_t)r.below(most + 1));
        // Of its own, so that reading beyond it is noticed
        std::unique_ptr<char[]> piece(new char[n]);
        memcpy(piece.get(), d.data() + at, n);
        const bool own_count = r.coin();
        size_t done = 0;
        for(;;)
        {
            size_t count = own_count ? done : 0;
            const St st = own_count ? s.send_raw(piece.get(), n, count) : s.send_raw(piece.get() + done, n - done, count);
            const size_t now = own_count ? count : done + count;
            if(now < done || now > n) return vh::cat("counted ", now, " after ", done, " of ", n);
            done = now;
            if(st == St::Success) { if(done != n) return vh::cat("succeeded with ", done, " of ", n, " bytes"); break; }
            if(!(m == Polling && st == St::WouldBlock) && !(m == Timing && st == St::Timeout)) return vh::cat("status ", Socket::status_to_string(st), " after ", at + done, " bytes");
            waits++;
            if(vn::ms_since(begin) > PATIENCE) return vh::cat("stuck after ", at + done, " bytes");
            if(m == Polling && r.coin()) wait_for(s, POLLOUT);
        }
        at += n;
    }
    vh::count("sends which had to wait", waits);
    return "";
}
// Takes that much from it
static std::string get(Socket &s, Mode m, size_t total, size_t most, std::string &d, Rng &r)
{
    const auto begin = vn::Clock::now();
    uint64_t waits = 0, alls = 0;
    while(d.size() < total)
    {
        // (a timeout within receive_all ends it)
        const bool all = m != Timing && r.coin();
        size_t n = 1 + (size_t)r.below(most);
        if(all) n = std::min(n, total - d.size());
        std::unique_ptr<char[]> b(new char[n]);
        memset(b.get(), 0x5A, n);
        size_t got = 0;
        if(all && r.chance(1, 10) && s.receive_all(b.get(), 0) != St::Success) return "receiving nothing failed";
        if(!all) got = n + 7;
        const St st = all ? s.receive_all(b.get(), n) : s.receive_raw(b.get(), n, got);
        if(st == St::Success)
        {
            if(all) { got = n; alls++; }
            if(got == 0 || got > n) return vh::cat("received ", got, " bytes into ", n);
            for(size_t a = got; a < n; a++) if(b[a] != 0x5A) return vh::cat("wrote to byte ", a, ", but received ", got);
            d.append(b.get(), got);
            continue;
        }
        if(!all && got != 0) return vh::cat(Socket::status_to_string(st), ", and ", got, " bytes");
        if(!(m == Polling && st == St::WouldBlock) && !(m == Timing && st == St::Timeout)) return vh::cat("status ", Socket::status_to_string(st), " after ", d.size(), " bytes");
        waits++;
        if(vn::ms_since(begin) > PATIENCE) return vh::cat("stuck after ", d.size(), " bytes");
        if(m == Polling && r.coin()) wait_for(s, POLLIN);
    }
    vh::count("receives which had to wait", waits);
    vh::count("exact receives", alls);
    return "";
}
static std::string differs(const std::string &got, const std::string &sent)
{
    if(got == sent) return "";
    size_t at = 0;
    while(at < std::min(got.size(), sent.size()) && got[at] == sent[at]) at++;
    return vh::cat(got.size(), " bytes instead of ", sent.size(), ", different from ", at, " on");
}

// ---- both ways at once (one way at a time over TLS) ----
struct Way1 { Socket *from, *to; Mode out, in; std::string data, got, sending, receiving; size_t most_out, most_in; uint64_t seeds[2]; bool faulty[2]; };
VH_SECTION_X(streams, 700, 12000, false, 120)
{
    Pair p((Type)(index % 3));
    if(!p.open()) return;
    const bool narrow = rng.coin();
    if(narrow) p.narrow(rng.pick({4000, 20000, 60000}));
    const Mode a = (Mode)rng.below(3), b = (Mode)rng.below(3);
    for(auto &x : {std::make_pair(p.a.get(), a), std::make_pair(p.b.get(), b)})
    {
        if(x.second == Polling) x.first->set_blocking(false);
        if(x.second == Timing) { x.first->set_receive_timeout((uint32_t)rng.range(1, 12)); x.first->set_send_timeout((uint32_t)rng.range(1, 12)); }
    }
    std::vector<Way1> ways(p.type == Tls ? 1 : 2);
    for(size_t n = 0; n < ways.size(); n++)
    {
        Way1 &w = ways[n];
        const bool forth = p.type == Tls ? rng.coin() : n == 0;
        w.from = forth ? p.a.get() : p.b.get();
        w.to = forth ? p.b.get() : p.a.get();
        w.out = forth ? a : b;
        w.in = forth ? b : a;
        const size_t size = narrow ? rng.below(40000) : rng.chance(1, 8) ? rng.below(3000000) : rng.below(200000);
        w.most_out = rng.pick<size_t>({1, 100, 5000, 20000, 70000, 4000000});
        w.most_in = rng.pick<size_t>({1, 100, 5000, 20000, 70000});
        w.data = stream(std::min(size, 3000 * std::min(w.most_out, w.most_in)), rng.u64());
        for(int k = 0; k < 2; k++) { w.seeds[k] = rng.fork(); w.faulty[k] = rng.coin(); }
    }
    std::vector<std::thread> threads;
    for(auto &w : ways)
    {
        threads.emplace_back([&w]{
            vn::HookScope h;
            Rng r(w.seeds[0]), f(w.seeds[0] + 1);
            if(w.faulty[0]) faults(f, w.out);
            w.sending = put(*w.from, w.out, w.data, w.most_out, r);
            if(!w.sending.empty()) w.from->shutdown();
        });
        threads.emplace_back([&w]{
            vn::HookScope h;
            Rng r(w.seeds[1]), f(w.seeds[1] + 1);
            if(w.faulty[1]) faults(f, w.in);
            w.receiving = get(*w.to, w.in, w.data.size(), w.most_in, w.got, r);
            if(!w.receiving.empty()) w.to->shutdown();
        });
    }
    for(auto &t : threads) t.join();
    for(auto &w : ways)
    {
        const std::string what = vh::cat(TYPES[p.type], ", ", w.from == p.a.get() ? "forth" : "back", ", sender ", MODES[w.out], w.faulty[0] ? " and interrupted" : "", ", receiver ", MODES[w.in], w.faulty[1] ? " and interrupted" : "", ", ", w.data.size(), " bytes");
        VH_CHECK(w.sending.empty(), "sending", what, ": ", w.sending, w.receiving.empty() ? "" : "; receiver: ", w.receiving);
        if(w.sending.empty()) VH_CHECK(w.receiving.empty(), "receiving", what, ": ", w.receiving);
        if(w.sending.empty() && w.receiving.empty()) VH_CHECK(w.got == w.data, "stream-differs", what, ": ", differs(w.got, w.data));
        else VH_CHECK(w.got == w.data.substr(0, w.got.size()), "stream-differs", what, ": ", differs(w.got, w.data));
        vh::count("bytes received", w.got.size());
        vh::count("streams");
        vh::distinct(vh::mix(w.seeds[0]));
        if(vh::want_sample("streams")) vh::sample("streams", what);
    }
    // Nothing else arrives
    for(auto &w : ways)
    {
        if(!w.sending.empty() || !w.receiving.empty() || p.type == Tls) continue;
        char c;
        size_t n = 0;
        w.to->set_blocking(false);
        VH_CHECK(w.to->receive_raw(&c, 1, n) == St::WouldBlock, "left-over", TYPES[p.type]);
    }
}

// ---- messages of all kinds on one connection ----
// A user's own
struct Line : public fr::Sendable
{
    std::string text;
    St send(Socket *s) const override
    {
        const std::string all = vh::cat((char)(text.size() & 255), (char)(text.size() >> 8), text);
        size_t n = 0;
        St st;
        do st = s->send_raw(all.data(), all.size(), n); while(st == St::WouldBlock);
        return st;
    }
    St receive(Socket *s) override
    {
        unsigned char h[2];
        St st = s->receive_all(h, 2);
        if(st != St::Success) return st;
        text.resize(h[0] + 256u * h[1]);
        do st = text.empty() ? St::Success : s->receive_all(&text[0], text.size()); while(st == St::WouldBlock);
        return st;
    }
};
enum What { Bytes, PacketItem, Own, FrameItem, WHATS };
struct Item { What what; std::string data; unsigned opcode = 1; bool fin = true; };
static std::string send_item(Socket &s, const Item &i, bool client)
{
    St st = St::Unknown;
    if(i.what == Bytes)
    {
        size_t n = 0;
        do st = s.send_raw(i.data.data(), i.data.size(), n); while(st == St::WouldBlock);
        if(st == St::Success && n != i.data.size()) return vh::cat("counted ", n);
    }
    else if(i.what == PacketItem) { fr::Packet p; p << i.data << (uint32_t)i.data.size(); st = s.send(p); }
    else if(i.what == Own) { Line l; l.text = i.data; st = s.send(l); }
    else
    {
        auto f = vw::make(client);
        f->set_payload(i.data);
        f->set_opcode((fr::WebFrame::Opcode)i.opcode);
        f->set_final(i.fin);
        st = s.send(*f);
    }
    return st == St::Success ? "" : Socket::status_to_string(st);
}
static std::string receive_item(Socket &s, const Item &i, bool client, Mode m, uint64_t &waits)
{
    const auto begin = vn::Clock::now();
    std::string got(i.what == Bytes ? i.data.size() : 0, '\0');
    fr::Packet p;
    Line l;
    auto f = vw::make(client);
    for(;;)
    {
        St st = i.what == Bytes ? s.receive_all(&got[0], got.size()) : i.what == PacketItem ? s.receive(p) : i.what == Own ? s.receive(l) : s.receive(*f);
        if(st == St::WouldBlock && m == Polling && vn::ms_since(begin) < PATIENCE) { waits++; wait_for(s, POLLIN); continue; }
        if(st != St::Success) return Socket::status_to_string(st);
        break;
    }
    if(i.what == PacketItem)
    {
        uint32_t n = 0;
        try { p >> got >> n; } catch(const std::exception &e) { return e.what(); }
        if(n != got.size() || p.get_cursor() != p.size()) return "another packet";
    }
    else if(i.what == Own) got = l.text;
    else if(i.what == FrameItem)
    {
        got = f->get_payload();
        if((unsigned)f->get_opcode() != i.opcode || f->is_final() != i.fin) return "another kind of frame";
    }
    return differs(got, i.data);
}
VH_SECTION_X(mixed, 900, 15000, false, 120)
{
    Pair p((Type)(index % 3));
    if(!p.open()) return;
    const bool narrow = rng.coin();
    if(narrow) p.narrow(rng.pick({6000, 30000}));
    const Mode modes[2] = {(Mode)rng.below(2), (Mode)rng.below(2)};
    if(modes[0] == Polling) p.a->set_blocking(false);
    if(modes[1] == Polling) p.b->set_blocking(false);
    // Turns: one side sends some, then the other
    const size_t turns = 1 + rng.below(4);
    for(size_t t = 0; t < turns; t++)
    {
        const bool forth = rng.coin();
        Socket &from = forth ? *p.a : *p.b, &to = forth ? *p.b : *p.a;
        std::vector<Item> items;
        for(size_t n = 1 + rng.below(12); n > 0; n--)
        {
            Item i;
            i.what = (What)rng.below(p.type == Ws ? WHATS : FrameItem);
            i.data = rng.bytes(rng.chance(1, 10) ? rng.below(narrow ? 6000 : 60000) : rng.below(200));
            if(i.what == Bytes && i.data.empty()) i.data = "x";
            if(i.what == FrameItem) { i.opcode = (unsigned)rng.pick({0, 1, 2, 9, 10}); i.fin = i.opcode > 2 || rng.coin(); if(i.opcode > 2) i.data.resize(std::min<size_t>(125, i.data.size())); }
            items.push_back(i);
        }
        const uint64_t seeds[2] = {rng.fork(), rng.fork()};
        const bool faulty[2] = {rng.coin(), rng.coin()};
        const bool late = !narrow && rng.chance(1, 4); // everything's there before the first is received
        const Mode out = modes[forth ? 0 : 1], in = modes[forth ? 1 : 0];
        std::string error;
        size_t sent = 0;
        std::thread sender([&]{
            vn::HookScope h;
            Rng f(seeds[0]);
            if(faulty[0]) faults(f, out);
            for(auto &i : items) { error = send_item(from, i, forth); if(!error.empty()) { from.shutdown(); return; } sent++; if(!late && f.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(300)); }
        });
        size_t total = 0;
        for(auto &i : items) total += i.data.size() + 20;
        if(late && total < 60000) sender.join();
        std::string wrong;
        uint64_t waits = 0;
        size_t n = 0;
        {
            vn::HookScope h;
            Rng f(seeds[1]);
            if(faulty[1]) faults(f, in);
            for(; n < items.size() && wrong.empty(); n++) wrong = receive_item(to, items[n], !forth, in, waits);
            if(!wrong.empty()) to.shutdown();
        }
        if(sender.joinable()) sender.join();
        static const char *const NAMES[] = {"raw data", "packet", "user's message", "frame"};
        std::string what = vh::cat(TYPES[p.type], ", ", MODES[out], " to ", MODES[in], ":");
        for(auto &i : items) what += vh::cat(" ", NAMES[i.what], " (", i.data.size(), ")");
        VH_CHECK(error.empty(), "mixed-sending", what, ": item ", sent, ": ", error);
        if(error.empty()) VH_CHECK(wrong.empty(), "mixed-receiving", what, ": item ", n - 1, ": ", wrong);
        if(!error.empty() || !wrong.empty()) return;
        vh::count("messages received", items.size());
        vh::count("receives which had to wait", waits);
        vh::distinct(vh::mix(seeds[0]));
        if(vh::want_sample("mixed")) vh::sample("mixed", what.substr(0, 300));
    }
}

// ---- larger than what sockets hold: sending stops and goes on at any place ----
VH_SECTION_X(large, 150, 3000, false, 120)
{
    Pair p((Type)(index % 3));
    if(!p.open()) return;
    if(rng.below(4)) p.narrow(rng.pick({60000, 150000, 400000, 1500000}));
    const bool forth = rng.coin();
    Socket &from = forth ? *p.a : *p.b, &to = forth ? *p.b : *p.a;
    const Mode out = (Mode)rng.below(2), in = (Mode)rng.below(2);
    if(out == Polling) from.set_blocking(false);
    if(in == Polling) to.set_blocking(false);
    std::vector<Item> items;
    for(size_t n = 1 + rng.below(4); n > 0; n--)
    {
        Item i;
        i.what = (What)rng.pick({(int)Bytes, (int)PacketItem, p.type == Ws ? (int)FrameItem : (int)PacketItem});
        i.data = stream(vn::large(rng, items.empty() ? 24000000 : 3000000), rng.u64());
        if(rng.chance(1, 5)) i.data.resize(rng.below(100) + 1);
        if(i.what == FrameItem) i.opcode = (unsigned)rng.pick({1, 2});
        items.push_back(i);
    }
    const uint64_t seeds[2] = {rng.fork(), rng.fork()};
    const unsigned shorts = rng.coin() ? 40 : 0;
    const size_t most = rng.pick<size_t>({70000, 300000, 2000000});
    std::string error;
    size_t sent = 0;
    uint64_t partial = 0;
    std::thread sender([&]{
        vn::HookScope h;
        Rng f(seeds[0]);
        h->rng = &f; h->short_pct = shorts; h->eintr_pct = shorts / 4; h->max_chunk = most;
        for(auto &i : items) { error = send_item(from, i, forth); if(!error.empty()) { from.shutdown(); return; } sent++; }
        partial = h->shorts;
    });
    std::string wrong;
    uint64_t waits = 0;
    size_t n = 0;
    Rng own(seeds[1]);
    {
        vn::HookScope h;
        h->rng = &own; h->short_pct = shorts; h->max_chunk = most;
        for(; n < items.size() && wrong.empty(); n++)
        {
            if(own.coin()) std::this_thread::sleep_for(std::chrono::milliseconds(own.below(8)));
            Item &i = items[n];
            if(i.what != Bytes || own.coin()) { wrong = receive_item(to, i, !forth, in, waits); continue; }
            // As it comes
            std::string got(i.data.size(), '\0');
            size_t at = 0;
            const auto begin = vn::Clock::now();
            while(at < got.size() && wrong.empty())
            {
                size_t now = 0;
                const size_t room = std::min(got.size() - at, own.pick<size_t>({5000, 60000, 200000, 4000000}));
                St st = to.receive_raw(&got[at], room, now);
                if(st == St::Success) { if(now == 0 || now > room) wrong = vh::cat(now, " bytes"); at += now; if(own.chance(1, 50)) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
                else if(st == St::WouldBlock && in == Polling && vn::ms_since(begin) < PATIENCE) { waits++; wait_for(to, POLLIN); }
                else wrong = Socket::status_to_string(st);
            }
            if(wrong.empty()) wrong = differs(got, i.data);
        }
        if(!wrong.empty()) to.shutdown();
    }
    sender.join();
    std::string what = vh::cat(TYPES[p.type], ", ", MODES[out], " to ", MODES[in], ":");
    for(auto &i : items) what += vh::cat(i.what == Bytes ? " raw data (" : i.what == PacketItem ? " packet (" : " frame (", i.data.size(), ")");
    VH_CHECK(error.empty() || !wrong.empty(), "large-sending", what, ": item ", sent, ": ", error);
    VH_CHECK(wrong.empty(), "large-receiving", what, ": item ", n - 1, ": ", wrong, error.empty() ? "" : "; sender: ", error);
    if(!error.empty() || !wrong.empty()) return;
    size_t total = 0;
    for(auto &i : items) total += i.data.size();
    vh::count("large bytes received", total);
    vh::count("large items received", items.size());
    vh::count("receives which had to wait", waits);
    vh::distinct(vh::mix(seeds[0]));
    if(vh::want_sample("large")) vh::sample("large", what);
}

// ---- what was sent before the end arrives before the end ----
VH_SECTION_X(ends, 600, 10000, false, 120)
{
    Pair p(index % 2 ? Tls : Tcp);
    if(!p.open()) return;
    const bool narrow = rng.coin();
    if(narrow) p.narrow(rng.pick({6000, 30000}));
    const bool forth = rng.coin();
    auto &from = forth ? p.a : p.b, &to = forth ? p.b : p.a;
    const unsigned end = (unsigned)rng.below(3);
    static const char *const ENDS[] = {"disconnected", "destroyed", "shut down"};
    const Mode in = (Mode)rng.below(2);
    if(in == Polling) to->set_blocking(false);
    const bool eventually = rng.coin(); // received once it's over
    std::string data = stream(eventually && narrow ? rng.below(2000) : rng.below(narrow ? 30000 : 100000), rng.u64()), got, error;
    const std::string what = vh::cat(TYPES[p.type], ", ", ENDS[end], " after ", data.size(), " bytes, receiver ", MODES[in]);
    const uint64_t seed = rng.fork();
    if(p.type == Tls && !forth) {} // (tickets of TLS 1.3, if any, are read by the receiver as it goes)
    std::thread sender([&]{
        Rng r(seed);
        error = put(*from, Blocking, data, r.pick<size_t>({100, 5000, 4000000}) + data.size() / 500, r);
        if(end == 0) from->disconnect();
        else if(end == 1) from.reset();
        else from->shutdown();
    });
    const bool small = data.size() < 60000 && (!narrow || data.size() < 2000);
    if(eventually && small) sender.join();
    St st;
    const auto begin = vn::Clock::now();
    {
        vn::HookScope h;
        Rng f(rng.fork());
        if(rng.coin()) faults(f, in);
        std::vector<char> b(1 + rng.below(9000));
        for(;;)
        {
            size_t n = 0;
            st = to->receive_raw(b.data(), b.size(), n);
            if(st == St::Success) { got.append(b.data(), n); if(n == 0) break; continue; }
            if(st == St::WouldBlock && in == Polling && vn::ms_since(begin) < PATIENCE) { wait_for(*to, POLLIN); continue; }
            break;
        }
    }
    if(sender.joinable()) sender.join();
    VH_CHECK(error.empty(), "sending", what, ": ", error);
    VH_CHECK(got == data, "lost-at-the-end", what, ": ", differs(got, data), ", then ", Socket::status_to_string(st));
    VH_CHECK(st == St::Disconnected, "end-not-reported", what, ": ", Socket::status_to_string(st));
    if(st != St::Disconnected) return;
    char c[4];
    size_t n = 99;
    St again = to->receive_raw(c, sizeof c, n);
    VH_CHECK(again != St::Success && n == 0, "received-after-the-end", what, ": ", Socket::status_to_string(again), " and ", n, " bytes");
    again = to->receive_all(c, sizeof c);
    VH_CHECK(again != St::Success, "received-after-the-end", what, ": ", Socket::status_to_string(again));
    vh::count("ends");
    vh::distinct(vh::mix(seed));
}

// ---- what's there is given at once, however much was asked for ----
VH_SECTION_X(prompt, 600, 10000, false, 120)
{
    const Kind k = kind(index);
    Conn c(k.t);
    if(!c.open(k.w)) return;
    c.settle();
    const Mode m = (Mode)rng.below(3);
    if(m == Polling) c.s->set_blocking(false);
    else c.s->set_receive_timeout(20000);
    for(size_t rounds = 1 + rng.below(4); rounds > 0; rounds--)
    {
        const std::string d = rng.bytes(1 + rng.below(rng.coin() ? 8 : 3000));
        if(!c.feed(d)) vn::broken("feeding");
        std::string got;
        const auto begin = vn::Clock::now();
        while(got.size() < d.size())
        {
            const size_t n = 1 + (size_t)(rng.coin() ? rng.below(10) : rng.below(20000));
            std::unique_ptr<char[]> b(new char[n]);
            size_t now = n + 1;
            const St st = c.s->receive_raw(b.get(), n, now);
            if(st == St::WouldBlock && m == Polling && vn::ms_since(begin) < PATIENCE) { wait_for(*c.s, POLLIN); continue; }
            VH_CHECK(st == St::Success && now > 0 && now <= n && now <= d.size() - got.size(), "received", c.name, ": ", Socket::status_to_string(st), ", ", now, " of ", d.size() - got.size(), " into ", n);
            if(st != St::Success || now > n) return;
            got.append(b.get(), now);
        }
        const double ms = vn::ms_since(begin);
        VH_CHECK(ms < 15000, "held-back", c.name, ": ", d.size(), " bytes took ", ms, " ms");
        VH_CHECK(got == d, "received-differs", c.name, ": ", differs(got, d));
        vh::count("pieces taken as they were", 1);
    }
    vh::distinct(vh::mix(rng.fork()));
}
