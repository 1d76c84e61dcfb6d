// C17: the socket selector reports exactly the members that are ready
#define VH_MAIN
#include <vh.h>
#include <vh_net.h>
#include <vh_tls.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <memory>
#include <algorithm>
using vh::Rng;
typedef fr::Socket::Status St;
typedef std::shared_ptr<fr::SocketDescriptor> Obj;
using std::chrono::milliseconds;

// Independent of epoll
static bool ready(int fd)
{
    pollfd p{fd, POLLIN | POLLRDHUP, 0};
    return __real_poll(&p, 1, 0) == 1;
}

template<typename T> void adopt(const T &s, int fd) { s->set_descriptor(&fd); }

struct Item
{
    unsigned id = 0;
    Obj obj;                             // dropped when the user lets go of it
    std::weak_ptr<fr::SocketDescriptor> weak;
    fr::SocketDescriptor *raw = nullptr;
    vn::Fd peer;
    std::vector<vn::Fd> callers;
    bool listener = false, tcp = false;
    Obj any() const { return obj ? obj : weak.lock(); }
    bool up() const { auto o = any(); return o && o->connected(); }
    int fd() const { auto o = any(); return o && o->connected() ? o->get_socket_descriptor() : -1; }
};
struct Member { void *opaque; int fd; bool live; }; // live until the socket is disconnected
struct Sel
{
    std::unique_ptr<fr::SocketSelector> s{new fr::SocketSelector};
    std::map<unsigned, Member> members; // by item
};

struct Scene
{
    Rng &r;
    std::map<unsigned, Item> items;
    std::vector<Sel> sels;
    unsigned next = 1;
    std::string history;
    bool broken = false;
    vn::HookScope h;

    explicit Scene(Rng &rng) : r(rng) {}
    void fail(const std::string &key, const std::string &d) { broken = true; vh::violation(key, vh::cat(d, " [", history.size() > 900 ? "..." + history.substr(history.size() - 900) : history, "]")); }
    void op(const std::string &w) { history += (history.empty() ? "" : ", ") + w; }
    Item *by_raw(fr::SocketDescriptor *p) { for(auto &i : items) if(i.second.raw == p) return &i.second; return nullptr; }

    // Everything ready must turn up in as many waits as there are, and nothing else may
    void cover(Sel &s)
    {
        if(broken) return;
        std::set<unsigned> due;
        for(auto &m : s.members) if(m.second.live && ready(m.second.fd)) due.insert(m.first);
        size_t waits = due.size() + 3, at = 0;
        std::set<unsigned> seen;
        for(; at < waits; at++)
        {
            if(due.empty() && at) break;
            std::vector<std::pair<Obj, void*>> got;
            try { got = s.s->wait(milliseconds(0)); }
            catch(const std::exception &e) { fail("wait-throws", e.what()); return; }
            std::set<unsigned> now;
            for(auto &g : got)
            {
                Item *i = g.first ? by_raw(g.first.get()) : nullptr;
                if(!i || !s.members.count(i->id)) { fail("reported-non-member", vh::cat("socket ", i ? i->id : 0)); return; }
                Member &m = s.members[i->id];
                if(g.second != m.opaque) { fail("wrong-opaque", vh::cat("socket ", i->id, " was added with ", m.opaque, " and reported with ", g.second)); return; }
                if(!m.live) { fail("reported-disconnected", vh::cat("socket ", i->id, " has been disconnected")); return; }
                if(!now.insert(i->id).second) { fail("reported-twice", vh::cat("socket ", i->id, " in one wait")); return; }
                if(!ready(m.fd)) { fail("reported-not-ready", vh::cat("socket ", i->id, ", descriptor ", m.fd)); return; }
                seen.insert(i->id);
            }
            vh::count("waits");
            if(at + 1 < waits && !due.empty() && std::includes(seen.begin(), seen.end(), due.begin(), due.end())) break;
        }
        for(unsigned d : due) if(!seen.count(d)) { fail("ready-not-reported", vh::cat("socket ", d, " (", items[d].listener ? "listener" : "socket", "), one of ", due.size(), " ready of ", s.members.size(), " members, in ", waits, " waits")); return; }
        vh::count("ready members", due.size());
    }
    void cover_all() { for(auto &s : sels) cover(s); }

    Item &create(int kind) // 0 local pair, 1 TCP pair, 2 listener
    {
        Item i;
        i.id = next++;
        if(kind == 2)
        {
            auto l = std::make_shared<fr::TcpListener>();
            if(l->listen("0") != St::Success) vn::broken("listen");
            i.obj = l;
            i.listener = true;
        }
        else
        {
            auto p = kind ? vn::tcp_pair() : vn::pair();
            auto t = std::make_shared<fr::TcpSocket>();
            adopt(t, p.first.release());
            i.peer = std::move(p.second);
            i.obj = t;
            i.tcp = kind;
        }
        i.weak = i.obj;
        i.raw = i.obj.get();
        unsigned id = i.id;
        return items[id] = std::move(i);
    }
    bool member(unsigned id) { for(auto &s : sels) if(s.members.count(id)) return true; return false; }
    // An item nobody holds anymore must be gone
    void sweep()
    {
        for(auto a = items.begin(); a != items.end();)
        {
            Item &i = a->second;
            if(!i.obj && !member(i.id))
            {
                if(!i.weak.expired()) { fail("not-released", vh::cat("socket ", i.id, " is still held")); return; }
                a = items.erase(a);
                vh::count("sockets released");
            }
            else
            {
                if(!i.obj && i.weak.expired()) { fail("member-not-kept", vh::cat("socket ", i.id, " is a member, but no longer exists")); return; }
                a++;
            }
        }
    }
    bool add(Sel &s, Item &i, void *opaque, bool inject = false)
    {
        bool injected = false;
        if(inject) h->fail = [&](const char *n, int, int &e) { if(strcmp(n, "epoll_ctl") || injected) return false; injected = true; e = ENOMEM; return true; };
        bool threw = false;
        auto o = i.any();
        try { s.s->add(o, opaque); } catch(const std::exception &) { threw = true; }
        h->fail = nullptr;
        const bool dup = s.members.count(i.id), down = !o->connected();
        op(vh::cat("add ", i.id, injected ? " (epoll_ctl failing)" : "", dup ? " (again)" : "", down ? " (disconnected)" : ""));
        if(dup) vh::count("duplicate adds");
        if(down) vh::count("disconnected adds");
        if(injected) vh::count("failing adds");
        if((dup || down || injected) && !threw) { fail(dup ? "duplicate-added" : down ? "disconnected-added" : "failure-not-reported", vh::cat("socket ", i.id)); return false; }
        if(!dup && !down && !injected && threw) { fail("add-failed", vh::cat("socket ", i.id)); return false; }
        if(!threw) { s.members[i.id] = Member{opaque, o->get_socket_descriptor(), true}; vh::count("adds"); }
        return !threw;
    }
    void remove(Sel &s, Item &i)
    {
        auto m = s.members.find(i.id);
        void *want = m == s.members.end() ? nullptr : m->second.opaque;
        void *got = nullptr;
        {
            auto o = i.any();
            op(vh::cat("remove ", i.id, m == s.members.end() ? " (not a member)" : m->second.live ? "" : " (disconnected)"));
            try { got = s.s->remove(o); } catch(const std::exception &e) { fail("remove-throws", e.what()); return; }
        }
        vh::count(m == s.members.end() ? "removes of others" : m->second.live ? "removes" : "removes of disconnected members");
        if(got != want) { fail("remove-result", vh::cat("socket ", i.id, ": ", got, " instead of ", want)); return; }
        if(m != s.members.end()) s.members.erase(m);
    }
    void disconnect(Item &i)
    {
        op(vh::cat("disconnect ", i.id));
        auto o = i.any();
        if(i.listener) { std::static_pointer_cast<fr::TcpListener>(o)->close_socket(); }
        else std::static_pointer_cast<fr::TcpSocket>(o)->disconnect();
        for(auto &s : sels) { auto m = s.members.find(i.id); if(m != s.members.end()) m->second.live = false; }
        vh::count("disconnects");
    }
    void drain(Item &i)
    {
        int fd = i.fd();
        if(fd < 0) return;
        op(vh::cat("drain ", i.id));
        if(i.listener)
        {
            auto l = std::static_pointer_cast<fr::TcpListener>(i.any());
            while(ready(fd)) { fr::TcpSocket t; if(l->accept(t) != St::Success) break; }
            return;
        }
        auto t = std::static_pointer_cast<fr::TcpSocket>(i.any());
        char b[512];
        size_t n;
        for(int a = 0; a < 40 && ready(fd); a++) if(t->receive_raw(b, sizeof b, n) != St::Success) { if(!t->connected()) { op("(it disconnected)"); for(auto &s : sels) { auto m = s.members.find(i.id); if(m != s.members.end()) m->second.live = false; } } break; }
    }
    void activity(Item &i)
    {
        if(i.listener)
        {
            int fd = i.fd();
            if(fd < 0) return;
            op(vh::cat("call ", i.id));
            if(i.callers.size() < 20) i.callers.push_back(vn::dial((uint16_t)vn::port_of(fd)));
            return;
        }
        if(i.peer.fd < 0) return;
        switch(r.below(8))
        {
            case 0: op(vh::cat("close the peer of ", i.id)); i.peer.reset(); break;
            case 1: op(vh::cat("half-close ", i.id)); __real_shutdown(i.peer.fd, SHUT_WR); break;
            case 2: if(i.tcp) { op(vh::cat("reset ", i.id)); vn::reset_connection(i.peer); break; } // fall through
            default: { op(vh::cat("write to ", i.id)); std::string d(1 + r.below(100), 'x'); ssize_t n = __real_send(i.peer.fd, d.data(), d.size(), MSG_NOSIGNAL | MSG_DONTWAIT); (void)n; break; }
        }
    }
    void *opaque() { return r.below(12) ? (void*)(uintptr_t)(0x1000 + r.below(100000)) : nullptr; }
    void step()
    {
        if(items.size() < 3) { create((int)r.below(3)); op(vh::cat("create ", next - 1)); return; }
        auto it = items.begin();
        std::advance(it, (long)r.below(items.size()));
        Item &i = it->second;
        Sel &s = sels[r.below(sels.size())];
        switch(r.below(15))
        {
            case 0: if(items.size() < 14) { create(r.below(4) ? (int)r.below(2) : 2); op(vh::cat("create ", next - 1)); } break;
            case 1: case 2: case 3: if(i.any()) add(s, i, opaque(), r.chance(1, 8)); break;
            case 4: case 5: case 6: activity(i); break;
            case 7: case 8: drain(i); break;
            case 9: remove(s, i); break;
            case 10: // remove, and add again with something else
                remove(s, i);
                if(!broken && i.any() && i.up()) add(s, i, opaque());
                break;
            case 11: // another one gets the number
            {
                if(!i.up()) break;
                const int number = i.fd();
                const unsigned old = i.id;
                disconnect(i);
                Item &n = create((int)r.below(2));
                op(vh::cat("create ", n.id));
                if(n.fd() == number) { vh::count("descriptor numbers reused"); op("(same descriptor)"); }
                add(s, n, opaque());
                cover_all();
                if(!broken && r.coin()) { remove(s, items[old]); cover_all(); if(!broken && r.coin()) { activity(n); cover_all(); } }
                break;
            }
            case 12: if(i.up() && r.coin()) disconnect(i); break;
            case 13: if(i.obj && r.coin()) { op(vh::cat("let go of ", i.id)); i.obj.reset(); } break;
            case 14:
                if(r.below(6) == 0) { op("replace the selector"); s.s.reset(new fr::SocketSelector); s.members.clear(); }
                else if(!i.listener && i.any() && !i.up())
                {
                    // Connected again. Which isn't reported unless added again.
                    auto p = vn::pair();
                    op(vh::cat("connect ", i.id, " again"));
                    adopt(std::static_pointer_cast<fr::TcpSocket>(i.any()), p.first.release());
                    i.peer = std::move(p.second);
                    vh::count("connected again");
                    if(r.coin()) { cover_all(); if(!broken) remove(s, i); if(!broken) cover_all(); if(!broken && i.any()) add(s, i, opaque()); }
                }
                break;
        }
        if(broken) return;
        sweep();
        cover_all();
    }
    void finish()
    {
        if(broken) return;
        if(r.coin()) { op("destroy the selectors"); for(auto &s : sels) { s.s.reset(new fr::SocketSelector); s.members.clear(); } }
        else for(auto &s : sels) for(auto &i : items) if(!broken && s.members.count(i.first)) { remove(s, i.second); cover(s); }
        for(auto &i : items) i.second.obj.reset();
        sweep();
        if(!broken && !items.empty()) fail("not-released", vh::cat(items.size(), " sockets are still held"));
    }
};

VH_SECTION(histories, 24000, 200000)
{
    Scene s(rng);
    s.sels.resize(1 + rng.below(2));
    const int steps = 20 + (int)rng.below(60);
    for(int a = 0; a < steps && !s.broken; a++) s.step();
    s.finish();
    vh::distinct(vh::hash_str(s.history));
    if(vh::want_sample("history")) vh::sample("history", s.history.substr(0, 300));
    (void)index;
}

// Each kind of readiness by itself
VH_SECTION(kinds, 48, 48)
{
    Scene s(rng);
    s.sels.resize(1);
    const int kind = (int)(index % 3);
    Item &i = s.create(kind);
    s.create(0); s.create(1); s.create(2);
    for(auto &x : s.items) s.add(s.sels[0], x.second, s.opaque());
    s.cover_all();
    if(s.broken) return;
    auto expect = [&](bool want, const char *what) {
        if(s.broken) return;
        for(int a = 0; a < 200 && ready(i.fd()) != want; a++) std::this_thread::sleep_for(milliseconds(5));
        if(ready(i.fd()) != want) vn::broken(what);
        s.op(what);
        s.cover_all();
        vh::count(vh::cat("kind: ", what));
    };
    if(kind == 2)
    {
        vn::Fd c = vn::dial((uint16_t)vn::port_of(i.fd()));
        expect(true, "pending connection");
        vn::Fd d = vn::dial((uint16_t)vn::port_of(i.fd()));
        expect(true, "two pending connections");
        auto l = std::static_pointer_cast<fr::TcpListener>(i.obj);
        { fr::TcpSocket t; l->accept(t); }
        expect(true, "still a pending connection");
        { fr::TcpSocket t; l->accept(t); }
        expect(false, "connections accepted");
        return;
    }
    auto t = std::static_pointer_cast<fr::TcpSocket>(i.obj);
    char b[16];
    size_t n;
    vn::write_all(i.peer.fd, "abcd");
    expect(true, "data");
    t->receive_raw(b, 2, n);
    expect(true, "rest of the data");
    t->receive_raw(b, 2, n);
    expect(false, "data read");
    switch(index / 3 % 4)
    {
        case 0: __real_shutdown(i.peer.fd, SHUT_WR); expect(true, "peer half-closed"); break;
        case 1: i.peer.reset(); expect(true, "peer closed"); break;
        case 2: if(kind == 1) { vn::reset_connection(i.peer); expect(true, "peer reset"); } break;
        case 3: vn::write_all(i.peer.fd, "ab"); i.peer.reset(); expect(true, "data, then closed"); t->receive_raw(b, 2, n); expect(true, "closed behind data"); break;
    }
    vh::distinct(vh::mix(index));
}

// More members than are reported at a time
VH_SECTION_X(many, 160, 160, false, 120)
{
    Scene s(rng);
    s.sels.resize(1);
    Sel &sel = s.sels[0];
    const size_t total = rng.pick({90, 99, 100, 101, 102, 150, 199, 200, 201, 250, 300, 400, 500}) * (size_t)(vh::thorough() && index % 4 == 0 ? 5 : 1);
    std::map<fr::SocketDescriptor*, unsigned> number;
    std::vector<unsigned> ids;
    for(size_t a = 0; a < total; a++)
    {
        Item &i = s.create(0);
        number[i.raw] = i.id;
        ids.push_back(i.id);
        if(!s.add(sel, i, (void*)(uintptr_t)(i.id * 16))) return;
    }
    s.history = vh::cat(total, " members");
    std::set<unsigned> due;
    for(int round = 0; round < 6 && !s.broken; round++)
    {
        // Some more become ready, some are read
        const unsigned pct = rng.pick({0u, 3u, 30u, 90u, 100u});
        for(unsigned id : ids)
        {
            if(rng.below(100) >= pct) continue;
            Item &i = s.items[id];
            if(due.count(id)) { char b[16]; size_t n; std::static_pointer_cast<fr::TcpSocket>(i.obj)->receive_raw(b, 1, n); due.erase(id); }
            else { vn::write_all(i.peer.fd, "x"); due.insert(id); }
        }
        s.history = vh::cat(total, " members, ", due.size(), " ready");
        // From wherever it is: all of them within the next waits, several times over
        for(int again = 0; again < 3 && !s.broken; again++)
        {
            std::set<unsigned> seen;
            size_t waits = 0;
            while(seen.size() < due.size() && waits < due.size() + 3)
            {
                auto got = sel.s->wait(milliseconds(0));
                waits++;
                std::set<unsigned> now;
                for(auto &g : got)
                {
                    auto n = number.find(g.first.get());
                    if(n == number.end()) { s.fail("reported-non-member", ""); return; }
                    if(!due.count(n->second)) { s.fail("reported-not-ready", vh::cat("socket ", n->second)); return; }
                    if(g.second != (void*)(uintptr_t)(n->second * 16)) { s.fail("wrong-opaque", vh::cat("socket ", n->second)); return; }
                    if(!now.insert(n->second).second) { s.fail("reported-twice", vh::cat("socket ", n->second)); return; }
                    seen.insert(n->second);
                }
            }
            if(seen.size() < due.size()) { s.fail("ready-not-reported", vh::cat(due.size() - seen.size(), " were not reported in ", waits, " waits")); return; }
            if(due.empty() && !sel.s->wait(milliseconds(0)).empty()) { s.fail("reported-not-ready", "when none is"); return; }
            vh::count("waits", waits);
        }
        vh::count("ready among many", due.size());
        if(due.size() > 100) vh::count("more ready than reported at once");
    }
    vh::distinct(vh::mix(total * 1000 + index));
}

VH_SECTION(timeouts, 1200, 2000)
{
    Scene s(rng);
    s.sels.resize(1);
    auto &sel = *s.sels[0].s;
    const int members = (int)rng.below(4);
    for(int a = 0; a < members; a++) s.add(s.sels[0], s.create((int)rng.below(3)), s.opaque());
    Item &late = s.create((int)rng.below(2));
    s.add(s.sels[0], late, (void*)7);
    if(s.broken) return;
    auto start = vn::Clock::now();
    if(index % 3 == 0)
    {
        // Nothing happens
        const int t = rng.pick({0, 1, 2, 5, 10, 20, 50, 120});
        auto got = sel.wait(milliseconds(t));
        double ms = vn::ms_since(start);
        VH_CHECK(got.empty(), "reported-not-ready", got.size(), " members, having waited ", ms, " ms");
        VH_CHECK(ms >= t - 0.01, "returned-early", "after ", ms, " ms instead of ", t);
        vh::count("timeouts");
        vh::distinct(vh::mix((uint64_t)t));
        return;
    }
    // Something happens meanwhile
    static const int64_t forever[] = {-1, INT_MAX, (int64_t)INT_MAX + 1, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, ((int64_t)1 << 33) + 2, (int64_t)1 << 40, INT64_MAX, 100000, 40000};
    const int64_t t = forever[rng.below(sizeof forever / sizeof *forever)];
    const bool ready_before = index % 3 == 1 && rng.coin();
    const int delay = ready_before ? 0 : rng.pick({5, 20, 50});
    const bool close = rng.coin();
    auto happen = [&]{ if(close) late.peer.reset(); else vn::write_all(late.peer.fd, "x"); };
    std::atomic<bool> happened{false};
    std::thread th;
    if(ready_before) { happen(); happened = true; }
    else th = std::thread([&]{ std::this_thread::sleep_for(milliseconds(delay)); happened = true; happen(); });
    auto got = t == -1 && rng.coin() ? sel.wait() : sel.wait(milliseconds(t));
    bool was = happened;
    double ms = vn::ms_since(start);
    if(th.joinable()) th.join();
    if(!was) vh::violation("returned-early", vh::cat("a wait for ", t, " ms returned after ", ms, " ms with ", got.size(), " members and nothing having happened"));
    else if(got.size() != 1 || got[0].first != late.obj || got[0].second != (void*)7) vh::violation(got.empty() ? "returned-early" : "reported-not-ready", vh::cat("a wait for ", t, " ms returned ", got.size(), " members after ", ms, " ms"));
    VH_CHECK(ms < 20000, "ready-not-reported", "a wait for ", t, " ms took ", ms, " ms, though a member became ready after ", delay);
    vh::count(ready_before ? "waits with something ready" : "waits ended by an event");
    vh::distinct(vh::mix((uint64_t)t * 7 + (uint64_t)delay * 2 + close));
}

// Threads feed the members while they're waited for and read
VH_SECTION_X(stress, 360, 400, false, 120)
{
    fr::SocketSelector sel;
    const size_t n = 2 + rng.below(20);
    struct Stream { std::shared_ptr<fr::TcpSocket> s; vn::Fd peer; std::string sent, got; bool ended = false; };
    std::vector<Stream> st(n);
    for(auto &x : st)
    {
        auto p = rng.coin() ? vn::pair() : vn::tcp_pair();
        x.s = std::make_shared<fr::TcpSocket>();
        adopt(x.s, p.first.release());
        x.s->set_blocking(false);
        x.peer = std::move(p.second);
        x.sent = rng.bytes(rng.below(30000));
        sel.add(x.s, &x);
    }
    auto l = std::make_shared<fr::TcpListener>();
    if(l->listen("0") != St::Success) vn::broken("listen");
    sel.add(l, nullptr);
    const uint16_t port = (uint16_t)vn::port_of(l->get_socket_descriptor());
    const size_t calls = rng.below(15);
    std::vector<std::thread> threads;
    const unsigned writers = 1 + (unsigned)rng.below(4);
    for(unsigned w = 0; w < writers; w++)
    {
        uint64_t seed = rng.fork();
        threads.emplace_back([&, w, seed]{
            Rng r(seed);
            std::vector<size_t> at(n, 0);
            for(bool busy = true; busy;)
            {
                busy = false;
                for(size_t a = w; a < n; a += writers)
                {
                    auto &x = st[a];
                    if(x.peer.fd < 0) continue;
                    busy = true;
                    size_t k = std::min<size_t>(1 + r.below(2000), x.sent.size() - at[a]);
                    if(k && !vn::write_all(x.peer.fd, x.sent.substr(at[a], k))) vn::broken("write");
                    at[a] += k;
                    if(at[a] == x.sent.size()) x.peer.reset();
                    if(r.chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds(200));
                }
            }
        });
    }
    threads.emplace_back([&]{ for(size_t a = 0; a < calls; a++) vn::dial(port); });
    size_t open = n, accepted = 0, idle = 0;
    while((open || accepted < calls) && idle < 40)
    {
        auto got = sel.wait(milliseconds(500));
        vh::count("waits");
        if(got.empty()) idle++;
        for(auto &g : got)
        {
            if(g.first == l)
            {
                fr::TcpSocket c;
                if(l->accept(c) == St::Success) accepted++;
                continue;
            }
            auto *x = (Stream*)g.second;
            if(!x || x->s != g.first) { vh::violation("wrong-opaque", "under load"); return; }
            if(x->ended) { vh::violation("reported-non-member", "having been removed"); return; }
            char b[700];
            size_t k = 0;
            St s = x->s->receive_raw(b, sizeof b, k);
            if(s == St::WouldBlock) vh::violation("reported-not-ready", "under load: nothing to read");
            else if(s == St::Success) x->got.append(b, k);
            else
            {
                if(sel.remove(x->s) != x) vh::violation("remove-result", "under load");
                x->ended = true;
                open--;
            }
        }
    }
    VH_CHECK(!open && accepted == calls, "ready-not-reported", open, " streams unfinished, ", accepted, " of ", calls, " connections accepted");
    for(auto &x : st) { if(x.ended && x.got != x.sent) vh::violation("stream-differs", vh::cat(x.got.size(), " of ", x.sent.size(), " bytes")); x.s.reset(); }
    l.reset();
    if(open || accepted < calls) { fflush(stdout); _exit(0); }
    for(auto &t : threads) t.join();
    vh::count("streams", n);
    vh::distinct(vh::mix(index * 31 + n));
}

// TLS sockets and listeners are members too
VH_SECTION(tls, 48, 64)
{
    auto l = vt::listener();
    if(l->listen("0") != St::Success) vn::broken("listen");
    fr::SocketSelector sel;
    sel.add(l, (void*)1);
    if(!sel.wait(milliseconds(0)).empty()) vh::violation("reported-not-ready", "TLS listener");
    auto c = std::make_shared<fr::SSLSocket>(vt::context()), s = std::make_shared<fr::SSLSocket>(vt::context());
    std::string why;
    if(!vt::connect(*l, *c, *s, &why)) { vh::violation("tls-connect", why); return; }
    sel.add(s, (void*)2);
    char b[4096];
    size_t n = 0;
    auto reported = [&](int ms) { for(auto &g : sel.wait(milliseconds(ms))) if(g.first == s && g.second == (void*)2) return true; return false; };
    // (session tickets and the like may be waiting)
    s->set_blocking(false);
    for(int a = 0; a < 5 && reported(20); a++) s->receive_raw(b, sizeof b, n);
    if(reported(0)) { vh::violation("reported-not-ready", "TLS socket"); return; }
    const std::string sent = rng.bytes(2 + rng.below(4000));
    if(c->send_raw(sent.data(), sent.size(), n) != St::Success) { vh::violation("tls-send", "failed"); return; }
    if(!reported(5000)) { vh::violation("ready-not-reported", "TLS socket with data"); return; }
    std::string got;
    size_t first = 1 + rng.below(sent.size() - 1);
    St x = s->receive_raw(b, first, n);
    if(x == St::Success) got.assign(b, n);
    if(!reported(50)) vh::violation("tls-rest-of-record-not-reported", vh::cat("having received ", n, " of the ", sent.size(), " bytes of a TLS record, the remaining ones are not reported by wait"));
    for(int a = 0; a < 100 && got.size() < sent.size(); a++) if(s->receive_raw(b, sizeof b, n) == St::Success) got.append(b, n);
    VH_CHECK(got == sent, "stream-differs", got.size(), " of ", sent.size(), " bytes");
    if(reported(20)) { vh::violation("reported-not-ready", "TLS socket, read"); return; }
    c->disconnect();
    if(!reported(5000)) { vh::violation("ready-not-reported", "TLS socket whose peer has closed"); return; }
    s->disconnect();
    if(sel.remove(s) != (void*)2) vh::violation("remove-result", "TLS socket");
    vh::count("TLS members");
    vh::distinct(vh::hash_str(sent));
    (void)index;
}
