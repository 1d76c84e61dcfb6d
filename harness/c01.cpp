// C01: values go into packets and come out the same
#define VH_MAIN
#include <vh_packet.h>
using namespace vp;

static std::string names(const std::vector<std::unique_ptr<Item>> &items)
{
    std::string r;
    for(auto &i : items) r += (r.empty() ? "" : ",") + i->name();
    return r;
}
static void extract_all(fr::Packet &p, const std::vector<std::unique_ptr<Item>> &items, const char *how)
{
    size_t n = 0;
    try
    {
        for(auto &i : items)
        {
            size_t before = p.get_cursor();
            VH_CHECK(i->extract_equal(p), "value-changed", how, ": value ", n, " of [", names(items), "] differs");
            VH_CHECK(p.get_cursor() >= before, "cursor-backwards", names(items));
            n++;
        }
    }
    catch(const std::exception &e)
    {
        vh::violation("extract-threw", vh::cat(how, ": extracting value ", n, " of [", names(items), "] threw ", e.what()));
        return;
    }
    VH_CHECK(p.get_bytes_remaining() == 0 && p.get_cursor() == p.size(), "bytes-left", how, ": ", p.get_bytes_remaining(), " bytes left after [", names(items), "]");
    bool threw = false;
    try { uint8_t x; p >> x; } catch(const std::out_of_range &) { threw = true; }
    VH_CHECK(threw, "read-past-end", names(items));
}

// Each type by itself, a number of times
VH_SECTION(single_types, 20000, 600000)
{
    std::vector<std::unique_ptr<Item>> items;
    items.push_back(factories()[index % factories().size()](rng));
    fr::Packet p;
    items[0]->add(p);
    vh::count("values of " + items[0]->name());
    std::string e;
    items[0]->enc(e);
    vh::distinct(vh::hash_str(e, index % factories().size()));
    extract_all(p, items, "single");
}
// Counts which don't fit in 16 bits
VH_SECTION(large, 72, 400)
{
    std::vector<std::unique_ptr<Item>> items;
    items.push_back(large_item(rng, (unsigned)index));
    items.push_back(random_item(rng));
    fr::Packet p;
    for(auto &i : items) i->add(p);
    std::string e;
    for(auto &i : items) i->enc(e);
    vh::distinct(vh::hash_str(e));
    vh::count("large values");
    VH_CHECK(p.size() == e.size(), "size", "packet of ", names(items), " has size ", p.size(), " instead of ", e.size());
    extract_all(p, items, "large");
}
VH_FUZZ_SECTION(sequences, 15000, 500000)
{
    std::vector<std::unique_ptr<Item>> items;
    size_t n = rng.chance(1, 20) ? rng.below(200) : 1 + rng.below(14);
    std::string e;
    fr::Packet p;
    if(rng.coin()) p.reserve(rng.below(5000));
    for(size_t a = 0; a < n; a++)
    {
        items.push_back(random_item(rng));
        items.back()->add(p);
        items.back()->enc(e);
    }
    VH_CHECK(p.size() == e.size(), "size", "packet of ", names(items), " has size ", p.size(), " instead of ", e.size());
    vh::distinct(vh::hash_str(e));
    vh::count("sequence values", n);
    vh::sample("sequences", names(items) + " = " + vh::hex(e, 60));
    fr::Packet copy(p), assigned;
    assigned << 5;
    assigned = p;
    extract_all(p, items, "sequence");
    extract_all(copy, items, "copy");
    fr::Packet moved(std::move(assigned));
    extract_all(moved, items, "moved");
    // Once more from the start, and then interleaved with adding
    p.set_cursor(0);
    extract_all(p, items, "reread");
    std::vector<std::unique_ptr<Item>> more;
    more.push_back(random_item(rng));
    more.back()->add(p);
    extract_all(p, more, "added after reading");
    p.clear();
    more.push_back(random_item(rng));
    for(auto &i : more) i->add(p);
    extract_all(p, more, "after clear");
}

template<typename T> static void out(fr::Packet &p, const T &v, const char *how)
{
    T x{};
    p >> x;
    VH_CHECK(Tr<T>::eq(x, v), "value-changed", how, ": ", Tr<T>::name());
}
static void none(fr::Packet &p, const char *how) { VH_CHECK(p.get_bytes_remaining() == 0, "bytes-left", how, " ", p.get_bytes_remaining()); }
template<typename A, typename B, typename C, typename D> static void variadic4(Rng &rng)
{
    A a = Tr<A>::gen(rng, 1); B b = Tr<B>::gen(rng, 1); C c = Tr<C>::gen(rng, 1); D d = Tr<D>::gen(rng, 1);
    std::string e;
    Tr<A>::enc(e, a); Tr<B>::enc(e, b); Tr<C>::enc(e, c); Tr<D>::enc(e, d);
    vh::distinct(vh::hash_str(e));
    try
    {
        fr::Packet p(a, b, c, d);
        out(p, a, "constructor"); out(p, b, "constructor"); out(p, c, "constructor"); out(p, d, "constructor"); none(p, "constructor");
        fr::Packet q;
        q.add(a, b, c, d);
        q.add(d);
        q.add(c, b);
        out(q, a, "add"); out(q, b, "add"); out(q, c, "add"); out(q, d, "add"); out(q, d, "add"); out(q, c, "add"); out(q, b, "add"); none(q, "add");
        fr::Packet r{a};
        r << b << c << d;
        A a2{}; B b2{}; C c2{}; D d2{};
        r >> a2 >> b2 >> c2 >> d2;
        VH_CHECK(Tr<A>::eq(a, a2) && Tr<B>::eq(b, b2) && Tr<C>::eq(c, c2) && Tr<D>::eq(d, d2), "value-changed", "chained");
        none(r, "chained");
        // Values extracted through their containing pair are those added one by one
        fr::Packet s(a, b);
        std::pair<A, B> pr;
        s >> pr;
        VH_CHECK(Tr<A>::eq(a, pr.first) && Tr<B>::eq(b, pr.second), "value-changed", "pair");
        none(s, "pair");
    }
    catch(const std::exception &x) { vh::violation("extract-threw", vh::cat("variadic: ", x.what())); }
    vh::count("variadic");
}
VH_SECTION(variadic, 4000, 100000)
{
    switch(index % 8)
    {
        case 0: variadic4<uint32_t, S, bool, double>(rng); break;
        case 1: variadic4<S, S, S, S>(rng); break;
        case 2: variadic4<M1, uint8_t, std::vector<S>, EI32>(rng); break;
        case 3: variadic4<float, int16_t, int64_t, EU8>(rng); break;
        case 4: variadic4<Obj, U1, bool, P1>(rng); break;
        case 5: variadic4<bool, bool, uint16_t, std::vector<bool>>(rng); break;
        case 6: variadic4<P2, M2, uint64_t, std::vector<Obj>>(rng); break;
        case 7: variadic4<int32_t, EI16, U2, M3>(rng); break;
    }
}
VH_SECTION(mixed_literals, 200, 2000)
{
    uint64_t v = rng.word();
    std::string s = rng.bytes(rng.below(40));
    fr::Packet p(1, "two", 3.0f, (uint64_t)v, s, std::vector<int32_t>{-1, 2}, true, 4.25);
    int32_t a; std::string b; float c; uint64_t d; std::string e; std::vector<int32_t> f; bool g; double h;
    try
    {
        p >> a >> b >> c >> d >> e >> f >> g >> h;
        VH_CHECK(a == 1 && b == "two" && c == 3.0f && d == v && e == s && f == (std::vector<int32_t>{-1, 2}) && g && h == 4.25, "value-changed", "literals");
        none(p, "literals");
    }
    catch(const std::exception &x) { vh::violation("extract-threw", x.what()); }
}
