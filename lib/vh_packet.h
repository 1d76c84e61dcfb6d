// Values of every kind a packet supports: generation, comparison, and a reference encoder and decoder of the wire
// layout, written without the library's help.
#ifndef VH_PACKET_H
#define VH_PACKET_H
#include "vh.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <frnetlib/Packet.h>

namespace vp
{
    using vh::Rng;
    // Reading position in reference decoding
    struct Cur
    {
        const std::string &s;
        size_t pos;
        bool loose_bool = false; // a bool other than 0 or 1 was met
        bool take(size_t n) { if(n > s.size() - pos) return false; pos += n; return true; }
    };
    inline void put_be(std::string &o, uint64_t v, int n) { for(int a = n - 1; a >= 0; a--) o += (char)(uint8_t)(v >> (8 * a)); }
    inline bool get_be(Cur &c, uint64_t &v, int n)
    {
        size_t p = c.pos;
        if(!c.take(n)) return false;
        v = 0;
        for(int a = 0; a < n; a++) v = (v << 8) | (uint8_t)c.s[p + a];
        return true;
    }

    enum EU8 : uint8_t { eu8_a = 0, eu8_b = 255 };
    enum EI8 : int8_t { ei8_a = -128 };
    enum class EI16 : int16_t { a = -3 };
    enum class EU16 : uint16_t { a = 3 };
    enum class EI32 { a = -1, b = 7 };
    enum EU32 : uint32_t { eu32_a = 0xFFFFFFFFu };

    template<typename T, typename Enable = void> struct Tr;

    template<typename T> struct TrInt
    {
        static T gen(Rng &r, int) { return (T)r.word(); }
        static bool eq(T a, T b) { return a == b; }
        static void enc(std::string &o, T v) { put_be(o, (uint64_t)v, sizeof(T)); }
        static bool dec(Cur &c, T &v) { uint64_t u; if(!get_be(c, u, sizeof(T))) return false; v = (T)u; return true; }
        static bool exact() { return true; }
    };
    template<> struct Tr<uint8_t> : TrInt<uint8_t> { static const char *name() { return "u8"; } };
    template<> struct Tr<uint16_t> : TrInt<uint16_t> { static const char *name() { return "u16"; } };
    template<> struct Tr<uint32_t> : TrInt<uint32_t> { static const char *name() { return "u32"; } };
    template<> struct Tr<uint64_t> : TrInt<uint64_t> { static const char *name() { return "u64"; } };
    template<> struct Tr<int16_t> : TrInt<int16_t> { static const char *name() { return "i16"; } };
    template<> struct Tr<int32_t> : TrInt<int32_t> { static const char *name() { return "i32"; } };
    template<> struct Tr<int64_t> : TrInt<int64_t> { static const char *name() { return "i64"; } };
    template<> struct Tr<bool>
    {
        static const char *name() { return "bool"; }
        static bool gen(Rng &r, int) { return r.coin(); }
        static bool eq(bool a, bool b) { return a == b; }
        static void enc(std::string &o, bool v) { o += v ? '\1' : '\0'; }
        static bool dec(Cur &c, bool &v) { uint64_t u; if(!get_be(c, u, 1)) return false; if(u > 1) c.loose_bool = true; v = u != 0; return true; }
        static bool exact() { return true; }
    };
    template<typename T, typename U> struct TrFloat
    {
        static T gen(Rng &r, int)
        {
            U u;
            const int mant = sizeof(T) == 4 ? 23 : 52;
            const U exp = sizeof(T) == 4 ? (U)0xFF : (U)0x7FF;
            switch(r.below(6))
            {
                case 0: u = (U)0; break;
                case 1: u = (exp << mant) | (U)(r.coin() ? 0 : r.u64() & (((U)1 << mant) - 1)); break; // infinities and NaNs, also signalling
                case 2: u = (U)(r.u64() & (((U)1 << mant) - 1)); break; // subnormal
                default: u = (U)r.word(); break;
            }
            if(r.coin()) u |= (U)1 << (sizeof(T) * 8 - 1);
            T f;
            memcpy(&f, &u, sizeof f);
            return f;
        }
        static bool eq(const T &a, const T &b) { return memcmp(&a, &b, sizeof a) == 0; }
        static void enc(std::string &o, const T &v) { U u; memcpy(&u, &v, sizeof u); put_be(o, u, sizeof u); }
        static bool dec(Cur &c, T &v) { uint64_t u; if(!get_be(c, u, sizeof(T))) return false; U w = (U)u; memcpy(&v, &w, sizeof w); return true; }
        static bool exact() { return true; }
    };
    template<> struct Tr<float> : TrFloat<float, uint32_t> { static const char *name() { return "float"; } };
    template<> struct Tr<double> : TrFloat<double, uint64_t> { static const char *name() { return "double"; } };
    template<typename T> struct Tr<T, typename std::enable_if<std::is_enum<T>::value>::type>
    {
        typedef typename std::underlying_type<T>::type U;
        static std::string name() { return std::is_signed<U>::value ? "enum(signed)" : "enum(unsigned)"; }
        static T gen(Rng &r, int) { return (T)(U)r.word(); }
        static bool eq(T a, T b) { return a == b; }
        static void enc(std::string &o, T v) { put_be(o, (uint32_t)(U)v, 4); }
        static bool dec(Cur &c, T &v) { uint64_t u; if(!get_be(c, u, 4)) return false; v = (T)(U)(uint32_t)u; return true; }
        static bool exact() { return true; }
    };
    inline size_t some_length(Rng &r, int depth)
    {
        if(r.fuzzing()) return r.below(depth > 1 ? 4 : 12);
        if(depth <= 0 && r.chance(1, 40)) return r.size(70000);
        size_t max = depth <= 0 ? 200 : depth == 1 ? 12 : 4;
        return r.below(4) == 0 ? 0 : r.below(max);
    }
    template<> struct Tr<std::string>
    {
        static const char *name() { return "string"; }
        static std::string gen(Rng &r, int depth) { return r.bytes(some_length(r, depth)); }
        static bool eq(const std::string &a, const std::string &b) { return a == b; }
        static void enc(std::string &o, const std::string &v) { put_be(o, v.size(), 4); o += v; }
        static bool dec(Cur &c, std::string &v)
        {
            uint64_t n;
            if(!get_be(c, n, 4)) return false;
            size_t p = c.pos;
            if(!c.take(n)) return false;
            v = c.s.substr(p, n);
            return true;
        }
        static bool exact() { return true; }
    };
    template<typename A, typename B> struct Tr<std::pair<A, B>>
    {
        typedef std::pair<A, B> T;
        static std::string name() { return std::string("pair<") + Tr<A>::name() + "," + Tr<B>::name() + ">"; }
        static T gen(Rng &r, int d) { A a = Tr<A>::gen(r, d + 1); return T(std::move(a), Tr<B>::gen(r, d + 1)); }
        static bool eq(const T &a, const T &b) { return Tr<A>::eq(a.first, b.first) && Tr<B>::eq(a.second, b.second); }
        static void enc(std::string &o, const T &v) { Tr<A>::enc(o, v.first); Tr<B>::enc(o, v.second); }
        static bool dec(Cur &c, T &v) { return Tr<A>::dec(c, v.first) && Tr<B>::dec(c, v.second); }
        static bool exact() { return Tr<A>::exact() && Tr<B>::exact(); }
    };
    template<typename A> struct Tr<std::vector<A>>
    {
        typedef std::vector<A> T;
        static std::string name() { return std::string("vector<") + Tr<A>::name() + ">"; }
        static T gen(Rng &r, int d)
        {
            T v;
            size_t n = some_length(r, d);
            if(d == 0 && n > 3000 && sizeof(A) > 8) n = 3000;
            for(size_t a = 0; a < n; a++) v.push_back(Tr<A>::gen(r, d + 1));
            return v;
        }
        static bool eq(const T &a, const T &b)
        {
            if(a.size() != b.size()) return false;
            for(size_t i = 0; i < a.size(); i++) if(!Tr<A>::eq(a[i], b[i])) return false;
            return true;
        }
        static void enc(std::string &o, const T &v) { put_be(o, v.size(), 4); for(size_t i = 0; i < v.size(); i++) Tr<A>::enc(o, v[i]); }
        static bool dec(Cur &c, T &v)
        {
            uint64_t n;
            if(!get_be(c, n, 4)) return false;
            for(uint64_t a = 0; a < n; a++) { A x{}; if(!Tr<A>::dec(c, x)) return false; v.push_back(std::move(x)); }
            return true;
        }
        static bool exact() { return Tr<A>::exact(); }
    };
    template<typename M, bool Ordered> struct TrMap
    {
        typedef typename M::key_type A;
        typedef typename M::mapped_type B;
        static std::string name() { return std::string(Ordered ? "map<" : "unordered_map<") + Tr<A>::name() + "," + Tr<B>::name() + ">"; }
        static M gen(Rng &r, int d)
        {
            M v;
            size_t n = some_length(r, d);
            if(n > 500) n = 500;
            for(size_t a = 0; a < n; a++) { A k = Tr<A>::gen(r, d + 1); v.emplace(std::move(k), Tr<B>::gen(r, d + 1)); }
            return v;
        }
        static bool eq(const M &a, const M &b)
        {
            if(a.size() != b.size()) return false;
            for(auto &x : a) { auto i = b.find(x.first); if(i == b.end() || !Tr<B>::eq(x.second, i->second)) return false; }
            return true;
        }
        static void enc(std::string &o, const M &v) { put_be(o, v.size(), 4); for(auto &x : v) { Tr<A>::enc(o, x.first); Tr<B>::enc(o, x.second); } }
        static bool dec(Cur &c, M &v)
        {
            uint64_t n;
            if(!get_be(c, n, 4)) return false;
            for(uint64_t a = 0; a < n; a++) { A k{}; B x{}; if(!Tr<A>::dec(c, k) || !Tr<B>::dec(c, x)) return false; v.emplace(std::move(k), std::move(x)); }
            return true;
        }
        static bool exact() { return Ordered && Tr<A>::exact() && Tr<B>::exact(); }
    };
    template<typename A, typename B> struct Tr<std::map<A, B>> : TrMap<std::map<A, B>, true> {};
    template<typename A, typename B> struct Tr<std::unordered_map<A, B>> : TrMap<std::unordered_map<A, B>, false> {};

    // A user defined packable object
    struct Obj : public fr::Packetable
    {
        uint32_t id = 0;
        std::string name;
        std::vector<int16_t> list;
        bool flag = false;
        void pack(fr::Packet &p) const override { p << id << name << list << flag; }
        void unpack(fr::Packet &p) override { p >> id >> name >> list >> flag; }
    };
    template<> struct Tr<Obj>
    {
        static const char *name() { return "Packetable"; }
        static Obj gen(Rng &r, int d)
        {
            Obj o;
            o.id = Tr<uint32_t>::gen(r, d);
            o.name = Tr<std::string>::gen(r, d + 1);
            o.list = Tr<std::vector<int16_t>>::gen(r, d + 1);
            o.flag = r.coin();
            return o;
        }
        static bool eq(const Obj &a, const Obj &b) { return a.id == b.id && a.name == b.name && a.list == b.list && a.flag == b.flag; }
        static void enc(std::string &o, const Obj &v) { Tr<uint32_t>::enc(o, v.id); Tr<std::string>::enc(o, v.name); Tr<std::vector<int16_t>>::enc(o, v.list); Tr<bool>::enc(o, v.flag); }
        static bool dec(Cur &c, Obj &v) { return Tr<uint32_t>::dec(c, v.id) && Tr<std::string>::dec(c, v.name) && Tr<std::vector<int16_t>>::dec(c, v.list) && Tr<bool>::dec(c, v.flag); }
        static bool exact() { return true; }
    };

    // A value of one of the supported types, and the way in which it's added and extracted
    struct Item
    {
        virtual ~Item() = default;
        virtual std::string name() const = 0;
        virtual void add(fr::Packet &p) const = 0;
        virtual bool extract_equal(fr::Packet &p) const = 0;       // extracts into a fresh or used variable and compares
        virtual void enc(std::string &o) const = 0;                // reference encoding
        virtual bool dec_equal(Cur &c) const = 0;                  // reference decoding of what the library wrote
        virtual bool exact() const { return true; }                // the reference encoding is the only valid one
    };
    // Whether extraction replaces what is already there (maps are added to)
    template<typename T> struct Replaces : std::true_type {};
    template<typename K, typename V> struct Replaces<std::map<K, V>> : std::false_type {};
    template<typename K, typename V> struct Replaces<std::unordered_map<K, V>> : std::false_type {};
    template<typename T> struct Replaces<std::vector<T>> : Replaces<T> {};
    template<typename A, typename B> struct Replaces<std::pair<A, B>> : std::integral_constant<bool, Replaces<A>::value && Replaces<B>::value> {};

    template<typename T> struct ValueItem : Item
    {
        T v;
        T was{}; // extracted into something which had this value
        explicit ValueItem(Rng &r) : v(Tr<T>::gen(r, 0)) { if(Replaces<T>::value && r.chance(1, 3)) was = Tr<T>::gen(r, 0); }
        std::string name() const override { return Tr<T>::name(); }
        void add(fr::Packet &p) const override { p << v; }
        bool extract_equal(fr::Packet &p) const override { T x = was; p >> x; return Tr<T>::eq(x, v); }
        void enc(std::string &o) const override { Tr<T>::enc(o, v); }
        bool dec_equal(Cur &c) const override { T x{}; return Tr<T>::dec(c, x) && Tr<T>::eq(x, v); }
        bool exact() const override { return Tr<T>::exact(); }
    };
    struct CStringItem : Item
    {
        std::string v;
        explicit CStringItem(Rng &r) { v = r.bytes(some_length(r, 0)); for(auto &c : v) if(!c) c = 'z'; }
        std::string name() const override { return "char*"; }
        void add(fr::Packet &p) const override { p << v.c_str(); }
        bool extract_equal(fr::Packet &p) const override { std::string x; p >> x; return x == v; }
        void enc(std::string &o) const override { Tr<std::string>::enc(o, v); }
        bool dec_equal(Cur &c) const override { std::string x; return Tr<std::string>::dec(c, x) && x == v; }
    };
#ifdef __cpp_lib_string_view
    // Packed as a view of part of something longer, and extracted as a string or as a view
    struct ViewItem : Item
    {
        std::string around;
        size_t at, n;
        bool as_view;
        explicit ViewItem(Rng &r) { n = some_length(r, 0); at = r.below(4); around = r.bytes(at + n + r.below(4)); as_view = r.coin(); }
        std::string_view view() const { return std::string_view(around).substr(at, n); }
        std::string name() const override { return "string_view"; }
        void add(fr::Packet &p) const override { p << view(); }
        bool extract_equal(fr::Packet &p) const override
        {
            if(as_view) { std::string_view x = "before"; p >> x; return x == view(); }
            std::string x;
            p >> x;
            return x == view();
        }
        void enc(std::string &o) const override { Tr<std::string>::enc(o, std::string(view())); }
        bool dec_equal(Cur &c) const override { std::string x; return Tr<std::string>::dec(c, x) && x == view(); }
    };
    struct StringAsViewItem : Item
    {
        std::string v;
        explicit StringAsViewItem(Rng &r) : v(r.bytes(some_length(r, 0))) {}
        std::string name() const override { return "string as string_view"; }
        void add(fr::Packet &p) const override { p << v; }
        bool extract_equal(fr::Packet &p) const override { std::string_view x; p >> x; return x == v; }
        void enc(std::string &o) const override { Tr<std::string>::enc(o, v); }
        bool dec_equal(Cur &c) const override { std::string x; return Tr<std::string>::dec(c, x) && x == v; }
    };
#endif
    struct LiteralItem : Item
    {
        explicit LiteralItem(Rng &) {}
        std::string name() const override { return "char[]"; }
        void add(fr::Packet &p) const override { p << "literal text"; }
        bool extract_equal(fr::Packet &p) const override { std::string x; p >> x; return x == "literal text"; }
        void enc(std::string &o) const override { Tr<std::string>::enc(o, "literal text"); }
        bool dec_equal(Cur &c) const override { std::string x; return Tr<std::string>::dec(c, x) && x == "literal text"; }
    };
    struct RawItem : Item
    {
        std::string v;
        explicit RawItem(Rng &r) : v(r.bytes(some_length(r, 0))) {}
        std::string name() const override { return "raw"; }
        void add(fr::Packet &p) const override { p.add_raw(v.data(), v.size()); }
        bool extract_equal(fr::Packet &p) const override
        {
            // exactly sized, so that writing past the requested bytes is noticed
            std::unique_ptr<char[]> x(new char[v.size() + 0]);
            p.extract_raw(x.get(), v.size());
            return memcmp(x.get(), v.data(), v.size()) == 0;
        }
        void enc(std::string &o) const override { o += v; }
        bool dec_equal(Cur &c) const override { size_t p = c.pos; return c.take(v.size()) && c.s.compare(p, v.size(), v) == 0; }
    };
    template<typename C> struct RangeItem : Item
    {
        typedef typename C::value_type E;
        std::vector<E> v;
        C c;
        explicit RangeItem(Rng &r) { v = Tr<std::vector<E>>::gen(r, 1); c.assign(v.begin(), v.end()); }
        std::string name() const override { return "range of " + std::string(Tr<E>::name()); }
        void add(fr::Packet &p) const override { p.add_range(c.begin(), c.end()); }
        bool extract_equal(fr::Packet &p) const override { std::vector<E> x; p >> x; return Tr<std::vector<E>>::eq(x, v); }
        void enc(std::string &o) const override { Tr<std::vector<E>>::enc(o, v); }
        bool dec_equal(Cur &cu) const override { std::vector<E> x; return Tr<std::vector<E>>::dec(cu, x) && Tr<std::vector<E>>::eq(x, v); }
    };
    template<typename E> struct PointerRangeItem : Item
    {
        std::vector<E> v;
        explicit PointerRangeItem(Rng &r) { v = Tr<std::vector<E>>::gen(r, 1); }
        std::string name() const override { return "pointer range of " + std::string(Tr<E>::name()); }
        void add(fr::Packet &p) const override { p.add_range(v.data(), v.data() + v.size()); }
        bool extract_equal(fr::Packet &p) const override { std::vector<E> x; p >> x; return Tr<std::vector<E>>::eq(x, v); }
        void enc(std::string &o) const override { Tr<std::vector<E>>::enc(o, v); }
        bool dec_equal(Cur &cu) const override { std::vector<E> x; return Tr<std::vector<E>>::dec(cu, x) && Tr<std::vector<E>>::eq(x, v); }
    };

    // Ranges of containers which don't offer random access
    template<typename C, typename E> struct SetRangeItem : Item
    {
        C c;
        explicit SetRangeItem(Rng &r) { auto v = Tr<std::vector<E>>::gen(r, 1); for(auto &x : v) c.insert(x); }
        std::vector<E> list() const { return std::vector<E>(c.begin(), c.end()); }
        std::string name() const override { return "range of a set of " + std::string(Tr<E>::name()); }
        void add(fr::Packet &p) const override { p.add_range(c.begin(), c.end()); }
        bool extract_equal(fr::Packet &p) const override { std::vector<E> x; p >> x; return Tr<std::vector<E>>::eq(x, list()); }
        void enc(std::string &o) const override { Tr<std::vector<E>>::enc(o, list()); }
        bool dec_equal(Cur &cu) const override { std::vector<E> x; return Tr<std::vector<E>>::dec(cu, x) && Tr<std::vector<E>>::eq(x, list()); }
    };

    // Of at least 2^16 or so elements
    template<typename V> struct LargeItem : Item
    {
        V v;
        std::string what;
        LargeItem(V x, std::string w) : v(std::move(x)), what(std::move(w)) {}
        std::string name() const override { return what; }
        void add(fr::Packet &p) const override { p << v; }
        bool extract_equal(fr::Packet &p) const override { V x{}; p >> x; return Tr<V>::eq(x, v); }
        void enc(std::string &o) const override { Tr<V>::enc(o, v); }
        bool dec_equal(Cur &c) const override { V x{}; return Tr<V>::dec(c, x) && Tr<V>::eq(x, v); }
        bool exact() const override { return Tr<V>::exact(); }
    };
    struct LargeRangeItem : Item
    {
        std::list<uint8_t> v;
        explicit LargeRangeItem(const std::string &b) : v(b.begin(), b.end()) {}
        std::string name() const override { return "large range"; }
        void add(fr::Packet &p) const override { p.add_range(v.begin(), v.end()); }
        bool extract_equal(fr::Packet &p) const override { std::vector<uint8_t> x; p >> x; return x == std::vector<uint8_t>(v.begin(), v.end()); }
        void enc(std::string &o) const override { put_be(o, v.size(), 4); o.append(v.begin(), v.end()); }
        bool dec_equal(Cur &c) const override { std::vector<uint8_t> x; return Tr<std::vector<uint8_t>>::dec(c, x) && x == std::vector<uint8_t>(v.begin(), v.end()); }
    };
    struct LargeCStringItem : Item
    {
        std::string v;
        explicit LargeCStringItem(std::string b) : v(std::move(b)) { for(auto &c : v) if(!c) c = 1; }
        std::string name() const override { return "large char*"; }
        void add(fr::Packet &p) const override { p << v.c_str(); }
        bool extract_equal(fr::Packet &p) const override { std::string x; p >> x; return x == v; }
        void enc(std::string &o) const override { Tr<std::string>::enc(o, v); }
        bool dec_equal(Cur &c) const override { std::string x; return Tr<std::string>::dec(c, x) && x == v; }
    };
    inline std::unique_ptr<Item> large_item(Rng &r, unsigned kind)
    {
        static const size_t around[] = {0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0x12345};
        size_t n = around[r.below(8)];
        if(r.chance(1, 4)) n = r.range(0x8000, 0x28000);
        auto vec = [&](size_t x) { std::string b = r.bytes(x); return std::vector<uint8_t>(b.begin(), b.end()); };
        switch(kind % 9)
        {
            case 0: return std::unique_ptr<Item>(new LargeItem<std::string>(r.bytes(n), "large string"));
            case 1: return std::unique_ptr<Item>(new LargeItem<std::vector<uint8_t>>(vec(n), "large vector"));
            case 2: return std::unique_ptr<Item>(new LargeRangeItem(r.bytes(n)));
            case 3: { std::map<uint32_t, uint8_t> m; auto b = vec(n); for(size_t a = 0; a < n; a++) m.emplace((uint32_t)(a * 0x9E3779B1u), b[a]); return std::unique_ptr<Item>(new LargeItem<std::map<uint32_t, uint8_t>>(std::move(m), "large map")); }
            case 4: { std::unordered_map<uint32_t, uint8_t> m; auto b = vec(n); for(size_t a = 0; a < n; a++) m.emplace((uint32_t)(a * 0x9E3779B1u), b[a]); return std::unique_ptr<Item>(new LargeItem<std::unordered_map<uint32_t, uint8_t>>(std::move(m), "large unordered_map")); }
            case 5: { std::vector<bool> v; auto b = vec(n); for(auto x : b) v.push_back(x & 1); return std::unique_ptr<Item>(new LargeItem<std::vector<bool>>(std::move(v), "large vector<bool>")); }
            case 6: return std::unique_ptr<Item>(new LargeItem<std::string>(r.bytes(0xFFFFF0 + r.below(0x20)), "string of 2^24 bytes"));
            case 7: return std::unique_ptr<Item>(new LargeCStringItem(r.bytes(n)));
            default: { std::vector<std::string> v(n); v[n / 2] = r.bytes(n); return std::unique_ptr<Item>(new LargeItem<std::vector<std::string>>(std::move(v), "large vector<string>")); }
        }
    }

    typedef std::string S;
    // Expands X for each type extracted from packets
    #define VP_TYPES(X) \
        X(bool) X(uint8_t) X(uint16_t) X(uint32_t) X(uint64_t) X(int16_t) X(int32_t) X(int64_t) X(float) X(double) X(S) \
        X(EU8) X(EI8) X(EI16) X(EU16) X(EI32) X(EU32) X(P1) X(P2) X(std::vector<uint8_t>) X(std::vector<bool>) X(std::vector<uint64_t>) \
        X(std::vector<S>) X(std::vector<std::vector<uint16_t>>) X(std::vector<P3>) X(std::vector<Obj>) X(std::vector<EI16>) X(std::vector<std::vector<S>>) \
        X(M1) X(M2) X(M3) X(U1) X(U2) X(std::vector<M1>) X(Obj) X(P4) X(std::vector<double>) X(std::vector<std::vector<bool>>) X(std::vector<U1>)
    typedef std::pair<uint8_t, S> P1;
    typedef std::pair<std::pair<bool, int64_t>, std::vector<float>> P2;
    typedef std::pair<S, double> P3;
    typedef std::pair<Obj, std::map<S, int32_t>> P4;
    typedef std::map<S, uint32_t> M1;
    typedef std::map<uint16_t, std::vector<S>> M2;
    typedef std::map<int64_t, std::map<bool, S>> M3;
    typedef std::unordered_map<uint32_t, S> U1;
    typedef std::unordered_map<S, std::map<uint8_t, std::vector<EU8>>> U2;

    typedef std::unique_ptr<Item> (*ItemFactory)(Rng &);
    template<typename I> std::unique_ptr<Item> make(Rng &r) { return std::unique_ptr<Item>(new I(r)); }
    inline const std::vector<ItemFactory> &factories()
    {
        #define VP_FACTORY(T) make<ValueItem<T>>,
        static const std::vector<ItemFactory> f = { VP_TYPES(VP_FACTORY)
            make<CStringItem>, make<LiteralItem>, make<RawItem>, make<RangeItem<std::list<S>>>, make<RangeItem<std::deque<uint32_t>>>,
            make<RangeItem<std::vector<double>>>, make<RangeItem<std::list<P1>>>, make<PointerRangeItem<int16_t>>, make<PointerRangeItem<S>>, make<RangeItem<std::vector<Obj>>>,
            make<SetRangeItem<std::set<S>, S>>, make<SetRangeItem<std::map<int32_t, S>, std::pair<int32_t, S>>>, make<SetRangeItem<std::unordered_set<uint16_t>, uint16_t>>,
#ifdef __cpp_lib_string_view
            make<ViewItem>, make<StringAsViewItem>,
#endif
        };
        return f;
    }
    inline std::unique_ptr<Item> random_item(Rng &r) { return factories()[r.below(factories().size())](r); }
}
#endif
