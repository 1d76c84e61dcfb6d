// Common part of every harness: case scheduling, random input, violation and coverage reporting, watchdog.
//
// A harness registers sections (VH_SECTION). A section is a function run once per case; a case is a section name and
// an index, and all of its randomness comes from (seed, section, index), so that any case can be replayed on its own.
#ifndef VH_H
#define VH_H
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vh
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567)
    {
        const unsigned char *c = (const unsigned char*)p;
        uint64_t x = 0xcbf29ce484222325ull ^ h;
        for(size_t a = 0; a < n; a++) x = (x ^ c[a]) * 0x100000001b3ull;
        return mix(x ^ n);
    }
    inline uint64_t hash_str(const std::string &s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

    // Source of randomness, or of fuzzer chosen bytes
    class Rng
    {
    public:
        explicit Rng(uint64_t seed) : s(mix(seed)) {}
        Rng(const uint8_t *d, size_t n) : s(0), data(d), left(n), fuzz(true) {}
        uint64_t u64()
        {
            if(fuzz)
            {
                uint64_t v = 0;
                for(int a = 0; a < 8 && left; a++) { v = (v << 8) | *data++; left--; }
                return v;
            }
            s += 0x9E3779B97F4A7C15ull;
            return mix(s);
        }
        uint8_t byte()
        {
            if(fuzz) { if(!left) return 0; left--; return *data++; }
            return (uint8_t)(u64() >> 13);
        }
        // [0, n)
        uint64_t below(uint64_t n)
        {
            if(n <= 1) return 0;
            if(fuzz)
            {
                uint64_t v = byte();
                if(n > 256) v = (v << 8) | byte();
                if(n > 65536) v = (v << 16) | ((uint64_t)byte() << 8) | byte();
                return v % n;
            }
            return u64() % n;
        }
        uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        bool coin() { return below(2) == 0; }
        template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
        template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        uint64_t fork() { return u64(); }
        bool exhausted() const { return fuzz && left == 0; }
        bool fuzzing() const { return fuzz; }

        // An integer which is often extreme, or next to a power of two
        uint64_t word()
        {
            switch(below(6))
            {
                case 0: return below(300);
                case 1: { uint64_t p = 1ull << below(64); return p + below(5) - 2; }
                case 2: return (uint64_t)0 - below(300);
                case 3: { uint64_t p = 1ull << below(64); return p - 1 - below(2); }
                default: return u64();
            }
        }
        // A size which is often at a boundary of interest
        size_t size(size_t max)
        {
            size_t r = 0;
            switch(below(8))
            {
                case 0: r = 0; break;
                case 1: r = below(4); break;
                case 2: r = below(130); break;
                case 3: r = below(300); break;
                case 4: { size_t p = (size_t)1 << below(21); r = p + below(7); r = r >= 3 ? r - 3 : 0; break; }
                case 5: { size_t p = (size_t)4096 * (1 + below(20)); r = p + below(7) - 3; break; }
                case 6: r = pick<size_t>({124, 125, 126, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537}); break;
                default: r = below(max + 1); break;
            }
            return r > max ? (max ? r % (max + 1) : 0) : r;
        }
        std::string bytes(size_t n)
        {
            std::string r(n, '\0');
            if(fuzz) { for(auto &c : r) c = (char)byte(); return r; }
            unsigned style = (unsigned)below(6);
            for(size_t a = 0; a < n;)
            {
                uint64_t v = u64();
                for(int b = 0; b < 8 && a < n; b++, a++, v >>= 8)
                {
                    uint8_t c = (uint8_t)v;
                    if(style == 0) c = 0;
                    else if(style == 1) c = 0xFF;
                    else if(style == 2) c = (uint8_t)('a' + c % 26);
                    else if(style == 3 && (c & 3) == 0) c = (uint8_t)"\r\n\0 %&=?+:;/#"[(c >> 2) % 13];
                    r[a] = (char)c;
                }
            }
            return r;
        }
        std::string from(const std::string &alphabet, size_t n)
        {
            std::string r(n, '\0');
            for(auto &c : r) c = alphabet[below(alphabet.size())];
            return r;
        }
    private:
        uint64_t s;
        const uint8_t *data = nullptr;
        size_t left = 0;
        bool fuzz = false;
    };

    inline std::string hex(const std::string &s, size_t max = 96)
    {
        static const char *d = "0123456789abcdef";
        std::string r;
        for(size_t a = 0; a < s.size() && a < max; a++) { r += d[(uint8_t)s[a] >> 4]; r += d[(uint8_t)s[a] & 15]; }
        if(s.size() > max) r += "..(" + std::to_string(s.size()) + ")";
        return r;
    }
    // Printable form, on one line
    inline std::string show(const std::string &s, size_t max = 160)
    {
        std::string r;
        char b[8];
        for(size_t a = 0; a < s.size() && a < max; a++)
        {
            unsigned char c = (unsigned char)s[a];
            if(c == '\\') r += "\\\\";
            else if(c >= 32 && c < 127) r += (char)c;
            else if(c == '\r') r += "\\r";
            else if(c == '\n') r += "\\n";
            else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        }
        if(s.size() > max) r += "..(" + std::to_string(s.size()) + " bytes)";
        return r;
    }
    template<typename ...A> std::string cat(A const &...a)
    {
        std::ostringstream o;
        int d[] = {0, ((void)(o << a), 0)...};
        (void)d;
        return o.str();
    }

    typedef void (*SectionFn)(Rng &, uint64_t);
    struct Section { std::string name; uint64_t quick, thorough; SectionFn fn; bool fuzzable; unsigned timeout; };

    struct State
    {
        std::vector<Section> sections;
        std::mutex m;
        std::map<std::string, uint64_t> counters;
        std::map<std::string, unsigned> keys;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, std::vector<std::string>> samples;
        uint64_t evaluations = 0, extra = 0;
        uint64_t seed = 1;
        bool thorough = false, replaying = false, fuzz = false;
        unsigned worker = 0, workers = 1;
        char current[128] = {0};
        std::atomic<uint64_t> case_no{0};
        std::atomic<unsigned> case_timeout{60};
        std::atomic<unsigned> violations{0};   // other than known findings
        std::atomic<int64_t> over{0};          // since when, in ms, another worker is known to have seen one
    };
    inline State &st() { static State *s = new State; return *s; }

    inline bool thorough() { return st().thorough; }

    // How long to wait for what should come: less once there's been a violation, as there's no need to be sure any more
    inline int patience(int ms) { return st().violations || st().over ? std::min(ms, 2000) : ms; }

    struct Register
    {
        Register(const char *name, uint64_t q, uint64_t t, SectionFn fn, bool fuzzable, unsigned timeout)
        { st().sections.push_back(Section{name, q, t, fn, fuzzable, timeout}); }
    };
    // Case counts are totals, divided among the workers
    #define VH_SECTION(name, quick, thorough) VH_SECTION_X(name, quick, thorough, false, 60)
    #define VH_FUZZ_SECTION(name, quick, thorough) VH_SECTION_X(name, quick, thorough, true, 60)
    #define VH_SECTION_X(name, quick, thorough, fz, timeout) \
        static void vh_##name(vh::Rng &rng, uint64_t index); \
        static vh::Register vh_reg_##name(#name, quick, thorough, vh_##name, fz, timeout); \
        static void vh_##name(vh::Rng &rng, uint64_t index)

    inline std::string one_line(std::string s)
    {
        for(auto &c : s) if(c == '\n' || c == '\t' || c == '\r') c = ' ';
        return s;
    }

    // Reports a violation. 'key' names the kind of failure, and doesn't depend on the random input.
    inline void violation(const std::string &key, const std::string &detail)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        static const std::string known = [] { const char *k = getenv("VH_KNOWN"); return "," + std::string(k ? k : "") + ","; }();
        const bool isnew = known.find("," + key + ",") == std::string::npos;
        if(++s.keys[key] <= 3)
        {
            printf("V\t%s\t%s\t%s\n", key.c_str(), s.current, one_line(detail).c_str());
            fflush(stdout);
        }
        if(isnew && ++s.violations == 1)
        {
            // Not by way of functions which a harness might follow
            static const char *const mark = getenv("VH_MARK");
            if(mark) { long f = ::syscall(SYS_openat, AT_FDCWD, mark, O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if(f >= 0) ::syscall(SYS_close, f); }
        }
        if(s.keys[key] > 3)
            return;
        if(s.fuzz)
            _exit(98);
    }
    #define VH_CHECK(cond, key, ...) do { if(!(cond)) vh::violation(key, vh::cat(__VA_ARGS__)); } while(0)

    inline void count(const std::string &name, uint64_t n = 1)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        s.counters[name] += n;
    }
    // A non-trivial case with this identity was observed
    inline void distinct(uint64_t h)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        if(s.distinct.size() < 400000)
            s.distinct.insert(h);
    }
    inline void evaluated(uint64_t n = 1)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        s.extra += n;
    }
    inline bool want_sample(const std::string &section, size_t max = 2)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        return s.worker == 0 && s.samples[section].size() < max;
    }
    inline void sample(const std::string &section, const std::string &text, size_t max = 2)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        auto &v = s.samples[section];
        if(v.size() < max)
            v.push_back(text.substr(0, 300));
    }

    inline std::string json_str(const std::string &s)
    {
        std::string r = "\"";
        char b[8];
        for(unsigned char c : s)
        {
            if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }

    inline void print_stats(const char *hash_file)
    {
        auto &s = st();
        std::lock_guard<std::mutex> l(s.m);
        std::string o = cat("S\t{\"evaluations\":", s.evaluations + s.extra, ",\"cases\":", s.evaluations, ",\"distinct\":", s.distinct.size(), ",\"counters\":{");
        bool first = true;
        for(auto &c : s.counters) { o += cat(first ? "" : ",", json_str(c.first), ":", c.second); first = false; }
        o += "},\"samples\":{";
        first = true;
        for(auto &c : s.samples)
        {
            o += cat(first ? "" : ",", json_str(c.first), ":[");
            for(size_t a = 0; a < c.second.size(); a++) o += (a ? "," : "") + json_str(c.second[a]);
            o += "]";
            first = false;
        }
        o += "}}";
        if(hash_file)
        {
            if(FILE *f = fopen(hash_file, "wb"))
            {
                for(uint64_t h : s.distinct) fwrite(&h, 8, 1, f);
                fclose(f);
            }
        }
        printf("%s\n", o.c_str());
        fflush(stdout);
    }

    inline void note_death(const char *why)
    {
        char b[256];
        int n = snprintf(b, sizeof b, "\nD\t%s\t%s\n", why, st().current);
        ssize_t r = ::write(1, b, (size_t)n);
        (void)r;
    }

    int run_main(int argc, char **argv);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

#ifdef VH_MAIN
namespace vh
{
    static void on_terminate()
    {
        std::string what = "exception";
        if(auto e = std::current_exception())
        {
            try { std::rethrow_exception(e); }
            catch(const std::exception &x) { what = std::string("uncaught exception ") + x.what(); }
            catch(...) { what = "uncaught exception"; }
        }
        note_death(what.c_str());
        _exit(96);
    }

    int run_main(int argc, char **argv)
    {
        auto &s = st();
        std::string only, skip, hash_file;
        int64_t only_index = -1;
        uint64_t resume = 0;
        double scale = 1;
        for(int a = 1; a < argc; a++)
        {
            std::string o = argv[a];
            auto next = [&]{ return std::string(a + 1 < argc ? argv[++a] : ""); };
            if(o == "--seed") s.seed = strtoull(next().c_str(), nullptr, 10);
            else if(o == "--worker") s.worker = (unsigned)atoi(next().c_str());
            else if(o == "--workers") s.workers = (unsigned)atoi(next().c_str());
            else if(o == "--thorough") s.thorough = true;
            else if(o == "--section") only = next();
            else if(o == "--skip") skip = next();
            else if(o == "--index") { only_index = atoll(next().c_str()); s.replaying = true; }
            else if(o == "--resume") resume = strtoull(next().c_str(), nullptr, 10);
            else if(o == "--scale") scale = atof(next().c_str());
            else if(o == "--hashes") hash_file = next();
            else if(o == "--list") { for(auto &x : s.sections) printf("%s %llu %llu\n", x.name.c_str(), (unsigned long long)x.quick, (unsigned long long)x.thorough); return 0; }
            else { fprintf(stderr, "unknown option %s\n", o.c_str()); return 2; }
        }
        std::set_terminate(on_terminate);
        if(__sanitizer_set_death_callback)
            __sanitizer_set_death_callback([]{ note_death("sanitizer"); });

        std::thread([]{
            uint64_t last = 0; auto since = std::chrono::steady_clock::now();
            for(;;)
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(200));
                uint64_t c = st().case_no.load();
                auto now = std::chrono::steady_clock::now();
                // The verdict is settled once any worker has found a violation: others needn't take long any more
                static const char *const mark = getenv("VH_MARK");
                const int64_t at = std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() + 1;
                if(mark && !st().over && !st().replaying && ::access(mark, F_OK) == 0) st().over = at;
                if(st().over && at - st().over > 60000) { const char n[] = "\nsettled by another worker\n"; ssize_t r = ::write(1, n, sizeof n - 1); (void)r; _exit(98); }
                if(c != last) { last = c; since = now; continue; }
                if(now - since > std::chrono::seconds(st().case_timeout.load()))
                {
                    char b[256];
                    int n = snprintf(b, sizeof b, "\nH\t%s\t%llu\n", st().current, (unsigned long long)c);
                    ssize_t r = ::write(1, b, (size_t)n); (void)r;
                    _exit(97);
                }
            }
        }).detach();

        // Cases are numbered over all sections, to be able to resume after one of them
        uint64_t number = 0;
        for(auto &sec : s.sections)
        {
            if((!only.empty() && sec.name != only) || sec.name == skip) continue;
            uint64_t n = s.thorough ? sec.thorough : sec.quick;
            if(scale != 1) n = (uint64_t)(n * scale) + 1;
            uint64_t from = only_index >= 0 ? (uint64_t)only_index : s.worker;
            uint64_t to = only_index >= 0 ? (uint64_t)only_index + 1 : n;
            auto begin = std::chrono::steady_clock::now();
            static const auto started = begin;
            for(uint64_t i = from; i < to; i += s.workers)
            {
                if(++number <= resume) continue;
                snprintf(s.current, sizeof s.current, "%s:%llu", sec.name.c_str(), (unsigned long long)i);
                s.case_timeout = sec.timeout;
                s.case_no = number;
                Rng rng(mix(s.seed) ^ hash_str(sec.name) ^ mix(i * 0x51ed2701));
                s.evaluations++;
                sec.fn(rng, i);
                if(s.over && std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() - s.over > 20000) { print_stats(nullptr); _exit(0); }
                if(s.violations > 20 || (s.violations > 2 && std::chrono::steady_clock::now() - started > std::chrono::seconds(60))) { print_stats(nullptr); _exit(0); }
            }
            auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - begin).count();
            count("ms:" + sec.name, (uint64_t)ms);
        }
        print_stats(hash_file.empty() ? nullptr : hash_file.c_str());
        fflush(stdout);
        _exit(0);
    }
}
#ifdef VH_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    auto &s = vh::st();
    static std::vector<vh::Section*> usable;
    if(usable.empty())
    {
        s.fuzz = true;
        std::set_terminate(vh::on_terminate);
        const char *want = getenv("VH_FUZZ_SECTION");
        for(auto &x : s.sections) if(x.fuzzable && (!want || x.name == want)) usable.push_back(&x);
    }
    if(size < 1) return 0;
    auto *sec = usable[data[0] % usable.size()];
    snprintf(s.current, sizeof s.current, "%s:fuzz", sec->name.c_str());
    vh::Rng rng(data + 1, size - 1);
    sec->fn(rng, 0);
    return 0;
}
#else
int main(int argc, char **argv) { return vh::run_main(argc, argv); }
#endif
#endif
#endif
