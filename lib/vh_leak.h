// Watches which blocks of the heap outlive the repetition of an operation they were allocated in (all threads)
#ifndef VH_LEAK_H
#define VH_LEAK_H
#include <cstddef>
#include <cstdint>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __asan_get_alloc_stack(void *, void **, size_t, int *);
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
namespace lk
{
    struct Block { size_t size; unsigned rep; };
    inline std::mutex &mutex() { static std::mutex *m = new std::mutex; return *m; }
    inline std::unordered_map<const volatile void *, Block> &live() { static auto *m = new std::unordered_map<const volatile void *, Block>; return *m; }
    inline std::atomic<unsigned> &rep() { static std::atomic<unsigned> r{0}; return r; }
    struct Flags { bool inside = false, quiet = false; };
    inline Flags &flags() { static thread_local Flags f; return f; }
    inline std::atomic<uint64_t> &allocations() { static std::atomic<uint64_t> n{0}; return n; }
    inline void on_malloc(const volatile void *p, size_t n)
    {
        unsigned k = rep();
        auto &f = flags();
        if(!k || !p || f.inside || f.quiet) return;
        f.inside = true;
        { std::lock_guard<std::mutex> l(mutex()); live()[p] = Block{n, k}; }
        allocations()++;
        f.inside = false;
    }
    inline void on_free(const volatile void *p)
    {
        auto &f = flags();
        if(!rep() || !p || f.inside) return;
        f.inside = true;
        { std::lock_guard<std::mutex> l(mutex()); live().erase(p); }
        f.inside = false;
    }
    // What the harness allocates isn't of interest
    struct Quiet { bool was; Quiet() : was(flags().quiet) { flags().quiet = true; } ~Quiet() { flags().quiet = was; } };

    inline std::string frame_name(void *pc)
    {
        char b[512] = {0};
        __sanitizer_symbolize_pc(pc, "%f", b, sizeof b);
        return b;
    }
    struct Leak { size_t bytes = 0; std::set<unsigned> reps; const volatile void *example = nullptr; };
    class Watch
    {
    public:
        Watch() { static int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; std::lock_guard<std::mutex> l(mutex()); flags().inside = true; live().clear(); flags().inside = false; }
        ~Watch() { rep() = 0; }
        void repetition(unsigned n) { rep() = n; }
        size_t bytes() const { size_t n = 0; std::lock_guard<std::mutex> l(mutex()); for(auto &b : live()) n += b.second.size; return n; }
        // Where some block of each of the repetitions from..to is still there
        std::string leaked(unsigned from, unsigned to)
        {
            rep() = 0;
            std::map<std::vector<void*>, Leak> by_stack;
            for(auto &b : live())
            {
                void *s[14] = {nullptr};
                int t = 0;
                size_t n = __asan_get_alloc_stack((void*)b.first, s, 14, &t);
                auto &l = by_stack[std::vector<void*>(s, s + n)];
                l.reps.insert(b.second.rep);
                l.bytes += b.second.size;
                l.example = b.first;
            }
            for(auto &l : by_stack)
            {
                bool all = true;
                for(unsigned a = from; a <= to; a++) all = all && l.second.reps.count(a);
                if(!all) continue;
                std::string where;
                for(void *pc : l.first) { std::string f = frame_name(pc); if(f.size() > 90) f.resize(90); where += (where.empty() ? "" : " < ") + f; }
                return std::to_string(l.second.bytes) + " bytes allocated in " + where;
            }
            return "";
        }
    };
}
#endif
