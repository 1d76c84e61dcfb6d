// Watches heap use of the calling thread, through the sanitizer's hooks
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#include <cstddef>
#include <cstdint>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
namespace vh
{
    struct AllocStats { bool on = false; int64_t live = 0, peak = 0; size_t largest = 0; uint64_t count = 0; };
    inline AllocStats &alloc_stats() { static thread_local AllocStats s; return s; }
    inline void alloc_hook(const volatile void *, size_t n)
    {
        auto &s = alloc_stats();
        if(!s.on) return;
        s.live += (int64_t)n;
        s.count++;
        if(n > s.largest) s.largest = n;
        if(s.live > s.peak) s.peak = s.live;
    }
    inline void free_hook(const volatile void *p)
    {
        auto &s = alloc_stats();
        if(s.on && p) s.live -= (int64_t)__sanitizer_get_allocated_size(p);
    }
    inline void alloc_install() { static int once = __sanitizer_install_malloc_and_free_hooks(alloc_hook, free_hook); (void)once; }
    struct AllocScope
    {
        AllocScope() { alloc_install(); auto &s = alloc_stats(); s = AllocStats(); s.on = true; }
        ~AllocScope() { alloc_stats().on = false; }
        void pause() { alloc_stats().on = false; }
        void resume() { alloc_stats().on = true; }
        size_t largest() const { return alloc_stats().largest; }
        int64_t peak() const { return alloc_stats().peak; }
        int64_t live() const { return alloc_stats().live; }
        uint64_t count() const { return alloc_stats().count; }
    };
}
#endif
