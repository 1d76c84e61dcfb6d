// Lets allocations fail: operator new throws std::bad_alloc, and calloc (which mbedtls uses) gives null. Per thread.
// What's allocated meanwhile is followed, so as to tell what's left behind. Include from the harness only.
#ifndef VH_OOM_H
#define VH_OOM_H
#include "vh_leak.h"
#include <new>
#include <unordered_set>
namespace oom
{
    struct State { bool armed = false, keeps = false, inside = false; long left = -1, calls = 0, failed = 0; };
    inline State &state() { static thread_local State s; return s; }
    inline std::mutex &mutex() { static std::mutex *m = new std::mutex; return *m; }
    inline std::unordered_set<const volatile void*> &blocks() { static auto *b = new std::unordered_set<const volatile void*>; return *b; }
    inline std::atomic<bool> &following() { static std::atomic<bool> f{false}; return f; }
    // Whether the allocation about to be made should fail
    inline bool fails()
    {
        State &s = state();
        if(!s.armed || s.inside) return false;
        s.calls++;
        if(s.left < 0) return false;
        if(s.left > 0) { s.left--; return false; }
        if(!s.keeps && s.failed) return false;
        s.failed++;
        return true;
    }
    inline void on_malloc(const volatile void *p, size_t)
    {
        State &s = state();
        if(!s.armed || s.inside || !p) return;
        s.inside = true;
        { std::lock_guard<std::mutex> l(mutex()); blocks().insert(p); }
        s.inside = false;
    }
    inline void on_free(const volatile void *p)
    {
        if(!following() || !p) return;
        State &s = state();
        if(s.inside) return;
        s.inside = true;
        { std::lock_guard<std::mutex> l(mutex()); blocks().erase(p); }
        s.inside = false;
    }
    inline void install() { static int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; state(); mutex(); blocks(); following(); }
    // While this exists, the nth allocation from now (and if it keeps, all after it) fails
    struct Armed
    {
        Armed(long nth, bool keeps) { State &s = state(); s.left = nth; s.keeps = keeps; s.calls = s.failed = 0; s.armed = true; }
        ~Armed() { state().armed = false; }
    };
    // The harness' own
    struct Pause { bool was; Pause() : was(state().armed) { state().armed = false; } ~Pause() { state().armed = was; } };
    inline void follow(bool on) { State &s = state(); s.inside = true; { std::lock_guard<std::mutex> l(mutex()); blocks().clear(); } s.inside = false; following() = on; }
    inline size_t left_behind(std::string *where = nullptr)
    {
        State &s = state();
        s.inside = true;
        size_t n;
        const volatile void *example = nullptr;
        { std::lock_guard<std::mutex> l(mutex()); n = blocks().size(); if(n) example = *blocks().begin(); }
        if(n && where)
        {
            void *pc[12] = {nullptr};
            int t = 0;
            size_t k = __asan_get_alloc_stack((void*)example, pc, 12, &t);
            for(size_t a = 0; a < k; a++) { std::string f = lk::frame_name(pc[a]); if(f.size() > 90) f.resize(90); *where += (where->empty() ? "" : " < ") + f; }
        }
        s.inside = false;
        return n;
    }
    inline void *allocate(size_t n, bool throws, size_t align = 0)
    {
        void *p = nullptr;
        if(!fails()) { n = n ? n : 1; if(align > alignof(std::max_align_t)) p = aligned_alloc(align, (n + align - 1) / align * align); else p = malloc(n); }
        if(!p && throws) throw std::bad_alloc();
        return p;
    }
}
void *operator new(size_t n) { return oom::allocate(n, true); }
void *operator new[](size_t n) { return oom::allocate(n, true); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return oom::allocate(n, false); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return oom::allocate(n, false); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { free(p); }
extern "C" void *__interceptor_calloc(size_t, size_t);
extern "C" void *calloc(size_t n, size_t m) noexcept
{
    // The sanitizer's own start comes first
    if(oom::following() && oom::fails()) { errno = ENOMEM; return nullptr; }
    return __interceptor_calloc(n, m);
}
#endif
