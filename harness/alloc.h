// How much memory is in use, and was at most; with the address sanitizer's hooks.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdio>
#include <unistd.h>
#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#else
// Not built with the address sanitizer: nothing is measured
inline int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) { return 1; }
inline size_t __sanitizer_get_allocated_size(const void*) { return 0; }
#endif

namespace alloc {
inline std::atomic<long> live { 0 }, peak { 0 };
inline std::atomic<bool> on { false };
inline thread_local bool ignore = false; // this thread is not the one that is measured

inline void onMalloc(const volatile void*, size_t n)
{
    if (!on || ignore)
        return;
    long l = live += (long)n;
    long p = peak;
    while (l > p && !peak.compare_exchange_weak(p, l))
        ;
}
inline void onFree(const volatile void* p)
{
    if (on && p && !ignore)
        live -= (long)__sanitizer_get_allocated_size((const void*)p);
}
// Counting starts at zero
inline void start()
{
    static bool installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) > 0;
    if (!installed) {
        fprintf(stderr, "no allocation hooks\n");
        _exit(3);
    }
    live = 0;
    peak = 0;
    on = true;
}
inline void stop() { on = false; }
}
