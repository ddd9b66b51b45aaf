// Included exactly once per executable: allocation limits so oversized allocations fail with std::bad_alloc.
#pragma once
#include "report.h"
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#include <atomic>
#include <malloc.h>
namespace vh {
namespace detail {
std::atomic<std::size_t> live{ 0 };
std::size_t liveLimit = static_cast<std::size_t>(-1); // limit for the sum of all allocations
}
} // namespace vh
#ifndef __SANITIZE_THREAD__
#if !__has_feature(thread_sanitizer)
static void *vhAlloc(std::size_t n)
{
    if (n > vh::detail::allocLimit() || vh::detail::live.load(std::memory_order_relaxed) + n > vh::detail::liveLimit)
        throw std::bad_alloc();
    if (void *p = std::malloc(n ? n : 1)) {
        vh::detail::live.fetch_add(malloc_usable_size(p), std::memory_order_relaxed);
        return p;
    }
    throw std::bad_alloc();
}
static void vhFree(void *p) noexcept
{
    if (p)
        vh::detail::live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed);
    std::free(p);
}
void *operator new(std::size_t n) { return vhAlloc(n); }
void *operator new[](std::size_t n) { return vhAlloc(n); }
void operator delete(void *p) noexcept { vhFree(p); }
void operator delete[](void *p) noexcept { vhFree(p); }
void operator delete(void *p, std::size_t) noexcept { vhFree(p); }
void operator delete[](void *p, std::size_t) noexcept { vhFree(p); }
#endif
#endif
