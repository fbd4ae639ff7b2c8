// Accounting and failing of memory allocations, including those made inside the
// C library (getline, fopen) and by operator new, which calls malloc.
#pragma once
#include <cerrno>
#include <cstddef>

namespace vk {
struct alloc_state {
    bool on = false;      // count
    bool armed = true;    // requests can fail
    long live = 0;        // allocations minus releases
    long count = 0;       // allocations (and reallocations) requested
    long fail_at = -1;    // 0-based number of the request which fails
    long fail_until = -1; // requests fail_at..fail_until fail
    long failed = 0;
    unsigned long long shape = 0; // of the sequence of requests
    void mark(unsigned long long v) { if (on) shape = (shape ^ v) * 1099511628211ull + 1; }
};
inline alloc_state g_alloc;
inline bool alloc_fails() {
    if (!g_alloc.on || !g_alloc.armed) return false;
    long n = g_alloc.count++;
    if (g_alloc.fail_at >= 0 && n >= g_alloc.fail_at && n <= (g_alloc.fail_until > g_alloc.fail_at ? g_alloc.fail_until : g_alloc.fail_at)) {
        ++g_alloc.failed;
        errno = ENOMEM;
        return true;
    }
    return false;
}
} // namespace vk

extern "C" {
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) noexcept {
    vk::g_alloc.mark(n);
    if (vk::alloc_fails()) return nullptr;
    if (vk::g_alloc.on) ++vk::g_alloc.live;
    return __libc_malloc(n);
}
void free(void* p) noexcept {
    if (p && vk::g_alloc.on) --vk::g_alloc.live;
    __libc_free(p);
}
void* realloc(void* p, size_t n) noexcept {
    vk::g_alloc.mark(n + 1000003);
    if (vk::alloc_fails()) return nullptr;
    void* r = __libc_realloc(p, n);
    if (vk::g_alloc.on) {
        if (!p && r) ++vk::g_alloc.live;
        if (p && !r && n == 0) --vk::g_alloc.live;
    }
    return r;
}
void* calloc(size_t a, size_t b) noexcept {
    if (vk::alloc_fails()) return nullptr;
    if (vk::g_alloc.on) ++vk::g_alloc.live;
    return __libc_calloc(a, b);
}
void* aligned_alloc(size_t a, size_t n) noexcept {
    if (vk::alloc_fails()) return nullptr;
    if (vk::g_alloc.on) ++vk::g_alloc.live;
    return __libc_memalign(a, n);
}
}
