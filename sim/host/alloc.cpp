// Allocation seam: preemption point, failure injection, known fill pattern, race-detector bookkeeping.
#include "core.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
#include <dlfcn.h>
#include <errno.h>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))
static int fill = -2;
static uint64_t fail_at = 0;
static bool sticky = false;
static uint64_t shuf = 0;  // state of the address shuffle (0: off)
static void setup() { fill = (int)cfg.num("perturb", 0); fail_at = cfg.num("alloc_fail", 0); sticky = cfg.num("alloc_sticky", 0); shuf = cfg.num("shuffle", 0); }
static bool active() { return cur && !in_host; }
// returns false when the allocation must fail
static bool before(size_t n) {
    if (fill == -2) { HostGuard g; setup(); }
    ++st.allocs;
    if (fail_at && (st.allocs == fail_at || (sticky && st.allocs > fail_at))) { ++st.alloc_fault; return false; }
    maybe_preempt();
    (void)n;
    return true;
}
// Where in memory an object lies is not for the program to rely on: now and then ask for several blocks of this size, hand out
// one of them and return the others, so that later blocks of the size come in another address order.
static void* place(size_t n) {
    if (!shuf) return malloc(n);
    shuf ^= shuf << 13; shuf ^= shuf >> 7; shuf ^= shuf << 17;
    if (shuf % 3 || n > 65536) return malloc(n);
    void* b[4];
    size_t k = 2 + (shuf >> 8) % 3, take = (shuf >> 16) % k;
    for (size_t i = 0; i < k; ++i) b[i] = malloc(n);
    for (size_t i = 0; i < k; ++i) if (i != take) free(b[i]);
    return b[take];
}
static void after(void* p, size_t n) { if (p && fill) memset(p, fill, n); if (p && race_on) race_free((uintptr_t)p, malloc_usable_size(p)); }
static void* alloc(size_t n, size_t al) {
    if (!active()) return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!before(n)) return nullptr;
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : place(n ? n : 1);
    after(p, n);
    return p;
}
static void release(void* p) {
    if (p && active() && race_on) race_free((uintptr_t)p, malloc_usable_size(p));
    free(p);
}
static void* need(void* p) { if (!p) throw std::bad_alloc(); return p; }
#pragma GCC visibility push(default)
void* operator new(size_t n) { return need(alloc(n, 0)); }
void* operator new[](size_t n) { return need(alloc(n, 0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return need(alloc(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return need(alloc(n, (size_t)a)); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
#pragma GCC visibility pop
API void* __wrap_malloc(size_t n) { void* p = alloc(n, 0); if (!p) errno = ENOMEM; return p; }
API void __wrap_free(void* p) { release(p); }
API void* __wrap_calloc(size_t a, size_t b) { if (active() && !before(a * b)) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
API void* __wrap_realloc(void* p, size_t n) {
    if (active() && !before(n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
