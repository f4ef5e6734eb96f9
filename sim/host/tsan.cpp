#include <cerrno>
// Happens-before race detector fed by -fsanitize=thread instrumentation.
#include "core.h"
#include <cstring>
#include <unordered_map>
#include <dlfcn.h>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))
namespace sim {
bool race_on = false;
struct Cell {  // one 8-byte granule
    uint32_t wclk = 0, rclk[3] = {0, 0, 0};
    uintptr_t wpc = 0;
    uint8_t wtid = 0xff, wmask = 0;
    uint8_t rtid[3] = {0xff, 0xff, 0xff}, rmask[3] = {0, 0, 0};
};
struct Page { Cell c[512]; };
static std::unordered_map<uintptr_t, Page*> pages;
static uintptr_t last_key = ~(uintptr_t)0;
static Page* last_page = nullptr;
static Page* page(uintptr_t a, bool make) {
    uintptr_t k = a >> 12;
    if (k == last_key) return last_page;
    auto it = pages.find(k);
    if (it == pages.end()) {
        if (!make) return nullptr;
        it = pages.emplace(k, new Page).first;
    }
    last_key = k;
    return last_page = it->second;
}
struct Race { std::string text; };
static std::map<std::pair<uintptr_t, uintptr_t>, std::string> races;

void hb_init_fiber(Fiber* f, Fiber* parent) {
    if (parent) f->vc = hb_snapshot(parent);
    if ((int)f->vc.size() <= f->id) f->vc.resize(f->id + 1, 0);
    f->vc[f->id] = 1;
}
void hb_join(Fiber* f, const std::vector<uint32_t>& vc) {
    if (f->vc.size() < vc.size()) f->vc.resize(vc.size(), 0);
    for (size_t i = 0; i < vc.size(); ++i)
        if (vc[i] > f->vc[i]) f->vc[i] = vc[i];
}
std::vector<uint32_t> hb_snapshot(Fiber* f) {
    auto r = f->vc;
    ++f->vc[f->id];
    return r;
}
static std::string where(uintptr_t pc) {
    Dl_info i;
    char b[64];
    if (pc && dladdr((void*)pc, &i) && i.dli_fname) {
        const char* n = strrchr(i.dli_fname, '/');
        snprintf(b, sizeof b, "+0x%lx", (unsigned long)(pc - (uintptr_t)i.dli_fbase));
        return std::string(n ? n + 1 : i.dli_fname) + b;
    }
    return "?";
}
static void report(uintptr_t a, uintptr_t pc, bool write, int otid, bool owrite, uintptr_t opc) {
    if (otid >= (int)fibers.size() || fibers[otid]->rank != cur->rank) return;
    if (races.size() > 20) return;
    auto k = std::make_pair(pc, opc);
    if (races.count(k)) return;
    bool ih = in_host;
    in_host = true;
    races[k] = std::string(write ? "write" : "read") + " at " + where(pc) + " by rank " + std::to_string(cur->rank) + " thread " + std::to_string(cur->thread) + " unordered with earlier " +
               (owrite ? "write" : "read") + " at " + where(opc) + " by thread " + std::to_string(fibers[otid]->thread);
    violation("data-race", races[k]);
    in_host = ih;
    (void)a;
}
static inline void one(Cell& c, uint8_t mask, bool write, uintptr_t pc, uintptr_t a) {
    auto& vc = cur->vc;
    uint8_t me = cur->id;
    uint32_t clk = vc[cur->id];
    auto seen = [&](uint8_t t) -> uint32_t { return t < vc.size() ? vc[t] : 0; };
    if (c.wtid != 0xff && c.wtid != me && (c.wmask & mask) && c.wclk > seen(c.wtid)) report(a, pc, write, c.wtid, true, c.wpc);
    if (write) {
        for (int i = 0; i < 3; ++i)
            if (c.rtid[i] != 0xff && c.rtid[i] != me && (c.rmask[i] & mask) && c.rclk[i] > seen(c.rtid[i])) report(a, pc, true, c.rtid[i], false, 0);
        if (c.wtid == me && c.wclk == clk) c.wmask |= mask;
        else { c.wtid = me; c.wclk = clk; c.wmask = mask; }
        c.wpc = pc;
        for (int i = 0; i < 3; ++i) if (c.rtid[i] == me || (mask == 0xff)) c.rtid[i] = 0xff;
    } else {
        int slot = -1;
        for (int i = 0; i < 3; ++i) if (c.rtid[i] == me) slot = i;
        if (slot < 0) for (int i = 0; i < 3; ++i) if (c.rtid[i] == 0xff) { slot = i; break; }
        if (slot < 0) for (int i = 0; i < 3; ++i) if (c.rclk[i] <= seen(c.rtid[i])) { slot = i; break; }
        if (slot < 0) slot = (pc >> 2) % 3;
        if (c.rtid[slot] == me && c.rclk[slot] == clk) c.rmask[slot] |= mask; else c.rmask[slot] = mask;
        c.rtid[slot] = me; c.rclk[slot] = clk;
    }
}
void race_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (!race_on || !cur || !n || cur->id > 250) return;
    if (a == (uintptr_t)&errno) return;  // one per thread (saved and restored at switches)
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t base = a & ~(uintptr_t)7;
        size_t lo = a - base, hi = std::min<uintptr_t>(e - base, 8);
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        one(page(a, true)->c[(a >> 3) & 511], mask, write, pc, a);
        a = base + 8;
    }
}
void race_free(uintptr_t a, size_t n) {
    if (!race_on || !n) return;
    uintptr_t e = a + n;
    a &= ~(uintptr_t)7;
    while (a < e) {
        Page* p = page(a, false);
        if (!p) { a = (a | 4095) + 1; continue; }
        p->c[(a >> 3) & 511] = Cell();
        a += 8;
    }
}
void race_result(std::string&) {}
}
static inline void acc(void* p, size_t n, bool w, void* pc) {
    if (in_host || !cur) return;
    ++st.accesses;
    race_access((uintptr_t)p, n, w, (uintptr_t)pc);
    maybe_preempt();
}
#define RW(n) \
    API void __tsan_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
    API void __tsan_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); } \
    API void __tsan_unaligned_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
    API void __tsan_unaligned_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); } \
    API void __tsan_volatile_read##n(void* p) { acc(p, n, false, __builtin_return_address(0)); } \
    API void __tsan_volatile_write##n(void* p) { acc(p, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void* p, size_t n) { acc(p, n, false, __builtin_return_address(0)); }
API void __tsan_write_range(void* p, size_t n) { acc(p, n, true, __builtin_return_address(0)); }
API void __tsan_vptr_update(void**, void*) {}
API void __tsan_vptr_read(void**) {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
API void __tsan_init() {}

static std::unordered_map<uintptr_t, std::vector<uint32_t>> sync_vc;
namespace sim {
void hb_acquire(uintptr_t a) {
    if (!cur) return;
    auto it = sync_vc.find(a);
    if (it != sync_vc.end()) hb_join(cur, it->second);
}
void hb_release(uintptr_t a) {
    if (!cur) return;
    auto& v = sync_vc[a];
    auto s = hb_snapshot(cur);
    if (v.size() < s.size()) v.resize(s.size(), 0);
    for (size_t i = 0; i < s.size(); ++i) v[i] = std::max(v[i], s[i]);
}
}
// atomics order everything they touch (acquire and release on the variable)
struct Atomic {
    bool ih;
    uintptr_t a; bool rel;
    Atomic(const volatile void* p, bool acq, bool r) : ih(in_host), a((uintptr_t)p), rel(r) {
        if (!ih && cur) maybe_preempt();
        in_host = true;
        if (!ih && race_on && acq) hb_acquire(a);
    }
    ~Atomic() { if (!ih && race_on && rel) hb_release(a); in_host = ih; }
};
#define AT(n, T) \
    API T __tsan_atomic##n##_load(const volatile T* p, int) { Atomic g(p, true, false); return *p; } \
    API void __tsan_atomic##n##_store(volatile T* p, T v, int) { Atomic g(p, false, true); *p = v; } \
    API T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = v; return o; } \
    API T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = o + v; return o; } \
    API T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = o - v; return o; } \
    API T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = o | v; return o; } \
    API T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = o & v; return o; } \
    API T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { Atomic g(p, true, true); T o = *p; *p = o ^ v; return o; } \
    API int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { Atomic g(p, true, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    API int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { Atomic g(p, true, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    API T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int) { Atomic g(p, true, true); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
API void __tsan_atomic_thread_fence(int) {}
API void __tsan_atomic_signal_fence(int) {}

// --wrap'ed memory functions of the rank libraries
API void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (race_on && !in_host && cur) { race_access((uintptr_t)s, n, false, (uintptr_t)__builtin_return_address(0)); race_access((uintptr_t)d, n, true, (uintptr_t)__builtin_return_address(0)); }
    return memcpy(d, s, n);
}
API void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (race_on && !in_host && cur) { race_access((uintptr_t)s, n, false, (uintptr_t)__builtin_return_address(0)); race_access((uintptr_t)d, n, true, (uintptr_t)__builtin_return_address(0)); }
    return memmove(d, s, n);
}
API void* __wrap_memset(void* d, int c, size_t n) {
    if (race_on && !in_host && cur) race_access((uintptr_t)d, n, true, (uintptr_t)__builtin_return_address(0));
    return memset(d, c, n);
}
