// OpenMP runtime entry points (GCC ABI) on simulator fibers.
#include "core.h"
#include <omp.h>
#include <cstdlib>
#include <unistd.h>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))

struct Team {
    int n = 1, arrived = 0, live = 0;
    uint64_t gen = 0, single_gen = 0;
    std::vector<std::vector<uint32_t>> vcs;
    std::map<Fiber*, uint64_t> single_count;
    uint64_t singles_taken = 0;
    bool loop_active = false; long loop_next = 0, loop_end = 0, loop_incr = 1, loop_chunk = 1; std::map<Fiber*, uint64_t> loop_count; uint64_t loops = 0; int loop_left = 0;
};
static std::map<int, std::pair<Fiber*, std::vector<uint32_t>>> crit;          // per rank
static std::map<std::pair<int, void*>, std::pair<Fiber*, std::vector<uint32_t>>> crit_named;

static Team* team() { return (Team*)(cur ? cur->omp : nullptr); }

static int threads_of(int rank) {
    auto& v = cfg.all("threads");
    if (v.empty()) return 1;
    return std::stoi(rank < (int)v.size() ? v[rank] : v.back());
}
static void barrier(Team* t, const char* where) {
    HostGuard g;
    if (!t || t->n == 1) { yield(where); return; }
    ++st.barriers;
    uint64_t my = t->gen;
    t->vcs.push_back(hb_snapshot(cur));
    if (++t->arrived == t->n) {
        auto vs = std::make_shared<std::vector<std::vector<uint32_t>>>(std::move(t->vcs));
        t->vcs.clear();
        t->arrived = 0;
        ++t->gen;
        for (Fiber* f : fibers)
            if (!f->done && f->omp == t)
                for (auto& v : *vs) hb_join(f, v);
        yield(where);
    } else {
        block(where, [t, my] { return t->gen != my; });
    }
}
struct LoopInit { long next, end, incr, chunk; };
static void run_team(void (*fn)(void*), void* data, unsigned num, const LoopInit* l = nullptr) {
    HostGuard g;
    int rank = cur->rank;
    int n = num ? (int)num : threads_of(rank);
    Team* outer = team();
    if (outer && outer->n > 1) n = 1;  // nested regions are serialised
    ++st.regions;
    Team* t = new Team;
    t->n = n;
    if (l) { t->loop_next = l->next; t->loop_end = l->end; t->loop_incr = l->incr; t->loop_chunk = l->chunk < 1 ? 1 : l->chunk; }
    Fiber* master = cur;
    void* old = master->omp;
    int oldthread = master->thread;
    master->omp = t;
    master->thread = 0;
    t->live = n - 1;
    auto ends = std::make_shared<std::vector<std::vector<uint32_t>>>();
    for (int i = 1; i < n; ++i) {
        Fiber* f = spawn(rank, i, [fn, data, t, ends] {
            fn(data);
            HostGuard g;
            barrier(t, "omp end of region");
            ends->push_back(hb_snapshot(cur));
            --t->live;
        });
        f->omp = t;
    }
    yield("omp parallel");
    in_host = false;
    fn(data);
    in_host = true;
    barrier(t, "omp end of region");
    block("omp join", [t] { return t->live == 0; });
    for (auto& v : *ends) hb_join(master, v);
    master->omp = old;
    master->thread = oldthread;
}
API void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) { run_team(fn, data, num); }
API void GOMP_barrier() { barrier(team(), "omp barrier"); }
API bool GOMP_barrier_cancel() { barrier(team(), "omp barrier"); return false; }
API bool GOMP_cancellation_point(int) { return false; }
API void GOMP_taskwait() { yield("omp taskwait"); }

API void GOMP_critical_start() {
    HostGuard g;
    int r = cur->rank;
    block("omp critical", [r] { return crit[r].first == nullptr; });
    crit[r].first = cur;
    hb_join(cur, crit[r].second);
}
API void GOMP_critical_end() { HostGuard g; auto& c = crit[cur->rank]; c.second = hb_snapshot(cur); c.first = nullptr; yield("omp critical end"); }
API void GOMP_critical_name_start(void** p) {
    HostGuard g;
    auto k = std::make_pair(cur->rank, (void*)p);
    block("omp critical", [k] { return crit_named[k].first == nullptr; });
    crit_named[k].first = cur;
    hb_join(cur, crit_named[k].second);
}
API void GOMP_critical_name_end(void** p) { HostGuard g; auto& c = crit_named[{cur->rank, (void*)p}]; c.second = hb_snapshot(cur); c.first = nullptr; yield("omp critical end"); }
API void GOMP_atomic_start() { GOMP_critical_start(); }
API void GOMP_atomic_end() { GOMP_critical_end(); }
API bool GOMP_single_start() {
    HostGuard g;
    yield("omp single");
    Team* t = team();
    if (!t || t->n == 1) return true;
    uint64_t k = t->single_count[cur]++;
    if (k == t->singles_taken) { ++t->singles_taken; return true; }
    return false;
}
static bool loop_take(long* s, long* e) {
    HostGuard g;
    yield("omp loop");
    Team* t = team();
    if (t->loop_incr > 0 ? t->loop_next >= t->loop_end : t->loop_next <= t->loop_end) return false;
    *s = t->loop_next;
    long nx = t->loop_next + t->loop_chunk * t->loop_incr;
    if (t->loop_incr > 0 ? nx > t->loop_end : nx < t->loop_end) nx = t->loop_end;
    *e = nx;
    t->loop_next = nx;
    return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) {
    HostGuard g;
    Team* t = team();
    if (!t) { t = new Team; cur->omp = t; }
    uint64_t k = t->loop_count[cur]++;
    if (k == t->loops) { ++t->loops; t->loop_next = start; t->loop_end = end; t->loop_incr = incr; t->loop_chunk = chunk < 1 ? 1 : chunk; }
    return loop_take(s, e);
}
API bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); }
API bool GOMP_loop_dynamic_next(long* s, long* e) { return loop_take(s, e); }
API bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); }
API bool GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e) { return loop_take(s, e); }
API bool GOMP_loop_guided_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); }
API bool GOMP_loop_guided_next(long* s, long* e) { return loop_take(s, e); }
API bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); }
API bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return loop_take(s, e); }
API bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
API bool GOMP_loop_runtime_next(long* s, long* e) { return loop_take(s, e); }
API void GOMP_loop_end() { barrier(team(), "omp loop end"); }
API void GOMP_loop_end_nowait() {}
#define PARALLEL_LOOP(name) \
    API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { LoopInit l{a, b, i, c}; run_team(fn, d, n, &l); }
PARALLEL_LOOP(dynamic) PARALLEL_LOOP(guided) PARALLEL_LOOP(nonmonotonic_dynamic) PARALLEL_LOOP(nonmonotonic_guided)
#define PARALLEL_LOOP_RT(name) \
    API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { LoopInit l{a, b, i, 1}; run_team(fn, d, n, &l); }
PARALLEL_LOOP_RT(runtime) PARALLEL_LOOP_RT(maybe_nonmonotonic_runtime) PARALLEL_LOOP_RT(nonmonotonic_runtime)
API bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
API bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_take(s, e); }
API bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
API bool GOMP_loop_nonmonotonic_runtime_next(long* s, long* e) { return loop_take(s, e); }
API unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
API unsigned GOMP_sections_next() { long s, e; return loop_take(&s, &e) ? (unsigned)s : 0; }
API void GOMP_sections_end() { barrier(team(), "omp sections end"); }
API void GOMP_sections_end_nowait() {}
API void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { LoopInit l{1, (long)count + 1, 1, 1}; run_team(fn, d, n, &l); }
API void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!copy) { fn(data); return; }  // a task runs where it is made
    std::vector<char> buf(size + align);
    char* p = (char*)(((uintptr_t)buf.data() + align - 1) / align * align);
    copy(p, data);
    fn(p);
}
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() { yield("omp taskgroup"); }
API int omp_get_num_threads() { Team* t = team(); return t ? t->n : 1; }
API int omp_get_thread_num() { return cur && team() ? cur->thread : 0; }
API int omp_get_max_threads() { return cur ? threads_of(cur->rank) : 1; }
API int omp_get_num_procs() { return 8; }
API int omp_in_parallel() { Team* t = team(); return t && t->n > 1; }
API int omp_get_level() { return team() ? 1 : 0; }
API void omp_set_num_threads(int) {}
API void omp_set_dynamic(int) {}
API void omp_set_nested(int) {}
API double omp_get_wtime() { return now_ns * 1e-9; }
struct Lk { Fiber* owner; std::vector<uint32_t>* vc; };
static std::map<void*, Lk> locks;
API void omp_init_lock(omp_lock_t* l) { HostGuard g; locks[l] = {nullptr, new std::vector<uint32_t>}; }
API void omp_destroy_lock(omp_lock_t* l) { HostGuard g; locks.erase(l); }
API void omp_set_lock(omp_lock_t* l) { HostGuard g; block("omp lock", [l] { return locks[l].owner == nullptr; }); locks[l].owner = cur; hb_join(cur, *locks[l].vc); }
API void omp_unset_lock(omp_lock_t* l) { HostGuard g; *locks[l].vc = hb_snapshot(cur); locks[l].owner = nullptr; yield("omp unlock"); }
API int omp_test_lock(omp_lock_t* l) { HostGuard g; yield("omp testlock"); if (locks[l].owner) return 0; omp_set_lock(l); return 1; }

// std::mutex and friends on fibers
#include <pthread.h>
#include <dlfcn.h>
#include <cerrno>
static std::map<void*, std::pair<Fiber*, int>> mutexes;
API int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!cur || in_host) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
    HostGuard g;
    auto& o = mutexes[m];
    if (o.first == cur) { ++o.second; return 0; }
    block("mutex", [m] { return mutexes[m].first == nullptr; });
    mutexes[m] = {cur, 1};
    hb_acquire((uintptr_t)m);
    return 0;
}
API int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!cur || in_host) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f(m); }
    HostGuard g;
    if (mutexes[m].first) return EBUSY;
    mutexes[m] = {cur, 1};
    hb_acquire((uintptr_t)m);
    return 0;
}
API int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!cur || in_host) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
    HostGuard g;
    auto& o = mutexes[m];
    if (--o.second > 0) return 0;
    hb_release((uintptr_t)m);
    o = {nullptr, 0};
    return 0;
}
