#include "core.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <cxxabi.h>
#include <algorithm>
#include <cmath>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {
const char* kind_names[K_NKINDS] = {"sched", "stall", "lat", "eager", "coll", "io", "preempt", "metis", "alloc"};
Config cfg;
Policy pol;
Rng rng;
bool replaying = false;
std::vector<Fiber*> fibers;
Fiber* cur = nullptr;
uint64_t now_ns = 1000000000ull;
Stats st;
uint64_t ev_hash = 1469598103934665603ull;
std::set<uint64_t> sync_states;
std::vector<int> rank_exit;
bool in_host = true;

static uint64_t kind_count[K_NKINDS];
static std::map<std::pair<int, uint64_t>, uint64_t> trace_in;
struct Rec { int k; uint64_t i, v; };
static std::vector<Rec> trace_out;
static std::vector<std::pair<std::string, std::string>> viols;
static std::vector<std::string> notes;

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Rng::reseed(uint64_t seed) { for (auto& x : s) x = splitmix(seed); }
uint64_t Rng::next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

void join_event(uint64_t v) { ev_hash = (ev_hash ^ v) * 1099511628211ull; ev_hash ^= ev_hash >> 29; }

uint64_t choose_raw(Kind k, const std::function<uint64_t()>& draw) {
    HostGuard hg;
    uint64_t i = kind_count[k]++, v = 0;
    ++st.choices;
    if (replaying) {
        auto it = trace_in.find({k, i});
        if (it != trace_in.end()) v = it->second;
    } else {
        v = draw();
    }
    if (v) trace_out.push_back({k, i, v});
    return v;
}

void load_trace(const std::string& file) {
    replaying = true;
    FILE* f = fopen(file.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open trace %s\n", file.c_str()); _exit(3); }
    char name[32]; unsigned long long i, v;
    while (fscanf(f, "%31s %llu %llu", name, &i, &v) == 3)
        for (int k = 0; k < K_NKINDS; ++k)
            if (!strcmp(name, kind_names[k])) trace_in[{k, i}] = v;
    fclose(f);
}

void init_policy() {
    Rng r(cfg.num("seed", 1) * 7919 + 13);
    auto chance = [&](double p) { return r.unit() < p; };
    static const int scheds[] = {0, 1, 2, 3, 3, 4, 5, 1};
    pol.sched = scheds[r.below(8)];
    pol.p_preempt = chance(.5) ? 0.05 : 0.4;
    pol.p_stall = chance(.3) ? 0.02 : 0.0;
    pol.max_stall = chance(.5) ? 100000 : 20000000;
    pol.lat = r.below(5);
    pol.lat_base = (uint64_t[]){100, 2000, 50000, 1000000}[r.below(4)];
    pol.eager = r.below(4);
    pol.eager_limit = (long[]){0, 16, 64, 256, 1024}[r.below(5)];
    pol.p_coll_sync = (double[]){0.0, 0.5, 1.0}[r.below(3)];
    pol.p_io = chance(.4) ? 0.1 : 0.0;
    pol.preempt_gap = chance(.5) ? (uint64_t[]){20, 200, 2000}[r.below(3)] : 0;
    pol.victim = r.below(1 << 20);
    if (cfg.has("sched")) pol.sched = cfg.num("sched");
    if (cfg.has("eager")) pol.eager = cfg.num("eager");
    if (cfg.has("lat")) pol.lat = cfg.num("lat");
    if (cfg.has("p_io")) pol.p_io = cfg.real("p_io");
    if (cfg.has("p_stall")) pol.p_stall = cfg.real("p_stall");
    if (cfg.has("gap")) pol.preempt_gap = cfg.num("gap");
    if (cfg.has("coll_sync")) pol.p_coll_sync = cfg.real("coll_sync");
    rng.reseed(cfg.num("seed", 1));
    if (cfg.num("quiet")) {  // plain run: no unusual choice at all
        replaying = true;
    }
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
static void* sched_sp;
static void* sched_eh[2];

static void swap_eh(void** save, void** load) {
    void** g = (void**)__cxxabiv1::__cxa_get_globals();
    save[0] = g[0]; save[1] = g[1];
    g[0] = load[0]; g[1] = load[1];
}
static void to_sched() {
    Fiber* f = cur;
    f->err = errno;
    bool ih = in_host;
    swap_eh(f->eh, sched_eh);
    sim_switch(&f->sp, sched_sp);
    in_host = ih;
    errno = f->err;
}
static void to_fiber(Fiber* f) {
    cur = f;
    swap_eh(sched_eh, f->eh);
    sim_switch(&sched_sp, f->sp);
    cur = nullptr;
}
static void fiber_main() {
    Fiber* f = cur;
    in_host = false;
    f->entry();
    in_host = true;
    f->done = true;
    to_sched();
    abort();
}
static std::vector<std::pair<char*, size_t>> free_stacks;
Fiber* spawn(int rank, int thread, std::function<void()> fn) {
    Fiber* f = new Fiber;
    f->id = fibers.size();
    f->rank = rank;
    f->thread = thread;
    f->entry = std::move(fn);
    if (!free_stacks.empty()) {
        f->stack = free_stacks.back().first;
        f->stack_size = free_stacks.back().second;
        free_stacks.pop_back();
    } else {
        f->stack_size = 8u << 20;
        f->stack = (char*)mmap(nullptr, f->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f->stack, 4096, PROT_NONE);
        int fill = cfg.num("perturb", 0);
        if (fill) memset(f->stack + f->stack_size - (256 << 10), fill, 256 << 10);
    }
    uintptr_t top = ((uintptr_t)f->stack + f->stack_size) & ~(uintptr_t)15;
    void** sp = (void**)top;
    *--sp = nullptr;              // alignment / fake return
    *--sp = (void*)&fiber_main;   // ret target
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    --sp;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mx;
    ((uint32_t*)sp)[1] = cw;
    f->sp = sp;
    f->prio = replaying ? 0 : (long)rng.below(1000000);
    fibers.push_back(f);
    hb_init_fiber(f, cur);
    return f;
}

void yield(const char* where) {
    if (!cur) return;
    HostGuard g;
    cur->where = where;
    to_sched();
}
void block(const char* where, std::function<bool()> pred) {
    HostGuard g;
    cur->where = where;
    cur->pred = std::move(pred);
    to_sched();
    cur->pred = nullptr;
}
bool tracked_rank() { return cur != nullptr; }

static uint64_t gap_left = 0;
static bool gap_armed = false;
void maybe_preempt() {
    if (!cur || in_host) return;
    if (!gap_armed) {
        gap_left = choose_raw(K_PREEMPT, [] { return pol.preempt_gap ? 1 + rng.below(2 * pol.preempt_gap) : 0; });
        gap_armed = true;
        if (!gap_left) gap_left = ~0ull;
    }
    if (--gap_left == 0) {
        gap_armed = false;
        ++st.preempts;
        yield("preempt");
    }
}

// ---------------------------------------------------------------- time
struct Ev { uint64_t t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> events;
static uint64_t ev_seq = 0;
void at(uint64_t t, std::function<void()> fn) { events.push({t, ev_seq++, std::move(fn)}); }

// ---------------------------------------------------------------- scheduler
static int last_id = -1;
void run_scheduler() {
    uint64_t max_steps = cfg.num("max_steps", 4000000);
    uint64_t crash_step = cfg.num("crash_step", 0);
    std::vector<Fiber*> run;
    for (;;) {
        while (!events.empty() && events.top().t <= now_ns) {
            auto fn = std::move(const_cast<Ev&>(events.top()).fn);
            events.pop();
            fn();
        }
        run.clear();
        bool alive = false;
        uint64_t wake = ~0ull;
        uint64_t state = 0;
        for (Fiber* f : fibers) {
            if (f->done) continue;
            alive = true;
            uint64_t h = (uintptr_t)f->id * 1000003;
            for (const char* c = f->where; *c; ++c) h = (h ^ *c) * 1099511628211ull;
            bool ok = !f->pred || f->pred();
            state += h * (ok ? 3 : 7);
            if (!ok) continue;
            if (f->sleep_until > now_ns) { wake = std::min(wake, f->sleep_until); continue; }
            run.push_back(f);
        }
        if (sync_states.size() < 200000) sync_states.insert(state);
        if (!alive) return;
        if (run.empty()) {
            if (!events.empty()) wake = std::min(wake, events.top().t);
            if (wake == ~0ull) {
                std::string d;
                for (Fiber* f : fibers)
                    if (!f->done) d += "rank " + std::to_string(f->rank) + " thread " + std::to_string(f->thread) + " blocked in " + f->where + "; ";
                finish("deadlock", d + mpi_state());
            }
            now_ns = std::max(now_ns, wake);
            continue;
        }
        if (++st.steps > max_steps) finish("step-limit", "no completion within " + std::to_string(max_steps) + " scheduling steps");
        if (crash_step && st.steps == crash_step) finish("crashed", "crash at scheduling step");
        // default: continue the fiber that ran last, otherwise the lowest id
        size_t def = 0;
        for (size_t i = 0; i < run.size(); ++i)
            if (run[i]->id == last_id) def = i;
        size_t pick = def;
        if (run.size() > 1) {
            uint64_t v = choose_raw(K_SCHED, [&]() -> uint64_t {
                size_t p = def;
                switch (pol.sched) {
                    case 0: p = rng.below(run.size()); break;
                    case 1: {
                        for (size_t i = 0; i < run.size(); ++i)
                            if (run[i]->prio > run[p]->prio) p = i;
                        if (rng.unit() < 0.02) run[p]->prio = (long)rng.below(1000000) - 1000000;
                        break;
                    }
                    case 2: p = (def + 1) % run.size(); break;
                    case 3: if (rng.unit() < pol.p_preempt) p = rng.below(run.size()); break;
                    case 4: case 5: {
                        std::vector<size_t> ok;
                        for (size_t i = 0; i < run.size(); ++i) {
                            bool victim = pol.sched == 4 ? run[i]->id == (int)(pol.victim % fibers.size())
                                                         : run[i]->rank == (int)(pol.victim % rank_exit.size());
                            if (!victim) ok.push_back(i);
                        }
                        if (ok.empty() || rng.unit() < 0.005) p = rng.below(run.size());
                        else p = ok[rng.below(ok.size())];
                        break;
                    }
                }
                return (p + run.size() - def) % run.size();
            });
            pick = (def + v) % run.size();
        }
        Fiber* f = run[pick];
        if (pol.p_stall > 0 || replaying) {
            if (run.size() > 0) {
                uint64_t s = choose_raw(K_STALL, [&]() -> uint64_t { return rng.unit() < pol.p_stall ? 1 + rng.below(pol.max_stall) : 0; });
                if (s) { ++st.stalls; f->sleep_until = now_ns + s; continue; }
            }
        }
        if (f->id != last_id) ++st.switches;
        last_id = f->id;
        join_event(f->id);
        for (const char* c = f->where; *c; ++c) join_event(*c);
        ++f->slices;
        now_ns += 1000;
        to_fiber(f);
    }
}

// ---------------------------------------------------------------- results
std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
void violation(const std::string& cls, const std::string& text) {
    if (viols.size() < 50) viols.push_back({cls, text});
}
void note(const std::string& text) { if (notes.size() < 50) notes.push_back(text); }

static bool finishing = false;
[[noreturn]] void finish(const std::string& status, const std::string& detail, int code) {
    if (finishing) _exit(4);
    finishing = true;
    in_host = true;
    std::string o = "{";
    o += "\"status\":" + jstr(status) + ",\"detail\":" + jstr(detail) + ",\"code\":" + std::to_string(code);
    o += ",\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i)
        o += (i ? "," : "") + ("[" + jstr(viols[i].first) + "," + jstr(viols[i].second) + "]");
    o += "],\"notes\":[";
    for (size_t i = 0; i < notes.size(); ++i) o += (i ? "," : "") + jstr(notes[i]);
    o += "],\"ranks\":[";
    for (size_t i = 0; i < rank_exit.size(); ++i) o += (i ? "," : "") + std::to_string(rank_exit[i]);
    o += "]";
    auto num = [&](const char* n, uint64_t v) { o += std::string(",\"") + n + "\":" + std::to_string(v); };
    num("steps", st.steps); num("switches", st.switches); num("choices", st.choices); num("preempts", st.preempts);
    num("msgs", st.msgs); num("bytes", st.bytes); num("rendezvous", st.rendezvous); num("eager", st.eager);
    num("delayed", st.delayed); num("overtakes", st.overtakes); num("max_inflight", st.max_inflight);
    num("colls", st.colls); num("coll_early", st.coll_early); num("coll_sync", st.coll_sync); num("stalls", st.stalls);
    num("barriers", st.barriers); num("regions", st.regions); num("solves", st.solves); num("io_ops", st.io_ops);
    num("io_short", st.io_short); num("io_eintr", st.io_eintr); num("io_fault", st.io_fault); num("allocs", st.allocs);
    num("alloc_fault", st.alloc_fault); num("clock_reads", st.clock_reads); num("clock_jumps", st.clock_jumps); num("accesses", st.accesses); num("poisoned", st.poisoned);
    num("sim_ns", now_ns - 1000000000ull); num("hash", ev_hash >> 1); num("fibers", fibers.size());
    num("sync_states", sync_states.size());
    o += ",\"pol\":[" + std::to_string(pol.sched) + "," + std::to_string(pol.lat) + "," + std::to_string(pol.eager) + "]";
    if (cfg.num("dump_states")) {
        o += ",\"states\":[";
        size_t n = 0;
        for (uint64_t s : sync_states) { if (n >= 3000) break; o += (n++ ? "," : "") + std::to_string(s >> 12); }
        o += "]";
    }
    io_result(o);
    race_result(o);
    o += "}\n";
    std::string rf = cfg.str("result");
    int fd = rf.empty() ? 1 : (int)::open(rf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    size_t off = 0;
    while (off < o.size()) { ssize_t n = ::write(fd, o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
    std::string tf = cfg.str("trace_out");
    if (!tf.empty()) {
        FILE* f = fopen(tf.c_str(), "w");
        if (f) {
            for (auto& r : trace_out) fprintf(f, "%s %llu %llu\n", kind_names[r.k], (unsigned long long)r.i, (unsigned long long)r.v);
            fclose(f);
        }
    }
    _exit(0);
}
}
