// Core of the deterministic simulator: choices, fibers, scheduler, virtual time, result record.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <memory>
#include <queue>

namespace sim {

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is a numbered choice of one kind.
// Value 0 is always the "nothing unusual" alternative, so a trace is the sparse
// list of non-zero choices and minimisation is dropping entries from that list.
enum Kind { K_SCHED, K_STALL, K_LAT, K_EAGER, K_COLL, K_IO, K_PREEMPT, K_METIS, K_ALLOC, K_NKINDS };
extern const char* kind_names[K_NKINDS];

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Config {
    std::map<std::string, std::vector<std::string>> kv;
    bool has(const std::string& k) const { return kv.count(k) != 0; }
    std::string str(const std::string& k, const std::string& d = "") const {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second.back();
    }
    long num(const std::string& k, long d = 0) const { return has(k) ? std::stol(str(k)) : d; }
    double real(const std::string& k, double d = 0) const { return has(k) ? std::stod(str(k)) : d; }
    const std::vector<std::string>& all(const std::string& k) const {
        static std::vector<std::string> none;
        auto it = kv.find(k);
        return it == kv.end() ? none : it->second;
    }
};
extern Config cfg;

// Swarm parameters of one run (drawn from the seed; ignored in replay).
struct Policy {
    int sched = 0;            // 0 uniform, 1 priorities, 2 round robin, 3 run to block, 4 starve one, 5 starve one rank
    double p_preempt = 0.2;   // sched 3: chance of a switch at a scheduling point
    double p_stall = 0.0;     // chance that a scheduled fiber is put to sleep
    uint64_t max_stall = 1000000;
    int lat = 0;              // latency model
    uint64_t lat_base = 1000;
    int eager = 0;            // 0 always eager, 1 always rendezvous, 2 coin, 3 by size
    long eager_limit = 64;
    double p_coll_sync = 0.5; // collectives that may leave early are made synchronising
    double p_io = 0.0;        // transparent I/O faults (short transfers, EINTR)
    uint64_t preempt_gap = 0; // mean number of preemption points between forced switches
    int victim = 0;
};
extern Policy pol;

extern Rng rng;
extern bool replaying;
uint64_t choose_raw(Kind k, const std::function<uint64_t()>& draw);  // returns value, records if non-zero

// ---------------------------------------------------------------- fibers
struct Fiber {
    int id = 0, rank = 0, thread = 0, team_size = 1;
    void* sp = nullptr;
    char* stack = nullptr;
    size_t stack_size = 0;
    std::function<void()> entry;
    bool done = false;
    bool started = false;
    std::function<bool()> pred;  // non-null: blocked until true
    const char* where = "";
    uint64_t sleep_until = 0;
    int err = 0;
    void* eh[2] = {nullptr, nullptr};
    long prio = 0;
    void* omp = nullptr;  // team state
    std::vector<uint32_t> vc;
    uint64_t slices = 0;
};
extern std::vector<Fiber*> fibers;
extern Fiber* cur;  // null while the scheduler runs

Fiber* spawn(int rank, int thread, std::function<void()> fn);
void yield(const char* where);                                  // scheduling point
void block(const char* where, std::function<bool()> pred);      // block until pred
void maybe_preempt();                                            // cheap preemption point (allocation, memory access)
void join_event(uint64_t v);                                     // mix into the event hash

// ---------------------------------------------------------------- virtual time
extern uint64_t now_ns;
void at(uint64_t t, std::function<void()> fn);

// ---------------------------------------------------------------- results
struct Stats {
    uint64_t steps = 0, switches = 0, choices = 0, preempts = 0;
    uint64_t msgs = 0, bytes = 0, rendezvous = 0, eager = 0, delayed = 0, overtakes = 0, max_inflight = 0;
    uint64_t colls = 0, coll_early = 0, coll_sync = 0, stalls = 0, barriers = 0, regions = 0, solves = 0;
    uint64_t io_ops = 0, io_short = 0, io_eintr = 0, io_fault = 0, allocs = 0, alloc_fault = 0, accesses = 0, clock_reads = 0, clock_jumps = 0;
    uint64_t poisoned = 0;
};
extern Stats st;
extern uint64_t ev_hash;
extern std::set<uint64_t> sync_states;

[[noreturn]] void finish(const std::string& status, const std::string& detail, int code = 0);
void violation(const std::string& cls, const std::string& text);  // recorded, run goes on
void note(const std::string& text);
std::string jstr(const std::string& s);
bool tracked_rank();  // true when running on a rank's fiber
void run_scheduler();
extern std::vector<int> rank_exit;  // exit value of each rank's main, INT_MIN while running
void init_policy();
void load_functions();
void hb_acquire(uintptr_t a);
void hb_release(uintptr_t a);
void load_trace(const std::string& file);
extern bool in_host;  // host code is running on a fiber: no instrumentation, no preemption
struct HostGuard {
    bool old;
    HostGuard() : old(in_host) { in_host = true; }
    ~HostGuard() { in_host = old; }
};

// happens-before hooks (tsan.cpp)
void hb_init_fiber(Fiber* f, Fiber* parent);
void hb_join(Fiber* f, const std::vector<uint32_t>& vc);
std::vector<uint32_t> hb_snapshot(Fiber* f);  // returns clock and advances own component
void race_free(uintptr_t a, size_t n);
void race_access(uintptr_t a, size_t n, bool write, uintptr_t pc);
extern bool race_on;
std::string mpi_state();
std::string leftover_check();
void io_result(std::string& out);
void race_result(std::string& out);
}
