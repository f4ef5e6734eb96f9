// One simulated execution: main <spec file>. The spec holds key=value lines (see harness).
#include "core.h"
#include <climits>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))

static std::string who() { return cur ? "rank " + std::to_string(cur->rank) + " thread " + std::to_string(cur->thread) : "host"; }
API void __wrap_exit(int code) { finish("exit", who() + " called exit", code); }
API void __wrap_abort() { finish("signal", who() + " called abort", 6); }
API void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { 
    std::string ff = f; auto p = ff.rfind('/');
    finish("assert", who() + ": assertion failed: " + e + " (" + (p == std::string::npos ? ff : ff.substr(p + 1)) + ")", 6); (void)l; }
namespace std { __attribute__((visibility("default"), noreturn)) void __glibcxx_assert_fail(const char* f, int l, const char* fn, const char* c) noexcept;
void __glibcxx_assert_fail(const char*, int, const char* fn, const char* c) noexcept {
    finish("assert", who() + ": standard library assertion failed: " + (c ? c : "") + " in " + (fn ? fn : ""), 6); __builtin_unreachable(); } }
static void on_terminate() {
    std::string t = "unknown";
    in_host = true;
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::bad_alloc&) { t = "std::bad_alloc"; }
        catch (const std::exception& x) { t = x.what(); }
        catch (...) { t = "non-standard exception"; }
    }
    finish("terminate", who() + ": " + t, 6);
}
static void on_signal(int s, siginfo_t* i, void*) {
    in_host = true;
    bool stack = false;
    if (s == SIGSEGV && cur) stack = (char*)i->si_addr >= cur->stack && (char*)i->si_addr < cur->stack + 8192;
    finish("signal", who() + (stack ? " stack overflow, signal " : " signal ") + std::to_string(s), s);
}
// function-local statics: a fiber switch inside an initialiser must not look like recursion
struct GuardSt { Fiber* owner = nullptr; std::vector<uint32_t> vc; };
static std::map<void*, GuardSt>* guards;
namespace __cxxabiv1 {
API int __cxa_guard_acquire(__guard* gp) {
    char* b = (char*)gp;
    if (!cur || in_host) {
        if (*b) return 0;
        return 1;
    }
    HostGuard hg;
    if (!guards) guards = new std::map<void*, GuardSt>;
    for (;;) {
        GuardSt& g = (*guards)[gp];
        if (*b) { hb_join(cur, g.vc); return 0; }
        if (!g.owner) { g.owner = cur; return 1; }
        if (g.owner == cur) finish("terminate", "recursive static initialisation", 6);
        block("static initialisation", [gp] { return (*guards)[gp].owner == nullptr; });
    }
}
API void __cxa_guard_release(__guard* gp) {
    *(char*)gp = 1;
    if (!cur || in_host) return;
    HostGuard hg;
    GuardSt& g = (*guards)[gp];
    g.vc = hb_snapshot(cur);
    hb_release((uintptr_t)gp);
    g.owner = nullptr;
}
API void __cxa_guard_abort(__guard* gp) {
    if (!cur || in_host || !guards) return;
    HostGuard hg;
    (*guards)[gp].owner = nullptr;
}
}

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 2) return 3;
    {
        std::ifstream f(argv[1]);
        std::string l;
        while (std::getline(f, l)) {
            auto e = l.find('=');
            if (e != std::string::npos) cfg.kv[l.substr(0, e)].push_back(l.substr(e + 1));
        }
    }
    if (cfg.has("dir") && chdir(cfg.str("dir").c_str())) return 3;
    init_policy();
    load_functions();
    if (cfg.has("replay")) load_trace(cfg.str("replay"));
    int P = cfg.num("ranks", 1);
    rank_exit.assign(P, INT_MIN);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::vector<int (*)(int, char**)> mains;
    auto& libs = cfg.all("lib");
    for (int r = 0; r < P; ++r) {
        void* h = dlopen(libs.at(r).c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
        auto m = (int (*)(int, char**))dlsym(h, cfg.str("entry", "main").c_str());
        if (!m) { fprintf(stderr, "no entry point\n"); return 3; }
        mains.push_back(m);
    }
    std::set_terminate(on_terminate);
    stack_t ss{};
    ss.ss_size = 1 << 18;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    race_on = cfg.num("race", 0);
    for (int r = 0; r < P; ++r) {
        auto m = mains[r];
        auto* args = new std::vector<std::string>{"dgswemv2"};
        for (auto& a : cfg.all("arg")) args->push_back(a);
        spawn(r, 0, [m, r, args] {
            std::vector<char*> av;
            int rc = 0;
            in_host = true;
            for (auto& a : *args) av.push_back(strdup(a.c_str()));
            av.push_back(nullptr);
            std::string what; bool threw = false;
            in_host = false;
            try { rc = m((int)args->size(), av.data()); }
            catch (const std::exception& e) { in_host = true; threw = true; what = e.what(); }
            catch (...) { in_host = true; threw = true; what = "non-standard exception"; }
            in_host = true;
            if (threw) finish("terminate", who() + ": " + what, 6);
            rank_exit[r] = rc;
            if (rc != 0) finish("exit", who() + " returned from main", rc);
        });
    }
    run_scheduler();
    std::cout.flush();
    std::string left = leftover_check();
    if (!left.empty()) violation("mpi-leftover", left);
    finish("ok", "");
}
