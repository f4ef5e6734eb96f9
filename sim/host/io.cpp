// File system seam: calls that rank code (through libstdc++) makes on files below the run directory.
#include "core.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <set>
#include <stdio.h>
#include <stdarg.h>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(n) ([]{ static auto f = real<decltype(&::n)>(#n); return f; }())

struct FileSt { std::string path; bool write; };
static std::map<int, FileSt> files;
enum { O_R, O_W, O_RD, O_WR, O_CL, O_MK, O_MV, O_RM, O_NOPS };
static const char* op_names[O_NOPS] = {"open_r", "open_w", "read", "write", "close", "mkdir", "rename", "remove"};
static uint64_t op_count[O_NOPS];
static uint64_t bytes_written = 0;
struct Plan { int op; std::string sub; uint64_t n; int err; bool sticky; int partial; uint64_t seen = 0; bool fired = false; };
static std::vector<Plan> plans;
static std::vector<std::string> fired;
static uint64_t crash_write = 0; static int crash_keep = 100;
static uint64_t mutations = 0;  // writes, renames and removals: the points at which a process can be killed
static bool loaded = false;
static std::string root;
static int err_of(const std::string& e) {
    if (e == "ENOSPC") return ENOSPC;
    if (e == "EIO") return EIO;
    if (e == "EDQUOT") return EDQUOT;
    if (e == "EMFILE") return EMFILE;
    if (e == "EACCES") return EACCES;
    if (e == "ENOENT") return ENOENT;
    if (e == "EROFS") return EROFS;
    if (e == "ENOMEM") return ENOMEM;
    return EIO;
}
static void load() {
    if (loaded) return;
    loaded = true;
    root = cfg.str("root");
    for (auto& l : cfg.all("iofault")) {
        char op[16], sub[256], e[16]; unsigned long long n; int sticky, partial;
        if (sscanf(l.c_str(), "%15s %255s %llu %15s %d %d", op, sub, &n, e, &sticky, &partial) != 6) continue;
        Plan p; p.op = -1;
        for (int i = 0; i < O_NOPS; ++i) if (!strcmp(op, op_names[i])) p.op = i;
        p.sub = !strcmp(sub, "*") ? "" : sub; p.n = n; p.err = err_of(e); p.sticky = sticky; p.partial = partial;
        plans.push_back(p);
    }
    crash_write = cfg.num("crash_write", 0);
    crash_keep = cfg.num("crash_keep", 100);
}
static bool active() { return cur && !in_host; }
static bool mine(const char* path) {
    load();
    if (path[0] == '/') return !root.empty() && !strncmp(path, root.c_str(), root.size());
    return true;  // relative: the run directory is the working directory
}
static Plan* fault(int op, const std::string& path) {
    for (auto& p : plans) {
        if (p.op != op || path.find(p.sub) == std::string::npos) continue;
        ++p.seen;
        if (p.seen == p.n || (p.sticky && p.seen > p.n)) {
            if (!p.fired) fired.push_back(std::string(op_names[op]) + " " + path + " errno " + std::to_string(p.err));
            p.fired = true;
            ++st.io_fault;
            join_event(op * 977 + p.err);
            return &p;
        }
    }
    return nullptr;
}
namespace sim {
void io_result(std::string& o) {
    o += ",\"io\":{";
    for (int i = 0; i < O_NOPS; ++i) o += std::string(i ? "," : "") + "\"" + op_names[i] + "\":" + std::to_string(op_count[i]);
    o += ",\"mutations\":" + std::to_string(mutations);
    o += ",\"bytes\":" + std::to_string(bytes_written) + ",\"fired\":[";
    for (size_t i = 0; i < fired.size(); ++i) o += (i ? "," : "") + jstr(fired[i]);
    o += "]}";
}
}
// Streams opened by the program itself (not by the C++ library, which works on the descriptor) pass their transfers
// through the calls below.
static std::set<FILE*> streams;
extern "C" { ssize_t read(int, void*, size_t); ssize_t write(int, const void*, size_t); int close(int); int open(const char*, int, ...); }
static ssize_t ck_read(void* c, char* b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    size_t k = 0;
    while (k < n) {
        ssize_t r = write((int)(intptr_t)c, b + k, n - k);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return 0;
        k += r;
    }
    return n;
}
static int ck_seek(void* c, off64_t* o, int w) { off64_t r = lseek64((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { return close((int)(intptr_t)c); }
static FILE* do_stream(const char* path, const char* mode) {
    int fl = strchr(mode, '+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY;
    if (*mode == 'w') fl |= O_CREAT | O_TRUNC;
    if (*mode == 'a') fl |= O_CREAT | O_APPEND;
    int fd = open(path, fl, 0666);
    if (fd < 0) return nullptr;
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close});
    if (f) streams.insert(f);
    return f;
}
static bool from_library(void* caller) {
    Dl_info i;
    return !dladdr(caller, &i) || !i.dli_fname || strstr(i.dli_fname, "libstdc++") || strstr(i.dli_fname, "libc.so");
}
static FILE* do_fopen(const char* path, const char* mode, FILE* (*rf)(const char*, const char*)) {
    if (!active() || !mine(path)) return rf(path, mode);
    yield("fopen");
    HostGuard g;
    bool w = strpbrk(mode, "wa+") != nullptr;
    int op = w ? O_W : O_R;
    ++st.io_ops; ++op_count[op];
    join_event(op);
    if (Plan* p = fault(op, path)) { errno = p->err; return nullptr; }
    FILE* f = rf(path, mode);
    if (f) files[fileno(f)] = {path, w};
    return f;
}
API FILE* fopen(const char* p, const char* m) { if (active() && mine(p) && !from_library(__builtin_return_address(0))) return do_stream(p, m); return do_fopen(p, m, REAL(fopen)); }
API FILE* fopen64(const char* p, const char* m) { if (active() && mine(p) && !from_library(__builtin_return_address(0))) return do_stream(p, m); return do_fopen(p, m, REAL(fopen64)); }
static int do_open(const char* path, int fl, int mode, int (*ro)(const char*, int, ...)) {
    if (!active() || !mine(path)) return ro(path, fl, mode);
    yield("open");
    HostGuard g;
    bool w = (fl & O_ACCMODE) != O_RDONLY;
    int op = w ? O_W : O_R;
    ++st.io_ops; ++op_count[op];
    if (Plan* p = fault(op, path)) { errno = p->err; return -1; }
    int fd = ro(path, fl, mode);
    if (fd >= 0) files[fd] = {path, w};
    return fd;
}
API int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m, REAL(open)); }
API int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m, REAL(open64)); }
static bool close_fault(int fd, int* err) {
    auto it = files.find(fd);
    if (it == files.end()) return false;
    FileSt f = it->second;
    files.erase(it);
    ++st.io_ops; ++op_count[O_CL];
    if (f.write) if (Plan* p = fault(O_CL, f.path)) { *err = p->err; return true; }
    return false;
}
API int fclose(FILE* f) {
    if (streams.erase(f)) return REAL(fclose)(f);
    if (!active()) { if (!in_host) files.erase(fileno(f)); return REAL(fclose)(f); }
    yield("fclose");
    HostGuard g;
    int e = 0; bool bad = close_fault(fileno(f), &e);
    int r = REAL(fclose)(f);
    if (bad) { errno = e; return EOF; }
    return r;
}
API int close(int fd) {
    if (!active()) return REAL(close)(fd);
    yield("close");
    HostGuard g;
    int e = 0; bool bad = close_fault(fd, &e);
    int r = REAL(close)(fd);
    if (bad) { errno = e; return -1; }
    return r;
}
API ssize_t read(int fd, void* b, size_t n) {
    if (!active() || !files.count(fd)) return REAL(read)(fd, b, n);
    yield("read");
    HostGuard g;
    auto it = files.find(fd);
    ++st.io_ops; ++op_count[O_RD];
    join_event(n);
    if (it != files.end()) if (Plan* p = fault(O_RD, it->second.path)) { errno = p->err; return -1; }
    uint64_t v = choose_raw(K_IO, [] { return rng.unit() < pol.p_io ? 1 + rng.below(1000) : 0; });
    if (v == 1) { ++st.io_eintr; errno = EINTR; return -1; }
    if (v > 1 && n > 1) { ++st.io_short; n = 1 + v % n; }
    return REAL(read)(fd, b, n);
}
static ssize_t do_write(int fd, const iovec* v, int cnt) {
    yield("write");
    HostGuard g;
    std::string path = files[fd].path;
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
    std::string buf; buf.reserve(n);
    for (int i = 0; i < cnt; ++i) buf.append((const char*)v[i].iov_base, v[i].iov_len);
    ++st.io_ops; ++op_count[O_WR];
    join_event(n);
    ++mutations;
    if (crash_write && mutations == crash_write) {
        size_t k = n * crash_keep / 100;
        if (k) (void)!REAL(write)(fd, buf.data(), k);
        finish("crashed", "crash in write " + std::to_string(crash_write) + " to " + path);
    }
    if (Plan* p = fault(O_WR, path)) {
        size_t k = p->partial > 0 ? n * std::min(p->partial, 99) / 100 : 0;
        if (k && p->seen == p->n) { bytes_written += k; return REAL(write)(fd, buf.data(), k); }  // short transfer first; the retry then fails
        errno = p->err;
        return -1;
    }
    uint64_t c = choose_raw(K_IO, [] { return rng.unit() < pol.p_io ? 1 + rng.below(1000) : 0; });
    if (c == 1) { ++st.io_eintr; errno = EINTR; return -1; }
    if (c > 1 && n > 1) { ++st.io_short; n = 1 + c % n; }
    bytes_written += n;
    return REAL(write)(fd, buf.data(), n);
}
API ssize_t write(int fd, const void* b, size_t n) {
    if (!active() || !files.count(fd)) return REAL(write)(fd, b, n);
    iovec v{(void*)b, n};
    return do_write(fd, &v, 1);
}
API ssize_t writev(int fd, const iovec* v, int c) {
    if (!active() || !files.count(fd)) return REAL(writev)(fd, v, c);
    return do_write(fd, v, c);
}
API int mkdir(const char* p, mode_t m) {
    if (!active() || !mine(p)) return REAL(mkdir)(p, m);
    yield("mkdir");
    HostGuard g;
    ++op_count[O_MK];
    if (Plan* q = fault(O_MK, p)) { errno = q->err; return -1; }
    return REAL(mkdir)(p, m);
}
static bool change(int op, const char* p, const char* name) {  // false: refused
    ++st.io_ops; ++op_count[op]; ++mutations;
    join_event(op);
    if (crash_write && mutations == crash_write) finish("crashed", std::string("crash before ") + name + " of " + p);
    if (Plan* q = fault(op, p)) { errno = q->err; return false; }
    return true;
}
API int rename(const char* a, const char* b) noexcept {
    if (!active() || !mine(b)) return REAL(rename)(a, b);
    yield("rename");
    HostGuard g;
    return change(O_MV, b, "rename") ? REAL(rename)(a, b) : -1;
}
API int remove(const char* p) noexcept {
    if (!active() || !mine(p)) return REAL(remove)(p);
    yield("remove");
    HostGuard g;
    return change(O_RM, p, "removal") ? REAL(remove)(p) : -1;
}
API int unlink(const char* p) noexcept {
    if (!active() || !mine(p)) return REAL(unlink)(p);
    yield("unlink");
    HostGuard g;
    return change(O_RM, p, "removal") ? REAL(unlink)(p) : -1;
}

// ---------------------------------------------------------------- clock
static uint64_t wall() {
    // a fixed offset per rank, and jumps in either direction on some reads (a function of seed and read count)
    static long skew_step = cfg.num("clock_skew_ms", 0);
    static long every = cfg.num("clock_jump", 0);
    static int64_t jump = 0;
    if (!cur) return 1700000000000000000ull + now_ns;
    ++st.clock_reads;
    if (every) {
        uint64_t h = (st.clock_reads + cfg.num("seed", 0) * 1000003ull) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
        if (h % (every + 1) == 0) { ++st.clock_jumps; jump += ((int64_t)((h >> 8) % 7200000) - 3600000) * 1000000ll; }
    }
    return 1700000000000000000ull + now_ns + (uint64_t)((int64_t)cur->rank * skew_step) * 1000000ull + (uint64_t)jump;
}
API int clock_gettime(clockid_t id, struct timespec* t) {
    if (!cur) return REAL(clock_gettime)(id, t);
    now_ns += 50;
    uint64_t w = wall();
    t->tv_sec = w / 1000000000ull; t->tv_nsec = w % 1000000000ull;
    return 0;
}
API int gettimeofday(struct timeval* t, void*) noexcept {
    if (!cur) { struct timespec s; REAL(clock_gettime)(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    uint64_t w = wall();
    t->tv_sec = w / 1000000000ull; t->tv_usec = (w % 1000000000ull) / 1000;
    return 0;
}
API time_t time(time_t* t) noexcept {
    time_t r;
    if (!cur) { struct timespec s; REAL(clock_gettime)(CLOCK_REALTIME, &s); r = s.tv_sec; } else r = wall() / 1000000000ull;
    if (t) *t = r;
    return r;
}
