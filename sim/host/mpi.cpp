// Simulated MPI. One world, each rank a set of fibers of this process.
#include "mpi.h_internal.h"
#include <cstring>
#include <cstdlib>
#include <climits>
#include <cmath>
#include <algorithm>
#include <unistd.h>

using namespace sim;

struct Msg;
struct sim_mpi_request {
    int magic = 0x51e9;
    bool send = false, persistent = false, active = false, complete = false, sync = false;
    void* buf = nullptr;
    size_t bytes = 0, elem = 1;
    int type = 0;
    int rank = 0, peer = 0, tag = 0, comm = 0;
    size_t got = 0;
    std::shared_ptr<Msg> msg;
    std::vector<uint32_t> vc;   // clock at start
    std::vector<uint32_t> mvc;  // clock of the matched peer
    int started_by = -1;
    uint64_t starts = 0;
    std::string snap;  // content of a send buffer when the send was started
};
struct Msg {
    int src, dst, tag, comm, type;
    size_t bytes;
    uint64_t id, arrive;
    bool eager;
    std::string data;
    sim_mpi_request* sreq = nullptr;
    std::vector<uint32_t> vc;
};
namespace sim {
struct Chan {
    std::deque<std::shared_ptr<Msg>> q;
    std::deque<sim_mpi_request*> recvs;
    uint64_t last_arrive = 0;
};
typedef std::tuple<int, int, int, int> Key;  // src,dst,tag,comm
static std::map<Key, Chan> chans;
static uint64_t msg_id = 0, inflight = 0, last_delivered = 0;
static std::vector<int> inited, finalized;
static std::map<std::pair<int, int>, std::pair<bool, int>> rank_coll;  // (comm,rank) -> in collective
struct CommSt { std::vector<uint64_t> seq; std::deque<std::shared_ptr<CollInst>> inst; uint64_t base = 0; };
static std::map<int, CommSt> comms;
static std::vector<sim_mpi_request*> all_reqs;

int world_size() { return rank_exit.size(); }
int world_rank() { return cur ? cur->rank : 0; }
size_t type_size(MPI_Datatype t) {
    switch (t) {
        case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
        case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
        case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
        default: return 8;
    }
}
static void usage(const std::string& t) { violation("mpi-usage", "rank " + std::to_string(world_rank()) + ": " + t); }
static void check_live(const char* fn) {
    int r = world_rank();
    if ((int)inited.size() < world_size()) { inited.resize(world_size()); finalized.resize(world_size()); }
    if (!inited[r]) usage(std::string(fn) + " before MPI_Init");
    if (finalized[r]) usage(std::string(fn) + " after MPI_Finalize");
}

static void try_match(const Key& k);
static void deliver(sim_mpi_request* r, std::shared_ptr<Msg> m) {
    size_t n = m->bytes;
    if (n > r->bytes) {
        violation("mpi-truncate", "message of " + std::to_string(n) + " bytes from rank " + std::to_string(m->src) + " to rank " + std::to_string(m->dst) +
                                      " tag " + std::to_string(m->tag) + " received into a buffer of " + std::to_string(r->bytes) + " bytes");
        finish("mpi-error", "message truncated", 15);
    }
    if (m->type != r->type && type_size(m->type) != type_size(r->type)) violation("mpi-usage", "datatype mismatch between send and receive");
    if (m->eager) { if (n) memcpy(r->buf, m->data.data(), n); }
    else {
        if (n) memmove(r->buf, m->sreq->buf, n);
        m->sreq->complete = true;
        m->sreq->mvc = r->vc;
    }
    r->got = n;
    r->mvc = m->vc;
    r->complete = true;
    if (m->id < last_delivered) ++st.overtakes; else last_delivered = m->id;
    --inflight;
    join_event(m->src * 1000 + m->dst * 10 + m->tag);
}
static void try_match(const Key& k) {
    Chan& c = chans[k];
    while (!c.q.empty() && !c.recvs.empty() && c.q.front()->arrive <= now_ns) {
        auto m = c.q.front(); c.q.pop_front();
        auto* r = c.recvs.front(); c.recvs.pop_front();
        deliver(r, m);
    }
}
static uint64_t latency(size_t bytes, int src, int dst) {
    return choose_raw(K_LAT, [&]() -> uint64_t {
        uint64_t b = pol.lat_base;
        switch (pol.lat) {
            case 0: return 0;
            case 1: return rng.below(b + 1);
            case 2: return rng.unit() < 0.1 ? b * (1 + rng.below(200)) : rng.below(b / 4 + 1);
            case 3: return (uint64_t)((src * 31 + dst * 17 + pol.victim) % 7 == 0 ? b * 50 : b / 10);  // slow links
            default: return (uint64_t)(b * -std::log(1e-9 + rng.unit()));
        }
    });
}
static void start(sim_mpi_request* r) {
    if (!r || r->magic != 0x51e9) { usage("MPI_Start on an invalid request"); finish("mpi-error", "invalid request", 19); }
    if (r->active) { usage("MPI_Start on an active persistent request (" + std::string(r->send ? "send" : "recv") + " peer " + std::to_string(r->peer) + " tag " + std::to_string(r->tag) + ")");
                     finish("mpi-error", "start of an active request", 19); }
    r->active = true; r->complete = false; r->got = 0; ++r->starts;
    r->vc = hb_snapshot(cur);
    r->started_by = cur->id;
    if (r->peer == MPI_PROC_NULL) { r->complete = true; return; }
    if (r->peer < 0 || r->peer >= world_size()) { usage("peer rank " + std::to_string(r->peer) + " out of range"); finish("mpi-error", "invalid rank", 6); }
    if (r->tag < 0) { usage("negative tag"); finish("mpi-error", "invalid tag", 4); }
    if (r->tag > 0x7fffffff) usage("tag too large");
    if (r->send) {
        auto m = std::make_shared<Msg>();
        m->src = r->rank; m->dst = r->peer; m->tag = r->tag; m->comm = r->comm; m->bytes = r->bytes; m->type = r->type;
        m->id = ++msg_id; m->vc = r->vc;
        ++st.msgs; st.bytes += r->bytes; ++inflight; st.max_inflight = std::max(st.max_inflight, inflight);
        r->snap.assign((char*)r->buf, r->bytes);
        bool rdv = r->sync || choose_raw(K_EAGER, [&]() -> uint64_t {
            switch (pol.eager) { case 0: return 0; case 1: return 1; case 2: return rng.below(2); default: return (long)r->bytes > pol.eager_limit; }
        });
        m->eager = !rdv;
        if (rdv) { ++st.rendezvous; m->sreq = r; }
        else { ++st.eager; m->data.assign((char*)r->buf, r->bytes); r->complete = true; }
        uint64_t l = latency(r->bytes, m->src, m->dst);
        Key k{m->src, m->dst, m->tag, m->comm};
        Chan& c = chans[k];
        m->arrive = std::max(now_ns + l, c.last_arrive);
        c.last_arrive = m->arrive;
        c.q.push_back(m);
        if (m->arrive > now_ns) { ++st.delayed; at(m->arrive, [k] { try_match(k); }); }
        else try_match(k);
    } else {
        static const bool poison = cfg.num("poison", 1);
        if (poison && r->bytes && r->type == MPI_DOUBLE) {
            double nan = std::nan("0x5151");
            for (size_t i = 0; i + 8 <= r->bytes; i += 8) memcpy((char*)r->buf + i, &nan, 8);
            ++st.poisoned;
        }
        Key k{r->peer, r->rank, r->tag, r->comm};
        chans[k].recvs.push_back(r);
        try_match(k);
    }
}
static sim_mpi_request* make(bool send, bool persistent, const void* buf, int n, int t, int peer, int tag, int comm) {
    auto* r = new sim_mpi_request;
    r->send = send; r->persistent = persistent; r->buf = const_cast<void*>(buf); r->elem = type_size(t); r->bytes = r->elem * (size_t)n; r->type = t;
    r->rank = world_rank(); r->peer = peer; r->tag = tag; r->comm = comm;
    if (n < 0) { usage("negative count"); finish("mpi-error", "negative count", 2); }
    if (comm == MPI_COMM_SELF) { usage("point-to-point on MPI_COMM_SELF unsupported"); }
    if (peer == MPI_ANY_SOURCE || (!send && tag == MPI_ANY_TAG)) { fprintf(stderr, "wildcards unsupported\n"); _exit(3); }
    all_reqs.push_back(r);
    return r;
}
static void retire(MPI_Request* rq, MPI_Status* s) {
    sim_mpi_request* r = *rq;
    if (!r) return;
    if (r->active && r->send && r->bytes && memcmp(r->snap.data(), r->buf, r->bytes))
        violation("mpi-buffer", "rank " + std::to_string(r->rank) + " modified the buffer of a send to rank " + std::to_string(r->peer) + " tag " + std::to_string(r->tag) +
                                    " between its start and its completion");
    if (s) { s->MPI_SOURCE = r->peer; s->MPI_TAG = r->tag; s->MPI_ERROR = 0; s->count_ = r->got; }
    if (r->active) {
        hb_join(cur, r->mvc);
        if (r->send == false) {
            // the transfer wrote the receive buffer on behalf of this rank: order it before the waiter, conflict with others
            if (race_on) race_access((uintptr_t)r->buf, r->bytes, true, (uintptr_t)__builtin_return_address(0));
        }
    }
    r->active = false;
    if (!r->persistent) { r->magic = 0; *rq = nullptr; }
}
static void check_req(sim_mpi_request* r) {
    if (r && r->magic != 0x51e9) { usage("wait on an invalid request"); finish("mpi-error", "invalid request", 19); }
}
std::string mpi_state() {
    std::string s;
    for (auto& c : chans) {
        if (c.second.q.empty() && c.second.recvs.empty()) continue;
        if (s.size() > 1500) { s += "..."; break; }
        s += "channel " + std::to_string(std::get<0>(c.first)) + "->" + std::to_string(std::get<1>(c.first)) + " tag " + std::to_string(std::get<2>(c.first)) + ": " +
             std::to_string(c.second.q.size()) + " unreceived, " + std::to_string(c.second.recvs.size()) + " receives pending; ";
    }
    return s;
}
std::string leftover_check() {
    std::string s = mpi_state();
    for (auto* r : all_reqs)
        if (r->magic == 0x51e9 && r->active) {
            s += "request of rank " + std::to_string(r->rank) + (r->send ? " send to " : " receive from ") + std::to_string(r->peer) + " tag " + std::to_string(r->tag) + " never completed; ";
            break;
        }
    return s;
}

std::shared_ptr<CollInst> collective(int comm, const char* name, const std::string& sig, const std::string& contrib, Leave leave, int root,
                                     const std::function<void(CollInst&)>& on_complete) {
    HostGuard g;
    check_live(name);
    int P = world_size(), me = world_rank();
    if (comm == MPI_COMM_SELF) {
        auto in = std::make_shared<CollInst>();
        in->sig = sig; in->contrib.assign(1, contrib); in->joined.assign(1, 1); in->njoined = 1;
        if (on_complete) on_complete(*in);
        in->ran = true;
        return in;
    }
    if (comm == MPI_COMM_NULL) { usage("collective on a null communicator"); finish("mpi-error", "null communicator", 5); }
    auto& busy = rank_coll[{comm, me}];
    if (busy.first) {
        usage(std::string(name) + " called by two threads of one rank at the same time on one communicator");
    }
    CommSt& cs = comms[comm];
    if (cs.seq.empty()) cs.seq.assign(P, 0);
    uint64_t n = cs.seq[me]++;
    while (cs.base + cs.inst.size() <= n) {
        auto in = std::make_shared<CollInst>();
        in->contrib.resize(P); in->joined.assign(P, 0); in->vcs.resize(P);
        cs.inst.push_back(in);
    }
    auto in = cs.inst[n - cs.base];
    std::string full = std::string(name) + ":" + sig;
    if (in->sig.empty()) in->sig = full;
    else if (in->sig != full) {
        violation("mpi-usage", "collective mismatch: rank " + std::to_string(me) + " called " + full + " while another rank called " + in->sig);
        finish("mpi-error", "collective mismatch", 1);
    }
    in->contrib[me] = contrib;
    in->joined[me] = 1;
    in->vcs[me] = hb_snapshot(cur);
    ++st.colls;
    join_event(n * 131 + me);
    if (++in->njoined == P) {
        if (on_complete) on_complete(*in);
        in->ran = true;
    }
    while (!cs.inst.empty() && cs.inst.front()->ran && cs.base < n) { cs.inst.pop_front(); ++cs.base; }
    Leave l = leave;
    if (l != LEAVE_ALL) {
        bool sync = choose_raw(K_COLL, [] { return rng.unit() < pol.p_coll_sync ? 1 : 0; });
        if (sync) { l = LEAVE_ALL; ++st.coll_sync; } else ++st.coll_early;
    }
    busy = {true, cur->id};
    auto* p = in.get();
    if (l == LEAVE_ALL) block(name, [p] { return p->ran; });
    else if (l == LEAVE_ROOT) block(name, [p, root] { return p->joined[root] != 0; });
    else yield(name);
    rank_coll[{comm, me}].first = false;
    for (int r = 0; r < P; ++r)
        if (r == me || l == LEAVE_ALL || (l == LEAVE_ROOT && r == root)) hb_join(cur, in->vcs[r]);
    return in;
}
}

#define API extern "C" __attribute__((visibility("default")))
static std::string bytes_of(const void* p, size_t n) { return n ? std::string((const char*)p, n) : std::string(); }
static void rd(const void* p, size_t n) { if (race_on && n) race_access((uintptr_t)p, n, false, (uintptr_t)__builtin_return_address(0)); }
static void wr(const void* p, size_t n) { if (race_on && n) race_access((uintptr_t)p, n, true, (uintptr_t)__builtin_return_address(0)); }

API int MPI_Init_thread(int*, char***, int req, int* prov) {
    HostGuard g;
    if ((int)inited.size() < world_size()) { inited.resize(world_size()); finalized.resize(world_size()); }
    if (inited[world_rank()]++) usage("MPI_Init called twice");
    if (prov) *prov = (int)cfg.num("thread_level", req);
    yield("MPI_Init");
    return 0;
}
API int MPI_Init(int* a, char*** b) { int p; return MPI_Init_thread(a, b, 0, &p); }
API int MPI_Initialized(int* f) { *f = !inited.empty() && inited[world_rank()]; return 0; }
API int MPI_Finalized(int* f) { *f = !finalized.empty() && finalized[world_rank()]; return 0; }
API int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
API int MPI_Finalize() {
    collective(MPI_COMM_WORLD, "MPI_Finalize", "", "", LEAVE_ALL, 0);
    finalized[world_rank()] = 1;
    return 0;
}
API int MPI_Abort(MPI_Comm, int code) { finish("abort", "MPI_Abort by rank " + std::to_string(world_rank()), code); }
API int MPI_Comm_rank(MPI_Comm c, int* r) { check_live("MPI_Comm_rank"); *r = c == MPI_COMM_SELF ? 0 : world_rank(); return 0; }
API int MPI_Comm_size(MPI_Comm c, int* n) { check_live("MPI_Comm_size"); *n = c == MPI_COMM_SELF ? 1 : world_size(); return 0; }
API int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
    static int next = 100;
    auto in = collective(c, "MPI_Comm_dup", "", "", LEAVE_ALL, 0, [](CollInst& i) { i.result = std::to_string(next++); });
    *n = std::stoi(in->result);
    return 0;
}
API int MPI_Comm_free(MPI_Comm* c) { *c = 0; return 0; }
API double MPI_Wtime() { return now_ns * 1e-9; }
API int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
API int MPI_Type_size(MPI_Datatype t, int* s) { *s = type_size(t); return 0; }

API int MPI_Send_init(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; check_live("MPI_Send_init"); *r = make(true, true, b, n, t, p, tag, c); return 0; }
API int MPI_Ssend_init(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; *r = make(true, true, b, n, t, p, tag, c); (*r)->sync = true; return 0; }
API int MPI_Recv_init(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; check_live("MPI_Recv_init"); *r = make(false, true, b, n, t, p, tag, c); return 0; }
static void start_checked(MPI_Request* r) {
    if (!*r) { usage("MPI_Start on MPI_REQUEST_NULL"); finish("mpi-error", "null request", 19); }
    if ((*r)->send) rd((*r)->buf, (*r)->bytes); else wr((*r)->buf, (*r)->bytes);
    start(*r);
}
API int MPI_Start(MPI_Request* r) { HostGuard g; check_live("MPI_Start"); start_checked(r); yield("MPI_Start"); return 0; }
API int MPI_Startall(int n, MPI_Request* r) {
    HostGuard g; check_live("MPI_Startall");
    for (int i = 0; i < n; ++i) start_checked(&r[i]);
    yield("MPI_Startall");
    return 0;
}
API int MPI_Isend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; *r = make(true, false, b, n, t, p, tag, c); start_checked(r); yield("MPI_Isend"); return 0; }
API int MPI_Irecv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; *r = make(false, false, b, n, t, p, tag, c); start_checked(r); yield("MPI_Irecv"); return 0; }
API int MPI_Wait(MPI_Request* r, MPI_Status* s) {
    HostGuard g; check_live("MPI_Wait");
    check_req(*r);
    auto* q = *r;
    if (q && q->active) block("MPI_Wait", [q] { return q->complete; });
    retire(r, s);
    return 0;
}
API int MPI_Send(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, p, tag, c, &r); return MPI_Wait(&r, nullptr); }
API int MPI_Ssend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { HostGuard g; MPI_Request r = make(true, false, b, n, t, p, tag, c); r->sync = true; start_checked(&r); return MPI_Wait(&r, nullptr); }
API int MPI_Recv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status* s) { MPI_Request r; MPI_Irecv(b, n, t, p, tag, c, &r); return MPI_Wait(&r, s); }
API int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s) {
    MPI_Request a, b;
    MPI_Irecv(rb, rn, rt, src, rtag, c, &a);
    MPI_Isend(sb, sn, stt, dst, stag, c, &b);
    MPI_Wait(&a, s);
    return MPI_Wait(&b, nullptr);
}
API int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) {
    HostGuard g; check_live("MPI_Waitall");
    for (int i = 0; i < n; ++i) check_req(r[i]);
    std::vector<sim_mpi_request*> v(r, r + n);
    const char* where = n && v[0] && !v[0]->send ? "MPI_Waitall(recv)" : "MPI_Waitall(send)";
    auto pred = [v] { for (auto* q : v) if (q && q->active && !q->complete) return false; return true; };
    block(where, pred);
    for (int i = 0; i < n; ++i) retire(&r[i], s ? &s[i] : nullptr);
    return 0;
}
API int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s) {
    HostGuard g;
    bool any = false;
    for (int i = 0; i < n; ++i) any |= r[i] && r[i]->active;
    if (!any) { *idx = MPI_UNDEFINED; return 0; }
    std::vector<sim_mpi_request*> v(r, r + n);
    block("MPI_Waitany", [v] { for (auto* q : v) if (q && q->active && q->complete) return true; return false; });
    for (int i = 0; i < n; ++i) if (r[i] && r[i]->active && r[i]->complete) { *idx = i; retire(&r[i], s); break; }
    return 0;
}
API int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) {
    HostGuard g; check_req(*r);
    yield("MPI_Test");
    auto* q = *r;
    *f = !q || !q->active || q->complete;
    if (*f) retire(r, s); else now_ns += 10000;
    return 0;
}
API int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) {
    HostGuard g;
    yield("MPI_Testall");
    *f = 1;
    for (int i = 0; i < n; ++i) if (r[i] && r[i]->active && !r[i]->complete) *f = 0;
    if (*f) for (int i = 0; i < n; ++i) retire(&r[i], s ? &s[i] : nullptr); else now_ns += 10000;
    return 0;
}
API int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* s) {
    HostGuard g;
    yield("MPI_Testany");
    bool any = false;
    *f = 0; *idx = MPI_UNDEFINED;
    for (int i = 0; i < n && !*f; ++i)
        if (r[i] && r[i]->active) { any = true; if (r[i]->complete) { *f = 1; *idx = i; retire(&r[i], s); } }
    if (!any) *f = 1;
    if (!*f) now_ns += 10000;
    return 0;
}
static int some(int n, MPI_Request* r, int* count, int* idx, MPI_Status* s) {
    bool any = false;
    for (int i = 0; i < n; ++i) any |= r[i] && r[i]->active;
    *count = any ? 0 : MPI_UNDEFINED;
    for (int i = 0; any && i < n; ++i)
        if (r[i] && r[i]->active && r[i]->complete) { idx[*count] = i; retire(&r[i], s ? &s[*count] : nullptr); ++*count; }
    return 0;
}
API int MPI_Waitsome(int n, MPI_Request* r, int* count, int* idx, MPI_Status* s) {
    HostGuard g;
    bool any = false;
    for (int i = 0; i < n; ++i) any |= r[i] && r[i]->active;
    std::vector<sim_mpi_request*> v(r, r + n);
    if (any) block("MPI_Waitsome", [v] { for (auto* q : v) if (q && q->active && q->complete) return true; return false; });
    return some(n, r, count, idx, s);
}
API int MPI_Testsome(int n, MPI_Request* r, int* count, int* idx, MPI_Status* s) {
    HostGuard g;
    yield("MPI_Testsome");
    some(n, r, count, idx, s);
    if (*count == 0) now_ns += 10000;
    return 0;
}
API int MPI_Issend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { HostGuard g; *r = make(true, false, b, n, t, p, tag, c); (*r)->sync = true; start_checked(r); yield("MPI_Issend"); return 0; }
API int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* s) {
    std::string copy = bytes_of(b, n * type_size(t));
    return MPI_Sendrecv(copy.data(), n, t, dst, stag, b, n, t, src, rtag, c, s);
}
API int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }  // errors end the job
API int MPI_Error_string(int code, char* s, int* n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", code); return 0; }
API int MPI_Request_free(MPI_Request* r) { if (*r && (*r)->active) usage("MPI_Request_free on an active request"); if (*r) (*r)->magic = 0; *r = nullptr; return 0; }
API int MPI_Cancel(MPI_Request*) { usage("MPI_Cancel unsupported"); return 0; }
API int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->count_ / type_size(t); return 0; }

API int MPI_Barrier(MPI_Comm c) { collective(c, "MPI_Barrier", "", "", LEAVE_ALL, 0); return 0; }
API int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    HostGuard g;
    size_t z = n * type_size(t);
    bool am = world_rank() == root || c == MPI_COMM_SELF;
    if (am) rd(b, z);
    auto in = collective(c, "MPI_Bcast", std::to_string(root) + "/" + std::to_string(z), am ? bytes_of(b, z) : "", am ? LEAVE_NOW : LEAVE_ROOT, root);
    if (!am) { wr(b, z); memcpy(b, in->contrib[root].data(), z); }
    return 0;
}
API int MPI_Gather(const void* sb, int sn, MPI_Datatype stt, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    HostGuard g;
    size_t z = sn * type_size(stt);
    bool am = world_rank() == root || c == MPI_COMM_SELF;
    if (sb == MPI_IN_PLACE) { sb = (char*)rb + world_rank() * rn * type_size(rt); z = rn * type_size(rt); }
    rd(sb, z);
    auto in = collective(c, "MPI_Gather", std::to_string(root) + "/" + std::to_string(z), bytes_of(sb, z), am ? LEAVE_ALL : LEAVE_NOW, root);
    if (am) {
        size_t rz = rn * type_size(rt);
        if (rz < z) usage("MPI_Gather receive count too small");
        for (size_t i = 0; i < in->contrib.size(); ++i) { wr((char*)rb + i * rz, z); memcpy((char*)rb + i * rz, in->contrib[i].data(), z); }
    }
    return 0;
}
API int MPI_Scatter(const void* sb, int sn, MPI_Datatype stt, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    HostGuard g;
    size_t z = rn * type_size(rt);
    bool am = world_rank() == root || c == MPI_COMM_SELF;
    int P = c == MPI_COMM_SELF ? 1 : world_size();
    if (am) { rd(sb, P * sn * type_size(stt)); if (sn * type_size(stt) != z) usage("MPI_Scatter send and receive sizes differ"); }
    auto in = collective(c, "MPI_Scatter", std::to_string(root) + "/" + std::to_string(z), am ? bytes_of(sb, P * z) : "", am ? LEAVE_NOW : LEAVE_ROOT, root);
    wr(rb, z);
    memcpy(rb, in->contrib[c == MPI_COMM_SELF ? 0 : root].data() + (c == MPI_COMM_SELF ? 0 : world_rank()) * z, z);
    return 0;
}
API int MPI_Allgather(const void* sb, int sn, MPI_Datatype stt, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) {
    HostGuard g;
    size_t z = sn * type_size(stt);
    if (sb == MPI_IN_PLACE) { z = rn * type_size(rt); sb = (char*)rb + world_rank() * z; }
    auto in = collective(c, "MPI_Allgather", std::to_string(z), bytes_of(sb, z), LEAVE_ALL, 0);
    for (size_t i = 0; i < in->contrib.size(); ++i) memcpy((char*)rb + i * z, in->contrib[i].data(), z);
    return 0;
}
API int MPI_Gatherv(const void* sb, int sn, MPI_Datatype stt, void* rb, const int* rn, const int* at, MPI_Datatype rt, int root, MPI_Comm c) {
    HostGuard g;
    bool am = world_rank() == root || c == MPI_COMM_SELF;
    size_t u = type_size(rt), z = sn * type_size(stt);
    if (sb == MPI_IN_PLACE) { sb = (char*)rb + at[world_rank()] * u; z = rn[world_rank()] * u; }
    rd(sb, z);
    auto in = collective(c, "MPI_Gatherv", std::to_string(root), bytes_of(sb, z), am ? LEAVE_ALL : LEAVE_NOW, root);
    for (size_t i = 0; am && i < in->contrib.size(); ++i) {
        auto& b = in->contrib[i];
        if (rn[i] * u < b.size()) { usage("MPI_Gatherv receive count too small"); continue; }
        wr((char*)rb + at[i] * u, b.size());
        memmove((char*)rb + at[i] * u, b.data(), b.size());
    }
    return 0;
}
API int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype stt, void* rb, const int* rn, const int* at, MPI_Datatype rt, MPI_Comm c) {
    HostGuard g;
    size_t u = type_size(rt), z = sn * type_size(stt);
    if (sb == MPI_IN_PLACE) { sb = (char*)rb + at[world_rank()] * u; z = rn[world_rank()] * u; }
    rd(sb, z);
    auto in = collective(c, "MPI_Allgatherv", "", bytes_of(sb, z), LEAVE_ALL, 0);
    for (size_t i = 0; i < in->contrib.size(); ++i) {
        auto& b = in->contrib[i];
        if (rn[i] * u < b.size()) { usage("MPI_Allgatherv receive count too small"); continue; }
        wr((char*)rb + at[i] * u, b.size());
        memmove((char*)rb + at[i] * u, b.data(), b.size());
    }
    return 0;
}
API int MPI_Scatterv(const void* sb, const int* sn, const int* at, MPI_Datatype stt, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    HostGuard g;
    bool am = world_rank() == root || c == MPI_COMM_SELF;
    size_t u = type_size(stt), z = rn * type_size(rt);
    int P = c == MPI_COMM_SELF ? 1 : world_size();
    std::string all;  // length and bytes for each
    for (int i = 0; am && i < P; ++i) {
        rd((const char*)sb + at[i] * u, sn[i] * u);
        uint64_t n = sn[i] * u;
        all.append((const char*)&n, 8).append((const char*)sb + at[i] * u, n);
    }
    auto in = collective(c, "MPI_Scatterv", std::to_string(root), all, am ? LEAVE_NOW : LEAVE_ROOT, root);
    const std::string& b = in->contrib[c == MPI_COMM_SELF ? 0 : root];
    size_t o = 0;
    uint64_t n = 0;
    for (int i = 0; i <= (c == MPI_COMM_SELF ? 0 : world_rank()); ++i) { o += i ? n + 8 : 0; memcpy(&n, b.data() + o, 8); }
    if (n > z) usage("MPI_Scatterv receive count too small");
    else if (rb != MPI_IN_PLACE) { wr(rb, n); memcpy(rb, b.data() + o + 8, n); }
    return 0;
}
API int MPI_Alltoall(const void* sb, int sn, MPI_Datatype stt, void* rb, int, MPI_Datatype, MPI_Comm c) {
    HostGuard g;
    size_t z = sn * type_size(stt);
    int P = c == MPI_COMM_SELF ? 1 : world_size();
    auto in = collective(c, "MPI_Alltoall", std::to_string(z), bytes_of(sb, P * z), LEAVE_ALL, 0);
    int me = c == MPI_COMM_SELF ? 0 : world_rank();
    for (int i = 0; i < P; ++i) memcpy((char*)rb + i * z, in->contrib[i].data() + me * z, z);
    return 0;
}
template <class T>
static void red(T* a, const T* b, int n, MPI_Op op) {
    for (int i = 0; i < n; ++i) switch (op) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
        case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
        case MPI_LAND: a[i] = a[i] && b[i]; break;
        case MPI_LOR: a[i] = a[i] || b[i]; break;
        case MPI_BAND: a[i] = (T)((unsigned long long)a[i] & (unsigned long long)b[i]); break;
        case MPI_BOR: a[i] = (T)((unsigned long long)a[i] | (unsigned long long)b[i]); break;
    }
}
static void reduce_bytes(std::string& acc, const std::string& x, int n, MPI_Datatype t, MPI_Op op) {
    void* a = &acc[0]; const void* b = x.data();
    switch (t) {
        case MPI_DOUBLE: red((double*)a, (const double*)b, n, op); break;
        case MPI_FLOAT: red((float*)a, (const float*)b, n, op); break;
        case MPI_INT: case MPI_INT32_T: red((int*)a, (const int*)b, n, op); break;
        case MPI_UNSIGNED: case MPI_UINT32_T: red((unsigned*)a, (const unsigned*)b, n, op); break;
        case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red((long*)a, (const long*)b, n, op); break;
        case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red((unsigned long*)a, (const unsigned long*)b, n, op); break;
        default: red((unsigned char*)a, (const unsigned char*)b, n, op); break;
    }
}
static std::string fold(CollInst& in, int n, MPI_Datatype t, MPI_Op op, int upto) {
    std::string acc = in.contrib[0];
    for (int i = 1; i < upto; ++i) reduce_bytes(acc, in.contrib[i], n, t, op);
    return acc;
}
static int reduce_impl(const char* name, const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    HostGuard g;
    size_t z = n * type_size(t);
    bool am = root < 0 || world_rank() == root || c == MPI_COMM_SELF;
    if (sb == MPI_IN_PLACE) sb = rb;
    rd(sb, z);
    auto in = collective(c, name, std::to_string(root) + "/" + std::to_string(n) + "/" + std::to_string(t) + "/" + std::to_string(op), bytes_of(sb, z), am ? LEAVE_ALL : LEAVE_NOW, root < 0 ? 0 : root);
    if (am) { wr(rb, z); std::string r = fold(*in, n, t, op, in->contrib.size()); memcpy(rb, r.data(), z); }
    return 0;
}
API int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_impl("MPI_Reduce", s, r, n, t, op, root, c); }
API int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_impl("MPI_Allreduce", s, r, n, t, op, -1, c); }
API int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    HostGuard g;
    size_t z = n * type_size(t);
    auto in = collective(c, "MPI_Scan", std::to_string(n), bytes_of(sb == MPI_IN_PLACE ? rb : sb, z), LEAVE_ALL, 0);
    std::string r = fold(*in, n, t, op, c == MPI_COMM_SELF ? 1 : world_rank() + 1);
    memcpy(rb, r.data(), z);
    return 0;
}
API int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    HostGuard g;
    size_t z = n * type_size(t);
    auto in = collective(c, "MPI_Exscan", std::to_string(n), bytes_of(sb == MPI_IN_PLACE ? rb : sb, z), LEAVE_ALL, 0);
    if (c != MPI_COMM_SELF && world_rank() > 0) { std::string r = fold(*in, n, t, op, world_rank()); memcpy(rb, r.data(), z); }
    return 0;
}
