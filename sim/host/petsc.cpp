// Simulated PETSc (distributed vectors, matrices, index scatters, direct solve) and METIS.
#include "mpi.h_internal.h"
#include "../include/petscksp.h"
#include "../include/metis.h"
#include <Eigen/Sparse>
#include <Eigen/SparseLU>
#include <cmath>
#include <cstring>
#include <unordered_map>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))

static std::vector<int> pinit;
static std::vector<int> stage_depth;
static void usage(const std::string& t) { violation("petsc-usage", "rank " + std::to_string(world_rank()) + ": " + t); }
static void rd(const void* p, size_t n) { if (race_on && n) race_access((uintptr_t)p, n, false, (uintptr_t)__builtin_return_address(0)); }
static void live() { if (pinit.empty() || !pinit[world_rank()]) usage("PETSc call outside PetscInitialize/PetscFinalize"); }

struct Layout { std::vector<int> off; int n() const { return off.back(); } };
static Layout layout_from(const std::vector<int>& loc) { Layout l; l.off.push_back(0); for (int x : loc) l.off.push_back(l.off.back() + x); return l; }
// every rank contributes (local, global); PETSC_DECIDE resolves the other
static Layout resolve(const char* name, int comm, int local, int global) {
    int P = world_size(), me = world_rank();
    if (local == PETSC_DECIDE) {
        if (global == PETSC_DECIDE) { usage("both sizes PETSC_DECIDE"); global = 0; }
        local = global / P + (global % P > me);
    }
    std::string c((char*)&local, 4); c.append((char*)&global, 4);
    auto in = collective(comm, name, "", c, LEAVE_ALL, 0);
    std::vector<int> loc(P);
    int g0 = 0;
    for (int r = 0; r < P; ++r) { memcpy(&loc[r], in->contrib[r].data(), 4); int g; memcpy(&g, in->contrib[r].data() + 4, 4); if (r == 0) g0 = g; else if (g != g0) usage(std::string(name) + ": ranks disagree on the global size"); }
    Layout l = layout_from(loc);
    if (global != PETSC_DECIDE && l.n() != global) { usage(std::string(name) + ": local sizes sum to " + std::to_string(l.n()) + ", global size is " + std::to_string(global)); finish("petsc-error", "sizes", 60); }
    return l;
}
struct Entry { int r, c; double v; };
struct VecShared { std::vector<double> a; };
struct sim_vec {
    bool mpi = false; Layout lay; int bs = 1, rank = 0;
    std::shared_ptr<VecShared> sh;
    std::vector<Entry> stash; int mode = 0; bool dirty = false;
    double* base() { return sh->a.data() + (mpi ? lay.off[rank] : 0); }
    int nloc() { return mpi ? lay.off[rank + 1] - lay.off[rank] : (int)sh->a.size(); }
};
struct MatShared { std::map<std::pair<int, int>, double> e; bool frozen = false; };
struct sim_mat {
    Layout lay; int bs = 1, rank = 0; bool sized = false, assembled = false, dirty = false, frozen = false;
    std::shared_ptr<MatShared> sh; std::vector<Entry> stash; int mode = 0;
};
struct sim_is { std::vector<int> ix; };
struct sim_pc { std::string type; };
struct sim_ksp { Mat a = nullptr; sim_pc pc; };
struct sim_scatter { std::vector<int> from, to; std::shared_ptr<CollInst> pending; Vec src = nullptr; };

API PetscErrorCode PetscInitialize(int*, char***, const char*, const char*) {
    HostGuard g;
    if (pinit.empty()) { pinit.resize(world_size()); stage_depth.resize(world_size()); }
    collective(MPI_COMM_WORLD, "PetscInitialize", "", "", LEAVE_ALL, 0);
    pinit[world_rank()] = 1;
    return 0;
}
API PetscErrorCode PetscFinalize() { HostGuard g; live(); collective(MPI_COMM_WORLD, "PetscFinalize", "", "", LEAVE_ALL, 0); pinit[world_rank()] = 0; return 0; }
API PetscErrorCode PetscLogStageRegister(const char*, PetscLogStage* s) { static int n = 1; *s = n++; return 0; }
API PetscErrorCode PetscLogStagePush(PetscLogStage) { HostGuard g; live(); ++stage_depth[world_rank()]; return 0; }
API PetscErrorCode PetscLogStagePop() { HostGuard g; live(); if (--stage_depth[world_rank()] < 0) usage("PetscLogStagePop without push"); return 0; }

API PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt* ix, PetscCopyMode, IS* is) { HostGuard g; live(); rd(ix, n * 4); *is = new sim_is; (*is)->ix.assign(ix, ix + n); return 0; }
API PetscErrorCode ISCreateBlock(MPI_Comm, PetscInt bs, PetscInt n, const PetscInt* ix, PetscCopyMode, IS* is) {
    HostGuard g; live(); rd(ix, n * 4);
    *is = new sim_is;
    for (int i = 0; i < n; ++i) for (int b = 0; b < bs; ++b) (*is)->ix.push_back(ix[i] * bs + b);
    return 0;
}
API PetscErrorCode ISCreateStride(MPI_Comm, PetscInt n, PetscInt first, PetscInt step, IS* is) { HostGuard g; live(); *is = new sim_is; for (int i = 0; i < n; ++i) (*is)->ix.push_back(first + i * step); return 0; }
API PetscErrorCode ISDestroy(IS* is) { HostGuard g; if (!*is) return 0; delete *is; *is = nullptr; return 0; }

API PetscErrorCode VecCreateMPI(MPI_Comm c, PetscInt n, PetscInt N, Vec* v) {
    HostGuard g; live();
    Vec x = new sim_vec; x->mpi = true; x->rank = world_rank(); x->lay = resolve("VecCreateMPI", c, n, N);
    int total = x->lay.n();
    auto in = collective(c, "VecCreateMPI/storage", "", "", LEAVE_ALL, 0, [total](CollInst& i) { auto s = std::make_shared<VecShared>(); s->a.assign(total, 0.0); i.obj = s; });
    x->sh = std::static_pointer_cast<VecShared>(in->obj);
    *v = x;
    return 0;
}
API PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec* v) { HostGuard g; live(); Vec x = new sim_vec; x->sh = std::make_shared<VecShared>(); x->sh->a.assign(n, 0.0); x->sh->a.reserve(n + 1); *v = x; return 0; }
API PetscErrorCode VecSetBlockSize(Vec v, PetscInt bs) { HostGuard g; v->bs = bs; if (v->nloc() % bs) usage("local vector size is not a multiple of the block size"); return 0; }
API PetscErrorCode VecDestroy(Vec* v) { HostGuard g; if (!*v) return 0; if ((*v)->mpi) collective(MPI_COMM_WORLD, "VecDestroy", "", "", LEAVE_NOW, 0); delete *v; *v = nullptr; return 0; }
API PetscErrorCode VecSet(Vec v, PetscScalar s) { HostGuard g; live(); double* b = v->base(); for (int i = 0; i < v->nloc(); ++i) b[i] = s; return 0; }
API PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0.0); }
static int vec_set(Vec v, int n, const int* ix, const double* val, int mode, int bs) {
    HostGuard g; live();
    rd(ix, n * 4); rd(val, (size_t)n * bs * 8);
    if (v->mode && v->mode != mode) usage("mixing INSERT_VALUES and ADD_VALUES before assembly");
    v->mode = mode; v->dirty = true;
    int N = v->mpi ? v->lay.n() : (int)v->sh->a.size();
    for (int i = 0; i < n; ++i) {
        if (ix[i] < 0) continue;
        for (int b = 0; b < bs; ++b) {
            int r = ix[i] * bs + b;
            if (r >= N) { usage("vector index " + std::to_string(r) + " out of range " + std::to_string(N)); finish("petsc-error", "index out of range", 63); }
            v->stash.push_back({r, 0, val[i * bs + b]});
        }
    }
    return 0;
}
API PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt* ix, const PetscScalar* val, InsertMode m) { return vec_set(v, n, ix, val, m, 1); }
API PetscErrorCode VecSetValuesBlocked(Vec v, PetscInt n, const PetscInt* ix, const PetscScalar* val, InsertMode m) { return vec_set(v, n, ix, val, m, v->bs); }
API PetscErrorCode VecAssemblyBegin(Vec) { HostGuard g; live(); yield("VecAssemblyBegin"); return 0; }
API PetscErrorCode VecAssemblyEnd(Vec v) {
    HostGuard g; live();
    std::string c((char*)&v, sizeof v);
    auto apply = [](CollInst& in) {
        for (auto& s : in.contrib) {
            Vec w; memcpy(&w, s.data(), sizeof w);
            for (auto& e : w->stash) { double& d = w->sh->a[e.r]; d = w->mode == ADD_VALUES ? d + e.v : e.v; }
            w->stash.clear(); w->mode = 0; w->dirty = false;
        }
    };
    if (v->mpi) collective(MPI_COMM_WORLD, "VecAssembly", std::to_string(v->lay.n()), c, LEAVE_ALL, 0, apply);
    else { CollInst in; in.contrib.push_back(c); apply(in); }
    return 0;
}
API PetscErrorCode VecGetArray(Vec v, PetscScalar** p) { HostGuard g; live(); *p = v->base(); return 0; }
API PetscErrorCode VecRestoreArray(Vec, PetscScalar** p) { *p = nullptr; return 0; }
API PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** p) { HostGuard g; *p = v->base(); return 0; }
API PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar** p) { *p = nullptr; return 0; }
API PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { *n = v->nloc(); return 0; }
API PetscErrorCode VecGetSize(Vec v, PetscInt* n) { *n = v->mpi ? v->lay.n() : (int)v->sh->a.size(); return 0; }
API PetscErrorCode VecGetOwnershipRange(Vec v, PetscInt* a, PetscInt* b) { *a = v->mpi ? v->lay.off[v->rank] : 0; *b = *a + v->nloc(); return 0; }
API PetscErrorCode VecNorm(Vec v, NormType t, PetscReal* out) {
    HostGuard g; live();
    if (v->dirty) usage("VecNorm on an unassembled vector");
    auto part = [&](const double* b, int n) { double s = 0; for (int i = 0; i < n; ++i) s = t == NORM_2 || t == NORM_FROBENIUS ? s + b[i] * b[i] : t == NORM_1 ? s + std::fabs(b[i]) : std::max(s, std::fabs(b[i])); return s; };
    double loc = part(v->base(), v->nloc()), s = 0;
    if (v->mpi) {
        auto in = collective(MPI_COMM_WORLD, "VecNorm", std::to_string(t), std::string((char*)&loc, 8), LEAVE_ALL, 0);
        for (auto& c : in->contrib) { double x; memcpy(&x, c.data(), 8); s = t == NORM_INFINITY ? std::max(s, x) : s + x; }
    } else s = loc;
    *out = t == NORM_2 || t == NORM_FROBENIUS ? std::sqrt(s) : s;
    return 0;
}
API PetscErrorCode VecScatterCreate(Vec x, IS ix, Vec y, IS iy, VecScatter* sc) {
    HostGuard g; live();
    if (ix->ix.size() != iy->ix.size()) usage("VecScatterCreate: index sets differ in length");
    auto* s = new sim_scatter;
    s->from = ix->ix; s->to = iy->ix;
    for (int i : s->from) if (i < 0 || i >= (x->mpi ? x->lay.n() : (int)x->sh->a.size())) { usage("VecScatterCreate: source index " + std::to_string(i) + " out of range"); finish("petsc-error", "scatter index", 63); }
    for (int i : s->to) if (i < 0 || i >= (int)y->sh->a.size()) { usage("VecScatterCreate: target index out of range"); finish("petsc-error", "scatter index", 63); }
    if (x->mpi || y->mpi) collective(MPI_COMM_WORLD, "VecScatterCreate", "", "", LEAVE_ALL, 0);
    *sc = s;
    return 0;
}
API PetscErrorCode VecScatterBegin(VecScatter s, Vec x, Vec, InsertMode, ScatterMode) {
    HostGuard g; live();
    if (x->dirty) usage("VecScatter on an unassembled vector");
    s->src = x;
    if (x->mpi) s->pending = collective(MPI_COMM_WORLD, "VecScatter", std::to_string(x->lay.n()), std::string((char*)x->base(), 8 * (size_t)x->nloc()), LEAVE_NOW, 0);
    return 0;
}
API PetscErrorCode VecScatterEnd(VecScatter s, Vec x, Vec y, InsertMode m, ScatterMode) {
    HostGuard g; live();
    if (s->src != x) { usage("VecScatterEnd without matching begin"); return 1; }
    std::vector<double> all;
    if (x->mpi) {
        auto in = s->pending;
        auto* p = in.get();
        block("VecScatterEnd", [p] { return p->ran; });
        for (auto& v : in->vcs) hb_join(cur, v);
        for (auto& c : in->contrib) { size_t n = all.size(); all.resize(n + c.size() / 8); if (c.size()) memcpy(&all[n], c.data(), c.size()); }
    } else all = x->sh->a;
    for (size_t i = 0; i < s->from.size(); ++i) { double& d = y->base()[s->to[i]]; d = m == ADD_VALUES ? d + all[s->from[i]] : all[s->from[i]]; }
    s->pending.reset(); s->src = nullptr;
    return 0;
}
API PetscErrorCode VecScatterDestroy(VecScatter* s) { HostGuard g; if (!*s) return 0; delete *s; *s = nullptr; return 0; }

static void mat_storage(Mat m) {
    auto in = collective(MPI_COMM_WORLD, "MatStorage", std::to_string(m->lay.n()), "", LEAVE_ALL, 0, [](CollInst& i) { i.obj = std::make_shared<MatShared>(); });
    m->sh = std::static_pointer_cast<MatShared>(in->obj);
}
API PetscErrorCode MatCreate(MPI_Comm, Mat* m) { HostGuard g; live(); *m = new sim_mat; (*m)->rank = world_rank(); return 0; }
API PetscErrorCode MatSetSizes(Mat m, PetscInt r, PetscInt c, PetscInt R, PetscInt C) {
    HostGuard g; live();
    if (r != c || R != C) usage("non-square matrix");
    m->lay = resolve("MatSetSizes", MPI_COMM_WORLD, r, R); m->sized = true;
    return 0;
}
API PetscErrorCode MatSetUp(Mat m) { HostGuard g; live(); if (!m->sized) usage("MatSetUp before MatSetSizes"); mat_storage(m); return 0; }
API PetscErrorCode MatCreateBAIJ(MPI_Comm c, PetscInt bs, PetscInt r, PetscInt, PetscInt R, PetscInt, PetscInt, const PetscInt*, PetscInt, const PetscInt*, Mat* m) {
    HostGuard g; live();
    Mat x = new sim_mat; x->rank = world_rank(); x->bs = bs;
    x->lay = resolve("MatCreateBAIJ", c, r, R);
    if ((x->lay.off[x->rank + 1] - x->lay.off[x->rank]) % bs) usage("MatCreateBAIJ: local size not a multiple of the block size");
    mat_storage(x);
    *m = x;
    return 0;
}
API PetscErrorCode MatSetOption(Mat m, MatOption o, PetscBool f) { HostGuard g; live(); if (o == MAT_NEW_NONZERO_LOCATIONS) m->frozen = !f; return 0; }
static int mat_set(Mat m, int nr, const int* ri, int nc, const int* ci, const double* v, int mode, int bs) {
    HostGuard g; live();
    rd(ri, nr * 4); rd(ci, nc * 4); rd(v, (size_t)nr * nc * bs * bs * 8);
    if (!m->sh) { usage("MatSetValues before MatSetUp"); finish("petsc-error", "matrix not set up", 73); }
    if (m->mode && m->mode != mode) usage("mixing INSERT_VALUES and ADD_VALUES before assembly");
    m->mode = mode; m->dirty = true;
    int N = m->lay.n();
    for (int i = 0; i < nr; ++i) for (int a = 0; a < bs; ++a) for (int j = 0; j < nc; ++j) for (int b = 0; b < bs; ++b) {
        if (ri[i] < 0 || ci[j] < 0) continue;
        int r = ri[i] * bs + a, c = ci[j] * bs + b;
        if (r >= N || c >= N) { usage("matrix index (" + std::to_string(r) + "," + std::to_string(c) + ") out of range " + std::to_string(N)); finish("petsc-error", "index out of range", 63); }
        m->stash.push_back({r, c, v[((size_t)(i * bs + a)) * nc * bs + j * bs + b]});
    }
    return 0;
}
API PetscErrorCode MatSetValues(Mat m, PetscInt nr, const PetscInt* ri, PetscInt nc, const PetscInt* ci, const PetscScalar* v, InsertMode mode) { return mat_set(m, nr, ri, nc, ci, v, mode, 1); }
API PetscErrorCode MatSetValuesBlocked(Mat m, PetscInt nr, const PetscInt* ri, PetscInt nc, const PetscInt* ci, const PetscScalar* v, InsertMode mode) { return mat_set(m, nr, ri, nc, ci, v, mode, m->bs); }
API PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { HostGuard g; live(); yield("MatAssemblyBegin"); return 0; }
API PetscErrorCode MatAssemblyEnd(Mat m, MatAssemblyType) {
    HostGuard g; live();
    collective(MPI_COMM_WORLD, "MatAssembly", std::to_string(m->lay.n()), std::string((char*)&m, sizeof m), LEAVE_ALL, 0, [](CollInst& in) {
        for (auto& s : in.contrib) {
            Mat w; memcpy(&w, s.data(), sizeof w);
            for (auto& e : w->stash) {
                auto it = w->sh->e.find({e.r, e.c});
                if (it == w->sh->e.end()) { if (w->frozen) continue; it = w->sh->e.emplace(std::make_pair(e.r, e.c), 0.0).first; }
                it->second = w->mode == ADD_VALUES ? it->second + e.v : e.v;
            }
            w->stash.clear(); w->mode = 0; w->dirty = false; w->assembled = true;
        }
    });
    return 0;
}
API PetscErrorCode MatZeroEntries(Mat m) {
    HostGuard g; live();
    collective(MPI_COMM_WORLD, "MatZeroEntries", "", std::string((char*)&m, sizeof m), LEAVE_ALL, 0, [](CollInst& in) {
        Mat w; memcpy(&w, in.contrib[0].data(), sizeof w);
        for (auto& e : w->sh->e) e.second = 0.0;
    });
    return 0;
}
API PetscErrorCode MatDestroy(Mat* m) { HostGuard g; if (!*m) return 0; collective(MPI_COMM_WORLD, "MatDestroy", "", "", LEAVE_NOW, 0); delete *m; *m = nullptr; return 0; }
API PetscErrorCode KSPCreate(MPI_Comm, KSP* k) { HostGuard g; live(); *k = new sim_ksp; return 0; }
API PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat) { HostGuard g; live(); k->a = a; return 0; }
API PetscErrorCode KSPGetPC(KSP k, PC* p) { HostGuard g; live(); *p = &k->pc; return 0; }
API PetscErrorCode PCSetType(PC p, PCType t) { HostGuard g; live(); p->type = t; return 0; }
API PetscErrorCode KSPDestroy(KSP* k) { HostGuard g; if (!*k) return 0; collective(MPI_COMM_WORLD, "KSPDestroy", "", "", LEAVE_NOW, 0); delete *k; *k = nullptr; return 0; }
API PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    HostGuard g; live();
    if (!k->a || k->a->dirty || !k->a->assembled) { usage("KSPSolve on an unassembled matrix"); finish("petsc-error", "matrix not assembled", 73); }
    if (b->dirty) usage("KSPSolve with an unassembled right-hand side");
    ++st.solves;
    struct T { Mat a; Vec b, x; } t{k->a, b, x};
    collective(MPI_COMM_WORLD, "KSPSolve", std::to_string(b->lay.n()), std::string((char*)&t, sizeof t), LEAVE_ALL, 0, [](CollInst& in) {
        T q; memcpy(&q, in.contrib[0].data(), sizeof q);
        int n = q.a->lay.n();
        if (n == 0) return;
        std::vector<Eigen::Triplet<double>> tr;
        for (auto& e : q.a->sh->e) tr.emplace_back(e.first.first, e.first.second, e.second);
        Eigen::SparseMatrix<double> A(n, n);
        A.setFromTriplets(tr.begin(), tr.end());
        Eigen::SparseLU<Eigen::SparseMatrix<double>> lu;
        lu.compute(A);
        Eigen::Map<Eigen::VectorXd> rhs(q.b->sh->a.data(), n);
        Eigen::VectorXd s;
        if (lu.info() != Eigen::Success) { note("singular global matrix"); s = Eigen::VectorXd::Constant(n, std::nan("")); }
        else s = lu.solve(rhs);
        for (int i = 0; i < n; ++i) q.x->sh->a[i] = s[i];
    });
    return 0;
}

// ---------------------------------------------------------------- METIS
// A valid answer is any assignment of vertices to parts. Mode 0 is a plain balanced split; other modes are
// adversarial but legal answers (unbalanced, scattered, empty parts).
API int METIS_SetDefaultOptions(idx_t* o) { for (int i = 0; i < METIS_NOPTIONS; ++i) o[i] = -1; return METIS_OK; }
static uint64_t metis_calls = 0;
API int METIS_PartGraphKway(idx_t* nv, idx_t* ncon, idx_t* xadj, idx_t* adj, idx_t* vw, idx_t*, idx_t* ew, idx_t* np, real_t*, real_t*, idx_t*, idx_t* obj, idx_t* part) {
    HostGuard g;
    (void)ncon; (void)vw; (void)ew;
    ++metis_calls;
    int64_t n = *nv, k = *np;
    static Rng mr(cfg.num("seed", 1) * 104729 + 71);  // apart from the other choices: I/O faults leave METIS's answer alone
    auto pick = [](uint64_t m) { return choose_raw(K_METIS, [m] { return mr.below(m); }); };
    for (int64_t i = 0; i < n; ++i) {
        if (xadj[i + 1] < xadj[i]) violation("metis-usage", "adjacency offsets decrease");
        for (int64_t j = xadj[i]; j < xadj[i + 1]; ++j) if (adj[j] < 0 || adj[j] >= n) violation("metis-usage", "adjacency entry out of range");
    }
    int mode = (int)pick(5);
    if (cfg.has("metis_mode")) mode = cfg.num("metis_mode");
    std::vector<int64_t> order;
    std::vector<char> seen(n, 0);
    int64_t start = mode == 0 ? 0 : (int64_t)pick(n);
    for (int64_t s0 = 0; s0 < n; ++s0) {  // breadth-first order: contiguous parts
        int64_t s = (start + s0) % n;
        if (seen[s]) continue;
        size_t h = order.size();
        order.push_back(s); seen[s] = 1;
        while (h < order.size()) { int64_t u = order[h++]; for (int64_t j = xadj[u]; j < xadj[u + 1]; ++j) if (!seen[adj[j]]) { seen[adj[j]] = 1; order.push_back(adj[j]); } }
    }
    switch (mode) {
        case 0: case 1: for (int64_t i = 0; i < n; ++i) part[order[i]] = i * k / n; break;
        case 2: for (int64_t i = 0; i < n; ++i) part[i] = (int64_t)pick(k); break;                          // scattered
        case 3: for (int64_t i = 0; i < n; ++i) part[order[i]] = i < k ? i : (int64_t)(k - 1); break;        // very unbalanced
        default: {                                                                                          // contiguous, relabelled, uneven
            int64_t sh = (int64_t)pick(k);
            for (int64_t i = 0; i < n; ++i) part[order[i]] = ((i * i * k / (n * n)) + sh) % k;
            break;
        }
    }
    if (!cfg.num("metis_empty", 0)) {  // every part non-empty when possible
        std::vector<int64_t> cnt(k, 0);
        for (int64_t i = 0; i < n; ++i) ++cnt[part[i]];
        if (n >= k) for (int64_t p = 0; p < k; ++p) while (!cnt[p]) {
            int64_t big = std::max_element(cnt.begin(), cnt.end()) - cnt.begin();
            for (int64_t i = 0; i < n; ++i) if (part[order[i]] == big) { part[order[i]] = p; --cnt[big]; ++cnt[p]; break; }
        }
    }
    *obj = 0;
    return METIS_OK;
}
API int METIS_PartGraphRecursive(idx_t* a, idx_t* b, idx_t* c, idx_t* d, idx_t* e, idx_t* f, idx_t* g, idx_t* h, real_t* i, real_t* j, idx_t* k, idx_t* l, idx_t* m) { return METIS_PartGraphKway(a, b, c, d, e, f, g, h, i, j, k, l, m); }
