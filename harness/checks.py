"""The checks: one Prop per property id."""
import math, os, random, re, shutil, subprocess
from decimal import Decimal
from fractions import Fraction
import engine, gen
from engine import Fail, Prop, trace_opts
from pipeline import *
from meshfiles import check_partition

PROPS = {}


def prop(cls):
    p = cls()
    p.module = "checks"
    PROPS[p.id] = p
    return cls


def memory(seed):
    """Half of the single-process runs find fresh memory filled with a pattern that is a moderate number when read as one."""
    return QUIET + ([("perturb", 0x40 if seed % 4 == 1 else 0x3f), ("shuffle", seed * 2 + 1)] if seed % 2 else [])


PETSC_STUB = ["PETSc and ParMETIS-free linear algebra (simulated: distributed vectors/matrices with PETSc's assembly rules, dense LU solve)"]
METIS_STUB = ["METIS (simulated: seeded, arbitrary valid partitionings)"]


# ------------------------------------------------------------------ parallel = serial
class Equiv(Prop):
    problem = "rkdg_swe"
    tol = 1e-9
    rule = ("a case counts when the multi-process run exchanged at least one message (or had at least two threads or subdomains) and the serial solution "
            "stayed finite and changed during the run; distinct = distinct event-sequence hashes")
    stubs = engine.STUBS + METIS_STUB
    features = [{}]
    counts = {"quick": 3200, "thorough": 40000}

    def libs(self, tier):
        f = sorted({FEAT[x.get("problem", self.problem)] for x in self.features})
        return [x + "-ompi" for x in f] + [x + "-serial" for x in f] + ["part"]

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        pr = f.pop("problem", self.problem)
        return {"kind": pr + "".join(" " + k for k in sorted(f) if f[k]), "seed": seed, "scen": gen.draw(seed, pr, **f)}

    def simplify(self, case):
        return simplify_scenario()

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        serial(s, ctx, d, opts=memory(case["seed"]))
        a = modal(d, "outs", True)
        if not finite(a) or growing(s, a):
            return {"nontrivial": False}
        partition(s, ctx, d, case["seed"])
        try:
            r = parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d), converges=True)
            b = modal(d, "out", False)
            compare(a, b, self.tol, s["problem"] + (" with a barrier whose sides differ in length" if s.get("levee_bent") else ""))
        except Fail:
            if illposed(s, ctx, d, a, self.tol):
                raise Skip("the single-process run itself answers to a change of the last digits of its input")
            raise
        for c, t in r["violations"]:
            if c in ("metis-usage",):
                raise Fail(c, t)
        ts = list(a["ze"])
        return {"nontrivial": (r["msgs"] > 0 or s["parts"] > 1) and len(ts) > 1 and a["ze"][ts[0]] != a["ze"][ts[-1]]}


@prop
class D01(Equiv):
    id = "D01"
    features = [{}, {}, {"log": "verbose"}, {"ranks": 1}] * 40 + [{"many": True, "steps": 2}]


@prop
class D02(Equiv):
    id = "D02"
    problem = "ehdg_swe"


@prop
class D03(Equiv):
    id = "D03"
    problem = "ihdg_swe"
    tol = 1e-7
    counts = {"quick": 1800, "thorough": 20000}
    stubs = Equiv.stubs + PETSC_STUB


@prop
class D04(Equiv):
    id = "D04"
    problem = "ehdg_gn"
    features = [{}] * 12 + [{"meteo": True}]
    tol = 1e-7
    stubs = Equiv.stubs + PETSC_STUB


@prop
class D05(Equiv):
    id = "D05"
    tol = 1e-7
    features = [{"wd": True}, {"sl": True}, {"wd": True, "sl": True}, {"wd": True, "friction": True},
                {"problem": "ehdg_swe", "wd": True}, {"problem": "ehdg_swe", "sl": True},
                {"wd": True, "p": 2}, {"sl": True, "p": 2}, {"problem": "ehdg_swe", "sl": True, "p": 2},
                {"problem": "ehdg_swe", "wd": True, "p": 2}, {"problem": "ehdg_gn", "sl": True}, {"problem": "ehdg_gn", "wd": True},
                {"problem": "ehdg_gn", "sl": True, "lab": True}, {"sl": True, "lab": True},
                {"problem": "ehdg_swe", "sl": True, "lab": True}]
    stubs = Equiv.stubs + PETSC_STUB


@prop
class D06(Equiv):
    id = "D06"
    features = [{"levee": True}, {"levee": True}, {"levee": True, "sph": [30.0, -79.0, 200000]}, {"levee": True, "p": 2},
                {"levee": True, "wd": True}, {"levee": True, "sl": True}, {"levee": True, "friction": True}] * 6 + [{"levee": True, "levee_bent": True}]

# ------------------------------------------------------------------ schedules
ALL = ["rkdg_swe", "ehdg_swe", "ihdg_swe", "ehdg_gn"]


class Sched(Prop):
    """Runs of the parallel program only (the partitioner prepares the input)."""
    features = [{}]
    stubs = engine.STUBS + METIS_STUB + PETSC_STUB
    race = False
    counts = {"quick": 2500, "thorough": 20000}

    def libs(self, tier):
        f = sorted({FEAT[x["problem"]] for x in self.features})
        return [x + "-ompi" + ("-race" if self.race else "") for x in f] + ["part"]

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        pr = f.pop("problem")
        return {"kind": pr + "".join(" " + k for k in sorted(f) if f[k]), "seed": seed, "scen": gen.draw(seed, pr, **f)}

    def simplify(self, case):
        return simplify_scenario()


HYGIENE = ("mpi-usage", "mpi-truncate", "mpi-buffer", "mpi-leftover", "petsc-usage")


@prop
class D08(Sched):
    id = "D08"
    features = [{"problem": "rkdg_swe"}, {"problem": "rkdg_swe", "wd": True, "sl": True}, {"problem": "ehdg_swe"}, {"problem": "ihdg_swe"}, {"problem": "ehdg_gn"}]
    rule = "a case counts when ranks exchanged messages or threads met at barriers; distinct = distinct event-sequence hashes"

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        gen.write(s, d)
        partition(s, ctx, d, case["seed"], write=False)
        r = parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d) + [("max_steps", 2000000)], must=False)
        if r["status"] in ("deadlock", "step-limit", "wall-timeout"):
            raise Fail("deadlock", ended(r))
        if r["status"] in ("mpi-error", "petsc-error"):
            raise Fail(r["status"], ended(r))
        diverged(s, r, os.path.join(d, ".ompi.stdout"))
        if r["status"] != "ok":
            raise Fail("run-not-completed", ended(r))
        for c, t in r["violations"]:
            if c in HYGIENE:
                raise Fail(c, t)
        return {"nontrivial": r["msgs"] > 0 or r["barriers"] > 0}


def locate(text, libdir):
    """Replaces code addresses by function and source line."""
    def f(m):
        o = subprocess.run(["addr2line", "-Cfe", os.path.join(libdir, "r0.so"), m.group(1)], capture_output=True, text=True).stdout.split("\n")
        fn = re.sub(r"<.*>|\(.*", "", o[0])[:120]
        return "%s (%s)" % (fn, re.sub(r".*/(source|eigen3|include)/", "", o[1]).split(" (")[0]) if len(o) > 1 else m.group(0)
    return re.sub(r"r\d+\.so\+(0x[0-9a-f]+)", f, text)


@prop
class D09(Sched):
    id = "D09"
    race = True
    features = [{"problem": p, "threads": t} for p in ALL for t in (2, 3)] + [{"problem": "rkdg_swe", "wd": True, "sl": True, "threads": 2},
        {"problem": "ehdg_gn", "wd": True, "threads": 2}, {"problem": "rkdg_swe", "threads": 2, "vtk": True, "vtu": True, "log": "verbose"}]
    counts = {"quick": 350, "thorough": 8000}
    rule = "a case counts when some rank ran at least two threads and memory accesses were tracked; distinct = distinct event-sequence hashes"

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        gen.write(s, d)
        partition(s, ctx, d, case["seed"], write=False)
        r = parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d) + [("race", 1)], race=True, must=False)
        for c, t in r["violations"]:
            if c == "data-race":
                raise Fail(c, locate(t, ctx.built[FEAT[s["problem"]] + "-ompi-race"]))
        return {"nontrivial": r["accesses"] > 0 and max(s["threads"]) > 1, "accesses": r["accesses"]}


def first_difference(a, b, na, nb):
    """Names the first file whose bytes differ between two output trees."""
    if set(a) != set(b):
        raise Fail("files-differ", "files only in one of %s / %s: %s" % (na, nb, sorted(set(a) ^ set(b))[:6]))
    for f in sorted(a):
        if a[f] != b[f]:
            x, y = a[f].split(b"\n"), b[f].split(b"\n")
            for i in range(max(len(x), len(y))):
                p, q = (x[i] if i < len(x) else b"<end>"), (y[i] if i < len(y) else b"<end>")
                if p != q:
                    raise Fail("result-depends-on-schedule", "%s line %d: %s in %s, %s in %s" % (f, i + 1, p[:120].decode("latin1"), na, q[:120].decode("latin1"), nb))


def results(d):
    return {k: v for k, v in snapshot_bytes(d).items() if not os.path.basename(k).startswith("log")}


@prop
class D07(Sched):
    id = "D07"
    features = [{"problem": p, "vtk": v, "vtu": v} for v in (False, True) for p in ALL] + [
        {"problem": "rkdg_swe", "wd": True, "sl": True, "log": "verbose"}, {"problem": "rkdg_swe", "levee": True}, {"problem": "ehdg_swe", "wd": True},
        {"problem": "ehdg_gn", "wd": True}, {"problem": "ehdg_gn", "sl": True}]
    rule = ("a case counts when the perturbed run differed from the plain run in its event sequence and both wrote results; "
            "distinct = distinct event-sequence hashes")

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        gen.write(s, d)
        partition(s, ctx, d, case["seed"], write=False)
        r = random.Random("d07-%d" % case["seed"])
        alt = [r.choice([1, 2, 3]) for _ in range(s["ranks"])]
        r0 = parallel(s, ctx, d, 0, opts=QUIET, name="plain")
        a = results(os.path.join(d, "out"))
        shutil.rmtree(os.path.join(d, "out"))
        s1 = dict(s, threads=alt) if case.get("alt", True) else s
        r1 = parallel(s1, ctx, d, case["seed"], opts=trace_opts(case, d) + [("perturb", r.choice([0x5a, 0xff, 0x7f, 0x40, 1])), ("shuffle", r.randrange(1, 1 << 40))], name="perturbed")
        b = results(os.path.join(d, "out"))
        first_difference(a, b, "the plain run", "the perturbed run")
        return {"nontrivial": r0["hash"] != r1["hash"] and any("modal" in k for k in a)}


# ------------------------------------------------------------------ partitioner
@prop
class D12(Prop):
    id = "D12"
    stubs = engine.STUBS + METIS_STUB
    counts = {"quick": 3000, "thorough": 20000}
    kinds = ["plain", "plain", "levee", "empty", "again", "plain", "again", "perturbed"]
    rule = "a case counts when at least two non-empty pieces with a common face were written; distinct = distinct event-sequence hashes (METIS answers, I/O perturbations)"

    def libs(self, tier):
        return ["part", "rkdg-ompi", "rkdg-serial"]

    def case(self, seed, i, tier):
        kind = self.kinds[i % len(self.kinds)]
        return {"kind": kind, "seed": seed, "scen": gen.draw(seed, "rkdg_swe", levee=(kind == "levee" or None), ranks=None)}

    def simplify(self, case):
        return simplify_scenario()

    def execute(self, case, ctx):
        s, d, kind = dict(case["scen"]), ctx.d, case["kind"]
        r = random.Random("d12-%d" % case["seed"])
        nodes, els, segs = gen.write(s, d)
        if kind == "again":  # an earlier decomposition of the same mesh left its files behind
            old = dict(s, parts=min(s["parts"] + r.choice([-1, 1, 2, 3]), max(len(els) // 2, 2)), metis_mode=r.randint(0, 4), balanced=not s["balanced"])
            if r.random() < 0.5:
                old["nodes"], old["rpl"] = r.choice([1, 2, 3]), r.choice([1, 2])
            old["parts"] = max(old["parts"], old["nodes"], 2)
            partition(old, ctx, d, case["seed"] + 17, write=False)
        o = trace_opts(case, d)
        if kind == "empty":
            o.append(("metis_empty", 1))
        if kind == "perturbed":
            o += [("p_io", 0.2), ("perturb", 0x5a), ("shuffle", case["seed"] * 2 + 1)]
        partition(s, ctx, d, case["seed"], write=False, opts=o)
        f = check_partition(d, "mesh", nodes, els, segs, s["p"], s["ranks"], None if kind == "empty" else s["parts"], kind == "again")
        import yaml
        with open(os.path.join(d, "input.15")) as fh:
            a = yaml.safe_load(fh)
        with open(os.path.join(d, "input_parallelized.15")) as fh:
            b = yaml.safe_load(fh)
        if b["mesh"]["format"] != "Meta" or os.path.basename(b["mesh"]["file_name"]) != "mesh.meta":
            raise Fail("bad-partition", "the parallel input file names mesh %s of format %s" % (b["mesh"]["file_name"], b["mesh"]["format"]))
        if kind in ("again", "empty") or case["seed"] % 4 == 0:
            serial(s, ctx, d)
            parallel(s, ctx, d, case["seed"])
            compare(modal(d, "outs", True), modal(d, "out", False), 1e-9, "after partitioning (%s)" % kind)
        return {"nontrivial": f["shared_faces"] > 0, "empty_ranks": f["empty_ranks"], "shared_faces": f["shared_faces"]}


# ------------------------------------------------------------------ crash and rerun
@prop
class D13(Sched):
    id = "D13"
    features = [{"problem": p, "vtk": v, "vtu": w} for p, v, w in (("rkdg_swe", True, True), ("rkdg_swe", False, False), ("ehdg_swe", False, True), ("ihdg_swe", True, False), ("ehdg_gn", False, False))] + [
        {"problem": "rkdg_swe", "log": "verbose", "vtu": True, "wd": True}]
    counts = {"quick": 1800, "thorough": 15000}
    rule = "a case counts when the crash happened before the end of the run; distinct = distinct event-sequence hashes (crash points and schedules)"

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        r = random.Random("d13-%d" % case["seed"])
        gen.write(s, d)
        part = r.random() < 0.2
        p0 = partition(s, ctx, d, case["seed"], write=False)
        if part:
            a = {k: v for k, v in snapshot_bytes(d).items() if not k.startswith(".")}
            for f in a:
                if f.endswith((".meta", ".dbmd")) or "parallelized" in f:
                    os.remove(os.path.join(d, f))
            n = p0["io"]["mutations"]
            c = ctx.sim(d, "part", 1, ["input.15", s["parts"], s["nodes"], s["rpl"], "true" if s["balanced"] else "false"],
                        [("seed", case["seed"]), ("metis_mode", s["metis_mode"]), ("crash_write", r.randint(1, max(n, 1))), ("crash_keep", r.choice([0, 40, 100]))], "crash")
            partition(s, ctx, d, case["seed"], write=False)
            b = {k: v for k, v in snapshot_bytes(d).items() if not k.startswith(".")}
            first_difference(a, b, "the uninterrupted partitioning", "the partitioning repeated after a crash")
            return {"nontrivial": c["status"] == "crashed"}
        r0 = parallel(s, ctx, d, case["seed"], name="whole")
        a = snapshot_bytes(os.path.join(d, "out"))
        shutil.rmtree(os.path.join(d, "out"))
        o = trace_opts(case, d)
        if r.random() < 0.5:
            o.append(("crash_step", r.randint(1, max(1, r0["steps"]))))
        else:
            o += [("crash_write", r.randint(1, max(1, r0["io"]["mutations"]))), ("crash_keep", r.choice([0, 30, 99, 100]))]
        c = parallel(s, ctx, d, case["seed"] + 1, opts=o, name="crash", must=False)
        if c["status"] not in ("crashed", "ok"):
            raise Fail("run-not-completed", ended(c))
        if r.random() < 0.25:  # the repeated run is killed as well
            c2 = parallel(s, ctx, d, case["seed"] + 2, opts=[("crash_write", r.randint(1, max(1, r0["io"]["mutations"]))), ("crash_keep", r.choice([0, 30, 100]))], name="crash2", must=False)
            if c2["status"] not in ("crashed", "ok"):
                raise Fail("run-not-completed", ended(c2))
        crashes = 1
        while r.random() < 0.3:  # crashes of the reruns as well
            parallel(s, ctx, d, case["seed"] + 10 + crashes, opts=[("crash_step", r.randint(1, max(1, r0["steps"])))], name="crash%d" % crashes, must=False)
            crashes += 1
        parallel(s, ctx, d, case["seed"] + 2, name="rerun")
        b = snapshot_bytes(os.path.join(d, "out"))
        first_difference({k: v for k, v in a.items() if not os.path.basename(k).startswith("log")}, {k: v for k, v in b.items() if not os.path.basename(k).startswith("log")},
                         "the uninterrupted run", "the run repeated after a crash")
        return {"nontrivial": c["status"] == "crashed"}


# ------------------------------------------------------------------ conservation and rest
def areas(nodes, els, s):
    k = 1.0
    if s.get("sph"):
        lat0, lon0, R = s["sph"]
        k = (R * math.radians(1)) ** 2 * math.cos(math.radians(lat0))
    out = {}
    for e in els:
        (x0, y0, _), (x1, y1, _), (x2, y2, _) = (nodes[v] for v in e[1:])
        out[e[0]] = k * abs((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2
    return out


def volume_change(a, area, depth):
    """Largest change of the total volume between snapshots, relative to the volume of water present."""
    vs = {}
    for t, z in a["ze"].items():
        if set(z) != set(area):
            raise Fail("missing-output", "surface at t=%s written for %d of %d elements" % (t, len(z), len(area)))
        vs[t] = math.fsum(z[i][0] * area[i] for i in z)
    ref = math.fsum(area.values()) * depth
    t0 = list(vs)[0]
    worst = max(vs, key=lambda t: abs(vs[t] - vs[t0]))
    return abs(vs[worst] - vs[t0]) / ref, "volume is %.17g at t=%s and %.17g at t=%s" % (vs[t0], t0, vs[worst], worst)


@prop
class D10(Sched):
    id = "D10"
    features = [{"problem": "rkdg_swe"}, {"problem": "ehdg_swe"}, {"problem": "rkdg_swe", "sph": True}, {"problem": "ihdg_swe"}, {"problem": "ehdg_gn"}, {"problem": "rkdg_swe", "sl": True},
                {"problem": "rkdg_swe", "levee": True}, {"problem": "rkdg_swe", "still": True}, {"problem": "ehdg_swe", "still": True}, {"problem": "ihdg_swe", "still": True}, {"problem": "ehdg_gn", "still": True},
                {"problem": "rkdg_swe", "levee": True, "still": True}, {"problem": "ehdg_swe", "sph": True}, {"problem": "rkdg_swe", "sl": True, "still": True},
                {"problem": "rkdg_swe", "wd": True}, {"problem": "rkdg_swe", "wd": True, "wild": True, "steps": 20}, {"problem": "ehdg_swe", "wd": True, "wild": True, "steps": 20},
                {"problem": "ehdg_gn", "wd": True, "wild": True, "steps": 20}, {"problem": "rkdg_swe", "wd": True, "sl": True, "wild": True, "steps": 20}, {"problem": "rkdg_swe", "levee": True, "sph": True}]
    stubs = Sched.stubs
    counts = {"quick": 4500, "thorough": 25000}
    rule = "a case counts when water moved during the run (conservation) or the ground is not flat (still water); distinct = distinct event-sequence hashes"
    # volume: one flux value per face gives cancellation up to rounding; implicit runs stop their Newton iteration at a tolerance
    vtol = {"rkdg_swe": 4e-12, "ehdg_swe": 4e-12, "ihdg_swe": 1e-9, "ehdg_gn": 4e-12}
    qtol = {"rkdg_swe": 1e-11, "ehdg_swe": 1e-11, "ihdg_swe": 1e-7, "ehdg_gn": 1e-7}

    def libs(self, tier):
        f = sorted({FEAT[x["problem"]] for x in self.features})
        return [x + "-ompi" for x in f] + [x + "-serial" for x in f] + ["part"]

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        pr, still = f.pop("problem"), f.pop("still", False)
        if f.pop("sph", False):
            r = random.Random("sph-%d" % seed)
            f["sph"] = [r.choice([12.0, 30.0, -25.0]), r.choice([-79.0, 3.5]), r.choice([6378206.4, 50000.0])]
        elif still:
            f["sph"] = []
        s = gen.draw(seed, pr, closed=True, **f)
        s["sides"] = ["land"] * 4
        s["source"] = False
        s["sph"] = s["sph"] or None
        if s["levee"]:
            s["levee_h"] = 50.0  # never overtopped: flow over a barrier is imposed weakly on each side and conserves volume only in the limit
        if still:
            s["level"] = random.Random("lvl-%d" % seed).choice([0.0, 0.1, -0.1, 0.3])
            if s.get("ic") is not None:  # the same level, given as a uniform state
                s["ic"] = [] if s["ic"] == [] and not s["level"] else [s["level"], 0.0, 0.0]
        return {"kind": pr + ("" if not still else " still") + "".join(" " + k for k in sorted(f) if f[k]), "seed": seed, "still": still, "scen": s}

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        nodes, els, _ = gen.write(s, d)
        area = areas(nodes, els, s)
        one = case["seed"] % 4 == 0
        if one:
            serial(s, ctx, d)
            a = modal(d, "outs", True)
        else:
            partition(s, ctx, d, case["seed"], write=False)
            parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d))
            a = modal(d, "out", False)
        if not finite(a):
            raise Fail("not-finite", "the solution of a closed basin is not finite")
        ts = list(a["ze"])
        v, text = volume_change(a, area, s["H"])
        tol = self.vtol[s["problem"]] * max(1.0, s["nsteps"] / 5.0)  # rounding adds up over the steps
        if s["wd"]:  # an element that ran dry is given the threshold depth, 2e-10 of h_o
            tol = max(tol, 1e-10)
        if v > tol:
            raise Fail("volume-not-conserved", "%s (%.3g of the water present)" % (text, v))
        if case["still"]:
            c = s["H"] * math.sqrt(gen.G * s["H"])
            for t in ts:
                for i in area:
                    m = max(max(abs(x) for x in a[w][t][i]) for w in ("qx", "qy"))
                    if m > self.qtol[s["problem"]] * c:
                        raise Fail("still-water-moves", "discharge of element %d reaches %.6g at t=%s with a level surface (scale %.3g)" % (i, m, t, c))
                    z = a["ze"][t][i]
                    if max(abs(z[0] - s["level"]), max(abs(x) for x in z[1:])) > self.qtol[s["problem"]] * s["H"]:
                        raise Fail("still-water-moves", "surface of element %d is %s at t=%s, level was %g" % (i, z, t, s["level"]))
            return {"nontrivial": len(ts) > 1 and (s["slope"] > 0 or s["rough"] > 0)}
        return {"nontrivial": len(ts) > 1 and a["ze"][ts[0]] != a["ze"][ts[-1]]}


# ------------------------------------------------------------------ wetting and drying
PHI = ((1.0, -1.0, -1.0), (1.0, -1.0, 1.0), (1.0, 2.0, 0.0))  # linear basis at the three corners


@prop
class D11(Sched):
    id = "D11"
    features = [{"problem": "rkdg_swe", "wd": True}, {"problem": "ehdg_swe", "wd": True}, {"problem": "rkdg_swe", "wd": True, "friction": True}, {"problem": "rkdg_swe", "wd": True, "sl": True},
                {"problem": "rkdg_swe", "wd": True, "wild": True, "steps": 30}, {"problem": "rkdg_swe", "wd": True, "wild": True, "sl": True, "steps": 30},
                {"problem": "ehdg_swe", "wd": True, "wild": True, "steps": 30}, {"problem": "ehdg_swe", "wd": True, "sl": True, "wild": True, "steps": 30},
                {"problem": "ehdg_gn", "wd": True}, {"problem": "ehdg_gn", "wd": True, "wild": True, "steps": 30}, {"problem": "rkdg_swe", "wd": True, "wild": True, "sl": True, "lab": True, "steps": 30}]
    counts = {"quick": 3200, "thorough": 30000}
    rule = "a case counts when some element was at most threshold-deep at a corner and some element was wet; distinct = distinct event-sequence hashes"

    def case(self, seed, i, tier):
        c = super().case(seed, i, tier)
        if c["scen"]["friction"]:  # a prescribed push on a thin layer makes the explicit friction term stiff beyond its step limit
            c["scen"]["source"] = False
        return c

    def libs(self, tier):
        f = sorted({FEAT[x["problem"]] for x in self.features})
        return [x + "-ompi" for x in f] + [x + "-serial" for x in f] + ["part"]

    def execute(self, case, ctx):
        s, d = dict(case["scen"], out_every=1), ctx.d
        nodes, els, _ = gen.write(s, d)
        if case["seed"] % 4 == 0:
            serial(s, ctx, d)
            a = modal(d, "outs", True)
        else:
            partition(s, ctx, d, case["seed"], write=False)
            parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d))
            a = modal(d, "out", False)
        corner = {e[0]: [nodes[v][2] for v in e[1:]] for e in els}
        dry = wet = 0
        ho = s["wd"]["h_o"]
        for t in a["ze"]:
            for i, z in a["ze"][t].items():
                b = a["bath"][t][i]
                for k in range(3):
                    bk = sum(p * q for p, q in zip(PHI[k], b))
                    if abs(bk - corner[i][k]) > 1e-9 * (1 + abs(corner[i][k])):
                        raise Fail("bad-output", "ground of element %d corner %d is %.17g in the result, %.17g in the mesh" % (i, k, bk, corner[i][k]))
                    h = sum(p * q for p, q in zip(PHI[k], z)) + bk
                    if not h > -1e-12:
                        raise Fail("negative-depth", "depth at corner %d of element %d is %.17g at t=%s" % (k, i, h, t))
                    if h <= ho:
                        dry += 1
                    else:
                        wet += 1
                    if not all(abs(x) < 1e6 for w in ("qx", "qy") for x in a[w][t][i]):
                        raise Fail("not-finite", "discharge of element %d at t=%s is %s" % (i, t, a["qx"][t][i]))
        return {"nontrivial": dry > 0 and wet > 0, "dry_corners": dry, "wet_corners": wet}


# ------------------------------------------------------------------ faults: output, input, failing processes
def is_result(f):
    b = os.path.basename(f)
    return not (b.startswith(".") or b.startswith("log"))


def outputs(d, sub):
    return {k: v for k, v in snapshot_bytes(os.path.join(d, sub)).items() if is_result(k)} if os.path.isdir(os.path.join(d, sub)) else {}


def must_fail_or(r, same, cls, what):
    """A faulted execution may end with a failure, or as if nothing had happened; nothing in between."""
    st = r["status"]
    if st in ("deadlock", "step-limit", "wall-timeout"):
        raise Fail("hang", "%s: %s" % (what, ended(r)))
    if st in ("exit", "abort") and r.get("code", 1) == 0:
        raise Fail("failure-reported-as-success", "%s: the job stopped early with status 0: %s" % (what, ended(r)))
    if st == "signal":
        raise Fail("crash", "%s: %s" % (what, ended(r)))
    if st == "ok":
        t = same()
        if t:
            raise Fail(cls, "%s: the job ended successfully but %s" % (what, t))


def differ(a, b):
    """Text naming the first difference of two file sets, or None."""
    for f in sorted(set(a) | set(b)):
        if f not in b:
            return "%s is missing" % f
        if f not in a:
            return "%s was written although a run without faults does not write it" % f
        if a[f] != b[f]:
            return "%s holds %d bytes%s" % (f, len(b[f]), " instead of %d" % len(a[f]) if len(a[f]) != len(b[f]) else " with other content")
    return None


W_ERR = ["ENOSPC", "EIO", "EDQUOT"]


@prop
class D14(Sched):
    id = "D14"
    features = [{"problem": "rkdg_swe", "vtk": True, "vtu": True}, {"problem": "rkdg_swe"}, {"problem": "ehdg_swe", "vtu": True}, {"problem": "part"}, {"problem": "ehdg_swe", "vtk": True}, {"problem": "rkdg_swe", "serial": True, "vtk": True, "vtu": True},
                {"problem": "part"}, {"problem": "rkdg_swe", "wd": True, "vtu": True}, {"problem": "part", "levee": True}]
    counts = {"quick": 4000, "thorough": 20000}
    rule = "a case counts when the planned fault hit an operation of the run; distinct = distinct event-sequence hashes (fault points and schedules)"

    def libs(self, tier):
        return ["rkdg-ompi", "ehdg-ompi", "rkdg-serial", "part"]

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        pr, ser = f.pop("problem"), f.pop("serial", False)
        r = random.Random("d14-%d" % seed)
        k = r.choice(["write", "write", "write", "close", "open_w", "mkdir", "alloc", "alloc", "write-rest"])
        return {"kind": pr + (" serial" if ser else "") + " " + k, "seed": seed, "serial": ser, "part": pr == "part", "fault": k, "scen": gen.draw(seed, "rkdg_swe" if pr == "part" else pr, **f)}

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        r = random.Random("d14x-%d" % case["seed"])
        gen.write(s, d)

        def run(opts, name):
            if case["part"]:
                return partition(s, ctx, d, case["seed"], write=False, opts=opts, must=False)
            if case["serial"]:
                os.makedirs(os.path.join(d, "out"), exist_ok=True)
                return serial(s, ctx, d, inp="input.15", out="out", opts=[("seed", case["seed"])] + list(opts), must=False, write=False)
            return parallel(s, ctx, d, case["seed"], opts=opts, must=False, name=name)

        inputs = {k for k in snapshot_bytes(d)}

        def produced():
            return {k: v for k, v in snapshot_bytes(d).items() if k not in inputs and is_result(k) and k not in pieces}

        pieces = set()
        if not case["part"] and not case["serial"]:
            partition(s, ctx, d, case["seed"], write=False)
            pieces = {k for k in snapshot_bytes(d)}
        r0 = run([], "clean")
        if r0["status"] != "ok":
            raise Skip("no reference")
        a = produced()
        for k in a:
            os.remove(os.path.join(d, k))
        if not case["part"]:
            shutil.rmtree(os.path.join(d, "out"))
        k = case["fault"]
        if k == "alloc":
            o = [("alloc_fail", r.randint(1, max(1, r0["allocs"]))), ("alloc_sticky", r.choice([0, 0, 1]))]
        else:
            op = "write" if k == "write-rest" else k
            if op in ("open_w", "mkdir") and r0["io"]["rename"] and r.random() < 0.7:
                op = "rename"
            n = r.randint(1, max(1, r0["io"][op]))
            sub = "*"
            if op == "write" and a:
                t = r.choice(sorted(a))
                sub = os.path.basename(t)
                n = r.randint(1, 4) if r.random() < 0.7 else r.randint(1, max(1, a[t].count(b"\n")))
            o = [("iofault", "%s %s %d %s %d %d" % (op, sub, n, r.choice(W_ERR if op != "open_w" else W_ERR + ["EACCES", "EMFILE", "EROFS"]), 1 if k == "write-rest" else r.choice([0, 1]), r.choice([0, 0, 30, 90])))]
        if not (case.get("trace") or case.get("trace_out")):
            pass
        r1 = run(trace_opts(case, d) + o, "faulted")
        what = "fault '%s'" % ("%s=%s" % o[0])
        must_fail_or(r1, lambda: differ(a, produced()), "lost-output", what)
        hit = bool(r1["io"]["fired"]) or r1.get("alloc_fault", 0) > 0
        return {"nontrivial": hit, "ended_with_error": int(r1["status"] != "ok"), "harmless": int(hit and r1["status"] == "ok")}


def cut(path, r):
    """Cuts a text file after a whole record (line) or in the middle of one, at a blank."""
    with open(path, encoding="latin1") as fh:
        t = fh.read()
    lines = t.split("\n")[:-1]
    n = r.randrange(len(lines))
    head = lines[:n]
    w = lines[n].split(" ")
    if len(w) > 1 and r.random() < 0.4:
        head.append(" ".join(w[:r.randint(1, len(w) - 1)]))
    with open(path, "w", encoding="latin1") as fh:
        fh.write("\n".join(head) + ("\n" if head else ""))
    return "%s cut after %d of %d lines" % (os.path.basename(path), len(head), len(lines))


@prop
class D15(Sched):
    id = "D15"
    modes = ["serial", "parallel", "part", "parallel", "part", "serial"]
    features = [{"problem": "rkdg_swe"}, {"problem": "rkdg_swe", "friction": True}, {"problem": "ehdg_swe"}, {"problem": "rkdg_swe", "meteo": True}, {"problem": "rkdg_swe", "levee": True}]
    counts = {"quick": 4000, "thorough": 20000}
    rule = "a case counts when the input was cut or a planned read fault hit; distinct = distinct event-sequence hashes (fault points and schedules)"

    def libs(self, tier):
        return ["rkdg-ompi", "ehdg-ompi", "rkdg-serial", "ehdg-serial", "part"]

    def case(self, seed, i, tier):
        f = dict(self.features[(i // len(self.modes)) % len(self.features)])
        pr = f.pop("problem")
        r = random.Random("d15-%d" % seed)
        m = self.modes[i % len(self.modes)]
        k = r.choice(["cut", "cut", "read", "open_r", "gone"])
        return {"kind": "%s %s %s" % (pr, m, k), "seed": seed, "mode": m, "fault": k, "scen": gen.draw(seed, pr, **f)}

    def execute(self, case, ctx):
        s, d, m, k = case["scen"], ctx.d, case["mode"], case["fault"]
        r = random.Random("d15x-%d" % case["seed"])
        gen.write(s, d)
        given = {f for f in snapshot_bytes(d) if not f.startswith(".")}
        if m == "part":
            targets = [f for f in given if f.endswith((".14", ".bcis", "manning.txt"))]
            run = lambda o, n: partition(s, ctx, d, case["seed"], write=False, opts=o, must=False)
        elif m == "serial":
            targets = [f for f in given if f.endswith((".14", ".bcis", "manning.txt")) or f.startswith("meteo_")]
            run = lambda o, n: serial(s, ctx, d, inp="input.15", out="out", opts=[("seed", case["seed"])] + list(o), must=False, write=False)
        else:
            partition(s, ctx, d, case["seed"], write=False)
            given = {f for f in snapshot_bytes(d) if not f.startswith(".")}
            targets = [f for f in given if f.endswith((".meta", ".dbmd", ".bcis", "manning.txt")) or f.startswith("meteo_")]
            run = lambda o, n: parallel(s, ctx, d, case["seed"], opts=o, must=False, name=n)

        def produced():
            return {f: v for f, v in snapshot_bytes(d).items() if f not in given and is_result(f)}
        r0 = run([], "clean")
        if r0["status"] != "ok":
            raise Skip("no reference")
        a = produced()
        for f in a:
            os.remove(os.path.join(d, f))
        if m != "part":
            shutil.rmtree(os.path.join(d, "out"))
        o = []
        t = r.choice(sorted(targets))
        if t.startswith("meteo_") and r.random() < 0.7:
            t = "meteo_%d.txt" % r.randint(0, 3)
        if k == "cut":
            if not os.path.getsize(os.path.join(d, t)):
                return {"nontrivial": False}
            what = cut(os.path.join(d, t), r)
        elif k == "gone":
            os.remove(os.path.join(d, t))
            what = "%s removed" % t
        else:
            if r.random() < 0.3:
                t = "input.15" if m != "parallel" else "input_parallelized.15"
            n = r.randint(1, 2 if k == "read" else 2)
            what = "%s %s %d %s %d 0" % (k, t, n, r.choice(["EIO", "EACCES", "EMFILE", "ENOMEM"] if k == "open_r" else ["EIO"]), r.choice([0, 1]))
            o.append(("iofault", what))
            what = "fault '%s'" % what
        r1 = run(trace_opts(case, d) + o, "faulted")
        must_fail_or(r1, lambda: differ(a, produced()), "bad-input-used", what)
        return {"nontrivial": k in ("cut", "gone") or bool(r1["io"]["fired"]), "refused": int(r1["status"] != "ok")}


@prop
class D16(Sched):
    id = "D16"
    features = [{"problem": "rkdg_swe"}, {"problem": "ehdg_swe"}, {"problem": "ihdg_swe"}, {"problem": "ehdg_gn"}, {"problem": "rkdg_swe", "wd": True, "sl": True}]
    kinds = ["invalid", "alloc", "invalid", "piece", "open", "read", "write", "poison", "poison"]
    counts = {"quick": 3000, "thorough": 15000}
    rule = "a case counts when a failure was injected into one process of a run with several, or the solution became invalid; distinct = distinct event-sequence hashes"

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        k = self.kinds[(i // len(self.features)) % len(self.kinds)]
        pr = f.pop("problem")
        r = random.Random("d16-%d" % seed)
        if k == "poison" and r.random() < 0.6:
            f.update(r.choice([{"ranks": 2, "parts": 6, "threads": 3}, {"ranks": 2, "parts": 5, "threads": 2}, {"ranks": 3, "parts": 7, "threads": 2}]))
        s = gen.draw(seed, pr, ranks=f.pop("ranks", None) or r.choice([2, 3, 4]), **f)
        if k == "poison":  # a source that is not a number in one place from some time on
            if s["sph"] or s["rest"]:
                k = "invalid"
            else:
                s["source"], s["out_every"], s["no_modal"] = True, 1, False
        if k == "invalid":  # a step far beyond the stability limit, on a longer run
            s["T"] = 40
            s["dt"] = 40.0 / r.randint(9, 30) * (1 if pr in ("rkdg_swe", "ehdg_swe") else 4)
            s["dt"] *= r.choice([1, 3, 10])
            s["T"] = max(40, int(s["dt"] * 12))
            s["nsteps"] = int(math.ceil(s["T"] / s["dt"]))
            s["amp"] = 0.9
            s["forcing"] = [x for x in s["forcing"] if x != "meteo"]
            if r.random() < 0.7:
                s["out_every"], s["no_modal"] = 1, False
        return {"kind": "%s %s" % (pr, k), "seed": seed, "fault": k, "scen": s}

    def execute(self, case, ctx):
        s, d, k = case["scen"], ctx.d, case["fault"]
        r = random.Random("d16x-%d" % case["seed"])
        gen.write(s, d)
        partition(s, ctx, d, case["seed"], write=False)
        o = trace_opts(case, d) + [("max_steps", 3000000)]
        if k in ("invalid", "poison"):
            what = "an unstable time step"
            if k == "poison":
                with open(os.path.join(d, "mesh.14"), encoding="latin1") as fh:
                    ls = fh.read().split("\n")
                pts = [tuple(float(x) for x in l.split()[1:3]) for l in ls[2:2 + int(ls[1].split()[1])]]
                x, y = r.choice(pts)
                t0 = s["dt"] * (s["nsteps"] - (r.choice([1, 1, 1, 2]) if s["nstages"] == 1 else r.choice([0.02, r.uniform(0.02, 0.6), r.uniform(0.3, 0.99), 1, r.uniform(0, s["nsteps"])])))
                what = "%d %.17g %.17g %.17g %.17g" % (r.randint(0, 2), x, y, r.choice([0.3, 0.3, 0.7]) * s["dx"], t0 - 1e-9 * s["dt"])
                o.append(("poison", what))
                what = "a source that is not a number from t=%.9g near (%.9g, %.9g)" % (t0, x, y)
            r1 = parallel(s, ctx, d, case["seed"], opts=o, must=False)
            bad = [False]

            def check():
                a = modal(d, "out", False)
                for v in a:
                    for t in a[v]:
                        for i, vals in a[v][t].items():
                            if any(x != x for x in vals):
                                bad[0] = True
                                return "%s of element %d at t=%s is not a number" % (v, i, t)
                return None
            must_fail_or(r1, check, "invalid-solution-accepted", what)
            # again, ending with the last step that was written, or the one after it: the invalid state is then the last
            last = max([sum(len(l.split()) == 1 for l in open(f)) - 1 for v, f in modal_files(os.path.join(d, "out"), False) if v == "ze"] or [0])
            again = 0
            if k == "invalid" and r1["status"] != "ok" and s["out_every"] == 1 and last > 1:
                n = last + r.choice([-1, 0, 0, 1])
                t = dict(s, T=int(math.floor(n * s["dt"])), nsteps=n)
                if t["T"] > 0 and math.ceil(t["T"] / s["dt"]) == n:
                    shutil.rmtree(os.path.join(d, "out"))
                    gen.write(t, d)
                    partition(t, ctx, d, case["seed"], write=False)
                    r2 = parallel(t, ctx, d, case["seed"], opts=o, must=False, name="again")
                    must_fail_or(r2, check, "invalid-solution-accepted", "an unstable time step, ending at step %d" % n)
                    again = 1
            return {"nontrivial": r1["status"] != "ok", "stopped": int(r1["status"] != "ok"), "ended_at_breakdown": again}
        held = sorted({tuple(int(x) for x in re.search(r"_(\d+)_(\d+)\.meta$", f).groups()) for f in os.listdir(d) if f.endswith(".meta")})
        loc, sub = r.choice(held)
        piece = "mesh_%d_%d.meta" % (loc, sub)
        if k == "piece" and r.random() < 0.3:
            what = "%s removed" % piece
            for f in [piece] + ([piece.replace(".meta", x) for x in (".dbmd", ".bcis")] if r.random() < 0.5 and os.path.getsize(os.path.join(d, piece.replace(".meta", ".dbmd"))) else []):
                if os.path.exists(os.path.join(d, f)):
                    os.remove(os.path.join(d, f))
        elif k == "piece":
            piece = piece if r.random() < 0.6 else piece.replace(".meta", ".dbmd")
            with open(os.path.join(d, piece), encoding="latin1") as fh:
                lines = fh.read().split("\n")[:-1]
            k = "piece" if lines else "none"
            what = "%s cut in half" % piece
            with open(os.path.join(d, piece), "w", encoding="latin1") as fh:
                fh.write("".join(l + "\n" for l in lines[:len(lines) // 2]))
        elif k in ("open", "read"):
            what = "%s %s 1 %s 1 0" % ("open_r" if k == "open" else "read", piece if r.random() < 0.6 else piece.replace(".meta", ".dbmd"), r.choice(["EIO", "EACCES", "EMFILE"]))
            o.append(("iofault", what))
        elif k == "write":
            what = "write %d_%d/ %d %s 1 0" % (loc, sub, r.randint(1, 6), r.choice(W_ERR))
            o.append(("iofault", what))
        else:
            r0 = parallel(s, ctx, d, case["seed"], must=False)
            if r0["status"] != "ok":
                raise Skip("no reference")
            n = r.randint(1, r0["allocs"])
            what = "allocation %d" % n
            o += [("alloc_fail", n), ("alloc_sticky", r.choice([0, 0, 1]))]
        r1 = parallel(s, ctx, d, case["seed"], opts=o, must=False, name="faulted")
        must_fail_or(r1, lambda: "the failure was passed over" if k != "alloc" and (k == "piece" or r1["io"]["fired"]) else None, "failure-ignored", what)
        return {"nontrivial": k == "piece" or bool(r1["io"]["fired"]) or r1.get("alloc_fault", 0) > 0, "stopped": int(r1["status"] != "ok")}


# ------------------------------------------------------------------ snapshots and output settings
def ceil_div(a, b):
    a, b = Fraction(a), Fraction(b)
    return -((-a) // b)


def read_vtk(path):
    """Points, cells and named arrays of a legacy VTK file; Fail when it is not complete."""
    with open(path) as fh:
        w = fh.read().split("\n")
    name = os.path.basename(path)
    out = {}
    i, npt, ncell, cur = 0, None, None, None
    try:
        while i < len(w):
            t = w[i].split()
            i += 1
            if not t:
                continue
            if t[0] == "POINTS":
                npt = int(t[1])
                out["points"] = [tuple(float(x) for x in l.split()) for l in w[i:i + npt]]
                i += npt
            elif t[0] == "CELLS":
                ncell = int(t[1])
                out["cells"] = [tuple(int(x) for x in l.split()) for l in w[i:i + ncell]]
                i += ncell
            elif t[0] == "CELL_TYPES":
                i += ncell
            elif t[0] == "CELL_DATA":
                if int(t[1]) != ncell:
                    raise Fail("bad-output", "%s: data of %s cells for %d cells" % (name, t[1], ncell))
                cur = ncell
            elif t[0] == "POINT_DATA":
                if int(t[1]) != npt:
                    raise Fail("bad-output", "%s: data of %s points for %d points" % (name, t[1], npt))
                cur = npt
            elif t[0] == "SCALARS":
                out[t[1]] = [float(x) for x in w[i + 1:i + 1 + cur]]
                i += 1 + cur
        if not all(len(p) == 3 for p in out["points"]) or not all(len(c) == 4 and max(c[1:]) < npt for c in out["cells"]):
            raise Fail("bad-output", "%s: malformed geometry" % name)
        return out
    except (ValueError, IndexError, KeyError, TypeError) as e:
        raise Fail("bad-output", "%s is not a complete snapshot: %r" % (name, e))


def read_vtu(path):
    import xml.etree.ElementTree as ET
    name = os.path.basename(path)
    try:
        root = ET.parse(path).getroot()
        piece = root.find("UnstructuredGrid/Piece")
        npt, ncell = int(piece.get("NumberOfPoints")), int(piece.get("NumberOfCells"))
        out = {"points": [float(x) for x in piece.find("Points/DataArray").text.split()]}
        if len(out["points"]) != 3 * npt:
            raise Fail("bad-output", "%s: %d coordinates for %d points" % (name, len(out["points"]), npt))
        for sec, n in (("PointData", npt), ("CellData", ncell)):
            for a in piece.find(sec):
                v = [float(x) for x in a.text.split()]
                if len(v) != n * int(a.get("NumberOfComponents", 1)):
                    raise Fail("bad-output", "%s: %s has %d values for %d" % (name, a.get("Name"), len(v), n))
                out[a.get("Name")] = v
        for a in piece.find("Cells"):
            out["cells_" + a.get("Name")] = [int(x) for x in a.text.split()]
        return out
    except (ET.ParseError, AttributeError, ValueError, TypeError) as e:
        raise Fail("bad-output", "%s is not a complete snapshot: %r" % (name, e))


@prop
class D17(Sched):
    id = "D17"
    features = [{"problem": "rkdg_swe"}, {"problem": "ehdg_swe"}, {"problem": "rkdg_swe", "wd": True}, {"problem": "ihdg_swe"}, {"problem": "rkdg_swe", "serial": True}, {"problem": "ehdg_gn"}, {"problem": "ehdg_swe", "serial": True}]
    counts = {"quick": 2000, "thorough": 8000}
    rule = "a case counts when both runs of the pair wrote at least two snapshots; distinct = distinct event-sequence hashes"

    def libs(self, tier):
        return ["rkdg-ompi", "ehdg-ompi", "ihdg-ompi", "gn-ompi", "rkdg-serial", "ehdg-serial", "part"]

    def case(self, seed, i, tier):
        f = dict(self.features[i % len(self.features)])
        pr, ser = f.pop("problem"), f.pop("serial", False)
        r = random.Random("d17-%d" % seed)
        s = gen.draw(seed, pr, **f)
        s["forcing"] = []
        # decimal time step and intervals, as users write them
        q = r.choice([10, 100, 1000])
        n = max(1, int(s["dt"] * q))
        while n / q > s["dt"] * 1.02:
            q *= 10
            n = max(1, int(s["dt"] * q))
        s["dt_text"] = str(Decimal(n) / Decimal(q))
        s["dt"] = float(s["dt_text"])
        s["T"] = 1 if s["dt"] < 0.2 else s["T"]
        fine = ser and random.Random("fine-%d" % seed).random() < 0.15  # very short steps, thousands of them
        if fine:
            s.update(dt_text=r.choice(["0.0004", "0.0005", "0.0008"] if s["nx"] * s["ny"] * s["order"] * s["p"] < 40 else ["0.002", "0.0025", "0.004"]), T=1)
            s["dt"] = float(s["dt_text"])
        s["nsteps"] = int(ceil_div(Decimal(s["T"]), Decimal(s["dt_text"])))
        pair = []
        for k in range(2):
            o = {"vtk": r.random() < 0.6, "vtu": r.random() < 0.6, "log": r.choice([None, "plain", "verbose"])}
            for w in ("modal_f", "vtk_f", "vtu_f"):
                e = r.randint(1, max(1, min(s["nsteps"], 9))) * (r.choice([1, 7, 60]) if fine and w == "modal_f" else 25 if fine else 1)
                x = Decimal(s["dt_text"]) * e
                if r.random() < 0.25:
                    x -= Decimal(s["dt_text"]) * Decimal("0.4")
                o[w] = str(x)
            pair.append(o)
        return {"kind": pr + (" serial" if ser else "") + (" fine" if fine else ""), "seed": seed, "serial": ser, "pair": pair, "scen": s}

    def one(self, case, ctx, k):
        s, d = dict(case["scen"], **case["pair"][k]), ctx.d
        nodes, els, _ = gen.write(s, d)
        if case["serial"]:
            serial(s, ctx, d, inp="input.15", out="out", opts=[("seed", case["seed"] + k), ("max_steps", 100000000)], write=False)
        else:
            partition(s, ctx, d, case["seed"], write=False)
            parallel(s, ctx, d, case["seed"] + k, opts=trace_opts(case, d) if k == 1 else [], name="run%d" % k)
        a = modal(d, "out", case["serial"])
        dt = Decimal(s["dt_text"])
        every = {w: int(ceil_div(Decimal(s[w + "_f"]), dt)) for w in ("modal", "vtk", "vtu")}
        want = list(range(0, s["nsteps"] + 1, every["modal"]))
        for v in ("ze", "qx", "qy", "bath"):
            have = [float(t) for t in a.get(v, {})]
            if len(have) != len(want) or any(abs(h - float(n * dt)) > 1e-6 + 1e-9 * h for h, n in zip(have, want)):
                raise Fail("wrong-snapshots", "%s written every %s s with a step of %s s up to step %d: times %s, expected steps %s" % (v, s["modal_f"], dt, s["nsteps"], have[:30], want[:30]))
            for t in a[v]:
                if set(a[v][t]) != {e[0] for e in els}:
                    raise Fail("missing-output", "%s at t=%s covers %d of %d elements" % (v, t, len(a[v][t]), len(els)))
        xy = {e[0]: [nodes[n] for n in e[1:]] for e in els}
        seen = {}
        for base, _, fs in os.walk(os.path.join(d, "out")):
            for f in fs:
                m = re.search(r"_data_(\d+)\.(vtk|vtu)$", f)
                if not m:
                    continue
                n, w = int(m.group(1)), m.group(2)
                x = (read_vtk if w == "vtk" else read_vtu)(os.path.join(base, f))
                ids = [int(v) for v in x["ID"]]
                if len(x["points"]) // (3 if w == "vtu" else 1) != 3 * len(ids):
                    raise Fail("bad-output", "%s: %d points for %d triangles" % (f, len(x["points"]), len(ids)))
                seen.setdefault((w, n), []).extend(ids)
                if s["p"] == 1 and n in want:
                    t = list(a["ze"])[want.index(n)]
                    for v in ("ze", "qx", "qy", "bath"):
                        sc = 1e-5 * (1 + max(abs(c) for q in a[v][t].values() for c in q))
                        for e, i in enumerate(ids):
                            for c in range(3):
                                y = sum(p * q for p, q in zip(PHI[c], a[v][t][i]))
                                z = x[v + "_point"][3 * e + c]
                                if not (abs(z - y) <= sc or (z != z and y != y)):
                                    raise Fail("formats-disagree", "%s corner %d of element %d at step %d is %.9g in %s and %.9g in the modal file" % (v, c, i, n, z, f, y))
                            if v == "ze" and not s.get("sph"):
                                p0 = x["points"][9 * e:9 * e + 2] if w == "vtu" else x["points"][3 * e][:2]
                                if max(abs(p0[0] - xy[i][0][0]), abs(p0[1] - xy[i][0][1])) > 1e-4:
                                    raise Fail("formats-disagree", "first corner of element %d lies at %s in %s, at %s in the mesh" % (i, list(p0), f, xy[i][0][:2]))
        for w in ("vtk", "vtu"):
            exp = set(range(0, s["nsteps"] + 1, every[w])) if s[w] else set()
            have = {n for (q, n) in seen if q == w}
            if exp != have:
                raise Fail("wrong-snapshots", "%s snapshots of steps %s, expected %s (interval %s s, step %s s, %d steps)" % (w, sorted(have)[:30], sorted(exp)[:30], s[w + "_f"], dt, s["nsteps"]))
            for n in exp:
                if sorted(seen[(w, n)]) != sorted(xy):
                    raise Fail("missing-output", "%s snapshot of step %d covers %d of %d elements" % (w, n, len(seen[(w, n)]), len(xy)))
        out = {}
        for b, _, fs in os.walk(os.path.join(d, "out")):
            for f in fs:
                if "_data_" in f:
                    with open(os.path.join(b, f), "rb") as fh:
                        out[os.path.relpath(os.path.join(b, f), d)] = fh.read()
        shutil.rmtree(os.path.join(d, "out"))
        return dict(zip(want, [{v: a[v][t] for v in a} for t in a["ze"]])), out

    def execute(self, case, ctx):
        a, fa = self.one(case, ctx, 0)
        b, fb = self.one(case, ctx, 1)
        for n in sorted(set(a) & set(b)):
            for v in a[n]:
                for i in a[n][v]:
                    if repr(a[n][v][i]) != repr(b[n][v][i]):
                        raise Fail("output-changes-solution", "%s of element %d at step %d is %s with output settings %s and %s with %s" % (v, i, n, a[n][v][i], case["pair"][0], b[n][v][i], case["pair"][1]))
        for f in set(fa) & set(fb):
            if fa[f] != fb[f]:
                raise Fail("output-changes-solution", "%s differs between output settings %s and %s" % (f, case["pair"][0], case["pair"][1]))
        return {"nontrivial": len(a) > 1 and len(b) > 1, "snapshots": len(a) + len(b) + len(fa) + len(fb)}


# ------------------------------------------------------------------ labels
@prop
class D18(Sched):
    id = "D18"
    features = [{"problem": "rkdg_swe"}, {"problem": "ehdg_swe"}, {"problem": "ihdg_swe"}, {"problem": "ehdg_gn"}, {"problem": "rkdg_swe", "levee": True}, {"problem": "rkdg_swe", "wd": True}, {"problem": "rkdg_swe", "sl": True}, {"problem": "rkdg_swe", "friction": True}]
    counts = {"quick": 2500, "thorough": 10000}
    tol = {"rkdg_swe": 1e-8, "ehdg_swe": 1e-8, "ihdg_swe": 1e-6, "ehdg_gn": 1e-6}
    # wetting/drying and limiting branch on thresholds around 1e-12, which magnifies rounding differences of the relabelled arithmetic
    rule = "a case counts when the solution changed during the run and both runs stayed finite; distinct = distinct event-sequence hashes"

    def libs(self, tier):
        f = sorted({FEAT[x["problem"]] for x in self.features})
        return [x + "-ompi" for x in f] + [x + "-serial" for x in f] + ["part"]

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        serial(s, ctx, d, opts=memory(case["seed"]))
        a = modal(d, "outs", True)
        if not finite(a) or (s["long"] and set(s["sides"]) & {"flow", "tide", "function"}):
            return {"nontrivial": False}  # roundings of another order of sums may grow over a hundred steps between open sides
        nodes, els, segs = gen.geometry(s)
        s2 = dict(s, relabel=case["seed"] * 7 + 1, turn=random.Random(case["seed"]).choice([0.0, 360.0, -720.0]))
        nm, em, es, _ = gen.relabelled(s2, nodes, els, segs)
        if case["seed"] % 3 == 0:
            serial(s2, ctx, d, inp="serial2.15", out="outs2")
            b = modal(d, "outs2", True)
        else:
            partition(s2, ctx, d, case["seed"])
            parallel(s2, ctx, d, case["seed"], opts=trace_opts(case, d))
            b = modal(d, "out", False)
        rot = {e[0]: e[1:] for e in es}

        def view(a, lab, corners):
            out = {}
            for v in a:
                out[v] = {}
                for t in a[v]:
                    w = out[v][t] = {}
                    for e in els:
                        q = a[v][t].get(lab(e[0]))
                        if q is None:
                            continue
                        if s["p"] == 1:
                            at = {n: sum(p * x for p, x in zip(PHI[k], q)) for k, n in enumerate(corners[e[0]])}
                            w[e[0]] = [q[0]] + [at[n] for n in e[1:]]
                        else:
                            w[e[0]] = [q[0]]
            return out
        compare(view(a, lambda i: i, {e[0]: e[1:] for e in els}), view(b, lambda i: em[i], rot), max(self.tol[s["problem"]], 1e-6 if s["wd"] or s["sl"] or s["long"] else 0), "%s relabelled" % s["problem"], na="original", nb="relabelled")
        ts = list(a["ze"])
        return {"nontrivial": len(ts) > 1 and a["ze"][ts[0]] != a["ze"][ts[-1]]}


# ------------------------------------------------------------------ clocks
@prop
class D19(Sched):
    id = "D19"
    features = [{"problem": "rkdg_swe", "log": "verbose", "vtk": True, "vtu": True}, {"problem": "ehdg_swe", "log": "verbose"}, {"problem": "ihdg_swe", "log": "plain", "vtu": True}, {"problem": "ehdg_gn", "log": "verbose"}, {"problem": "rkdg_swe", "wd": True, "sl": True, "log": "verbose"}]
    counts = {"quick": 2000, "thorough": 8000}
    rule = "a case counts when the run read a clock that was off or jumped; distinct = distinct event-sequence hashes"

    def execute(self, case, ctx):
        s, d = case["scen"], ctx.d
        r = random.Random("d19-%d" % case["seed"])
        gen.write(s, d)
        partition(s, ctx, d, case["seed"], write=False)
        parallel(s, ctx, d, 0, opts=QUIET, name="plain")
        a = results(os.path.join(d, "out"))
        shutil.rmtree(os.path.join(d, "out"))
        r1 = parallel(s, ctx, d, case["seed"], opts=trace_opts(case, d) + [("clock_skew_ms", r.choice([-86400000, -5000, 3600000, 10 ** 10])), ("clock_jump", r.choice([1, 2, 5])), ("p_stall", r.choice([0, 0.05]))], name="skewed")
        b = results(os.path.join(d, "out"))
        first_difference(a, b, "the plain run", "the run with wrong clocks")
        return {"nontrivial": r1.get("clock_reads", 0) > 0, "clock_reads": r1.get("clock_reads", 0)}


if __name__ == "__main__":
    import sys
    engine.main(PROPS[sys.argv[1]])
