"""Check driver: runs seeded cases in parallel, reports violations with a minimised replay file, writes evidence."""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, signal, sys, tempfile, time, traceback
import build, simrun

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
_workroot = None
_built = None


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    try:
        d = tempfile.mkdtemp(prefix="dgsim.", dir=base)
    except OSError:
        d = tempfile.mkdtemp(prefix="dgsim.")
    return d


class Ctx:
    """What a case needs to run: built artefacts and a private directory."""

    def __init__(self, built, d):
        self.built, self.d = built, d
        self.stats = {}
        self.hashes = []
        self.n = 0

    def sub(self, name):
        p = os.path.join(self.d, name)
        os.makedirs(p, exist_ok=True)
        return p

    def sim(self, d, lib, ranks, args, opts, name=None):
        self.n += 1
        r = simrun.sim(self.built, d, lib, ranks, args, opts, name or "s%d" % self.n)
        st = self.stats
        for k, v in r.items():
            if isinstance(v, int) and k not in ("hash", "code", "max_inflight", "fibers"):
                st[k] = st.get(k, 0) + v
        st["runs"] = st.get("runs", 0) + 1
        st["status_" + r["status"]] = st.get("status_" + r["status"], 0) + 1
        for k, v in r.get("io", {}).items():
            if isinstance(v, int):
                st["io_" + k] = st.get("io_" + k, 0) + v
        for f in r.get("io", {}).get("fired", []):
            k = "fault:" + f.split(" ")[0] + " errno " + f.split(" ")[-1]
            st[k] = st.get(k, 0) + 1
        self.hashes.append(r["hash"])
        return r


class Fail(Exception):
    """A property violation observed in a case."""

    def __init__(self, cls, text, **info):
        Exception.__init__(self, cls + ": " + text)
        self.cls, self.text, self.info = cls, text, info


class Skip(Exception):
    """The drawn scenario has no reference to compare with; counted as trivial."""


def run_case(prop, case, built, root):
    d = tempfile.mkdtemp(prefix="c.", dir=root)
    ctx = Ctx(built, d)
    out = {"fail": None, "nontrivial": True, "notes": []}
    t0 = time.time()
    try:
        info = prop.execute(case, ctx) or {}
        out["nontrivial"] = info.get("nontrivial", True)
        out["info"] = info
    except Skip:
        out["nontrivial"] = False
    except Fail as e:
        out["fail"] = {"cls": e.cls, "text": e.text, "info": e.info}
    except simrun.SimError as e:
        out["error"] = str(e)
    except (ValueError, LookupError, ZeroDivisionError, OverflowError) as e:
        # results of a run that no reader understands
        out["fail"] = {"cls": "unreadable-results", "text": "the results could not be interpreted: " + "".join(traceback.format_exception(e)[-3:]), "info": {}}
    except Exception:
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out["stats"] = ctx.stats
    out["hashes"] = ctx.hashes
    out["wall"] = time.time() - t0
    return out


def _init(root, built):
    global _workroot, _built
    _workroot, _built = root, built
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_prop = None


def _work(case):
    return case, run_case(_prop, case, _built, _workroot)


def known_findings(pid):
    try:
        with open(KNOWN) as fh:
            return [k for k in json.load(fh)["findings"] if k["property"] == pid and k.get("status", "open") == "open"]
    except FileNotFoundError:
        return []


def match_known(known, fail):
    for k in known:
        if k["cls"] == fail["cls"] and re.search(k["pattern"], fail["text"]):
            return k
    return None


# ------------------------------------------------------------------ minimisation
def _with(case, **kw):
    c = json.loads(json.dumps(case))
    c.update(kw)
    return c


def minimise(prop, case, fail, built, root, limit=45.0):
    """Shrinks the scenario and the schedule/fault trace while the same class of violation stays."""
    t0 = time.time()

    def fails(c):
        o = run_case(prop, c, built, root)
        return o if o["fail"] and o["fail"]["cls"] == fail["cls"] else None

    tried = 0
    best = case
    for cand in prop.simplify(case):
        if time.time() - t0 > limit * 0.4:
            break
        c = cand(json.loads(json.dumps(best)))
        if c is None or c == best:
            continue
        tried += 1
        if fails(c):
            best = c
    # record the trace of the failing execution, then drop what is not needed
    trace = prop.record(best, built, root)
    if trace is not None:
        c = _with(best, trace=trace)
        if fails(c):
            best = c
            n = 2
            cur = list(trace)
            c = _with(best, trace=[])
            if fails(c):
                cur, best = [], c
            while len(cur) >= 2 and time.time() - t0 < limit:
                chunk = max(1, len(cur) // n)
                cut = False
                for i in range(0, len(cur), chunk):
                    if time.time() - t0 > limit:
                        break
                    cand = cur[:i] + cur[i + chunk:]
                    tried += 1
                    c = _with(best, trace=cand)
                    if fails(c):
                        cur, best, cut = cand, c, True
                        n = max(n - 1, 2)
                        break
                if not cut:
                    if chunk == 1:
                        break
                    n = min(n * 2, len(cur))
    o = fails(best) or run_case(prop, best, built, root)
    if not o["fail"]:
        best, o = case, run_case(prop, case, built, root)
    return best, o, tried


def main(prop):
    global _prop
    _prop = prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for a in sys.argv:
        if a.startswith("--seed="):
            seed = int(a[7:])
    t0 = time.time()
    root = scratch()
    code = 2
    try:
        code = _main(prop, tier, seed, t0, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def _main(prop, tier, seed, t0, root):
    try:
        built = build.build(prop.libs(tier))
    except build.BuildError as e:
        print("build failed:\n" + str(e)[-4000:])
        return 2
    tb = time.time() - t0
    cap = max(prop.cap(tier), min(tb + 120, 700)) if tier == "quick" else prop.cap(tier)  # on a loaded machine building takes longer
    known = known_findings(prop.id)
    cases = prop.cases(tier, seed)
    ctxm = mp.get_context("fork")
    stats, hashes, viol, errors, samples = {}, set(), [], [], []
    kinds, knownhits = {}, {}
    done = nontriv = 0
    infos = {}
    t1 = time.time()
    with ctxm.Pool(int(os.environ.get("SIM_JOBS", os.cpu_count() or 8)), _init, (root, built)) as pool:
        for case, o in pool.imap_unordered(_work, cases, chunksize=1):
            done += 1
            for k, v in o["stats"].items():
                stats[k] = stats.get(k, 0) + v
            hashes.update(o["hashes"])
            kinds[case.get("kind", "-")] = kinds.get(case.get("kind", "-"), 0) + 1
            for k, v in (o.get("info") or {}).items():
                if isinstance(v, (int, float)) and k != "nontrivial":
                    infos[k] = infos.get(k, 0) + v
            if len(samples) < 5 and done % 7 == 1:
                samples.append({"case": case, "stats": {k: o["stats"].get(k) for k in ("steps", "msgs", "sim_ns", "switches")}})
            if o.get("error"):
                errors.append((case, o["error"]))
                if len(errors) > 5:
                    pool.terminate()
                    break
            elif o["fail"]:
                k = match_known(known, o["fail"])
                if k:
                    knownhits[k["id"]] = knownhits.get(k["id"], 0) + 1
                else:
                    viol.append((case, o["fail"]))
                    pool.terminate()
                    break
            elif o["nontrivial"]:
                nontriv += 1
            if time.time() - t0 > cap:
                pool.terminate()
                break
    wall_runs = time.time() - t1
    code = 0
    vout = []
    if viol:
        case, fail = viol[0]
        best, o, tried = minimise(prop, case, fail, built, root, 45.0 if tier == "quick" else 120.0)
        f = o["fail"] or fail
        rd = os.path.join(VERIF, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        name = hashlib.sha256(json.dumps([prop.id, best, f["cls"]], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(rd, "%s-%s.json" % (prop.id, name))
        with open(path, "w") as fh:
            json.dump({"property": prop.id, "module": prop.module, "violation": {"cls": f["cls"], "text": f["text"]}, "seed": seed,
                       "case": best, "original_case": case, "event_hashes": o["hashes"], "minimisation_runs": tried,
                       "how_to_replay": "python3 /verif/harness/replay.py " + path}, fh, indent=1)
        print("violation of %s: %s: %s" % (prop.id, f["cls"], f["text"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        vout.append({"cls": f["cls"], "text": f["text"][:2000], "replay": path})
        code = 1
    elif errors:
        print("the check itself failed on %d case(s):\n%s" % (len(errors), errors[0][1][-3000:]))
        print(json.dumps(errors[0][0]))
        code = 2
    elif nontriv == 0 or nontriv < done * prop.min_nontrivial:
        print("the check explored too little: %d of %d cases were non-trivial" % (nontriv, done))
        code = 2
    for k in known:
        if code != 1:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    wall = time.time() - t0
    hours = max(wall_runs, 1e-9) / 3600
    faults = {k: v for k, v in stats.items() if k.startswith("fault:")}
    for k, n in (("delayed", "message delays"), ("overtakes", "messages overtaken by later ones on other channels"), ("rendezvous", "sends that block until received"),
                 ("stalls", "stalled threads"), ("preempts", "forced preemptions"), ("io_short", "short reads/writes"), ("io_eintr", "EINTR"),
                 ("alloc_fault", "failed allocations"), ("clock_jumps", "clock jumps"), ("coll_early", "collectives left early"), ("status_crashed", "process crashes"), ("poisoned", "receive buffers poisoned")):
        if stats.get(k):
            faults[n] = stats[k]
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
          "coverage": {
              "evaluations": done, "distinct_nontrivial": min(nontriv, len(hashes)),
              "rule": prop.rule,
              "samples": samples or [{"note": "no case completed"}],
              "simulated_runs": stats.get("runs", 0), "simulated_runs_per_hour": int(stats.get("runs", 0) / hours),
              "seeds_per_hour": int(done / hours), "build_s": round(tb, 1), "run_s": round(wall_runs, 1),
              "simulated_time_s": round(stats.get("sim_ns", 0) / 1e9, 3), "scheduling_steps": stats.get("steps", 0),
              "context_switches": stats.get("switches", 0), "messages": stats.get("msgs", 0), "collectives": stats.get("colls", 0),
              "faults_injected": faults, "distinct_interleavings": len(hashes),
              "distinct_interleavings_measure": "distinct 64-bit hashes over the sequence of (thread scheduled, blocking point, message delivered, I/O operation) of a run",
              "end_states": {k[7:]: v for k, v in stats.items() if k.startswith("status_")},
              "case_kinds": kinds, "totals": {k: v for k, v in infos.items()},
              "known_findings_hit": knownhits,
              "real_code": prop.real, "stubs": prop.stubs,
          },
          "assumptions": prop.assumptions, "violations": vout}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d cases, %d runs, %d non-trivial, %.1f s (build %.1f s), exit %d" % (prop.id, tier, done, stats.get("runs", 0), nontriv, wall, tb, code))
    return code


STUBS = ["MPI library (simulated: eager/rendezvous, delays, non-overtaking per channel)", "OpenMP runtime (threads are simulator fibers)",
         "wall clock", "file-system calls go through a fault-injecting seam to real files in a scratch directory"]
REAL = ["all dgswemv2 driver, communicator, problem, preprocessor, postprocessor and writer code of /repo, compiled unmodified", "Eigen", "yaml-cpp", "libstdc++ streams"]


class Prop:
    id = ""
    module = ""
    rule = ""
    real = REAL
    stubs = STUBS
    assumptions = ["GCC 13 x86-64, -O1 with assertions; behaviour of the simulated MPI, OpenMP and PETSc layers follows their specifications as described in DESIGN.md"]
    min_nontrivial = 0.5
    counts = {"quick": 100, "thorough": 2000}

    def libs(self, tier):
        return []

    def cap(self, tier):
        return {"quick": 200, "thorough": 840}[tier]

    def cases(self, tier, seed):
        n = self.counts[tier]
        for i in range(n):
            yield self.case(seed * 1000003 + i, i, tier)

    def case(self, seed, i, tier):
        raise NotImplementedError

    def execute(self, case, ctx):
        raise NotImplementedError

    def simplify(self, case):
        return []

    def record(self, case, built, root):
        """Trace of the decisive execution of a case as a list of lines, or None when a case has none."""
        d = tempfile.mkdtemp(prefix="t.", dir=root)
        try:
            p = os.path.join(d, "trace")
            c = _with(case, trace_out=p)
            run_case(self, c, built, root)
            if os.path.exists(p):
                with open(p) as fh:
                    return [l.strip() for l in fh if l.strip()]
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)


def trace_opts(case, d):
    """Simulator options that carry the case's trace (replay or recording)."""
    o = []
    if case.get("trace") is not None:
        p = os.path.join(d, ".trace_in")
        with open(p, "w") as fh:
            fh.write("\n".join(case["trace"]) + "\n")
        o.append(("replay", p))
    if case.get("trace_out"):
        o.append(("trace_out", case["trace_out"]))
    return o
