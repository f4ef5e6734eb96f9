"""The steps a user takes, run under the simulator: write inputs, partition, run serial or parallel, read the results back."""
import os, shutil
import gen
from engine import Fail, Skip, trace_opts
from simrun import read_modal, modal_files

FEAT = {"rkdg_swe": "rkdg", "ehdg_swe": "ehdg", "ihdg_swe": "ihdg", "ehdg_gn": "gn"}
QUIET = [("quiet", 1)]


def fun_opts(s):
    return [("fun", x) for x in gen.functions(s)]


def ended(r):
    return "%s: %s" % (r["status"], r["detail"][:600])


def diverged(s, r, log):
    """The trace iteration on an open boundary of the implicit method ignores part of the derivative and may diverge: no solution to look at."""
    if not set(s["sides"]) & {"flow", "tide", "function"}:
        return
    if s.get("long") and r["status"] in ("assert", "abort", "signal"):
        # hundreds of steps of a high order without a limiter, between sides that impose level and discharge: the method itself may blow up
        with open(log, errors="replace") as fh:
            if "isnan" in r["detail"] or "isnan" in fh.read():
                raise Skip("the long unlimited computation blew up")
    if s["problem"] != "ihdg_swe":
        return
    if r["status"] == "assert" and "factorized first" in r["detail"]:
        raise Skip("the Newton iteration on an open boundary diverged")
    if r["status"] in ("abort", "signal"):
        with open(log, errors="replace") as fh:
            if "isnan" in fh.read():
                raise Skip("the Newton iteration on an open boundary diverged")


def serial(s, ctx, d, inp="serial.15", out="outs", opts=QUIET, must=True, write=True, **kw):
    if write:
        gen.write(s, d, inp=inp, out=out, **kw)
    os.makedirs(os.path.join(d, out), exist_ok=True)
    r = ctx.sim(d, FEAT[s["problem"]] + "-serial", 1, [inp], [("seed", s["seed"]), ("precise", 1)] + fun_opts(s) + list(opts), "serial")
    if must:
        diverged(s, r, os.path.join(d, ".serial.stdout"))
    if must and r["status"] != "ok":
        raise Fail("serial-run-failed", "the single-process run of a valid scenario (%s) did not complete: %s" % (" with ".join([s["problem"]] + s.get("forcing", [])), ended(r)))
    return r


def partition(s, ctx, d, seed, inp="input.15", out="out", opts=(), must=True, write=True, balanced=None):
    if write:
        gen.write(s, d, inp=inp, out=out)
    b = s["balanced"] if balanced is None else balanced
    r = ctx.sim(d, "part", 1, [inp, s["parts"], s["nodes"], s["rpl"], "true" if b else "false"],
                [("seed", seed), ("metis_mode", s["metis_mode"])] + fun_opts(s) + list(opts), "part")
    if must and r["status"] != "ok":
        raise Fail("partitioner-failed", "partitioning a valid scenario did not complete: " + ended(r))
    return r


def parallel(s, ctx, d, seed, inp="input_parallelized.15", out="out", opts=(), must=True, name="ompi", race=False, converges=False):
    """converges: a run that must not diverge (the single-process run did not)"""
    os.makedirs(os.path.join(d, out), exist_ok=True)
    lib = FEAT[s["problem"]] + "-ompi" + ("-race" if race else "")
    r = ctx.sim(d, lib, s["ranks"], [inp],
                [("seed", seed), ("precise", 1)] + [("threads", t) for t in s["threads"]] + fun_opts(s) + list(opts), name)
    if must and not converges:
        diverged(s, r, os.path.join(d, ".%s.stdout" % name))
    if must and r["status"] != "ok":
        raise Fail("run-not-completed", "the multi-process run of a valid scenario ended with %s" % ended(r))
    return r


def modal(d, out, is_serial):
    try:
        return read_modal(modal_files(os.path.join(d, out), is_serial))
    except ValueError as e:
        raise Fail("bad-output", str(e))


def compare(a, b, tol, what, scale_floor=1e-30, na="single-process", nb="multi-process"):
    """Largest difference of two modal result sets, relative to the largest value of the field in that snapshot."""
    if set(a) != set(b) or not a:
        raise Fail("missing-output", "%s: fields %s in one run, %s in the other" % (what, sorted(a), sorted(b)))
    worst = 0.0
    for v in sorted(a):
        if list(a[v]) != list(b[v]):
            raise Fail("missing-output", "%s: snapshot times of %s differ: %s and %s" % (what, v, list(a[v])[:20], list(b[v])[:20]))
        for tm in a[v]:
            x, y = a[v][tm], b[v][tm]
            if set(x) != set(y):
                raise Fail("missing-output", "%s: %s at t=%s holds %d elements in one run, %d in the other (e.g. %s)" % (
                    what, v, tm, len(x), len(y), sorted(set(x) ^ set(y))[:5]))
            sc = max(max(abs(q) for vals in x.values() for q in vals), scale_floor)
            if v in ("qx", "qy"):  # the two momentum components share a scale
                o = a["qy" if v == "qx" else "qx"][tm]
                sc = max(sc, max(abs(q) for vals in o.values() for q in vals))
            for i in x:
                if len(x[i]) != len(y[i]):
                    raise Fail("missing-output", "%s: %s of element %d at t=%s has %d and %d coefficients" % (what, v, i, tm, len(x[i]), len(y[i])))
                for k, (p, q) in enumerate(zip(x[i], y[i])):
                    e = abs(p - q) / sc
                    if not e <= tol:
                        if p != p and q != q:
                            continue
                        raise Fail("solution-differs", "%s: %s of element %d, coefficient %d at t=%s is %.17g in the %s run and %.17g in the %s run (relative to the field's maximum: %.3g)" % (
                            what, v, i, k, tm, p, na, q, nb, e))
                    worst = max(worst, e)
    return worst


def finite(a):
    return all(q == q and abs(q) < 1e12 for v in a.values() for t in v.values() for vals in t.values() for q in vals)


def growing(s, a):
    """The implicit method's trace iteration is running away at an open boundary: roundings decide when it breaks down."""
    if s["problem"] != "ihdg_swe" or not set(s["sides"]) & {"flow", "tide", "function"}:
        return False
    q = [max(abs(x) for v in ("qx", "qy") for vals in a[v][t].values() for x in vals) for t in a["qx"]]
    return max(q) > 4 * q[0]


def illposed(s, ctx, d, a, tol):
    """Does the single-process run of the implicit method break down or change visibly when depths change in their last digits?
    (Its Newton iteration leaves out part of the derivative at open boundaries and can be marginally unstable there.)"""
    if s["problem"] != "ihdg_swe" or not set(s["sides"]) & {"flow", "tide", "function"}:
        return False
    for k in range(1, 13):
        q = dict(s, eps=3e-14 * k)
        try:
            if serial(q, ctx, d, inp="serial_eps.15", out="outs_eps", must=False)["status"] != "ok":
                return True
            compare(a, modal(d, "outs_eps", True), tol / 10, "eps")
        except Fail:
            return True
        finally:
            shutil.rmtree(os.path.join(d, "outs_eps"), ignore_errors=True)
            gen.write(s, d, inp="serial.15", out="outs")
    return False


def snapshot_bytes(d):
    """{relative path: bytes} of everything below d."""
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res


# ------------------------------------------------------------------ scenario simplifications used by minimisation
def simplify_scenario(*extra):
    def setter(**kw):
        def f(c):
            c["scen"].update(kw)
            return c
        return f

    def small(c):
        s = c["scen"]
        s["nx"], s["ny"] = max(2, s["nx"] - 1), max(2, s["ny"] - 1)
        s["parts"] = min(s["parts"], max(2, s["nx"] * s["ny"]))
        if s.get("hole") and (s["hole"][0] > s["nx"] - 2 or s["hole"][1] > s["ny"] - 2):
            s["hole"] = None
        if s.get("levee_rows"):
            if s["levee_kind"] == "tee" and s["levee_rows"][0] > s["ny"] - 1:
                return None
            s["levee_rows"] = [min(s["levee_rows"][0], s["ny"] - 1), min(s["levee_rows"][1], s["ny"])]
        return c if s["parts"] >= s["ranks"] else None

    def fewer(c):
        s = c["scen"]
        s["parts"] = min(s["parts"], max(s["ranks"], 2))
        return c

    def short(c):
        s = c["scen"]
        if s["T"] > 1:
            s["T"] = max(1, s["T"] // 2)
            s["nsteps"] = int(-(-s["T"] // s["dt"]))
        return c

    def one(c):
        c["scen"]["threads"] = [1] * c["scen"]["ranks"]
        return c
    return [one, setter(friction=None), setter(ic=None), setter(hole=None), setter(levee_kind="wall", levee_rows=None), setter(generic=False), setter(source=False), setter(ramp=0.0), setter(sides=["land"] * 4), setter(jitter=0.0, rough=0.0, slope=0.0),
            setter(start=None), setter(apart=False), setter(offset=None), setter(id_span=0), setter(perm_ids=False), short, short, small, small, small, fewer, setter(modes=1), setter(vtk=False, vtu=False, log=None)] + list(extra)
