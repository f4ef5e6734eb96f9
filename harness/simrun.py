"""Runs simulated executions and reads back what they produced."""
import glob, json, os, re, shutil, subprocess, tempfile


class SimError(Exception):
    """The simulator itself failed (not a verdict about the code under test)."""


def spec_text(kv):
    out = []
    for k, v in kv:
        out.append("%s=%s" % (k, v))
    return "\n".join(out) + "\n"


def sim(built, d, lib, ranks, args, opts, name="sim", timeout=120):
    """One execution in directory d. lib: key of built; opts: list of (key, value). Returns the result dict."""
    res = os.path.join(d, ".%s.json" % name)
    kv = [("dir", d), ("root", d), ("result", res), ("ranks", ranks)]
    for r in range(ranks):
        kv.append(("lib", os.path.join(built[lib], "r%d.so" % r)))
    for a in args:
        kv.append(("arg", a))
    kv += list(opts)
    spec = os.path.join(d, ".%s.spec" % name)
    with open(spec, "w") as fh:
        fh.write(spec_text(kv))
    if os.path.exists(res):
        os.remove(res)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
    try:
        with open(os.path.join(d, ".%s.stdout" % name), "wb") as o:
            p = subprocess.run([built["host"], spec], stdout=o, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        return {"status": "wall-timeout", "detail": "no end within %d s of wall time" % timeout, "violations": [], "steps": 0, "hash": 0, "sim_ns": 0}
    if not os.path.exists(res):
        out = open(os.path.join(d, ".%s.stdout" % name), errors="replace").read()[-2000:]
        raise SimError("simulator ended with %d and no result: %s" % (p.returncode, out))
    with open(res) as fh:
        return json.load(fh)


def read_modal(files):
    """{var: [(time, {id: (values)})]} merged over files of all subdomains; raises ValueError on malformed content."""
    out = {}
    for var, path in files:
        snaps = out.setdefault(var, {})
        cur = None
        with open(path) as fh:
            for ln, line in enumerate(fh):
                t = line.split()
                if not t:
                    continue
                if len(t) == 1:
                    cur = snaps.setdefault(t[0], {})
                    seen = {}
                    continue
                if cur is None:
                    raise ValueError("%s: data before the first time line" % path)
                i = int(t[0])
                if i in cur and seen.get(i) is None:
                    raise ValueError("%s: element %d appears in two subdomains" % (path, i))
                seen[i] = True
                cur.setdefault(i, []).extend(float(x) for x in t[1:])
    return out


def modal_files(out, serial):
    fs = glob.glob(os.path.join(out, "*_modal_*.txt" if serial else "*/*_modal_*.txt"))
    return sorted((re.search(r"_modal_(\w+)\.txt$", f).group(1), f) for f in fs)
