"""Seeded scenario generator: triangular meshes, boundary data, input files, decompositions.

A scenario is a plain dict (stored in replay files); write() turns it into the input files of one run.
"""
import datetime, math, os, random

G = 9.81


def draw(seed, problem="rkdg_swe", **f):
    """Draws a scenario. Feature switches (None: drawn, True/False: forced): wd, sl, levee, friction, source, nosrc..."""
    r = random.Random("scen-%s-%d" % (problem, seed))

    def flag(name, p):
        x = r.random() < p
        return x if f.get(name) is None else bool(f[name])
    s = {"seed": seed, "problem": problem}
    small = problem in ("ihdg_swe", "ehdg_gn")
    levee = flag("levee", 0.0)
    s["levee"] = levee
    big = random.Random("big-%s-%d" % (problem, seed))
    s["nx"] = r.randint(2, 4 if small else 5)
    s["ny"] = r.randint(2, 4 if small else 5)
    if levee:
        s["nx"] = r.randint(2, 3)
    s["dx"] = r.choice([200.0, 350.0, 600.0])
    ocean = big.random() < 0.06 and not levee and not any(f.get(x) for x in ("wd", "sl", "lab", "wild", "closed", "rest"))
    large = big.random() < (0.02 if problem in ("rkdg_swe", "ehdg_swe") else 0.008) and not levee and not f.get("many")
    if ocean:
        s["dx"] = big.choice([5000.0, 20000.0])
    if large:
        s["nx"], s["ny"] = big.randint(7, 12), big.randint(7, 12)
    s["jitter"] = r.choice([0.0, 0.15, 0.22])
    s["perm_ids"] = r.random() < 0.7
    wd, sl = flag("wd", 0.0), flag("sl", 0.0)
    s["wd"] = {"h_o": r.choice([0.05, 0.1, 0.3])} if wd else None
    s["sl"] = {"M": r.choice([1e-8, 1e-4]), "nu": r.choice([1.0, 1.5])} if sl else None
    if problem == "rkdg_swe":
        s["p"] = 1 if (wd or sl) and r.random() < 0.8 else r.choice([1, 1, 2, 3])
        if wd or sl:
            s["p"] = 1
    elif problem == "ehdg_swe":
        s["p"] = 1 if (wd or sl) else r.choice([1, 2])
    else:
        s["p"] = 1 if problem == "ehdg_gn" else r.choice([1, 2])
    hi = random.Random("p-%s-%d" % (problem, seed))
    if not (wd or sl) and hi.random() < 0.06:
        s["p"] = hi.choice({"ihdg_swe": [3], "ehdg_gn": [2, 2, 3]}.get(problem, [3, 4, 5]))
    if f.get("p"):
        s["p"] = f["p"]
    H = r.choice([2.0, 5.0, 10.0, 20.0])
    if ocean:
        H = big.choice([80.0, 1000.0, 4000.0])
    if f.get("lab"):  # a laboratory flume: elements smaller than a metre
        s["lab"] = True
        s["dx"] = r.choice([0.3, 0.5, 1.0])
        H = r.choice([0.1, 0.2, 0.3])
    s["H"] = H
    s["slope"] = r.choice([0.0, 0.05, 0.2])
    s["rough"] = r.choice([0.0, 0.05])
    if wd:
        s["H"] = H = r.choice([1.0, 2.0])
        if f.get("wild"):  # bores over a steep beach
            s["wild"] = True
        s["beach"] = r.choice([0.8, 1.2, 1.6])  # ground rises above still water when > 1
    if levee:
        s["levee_h"] = r.choice([-0.2, 0.05, 0.1, 1.0])
        s["levee_c"] = [r.choice([0.5, 1.0]), r.choice([0.5, 1.0])]
    s["amp"] = r.choice([0.02, 0.1, 0.2])
    if f.get("lab"):
        s["amp"] = r.choice([0.1, 0.2, 0.3] if s["sl"] else [0.05, 0.1])
    s["modes"] = r.randint(1, 3)
    s["rest"] = flag("rest", 0.0)
    kinds = ["land", "land", "tide", "flow", "function"]
    if f.get("closed"):
        kinds = ["land"]
    s["sides"] = [r.choice(kinds) for _ in range(4)]
    if wd:
        s["sides"] = [x if x in ("land", "tide") else "land" for x in s["sides"]]
        s["sides"][1] = "land"
        if f.get("wild"):  # tides that fall below the ground prescribe a negative depth
            s["sides"] = ["land"] * 4
        if problem == "ehdg_swe":  # the trace iteration of an open boundary has no start value on ground above the datum
            s["sides"][0] = s["sides"][2] = "land"
    s["friction"] = r.choice(["chezy", "manning"]) if flag("friction", 0.4) else None
    s["cf"] = r.choice([0.001, 0.01])
    s["source"] = flag("source", 0.3) and not s["rest"]
    order, nst = r.choice([(1, 1), (2, 2), (3, 3), (3, 4), (4, 5)])
    if problem == "ihdg_swe":
        order, nst = r.choice([(1, 1), (2, 2)])
    if problem == "ehdg_gn":
        order, nst = r.choice([(1, 1), (2, 2), (3, 3)])
    s["order"], s["nstages"] = order, nst
    s["ramp"] = r.choice([0.0, 0.0, 3.0])
    c = math.sqrt(G * H * 1.5) + (0.3 if f.get("lab") else 2.0)
    dtmax = 0.25 * 0.3 * s["dx"] / (c * (2 * s["p"] + 1))
    steps = f.get("steps") or r.randint(2, 4 if small else 6)
    # whole-second run time, dt not always dividing it
    T = max(1, int(math.floor(dtmax * steps)))
    n = max(steps, int(math.ceil(T / dtmax)))
    dt = T / n
    if r.random() < 0.4:
        dt = dt * r.choice([0.97, 0.93])
    s["T"], s["dt"] = T, round(dt, 6) if r.random() < 0.6 else dt
    s["nsteps"] = int(math.ceil(T / s["dt"]))
    div = [k for k in range(1, s["nsteps"] + 1) if s["nsteps"] % k == 0]
    s["out_every"] = f.get("out_every") or (r.choice(div) if r.random() < 0.8 else r.randint(1, s["nsteps"]))
    s["vtk"] = bool(f.get("vtk"))
    s["vtu"] = bool(f.get("vtu"))
    s["log"] = f.get("log")
    rr = random.Random("more-%s-%d" % (problem, seed))
    s["sph"] = [rr.choice([0.0, 12.0, 30.0, -25.0]), rr.choice([-79.0, 0.0, 3.5]), rr.choice([6378206.4, 6378206.4, 200000.0])] if (rr.random() < 0.15 if f.get("sph") is None else f["sph"]) else None
    s["forcing"] = [x for x in ("coriolis", "tide_potential", "meteo") if rr.random() < 0.12]
    if f.get("meteo"):
        s["forcing"] = ["meteo"]
    s["buffer"] = (rr.choice([0.2, 0.5, 1.0]) if rr.random() < 0.35 else 0.0) if problem == "ehdg_gn" else 0.0
    s["meteo_every"] = random.Random("meteo-%s-%d" % (problem, seed)).choice([1, 2, 2, 3, 5])
    ext = random.Random("ext-%s-%d" % (problem, seed))
    if problem in ("rkdg_swe", "ehdg_swe") and ext.random() < 0.25:
        s["order"], s["nstages"] = ext.choice([(3, 5), (3, 6), (3, 7), (3, 8), (4, 6), (4, 7), (4, 8)])
    if problem == "ihdg_swe" and ext.random() < 0.2:
        s["order"], s["nstages"] = 2, 1
    s["ic"] = None
    if ext.random() < 0.12 and not wd and not f.get("lab"):  # uniform initial state instead of a function, or none given at all
        s["ic"] = [round(ext.uniform(-0.05, 0.05) * H, 4), round(ext.uniform(-0.3, 0.3) * H, 4), round(ext.uniform(-0.3, 0.3) * H, 4)] if ext.random() < 0.7 else []
    s["ibtypes"] = [ext.choice([0, 0, 10, 20]), ext.choice([2, 12, 22]), ext.choice([4, 24])]
    s["generic"] = ext.random() < 0.15
    far = random.Random("far-%s-%d" % (problem, seed))  # sizes and values away from the usual ones
    s["long"] = far.random() < 0.04 and problem in ("rkdg_swe", "ehdg_swe") and not (wd or sl or s["wd"] or f.get("steps") or f.get("out_every"))
    if s["long"]:
        s["nx"] = s["ny"] = 2
        s["T"] = max(1, int(s["dt"] * far.randint(60, 140)))
        s["nsteps"] = int(math.ceil(s["T"] / s["dt"]))
        s["out_every"] = max(1, s["nsteps"] // far.randint(2, 5))
    s["id_span"] = far.choice([70000, 5000000, 2000000000]) if far.random() < 0.15 else 0
    s["offset"] = far.choice([[423000.0, 3301000.0], [-120000.0, 45000.0], [-700.0, -900.0]]) if far.random() < 0.2 and not s["sph"] else None
    s["apart"] = not levee and far.random() < 0.05
    if s["apart"]:
        s["nx"] = min(s["nx"], 3)
    s["start"] = None
    if far.random() < 0.3:
        s["start"] = far.choice(["31-12-1999 23:59:59", "28-02-2004 23:59:58", "28-02-2100 23:59:59", "29-02-2008 12:00:00", "31-03-2019 01:59:59", "27-10-2019 02:59:58", "31-12-1969 23:59:59", "19-01-2038 03:14:06", "10-11-2012 23:30:00"])
    s["hole"] = None
    if not levee and not s["apart"] and ext.random() < 0.2 and s["nx"] >= 3 and s["ny"] >= 3:  # an island
        s["hole"] = [ext.randint(1, s["nx"] - 2), ext.randint(1, s["ny"] - 2)]
    if levee:
        s["levee_bent"] = bool(f.get("levee_bent"))
        s["levee_kind"] = "tee" if s["levee_bent"] else f.get("levee_kind") or ext.choice(["wall", "wall", "slit", "tee"])
        if s["levee_kind"] == "slit":
            j = ext.randint(0, s["ny"] - 1)
            s["levee_rows"] = [j, ext.randint(j + 1, s["ny"])]
        if s["levee_kind"] == "tee":
            s["levee_rows"] = [ext.randint(1, s["ny"] - 1)] * 2
    # decomposition
    s["skew"] = random.Random("skew-%s-%d" % (problem, seed)).choice([0.0, 0.0, 0.5, 2.2]) if f.get("skew") is None else f["skew"]
    ne = s["nx"] * s["ny"] * 2 * (2 if levee or s["apart"] else 1)
    ranks = f.get("ranks") or r.choice([1, 2, 2, 3, 4])
    rpl = r.choice([d for d in (1, 2) if ranks % d == 0])
    nodes = ranks // rpl
    maxp = min(ranks * 3, ne // 2, 7)
    parts = f.get("parts") or r.randint(max(ranks, 2), max(maxp, max(ranks, 2)))
    if not (f.get("ranks") or f.get("parts")):
        x = far.random()
        if x < 0.05:  # many small pieces
            ranks = far.choice([1, 2, 4, 6])
            rpl = far.choice([d for d in (1, 2, 3) if ranks % d == 0])
            nodes, parts = ranks // rpl, max(ranks, min(ne, far.choice([9, 11, 14])))
        elif x < 0.08:
            nodes = rpl = parts = ranks = 1
    s["nodes"], s["rpl"], s["parts"], s["ranks"] = nodes, rpl, parts, ranks
    s["metis_mode"] = r.randint(0, 4)
    s["balanced"] = r.random() < 0.3
    s["threads"] = [r.choice([1, 1, 2, 3]) for _ in range(ranks)]
    if big.random() < 0.05 and not f.get("small"):  # more processes or threads than usual
        if not (f.get("ranks") or f.get("parts")):
            ranks = big.choice([x for x in (5, 7, 8) if 2 * x <= ne] or [ranks])
            rpl = big.choice([x for x in (1, 2, 4) if ranks % x == 0])
            s["nodes"], s["rpl"], s["ranks"], s["parts"] = ranks // rpl, rpl, ranks, max(parts, min(ne, big.randint(ranks, ranks + 5)))
        s["threads"] = [big.choice([1, 1, 4, 5]) for _ in range(ranks)]
    if f.get("threads"):
        s["threads"] = [f["threads"]] * ranks
    if f.get("many"):  # more pieces per process than fit into one byte
        s["nx"] = s["ny"] = 18
        s["ranks"], s["rpl"], s["nodes"], s["parts"], s["threads"] = 2, 1, 2, far.choice([530, 600, 648]), [far.choice([1, 2, 3]) for _ in range(2)]
        s["p"], s["hole"], s["balanced"] = 1, None, False
    return s


def geometry(s):
    """Nodes {id: (x,y,z)}, elements [(id, n0,n1,n2)], boundary segments [(type, [node ids] or levee rows)]."""
    r = random.Random("geom-%d" % s["seed"])
    nx, ny, dx = s["nx"], s["ny"], s["dx"]
    blocks = 2 if s["levee"] or s.get("apart") else 1
    kind = s.get("levee_kind", "wall") if s["levee"] else None
    rows = s.get("levee_rows")
    pts, elems, segs = [], [], []
    index = {}
    W = nx * dx * blocks

    def bath(x, y):
        X, Y = x / W, y / (ny * dx)
        if s["wd"]:
            return s["H"] * (1.0 - s["beach"] * X) + s["rough"] * s["H"] * math.sin(5 * Y + 3 * X)
        b = s["H"] * (1 + s["slope"] * math.sin(2.1 * X + 1.3) * math.cos(1.7 * Y) + s["rough"] * (r.random() - 0.5))
        return b
    for b in range(blocks):
        gap = b * (0.5 if kind == "slit" else 0.05) * dx
        x0 = b * nx * dx + gap
        jit = {}
        for j in range(ny + 1):
            for i in range(nx + 1):
                x, y = x0 + i * dx, j * dx
                if 0 < i < nx and 0 < j < ny:
                    x += dx * s["jitter"] * (2 * r.random() - 1)
                    y += dx * s["jitter"] * (2 * r.random() - 1)
                if kind == "tee" and b == 1:  # the lower basin lies 0.03dx further down: facing edges keep equal lengths
                    if j == rows[0]:
                        index[(2, i, j)] = len(pts)
                        pts.append((x, y - 0.03 * dx))
                    elif j < rows[0] and not s.get("levee_bent"):
                        y -= 0.03 * dx
                index[(b, i, j)] = len(pts)
                pts.append((x, y))
        for j in range(ny):
            for i in range(nx):
                if s.get("hole") == [i, j] and b == 0:
                    continue
                a, c, d, e = index[(b, i, j)], index[(b, i + 1, j)], index[(b, i + 1, j + 1)], index[(b, i, j + 1)]
                if kind == "tee" and b == 1 and j + 1 == rows[0]:  # the lower basin ends at the crossing barrier
                    d, e = index[(2, i + 1, j + 1)], index[(2, i, j + 1)]
                tri = [(a, c, d), (a, d, e)] if r.random() < 0.5 else [(a, c, e), (c, d, e)]
                for t in tri:
                    k = r.randrange(3)
                    elems.append(t[k:] + t[:k])
    slits = []
    if kind == "slit":  # the barrier ends inside the basin, water flows around it
        slits = [j for j in range(ny) if not rows[0] <= j < rows[1]]
        for j in slits:
            a, c, d, e = index[(0, nx, j)], index[(1, 0, j)], index[(1, 0, j + 1)], index[(0, nx, j + 1)]
            elems += [(a, c, d), (a, d, e)]
    z = [bath(*p) * (1 + s.get("eps", 0.0)) for p in pts]
    if s["levee"]:  # both sides of the barrier share the ground level
        for j in range(ny + 1):
            z[index[(1, 0, j)]] = z[index[(0, nx, j)]]
    n, m = len(pts), len(elems)
    if s["perm_ids"]:
        nid = r.sample(range(1, max(3 * n + 5, s.get("id_span") or 0)), n)
        eid = r.sample(range(0, max(3 * m + 5, s.get("id_span") or 0)), m)
    else:
        nid = list(range(1, n + 1))
        eid = list(range(1, m + 1))
    if s.get("skew"):  # the basin does not lie along the axes
        cs, sn = math.cos(s["skew"]), math.sin(s["skew"])
        pts = [(cs * x - sn * y, sn * x + cs * y) for x, y in pts]
    if s.get("offset"):
        pts = [(x + s["offset"][0], y + s["offset"][1]) for x, y in pts]
    if s.get("sph"):
        lat0, lon0, R = s["sph"]
        pts = [(lon0 + math.degrees(x / (R * math.cos(math.radians(lat0)))), lat0 + math.degrees(y / R)) for x, y in pts]
    nodes = {nid[i]: (pts[i][0], pts[i][1], z[i]) for i in range(n)}
    els = [(eid[k],) + tuple(nid[v] for v in elems[k]) for k in range(m)]
    r.shuffle(els)
    L = blocks - 1
    bottom = [[nid[index[(b, i, 0)]] for i in range(nx + 1)] for b in range(blocks)]
    top = [[nid[index[(b, i, ny)]] for i in range(nx + 1)] for b in range(blocks)]
    left = [nid[index[(0, 0, j)]] for j in range(ny + 1)]
    right = [nid[index[(L, nx, j)]] for j in range(ny + 1)]
    for b in range(blocks):
        segs.append((s["sides"][0], bottom[b]))
        segs.append((s["sides"][2], top[b]))
    segs.append((s["sides"][3], left))
    if kind == "tee":  # the two basins on the right end at different nodes of the crossing barrier
        k = rows[0]
        segs.append((s["sides"][1], [nid[index[(1, nx, j)]] for j in range(k)] + [nid[index[(2, nx, k)]]]))
        segs.append((s["sides"][1], right[k:]))
    else:
        segs.append((s["sides"][1], right))
    if s.get("hole"):
        i, j = s["hole"]
        segs.append(("land", [nid[index[(0, p, q)]] for p, q in ((i, j), (i, j + 1), (i + 1, j + 1), (i + 1, j), (i, j))]))
    if kind == "slit":
        if 0 in slits:
            segs.append(("land", [bottom[0][-1], bottom[1][0]]))
        if ny - 1 in slits:
            segs.append(("land", [top[0][-1], top[1][0]]))
    if s.get("apart"):  # two basins that share no water
        segs.append(("land", [nid[index[(0, nx, j)]] for j in range(ny + 1)]))
        segs.append(("land", [nid[index[(1, 0, j)]] for j in range(ny + 1)]))
    if s["levee"]:
        def barrier(pairs):
            segs.append(("levee", [(nid[index[a]], nid[index[b]], s["levee_h"] + 0.02 * r.random(), s["levee_c"][0], s["levee_c"][1]) for a, b in pairs]))
        if kind == "tee":
            k = rows[0]
            barrier([((0, nx, j), (1 if j < k else 2, 0, j)) for j in range(k + 1)])
            barrier([((0, nx, j), (1, 0, j)) for j in range(k, ny + 1)])
            barrier([((2, i, k), (1, i, k)) for i in range(nx + 1)])
        else:
            lo, hi = rows if kind == "slit" else (0, ny)
            barrier([((0, nx, j), (1, 0, j)) for j in range(lo, hi + 1)])
    return nodes, els, segs


def functions(s):
    """Lines for the simulator: fun=<which> <component> <amp> <kx> <ky> <omega> <phase>."""
    r = random.Random("fun-%d" % s["seed"])
    out = []
    L = s["dx"] * max(s["nx"], s["ny"])

    u = 0.1 if s.get("lab") else 1.0
    if s.get("level") is not None:
        return ["0 0 %.9g 0 0 0 0" % s["level"]]

    def modes(which, comp, amp, n, om=0.0):
        for _ in range(n):
            out.append("%d %d %.9g %.9g %.9g %.9g %.9g" % (which, comp, amp / n, r.uniform(-3, 3) / L, r.uniform(-3, 3) / L,
                                                          om * r.uniform(0.2, 1), r.uniform(0, 6.28)))
    if not s["rest"]:
        a = s["amp"] * s["H"]
        if s["wd"]:
            a = min(a, 0.3)
            if s.get("wild"):
                a = 0.6 * s["H"]
        if s["levee"]:
            a = 0.3
        modes(0, 0, a, s["modes"])
        if s["wd"]:
            pass
        else:
            modes(0, 1, s["H"] * u, s["modes"])
            modes(0, 2, s["H"] * u, s["modes"])
        if s["source"]:
            k = 0.02 if s.get("lab") else 1.0
            modes(1, 0, 0.01 * k, 2, 0.5)
            modes(1, 1, 0.05 * k, 2, 0.5)
            modes(1, 2, 0.05 * k, 2, 0.5)
        modes(2, 0, 0.1 * s["H"], 1, 0.5)
        modes(2, 1, 0.5 * u * s["H"], 1, 0.5)
        modes(2, 2, 0.5 * u * s["H"], 1, 0.5)
    return out


def relabelled(s, nodes, els, segs):
    """The same mesh under other labels: maps for nodes and elements, shuffled listings, rotated corners."""
    r = random.Random("relabel-%s" % s["relabel"])
    def top(n):
        return r.choice([4 * n + 9, 300000, 2 ** 31 - 1, 2 ** 31 - 1])

    def labels(n, hi):
        u = r.random()
        if hi > 2 * 65536 * n and u < 0.25:  # labels that agree in their low half word
            k = r.randint(1, 3)
            return r.sample(range(k, hi, 65536), n)
        if hi > 2 ** 24 and u < 0.75:  # small labels beside labels that hold small numbers in their upper digits
            b = r.choice([2 ** 8, 1000, 2 ** 12, 2 ** 16, 2 ** 16, 2 ** 16, 100000, 2 ** 20, 2 ** 24])
            m = min(n, hi // b - 1)
            c = max(2, -(-2 * n // m))
            pool = {a for a in range(1, m + 1)} | {a * b + k for a in range(1, m + 1) for k in range(1, c + 1)}
            return r.sample(sorted(pool), n)
        return r.sample(range(1, hi), n)
    nm = dict(zip(nodes, labels(len(nodes), top(len(nodes)))))
    em = dict(zip((e[0] for e in els), labels(len(els), top(len(els)))))
    es = []
    for e in els:
        k = r.randrange(3)
        v = e[1:]
        es.append((e[0],) + v[k:] + v[:k])
    r.shuffle(es)
    ss = list(segs)
    r.shuffle(ss)
    return nm, em, es, ss


def write(s, d, fmt="Adcirc", mesh="mesh.14", inp="input.15", out="out"):
    """Writes mesh, boundary data and input file below d; returns geometry (under the scenario's own labels)."""
    nodes, els, segs = geometry(s)
    r = random.Random("bc-%d" % s["seed"])
    nm, em, es, ss = {v: v for v in nodes}, {e[0]: e[0] for e in els}, els, segs
    turn = 0.0
    if s.get("relabel") is not None:
        nm, em, es, ss = relabelled(s, nodes, els, segs)
        turn = s.get("turn", 0.0)
    o = ["simmesh", "%d %d" % (len(els), len(nodes))]
    nk = list(nodes)
    r.shuffle(nk)
    if s.get("relabel") is not None:
        random.Random(s["relabel"]).shuffle(nk)
    o += ["%d %.15g %.15g %.15g" % (nm[k], *nodes[k]) for k in nk]
    o += ["%d 3 %d %d %d" % (em[e[0]], nm[e[1]], nm[e[2]], nm[e[3]]) for e in es]
    opn = [x for x in ss if x[0] == "tide"]
    gen = [x for x in ss if x[0] == "land"] if s.get("generic") else []
    gen = gen[:len(gen) // 2]
    lnd = [x for x in ss if x[0] != "tide" and not any(x is y for y in gen)]
    o += ["%d = Number of open boundaries" % len(opn), "%d = total" % sum(len(x[1]) for x in opn)]
    for _, l in opn:
        o.append("%d = nodes" % len(l))
        o += [str(nm[v]) for v in l]
    o += ["%d = Number of land boundaries" % len(lnd), "%d = total" % sum(len(x[1]) for x in lnd)]
    ib = s.get("ibtypes", [0, 2, 4])
    code = {"land": ib[0], "flow": ib[1], "function": 77, "outflow": 88, "levee": ib[2]}
    for t, l in lnd:
        o.append("%d %d = nodes" % (len(l), code[t]))
        o += ["%d %d %.9g %.9g %.9g" % ((nm[v[0]], nm[v[1]]) + tuple(v[2:])) if t == "levee" else str(nm[v]) for v in l]
    if gen:
        o += ["%d = Number of generic boundaries" % len(gen), "%d = total" % sum(len(x[1]) for x in gen)]
        for _, l in gen:
            o.append("%d = nodes" % len(l))
            o += [str(nm[v]) for v in l]
    with open(os.path.join(d, mesh), "w") as fh:
        fh.write("\n".join(o) + "\n")
    b = []
    for t, l in segs:
        if t in ("tide", "flow"):
            ncon = r.randint(1, 2)
            b.append("%d %d" % ({"tide": 1, "flow": 2}[t], len(l)))
            b.append(str(ncon))
            for _ in range(ncon):
                b.append("%.9g %.9g %.9g" % (r.uniform(0.01, 0.5), r.uniform(0.5, 1), r.uniform(0, 6) + turn))
                for v in l:
                    a = 0.0 if s["rest"] else (0.05 if t == "tide" else 0.03 if s.get("lab") else 0.3) * s["H"] * r.uniform(0.5, 1)
                    b.append("%d %.9g %.9g" % (nm[v], a, r.uniform(0, 0.3) - turn))
        elif t == "levee":
            b.append("%d %d" % (129, len(l)))
            b += ["%d %d %.9g %.9g %.9g" % ((nm[v[0]], nm[v[1]]) + tuple(v[2:])) for v in l]
    base = mesh.rsplit(".", 1)[0]
    if b:
        with open(os.path.join(d, base + ".bcis"), "w") as fh:
            fh.write("\n".join(b) + "\n")
    if s["friction"] == "manning":
        lines = ["%d %.6g\n" % (nm[v], r.uniform(0.02, 0.05)) for v in nodes]
        if s.get("relabel") is not None:
            random.Random(s["relabel"]).shuffle(lines)
        with open(os.path.join(d, "manning.txt"), "w") as fh:
            fh.write("".join(lines))
    if s["problem"] == "ehdg_gn":
        with open(os.path.join(d, "buffer_elements"), "w") as fh:
            for e in sorted(els):
                if r.random() < s.get("buffer", 0.0):
                    fh.write("%d\n" % em[e[0]])
    if "meteo" in s.get("forcing", []):
        w = 0.05 if s.get("lab") else 1.0
        for k in range(2 * s["nsteps"] + 12):
            with open(os.path.join(d, "meteo_%d.txt" % k), "w") as fh:
                for j, v in enumerate(nodes):
                    fh.write("%d %.6g %.6g %.8g\n" % (nm[v], (0.1 + 1.5 * (k * 5 % 7) / 7) * w, (0.2 - 0.02 * (j * 7 % 5)) * w, 101300 + 40 * w * ((3 * k + 5 * j) % 7)))
    with open(os.path.join(d, inp), "w") as fh:
        fh.write(input_text(s, fmt, mesh, out))
    return nodes, els, segs


def times(s):
    t0 = datetime.datetime.strptime(s.get("start") or "01-01-2000 00:00:00", "%d-%m-%Y %H:%M:%S")
    return ["  %s_time: %s" % (k, t.strftime("%d-%m-%Y %H:%M:%S")) for k, t in (("start", t0), ("end", t0 + datetime.timedelta(seconds=s["T"])))]


def input_text(s, fmt, mesh, out):
    y = ["polynomial_order: %d" % s["p"], "mesh:", "  format: %s" % fmt, "  file_name: %s" % mesh, "  coordinate_system: %s" % ("spherical" if s.get("sph") else "cartesian"),
         "timestepping:"] + times(s) + ["  dt: %s" % s.get("dt_text", "%.17g" % s["dt"]), "  order: %d" % s["order"],
         "  nstages: %d" % s["nstages"], "  ramp_duration: %.9g" % s["ramp"],
         "problem:", "  name: %s" % s["problem"], "  gravity: 9.81", "  density_air: 1.225", "  density_water: 1000.0",
         ] + ([] if s.get("ic") == [] else ["  initial_conditions:"])
    if s.get("ic") == []:
        pass
    elif s.get("ic"):
        y += ["    type: Constant", "    initial_surface_height: %.9g" % s["ic"][0], "    initial_momentum_x: %.9g" % s["ic"][1], "    initial_momentum_y: %.9g" % s["ic"][2]]
    elif s["rest"]:
        y += ["    type: Constant", "    initial_surface_height: 0.0", "    initial_momentum_x: 0.0", "    initial_momentum_y: 0.0"]
    else:
        y += ["    type: Function"]
    if s.get("sph"):
        y += ["  spherical_projection:", "    longitude_o: %.9g" % s["sph"][1], "    latitude_o: %.9g" % s["sph"][0], "    R: %.9g" % s["sph"][2]]
    if "coriolis" in s.get("forcing", []):
        y += ["  coriolis: Enable"]
    if "tide_potential" in s.get("forcing", []):
        y += ["  tide_potential:", "    type: Test"]
    if "meteo" in s.get("forcing", []):
        y += ["  meteo_forcing:", "    type: wind", "    raw_input_file: raw", "    input_file: meteo.txt", "    frequency: %.17g" % (s.get("meteo_every", 2) * s["dt"])]
    if s["source"]:
        y += ["  function_source: Enable"]
    if s["friction"] == "chezy":
        y += ["  bottom_friction:", "    type: Chezy", "    coefficient: %.9g" % s["cf"]]
    elif s["friction"] == "manning":
        y += ["  bottom_friction:", "    type: Manning", "    coefficient: %.9g" % s["cf"], "    input_file: manning.txt"]
    if s["wd"]:
        y += ["  wetting_drying:", "    h_o: %.9g" % s["wd"]["h_o"]]
    if s["sl"]:
        y += ["  slope_limiting:", "    type: Cockburn-Shu", "    M: %.9g" % s["sl"]["M"], "    nu: %.9g" % s["sl"]["nu"]]
    if out:
        y += ["output:", "  path: %s/" % out]
        if s["log"]:
            y += ["  logfile:", "    name: log", "    verbose: %s" % ("true" if s["log"] == "verbose" else "false")]
        fr = s["out_every"] * s["dt"]
        if not s.get("no_modal"):
            y += ["  modal:", "    frequency: %s" % s.get("modal_f", "%.17g" % fr)]
        if s["vtk"]:
            y += ["  vtk:", "    frequency: %s" % s.get("vtk_f", "%.17g" % fr)]
        if s["vtu"]:
            y += ["  vtu:", "    frequency: %s" % s.get("vtu_f", "%.17g" % fr)]
    return "\n".join(y) + "\n"
