"""Independent reading of the files the partitioner writes and of what they should say."""
import glob, os, re
from engine import Fail

CODE = {"land": 0, "tide": 1, "flow": 2, "function": 3, "outflow": 4}
INTERNAL, DIST = 128, 64


def adjacency(els):
    """{element: [(neighbour or None) for the face opposite to node k]}."""
    edges = {}
    for e in els:
        for k in range(3):
            key = tuple(sorted((e[1 + (k + 1) % 3], e[1 + (k + 2) % 3])))
            edges.setdefault(key, []).append((e[0], k))
    nb = {e[0]: [None] * 3 for e in els}
    for v in edges.values():
        if len(v) == 2:
            (a, i), (b, j) = v
            nb[a][i], nb[b][j] = b, a
    return nb, edges


def expected(nodes, els, segs):
    """{element: (node ids, [(neighbour, type)] )} of the whole mesh."""
    nb, edges = adjacency(els)
    typ = {}
    levee = {}
    for t, l in segs:
        if t == "levee":
            for p, q in zip(l, l[1:]):
                levee[tuple(sorted((p[0], q[0])))] = tuple(sorted((p[1], q[1])))
                levee[tuple(sorted((p[1], q[1])))] = tuple(sorted((p[0], q[0])))
            for p in (l[0], l[-1]):  # a barrier that ends inside the basin
                typ.setdefault(tuple(sorted((p[0], p[1]))), CODE["land"])
        else:
            for p, q in zip(l, l[1:]):
                typ[tuple(sorted((p, q)))] = CODE[t]
    out = {}
    for e in els:
        faces = []
        for k in range(3):
            key = tuple(sorted((e[1 + (k + 1) % 3], e[1 + (k + 2) % 3])))
            if nb[e[0]][k] is not None:
                faces.append((nb[e[0]][k], INTERNAL))
            elif key in levee:
                faces.append((edges[levee[key]][0][0], INTERNAL + 1))
            else:
                faces.append((4294967295, typ[key]))
        out[e[0]] = (tuple(e[1:4]), faces)
    return out


def read_meta(path):
    with open(path, "rb") as fh:
        data = fh.read()
    if not data.endswith(b"\n"):
        raise Fail("bad-partition-file", "%s does not end with a complete line" % os.path.basename(path))
    lines = data.split(b"\n")
    name = lines[0].decode()
    n = int(lines[1].split()[0])
    els, nodes = {}, {}
    for l in lines[2:2 + n]:
        t = l.split(b" ")
        i = int(t[0])
        if i in els:
            raise Fail("bad-partition-file", "%s lists element %d twice" % (os.path.basename(path), i))
        els[i] = (tuple(int(x) for x in t[2:5]), tuple(int(x) for x in t[5:8]), tuple(x[0] for x in t[8:11]))
    m = int(lines[2 + n].split()[0])
    for l in lines[3 + n:3 + n + m]:
        t = l.split()
        nodes[int(t[0])] = tuple(float(x) for x in t[1:4])
    if len(els) != n or len(nodes) != m or lines[3 + n + m:] != [b""]:
        raise Fail("bad-partition-file", "%s: counts in the header do not match the content" % os.path.basename(path))
    return name, els, nodes


def read_dbmd(path):
    with open(path) as fh:
        lines = fh.read().split("\n")
    out, i = [], 0
    while i < len(lines) and lines[i].strip():
        h = tuple(int(x) for x in lines[i].split())
        rows = [tuple(int(x) for x in l.split()) for l in lines[i + 1:i + 1 + h[4]]]
        if len(h) != 5 or len(rows) != h[4] or any(len(r) != 5 for r in rows):
            raise Fail("bad-partition-file", "%s: malformed block at line %d" % (os.path.basename(path), i + 1))
        out.append((h[:4], rows))
        i += 1 + h[4]
    return out


def pieces(d, base):
    out = {}
    for f in glob.glob(os.path.join(d, base + "_*_*.meta")):
        m = re.search(r"_(\d+)_(\d+)\.meta$", f)
        out[(int(m.group(1)), int(m.group(2)))] = f
    return out


def check_partition(d, base, nodes, els, segs, p, ranks, parts=None, leftovers=False):
    """Raises Fail unless the partition files describe exactly the mesh; returns facts about the decomposition."""
    want = expected(nodes, els, segs)
    ps = pieces(d, base)
    bad = [k for k in ps if k[0] >= ranks]
    if leftovers:  # files of ranks this decomposition does not use are never read
        ps = {k: v for k, v in ps.items() if k[0] < ranks}
        bad = []
    if bad:
        raise Fail("bad-partition", "piece %s belongs to no rank (only %d ranks)" % (bad[0], ranks))
    if parts is not None and len(ps) != parts:
        raise Fail("bad-partition", "%d pieces on disk, %d non-empty partitions were asked for" % (len(ps), parts))
    owner, got, names = {}, {}, set()
    for k in sorted(ps):
        if k[1] > 0 and (k[0], k[1] - 1) not in ps:
            raise Fail("bad-partition", "rank %d has piece %d but no piece %d: the solver stops looking there" % (k[0], k[1], k[1] - 1))
        name, e, n = read_meta(ps[k])
        if name in names:
            raise Fail("bad-partition", "two pieces share the mesh name %s, their outputs would overwrite each other" % name)
        names.add(name)
        if not e:
            raise Fail("bad-partition", "piece %s is empty" % (k,))
        for i, v in e.items():
            if i in owner:
                raise Fail("bad-partition", "element %d is in pieces %s and %s" % (i, owner[i], k))
            owner[i], got[i] = k, v
        need = {q for v in e.values() for q in v[0]}
        if need - set(n):
            raise Fail("bad-partition", "piece %s lacks node %d" % (k, sorted(need - set(n))[0]))
        for q in n:
            if q not in nodes or any(abs(a - b) > 1e-12 * max(1.0, abs(b)) for a, b in zip(n[q], nodes[q])):
                raise Fail("bad-partition", "piece %s: node %d is at %s, the mesh has it at %s" % (k, q, n[q], nodes.get(q)))
    if set(owner) != set(want):
        raise Fail("bad-partition", "elements lost or invented: %s" % sorted(set(owner) ^ set(want))[:5])
    shared = {}
    for i in want:
        nid, faces = want[i]
        if got[i][0] != nid:
            raise Fail("bad-partition", "element %d has nodes %s, the mesh says %s" % (i, got[i][0], nid))
        for f, (nb, t) in enumerate(faces):
            cross = t >= INTERNAL and owner[nb] != owner[i]
            if cross:
                t += DIST
                a, b = owner[i], owner[nb]
                shared.setdefault((min(a, b), max(a, b)), set()).add((min((a, i, f), (b, nb, None), key=lambda x: x[0])[1], max((a, i, f), (b, nb, None), key=lambda x: x[0])[1]))
            if (got[i][1][f], got[i][2][f]) != (nb, t):
                raise Fail("bad-partition", "element %d face %d: neighbour %d type %d, expected neighbour %d type %d" % (i, f, got[i][1][f], got[i][2][f], nb, t))
    # interface lists
    dbs = {}
    for k in ps:
        f = os.path.join(d, "%s_%d_%d.dbmd" % (base, k[0], k[1]))
        if not os.path.exists(f):
            raise Fail("bad-partition", "piece %s has no interface file" % (k,))
        dbs[k] = {}
        for h, rows in read_dbmd(f):
            a, b = (h[0], h[1]), (h[2], h[3])
            if k not in (a, b) or a == b:
                raise Fail("bad-partition", "interface file of piece %s lists the pair %s-%s" % (k, a, b))
            key = (min(a, b), max(a, b))
            if key in dbs[k]:
                raise Fail("bad-partition", "interface file of piece %s lists the pair %s-%s twice" % (k, a, b))
            dbs[k][key] = (a, b, rows)
    for k in ps:
        mine = {key for key in shared if k in key}
        if set(dbs[k]) != mine:
            raise Fail("bad-partition", "piece %s should list interfaces with %s and lists %s" % (k, sorted(mine), sorted(dbs[k])))
    for key, faces in shared.items():
        x, y = dbs[key[0]][key], dbs[key[1]][key]
        if x != y:
            raise Fail("bad-partition", "pieces %s and %s list their common faces differently: they would exchange data in different orders" % key)
        a, b, rows = x
        seen = set()
        for ea, eb, fa, fb, pp in rows:
            if owner.get(ea) != a or owner.get(eb) != b:
                raise Fail("bad-partition", "interface %s-%s lists elements %d, %d of pieces %s, %s" % (a, b, ea, eb, owner.get(ea), owner.get(eb)))
            if want[ea][1][fa][0] != eb or want[eb][1][fb][0] != ea:
                raise Fail("bad-partition", "interface %s-%s: elements %d face %d and %d face %d are not neighbours" % (a, b, ea, fa, eb, fb))
            if pp != p:
                raise Fail("bad-partition", "interface %s-%s: polynomial order %d, the input says %d" % (a, b, pp, p))
            if (ea, eb) in seen:
                raise Fail("bad-partition", "interface %s-%s lists elements %d, %d twice" % (a, b, ea, eb))
            seen.add((ea, eb))
        if len(seen) != len(faces):
            raise Fail("bad-partition", "interface %s-%s lists %d of %d common faces" % (a, b, len(seen), len(faces)))
    return {"pieces": len(ps), "shared_faces": sum(len(v) for v in shared.values()), "empty_ranks": ranks - len({k[0] for k in ps})}
