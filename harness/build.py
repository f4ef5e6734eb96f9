"""Builds the simulator host and, from /repo's current working tree, the libraries that run inside it.

Each rank of a simulated run is the real driver (main renamed to sim_main) with all of its sources,
compiled into a shared object against the simulated MPI / PETSc / METIS headers.  Results are cached under
/verif/build by the hash of everything that went in (git-ignored; a fresh copy builds from nothing).
"""
import glob, hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

FEATURE = {
    "rkdg": ["RKDG_SUPPORT"],
    "ehdg": ["RKDG_SUPPORT", "EHDG_SUPPORT"],
    "ihdg": ["RKDG_SUPPORT", "IHDG_SUPPORT"],
    "gn": ["RKDG_SUPPORT", "EHDG_SUPPORT", "GN_SUPPORT"],
}
COMMON = """preprocessor/ADCIRC_reader/adcirc_format.cpp preprocessor/mesh_metadata.cpp
 simulation/stepper/explicit_ssp_rk_stepper.cpp basis/polynomials/basis_polynomials.cpp
 basis/bases_1D/basis_legendre_1D.cpp basis/bases_2D/basis_dubiner_2D.cpp
 shape/shapes_2D/shape_straighttriangle.cpp integration/integrations_2D/integration_dunavant_2D.cpp
 integration/integrations_1D/integration_gausslegendre_1D.cpp problem/SWE/problem_input/swe_inputs.cpp""".split()
OMPI = ["simulation/ompi/simulation_ompi_base.cpp", "dgswemv2-ompi.cpp", "communication/ompi_communicator.cpp"]
SERIAL = ["simulation/serial/simulation_base.cpp", "dgswemv2-serial.cpp"]
PART_COMMON = ["preprocessor/ADCIRC_reader/adcirc_format.cpp", "preprocessor/mesh_metadata.cpp", "problem/SWE/problem_input/swe_inputs.cpp"]
WRAP = "memcpy memmove memset malloc free calloc realloc exit abort".split()


class BuildError(Exception):
    pass


def _listed(cmake, var=r"source/([\w/.-]+\.cpp)"):
    """Source files named in a CMake file of the repository (a file split in two stays complete)."""
    try:
        with open(os.path.join(REPO, cmake)) as fh:
            return [f for f in re.findall(var, fh.read()) if os.path.exists(os.path.join(REPO, "source", f))]
    except OSError:
        return []


def _hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _repo_files():
    out = []
    for base in ("source", "partitioner"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".tpp"))]
    return out + [os.path.join(REPO, "CMakeLists.txt")]


def _sim_headers():
    return glob.glob(SIM + "/include/*") + glob.glob(SIM + "/functions/**/*.hpp", recursive=True)


def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    log.append(p.stdout)


_pool = ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 4))


def _prune(keep):
    """Drop all but the most recent cached builds."""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
        for d in [d for d in ds if os.path.isdir(d) and os.path.basename(d).split("-")[0] in ("host", "lib")][60:]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def _finish(tmp, out):
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def host_jobs():
    files = glob.glob(SIM + "/host/*") + glob.glob(SIM + "/include/*")
    out = os.path.join(BUILD, "host-" + _hash_files(files, "host1"))
    exe = os.path.join(out, "simhost")
    if os.path.exists(exe):
        return exe, [], None
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    objs, jobs = [], []
    for c in sorted(glob.glob(SIM + "/host/*.cpp")):
        o = os.path.join(tmp, os.path.basename(c)[:-4] + ".o")
        objs.append(o)
        jobs.append(["g++", "-std=gnu++17", "-O2", "-g1", "-fopenmp", "-I/usr/include/eigen3", "-I" + SIM + "/include", "-c", c, "-o", o])

    def link():
        _run(["g++"] + objs + ["-o", os.path.join(tmp, "simhost"), "-Wl,--dynamic-list=" + SIM + "/host/exports.txt", "-ldl"], [])
        for o in objs:
            os.remove(o)
        _finish(tmp, out)
    return exe, jobs, link


def lib_jobs(name, files_hash):
    """name: <feature>-<ompi|serial>[-race]  or  part"""
    parts = name.split("-")
    race = "race" in parts
    kind = "part" if parts[0] == "part" else parts[1]
    flags = ["-include", SIM + "/include/simassert.hpp", "-std=gnu++14", "-O1", "-fPIC", "-fno-gnu-unique", "-fopenmp", "-w",
             "-DSWE_SUPPORT", "-DUSE_EIGEN", "-D_GLIBCXX_ASSERTIONS", "-I" + SIM + "/include", "-I" + SIM + "/functions",
             "-I" + REPO + "/source", "-I" + REPO, "-I" + REPO + "/partitioner", "-I/usr/include/eigen3"]
    if kind == "part":
        flags += ["-DRKDG_SUPPORT"]
        srcs = [os.path.join(REPO, "source", s) for s in PART_COMMON]
        srcs += sorted(glob.glob(REPO + "/partitioner/*.cpp") + glob.glob(REPO + "/partitioner/problem/*.cpp"))
    else:
        flags += ["-D" + d for d in FEATURE[parts[0]]]
        if kind == "ompi":
            flags += ["-DHAS_PETSC"]
        srcs = [os.path.join(REPO, "source", s) for s in (OMPI if kind == "ompi" else SERIAL) + COMMON + [f for f in _listed("CMakeLists.txt") if f not in COMMON]]
    if race:
        flags += ["-fsanitize=thread", "-g1"]
    out = os.path.join(BUILD, "lib-%s-%s" % (name, hashlib.sha256((files_hash + " ".join(flags)).encode()).hexdigest()[:20]))
    so = os.path.join(out, "r0.so")
    if os.path.exists(os.path.join(out, "done")):
        return out, [], None
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    objs, jobs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(s)[:-4]))
        objs.append(o)
        jobs.append(["g++"] + flags + ["-c", s, "-o", o])

    def link():
        t = os.path.join(tmp, "r0.so")
        _run(["g++", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-fno-gnu-unique"] + ["-Wl,--wrap=" + w for w in WRAP] +
             objs + ["-lyaml-cpp", "-o", t], [])
        for o in objs:
            os.remove(o)
        for r in range(1, 8 if kind == "ompi" else 1):
            shutil.copyfile(t, os.path.join(tmp, "r%d.so" % r))
        open(os.path.join(tmp, "done"), "w").close()
        _finish(tmp, out)
    return out, jobs, link


def build(names):
    """Returns {'host': exe, name: directory with r0.so ...}; everything missing is compiled in parallel."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    fh = _hash_files(_repo_files() + _sim_headers(), "lib2 " + REPO)
    res, futs, links = {}, [], []
    exe, jobs, link = host_jobs()
    res["host"] = exe
    todo = [(jobs, link)]
    for n in names:
        d, jobs, link = lib_jobs(n, fh)
        res[n] = d
        todo.append((jobs, link))
    # biggest translation units first
    allj = [(0 if "simulation_" in j[-3] and "base" in j[-3] else 1, j) for js, _ in todo for j in js]
    allj.sort(key=lambda x: x[0])
    futs = [_pool.submit(_run, j, []) for _, j in allj]
    for f in futs:
        f.result()
    for _, link in todo:
        if link:
            link()
    used = {os.path.dirname(x) for x in res.values() if isinstance(x, str)}
    for d in used:
        os.utime(d)
    _prune(used)
    res["seconds"] = time.time() - t0
    return res


if __name__ == "__main__":
    r = build(sys.argv[1:])
    print(r)
