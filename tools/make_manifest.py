"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.argv = sys.argv[:1]
import checks
TECH = "deterministic simulation: seeded search over schedules, message timing and faults; "
T = {
    "D01": "differential oracle against the single-process run", "D02": "differential oracle against the single-process run",
    "D03": "differential oracle against the single-process run (simulated PETSc)", "D04": "differential oracle against the single-process run (simulated PETSc)",
    "D05": "differential oracle against the single-process run with wetting/drying and limiting", "D06": "differential oracle against the single-process run with barriers",
    "D07": "bytewise comparison of two differently scheduled runs with poisoned memory", "D08": "progress and message-hygiene invariants of the simulated MPI, bounded steps",
    "D09": "vector-clock happens-before race detection on instrumented code inside the simulator", "D10": "volume and still-water invariants over the recorded snapshots",
    "D11": "depth invariant over the recorded snapshots", "D12": "structural oracle on the pieces plus differential runs, arbitrary METIS answers", "D13": "crash injection at arbitrary points, bytewise comparison after rerun",
    "D14": "injected write/close/open/allocation faults, success implies bytewise-complete outputs", "D15": "injected read faults and truncated inputs, success implies fault-free results",
    "D16": "one process made to fail, job must end with failure in bounded steps", "D17": "snapshot history against a reference list of times; differential runs over output settings",
    "D18": "metamorphic runs under renumbering and reordering", "D19": "clock skew, jumps and stalls, bytewise comparison",
}
LEVEL = ("Seeded random search, not exhaustive: every run is one exactly repeatable execution of the real drivers under simulated threads, messages, files and memory. "
         "Trusted: the simulated MPI/OpenMP/PETSc/METIS layers (DESIGN.md), the scenario generator's idea of a valid input, GCC 13.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "python3 -c 'import yaml' && g++ --version >/dev/null",
       "hooks": {"guard": "none", "enable": "no hooks: the checks compile the sources of /repo unmodified against simulated MPI, OpenMP, PETSc and METIS layers and interpose libc calls at link time", "source_commits": []},
       "checks": [], "not_applicable": []}
NA = {
    "N01": "pure functions of their arguments: no schedule, time, I/O, fault or second party for the simulator to control",
    "N02": "pure arithmetic on one element's state; nothing nondeterministic for the simulator to control",
    "N03": "sequential pure transformations of one file; the parts that depend on I/O faults are decided under D12, D14 and D15",
    "N04": "the task-runtime driver and load balancer are not part of this tree (documentation only), so there is nothing to run",
}
for p in props:
    i = p["id"]
    if i in checks.PROPS:
        man["checks"].append({"property": i, "quick_cmd": "python3 harness/checks.py %s --quick" % i, "thorough_cmd": "python3 harness/checks.py %s --thorough" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": TECH + T[i], "level": "exploration", "level_note": LEVEL})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
