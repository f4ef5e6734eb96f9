"""Writes properties.jsonl (kept as a script so that the shared parts are written once)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=("modal, VTK and VTU result files", "exit status of the job"), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b} for a, b in state], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


EQ_WHY = ("The unit tests never run more than one process; the repository's own comparison of a parallel with a serial run is a script over one mesh, one partitioning and "
          "whatever schedule the machine happens to produce.")
EQ_TEXT = ("every mesh, polynomial order, boundary data, forcing, time stepping, decomposition into subdomains, assignment of subdomains to processes, number of threads, "
           "order and delay of messages, short and interrupted I/O")
COMM = [("exchange of subdomain boundary data", "source/communication/ompi_communicator.cpp"), ("stage drivers that pack, send, overlap and unpack", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp and its counterparts"),
        ("subdomain meshes with interface records", "partitioner/, source/preprocessor/")]

p("D01", "Decomposition does not change the explicit shallow-water solution",
  "An explicit discontinuous-Galerkin shallow-water run split into subdomains and spread over any number of processes and threads writes the same solution coefficients, element by element and snapshot by snapshot, "
  "as a single-process run of the same input, up to rounding. This holds whatever the order in which messages arrive, sends complete and threads run.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT, EQ_WHY,
  ["source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_ompi.hpp", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp",
   "source/communication/ompi_communicator.cpp", "source/simulation/ompi/", "partitioner/"], COMM,
  [("solution coefficients per element and stage", "the state all processes must agree on")])
p("D02", "Decomposition does not change the explicit hybridized solution",
  "An explicit hybridized shallow-water run split into subdomains and spread over any number of processes and threads writes the same solution coefficients as a single-process run of the same input, up to rounding, for every message order and thread schedule.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT, EQ_WHY,
  ["source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_EHDG/", "source/communication/ompi_communicator.cpp", "partitioner/"], COMM,
  [("trace unknowns on shared faces", "computed by both neighbours and required to agree")])
p("D03", "Decomposition does not change the implicit hybridized solution",
  "An implicit hybridized shallow-water run, whose global system is assembled and solved across all processes, writes the same solution coefficients as a single-process run of the same input, up to the solver's accuracy, for every decomposition, numbering of global unknowns, message order and thread schedule.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT, EQ_WHY,
  ["source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp", "source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp", "source/communication/ompi_communicator.cpp"],
  COMM + [("global numbering of trace unknowns over processes", "source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp")],
  [("global matrix, right-hand side and solution", "distributed over processes by row ranges")])
p("D04", "Decomposition does not change the dispersive (Green-Naghdi) solution",
  "A dispersive Green-Naghdi run, which alternates shallow-water steps with a globally assembled correction, completes and writes the same solution coefficients as a single-process run of the same input, up to the solver's accuracy, for every decomposition (including processes that hold no subdomain), message order and thread schedule.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT + ", wave-absorbing buffer elements", EQ_WHY,
  ["source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/", "source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/", "source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/", "source/communication/ompi_communicator.cpp"],
  COMM + [("reconstruction of derivatives over subdomain faces and nodes", "source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/")],
  [("dispersive correction unknowns and derivatives", "communicated in several phases per step")])
p("D05", "Wetting, drying and slope limiting do not depend on the decomposition",
  "With wetting and drying, slope limiting or both switched on, a run split into subdomains over any number of processes and threads gives the same solution as a single-process run, including on elements that dry, flood or are limited next to a subdomain border.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT + ", with beaches that dry and flood", EQ_WHY,
  ["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp", "source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp", "source/problem/SWE/problem_slope_limiter/", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp"],
  COMM + [("exchange of wet/dry state and of element averages", "source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp")],
  [("wet/dry flag and average state of each element", "read by neighbours across subdomain borders")])
p("D06", "Barriers cut by a subdomain border behave as uncut ones",
  "A mesh with internal barriers over which water can flow gives the same solution whether the barrier lies inside one subdomain or is cut by the border between subdomains on different processes, for every decomposition, message order and thread schedule.",
  ["inputs", "configurations", "schedules", "fault_sequences"], EQ_TEXT + ", barrier heights and discharge coefficients", EQ_WHY,
  ["source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp", "source/problem/SWE/discretization_RKDG/kernels_preprocessor/", "partitioner/", "source/preprocessor/"],
  COMM + [("distributed form of the barrier condition", "source/problem/SWE/discretization_RKDG/boundary_conditions/")], [("barrier overtopping state", "must be found equal by both sides")])
p("D07", "Results are the same to the last bit under every schedule",
  "Two runs of the same input and decomposition write byte-identical result files, whatever the number of threads per process, the order in which threads run, the time messages take, where in memory objects lie, and the contents of memory that was never written. ",
  ["schedules", "configurations", "fault_sequences"], "every pair of schedules, thread counts, message delays, uninitialised memory contents", "Unit tests run one thread once; a result that depends on a race, on arrival order or on uninitialised memory differs only now and then.",
  ["source/simulation/ompi/", "source/communication/ompi_communicator.cpp", "source/problem/SWE/", "source/problem/Green-Naghdi/", "source/simulation/writer.hpp"],
  [("work split over threads by subdomain", "source/simulation/ompi/simulation_ompi.hpp"), ("fixed communication channels with tags", "source/communication/")], [("everything written to result files", "bytes")])
p("D08", "Parallel runs always end, with every message sent, received and matched",
  "Every multi-process run of a valid input reaches its end on every process under every message delay, blocking behaviour of sends, early or late return of collectives and thread schedule; no process waits for ever, no send is left unreceived, and no buffer is touched while the message layer owns it.",
  ["schedules", "configurations", "inputs"], "every schedule and message-progress choice the message-passing standard allows, every decomposition and thread count", "Ordinary test runs use eager sends on one machine; programs that only work because small messages are buffered pass them.",
  ["source/communication/ompi_communicator.cpp", "source/simulation/ompi/", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/", "source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/"],
  [("persistent requests: receive posted, send started, wait for both", "source/communication/ompi_communicator.cpp"), ("only the master thread makes collective calls, with barriers around", "source/simulation/ompi/simulation_ompi.hpp")],
  [("pending requests, barriers and collectives", "must all complete")], observe=("end of every process", "state of the message layer at the end"))
p("D09", "Threads of a process never race on shared data",
  "In every multi-threaded run, no two threads of a process access the same memory without ordering between them when one of them writes.",
  ["schedules", "configurations", "inputs"], "every thread schedule, thread count, decomposition and formulation", "The unit tests are single-threaded; a race shows only under specific interleavings.",
  ["source/simulation/ompi/", "source/problem/SWE/", "source/problem/Green-Naghdi/", "source/simulation/writer.hpp", "source/communication/"],
  [("each thread owns a block of subdomains; shared steps run on one thread between barriers", "source/simulation/ompi/simulation_ompi.hpp")], [("all memory of a process", "accesses ordered by barriers, locks and thread start/join")],
  observe=("memory accesses of all threads, compiler-instrumented",))
p("D10", "Water is conserved and still water stays still, in one process or many",
  "In a basin closed by walls the total volume of water over all subdomains stays constant from snapshot to snapshot up to rounding (up to the solver's accuracy for implicit steps), and water at rest with a level surface over any ground stays at rest. Both hold on every process count, decomposition and schedule, so no flux is lost, doubled or applied twice at a subdomain border.",
  ["inputs", "configurations", "schedules"], "every mesh, bottom, initial state in a closed basin, coordinate projection, formulation, decomposition and schedule", "No test of the repository integrates a whole run, serial or parallel, and sums the volume.",
  ["source/problem/SWE/discretization_RKDG/numerical_fluxes/", "source/problem/SWE/discretization_RKDG/boundary_conditions/", "source/problem/SWE/discretization_RKDG/kernels_processor/", "source/problem/SWE/discretization_EHDG/", "source/problem/SWE/discretization_IHDG/", "source/problem/Green-Naghdi/"],
  [("single flux per face applied with opposite signs to both sides", "kernels of each formulation"), ("wall condition with zero normal discharge", "boundary_conditions/")], [("mean surface elevation of each element", "volume when weighted by area")])
p("D11", "Depth never goes negative under wetting and drying",
  "With wetting and drying on, every written state of every element has a non-negative water depth at its corners, in any decomposition and under any schedule, and the run never breaks down on dry ground.",
  ["inputs", "configurations", "schedules"], "every beach profile, initial state, threshold depth, decomposition and schedule", "The unit test of wetting and drying treats a handful of single elements; no test runs an evolving beach.",
  ["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp", "source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp", "source/problem/SWE/discretization_RKDG/kernels_processor/", "source/problem/SWE/discretization_EHDG/kernels_processor/"],
  [("redistribution of depth over the corners of a partly dry element", "source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp")], [("depth at element corners", "surface minus ground")])
p("D12", "The partitioner writes a complete, consistent decomposition",
  "Whatever valid assignment the graph partitioner returns, the pieces written contain every element of the mesh exactly once with unchanged coordinates, depths and boundary data, both sides of every cut face name each other with matching numbering, and the parallel input points at exactly these pieces. Files left from an earlier decomposition never become part of the new one.",
  ["inputs", "configurations", "fault_sequences", "histories"], "every mesh, number of subdomains, processes and nodes, balance mode, answer of the graph partitioner, earlier partitioning in the same directory, short and interrupted I/O", "The partitioner has no test of its own, and its answer depends on a third-party heuristic.",
  ["partitioner/partitioner.cpp", "partitioner/partition.cpp", "partitioner/csrmat.hpp", "partitioner/problem/", "source/preprocessor/mesh_metadata.cpp"],
  [("two-level partition, then records of every cut face on both sides", "partitioner/"), ("piece files named by locality and index", "partitioner/partitioner.cpp")], [("piece files, interface records, parallel input", "what a parallel run reads")], observe=("files the partitioner writes", "a parallel run on them"))
p("D13", "An interrupted job can simply be run again",
  "If partitioning or a simulation is killed at any moment, running the same command again in the same directory produces exactly the result files an uninterrupted run would have produced.",
  ["crash_points", "histories", "schedules"], "every point at which all processes may be killed, including in the middle of a write, repeated crashes, and schedules of the rerun", "No test kills a run.",
  ["source/simulation/writer.hpp", "source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp", "source/problem/SWE/problem_postprocessor/", "partitioner/partitioner.cpp"],
  [("each run truncates or replaces the files of its own snapshots when it starts", "source/simulation/writer.hpp, swe_post_write_modal.hpp")], [("files left by the killed run", "must not leak into the next one")])
p("D14", "Lost output never passes for success",
  "If opening, writing, flushing or closing a result, mesh-piece or parallel-input file fails or memory runs out, the job ends with an error; whenever it ends successfully, every such file is complete and identical to the one written without faults.",
  ["fault_sequences", "schedules"], "every file operation of every process failing (full disk, I/O error, quota, permissions; once or from then on; partial or no data) and every allocation failing", "The tests write to a healthy disk.",
  ["source/simulation/writer.hpp", "source/utilities/check_stream.hpp", "source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp", "partitioner/partitioner.cpp", "source/preprocessor/ADCIRC_reader/adcirc_format.cpp", "source/preprocessor/mesh_metadata.cpp", "source/preprocessor/input_parameters.hpp"],
  [("streams are checked after the data was flushed and closed", "source/utilities/check_stream.hpp")], [("bytes on disk", "against those of a fault-free run")])
p("D15", "Unreadable or truncated inputs are refused, never half-used",
  "If a mesh, decomposition, boundary, friction, forcing or input file is cut short or cannot be read, the partitioner and the simulation either end with an error or produce the same results as with intact files; they never compute on the part that was there.",
  ["fault_sequences", "inputs", "configurations"], "every input file of a serial or multi-process run, cut at any record, and every open or read of it failing on any process", "The tests read intact files.",
  ["source/preprocessor/ADCIRC_reader/adcirc_format.cpp", "source/preprocessor/mesh_metadata.cpp", "source/preprocessor/initialize_mesh.hpp", "source/problem/SWE/problem_parser/swe_parser.hpp", "source/utilities/file_exists.hpp", "partitioner/"],
  [("counts in headers, stream checks after each record", "readers"), ("missing optional files told apart from unreadable ones", "source/utilities/file_exists.hpp")], [("data in memory after reading", "all or error")])
p("D16", "One failing process stops the whole job with a failure status",
  "If any process of a multi-process run fails, by an invalid solution, an unreadable file, a failed allocation or an exception, the whole job stops within a bounded time and reports failure; the other processes neither wait for ever nor end as if the run had succeeded.",
  ["fault_sequences", "schedules", "configurations"], "every process, point of failure and schedule of the others", "The tests are single-process and have no failing runs.",
  ["source/dgswemv2-ompi.cpp", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp", "source/simulation/ompi/"],
  [("invalid solutions abort the job with a failure code", "…_proc_ompi_step.hpp")], [("exit status of the job", "failure")], observe=("exit status of the job", "end of every process"))
p("D17", "Snapshots come complete and on time, and writing them changes nothing",
  "A run writes exactly the snapshots its output intervals ask for, including the initial state, each complete on every subdomain and labelled with its simulated time; switching logs or result formats on or off, or asking for snapshots more or less often, changes neither the solution nor the snapshots both runs have.",
  ["configurations", "schedules", "inputs"], "every combination of formats, intervals, log settings, time step and duration, decomposition and schedule", "The tests do not run the writer over time steps.",
  ["source/simulation/writer.hpp", "source/problem/SWE/problem_postprocessor/", "source/problem/Green-Naghdi/", "source/simulation/serial/simulation.hpp", "source/simulation/ompi/simulation_ompi.hpp", "source/preprocessor/input_parameters.hpp"],
  [("writer triggered by step count", "source/simulation/writer.hpp")], [("snapshot count and times", "from the requested interval and the step count")])
p("D18", "The solution does not depend on numbering, file order or units of angle",
  "Renumbering nodes and elements, listing them in another order, starting an element's corners elsewhere or changing a phase by a full turn leaves the solution of every element the same up to rounding, in one process or many.",
  ["inputs", "configurations", "schedules"], "every renumbering and reordering of every mesh and its boundary data, every decomposition and schedule", "The tests use fixed meshes and do not compare runs.",
  ["source/preprocessor/", "source/geometry/", "source/problem/SWE/discretization_RKDG/kernels_preprocessor/", "source/problem/SWE/discretization_IHDG/boundary_conditions/", "source/problem/SWE/problem_parser/"],
  [("faces found from corner numbers; quadrature points of both sides matched", "source/preprocessor/initialize_mesh.hpp, interfaces and edges")], [("mean state of each element", "independent of labels")])
p("D19", "Wall-clock time has no influence on results",
  "Clock jumps, different clocks on different processes and stalled processes change neither the results nor the completion of a run.",
  ["fault_sequences", "schedules"], "every clock offset and jump per process, stalls of any process", "The tests do not vary the clock.",
  ["source/simulation/", "source/simulation/writer.hpp", "source/simulation/stepper/"], [("clock read only for log text", "source/simulation/writer.hpp, drivers")], [("result files", "bytes")])
NA = []


def na(id, title, statement, text, why, files):
    p(id, title, statement, ["inputs"], text, why, files, [("pure function of its arguments", files[0])], observe=("return values",))
    NA.append(id)


na("N01", "Quadrature and basis functions are exact to their stated degree",
   "Quadrature rules integrate polynomials up to the stated degree exactly, and the one- and two-dimensional bases are orthogonal with correct derivatives for every supported degree.",
   "every polynomial degree", "The unit tests sample some degrees.", ["source/basis/", "source/integration/"])
na("N02", "Time steppers have the stated order of accuracy",
   "Each explicit Runge-Kutta scheme offered integrates smooth problems with its stated order and satisfies its strong-stability bound.",
   "every offered combination of stages and order", "A unit test samples one equation.", ["source/simulation/stepper/"])
na("N03", "Mesh and input files survive a round trip",
   "Writing a mesh, decomposition or input that was read and reading it again gives the same data.",
   "every well-formed file", "Unit tests use a few files.", ["source/preprocessor/ADCIRC_reader/", "source/preprocessor/mesh_metadata.cpp", "source/preprocessor/input_parameters.hpp"])
na("N04", "Task-parallel (HPX) runs match serial runs under dynamic load balancing",
   "A run under the asynchronous task runtime, including migration of subdomains between nodes at any time, gives the same solution as a single-process run.",
   "every schedule and migration", "Not built here.", ["source/simulation/"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        x["statement"] = x["statement"].strip()
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
