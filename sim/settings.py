"""How much each property is explored and what counts as a distinct, non-trivial run."""

REAL = ["all sources under src/tinymesh of the working tree, compiled with scheduling points at every memory access (g++ -fsanitize=thread instrumentation, runtime replaced)",
        "Eigen and Spectra templates as instantiated by the library", "libstdc++ containers, streams and file buffers"]
STUB = ["OpenMP runtime (libgomp replaced by the simulated scheduler)", "heap (malloc/operator new replaced by the simulated heap)",
        "files under /simdisk (open/read/write/close replaced by an in-memory disk)", "system clock, random_device",
        "tinyply and tinyobjloader (absent from the sandbox; small stand-ins with the same interface)", "pybind11 printing (stand-in)"]
ASSUMPTIONS = ["the memory model is sequential consistency plus detection of unordered conflicting accesses: weak-memory effects of racy code are reported as races, not executed",
               "uninstrumented code (libstdc++.so, libm) runs without scheduling points inside"]


NOTES = ("One simulator (sim/) runs the library's real code; sim/check.py searches seeded runs, gates and minimises failures and writes replay files. "
         "Replay: python3 sim/check.py --replay <file>. Quick searches a fixed number of runs from VERIF_SEED with a cap of about 90 s, thorough the same with more runs.")
NOT_APPLICABLE = {
    "C19": "pure functions of their input: no schedule, clock, fault, file or history takes part, so simulation has nothing to vary",
    "C20": "exactness of a pure geometric query for given input; its behaviour under concurrency, reuse and memory faults is claimed in C03, C16 and C18",
    "C21": "numerical properties of pure functions of the mesh; independence from schedule and memory is claimed in C03 and C12",
    "C22": "which triangle lists are accepted is a pure function of the list; histories and faults around building are claimed in C14, C16 and C18",
}


def switched(d):
    return d["oracle_checks"] > 0 and d["switches"] > 0


def judged(d):
    return d["oracle_checks"] > 0


def faulted(d):
    return d["oracle_checks"] > 0 and sum(d["fired"].values()) > 0


SCHED = ("schedhash", "shapehash")
EXEC = ("hash",)


def P(variants, quick, thorough, nontrivial, key, rule, note, qcap=90, tcap=420, **kw):
    return dict(note=note, variants=variants, runs={"quick": quick, "thorough": thorough}, cap={"quick": qcap, "thorough": tcap},
                nontrivial=nontrivial, key=key, rule=rule, **kw)


PROPS = {
    "C01": P(["native"], 20000, 200000, switched, SCHED,
             "one run = one mesh, one filter program, one thread count and one schedule; non-trivial: at least one context switch inside a parallel loop and the result compared with the one-thread result; distinct: by (sequence of switches, resulting mesh)",
             "seeded search over thread counts, loop dealing and interleavings at memory-access granularity; result compared bit for bit with one thread, every conflicting pair of accesses without ordering is reported"),
    "C02": P(["native"], 8000, 80000, switched, SCHED,
             "one run = one mesh with locks, one filter program, one schedule; non-trivial: at least one context switch and one filter judged; distinct: by (sequence of switches, resulting mesh)",
             "seeded search over meshes, lock sets, filter programs and schedules; watched addresses of pinned vertices and structural snapshots"),
    "C03": P(["native"], 10000, 100000, switched, SCHED,
             "one run = one mesh, two to four callers with query programs, one schedule; non-trivial: at least one context switch between callers and every answer compared with the answer given alone; distinct: by (sequence of switches, mesh)",
             "seeded search over query programs of two to four callers and their interleavings; answers compared with solo answers, conflict detection"),
    "C04": P(["native", "fast"], 6000, 80000, switched, SCHED,
             "one run = two to four callers each with an own mesh and program, one schedule; non-trivial: at least one context switch and every caller's results compared with its run alone; distinct: by (sequence of switches, results)",
             "seeded search over programs of two to four callers on their own meshes and their interleavings; results compared with solo runs, conflict detection; context-coherent completions in a build without scheduling points in curvature and eigenvalue code",
             qcap=110, extra={"fast": (8, 0.2)}),
    "C05": P(["native", "py"], 24000, 240000, judged, SCHED,
             "one run = one mesh with damaged data or an allocation failure at one point, one filter, one schedule; non-trivial: the outcome of the call was judged; distinct: by (sequence of switches, outcome)",
             "seeded search over offending faces, failing allocations and schedules in native and Python builds"),
    "C06": P(["native", "py"], 24000, 240000, judged, EXEC,
             "one run = one mesh and one interleaved history of up to 160 edits by up to three editors; non-trivial: at least one edit judged; distinct: by hash of the whole execution",
             "seeded search over interleaved edit histories; after every edit the mesh is checked by an independent validator and the element counts and topology are compared with what the edit must do"),
    "C07": P(["native"], 60000, 600000, faulted, EXEC,
             "one run = one mesh, one edit history, one set of failing allocations; non-trivial: at least one fault took effect and was judged; distinct: by hash of the whole execution",
             "fault injection: allocations inside edge splits, collapses and flips fail one by one or from a point on; the mesh must be unchanged down to object identity and the retried history must equal the fault-free one"),
    "C08": P(["native"], 16000, 160000, judged, EXEC,
             "one run = one mesh with locks, one remeshing program, one random stream, one schedule; non-trivial: at least one remeshing judged; distinct: by hash of the whole execution",
             "seeded search over random streams (random_device simulated, also failing), schedules, memory layouts; validator, topology, pinned vertices, equality with a one-thread run of the same random stream"),
    "C09": P(["native"], 14000, 140000, judged, EXEC,
             "one run = one mesh, one or two simplifications with target, trials and progress output, one schedule, clock and memory layout; non-trivial: at least one simplification judged; distinct: by hash of the whole execution",
             "seeded search over targets, schedules, clocks, memory layouts; bounded-steps termination, validator, topology, count bounds, equality with a silent one-thread run"),
    "C10": P(["native", "py"], 9000, 90000, judged, EXEC,
             "one run = one open mesh and one program of edits and hole fillings, two memory layouts; non-trivial: at least one filling judged; distinct: by hash of the whole execution",
             "seeded search over programs of edits and hole fillings; validator, preservation of original vertices, faces and other holes, equality under another memory layout and under reversed filling order"),
    "C11": P(["fast"], 160, 1600, judged, EXEC,
             "one run = one mesh (over 300 vertices, with holes, closed, edited before or completed before), up to twenty completion rounds, one schedule, clock and memory layout; non-trivial: the completed mesh judged; distinct: by hash of the whole execution",
             "seeded search over meshes, schedules, clocks and memory layouts; validator, preservation of original vertices, equality with one thread, conflict detection; curvature and eigenvalue code runs without scheduling points",
             tcap=600),
    "C12": P(["native", "fast"], 14000, 140000, judged, EXEC,
             "one run = one mesh and one program of up to fourteen edits, filters, queries, saves and loads, executed in two memory layouts (placement, reuse, stale heap and stack contents); non-trivial: the results compared byte for byte; distinct: by hash of the whole execution",
             "seeded search over programs and memory layouts: placement order, gaps, reuse of freed addresses, fill of fresh memory and stack; results compared byte for byte with a plain layout, every access checked against live objects; context-coherent completions in a build without access checks in curvature and eigenvalue code",
             extra={"fast": (32, 0.2)}),
    "C13": P(["native", "py"], 60000, 600000, faulted, EXEC,
             "one run = one mesh after some edits, one export, one sequence of disk faults; non-trivial: at least one disk fault fired and the file, report and mesh were judged; distinct: by hash of the whole execution",
             "fault injection on the simulated disk (open, short, interrupted and failing writes, full disk, failing close, crash at a byte); file decoded by an independent reader"),
    "C14": P(["native", "py"], 180000, 1800000, judged, EXEC,
             "one run = one stored file in one of several encodings with flipped, missing or extra bytes and failing reads, one load; non-trivial: the outcome was judged; distinct: by hash of the whole execution",
             "fault injection on stored bytes and read calls; structural validator, live-object checker, step budget, read errors and short binary files must be reported"),
    "C15": P(["native"], 30000, 300000, judged, EXEC,
             "one run = one mesh after some edits, export and import with transfers split and interrupted by the disk; non-trivial: at least one round trip judged; distinct: by hash of the whole execution",
             "seeded search over splittings and interruptions of transfers; faces and positions compared after the round trip, file contents compared after a second one"),
    "C16": P(["py"], 30000, 300000, judged, EXEC,
             "one run = one history of builds, loads, failed loads and builds, edits and clones on one object; non-trivial: at least one comparison with a fresh object; distinct: by hash of the whole execution",
             "seeded search over histories with disk and allocation faults on one object; comparison with a fresh object after each build or load, clones compared before and after changes"),
    "C17": P(["native", "fast"], 30000, 300000, judged, EXEC,
             "one run = one operation with progress output (or one progress bar with a program of steps) under one hostile clock; non-trivial: result and output judged; distinct: by hash of the whole execution",
             "fault injection on the system clock (stopped, coarse, jumps both ways); results compared with a plain clock, output parsed; context-coherent completions in a build without scheduling points in curvature and eigenvalue code",
             extra={"fast": (32, 0.25)}),
    "C18": P(["native", "py"], 50000, 500000, faulted, EXEC,
             "one run = one operation with an allocation failing at one index, once or from then on; non-trivial: the allocation failed and the outcome was judged; distinct: by hash of the whole execution",
             "fault injection into the simulated heap at a seeded fraction of all allocations of the operation; outcome, mesh and a later rebuild judged"),
    "C23": P(["py", "fast"], 48000, 480000, judged, EXEC,
             "one run = one program of one to six builds, loads, exports, edits, filters and queries with damaged lists and files, failing reads and writes and failing allocations, executed three times; non-trivial: memory and files held after the second and third time compared; distinct: by hash of the whole execution",
             "fault injection into the simulated heap and disk; live blocks, bytes and open files after the objects are destroyed must not grow when the program is repeated; context-coherent completions without faults in a build without scheduling points in curvature and eigenvalue code",
             extra={"fast": (8, 0.2)}),
}
