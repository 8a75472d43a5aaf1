#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))


CORE = "src/tinymesh/core/"
NOTESTS = "The runnable tests exercise vector arithmetic only; the mesh tests do not even link in this tree, and upstream they run each operation once on one machine's schedule. "

prop("C01", "Parallel filters give the same result under every thread schedule",
     "Laplacian smoothing, Taubin smoothing and the normal-based denoising filters leave exactly the same vertex positions, bit for bit, whatever the number of worker threads, the way loop iterations are dealt out, and the order in which the workers' memory accesses interleave, including when a worker stalls. No two workers access the same memory without ordering between them when at least one of them writes.",
     ["schedules", "inputs", "configurations"],
     "all thread counts 1..8, all interleavings at memory-access granularity, all stalls of one worker, all closed or open triangle meshes, all filter parameters and filter sequences",
     NOTESTS + "Even a passing run sees one interleaving per loop; a lost update or a read of an already updated neighbour changes only low-order bits on rare schedules.",
     ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/filters/denoise.cpp", CORE + "openmp.h"],
     [("two-phase loops: all new values are computed from old positions before any position is written", "src/tinymesh/filters/smooth.cpp, src/tinymesh/filters/denoise.cpp"),
      ("per-iteration locals inside the parallel loop bodies", "src/tinymesh/filters/denoise.cpp")],
     ["vertex positions after the call, compared with a single-threaded run", "every memory access of every worker"])

prop("C02", "Filters move only movable vertices and never change connectivity",
     "Laplacian and Taubin smoothing never move a locked vertex or a vertex on an open boundary, at any instant of any schedule. Every smoothing and denoising filter leaves the faces, the vertex, edge and face counts, the boundary marks and the locks exactly as they were.",
     ["schedules", "inputs", "histories"],
     "all schedules and thread counts, all lock sets (including locks changed between calls), all open and closed meshes, all sequences of filter calls",
     NOTESTS + "No test locks a vertex or looks at intermediate states while workers run.",
     ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/filters/denoise.cpp", CORE + "vertex.cpp", CORE + "face.cpp"],
     [("skip of boundary and locked vertices in the update loop", "src/tinymesh/filters/smooth.cpp"),
      ("boundary test walking the vertex's edges", CORE + "vertex.cpp")],
     ["positions, locks, boundary marks and connectivity before, during and after each call"])

prop("C03", "Concurrent read-only queries on one mesh are safe and exact",
     "Any number of threads may concurrently run read-only operations on the same mesh or search structure: each returns exactly what it returns when run alone, and the mesh is left exactly as it was. No two such operations access the same memory without ordering when one of them writes.",
     ["schedules", "programs"],
     "all interleavings of up to four caller threads, each running an arbitrary program of read-only calls (counts, statistics, normals, areas, curvatures, Laplacians, heat kernel signatures, distances, closest points, feature fields, verification, export), with or without inner parallelism",
     NOTESTS + "No test uses more than one caller thread.",
     [CORE + "mesh.cpp", CORE + "vertex.cpp", CORE + "face.cpp", CORE + "halfedge.cpp", CORE + "bvh.cpp", CORE + "triangle.cpp", "src/tinymesh/ops/metrics.cpp", "src/tinymesh/ops/operators.cpp", "src/tinymesh/ops/features.cpp"],
     [("const queries keep all scratch data in locals; no caches, no mutable or static state", CORE + "mesh.cpp, " + CORE + "bvh.cpp, src/tinymesh/ops/features.cpp")],
     ["return value of every query compared with the same query run alone", "mesh contents before and after", "every memory access of every caller"])

prop("C04", "Work on different meshes in different threads does not interfere",
     "Threads that build, load, edit, filter, remesh, simplify, repair or export different mesh objects at the same time obtain exactly the meshes and files they obtain when running alone.",
     ["schedules", "programs"],
     "all interleavings of two to four caller threads, each running an arbitrary program of mutating calls on its own mesh and its own file, all thread counts of the inner parallel loops",
     NOTESTS + "No test uses more than one caller thread, so hidden shared state (static buffers, globals, shared generators) is never exercised.",
     [CORE + "mesh.cpp", CORE + "completion.cpp", "src/tinymesh/filters/smooth.cpp", "src/tinymesh/remesh/remesh.cpp", "src/tinymesh/remesh/simplify.cpp"],
     [("all working state lives in the mesh object or in locals of the call", CORE + "mesh.cpp, src/tinymesh/remesh/remesh.cpp, src/tinymesh/remesh/simplify.cpp")],
     ["resulting mesh and file of each thread compared with a solo run", "every memory access of every caller"])

prop("C05", "Errors inside parallel work reach the caller as ordinary errors",
     "When a parallel filter meets data it must refuse (a face that is not a triangle, a degenerate face, memory exhaustion) on any worker, the call ends in one ordinary error delivered to its caller after all workers have stopped, under every schedule; in the Python build that error is a catchable exception and the process survives.",
     ["schedules", "inputs", "fault_sequences", "configurations"],
     "all positions of the offending face or vertex, all thread counts and interleavings, allocation failures at any point of the parallel loops, native and Python error modes",
     NOTESTS + "No test passes an unacceptable mesh to a filter; an exception leaving a worker kills the process only in multi-threaded builds.",
     ["src/tinymesh/filters/smooth.cpp", "src/tinymesh/filters/denoise.cpp", CORE + "openmp.h", CORE + "debug.h", CORE + "vec.h"],
     [("error reporting helpers that throw in the Python build", CORE + "debug.h"),
      ("triangle checks inside the parallel loops", "src/tinymesh/filters/denoise.cpp")],
     ["outcome of the call: normal return, exception caught by the caller, or process termination"])

prop("C06", "Any history of edits keeps the mesh a valid closed-up manifold",
     "After any sequence of edge splits, edge collapses, edge flips, face collapses and hole fillings applied to a valid mesh, each edge has exactly two opposite sides, each face is one closed triangle (or one boundary loop), the faces around each vertex form one fan, no two faces share the same directed edge, all elements are numbered without gaps, and no reference points to a removed element. Each accepted edit changes the element counts by exactly its own amount and keeps the Euler characteristic (filling a hole raises it by one per hole).",
     ["histories", "inputs"],
     "all edit histories, including edits repeated on the same neighbourhood and edits after removals have renumbered elements, issued by several interleaved editors, on closed, open and multi-component meshes, under all address-reuse patterns",
     NOTESTS + "The defects live in particular configurations of degrees, boundaries and renumbering that only long histories reach.",
     [CORE + "mesh.cpp", CORE + "completion.cpp"],
     [("degree, boundary, shared-neighbour and orientation guards before an edit", CORE + "mesh.cpp"),
      ("swap-with-last removal that renumbers elements", CORE + "mesh.cpp")],
     ["full traversal of the mesh through its public accessors after every edit"],
     state=[dict(name="element arrays", meaning="vertices, half-edges and faces with their stored numbers", where=CORE + "mesh.h")])

prop("C07", "An edit that fails leaves the mesh exactly as it was",
     "An edge split, edge collapse or edge flip that is refused, or that fails because memory runs out at any point inside it, leaves every position, face, boundary mark, lock and element number exactly as before the call. The same edit can then be retried and behaves as if the failure had not happened.",
     ["histories", "fault_sequences"],
     "all edit histories with refusals, and an allocation failure at every allocation index inside each edit",
     NOTESTS + "Tests never make an allocation fail and never compare the mesh around a refused edit.",
     [CORE + "mesh.cpp"],
     [("all guards are evaluated before the first modification", CORE + "mesh.cpp"),
      ("allocation of new elements before relinking", CORE + "mesh.cpp")],
     ["complete snapshot of the mesh before and after the failed call"])

prop("C08", "Remeshing keeps the surface valid for every random outcome",
     "Isotropic remeshing ends, for every outcome of its random choices and every thread schedule, with a valid manifold mesh of the same topology (components, boundary loops, Euler characteristic) and finite positions; vertices locked by the caller or because they lie on a sharp feature still exist with unchanged positions, and boundary vertices are not moved or lost. Given the same random outcomes it always produces the same mesh.",
     ["histories", "schedules", "inputs"],
     "all random sequences drawn by the remesher (fresh per call, outside the caller's control), all schedules of the smoothing inside it, all valid input meshes, length bounds, feature angles and iteration counts",
     NOTESTS + "Each execution draws one random order from the machine's entropy source; a failure cannot be repeated.",
     ["src/tinymesh/remesh/remesh.cpp", CORE + "mesh.cpp", "src/tinymesh/filters/smooth.cpp"],
     [("lock and boundary guards before collapse and flip", "src/tinymesh/remesh/remesh.cpp"),
      ("re-reading elements by number after the mesh changed", "src/tinymesh/remesh/remesh.cpp")],
     ["mesh after the call: validity, topology, positions, locked vertices"])

prop("C09", "Simplification stops, stays valid and respects its target",
     "Simplification always stops; it never removes more faces than asked for (rounded up to the two faces of one contraction), never adds faces, and leaves a valid manifold mesh of the same topology with finite positions in which boundary vertices are unmoved. Asking for progress output, the clock, memory addresses and the thread schedule do not change the result.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all input meshes, targets and trial counts, all schedules of the inner smoothing, all address layouts and reuse patterns, all clock behaviours with progress output on",
     NOTESTS + "Its priority queue holds pointers to elements that earlier contractions free; only particular reuse patterns show the damage.",
     ["src/tinymesh/remesh/simplify.cpp", CORE + "mesh.cpp", CORE + "progress.h"],
     [("set of removed edges consulted before a queued contraction is used", "src/tinymesh/remesh/simplify.cpp"),
      ("trial counter bounding passes without progress", "src/tinymesh/remesh/simplify.cpp")],
     ["face count, validity, topology and boundary positions after the call"])

prop("C10", "Hole filling closes every hole and leaves the rest alone",
     "Filling holes, by minimum-dihedral triangulation or by advancing front, leaves a valid mesh in which every requested hole is closed by triangles and no others are touched; every original vertex keeps its position and every original face its corners, and the minimum-dihedral fill adds no vertex. The outcome does not depend on memory addresses or on the order in which holes are filled beyond the numbering of new elements.",
     ["histories", "inputs", "configurations"],
     "all open meshes with one or more holes of any size, all orders of filling and mixtures of the two methods, interleaved with edits, under all address layouts",
     NOTESTS + "Results pass through address-ordered containers, so a failure depends on where the allocator placed elements.",
     [CORE + "completion.cpp", CORE + "mesh.cpp", "src/tinymesh/restore/completion.cpp"],
     [("triangulation table over the boundary loop", CORE + "completion.cpp"),
      ("advancing front with locked original boundary", CORE + "completion.cpp")],
     ["mesh after each fill: validity, boundary marks, original vertices and faces"])

prop("C11", "Context-coherent completion keeps the known surface and stays valid",
     "Context-coherent completion ends with a valid closed mesh in which every original vertex keeps its position and no reference points to a removed element. Its result is the same for every schedule of its parallel descriptor computation, with no two workers accessing the same memory unordered when one writes, and for every clock behaviour.",
     ["schedules", "inputs", "configurations"],
     "all open meshes with enough vertices, all iteration counts, all schedules and thread counts, all address layouts and reuse patterns, all clock behaviours",
     NOTESTS + "The completion code is not tested at all upstream; its descriptor table is keyed by addresses of elements that repairs may free.",
     ["src/tinymesh/restore/completion.cpp", CORE + "completion.cpp", CORE + "mesh.cpp"],
     [("locks on all original vertices", "src/tinymesh/restore/completion.cpp"),
      ("descriptor table refreshed after repairs", "src/tinymesh/restore/completion.cpp")],
     ["mesh after the call", "every memory access of every worker"])

prop("C12", "Results do not depend on memory addresses or stale memory contents",
     "Repeating any operation with the same inputs and the same random outcomes gives the same mesh and the same numbers wherever the allocator places objects, whatever uninitialised memory contains, and whether or not freed addresses are reused (operations that sum over address-ordered containers may differ by rounding only). No operation reads or writes memory that is freed or was never part of an object.",
     ["configurations", "programs", "histories"],
     "all address layouts, reuse policies and fill patterns of the heap and stacks, all programs of library calls",
     NOTESTS + "A normal run has one heap layout with mostly zeroed fresh pages, which hides uninitialised reads and stale references.",
     [CORE + "mesh.cpp", CORE + "completion.cpp", CORE + "bvh.cpp", "src/tinymesh/filters/denoise.cpp", "src/tinymesh/filters/smooth.cpp", "src/tinymesh/remesh/simplify.cpp", "src/tinymesh/ops/features.cpp"],
     [("address-keyed containers used for membership only", CORE + "mesh.cpp"),
      ("initialisation of all element fields", CORE + "halfedge.h, " + CORE + "vertex.h, " + CORE + "face.h, " + CORE + "bvh.h")],
     ["results under different simulated heaps", "every memory access checked against live objects"])

prop("C13", "A save that returns has stored the whole mesh",
     "If exporting a mesh returns normally, the file holds the complete mesh; if any file operation fails (open refused, disk full, I/O error on write or close), the export reports an error instead. In both cases the mesh in memory is unchanged and no other file is touched.",
     ["fault_sequences", "crash_points", "inputs"],
     "all sequences of failing, partial or interrupted file operations at any byte position of the export, both file formats, all meshes, crash at any point of the export, native and Python error modes",
     NOTESTS + "No test writes a file to a disk that misbehaves.",
     [CORE + "mesh.cpp", "src/tinymesh/core/debug.h"],
     [("stream state checks and error reporting in the exporters", CORE + "mesh.cpp")],
     ["bytes on the simulated disk versus the mesh", "outcome of the call"])

prop("C14", "Loading from faulty storage reports an error or yields a valid mesh",
     "Loading a file that is missing, unreadable, truncated at any byte or has flipped bytes, or whose reads fail at any point, either reports an error or produces a structurally valid mesh; it never hangs, crashes or touches memory outside its objects. A read error or a binary file shorter than its header promises is always reported.",
     ["fault_sequences", "inputs", "crash_points"],
     "all single and multiple faults on stored bytes and on read calls, both file formats, every truncation point (including files left by a crash during export), native and Python error modes",
     NOTESTS + "No test loads a damaged file.",
     [CORE + "mesh.cpp"],
     [("loader result checks, index handling and manifold checks", CORE + "mesh.cpp")],
     ["outcome of the call and validity of the mesh"])

prop("C15", "Save followed by load restores the mesh under partial I/O",
     "Exporting a mesh and importing it again restores the same faces over the same vertices, with positions equal up to the precision of the file format, however reads and writes are split, interrupted or delayed by the storage. A mesh imported from a file and exported again gives the same file contents.",
     ["fault_sequences", "inputs", "histories"],
     "all splittings of reads and writes into short transfers and interrupted calls, both formats, all meshes with distinguishable vertices, including meshes produced by edits and fillings",
     NOTESTS + "Regular files on a healthy disk never return short transfers.",
     [CORE + "mesh.cpp"],
     [("vertex numbering in the exporters, de-duplication in the importers", CORE + "mesh.cpp")],
     ["mesh after the round trip", "bytes on the simulated disk"])

prop("C16", "A reused object behaves like a fresh one after any history",
     "Loading or building into a mesh or search structure that was already used, edited, or left behind by a failed load or build gives exactly what a fresh object gives. A clone equals its original and later changes to either do not show in the other.",
     ["histories", "fault_sequences"],
     "all histories of builds, loads (successful and failing through I/O errors or memory exhaustion), edits, clones and rebuilds on one object",
     NOTESTS + "Tests always start from a new object.",
     [CORE + "mesh.cpp", CORE + "bvh.cpp"],
     [("clearing of previous contents before building", CORE + "mesh.cpp, " + CORE + "bvh.cpp")],
     ["mesh and query results compared with a fresh object fed the same data"])

prop("C17", "Clock behaviour never changes results or crashes an operation",
     "Operations that measure or print elapsed time give the same result, and finish without failure, for every behaviour of the system clock: stopped, coarse, jumping forwards or backwards by any amount. Progress output never counts beyond its total nor fails, whatever the number of steps.",
     ["fault_sequences", "inputs", "schedules"],
     "all sequences of clock values, all totals and step sizes, all operations with progress output",
     NOTESTS + "Tests run with a healthy monotonic clock and progress output off.",
     [CORE + "progress.h", "src/tinymesh/remesh/simplify.cpp", "src/tinymesh/restore/completion.cpp"],
     [("progress bar arithmetic", CORE + "progress.h")],
     ["result of the operation", "text of the progress output"])

prop("C18", "Running out of memory is reported and does no silent damage",
     "If an allocation fails at any point inside building, loading, cloning, exporting, querying, filtering, remeshing, simplifying or hole filling, the operation reports an out-of-memory error; it never returns a wrong or partial result as success and never corrupts memory. A read-only operation that failed this way leaves the mesh exactly as it was, and an object left behind by a failed operation can still be destroyed or rebuilt.",
     ["fault_sequences", "programs"],
     "an allocation failure (single, or persistent from then on) at every allocation index of every operation",
     NOTESTS + "Allocations do not fail in tests.",
     [CORE + "mesh.cpp", CORE + "completion.cpp", CORE + "bvh.cpp", "src/tinymesh/ops/features.cpp", "src/tinymesh/filters/smooth.cpp"],
     [("ownership of elements by the mesh's arrays", CORE + "mesh.h"),
      ("error propagation by exceptions", CORE + "mesh.cpp")],
     ["outcome of the call, mesh afterwards, every memory access"])

# ---- properties outside the technique -------------------------------------------------
prop("C19", "Vector arithmetic satisfies its algebra",
     "Componentwise sums, products, quotients, dot and cross products, lengths and comparisons of fixed-size vectors give the mathematically expected values, and dividing by zero is refused.",
     ["inputs"], "all vectors of all supported dimensions",
     "The existing tests sample vectors; they already cover this part best.",
     [CORE + "vec.h"], [("component loops", CORE + "vec.h")], ["returned values"])

prop("C20", "Closest-point and distance queries are exact",
     "The closest point and distance returned by the search structure equal the minimum over all triangles, and the distance between two meshes is the larger of the two directed maxima.",
     ["inputs"], "all meshes and query points",
     "Tests compare two fixed meshes only.",
     [CORE + "bvh.cpp", CORE + "triangle.cpp", CORE + "bounds.h", "src/tinymesh/ops/metrics.cpp"],
     [("pruning by bounding boxes", CORE + "bvh.cpp")], ["returned values"])

prop("C21", "Differential operators and curvatures have their defining properties",
     "Laplacian matrices have zero row sums and the sparsity of the mesh, curvatures of known surfaces converge to their analytic values, and normals and areas match their definitions.",
     ["inputs"], "all triangle meshes",
     "Tests only check that the functions return.",
     ["src/tinymesh/ops/operators.cpp", "src/tinymesh/ops/features.cpp", CORE + "vertex.cpp", CORE + "halfedge.cpp"],
     [("cotangent weights", CORE + "halfedge.cpp")], ["returned values"])

prop("C22", "Triangle lists are accepted or rejected correctly",
     "Building a mesh from a triangle list merges equal positions, drops degenerate and repeated triangles, adds one boundary loop per hole, and refuses lists that are not manifold or leave a vertex unused.",
     ["inputs"], "all triangle lists",
     "Tests build from a handful of valid files.",
     [CORE + "mesh.cpp"], [("construction and manifold check", CORE + "mesh.cpp")], ["mesh after building"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
