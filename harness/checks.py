COMMON = "-std=c++14 -O1 -fno-omit-frame-pointer -w"
CONFIGS = {
    "fast": {"flags": COMMON, "cmake": ["-DOmega_h_THROW=ON"]},
    "tsan": {"flags": COMMON + " -gline-tables-only -fsanitize=thread -mllvm -tsan-instrument-read-before-write", "cxx": "/usr/bin/clang++", "cmake": ["-DOmega_h_THROW=ON"]},
    "asan": {"flags": COMMON.replace("-O1", "-O0") + " -gline-tables-only -fsanitize=address,bounds,bool,enum,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,null,alignment,return,nonnull-attribute -fno-sanitize-recover=all", "cxx": "/usr/bin/clang++", "cmake": ["-DOmega_h_THROW=ON"]},
}
for c in CONFIGS.values():
    c["cmake"].append("-DOmega_h_NORMAL_CXX_FLAGS=ON")

def adapt(mode, n1=5000, n2=320, n3=160, n4=200, **kw):
    return [dict(bin="h_adapt", mode=mode, n=n1, **kw), dict(bin="h_adapt", mode=mode, n=n2, np=2, chunk=80, **kw),
            dict(bin="h_adapt", mode=mode, n=n3, np=3, chunk=40, **kw), dict(bin="h_adapt", mode=mode, n=n4, np=4, chunk=50, **kw)]


def file(mode, n1, n):
    return [dict(bin="h_file", mode=mode, n=n1)] + [dict(bin="h_file", mode=mode, n=n, np=k, chunk=-(-n * k // 8)) for k in (2, 3, 4)]


def dist(mode, n1, n):
    return [dict(bin="h_dist", mode=mode, n=n1)] + [dict(bin="h_dist", mode=mode, n=n, np=k, chunk=-(-n * k // 8)) for k in (2, 3, 4)]


def prim(mode, n1, n, nps=(1, 2, 3, 4), bin="h_array"):
    return [dict(bin=bin, mode=mode, n=n1) if k == 1 else dict(bin=bin, mode=mode, n=n, np=k, chunk=-(-n * k // 8)) for k in nps]


def metric(mode, n1, n):
    return prim(mode, n1, n, bin="h_metric")


def sched():
    j = [dict(bin="h_sched", mode="build", n=600, chunk=100)]
    for m, n in (("dist", 200), ("amr", 80), ("file", 60), ("prim", 60), ("metric", 140)):
        j += [dict(bin="h_sched", mode=m, n=n, chunk=n // 2)] + [dict(bin="h_sched", mode=m, n=n, np=k, chunk=-(-n * k // 8)) for k in (2, 3, 4)]
    j += [dict(bin="h_adapt", mode="sched", n=80, chunk=40)] + [dict(bin="h_adapt", mode="sched", n=n, np=k, chunk=-(-n // 2)) for k, n in ((2, 24), (3, 12), (4, 12))]
    # one schedule under the race detector
    for b, m, n, n2 in (("h_sched", "build", 100, 0), ("h_sched", "dist", 60, 10), ("h_sched", "amr", 40, 10), ("h_sched", "file", 50, 8), ("h_sched", "prim", 36, 8), ("h_sched", "metric", 60, 10), ("h_adapt", "sched", 30, 5)):
        for k, nn in ((1, n), (2, n2)):
            if nn: j.append(dict(bin=b, mode=m, n=nn, np=k, cfg="tsan", args=["--vp-sched=3"], weight=1 + 2 * k, chunk=-(-nn // (3 - k))))
    return j


def memory():
    """every harness again under AddressSanitizer with undefined behaviour checks, and under memcheck"""
    j = [dict(bin="h_edge", mode="tiny", n=4000)] + [dict(bin="h_edge", mode="tiny", n=n, np=k, chunk=-(-n * k // 8)) for k, n in ((2, 600), (3, 400), (4, 300))]
    asan = [("h_edge", "tiny", 500, 40, 40, 40),
            ("h_adapt", "valid", 120, 12, 0, 8), ("h_adapt", "fields", 60, 8, 8, 0), ("h_adapt", "conserve", 40, 0, 8, 0),
            ("h_file", "native", 160, 24, 0, 16), ("h_file", "damage", 16, 0, 0, 0), ("h_file", "vtk", 160, 24, 0, 16), ("h_file", "cmp", 50, 0, 16, 0),
            ("h_dist", "part", 80, 24, 24, 16), ("h_dist", "exch", 60, 20, 20, 20), ("h_dist", "sync", 0, 20, 0, 20), ("h_dist", "build", 80, 0, 30, 20),
            ("h_array", "array", 400, 0, 0, 0), ("h_array", "marks", 200, 30, 0, 0), ("h_array", "sum", 200, 0, 30, 0),
            ("h_metric", "small", 20, 0, 0, 0), ("h_metric", "field", 12, 4, 0, 0), ("h_metric", "fit", 60, 0, 10, 0),
            ("h_mesh", "hist", 160, 24, 0, 16), ("h_amr", "tree", 14, 0, 0, 0), ("h_amr", "par", 80, 20, 0, 20), ("h_adj", "", 120, 0, 10, 0),
            ("h_lang", "expr", 1600, 0, 0, 0), ("h_lang", "xml", 1000, 0, 0, 0), ("h_lang", "grammar", 300, 0, 0, 0), ("h_lang", "regex", 100, 0, 0, 0),
            ("h_lang", "yaml", 300, 0, 0, 0), ("h_lang", "cmdline", 1000, 0, 0, 0)]
    for b, m, *ns in asan:
        for k, n in zip((1, 2, 3, 4), ns):
            if n: j.append(dict(bin=b, mode=m, n=n, np=k, cfg="asan", only="" if b == "h_edge" else "memory", chunk=-(-n // 2) if k == 1 else n, timeout=300))
    mc = [("h_edge", "tiny", 50, 4), ("h_adapt", "valid", 6, 0), ("h_adapt", "fields", 6, 0), ("h_adapt", "conserve", 2, 0), ("h_file", "native", 24, 2), ("h_file", "vtk", 24, 2),
          ("h_file", "cmp", 6, 0), ("h_dist", "part", 16, 3), ("h_dist", "build", 16, 3), ("h_dist", "exch", 0, 3), ("h_array", "array", 30, 0), ("h_array", "marks", 40, 0), ("h_metric", "field", 2, 0),
          ("h_metric", "fit", 8, 0), ("h_mesh", "hist", 20, 3), ("h_amr", "par", 12, 2), ("h_amr", "tree", 3, 0), ("h_lang", "expr", 50, 0), ("h_lang", "yaml", 30, 0), ("h_lang", "regex", 12, 0)]
    for b, m, *ns in mc:
        for k, n in zip((1, 3), ns):
            if n: j.append(dict(bin=b, mode=m, n=n, np=k, wrap="memcheck", only="" if b == "h_edge" else "memory", chunk=n, timeout=400))
    return j


FILE_RULE = "random simplex and hypercube meshes (1-3D, materials, holes, non-conforming refinement, random distribution and ghosting) with random tags of every type, names and component counts including NaN, infinities and integer extremes, random classification sets; "
ADAPT_RULE = "random multi-material, non-convex or holed flat-sided domains in 1-3D, random isotropic and anisotropic metrics, random adaptation options, 1-4 ranks with random element assignment; the mesh is observed inside every refine, coarsen and swap pass through the transfer callback and at the end. "
CHECKS = {
    "C01": {
        "technique": "runtime oracle: brute-force adjacency monitor over random meshes",
        "note": "Exploration: holds on the meshes generated; the oracle recomputes every relation from element connectivity with its own templates and decodes alignment codes by their documented meaning.",
        "rule": "random simplex and hypercube meshes (1-3D, holes, reordered, rotated elements), serial and distributed/ghosted; every relation compared with brute force from element connectivity; non-trivial: more than one element and dimension above 1, distinct by connectivity",
        "jobs": [
            {"bin": "h_adj", "n": 1200},
            {"bin": "h_adj", "n": 40, "np": 3, "chunk": 20},
        ],
    },
    "A01": {
        "technique": "runtime oracle: validity monitor inside every adaptation pass",
        "note": "Exploration of seeded random cases; validity, conformity, orientation, topology and distributed consistency recomputed from the raw connectivity after each pass.",
        "rule": ADAPT_RULE + "Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": adapt("valid"),
    },
    "A02": {
        "technique": "runtime oracle: geometry and classification monitor inside every adaptation pass",
        "note": "Exploration of seeded random cases with flat model faces and straight model edges.",
        "rule": ADAPT_RULE + "Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": adapt("geom"),
    },
    "A03": {
        "technique": "runtime oracle: quality and length contract monitor inside every adaptation pass",
        "note": "Exploration; lengths, qualities and sizes recomputed by an independent implementation of the documented formulas.",
        "rule": ADAPT_RULE + "Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": adapt("quality"),
    },
    "A04": {
        "technique": "runtime oracle: field transfer monitor comparing old and new mesh in every pass",
        "note": "Exploration; the mean of two metrics is held to 1e-5 only where the eigenvalues are separated, see DESIGN.md.",
        "rule": ADAPT_RULE + "Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": adapt("fields"),
    },
    "A05": {
        "technique": "runtime oracle: conservation monitor over whole adaptations",
        "note": "Exploration; integrals recomputed from coordinates and tags before and after.",
        "rule": ADAPT_RULE + "Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": adapt("conserve", 1200, 200, 100, 120),
    },
    "A06": {
        "technique": "runtime oracle: differential comparison of runs under different partitionings",
        "note": "Exploration; canonical forms of gathered meshes compared bitwise.",
        "rule": ADAPT_RULE + "Every case is run under several partitionings and compared. Non-trivial: the mesh changed; distinct by resulting mesh",
        "jobs": [{"bin": "h_adapt", "mode": "same", "n": 300}] + [{"bin": "h_adapt", "mode": "same", "n": n, "np": k, "chunk": n // 5} for k, n in ((2, 250), (3, 150), (4, 200))],
    },
    "A07": {
        "technique": "runtime oracle: bitwise comparison of every result under permuted and threaded iteration schedules; ThreadSanitizer on the threaded schedule",
        "note": "Exploration of seeded random scenarios, five schedules each. Two iterations storing the same value in one place are accepted (mark_image does so), decided by comparing the results. Reductions and scans run serially in this build.",
        "rule": "Each case runs one random scenario (mesh construction and classification, adaptation, migration and ghosting, refinement trees, file writing and reading, array and graph primitives, metric and recovery fields) with the iterations of every parallel loop in order, reversed, shuffled twice and on 2-6 threads, and compares everything it produced, bit by bit, rank by rank. The race detector watches the threaded schedule. Non-trivial: more than five parallel loops ran; distinct by results",
        "jobs": sched(),
    },
    "B01": {
        "technique": "runtime oracle: global consistency monitor after every repartitioning step",
        "note": "Exploration of seeded random histories; all parts are gathered and compared with the mesh before, expected ghost layers and vertex neighbourhoods are recomputed from the gathered connectivity.",
        "rule": "random simplex and hypercube meshes with random tags, spread from one or some of the ranks, then 2-7 random operations (ghost 1-3 layers, vertex based, element based, random migration, balance, rank permutation, reorder by globals); everything is gathered and checked after each. Non-trivial: more than one element; distinct by history and mesh",
        "jobs": dist("part", 400, 500),
    },
    "B02": {
        "technique": "runtime oracle: exchange monitor against a reference computed from the whole pattern",
        "note": "Exploration; every rank knows the whole random pattern and computes what it must receive. Sends are delayed at random and futures polled at random times.",
        "rule": "random distributions (empty ranks, self sends, rings, permutations, single targets), all data types, widths 1-9, fans, synchronous and asynchronous, inverse, reductions, in the world, duplicated, split and permuted communicators; and mesh synchronisation and reductions over random distributed meshes. Non-trivial: more than one item and rank; distinct by pattern",
        "jobs": dist("exch", 500, 360) + dist("sync", 200, 200),
    },
    "B03": {
        "technique": "runtime oracle: differential comparison of distributed and serial construction",
        "note": "Exploration; the serial reference is the connectivity that was given, lower entities are derived independently.",
        "rule": "random simplex and hypercube meshes built from distributed connectivity (random assignment, contiguous slices, with and without element globals), from sliced connectivity, by spreading a serial mesh, and boxes of random counts and extents. Non-trivial: more than one element; distinct by connectivity and assignment",
        "jobs": dist("build", 800, 700),
    },
    "C02": {
        "technique": "runtime oracle: model of the mesh object over random operation histories",
        "note": "Exploration of random histories; the model is a plain map from tags to values keyed by entity identity.",
        "rule": "random meshes, then 10-40 random operations (add, set, remove, rename, copy, reorder, migrate, ghost, balance, sync, reduce, subset and class sets, coordinates, cached quantities) on several mesh objects that share data; after each, everything the mesh answers is compared with the model. Non-trivial: more than one element; distinct by history",
        "jobs": prim("hist", 2400, 600, bin="h_mesh"),
    },
    "C06": {
        "technique": "runtime oracle: lattice model of the refinement tree over random histories",
        "note": "Exploration of random histories on one rank, and of the first refinement on 1-4 ranks; further refinements on several ranks are a known finding.",
        "rule": "random boxes of 1-3 dimensions with holes, materials, tags, then random refinements with random marks (closed under 2:1 by the library), derefinements, reordering, writing and reading; parents, levels, leaves, ownership, coordinates and inherited fields are predicted by lattice arithmetic. Non-trivial: something was refined; distinct by history",
        "jobs": [dict(bin="h_amr", mode="tree", n=3000)] + prim("par", 1000, 600, bin="h_amr") + [dict(bin="h_amr", mode="again", n=1, n_thorough=1, np=2)],
    },
    "C03": {
        "technique": "runtime oracle: array primitives against sequential reference models",
        "note": "Exploration; every primitive is compared with a plain sequential reference on random arrays of random sizes, including empty arrays.",
        "rule": "random arrays of every type (empty, one item, all equal, sorted, duplicates, extremes), random graphs, trees, marks and sets; distinct by input",
        "jobs": prim("array", 6000, 0, (1,)) + prim("marks", 3000, 1500),
    },
    "C04": {
        "technique": "runtime oracle: exact wide accumulator and permutation differential",
        "note": "Exploration; the sum is compared with an exact accumulator and, bitwise, with the sums of other orders and other distributions.",
        "rule": "random values (mixed magnitudes, cancelling, denormal, zeros), random orders and distributions over 1-4 ranks; distinct by values",
        "jobs": prim("sum", 6000, 3000),
    },
    "C05": {
        "technique": "runtime oracle: independent tensor algebra and mesh monitors",
        "note": "Exploration; eigen-decompositions, logarithms and intersections recomputed independently in extended precision, gradation compared with a shortest-path reference.",
        "rule": "random symmetric tensors (isotropic, repeated, nearly repeated, strongly anisotropic, rotated), random meshes and metric fields, sources and gradation rates, exact polynomial fields for fits and derivatives; distinct by input",
        "jobs": [dict(bin="h_metric", mode="small", n=600)] + metric("field", 160, 80) + metric("fit", 160, 80),
    },
    "D01": {
        "technique": "runtime oracle: bitwise round trip against an independent codec of the native format",
        "note": "Exploration; files are also decoded by an independent reader and files of versions 1-9 are produced by an independent writer.",
        "rule": FILE_RULE + "written and read back on the same and on more ranks. Non-trivial: at least one element; distinct by connectivity",
        "jobs": file("native", 2000, 150),
    },
    "D02": {
        "technique": "runtime fault injection: truncated, corrupted and unwritable files",
        "note": "Exploration; faults are truncation at many offsets, corrupted headers and blocks, full storage (/dev/full, file size limits), unwritable paths. Changes that zlib's own checksum cannot tell are excluded.",
        "rule": FILE_RULE + "each file is damaged about 200 times. Non-trivial: every mesh; distinct by file content",
        "jobs": [dict(bin="h_file", mode="damage", n=640)],
    },
    "D03": {
        "technique": "runtime oracle: independent VTK/XML/base64/zlib and Gmsh codecs over generated meshes",
        "note": "Exploration; every array of every VTU file is decoded independently and compared bitwise with the mesh, Gmsh files are generated independently.",
        "rule": FILE_RULE + "Non-trivial: at least one element; distinct by case",
        "jobs": file("vtk", 2000, 150) + prim("plot", 800, 300, bin="h_edge"),
    },
    "D04": {
        "technique": "runtime oracle: independent parsers, evaluators and matchers over generated and damaged texts",
        "note": "Exploration; texts without a verdict (comparisons within rounding, division by zero, componentwise powers of vectors) are counted and skipped.",
        "rule": "Each case generates a text of one of the languages (expressions over 0-6 points in 1D-3D, XML documents and tags, LALR(1) grammars and words, regular expressions and words, YAML documents with includes, command lines), valid or damaged, and compares the library's verdict and value with an independent reader's. Non-trivial: the text is not empty and got a verdict; distinct by text",
        "jobs": [dict(bin="h_lang", mode=m, n=n) for m, n in (("expr", 30000), ("xml", 15000), ("grammar", 12000), ("regex", 20000), ("yaml", 15000), ("cmdline", 20000))],
    },
    "D05": {
        "technique": "runtime oracle: comparison verdicts against planted differences of known size",
        "note": "Exploration; differences are placed above and below the tolerance, away from it by at least 1e-5 relative.",
        "rule": FILE_RULE + "a mesh and a copy differing in a known way, possibly distributed in another way. Non-trivial: at least one element; distinct by case",
        "jobs": file("cmp", 2000, 150),
    },
    "E01": {
        "technique": "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over every workload; runtime oracle on degenerate meshes",
        "note": "Exploration: every workload of the other checks again (fewer cases) in a build with address and undefined behaviour instrumentation, and under memcheck for reads of undefined memory; leaks are not judged.",
        "rule": "the workloads of all other checks, and random programs of operations on degenerate meshes (one element, one element per rank, ranks without elements), with rejected calls between. Non-trivial and distinct as in the checks the workloads come from; for the programs: distinct by program",
        "jobs": memory(),
    },
}

HOOK_COMMITS = ["53fe6d47494f0450c28c7b20ccad854a46a74905"]
NOT_APPLICABLE = {}
