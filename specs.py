COMMON_ASSUMPTIONS = [
    "clang 18 -O1 LLVM IR of the headers stands for the code users compile; libstdc++ containers are executed as compiled, except the std::string/rb-tree/list helpers re-provided in engine/runtime.cpp",
    "allocation never fails; iostream formatting is a no-op",
    "single-threaded execution",
]
PROPS = {}
def prop(pid, units, bounds, **kw):
    PROPS[pid] = dict(units=units, bounds=bounds, **kw)
def U(src, **kw):
    return dict(src=src, **kw)
def BIG(op, trs):
    return [U("big.cpp", defs=["OP=%d" % op, "TR=%d" % t]) for t in trs]
PAT = "; larger shapes (%s): every value of 5 fixed patterns per operand with one position toggled, 3 mask patterns, all mask kinds, accumulator, merge/replace"
def FAM(src, defs, **kw):
    return [U(src, defs=list(defs) + ["FAM", "GMAX=9"], **kw)]
FAMT = "; families (path both ways, cycle with chords, star, binary tree, layers, complete, ladder, disjoint cliques) of %s vertices with %s edge added or removed"
GEN = "values: all 64-bit values (symbolic); semiring: + mod 2^64 with an arbitrary (uninterpreted, non-commutative) multiply; accumulator: arbitrary binary function; "
prop("P01", [U("mxm.cpp", defs=["TR=%d" % t]) for t in range(4)] + BIG(1, range(4)),
     GEN + "every sparsity structure of A and B with (m,k,n) in {(2,2,2),(1,3,2),(2,3,1),(3,1,2),(1,2,3),(1,1,4)}; masked/accumulated write-back for every structure of A,B,C,mask and every mask value with (m,k,n) in {(1,2,2),(2,2,1),(1,1,3)}; 5 mask kinds x accum x merge/replace x 4 transpose combinations; both backends" + PAT % "5x7x6, 2x66x2, 9x1x8, 1x9x33",
     bounds_thorough="as quick, plus masked (2,2,2)")
GOP = "values: all 64-bit values (symbolic); operators and accumulator: arbitrary (uninterpreted) functions; "
WB = "5 mask kinds x accum/no accum x merge/replace, every structure of output and mask and every mask value; both backends"
prop("P02", [U("mxv.cpp", defs=["TR=%d" % t]) for t in range(2)] + BIG(2, range(2)),
     GEN + "every structure with op(A) in {2x2,1x4,4x1,2x3,3x2}; masked 2x2 and 3x1 with " + WB + PAT % "6x7, 2x66, 66x2, 9x9", bounds_thorough="as quick, plus masked 3x2")
prop("P03", [U("mxv.cpp", defs=["VXM=1", "TR=%d" % t]) for t in range(2)] + BIG(3, range(2)),
     GEN + "every structure with op(A) in {2x2,1x4,4x1,2x3,3x2}; masked 2x2 and 1x3 with " + WB + PAT % "6x7, 2x66, 66x2, 9x9", bounds_thorough="as quick, plus masked 2x3")
prop("P04", [U("ewise.cpp", defs=["VEC=1"])] + [U("ewise.cpp", defs=["TR=%d" % t]) for t in range(4)] + BIG(4, range(4)),
     GOP + "matrices {2x2,2x3,3x2,1x4,4x1} x 4 transposes; masked 1x2, 2x1; vectors of size 3 masked, size 70 with elements around a bitmap word; rows with up to 2 elements per operand at arbitrary columns < 2^40; " + WB + PAT % "6x7, 2x40, 40x2, vectors of 17 and 70", bounds_thorough="as quick, plus masked 1x3, 3x1")
prop("P05", [U("ewise.cpp", defs=["MULT=1", "VEC=1"])] + [U("ewise.cpp", defs=["MULT=1", "TR=%d" % t]) for t in range(4)] + BIG(5, range(4)),
     PROPS["P04"]["bounds"], bounds_thorough=PROPS["P04"]["bounds_thorough"])
prop("P06", [U("apply.cpp", defs=["KIND=%d" % k, "TR=%d" % t]) for k in range(3) for t in range(2)] + BIG(6, range(2)),
     GOP + "unary, bind-first, bind-second with an arbitrary bound scalar; matrices {2x2,1x3,3x1,2x3,3x2} plain and transposed; vectors of size 3; " + WB + PAT % "6x7, 2x40, 40x2, vectors of 17 and 70")
prop("P07", [U("reduce.cpp", defs=["TR=%d" % t]) for t in range(2)] + BIG(7, range(2)),
     GEN + "row reduction of {2x2,1x4,4x1,2x3,3x2} plain and transposed; scalar reductions of matrices/vectors with two monoids, including empty ones; " + WB + PAT % "6x7, 2x66, 66x2, vectors of 70 and 130")
prop("P08", [U("transpose.cpp")] + BIG(8, range(1)), GOP + "matrices {2x2,1x4,4x1,2x3,3x2}; " + WB + PAT % "6x7, 2x40, 40x2")
prop("P09", [U("kronecker.cpp", defs=["TR=%d" % t]) for t in range(4)] + BIG(9, range(4)), GOP + "operand shapes up to 2x2 (x) 2x2 and 1x2 (x) 2x3 with 4 transposes; masked with up to 4 outputs; " + WB + PAT % "3x2 (x) 2x4, 1x9 (x) 5x1, 5x1 (x) 1x9")
prop("P10", [U("extract.cpp", defs=["KIND=0"])] + [U("extract.cpp", defs=["KIND=%d" % k, "TR=%d" % t]) for k in (1, 2) for t in range(2)] + BIG(10, range(2)),
     "every index list (any order, repeats) of length <= 3 over dimensions <= 4, AllIndices and index ranges; values: all 64-bit; vectors (also one stored position anywhere in size 130), matrices up to 4 cells plain and transposed, columns/rows; " + WB + PAT % "6x7, 2x19, 19x2, vectors of 11 and 70; 4 index list shapes of length up to n+3")
prop("P11", [U("assign.cpp", defs=["KIND=0"]), U("assign.cpp", defs=["KIND=2"])] + [U("assign.cpp", defs=["KIND=1", "TR=%d" % t]) for t in range(2)] + BIG(11, range(2)),
     "every list of distinct indices in any order, AllIndices and index ranges; C up to 2x3, source up to 4 cells; values: all 64-bit; " + WB + PAT % "6x7, 2x19, 19x2, rows/columns of 13, vectors of 11 and 72; 3 index list shapes")
prop("P12", [U("assign.cpp", defs=["KIND=3"])] + BIG(12, range(1)),
     "every index list of length <= 3 (any order, repeats), AllIndices and ranges; C up to 2x3, vectors up to 4; constant: all 64-bit values; " + WB + PAT % "6x7, 2x19, 19x2, vectors of 11 and 72; 3 index list shapes, one index repeated")
prop("P14", [U("container.cpp", defs=["KIND=0"]), U("bigc.cpp", defs=["KIND=0"])], "every structure of 2x2, 1x3, 3x1 (resize: 1x4, 3x2; to any size <= 4x4), every sequence of 2 operations (set, remove, clear, resize, extract) with arbitrary 64-bit indices and values; both backends; matrices 5x9, 2x40, 33x2 in 6 patterns: set/remove at any 64-bit position followed by one there or next to it, any resize and back, clear and refill, copies", bounds_thorough="sequences of 3 operations")
prop("P15", [U("container.cpp", defs=["KIND=1"]), U("bigc.cpp", defs=["KIND=1"])], "every structure of size 3-5, every sequence of 2 operations (set, remove, clear, resize, dense assignment, extract) with arbitrary 64-bit indices and values; size 131 with two stored positions (one arbitrary, one at a bitmap word boundary) and resize around word boundaries; both backends; vectors of 67 and 131 in 6 patterns: set/remove at any 64-bit position followed by another, any resize and back, clear, dense assignment, copies", bounds_thorough="sequences of 3 operations")
prop("P16", [U("container.cpp", defs=["KIND=2"]), U("bigc.cpp", defs=["KIND=2"])], "every list of <= 4 (vector) / <= 3 (matrix) tuples over size 3 / 2x2, 1x3, 3x1, arbitrary 64-bit values, dup operator second / arbitrary / plus; both backends; lists of 10 (vectors of 13, 70) and 12 (5x9, 2x40, 33x2) tuples in 3 orders with any tuple repeated at any place")
prop("P20", [U("container.cpp", defs=["KIND=3"]), U("bigc.cpp", defs=["KIND=3"])], "every pair of structures and values over shapes {2x2,1x3,3x1,2x1} and vector sizes 2-3; both backends; 5x9, 2x40, 33x2 and vectors of 67, 131 in 6 patterns, differing at any one position or in a dimension")
prop("P17", [U("errors.cpp", defs=["PART=1", "TR=%d" % t]) for t in range(4)] + [U("errors.cpp", defs=["PART=2", "TR=%d" % t]) for t in range(2)] + [U("errors.cpp", defs=["PART=3"])],
     "row counts and vector sizes 1-2 per operand (kronecker output 1-4), column counts 1-2 and, where the operation does not loop over columns, every 64-bit column count; index lists of length 0-3 (matrix: 0-2) with arbitrary 64-bit contents; row/column index arbitrary 64-bit; masks of all kinds with independent sizes; both backends")
prop("P19", [U("alias.cpp", defs=["TR=%d" % t]) for t in range(4)],
     GEN + "2x2 matrices (every structure of the output object; 4 structures of a non-aliased operand) and vectors of size 2-3 (every structure); every combination of output = first operand / second operand / mask (as value, complement, structure, structural complement), accumulator or none, merge/replace, all transpose combinations; both backends")
prop("P23", [U("mixed.cpp", defs=["CFG=%d" % c, "TR=%d" % t]) for t in range(4) for c in range(3)],
     "scalar types (operand A, operand B, output): (int8,int64,int64), (int64,int8,int64), (int64,int64,int16) with 64-bit operators, all values of each type; operands up to 2x2 (3 structures each), mxm (1x2)(2x1..2) with transposes; 6 mask/accumulator/output-mode combinations; operators and accumulator: arbitrary functions; both backends")
prop("P13", [U("mask.cpp", defs=["PART=1", "MASKT=%s" % m]) for m in ("int64_t", "double", "int8_t")] + [U("mask.cpp", defs=["PART=0", "TR=%d" % t, "MASKT=%s" % m]) for t, m in ((0, "double"), (1, "int64_t"), (2, "double"), (3, "int64_t"))],
     "mask scalar types int64, int8, double (every bit pattern); every mask structure and value, 4 mask kinds, accumulator or none, merge/replace; 2x2 matrices (3 structures per operand), vectors of size 2-3; operations mxm (4 transpose combinations), mxv, vxm, eWiseAdd, eWiseMult, apply, reduce, transpose, extract, assign (matrix, vector, constant, row, column), kronecker; both backends")
prop("P30", [U("bfs.cpp", defs=["PART=0", "GT=%s" % t]) for t in ("int", "bool", "double")] + [U("bfs.cpp", defs=["PART=0", "NN=4", "LOOPS=0"], plats=["opt"], tier="thorough")] + [U("bfs.cpp", defs=["PART=0", "NN=4", "LOOPS=1", "GT=bool"], plats=["seq"], tier="thorough")] + FAM("bfs.cpp", ["PART=0", "NN=8", "LOOPS=0"], plats=["opt"]) + [U("bfs.cpp", defs=["PART=0", "NN=4", "LOOPS=0"], plats=["seq"])],
     "every directed graph on 3 vertices with self loops, every root and pair of roots; graph scalar types int (every nonzero value per edge), bool, double (value 1); both backends" + FAMT % ("8", "any one") + "; every loop-free directed graph on 4 vertices", bounds_thorough="as quick, plus every graph with self loops on 4 vertices")
prop("P31", [U("bfs.cpp", defs=["PART=1", "GT=%s" % t]) for t in ("int", "bool", "double")] + [U("bfs.cpp", defs=["PART=1", "NN=4", "LOOPS=0"], plats=["opt"], tier="thorough")] + [U("bfs.cpp", defs=["PART=1", "NN=4", "LOOPS=1", "GT=bool"], plats=["seq"], tier="thorough")] + FAM("bfs.cpp", ["PART=1", "NN=8", "LOOPS=1"], plats=["opt"]) + [U("bfs.cpp", defs=["PART=1", "NN=4", "LOOPS=0"], plats=["seq"])],
     "every directed graph on 3 vertices with self loops, every root and pair of roots; graph scalar types int (every nonzero value per edge), bool, double (value 1); both backends" + FAMT % ("8", "any one") + "; every loop-free directed graph on 4 vertices", bounds_thorough="as quick, plus every graph with self loops on 4 vertices")
prop("P32", [U("sssp.cpp", defs=["PART=0", "WB=5"], plats=["opt"]), U("sssp.cpp", defs=["PART=0", "WB=4"], plats=["seq"]), U("sssp.cpp", defs=["PART=1"], split=True, plats=["seq"]),
             U("sssp.cpp", defs=["PART=0", "WB=8"], tier="thorough"), U("sssp.cpp", defs=["PART=0", "WB=4"], plats=["opt"], tier="thorough"), U("sssp.cpp", defs=["PART=1"], split=True, plats=["opt"], tier="thorough")] + FAM("sssp.cpp", ["PART=0", "WB=5", "NN=6", "FLIPS=5"], plats=["opt"]) + FAM("sssp.cpp", ["PART=0", "WB=4", "NN=6", "FLIPS=3"], plats=["seq"]) + FAM("sssp.cpp", ["PART=1", "NN=6", "FLIPS=2"], plats=["opt"]),
     "int32 weights; Bellman-Ford variants: every loop-free directed graph on 3 vertices, every 5-bit weight, every source and two sources with every pair of 5-bit start distances (sssp, filtered_sssp); 4-vertex path graphs; every graph with at most 4 edges (3 vertices, or 2 with self loops) and every weight in [-8,7] (negative cycle flag); batch_sssp: every graph, 4-bit weights, every pair of sources; delta stepping: every graph with at most 3 edges, weights 1..4, delta 1..3, every source" + FAMT % ("6", "one of a few") + "and an arbitrary weight on one edge, fixed weights on the others", bounds_thorough="8-bit weights, several start vertices everywhere, both backends for every part")
prop("P33", [U("sssp.cpp", defs=["PART=2"]), U("sssp.cpp", defs=["PART=2", "WB=12"], tier="thorough")] + FAM("sssp.cpp", ["PART=2", "NN=6", "FLIPS=4"], plats=["opt"]),
     "int32 weights; every loop-free directed graph on 3 vertices and every graph with self loops on 2, every 5-bit weight; both backends" + FAMT % ("6", "one of a few") + "and an arbitrary weight on one edge, fixed weights on the others", bounds_thorough="12-bit weights as well")
prop("P34", [U("graphs.cpp", defs=["PART=0", "GT=%s" % t]) for t in ("int", "double")] + [U("graphs.cpp", defs=["PART=0", "NN=5"]), U("graphs.cpp", defs=["PART=0", "NN=6"], tier="thorough")] + FAM("graphs.cpp", ["PART=0", "NN=8"]),
     "every undirected graph on 4 vertices (int, double) and on 5 (int); every 0/1 value of a fully stored matrix on 4 vertices; 6 variants; both backends" + FAMT % ("8", "any one") + "", bounds_thorough="plus every undirected graph on 6 vertices")
prop("P35", [U("graphs.cpp", defs=["PART=1"]), U("graphs.cpp", defs=["PART=1", "NN=5"]), U("graphs.cpp", defs=["PART=1", "NN=6"], tier="thorough")] + FAM("graphs.cpp", ["PART=1", "NN=7"]),
     "every undirected graph on 4 and on 5 vertices, every k with 3 <= k < 2^31 (symbolic), incidence rows in two orders; both backends" + FAMT % ("7", "any one") + "", bounds_thorough="plus every undirected graph on 6 vertices")
prop("P36", [U("mis.cpp", defs=["NN=3"], fp=True), U("mis.cpp", defs=["NN=4"], fp=True, plats=["opt"]), U("mis.cpp", defs=["NN=4"], fp=True, plats=["seq"], tier="thorough"), U("mis.cpp", defs=["NN=4", "SYM_MAXDRAW=14", "GT=double"], fp=True, plats=["opt"], tier="thorough")] + FAM("mis.cpp", ["NN=5", "FLIPS=1"], fp=True, plats=["seq"]),
     "every loop-free undirected graph on 3 and 4 vertices; every sequence of draws from {0,1/8,..,7/8}, ties included, for the first 2 draws per vertex (executions needing more are cut); exact float arithmetic; both variants; both backends on 3 vertices" + FAMT % ("5", "no") + "", bounds_thorough="both backends on 4 vertices")
prop("P37", [U("graphs.cpp", defs=["PART=2"], plats=["opt"]), U("graphs.cpp", defs=["PART=2"], plats=["seq"], tier="thorough")] + FAM("graphs.cpp", ["PART=2", "NN=6", "WB=8"]),
     "every connected undirected graph on 4 vertices, every 16-bit signed weight per edge, parent vector empty or holding an old entry; every disconnected graph on 4 vertices; optimized_sequential" + FAMT % ("6", "any one") + "and arbitrary weights on two edges, fixed weights on the others", bounds_thorough="both backends")
prop("P38", [U("flow.cpp", defs=["NN=3"], split=True), U("flow.cpp", defs=["NN=4", "WB=3"], split=True, plats=["opt"]), U("flow.cpp", defs=["NN=4", "WB=5"], split=True, plats=["seq"], tier="thorough"), U("flow.cpp", defs=["NN=3", "WB=12"], split=True, tier="thorough")] + FAM("flow.cpp", ["NN=5", "FLIPS=2"], plats=["opt"]),
     "int32 capacities; every directed graph on 3 vertices, every source and sink, capacities 1..16; every graph on 4 vertices without edges into the source or out of the sink, capacities 1..8" + FAMT % ("5", "no") + "and an arbitrary capacity on one edge, fixed capacities on the others", bounds_thorough="4 vertices with capacities 1..32, 3 vertices with capacities 1..4096")
prop("P39", [U("metrics.cpp", defs=["PART=0"]), U("metrics.cpp", defs=["PART=1", "WB=4"]), U("metrics.cpp", defs=["PART=1", "WB=8"], tier="thorough")] + FAM("metrics.cpp", ["PART=0", "NN=7"]) + FAM("metrics.cpp", ["PART=1", "WB=4", "NN=6", "FLIPS=3"], plats=["opt"]),
     "int32; degrees: every directed graph on 3 vertices with self loops and every nonzero edge value, every vertex, every out-of-range 64-bit vertex id; distances: every loop-free directed graph on 3 vertices, every 4-bit weight; both backends" + FAMT % ("7 (degrees) and 6 (distances)", "any one (distances: one of two)") + "; in distances one arbitrary weight", bounds_thorough="8-bit weights as well")
prop("P22", [U("algebra.cpp", defs=["FAM=0"], plats=["seq"]), U("algebra.cpp", defs=["FAM=1"], plats=["seq"]), U("algebra.cpp", defs=["FAM=2"], fp=True, plats=["seq"]), U("algebra.cpp", defs=["FAM=3"], plats=["seq"])],
     "scalar types bool, (u)int8..64, float, double: every value of every operand (floating: every non-NaN value; division by zero and the negation of the least integer excluded); 6 unary and 21 binary operators, 8 monoids, 16 semirings and their operator adaptors; one mixed-type sweep over (int8,int64,int16), (uint8,int32) and neighbours. Power (std::pow) is outside. The header is shared by the backends")
prop("P24", [U("util.cpp", defs=["PART=0"])], "every structure of 2x2, 1x3, 3x1 matrices (uint64, bool, double) and vectors of size 3, all values, one arbitrary change of the viewed object in between; both backends")
prop("P25", [U("util.cpp", defs=["PART=1"]), U("util.cpp", defs=["PART=2"], fp=True)],
     "diag: every vector of size 1 and 3, all 64-bit values; scaled_identity: sizes 1-4, all values; split: every structure of 2x2, 3x3, 2x3, 3x1, all values; normalize_rows/cols: every structure of 2x2, 2x3, 3x2, 3x1, 1x3 with each stored value one of {0.5,1,3,-8} (2x3, 3x2: {0.5,-3}), exact double arithmetic; both backends")
prop("P40", [U("bc.cpp", defs=["NN=3", "PART=%d" % p], fp=True) for p in (0, 1)] + [U("bc.cpp", defs=["NN=4", "UND=true", "PART=%d" % p], fp=True) for p in (0, 1)] + [U("bc.cpp", defs=["NN=4", "PART=%d" % p], fp=True, tier="thorough") for p in (0, 1)] + FAM("bc.cpp", ["NN=6", "PART=0", "FLIPS=9"], fp=True, plats=["seq"]) + FAM("bc.cpp", ["NN=7", "PART=1", "FLIPS=9"], fp=True, plats=["opt"]),
     "every loop-free directed graph on 3 vertices and every undirected one on 4; every source and pair of sources; exact float arithmetic; 8 variants; both backends" + FAMT % ("6 and 7", "one of eight") + "", bounds_thorough="plus every loop-free directed graph on 4 vertices")
prop("P41", [U("rank.cpp", defs=["NN=3"], fp=True)] + FAM("rank.cpp", ["NN=6", "FLIPS=6"], fp=True, plats=["opt"]),
     "every directed graph on 3 vertices with self loops; weights 1, a fixed asymmetric pattern, or {1,4} for each edge out of vertex 0; damping in {0.85,0.5}; 0-3 iterations, and the default convergence loop; double, int and bool graphs; exact double arithmetic; both backends" + FAMT % ("6", "one of five") + "(no chosen weights)")
prop("P42", [U("cluster.cpp", defs=["PART=0"], fp=True), U("cluster.cpp", defs=["PART=1", "GT=double", "ITERS=2"], fp=True), U("cluster.cpp", defs=["PART=1", "GT=int", "ITERS=3", "NN=4", "LOOPS=false", "UND=true"], fp=True, plats=["opt"]), U("cluster.cpp", defs=["PART=1", "WEIGHTS"], fp=True, plats=["seq"]), U("cluster.cpp", defs=["PART=1", "WEIGHTS"], fp=True, plats=["opt"], tier="thorough"), U("cluster.cpp", defs=["PART=1", "GT=bool", "ITERS=3"], fp=True, tier="thorough")] + FAM("cluster.cpp", ["PART=1", "NN=6", "FLIPS=5", "ITERS=4", "GT=int"], fp=True, plats=["opt"]),
     "peer pressure: every directed graph on 3 vertices with self loops, unit weights, every starting assignment, 1-2 rounds; every loop-free undirected graph on 4 vertices, 1-3 rounds; one round with every 16-bit weight per edge and integer tallies (v2) or 2 weights per edge out of vertex 0 (normalized), sequential; assignments: every assignment of 3 vertices and every 3x3 matrix with 4 strengths per entry; exact double arithmetic" + FAMT % ("6", "one of four") + "and up to 4 rounds", bounds_thorough="weighted rounds on both backends")
prop("P43", [U("cluster.cpp", defs=["PART=3", "UND=true"], fp=True), U("cluster.cpp", defs=["PART=3"], fp=True, plats=["opt"]), U("cluster.cpp", defs=["PART=3"], fp=True, plats=["seq"], tier="thorough"), U("cluster.cpp", defs=["PART=3", "NN=4", "UND=true", "LOOPS=false"], fp=True, tier="thorough")] + FAM("cluster.cpp", ["PART=3", "NN=5", "FLIPS=3", "UND=true", "LOOPS=false"], fp=True, plats=["seq"]),
     "every graph on 3 vertices with self loops and unit weights (undirected: both backends, directed: optimized_sequential), limits of 1-3 sweeps, every sequence of up to 8 tie-breaking draws from {0,1/8,..,7/8}; exact double arithmetic; both variants" + FAMT % ("5", "one of two") + "", bounds_thorough="both backends, and loop-free undirected graphs on 4 vertices")
prop("P44", [U("cluster.cpp", defs=["PART=2", "WEIGHTS", "NN=2", "WSYM=2"], fp=True), U("cluster.cpp", defs=["PART=2", "WEIGHTS", "NN=3", "WSYM=2"], fp=True)] + FAM("cluster.cpp", ["PART=2", "NN=6"], fp=True),
     "every directed graph on 2 and 3 vertices with a self loop on each; one step with 2 weights per edge out of vertices 0 and 1; 1-3 iterations with unit weights, (e,r) in {(2,2),(3,2),(2,3)}; exact double arithmetic; both backends" + FAMT % ("6", "any one") + "")
