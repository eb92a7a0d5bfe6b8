# Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from here and specs.py.
B = "src/graphblas/platforms/sequential/"; O = "src/graphblas/platforms/optimized_sequential/"; G = "src/graphblas/"; A = "src/algorithms/"
WHY = "The unit tests run a few fixed matrices per overload; "
T = {}
def t(pid, title, statement, text, why, files, mech, over=("inputs",), observe=None, note=None):
    assert len(title) <= 80, title
    T[pid] = dict(title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), observe=observe or ["public API: hasElement/extractElement/nvals/nrows/ncols of the output"], note=note)

t("P01", "mxm computes the masked, accumulated semiring product",
  "For all matrices A and B and every semiring, mxm(C, M, accum, op(A), op(B)) leaves in C exactly the GraphBLAS result: entry (i,j) of the product exists iff some k has both op(A)(i,k) and op(B)(k,j) stored, equals the add-reduction of the products op(A)(i,k)*op(B)(k,j) with operands in that order, and is written through accumulator, mask and replace flag. This holds for all four transpose combinations, all mask kinds, accumulate or not, merge or replace, and on both backends.",
  "all sparsity structures, all values, all (non-commutative) multiply operators, all masks, accumulators and output modes",
  WHY + "they use commutative multiplies, mostly square operands and few mask/accumulate/transpose combinations of the 80 code paths.",
  [B+"sparse_mxm.hpp", O+"sparse_mxm_AB.hpp", O+"sparse_mxm_ABT.hpp", O+"sparse_mxm_ATB.hpp", O+"sparse_mxm_ATBT.hpp", B+"sparse_helpers.hpp"],
  [("row-wise/dot-product kernels per transpose combination", O+"sparse_mxm*.hpp"), ("masked write back", B+"sparse_helpers.hpp write_with_opt_mask")])
t("P02", "mxv computes the masked, accumulated matrix-vector product",
  "For every matrix A, vector u and semiring, mxv(w, m, accum, op(A), u) makes element i of the product exist iff some k has op(A)(i,k) and u(k) stored, with value the add-reduction of op(A)(i,k)*u(k) in that operand order, and writes it through accumulator, mask and replace flag; plain and transposed A give the same result as forming the transpose.",
  "all structures, values, multiply operators, masks, accumulators and output modes", WHY + "the dot and axpy code paths and the 20 mask/accumulate/replace combinations are sampled only.",
  [B+"sparse_mxv.hpp", B+"sparse_helpers.hpp"], [("dot / axpy kernels", B+"sparse_helpers.hpp dot, axpy"), ("masked write back", B+"sparse_helpers.hpp write_with_opt_mask_1D")])
t("P03", "vxm computes the masked, accumulated vector-matrix product",
  "For every vector u, matrix A and semiring, vxm(w, m, accum, u, op(A)) makes element j of the product exist iff some k has u(k) and op(A)(k,j) stored, with value the add-reduction of u(k)*op(A)(k,j) in that operand order, and writes it through accumulator, mask and replace flag.",
  "all structures, values, multiply operators, masks, accumulators and output modes", WHY + "operand order and untouched-entry handling are sampled only.",
  [B+"sparse_vxm.hpp", B+"sparse_helpers.hpp"], [("axpy / dot kernels", B+"sparse_helpers.hpp axpy, dot")])
t("P04", "eWiseAdd is the union-merge of its operands",
  "For all operands, eWiseAdd yields an entry wherever either operand has one: the operator applied in order (left, right) where both do, the single stored value otherwise; the result is written through accumulator, mask and replace flag, for vectors and for matrices with any combination of transposed operands.",
  "all structures, values, operators, masks, accumulators and output modes", WHY + "merging of interleaved sparse rows depends on which operand runs out first, for every structure.",
  [B+"sparse_ewiseadd.hpp", B+"sparse_helpers.hpp"], [("ordered merge", B+"sparse_helpers.hpp ewise_or")])
t("P05", "eWiseMult is the intersection of its operands",
  "For all operands, eWiseMult yields an entry exactly where both operands have one, with the operator applied in order (left, right); the result is written through accumulator, mask and replace flag, for vectors and for matrices with any combination of transposed operands.",
  "all structures, values, operators, masks, accumulators and output modes", WHY + "intersection of interleaved sparse rows is sampled on a few structures.",
  [B+"sparse_ewisemult.hpp", B+"sparse_helpers.hpp"], [("ordered intersection", B+"sparse_helpers.hpp ewise_and")])
t("P06", "apply maps exactly the stored elements",
  "For every input, apply with a unary operator, or with a binary operator and a scalar bound first or second, keeps the input's structure and replaces each stored value v by op(v), op(k,v) or op(v,k) respectively; the result is written through accumulator, mask and replace flag, for vectors, matrices and transposed matrices.",
  "all structures, values, operators, bound scalars, masks, accumulators and output modes", WHY + "bound-first versus bound-second is only visible with non-commutative operators.",
  [B+"sparse_apply.hpp", B+"sparse_helpers.hpp"], [("per-row map", B+"sparse_apply.hpp")])
t("P07", "reduce folds exactly the stored elements with the monoid",
  "Row-wise reduce yields for each row (column if transposed) with stored elements their monoid sum and nothing for empty rows, written through accumulator, mask and replace flag; scalar reduce of a vector or matrix yields the monoid sum of all stored elements (the identity when there are none), combined with the previous scalar by the accumulator when one is given.",
  "all structures, values, masks, accumulators and output modes", WHY + "empty rows and empty inputs combined with accumulators and masks are sampled only.",
  [B+"sparse_reduce.hpp", B+"sparse_helpers.hpp"], [("row fold", B+"sparse_helpers.hpp reduction")])
t("P08", "transpose moves every stored element to its mirrored position",
  "transpose(C, M, accum, A) puts A(i,j) at (j,i) for exactly the stored elements (with a transposed view as input it is a copy), written through accumulator, mask and replace flag.",
  "all structures, values, masks, accumulators and output modes", WHY + "non-square sparse structures under masks are sampled only.",
  [B+"sparse_transpose.hpp"], [("column-order rebuild", B+"sparse_transpose.hpp")])
t("P09", "kronecker places op(A(i,j), B(k,l)) at block position (i,j), cell (k,l)",
  "For all operands, kronecker yields an entry at (i*rows(B)+k, j*cols(B)+l) exactly when A(i,j) and B(k,l) are stored, with the operator applied in order (A, B), written through accumulator, mask and replace flag, for every combination of transposed operands.",
  "all structures, values, operators, masks, accumulators and output modes", WHY + "block index arithmetic for rectangular operands is sampled only.",
  [B+"sparse_kronecker.hpp"], [("block index computation", B+"sparse_kronecker.hpp")])
t("P10", "extract gathers the requested elements in the requested order",
  "extract yields at output position p exactly the element at index p of the index list (an entry iff the source has one), for every index list including repeated and unordered indices, index ranges and AllIndices, for vectors, sub-matrices and matrix columns (rows via transpose); the result is written through accumulator, mask and replace flag.",
  "all index lists, structures, values, masks, accumulators and output modes", WHY + "unordered and repeated index lists over arbitrary sparsity are sampled only.",
  [B+"sparse_extract.hpp", G+"indices.hpp"], [("per-index search", B+"sparse_extract.hpp vectorExtract, matrixExtract, extractColumn")])
t("P11", "assign scatters the source and leaves everything else alone",
  "assign writes the source into the indexed region of the output: without accumulator a region position takes the source's entry or becomes empty, with one the entries are merged, positions outside the region are kept, and mask/replace then act on the whole output (for row and column assign: on that row or column only). It holds for every list of distinct indices in any order, ranges and AllIndices, for vectors, matrices, rows and columns.",
  "all index lists, structures, values, masks, accumulators and output modes", WHY + "deleting region entries absent from the source, unordered indices and replace outside the region are sampled only.",
  [B+"sparse_assign.hpp", B+"sparse_helpers.hpp", G+"indices.hpp"], [("expand + stencil merge", B+"sparse_assign.hpp, sparse_helpers.hpp ewise_or_stencil")])
t("P12", "assigning a constant fills exactly the indexed region",
  "assign of a scalar stores it (or accumulates it) at every position of the index list or row/column index product, once per position however the indices are ordered or repeated, and at no other position; mask and replace then act on the whole output.",
  "all index lists, constants, structures, masks, accumulators and output modes", WHY + "the tests pass sorted, distinct indices only.",
  [B+"sparse_assign.hpp"], [("constant expansion", B+"sparse_assign.hpp assign_constant")])
t("P14", "A Matrix behaves as a finite map from in-range positions to values",
  "After any sequence of setElement, removeElement, clear, resize, copy and assignment, a Matrix holds exactly the elements that history implies: hasElement, extractElement, nvals and extractTuples (row-major order) agree with it, resize keeps exactly the elements still in range, copies are independent. Out-of-range positions raise IndexOutOfBoundsException, missing ones NoValueException, zero dimensions InvalidValueException, and a failed call changes nothing.",
  "all operation sequences, positions, values and sizes", "The tests follow fixed sequences; the element count and row order are maintained incrementally by every mutator.",
  [G+"Matrix.hpp", B+"LilSparseMatrix.hpp", B+"Matrix.hpp"], [("sorted row lists with cached count", B+"LilSparseMatrix.hpp")], over=("inputs", "histories"))
t("P15", "A Vector behaves as a finite map from in-range positions to values",
  "After construction (sized, filled, dense, dense with implied zero) and any sequence of setElement, removeElement, clear, resize, dense assignment and copy, a Vector holds exactly the elements that history implies: hasElement, extractElement, nvals and extractTuples (ascending) agree with it, at any size. Out-of-range positions raise IndexOutOfBoundsException, missing ones NoValueException, zero sizes InvalidValueException, other sizes DimensionException, and a failed call changes nothing.",
  "all operation sequences, positions, values and sizes", "The tests follow fixed sequences on small vectors; bitmap and count are maintained separately by every mutator.",
  [G+"Vector.hpp", B+"BitmapSparseVector.hpp", B+"Vector.hpp"], [("bitmap + cached count", B+"BitmapSparseVector.hpp")], over=("inputs", "histories"))
t("P16", "build and extractTuples are inverse; repeated indices fold with dup",
  "Building a Vector or Matrix from index/value lists stores, at each index, the left-to-right fold with the dup operator (the last value by default) of the values given for it, whatever the order of the tuples; nvals counts distinct indices, and rebuilding from extractTuples gives an equal object. An out-of-range index raises IndexOutOfBoundsException and unequal array lengths DimensionException.",
  "all tuple lists, orders, repetitions, values and dup operators", "The tests build from a few sorted lists, with a commutative dup.",
  [B+"BitmapSparseVector.hpp", B+"LilSparseMatrix.hpp", G+"Matrix.hpp", G+"Vector.hpp"], [("dup folding", B+"LilSparseMatrix.hpp build; BitmapSparseVector.hpp build")])
t("P20", "Equality means same dimensions, same structure and same values",
  "operator== on matrices and vectors is true exactly when dimensions, stored positions and stored values coincide, regardless of the history that produced the objects; operator!= is its negation.",
  "all pairs of objects and histories", "The tests compare a few fixed pairs.",
  [B+"LilSparseMatrix.hpp", B+"BitmapSparseVector.hpp"], [("canonical storage comparison", B+"LilSparseMatrix.hpp operator==")], over=("inputs", "histories"))
t("P17", "Bad dimensions and indices are rejected; valid calls are accepted",
  "For every operation, mismatched operand, output or mask dimensions raise DimensionException; an index list entry out of range raises IndexOutOfBoundsException; a row/column index out of range raises InvalidIndexException; a constant assign with more indices than the output has positions raises DimensionException; assign through AllIndices rejects a source larger than the output. A rejected call leaves its output unchanged, a call whose dimensions and indices agree is never rejected, and what() reports the exception's name and message.",
  "all dimension combinations, index values and mask kinds", "The tests try a few mismatches per operation; each mismatch is its own check in the code.",
  [G+"operations.hpp", G+"exceptions.hpp", G+"indices.hpp", B+"operations.hpp"], [("pre-condition checks of every operation", G+"operations.hpp check_*")], observe=["exception type thrown; output observers after the throw"],
  note="Outside the claim: extract with AllIndices and an output smaller than the source, which the code deliberately treats as a prefix.")
t("P19", "Passing one object in several roles gives the result of passing copies",
  "An operation whose output object is also its input, second input or mask (as values, complement, structure or structural complement) produces the same result as the call made with independent copies, for mxm, mxv, vxm, eWiseAdd, eWiseMult, apply, transpose, extract, assign and reduce, with or without accumulator, merge or replace, plain or transposed.",
  "all aliasing patterns, structures, values, masks, accumulators and output modes", "Aliased calls are common in iterative algorithms but hardly tested; a kernel that writes its output early breaks only them.",
  [B+"sparse_mxm.hpp", B+"sparse_mxv.hpp", B+"sparse_vxm.hpp", B+"sparse_ewiseadd.hpp", B+"sparse_ewisemult.hpp", B+"sparse_apply.hpp", B+"sparse_transpose.hpp", B+"sparse_extract.hpp", B+"sparse_assign.hpp", B+"sparse_helpers.hpp"], [("result built in a temporary before the write back", B+"sparse_helpers.hpp write_with_opt_mask")])
t("P13", "Masks of any scalar type select the same positions in every operation",
  "In every operation that takes a mask, a value mask allows exactly the positions whose stored mask value converts to true (for floating masks: any value other than zero), a structural mask the stored positions whatever their value, and a complemented mask exactly the positions its original does not allow. Positions not allowed keep their old value (merge) or lose it (replace), allowed positions take the result or become empty, and the mask itself is never modified.",
  "all mask structures, all mask values (integer and floating, including NaN and -0.0), operations, accumulators and output modes", "The tests use mostly boolean or 0/1 masks with one or two operations; every operation has its own masked write-back call.",
  [B+"sparse_helpers.hpp", G+"ComplementView.hpp", G+"StructureView.hpp", B+"sparse_mxm.hpp", B+"sparse_assign.hpp", B+"sparse_extract.hpp", O+"sparse_mxm_AB.hpp"], [("mask evaluation", B+"sparse_helpers.hpp write_with_opt_mask*; Matrix/Vector mask views")])
t("P23", "Mixed scalar types convert values only to the operator's types",
  "When operands, operator and output have different scalar types, each value is converted from its own container's type to the operator's argument type and to nothing in between, the accumulator sees the unconverted result of the operation, and only the final value is converted to the output's scalar type; the operation's result is otherwise the same as for equal types.",
  "all values of the narrow and wide types, structures, accumulators, masks and output modes", "The tests are instantiated with one scalar type per call; a value that silently passes through another operand's type is only visible with large values of mixed types.",
  [B+"sparse_mxm.hpp", B+"sparse_mxv.hpp", B+"sparse_vxm.hpp", B+"sparse_ewiseadd.hpp", B+"sparse_ewisemult.hpp", B+"sparse_apply.hpp", B+"sparse_reduce.hpp", B+"sparse_kronecker.hpp", B+"sparse_extract.hpp", B+"sparse_assign.hpp", O+"sparse_mxm_ATBT.hpp"], [("temporaries typed by the operator's result", B+"sparse_helpers.hpp; sparse_*.hpp")])
AG = "The tests run one or two fixed graphs per function. "
t("P30", "Level BFS gives every reachable vertex its hop distance plus one",
  "For every directed graph and root, each level BFS (bfs_level from a source or wavefront, bfs_level_masked, its v2 and batch forms, and the appendix variants) terminates and stores a level for exactly the vertices reachable from the root, equal to the length of the shortest path in edges plus one; batched traversals do not influence each other, and the caller's wavefront is not modified.",
  "all graphs (self loops included), roots and nonzero edge values", AG, [A+"bfs.hpp", A+"appendix_algorithms.hpp"], [("wavefront expansion masked by the levels", A+"bfs.hpp")], observe=["levels output"])
t("P31", "Parent BFS returns a shortest-path tree",
  "For every directed graph and root, each parent BFS (bfs from a source or wavefront, bfs_batch, and the appendix variant) terminates and stores a parent for exactly the reachable vertices; the root is its own parent and every other vertex's parent is a vertex with an edge to it that is one hop closer to the root, whatever the scalar type of the graph.",
  "all graphs (self loops included), roots and edge values", AG, [A+"bfs.hpp", A+"appendix_algorithms.hpp"], [("index ramp through a min-first product", A+"bfs.hpp")], observe=["parent list output"])
t("P32", "Single-source shortest paths are exact",
  "For every weighted directed graph and start distances, sssp, filtered_sssp, batch_sssp and sssp_delta_step (positive weights, any delta) leave exactly the reachable vertices stored, each with its shortest distance; the Bellman-Ford variants return true exactly if no negative cycle is reachable, also with negative weights.",
  "all graphs, weights, start distances, deltas", AG, [A+"sssp.hpp"], [("min-plus relaxation rounds", A+"sssp.hpp")], observe=["distance vector/matrix", "returned flag"])
t("P33", "All-pairs shortest paths are exact",
  "For every directed graph with non-negative weights, self loops included, apsp returns the matrix holding exactly the pairs (i,j) with j reachable from i, each with its shortest distance, and zero on the diagonal.",
  "all graphs and weights", AG, [A+"apsp.hpp"], [("Floyd-Warshall by outer products", A+"apsp.hpp")], observe=["returned matrix"])
t("P34", "Triangle counts are exact",
  "For every undirected graph given as documented (adjacency matrix, or its strictly lower and upper triangles), every triangle counting function returns the number of triangles; a stored zero is no edge.",
  "all graphs", AG, [A+"triangle_count.hpp", A+"appendix_algorithms.hpp"], [("masked products and reduction", A+"triangle_count.hpp")], observe=["returned count"])
t("P35", "The k-truss is exact",
  "For every undirected graph and k >= 3, k_truss2 on the adjacency matrix and k_truss on the incidence matrix terminate and return exactly the edges of the k-truss, the largest subgraph each of whose edges lies in at least k-2 of its triangles; the incidence form keeps the surviving rows in order.",
  "all graphs and k", AG, [A+"k_truss.hpp"], [("peeling to a fixed point", A+"k_truss.hpp")], observe=["returned matrix"])
t("P36", "Maximal independent sets are independent and maximal",
  "For every loop-free undirected graph and every sequence of random draws, the set computed by mis and mis_appendixB6 contains no two adjacent vertices, every vertex outside it has a neighbour inside, every stored flag is true, and get_vertex_IDs lists exactly the set.",
  "all graphs and random draws", AG, [A+"mis.hpp", A+"appendix_algorithms.hpp"], [("Luby rounds", A+"mis.hpp")], observe=["independent set output"])
t("P37", "The minimum spanning tree is minimal",
  "For every connected undirected weighted graph, mst stores one parent for every vertex but the root 0, each along an edge of the graph; the parents form a spanning tree, no spanning tree is lighter, the returned weight is the tree's weight, and old contents of the parent vector do not matter; a disconnected graph is reported by an exception.",
  "all graphs and weights", AG, [A+"mst.hpp"], [("Prim's algorithm", A+"mst.hpp")], observe=["parent vector", "returned weight"])
t("P38", "Maximum flow equals the minimum cut",
  "For every directed graph with positive integer capacities and every source and sink, maxflow_push_relabel and maxflow_ford_fulk terminate and return the capacity of a minimum cut between source and sink.",
  "all graphs, capacities, source/sink pairs", AG, [A+"maxflow.hpp"], [("push-relabel discharge; residual augmentation", A+"maxflow.hpp")], observe=["returned value"])
t("P39", "Graph metrics are exact",
  "For every directed graph with non-negative weights: vertex in-, out- and total degree count the stored edges and an unknown vertex raises DimensionException; graph_distance and graph_distance_matrix store exactly the reachable vertices (pairs) with their shortest distances whatever the output held before; vertex_eccentricity is the longest such distance from the vertex, graph_radius and graph_diameter the smallest and largest eccentricity, closeness_centrality the sum of the distances from the vertex.",
  "all graphs, weights, vertices", AG, [A+"metrics.hpp"], [("extract and reduce over distances", A+"metrics.hpp")], observe=["returned values", "distance outputs"])
t("P22", "Predefined operators, monoids and semirings compute what they are named after",
  "For every built-in scalar type and every operand value, each predefined unary and binary operator returns the named function of its operands in the output type; each monoid's operation is the named one, its identity leaves every value unchanged, and min, max and the logical monoids (on booleans) are commutative and associative; each semiring adds with its monoid, multiplies with its operator and has the monoid's identity as zero; multiply_op and add_monoid expose exactly these.",
  "all scalar types and operand values", "The tests apply each functor to a handful of constants.", ["src/graphblas/algebra.hpp"], [("operator functors and GEN_GRAPHBLAS_* macros", "src/graphblas/algebra.hpp")], observe=["returned value"])
t("P24", "Views describe the object they view",
  "transpose, structure, complement and structural-complement views of a matrix or vector report its (swapped, for transpose) dimensions and, where a count is defined, the number of stored positions they denote, and follow later changes of the viewed object.",
  "all structures and changes", "The tests use views only as operands of fixed examples.", ["src/graphblas/TransposeView.hpp", "src/graphblas/ComplementView.hpp", "src/graphblas/StructureView.hpp", "src/graphblas/StructuralComplementView.hpp"], [("reference-holding view classes", "src/graphblas/StructuralComplementView.hpp")], observe=["view dimensions and counts"])
t("P25", "Matrix utilities build and scale what they say",
  "diag(v) is the square matrix holding exactly v's elements on the diagonal; scaled_identity has the value at every diagonal position; split distributes a matrix of any shape into its lower part with the diagonal and its strictly upper part; normalize_rows and normalize_cols keep shape and structure and divide every value by its row (column) sum, for square and non-square matrices.",
  "all structures and values", "The tests use one small matrix per utility, if any.", ["src/graphblas/matrix_utils.hpp"], [("build from tuples; product with a diagonal matrix", "src/graphblas/matrix_utils.hpp")], observe=["returned matrix"])
t("P40", "Betweenness centrality sums exact dependencies",
  "For every loop-free directed graph and list of sources, each vertex betweenness centrality function (batch forms, BC_update_appendixB5, vertex_betweenness_centrality) returns for every vertex v the sum over the sources s of the dependencies sum_t sigma_st(v)/sigma_st over shortest paths; BC_appendixB4 adds the dependencies of its source to the values already there.",
  "all graphs and sources", AG, [A+"bc.hpp", A+"appendix_algorithms.hpp"], [("forward wavefronts kept per level, backward accumulation", A+"bc.hpp")], observe=["centrality values"])
t("P41", "PageRank iterates its recurrence and stops at a fixed point",
  "For every weighted directed graph, page_rank stores a rank for every vertex: after k permitted iterations exactly the k-th iterate of r' = (1-d)/n + d * r * A with rows of A scaled to sum one, starting from 1/n, whatever the rank vector held before; the default call terminates with a fixed point up to the threshold; integer and bool graphs give the same ranks as real ones.",
  "all graphs, damping factors, iteration limits", AG, [A+"page_rank.hpp"], [("scaled graph and teleport addition", A+"page_rank.hpp")], observe=["page rank output"])
t("P42", "Peer-pressure clustering moves every vertex to its most voted cluster",
  "For every directed graph, weights and starting clusters, each round of peer_pressure_cluster (votes normalized per voter) and peer_pressure_cluster_v2 (raw weights) leaves every vertex that receives votes in exactly one cluster, one with the largest tally and among equals the last; rounds repeat up to the limit; get_cluster_assignments, its v2 and get_louvain_cluster_assignments return for every vertex the cluster of its (largest) entry and nothing for a vertex without one.",
  "all graphs, weights, starting clusters", AG, [A+"cluster.hpp", A+"cluster_louvain.hpp"], [("tally product and column maximum", A+"cluster.hpp")], observe=["cluster matrix", "assignments"])
t("P43", "Louvain clustering partitions the vertices and stops at a local optimum",
  "For every undirected or directed graph, self loops and isolated vertices included, and every sequence of tie-breaking draws, louvain_cluster and louvain_cluster_masked either report non-convergence within the iteration limit or terminate with every vertex in exactly one cluster such that no vertex would gain modularity by moving to another cluster (masked: to another cluster of a neighbour).",
  "all graphs, draws, limits", AG, [A+"cluster_louvain.hpp"], [("modularity gain per candidate cluster", A+"cluster_louvain.hpp")], observe=["cluster matrix"])
t("P44", "Markov clustering keeps columns stochastic",
  "For every directed graph with self loops and every power and inflation exponent, markov_cluster returns after each number of iterations a matrix within the graph's structure whose columns hold probabilities summing to one; one iteration is expansion (restricted to the structure), inflation and normalization of the column-normalized graph.",
  "all graphs and weights", AG, [A+"cluster.hpp"], [("masked power, elementwise power, normalize_cols", A+"cluster.hpp")], observe=["returned matrix"])
NA = {}
