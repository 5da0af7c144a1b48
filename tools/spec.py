#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing: tools/spec.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), level="exploration", note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, state=state, note=note, tech=tech))

LS = ["LevelSchedule.hpp", "LevelSchedule.cpp"]
T_PBT = "property-based testing: "
SEQ = "cases are drawn, not enumerated: no claim beyond what was generated. Native part: real libgomp threads, AddressSanitizer, asserts on; fiber part: the library runs on a deterministic scheduler that preempts at instrumented memory accesses (sequentially consistent interleavings only)."

prop("P01", "The task graph orders every data dependency of a triangular sweep",
  "For every square matrix with a symmetric non-zero pattern and a full diagonal, the task graph built by LevelSchedule orders, through each thread's own task order plus the listed parents, every row after all rows its strictly lower entries refer to in the forward sweep, and after all rows its strictly upper entries refer to in the backward sweep. This holds for every thread count, cost function with positive costs, index base and combination of the options (transitiveReduction, aggregateForVectorization, fuseSpMV, useBarrier, memory pool), for each constructTaskGraph overload and when a schedule object is rebuilt.",
  ["inputs", "configurations", "schedules"], "all symmetric patterns with full diagonal x thread counts x cost functions x options x overloads x interleavings of the parallel construction",
  "The tests run a few fixed matrices at a few thread counts and only compare numerical results, so a missing dependency that happens not to be raced on passes unnoticed.",
  LS, [("dependency collection and edge de-duplication", "LevelSchedule.cpp constructTaskGraph_"), ("transitive reduction", "LevelSchedule.cpp constructTaskGraph_"), ("thread-local task ordering", "LevelSchedule.cpp")],
  ["LevelSchedule::parentsForward/parentsBackward, threadBoundaries, taskBoundaries, threadContToOrigPerm"],
  tech=T_PBT + "generated matrices/options, happens-before reachability oracle over the returned graph",
  note="Static oracle: bit-set reachability over program order + parents. " + SEQ)

prop("P02", "A schedule's permutations, tasks and levels are consistent",
  "After constructTaskGraph, origToThreadContPerm and threadContToOrigPerm are mutually inverse permutations of the rows; taskBoundaries cuts the rows into ntasks consecutive ranges and threadBoundaries cuts the tasks into one consecutive range per thread, with nothing lost or duplicated. levIndices delimits the dependency levels (as many rows per level as the longest-dependency-chain levels of the lower triangle have), every task holds rows of a single level and a thread's tasks come in non-decreasing level order, all parent lists name valid tasks of other threads without repetition, and every taskFinished flag slot exists.",
  ["inputs", "configurations", "schedules"], "all symmetric patterns with full diagonal x thread counts x cost functions x options",
  "Existing tests never look at the schedule structure; an off-by-one in a boundary shows only for particular sizes, level shapes and thread counts.",
  LS, [("findLevels", "LevelSchedule.cpp findLevels_"), ("per-level load-balanced partition", "LevelSchedule.cpp constructTaskGraph_")],
  ["the public members of LevelSchedule"], tech=T_PBT + "generated matrices/options, structural invariants and a sequential level model",
  note=SEQ)

prop("P03", "Scheduled parallel sweeps equal the sequential sweep and terminate",
  "A Gauss-Seidel or triangular sweep (forward and backward) executed in parallel with the point-to-point protocol of a LevelSchedule (wait for the listed parents, process the task, notify) yields bit-for-bit the result of the sequential sweep in row order and always terminates, under every interleaving of the threads. It holds for repeated sweeps with one schedule, on the original matrix (rows visited through the permutation) and on the thread-contiguously permuted matrix.",
  ["schedules", "inputs", "configurations"], "all matrices in the domain x thread counts x options x interleavings of the solving threads",
  "The tests sample whatever interleavings the machine happens to produce on fixed matrices and compare with a tolerance.",
  LS, [("SPMP_LEVEL_SCHEDULE_WAIT/NOTIFY macros", "LevelSchedule.hpp"), ("task graph and taskFinished flags", "LevelSchedule.cpp")],
  ["solution vectors", "termination"], tech=T_PBT + "schedule fuzzing with an owned scheduler; sequential sweep as reference model", note=SEQ)

prop("P04", "Level-synchronous schedules never place a dependency inside a level",
  "With useBarrier set, every thread owns the same number of tasks, one per dependency level, and executing the tasks level by level with only a barrier between consecutive levels respects every forward dependency, and in reverse order every backward dependency; sweeps run that way equal the sequential sweep.",
  ["inputs", "configurations", "schedules"], "all symmetric patterns with full diagonal x thread counts x cost functions x options, useBarrier on",
  "Tests run barrier mode on a few matrices and compare numbers only.",
  LS, [("findLevels", "LevelSchedule.cpp findLevels_"), ("per-level partition", "LevelSchedule.cpp constructTaskGraph_")],
  ["threadBoundaries/taskBoundaries", "solutions of barrier-synchronous sweeps"], tech=T_PBT + "generated matrices/options, level oracle and owned-scheduler execution", note=SEQ)

prop("P05", "The fused GS+SpMV schedule waits for everything the SpMV reads",
  "With fuseSpMV set, for every task the parents listed by the fused schedule, together with the ordering of the backward sweep itself, guarantee that every row of the vector read by that task's rows in the SpMV has already been finalised by the backward Gauss-Seidel sweep; a fused execution therefore yields exactly the result of the sweep followed by a separate SpMV.",
  ["inputs", "configurations", "schedules"], "all symmetric patterns with full diagonal x thread counts x cost functions x options with fuseSpMV on",
  "The fused test runs one configuration and tolerates races that do not fire.",
  LS + ["gs_spmv_fused.cpp"], [("FusedGSAndSpMVSchedule construction", "LevelSchedule.cpp, gs_spmv_fused.cpp")],
  ["FusedGSAndSpMVSchedule::nparents/parents", "results of fused executions"], tech=T_PBT + "happens-before closure oracle and owned-scheduler execution", note=SEQ)

prop("P06", "Transitive reduction removes only redundant synchronization",
  "For the same matrix, thread count, cost function and options, the schedule built with transitiveReduction on has the same rows per task and task order as the one built with it off, never lists a wait that the other does not have, and reaches (through program order plus waits) exactly the same set of ordered task pairs, forward and backward.",
  ["inputs", "configurations"], "all symmetric patterns with full diagonal x thread counts x cost functions x options",
  "No test builds both schedules for the same input and compares them.",
  LS, [("transitive reduction", "LevelSchedule.cpp constructTaskGraph_")], ["parentsForward/parentsBackward of the two schedules"],
  tech=T_PBT + "differential: reduced vs. unreduced graph, reachability equality", note=SEQ)

RCMF = ["reordering/RCM.cpp", "CSR.hpp"]
prop("P07", "RCM and BFS reorderings are valid permutations on every graph",
  "For every square matrix with a symmetric pattern (connected or not, with isolated vertices, with or without diagonal, 0- or 1-based) and every thread count and interleaving, getRCMPermutation (with or without pseudo-diameter source selection) and getBFSPermutation return perm and inversePerm that are mutually inverse permutations of the rows, and leave the matrix unchanged.",
  ["inputs", "schedules", "configurations"], "all symmetric graphs x thread counts x interleavings",
  "The reordering test uses a handful of mostly connected matrices; races in the parallel BFS and odd component structures are not reached.",
  RCMF + ["reordering/ConnectedComponents.cpp"], [("parallel BFS + prefix-summed placement", "reordering/RCM.cpp"), ("component enumeration", "reordering/ConnectedComponents.cpp")],
  ["perm/inversePerm arrays"], tech=T_PBT + "generated graphs under an owned scheduler; permutation invariant", note=SEQ)

prop("P08", "RCM and BFS reorderings follow the breadth-first levels of each component",
  "The BFS ordering numbers every connected component contiguously, starting from one vertex of the component and then level by level in breadth-first distance from it. The RCM ordering is the reverse of such an ordering in which, in addition, vertices of a level are ordered by the position of their earliest-numbered neighbour in the previous level, and vertices sharing that neighbour by non-decreasing degree.",
  ["inputs", "schedules", "configurations"], "all symmetric graphs x thread counts x interleavings",
  "Tests report bandwidth but do not assert the level structure.",
  RCMF, [("level-synchronous BFS", "reordering/RCM.cpp bfs"), ("Cuthill-McKee children placement", "reordering/RCM.cpp")],
  ["perm/inversePerm arrays"], tech=T_PBT + "validity predicate (level structure) over generated graphs under an owned scheduler", note=SEQ)

prop("P09", "Connected components are exact under every interleaving",
  "The connected-component search (of the whole graph, or of what is left, possibly nothing, when whole components are excluded by a bit vector) reports the true number of components of a symmetric pattern and, for each, its smallest vertex as root, its size and exactly its vertices in ascending order, for every graph, index base, thread count and interleaving.",
  ["inputs", "schedules"], "all symmetric graphs x thread counts x interleavings of the parallel union-find",
  "The routine is only used indirectly by tests on graphs with few components.",
  ["reordering/ConnectedComponents.cpp", "reordering/BitVector.hpp"], [("lock-free union by CAS", "reordering/ConnectedComponents.cpp"), ("parallel grouping of vertices by component", "reordering/ConnectedComponents.cpp")],
  ["findConnectedComponents outputs"], tech=T_PBT + "schedule fuzzing; sequential union-find as reference model", note=SEQ)

prop("P10", "Bipartite BFS ordering is a valid level ordering of rows and columns",
  "For every rectangular matrix and its transpose, the bipartite BFS reordering returns mutually inverse permutations of the rows and of the columns; rows (and columns) of one connected component are numbered contiguously and in non-decreasing breadth-first distance from the component's first numbered row, so that permuting the matrix preserves its entries.",
  ["inputs", "schedules"], "all rectangular patterns x thread counts x interleavings",
  "The existing test runs on a few fixed matrices and only checks that the result is a permutation.",
  ["reordering/BFSBipartite.cpp", "reordering/BFSBipartite.hpp", "reordering/BitVector.hpp"], [("parallel bipartite BFS", "reordering/BFSBipartite.cpp")],
  ["row/column permutations"], tech=T_PBT + "validity predicate over generated bipartite graphs under an owned scheduler", note=SEQ)

prop("P11", "Transpose is exact",
  "CSR::transpose and the raw transpose routines return the transposed matrix with exactly the same entries and values, each output row ordered by source row, in the same index base, with consistent row pointers, for every matrix shape, base and thread count; transposing twice gives back the original with sorted rows.",
  ["inputs", "configurations"], "all matrices (empty rows, rectangular, pattern-only, duplicates) x base x thread counts",
  "Only square benchmark matrices are transposed by tests, at one thread count.",
  ["CSR.cpp", "CSR.hpp"], [("parallel counting sort", "CSR.cpp transpose")], ["the returned matrix"], tech=T_PBT + "generated matrices, reference transpose, round trip", note=SEQ)

prop("P12", "Permuting a matrix relabels it exactly",
  "Every permutation routine of CSR (permute, permuteMain, permuteRows, permuteRowptr, permuteColsInPlace, in-place variants, with and without sorting) produces exactly the matrix with rows/columns relabelled by the given permutations, keeping values attached to their entries (and diagonal data where present), in the same base; permuting by the inverse restores the original and sorted variants have sorted rows.",
  ["inputs", "configurations"], "all matrices x permutations x base x thread counts",
  "Tests permute by RCM/BFS permutations only and check a few numerical consequences.",
  ["Permute.cpp", "CSR.hpp"], [("row pointer permutation", "Permute.cpp"), ("column relabelling", "Permute.cpp")], ["permuted matrices"], tech=T_PBT + "generated matrices/permutations against a reference relabelling", note=SEQ)

prop("P13", "SpMV computes w = alpha*A*x + beta*y + gamma",
  "CSR::multiplyWithVector computes alpha*A*x + beta*y + gamma for every matrix (including empty rows and non-square ones), coefficients, base and thread count, also when w aliases x or y as the interface allows; it writes nothing else.",
  ["inputs", "configurations"], "all matrices x vectors x coefficients (special values 0, 1, -1) x base x aliasing x thread counts",
  "Tests use one coefficient set; specialised code paths per coefficient are not all reached.",
  ["SpMV.cpp", "CSR.hpp", "Utils.cpp"], [("coefficient-specialised kernels", "SpMV.cpp"), ("nnz-balanced row partition", "Utils.cpp getLoadBalancedPartition")], ["w"], tech=T_PBT + "generated inputs, exact integer/dyadic reference model", note=SEQ)

prop("P14", "SpMM equals column-by-column SpMV",
  "CSR::multiplyWithDenseMatrix computes W = alpha*A*X + beta*Y + gamma for every number of columns and all row/column strides the interface accepts, touching only the addressed elements of W, for every base and thread count.",
  ["inputs", "configurations"], "all matrices x widths x strides x coefficients x base x thread counts",
  "Not covered by tests beyond fixed cases.",
  ["SpMV.cpp", "CSR.hpp"], [("blocked dense kernels", "SpMV.cpp")], ["W and its padding"], tech=T_PBT + "differential against the per-column reference, canaries in the padding", note=SEQ)

prop("P15", "splitLU partitions the entries by triangle",
  "splitLU splits a square matrix into L and U whose entries are exactly the strictly lower and the strictly upper entries, with values and row order preserved and with the diagonal data carried over as documented; merging L, the diagonal and U gives back the matrix.",
  ["inputs", "configurations"], "all square matrices with diagonal x base x thread counts",
  "Used by one test on fixed matrices.",
  ["SymGS.cpp", "CSR.hpp"], [("splitLU", "SymGS.cpp")], ["L, U and diagonal arrays"], tech=T_PBT + "reference split and re-merge", note=SEQ)

prop("P16", "getSymmetricNnzPattern builds exactly the union with the transpose",
  "getSymmetricNnzPattern yields the pattern of A + A^T: every entry of A and of its transpose once, nothing else, rows sorted, with correct row and diagonal pointers, in the base of the input; for an already symmetric input it is the input's pattern.",
  ["inputs", "configurations"], "all square matrices x base x thread counts",
  "Tests only feed its result to later stages.",
  ["SymGS.cpp", "CSR.hpp"], [("merge of rows and transpose", "SymGS.cpp getSymmetricNnzPattern")], ["symRowPtr, symDiagPtr, symColIdx"], tech=T_PBT + "reference model", note=SEQ)

prop("P17", "Structural queries tell the truth",
  "isSymmetric (pattern or values), hasZeroDiag, equals, getBandwidth, getAverageWidth, getMaxDegree, getNnz and getBase return the mathematically correct answer for every matrix, in both index bases and for every thread count; print() lists exactly the entries.",
  ["inputs", "configurations"], "all matrices x base x thread counts, including near-misses (one entry or value changed)",
  "Tests use them as helpers, never against an independent answer.",
  ["CSR.cpp", "CSR.hpp"], [("query loops", "CSR.cpp")], ["returned values"], tech=T_PBT + "reference model with mutated near-miss inputs", note=SEQ)

prop("P18", "Index-base changes and derived diagonal data are consistent",
  "make0BasedIndexing/make1BasedIndexing convert between bases idempotently and losslessly (row pointers, columns, diagonal and external pointers); constructDiagPtr and computeInverseDiag give, for every row, the position of its diagonal entry and the reciprocal of its value.",
  ["inputs", "histories"], "all matrices with diagonals x sequences of base changes and queries x thread counts",
  "Tests use single conversions on fixed matrices.",
  ["CSR.cpp", "CSR.hpp", "LevelSchedule.cpp"], [("base conversion", "CSR.cpp"), ("constructDiagPtr", "LevelSchedule.cpp")], ["matrix arrays"], tech=T_PBT + "stateful: random operation sequences against a reference matrix", note=SEQ)

prop("P19", "Matrix Market files round-trip",
  "Storing a matrix (COO or CSR) as a Matrix Market file and loading it again gives the same matrix up to the 16 significant digits printed; loading a well-formed real, integer or pattern file, general or symmetric, with 1- or 0-based indices, comments and arbitrary entry order yields exactly the matrix it describes (mirror entries added for symmetric files, explicit zeros handled as documented).",
  ["inputs", "configurations"], "all real/integer/pattern, general/symmetric files x bases x entry orders x options",
  "Tests load a handful of files.",
  ["COO.cpp", "COO.hpp", "CSR.cpp", "mm_io.cpp"], [("loadMatrixMarket", "COO.cpp"), ("storeMatrixMarket", "COO.cpp"), ("COO to CSR", "COO.cpp")], ["loaded matrices"], tech=T_PBT + "round trip and file-grammar generation against a reference parser", note=SEQ)

prop("P20", "Malformed matrix files are rejected, never misread",
  "Loading a malformed or unreadable Matrix Market or binary matrix file (bad banner or sizes, out-of-range indices, missing, surplus or garbled entries, truncation, corruption of the structure), or one whose values the library cannot represent (complex, hermitian, skew-symmetric), terminates and is reported as a failure or ends in a clean exit; it never crashes, hangs, reads or writes out of bounds, or presents uninitialised data as a matrix (a matrix object whose binary load failed is empty: no rows, no columns, no arrays).",
  ["inputs", "fault_sequences"], "all byte strings near the file grammars, truncations and corruptions of valid files",
  "No test loads a malformed file.",
  ["COO.cpp", "CSR.cpp", "mm_io.cpp"], [("header and entry validation", "COO.cpp / mm_io.cpp"), ("loadBin validation", "CSR.cpp")], ["return values, exit status, sanitizer reports"], tech="fuzzing: grammar-based mutation of files under AddressSanitizer with an independent classifier", note=SEQ)

prop("P21", "Binary matrix files round-trip",
  "Storing a matrix with storeBin and loading it with loadBin in either base gives exactly the same matrix, bit-for-bit values included; storing leaves the in-memory matrix unchanged, also when the file cannot be written.",
  ["inputs", "fault_sequences"], "all matrices x stored base x loaded base x unwritable targets",
  "No test covers the binary format across bases.",
  ["CSR.cpp"], [("storeBin/loadBin", "CSR.cpp")], ["loaded matrix, stored matrix"], tech=T_PBT + "round trip", note=SEQ)

prop("P22", "COO to CSR conversion keeps every entry",
  "Converting coordinate data to CSR keeps every entry with its value in the right row, in the requested base, sorted by column (with the diagonal first where that is requested), for every entry order, thread count, duplicate entries and empty rows.",
  ["inputs", "configurations"], "all coordinate lists x orders x bases x options x thread counts",
  "Tests reach it only through well-formed sorted files.",
  ["COO.cpp", "COO.hpp"], [("dcoo2csr", "COO.cpp")], ["the CSR arrays"], tech=T_PBT + "reference model (multiset of entries)", note=SEQ)

prop("P23", "The generated Laplacian is the 27-point operator",
  "generate3D27PtLaplacian yields for every grid size (including 1-wide dimensions) and base exactly the 27-point stencil matrix: off-diagonals -1 for each in-grid neighbour, a 26 (or as documented) diagonal, sorted rows, correct diagonal data; it is symmetric.",
  ["inputs"], "all grid dimensions x base x thread counts",
  "Tests use one or two cubic sizes.",
  ["Laplacian.cpp"], [("stencil generation", "Laplacian.cpp")], ["the generated matrix"], tech=T_PBT + "reference stencil", note=SEQ)

prop("P24", "Work partitions and prefix sums are exact",
  "Partition helpers (getSimpleThreadPartition, getLoadBalancedPartition and relatives) give every thread a range so that the ranges are ordered, disjoint and cover everything; parallel prefix sums return exact exclusive sums and totals, for every length, thread count and interleaving, also when called repeatedly.",
  ["inputs", "schedules", "configurations"], "all lengths x weights x thread counts x interleavings",
  "Only exercised indirectly.",
  ["Utils.cpp", "Utils.hpp", "PrefixSum.cpp"], [("partition functions", "Utils.cpp"), ("prefixSum", "PrefixSum.cpp")], ["ranges and sums"], tech=T_PBT + "reference model under an owned scheduler", note=SEQ)

prop("P25", "Permutation and vector utilities are exact",
  "isPerm/getInversePerm/isInversePerm decide and invert permutations correctly, vector permutation helpers move every element to its place, correctness comparison helpers accept equal and reject sufficiently different vectors, and memory helpers copy and set exactly the given range.",
  ["inputs", "configurations"], "all index arrays (permutations and near-permutations) x vectors x thread counts",
  "Tests use them only on valid permutations.",
  ["Utils.cpp", "Utils.hpp", "Vector.cpp", "Permute.cpp"], [("utility loops", "Utils.cpp")], ["returned values and arrays"], tech=T_PBT + "reference model, near-miss generation", note=SEQ)

prop("P26", "The memory pool never overlaps live allocations",
  "Any sequence of front and back allocations, head/tail resets and re-initialisations of MemoryPool yields blocks that lie inside the pool, honour the requested alignment and never overlap another live block; contains() tells pool memory from other memory and an exhausted pool never silently hands out overlapping memory.",
  ["histories", "inputs"], "all sequences of pool operations x sizes x alignments",
  "Tests allocate in one fixed order.",
  ["MemoryPool.cpp", "MemoryPool.hpp"], [("double-ended bump allocation", "MemoryPool.cpp")], ["returned addresses"], tech=T_PBT + "stateful model-based testing", note=SEQ)

prop("P27", "The barrier separates phases for every thread count and interleaving",
  "No thread leaves the n-th wait of synk::Barrier before every thread has entered it, every wait terminates, and the barrier can be reused any number of times and recreated for another thread count, for every interleaving.",
  ["schedules", "histories", "configurations"], "all thread counts x numbers of episodes x interleavings",
  "Tests rely on the barrier on the machine's own timing only.",
  ["synk/barrier.cpp", "synk/barrier.hpp", "synk/synk.cpp", "synk/atomic.h"], [("dissemination barrier with sense reversal", "synk/barrier.cpp")], ["phase counters of the participants"], tech=T_PBT + "schedule fuzzing with an owned scheduler; phase invariant", note=SEQ)

prop("P28", "Reducing barriers return the same exact reduction to every thread",
  "Every participant of a synk::ReduceBarrier wait receives the reduction of exactly the values contributed in that episode, for every thread count, number of consecutive episodes and interleaving.",
  ["schedules", "histories", "configurations"], "all thread counts x episodes x contributed values x interleavings",
  "No test uses the reducing barrier.",
  ["synk/reduce.hpp", "synk/synk.cpp", "synk/synk.hpp"], [("dissemination reduction", "synk/reduce.hpp")], ["reduction results"], tech=T_PBT + "schedule fuzzing with an owned scheduler; sequential reduction as model", note=SEQ)

prop("P29", "Copies are independent and queries do not modify their input",
  "Copy-constructing a CSR gives an equal matrix that shares no mutable state with its source, and const operations (queries, SpMV, transpose, permute into another matrix, store) leave the source matrix and input vectors bit-identical.",
  ["inputs", "histories"], "all matrices x sequences of operations",
  "Tests do not re-check inputs after calls.",
  ["CSR.cpp", "CSR.hpp"], [("copy constructor", "CSR.cpp")], ["arrays before and after"], tech=T_PBT + "snapshot comparison over operation sequences", note=SEQ)

prop("P30", "Vector files are loaded exactly or rejected",
  "loadVectorMatrixMarket returns exactly the numbers and dimensions of a well-formed array file, and rejects unreadable, non-array, complex or malformed headers without crashing, hanging or writing out of bounds.",
  ["inputs", "fault_sequences"], "all array files, and malformed variants",
  "Tests load no vector file.",
  ["Vector.cpp", "Vector.hpp", "mm_io.cpp"], [("loadVectorMatrixMarket", "Vector.cpp")], ["returned vector"], tech="fuzzing: grammar-based file generation and mutation against a reference parser", note=SEQ)

prop("P31", "The instrumented barrier separates phases and measures consistently",
  "synk::LoadImba can be linked and used like synk::Barrier (as an object or a singleton): no thread leaves its n-th wait before every thread has entered it and every wait terminates. For every barrier use number it counts each wait since the last reset exactly once per thread; the minimum, maximum and total time a thread waited for the last one to arrive are consistent with each other and with the elapsed time, zero for the last to arrive and for a single thread; unused numbers stay empty; and print() and printLoadImbalance() report exactly these figures, summarised over the threads.",
  ["schedules", "histories", "configurations"], "all thread counts x numbers of waits and barrier uses x delays x resets x interleavings",
  "No test uses LoadImba at all (it did not even link).",
  ["synk/loadimba.cpp", "synk/loadimba.hpp", "synk/reduce.hpp", "synk/barrier.cpp"], [("LoadImba::wait", "synk/loadimba.cpp"), ("measurement arrays", "synk/loadimba.hpp")], ["phase counters, measurements, printed table"],
  tech=T_PBT + "schedule fuzzing with an owned scheduler; phase invariant and measurement invariants", note=SEQ)

prop("P32", "The concurrent bit vector gives every bit to exactly one setter",
  "For every size and interleaving of BitVector operations a new vector is all clear, get() reports exactly the bits that were set and not cleared since, testAndSet returns true to exactly one of the threads competing for a clear bit and to none for a set bit, and set, testAndSet and atomicClear never disturb other bits, also when other threads set or clear those at the same time.",
  ["schedules", "histories"], "all sizes x operation sequences per thread x interleavings",
  "The bit vector is used only inside the reordering code; no test races on its bits.",
  ["reordering/BitVector.hpp"], [("testAndSet by atomic or", "reordering/BitVector.hpp")], ["returned flags and get()"],
  tech=T_PBT + "stateful: phases of concurrent operations against a set model under an owned scheduler", note=SEQ)

prop("P33", "Matrices living in the memory pool behave like heap ones",
  "A CSR matrix whose arrays were allocated from the MemoryPool is recognised as such and gives the same results as a heap matrix for SpMV, base changes, transpose, permute, copy and symmetrisation; the results stay valid when the pool is emptied and reused (only the row pointer of a symmetrised pattern is placed in the pool, properly accounted for), nothing else moves the pool's bounds or touches other live pool memory, and destroying the matrix neither frees pool memory through the heap nor changes the pool.",
  ["histories", "inputs"], "all sequences of operations on pool matrices x matrices x base x thread counts",
  "Tests use the pool, if at all, for schedules only.",
  ["MemoryPool.cpp", "CSR.cpp", "CSR.hpp", "SymGS.cpp"], [("useMemoryPool_ and dealloc", "CSR.cpp"), ("contains()", "MemoryPool.cpp")], ["results, addresses, pool bounds, heap sanitizer reports"],
  tech=T_PBT + "stateful: operation sequences against a reference matrix under AddressSanitizer, guard blocks in the pool", note=SEQ)

prop("P34", "The Matrix Market C interface reads and writes what it says",
  "For every type code, mm_is_valid, mm_typecode_to_str, mm_write_banner and mm_read_banner agree with the Matrix Market format; size lines, coordinate files and single entries written are read back exactly (values up to the 16 digits printed) for real, integer, complex and pattern files; success is reported when and only when the operation succeeded, so files that end early, damaged banners and unreadable or unwritable paths are reported as failures.",
  ["inputs", "fault_sequences"], "all type codes x sizes x entries x truncations and banner damage",
  "Tests only read real files through the CSR loader and never look at the status codes.",
  ["mm_io.cpp", "mm_io.h"], [("banner and size-line parsing", "mm_io.cpp"), ("coordinate data loops", "mm_io.cpp")], ["status codes, returned arrays, file contents"],
  tech=T_PBT + "round trip and truncation/damage injection against a reference writer", note="One thread (the interface is sequential), AddressSanitizer; cases are drawn, not enumerated.")

prop("P35", "Whole pipelines preserve the problem being solved",
  "Loading, transposing or storing a matrix, reordering it with BFS, RCM or bipartite BFS, permuting it, building a schedule and running SpMV or scheduled sweeps gives, after undoing the permutations, exactly the SpMV of the original matrix and the sequential sweep of the reordered one, for every symmetric matrix, base, file detour, ordering, thread count and interleaving.",
  ["inputs", "configurations", "schedules"], "all symmetric matrices x bases x file formats x orderings x schedule options x interleavings",
  "Tests check each stage on fixed matrices and with tolerances; conventions that stages share (which way a permutation points, which base) are only exercised together there.",
  ["CSR.cpp", "Permute.cpp", "COO.cpp", "reordering/RCM.cpp", "reordering/BFSBipartite.cpp", "LevelSchedule.cpp", "SpMV.cpp", "Vector.cpp"], [("perm/inversePerm conventions", "CSR.hpp, Permute.cpp"), ("schedule permutations", "LevelSchedule.hpp")], ["solution vectors in original order"],
  tech=T_PBT + "metamorphic: reordered pipeline against the sequential computation on the original, owned scheduler", note=SEQ)

prop("P36", "Everything acquired is released exactly once",
  "Memory and files the library acquires belong to exactly one owner and are released exactly once: after the matrices, schedules, barriers and pools of a program are destroyed and the buffers handed to the caller are freed, repeating any sequence of operations (construct, copy, load accepted and rejected files, store, permute, transpose, splitLU, symmetrise, build or rebuild schedules, reorder, find components, barriers, memory pools, the Matrix Market C interface) leaves no additional memory allocated and no additional file open; nothing is freed twice and memory owned by the caller is never freed.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations and destructions x matrices x accepted and rejected files x thread counts",
  "Tests run one short program each and exit; leaks, double frees on unusual sequences and descriptors left open by rejected files stay invisible.",
  ["CSR.cpp", "CSR.hpp", "COO.cpp", "Permute.cpp", "SymGS.cpp", "Laplacian.cpp", "LevelSchedule.cpp", "MemoryPool.cpp", "Vector.cpp", "mm_io.cpp", "reordering/RCM.cpp", "reordering/ConnectedComponents.cpp", "reordering/BFSBipartite.cpp", "synk/barrier.cpp", "synk/reduce.hpp", "synk/loadimba.cpp"],
  [("ownData_ and dealloc", "CSR.cpp"), ("destructor and rebuild of schedules", "LevelSchedule.cpp"), ("error paths of the loaders", "COO.cpp, CSR.cpp, Vector.cpp, mm_io.cpp")], ["live allocations, open descriptors, heap sanitizer reports"],
  tech=T_PBT + "stateful: random programs run twice with every allocation and descriptor accounted for, AddressSanitizer for double frees", note="Real threads (1-4); allocations made by libgomp and libstdc++ themselves are not counted; cases are drawn, not enumerated.")

def check(x):
    assert os.path.exists(os.path.join("/repo", x)), x
    return x

def main():
    reg = open(os.path.join(ROOT, "tools", "claimed")).read().split()
    na = {}
    nap = os.path.join(ROOT, "tools", "not_applicable.json")
    if os.path.exists(nap):
        na = json.load(open(nap))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=[check(x) for x in p["files"]], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed="SPMP_VERIF_PAR_THR (fiber flavour: small/large component threshold)" if p["id"] in ("P07", "P08") else None))) + "\n")
    man = dict(version=1, setup_cmd="./check --build", checks=[], not_applicable=[],
        notes="One driver (./check) builds a real-thread AddressSanitizer flavour and an owned-scheduler flavour of the library from /repo's working tree and runs the generators of one property.",
        hooks=dict(guard="SPMP_VERIF_PAR_THR", enable="./check compiles the fiber flavour of /repo's sources with -DSPMP_VERIF_PAR_THR and defines SpMP::PAR_THR in src/props_order.cpp; the native flavour leaves it off",
                   source_commits=["0adfc98"]))
    for p in P:
        if p["id"] in reg:
            man["checks"].append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                thorough_cmd="./check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                technique=p["tech"], level="exploration", level_note=p["note"]))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason=na.get(p["id"], "check not built yet")))
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
