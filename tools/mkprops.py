#!/usr/bin/env python3
# writes properties.jsonl
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=None, obs=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f if not f.startswith("libhifir/") else f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}), **({"observe_at": obs} if obs else {})}})
p("P01", "Converting between sparse formats never changes the matrix",
  "Converting a matrix between compressed-row, compressed-column and coordinate form (including value-free conversions, copies and in-place index sorting) yields exactly the same entries at the same positions, and the result is a valid compressed structure. Round trips give back the original matrix.",
  ["inputs"], "every shape, sparsity pattern (empty rows and columns, unsorted indices) and value assignment",
  "The tests convert a few random matrices; index arithmetic on empty rows, rectangular shapes and unsorted input is only sampled.",
  ["hif/ds/CompressedStorage.hpp", "hif/utils/coo2compress.hpp"], [("counting-sort conversion", "CompressedStorage.hpp convert_storage"), ("COO conversion", "coo2compress.hpp convert_coo2cs")])
p("P02", "Sparse matrix-vector products equal the mathematical product",
  "For every matrix, multiplying by a vector gives A x, and the transposed product gives the (conjugate) transpose times x, entry for entry, for row and column storage, for ranges of leading rows or columns, for several right-hand sides at once and for mixed value types. Nothing outside the output vector is written.",
  ["inputs"], "all shapes, patterns, values (real and complex) and vectors",
  "The tests compare random products with a dense reference on a handful of square matrices and almost only for real values.",
  ["hif/ds/CompressedStorage.hpp", "hif/utils/mv_helper.hpp"], [("row/column kernels", "CompressedStorage.hpp multiply_nt/multiply_t/multiply_mrhs_*")])
p("P03", "Sparse triangular solves invert the unit triangular factor",
  "Solving with a strictly lower or strictly upper triangular matrix plus identity, plain or transposed (conjugated), for one or several right-hand sides and for either storage order, returns the x whose product with that unit triangular matrix is the given right-hand side.",
  ["inputs"], "all strictly triangular patterns, values and right-hand sides",
  "Tests exercise these solves only through whole preconditioner runs with tolerances; the multi-vector transposed variants are not exercised at all.",
  ["hif/ds/CompressedStorage.hpp"], [("substitution kernels", "CompressedStorage.hpp solve_as_strict_lower/upper(_tran)(_mrhs)")])
p("P04", "Splitting, permuting and scaling sparse matrices keeps the right entries",
  "Splitting a matrix at a column or row, extracting the leading block, applying row and column permutations, and scaling by diagonals each produce exactly the entries mathematics prescribes: every source entry appears once in the correct part at the correct position with the correct value, and no other entry appears.",
  ["inputs"], "all shapes, patterns, split points, permutations and scalings",
  "Tests use a few fixed random matrices and split points; boundary splits (0, full) and empty rows are not covered.",
  ["hif/ds/CompressedStorage.hpp", "hif/pre/driver.hpp"], [("split/compute_perm/scale kernels", "CompressedStorage.hpp split, split_dual, split_crs, split_ccs, compute_perm, extract_leading, scale_diag_left/right, scale_start")])
p("P05", "Matrix validation accepts exactly the well-formed matrices",
  "Validity checking of user-supplied compressed matrices accepts every well-formed matrix and rejects (with an error, never a crash or out-of-range access) every matrix whose offsets decrease or whose indices fall outside the declared shape or are not strictly increasing, wherever the bad value sits. Wrapping user arrays applies the same rule and takes no copy.",
  ["inputs"], "arbitrary contents of offset and index arrays, including hostile ones",
  "Tests only feed well-formed matrices plus one or two malformed ones.",
  ["hif/ds/CompressedStorage.hpp"], [("validation", "CompressedStorage.hpp check_validity, wrap_crs/wrap_ccs/wrap_const_*")])
p("P06", "Array storage: contents survive, user memory is never freed, no leaks",
  "Sequences of resize, reserve, append, copy, assignment, swap and destruction of the library's arrays and dense matrices keep the stored values of the surviving prefix, never touch freed or foreign memory, never free or reallocate memory wrapped from the user, and release every owned block exactly once. Copies share storage while explicit deep copies are independent.",
  ["histories", "fault_sequences"], "all operation sequences up to the bound, with wrapped and owned storage and with allocation failures",
  "Tests run single operations; use-after-free or double release appears only in particular sequences.",
  ["hif/ds/Array.hpp", "hif/ds/DenseMatrix.hpp"], [("reference counted buffer", "Array.hpp")])
p("P07", "Augmented linked sparse storage stays consistent under interchange and deferral",
  "While rows or columns of the growing factors are appended, interchanged or deferred, the column-linked view and the row-stored view always describe the same set of entries, every entry is reachable exactly once, and the represented matrix equals the original with the requested columns or rows exchanged.",
  ["histories"], "all sequences of append, interchange and defer steps on all patterns up to the bound",
  "Tests interchange a few fixed pairs once; list corruption needs particular sequences (adjacent or empty lists, heads and tails).",
  ["hif/ds/AugmentedStorage.hpp"], [("linked lists", "AugmentedStorage.hpp interchange_cols/rows, defer_col/row, push_back_row/col")])
p("P08", "Permutation pairs stay mutually inverse",
  "After any sequence of construction, interchange and inverse-building steps a two-way permutation remains a bijection, its inverse map undoes it, and applying it forwards then backwards to a vector restores the vector.",
  ["histories", "inputs"], "all permutations and interchange sequences up to the bound",
  "Tests only check one or two random permutations.",
  ["hif/ds/PermMatrix.hpp"], [("forward and inverse maps", "PermMatrix.hpp BiPermMatrix")])
p("P09", "Sparse work vectors and dropping keep exactly the largest entries",
  "Threshold dropping removes exactly the entries at or below the threshold, and space-limited dropping keeps exactly the allowed number of entries with no dropped entry larger in magnitude than a kept one; kept entries keep their positions and values. The reusable sparse work vector never resurrects entries of an earlier step.",
  ["inputs", "histories"], "all index sets, values, thresholds and limits, over consecutive reuse of the work vector",
  "Tests check random vectors with distinct magnitudes; ties, zeros, limits of zero and reuse are not covered.",
  ["hif/alg/thresholds.hpp", "hif/ds/SparseVec.hpp", "hif/alg/factor.hpp"], [("dropping", "thresholds.hpp apply_num_dropping/apply_space_dropping"), ("tagged work vector", "SparseVec.hpp"), ("off-diagonal dropping", "factor.hpp drop_L_E/drop_U_F")])
p("P10", "Without dropping, the multilevel factorization is exact",
  "When no entry is dropped, factorizing a nonsingular matrix (general, symmetric/Hermitian, with or without pivoting, with row or column input, with deferred rows at one or several levels) and then solving returns the exact solution: solving with b = A x gives back x, and the transposed solve inverts the (conjugate) transpose.",
  ["inputs", "configurations"], "all matrices of the bounded family, right-hand sides and the structural options",
  "Tests compare residuals of random systems with tolerances; deferral patterns, level transitions and symmetric or pivoting variants are hit only by chance.",
  ["hif/alg/factor.hpp", "hif/alg/pivot_factor.hpp", "hif/alg/symm_factor.hpp", "hif/alg/Crout.hpp", "hif/alg/PivotCrout.hpp", "hif/alg/Schur.hpp", "hif/builder.hpp", "hif/alg/prec_solve.hpp"],
  [("Crout update", "Crout.hpp compute_l/compute_u/update_diag"), ("deferral", "factor.hpp"), ("Schur complement", "Schur.hpp"), ("multilevel recursion", "builder.hpp")])
p("P11", "Every factorization level is a consistent block decomposition",
  "At each level the permutations are bijections with matching inverses, the scalings are positive, the off-diagonal blocks are exactly the corresponding blocks of the scaled and permuted input, the triangular factors are strictly triangular and well-formed with finite nonzero pivots, and without dropping their product reproduces the leading block while the next level factorizes exactly the Schur complement.",
  ["inputs", "configurations"], "all matrices of the bounded family and structural options, including with preprocessing",
  "Tests check shapes and residual norms, not the block identity itself.",
  ["hif/alg/factor.hpp", "hif/alg/pivot_factor.hpp", "hif/alg/symm_factor.hpp", "hif/alg/Schur.hpp", "hif/alg/Prec.hpp"], [("level assembly", "factor.hpp level_factorize"), ("Schur kernels", "Schur.hpp compute_Schur_simple")])
p("P12", "Preprocessing yields valid permutations and a bounded, equilibrated matrix",
  "For every matrix with at least one stored entry, preprocessing (scaling, maximum-product matching, reordering) yields row and column orderings that are bijections consistent with their inverses and positive finite scalings, leaves rows and columns outside the leading block alone, and treats the symmetric case symmetrically. For a structurally nonsingular leading block every scaled matched entry is one (general case) and at the first level no scaled entry exceeds one. Exactly the pairs whose diagonal entry is missing, zero or negligible are deferred to the end of the leading block. Reordering keeps matched pairs together, creates no fill on a forest, and reverse Cuthill-McKee is a reversed breadth-first order. The user's matrix is not changed and no access leaves the arrays.",
  ["inputs", "configurations"], "all patterns (with explicit zeros) and magnitudes in the bounded family, all scaling, balance and reordering options, partial leading blocks",
  "Tests check a few random matrices; augmenting-path and tie situations in the matching and disconnected graphs in the orderings arise only for special patterns.",
  ["hif/pre/driver.hpp", "hif/pre/matching_scaling.hpp", "hif/pre/EqlDriver.hpp", "hif/pre/equilibrate.hpp", "hif/pre/reordering.hpp", "hif/pre/amd.hpp", "hif/pre/rcm.hpp", "hif/pre/a_priori_scaling.hpp"],
  [("matching", "equilibrate.hpp"), ("driver", "driver.hpp do_preprocessing"), ("AMD/RCM", "amd.hpp, rcm.hpp")])
p("P13", "Preconditioner solve, product, transpose and multi-vector forms agree",
  "For any multilevel preconditioner, multiplying by it and solving with it are mutually inverse, the transposed forms are the exact (conjugate) transposes of the plain forms, and solving for several right-hand sides at once gives column by column the same answer as solving for each. The right-hand side is never modified.",
  ["inputs", "configurations"], "arbitrary consistent factor data with zero, one or several levels, empty or full leading blocks, and all vectors",
  "Tests compare them on random matrices with tolerances, essentially on one level and without transposed or multi-vector multilevel cases.",
  ["hif/alg/prec_solve.hpp", "hif/alg/prec_prod.hpp", "hif/builder.hpp"], [("recursive level traversal", "prec_solve.hpp, prec_prod.hpp")])
p("P14", "Iterative refinement follows its definition and reports truthfully",
  "Refinement with N steps returns exactly the N-step iterate x <- x + M^{-1}(b - A x) started from zero, in plain and transposed form. With residual bounds it returns the true number of steps, stops as soon as the relative residual is within the lower bound (converged) or above the upper bound (diverged), and otherwise reports reaching the limit.",
  ["inputs", "histories"], "all operators, right-hand sides, step limits and bounds in the family, and repeated calls",
  "Tests run a few solves and look at the final residual only.",
  ["hif/alg/IterRefine.hpp", "hif/builder.hpp"], [("refinement loop", "IterRefine.hpp iter_refine")])
p("P15", "Null-space filtering projects and stays in range",
  "The null-space filter removes exactly the component along the given (or constant) null vector inside the configured index range and leaves entries outside the range untouched; with a user callback the callback sees exactly the solution vector. Applying it never reads or writes out of range.",
  ["inputs", "configurations"], "all ranges (including empty, reversed-end and beyond-end ranges), vectors and null vectors",
  "Tests use one constant mode on the full range.",
  ["hif/NspFilter.hpp", "hif/builder.hpp"], [("filter", "NspFilter.hpp")])
p("P16", "Options read, written and set by name stay faithful",
  "Setting an option by its name changes exactly that option to the given value and rejects unknown names; reading back a printed option set reproduces it; option-name queries and enable-verbose flags map each documented value to its documented name.",
  ["inputs", "configurations"], "all option names and values",
  "Tests only construct defaults and set a few fields.",
  ["hif/Options.h"], [("option table", "Options.h set_option_attr, operator<<, operator>>")])
p("P17", "Matrix Market input is read faithfully and malformed files cannot corrupt memory",
  "Reading a Matrix Market file produces exactly the matrix or vector it describes, expanding symmetric, skew-symmetric and Hermitian storage and accepting real and complex values (positions listed once); a matrix written out and read back is unchanged. Malformed or truncated files produce an error, never an out-of-range access, a leaked handle or garbage entries.",
  ["inputs"], "all small files: headers, sizes, indices, symmetry kinds, and corrupted variants",
  "Tests read well-formed general files only.",
  ["hif/utils/io.hpp", "hif/utils/coo2compress.hpp"], [("reader/writer", "io.hpp read_mm_*/write_mm_*")])
p("P18", "Dense last-level solvers implement solve, product and transpose of one matrix",
  "The dense solvers used at the last level (LU, rank-revealing QR, symmetric eigen) return the solution of their matrix, the product with it and the (conjugate) transposed forms, for one or several right-hand sides, given any decomposition that satisfies the linear algebra backend's contract; truncated-rank solves use exactly the leading numerical-rank part and the reported rank counts exactly the retained directions.",
  ["inputs", "configurations"], "all matrices, ranks, right-hand sides and contract-conforming decompositions in the family",
  "Tests check random full-rank matrices with tolerances; rank truncation, pivoted and transposed multi-vector forms are not separated.",
  ["hif/small_scale/LUP.hpp", "hif/small_scale/QRCP.hpp", "hif/small_scale/SYEIG.hpp", "hif/small_scale/lapack.hpp", "hif/ds/DenseMatrix.hpp"], [("dense wrappers", "LUP.hpp, QRCP.hpp, SYEIG.hpp, lapack.hpp")])
p("P19", "The C interface mirrors the library and never lets an error escape",
  "Every C entry point applied to valid handles returns success and the same result as the underlying operation on the same matrix and vectors, for every value type, transposition and refinement choice; null or mismatched arguments and internal failures come back as documented error codes with a message, never as a crash, an escaping exception or a leaked handle. User arrays are referenced, not copied or modified.",
  ["inputs", "histories", "configurations"], "all call sequences up to the bound over matrix, factorization and parameter handles",
  "Tests drive the happy path of the C interface on one matrix.",
  ["libhifir/src/libhifir.cpp", "libhifir/src/libhifir.h"], [("C wrappers", "libhifir.cpp")])
p("P20", "Threaded operations equal the sequential ones for every team and schedule",
  "For every number of rows and threads the uniform partition assigns every row to exactly one thread, as evenly as possible. Threaded matrix-vector products, dropping of the offsets and Schur complements give exactly the sequential result for every requested number of threads, for every team the OpenMP runtime provides (it may be smaller than requested, down to one thread) and for every order in which the threads run: no row is skipped or done twice, no two threads access the same data without synchronisation, and all threads reach every barrier. The number of threads used is the one requested, else HIF_NUM_THREADS, else OMP_NUM_THREADS, else the system's, and never below one.",
  ["inputs", "schedules", "configurations"], "all sizes, thread counts, team sizes and schedules of the thread bodies up to the bound",
  "Tests run with one machine's thread count on one schedule; smaller teams, remainders and more threads than rows are not covered.",
  ["hif/utils/mt.hpp", "hif/utils/mt_mv.hpp", "hif/alg/Schur.hpp"], [("uniform partition and thread counts", "mt.hpp uniform_partition/get_nthreads"), ("threaded products", "mt_mv.hpp mt::multiply_nt/mt::multiply_mrhs_nt"), ("threaded dropping and Schur complement", "Schur.hpp mt::drop_L_E_and_U_F/mt::compute_Schur_simple")])
p("P21", "Results depend only on the current matrix, not on call history",
  "Factorizing, solving (plain, transposed, several right-hand sides), multiplying and refining in any order with one preconditioner object gives the same results as a fresh object that only did the last step; refactorizing with another matrix leaves no trace of the previous one, and a factorization that fails leaves an empty object rather than a half-built one. The user's matrix and right-hand sides are never modified, and all memory is released when the object is destroyed.",
  ["histories"], "all operation sequences up to the bound on differently sized and structured matrices",
  "Tests create a fresh object per case.",
  ["hif/builder.hpp", "hif/alg/prec_solve.hpp", "hif/alg/IterRefine.hpp"], [("lazy work buffers and reset", "builder.hpp factorize/solve/solve_mrhs/clear")])
p("P22", "Dropping in the factorization is safe: structure and stability are preserved",
  "With any drop tolerances and fill limits, and with any rows or columns deferred, factorization of any nonsingular bounded matrix terminates (an error is allowed only when dropping has left an entirely empty remainder) with a well-formed multilevel structure: factors within their fill limits, deferred rows and columns neither lost nor duplicated, pivots within the stability threshold, and statistics counting exactly the entries deferred.",
  ["inputs", "configurations"], "all matrices, tolerances and limits of the bounded family",
  "Tests sample a few random matrices with default parameters.",
  ["hif/alg/factor.hpp", "hif/alg/symm_factor.hpp", "hif/alg/pivot_factor.hpp", "hif/alg/Crout.hpp", "hif/alg/thresholds.hpp"], [("dropping and deferral", "factor.hpp level_factorize")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
