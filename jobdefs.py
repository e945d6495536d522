PROPS = {}
BASE = ["harness domain: values are integers times a power of two within the stated ranges, so that every floating point operation of the encoded path is exact (the executor checks this and splits into concrete values where it does not hold)",
        "log.hpp is replaced by stubs: hif_error becomes an exception, informational output is dropped",
        "clang 18 -O1 IR of the current sources; index type int"]
def J(name, src, entry, bounds, **k):
    return dict(name=name, src=src, entry=entry, bounds=bounds, **k)
def P(pid, how, jobs, extra=(), level="model_checking"):
    PROPS[pid] = dict(how=how, jobs=jobs, assumptions=BASE + list(extra), level=level)

SH = dict(shards=2, shards_t=8)
P("P02", "symbolic execution of the CRS/CCS product kernels against the dense definition", [
    J("real", "h_spmv.cpp", "spmv", "all shapes 0..3 x 0..3, all patterns, entries and vectors in [-8,8], 2 vectors at once, all leading row ranges", cover=["crs", "ccs", "range"], shards=4, quick_only=True),
    J("complex", "h_spmv.cpp", "spmv", "as real, complex<double>, shapes up to 3x3", defs=["TA=zc"], cover=["crs", "ccs", "range"], shards=8),
    J("mixed", "h_spmv.cpp", "spmv", "float matrix, double vectors, shapes up to 2x2", defs=["TA=float", "TX=double", "TY=double", "NN=2"], cover=["crs", "ccs", "range"]),
    J("mixed2", "h_spmv.cpp", "spmv", "double matrix, float input, double output, shapes up to 2x2", defs=["TA=double", "TX=float", "TY=double", "NN=2"], cover=["crs", "ccs", "range"]),
    J("real4", "h_spmv.cpp", "spmv", "all shapes 0..4 x 0..4, all patterns", defs=["NN=4"], cover=["crs", "ccs", "range"], shards=8, shards_t=16, thorough_only=True, time_t=800),
])
P("P03", "symbolic execution of the eight substitution kernels of both storages: rhs built from a symbolic solution must be mapped back to it", [
    J("real", "h_tri.cpp", "tri", "orders 1..4, all strictly triangular patterns, entries in [-4,4], 2 vectors", defs=["NN=4"], cover=["crs lower", "crs upper", "ccs lower", "ccs upper"], shards=4),
    J("complex", "h_tri.cpp", "tri", "orders 1..3, complex<double>", defs=["TA=zc"], cover=["crs lower", "crs upper", "ccs lower", "ccs upper"], shards=4),
    J("mixed", "h_tri.cpp", "tri", "orders 1..3, float factors, double vectors", defs=["TA=float", "TY=double"], cover=["crs lower", "crs upper", "ccs lower", "ccs upper"]),
    J("real5", "h_tri.cpp", "tri", "orders 1..5, all patterns", defs=["NN=5"], cover=["crs lower"], shards=8, thorough_only=True, time_t=800),
])
P("P01", "symbolic execution of the format conversions; the stored structure is compared entry by entry with the dense picture it was built from", [
    J("convert", "h_cs.cpp", "conv", "shapes 0..3 x 0..3, all patterns, sorted and unsorted input", cover=["sorted", "unsorted"], shards=4, opts=["--time", "200"]),
    J("convert_z", "h_cs.cpp", "conv", "complex<double>, shapes up to 2x2", defs=["TA=zc", "NN=2"], cover=["sorted", "unsorted"]),
    J("coo", "h_cs.cpp", "coo", "shapes 1..3 x 1..3, up to 3 entries with symbolic distinct positions in any order", cover=["end"], shards=6),
    J("convert4", "h_cs.cpp", "conv", "shapes 0..4 x 0..4", defs=["NN=4"], cover=["sorted", "unsorted"], shards=16, thorough_only=True, time_t=800),
    J("coo4", "h_cs.cpp", "coo", "shapes 1..4 x 1..4, up to 4 entries", defs=["NN=4"], cover=["end"], shards=16, thorough_only=True, time_t=800),
])
P("P04", "symbolic execution of the restructuring kernels against their dense definition", [
    J("split", "h_cs.cpp", "split", "shapes 0..3 x 0..3, all patterns, all split points", cover=["end"], shards=6),
    J("perm", "h_cs.cpp", "perm", "shapes 1..2 x 1..2 quick, all patterns, permutations, leading sizes, with and without values", defs=["NN=2"], cover=["all", "leading", "structure"], shards=2),
    J("perm3", "h_cs.cpp", "perm", "shapes up to 3x3", cover=["all", "leading", "structure"], shards=8),
    J("scale", "h_cs.cpp", "scale", "shapes up to 3x3, scale factors in [-3/2,3/2]", cover=["end"], shards=2),
    J("prune", "h_cs.cpp", "prune", "shapes up to 2x2, thresholds 0, 1/8, 1/2, entries in [-9,9]", cover=["end", "pruned"], shards=8),
    J("prune3", "h_cs.cpp", "prune", "shapes up to 3x2", defs=["PRN=3"], cover=["end", "pruned"], shards=16, thorough_only=True, time_t=800),
    J("split4", "h_cs.cpp", "split", "shapes up to 4x4", defs=["NN=4"], cover=["end"], shards=16, thorough_only=True, time_t=800),
])
P("P05", "symbolic execution of validation over fully symbolic offset and index arrays; verdict compared with the definition of well-formedness, every access checked for bounds", [
    J("valid", "h_cs.cpp", "valid", "up to 2 rows/columns, up to 3 entries, offsets in [-1,4], indices in [-1,2]", cover=["accepted", "rejected"], shards=6),
    J("short", "h_cs.cpp", "shortptr", "1..3 rows, offset arrays too short by 1..all", cover=["end"]),
    J("valid3", "h_cs.cpp", "valid", "up to 3 rows/columns, up to 4 entries", defs=["VN=3", "VZ=4"], cover=["accepted", "rejected"], shards=16, thorough_only=True, time_t=800),
])
P("P06", "symbolic execution of operation histories on two array handles against a reference model of buffers and handles; the executor tracks every allocation, so use after free, double free, foreign free and leaks are violations", [
    J("arrays", "h_arr.cpp", "arrays", "all histories of 3 operations from 20 kinds on 2 handles, symbolic contents, with failing allocations", defs=["DEPTH=3"], cover=["end", "wrap", "allocation failure", "move", "assignment"], shards=8, time=300),
    J("steal", "h_arr.cpp", "steal", "ownership transfer, up to 3 elements", cover=["end"]),
    J("dense", "h_arr.cpp", "dense", "shapes 1..3 x 1..3, all patterns", cover=["end", "overwrite"], shards=4),
    J("arrays4", "h_arr.cpp", "arrays", "all histories of 4 operations", defs=["DEPTH=4"], cover=["end", "wrap", "allocation failure"], shards=64, shards_t=64, thorough_only=True, time_t=400),
])
P("P08", "symbolic execution of permutation histories; both maps compared with a model after every step", [
    J("perm", "h_arr.cpp", "perms", "sizes 1..4, all starting permutations, 2 steps with symbolic positions", cover=["end", "interchange", "inverse interchange"], shards=6),
    J("perm3", "h_arr.cpp", "perms", "sizes 1..4, 3 steps", defs=["PSTEPS=3"], cover=["end"], shards=16, thorough_only=True, time_t=800),
])
P("P07", "symbolic execution of append/interchange/defer histories on both augmented storages; after every step the stored view and the linked view are compared with a dense model", [
    J("aug", "h_aug.cpp", "aug", "up to 2+1 stored vectors, up to 3 linked lists, 2 steps, all patterns and positions", defs=["NPRI=2"], cover=["rows", "columns", "interchange", "defer", "append"], shards=8),
    J("build", "h_aug.cpp", "augbuild", "construction from mature matrices up to 2x3 (copy, clone, move, other storage)", defs=["NPRI=2"], cover=["built"], shards=4),
    J("aug3", "h_aug.cpp", "aug", "up to 3+1 stored vectors, up to 3 lists, 2 steps", defs=["NPRI=3"], cover=["rows", "columns", "interchange", "defer", "append"], shards=16, thorough_only=True, time_t=800),
    J("aug23", "h_aug.cpp", "aug", "up to 2+1 stored vectors, 3 steps", defs=["NPRI=2", "ASTEPS=3"], cover=["rows", "columns", "interchange", "defer", "append", "two parts"], shards=16, thorough_only=True, time_t=800),
])
P("P09", "symbolic execution of the work vector over consecutive steps and of the three dropping kernels against their definition", [
    J("spvec", "h_drop.cpp", "spvec", "3 positions, one step, any push order, values in [-6,6] (ties included), several thresholds, limits and offsets", defs=["SSTEPS=1"], cover=["end", "dropped by threshold", "dropped by space", "restored"], shards=6),
    J("reuse", "h_drop.cpp", "spvec", "3 positions, 2 consecutive steps, any push order and operation, fixed values with a tie", defs=["SSTEPS=2"], cover=["end", "dropped by threshold", "dropped by space", "restored"], shards=6),
    J("search", "h_drop.cpp", "spacc", "3 positions, reductions and searches", cover=["none", "found"], shards=2),
    J("offdiag", "h_drop.cpp", "offdrop", "blocks up to 2x3, reference sizes 0..2, four fill factors, both storages", cover=["end", "dropped"], shards=8),
    J("spvec_z", "h_drop.cpp", "spvec", "complex<double> with real or imaginary values, one step", defs=["TA=zc", "SSTEPS=1"], cover=["end", "dropped by threshold", "dropped by space"], shards=2),
    J("space_long", "h_drop.cpp", "spbig", "5 positions all in use, values in [-15,15] with fixed signs, all limits, offset 0 and 1", defs=["NV=5"], cover=["end"], shards=4),
    J("offdiag_long", "h_drop.cpp", "offbig", "one vector of 5 entries and a short one, all limits, both storages", cover=["end"], shards=4),
    J("offdiag3", "h_drop.cpp", "offdrop", "blocks up to 2x4", defs=["OM=4"], cover=["end", "dropped"], shards=16, thorough_only=True, time_t=800),
    J("spvec4", "h_drop.cpp", "spvec", "4 positions, one step", defs=["NV=4", "SSTEPS=1"], cover=["end"], shards=16, thorough_only=True, time_t=800),
    J("reuse3", "h_drop.cpp", "spvec", "3 positions, 3 steps", defs=["SSTEPS=3"], cover=["end"], shards=16, thorough_only=True, time_t=800),
])
MG = ["solve", "solve tran", "product", "product tran", "mrhs", "several levels", "dense level", "symmetric dense level"]
P("P13", "symbolic execution of the multilevel solve and product on preconditioners with symbolic contents, compared with the operator defined by the factors", [
    J("forms", "h_mg.cpp", "forms", "orders 1..3, up to 3 sparse levels plus dense level, all permutations of the first level, symbolic factors, off-diagonal blocks and vectors, one call", defs=["PERMS=1"], cover=MG, shards=8),
    J("forms4", "h_mg.cpp", "forms", "order 1..4, up to 3 sparse levels plus dense level, fixed permutations", defs=["PERMS=0", "NN=4"], cover=MG, shards=8),
    J("forms_z", "h_mg.cpp", "forms", "complex<double>, orders 1..3, fixed permutations", defs=["PERMS=0", "TA=zc"], cover=MG, shards=8),
    J("forms_mixed", "h_mg.cpp", "forms", "float preconditioner, double vectors, orders 1..2", defs=["PERMS=1", "TA=float", "TY=double", "NN=2", "NRHS=3"], cover=MG, shards=2),
    J("calls", "h_mg.cpp", "forms", "orders 1..2, up to 2 sparse levels, sequences of 3 calls of any form on one object", defs=["PERMS=0", "NN=2", "STEPS=3", "LV=2"], cover=MG, shards=8),
    J("forms_perm", "h_mg.cpp", "forms", "orders 1..3, all permutations of every level", defs=["PERMS=2"], cover=MG, shards=16, thorough_only=True, time_t=800),
    J("forms_zperm", "h_mg.cpp", "forms", "complex<double>, orders 1..3, all permutations of the first level", defs=["PERMS=1", "TA=zc"], cover=MG, shards=16, thorough_only=True, time_t=800),
    J("calls3", "h_mg.cpp", "forms", "orders 1..3, sequences of 2 calls", defs=["PERMS=0", "STEPS=2"], cover=MG, shards=16, thorough_only=True, time_t=800),
], ["the dense last level is the user-supplied solver type documented in Prec.hpp: exact elimination (see P18 for the built-in ones)"])
FC = ["deferred", "one level"]
FP = ["one level"]
F2 = FC + ["two sparse levels"]
FX = dict(src="h_fac.cpp", entry="fac")
def F(name, bounds, defs, cover, **k): return dict(J(name, "h_fac.cpp", "fac", bounds, defs=defs, cover=cover, **dict(dict(shards=8), **k)))
R3 = "orders 1..3, full pattern, symbolic entries in [0,1] with all minors in {-1,0,1}, nonsingular"
S3 = R3.replace("[0,1]", "[-1,1]")
PRE = ", every row/column ordering, scalings powers of two, static deferral 0..1 (preprocessing replaced by its contract, see P12)"
IV = "rows are intervals of ones (case split over all), vectors symbolic"
T3 = R3 + PRE.replace("every row/column ordering", "every row ordering, two column orderings") + ", column input, pivot bounds 0.3 and 0.8 so that many or all pivots are deferred"
T2 = T3.replace("1..3", "1..2")
TH = dict(thorough_only=True, shards=8, shards_t=16, time_t=800)
def facjobs(x):
    d = ["P11"] if x else []
    jobs = [
        F("general", S3 + ", row and column input", ["NN=3"] + d, FC + ["crs", "ccs", "all dense"]),
        F("pivot", R3 + ", pivoting on", ["NN=3", "KIND=1", "LO=0"] + d, FP + ["crs", "ccs"]),
        F("symm", S3 + ", symmetric", ["NN=3", "KIND=2"] + d, FC),
        F("leading", S3 + ", symmetric leading block of every size, two levels", ["NN=3", "KIND=3"] + d, F2),
        F("auto", R3 + ", automatic pivoting", ["NN=3", "KIND=4", "LO=0"] + d, FC),
        F("general_pre", R3 + PRE.replace("every row/column ordering", "every row ordering, two column orderings") + ", column input", ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0"] + d, F2 + ["static deferral"]),
        F("symm_pre", R3 + PRE + ", symmetric", ["NN=3", "LO=0", "PREM", "KIND=2"] + d, F2 + ["static deferral"]),
        F("leading_pre", R3 + PRE + ", symmetric leading block", ["NN=3", "LO=0", "PREM", "KIND=3"] + d, F2 + ["static deferral"]),
        F("pivot_pre", R3.replace("1..3", "1..2") + PRE + ", pivoting on", ["NN=2", "LO=0", "PREM", "KIND=1"] + d, FP),
        F("general_z", R3.replace("1..3", "1..2") + PRE + ", complex (rows and columns times units)", ["NN=2", "LO=0", "PREM", "TA=zc"] + d, FC),
        F("herm_z", R3 + PRE + ", complex Hermitian", ["NN=3", "LO=0", "PREM", "KIND=2", "TA=zc", "FMT=1"] + d, F2),
        F("pivot_z", R3.replace("1..3", "1..2") + ", complex, pivoting on", ["NN=2", "LO=0", "KIND=1", "TA=zc"] + d, FP),
        F("sparse", R3 + ", only nonzero entries stored", ["NN=3", "LO=0", "PAT=1"] + d, FC),
        F("interval4", "order 4, " + IV + PRE.replace("every row/column ordering", "every row ordering, two column orderings") + ", column input", ["NN=4", "PAT=2", "PREM", "PRE_ALLQ=0", "FMT=0"] + d, F2),
        F("interval4_pivot", "order 4, " + IV + ", pivoting on, row and column input", ["NN=4", "PAT=2", "KIND=1"] + d, FP),
        F("band4_symm", "order 4, symmetric 0/1 matrices of half bandwidth 2 with all minors in {-1,0,1} (case split), vectors symbolic" + PRE, ["NN=4", "PAT=2", "KIND=2", "PREM"] + d, F2),
        F("band4_leading", "as band4_symm with a symmetric leading block of every size, row input", ["NN=4", "PAT=2", "KIND=3", "PREM", "FMT=1"] + d, F2),
        F("general_tight", T3, ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0", "KDS"] + d, F2 + ["all dense"]),
        F("symm_tight", T3 + ", symmetric", ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0", "KDS", "KIND=2"] + d, F2 + ["all dense"]),
        F("leading_tight", T3 + ", symmetric leading block", ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0", "KDS", "KIND=3"] + d, F2 + ["all dense"]),
        F("pivot_tight", (T3 if x else T2) + ", pivoting on", ["NN=%d" % (3 if x else 2), "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0", "KDS", "KIND=1"] + d, FP + ["all dense"]),
        F("auto_tight", (T3 if x else T2) + ", automatic pivoting", ["NN=%d" % (3 if x else 2), "LO=0", "PREM", "PRE_ALLQ=0", "FMT=0", "KDS", "KIND=4"] + d, FP + ["all dense"]),
    ] + ([] if x else [
        F("pivot_tight3", T3 + ", pivoting on", ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "KDS", "KIND=1"] + d, FP + ["all dense"], **TH),
        F("auto_tight3", T3 + ", automatic pivoting", ["NN=3", "LO=0", "PREM", "PRE_ALLQ=0", "KDS", "KIND=4"] + d, FP + ["all dense"], **TH),
    ]) + [
        F("pivot_full", S3 + ", pivoting on", ["NN=3", "KIND=1"] + d, FP, **TH),
        F("auto_full", S3 + ", automatic pivoting", ["NN=3", "KIND=4"] + d, FC, **TH),
        F("pivot_pre3", R3 + PRE + ", pivoting on", ["NN=3", "KIND=1", "LO=0", "PREM"] + d, FP, **TH),
        F("general_pre3", S3 + PRE + "", ["NN=3", "PREM"] + d, F2, **TH),
        F("leading_pre3", S3 + PRE + ", symmetric leading block", ["NN=3", "PREM", "KIND=3"] + d, F2, **TH),
        F("general_z3", R3 + PRE + ", complex", ["NN=3", "PREM", "LO=0", "TA=zc"] + d, F2, **TH),
        F("leading_z3", S3 + ", complex symmetric leading block", ["NN=3", "KIND=3", "TA=zc"] + d, F2, **TH),
        F("pivot_z3", R3 + ", complex, pivoting on", ["NN=3", "KIND=1", "TA=zc", "LO=0"] + d, FP, **TH),
        F("sparse3", S3 + ", only nonzero entries stored", ["NN=3", "PAT=1"] + d, FC, **TH),
        F("interval5", "order 5, " + IV + ", row input", ["NN=5", "PAT=2", "FMT=1"] + d, F2, **TH),
        F("interval5_auto", "order 5, " + IV + ", automatic pivoting", ["NN=5", "PAT=2", "FMT=1", "KIND=4"] + d, F2, **TH),
        F("band5_symm", "order 5, symmetric bands" + PRE, ["NN=5", "PAT=2", "KIND=2", "PREM", "FMT=1"] + d, F2, **TH),
        F("band5_leading", "order 5, symmetric leading block", ["NN=5", "PAT=2", "KIND=3", "FMT=1"] + d, F2, **TH),
    ]
    return jobs
FA = ["the last level uses the user-supplied dense solver type documented in Prec.hpp: exact elimination (see P18 for the built-in ones)", "preprocessing is switched off or replaced by any result its contract (P12) allows",
      "options: no dropping, condition threshold 1e6 (tight pivot bounds in the *_tight jobs), tiny dense threshold so that several levels are built"]
P("P10", "symbolic execution of factorize followed by solve (plain and transposed): the matrix entries and the solution are symbolic, the solution must come back", facjobs(False), FA)
P("P11", "symbolic execution of factorize; every level is compared with the block decomposition defined by the permuted and scaled matrix of that level", facjobs(True), FA)
def G(name, bounds, defs, cover, **k): return dict(J(name, "h_fdrop.cpp", "fdrop", bounds, defs=defs, cover=cover, **dict(dict(shards=8), **k)))
DC = ["all deferred", "deferred", "dense level", "several levels", "dropped", "conditioning deferral", "diagonal deferral"]
DP = [c for c in DC if c != "all deferred" and c != "several levels"]
SC = "rows are integer intervals (all positions), 7 settings: fill factors 0.5..3 for L or U, symbolic condition bound in [1,12], symbolic pivot bound in [1/4,4], drop thresholds nothing/2/everything, combined"
SB = SC.replace("rows are integer intervals (all positions)", "symmetric integer band patterns")
P("P22", "symbolic execution of factorize under symbolic stability bounds and case-split drop settings; structure, fill, pivot bound, statistics and the untouched trailing block are asserted on every path", [
    G("general", "order 4, " + SC + ", row input", ["NN=4", "FMT=1"], DC),
    G("pivot", "order 4, " + SC + ", row input, pivoting on", ["NN=4", "KIND=1", "FMT=1"], DC),
    G("symm", "order 4, " + SB, ["NN=4", "KIND=2"], DC),
    G("leading", "order 4, " + SB + ", symmetric leading block of every size, row input", ["NN=4", "KIND=3", "FMT=1"], DC),
    G("auto", "order 3, " + SC + ", automatic pivoting", ["NN=3", "KIND=4"], DP),
    G("general_cols", "order 3, " + SC + ", column input", ["NN=3", "FMT=0"], [c for c in DC if c != "several levels"]),
    G("pivot_cols", "order 3, " + SC + ", column input, pivoting on", ["NN=3", "FMT=0", "KIND=1"], DP),
    G("general_pre", "order 3, " + SC + PRE, ["NN=3", "PREM", "PRE_ALLQ=0"], DC + ["static deferral"]),
    G("pivot_pre", "order 3, " + SC + PRE + ", pivoting on", ["NN=3", "PREM", "PRE_ALLQ=0", "KIND=1"], DP),
    G("symm_pre", "order 3, " + SB + PRE, ["NN=3", "PREM", "KIND=2"], DC + ["static deferral"]),
    G("leading_pre", "order 3, " + SB + PRE + ", symmetric leading block", ["NN=3", "PREM", "KIND=3"], DC + ["static deferral"]),
    G("later_levels", "order 6, zero leading block of order 3 with 27 x 8 border patterns that is deferred as a whole, every ordering of it in both levels, fill factors 0.5 or none, symbolic pivot bound in [1,4]", ["NN=6", "BLK=3", "PREM", "PRE_FIRST=3", "PRE_LEVELS=2", "PRE_ALLQ=0", "PRE_DEFER=0", "FMT=1"], ["deferred", "diagonal deferral", "dropped", "several levels"]),
    G("later_levels_symm", "as later_levels, symmetric", ["NN=6", "BLK=3", "PREM", "PRE_FIRST=3", "PRE_LEVELS=2", "PRE_DEFER=0", "FMT=1", "KIND=2"], ["deferred", "diagonal deferral", "dropped", "several levels"]),
    G("auto4", "order 4, " + SC + ", automatic pivoting, row input", ["NN=4", "KIND=4", "FMT=1"], DC, **TH),
    G("auto_pre", "order 3, " + SC + PRE + ", automatic pivoting", ["NN=3", "PREM", "KIND=4", "PRE_ALLQ=0"], DC, **TH),
    G("symm5", "order 5, " + SB + ", row input", ["NN=5", "KIND=2", "FMT=1"], DC, **TH),
    G("symm4_pre", "order 4, " + SB + PRE, ["NN=4", "KIND=2", "FMT=1", "PREM"], DC, **TH),
    G("general4_pre", "order 4, " + SC + PRE, ["NN=4", "FMT=0", "PREM", "PRE_ALLQ=0"], DC, **TH),
    G("leading5", "order 5, " + SB + ", symmetric leading block, row input", ["NN=5", "KIND=3", "FMT=1"], DC, **TH),
], ["the last level uses the user-supplied dense solver type documented in Prec.hpp", "preprocessing is switched off or replaced by any result its contract (P12) allows",
    "a remainder in which nothing is left (after dropping, or of a singular matrix) may be refused with an error"])
IC = ["refined", "transposed"]
BC = ["converged", "diverged", "limit", "zero rhs"]
WC = ["callback", "dense level", "transposed"]
P("P14", "symbolic execution of IterRefine and HIF::hifir against the definition of the iteration, with the preconditioner an arbitrary linear operator, and of the stopping logic with symbolic residual bounds", [
    J("real", "h_ir.cpp", "fixed", "orders 1..2, all patterns, symbolic matrix, preconditioner in [-1,1] and rhs in [-2,2], 0..3 steps, plain and transposed, row and column storage, object reused", cover=IC),
    J("real3", "h_ir.cpp", "fixed", "orders 1..3 (fixed preconditioner), otherwise as real", defs=["NN=3"], cover=IC, shards=4),
    J("long", "h_ir.cpp", "fixed", "orders 1..2, 0..5 steps", defs=["NMAX=5"], cover=IC),
    J("complex", "h_ir.cpp", "fixed", "as real, complex<double>", defs=["TA=zc"], cover=IC),
    J("mixed", "h_ir.cpp", "fixed", "as real, float matrix, refinement in double", defs=["TA=float", "TX=double"], cover=IC),
    J("bounds", "h_ir.cpp", "bounds", "orders 1..2, 1..3 steps, data by case split over small values, lower bound symbolic in [0,3], upper in [0,6]", cover=BC, shards=8),
    J("bounds_z", "h_ir.cpp", "bounds", "as bounds, complex<double>", defs=["TA=zc"], cover=BC, shards=8),
    J("object", "h_ir.cpp", "wrap", "HIF::hifir with 1..2 level preconditioners of order 1..2, 1..2 steps, with/without bounds, last-level dimension -1..1, row, column and user-function matrix", defs=["IRWRAP"], cover=WC, shards=4),
    J("object_z", "h_ir.cpp", "wrap", "as object, complex<double>", defs=["IRWRAP", "TA=zc"], cover=WC, shards=4),
    J("fixed_more", "h_ir.cpp", "fixed", "orders 1..3, 0..5 steps", defs=["NN=3", "NMAX=5"], cover=IC, **TH),
    J("fixed_more_z", "h_ir.cpp", "fixed", "orders 1..3, 0..4 steps, complex", defs=["NN=3", "NMAX=4", "TA=zc"], cover=IC, **TH),
    J("bounds_more", "h_ir.cpp", "bounds", "orders 1..2, 1..6 steps", defs=["NMAX=6"], cover=BC, **TH),
], ["the residual bound comparison is checked away from exact ties of rounded norms (orders above 1)"])
NC = ["callback", "empty range", "from the start", "overridden", "partial range", "range refused"]
NA_ = ["callback", "filtered", "filtered transposed", "mrhs", "product", "unfiltered"]
P("P15", "symbolic execution of the null-space filter and of HIF::solve with filters attached, against the projection's definition", [
    J("direct", "h_nsp.cpp", "direct", "vectors of length 0..4 with symbolic entries, all start/end settings 0..6 or open, constructor/setter/copy/assignment, callback, override", cover=NC),
    J("direct6", "h_nsp.cpp", "direct", "vectors of length 0..6 with symbolic entries", defs=["NN=6"], cover=NC, shards=4),
    J("direct_z", "h_nsp.cpp", "direct", "as direct, complex<double>", defs=["TA=zc"], cover=NC),
    J("direct_f", "h_nsp.cpp", "direct", "as direct, float", defs=["TA=float"], cover=NC),
    J("attached", "h_nsp.cpp", "attached", "preconditioners of order 1..3 with 1..2 levels, filter/left filter attached or not, all ranges, solve, transposed solve, several rhs, product", cover=NA_, shards=4),
    J("attached_z", "h_nsp.cpp", "attached", "as attached, complex<double>", defs=["TA=zc"], cover=NA_, shards=4),
    J("direct9", "h_nsp.cpp", "direct", "vectors of length 0..9 with symbolic entries", defs=["NN=9", "TA=zc"], cover=NC, **TH),
])
P("P16", "symbolic execution of option setting, stream reading, printing and naming; every option and every value symbolic, one character of the name symbolic", [
    J("setname", "h_opt.cpp", "setname", "all 28 names, symbolic double/int values, all other options symbolic; names with one symbolic character (_ ` a..z) replaced or appended at every position, one removed", cover=["set", "edited into a known name", "unknown"], shards=8),
    J("stream", "h_opt.cpp", "stream", "all 28 options symbolic, recording stream", cover=["read"]),
    J("print", "h_opt.cpp", "print", "each option in turn symbolic (int -12..120, double quarters in [-5,5], verbose 0..127), print-out parsed back", cover=["printed"], shards=4),
    J("names", "h_opt.cpp", "names", "verbose symbolic 0..127, flag -5..127", cover=["names"]),
    J("setname_all", "h_opt.cpp", "setname", "as setname with any character 1..127", defs=["CLO=1", "CHI=127"], cover=["set", "unknown"], **TH),
], ["libstdc++'s string hash is replaced by a simpler hash function (behaviour of the map does not depend on it)", "libc's %f formatting is modelled for multiples of 1/4"])
ZD = ["TA=zc", "LP=z", "PT=void*", "CX"]; SD = ["TA=float", "LP=s", "PT=float*", "TY=double"]; DD = ["TY=float"]
C18 = dict(lup=["singular", "mrhs", "solve", "solve tran", "product"], qrrank=["deficient", "full rank", "zero"], qrsolve=["mrhs", "product", "product tran", "solve", "solve tran", "truncated"], syeig=["deficient", "full rank", "nothing kept", "mrhs", "negative", "positive", "product", "solve"])
B18 = dict(lup="orders 1..3, symbolic L and U (diagonal 2, -1 or 0), all row interchange sequences, five ways of setting the matrix, all call forms",
           qrrank="orders 1..3, every number of large diagonal entries, the others zero or tiny, symbolic R, three condition thresholds, all outcomes of the incremental estimator",
           qrsolve="orders 1..3, products of exact reflectors, symbolic R, all column pivots, every rank argument, plain/transposed solve and product, one and several right-hand sides",
           syeig="orders 1..3, signed permutations as eigenvectors, all ascending spectra from {-8,-2,-1,-tiny,0,tiny,1,4,16}, positive/negative/indefinite mode, every rank argument")
P("P18", "symbolic execution of the dense solvers against the decompositions they are built from; LAPACK replaced by contracts", [
    J(e + sfx, "h_dense.cpp", e, B18[e] + t, defs=[] if e == "qrsolve" and d is DD else d, cover=C18[e], shards=4 if e != "syeig" else 8) for sfx, t, d in [("", ", double (float vectors in the other-type forms)", DD), ("_z", ", complex<double>", ZD), ("_s", ", float factors, double vectors", SD)] for e in ("lup", "qrrank", "qrsolve", "syeig") if not (e == "qrrank" and sfx == "_s")] + [
    J("refused", "h_dense.cpp", "refused", "unset matrix, unfactorized matrix, wrong vector sizes, all three solvers", cover=["end"])] + [
    J(e + "4" + sfx, "h_dense.cpp", e, B18[e].replace("1..3", "1..4"), defs=d + ["NN=4"], cover=C18[e], **TH) for sfx, d in [("", []), ("_z", ZD)] for e in ("lup", "qrrank", "qrsolve", "syeig")],
  ["LAPACK/BLAS routines behave as documented (contracts in harness/lapackstub.hpp: they check the arguments they are given, overwrite outputs and workspaces, and return the decomposition the matrix was built from); square matrices only"])
B17 = dict(wellformed="shapes 0..3 x 0..3 and all four symmetry kinds, all patterns of distinct positions, four header styles, three entry orders, both storages, symbolic values",
           vec="0..3 rows, one or two columns, four header styles", roundtrip="shapes 0..3 x 0..3, all patterns, both storages, written sorted and unsorted", roundvec="0..3 entries; missing files",
           hostile="sizes -1..2 (thorough -1..3) and entry count -1..4, up to 3 entries with symbolic indices in [-1,4], file ending after any entry, all symmetry kinds, both storages",
           malformed="17 malformed headers and overlong tokens", garbled="small files with one arbitrary character replaced or cut at any place")
C17 = dict(wellformed=["row storage", "column storage", "symmetric kinds"], vec=["vector"], roundtrip=["row storage", "column storage"], roundvec=["vector"], hostile=["accepted", "refused", "cut short"], malformed=["refused", "overlong"], garbled=["accepted", "refused"])
IOT = ("wellformed", "vec", "roundtrip", "roundvec", "hostile", "malformed", "garbled")
P("P17", "symbolic execution of the Matrix Market reader and writer on an in-memory file holding symbolic numbers", [
    J(e + sfx, "h_io.cpp", e, B17[e] + t, defs=d + (["NN=2"] if e == "hostile" else []), cover=C17[e], shards=4 if e in ("wellformed", "hostile") else 2, **(dict(quick_only=True) if e == "hostile" else {})) for sfx, t, d in [("", ", double", []), ("_z", ", complex<double>", ["TA=zc"])] for e in IOT] + [
    J(e + "_s", "h_io.cpp", e, B17[e].replace("0..3", "0..2") + ", float", defs=["TA=float", "NN=2"], cover=C17[e]) for e in ("wellformed", "vec", "roundtrip", "roundvec")] + [
    J("hostile3" + sfx, "h_io.cpp", "hostile", B17["hostile"] + ", order up to 3", defs=d, cover=C17["hostile"], shards=8, thorough_only=True, time_t=800) for sfx, d in [("", []), ("_z", ["TA=zc"])]],
  ["C file functions and std::ofstream are replaced by an in-memory file (harness/memfile.hpp) with scanf semantics for the conversions used; symbolic numbers are single tokens of it, so decimal conversion itself is not modelled"])
B19 = dict(apply="orders 1..2, both storages, five ways of creating the factorization, four operations and Solve, 0..3 refinements, bounds and status on and off, four rank arguments, applied twice; symbolic matrix entries and vectors (concrete with residual bounds)",
           params="every position set to a symbolic value, alone and all together", handles="orders 1..2, every argument null", errors="null handles, unfactorized handles, one arbitrary offset or index in the matrix, mismatched sizes, recovery afterwards",
           oom="allocation of the handle and of the object fails", files="orders 0..2, all patterns, four symmetry kinds: query, allocate what was reported, read", vectors="0..2 entries, matching and mismatching sizes", badfiles="12 malformed or missing files")
C19 = dict(apply=["refined", "status", "dense last level", "transposed", "product"], params=["all", "unified setters"], handles=["empty matrix", "used"], errors=["malformed", "refinement", "was factorized"], oom=["object"], files=["mismatch", "symmetric"], vectors=["read"], badfiles=["message"])
K19 = [("d", ["KD"], "double"), ("s", ["KS"], "single"), ("z", ["KZ"], "double complex"), ("c", ["KC", "F2D"], "single complex"), ("sd", ["KSD"], "single factorization, double vectors"), ("cz", ["KCZ", "F2D"], "single complex factorization, double complex vectors")]
P("P19", "symbolic execution of the exported C functions against the C++ objects they wrap", [
    J(e + "_" + k, "h_capi.cpp", e, t + ": " + B19[e], defs=d, cover=[c for c in C19[e]], shards=4 if e == "apply" else 2 if e == "errors" else 1) for k, d, t in K19 for e in ("apply", "errors", "handles", "oom", "files", "vectors", "badfiles", "params") if not (k in ("sd", "cz") and e not in ("apply", "errors")) and not (e == "params" and k != "d")] + [
    J(e + "3_" + k, "h_capi.cpp", e, t + ": " + B19[e].replace("1..2", "1..3").replace("0..2", "0..3") + ", order up to 3", defs=d + ["NN=3"], cover=C19[e], **TH) for k, d, t in K19 for e in ("apply", "errors", "files") if not (k in ("sd", "cz") and e == "files")],
  ["the dense last level is the user-supplied solver type documented in Prec.hpp: exact elimination (see P18 for the built-in ones)", "the single complex variants are compiled with double in place of float (the source of the C layer is unchanged)", "malloc and free are counted and can be made to fail; C file functions are replaced by the in-memory file of P17"])
B20 = dict(part="all numbers of rows 0..255 and every row, 1..6 threads", spmv="0..5 rows of 44 entries (two per row symbolic) and nearly empty rows, 1..6 threads requested, teams of 1, 2 or all threads, both thread orders, single vector and two vectors, checked and unchecked entry points, row and column storage",
           drop="201 rows, up to six entries each, entries at the first thread boundary and in the last row symbolic, three limits for L and two for U, 1..6 threads, teams of 1, 2 or all threads", schur="201 rows, above 10000 entries in both offsets, symbolic entries at the first thread boundary and in the last row, 1..6 threads, teams of 1, 2 or all threads",
           threads="HIF_NUM_THREADS and OMP_NUM_THREADS each unset or one of six values, system default 1..3, 1..9 threads requested or the default")
C20 = dict(part=["several threads"], spmv=["fewer threads than requested", "more threads than rows", "uneven", "several vectors"], drop=["fewer threads than requested", "partitioned", "two threads", "sequential"], schur=["fewer threads than requested", "several threads"], threads=["requested"])
P("P20", "symbolic execution of the OpenMP regions: a team of simulated threads with happens-before race detection between barriers, compared with the sequential functions", [
    J(e + x, "h_mt.cpp", e, B20[e] + t, omp=True, defs=d, cover=C20[e], shards=n) for e, n in (("part", 8), ("spmv", 1), ("drop", 8), ("schur", 4), ("threads", 1)) for x, t, d in [("", ", double", []), ("_z", ", complex<double>", ["TA=zc"]), ("_sd", ", float matrix, double vectors", ["TA=float", "TX=double"])] if x == "" or e == "spmv" or (e == "schur" and x == "_z")] + [
    J("part_t", "h_mt.cpp", "part", "all numbers of rows 0..1023, 1..8 threads", omp=True, defs=["NPART=1023", "NT=8"], cover=C20["part"], shards=8, thorough_only=True, time_t=800)] + [
    J(e + "8", "h_mt.cpp", e, B20[e].replace("1..6", "1..12").replace("0..5 rows", "0..13 rows"), omp=True, defs=["NT=12", "NROW=13"], cover=C20[e], shards=8, thorough_only=True, time_t=800) for e in ("spmv", "drop", "schur")],
  ["threads of a team run one after the other from barrier to barrier, in ascending or descending order; any conflicting access of two threads between barriers is reported, so other interleavings give the same values", "the OpenMP runtime is replaced by a model of the entry points clang emits; nested regions have one thread"])
B21 = "nine matrices (orders 1..4: symmetric, upper triangular, zero pivots with a dense last level, automatic pivoting, dense only, symmetric leading block; failing at a later level, not square, broken arrays) given as CRS, CCS or raw arrays; entries and a right-hand side entry symbolic in eight of them; operations: factorize each, clear, solve, product and refinement (plain and transposed), one, two and three right-hand sides"
C21 = ["cleared", "factorized again", "failed", "failed at a later level", "refused", "used after other operations", "used again"]
P("P21", "symbolic execution of every sequence of operations on one preconditioner object, compared with an object that only saw the last matrix", [
    J("seq3" + x, "h_hist.cpp", "hist", "all sequences of 3 operations" + t + "; " + B21, defs=d + ["STEPS=3"], cover=C21, shards=4, quick_only=x == "") for x, t, d in [("", ", double", []), ("_z", ", complex<double>", ["TA=zc"]), ("_sd", ", float factorization, double vectors", ["TA=float", "TX=double"]), ("_s", ", float", ["TA=float"])]] + [
    J("seq4conc", "h_hist.cpp", "hist", "all sequences of 4 operations including refinement with residual bounds, concrete entries; " + B21, defs=["STEPS=4", "CONC=1"], cover=C21, shards=8),
    J("seq4", "h_hist.cpp", "hist", "all sequences of 4 operations, double, entries in [-1,1]; " + B21, defs=["STEPS=4", "AR=1"], cover=C21, shards=8, thorough_only=True, time_t=800),
    J("seq5conc", "h_hist.cpp", "hist", "all sequences of 5 operations, concrete entries; " + B21, defs=["STEPS=5", "CONC=1"], cover=C21, shards=8, thorough_only=True, time_t=800)],
  ["the dense last level is the user-supplied solver type documented in Prec.hpp (exact elimination)", "allocation failures inside the factorization are not explored"])
B12 = dict(match="all patterns including explicit zeros", sym="all symmetric patterns including explicit zeros, with and without a trailing offset row", order="orders 1..3 all patterns (symmetric ones with a zero diagonal), four reorderings, with and without an offset row",
           paths="matrices with long augmenting paths and ties", big="forests (with and without a vertex of high degree), random symmetric and unsymmetric graphs of 22 and 66 vertices, three reorderings, with and without offset rows, one symbolic entry")
P("P12", "symbolic execution of the preprocessing templates over an exact number type whose values are powers of two with symbolic exponents", [
    J("match2", "h_pre.cpp", "match", "orders 1..2, all exponents in [-6,6] symbolic: " + B12["match"], defs=["NMAX=2"], cover=["deferred", "explicit zero", "matched", "structurally singular", "nothing stored"], shards=4),
    J("match3", "h_pre.cpp", "match", "order 3, two symbolic exponents in [-6,6] at three placements, the others fixed: " + B12["match"], defs=["NMAX=3", "MINN=3", "SYMS=2"], cover=["deferred", "explicit zero", "matched", "structurally singular"], shards=8, quick_only=True),
    J("matchsym2", "h_pre.cpp", "matchsym", "orders 1..2, all exponents symbolic: " + B12["sym"], defs=["NMAX=2", "ZR=3"], cover=["deferred", "structurally singular", "offset"], shards=2),
    J("matchsym3", "h_pre.cpp", "matchsym", "order 3, two symbolic exponents at three placements: " + B12["sym"], defs=["NMAX=3", "MINN=3", "SYMS=2"], cover=["deferred", "structurally singular", "offset"], shards=8),
    J("levels", "h_pre.cpp", "levels", "order 3, with and without an offset row, four patterns, exponents in [-3,3] and [-40,40], one symbolic at three placements, three balance limits, level 2", defs=["NMAX=3", "SYMS=1"], cover=["deferred", "matched"], shards=4),
    J("levels4", "h_pre.cpp", "levels", "as levels, order 4", defs=["NMAX=4", "SYMS=1"], cover=["deferred", "matched"], shards=4),
    J("iter", "h_pre.cpp", "iter", "order 2, all patterns with explicit zeros, exponents -8, 0, 8, iterative scaling before matching", cover=["symmetric", "deferred"]),
    J("order3", "h_pre.cpp", "order", "all off-diagonal exponents in [-3,-1] symbolic: " + B12["order"], cover=["bandwidth reduction", "forest", "matched", "deferred"], shards=8),
    J("order5", "h_pre.cpp", "order", "orders 1..5, all symmetric patterns, four reorderings, with and without an offset row, one symbolic exponent", defs=["NMAX=5", "SYMS=1", "SPINS=1"], cover=["bandwidth reduction", "forest"], shards=8),
    J("paths5", "h_pre.cpp", "paths", "order 5, 12 dense and 12 sparse matrices with two symbolic exponents in [-14,14]: " + B12["paths"], defs=["NMAX=5", "NSYM=2"], cover=["matched"], shards=8),
    J("paths7", "h_pre.cpp", "paths", "order 7, 6 dense and 6 sparse matrices with two symbolic exponents in [-14,14]: " + B12["paths"], defs=["NMAX=7", "NSYM=2", "SEEDS=6"], cover=["matched"], shards=8),
    J("big", "h_pre.cpp", "big", "4 seeds: " + B12["big"], cover=["forest", "more than one word of flags"], shards=4, quick_only=True),
    J("bigt", "h_pre.cpp", "big", "40 seeds: " + B12["big"], defs=["BIGSEED=40"], cover=["forest", "more than one word of flags"], **TH),
    J("match3t", "h_pre.cpp", "match", "order 3, three symbolic exponents at three placements: " + B12["match"], defs=["NMAX=3", "MINN=3", "SYMS=3"], cover=["deferred", "explicit zero", "matched", "structurally singular"], **TH),
    J("match4t", "h_pre.cpp", "match", "order 4, one symbolic exponent at two placements, all patterns without explicit zeros", defs=["NMAX=4", "MINN=4", "SYMS=1", "SPINS=2", "ZR=0"], cover=["deferred", "matched", "structurally singular"], **TH),
    J("matchsym4t", "h_pre.cpp", "matchsym", "order 4, one symbolic exponent at two placements: " + B12["sym"], defs=["NMAX=4", "MINN=4", "SYMS=1", "SPINS=2"], cover=["deferred", "structurally singular", "offset"], **TH),
    J("levelst", "h_pre.cpp", "levels", "as levels, two symbolic exponents", defs=["NMAX=3", "SYMS=2"], cover=["deferred", "matched"], **TH),
    J("order6t", "h_pre.cpp", "order", "orders 1..6, all symmetric patterns, four reorderings", defs=["NMAX=6", "SYMS=1", "SPINS=1"], cover=["bandwidth reduction", "forest"], **TH),
    J("paths7t", "h_pre.cpp", "paths", "order 7, 6 dense and 6 sparse matrices with three symbolic exponents in [-14,14]: " + B12["paths"], defs=["NMAX=7", "NSYM=3", "SEEDS=6"], cover=["matched"], **TH)],
  ["matrix entries are non-negative powers of two or explicit zeros (the matching only looks at magnitudes); exp, log and sqrt are exact on them, so rounding of the logarithms is not modelled"])
