"""What each check explores: entry points of the harness crate, with their parameters.

A job is one run of the symbolic executor on one entry point. Encodings: w4 and w64 are the crate with
nodes of 4 (hook `librrb_verif_width`) and of 64 elements (as shipped), both with debug assertions and
overflow checks; w4r and w64r are the same without either, as in a release build.

Of the parameters, 0 is how the vector under test was built (18 ways in harness/src/model.rs, 6 in
hist.rs), 1 and 2 the range of its sizes; see each entry point for the others.
"""
ALL = range(18)
SIX = range(6)
# ways of building that differ most from one another at width 64
SOME = (0, 1, 2, 4, 6, 8, 11, 12, 13, 15)
FEW = (0, 2, 7, 12)


def J(entry, cfg, *params, cost=1, covers=(1,), **kw):
    return dict(entry=entry, cfg=cfg, params=list(params), cost=cost, covers=list(covers), **kw)


def each(kinds, entry, cfg, *params, **kw):
    return [J(entry, cfg, k, *params, **kw) for k in kinds]


def release(jobs):
    """The same on the code as a release build compiles it."""
    return [dict(j, cfg=j["cfg"] + "r") for j in jobs]


# Entry points that start threads.
THREADED = {"h23_parts", "h23_parts_shared", "h23_parts_ts", "h23_clones", "h23_read", "h23_sendable"}

ASSUMPTIONS = [
    "rustc 1.99.1's translation of the source to LLVM IR (debug profile, MIR inlining) and the IR's early simplification by opt "
    "(internalize, globaldce, sroa, early-cse) are trusted; counterexamples are confirmed natively before they are reported",
    "the symbolic executor in /verif/engine and Z3 4.8 are trusted; explored paths are re-run natively in every check as a test of that",
    "Vec, Rc, Arc, slices and the allocator's interface are executed as compiled from the standard library; allocation itself never fails",
    "no reference counts near overflow; one thread, but in C23",
    "width 4 is the crate's own source with another value of RRB_WIDTH (the hook); behaviour that depends on the width is checked at 64 "
    "within the smaller bounds stated",
]

PROPS = {}


def prop(pid, quick, thorough, bounds, outside, assumptions=()):
    PROPS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, assumptions=list(assumptions))


BIG = "longer vectors, deeper trees and longer histories than those"

# ---------------------------------------------------------------------------------------------- C01
prop("C01",
     lambda: each(ALL, "h01_deque", "w4", 0, 22, 2, 5, 1, cost=8) + each(ALL, "h01_drain", "w4", 0, 40, cost=2)
     + each(SOME, "h01_deque", "w64", 62, 66, 2, 3, 8, cost=2) + each(SOME, "h01_deque", "w64", 126, 130, 1, 4, 4, cost=2)
     + each(FEW, "h01_drain", "w64", 126, 131, cost=2)
     + each(ALL, "h01_drain", "w4", 100, 100, cost=1),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h01_deque", "w4", 0, 40, 2, 6, 1, cost=25) + each(ALL, "h01_deque", "w4", 0, 14, 3, 4, 1, cost=40)
         + each(ALL, "h01_drain", "w4", 0, 80, cost=5) + each(ALL, "h01_deque", "w64", 60, 68, 2, 6, 8, cost=20)
         + each(ALL, "h01_deque", "w64", 124, 132, 2, 6, 16, cost=60) + each(ALL, "h01_drain", "w64", 120, 200, cost=20)
         + each(FEW, "h01_deque", "w64", 4095, 4097, 1, 3, 64, cost=60)),
     "width 4: 18 ways of building, sizes 0..22, 2 rounds of up to 5 equal end operations (symbolic count), drains of 0..40; width 64: sizes "
     "62..66 and 126..130. Taller trees: drains of 100. Thorough: sizes 0..40, 3 rounds, drains to 80; width 64 to 200 and at 4095..4097",
     BIG)

# ---------------------------------------------------------------------------------------------- C02
prop("C02",
     lambda: each(ALL, "h02_concat", "w4", 0, 17, 8, 0, 17, cost=6) + each(ALL, "h02_concat3", "w4", 0, 7, 3, 0, 7, cost=3)
     + each(ALL, "h02_concat", "w4", 18, 26, 12, 5, 9, cost=2)
     + each(SOME, "h02_concat", "w64", 31, 33, 8, 62, 66, cost=1) + each(SOME, "h02_concat", "w64", 126, 128, 2, 127, 129, cost=2)
     + each(FEW, "h02_concat", "w64", 200, 200, 4, 64, 66, cost=2)
     + each(SOME, "h02_concat", "w4", 90, 91, 12, 0, 12, cost=9) + each(ALL, "h02_concat", "w4", 3, 9, 12, 84, 86, cost=6),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h02_concat", "w4", 0, 30, 8, 0, 30, cost=20) + each(ALL, "h02_concat", "w4", 0, 30, 12, 0, 30, cost=20)
         + each(ALL, "h02_concat", "w4", 0, 30, 2, 0, 30, cost=20) + each(ALL, "h02_concat3", "w4", 0, 12, 3, 0, 12, cost=10)
         + each(ALL, "h02_concat3", "w4", 0, 12, 13, 0, 12, cost=10)
         + each(ALL, "h02_concat", "w64", 60, 66, 8, 60, 66, cost=6) + each(ALL, "h02_concat", "w64", 126, 130, 2, 126, 130, cost=6)
         + each(FEW, "h02_concat", "w64", 4096, 4097, 0, 126, 129, cost=30)),
     "width 4: 18 ways of building x sizes 0..17 on either side (18..26 with 5..9), chains of 3 concatenations of up to 7; width 64: 31..33 "
     "with 62..66, 126..128 with 127..129, 200 with 64..66. Taller trees: 90..91 with 0..12, 3..9 with 84..86. Thorough: sizes to 30 and 4097",
     BIG)

# ---------------------------------------------------------------------------------------------- C03
prop("C03",
     lambda: each(ALL, "h03_split", "w4", 0, 22, cost=7) + each(ALL, "h03_slice", "w4", 0, 14, cost=5)
     + each(ALL, "h03_split_many", "w4", 0, 12, 2, cost=3)
     + each(SOME, "h03_split", "w64", 66, 66, cost=8) + each(FEW, "h03_split", "w64", 129, 129, cost=20)
     + each(SOME, "h03_split", "w4", 84, 84, cost=14),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h03_split", "w4", 0, 44, cost=50) + each(ALL, "h03_slice", "w4", 0, 24, cost=25)
         + each(ALL, "h03_split_many", "w4", 0, 14, 3, cost=60) + each(ALL, "h03_split", "w64", 64, 67, cost=30)
         + each(ALL, "h03_split", "w64", 129, 130, cost=90) + each(SOME, "h03_slice", "w64", 66, 66, cost=40)),
     "width 4: 18 ways of building, sizes 0..22 split at every position and beyond, 0..14 for slices by every kind of range, 2 splits in "
     "a row up to 12; width 64: sizes 66 and 129. Taller trees: one split of 84. Thorough: sizes to 44, 3 splits in a row, width 64 to 130",
     BIG)

# ---------------------------------------------------------------------------------------------- C04
prop("C04",
     lambda: each(ALL, "h04_insert", "w4", 0, 24, 1, cost=5) + each(ALL, "h04_remove", "w4", 0, 26, 1, cost=5)
     + each(ALL, "h04_insert_remove", "w4", 0, 13, cost=3) + each(FEW, "h04_insert", "w4", 3, 9, 2, cost=5)
     + each(FEW, "h04_remove", "w4", 3, 11, 2, cost=5)
     + each(SOME, "h04_insert", "w64", 66, 66, 1, cost=4) + each(SOME, "h04_remove", "w64", 129, 129, 1, cost=5)
     + each(SOME, "h04_insert", "w4", 70, 70, 1, cost=8) + each(SOME, "h04_remove", "w4", 70, 70, 1, cost=8),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h04_insert", "w4", 0, 60, 1, cost=25) + each(ALL, "h04_remove", "w4", 0, 60, 1, cost=25)
         + each(ALL, "h04_insert_remove", "w4", 0, 26, cost=20) + each(ALL, "h04_insert", "w4", 0, 14, 2, cost=40)
         + each(ALL, "h04_remove", "w4", 0, 16, 2, cost=40)
         + each(ALL, "h04_insert", "w64", 64, 67, 1, cost=15) + each(ALL, "h04_remove", "w64", 127, 131, 1, cost=25)),
     "width 4: 18 ways of building, sizes 0..24 (26 to remove), every position, one operation; 0..13 an insertion and a removal; 4 ways, 3..11, two in a row; width "
     "64: sizes 66 and 129. Taller trees: one at every position of 70. Thorough: sizes to 60, two in a row to 16",
     BIG)

# ---------------------------------------------------------------------------------------------- C05
prop("C05",
     lambda: each(ALL, "h05_get", "w4", 0, 40, cost=1, covers=(1, 2)) + each(ALL, "h05_write", "w4", 0, 18, cost=6)
     + each(ALL, "h05_writes", "w4", 0, 10, 2, cost=1)
     + each(SOME, "h05_get", "w64", 126, 132, cost=6, covers=(1, 2)) + each(FEW, "h05_write", "w64", 66, 66, cost=20)
     + each(ALL, "h05_get", "w4", 120, 120, cost=1, covers=(1, 2)) + each(SOME, "h05_write", "w4", 70, 70, cost=5),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h05_get", "w4", 0, 80, cost=5, covers=(1, 2)) + each(ALL, "h05_write", "w4", 0, 40, cost=40)
         + each(ALL, "h05_writes", "w4", 0, 14, 3, cost=10)
         + each(ALL, "h05_get", "w64", 120, 200, cost=40, covers=(1, 2)) + each(ALL, "h05_write", "w64", 130, 130, cost=30)
         + each(FEW, "h05_get", "w64", 4097, 4097, cost=60, covers=(1, 2))),
     "index and value symbolic (64 bits). Width 4: 18 ways of building, sizes 0..40 read, 0..18 written; width 64: 126..132 read, 66 "
     "written. Taller trees: 120 read, 70 written. Thorough: 80, 40; width 64: 200 and 4097, 130",
     BIG)

# ---------------------------------------------------------------------------------------------- C06
prop("C06",
     lambda: each(SIX, "h19_history", "w4", 0, 12, 1, 1, 0, 0, 0, cost=3)
     + [J("h19_history", "w4", k, n, n, 1, 1, 0, 0, 0, cost=5) for k in SIX for n in (16, 21, 27, 40)] + each(SIX, "h19_history", "w4", 6, 6, 2, 1, 0, 0, 3, cost=10)
     + each(SIX, "h19_history_ts", "w4", 5, 5, 2, 1, 0, 0, 3, cost=10)
     + each(SIX, "h19_history", "w64", 66, 66, 1, 1, 0, 0, 16, cost=2) + each(SIX, "h19_history_ts", "w64", 129, 129, 1, 1, 0, 0, 32, cost=2)
     + each(SIX, "h19_history", "w4", 70, 70, 1, 1, 0, 0, 6, cost=3),
     lambda: [J("h19_history", "w4", k, n, n, 2, 1, op, 0, 4, cost=10) for k in SIX for n in (5, 9, 14) for op in range(1, 25)]
     + each(SIX, "h19_history_ts", "w4", 0, 16, 1, 1, 0, 0, 0, cost=5) + each(SIX, "h19_history", "w4", 0, 24, 1, 1, 0, 0, 0, cost=10)
     + [J("h19_history", "w64", k, n, n, 1, 1, 0, 0, 16, cost=8) for k in SIX for n in (64, 65, 128, 129, 200, 4100)],
     "every history of one operation of 24 kinds with a clone before it (width 4: 6 ways of building, sizes 0..12, 16, 21, 27, 40; width 64: 66 and 129), "
     "and of two, each after a clone (size 5 or 6); positions thinned to the ends and multiples of 3 (two operations) or 16 (width 64). "
     "Taller trees: 70, thinned. Thorough: sizes 5, 9 and 14 of two operations, 0..24 of one; width 64 to 4100",
     BIG + "; positions left out by the thinning in the longer histories")

# ---------------------------------------------------------------------------------------------- C07
prop("C07",
     lambda: each(ALL, "h07_iter", "w4", 0, 30, 4, cost=1) + each(ALL, "h07_iter", "w4", 0, 9, 6, cost=2)
     + each(ALL, "h07_iter_mut", "w4", 0, 24, 4, cost=1) + each(ALL, "h07_into_iter", "w4", 0, 30, 4, cost=1)
     + each(ALL, "h07_adapters", "w4", 0, 24, cost=4)
     + each(SOME, "h07_iter", "w64", 126, 131, 3, cost=2) + each(SOME, "h07_iter_mut", "w64", 130, 130, 3, cost=1)
     + each(SOME, "h07_into_iter", "w64", 126, 131, 3, cost=1) + each(SOME, "h07_adapters", "w64", 66, 66, cost=2)
     + each(ALL, "h07_clone", "w4", 0, 12, cost=1) + each(FEW, "h07_clone", "w64", 66, 66, cost=5)
     + each(ALL, "h07_iter", "w4", 90, 90, 4, cost=1) + each(ALL, "h07_iter_mut", "w4", 70, 70, 4, cost=1) + each(ALL, "h07_into_iter", "w4", 90, 90, 4, cost=1),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h07_iter", "w4", 0, 70, 4, cost=5) + each(ALL, "h07_iter", "w4", 0, 12, 6, cost=20)
         + each(ALL, "h07_iter_mut", "w4", 0, 60, 4, cost=5) + each(ALL, "h07_iter_mut", "w4", 0, 11, 6, cost=20)
         + each(ALL, "h07_into_iter", "w4", 0, 70, 4, cost=5) + each(ALL, "h07_into_iter", "w4", 0, 12, 6, cost=20)
         + each(ALL, "h07_adapters", "w4", 0, 50, cost=20) + each(ALL, "h07_clone", "w4", 0, 40, cost=5)
         + each(SOME, "h07_clone", "w64", 130, 130, cost=60)
         + each(ALL, "h07_iter", "w64", 120, 200, 3, cost=20) + each(ALL, "h07_iter_mut", "w64", 126, 140, 3, cost=10)
         + each(ALL, "h07_into_iter", "w64", 120, 200, 3, cost=20) + each(ALL, "h07_adapters", "w64", 64, 130, cost=60)),
     "width 4: 18 ways of building, sizes 0..30 walked from the front, the back and two ways alternating, 0..9 in every "
     "interleaving of both ends; width 64: sizes to 131. Taller trees: 70 and 90 elements. Thorough: 70, 12; width 64 to 200",
     BIG)

# ---------------------------------------------------------------------------------------------- C08
prop("C08",
     lambda: each(ALL, "h08_reads", "w4", 0, 20, 2, cost=2) + each(ALL, "h08_any_index", "w4", 0, 11, cost=2)
     + each(ALL, "h08_narrow", "w4", 0, 8, cost=4) + each(ALL, "h08_split", "w4", 0, 9, cost=3)
     + each(ALL, "h08_no_widening", "w4", 0, 8, cost=6) + each(FEW, "h08_reads", "w4", 6, 12, 3, cost=6)
     + each(SOME, "h08_reads", "w64", 66, 66, 2, cost=3) + each(FEW, "h08_reads", "w64", 130, 130, 1, cost=3)
     + each((0, 2, 12), "h08_history", "w4", 0, 12, 2, cost=25)
     + each(ALL, "h08_reads", "w4", 70, 70, 1, cost=1) + each(ALL, "h08_reads", "w4", 45, 45, 2, cost=1),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h08_reads", "w4", 0, 40, 2, cost=20) + each(ALL, "h08_reads", "w4", 0, 16, 3, cost=40)
         + each(ALL, "h08_any_index", "w4", 0, 24, cost=20) + each(ALL, "h08_narrow", "w4", 0, 12, cost=20)
         + each(ALL, "h08_split", "w4", 0, 14, cost=20) + each(ALL, "h08_no_widening", "w4", 0, 14, cost=40)
         + each(ALL, "h08_reads", "w64", 130, 130, 2, cost=30) + each(ALL, "h08_any_index", "w64", 66, 66, cost=60)
         + each(ALL, "h08_history", "w4", 0, 14, 2, cost=60) + each(FEW, "h08_history", "w4", 6, 6, 3, cost=200)),
     "width 4: 18 ways of building, sizes 0..20 two reads in any order (4 ways, to 12: three), 0..11 any 64-bit index of a focus narrowed to any "
     "range, 0..9 narrowed and split twice; width 64: sizes 66 and 130. Taller trees: one read of 70, two of 45. Thorough: 40, 24, 14; width 64: 130",
     BIG)

# ---------------------------------------------------------------------------------------------- C09
prop("C09",
     lambda: each(ALL, "h09_writes", "w4", 0, 13, 2, cost=5) + each(ALL, "h09_split", "w4", 0, 9, 2, cost=4)
     + each(ALL, "h09_both", "w4", 0, 11, cost=5) + each(ALL, "h09_after", "w4", 0, 24, cost=2) + each(ALL, "h09_range", "w4", 0, 20, cost=1)
     + each(SOME, "h09_writes", "w64", 66, 66, 1, cost=2) + each(SOME, "h09_after", "w64", 130, 130, cost=3)
     + each(FEW, "h09_both", "w64", 18, 18, cost=5)
     + each(ALL, "h09_writes", "w4", 70, 70, 1, cost=1) + each(ALL, "h09_split", "w4", 40, 40, 1, cost=1) + each(ALL, "h09_after", "w4", 80, 80, cost=1),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h09_writes", "w4", 0, 28, 2, cost=30) + each(ALL, "h09_writes", "w4", 0, 9, 3, cost=30)
         + each(ALL, "h09_split", "w4", 0, 14, 2, cost=20)
         + each(ALL, "h09_split", "w4", 0, 7, 3, cost=40) + each(ALL, "h09_both", "w4", 0, 24, cost=30)
         + each(ALL, "h09_after", "w4", 0, 60, cost=10) + each(ALL, "h09_range", "w4", 0, 60, cost=5)
         + each(ALL, "h09_writes", "w64", 130, 130, 1, cost=10) + each(ALL, "h09_after", "w64", 126, 131, cost=20)
         + each(SOME, "h09_both", "w64", 66, 66, cost=120)),
     "width 4: 18 ways of building, sizes 0..13 two reads or writes in any order, 0..9 split twice, 0..11 both parts in use at once, 0..24 used "
     "afterwards; width 64: sizes 66 and 130. Taller trees: one write of 70, 80 used afterwards. Thorough: 28, 14, 24, 60",
     BIG)

# ---------------------------------------------------------------------------------------------- C10
prop("C10",
     lambda: each(ALL, "h10_sort", "w4", 0, 4, 8, 5, 3, cost=5) + each(ALL, "h10_sort_pattern", "w4", 0, 12, 1, 0, 3, cost=6)
     + each(FEW, "h10_sort", "w4", 5, 6, 2, 0, 1, cost=6)
     + [J("h10_sort_equal", "w4", 0, 2000, cost=2), J("h10_sort_equal", "w64", 0, 5000, cost=4)]
     + each(FEW, "h10_sort_pattern", "w64", 66, 66, 1, 0, 1, cost=10),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h10_sort", "w4", 0, 5, 8, 5, 3, cost=45) + each(FEW, "h10_sort", "w4", 6, 6, 3, 0, 2, cost=100)
         + each(ALL, "h10_sort_pattern", "w4", 0, 24, 1, 0, 3, cost=40) + each(ALL, "h10_sort_pattern", "w4", 0, 9, 2, 0, 2, cost=40)
         + [J("h10_sort_equal", "w4", 0, 5000, cost=5), J("h10_sort_equal", "w64", 0, 20000, cost=10)]
         + each(ALL, "h10_sort_pattern", "w64", 70, 70, 1, 0, 3, cost=30)),
     "width 4: 18 ways of building, sizes 0..4 of symbolic bytes, every range; 5..6 of 2-bit elements; 0..12 in patterns with one symbolic element; "
     "2000 equal elements (width 64: 5000); width 64: 66 with one symbolic element. Thorough: 5 bytes, 6 of 3 bits, 24, 20000",
     "longer sequences of unrelated symbolic elements")

# ---------------------------------------------------------------------------------------------- C11
prop("C11",
     lambda: each(ALL, "h11_dual", "w4", 0, 4, 8, 5, 3, 8, cost=7) + each(ALL, "h11_dual_pattern", "w4", 0, 11, 1, 0, 3, 5, cost=8)
     + each(FEW, "h11_dual", "w4", 5, 5, 2, 0, 1, 2, cost=5) + each(FEW, "h11_dual_pattern", "w64", 66, 66, 1, 0, 1, 8, cost=12),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h11_dual", "w4", 0, 5, 8, 5, 3, 8, cost=60) + each(ALL, "h11_dual", "w4", 0, 5, 8, 5, 1, 12, cost=60)
         + each(ALL, "h11_dual_pattern", "w4", 0, 20, 1, 0, 3, 5, cost=40) + each(SOME, "h11_dual_pattern", "w64", 70, 70, 1, 0, 3, 8, cost=40)),
     "width 4: 18 ways of building, sizes 0..4 of symbolic bytes, every range, companion built otherwise; 5 of 2 bits; 0..11 in patterns with one "
     "symbolic element; width 64: 66. Thorough: 5 bytes, 20",
     "longer sequences of unrelated symbolic elements")

# ---------------------------------------------------------------------------------------------- C12
prop("C12",
     lambda: each(ALL, "h12_equal_range", "w4", 0, 5, 8, 5, cost=7, covers=(1,)) + each(ALL, "h12_for_index", "w4", 0, 5, 8, 5, cost=6)
     + each(ALL, "h12_runs", "w4", 0, 13, cost=9) + each(FEW, "h12_runs", "w64", 20, 20, cost=8)
     + each(ALL, "h12_long", "w4", 24, 24, 0, cost=1) + each(ALL, "h12_long", "w64", 200, 200, 1, cost=3),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h12_equal_range", "w4", 0, 7, 8, 5, cost=30) + each(ALL, "h12_for_index", "w4", 0, 6, 8, 5, cost=30)
         + each(ALL, "h12_runs", "w4", 0, 24, cost=50) + each(SOME, "h12_runs", "w64", 66, 66, cost=90)
         + each(ALL, "h12_long", "w4", 0, 80, 0, cost=20) + each(ALL, "h12_long", "w64", 100, 300, 1, cost=60)
         + each(SOME, "h12_long", "w64", 200, 200, 0, cost=60)),
     "width 4: 18 ways of building, sizes 0..5 of symbolic sorted bytes, every range and key; 0..13 in three runs of symbolic lengths; width 64: "
     "20. Thorough: 7, 24; width 64: 66",
     "longer sequences of more than three runs")

# ---------------------------------------------------------------------------------------------- C13
prop("C13",
     lambda: each(ALL, "h13_between", "w4", 0, 4, 8, 5, cost=3) + each(FEW, "h13_between", "w4", 5, 6, 8, 0, cost=5)
     + each(FEW, "h13_between", "w64", 3, 3, 8, 5, cost=2)
     + each(FEW, "h13_long", "w4", 24, 24, 5, cost=6) + each((0, 2), "h13_long", "w64", 200, 200, 70, cost=17),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h13_between", "w4", 0, 6, 8, 5, cost=30) + each(FEW, "h13_between", "w4", 7, 8, 8, 0, cost=60)
         + each(ALL, "h13_long", "w4", 24, 40, 5, cost=60) + each(SOME, "h13_long", "w64", 200, 200, 70, cost=30)
         + each(FEW, "h13_long", "w64", 300, 300, 20, cost=60)),
     "width 4: 18 ways of building, sizes 0..4 of symbolic sorted bytes, every pair of bounds of every kind and every range (5..6: the whole). "
     "Thorough: 6, 8",
     "longer sequences")

# ---------------------------------------------------------------------------------------------- C14
prop("C14",
     lambda: each(ALL, "h14_order", "w4", 0, 4, 8, 0, 0, 12, 0, 4, cost=3) + each(ALL, "h14_order", "w4", 5, 5, 8, 0, 0, 2, 4, 6, cost=3)
     + each(ALL, "h14_hash", "w4", 0, 26, 0, 0, 0, 3, cost=2) + [J("h14_partial", "w4", 0, 0, 3, cost=2)]
     + each(SOME, "h14_hash", "w64", 130, 130, 0, 0, 0, 12, cost=2),
     lambda: (lambda js: js + release(js))(
         [J("h14_order", "w4", k, 0, 6, 8, 0, 0, k2, 0, 6, cost=8) for k in ALL for k2 in (0, 2, 7, 12)]
         + [J("h14_hash", "w4", k, 0, 50, 0, 0, 0, k2, cost=8) for k in ALL for k2 in (1, 3, 12)] + [J("h14_partial", "w4", 0, 0, 4, cost=20)]
         + each(ALL, "h14_hash", "w64", 126, 140, 0, 0, 0, 12, cost=20)),
     "width 4: 18 ways of building compared with two others, sizes 0..6 of symbolic bytes; hashes of 0..26 symbolic differences; width 64: 130. "
     "Thorough: four others, 6 with 6; hashes to 50",
     BIG)

# ---------------------------------------------------------------------------------------------- C15
prop("C15",
     lambda: each(SIX, "h15_owned", "w4", 0, 9, 0, 0, 0, cost=6) + each(SIX, "h15_owned_ts", "w4", 0, 7, 0, 0, 0, cost=5)
     + each(SIX, "h15_owned", "w4", 13, 17, 0, 0, 0, 0, 4, cost=6) + [J("h15_owned", "w4", k, n, n, 0, 0, 0, 0, 4, cost=6) for k in SIX for n in (24, 37)]
     + each(SIX, "h15_owned", "w64", 66, 66, 0, 0, 0, 0, 16, cost=3) + each(SIX, "h15_owned_ts", "w64", 130, 130, 0, 0, 0, 0, 32, cost=3)
     + each(SIX, "h15_owned", "w4", 70, 70, 0, 0, 0, 0, 6, cost=8)
     + each(SIX, "h15_forgotten", "w4", 0, 13, 0, 0, 0, cost=2) + each(SIX, "h15_forgotten_ts", "w4", 0, 9, 0, 0, 0, cost=2)
     + each(SIX, "h15_forgotten", "w64", 66, 66, 0, 0, 0, 0, 16, cost=2),
     lambda: (lambda js: js + release(js))(
         each(SIX, "h15_owned", "w4", 0, 24, 0, 0, 0, cost=60) + each(SIX, "h15_owned_ts", "w4", 0, 16, 0, 0, 0, cost=30)
         + each(SIX, "h15_forgotten", "w4", 0, 30, 0, 0, 0, cost=20) + each(SIX, "h15_forgotten_ts", "w4", 0, 20, 0, 0, 0, cost=10)
         + [J("h15_owned", "w64", k, n, n, 0, 0, 0, 0, 16, cost=8) for k in SIX for n in (64, 65, 128, 129, 200)]),
     "width 4: 6 ways of building, sizes 0..9 (13..17, 24 and 37 with positions thinned to the ends and multiples of 4), each of 24 operations, dropped in each order with "
     "a clone; width 64: 66 and 130, thinned. Taller trees: 70, thinned. Foci and iterators forgotten: sizes 0..13, width 64: 66. Thorough: 24 (30 forgotten); width 64 to 200",
     BIG)

# ---------------------------------------------------------------------------------------------- C16
prop("C16",
     lambda: each(SIX, "h16_invariants", "w4", 0, 22, 1, 1, 0, cost=5) + each(SIX, "h16_invariants", "w4", 6, 6, 2, 0, 0, 0, 3, cost=9)
     + each(SIX, "h16_invariants_ts", "w4", 0, 12, 1, 0, 0, cost=2) + each(SIX, "h16_steps", "w4", 3, 8, 2, 5, cost=5)
     + each(SIX, "h16_invariants", "w64", 66, 66, 1, 0, 0, 0, 8, cost=2) + each(SIX, "h16_invariants", "w64", 130, 130, 1, 0, 0, 0, 16, cost=2)
     + each(SIX, "h16_steps", "w64", 62, 66, 2, 3, cost=2)
     + [J("h16_concat_height", "w64", 0, 2, 2, 400, m, cost=2, covers=()) for m in range(3)]
     + each(SIX, "h16_invariants", "w4", 80, 80, 1, 0, 0, 0, 6, cost=3) + each(range(6), "h16_long", "w4", 290, 292, cost=1) + each((0, 1, 2), "h16_long", "w4", 2000, 2000, cost=1)
     + each((0, 1, 2, 5), "h16_long", "w64", 5000, 5000, cost=2) + each(range(4, 12), "h16_long", "w64", 400, 400, cost=3),
     lambda: (lambda js: js + release(js))(
         each(SIX, "h16_invariants", "w4", 0, 44, 1, 1, 0, cost=30)
         + [J("h16_invariants", "w4", k, n, n, 2, 0, op, 0, 4, cost=10) for k in SIX for n in (5, 9, 14, 21) for op in range(1, 25)]
         + each(SIX, "h16_steps", "w4", 0, 14, 2, 9, cost=40)
         + [J("h16_invariants", "w64", k, n, n, 1, 0, 0, 0, 16, cost=8) for k in SIX for n in (64, 65, 128, 129, 200, 4095, 4100)]
         + each(SIX, "h16_steps", "w64", 60, 68, 2, 6, cost=10)
         + [J("h16_concat_height", "w64", 0, 2, 2, 400, m, cost=2, covers=()) for m in range(3)]
         + each(range(6), "h16_long", "w4", 5000, 5001, cost=5) + each((0, 1, 2, 3, 4, 5, 10), "h16_long", "w64", 20000, 20000, cost=5)
         + each((6, 7, 8, 9, 11), "h16_long", "w64", 2000, 2000, cost=30)),
     "width 4: 6 ways of building, sizes 0..22 one operation of 24 kinds, 6 two (thinned to multiples of 3), 3..8 two rounds of up to 5 steps; width 64: 66 "
     "and 130. 400 concatenations of pairs at width 64. Taller trees: 80, thinned; long histories of twelve fashions (290..5000 steps). Thorough: 44, 21; width 64 to 4100",
     BIG,
     ["the tree's own invariants are those that the crate's assert_invariants states (through the hook)"])

# ---------------------------------------------------------------------------------------------- C17
prop("C17",
     lambda: each(ALL, "h17_index", "w4", 0, 24, cost=1) + each(ALL, "h17_split", "w4", 0, 24, cost=1)
     + each(ALL, "h17_range", "w4", 0, 9, cost=5, covers=(1, 2)) + each(ALL, "h17_companion", "w4", 0, 9, 13, cost=1, covers=(1, 2))
     + each(ALL, "h17_empty", "w4", 0, 9, cost=1) + each(SOME, "h17_index", "w64", 126, 130, cost=3) + each(SOME, "h17_split", "w64", 126, 130, cost=2),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h17_index", "w4", 0, 50, cost=5) + each(ALL, "h17_split", "w4", 0, 50, cost=5)
         + each(ALL, "h17_range", "w4", 0, 16, cost=30, covers=(1, 2)) + each(ALL, "h17_companion", "w4", 0, 14, 20, cost=5, covers=(1, 2))
         + each(ALL, "h17_empty", "w4", 0, 20, cost=2) + each(ALL, "h17_index", "w64", 120, 140, cost=10)
         + each(ALL, "h17_split", "w64", 120, 140, cost=10)),
     "positions symbolic (64 bits). Width 4: 18 ways of building, sizes 0..24, ranges of vectors of 0..9; width 64: 126..130. Thorough: 50, 16; 120..140",
     BIG)

# ---------------------------------------------------------------------------------------------- C18
prop("C18",
     lambda: each(ALL, "h18_reverse", "w4", 0, 13, 0, 5, cost=5) + [J("h18_build", "w4", 0, 0, 40, cost=9)]
     + [J("h18_constant_write", "w4", 0, 0, 44, cost=4), J("h18_constant_write", "w64", 0, 126, 131, cost=4)]
     + [J("h18_build", "w64", 0, n, n, cost=9) for n in (64, 65, 127, 129)] + each(FEW, "h18_reverse", "w64", 34, 34, 0, 5, cost=5)
     + each(ALL, "h18_reverse", "w4", 40, 40, cost=1),
     lambda: (lambda js: js + release(js))(
         each(ALL, "h18_reverse", "w4", 0, 24, 0, 5, cost=30) + [J("h18_build", "w4", 0, n, n + 9, cost=9) for n in range(0, 100, 10)]
         + [J("h18_constant_write", "w4", 0, n, n + 9, cost=4) for n in range(0, 100, 10)]
         + [J("h18_constant_write", "w64", 0, n, n + 4, cost=4) for n in (60, 125, 190, 252)]
         + [J("h18_build", "w64", 0, n, n, cost=9) for n in (63, 64, 65, 66, 126, 127, 128, 129, 130, 192, 200)]
         + each(SOME, "h18_reverse", "w64", 66, 66, 0, 5, cost=30)),
     "width 4: reversal of every range of 0..13 in 18 ways of building; bulk constructors of length 0..44; width 64: 34; 64..131. 40 reversed. Thorough: 24, 100; 200",
     BIG)

# ---------------------------------------------------------------------------------------------- C19
prop("C19",
     lambda: [J("h19_history", "w4", k, n, n, 2, 0, 0, 1, 3, cost=10) for k in SIX for n in (4, 7)]
     + each(SIX, "h19_history", "w4", 0, 18, 1, 0, 0, 1, 0, cost=5) + each(SIX, "h19_history_ts", "w4", 0, 14, 1, 0, 0, 1, 0, cost=4)
     + [J("h19_history", "w4", k, n, n, 1, 0, 0, 1, 0, cost=5) for k in SIX for n in (21, 27, 34, 48)]
     + each(SIX, "h19_history_ts", "w4", 5, 5, 2, 0, 0, 0, 4, cost=8)
     + each(SIX, "h19_history", "w64", 66, 66, 1, 0, 0, 1, 8, cost=3) + each(SIX, "h19_history_ts", "w64", 130, 130, 1, 0, 0, 1, 16, cost=3)
     + each(SIX, "h19_history", "w4", 80, 80, 1, 0, 0, 1, 6, cost=4) + each(range(12), "h19_long", "w4", 60, 61, cost=6) + each((7, 9), "h19_long", "w64", 130, 130, cost=15),
     lambda: [J("h19_history", "w4", k, n, n, 2, 2, op, 1, 4, cost=10) for k in SIX for n in (5, 9, 13, 18, 26) for op in range(1, 25)]
     + [J("h19_history_ts", "w4", k, n, n, 2, 0, op, 0, 4, cost=10) for k in SIX for n in (6, 11) for op in range(1, 25)]
     + [J("h19_history", "w4", k, 6, 6, 3, 0, op, 0, 6, cost=60) for k in (0, 2, 4) for op in range(1, 25)]
     + each(SIX, "h19_history", "w4", 0, 40, 1, 0, 0, 1, 0, cost=20)
     + [J("h19_history", "w64", k, n, n, 2, 0, op, 0, 64, cost=30) for k in SIX for n in (66, 130) for op in range(1, 25)]
     + [J("h19_history", "w64", k, 4100, 4100, 1, 0, 0, 1, 700, cost=60) for k in SIX]
     + each(range(12), "h19_long", "w4", 150, 151, cost=60) + each(range(12), "h19_long", "w64", 200, 200, cost=50),
     "every history of one of 24 operations (width 4: 6 ways of building, sizes 0..18, 21, 27, 34, 48) and of two (sizes 4, 5 and 7; positions at the ends and "
     "multiples of 3 or 4), Vector and ThreadSafeVector; width 64: one, sizes 66 and 130, thinned. Taller trees: 80, thinned; long histories of twelve fashions (60 steps at width 4, 130 at 64), then cut and joined anywhere. Thorough: two to size 26, three at size 6, one "
     "at 4100",
     BIG + "; positions left out by the thinning")

# ---------------------------------------------------------------------------------------------- C20
prop("C20",
     lambda: each(SIX, "h20_clone_panic", "w4", 0, 13, 4, 0, 0, cost=4, covers=(1, 2)) + each(SIX, "h20_compare_panic", "w4", 0, 5, 8, cost=2, covers=(1, 2))
     + each(SIX, "h20_clone_panic_ts", "w4", 0, 8, 3, 0, 0, cost=3, covers=(1, 2)) + each(SIX, "h20_compare_panic_ts", "w4", 0, 5, 5, cost=2, covers=(1, 2))
     + each(SIX, "h20_clone_panic", "w64", 66, 66, 3, 0, 0, 0, 16, cost=3, covers=(1, 2))
     + each(SIX, "h20_clone_panic", "w4", 40, 40, 4, 0, 0, 0, 8, cost=2, covers=(1, 2)),
     lambda: (lambda js: js + release(js))(
         each(SIX, "h20_clone_panic", "w4", 0, 26, 8, 0, 0, cost=60, covers=(1, 2)) + each(SIX, "h20_compare_panic", "w4", 0, 9, 30, cost=20, covers=(1, 2))
         + each(SIX, "h20_clone_panic_ts", "w4", 0, 16, 6, 0, 0, cost=30, covers=(1, 2))
         + [J("h20_clone_panic", "w64", k, n, n, 10, 0, 0, 0, 16, cost=20, covers=(1, 2)) for k in SIX for n in (66, 130)]),
     "a panic at the first to fourth clone during any of 24 operations on a shared vector (width 4: 6 ways of building, sizes 0..13; width 64: "
     "66), at any of the first 8 comparisons of a sort, dual sort or search of 0..5. Taller trees: 40, thinned. Thorough: 8 clones, sizes to 26, 30 comparisons to 9",
     BIG + "; panics in drop")

# ---------------------------------------------------------------------------------------------- C22
prop("C22",
     lambda: each(SIX, "h22_sharing", "w4", 0, 20, cost=5, covers=(1, 2)) + each(SIX, "h22_sharing_ts", "w4", 0, 14, cost=4, covers=(1, 2))
     + each(SIX, "h22_sharing", "w64", 66, 66, 0, 0, 0, 0, 8, cost=2, covers=(1, 2)) + each(SIX, "h22_sharing", "w64", 200, 200, 0, 0, 0, 0, 32, cost=3, covers=(1, 2))
     + each(SIX, "h22_sharing", "w4", 70, 70, 0, 0, 0, 0, 6, cost=4, covers=(1, 2)),
     lambda: (lambda js: js + release(js))(
         each(SIX, "h22_sharing", "w4", 0, 40, cost=30, covers=(1, 2)) + each(SIX, "h22_sharing_ts", "w4", 0, 30, cost=20, covers=(1, 2))
         + [J("h22_sharing", "w64", k, n, n, 0, 0, 0, 0, 16, cost=10, covers=(1, 2)) for k in SIX for n in (64, 65, 129, 130, 200, 1000)]),
     "width 4: 6 ways of building, sizes 0..20, one of 24 operations on a vector that is shared or not; width 64: 66 and 200, positions thinned. "
     "Taller trees: 70, thinned. Thorough: 40; width 64 to 1000",
     BIG)

# ---------------------------------------------------------------------------------------------- C23
prop("C23",
     lambda: each((0, 2, 4), "h23_parts", "w4", 0, 20, 0, 0, cost=13) + each((0, 2, 4), "h23_parts", "w4", 30, 30, 0, 1, cost=7)
     + each((3, 5), "h23_parts_shared", "w4", 16, 18, 0, 0, cost=2)
     + each((0, 2, 3, 5), "h23_parts_ts", "w4", 0, 12, 1, 1, cost=10) + each((0, 2, 3, 5), "h23_parts_ts", "w4", 22, 22, 1, 0, cost=16)
     + [J("h23_clones", "w4", k, 5, 5, 1, a, 0, cost=2) for k in SIX for a in range(1, 13)]
     + [J("h23_clones", "w4", 2, 12, 12, 1, a, 0, 1, cost=6) for a in range(1, 13)]
     + [J("h23_clones", "w4", 2, 9, 9, 2, a, b, 1, cost=6) for a in range(1, 13) for b in (7, 9)]
     + [J("h23_clones", "w64", 0, 66, 66, 1, a, b, 1, cost=4) for a in (1, 3, 6, 7) for b in (7, 9)]
     + [J("h23_parts", "w64", 0, 130, 130, 0, 0, cost=22)]
     + each((0, 2), "h23_read", "w4", 5, 9, 1, 0, 0, cost=20) + [J("h23_sendable", "w4", 0, 16, 16, 1, c, cost=1) for c in range(7)],
     lambda: (lambda js: js + release(js))(
         [J("h23_parts", "w4", k, n, n + 9, 0, c, cost=40) for k in (0, 1, 2, 4) for n in (0, 10, 20, 30, 40) for c in (0, 1)]
         + each((3, 5), "h23_parts_shared", "w4", 0, 40, 0, 0, cost=20)
         + [J("h23_parts_ts", "w4", k, n, n, 2, c, cost=40) for k in SIX for n in (3, 5, 9, 13, 17, 22) for c in (0, 1)]
         + [J("h23_clones", "w4", k, n, n, 2, a, b, cost=20) for k in SIX for n in (5, 9) for a in range(1, 13) for b in range(1, 13)]
         + [J("h23_clones", "w4", k, 22, 22, 1, a, 0, 1, cost=20) for k in SIX for a in range(1, 13)]
         + [J("h23_clones", "w64", k, 66, 66, 1, a, 0, 1, cost=10) for k in (0, 2, 3) for a in range(1, 13)]
         + [J("h23_parts", "w64", k, 130, 130, 0, 0, cost=22) for k in (0, 2, 4)]
         + [J("h23_read", "w4", k, n, n, 2, a, 0, cost=20) for k in SIX for n in (5, 9, 13) for a in range(1, 7)]
        + [J("h23_sendable", "w4", 0, 1, 30, 2, c, cost=2) for c in range(7)] + [J("h23_sendable", "w64", 0, 150, 150, 1, c, cost=2) for c in range(7)]),
     "two threads, every interleaving of their atomic operations with at most 1 preemption besides the end of a thread (2 for some pairs of "
     "operations), data races by vector clocks. Parts of a split focus: width 4: sizes 0..20 and 30 (Vector, whose threads have no atomic "
     "operations), 0..12 and 22 (ThreadSafeVector), split at every position; width 64: 130. Clones of a ThreadSafeVector: width 4: each pair of 12 operations at size "
     "5 in 6 ways of building, 12 and 9 in one; width 64: 66. Readers: 5..9. Thorough: 2 preemptions, sizes to 49, 22",
     "more than two threads; more preemptions; longer vectors; reads of stale values that weak memory allows to relaxed atomics (the "
     "interleavings are sequentially consistent, the races those of the C++ memory model); the types' Send and Sync themselves, which are "
     "the compiler's to decide",
     ["atomics are executed in a sequentially consistent order; Arc is executed as compiled from the standard library",
      "races are confirmed under Miri before they are reported"])
