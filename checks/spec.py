"""What each property's check runs: harness family, harness, parameters (sizes), and the bounds they stand for.

tier: "q" = quick and thorough, "t" = thorough only, "qonly" = quick only.
covers: reachability witnesses that have to be hit for the run to count.
"""
ASSUMPTIONS = [
    "The IR interpreted is rustc's optimised, fully linked LLVM module of the current tree (opt-level 2, overflow checks and debug assertions on, vectorisation off).",
    "Heap allocation never fails; printing to standard output is a no-op; hash maps are seeded with a fixed key.",
    "z3's verdicts and the LLVM-IR semantics implemented in /verif/symex are trusted; sampled paths are replayed natively on every run and have to agree.",
]
SAT = ["--sat"]
def R(fam, h, p, b, **k):
    d = dict(fam=fam, h=h, p=p, b=b, jobs=8); d.update(k); return d
def U(h, p, b, **k): return R("util", h, p, b, opts=SAT, **k)
def A(h, p, b, **k): return R("alg", h, p, b, **k)
PROPS = {}

# ---------------------------------------------------------------- util
PROPS["U01"] = dict(
    bounds="pools of up to 300 bits, every history of up to 6 add/remove operations at symbolic indices, resizes, construction from index lists",
    outside="longer histories, pools of more than 300 bits",
    runs=[
        U("pool_ops", [130, 5], "length 130, 5 operations (add or remove) at any indices, membership of any index"),
        U("pool_ops", [64, 4], "length 64, 4 operations"),
        U("pool_ops", [300, 6], "length 300, 6 operations", tier="t"),
        U("pool_resize", [60, 8, 3], "lengths 60..68, growth by up to 8, 3 operations before and after"),
        U("pool_from", [130, 3], "construction from a list of up to 3 indices", covers=["end", "several"]),
        U("pool_from", [130, 5], "construction from a list of up to 5 indices", covers=["end", "several"], tier="t"),
        U("pool_bounds", [100], "out-of-range indices are refused: every index >= length, 64 bits", covers=["add", "remove", "contains", "from"]),
    ])
PROPS["U02"] = dict(
    bounds="pools of up to 200 bits with up to 2 symbolic operations each; pools at all lengths up to 8; every subset of a handful of probe positions of lengths around the word size",
    outside="pools of more than 200 bits with arbitrary contents",
    runs=[
        U("pool_algebra", [130, 1, 1], "length 130, one operation on either side", covers=["end", "union", "intersection"]),
        U("pool_algebra", [130, 2, 1], "length 130, two operations on either side", covers=["end", "union", "intersection"], tier="t"),
        U("pool_sizes", [200, 5], "every pair of subsets of probe positions at length 200"),
        U("pool_algebra_len", [8], "different lengths are refused", covers=["union", "intersection", "subset"]),
        U("pool_iter", [130, 0], "iteration: every subset of probe positions"), U("pool_iter", [130, 1], "iteration: every index"), U("pool_iter", [6, 0], "iteration: every subset of 6"),
        U("pool_equality", [70, 2], "length 70, two operations on either side", covers=["end", "equal"]),
        U("pool_equality", [70, 3], "length 70, three operations on either side", covers=["end", "equal"], tier="t"),
        U("pool_fill", [70, 1], "length 70, one operation, then filled, combined with itself and everything"), U("pool_fill", [64, 1], "length 64"), U("pool_fill", [128, 1], "length 128"),
        U("pool_fill", [70, 2], "length 70, two operations", tier="t"), U("pool_fill", [64, 2], "length 64, two operations", tier="t"),
    ])
PROPS["U03"] = dict(
    bounds="up to 4 labels, up to 4 operations with symbolic labels", outside="more labels or longer histories",
    runs=[U("labels", [4, 4], "4 labels, histories of 4 operations"), U("labels", [3, 6], "3 labels, histories of 6 operations", tier="t")])
PROPS["U04"] = dict(
    bounds="sets of up to 8 elements, tuple sizes up to 9", outside="larger sets",
    runs=[U("tuples", [8], "sets of up to 8 symbolic elements", covers=["end", "too long"]), U("tuples", [11], "sets of up to 11", covers=["end", "too long"], tier="t")])

# ---------------------------------------------------------------- alg: integers, rationals
PROPS["A01"] = dict(
    bounds="Euclidean division on all of i8 and bounded ranges of the wider types; Bezout identity for |a|,|b| <= 31 (quick) / 63 and all i8 pairs up to half the range (thorough)",
    outside="operands of the wider types beyond the stated ranges",
    runs=[
        A("divide_i8", [0], "all pairs of i8", covers=["end", "negative numerator"]),
        A("divide_i16", [0], "all pairs of i16", covers=["end", "negative numerator"], tier="t"),
        A("divide_i64", [255], "|a|,|b| <= 255, i64"), A("divide_i32", [15], "|a|,|b| <= 15, i32"), A("divide_isize", [15], "|a|,|b| <= 15, isize"), A("divide_i128", [7], "|a|,|b| <= 7, i128"),
        A("bezout_i64", [31], "|a|,|b| <= 31, i64", covers=["end", "zeros"]), A("bezout_i8", [15], "|a|,|b| <= 15, i8", covers=["end", "zeros"]),
        A("bezout_i64", [63], "|a|,|b| <= 63, i64", covers=["end", "zeros"], tier="t"), A("bezout_i8", [63], "|a|,|b| <= 63, i8", covers=["end", "zeros"], tier="t"),
    ])
PROPS["A02"] = dict(
    bounds="all of i8; |n| <= 300 (quick) / 1000 (thorough) in i64", outside="larger integers",
    runs=[
        A("prime_i8", [0], "all of i8", covers=["composite", "prime or unit"]), A("prime_i64", [400], "|n| <= 400", covers=["composite", "prime or unit"]),
        A("prime_i64", [2000], "|n| <= 2000", covers=["composite", "prime or unit"], tier="t"),
        A("nfactors_i8", [0], "all of i8"), A("nfactors_i64", [200], "|n| <= 200"), A("nfactors_i64", [800], "|n| <= 800", tier="t"),
    ])
PROPS["A03"] = dict(
    bounds="numerators up to 31, denominators up to 31 for construction; 3/2 (quick) or 7/4 (thorough) in either sign for every pair of operands; limits of the 64-bit range for construction",
    outside="operands whose exact results do not fit the representation",
    runs=[
        A("rat_new", [15, 15], "|n|,|d| <= 15", covers=["end", "zero"]), A("rat_new", [31, 31], "|n|,|d| <= 31", covers=["end", "zero"], tier="t"),
        A("rat_unary", [15, 6], "|n| <= 15, |d| <= 6", covers=["end", "zero"]),
        A("rat_extreme", [0], "all pairs of ten integers at and around the limits"),
        A("rat_arith", [3, 3, 0], "all operations, |n| <= 3, |d| <= 3", covers=["add", "sub", "mul", "div", "div0"]),
        A("rat_arith", [5, 8, 1], "all operations, |n| <= 5, positive denominators up to 8", covers=["add", "sub", "mul", "div", "div0"]),
        A("rat_arith", [3, 16, 2], "all operations, |n| <= 3, equal denominators up to 16", covers=["add", "sub", "mul", "div", "div0"]),
        A("rat_arith", [7, 7, 3], "all operations, positive operands, n <= 7, d <= 7", covers=["add", "sub", "mul", "div"]),
        A("rat_arith", [15, 15, 2], "all operations, |n| <= 15, equal denominators up to 15", covers=["add", "sub", "mul", "div", "div0"], tier="t"),
        A("rat_arith", [7, 4, 0], "all operations, |n| <= 7, |d| <= 4", covers=["add", "sub", "mul", "div", "div0"], tier="t"),
        A("rat_fold", [3, 3, 2], "sums and products of 2"), A("rat_fold", [4, 4, 3], "sums and products of 3", tier="t"),
    ])
PROPS["A04"] = dict(
    bounds="|n| <= 7, |d| <= 4 for every pair", outside="larger operands",
    runs=[A("rat_order", [7, 4, 1], "positive denominators", covers=["end", "equal"]), A("rat_order", [3, 3, 0], "denominators of either sign", covers=["end", "equal"]),
          A("rat_order", [9, 6, 0], "larger operands", covers=["end", "equal"], tier="t")])
# ---------------------------------------------------------------- alg: permutations
PROPS["A05"] = dict(
    bounds="all permutations of up to 5 elements; arbitrary 64-bit labels for up to 3 elements; exponents up to 7 in absolute value", outside="permutations moving more elements",
    runs=[
        A("perm_laws", [3, 1], "3 elements with arbitrary labels", covers=["end", "moves"]), A("perm_laws", [5, 0], "all permutations of 5", covers=["end", "moves"]), A("perm_laws", [6, 0], "all permutations of 6", covers=["end", "moves"], tier="t"),
        A("perm_product", [2, 1], "pairs on 2 arbitrary labels"), A("perm_product", [4, 0], "all pairs on 4 elements"), A("perm_product", [3, 1], "pairs on 3 arbitrary labels", tier="t"), A("perm_product", [5, 0], "all pairs on 5", tier="t"),
        A("perm_two_cycles", [3, 2, 7], "a 3-cycle and a 2-cycle on any elements below 7, image of any 64-bit index"), A("perm_two_cycles", [3, 3, 6], "two 3-cycles", tier="t"), A("perm_two_cycles", [2, 2, 0], "two transpositions of arbitrary elements", tier="t"),
        A("perm_assoc", [3], "all triples on 3 elements"), A("perm_assoc", [4], "all triples on 4", tier="t"),
        A("perm_power", [4, 7], "exponents -7..7", covers=["end", "negative"]), A("perm_power", [5, 12], "exponents -12..12", covers=["end", "negative"], tier="t"),
        A("cycles", [3], "3 arbitrary elements", covers=["end", "repeated"]), A("cycles", [4], "4 arbitrary elements", covers=["end", "repeated"], tier="t"),
        A("cycles_overlap", [2], "two transpositions of arbitrary elements", covers=["end", "overlap"]), A("cycles_overlap", [3], "three transpositions of arbitrary elements", covers=["end", "overlap"]),
    ])
PROPS["A06"] = dict(
    bounds="vectors of length up to 5 with symbolic entries, every pair of blocks; every pair of permutations of 4", outside="longer vectors",
    runs=[A("block_swap", [5], "length 5", covers=["end", "overlap", "gap", "empty"]), A("block_swap", [7], "length 7", covers=["end", "overlap", "gap", "empty"], tier="t"),
          A("action", [4], "length 4, all pairs of permutations")])
PROPS["A07"] = dict(
    bounds="all pairs of permutations of 5 elements (symbolic tables); all pairs on 4 and 3 elements for the dynamically sized form", outside="more elements",
    runs=[A("const_perm", [0], "all pairs of permutations of 5, symbolic tables"), A("vec_perm", [0], "all pairs of permutations of 4 and 3, indices over all of usize")])

# ---------------------------------------------------------------- alg: formal sums, matrices
REAL = ["--real"]
def X(h, p, b, **k): return R("alg", h, p, b, opts=REAL, **k)
def C(*a): return list(a) if "end" in a else ["end"] + list(a)
REAL_ASSUMPTION = "Floating-point arithmetic is read as exact real arithmetic: rounding, overflow and cancellation are outside the claim."
PROPS["A08"] = dict(
    bounds="sums built from up to 6 (thorough 8) symbolic terms over up to 5 basis elements, integer and rational coefficients",
    outside="longer sums; the `random` constructors",
    runs=[
        A("vec_sum", [8, 3, 2, 1, -1], "sums with up to 3+2+1 terms over 8 basis elements"), A("vec_sum", [6, 2, 2, 1, 1, -1], "four sums with up to 2+2+1+1 terms"),
        A("vec_sum", [8, 2, 2, 2, -1], "three sums with up to 2 terms each", tier="t"),
        A("vec_arith", [5, 2, 2], "every operation, 2 and 2 terms over 5", covers=C("add", "sub", "neg", "mul", "addb", "subb", "zero", "remove")),
        A("vec_arith", [6, 3, 3], "every operation, 3 and 3 terms over 6", covers=C("add", "sub", "neg", "mul"), tier="t"),
        A("vec_from", [5, 3], "construction from 3 terms with repetitions"), A("vec_from", [5, 5], "construction from 5 terms with repetitions"),
        A("vec_index", [5, 3], "coefficient of any basis element", covers=C("absent")), A("vec_laws", [5, 2, 1, 1], "associativity, distributivity"),
        A("vec_rational", [3, 3], "rational coefficients", covers=C("div0")),
    ])
PROPS["A09"] = dict(
    bounds="matrices of up to 4x4 (writes through blocks: 3x3) with symbolic 64-bit entries; every read, write, block and order of handles; every size up to the limits of the representation",
    outside="larger matrices; blocks without rows or columns; concurrent use from several threads",
    runs=[
        A("mat_layout", [2, 3], "2x3"), A("mat_layout", [4, 3], "4x3"), A("mat_layout", [4, 4], "4x4"), A("mat_layout", [5, 6], "5x6", tier="t"),
        A("mat_bounds", [2, 3], "every index and block range, 64 bits", covers=["read", "write", "sub"]),
        A("mat_blocks", [2, 3], "every block and block of a block of 2x3"), A("mat_blocks", [4, 4], "of 4x4"),
        A("mat_write", [2, 3], "writes through every block", covers=C("size")), A("mat_write", [3, 3], "3x3", covers=C("size")),
        A("mat_eq", [2, 2], "2x2 with equal and unequal blocks", covers=C("equal")), A("mat_eq", [3, 3], "3x3", covers=C("equal")),
        A("mat_create", [3], "construction from arrays of up to 3 rows", covers=C("ragged")), A("mat_create_empty", [0], "empty arrays are refused", covers=[]),
        A("mat_size_limit", [0], "sizes at the limit", covers=C("too large")), A("mat_memory", [3, 3], "every order of cloning, dropping and consuming handles; entries that own memory"),
    ])
PROPS["A10"] = dict(
    bounds="3x3 operands for sums; products up to 4x4 by 4x4 with symbolic entries of magnitude up to 100; associativity and distributivity for 4x4", outside="larger operands; entries whose exact results overflow",
    runs=[
        A("mat_arith", [2, 2], "2x2", covers=C("owned", "blocks", "scalar", "sizes")), A("mat_arith", [3, 4], "3x4", covers=C("owned", "blocks", "scalar", "sizes")),
        A("mat_product", [2, 1, 2, 100], "2x1 by 1x2"), A("mat_product", [2, 3, 2, 100], "2x3 by 3x2", covers=C("sizes")), A("mat_product", [2, 2, 2, 100], "2x2 by 2x2", covers=C("sizes")),
        A("mat_product", [3, 4, 2, 100], "3x4 by 4x2", covers=C("sizes")), A("mat_product", [4, 4, 4, 100], "4x4 by 4x4", covers=C("sizes")),
        A("mat_product_laws", [2, 1], "associativity and distributivity"), A("mat_product_laws", [4, 4], "for 4x4"),
        A("mat_basis_change", [2, 2], "rows of basis elements times a matrix", covers=["panic:a list of another length"]), A("mat_basis_change", [3, 3], "3x3", covers=["panic:a list of another length"], tier="t"),
    ])
ROWOPS = C("swap rows", "swap cols", "row op", "col op", "block row op", "block col op")
PROPS["A11"] = dict(
    bounds="every row and column operation on matrices of up to 4x4 and on every block of them, symbolic entries", outside="larger matrices",
    runs=[A("mat_row_ops", [2, 3], "2x3", covers=ROWOPS), A("mat_row_ops", [3, 3], "3x3", covers=ROWOPS), A("mat_row_ops", [4, 4], "4x4", covers=ROWOPS)])
PROPS["A12"] = dict(
    bounds="every integer 2x2 matrix with entries of magnitude up to 2, every 2x3 and 3x2 matrix with entries up to 1, single rows and columns up to 1x3, diagonal matrices with entries up to 6 (2x2, 2x3) and 2 (3x3); thorough: every 3x3 matrix with entries up to 1",
    outside="larger matrices and entries",
    runs=[
        A("snf", [2, 2, 2], "2x2, |entries| <= 2", covers=C("torsion", "distinct", "rank 1")), A("snf", [2, 3, 1], "2x3, |entries| <= 1"), A("snf", [3, 2, 1], "3x2, |entries| <= 1"),
        A("snf_line", [3, 4], "rows and columns of 3, |entries| <= 4"), A("snf_line", [2, 12], "of 2, |entries| <= 12"), A("snf_diag", [2, 2, 6], "diagonal 2x2, |entries| <= 6"), A("snf_diag", [2, 3, 6], "diagonal 2x3, |entries| <= 6"), A("snf_diag", [3, 3, 2], "diagonal 3x3, |entries| <= 2"),
        A("snf", [3, 3, 1], "3x3, |entries| <= 1", tier="t"), A("snf", [2, 2, 3], "2x2, |entries| <= 3", tier="t"), A("snf_diag", [3, 3, 3], "diagonal 3x3, |entries| <= 3", tier="t"), A("snf_line", [3, 6], "of 3, |entries| <= 6", tier="t"),
    ])
PROPS["A13"] = dict(
    bounds="every real matrix of up to 3x3; every rational 2x2 matrix with numerators up to 2 and integer 2x3, 3x2 with entries up to 1", outside="larger matrices; rounding",
    assumptions=[REAL_ASSUMPTION],
    runs=[X("rank_real", [2, 2], "real 2x2", covers=["0", "1", "2"]), X("rank_real", [2, 3], "real 2x3", covers=["0", "1", "2"]), X("rank_real", [3, 2], "real 3x2", covers=["0", "1", "2"]), X("rank_real", [3, 3], "real 3x3", covers=["0", "1", "2", "3"]),
          A("rank_rational", [2, 2, 2], "rational 2x2", covers=["0", "1", "2"]), A("rank_rational", [2, 3, 1], "rational 2x3", covers=["0", "1", "2"]), A("rank_rational", [3, 2, 1], "rational 3x2", covers=["0", "1", "2"])])
PROPS["A14"] = dict(
    bounds="sparse matrices of up to 3x3 with any set of stored positions and symbolic entries", outside="larger ones",
    runs=[A("sparse_layout", [2, 3], "2x3", covers=C("empty")), A("sparse_layout", [3, 3], "3x3", covers=C("empty")), A("sparse_eq", [2, 2], "2x2", covers=["equal", "different"]), A("sparse_eq", [1, 3], "1x3", covers=["equal", "different"]),
          A("sparse_product", [2, 2, 2, 0], "2x2 by 2x2"), A("sparse_product", [2, 2, 1, 1], "2x2 by 2x1"), A("sparse_product", [3, 2, 3, 0], "3x2 by 2x3"), A("sparse_product", [2, 3, 2, 0], "2x3 by 3x2"), A("sparse_dot", [4], "length 4"), A("sparse_dot", [5], "length 5"),
          A("sparse_sizes", [0], "operands that do not fit are refused", covers=[]), A("sparse_memory", [2], "every order of dropping; entries that own memory")])
PROPS["A15"] = dict(
    bounds="dimensions 2 and 3, symbolic integer entries, and real entries for the operations on floating-point numbers", outside="other dimensions; rounding",
    assumptions=[REAL_ASSUMPTION],
    runs=[A("const_vector", [0], "vectors of 3"), A("const_matrix", [0], "matrices of 2x2, 2x3, 3x2"), X("const_real", [0], "real entries")])
# ---------------------------------------------------------------- alg: numerical
PROPS["A16"] = dict(
    bounds="every real matrix of 2x2 and 3x3 (thorough: 4x4 determinants)", outside="larger matrices; rounding", assumptions=[REAL_ASSUMPTION],
    runs=[X("num_det", [2], "2x2", covers=C("transposed", "zero pivot")), X("num_det", [3], "3x3", covers=C("transposed", "zero pivot")), X("num_det", [4], "4x4", covers=C("transposed", "zero pivot"), tier="t"),
          X("num_det_not_square", [0], "non-square matrices are refused", covers=[]), X("num_solve", [2], "2x2", covers=C("zero pivot")), X("num_solve", [3], "3x3", covers=C("zero pivot")), X("num_lu", [2], "2x2"), X("num_lu", [3], "3x3")])
PROPS["A17"] = dict(
    bounds="every real matrix of the stated sizes (2x2, 2x3, 3x2, 3x3 depending on the routine)", outside="larger matrices; the iterations for spectra of 3x3 and more; rounding", assumptions=[REAL_ASSUMPTION],
    runs=[X("num_norms", [2, 2], "2x2"), X("num_norms", [2, 3], "2x3"), X("num_norms", [3, 3], "3x3"), X("num_gram_schmidt", [2, 2, 0], "2x2"), X("num_gram_schmidt", [2, 2, 1], "2x2, second form"), X("num_gram_schmidt", [3, 2, 1], "3x2, second form"),
          X("num_householder", [2], "vectors of 2", covers=["identity", "reflection"]), X("num_householder", [3], "vectors of 3", covers=["identity", "reflection"]), X("num_householder_shape", [0], "other shapes are refused", covers=[]),
          X("num_givens", [0], "rotations"), X("num_spectrum1", [0], "1x1"), X("num_spectrum2", [0], "2x2", covers=["double", "distinct"]), X("num_spectrum2", [1], "symmetric 2x2", covers=["double", "distinct"]),
          X("num_hessenberg", [3, 1], "3x3"), X("num_tridiagonal", [3], "3x3")])
# ---------------------------------------------------------------- topo_spaces: graphs
def T(h, p, b, **k): return R("topo", h, p, b, **k)
PROPS["T01"] = dict(
    bounds="every list of up to 5 edges between up to 4 labels (symbolic); weighted graphs of up to 4 edges with symbolic weights", outside="longer lists",
    runs=[T("graph_counts", [3, 4], "3 edges between any of 4 vertices", covers=C("loops", "multiple edges")), T("graph_counts", [4, 3], "4 edges between any of 3 vertices", covers=C("loops", "multiple edges")),
          T("graph_counts", [5, 4], "5 edges, 4 vertices", covers=C("loops", "multiple edges"), tier="t"),
          T("laplacian", [4, 4], "Laplacian of up to 4 weighted edges, weights symbolic"), T("laplacian", [5, 5], "of 5 edges", tier="t"), T("laplacian_loop", [0], "loops are refused", covers=["panic:loops are refused"])])
PROPS["T02"] = dict(
    bounds="every graph on 4 or 5 vertices, and every history of up to 5 additions and removals of symbolic edges on up to 12 vertices; every index, 64 bits", outside="more vertices, longer histories",
    runs=[T("raw_ops", [6, 3], "6 vertices, 3 additions or removals"), T("raw_ops", [4, 5], "4 vertices, 5 operations"), T("raw_ops", [12, 2], "12 vertices (more than a word of pairs), 2 operations"), T("raw_ops", [9, 3], "9 vertices, 3 operations", tier="t"),
          T("raw_bounds", [5], "every index, 64 bits", covers=["panic:add", "panic:contains", "panic:degree"]),
          T("raw_swap", [5, 0], "every graph on 5 vertices", covers=C("adjacent")), T("raw_swap", [5, 2], "symbolic edges", covers=C("adjacent")),
          T("raw_action", [4, 0], "every graph on 4 vertices, every relabelling"), T("raw_action", [5, 2], "5 vertices, 2 symbolic edges, every relabelling", tier="t"),
          T("raw_connected", [5, 0], "every graph on 5 vertices", covers=["connected", "not connected"]), T("raw_connected", [6, 0], "every graph on 6 vertices", covers=["connected", "not connected"], tier="t"),
          T("raw_iter", [5, 0], "every graph on 5 vertices", covers=C("0 and 1 not adjacent")), T("raw_iter", [13, 2], "13 vertices, 2 symbolic edges", covers=C("0 and 1 not adjacent"), tier="t"),
          T("simple_graph_index", [0], "every index, 64 bits", covers=["inside", "panic:outside"])])
GOOD = "Graphs are connected and have an end or an essential vertex whose removal does not disconnect them; the library refuses others for want of a base point."
PROPS["T03"] = dict(
    bounds="every connected multigraph with up to 4 edges (thorough: 5) subdivided for 2 or 4 points", outside="graphs with more edges; " + GOOD, assumptions=[GOOD],
    runs=[T("maximal_tree", [3, 4, 2], "3 edges, 2 points", covers=C("branching")), T("maximal_tree", [3, 4, 4], "3 edges, 4 points", covers=C("branching")), T("maximal_tree", [4, 5, 2], "4 edges, 2 points", covers=C("branching")),
          T("maximal_tree", [4, 5, 4], "4 edges, 4 points", covers=C("branching"), tier="t"), T("maximal_tree", [5, 4, 2], "5 edges on 4 vertices", covers=C("branching"), tier="t")])
PROPS["T04"] = dict(
    bounds="every connected multigraph with up to 4 edges subdivided for 2 to 5 points; real coordinates in the plane", outside="graphs with more edges; " + GOOD, assumptions=[GOOD, REAL_ASSUMPTION],
    runs=[T("subdivision", [3, 4, 2], "3 edges, 2 points", covers=C("loop")), T("subdivision", [3, 4, 4], "3 edges, 4 points", covers=C("loop")), T("subdivision", [2, 3, 5], "2 edges, 5 points", covers=C("loop")), T("subdivision", [4, 5, 2], "4 edges, 2 points", covers=C("loop")),
          T("subdivision", [4, 5, 4], "4 edges, 4 points", covers=C("loop"), tier="t"),
          T("embedding", [3, 4, 2], "3 edges, 2 points, real coordinates", opts=REAL), T("embedding", [3, 4, 4], "3 edges, 4 points, real coordinates", opts=REAL)])
# ---------------------------------------------------------------- topo_spaces: cubical complexes, Morse theory
PROPS["T05"] = dict(
    bounds="every connected multigraph with up to 3 edges (thorough: 4) and every tree with up to 4 edges, 2 and 3 points", outside="larger graphs, more points; " + GOOD, assumptions=[GOOD],
    runs=[T("cubical_complex", [2, 3, 2], "2 edges, 2 points", covers=C("squares")), T("cubical_complex", [2, 3, 3], "2 edges, 3 points", covers=C("squares")), T("cubical_complex", [3, 4, 2], "3 edges, 2 points", covers=C("squares")),
          T("cubical_complex", [3, 4, 3], "3 edges, 3 points", covers=C("squares")), T("cubical_complex", [4, 0, 3, 0], "trees with 4 edges, 3 points", covers=C("squares")),
          T("cubical_complex", [4, 5, 2], "4 edges, 2 points", covers=C("squares"), tier="t")])
PROPS["T06"] = dict(
    bounds="cells of up to 2 factors (thorough: 3) whose vertices have any 64-bit numbers; every pair of factors", outside="cells with more factors",
    runs=[T("cube_boundary", [2, 64], "2 factors", covers=C("squares")), T("cube_boundary", [3, 64], "3 factors", covers=C("squares"), tier="t"),
          T("cube_ends", [2, 64], "2 factors", covers=C("panic:not an edge")), T("cube_ends", [3, 64], "3 factors", covers=C("panic:not an edge")), T("factors", [8], "every pair of factors, 8 bits"), T("factors", [64], "every pair of factors, 64 bits")])
LONG = ["--max-instr", "2000000000"]
PROPS["T07"] = dict(
    bounds="every connected multigraph with up to 3 edges (thorough: 4), 2 and 3 points; trees with up to 5 edges; trees with 4 edges and one further edge, 3 points; every upper dimension", outside="larger graphs, more points; " + GOOD, assumptions=[GOOD],
    runs=[T("morse_cells", [3, 4, 2], "3 edges, 2 points"), T("morse_cells", [3, 4, 3], "3 edges, 3 points"), T("morse_cells", [5, 0, 3, 0], "trees with 5 edges, 3 points"), T("morse_cells", [4, 0, 3, 1], "4 edges and one more, 3 points", covers=C("squares")),
          T("morse_flow", [3, 4, 2], "3 edges, 2 points", covers=C("redundant")), T("morse_flow", [3, 4, 3], "3 edges, 3 points", covers=C("redundant")), T("morse_flow", [5, 0, 3, 0], "trees with 5 edges, 3 points", covers=C("redundant")),
          T("morse_cells", [4, 5, 2], "4 edges, 2 points", covers=C("squares"), tier="t"), T("morse_cells", [4, 5, 3], "4 edges, 3 points", tier="t"), T("morse_cells", [5, 0, 4, 0], "trees with 5 edges, 4 points", covers=C("squares"), tier="t"),
          T("morse_flow", [4, 5, 2], "4 edges, 2 points", covers=C("redundant"), tier="t"), T("morse_flow", [4, 0, 3, 1], "4 edges and one more, 3 points", covers=C("redundant"), opts=LONG, tier="t"), T("morse_flow", [4, 0, 4, 0], "trees with 4 edges, 4 points", covers=C("redundant"), opts=LONG, tier="t")])
PROPS["T08"] = dict(
    bounds="boundary maps: every connected multigraph with up to 3 edges and 2 or 3 points, trees with up to 5 edges and 4 points, with one or two further edges and 3 points; homology: multigraphs with up to 3 edges and 2 points, trees with 3 edges and up to 4 points or one further edge", outside="larger graphs, more points; " + GOOD, assumptions=[GOOD],
    runs=[T("morse_boundary", [3, 4, 2], "3 edges, 2 points"), T("morse_boundary", [3, 4, 3], "3 edges, 3 points"), T("morse_boundary", [5, 0, 4, 0], "trees with 5 edges, 4 points", covers=C("squares")),
          T("morse_boundary", [4, 0, 3, 1], "4 edges and one more, 3 points", covers=C("squares")), T("morse_boundary", [3, 0, 3, 2], "3 edges and two more, 3 points", covers=C("squares")),
          T("morse_homology", [3, 4, 2], "3 edges, 2 points", covers=C("loops"), opts=LONG), T("morse_homology", [3, 0, 3, 0], "trees with 3 edges, 3 points", covers=C("loops"), opts=LONG), T("morse_homology", [3, 4, 3, 0], "3 edges, 3 points", covers=C("loops"), opts=LONG),
          T("morse_homology", [4, 0, 3, 0], "trees with 4 edges, 3 points", covers=C("loops"), opts=LONG), T("morse_homology", [4, 0, 2, 1], "4 edges and one more, 2 points", covers=C("loops"), opts=LONG, tier="t"), T("morse_homology", [3, 0, 3, 1], "3 edges and one more, 3 points", covers=C("loops"), opts=LONG, tier="t")])
PROPS["T09"] = dict(
    bounds="paths of up to 5 moves between up to 4 vertices in every pattern (for 3 moves the vertices have any 64-bit numbers); tokens on up to 5 vertices and 4 steps; loops for every cell of graphs with up to 3 edges and 3 points (thorough: 4 edges and one more)", outside="longer paths, larger graphs; " + GOOD, assumptions=[GOOD],
    runs=[T("geodesic", [3, 6, 64], "3 moves, any vertices", covers=C("cancelling", "parallel")), T("geodesic", [4, 4, 0], "4 moves, 4 vertices", covers=C("cancelling", "parallel")), T("geodesic", [5, 4, 0], "5 moves, 4 vertices", covers=C("cancelling", "parallel")),
          T("path_group", [3, 6, 64], "3 moves, any vertices"), T("path_group", [4, 4, 0], "4 moves, 4 vertices"),
          T("path_permutation", [3, 5], "3 steps of 3 points on 5 vertices", covers=C("parallel", "permuted")), T("path_permutation", [4, 5], "4 steps", covers=C("parallel", "permuted")), T("path_permutation", [4, 6], "4 steps on 6 vertices", covers=C("parallel", "permuted"), tier="t"),
          T("path_permutation_empty", [0], "moves from empty vertices", covers=["panic:no point there"]),
          T("loops", [3, 4, 2, 0], "3 edges, 2 points", covers=C("permuted")), T("loops", [3, 4, 3, 0], "3 edges, 3 points", covers=C("permuted")), T("loops", [4, 0, 3, 1], "4 edges and one more, 3 points", covers=C("permuted"), opts=LONG, tier="t")])
# ---------------------------------------------------------------- topo_spaces: simplicial complexes
SIM = ["again", "connected", "not connected", "contained"]
PROPS["T10"] = dict(
    bounds="every sequence of up to 3 simplices (up to 3 vertices each) on up to 4 labels in every pattern, labels symbolic 64-bit numbers or strings; 62 and 64 vertices with a further simplex on the last ones and new ones", outside="more simplices, and complexes of more vertices in general position",
    runs=[T("complexes", [2, 3, 4, 0], "2 simplices on 4 labels", covers=SIM), T("complexes", [2, 3, 4, 64], "2 simplices, any labels", covers=SIM), T("complexes", [3, 2, 4, 0], "3 edges on 4 labels", covers=SIM), T("complexes", [3, 3, 4, 0], "3 simplices on 4 labels", covers=SIM, tier="t"),
          T("complexes_named", [2, 3, 4], "strings; from a list of vertices or a simplex", covers=C("vertices")), T("complexes_large", [62, 1, 3, 4], "62 vertices and one simplex more", covers=C("one simplex"), opts=LONG), T("complexes_large", [64, 2, 2, 5], "64 vertices and two edges more", covers=C("one simplex", "second word"), opts=LONG),
          T("complexes_repeated", [64], "repeated labels are refused", covers=["panic:repeated labels are refused"]), T("complexes_binomial", [12], "simplices with 12 vertices"), T("complexes_binomial", [40], "simplices with 40 vertices")])
PROPS["T11"] = dict(
    bounds="every chain complex whose ranks are among the listed ones (up to four modules of rank at most 3), entries of the boundary maps up to 1 or 2 in magnitude; single diagonal maps up to 4x3 with entries up to 8; exact reals and rationals for the fields; modules with up to 5 summands", outside="larger complexes and entries; rank computations over floats are read as exact reals", assumptions=[REAL_ASSUMPTION],
    runs=[T("homology", [2, 1, 1, 0], "ranks 1, 1; entries up to 2"), T("homology", [2, 2, 1, 0], "ranks 2, 1; entries up to 2"), T("homology", [1, 2, 2, 0], "ranks 2, 2; entries up to 1", covers=C("torsion", "rank 2", "acyclic")),
          T("homology", [1, 1, 2, 1, 0], "ranks 1, 2, 1", covers=C("acyclic")), T("homology", [1, 2, 2, 1, 0], "ranks 2, 2, 1", covers=C("torsion", "rank 2", "acyclic")), T("homology", [2, 1, 2, 1, 0], "ranks 1, 2, 1; entries up to 2"), T("homology", [1, 1, 3, 1, 0], "ranks 1, 3, 1"),
          T("homology", [2, 2, 2, 0], "ranks 2, 2; entries up to 2", tier="t"), T("homology", [1, 2, 2, 2, 0], "ranks 2, 2, 2", tier="t"), T("homology", [1, 3, 2, 0], "ranks 3, 2", tier="t"),
          T("homology_diag", [4, 2], "diagonal maps of 2 entries up to 4"), T("homology_diag", [2, 3], "3 entries up to 2"), T("homology_diag", [3, 3], "3 entries up to 3", covers=C("torsion", "acyclic", "rank 2")), T("homology_diag", [8, 2], "2 entries up to 8"), T("homology_diag", [4, 3], "3 entries up to 4", tier="t"),
          T("field_real", [2, 2, 0], "over the reals, ranks 2, 2", covers=C("acyclic", "rank 2"), opts=REAL), T("field_real", [1, 2, 1, 0], "ranks 1, 2, 1", covers=C("acyclic"), opts=REAL), T("field_real", [2, 2, 1, 0], "ranks 2, 2, 1", covers=C("acyclic"), opts=REAL), T("field_real", [2, 2, 2, 0], "ranks 2, 2, 2", covers=C("rank 2", "acyclic"), opts=REAL), T("field_real", [2, 3, 2, 0], "ranks 2, 3, 2", opts=REAL, tier="t"),
          T("field_rational", [1, 2, 2, 0], "over the rationals, ranks 2, 2; entries up to 1"), T("field_rational", [1, 1, 2, 1, 0], "ranks 1, 2, 1"), T("field_rational", [2, 2, 2, 0], "entries up to 2", tier="t"),
          T("modules", [3], "modules with up to 3 kinds of torsion", covers=["printed", "isomorphic", "not isomorphic"]), T("modules", [5], "modules with up to 5 kinds of torsion", covers=["printed", "isomorphic", "not isomorphic"])])
# ---------------------------------------------------------------- analysis, geom
def N(h, p, b, **k): return R("analysis", h, p, b, opts=REAL, **k)
FUNS = "Sine, cosine and powers with fractional exponents are uninterpreted functions (sine and cosine with their values at zero, powers with the value at one); identities between them are not used."
FUNB = "every function of two real variables built in up to %s steps from coordinates and constants by sums, differences, products, quotients, scalars, integer and real powers, sine and cosine; every point and scalar where it is defined"
PROPS["N01"] = dict(
    bounds=FUNB % "2 (thorough: 3)", outside="functions of more steps", assumptions=[REAL_ASSUMPTION, FUNS],
    runs=[N("derivatives", [1, 4095, 4], "1 operation"), N("derivatives", [2, 4095, 4], "2 operations"), N("jacobians", [2, 1, 4095, 3], "2 components of 1 operation", covers=C("stored", "not stored")), N("jacobians", [2, 1, 4095, 4], "2 components of 1 operation, zero included", covers=C("stored", "not stored")),
          N("derivatives", [4, 7, 2], "4 sums, differences and products", tier="t"), N("derivatives", [3, 4095, 2], "3 operations on coordinates"), N("derivatives", [3, 2047, 3], "3 operations", tier="t")])
PROPS["N02"] = dict(
    bounds=FUNB % "3", outside="functions of more steps", assumptions=[REAL_ASSUMPTION, FUNS],
    runs=[N("arithmetic", [1, 4095, 4], "1 operation"), N("arithmetic", [2, 4095, 4], "2 operations"), N("arithmetic", [3, 4095, 2], "3 operations on coordinates"), N("arithmetic", [4, 527, 2], "4 operations", tier="t"),
          N("coordinates", [0], "functions written with coordinates"), N("divided_by_zero", [0], "scalars", covers=["panic:division by zero"]), N("folds", [0, 255], "sums and products of up to 3 coordinates"), N("folds", [1, 79], "of up to 3 functions"), N("folds", [1, 4095], "of up to 3 functions", tier="t")])
PROPS["N03"] = dict(
    bounds=FUNB % "3 (derivatives: 2; thorough: 3)", outside="functions of more steps", assumptions=[REAL_ASSUMPTION, FUNS],
    runs=[N("structure", [2, 4095, 4], "2 operations"), N("structure", [3, 4095, 2], "3 operations on coordinates"), N("structure_derivatives", [2, 4095, 4], "derivatives of 2 operations"), N("structure_derivatives", [3, 4095, 2], "derivatives of 3 operations", tier="t")])
PROPS["G01"] = dict(
    bounds="every real triangle with area and every real point", outside="triangles without area, rounding", assumptions=[REAL_ASSUMPTION],
    runs=[R("geom", "circumcircle", [0], "any triangle, any point", opts=REAL, covers=["inside", "outside"])])
