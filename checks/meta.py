"""Titles, statements and anchors; gen.py writes properties.jsonl and MANIFEST.json from here and spec.py."""
PROPS = []
NA = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
UT, PE, RA, CO = "util/src/lib.rs", "alg/src/non_commutative/permutation.rs", "alg/src/commutative/rational_impl.rs", "alg/src/commutative.rs"

P("U01", "A bit-set pool reports exactly the indices its history left in it",
  "After any sequence of adding, removing and growing, a pool contains an index exactly when the last operation on that index added it, its element count is the number of such indices, and an index at or beyond its length is refused. Construction from a list of indices equals adding them one by one to an empty pool. No operation on one index changes the membership of another.",
  ["inputs", "histories"], "every length, every history of operations, every index, in particular around the machine-word boundaries",
  "The tests touch one pool of fixed length with a handful of fixed indices; word boundaries, repeated additions and growth across a word are not visited.",
  [UT], [("BinaryPool::add/remove/contains", UT), ("BinaryPool::resize", UT), ("BinaryPool::from", UT)], [("packed words and length", "membership of each index")])
P("U02", "Pool algebra is set algebra",
  "Union, intersection, subset, equality, fullness, counting and iteration of pools agree with the same operations on the sets of indices they contain, for every length. Iteration yields each contained index exactly once in increasing order. Operations on pools of different lengths are refused.",
  ["inputs"], "every pair of pools of every length",
  "Unit tests check one or two fixed pools; the last partial word, empty and full pools and lengths that are multiples of the word size matter.",
  [UT], [("BinaryPool::union/intersection/is_subset_of/is_full/fill", UT), ("BinaryPoolIter", UT), ("util::bin::count_ones", UT)])
P("U03", "A labelled set contains exactly the labels its history left in it",
  "After any sequence of additions and removals of registered labels, the set contains, counts and iterates exactly those labels whose last operation was an addition, in registration order. Adding or removing a label that was not registered is refused.",
  ["inputs", "histories"], "every list of labels and every history", "The tests use three fixed labels and one short history.",
  [UT], [("LabeledSet::add/remove/iter/n_elements", UT)])
P("U04", "Tuple enumeration yields every combination exactly once, in order",
  "Enumerating the n-element tuples of a collection yields every increasing choice of n positions exactly once, in lexicographic order, with the elements at those positions. Asking for more elements than there are yields nothing, and for none yields the empty tuple once.",
  ["inputs"], "every collection, every tuple size", "Tests enumerate one or two fixed sizes.",
  [UT], [("TupleIterator", UT)])
P("A01", "Euclidean division and Bezout coefficients are exact",
  "For every numerator and non-zero divisor, division with remainder returns a quotient and a non-negative remainder smaller than the divisor's magnitude that reconstruct the numerator, and divisibility means a zero remainder. For every pair of integers the computed greatest common divisor is non-negative, divides both, and equals the stated combination of them. This holds for every built-in integer width and every sign combination.",
  ["inputs"], "all operands of each integer type (away from overflow)", "The tests check a dozen positive pairs.",
  [CO], [("euclid_div / simplify / divides", CO), ("bezout_identity", CO)])
P("A02", "Primality and factor counting agree with divisibility",
  "An integer is reported prime exactly when its magnitude is at least two and it has no proper divisor, and the number of prime factors reported is the number of primes in its factorisation counted with multiplicity, regardless of sign.",
  ["inputs"], "every integer", "Tests only compute gcds; a predicate that is wrong on some residue class goes unnoticed.",
  [CO], [("is_prime / n_prime_factors", CO)])
P("A03", "Rational arithmetic is exact and canonical",
  "Every rational produced by construction, negation, absolute value, addition, subtraction, multiplication, division, sums or products equals the mathematical value of the operation. It is always in lowest terms with a positive denominator, zero having a single form. Construction with zero denominator and division by zero are refused.",
  ["inputs"], "all operands in range, all sign combinations, zero included, and the extremes of the integer type", "The tests evaluate a few fixed fractions.",
  [RA], [("Rational::new and reduction", RA), ("arithmetic operators, Sum, Product", RA)])
P("A04", "Rational order, equality and hashing agree with the values",
  "Comparing two rationals gives the order of their mathematical values whatever the signs and denominators they were built from, all comparison operators agree with it, and negation reverses it. Equal values compare equal, hash alike and have zero difference; conversion to floating point preserves the value.",
  ["inputs"], "all pairs", "There are no ordering tests with mixed signs or zeros.",
  [RA], [("Ord/PartialOrd/Eq/Hash for Rational", RA)])
P("A05", "Permutations form a group acting by the maps they describe",
  "A permutation built from disjoint cycles sends each element to its successor in its cycle and fixes everything else; products, inverses, powers (negative ones included), identity tests and decompositions into transpositions agree with composition of these maps. Two permutations are equal exactly when their maps are, whatever cycles, rotations or order they were built from. Cycles with repeated elements or overlapping cycles are refused.",
  ["inputs"], "every permutation, every labelling of the moved elements, every exponent", "The tests multiply a few fixed permutations.",
  [PE], [("Permutation product/inverse/power", PE), ("Cycle normalisation", PE), ("from_disjoint_cycles validation", PE)])
P("A06", "Block swaps and permutation actions move vector entries as described",
  "Acting with a permutation moves the entry at each position to the image of that position, acting twice is acting with the product, and the inverse undoes it. Swapping two disjoint blocks of positions exchanges them and keeps the order of everything between, for blocks of different lengths, adjacent, or empty; overlapping blocks are refused.",
  ["inputs"], "every vector, every pair of blocks, every pair of permutations", "One fixed block swap is tested.",
  [PE], [("Permutation::swap", PE), ("action of permutations on vectors", PE), ("cyclic shifts", PE)])
P("A07", "Table permutations form a group",
  "Fixed-size and growing table permutations multiply, invert, convert and evaluate as the bijections they tabulate, indices beyond a stored table being fixed. Products of tables of different sizes are those of the extended bijections. The order is the least positive power giving the identity.",
  ["inputs"], "every pair of bijections of every size", "Hardly tested: one product.",
  [PE], [("ConstPermutation", PE), ("VecPermutation", PE)])

LA, MA, SP, CM = "alg/src/lin_alg.rs", "alg/src/lin_alg/matrix_impl.rs", "alg/src/lin_alg/sparse_matrix_impl.rs", "alg/src/lin_alg/const_matrix_impl.rs"
P("A08", "Formal sums are finitely supported coefficient functions",
  "Adding, subtracting, negating and scaling formal sums, summing several of them, adding single basis elements and building them from lists gives for every basis element the coefficient of the mathematical result. The stored form is canonical: basis elements strictly increasing and no vanishing coefficients, so equality of sums is equality of the coefficient functions.",
  ["inputs"], "every pair (and longer sum) of formal sums over every basis, repeated basis elements and cancelling coefficients included",
  "The tests add a few fixed sums; merging several sequences with interleaved, repeated and cancelling terms depends on the order of the elements.",
  [LA, "util/src/lib.rs"], [("Vector add/sub/neg/mul/Sum/From", LA), ("merging of sorted sequences", LA)])
P("A09", "A matrix and its blocks are views of one table of entries",
  "Reading, writing, copying, transposing and taking blocks (by every kind of range, blocks of blocks and of transposes) address exactly the entries a table of values would give. A write through a block changes those entries and nothing else, copies are independent, comparison is entrywise. Access outside the table or block, ragged or empty input and unrepresentable sizes are refused. All memory is released exactly once in whatever order handles are cloned, consumed and dropped.",
  ["inputs", "histories"], "every size, every entry, every block and index, every order of cloning and dropping",
  "Blocks are unsafe pointer views with a reference count; tests read a few fixed blocks.",
  [LA, MA], [("Matrix / SubMatrix indexing", MA), ("write / write_and_move / Clone / Drop", MA), ("from_array / zero / identity", MA)], [("pointer, sizes, transposition flag", "table of entries")])
P("A10", "Matrix arithmetic is exact",
  "Sums, differences, scalar multiples and products of matrices and blocks, in every combination of owned matrices and borrowed blocks and of transposed operands, are the mathematical ones: entrywise for sums, rows times columns for products, associative and distributive. A row of basis elements times a matrix gives the formal sums with the columns' coefficients. Operands whose sizes do not fit are refused.",
  ["inputs"], "all entries, sizes, combinations of ownership and transposition", "A few fixed products are tested.",
  [LA, MA], [("Add/Sub/Mul for Matrix and SubMatrix", MA), ("Matrix times list of basis elements", LA)])
P("A11", "Elementary row and column operations do exactly what they say",
  "Swapping two rows or columns, and adding a multiple of one row or column to another, changes those rows or columns as stated and leaves every other entry alone, for matrices, blocks and transposes.",
  ["inputs"], "every matrix, every pair of lines, every multiple, every block", "Only used indirectly by tests.",
  [MA], [("swap_rows/swap_cols/row_operation/col_operation", MA)])
P("A12", "The Smith normal form is a certified diagonalisation",
  "For every integer matrix the returned transformation matrices are inverse to each other in pairs and carry the matrix to the returned form; that form is zero outside the diagonal, and its diagonal entries are non-negative, each dividing the next, zeros last.",
  ["inputs"], "every integer matrix of every shape", "The tests decompose a few fixed matrices and compare diagonals; the inverse transformations and sign and divisibility of the divisors are not checked in general.",
  [MA, CO], [("smith_normal_form", MA)])
P("A13", "Rank is the dimension of the row space",
  "The rank reported for a matrix over the rationals or reals is the size of its largest non-vanishing minor, whatever the positions of zeros, and it is the same for the transpose.",
  ["inputs"], "every matrix of every shape", "Tests use generic matrices that need no pivot search.",
  [MA], [("rank_as_linear_map", MA)])
P("A14", "A sparse matrix represents the table of its entries",
  "Rows, columns, transposition, equality (stored zeros being equal to absent entries), and products with sparse and dense matrices agree with the dense matrix having the same entries. Iteration yields stored entries in order. Operands of sizes that do not fit are refused; the linked storage is released exactly once.",
  ["inputs", "histories"], "every set of stored positions, all values, every order of dropping handles",
  "Linked storage with raw pointers; tests use full, generic matrices.",
  [SP], [("SparseMatrix::from / row_iter / col_iter / transpose", SP), ("products and equality", SP), ("Drop", SP)])
P("A15", "Fixed-size vectors and matrices compute entrywise",
  "Sums, differences, negation, scaling, division, dot products, norms, equality and entry access of fixed-size vectors and matrices agree with the entrywise mathematical operations, in place or not.",
  ["inputs"], "all entries", "Hardly tested.", [CM], [("ConstVector / ConstMatrix operators", CM)])
P("A16", "Determinants and linear systems are solved exactly, with or without zero pivots",
  "In exact real arithmetic the determinant of every square matrix, its blocks and transposes is the alternating sum over its minors, and for every invertible matrix the computed solution solves the system, also where elimination meets a zero pivot. The factorisation without row exchanges multiplies back to the matrix when its leading minors do not vanish.",
  ["inputs"], "every real matrix, in particular singular ones and ones with zeros on the diagonal", "Tests use a few generic matrices with fixed tolerance.",
  [MA], [("det / solve / lu", MA)])
P("A17", "Orthogonalisation and reduction steps preserve what they should",
  "In exact real arithmetic, orthonormalisation gives orthonormal columns with the same spans and directions, reflections and rotations annihilate the entries they should and preserve lengths, reduction to Hessenberg or tridiagonal form preserves trace, Frobenius norm and trace of the square and leaves the announced zeros, and for 1x1 and 2x2 matrices with real spectrum the sorted eigenvalues have the right sum and product. Norms are the stated maxima or roots.",
  ["inputs"], "every real matrix of the given size, degenerate ones (multiples of the first unit vector, double eigenvalues, zero entries) included", "Tests use random generic input only.",
  [MA], [("gram_schmidt", MA), ("householder_vec / householder_tridiagonalization / hessenberg_form / givens_rotation", MA), ("spectrum / spectrum_symmetric on 1x1 and 2x2 blocks", MA), ("norms", MA)])

GR, CU, SI, TL = "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/simplicial/mod_impl.rs", "topo_spaces/src/lib.rs"
P("T01", "A labelled graph counts its vertices, loops and edges; a weighted graph has the right Laplacian",
  "A graph built from a list of pairs of labels reports the number of different labels, of loops, of other edges with multiplicity, and of adjacent pairs. The weight matrix of a weighted graph is symmetric with the given weights, and its Laplacian has weighted degrees on the diagonal and negated weights elsewhere. Loops with weights are refused.",
  ["inputs"], "every list of edges: loops, repeated loops, multiple and reversed edges", "The tests use three fixed graphs.",
  [GR], [("Graph::from and counts", GR), ("WeightedSimpleGraph::from / laplacian", GR)])
P("T02", "A raw graph is the set of edges its history left in it",
  "After any sequence of adding and removing edges, adjacency, degree, neighbour lists, edge counts and iteration agree with the set of edges; swapping two vertices or acting with a permutation relabels the edges and nothing else; connectedness means that any two vertices are joined by edges. Indices out of range are refused.",
  ["inputs", "histories"], "every graph, every history, every relabelling, every index", "Tests look at one or two fixed graphs; the triangular bit layout and words boundaries depend on the indices.",
  [GR], [("RawSimpleGraph::add_edge/remove_edge/contains/swap", GR), ("adjacent_vertices_iter / edge_iter / vertex_iter", GR), ("is_connected", GR), ("action of permutations", GR)])
P("T03", "The maximal tree is a depth-first spanning tree with the vertices in depth-first order",
  "After subdivision every vertex but the base point has exactly one tree neighbour with a smaller number, which is adjacent to it; the base point is an end of the tree; the vertices are numbered in depth-first order, and edges outside the tree lead to ancestors. Tree degrees and the flow of a vertex agree with the tree.",
  ["inputs"], "every connected graph with a possible base point, every number of marked points", "Tests check one fixed graph.",
  [GR], [("choosing the base point and sorting the vertices", GR), ("maximal_tree_contains / degree_in_maximal_tree / CubeFactor::flow", GR)])
P("T04", "Subdivision puts the right number of points on every edge and keeps the graph",
  "Subdividing a graph keeps its vertices and puts on every edge (loops and parallel edges included) the number of inner points needed for the number of marked points. Consecutive points of an edge are adjacent, and nothing else is. An embedding of the original vertices extends to inner points at the fractions of the edge their names say.",
  ["inputs"], "every connected graph with a possible base point, every number of marked points, every embedding", "Tests check a single fixed graph and print the rest.",
  [GR], [("SimpleGraph::subdivided_graph_from", GR), ("modify_embedding", GR)])
P("T05", "The cubical complex of a configuration space consists of the disjoint sets of vertices and edges",
  "The unordered discretized configuration space of n points on a subdivided graph has exactly one cell for every set of n pairwise disjoint vertices and edges, in the dimension given by its number of edges. The boundary map of every dimension is the matrix of the signed faces with respect to these bases; vertices have no boundary.",
  ["inputs"], "every connected graph with a possible base point, every number of points", "Tests check the homology of a few fixed graphs.",
  [CU], [("CubicalCplx::udc / SimpleUdc", CU), ("CubicalCplx::boundary_map", CU)])
P("T06", "The boundary of a cube is the alternating sum of its faces",
  "The boundary of a cell takes every edge in turn, with alternating signs, to its smaller end minus its larger end, and the boundary of a boundary vanishes. Factors are vertices or edges; they are disjoint, ordered, between the ends or consecutive exactly when their vertices say so. The ends of an edge cell replace the edge by its smaller and its larger end; cells that have no or several edges are refused.",
  ["inputs"], "every cell, with any vertex numbers", "Tests compute the boundary of one cell.",
  [CU], [("Cube::get_boundary / get_ends", CU), ("CubeFactor", CU)])
P("T07", "The Morse complex consists of the critical cells, and every cell flows to critical cells",
  "A cell is critical when no vertex of it is unblocked and no edge of it is an order-respecting edge of the maximal tree. The cells of the Morse complex in each dimension, up to the upper dimension asked for, are exactly the critical cells, each once. The flow of a cell is the chain of critical cells obtained by pushing redundant cells along their smallest unblocked vertex until only critical cells are left; collapsible cells flow to zero.",
  ["inputs"], "every connected graph with a possible base point, every number of points, every upper dimension, every cell", "Tests look at a handful of cells of one graph.",
  [CU, GR], [("UdnMorseCplx::new / get_cells_of_dim", CU), ("Cube::flow / property", CU), ("CubeFactor::flow", GR)])
P("T08", "The Morse complex is a chain complex with the homology of the configuration space",
  "The boundary map of the Morse complex sends a critical cell to the flow of its boundary, boundaries of boundaries vanish, there is one critical vertex, and the integral homology of the Morse complex is that of the cubical complex of the same graph and number of points.",
  ["inputs"], "every connected graph with a possible base point, every number of points", "Tests compare the homology of a few fixed graphs.",
  [CU, TL], [("UdnMorseCplx::boundary_map", CU), ("IntegralHomology", TL)])
P("T09", "Edge paths form the groupoid of motions up to commutation, and critical edges yield loops",
  "Reducing a path cancels a move with its opposite exactly when only disjoint moves lie between them and performs every move as early as possible. Composition runs one path after the other, the inverse moves back, a path composed with its inverse reduces to the trivial path, and the permutation of a path that returns to the first vertices is the one its tokens undergo. The path of a configuration leads along the tree to the base configuration; the path of an edge cell is a closed motion through that edge.",
  ["inputs"], "every path, every connected graph with a possible base point, every number of points, every vertex and edge cell", "Tests print or compare the paths of one graph.",
  [CU, GR], [("EdgePath::reduce_to_geodesic / inverse / composed_with / evaluate_permutation", CU), ("get_edge_path / get_edge_path_to_from_base_pt", CU)])
P("T10", "A simplicial complex consists of the faces of the simplices attached to it",
  "After any sequence of attachments, in any order and with any labels, the complex has exactly the non-empty subsets of the attached simplices as cells: vertices in the order their labels appeared, the number of cells of each dimension, its dimension, whether it is connected, and boundary maps that are the alternating faces in a consistent order. Attaching a face that is there changes nothing. Simplices with repeated labels are refused.",
  ["inputs", "histories"], "every sequence of simplices with any labels, any number of vertices", "Tests check a few fixed complexes with fewer than ten vertices.",
  [SI], [("SimplicialCplx::attach / new_from / new_from_zero_skeleton", SI), ("n_cells_of_dim / dim / is_connected", SI), ("boundary_map", SI)])
AN, GE = "analysis/src/lib.rs", "geom/src/lib.rs"
P("T11", "Homology is kernel modulo image for every chain complex",
  "For every finite chain complex of free modules over the integers the homology in each dimension is the free module of rank dim - rank(d) - rank(d') together with the torsion given by the elementary divisors of the incoming map, one being left out; over the reals and rationals it is the vector space of that dimension. Modules are printed as such, and two are isomorphic exactly when their rank and torsion agree, in whatever order the torsion is listed.",
  ["inputs"], "every chain complex, zero modules, zero and singular maps, torsion of any order included", "Tests compute the homology of a few graphs and complexes without torsion.",
  [TL, LA, MA], [("IntegralHomology / homology over fields", TL), ("Module and its isomorphism", LA)])
P("N01", "Symbolic derivatives are the derivatives",
  "For every function built from coordinates, constants, sums, differences, products, quotients, scalar multiples, integer and real powers, sine and cosine, the symbolic partial derivative by each coordinate evaluates to the derivative given by the rules of calculus at every point where the function is defined; by any other coordinate it is zero. The Jacobian of one or several functions has these entries, its size is components times variables, and zero derivatives are not stored.",
  ["inputs"], "every function, every point", "The tests differentiate a few fixed functions at one point.",
  [AN], [("AtomicSmoothFn::partial_derivative / jacobian", AN), ("MultiVarFn::jacobian", AN)])
P("N02", "Arithmetic of smooth functions is pointwise",
  "Evaluating a function obtained by any operator (between functions, coordinates and scalars, in place or not), power, sine, cosine, or the sum or product of a list gives the operation applied to the values. Dividing by the scalar zero is refused; the empty sum is zero and the empty product one.",
  ["inputs"], "every function, every point, every order of operations (cancelling terms, zeros and ones included)", "The tests evaluate a few fixed functions.",
  [AN], [("operators on AtomicSmoothFn and Coordinate", AN), ("eval", AN), ("Sum / Product", AN)])
P("N03", "Smooth functions are kept in normal form",
  "After any operations, and in derivatives, a sum holds no sums and no vanishing coefficients, a product holds no products, no zero exponents and neither the function zero nor one, and the terms and factors are distinct and in increasing order, so that like terms are combined.",
  ["inputs", "histories"], "every function, every sequence of operations", "The tests print a few functions.",
  [AN], [("operators on AtomicSmoothFn", AN), ("powi / powf", AN), ("partial_derivative", AN)])
P("G01", "The circumcircle test decides whether a point is inside",
  "For every triangle with area and every point, in exact real arithmetic, the point is reported to be contained in the circumcircle exactly when it is nearer to the circumcentre than the corners are.",
  ["inputs"], "every triangle in either orientation, every point", "The tests triangulate random points.",
  [GE], [("Triangle::circum_circle_contains", GE)])
for _p, _r in [
    (("G02", "A Delaunay triangulation covers the convex hull with empty circumcircles",
      "The triangulation of a set of points in general position has every point as a vertex, its triangles do not overlap and cover the convex hull, and no point lies inside the circumcircle of a triangle.",
      ["inputs"], "every set of points", "The tests triangulate random points and draw a picture.", [GE], [("Delaunay triangulation", GE)]),
     "the algorithm builds circles of a surrounding triangle from square roots of square roots of the coordinates; z3's real arithmetic gives no answer from two points on, and bounded integer coordinates go through floating-point square roots that the executor only decides as exact reals (the circumcircle test itself is decided: G01)"),
    (("A18", "Iterated eigenvalue computations converge to the spectrum",
      "For every real matrix of size at least three the eigenvalues returned are those of the matrix, up to rounding.", ["inputs"], "every matrix", "The tests use random matrices.", [MA], [("spectrum / spectrum_symmetric", MA)]),
     "termination of the iteration depends on rounding (a threshold on entries that only vanish in the limit); in exact arithmetic a symbolic matrix has no bound on the number of steps, and bit-precise floating point with square roots is out of z3's reach (single reduction steps and the 1x1 and 2x2 blocks are decided: A17)"),
]:
    P(*_p); NA.append((PROPS.pop(), _r))
