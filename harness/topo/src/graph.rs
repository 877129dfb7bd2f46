//! graphs, subdivisions and maximal trees against lists of edges
use symrt::*;
use alg::non_commutative::permutation::*;
use topo_spaces::graph::*;

/// a label: the letters are symbolic
pub fn label(x: usize) -> String { unsafe { String::from_utf8_unchecked(vec![b'v', b'a' + x as u8]) } }
/// m edges between up to `l` vertices, one path per pattern of equal ends; vertices are numbered in the order they appear
pub fn edge_list(m: usize, l: usize) -> (Vec<(usize, usize)>, usize) {
    let mut n = 0;
    let mut end = |_| { let k = (n + 1).min(l); let x = pick(k); if x == n { n += 1; } x };
    let e = (0..m).map(|i| (end(i), end(i))).collect();
    (e, n)
}
pub fn graph_of(e: &[(usize, usize)]) -> Graph<i64> { Graph::from(e.iter().map(|&(a, b)| (label(a), label(b))).collect()) }
fn pairs(n: usize) -> Vec<(usize, usize)> { (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect() }
type Adj = Vec<Vec<bool>>;
/// any graph on n vertices: one path per set of edges
fn any_graph(n: usize) -> (RawSimpleGraph, Adj) {
    let mut g = RawSimpleGraph::new(n);
    let mut a = vec![vec![false; n]; n];
    for (i, j) in pairs(n) { if choose() { g.add_edge(i, j); a[i][j] = true; a[j][i] = true; } }
    (g, a)
}
/// graph with up to k edges with symbolic ends: the edges stay symbolic
fn few_edges(n: usize, k: usize) -> (RawSimpleGraph, Adj) {
    let mut g = RawSimpleGraph::new(n);
    let e: Vec<(usize, usize)> = (0..k).map(|_| { let j = int(1, n as i64 - 1) as usize; let i = idx(n); assume(i < j); (i, j) }).collect();
    for &(i, j) in &e { g.add_edge(i, j); }
    let mut a = vec![vec![false; n]; n];
    for (i, j) in pairs(n) { let mut x = false; for &(p, q) in &e { x |= (p == i) & (q == j); } a[i][j] = x; a[j][i] = x; }
    (g, a)
}
fn some_graph(n: usize, k: usize) -> (RawSimpleGraph, Adj) { if k == 0 { any_graph(n) } else { few_edges(n, k) } }
fn same(g: &RawSimpleGraph, a: &Adj, l: &str) {
    check(g.n_vertices() == a.len(), l);
    let mut ok = true;
    for (i, j) in pairs(a.len()) { ok &= g.contains(i, j) == a[i][j]; }
    check(ok, l);
}
fn reach(a: &Adj, without: Option<usize>) -> Vec<bool> {
    let n = a.len();
    let start = (0..n).find(|&i| Some(i) != without).unwrap();
    let mut r = vec![false; n];
    r[start] = true;
    for _ in 0..n { for i in 0..n { for j in 0..n { if r[i] && a[i][j] && Some(j) != without { r[j] = true; } } } }
    r
}
pub fn connected(a: &Adj) -> bool { reach(a, None).iter().all(|&x| x) }

/// the subdivision the documentation describes: vertices (None = essential) and adjacency
pub struct Sub { pub names: Vec<(usize, usize, usize, usize, usize)>, pub adj: Adj, pub essential: usize }
/// names: essential x -> (x, x, 0, 0, 0); l-th of k on the m-th edge from x to y -> (x, y, m, l, k + 1)
pub fn subdivide(e: &[(usize, usize)], n: usize, marked: usize) -> Sub {
    let marked = marked.max(2);
    let mut names: Vec<_> = (0..n).map(|x| (x, x, 0, 0, 0)).collect();
    let mut links = vec![];
    let mut mult = vec![vec![0; n]; n];
    for &(a, b) in e {
        let (a, b) = (a.min(b), a.max(b));
        let k = if a == b { marked } else { (marked - 2).max(1) };
        let m = mult[a][b]; mult[a][b] += 1;
        let mut last = a;
        for l in 1..=k { names.push((a, b, m, l, k + 1)); links.push((last, names.len() - 1)); last = names.len() - 1; }
        links.push((last, b));
    }
    let v = names.len();
    let mut adj = vec![vec![false; v]; v];
    for (i, j) in links { adj[i][j] = true; adj[j][i] = true; }
    Sub { names, adj, essential: n }
}
fn degree(a: &Adj, v: usize) -> usize { a[v].iter().filter(|&&x| x).count() }
/// the base point has to be an end or an essential vertex that does not separate the graph
pub fn has_base(a: &Adj) -> bool {
    (0..a.len()).any(|v| degree(a, v) == 1 || (degree(a, v) >= 3 && { let r = reach(a, Some(v)); (0..a.len()).all(|w| w == v || r[w]) }))
}
fn is_named(v: &SimpleVertex, name: &(usize, usize, usize, usize, usize)) -> bool {
    match v {
        SimpleVertex::Essential(s) => name.4 == 0 && *s == label(name.0),
        SimpleVertex::Redundant(r) => name.4 != 0 && r.start == label(name.0) && r.end == label(name.1) && r.direction == name.2
            && r.pos == alg::commutative::Rational::new(name.3 as i64, name.4 as i64),
    }
}
/// position in `s` of every vertex of `g`, or None if the vertices are not those of `s`
pub fn matching(g: &SimpleGraph, s: &Sub) -> Option<Vec<usize>> {
    let l = g.vertices_list();
    if l.len() != s.names.len() { return None }
    let f: Vec<usize> = l.iter().map(|v| s.names.iter().position(|x| is_named(v, x)).unwrap_or(usize::MAX)).collect();
    let mut hit = vec![false; f.len()];
    for &x in &f { if x == usize::MAX || hit[x] { return None } hit[x] = true; }
    Some(f)
}

harnesses! {
fn graph_counts() {
    let (m, l) = (param(0) as usize, param(1) as usize);
    let e: Vec<(usize, usize)> = (0..m).map(|_| (idx(l), idx(l))).collect();
    let g = graph_of(&e);
    let (mut vertices, mut loops, mut plain, mut simple) = (0u64, 0u64, 0u64, 0u64);
    for x in 0..l { let mut seen = false; for &(a, b) in &e { seen |= (a == x) | (b == x); } vertices += seen as u64; }
    for &(a, b) in &e { loops += (a == b) as u64; plain += (a != b) as u64; }
    for j in 0..l { for i in 0..j { let mut seen = false; for &(a, b) in &e { seen |= ((a == i) & (b == j)) | ((a == j) & (b == i)); } simple += seen as u64; } }
    check(g.n_vertices() as u64 == vertices, "number of vertices");
    check(g.n_loops() as u64 == loops, "number of loops");
    check(g.n_non_loop_edges() as u64 == plain, "number of edges between different vertices");
    check(g.n_non_loop_edges_up_to_multiplicity() as u64 == simple, "number of adjacent pairs");
    if loops >= 2 { cover("loops"); }
    if simple < plain { cover("multiple edges"); }
    cover("end");
}
fn raw_ops() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let mut g = RawSimpleGraph::new(n);
    let mut h = vec![];
    for _ in 0..k {
        let j = int(1, n as i64 - 1) as usize;
        let i = idx(n);
        assume(i < j);
        let add = choose();
        if add { g.add_edge(i, j) } else { g.remove_edge(i, j) }
        h.push((i, j, add));
    }
    let mut count = 0u64;
    let mut a = vec![vec![false; n]; n];
    for (i, j) in pairs(n) {
        let mut x = false;
        for &(p, q, add) in &h { let here = (p == i) & (q == j); x = (x & !here) | (here & add); }
        a[i][j] = x; a[j][i] = x;
        count += x as u64;
    }
    same(&g, &a, "edges");
    check(g.n_edges() as u64 == count, "number of edges");
    let v = pick(n);
    let want: Vec<usize> = (0..n).filter(|&w| a[v][w]).collect();
    check(g.get_adjacent_vertices(v) == want && g.degree_of(v) == want.len(), "neighbours");
    check(g.adjacent_vertices_iter(v).collect::<Vec<_>>() == want, "neighbours");
    cover("end");
}
fn raw_bounds() {
    let n = param(0) as usize;
    let g = few_edges(n, 1).0;
    let (i, j) = (bits(64) as usize, bits(64) as usize);
    assume(i < j && j < (1 << 31) && j >= n);
    if choose() { must_panic("contains", || g.contains(i, j)) }
    else if choose() { let mut g = g; must_panic("add", || g.add_edge(i, j)) }
    else { must_panic("degree", || g.degree_of(j)) }
}
fn raw_swap() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let (mut g, a) = some_graph(n, k);
    let j = 1 + pick(n - 1);
    let i = pick(j);
    g.swap(i, j);
    let s = |x: usize| if x == i { j } else if x == j { i } else { x };
    let b: Adj = (0..n).map(|x| (0..n).map(|y| a[s(x)][s(y)]).collect()).collect();
    same(&g, &b, "swapping two vertices");
    if a[i][j] { cover("adjacent"); }
    cover("end");
}
fn raw_action() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let (g, a) = some_graph(n, k);
    let mut left: Vec<usize> = (0..n).collect();
    let f: Vec<usize> = (0..n).map(|k| { let i = pick(n - k); left.remove(i) }).collect();
    let mut seen = vec![false; n];
    let mut cycles = vec![];
    for i in 0..n { if !seen[i] { let mut c = vec![]; let mut j = i; while !seen[j] { seen[j] = true; c.push(j); j = f[j]; } cycles.push(Cycle::from(c)); } }
    let p = Permutation::from_disjoint_cycles(cycles);
    let mut b = vec![vec![false; n]; n];
    for x in 0..n { for y in 0..n { b[f[x]][f[y]] = a[x][y]; } }
    let mut h = g.clone();
    h <<= p.clone();
    same(&h, &b, "relabelling");
    same(&(g.clone() << p.clone()), &b, "relabelling");
    use alg::non_commutative::Group;
    check((h << p.inverse()) == g, "relabelling back");
    cover("end");
}
fn raw_connected() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let (g, a) = some_graph(n, k);
    let c = connected(&a);
    check(g.is_connected() == c, "connected");
    if c { cover("connected") } else { cover("not connected") }
}
fn raw_iter() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let (g, a) = some_graph(n, k);
    let edges: Vec<(usize, usize)> = pairs(n).into_iter().filter(|&(i, j)| a[i][j]).collect();
    let mut got: Vec<(usize, usize)> = g.edge_iter().map(|e| { let e = e.edge(); (e[1], e[0]) }).collect();
    got.sort();
    check(got.iter().map(|&(j, i)| (i, j)).collect::<Vec<_>>() == edges, "every edge once");
    check(g.vertex_iter().map(|v| v.vertex()).collect::<Vec<_>>() == (0..n).collect::<Vec<_>>(), "every vertex once, in order");
    let all: Vec<CubeFactor> = g.iter().collect();
    let mut parts: Vec<CubeFactor> = g.vertex_iter().collect();
    parts.extend(g.edge_iter());
    check(all == parts, "vertices, then edges");
    if n >= 2 && !a[0][1] { cover("0 and 1 not adjacent"); }
    cover("end");
}
fn subdivision() {
    let (m, l, marked) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (e, n) = edge_list(m, l);
    let s = subdivide(&e, n, marked);
    assume(connected(&s.adj) && has_base(&s.adj));
    let g = SimpleGraph::subdivided_graph_from(&graph_of(&e), marked);
    check(g.n_vertices() == s.names.len() && (*g).n_vertices() == s.names.len() && g.n_essential_vertices() == n, "number of vertices");
    let f = match matching(&g, &s) { Some(f) => f, None => { check(false, "the vertices are the ends and the inner points of the edges"); return } };
    let mut ok = true;
    for (i, j) in pairs(f.len()) { ok &= g.contains(i, j) == s.adj[f[i]][f[j]]; }
    check(ok, "adjacent vertices are consecutive points of an edge");
    if marked == 2 {
        let h = SimpleGraph::from(&graph_of(&e));
        check(*h == *g && h.vertices_list() == g.vertices_list(), "two marked points by default");
    }
    if e.iter().any(|&(a, b)| a == b) { cover("loop"); }
    cover("end");
}
fn embedding() {
    use alg::lin_alg::ConstVector;
    let (m, l, marked) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (e, n) = edge_list(m, l);
    let s = subdivide(&e, n, marked);
    assume(connected(&s.adj) && has_base(&s.adj));
    let g = SimpleGraph::subdivided_graph_from(&graph_of(&e), marked);
    let f = match matching(&g, &s) { Some(f) => f, None => return };
    let x: Vec<[f64; 2]> = (0..n).map(|_| [real(), real()]).collect();
    let out = g.modify_embedding((0..n).map(|i| (label(i), ConstVector::from(x[i]))).collect());
    check(out.len() == f.len(), "every vertex has a position");
    for (i, v) in g.vertices_list().iter().enumerate() {
        let (a, b, _, pos, k) = s.names[f[i]];
        let y = out[v];
        let t = if k == 0 { 0.0 } else { pos as f64 / k as f64 };
        for c in 0..2 { check(real_eq(y[c], (1.0 - t) * x[a][c] + t * x[b][c]), "inner points divide the segment evenly"); }
    }
    cover("end");
}
fn maximal_tree() {
    let (m, l, marked) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (e, n) = edge_list(m, l);
    let s = subdivide(&e, n, marked);
    assume(connected(&s.adj) && has_base(&s.adj));
    let g = SimpleGraph::subdivided_graph_from(&graph_of(&e), marked);
    check(g.is_maximal_tree_chosen, "a tree is chosen");
    let v = g.n_vertices();
    // parents
    let mut parent = vec![0; v];
    let mut branches = vec![0; v];
    let mut one = true;
    for j in 1..v {
        let p: Vec<usize> = (0..j).filter(|&i| g.maximal_tree_contains([i, j])).collect();
        one &= p.len() == 1;
        if p.len() != 1 { break }
        parent[j] = p[0];
        branches[p[0]] += 1;
        branches[j] += 1;
        one &= g.contains(p[0], j);
        check(CubeFactor::Vertex(j).flow(&g) == CubeFactor::Edge([p[0], j]), "a vertex flows along its tree edge");
    }
    check(one, "every vertex but the base point has one parent, which is adjacent and smaller");
    check((0..v).all(|i| g.degree_in_maximal_tree(i) == branches[i]), "degree in the tree");
    check(branches[0] == 1, "the base point is an end of the tree");
    // depth first: descendants of i are i+1..last[i]
    let anc = |mut j: usize, i: usize| { while j > i { j = parent[j]; } j == i };
    let mut depth_first = true;
    for j in 1..v { depth_first &= anc(j - 1, parent[j]); }
    check(depth_first, "vertices are numbered depth first");
    let mut back = true;
    for (i, j) in pairs(v) { if g.contains(i, j) { back &= anc(j, i); check(g.maximal_tree_contains([i, j]) == (parent[j] == i), "tree edges"); } }
    check(back, "edges outside the tree lead to ancestors");
    let es: Vec<usize> = (0..v).filter(|&i| g.degree_of(i) >= 3).collect();
    if es.len() >= 1 { cover("branching"); }
    cover("end");
}
fn simple_graph_index() {
    let (e, n) = edge_list(2, 3);
    let s = subdivide(&e, n, 2);
    assume(connected(&s.adj) && has_base(&s.adj));
    let g = SimpleGraph::from(&graph_of(&e));
    let v = bits(64) as usize;
    if v < g.n_vertices() { let v = concretize(v); check(g[v] == g.vertices_list()[v], "names"); cover("inside"); }
    else { must_panic("outside", || { let _ = &g[v]; }); }
}
fn laplacian() {
    let (m, l) = (param(0) as usize, param(1) as usize);
    let (e, n) = edge_list(m, l);
    assume(e.iter().all(|&(a, b)| a != b));
    let w: Vec<i64> = (0..m).map(|_| int(-1000, 1000)).collect();
    let g = WeightedSimpleGraph::from(e.iter().zip(&w).map(|(&(a, b), &w)| (label(a), label(b), w)).collect());
    check(g.n_vertices() == n && (0..n).all(|i| g.vertices()[i] == label(i)), "vertices in the order they appear");
    let mut t = vec![vec![0; n]; n];
    for (&(a, b), &w) in e.iter().zip(&w) { t[a][b] = w; t[b][a] = w; }
    check(g.data().size() == (n, n), "size");
    let mut ok = true;
    for i in 0..n { for j in 0..n { ok &= g.data()[(i, j)] == t[i][j]; } }
    check(ok, "weights");
    let x = g.clone().laplacian();
    let mut ok = true;
    for i in 0..n { for j in 0..n { ok &= x[(i, j)] == if i == j { t[i].iter().sum() } else { -t[i][j] }; } }
    check(ok, "degrees on the diagonal, negated weights elsewhere");
    check(g.data()[(0, n - 1)] == t[0][n - 1], "the graph is unchanged");
    cover("end");
}
fn laplacian_loop() {
    let x = idx(3);
    must_panic("loops are refused", || WeightedSimpleGraph::from(vec![(label(0), label(1), 1i64), (label(x), label(x), 2)]));
}
}
