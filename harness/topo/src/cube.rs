//! cubical complexes of configuration spaces and their Morse complexes against brute force
use crate::graph::{connected, edge_list, graph_of, has_base, subdivide};
use alg::lin_alg::*;
use std::collections::{BTreeMap, BTreeSet};
use symrt::*;
use topo_spaces::cubical::*;
use topo_spaces::graph::*;
use topo_spaces::{Complex, IntegralHomology};

use CubeFactor::{Edge, Vertex};
/// a cell: disjoint factors sorted by their smaller end; [a, a] is the vertex a
pub type Cell = Vec<[usize; 2]>;
pub type Chain = BTreeMap<Cell, i64>;
fn add(c: &mut Chain, x: Cell, k: i64) { let e = c.entry(x.clone()).or_insert(0); *e += k; if *e == 0 { c.remove(&x); } }
fn plus(c: &mut Chain, d: &Chain, k: i64) { for (x, l) in d { add(c, x.clone(), k * l); } }
fn dim(c: &Cell) -> usize { c.iter().filter(|f| f[0] != f[1]).count() }
fn of_cube(c: &Cube) -> Cell { c.iter().map(|f| match *f { Vertex(v) => [v, v], Edge(e) => e }).collect() }
pub fn to_cube(c: &Cell) -> Cube { Cube::from(c.iter().map(|&[a, b]| if a == b { Vertex(a) } else { Edge([a, b]) }).collect::<Vec<_>>()) }
fn of_sum(s: Vector<i64, Cube>) -> (Chain, bool) {
    let (mut c, mut canonical) = (Chain::new(), true);
    for (k, x) in s.into_iter() { canonical &= k != 0; let x = of_cube(&x); canonical &= !c.contains_key(&x); add(&mut c, x, k); }
    (c, canonical)
}
fn face(c: &Cell, i: usize, end: usize) -> Cell { let mut f = c.clone(); f[i] = [c[i][end], c[i][end]]; f.sort(); f }
/// the boundary: alternating in the edges, smaller end minus larger end
fn boundary(c: &Cell) -> Chain {
    let (mut out, mut sign) = (Chain::new(), 1);
    for i in 0..c.len() { if c[i][0] != c[i][1] { add(&mut out, face(c, i, 0), sign); add(&mut out, face(c, i, 1), -sign); sign = -sign; } }
    out
}
/// a subdivided graph with its maximal tree
pub struct Tree { n: usize, factors: Vec<[usize; 2]>, pub parent: Vec<usize>, flows: BTreeMap<Cell, Chain> }
impl Tree {
    pub fn new(g: &RawSimpleGraph) -> Tree {
        let n = g.n_vertices();
        let mut factors: Vec<[usize; 2]> = (0..n).map(|v| [v, v]).collect();
        let mut parent = vec![usize::MAX; n];
        for j in 0..n { for i in 0..j { if g.contains(i, j) { factors.push([i, j]); if g.maximal_tree_contains([i, j]) { parent[j] = i; } } } }
        factors.sort();
        Tree { n, factors, parent, flows: BTreeMap::new() }
    }
    /// every set of k disjoint factors
    pub fn cells(&self, k: usize) -> Vec<Cell> {
        fn go(f: &[[usize; 2]], k: usize, from: usize, c: &mut Cell, out: &mut Vec<Cell>) {
            if k == 0 { out.push(c.clone()); return }
            for i in from..f.len() {
                if c.iter().all(|g| g[0] != f[i][0] && g[0] != f[i][1] && g[1] != f[i][0] && g[1] != f[i][1]) { c.push(f[i]); go(f, k - 1, i + 1, c, out); c.pop(); }
            }
        }
        let mut out = vec![];
        go(&self.factors, k, 0, &mut vec![], &mut out);
        out
    }
    fn touches(c: &Cell, v: usize) -> bool { c.iter().any(|f| f[0] == v || f[1] == v) }
    fn blocked(&self, c: &Cell, v: usize) -> bool { v == 0 || Self::touches(c, self.parent[v]) }
    /// a tree edge is respected unless a vertex between its ends has the same parent
    fn respected(&self, c: &Cell, e: [usize; 2]) -> bool { !c.iter().any(|f| f[0] == f[1] && e[0] < f[0] && f[0] < e[1] && self.parent[f[0]] == e[0]) }
    /// the smallest unblocked vertex or order-respecting tree edge (numbered by its larger end)
    fn first(&self, c: &Cell) -> Option<usize> {
        (0..c.len()).filter(|&i| { let [a, b] = c[i]; if a == b { !self.blocked(c, a) } else { self.parent[b] == a && self.respected(c, c[i]) } }).min_by_key(|&i| c[i][1])
    }
    fn critical(&self, c: &Cell) -> bool { self.first(c).is_none() }
    /// the chain of critical cells a cell flows to
    fn flow(&mut self, c: &Cell) -> Chain {
        if let Some(x) = self.flows.get(c) { return x.clone() }
        let out = match self.first(c) {
            None => Chain::from([(c.clone(), 1)]),
            Some(i) if c[i][0] != c[i][1] => Chain::new(),
            Some(i) => {
                let mut up = c.clone();
                up[i] = [self.parent[c[i][0]], c[i][0]];
                up.sort();
                let mut b = boundary(&up);
                let k = b[c];
                add(&mut b, c.clone(), -k);
                self.flow_of(&b, -k)
            }
        };
        self.flows.insert(c.clone(), out.clone());
        out
    }
    fn flow_of(&mut self, b: &Chain, k: i64) -> Chain { let mut out = Chain::new(); for (x, l) in b { let y = self.flow(x); plus(&mut out, &y, k * l); } out }
}
pub fn some_graph() -> (Graph<i64>, usize) {
    let (m, l, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
    // l = 0: a tree of m edges (every vertex hangs on an earlier one) and further edges between any of its vertices
    let (e, v) = if l > 0 { edge_list(m, l) } else {
        let mut e: Vec<(usize, usize)> = (1..=m).map(|i| (pick(i), i)).collect();
        for _ in 0..param(3) { let j = pick(m + 1); e.push((pick(j + 1), j)); }
        (e, m + 1)
    };
    let s = subdivide(&e, v, n);
    assume(connected(&s.adj) && has_base(&s.adj));
    (graph_of(&e), n)
}
fn distinct(cells: &[Cell]) -> bool { cells.iter().collect::<BTreeSet<_>>().len() == cells.len() }
fn matrix_is(m: &Matrix<i64>, rows: &[Cell], cols: &[Cell], mut f: impl FnMut(&Cell) -> Chain) -> bool {
    if m.size() != (rows.len(), cols.len()) { return false }
    for (j, c) in cols.iter().enumerate() {
        let d = f(c);
        if d.keys().any(|x| !rows.contains(x)) { return false }
        for (i, r) in rows.iter().enumerate() { if m[(i, j)] != *d.get(r).unwrap_or(&0) { return false } }
    }
    true
}

harnesses! {
fn cubical_complex() {
    let (g, n) = some_graph();
    let t = Tree::new(&SimpleGraph::subdivided_graph_from(&g, n));
    let want = t.cells(n);
    let cplx = CubicalCplx::udc(&g, n);
    check(cplx.n_cells() == want.len(), "number of cells");
    let maps = cplx.boundary_map();
    let top = want.iter().map(dim).max().unwrap();
    check(maps.len() == top + 1, "dimension");
    let cells: Vec<Vec<Cell>> = maps.iter().map(|(_, b)| b.iter().map(of_cube).collect()).collect();
    for d in 0..cells.len() {
        let w: BTreeSet<&Cell> = want.iter().filter(|c| dim(c) == d).collect();
        check(distinct(&cells[d]) && cells[d].iter().collect::<BTreeSet<_>>() == w, "the cells are the sets of disjoint vertices and edges");
        if d > 0 { check(matrix_is(&maps[d].0, &cells[d - 1], &cells[d], boundary), "entries are signs of faces"); }
    }
    check(maps[0].0.size() == (1, cells[0].len()) && (0..cells[0].len()).all(|i| maps[0].0[(0, i)] == 0), "vertices have no boundary");
    if top >= 2 { cover("squares"); }
    cover("end");
}
fn cube_boundary() {
    // k factors with any numbers
    let (k, w) = (param(0) as usize, param(1) as u32);
    let mut c: Cell = vec![];
    for _ in 0..k { let a = bits(w) as usize; if choose() { let b = bits(w) as usize; assume(a < b); c.push([a, b]); } else { c.push([a, a]); } }
    for i in 1..k { assume(c[i - 1][0] < c[i][0]); }
    for i in 0..k { for j in 0..i { assume(c[i][0] != c[j][1] && c[i][1] != c[j][1]); } }
    let got = to_cube(&c).get_boundary();
    let mut n = 0;
    let mut sign = 1;
    for i in 0..k { if c[i][0] != c[i][1] {
        n += 2;
        check(got[&to_cube(&face(&c, i, 0))] == sign, "smaller ends");
        check(got[&to_cube(&face(&c, i, 1))] == -sign, "larger ends");
        sign = -sign;
    } }
    check(got.iter().count() == n, "nothing else");
    let twice = got.into_iter().map(|(l, x)| x.get_boundary() * l).sum::<Vector<i64, Cube>>();
    check(twice.iter().count() == 0, "the boundary of the boundary vanishes");
    if dim(&c) >= 2 { cover("squares"); }
    cover("end");
}
fn cube_ends() {
    let (k, w) = (param(0) as usize, param(1) as u32);
    let c: Cell = (0..k).map(|_| { let a = bits(w) as usize; let b = if choose() { bits(w) as usize } else { a }; assume(a <= b); [a, b] }).collect();
    let edges = (0..k).filter(|&i| matches!(to_cube(&c)[i], Edge(_))).count();
    if edges != 1 { must_panic("not an edge", || to_cube(&c).get_ends()); }
    let [s, t] = to_cube(&c).get_ends();
    check(s.len() == k && t.len() == k && (0..k).all(|i| s[i] == Vertex(c[i][0]) && t[i] == Vertex(c[i][1])), "smaller and larger end");
    cover("end");
}
fn factors() {
    let w = param(0) as u32;
    let f = |c: [usize; 2]| if c[0] == c[1] { Vertex(c[0]) } else { Edge(c) };
    let mut c = [[0; 2]; 2];
    for x in &mut c { let a = bits(w) as usize; let b = if choose() { bits(w) as usize } else { a }; assume(a <= b); *x = [a, b]; }
    let [x, y] = c;
    let disjoint = x[0] != y[0] && x[0] != y[1] && x[1] != y[0] && x[1] != y[1];
    check(f(x).is_disjoint_from(f(y)) == disjoint, "disjoint");
    let edge = x[0] != x[1];
    check(f(x).is_edge() == edge && f(x).is_vertex() == !edge, "kind");
    check(f(x).get_order() == x[0], "number");
    let o = f(x).partial_cmp(&f(y));
    check(o == if x == y { Some(std::cmp::Ordering::Equal) } else if disjoint { Some(x[0].cmp(&y[0])) } else { None }, "disjoint factors are ordered by their smaller ends");
    if edge {
        check(f(x).edge() == x && f(x).terminal() == Vertex(x[0]) && f(x).initial() == Vertex(x[1]), "ends");
        if w < 64 { check(f(x).is_order_respecting() == (x[0] + 1 == x[1]), "consecutive ends"); }
        let v = bits(w) as usize;
        check(Vertex(v).is_disrespected_by(f(x)) == (x[0] < v && v < x[1]), "between the ends");
    } else { check(f(x).vertex() == x[0], "vertex"); }
    cover("end");
}
fn morse_cells() {
    let (g, n) = some_graph();
    let up = pick(n + 2);
    let up = if up == n + 1 { None } else { Some(up) };
    let cplx = UdnMorseCplx::new(&g, n, up);
    let t = Tree::new(&cplx.factor_pool);
    let want: Vec<Cell> = t.cells(n).into_iter().filter(|c| t.critical(c)).collect();
    for d in 0..=n {
        let got: Vec<Cell> = cplx.get_cells_of_dim(d).iter().map(of_cube).collect();
        let w: BTreeSet<&Cell> = want.iter().filter(|c| dim(c) == d && d <= up.unwrap_or(d)).collect();
        check(distinct(&got) && got.iter().collect::<BTreeSet<_>>() == w, "the cells are the critical cells");
    }
    if want.iter().any(|c| dim(c) >= 2) { cover("squares"); }
    cover("end");
}
fn morse_flow() {
    let (g, n) = some_graph();
    let g = SimpleGraph::subdivided_graph_from(&g, n);
    let mut t = Tree::new(&g);
    let (mut critical, mut sum) = (true, true);
    for c in t.cells(n) {
        if t.first(&c).is_some_and(|i| c[i][0] == c[i][1]) && dim(&c) > 0 { cover("redundant"); }
        let (got, canonical) = of_sum(to_cube(&c).flow(&g));
        for x in got.keys() { critical &= t.critical(x); }
        sum &= canonical && got == t.flow(&c);
    }
    check(critical, "cells flow to critical cells");
    check(sum, "the flow is the limit of pushing redundant cells along their edges");
    cover("end");
}
fn morse_boundary() {
    let (g, n) = some_graph();
    let cplx = UdnMorseCplx::new(&g, n, None);
    let mut t = Tree::new(&cplx.factor_pool);
    let maps = cplx.boundary_map();
    let cells: Vec<Vec<Cell>> = maps.iter().map(|(_, b)| b.iter().map(of_cube).collect()).collect();
    let top = (0..=n).filter(|&d| cplx.get_cells_of_dim(d).len() > 0).max().unwrap();
    check(cells.len() == top + 1 && (0..cells.len()).all(|d| cells[d] == cplx.get_cells_of_dim(d).iter().map(of_cube).collect::<Vec<_>>()), "the basis consists of the critical cells");
    for d in 1..cells.len() { check(matrix_is(&maps[d].0, &cells[d - 1], &cells[d], |c| t.flow_of(&boundary(c), 1)), "boundaries flow to critical cells"); }
    check(maps[0].0.size() == (1, 1) && maps[0].0[(0, 0)] == 0, "one vertex without boundary");
    let mut zero = true;
    for d in 2..maps.len() {
        let p = maps[d - 1].0.clone() * maps[d].0.clone();
        for i in 0..p.size().0 { for j in 0..p.size().1 { zero &= p[(i, j)] == 0; } }
    }
    check(zero, "the boundary of the boundary vanishes");
    if top >= 2 { cover("squares"); }
    cover("end");
}
fn morse_homology() {
    let (g, n) = some_graph();
    let a = IntegralHomology::new(&UdnMorseCplx::new(&g, n, None), None).to_string();
    let b = IntegralHomology::new(&CubicalCplx::udc(&g, n), None).to_string();
    check(a == b, "the Morse complex has the homology of the cubical complex");
    if a.contains("dim 1") { cover("loops"); }
    cover("end");
}
}
