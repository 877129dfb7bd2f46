//! simplicial complexes against lists of faces
use symrt::*;
use std::collections::BTreeSet;
use topo_spaces::simplicial::*;
use topo_spaces::Complex;

type Face = BTreeSet<usize>;
fn subsets(f: &Face, n: usize) -> Vec<Face> {
    let v: Vec<usize> = f.iter().copied().collect();
    let mut out = vec![];
    fn go(v: &[usize], n: usize, cur: &mut Vec<usize>, out: &mut Vec<Face>) {
        if n == 0 { out.push(cur.iter().copied().collect()); return }
        for i in 0..v.len() { cur.push(v[i]); go(&v[i + 1..], n - 1, cur, out); cur.pop(); }
    }
    if n <= v.len() { go(&v, n, &mut vec![], &mut out); }
    out
}
/// k simplices with up to s labels each of l labels, numbered in the order they appear after `seen` others
fn simplices(k: usize, s: usize, l: usize) -> (Vec<Vec<usize>>, usize) {
    let mut n = 0;
    let out = (0..k).map(|_| {
        let mut x = vec![];
        for _ in 0..1 + pick(s) {
            let left: Vec<usize> = (0..(n + 1).min(l)).filter(|i| !x.contains(i)).collect();
            if left.is_empty() { break }
            let y = left[pick(left.len())];
            if y == n { n += 1; }
            x.push(y);
        }
        x
    }).collect();
    (out, n)
}
fn connected(n: usize, all: &[Face]) -> bool {
    let mut r = vec![false; n];
    r[0] = true;
    for _ in 0..n { for f in all { if f.iter().any(|&v| r[v]) { for &v in f { r[v] = true; } } } }
    r.iter().all(|&x| x)
}
/// name: the label of the i-th vertex
fn verify<T: VertexLabel>(c: &SimplicialCplx<T>, n: usize, all: &[Face], name: impl Fn(usize) -> T, cells: bool) {
    check(c.n_vertices() == n && c.get_labeled_zero_skeleton().len() == n, "number of vertices");
    let mut ok = true;
    for i in 0..n { ok &= c.get_labeled_zero_skeleton()[i] == name(i); }
    check(ok, "labels in the order they were attached");
    let top = all.iter().map(|f| f.len()).max().unwrap() - 1;
    check(c.dim() == top, "dimension");
    check(c.is_connected() == connected(n, all), "connected");
    let count = |d: usize| all.iter().flat_map(|f| subsets(f, d + 1)).collect::<BTreeSet<Face>>();
    for d in 0..=(top + 1).min(if cells { 9 } else { 1 }) { check(c.n_cells_of_dim(d) == count(d).len(), "number of cells"); }
    if !cells { return }
    let maps = c.boundary_map();
    check(maps.len() == top + 1, "one boundary map for every dimension");
    let at = |x: &T| (0..n).find(|&i| name(i) == *x).unwrap_or(usize::MAX);
    let mut last: Vec<Vec<usize>> = vec![];
    for d in 0..maps.len() {
        let basis: Vec<Vec<usize>> = maps[d].1.iter().map(|s| s.vertices_labels.iter().map(at).collect()).collect();
        let sets: BTreeSet<Face> = basis.iter().map(|s| s.iter().copied().collect()).collect();
        check(maps[d].1.iter().all(|s| s.dim == d && s.vertices_labels.len() == d + 1) && sets.len() == basis.len() && sets == count(d), "the basis consists of all faces of this dimension, once");
        let m = &maps[d].0;
        check(m.size() == (if d == 0 { 1 } else { last.len() }, basis.len()), "size of the boundary map");
        let mut ok = true;
        for (j, s) in basis.iter().enumerate() {
            if d == 0 { ok &= m[(0, j)] == 0; continue }
            let mut order = s.clone();
            order.sort();
            let mut sign = 0;
            for i in 0..=d {
                let mut f = order.clone();
                f.remove(i);
                let x = last.iter().position(|g| { let mut g = g.clone(); g.sort(); g == f }).map(|r| m[(r, j)]).unwrap_or(0);
                ok &= x == 1 || x == -1;
                ok &= i == 0 || x == -sign;
                sign = x;
            }
            ok &= (0..last.len()).filter(|&r| m[(r, j)] != 0).count() == d + 1;
        }
        check(ok, "entries are the alternating signs of the faces");
        last = basis;
    }
}
harnesses! {
fn complexes() {
    let (k, s, l, b) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as u32);
    let (x, n) = simplices(k, s, l);
    // labels: any different numbers
    let label: Vec<usize> = (0..n).map(|i| if b == 0 { 10 * ((i + 2) % n) } else { bits(b) as usize }).collect();
    for i in 0..n { for j in 0..i { assume(label[i] != label[j]); } }
    let mut c = SimplicialCplx::new();
    for f in &x { c.attach(Simplex::from(f.iter().map(|&i| label[i]).collect())); }
    let all: Vec<Face> = x.iter().map(|f| f.iter().copied().collect()).collect();
    if connected(n, &all) { cover("connected") } else { cover("not connected") }
    if (0..k).any(|i| (0..i).any(|j| all[j].is_subset(&all[i]) || all[i].is_subset(&all[j]))) { cover("contained") }
    verify(&c, n, &all, |i| label[i], true);
    if choose() {
        // attaching a face again changes nothing
        let f = &x[pick(k)];
        c.attach(Simplex::from(f[pick(f.len())..].iter().map(|&i| label[i]).collect()));
        verify(&c, n, &all, |i| label[i], true);
        cover("again");
    }
}
fn complexes_named() {
    // strings; starting from a set of vertices or a single simplex
    let (k, s, l) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (x, n) = simplices(k, s, l);
    let name = |i: usize| crate::graph::label(i);
    let mut all: Vec<Face> = x.iter().map(|f| f.iter().copied().collect()).collect();
    let mut n = n;
    let mut c = if choose() { n = l; cover("vertices"); for i in 0..l { all.push(Face::from([i])); } SimplicialCplx::new_from_zero_skeleton((0..l).map(name).collect()) } else { SimplicialCplx::new_from(Simplex::from(x[0].iter().map(|&i| name(i)).collect())) };
    for f in &x { c.attach(Simplex::from(f.iter().map(|&i| name(i)).collect())); }
    verify(&c, n, &all, name, true);
    cover("end");
}
fn complexes_large() {
    // f vertices, all in one simplex or none, then k simplices on the last ones and new ones
    let (f, k, s, l) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
    let (x, n) = simplices(k, s, l);
    let base = f - l / 2;
    let x: Vec<Vec<usize>> = x.into_iter().map(|y| y.into_iter().map(|i| base + i).collect()).collect();
    let joined = choose();
    let mut all: Vec<Face> = x.iter().map(|y| y.iter().copied().collect()).collect();
    let mut c = SimplicialCplx::new();
    if joined { c.attach(Simplex::from((0..f).collect())); all.push((0..f).collect()); cover("one simplex"); }
    else { c = SimplicialCplx::new_from_zero_skeleton((0..f).collect()); for i in 0..f { all.push(Face::from([i])); } }
    for y in &x { c.attach(Simplex::from(y.clone())); }
    verify(&c, f.max(base + n), &all, |i| i, !joined);
    if base + n > 64 { cover("second word"); }
    cover("end");
}
fn complexes_repeated() {
    let b = param(0) as u32;
    let x: Vec<usize> = (0..3).map(|_| bits(b) as usize).collect();
    assume(x[0] == x[1] || x[0] == x[2] || x[1] == x[2]);
    must_panic("repeated labels are refused", || { let mut c = SimplicialCplx::new(); c.attach(Simplex::from(x.clone())); });
}
fn complexes_binomial() {
    let n = param(0) as usize;
    let d = idx(n + 1);
    let d = concretize(d);
    let mut c = SimplicialCplx::new();
    c.attach(Simplex::from((0..n).collect()));
    let mut b = 1u128;
    for i in 0..=d { b = b * (n - i.min(n)) as u128 / (i + 1) as u128; }
    check(c.n_cells_of_dim(d) as u128 == b, "number of cells of a simplex");
    cover("end");
}
}
