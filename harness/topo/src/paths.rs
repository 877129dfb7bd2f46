//! edge paths: motions of points along edges up to commutation of disjoint moves
use crate::cube::{some_graph, to_cube, Tree};
use alg::non_commutative::permutation::ConstPermutation;
use std::collections::BTreeSet;
use symrt::*;
use topo_spaces::cubical::*;
use topo_spaces::graph::*;

type Move = [usize; 2];
fn back(e: &Move) -> Move { [e[1], e[0]] }
fn disjoint(e: &Move, f: &Move) -> bool { e[0] != f[0] && e[0] != f[1] && e[1] != f[0] && e[1] != f[1] }
/// cancel moves with their opposites while only disjoint moves are between them
fn reduced(mut w: Vec<Move>) -> Vec<Move> {
    'again: loop {
        for j in 0..w.len() {
            for i in (0..j).rev() {
                if w[i] == back(&w[j]) { w.remove(j); w.remove(i); continue 'again }
                if !disjoint(&w[i], &w[j]) { break }
            }
        }
        return w
    }
}
/// every move as early as possible
fn layers(w: &[Move]) -> Vec<BTreeSet<Move>> {
    let mut at = vec![];
    let mut out: Vec<BTreeSet<Move>> = vec![];
    for (j, e) in w.iter().enumerate() {
        let l = (0..j).filter(|&i| !disjoint(&w[i], e)).map(|i| at[i] + 1usize).max().unwrap_or(0);
        at.push(l);
        if out.len() <= l { out.resize(l + 1, BTreeSet::new()); }
        out[l].insert(*e);
    }
    out
}
fn is(p: &EdgePath, w: &[Move]) -> bool {
    let w = layers(&reduced(w.to_vec()));
    let steps: Vec<BTreeSet<Move>> = p.iter().filter(|s| !s.is_empty()).map(|s| s.iter().copied().collect()).collect();
    p.iter().map(|s| s.len()).sum::<usize>() == steps.iter().map(|s| s.len()).sum::<usize>() && steps == w && p.iter().all(|s| !s.is_empty() || w.is_empty())
}
/// k moves between l vertices, one path per pattern of equal ends; the vertices have any different numbers
fn word(k: usize, l: usize, b: u32) -> Vec<Move> {
    let mut n = 0;
    let mut w = vec![];
    for _ in 0..k {
        let x = pick((n + 1).min(l)); if x == n { n += 1; }
        let y = pick((n + 1).min(l)); if y == n { n += 1; }
        assume(x != y);
        w.push([x, y]);
    }
    if b == 0 { return w }
    let v: Vec<usize> = (0..n).map(|_| bits(b) as usize).collect();
    for i in 0..n { for j in 0..i { assume(v[i] != v[j]); } }
    w.into_iter().map(|e| [v[e[0]], v[e[1]]]).collect()
}
fn path(w: &[Move]) -> EdgePath {
    // one move at a time, or two moves in a step
    let c = if choose() { 1 } else { 2 };
    EdgePath::from(w.chunks(c).map(|s| s.to_vec()).collect::<Vec<_>>())
}
/// run a path with tokens at `at` (sorted by number): the final position of every token
fn run(g: &RawSimpleGraph, at: &[usize], p: &EdgePath) -> Option<Vec<usize>> {
    let mut at = at.to_vec();
    for s in p.iter() {
        let mut next = at.clone();
        for (i, e) in s.iter().enumerate() {
            if !s[..i].iter().all(|f| disjoint(e, f)) || !g.contains(e[0].min(e[1]), e[0].max(e[1])) || at.contains(&e[1]) { return None }
            let t = at.iter().position(|&x| x == e[0])?;
            next[t] = e[1];
        }
        at = next;
    }
    Some(at)
}
/// the moves that take a configuration to the base configuration
fn home(t: &Tree, c: &[usize]) -> Vec<Move> {
    let mut c = c.to_vec();
    let mut w = vec![];
    loop {
        let v = match c.iter().copied().filter(|&v| v != 0 && !c.contains(&t.parent[v])).min() { Some(v) => v, None => return w };
        w.push([v, t.parent[v]]);
        let i = c.iter().position(|&x| x == v).unwrap();
        c[i] = t.parent[v];
    }
}
fn flip(w: &[Move]) -> Vec<Move> { w.iter().rev().map(back).collect() }

harnesses! {
fn geodesic() {
    let (k, l, b) = (param(0) as usize, param(1) as usize, param(2) as u32);
    let w = word(k, l, b);
    let p = path(&w).reduce_to_geodesic();
    check(is(&p, &w), "moves cancel exactly when only disjoint moves are between them, and happen as early as possible");
    check(p.clone().reduce_to_geodesic() == p, "reducing twice is reducing once");
    if reduced(w.clone()).len() < w.len() { cover("cancelling"); }
    if layers(&w).len() < w.len() { cover("parallel"); }
    cover("end");
}
fn path_group() {
    let (k, l, b) = (param(0) as usize, param(1) as usize, param(2) as u32);
    let w = word(k, l, b);
    let j = pick(k + 1);
    let p = path(&w);
    check(is(&p.clone().inverse(), &flip(&w)), "the inverse moves back");
    let (q, r) = (path(&w[..j]), path(&w[j..]));
    let both: Vec<Vec<Move>> = q.iter().chain(r.iter()).cloned().collect();
    let c = q.clone().composed_with(r);
    check(*c == both, "composition runs one path after the other");
    check(is(&p.clone().composed_with(p.inverse()).reduce_to_geodesic(), &[]), "a path and its inverse cancel");
    check(EdgePath::trivial_path().is_empty() && q.clone().composed_with(EdgePath::trivial_path()) == q, "the trivial path");
    cover("end");
}
fn path_permutation() {
    let (k, v) = (param(0) as usize, param(1) as usize);
    const N: usize = 3;
    let mut at = [0, 1, 2];
    let mut steps = vec![];
    for _ in 0..k {
        let mut s: Vec<Move> = vec![];
        let mut next = at;
        for t in 0..N {
            if !choose() { continue }
            let free: Vec<usize> = (0..v).filter(|x| !at.contains(x) && !next.contains(x)).collect();
            assume(!free.is_empty());
            next[t] = free[pick(free.len())];
            s.push([at[t], next[t]]);
        }
        assume(!s.is_empty());
        if s.len() > 1 { cover("parallel"); }
        steps.push(s);
        at = next;
    }
    let mut back = at;
    back.sort();
    assume(back == [0, 1, 2]);
    check(EdgePath::from(steps).evaluate_permutation::<N>() == ConstPermutation::from(at), "where the points end");
    if at != [0, 1, 2] { cover("permuted"); }
    cover("end");
}
fn path_permutation_empty() {
    let (a, b) = (bits(64) as usize, bits(64) as usize);
    assume(a > 2);
    must_panic("no point there", || EdgePath::from(vec![vec![[a, b]]]).evaluate_permutation::<3>());
}
fn loops() {
    let (g, n) = some_graph();
    let g = SimpleGraph::subdivided_graph_from(&g, n);
    let t = Tree::new(&g);
    let base: Vec<usize> = (0..n).collect();
    let (mut valid, mut right) = (true, true);
    for c in t.cells(n) {
        let d = c.iter().filter(|f| f[0] != f[1]).count();
        if d > 1 { continue }
        let cube = to_cube(&c);
        let end = |k: usize| c.iter().map(|f| f[k]).collect::<Vec<_>>();
        if d == 0 {
            let w = home(&t, &end(0));
            let (to, from) = (g.get_edge_path_to_from_base_pt(cube.clone(), true), g.get_edge_path_to_from_base_pt(cube, false));
            right &= is(&to, &w) && is(&from, &flip(&w));
            let s = |x: Option<Vec<usize>>| x.map(|mut x| { x.sort(); x });
            valid &= s(run(&g, &end(0), &to)) == Some(base.clone()) && s(run(&g, &base, &from)) == s(Some(end(0)));
        } else {
            let e = c.iter().find(|f| f[0] != f[1]).unwrap();
            let mut w = flip(&home(&t, &end(1)));
            w.push(back(e));
            w.extend(home(&t, &end(0)));
            let p = g.get_edge_path(cube);
            right &= is(&p, &w);
            let at = run(&g, &base, &p);
            let mut s = at.clone().unwrap_or(vec![]);
            s.sort();
            valid &= s == base;
            if let Some(at) = at {
                if at != base { cover("permuted"); }
                if n == 2 { right &= p.evaluate_permutation::<2>() == ConstPermutation::from([at[0], at[1]]); }
                if n == 3 { right &= p.evaluate_permutation::<3>() == ConstPermutation::from([at[0], at[1], at[2]]); }
            }
        }
    }
    check(valid, "a motion of points along free edges that comes back to the base configuration");
    check(right, "out along the tree, across the edge, and back along the tree");
    cover("end");
}
}
