//! homology of chain complexes given by their boundary maps, against ranks and divisors of minors
use alg::commutative::Rational;
use alg::formal_sum_impl;
use alg::lin_alg::*;
use std::fmt;
use symrt::*;
use topo_spaces::{Complex, HomologyWithFieldCoefficients, IntegralHomology};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Gen(usize);
impl fmt::Display for Gen { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "e{}", self.0) } }
formal_sum_impl! { Gen }
type M = Vec<Vec<i64>>;
struct Maps(Vec<M>);
fn mat(a: &M) -> Matrix<i64> { Matrix::from_array(a.clone()) }
impl Complex for Maps {
    type Cell = Gen;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Gen>)> { self.0.iter().map(|a| (mat(a), (0..a[0].len()).map(Gen).collect())).collect() }
}
struct Over<T>(Vec<Vec<Vec<T>>>);
impl HomologyWithFieldCoefficients<f64> for Over<f64> { fn get_boundary_map(&self) -> Vec<Matrix<f64>> { self.0.iter().map(|a| Matrix::from_array(a.clone())).collect() } }
impl HomologyWithFieldCoefficients<Rational> for Over<Rational> { fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.0.iter().map(|a| Matrix::from_array(a.clone())).collect() } }

fn choices(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 { return vec![vec![]] }
    if n < k { return vec![] }
    let mut out = choices(n - 1, k);
    for mut c in choices(n - 1, k - 1) { c.push(n - 1); out.push(c); }
    out
}
fn det(a: &M, r: &[usize], c: &[usize]) -> i64 {
    if r.is_empty() { return 1 }
    let mut s = 0;
    for j in 0..c.len() {
        let mut d = c.to_vec();
        d.remove(j);
        let x = a[r[0]][c[j]] * det(a, &r[1..], &d);
        if j % 2 == 0 { s += x } else { s -= x }
    }
    s
}
fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b }); while b != 0 { (a, b) = (b, a % b); } a }
/// the greatest common divisor of the k-minors
fn minors(a: &M, k: usize) -> i64 {
    let (n, m) = (a.len(), if a.is_empty() { 0 } else { a[0].len() });
    let mut g = 0;
    for r in choices(n, k) { for c in choices(m, k) { g = gcd(g, det(a, &r, &c)); } }
    g
}
/// rank and invariant factors
fn factors(a: &M) -> Vec<i64> {
    let mut out = vec![];
    let mut last = 1;
    for k in 1..=a.len().min(a[0].len()) { let g = minors(a, k); if g == 0 { break } out.push(g / last); last = g; }
    out
}
fn describe(rank: usize, divisors: &[i64]) -> String {
    let mut parts = vec![];
    if rank == 1 { parts.push("Z".to_string()) } else if rank > 1 { parts.push(format!("Z^{}", rank)) }
    let d: Vec<i64> = divisors.iter().copied().filter(|&x| x != 1).collect();
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j] == d[i] { j += 1; }
        parts.push(if j - i == 1 { format!("Z_{}", d[i]) } else { format!("(Z_{})^{}", d[i], j - i) });
        i = j;
    }
    if parts.is_empty() { "0".to_string() } else { parts.join(" + ") }
}
/// a printed chain
fn chain(s: &str, n: usize) -> Option<Vec<i64>> {
    let mut v = vec![0; n];
    if s == "0" { return Some(v) }
    for (i, t) in s.split(" + ").enumerate() {
        let (k, x) = match t.split_once('·') {
            Some((k, x)) => (if i > 0 { k.strip_prefix('(')?.strip_suffix(')')? } else { k }.parse::<i64>().ok()?, x),
            None if i > 0 => return None,
            None => match t.strip_prefix('-') { Some(x) => (-1, x), None => (1, t) }
        };
        let x: usize = x.strip_prefix('e')?.parse().ok()?;
        if x >= n || v[x] != 0 || k == 0 { return None }
        v[x] = k;
    }
    Some(v)
}
fn chains(s: &str, what: &str, n: &[usize]) -> Option<Vec<Vec<Vec<i64>>>> {
    let mut out: Vec<Vec<Vec<i64>>> = vec![];
    for l in s.lines() {
        if let Some(x) = l.strip_prefix('\t') { let d = out.len() - 1; out[d].push(chain(x.strip_suffix(", ")?, n[d])?); }
        else { if l != format!("{}-{}: ", out.len(), what) { return None } out.push(vec![]); }
    }
    Some(out)
}
fn zero(a: &M, b: &M) -> bool { (0..a.len()).all(|i| (0..b[0].len()).all(|j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum::<i64>() == 0)) }
fn transposed(a: &M) -> M { (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect() }

/// boundary maps of a complex with the stated ranks, entries of magnitude up to e
fn some_complex(e: i64, n: &[usize]) -> Vec<M> {
    let mut maps: Vec<M> = vec![vec![vec![0; n[0]]]];
    for d in 1..n.len() {
        let a: M = (0..n[d - 1]).map(|_| (0..n[d]).map(|_| int(-e, e)).collect()).collect();
        assume(zero(&maps[d - 1], &a));
        maps.push(a);
    }
    maps
}
fn shape() -> (i64, Vec<usize>) { (param(0), (1..5).map(|i| param(i) as usize).take_while(|&x| x > 0).collect()) }

fn homology_of(maps: Vec<M>) {
    let n: Vec<usize> = maps.iter().map(|a| a[0].len()).collect();
    let cut = pick(n.len() + 1);
    let h = IntegralHomology::new(&Maps(maps.clone()), if cut == n.len() { None } else { Some(cut) });
    let f: Vec<Vec<i64>> = maps.iter().map(factors).chain([vec![]]).collect();
    let mut want: Vec<String> = (0..n.len()).map(|d| describe(n[d] - f[d].len() - f[d + 1].len(), &f[d + 1])).collect();
    want.truncate(cut + 1);
    while want.last().is_some_and(|x| x == "0") { want.pop(); }
    let text: String = want.iter().enumerate().map(|(d, m)| format!("dim {}: {},\n", d, m)).collect();
    check(h.to_string() == text, "cycles modulo boundaries, up to the last dimension asked for that has any");
    let (z, b) = (chains(&h.get_description_of_cycles(), "cycles", &n), chains(&h.get_description_of_boundaries(), "boundaries", &n));
    check(z.is_some() && b.is_some(), "lists of chains");
    let (z, b) = (z.unwrap(), b.unwrap());
    check(z.len() == want.len() && b.len() == want.len(), "for every dimension");
    for d in 0..want.len() {
        check(z[d].len() == n[d] - f[d].len() && z[d].iter().all(|x| zero(&maps[d], &x.iter().map(|&k| vec![k]).collect())) && (z[d].is_empty() || minors(&z[d], z[d].len()) == 1), "a basis of the cycles");
        let r = f[d + 1].len();
        check(b[d].len() == r, "as many boundaries as the rank");
        if r == 0 { continue }
        let image = transposed(&maps[d + 1]);
        let both: M = image.iter().chain(&b[d]).cloned().collect();
        let g = minors(&image, r);
        check(minors(&b[d], r) == g && minors(&both, r) == g && (r == n[d] || minors(&both, r + 1) == 0), "a basis of the boundaries");
    }
    if f.iter().any(|x| x.iter().any(|&y| y > 1)) { cover("torsion"); }
    if f.iter().any(|x| x.len() > 1) { cover("rank 2"); }
    if want.is_empty() { cover("acyclic"); }
    cover("end");
}
harnesses! {
fn homology() {
    let (e, n) = shape();
    homology_of(some_complex(e, &n));
}
/// n-cells attached to n-1 cells with any degrees
fn homology_diag() {
    let (e, n) = (param(0), param(1) as usize);
    let s = pick(n);
    homology_of(vec![vec![vec![0; n]], (0..n).map(|i| { let x = int(0, e); (0..n).map(|j| if j == (i + s) % n { x } else { 0 }).collect() }).collect()]);
}
/// homology over the real numbers
fn field_real() {
    let n: Vec<usize> = (0..4).map(|i| param(i) as usize).take_while(|&x| x > 0).collect();
    let mut maps: Vec<Vec<Vec<f64>>> = vec![vec![vec![0.0; n[0]]]];
    for d in 1..n.len() {
        let a: Vec<Vec<f64>> = (0..n[d - 1]).map(|_| (0..n[d]).map(|_| real()).collect()).collect();
        for i in 0..maps[d - 1].len() { for j in 0..n[d] { assume((0..a.len()).map(|k| maps[d - 1][i][k] * a[k][j]).sum::<f64>() == 0.0); } }
        maps.push(a);
    }
    let rank = |a: &Vec<Vec<f64>>| {
        let (r, c) = (a.len(), a[0].len());
        for i in 0..r { for j in 0..i { for k in 0..c { for l in 0..k { if a[i][k] * a[j][l] != a[i][l] * a[j][k] { return 2usize } } } } }
        if a.iter().flatten().any(|&x| x != 0.0) { 1 } else { 0 }
    };
    let r: Vec<usize> = maps.iter().map(rank).chain([0]).collect();
    let want: Vec<usize> = (0..n.len()).map(|d| n[d] - r[d] - r[d + 1]).collect();
    check(Over(maps).homology() == want, "dimension of the cycles minus rank of the boundaries");
    if r.iter().any(|&x| x > 1) { cover("rank 2"); }
    if want[0] == 0 { cover("acyclic"); }
    cover("end");
}
/// homology over the rational numbers, for integer boundary maps
fn field_rational() {
    let (e, n) = shape();
    let maps = some_complex(e, &n);
    let f: Vec<usize> = maps.iter().map(|a| factors(a).len()).chain([0]).collect();
    let q = Over(maps.iter().map(|a| a.iter().map(|r| r.iter().map(|&x| Rational::from(x)).collect()).collect()).collect());
    check(q.homology() == (0..n.len()).map(|d| n[d] - f[d] - f[d + 1]).collect::<Vec<_>>(), "dimension of the cycles minus rank of the boundaries");
    check(Over::<Rational>(vec![]).homology().is_empty(), "nothing");
    cover("end");
}
/// printing, comparing and testing modules
fn modules() {
    let b = param(0);
    let one = || {
        let (r, mut d) = (pick(4), vec![]);
        let mut last = 1;
        for _ in 0..pick(3) { last *= int(1, b); if d.last() != Some(&last) { d.push(last); } }
        let k: Vec<usize> = d.iter().map(|_| 1 + pick(2)).collect();
        (r, d, k)
    };
    let build = |x: &(usize, Vec<i64>, Vec<usize>)| Module::new(x.0, x.1.iter().copied().zip(x.2.iter().copied()).collect());
    let all = |x: &(usize, Vec<i64>, Vec<usize>)| x.1.iter().zip(&x.2).flat_map(|(&d, &k)| vec![d; k]).filter(|&d| d != 1).collect::<Vec<i64>>();
    let x = one();
    let m = build(&x);
    check(m.is_zero() == (x.0 == 0 && all(&x).is_empty()), "zero");
    if choose() {
        check(m.to_string() == describe(x.0, &all(&x)), "free part and torsion");
        check(Module::<i64>::trivial().to_string() == "0" && Module::<i64>::trivial().is_zero(), "the trivial module");
        cover("printed");
    } else {
        let y = one();
        let same = x.0 == y.0 && all(&x) == all(&y);
        check(m.is_isomorphic_to(build(&y)) == same, "same rank and elementary divisors");
        if same { cover("isomorphic") } else { cover("not isomorphic") }
    }
}
}
