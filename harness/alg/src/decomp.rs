//! Smith normal form and rank
use symrt::*;
use alg::lin_alg::*;
use alg::commutative::Rational;
use crate::matrix::{table, mat, is, prod};

type M = Matrix<i64>;
fn get(m: &SubMatrix<i64>) -> Vec<Vec<i64>> { (0..m.size().0).map(|i| (0..m.size().1).map(|j| m[(i, j)]).collect()).collect() }
fn unit(n: usize) -> Vec<Vec<i64>> { (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect() }
pub fn det(a: &[Vec<i64>]) -> i64 {
    if a.len() == 1 { return a[0][0]; }
    let mut s = 0;
    for j in 0..a.len() {
        let minor: Vec<Vec<i64>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|x| x.0 != j).map(|x| *x.1).collect()).collect();
        let d = a[0][j] * det(&minor);
        if j % 2 == 0 { s += d } else { s -= d }
    }
    s
}
fn snf_of(t: &[Vec<i64>]) {
    let (n, m) = (t.len(), t[0].len());
    let (ri, r, d, c, ci) = mat(t).smith_normal_form();
    check(d.size() == (n, m) && r.size() == (n, n) && ri.size() == (n, n) && c.size() == (m, m) && ci.size() == (m, m), "sizes");
    let (ri, r, d, c, ci) = (get(&ri), get(&r), get(&d), get(&c), get(&ci));
    let k = n.min(m);
    for i in 0..n { for j in 0..m { if i != j { check(d[i][j] == 0, "diagonal"); } } }
    for i in 0..k { check(d[i][i] >= 0, "no negative divisor"); }
    for i in 1..k {
        check(d[i - 1][i - 1] != 0 || d[i][i] == 0, "zeros come last");
        if d[i - 1][i - 1] != 0 { check(d[i][i] % d[i - 1][i - 1] == 0, "each divisor divides the next"); }
    }
    check(prod(&prod(&r, t), &c) == d, "row operations times the matrix times column operations");
    check(prod(&r, &ri) == unit(n) && prod(&ri, &r) == unit(n), "inverse of the row operations");
    check(prod(&c, &ci) == unit(m) && prod(&ci, &c) == unit(m), "inverse of the column operations");
    if k > 1 && d[1][1] > 1 { cover("torsion"); }
    if k > 1 && d[1][1] != d[0][0] && d[1][1] != 0 { cover("distinct"); }
    if k > 1 && d[0][0] != 0 && d[1][1] == 0 { cover("rank 1"); }
}
harnesses! {
fn snf() { snf_of(&table(param(0) as usize, param(1) as usize, param(2))); cover("end"); }
/// diagonal matrices with larger entries in any position
fn snf_diag() {
    let (n, m, b) = (param(0) as usize, param(1) as usize, param(2));
    let mut t = vec![vec![0; m]; n];
    for i in 0..n.min(m) { t[i][i] = int(-b, b); }
    snf_of(&t); cover("end");
}
/// one row or one column
fn snf_line() {
    let (n, b) = (param(0) as usize, param(1));
    if choose() { snf_of(&table(1, n, b)) } else { snf_of(&table(n, 1, b)) }
    cover("end");
}
fn rank_real() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let mut a = Matrix::<f64>::zero(n, m);
    let t: Vec<Vec<f64>> = (0..n).map(|_| (0..m).map(|_| real()).collect()).collect();
    for i in 0..n { for j in 0..m { a[(i, j)] = t[i][j]; } }
    let r = a.rank_as_linear_map();
    let mut want = 0;
    if t.iter().flatten().any(|x| *x != 0.0) { want = 1; }
    'two: for i in 0..n { for k in i + 1..n { for j in 0..m { for l in j + 1..m { if t[i][j] * t[k][l] - t[i][l] * t[k][j] != 0.0 { want = 2; break 'two; } } } } }
    if n.min(m) == 3 {
        let rows: Vec<usize> = (0..n).collect();
        'three: for s in 0..4 { for u in 0..4 {
            let pr: Vec<usize> = if n == 3 { if s > 0 { continue; } rows.clone() } else { rows.iter().copied().filter(|x| *x != s).collect() };
            let pc: Vec<usize> = if m == 3 { if u > 0 { continue; } (0..3).collect() } else { (0..m).filter(|x| *x != u).collect() };
            let e = |i: usize, j: usize| t[pr[i]][pc[j]];
            let d = e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)) - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0)) + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0));
            if d != 0.0 { want = 3; break 'three; }
        } }
    }
    check(r == want, "rank");
    match want { 0 => cover("0"), 1 => cover("1"), 2 => cover("2"), _ => cover("3") }
}
/// over the rationals, entries integers in -b..=b
fn rank_rational() {
    let (n, m, b) = (param(0) as usize, param(1) as usize, param(2));
    let t = table(n, m, b);
    let a = Matrix::<Rational>::from_array(t.iter().map(|r| r.iter().map(|&x| Rational::from(x)).collect()).collect());
    let r = a.rank_as_linear_map();
    let mut want = 0;
    if t.iter().flatten().any(|x| *x != 0) { want = 1; }
    'two: for i in 0..n { for k in i + 1..n { for j in 0..m { for l in j + 1..m { if t[i][j] * t[k][l] - t[i][l] * t[k][j] != 0 { want = 2; break 'two; } } } } }
    if n == 3 && m == 3 && det(&t) != 0 { want = 3; }
    check(r == want, "rank");
    check(a.transpose().rank_as_linear_map() == want, "rank of the transpose");
    match want { 0 => cover("0"), 1 => cover("1"), 2 => cover("2"), _ => cover("3") }
}
}
