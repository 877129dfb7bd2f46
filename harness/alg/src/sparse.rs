//! sparse matrices against tables of optional entries
use symrt::*;
use alg::lin_alg::*;
use crate::matrix::{table, mat, is, tr, prod};

type S = SparseMatrix<i64>;
type T = Vec<Vec<Option<i64>>>;
/// which entries are stored is decided bit by bit; the values are symbolic and may be zero
fn entries(n: usize, m: usize, b: i64) -> T { (0..n).map(|_| (0..m).map(|_| if choose() { Some(int(-b, b)) } else { None }).collect()).collect() }
fn sparse(t: &T) -> S { let size = (t.len(), t[0].len()); SparseMatrix::from((size, |(i, j): (usize, usize)| t[i][j])) }
fn flip(t: &T) -> T { (0..t[0].len()).map(|j| t.iter().map(|r| r[j]).collect()).collect() }
fn dense(t: &T) -> Vec<Vec<i64>> { t.iter().map(|r| r.iter().map(|x| x.unwrap_or(0)).collect()).collect() }
/// built directly, or as the transpose of a matrix
fn build(t: &T) -> S { if choose() { sparse(&flip(t)).transpose() } else { sparse(t) } }
fn same(s: &S, t: &T, l: &str) {
    let (n, m) = (t.len(), t[0].len());
    check(s.size() == (n, m), l);
    for i in 0..n {
        let want: Vec<(usize, i64)> = (0..m).filter(|&j| t[i][j].is_some()).map(|j| (j, t[i][j].unwrap())).collect();
        let got: Vec<(usize, i64)> = s.row_iter(i).map(|(j, v)| (j, *v)).collect();
        check(got == want, l);
    }
    for j in 0..m {
        let want: Vec<(usize, i64)> = (0..n).filter(|&i| t[i][j].is_some()).map(|i| (i, t[i][j].unwrap())).collect();
        let got: Vec<(usize, i64)> = s.col_iter(j).map(|(i, v)| (i, *v)).collect();
        check(got == want, l);
    }
}
harnesses! {
fn sparse_layout() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let t = entries(n, m, 1000);
    if t.iter().flatten().all(|x| x.is_none()) { cover("empty"); }
    let s = sparse(&t);
    same(&s, &t, "rows and columns");
    check(s.row_iter(n + 1).next().is_none() && s.col_iter(m).next().is_none(), "nothing outside");
    let u = s.clone().transpose();
    same(&u, &flip(&t), "transpose");
    same(&u.transpose(), &t, "transposing twice");
    same(&s, &t, "copies are independent");
    check(s == mat(&dense(&t)), "equal to the dense matrix");
    cover("end");
}
fn sparse_eq() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (t, u) = (entries(n, m, 9), entries(n, m, 9));
    let mut eq = true;
    for i in 0..n { for j in 0..m { eq &= t[i][j].unwrap_or(0) == u[i][j].unwrap_or(0); } }
    let (a, b) = (build(&t), build(&u));
    check((a == b) == eq, "equality");
    check((a == mat(&dense(&u))) == eq, "equality with a dense matrix");
    if eq { cover("equal") } else { cover("different") }
    if n != m { check(a != b.transpose(), "different sizes are different"); check(a != mat(&dense(&flip(&t))), "different sizes are different"); }
}
fn sparse_product() {
    let (n, m, k) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (t, u) = (entries(n, m, 1000), entries(m, k, 1000));
    let (a, b) = if param(3) == 1 { (build(&t), build(&u)) } else { (sparse(&t), sparse(&u)) };
    let (x, y) = (dense(&t), dense(&u));
    let want = prod(&x, &y);
    is(&(a.clone() * b.clone()), &want, "sparse times sparse");
    is(&(a.clone() * mat(&y)), &want, "sparse times dense");
    is(&(mat(&x) * b.clone()), &want, "dense times sparse");
    is(&(b.transpose() * a.transpose()), &tr(&want), "product of the transposes");
    cover("end");
}
/// one long row times one long column
fn sparse_dot() {
    let m = param(0) as usize;
    let (t, u) = (entries(1, m, 1000), entries(m, 1, 1000));
    is(&(sparse(&t) * sparse(&u)), &prod(&dense(&t), &dense(&u)), "row times column");
    cover("end");
}
fn sparse_sizes() {
    let t = entries(1, 2, 9);
    let a = sparse(&t);
    match pick(3) { 0 => { let b = a.clone(); must_panic("sparse times sparse", || a * b) } 1 => { let d = mat(&table(1, 2, 9)); must_panic("sparse times dense", || a * d) } _ => { let d = mat(&table(1, 2, 9)); must_panic("dense times sparse", || d * a) } }
}
fn sparse_memory() {
    let before = live_heap();
    { let s = sparse(&entries(2, param(0) as usize, 9)); let t = s.clone().transpose(); std::mem::drop(s); let _p = t.clone() * t.transpose(); }
    check(live_heap() == before, "all memory is released");
    cover("end");
}
}
