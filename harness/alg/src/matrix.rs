//! dense matrices against tables of entries
use symrt::*;
use alg::lin_alg::*;
use alg::commutative::Rational;

type M = Matrix<i64>;
/// symbolic entries in -b..=b
pub fn table(n: usize, m: usize, b: i64) -> Vec<Vec<i64>> { (0..n).map(|_| (0..m).map(|_| int(-b, b)).collect()).collect() }
pub fn mat(t: &[Vec<i64>]) -> M { Matrix::from_array(t.to_vec()) }
pub fn is(m: &SubMatrix<i64>, t: &[Vec<i64>], l: &str) {
    check(m.size() == (t.len(), t[0].len()), l);
    for i in 0..t.len() { for j in 0..t[0].len() { check(m[(i, j)] == t[i][j], l); } }
}
pub fn tr(t: &[Vec<i64>]) -> Vec<Vec<i64>> { (0..t[0].len()).map(|j| t.iter().map(|r| r[j]).collect()).collect() }
pub fn prod(a: &[Vec<i64>], b: &[Vec<i64>]) -> Vec<Vec<i64>> {
    (0..a.len()).map(|i| (0..b[0].len()).map(|j| { let mut s = 0; for k in 0..b.len() { s += a[i][k] * b[k][j]; } s }).collect()).collect()
}
fn map2(a: &[Vec<i64>], b: &[Vec<i64>], f: impl Fn(i64, i64) -> i64) -> Vec<Vec<i64>> { a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(&x, &y)| f(x, y)).collect()).collect() }
fn map(a: &[Vec<i64>], f: impl Fn(i64) -> i64) -> Vec<Vec<i64>> { a.iter().map(|r| r.iter().map(|&x| f(x)).collect()).collect() }
fn block(t: &[Vec<i64>], r: std::ops::Range<usize>, c: std::ops::Range<usize>) -> Vec<Vec<i64>> { t[r].iter().map(|x| x[c.clone()].to_vec()).collect() }
/// every non-empty range inside 0..n
fn range(n: usize) -> std::ops::Range<usize> { let a = pick(n); let l = pick(n - a); a..a + l + 1 }
/// a matrix and its table; transposed in memory in half of the cases
fn maybe_transposed(n: usize, m: usize, b: i64) -> (M, Vec<Vec<i64>>) {
    if choose() { let t = table(m, n, b); (mat(&t).transpose(), tr(&t)) } else { let t = table(n, m, b); (mat(&t), t) }
}
const B: i64 = 1000;

harnesses! {
/// entries, rows and columns, transposition, copies, equality
fn mat_layout() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (a, t) = maybe_transposed(n, m, B);
    let (i, j) = (idx(n), idx(m));
    check(a.size() == (n, m) && a.size_as_range() == (0..n, 0..m), "size");
    check(a[(i, j)] == t[i][j], "entry");
    check(a[(.., ..)].transpose()[(j, i)] == t[i][j] && a[(.., ..)].transpose().size() == (m, n), "entry of the transpose");
    check(a.clone().transpose()[(j, i)] == t[i][j], "entry of the transposed matrix");
    is(&a.clone(), &t, "clone"); is(&a.as_matrix(), &t, "as_matrix"); is(&a[(.., ..)], &t, "everything");
    is(&a.clone().transpose().transpose(), &t, "transposing twice");
    let c = a.clone().transpose().clone(); is(&c, &tr(&t), "copy of the transpose");
    let mut w = a.clone();
    let v = int(-B, B);
    w[(i, j)] = v;
    let (k, l) = (idx(n), idx(m));
    check(w[(k, l)] == if k == i && l == j { v } else { t[k][l] }, "writing one entry");
    check(a[(k, l)] == t[k][l], "copies are independent");
    cover("end");
}
fn mat_bounds() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (a, _) = maybe_transposed(n, m, 1);
    let (i, j) = (bits(64) as usize, bits(64) as usize);
    assume(i >= n || j >= m);
    match pick(3) {
        0 => { cover("read"); must_panic("reading out of range", || a[(i, j)]) }
        1 => { cover("write"); let mut a = a; must_panic("writing out of range", || { a[(i, j)] = 1; }) }
        _ => { cover("sub"); let i = idx(n + 3); assume(i > n); must_panic("block out of range", || { a[(0..i, ..)].size() }) }
    }
}
/// blocks by every kind of range, blocks of blocks, blocks of transposes
fn mat_blocks() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (mut a, t) = maybe_transposed(n, m, B);
    let (r, c) = (range(n), range(m));
    let want = block(&t, r.clone(), c.clone());
    is(&a[(r.clone(), c.clone())], &want, "block");
    is(&a[(r.clone(), ..)], &block(&t, r.clone(), 0..m), "rows");
    is(&a[(.., c.clone())], &block(&t, 0..n, c.clone()), "columns");
    is(&a[(r.start.., c.start..)], &block(&t, r.start..n, c.start..m), "from");
    is(&a[(..r.end, ..c.end)], &block(&t, 0..r.end, 0..c.end), "to");
    is(&a[(r.start..=r.end - 1, c.start..=c.end - 1)], &want, "inclusive");
    is(&a[(..=r.end - 1, ..=c.end - 1)], &block(&t, 0..r.end, 0..c.end), "to, inclusive");
    is(&a[(r.start, ..)], &block(&t, r.start..r.start + 1, 0..m), "one row");
    is(&a[(.., c.start)], &block(&t, 0..n, c.start..c.start + 1), "one column");
    is(&a[(r.start, c.clone())], &block(&t, r.start..r.start + 1, c.clone()), "part of a row");
    is(&a[(r.clone(), c.start)], &block(&t, r.clone(), c.start..c.start + 1), "part of a column");
    is(a[(r.clone(), c.clone())].transpose(), &tr(&want), "transposed block");
    is(&a[(r.clone(), c.clone())].as_matrix(), &want, "copied block");
    // a block of the block, and one of its transpose
    let (r2, c2) = (0..pick(r.len()) + 1, pick(c.len())..c.len());
    is(&a[(r.clone(), c.clone())][(r2.clone(), c2.clone())], &block(&want, r2.clone(), c2.clone()), "block of a block");
    is(&a[(r.clone(), c.clone())].transpose()[(c2.clone(), r2.clone())], &tr(&block(&want, r2.clone(), c2.clone())), "block of a transposed block");
    // writing through a block
    let v = int(-B, B);
    let (i, j) = (idx(r.len()), idx(c.len()));
    a[(r.clone(), c.clone())][(i, j)] = v;
    let (k, l) = (idx(n), idx(m));
    check(a[(k, l)] == if k == r.start + i && l == c.start + j { v } else { t[k][l] }, "writing through a block");
    cover("end");
}
/// writing a matrix into a block
fn mat_write() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (mut a, t) = maybe_transposed(n, m, B);
    let (r, c) = (range(n), range(m));
    let (b, u) = maybe_transposed(r.len(), c.len(), B);
    match pick(3) {
        0 => a[(r.clone(), c.clone())].write(&b),
        1 => a[(r.clone(), c.clone())].write_and_move(b),
        _ => {
            let (k, l) = (pick(n) + 1, pick(m) + 1);
            if (k, l) != (r.len(), c.len()) { cover("size"); let x = mat(&table(k, l, 1)); must_panic("writing a block of another size", || a[(r.clone(), c.clone())].write(&x)) }
            a[(r.clone(), c.clone())].write(&b[(.., ..)])
        }
    }
    let (k, l) = (idx(n), idx(m));
    let inside = r.contains(&k) && c.contains(&l);
    check(a[(k, l)] == if inside { u[k - r.start][l - c.start] } else { t[k][l] }, "writing a block");
    cover("end");
}
fn mat_eq() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (a, t) = maybe_transposed(n, m, B);
    let (b, u) = maybe_transposed(n, m, B);
    let mut same = true;
    for i in 0..n { for j in 0..m { same &= t[i][j] == u[i][j]; } }
    check((a == b) == same, "equality of matrices");
    check((*a == *b) == same, "equality of blocks");
    check((a[(.., ..)] == b) == same, "equality of a block and a matrix");
    check((a[(.., 0..1)] == b) == (m == 1 && same), "different sizes are different");
    if same { cover("equal"); }
    cover("end");
}
fn mat_create() {
    let (n, m) = (pick(param(0) as usize) + 1, pick(param(0) as usize) + 1);
    let z = M::zero(n, m);
    is(&z, &vec![vec![0; m]; n], "zero");
    let e = M::identity(n);
    is(&e, &(0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect::<Vec<_>>(), "identity");
    let q = Matrix::<Rational>::identity(n);
    check(q[(0, n - 1)] == Rational::from((n == 1) as i64), "rational identity");
    let l: Vec<usize> = (0..n).map(|_| pick(3)).collect();
    let ragged = l.iter().any(|&x| x != l[0]);
    let v: Vec<Vec<i64>> = l.iter().map(|&k| (0..k).map(|_| int(-B, B)).collect()).collect();
    if ragged || l[0] == 0 { cover("ragged"); let v = v.clone(); must_panic("rows of different length or empty", move || M::from_array(v)) }
    is(&M::from_array(v.clone()), &v, "from_array");
    cover("end");
}
fn mat_create_empty() {
    let n = pick(2);
    match pick(3) { 0 => must_panic("no rows", || M::from_array(vec![])), 1 => must_panic("empty size", || M::zero(n, 1 - n)), _ => must_panic("empty identity", || M::identity(0)) }
}
/// sizes at the limit of what a matrix can describe
fn mat_size_limit() {
    let n = 65534 + pick(4);
    let (r, c) = if choose() { (n, 1) } else { (1, n) };
    let ok = n <= 65535;
    if !ok { cover("too large"); must_panic("a size that cannot be represented", || M::zero(r, c)) }
    let z = M::zero(r, c);
    check(z.size() == (r, c), "size");
    check(z[(r - 1, c - 1)] == 0, "last entry");
    cover("end");
}
fn mat_arith() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (a, t) = maybe_transposed(n, m, B);
    let (b, u) = maybe_transposed(n, m, B);
    let (s, d) = (map2(&t, &u, |x, y| x + y), map2(&t, &u, |x, y| x - y));
    match pick(9) {
        0 => { is(&(a.clone() + b.clone()), &s, "sum"); is(&(a - b), &d, "difference"); cover("owned"); }
        1 => { is(&(&a[(.., ..)] + &b[(.., ..)]), &s, "sum of blocks"); is(&(&a[(.., ..)] - &b[(.., ..)]), &d, "difference of blocks"); cover("blocks"); }
        2 => { is(&(a.clone() + &b[(.., ..)]), &s, "matrix plus block"); is(&(a - &b[(.., ..)]), &d, "matrix minus block"); }
        3 => { is(&(&a[(.., ..)] + b.clone()), &s, "block plus matrix"); is(&(&a[(.., ..)] - b), &d, "block minus matrix"); }
        4 => { let mut x = a.clone(); x += b.clone(); is(&x, &s, "assigning sum"); let mut x = a; x -= b; is(&x, &d, "assigning difference"); }
        5 => { let mut x = a.clone(); x += &b[(.., ..)]; is(&x, &s, "assigning sum of a block"); let mut x = a; x -= &b[(.., ..)]; is(&x, &d, "assigning difference of a block"); }
        6 => { is(&(b.clone() + a.clone()), &s, "sums commute"); is(&((a + b.clone()) - b), &t, "subtracting undoes adding"); }
        7 => {
            let k = int(-B, B);
            let want = map(&t, |x| x * k);
            is(&(a.clone() * k), &want, "scalar multiple"); is(&(&a[(.., ..)] * k), &want, "scalar multiple of a block"); is(&(k * &a[(.., ..)]), &want, "scalar from the left");
            let mut x = a.clone(); x *= k; is(&x, &want, "assigning scalar multiple");
            let mut x = a; x[(0..1, ..)] *= k; let mut w = t.clone(); w[0] = want[0].clone(); is(&x, &w, "scaling a row only"); cover("scalar");
        }
        _ => {
            let (k, l) = (pick(n) + 1, pick(m) + 1);
            assume((k, l) != (n, m));
            let x = mat(&table(k, l, 1));
            cover("sizes");
            match pick(3) { 0 => must_panic("sum of different sizes", || a + x), 1 => must_panic("sum of blocks of different sizes", || &a[(.., ..)] + &x[(.., ..)]), _ => { let mut a = a; must_panic("difference of different sizes", || a -= x) } }
        }
    }
    cover("end");
}
fn mat_product() {
    let (n, m, k, b) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3));
    let (a, t) = maybe_transposed(n, m, b);
    let (c, u) = maybe_transposed(m, k, b);
    let want = prod(&t, &u);
    is(&(&a[(.., ..)] * &c[(.., ..)]), &want, "product of blocks");
    is(&(a.clone() * c.clone()), &want, "product");
    is(&(a.clone() * &c[(.., ..)]), &want, "matrix times block"); is(&(&a[(.., ..)] * c.clone()), &want, "block times matrix");
    is(&(&a[(0..1, ..)] * &c[(.., k - 1..)]), &vec![vec![want[0][k - 1]]], "row times column");
    check(a[(0, ..)].dot(&c[(.., 0)]) == want[0][0], "dot product");
    is(&(c.clone().transpose() * a.clone().transpose()), &tr(&want), "product of the transposes");
    if m > 1 && choose() { cover("sizes"); must_panic("product of incompatible sizes", || &a[(.., ..)] * &c[(1.., ..)]) }
    cover("end");
}
fn mat_product_laws() {
    let n = param(0) as usize;
    let b = param(1);
    let (x, y, z) = (mat(&table(n, n, b)), mat(&table(n, n, b)), mat(&table(n, n, b)));
    check((x.clone() * y.clone()) * z.clone() == x.clone() * (y.clone() * z.clone()), "associative");
    check(x.clone() * (y.clone() + z.clone()) == x.clone() * y.clone() + x.clone() * z, "distributive");
    check(x.clone() * M::identity(n) == x && M::identity(n) * x.clone() == x, "identity");
    cover("end");
}
/// elementary operations, on matrices, transposes and blocks
fn mat_row_ops() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (mut a, t) = maybe_transposed(n, m, B);
    let s = int(-7, 7);
    let mut w = t.clone();
    match pick(6) {
        0 => { let (i, j) = (pick(n), pick(n)); a.swap_rows(i, j); w.swap(i, j); is(&a, &w, "swapped rows"); a.swap_rows(j, i); is(&a, &t, "swapping twice"); cover("swap rows"); }
        1 => { let (i, j) = (pick(m), pick(m)); a.swap_cols(i, j); for r in w.iter_mut() { r.swap(i, j); } is(&a, &w, "swapped columns"); cover("swap cols"); }
        2 => { let (i, j) = (pick(n), pick(n)); a.row_operation(i, j, s); for l in 0..m { w[i][l] += s * t[j][l]; } is(&a, &w, "row operation"); if i != j { a.row_operation(i, j, -s); is(&a, &t, "undone row operation"); } cover("row op"); }
        3 => { let (i, j) = (pick(m), pick(m)); a.col_operation(i, j, s); for l in 0..n { w[l][i] += s * t[l][j]; } is(&a, &w, "column operation"); cover("col op"); }
        4 => {
            let (r, c) = (range(n), range(m));
            let (i, j) = (pick(r.len()), pick(r.len()));
            a[(r.clone(), c.clone())].row_operation(i, j, s);
            for l in c { w[r.start + i][l] += s * t[r.start + j][l]; }
            is(&a, &w, "row operation inside a block"); cover("block row op");
        }
        _ => {
            let (r, c) = (range(n), range(m));
            let (i, j) = (pick(c.len()), pick(c.len()));
            if choose() { a[(r.clone(), c.clone())].col_operation(i, j, s); for l in r { w[l][c.start + i] += s * t[l][c.start + j]; } is(&a, &w, "column operation inside a block"); }
            else { a[(r.clone(), c.clone())].swap_cols(i, j); for l in r { w[l].swap(c.start + i, c.start + j); } is(&a, &w, "swapped columns inside a block"); }
            cover("block col op");
        }
    }
    cover("end");
}
/// memory of matrices is released exactly once
fn mat_memory() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let before = live_heap();
    {
        let (a, _) = maybe_transposed(n, m, 7);
        let b = a.clone().transpose();
        let c = a.clone() * b.clone();
        let d = (c.clone() + c) * 2;
        let mut e = d.clone(); e[(0..1, ..)].write(&d[(n - 1..n, ..)]);
        if choose() { std::mem::drop(a); } else { let _x = a; }
    }
    check(live_heap() == before, "all memory is released");
    cover("end");
}
/// the action of a matrix on a list of vectors
fn mat_basis_change() {
    let (n, m, nb) = (param(0) as usize, param(1) as usize, 4usize);
    let (a, t) = maybe_transposed(n, m, 3);
    let v: Vec<Sym> = (0..m).map(|_| Sym(idx(nb) as u8)).collect();
    let out = a.clone() * v.clone();
    check(out.len() == n, "one vector per row");
    let x = idx(nb) as u8;
    for i in 0..n {
        let got: i64 = out[i].iter().map(|(c, b)| if b.0 == x { *c } else { 0 }).sum();
        let mut want = 0; for j in 0..m { if v[j].0 == x { want += t[i][j]; } }
        check(got == want, "coefficient");
    }
    let mut long = v; long.push(Sym(0));
    must_panic("a list of another length", move || a * long)
}
}
#[derive(Clone, PartialEq, PartialOrd, Debug, Eq, Ord)]
pub struct Sym(u8);
alg::formal_sum_impl! { Sym }
