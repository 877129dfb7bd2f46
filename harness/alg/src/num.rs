//! floating point algorithms over the exact reals, and fixed-size vectors and matrices
use symrt::*;
use alg::lin_alg::*;

type F = Matrix<f64>;
fn reals(n: usize, m: usize) -> Vec<Vec<f64>> { (0..n).map(|_| (0..m).map(|_| real()).collect()).collect() }
fn fmat(t: &[Vec<f64>]) -> F { Matrix::from_array(t.to_vec()) }
fn fdet(t: &[Vec<f64>]) -> f64 {
    if t.len() == 1 { return t[0][0]; }
    let mut s = 0.0;
    for j in 0..t.len() {
        let minor: Vec<Vec<f64>> = t[1..].iter().map(|r| r.iter().enumerate().filter(|x| x.0 != j).map(|x| *x.1).collect()).collect();
        let d = t[0][j] * fdet(&minor);
        if j % 2 == 0 { s += d } else { s -= d }
    }
    s
}
fn same(a: &SubMatrix<f64>, t: &[Vec<f64>], l: &str) {
    check(a.size() == (t.len(), t[0].len()), l);
    for i in 0..t.len() { for j in 0..t[0].len() { req(a[(i, j)], t[i][j], l); } }
}
fn req(a: f64, b: f64, l: &str) { check(real_eq(a, b), l) }
fn size(a: f64) -> f64 { if a < 0.0 { -a } else { a } }
harnesses! {
fn num_det() {
    let n = param(0) as usize;
    let t = reals(n, n);
    let a = if choose() { fmat(&t) } else { cover("transposed"); fmat(&(0..n).map(|j| t.iter().map(|r| r[j]).collect()).collect::<Vec<_>>()).transpose() };
    let want = fdet(&t);
    req(a[(.., ..)].det(), want, "determinant of a block");
    req(a.det(), want, "determinant");
    if t[0][0] == 0.0 { cover("zero pivot"); }
    cover("end");
}
fn num_det_not_square() { req(fmat(&reals(2, 3)).det(), 0.0, "not square"); req(fmat(&reals(3, 1)).det(), 0.0, "not square"); cover("end"); }
fn num_solve() {
    let n = param(0) as usize;
    let (t, b) = (reals(n, n), reals(n, 1));
    assume(fdet(&t) != 0.0);
    let x = fmat(&t).solve(fmat(&b));
    check(x.size() == (n, 1), "size");
    for i in 0..n { let mut s = 0.0; for j in 0..n { s += t[i][j] * x[(j, 0)]; } req(s, b[i][0], "solution"); }
    if t[0][0] == 0.0 { cover("zero pivot"); }
    cover("end");
}
/// LU without pivoting, where no pivot vanishes
fn num_lu() {
    let n = param(0) as usize;
    let t = reals(n, n);
    for k in 1..n { assume(fdet(&t[..k].iter().map(|r| r[..k].to_vec()).collect::<Vec<_>>()) != 0.0); }
    let mut a = fmat(&t);
    a.lu();
    for i in 0..n { for j in 0..n {
        let mut s = 0.0;
        for k in 0..=i.min(j) { s += if k == i { a[(i, j)] } else { a[(i, k)] * a[(k, j)] }; }
        req(s, t[i][j], "L times U");
    } }
    cover("end");
}
fn num_norms() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let t = reals(n, m);
    let a = fmat(&t);
    let (one, inf, fro) = (a.one_norm(), a.inf_norm(), a.frobenius_norm());
    let mut hit = false;
    for j in 0..m { let mut s = 0.0; for i in 0..n { s += size(t[i][j]); } check(one >= s, "one norm"); hit |= one == s; }
    check(hit, "one norm is attained");
    let mut hit = false;
    for i in 0..n { let mut s = 0.0; for j in 0..m { s += size(t[i][j]); } check(inf >= s, "infinity norm"); hit |= inf == s; }
    check(hit, "infinity norm is attained");
    let mut s = 0.0; for r in &t { for x in r { s += x * x; } }
    check(fro >= 0.0, "frobenius norm"); req(fro * fro, s, "frobenius norm");
    let c = a[(.., 0)].two_norm();
    let mut s = 0.0; for r in &t { s += r[0] * r[0]; }
    check(c >= 0.0, "two norm"); req(c * c, s, "two norm");
    cover("end");
}
/// the columns become orthonormal and span the same spaces
fn num_gram_schmidt() {
    let (n, m) = (param(0) as usize, param(1) as usize);
    let t = reals(n, m);
    let d = |a: &[f64], b: &[f64]| -> f64 { let mut s = 0.0; for i in 0..a.len() { s += a[i] * b[i]; } s };
    let col = |t: &[Vec<f64>], j: usize| -> Vec<f64> { t.iter().map(|r| r[j]).collect() };
    let (p, q) = (col(&t, 0), col(&t, m - 1));
    assume(d(&p, &p) != 0.0);
    if m == 2 { assume(d(&p, &p) * d(&q, &q) - d(&p, &q) * d(&p, &q) != 0.0); }
    let g = if param(2) == 0 { fmat(&t).gram_schmidt() } else { fmat(&t).gram_schmidt_without_normalize() };
    let u: Vec<Vec<f64>> = (0..n).map(|i| (0..m).map(|j| g[(i, j)]).collect()).collect();
    let (u0, u1) = (col(&u, 0), col(&u, m - 1));
    if param(2) == 0 { req(d(&u0, &u0), 1.0, "first column is a unit vector"); if m == 2 { req(d(&u1, &u1), 1.0, "second column is a unit vector"); } }
    else { for i in 0..n { req(u0[i], p[i], "first column is kept"); } }
    check(d(&u0, &p) > 0.0, "first column keeps its direction");
    for i in 0..n { for j in 0..n { req(u0[i] * p[j], u0[j] * p[i], "first column is a multiple"); } }
    if m == 2 {
        req(d(&u0, &u1), 0.0, "orthogonal");
        check(d(&u1, &q) > 0.0, "second column keeps its direction");
    }
    cover("end");
}
/// I - b v v' maps x to |x| e1
fn num_householder() {
    let n = param(0) as usize;
    let x = reals(n, 1);
    let a = fmat(&x);
    let (v, b) = a[(.., ..)].householder_vec();
    let mut s = 0.0; for r in &x { s += r[0] * r[0]; }
    check(v.size() == (n, 1), "size");
    let mut vx = 0.0; let mut vv = 0.0;
    for i in 0..n { vx += v[(i, 0)] * x[i][0]; vv += v[(i, 0)] * v[(i, 0)]; }
    req(v[(0, 0)], 1.0, "the first entry is one");
    req(b * (b * vv - 2.0), 0.0, "a reflection or the identity");
    for i in 1..n { req(x[i][0] - b * vx * v[(i, 0)], 0.0, "entries below the first vanish"); }
    let h = x[0][0] - b * vx;
    check(h >= 0.0, "the first entry is not negative");
    req(h * h, s, "the norm is kept");
    if b == 0.0 { cover("identity") } else { cover("reflection") }
}
fn num_householder_shape() { let a = fmat(&reals(2, 2)); must_panic("not a column", || a.householder_vec()) }
fn num_givens() {
    let (a, b) = (real(), real());
    assume(b == 0.0 || size(b) >= 0.001);
    let (c, s) = F::givens_rotation(a, b);
    req(c * c + s * s, 1.0, "rotation");
    req(s * a + c * b, 0.0, "the second entry vanishes");
    cover("end");
}
/// eigenvalues of 1x1 and 2x2 matrices
fn num_spectrum2() {
    let t = reals(2, 2);
    assume(t[1][0] == 0.0 || size(t[1][0]) >= 0.001);
    // entries below the tolerance of the iteration count as zero
    for r in &t { for x in r { assume(size(*x) <= 1000.0); } }
    let (tr, det) = (t[0][0] + t[1][1], fdet(&t));
    assume(tr * tr - 4.0 * det >= 0.0);
    let e = if param(0) == 0 { fmat(&t).spectrum() } else { assume(t[0][1] == t[1][0]); fmat(&t).spectrum_symmetric() };
    check(e.size() == (2, 1), "two eigenvalues");
    check(e[(0, 0)] <= e[(1, 0)], "sorted");
    req(e[(0, 0)] + e[(1, 0)], tr, "trace");
    req(e[(0, 0)] * e[(1, 0)], det, "determinant");
    if e[(0, 0)] == e[(1, 0)] { cover("double") } else { cover("distinct") }
}
fn num_spectrum1() {
    let x = real();
    req(fmat(&[vec![x]]).spectrum()[(0, 0)], x, "eigenvalue of a 1x1 matrix");
    req(fmat(&[vec![x]]).spectrum_symmetric()[(0, 0)], x, "eigenvalue of a symmetric 1x1 matrix");
    cover("end");
}
/// H is similar to A and vanishes below the subdiagonal
fn num_hessenberg() {
    let n = param(0) as usize;
    let t = reals(n, n);
    let mut a = fmat(&t);
    a.hessenberg_form();
    let h: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| a[(i, j)]).collect()).collect();
    for i in 2..n { for j in 0..i - 1 { req(h[i][j], 0.0, "zero below the subdiagonal"); } }
    let mut x = 0.0; let mut y = 0.0;
    for i in 0..n { x += h[i][i]; y += t[i][i]; }
    req(x, y, "trace");
    if param(1) > 0 {
        let f = |t: &[Vec<f64>]| { let mut s = 0.0; for r in t { for x in r { s += x * x; } } s };
        let g = |t: &[Vec<f64>]| { let mut s = 0.0; for i in 0..n { for j in 0..n { s += t[i][j] * t[j][i]; } } s };
        req(g(&h), g(&t), "trace of the square");
        req(f(&h), f(&t), "frobenius norm");
    }
    cover("end");
}
fn num_tridiagonal() {
    let n = param(0) as usize;
    let t = reals(n, n);
    for i in 0..n { for j in 0..i { assume(t[i][j] == t[j][i]); } }
    let mut a = fmat(&t);
    a.householder_tridiagonalization(false);
    let mut x = 0.0; let mut y = 0.0;
    for i in 0..n { x += a[(i, i)]; y += t[i][i]; }
    req(x, y, "trace");
    let (mut x, mut y) = (0.0, 0.0);
    for i in 0..n { for j in 0..n { if i.abs_diff(j) < 2 { x += a[(i, j)] * a[(i, j)]; } y += t[i][j] * t[i][j]; } }
    req(x, y, "sum of squares");
    for i in 1..n { req(a[(i, i - 1)], a[(i - 1, i)], "symmetric"); }
    cover("end");
}
fn const_vector() {
    let v: [i64; 3] = [int(-1000, 1000), int(-1000, 1000), int(-1000, 1000)];
    let w: [i64; 3] = [int(-1000, 1000), int(-1000, 1000), int(-1000, 1000)];
    let k = int(-1000, 1000);
    let (a, b) = (ConstVector::from(v), ConstVector::from(w));
    let i = pick(3);
    check(a[i] == v[i], "entry"); check(ConstVector::<i64, 3>::zero()[i] == 0, "zero");
    check((a + b)[i] == v[i] + w[i] && (a - b)[i] == v[i] - w[i] && (-a)[i] == -v[i] && (a * k)[i] == v[i] * k, "entrywise operations");
    let mut c = a; c += b; check(c[i] == v[i] + w[i], "adding in place"); c -= b; check(c == a, "subtracting in place"); c *= k; check(c[i] == v[i] * k, "scaling in place");
    check(a.dot(b) == v[0] * w[0] + v[1] * w[1] + v[2] * w[2] && a.dot(b) == b.dot(a), "dot product");
    check((a == b) == (v == w), "equality");
    let mut m = a; m[i] = k; let j = pick(3); check(m[j] == if i == j { k } else { v[j] }, "writing an entry");
    cover("end");
}
fn const_matrix() {
    let t: [[i64; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| int(-1000, 1000)));
    let u: [[i64; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| int(-1000, 1000)));
    let k = int(-1000, 1000);
    let (a, b) = (ConstMatrix::from(t), ConstMatrix::from(u));
    let (i, j) = (pick(2), pick(3));
    check(a[i][j] == t[i][j] && ConstMatrix::<i64, 2, 3>::zero()[i][j] == 0, "entry");
    let mut c = a; c += b; check(c[i][j] == t[i][j] + u[i][j], "adding in place");
    c -= b; check(c == a, "subtracting in place"); c *= k; check(c[i][j] == t[i][j] * k && (a * k)[i][j] == t[i][j] * k && (-a)[i][j] == -t[i][j], "entrywise operations");
    check((a == b) == (t == u), "equality");
    let e = ConstMatrix::<i64, 3, 3>::identity;
    let l = idx(3); check(e()[l][j] == (l == j) as i64, "identity");
    let cols: [ConstVector<i64, 2>; 3] = std::array::from_fn(|j| ConstVector::from([t[0][j], t[1][j]]));
    check(ConstMatrix::from(cols) == a, "built from columns");
    cover("end");
}
fn const_real() {
    let v: [f64; 3] = [real(), real(), real()];
    let k = real();
    assume(k != 0.0);
    let a = ConstVector::from(v);
    let n = a.two_norm();
    check(n >= 0.0, "norm"); req(n * n, v[0] * v[0] + v[1] * v[1] + v[2] * v[2], "norm");
    let i = pick(3);
    req((a / k)[i] * k, v[i], "quotient"); let mut b = a; b /= k; req(b[i] * k, v[i], "dividing in place");
    let m = ConstMatrix::from([[v[0], v[1]], [v[2], k]]);
    req((m / k)[1][1], 1.0, "quotient of a matrix"); req((m / k)[0][1] * k, v[1], "quotient of a matrix"); let mut q = m; q /= k; req(q[1][0] * k, v[2], "dividing a matrix in place");
    cover("end");
}
}
