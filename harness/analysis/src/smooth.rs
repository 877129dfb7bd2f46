//! smooth functions against values and derivatives computed alongside (dual numbers)
use alg::commutative::{One, Zero};
use alg::lin_alg::{Matrix, SparseMatrix};
use analysis::*;
use symrt::*;

const N: usize = 2;
/// a function, its value at the point and its partial derivatives there
#[derive(Clone)]
struct D { f: AtomicSmoothFn, v: f64, d: [f64; N] }
fn d(f: AtomicSmoothFn, v: f64, g: impl Fn(usize) -> f64) -> D { D { f, v, d: [g(0), g(1)] } }
fn point() -> ([f64; N], Matrix<f64>) {
    let x = [real(), real()];
    let mut m = Matrix::zero(N, 1);
    for i in 0..N { m[(i, 0)] = x[i]; }
    (x, m)
}
fn pow(x: f64, k: i32) -> f64 { if k < 0 { 1.0 / pow(x, -k) } else { let mut r = 1.0; for _ in 0..k { r *= x; } r } }
const OPS: usize = 12;
fn unary(op: usize) -> bool { op >= 4 }
fn apply(op: usize, a: &D, b: &D) -> D {
    let f = a.f.clone();
    match op {
        0 => d(f + b.f.clone(), a.v + b.v, |i| a.d[i] + b.d[i]),
        1 => d(f - b.f.clone(), a.v - b.v, |i| a.d[i] - b.d[i]),
        2 => d(f * b.f.clone(), a.v * b.v, |i| a.d[i] * b.v + a.v * b.d[i]),
        3 => { assume(b.v != 0.0); d(f / b.f.clone(), a.v / b.v, |i| (a.d[i] * b.v - a.v * b.d[i]) / (b.v * b.v)) }
        4 => d(f.sin(), a.v.sin(), |i| a.v.cos() * a.d[i]),
        5 => d(f.cos(), a.v.cos(), |i| -a.v.sin() * a.d[i]),
        6 => d(-f, -a.v, |i| -a.d[i]),
        7 => { let c = real(); d(f * c, a.v * c, |i| a.d[i] * c) }
        8 => { let c = real(); assume(c != 0.0); d(f / c, a.v / c, |i| a.d[i] / c) }
        9 => { let k = [2, 3, 0, 1][pick(4)]; d(f.powi(k), pow(a.v, k), |i| k as f64 * if k == 0 { 0.0 } else { pow(a.v, k - 1) } * a.d[i]) }
        10 => { let k = [-1, -2][pick(2)]; assume(a.v != 0.0); d(f.powi(k), pow(a.v, k), |i| k as f64 * pow(a.v, k - 1) * a.d[i]) }
        _ => { let k = [2.5, -0.5, 1.0][pick(3)]; assume(a.v > 0.0); d(f.powf(k), a.v.powf(k), |i| k * a.v.powf(k - 1.0) * a.d[i]) }
    }
}
/// every operation applied to the result of the one before and possibly something older
fn some_fn(steps: usize, mask: i64, leaves: usize, x: &[f64; N]) -> D {
    let ops: Vec<usize> = (0..OPS).filter(|&i| mask >> i & 1 == 1).collect();
    let mut have = vec![d(AtomicSmoothFn::Projection(0), x[0], |i| [1.0, 0.0][i]), d(AtomicSmoothFn::Projection(1), x[1], |i| [0.0, 1.0][i]), d(AtomicSmoothFn::one(), 1.0, |_| 0.0), d(AtomicSmoothFn::zero(), 0.0, |_| 0.0)];
    have.truncate(leaves);
    for s in 0..steps {
        let op = ops[pick(ops.len())];
        let last = have.len() - 1;
        let (a, b) = if unary(op) { let a = if s == 0 { pick(last + 1) } else { last }; (a, a) }
            else if s == 0 { (pick(last + 1), pick(last + 1)) }
            else { let b = pick(last + 1); if b != last && choose() { (b, last) } else { (last, b) } };
        let r = apply(op, &have[a], &have[b]);
        have.push(r);
    }
    have.pop().unwrap()
}
/// sums hold no sums, products no products, zeros or ones; terms are sorted, different and not trivial
fn canonical(f: &AtomicSmoothFn) -> bool {
    use AtomicSmoothFn::*;
    match f {
        Zero | One | Projection(_) => true,
        RealPower(g, _) | Sin(g) | Cos(g) => canonical(g),
        Sum(v) => { let t: Vec<_> = v.iter().collect(); t.iter().all(|(k, g)| *k != 0.0 && !matches!(g, Sum(_)) && canonical(g)) && t.windows(2).all(|w| w[0].1 < w[1].1) }
        Product(v) => { let t: Vec<_> = v.iter().collect(); t.iter().all(|(k, g)| *k != 0 && !matches!(g, Product(_) | Zero | One) && canonical(g)) && t.windows(2).all(|w| w[0].1 < w[1].1) }
    }
}
harnesses! {
fn structure() {
    let (x, m) = point();
    let f = some_fn(param(0) as usize, param(1), param(2) as usize, &x);
    let _ = m;
    check(canonical(&f.f), "the stated form of sums and products");
    cover("end");
}
fn structure_derivatives() {
    let (x, _) = point();
    let f = some_fn(param(0) as usize, param(1), param(2) as usize, &x);
    for i in 0..N { check(canonical(&f.f.clone().partial_derivative(i)), "the stated form of sums and products"); }
    check(f.f.clone().partial_derivative(N) == AtomicSmoothFn::Zero, "zero");
    cover("end");
}
fn arithmetic() {
    let (x, m) = point();
    let f = some_fn(param(0) as usize, param(1), param(2) as usize, &x);
    check(real_eq(f.f.eval(&m), f.v), "value");
    cover("end");
}
fn derivatives() {
    let (x, m) = point();
    let f = some_fn(param(0) as usize, param(1), param(2) as usize, &x);
    for i in 0..N { check(real_eq(f.f.clone().partial_derivative(i).eval(&m), f.d[i]), "partial derivative"); }
    check(real_eq(f.f.clone().partial_derivative(N).eval(&m), 0.0), "with respect to a further coordinate");
    cover("end");
}
/// functions written with coordinates
fn coordinates() {
    use AtomicSmoothFn::Projection as X;
    let (x, m) = point();
    let c = real();
    let (i, j) = (pick(N), pick(N));
    let g = d(X(j).sin(), x[j].sin(), |k| if k == j { x[j].cos() } else { 0.0 });
    let op = pick(20);
    let mut want = 0.0;
    let f = AtomicSmoothFnBuilder::new(N).set(|f, y| {
        check(*f == AtomicSmoothFn::Zero && y.len() == N, "starts at zero");
        *f = match op {
            0 => y[i] + y[j], 1 => y[i] - y[j], 2 => y[i] * y[j], 3 => { assume(x[j] != 0.0); y[i] / y[j] }
            4 => y[i] + g.f.clone(), 5 => y[i] - g.f.clone(), 6 => y[i] * g.f.clone(), 7 => { assume(g.v != 0.0); y[i] / g.f.clone() }
            8 => g.f.clone() + y[i], 9 => g.f.clone() - y[i], 10 => g.f.clone() * y[i], 11 => { assume(x[i] != 0.0); g.f.clone() / y[i] }
            12 => y[i] * c, 13 => { assume(c != 0.0); y[i] / c } 14 => y[i].sin(), 15 => y[i].cos(), 16 => y[i].powi(3), 17 => { assume(x[i] > 0.0); y[i].powf(2.5) }
            18 => { let mut h = g.f.clone(); h += X(i); h -= X(j); h *= X(i); h } _ => { let mut h = g.f.clone(); assume(x[i] != 0.0); h /= X(i); h }
        };
    });
    want += match op {
        0 => x[i] + x[j], 1 => x[i] - x[j], 2 => x[i] * x[j], 3 => x[i] / x[j], 4 => x[i] + g.v, 5 => x[i] - g.v, 6 => x[i] * g.v, 7 => x[i] / g.v, 8 => g.v + x[i], 9 => g.v - x[i], 10 => g.v * x[i], 11 | 19 => g.v / x[i],
        12 => x[i] * c, 13 => x[i] / c, 14 => x[i].sin(), 15 => x[i].cos(), 16 => x[i] * x[i] * x[i], 17 => x[i].powf(2.5), _ => (g.v + x[i] - x[j]) * x[i]
    };
    check(real_eq(f.eval(&m), want), "value");
    cover("end");
}
fn divided_by_zero() { must_panic("division by zero", || AtomicSmoothFn::Projection(0) / 0.0); }
/// sums and products of lists
fn folds() {
    let (x, m) = point();
    let n = pick(4);
    let a: Vec<D> = (0..n).map(|_| some_fn(param(0) as usize, param(1), 2, &x)).collect();
    let f = a.iter().map(|f| f.f.clone());
    let (s, p) = (f.clone().sum::<AtomicSmoothFn>(), f.product::<AtomicSmoothFn>());
    if n == 0 { check(s == AtomicSmoothFn::Zero && p == AtomicSmoothFn::One, "of nothing"); }
    check(real_eq(s.eval(&m), a.iter().map(|f| f.v).sum()), "sum");
    check(real_eq(p.eval(&m), a.iter().map(|f| f.v).product()), "product");
    cover("end");
}
/// several functions and the matrix of their derivatives
fn jacobians() {
    let (x, m) = point();
    let k = param(0) as usize;
    let a: Vec<D> = (0..k).map(|_| some_fn(param(1) as usize, param(2), param(3) as usize, &x)).collect();
    let mut calls = 0;
    let f = MultiVarFn::new((k, N)).set(|i, f, y| { check(i == calls && y.len() == N && *f == AtomicSmoothFn::Zero, "every component once"); calls += 1; *f = a[i].f.clone(); });
    check(calls == k, "every component");
    let y = f.eval(&m);
    check(y.size() == (k, 1) && (0..k).all(|i| f[i] == a[i].f), "components");
    let j = f.jacobian();
    check(j.size() == (k, N), "size");
    let e = j.eval(&m);
    check(e.size() == (k, N), "size of the values");
    let row = |s: &SparseMatrix<f64>, i: usize| { let mut r = [0.0; N]; for (c, v) in s.row_iter(i) { r[c] = *v; } r };
    for i in 0..k {
        check(real_eq(y[(i, 0)], a[i].v), "value");
        let r = row(&e, i);
        let own = a[i].f.clone().jacobian(N);
        let v = own.eval(&m);
        check(own.size() == (1, N) && v.size() == (1, N), "gradient");
        for n in 0..N {
            check(real_eq(r[n], a[i].d[n]) && real_eq(v[(0, n)], a[i].d[n]), "derivatives");
            let stored = j.row_iter(i).any(|(c, _)| c == n);
            check(stored == (own[(0, n)] != AtomicSmoothFn::Zero), "derivatives that are zero are not stored");
            if stored { cover("stored") } else { cover("not stored") }
        }
    }
    cover("end");
}
}
