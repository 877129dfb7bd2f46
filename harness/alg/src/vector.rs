//! formal sums against their coefficient functions
use symrt::*;
use alg::lin_alg::Vector;
use alg::commutative::Rational;

type V = Vector<i64, u8>;
const C: i64 = 7;
/// a formal sum with `len` increasing basis elements below `nb` and non-zero coefficients, next to its terms
fn sum_of(len: usize, nb: usize) -> (V, Vec<(i64, u8)>) {
    let b: Vec<u8> = (0..len).map(|_| idx(nb) as u8).collect();
    for i in 1..len { assume(b[i - 1] < b[i]); }
    let c: Vec<i64> = (0..len).map(|_| int(-C, C)).collect();
    for &x in &c { assume(x != 0); }
    let mut v = V::from(b.clone());
    for (t, &x) in v.iter_mut().zip(&c) { t.0 = x; }
    (v, c.into_iter().zip(b).collect())
}
/// any terms: repeated basis elements and vanishing coefficients allowed
fn coeff(t: &[(i64, u8)], x: u8) -> i64 { let mut s = 0; for &(c, b) in t { s += c * ((b == x) as i64); } s }
fn agree(v: &V, want: &[(i64, u8)], nb: usize, l: &str) {
    let x = idx(nb) as u8;
    let got: Vec<(i64, u8)> = v.iter().cloned().collect();
    check(coeff(&got, x) == coeff(want, x), l);
    for i in 1..got.len() { check(got[i - 1].1 < got[i].1, "basis elements strictly increasing"); }
    for t in &got { check(t.0 != 0, "no vanishing coefficients"); }
    check(v.len() == got.len(), "length");
}
fn scaled(t: &[(i64, u8)], k: i64) -> Vec<(i64, u8)> { t.iter().map(|&(c, b)| (c * k, b)).collect() }
fn cat(a: &[(i64, u8)], b: &[(i64, u8)]) -> Vec<(i64, u8)> { a.iter().chain(b).cloned().collect() }

harnesses! {
fn vec_sum() {
    let nb = param(0) as usize;
    let mut vs = vec![]; let mut all = vec![];
    for k in 1.. { let l = param(k); if l < 0 { break } let (v, t) = sum_of(l as usize, nb); vs.push(v); all.extend(t); }
    let s: V = vs.into_iter().sum();
    agree(&s, &all, nb, "coefficient of the sum");
    cover("end");
}
fn vec_arith() {
    let nb = param(0) as usize;
    let (v, s) = sum_of(param(1) as usize, nb);
    let (w, t) = sum_of(param(2) as usize, nb);
    let k = int(-C, C);
    let b = idx(nb) as u8;
    match pick(8) {
        0 => { let r = v.clone() + w.clone(); agree(&r, &cat(&s, &t), nb, "sum"); check(r == w + v, "sums commute"); cover("add"); }
        1 => { let r = v - w; agree(&r, &cat(&s, &scaled(&t, -1)), nb, "difference"); cover("sub"); }
        2 => { agree(&-v, &scaled(&s, -1), nb, "negation"); cover("neg"); }
        3 => { agree(&(v * k), &scaled(&s, k), nb, "scalar multiple"); cover("mul"); }
        4 => { agree(&(v + b), &cat(&s, &[(1, b)]), nb, "adding a basis element"); cover("addb"); }
        5 => { agree(&(v - b), &cat(&s, &[(-1, b)]), nb, "subtracting a basis element"); cover("subb"); }
        6 => { check(v.clone() - v.clone() == V::zero() && v.clone() + V::zero() == v && V::zero() + v.clone() == v, "zero"); cover("zero"); }
        _ => {
            let i = pick(v.len());
            let mut r = v;
            check(r.remove(i) == s[i], "removed term");
            let mut t = s.clone(); t.remove(i);
            agree(&r, &t, nb, "the rest stays"); cover("remove");
        }
    }
    cover("end");
}
fn vec_from() {
    let nb = param(0) as usize;
    let n = param(1) as usize;
    let b: Vec<u8> = (0..n).map(|_| idx(nb) as u8).collect();
    let want: Vec<(i64, u8)> = b.iter().map(|&x| (1, x)).collect();
    agree(&V::from(b.clone()), &want, nb, "sum of the listed basis elements");
    agree(&b.iter().cloned().collect::<V>(), &want, nb, "collected basis elements");
    if n == 2 { agree(&V::from([b[0], b[1]]), &want, nb, "sum of the array"); }
    if n == 3 { agree(&V::from([b[0], b[1], b[2]]), &want, nb, "sum of the array"); }
    agree(&V::from(b[0]), &want[..1], nb, "a single basis element");
    cover("end");
}
fn vec_index() {
    let nb = param(0) as usize;
    let (v, t) = sum_of(param(1) as usize, nb);
    let x = idx(nb) as u8;
    let c = coeff(&t, x);
    if c == 0 { cover("absent"); must_panic("coefficient of an absent basis element", || v[&x]) }
    check(v[&x] == c, "coefficient");
    let got: Vec<(i64, u8)> = v.into_iter().collect();
    check(got == t, "iteration");
    cover("end");
}
fn vec_laws() {
    let nb = param(0) as usize;
    let (u, _) = sum_of(param(1) as usize, nb);
    let (v, _) = sum_of(param(2) as usize, nb);
    let (w, _) = sum_of(param(3) as usize, nb);
    let k = pick(5) as i64 - 2;
    check((u.clone() + v.clone()) + w.clone() == u.clone() + (v.clone() + w.clone()), "associative");
    check((u.clone() + v.clone()) * k == u.clone() * k + v.clone() * k, "distributive");
    check((u.clone() == v.clone()) == ((u - v).len() == 0), "equal exactly when the difference vanishes");
    cover("end");
}
fn vec_rational() {
    let m = param(0);
    let b: Vec<u8> = vec![1, 4];
    let mut v = Vector::<Rational, u8>::from(b);
    let c: Vec<(i64, i64)> = (0..2).map(|_| (int(1, m), 1 + pick(param(1) as usize) as i64)).collect();
    for (t, &(n, d)) in v.iter_mut().zip(&c) { t.0 = Rational::new(n, d); }
    let (n, d) = (int(-m, m), 1 + pick(param(1) as usize) as i64);
    let k = Rational::new(n, d);
    if n == 0 { cover("div0"); let v = v.clone(); must_panic("division by zero", move || v / k) }
    let w = v.clone() / k;
    for (t, &(a, b)) in w.iter().zip(&c) { check(t.0 == Rational::new(a * d, b * n), "quotient"); }
    check(w * k == v, "dividing and multiplying");
    cover("end");
}
}
