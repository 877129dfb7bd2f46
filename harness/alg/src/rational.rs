//! exact rational arithmetic against cross-multiplied integers
use symrt::*;
use alg::commutative::*;
use std::hash::{Hash, Hasher};
use std::cmp::Ordering;

struct Rec(Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { let mut h = 7u64; for x in &self.0 { h = h.rotate_left(9) ^ x; } h }
    fn write(&mut self, b: &[u8]) { for x in b { self.0.push(*x as u64); } }
    fn write_u8(&mut self, x: u8) { self.0.push(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0.push(x) }
    fn write_usize(&mut self, x: usize) { self.0.push(x as u64) }
}
fn words(r: &Rational) -> Vec<u64> { let mut h = Rec(vec![]); r.hash(&mut h); h.0 }

/// signed numerator over positive denominator, read through the public interface
fn parts(r: &Rational) -> (i64, i64) {
    let n = r.get_numerator() as i64;
    let d = r.get_denominator() as i64;
    (if r.abs() == *r { n } else { -n }, d)
}
fn arb(n: i64, d: i64) -> (i64, i64) {
    let a = int(-n, n);
    let b = int(-d, d);
    assume(b != 0);
    (a, b)
}
/// r is exactly num/den in lowest terms
fn is(r: &Rational, num: i64, den: i64, l: &str) {
    let (n, d) = parts(r);
    check(d > 0 && n * den == num * d, l);
}
fn canonical(r: &Rational) {
    let (n, d) = parts(r);
    check(d > 0, "positive denominator");
    check(n != 0 || (d == 1 && r.abs() == *r), "zero has one representation");
    let d = concretize(d as usize) as i64;
    for k in 2..=d { if d % k == 0 { check(n == 0 || n % k != 0, "lowest terms"); } }
}
/// numerator symbolic, denominator one path per value
fn den(n: i64, d: i64) -> (i64, i64) {
    let b = pick(2 * d as usize) as i64 - d;
    (int(-n, n), if b >= 0 { b + 1 } else { b })
}
fn cmp(a: (i64, i64), c: (i64, i64)) -> i64 { (a.0 * c.1 - c.0 * a.1) * a.1 * c.1 }

harnesses! {
fn rat_new() {
    let (a, b) = arb(param(0), param(1));
    let r = Rational::new(a, b);
    is(&r, a, b, "value of new");
    let (n, d) = parts(&r);
    check(d > 0, "positive denominator");
    check(n != 0 || (d == 1 && r.abs() == r), "zero has one representation");
    let k = int(2, param(1));
    check(n == 0 || !(n % k == 0 && d % k == 0), "lowest terms");
    if a == 0 { cover("zero"); }
    observe(r.get_numerator() as u64); observe(r.get_denominator() as u64);
    cover("end");
}
fn rat_unary() {
    let (a, b) = den(param(0), param(1));
    let r = Rational::new(a, b);
    is(&r, a, b, "value of new");
    canonical(&r);
    let m = -r;
    is(&m, -a, b, "value of the negation");
    canonical(&m);
    check(-m == r, "double negation");
    check(m + r == Rational::zero(), "a number and its negation cancel");
    check(Rational::zero() - r == m && r - Rational::zero() == r, "subtraction from and of zero");
    check((a == 0) == (r == Rational::zero()), "zero iff the numerator is zero");
    is(&r.abs(), a.abs(), b.abs(), "absolute value");
    check(Rational::from(a) == Rational::new(a, 1), "from an integer");
    check(r * Rational::one() == r && r / Rational::one() == r && r + Rational::zero() == r, "identities");
    check(r * Rational::zero() == Rational::zero(), "multiplication by zero");
    if a == 0 { cover("zero"); must_panic("division by zero", || r / r) }
    check(r / r == Rational::one(), "a number over itself");
    let (u, s) = r.simplify();
    check(u * r == s, "canonical associate");
    observe(r.get_numerator() as u64); observe(r.get_denominator() as u64);
    cover("end");
}
/// extreme integers: every sign combination, symbolic choice of the magnitudes around the limits
fn rat_extreme() {
    let e = [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 62, -(1 << 61), 3, -2, 1, 0];
    let n = e[pick(10)];
    let d = e[pick(10)];
    if d == 0 { must_panic("zero denominator", || Rational::new(n, d)) }
    let r = Rational::new(n, d);
    let (p, q) = (r.get_numerator() as i128, r.get_denominator() as i128);
    let pos = r.abs() == r;
    check(q > 0 && (if pos { p } else { -p }) * d as i128 == n as i128 * q, "value");
    let (mut x, mut y) = (p, q);
    while y != 0 { let t = x % y; x = y; y = t; }
    check(x == 1, "lowest terms");
    check((n == 0) == (r == Rational::zero()), "zero");
    cover("end");
}
fn rat_arith() {
    let (a, b) = den(param(0), param(1));
    let (c, d) = den(param(0), param(1));
    if param(2) >= 1 { assume(b > 0 && d > 0); }
    if param(2) == 2 { assume(b == d); }
    if param(2) == 3 { assume(a > 0 && c > 0); }
    let (x, y) = (Rational::new(a, b), Rational::new(c, d));
    match pick(4) {
        0 => { let r = x + y; is(&r, a * d + c * b, b * d, "sum"); canonical(&r); let mut z = x; z += y; check(z == r, "assigning sum"); cover("add"); }
        1 => { let r = x - y; is(&r, a * d - c * b, b * d, "difference"); canonical(&r); let mut z = x; z -= y; check(z == r, "assigning difference"); cover("sub"); }
        2 => { let r = x * y; is(&r, a * c, b * d, "product"); canonical(&r); let mut z = x; z *= y; check(z == r, "assigning product"); cover("mul"); }
        _ => {
            if c == 0 { cover("div0"); must_panic("division by zero", || x / y) }
            let r = x / y; is(&r, a * d, b * c, "quotient"); let (n, m) = parts(&r); check(m > 0 && (n != 0 || m == 1), "canonical quotient");
            check(r * y == x, "the quotient times the divisor"); let mut z = x; z /= y; check(z == r, "assigning quotient"); cover("div");
        }
    }
    cover("end");
}
fn rat_order() {
    let (a, b) = den(param(0), param(1));
    let (c, d) = den(param(0), param(1));
    if param(2) == 1 { assume(b > 0 && d > 0); }
    let (x, y) = (Rational::new(a, b), Rational::new(c, d));
    let k = cmp((a, b), (c, d));
    check((x == y) == (k == 0), "equality is equality of values");
    let o = x.cmp(&y);
    check((o == Ordering::Less) == (k < 0) && (o == Ordering::Greater) == (k > 0), "order is the order of values");
    check(x.partial_cmp(&y) == Some(o) && y.cmp(&x) == o.reverse(), "comparisons agree");
    check((x < y) == (k < 0) && (x <= y) == (k <= 0), "operators agree");
    if k == 0 { check(words(&x) == words(&y), "equal values hash alike"); cover("equal"); }
    check((x - y == Rational::zero()) == (k == 0), "equal exactly when the difference is zero");
    check((-x == -y) == (k == 0) && (-y).cmp(&-x) == o, "negation reverses the order");
    let f: f64 = x.into();
    check(f * b as f64 == a as f64 || (f * b as f64 - a as f64).abs() < 1e-9, "conversion to floating point");
    cover("end");
}
fn rat_fold() {
    let n = param(2) as usize;
    let mut v = vec![];
    let (mut sn, mut sd, mut pn, mut pd) = (0i64, 1i64, 1i64, 1i64);
    for _ in 0..n {
        let (a, b) = (int(-param(0), param(0)), 1 + pick(param(1) as usize) as i64);
        v.push(Rational::new(a, b));
        sn = sn * b + a * sd; sd *= b;
        pn *= a; pd *= b;
    }
    let s: Rational = v.iter().cloned().sum();
    is(&s, sn, sd, "sum of a sequence");
    let p: Rational = v.iter().cloned().product();
    is(&p, pn, pd, "product of a sequence");
    let e: Vec<Rational> = vec![];
    check(e.iter().cloned().sum::<Rational>() == Rational::zero() && e.into_iter().product::<Rational>() == Rational::one(), "empty sum and product");
    cover("end");
}
}
