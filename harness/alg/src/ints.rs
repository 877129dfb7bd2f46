//! divisibility, gcd certificates and primality of the integer types
use symrt::*;
use alg::commutative::*;

macro_rules! divide {
    ($t:ty, $lo:expr, $hi:expr) => {{
        let n = int($lo, $hi) as $t;
        let d = int($lo, $hi) as $t;
        assume(d != 0);
        assume(!(n == <$t>::MIN && d == -1)); // the quotient is not representable
        let (q, r) = n.euclid_div(d);
        check(r >= 0, "remainder is not negative");
        check((r as i128) < (d as i128).abs(), "remainder is smaller than the divisor");
        check(q as i128 * d as i128 + r as i128 == n as i128, "quotient times divisor plus remainder");
        check(d.divides(n) == (n % d == 0), "divides iff no remainder");
        let (u, m) = if n == <$t>::MIN { (1, 0) } else { n.simplify() };
        check(n == <$t>::MIN || ((u == 1 || u == -1) && m >= 0 && u as i128 * n as i128 == m as i128), "canonical associate");
        if n < 0 && r > 0 { cover("negative numerator"); }
        observe(q as u64); observe(r as u64);
        cover("end");
    }};
}
macro_rules! bezout {
    ($t:ty, $lo:expr, $hi:expr) => {{
        // one path per value of the first number; the second stays symbolic
        let a = (pick(($hi - $lo + 1) as usize) as i64 + $lo) as $t;
        let b = int($lo, $hi) as $t;
        let (g, x, y) = bezout_identity(a, b);
        check(g >= 0, "the gcd is not negative");
        check(g as i32 * 1 == a as i32 * x as i32 + b as i32 * y as i32, "the gcd is the stated combination");
        if a == 0 && b == 0 { check(g == 0, "gcd of zeros"); cover("zeros"); }
        else { check(g > 0 && a % g == 0 && b % g == 0, "the gcd divides both"); }
        observe(g as u64); observe(x as u64); observe(y as u64);
        cover("end");
    }};
}
macro_rules! prime {
    ($t:ty, $lo:expr, $hi:expr) => {{
        let n = int($lo, $hi) as $t;
        let p = n.is_prime();
        let m = if n < 0 { -n } else { n };
        // certificate in both directions: a symbolic divisor
        let d = int(2, $hi) as $t;
        check(!(p && m != 0 && d < m && m % d == 0), "a prime has no proper divisor");
        check(!(p && m < 2), "units and zero are not prime");
        if !p && m >= 2 {
            let mut found = false;
            let mut k: $t = 2; while (k as i64 - 1) * (k as i64 - 1) <= $hi as i64 { found |= k < m && m % k == 0; k += 1; }
            check(found, "a non-prime has a proper divisor");
            cover("composite");
        } else { cover("prime or unit"); }
        observe(p as u64);
    }};
}
macro_rules! nfactors {
    ($t:ty, $lo:expr, $hi:expr) => {{
        let n = int($lo, $hi) as $t;
        let c = n.n_prime_factors();
        let mut m = if n < 0 { -(n as i64) } else { n as i64 };
        // reference: divide by 2, 3, ..
        let mut k = 0;
        if m != 0 {
            let mut d: i64 = 2;
            while d <= $hi as i64 && d <= m { while m % d == 0 { m /= d; k += 1; } d += 1; }
        }
        check(c == k, "number of prime factors with multiplicity");
        observe(c as u64);
        cover("end");
    }};
}
harnesses! {
fn divide_i8() { divide!(i8, -128, 127) }
fn divide_i16() { divide!(i16, -32768, 32767) }
fn divide_i32() { let k = param(0); divide!(i32, -k, k) }
fn divide_i64() { let k = param(0); divide!(i64, -k, k) }
fn divide_isize() { let k = param(0); divide!(isize, -k, k) }
fn divide_i128() { let k = param(0); divide!(i128, -k, k) }
fn bezout_i8() { let k = param(0); bezout!(i8, -k, k) }
fn bezout_i16() { let k = param(0); bezout!(i16, -k, k) }
fn bezout_i64() { let k = param(0); bezout!(i64, -k, k) }
fn prime_i8() { prime!(i8, -127, 127) }
fn prime_i64() { let k = param(0); prime!(i64, -k, k) }
fn nfactors_i8() { nfactors!(i8, -127, 127) }
fn nfactors_i64() { let k = param(0); nfactors!(i64, -k, k) }
}
