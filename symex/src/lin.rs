//! polynomials of bit-vector terms. `cong` gives a polynomial congruent to the term modulo 2^width; `exact` one that
//! equals the term's signed or unsigned value, when the ranges of the atoms show that it cannot leave the width (else
//! the term becomes an atom). Two terms with the same polynomial are equal whatever widths they were computed at.
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};

type Mono = Vec<(E, bool)>;
type Poly = BTreeMap<Mono, i128>;
const MAX: usize = 80;
/// representative of c modulo 2^w nearest to zero
fn red(c: i128, w: u16) -> i128 { sx(c as u128 & mask(w), w) }
fn add(a: &Poly, b: &Poly, k: i128, w: u16) -> Option<Poly> {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert(0);
        *e = e.wrapping_add(c.wrapping_mul(k));
    }
    fin(r, w)
}
fn fin(mut r: Poly, w: u16) -> Option<Poly> {
    for c in r.values_mut() { *c = red(*c, w); }
    r.retain(|_, c| *c != 0);
    if r.len() > MAX { None } else { Some(r) }
}
fn mul(a: &Poly, b: &Poly, w: u16) -> Option<Poly> {
    if a.len() * b.len() > 4 * MAX { return None; }
    let mut r = Poly::new();
    for (m, c) in a { for (n, d) in b {
        let mut v = m.clone(); v.extend(n); v.sort();
        if v.len() > 8 { return None; }
        let e = r.entry(v).or_insert(0);
        *e = e.wrapping_add(c.wrapping_mul(*d));
    } }
    fin(r, w)
}
fn cst(c: i128, w: u16) -> Poly { let mut p = Poly::new(); let c = red(c, w); if c != 0 { p.insert(vec![], c); } p }
pub struct Lin<'a> { p: &'a Pool, memo: HashMap<E, Poly>, fuel: u32, centre: bool }
impl<'a> Lin<'a> {
    pub fn new(p: &'a Pool, centre: bool) -> Self { Lin { p, memo: HashMap::new(), fuel: 400, centre } }
    /// with `centre`, the atom of an input stands for its distance from the middle of its range
    fn offset(&self, e: E) -> i128 { if self.centre && self.p.n(e).op == Op::Var { let i = self.p.i(e); if i.uhi < 1 << 62 { ((i.ulo + i.uhi) / 2) as i128 } else { 0 } } else { 0 } }
    fn atom(&self, e: E, s: bool) -> Poly {
        let nonneg = self.p.i(e).slo >= 0;
        let s = s && !nonneg;
        let mut p = Poly::new(); p.insert(vec![(e, s)], 1);
        let k = if s { 0 } else { self.offset(e) };
        if k != 0 { p.insert(vec![], k); }
        p
    }
    fn bounds(&self, q: &Poly) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (0i128, 0i128);
        for (m, c) in q {
            let (mut a, mut b) = (1i128, 1i128);
            for &(e, s) in m {
                let i = self.p.i(e);
                let k = if s { 0 } else { self.offset(e) };
                let (x, y) = if s { (i.slo, i.shi) } else { (i.ulo as i128 - k, i.uhi as i128 - k) };
                let v = [a.checked_mul(x)?, a.checked_mul(y)?, b.checked_mul(x)?, b.checked_mul(y)?];
                a = *v.iter().min().unwrap(); b = *v.iter().max().unwrap();
            }
            let (x, y) = (a.checked_mul(*c)?, b.checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?; hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    fn exact(&mut self, e: E, s: bool) -> Poly {
        let w = self.p.w(e);
        let i = self.p.i(e);
        let q = self.cong(e);
        if let Some((lo, hi)) = self.bounds(&q) {
            let fit = |s: bool| if s { lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1)) } else { lo >= 0 && hi < (1i128 << w) };
            if fit(s) || (i.slo >= 0 && (fit(true) || fit(false))) { return q; }
        }
        let r = self.by_range(e, s).or_else(|| if i.slo >= 0 { self.by_range(e, !s) } else { None });
        r.unwrap_or_else(|| self.atom(e, s))
    }
    /// no overflow by the ranges of the operands
    fn by_range(&mut self, e: E, s: bool) -> Option<Poly> {
        let n = self.p.n(e);
        let w = n.w;
        if self.fuel == 0 { return None; }
        self.fuel -= 1;
        let rg = |x: E| { let i = self.p.i(x); if s { (i.slo, i.shi) } else { (i.ulo as i128, i.uhi as i128) } };
        if !matches!(n.op, Op::Add | Op::Sub | Op::Mul) { return None; }
        let (a, b) = (rg(n.a), rg(n.b));
        let (lo, hi) = match n.op {
            Op::Add => (a.0 + b.0, a.1 + b.1),
            Op::Sub => (a.0 - b.1, a.1 - b.0),
            _ => {
                let v = [a.0.checked_mul(b.0)?, a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?, a.1.checked_mul(b.1)?];
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        };
        if if s { lo < -(1i128 << (w - 1)) || hi >= (1i128 << (w - 1)) } else { lo < 0 || hi >= (1i128 << w) } { return None; }
        let (x, y) = (self.exact(n.a, s), self.exact(n.b, s));
        if x.values().chain(y.values()).any(|c| c.unsigned_abs() >= 1 << 55) { return None; }
        match n.op { Op::Add => add(&x, &y, 1, 120), Op::Sub => add(&x, &y, -1, 120), _ => mul(&x, &y, 120) }
    }
    pub fn cong(&mut self, e: E) -> Poly {
        if let Some(r) = self.memo.get(&e) { return r.clone(); }
        let w = self.p.w(e);
        let r = if self.fuel == 0 || w >= 120 || self.p.i(e).undef { None } else { self.fuel -= 1; self.step(e, w) };
        let r = r.unwrap_or_else(|| self.atom(e, self.p.n(e).op != Op::Var));
        self.memo.insert(e, r.clone());
        r
    }
    fn step(&mut self, e: E, w: u16) -> Option<Poly> {
        let n = self.p.n(e);
        match n.op {
            Op::Const => Some(cst(n.imm as i128, w)),
            Op::SExt | Op::ZExt => if self.p.i(n.a).undef { None } else { Some(self.exact(n.a, n.op == Op::SExt)) },
            Op::Add | Op::Sub => { let (x, y) = (self.cong(n.a), self.cong(n.b)); add(&x, &y, if n.op == Op::Add { 1 } else { -1 }, w) }
            Op::Mul => { let (x, y) = (self.cong(n.a), self.cong(n.b)); mul(&x, &y, w) }
            Op::Not if w > 1 => { let x = self.cong(n.a); add(&cst(-1, w), &x, -1, w) }
            Op::Shl => {
                let k = self.p.is_const(n.b)?;
                if k >= w as u128 { return None; }
                let x = self.cong(n.a);
                mul(&x, &cst(1 << k, w), w)
            }
            Op::Extract if n.imm == 0 && self.p.w(n.a) < 120 => { let x = self.cong(n.a); fin(x, w) }
            Op::Concat => {
                let k = self.p.w(n.b);
                let (x, y) = (self.cong(n.a), self.exact(n.b, false));
                add(&y, &x, 1i128 << k, w)
            }
            _ => None,
        }
    }
}
/// Some(true): always equal, Some(false): never equal
pub fn equal(p: &Pool, a: E, b: E) -> Option<bool> {
    let arith = |mut e: E| loop { match p.n(e).op { Op::SExt | Op::ZExt | Op::Extract => e = p.n(e).a, o => return matches!(o, Op::Add | Op::Sub | Op::Mul) } };
    let w = p.w(a);
    if w < 3 || w > 64 || !(arith(a) || arith(b)) || p.i(a).undef || p.i(b).undef { return None; }
    for centre in [true, false] {
        let mut l = Lin::new(p, centre);
        if let Some(d) = add(&l.cong(a), &l.cong(b), -1, w) {
            if d.is_empty() { return Some(true); }
            if d.len() == 1 && d.contains_key(&vec![]) { return Some(false); }
        }
    }
    None
}
