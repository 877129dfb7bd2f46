//! normal forms of real terms: quotients of multivariate polynomials over the rationals.
//! Atoms are inputs and terms the algebra does not look into; square roots are reduced by r*r = x.
//! Denominators are non-zero wherever a quotient exists: the executor takes a separate path for a zero divisor.
use crate::expr::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Mono { deg: u32, v: Vec<(E, u16)> }
impl Ord for Mono {
    fn cmp(&self, o: &Self) -> Ordering {
        // graded lexicographic: compatible with multiplication
        let c = self.deg.cmp(&o.deg);
        if c != Ordering::Equal { return c; }
        for (a, b) in self.v.iter().zip(&o.v) {
            if a.0 != b.0 { return b.0.cmp(&a.0); }
            if a.1 != b.1 { return a.1.cmp(&b.1); }
        }
        self.v.len().cmp(&o.v.len())
    }
}
impl PartialOrd for Mono { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Mono {
    fn one() -> Mono { Mono { deg: 0, v: vec![] } }
    fn mul(&self, o: &Mono) -> Mono {
        let mut v = Vec::with_capacity(self.v.len() + o.v.len());
        let (mut i, mut j) = (0, 0);
        while i < self.v.len() || j < o.v.len() {
            if j == o.v.len() || (i < self.v.len() && self.v[i].0 < o.v[j].0) { v.push(self.v[i]); i += 1; }
            else if i == self.v.len() || o.v[j].0 < self.v[i].0 { v.push(o.v[j]); j += 1; }
            else { v.push((self.v[i].0, self.v[i].1 + o.v[j].1)); i += 1; j += 1; }
        }
        Mono { deg: self.deg + o.deg, v }
    }
    fn div(&self, o: &Mono) -> Option<Mono> {
        if o.deg > self.deg { return None; }
        let mut v = vec![]; let mut j = 0;
        for &(x, k) in &self.v {
            if j < o.v.len() && o.v[j].0 < x { return None; }
            if j < o.v.len() && o.v[j].0 == x { if o.v[j].1 > k { return None; } if k > o.v[j].1 { v.push((x, k - o.v[j].1)); } j += 1; } else { v.push((x, k)); }
        }
        if j < o.v.len() { return None; }
        Some(Mono { deg: self.deg - o.deg, v })
    }
}
type Q = (i128, i128);
fn qn(n: i128, d: i128) -> Option<Q> {
    if d == 0 { return None; }
    let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1) as i128;
    let s = if d < 0 { -1 } else { 1 };
    Some((n / g * s, d / g * s))
}
fn qadd(a: Q, b: Q) -> Option<Q> {
    if a.1 == b.1 { return qn(a.0.checked_add(b.0)?, a.1); }
    qn(a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?)
}
fn qmul(a: Q, b: Q) -> Option<Q> { let (x, y) = (qn(a.0, b.1)?, qn(b.0, a.1)?); Some((x.0.checked_mul(y.0)?, x.1.checked_mul(y.1)?)) }
fn qdiv(a: Q, b: Q) -> Option<Q> { if b.0 == 0 { None } else { qmul(a, qn(b.1, b.0)?) } }

const MAX_TERMS: usize = 6000;
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default, PartialOrd, Ord)]
pub struct Poly(BTreeMap<Mono, Q>);
impl Poly {
    pub fn zero() -> Poly { Poly(BTreeMap::new()) }
    fn cst(q: Q) -> Poly { let mut p = Poly::zero(); if q.0 != 0 { p.0.insert(Mono::one(), q); } p }
    fn atom(e: E) -> Poly { let mut p = Poly::zero(); p.0.insert(Mono { deg: 1, v: vec![(e, 1)] }, (1, 1)); p }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn terms(&self) -> usize { self.0.len() }
    fn is_const(&self) -> Option<Q> { match self.0.len() { 0 => Some((0, 1)), 1 => { let (m, q) = self.0.iter().next().unwrap(); if m.deg == 0 { Some(*q) } else { None } } _ => None } }
    fn lead(&self) -> Option<(&Mono, &Q)> { self.0.iter().next_back() }
    fn acc(&mut self, m: Mono, q: Q) -> Option<()> {
        if q.0 == 0 { return Some(()); }
        match self.0.entry(m) {
            std::collections::btree_map::Entry::Vacant(v) => { v.insert(q); }
            std::collections::btree_map::Entry::Occupied(mut o) => { let s = qadd(*o.get(), q)?; if s.0 == 0 { o.remove(); } else { *o.get_mut() = s; } }
        }
        Some(())
    }
    fn add(&self, o: &Poly) -> Option<Poly> { let mut r = self.clone(); for (m, q) in &o.0 { r.acc(m.clone(), *q)?; } Some(r) }
    fn scale(&self, k: Q) -> Option<Poly> { if k.0 == 0 { return Some(Poly::zero()); } let mut r = Poly::zero(); for (m, q) in &self.0 { r.0.insert(m.clone(), qmul(*q, k)?); } Some(r) }
    fn mul(&self, o: &Poly) -> Option<Poly> {
        let mut r = Poly::zero();
        if self.terms() * o.terms() > 400_000 { return None; }
        for (m, q) in &self.0 { for (n, s) in &o.0 { r.acc(m.mul(n), qmul(*q, *s)?)?; } if r.terms() > MAX_TERMS { return None; } }
        Some(r)
    }
    /// exact quotient
    fn divide(&self, f: &Poly) -> Option<Poly> {
        let (fm, fq) = f.lead()?;
        let mut rem = self.clone(); let mut q = Poly::zero();
        while let Some((m, k)) = rem.lead() {
            let d = m.div(fm)?; let c = qdiv(*k, *fq)?;
            q.acc(d.clone(), c)?;
            for (n, s) in &f.0 { let t = qmul(*s, c)?; rem.acc(d.mul(n), (-t.0, t.1))?; }
        }
        Some(q)
    }
    /// remainder on dividing by several polynomials
    fn reduce(&self, fs: &[Poly]) -> Option<Poly> {
        let mut rem = self.clone(); let mut out = Poly::zero(); let mut steps = 0;
        'l: while let Some((m, k)) = rem.lead() {
            steps += 1; if steps > 20000 || rem.terms() > MAX_TERMS { return None; }
            for f in fs {
                let (fm, fq) = f.lead()?;
                if let Some(d) = m.div(fm) {
                    let c = qdiv(*k, *fq)?;
                    for (n, s) in &f.0 { let t = qmul(*s, c)?; rem.acc(d.mul(n), (-t.0, t.1))?; }
                    continue 'l;
                }
            }
            let (m, k) = (m.clone(), *k);
            rem.0.remove(&m); out.0.insert(m, k);
        }
        Some(out)
    }
    pub fn to_e(&self, p: &mut Pool) -> E {
        let mut s = p.rconst(0, 1);
        for (m, q) in &self.0 {
            let mut t = p.rconst(1, 1);
            for &(e, k) in &m.v { for _ in 0..k { t = p.rmul(t, e); } }
            let c = p.rconst(q.0, q.1);
            let t = p.rmul(c, t);
            s = p.radd(s, t);
        }
        s
    }
    fn fits(&self) -> bool { self.0.values().all(|q| q.0.abs() < 1 << 60 && q.1 < 1 << 60) }
}
#[derive(Clone, Debug)]
pub struct Rat { pub num: Poly, pub den: Vec<(Rc<Poly>, u16)> }
#[derive(Default)]
pub struct Alg { funs: Vec<(u128, E)>, memo: HashMap<E, Option<Rc<Rat>>>, pub hits: u64 }
impl Alg {
    fn den_mul(a: &[(Rc<Poly>, u16)], b: &[(Rc<Poly>, u16)], lcm: bool) -> Vec<(Rc<Poly>, u16)> {
        let mut r = a.to_vec();
        for (f, k) in b { match r.iter_mut().find(|x| x.0 == *f) { Some(x) => x.1 = if lcm { x.1.max(*k) } else { x.1 + k }, None => r.push((f.clone(), *k)) } }
        r
    }
    fn missing(all: &[(Rc<Poly>, u16)], have: &[(Rc<Poly>, u16)]) -> Option<Poly> {
        let mut r = Poly::cst((1, 1));
        for (f, k) in all { let h = have.iter().find(|x| x.0 == *f).map(|x| x.1).unwrap_or(0); for _ in h..*k { r = r.mul(f)?; } }
        Some(r)
    }
    fn cancel(mut r: Rat) -> Rat {
        if r.num.is_zero() { r.den.clear(); return r; }
        if r.num.terms() > 400 { return r; }
        for d in r.den.iter_mut() { while d.1 > 0 { if let Some(q) = r.num.divide(&d.0) { r.num = q; d.1 -= 1; } else { break; } } }
        r.den.retain(|d| d.1 > 0);
        r
    }
    fn add(&mut self, p: &Pool, a: &Rat, b: &Rat) -> Option<Rat> {
        let _ = p;
        let den = Self::den_mul(&a.den, &b.den, true);
        let (x, y) = (Self::missing(&den, &a.den)?, Self::missing(&den, &b.den)?);
        let r = Rat { num: a.num.mul(&x)?.add(&b.num.mul(&y)?)?, den };
        self.roots(p, Self::cancel(r))
    }
    fn mul(&mut self, p: &Pool, a: &Rat, b: &Rat) -> Option<Rat> {
        let r = Rat { num: a.num.mul(&b.num)?, den: Self::den_mul(&a.den, &b.den, false) };
        self.roots(p, Self::cancel(r))
    }
    fn is_root(p: &Pool, e: E) -> Option<E> { let n = p.n(e); if n.op == Op::RFun && n.imm == 5 { Some(n.a) } else { None } }
    /// powers of square roots, in the numerator and as factors of the denominator
    fn roots(&mut self, p: &Pool, r: Rat) -> Option<Rat> {
        if let Some(i) = r.den.iter().position(|d| d.0.terms() == 1 && { let m = d.0.lead().unwrap().0; m.deg == 1 && Self::is_root(p, m.v[0].0).is_some() }) {
            let (f, k) = r.den[i].clone();
            let root = f.lead().unwrap().0.v[0].0;
            let x = self.norm(p, Self::is_root(p, root).unwrap())?;
            let inv = self.inv(p, &x)?;
            let mut rest = r; rest.den.remove(i);
            let mut c = rest;
            for _ in 0..k { let s = Rat { num: c.num.mul(&Poly::atom(root))?, den: c.den.clone() }; let s = self.roots(p, s)?; c = self.mul(p, &s, &inv)?; }
            return Some(c);
        }
        let mut root = None;
        for m in r.num.0.keys() { for &(e, k) in &m.v { if k > 1 && Self::is_root(p, e).is_some() { root = Some(e); } } }
        let root = match root { Some(e) => e, None => return Some(r) };
        let x = self.norm(p, Self::is_root(p, root).unwrap())?;
        // by powers of the root
        let mut parts: BTreeMap<u16, Poly> = BTreeMap::new();
        for (m, q) in &r.num.0 {
            let k = m.v.iter().find(|v| v.0 == root).map(|v| v.1).unwrap_or(0);
            let keep = k % 2;
            let mut v: Vec<(E, u16)> = m.v.iter().copied().filter(|v| v.0 != root).collect();
            if keep == 1 { v.push((root, 1)); v.sort(); }
            let deg = v.iter().map(|v| v.1 as u32).sum();
            parts.entry(k / 2).or_default().acc(Mono { deg, v }, *q)?;
        }
        let mut out = Rat { num: Poly::zero(), den: vec![] };
        for (k, part) in parts {
            let mut t = Rat { num: part, den: r.den.clone() };
            for _ in 0..k { t = self.mul(p, &t, &x)?; }
            out = self.add(p, &out, &t)?;
        }
        Some(out)
    }
    fn inv(&mut self, p: &Pool, a: &Rat) -> Option<Rat> {
        if a.num.is_zero() { return None; }
        let mut num = Poly::cst((1, 1));
        for (f, k) in &a.den { for _ in 0..*k { num = num.mul(f)?; } }
        let mut den = vec![]; let mut f = a.num.clone();
        // common atoms become factors of their own
        let mut common: Option<Vec<(E, u16)>> = None;
        for m in f.0.keys() { common = Some(match common { None => m.v.clone(), Some(c) => c.into_iter().filter_map(|(e, k)| m.v.iter().find(|x| x.0 == e).map(|x| (e, k.min(x.1)))).collect() }); }
        if let Some(c) = common { if !c.is_empty() {
            let deg = c.iter().map(|v| v.1 as u32).sum();
            let m = Mono { deg, v: c.clone() };
            let mut g = Poly::zero(); for (n, q) in &f.0 { g.0.insert(n.div(&m)?, *q); }
            f = g;
            for (e, k) in c { den.push((Rc::new(Poly::atom(e)), k)); }
        } }
        let (_, lq) = f.lead()?; let lq = *lq;
        let k = qdiv((1, 1), lq)?;
        num = num.scale(k)?;
        if f.is_const().is_none() { f = f.scale(k)?; den.push((Rc::new(f), 1)); }
        self.roots(p, Self::cancel(Rat { num, den }))
    }
    pub fn norm(&mut self, p: &Pool, e: E) -> Option<Rc<Rat>> {
        if let Some(r) = self.memo.get(&e) { return r.clone(); }
        let r = self.norm1(p, e).map(Rc::new);
        self.memo.insert(e, r.clone());
        r
    }
    fn norm1(&mut self, p: &Pool, e: E) -> Option<Rat> {
        if let Some((a, b)) = p.rval(e) { return Some(Rat { num: Poly::cst((a, b)), den: vec![] }); }
        let n = p.n(e);
        match n.op {
            Op::RAdd => { let (a, b) = (self.norm(p, n.a)?, self.norm(p, n.b)?); self.add(p, &a, &b) }
            Op::RSub => { let (a, b) = (self.norm(p, n.a)?, self.norm(p, n.b)?); let b = Rat { num: b.num.scale((-1, 1))?, den: b.den.clone() }; self.add(p, &a, &b) }
            Op::RNeg => { let a = self.norm(p, n.a)?; Some(Rat { num: a.num.scale((-1, 1))?, den: a.den.clone() }) }
            Op::RMul => { let (a, b) = (self.norm(p, n.a)?, self.norm(p, n.b)?); self.mul(p, &a, &b) }
            Op::RDiv => { let (a, b) = (self.norm(p, n.a)?, self.norm(p, n.b)?); let b = self.inv(p, &b)?; self.mul(p, &a, &b) }
            // functions of equal arguments are one atom
            Op::RFun => {
                for i in 0..self.funs.len() {
                    let (k, f) = self.funs[i];
                    if k == n.imm && self.diff(p, p.n(f).a, n.a)?.num.is_zero() { return Some(Rat { num: Poly::atom(f), den: vec![] }); }
                }
                self.funs.push((n.imm, e));
                Some(Rat { num: Poly::atom(e), den: vec![] })
            }
            _ => Some(Rat { num: Poly::atom(e), den: vec![] }),
        }
    }
    fn diff(&mut self, p: &Pool, a: E, b: E) -> Option<Rat> {
        let (x, y) = (self.norm(p, a)?, self.norm(p, b)?);
        let y = Rat { num: y.num.scale((-1, 1))?, den: y.den.clone() };
        self.add(p, &x, &y)
    }
    fn has_div(&self, p: &Pool, e: E, seen: &mut std::collections::HashSet<E>) -> bool {
        if !seen.insert(e) { return false; }
        let n = p.n(e);
        match n.op { Op::RDiv => true, Op::RAdd | Op::RSub | Op::RMul => self.has_div(p, n.a, seen) || self.has_div(p, n.b, seen), Op::RNeg => self.has_div(p, n.a, seen), _ => false }
    }
    /// a comparison without quotients; `None`: leave it as it is
    pub fn compare(&mut self, p: &mut Pool, op: Op, a: E, b: E) -> Option<E> {
        let d = self.diff(p, a, b)?;
        if d.num.is_zero() { return Some(if op == Op::RLt { p.fls() } else { p.tru() }); }
        let mut seen = Default::default();
        let quot = self.has_div(p, a, &mut seen) || self.has_div(p, b, &mut seen);
        if !quot && d.num.is_const().is_none() { return None; }
        let mut num = d.num.clone();
        if op != Op::REq { for (f, k) in &d.den { if k % 2 == 1 { num = num.mul(f)?; } } num = match self.roots(p, Rat { num, den: vec![] })? { r if r.den.is_empty() => r.num, _ => return None }; }
        if num.terms() > 300 || !num.fits() { return None; }
        let e = num.to_e(p); let z = p.rconst(0, 1);
        Some(match op { Op::REq => p.req(e, z), Op::RLt => p.rlt(e, z), _ => p.rle(e, z) })
    }
    /// an equation that follows from the equations of the path by polynomial division
    pub fn follows(&mut self, p: &mut Pool, pc: &[E], c: E) -> bool { self.follows1(p, pc, c).unwrap_or(false) }
    fn follows1(&mut self, p: &mut Pool, pc: &[E], c: E) -> Option<bool> {
        let n = p.n(c);
        if n.op == Op::And { return Some(self.follows1(p, pc, n.a)? && self.follows1(p, pc, n.b)?); }
        if n.op != Op::REq { return Some(false); }
        let g = self.diff(p, n.a, n.b)?.num;
        if g.is_zero() { return Some(true); }
        let mut fs: Vec<Poly> = vec![];
        for &e in pc {
            let m = p.n(e);
            if m.op != Op::REq { continue; }
            let f = match self.diff(p, m.a, m.b) { Some(d) => d.num, None => continue };
            let f = f.reduce(&fs)?;
            if !f.is_zero() { fs.push(f); }
        }
        if fs.is_empty() { return Some(false); }
        // lowest leading terms first
        fs.sort_by(|a, b| a.lead().unwrap().0.cmp(b.lead().unwrap().0));
        let r = g.reduce(&fs)?;
        if r.is_zero() { return Some(true); }
        let r = self.roots(p, Rat { num: r, den: vec![] })?.num.reduce(&fs)?;
        Some(r.is_zero())
    }
}
