//! Hash-consed expression DAG over bit-vectors (width 1..=128) and reals (width 0),
//! with constant folding, interval tracking and width reduction.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Undef,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Not,
    Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
    // reals
    RConst, RVar, RAdd, RSub, RMul, RDiv, RNeg, REq, RLt, RLe, RFun, SToR, UToR,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub imm: u128 }

#[derive(Clone, Copy, Debug)]
pub struct Info { pub ulo: u128, pub uhi: u128, pub slo: i128, pub shi: i128, pub undef: bool }

pub struct Pool {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, E>,
    memo: FxMap<(u8, E, E, u32), E>,
    pub n_vars: u32,
    /// what the current path condition says about single expressions (see `assume_fact`)
    on: bool,
    refined: FxMap<E, Info>,
    lt: FxMap<(E, E), bool>,
    cache: std::cell::RefCell<FxMap<E, Info>>,
    /// bit i: variable i (63: any other) occurs in the expression
    sup: Vec<u64>,
    /// variables with only one possible value on the current path
    pub pinned: u64,
    pins: Model,
    /// k-th input of a path, by width: every path uses the same variables
    by_pos: FxMap<(usize, u16), (E, u32)>,
    pos_of: FxMap<u32, usize>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
fn ubits(v: u128) -> u16 { (128 - v.leading_zeros()) as u16 }
/// number of bits needed to hold lo..=hi as signed
fn sbits(lo: i128, hi: i128) -> u16 {
    let f = |x: i128| -> u16 { if x >= 0 { ubits(x as u128) + 1 } else { ubits(!x as u128) + 1 } };
    f(lo).max(f(hi))
}

pub const NONE: E = u32::MAX;
fn q_w(p: &Pool, e: E) -> u16 { p.w(e) }

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: Vec::new(), info: Vec::new(), map: FxMap::default(), memo: FxMap::default(), n_vars: 0, on: false, refined: FxMap::default(), lt: FxMap::default(), cache: Default::default(), sup: Vec::new(), pinned: 0, pins: Model::new(vec![]), by_pos: Default::default(), pos_of: Default::default() }
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn i(&self, e: E) -> Info { if self.on { self.i_ctx(e, 8) } else { self.info[e as usize] } }
    fn i_ctx(&self, e: E, depth: u32) -> Info {
        let base = self.info[e as usize];
        let n = self.nodes[e as usize];
        if n.w == 0 || base.undef || n.op == Op::Const { return base; }
        if self.determined(e) { let v = self.pins.eval(self, e); return Self::from_u(n.w, v, v); }
        if let Some(&i) = self.cache.borrow().get(&e) { return i; }
        let mut r = base;
        if let Some(&x) = self.refined.get(&e) { r = Self::meet(n.w, r, x); }
        if depth == 0 { return r; }
        if !matches!(n.op, Op::Var | Op::Undef) {
            let g = |x: E| self.i_ctx(x, depth - 1);
            let t = self.transfer(&n, &g, true);
            r = Self::meet(n.w, r, t);
        }
        self.cache.borrow_mut().insert(e, r);
        r
    }
    /// the value of e follows from variables that have one value on this path
    #[inline] pub fn determined(&self, e: E) -> bool { self.sup[e as usize] & !self.pinned == 0 }
    pub fn pinned_value(&self, e: E) -> u128 { self.pins.eval(self, e) }
    /// forget the path (called when another state is resumed)
    pub fn reset_ctx(&mut self) {
        if self.on { self.memo.clear(); }
        self.on = false; self.refined.clear(); self.lt.clear(); self.cache.borrow_mut().clear();
        self.pinned = 0; self.pins = Model::new(vec![]);
    }
    /// `c` (width 1) holds on the current path from now on
    pub fn assume_fact(&mut self, c: E) {
        let mut changed = false;
        self.fact(c, 6, &mut changed);
        if changed { self.on = true; self.memo.clear(); self.cache.borrow_mut().clear(); }
    }
    fn refine(&mut self, e: E, x: Info, depth: u32, ch: &mut bool) {
        let n = self.n(e);
        if n.w == 0 || n.op == Op::Const || self.info[e as usize].undef { return; }
        let old = self.i(e);
        let new = Self::meet(n.w, old, x);
        if new.ulo == old.ulo && new.uhi == old.uhi && new.slo == old.slo && new.shi == old.shi { return; }
        self.refined.insert(e, new);
        if n.op == Op::Var && new.ulo == new.uhi && self.input_bit(n.imm as u32) != 1 << 63 {
            let k = n.imm as usize;
            if self.pins.vals.len() <= k { self.pins.vals.resize(k + 1, 0); }
            self.pins.vals[k] = new.ulo;
            self.pinned |= self.input_bit(k as u32);
        }
        self.on = true;
        self.cache.borrow_mut().clear();
        *ch = true;
        if depth == 0 { return; }
        match n.op {
            Op::ZExt => { let iw = self.w(n.a); if new.uhi <= mask(iw) { self.refine(n.a, Self::from_u(iw, new.ulo, new.uhi), depth - 1, ch) } }
            Op::SExt => { let iw = self.w(n.a); let f = Self::full(iw); let (lo, hi) = (new.slo.max(f.slo), new.shi.min(f.shi)); if lo <= hi { self.refine(n.a, Self::from_s(iw, lo, hi), depth - 1, ch) } }
            Op::Extract if n.imm == 0 => {
                let a = self.i(n.a); let aw = self.w(n.a); let f = Self::full(n.w);
                if a.uhi <= mask(n.w) { self.refine(n.a, Self::from_u(aw, new.ulo, new.uhi), depth - 1, ch) }
                else if a.slo >= f.slo && a.shi <= f.shi { self.refine(n.a, Self::from_s(aw, new.slo, new.shi), depth - 1, ch) }
            }
            Op::Extract if n.w == 1 && n.imm == self.w(n.a) as u128 - 1 && new.ulo == new.uhi => {
                let aw = self.w(n.a); let f = Self::full(aw);
                let x = if new.ulo == 1 { Self::from_s(aw, f.slo, -1) } else { Self::from_s(aw, 0, f.shi) };
                self.refine(n.a, x, depth - 1, ch)
            }
            Op::Add if n.w <= 64 => if let Some(k) = self.is_const(n.b) {
                let a = self.i(n.a); let f = Self::full(n.w); let ks = sx(k, n.w);
                if a.slo + ks >= f.slo && a.shi + ks <= f.shi { let (lo, hi) = (new.slo - ks, new.shi - ks); let (lo, hi) = (lo.max(f.slo), hi.min(f.shi)); if lo <= hi { self.refine(n.a, Self::from_s(n.w, lo, hi), depth - 1, ch) } }
                else if let Some(x) = Self::unwrap_range(n.w, new.ulo.wrapping_sub(k) & mask(n.w), new.uhi.wrapping_sub(k) & mask(n.w), a) { self.refine(n.a, x, depth - 1, ch) }
            },
            Op::Sub if n.w <= 64 => if let Some(k) = self.is_const(n.a) {
                let b = self.i(n.b); let f = Self::full(n.w); let ks = sx(k, n.w);
                if ks - b.shi >= f.slo && ks - b.slo <= f.shi { let (lo, hi) = ((ks - new.shi).max(f.slo), (ks - new.slo).min(f.shi)); if lo <= hi { self.refine(n.b, Self::from_s(n.w, lo, hi), depth - 1, ch) } }
                else if let Some(x) = Self::unwrap_range(n.w, k.wrapping_sub(new.uhi) & mask(n.w), k.wrapping_sub(new.ulo) & mask(n.w), b) { self.refine(n.b, x, depth - 1, ch) }
            },
            _ => {}
        }
    }
    /// the part of the wrapped unsigned interval [lo, hi] that meets `old`, when it is one interval
    fn unwrap_range(w: u16, lo: u128, hi: u128, old: Info) -> Option<Info> {
        if lo <= hi { return Some(Self::from_u(w, lo, hi)); }
        match (old.uhi >= lo, old.ulo <= hi) {
            (true, false) => Some(Self::from_u(w, lo, mask(w))),
            (false, true) => Some(Self::from_u(w, 0, hi)),
            _ => None,
        }
    }
    fn fact(&mut self, c: E, depth: u32, ch: &mut bool) {
        let n = self.n(c);
        if n.op == Op::Const { return; }
        self.refine(c, Self::from_u(1, 1, 1), 1, ch);
        if depth == 0 { return; }
        match n.op {
            Op::And => { self.fact(n.a, depth - 1, ch); self.fact(n.b, depth - 1, ch); }
            Op::Not => {
                let q = self.n(n.a);
                self.refine(n.a, Self::from_u(1, 0, 0), 2, ch);
                if q.op == Op::Eq {
                    if let Some(k) = self.is_const(q.b) {
                        let a = self.i(q.a); let w = q_w(self, q.a);
                        if a.ulo == k && a.uhi > k { self.refine(q.a, Self::from_u(w, k + 1, a.uhi), 6, ch); }
                        else if a.uhi == k && a.ulo < k { self.refine(q.a, Self::from_u(w, a.ulo, k - 1), 6, ch); }
                        else {
                            let ks = sx(k, w);
                            if a.slo == ks && a.shi > ks { self.refine(q.a, Self::from_s(w, ks + 1, a.shi), 6, ch); }
                            else if a.shi == ks && a.slo < ks { self.refine(q.a, Self::from_s(w, a.slo, ks - 1), 6, ch); }
                        }
                    }
                }
                if q.op == Op::Or { let (x, y) = (self.not(q.a), self.not(q.b)); self.fact(x, depth - 1, ch); self.fact(y, depth - 1, ch); }
            }
            Op::Eq => {
                let w = self.w(n.a);
                if w == 0 { return; }
                let (a, b) = (self.i(n.a), self.i(n.b));
                self.refine(n.a, b, 6, ch); self.refine(n.b, a, 6, ch);
            }
            Op::Ult | Op::Ule => {
                let w = self.w(n.a); let d = (n.op == Op::Ult) as u128;
                let (a, b) = (self.i(n.a), self.i(n.b));
                if b.uhi >= d && a.ulo <= b.uhi - d { self.refine(n.a, Self::from_u(w, a.ulo, (b.uhi - d).min(a.uhi).max(a.ulo)), 6, ch); }
                if a.ulo + d <= b.uhi { self.refine(n.b, Self::from_u(w, (a.ulo + d).max(b.ulo), b.uhi), 6, ch); }
                let (x, y) = (self.strip0(n.a), self.strip0(n.b));
                if self.is_const(x).is_none() && self.is_const(y).is_none() {
                    let s = self.lt.entry((x, y)).or_insert(false);
                    *s |= d == 1; *ch = true;
                }
            }
            Op::Slt | Op::Sle => {
                let w = self.w(n.a); if w > 64 { return; }
                let d = (n.op == Op::Slt) as i128;
                let (a, b) = (self.i(n.a), self.i(n.b));
                if a.slo <= b.shi - d { self.refine(n.a, Self::from_s(w, a.slo, (b.shi - d).min(a.shi).max(a.slo)), 6, ch); }
                if a.slo + d <= b.shi { self.refine(n.b, Self::from_s(w, (a.slo + d).max(b.slo), b.shi), 6, ch); }
            }
            _ => {}
        }
    }
    #[inline] pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.imm) } else { None }
    }

    fn intern(&mut self, n: Node) -> E {
        let e = self.intern_global(n);
        if self.on && n.w > 0 && n.op != Op::Const {
            let x = self.i(e);
            if !x.undef && x.ulo == x.uhi { return self.cst(n.w, x.ulo); }
        }
        e
    }
    fn intern_global(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let info = self.compute_info(&n);
        // singleton interval => constant
        if n.w > 0 && n.op != Op::Const && !info.undef && info.ulo == info.uhi && n.op != Op::Var {
            let c = self.cst(n.w, info.ulo);
            self.map.insert(n, c);
            return c;
        }
        let id = self.nodes.len() as E;
        let s = |x: E| if x == NONE { 0 } else { self.sup[x as usize] };
        let sup = match n.op { Op::Const | Op::RConst => 0, Op::Var => self.input_bit(n.imm as u32), Op::Undef | Op::RVar | Op::RFun => 1 << 63, _ => s(n.a) | s(n.b) | s(n.c) };
        self.sup.push(sup);
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, id);
        id
    }

    fn from_u(w: u16, ulo: u128, uhi: u128) -> Info {
        let half = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
        let (slo, shi) = if uhi < half { (ulo as i128, uhi as i128) }
            else if ulo >= half { (sx(ulo, w), sx(uhi, w)) }
            else { (sx(half, w), (half - 1) as i128) };
        Info { ulo, uhi, slo, shi, undef: false }
    }
    fn from_s(w: u16, slo: i128, shi: i128) -> Info {
        let m = mask(w);
        let (ulo, uhi) = if slo >= 0 { (slo as u128, shi as u128) }
            else if shi < 0 { (slo as u128 & m, shi as u128 & m) }
            else { (0, m) };
        Info { ulo, uhi, slo, shi, undef: false }
    }
    fn full(w: u16) -> Info {
        if w == 0 { return Info { ulo: 0, uhi: u128::MAX, slo: i128::MIN, shi: i128::MAX, undef: false }; }
        Self::from_u(w, 0, mask(w))
    }
    fn meet(w: u16, a: Info, b: Info) -> Info {
        let ulo = a.ulo.max(b.ulo); let uhi = a.uhi.min(b.uhi);
        let slo = a.slo.max(b.slo); let shi = a.shi.min(b.shi);
        if ulo > uhi || slo > shi { return a; }
        let mut r = Info { ulo, uhi, slo, shi, undef: false };
        // refine across
        let fu = Self::from_u(w, ulo, uhi);
        r.slo = r.slo.max(fu.slo); r.shi = r.shi.min(fu.shi);
        if r.slo > r.shi { return a; }
        let fs = Self::from_s(w, r.slo, r.shi);
        r.ulo = r.ulo.max(fs.ulo); r.uhi = r.uhi.min(fs.uhi);
        if r.ulo > r.uhi { return a; }
        r
    }

    fn compute_info(&self, n: &Node) -> Info {
        let g = |e: E| self.info[e as usize];
        let ud = |e: E| e != NONE && self.info[e as usize].undef;
        let undef = n.op == Op::Undef || match n.op { Op::Const | Op::Var | Op::RConst | Op::RVar => false, _ => ud(n.a) || ud(n.b) || ud(n.c) };
        let mut r = self.transfer(n, &g, false);
        r.undef = undef;
        r
    }
    /// `ctx`: facts of the current path may be used (never for what is stored with the node)
    fn transfer(&self, n: &Node, g: &dyn Fn(E) -> Info, ctx: bool) -> Info {
        let w = n.w;
        let smin = if w > 0 { sx(if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) }, w) } else { 0 };
        let smax = if w > 0 { (mask(w) >> 1) as i128 } else { 0 };
        let m = if w > 0 { mask(w) } else { 0 };
        match n.op {
            Op::Const => Self::from_u(w, n.imm, n.imm),
            Op::Var | Op::Undef => Self::full(w),
            Op::ZExt => { let a = g(n.a); Self::from_u(w, a.ulo, a.uhi) }
            Op::SExt => { let a = g(n.a); Self::from_s(w, a.slo, a.shi) }
            Op::Extract => {
                let a = g(n.a);
                if n.imm == 0 && a.uhi <= m { Self::from_u(w, a.ulo, a.uhi) }
                else if n.imm == 0 && a.slo >= smin && a.shi <= smax { Self::from_s(w, a.slo, a.shi) }
                else if n.imm > 0 {
                    let sh = n.imm as u32;
                    if (a.uhi >> sh) <= m { Self::from_u(w, a.ulo >> sh, a.uhi >> sh) } else { Self::full(w) }
                } else { Self::full(w) }
            }
            Op::Concat => {
                let a = g(n.a); let b = g(n.b); let bw = self.w(n.b) as u32;
                Self::from_u(w, (a.ulo << bw) | b.ulo, (a.uhi << bw) | b.uhi)
            }
            Op::Add if w <= 64 => {
                let a = g(n.a); let b = g(n.b);
                let mut r = Self::full(w);
                if a.uhi + b.uhi <= m { r = Self::meet(w, r, Self::from_u(w, a.ulo + b.ulo, a.uhi + b.uhi)); }
                else if a.ulo + b.ulo > m { r = Self::meet(w, r, Self::from_u(w, (a.ulo + b.ulo) & m, (a.uhi + b.uhi) & m)); }
                if a.slo + b.slo >= smin && a.shi + b.shi <= smax { r = Self::meet(w, r, Self::from_s(w, a.slo + b.slo, a.shi + b.shi)); }
                r
            }
            Op::Sub if w <= 64 => {
                let a = g(n.a); let b = g(n.b);
                let mut r = Self::full(w);
                if a.ulo >= b.uhi { r = Self::meet(w, r, Self::from_u(w, a.ulo - b.uhi, a.uhi - b.ulo)); }
                if a.slo - b.shi >= smin && a.shi - b.slo <= smax { r = Self::meet(w, r, Self::from_s(w, a.slo - b.shi, a.shi - b.slo)); }
                if ctx && !self.lt.is_empty() && a.uhi >= b.ulo {
                    let (x, y) = (self.strip0(n.a), self.strip0(n.b));
                    if let Some(&s) = self.lt.get(&(y, x)) { r = Self::meet(w, r, Self::from_u(w, s as u128, a.uhi - b.ulo)); }
                }
                r
            }
            Op::Mul if w <= 64 => {
                let a = g(n.a); let b = g(n.b);
                let mut r = Self::full(w);
                if let Some(h) = a.uhi.checked_mul(b.uhi) { if h <= m { r = Self::meet(w, r, Self::from_u(w, a.ulo * b.ulo, h)); } }
                let (lo, hi) = prod_range(a.slo, a.shi, b.slo, b.shi);
                if lo >= smin && hi <= smax { r = Self::meet(w, r, Self::from_s(w, lo, hi)); }
                r
            }
            // a zero divisor is undefined behaviour in the IR and reported before the operation is built
            Op::UDiv => { let a = g(n.a); let b = g(n.b); Self::from_u(w, a.ulo / b.uhi.max(1), a.uhi / b.ulo.max(1)) }
            Op::URem => { let a = g(n.a); let b = g(n.b); if b.ulo > 0 { Self::from_u(w, 0, a.uhi.min(b.uhi - 1)) } else { Self::from_u(w, 0, a.uhi) } }
            Op::SDiv if w <= 64 => {
                let a = g(n.a); let b = g(n.b);
                let mx = a.slo.abs().max(a.shi.abs());
                let mx = if mx > smax { smax } else { mx };
                if a.slo > smin { Self::from_s(w, (-mx).max(smin), mx) } else { Self::full(w) }
            }
            Op::SRem if w <= 64 => {
                let a = g(n.a); let b = g(n.b);
                let mb = b.slo.abs().max(b.shi.abs());
                let bound = if b.slo > 0 || b.shi < 0 { mb - 1 } else { i128::MAX };
                let hi = if a.shi > 0 { a.shi.min(bound) } else { 0 };
                let lo = if a.slo < 0 { a.slo.max(-bound) } else { 0 };
                Self::from_s(w, lo, hi)
            }
            Op::And => {
                let a = g(n.a); let b = g(n.b);
                let mut r = Self::from_u(w, 0, a.uhi.min(b.uhi));
                // bit-length bound on negative signed operands is not tracked
                if w == 1 { r = Self::from_u(w, a.ulo & b.ulo, a.uhi & b.uhi); }
                r
            }
            Op::Or => {
                let a = g(n.a); let b = g(n.b);
                let bits = ubits(a.uhi | b.uhi);
                Self::from_u(w, a.ulo.max(b.ulo), if bits == 0 { 0 } else { mask(bits) })
            }
            Op::Xor => {
                let a = g(n.a); let b = g(n.b);
                let bits = ubits(a.uhi | b.uhi);
                let mut r = Self::from_u(w, 0, if bits == 0 { 0 } else { mask(bits) });
                if w <= 64 {
                    let k = sbits(a.slo.min(b.slo), a.shi.max(b.shi));
                    if k < w { r = Self::meet(w, r, Self::from_s(w, -(1i128 << (k - 1)), (1i128 << (k - 1)) - 1)); }
                }
                r
            }
            Op::Not => { let a = g(n.a); let r = Self::from_u(w, m - a.uhi, m - a.ulo); Self::meet(w, r, Self::from_s(w, !a.shi, !a.slo)) }
            Op::LShr => { let a = g(n.a); let b = g(n.b); if b.uhi < 128 { Self::from_u(w, a.ulo >> (b.uhi as u32), a.uhi >> (b.ulo as u32)) } else { Self::from_u(w, 0, a.uhi) } }
            Op::Shl => {
                let a = g(n.a); let b = g(n.b);
                if b.uhi < w as u128 && ubits(a.uhi) as u128 + b.uhi <= w as u128 { Self::from_u(w, a.ulo << (b.ulo as u32), a.uhi << (b.uhi as u32)) } else { Self::full(w) }
            }
            Op::AShr => { let a = g(n.a); if a.slo >= 0 { Self::from_u(w, 0, a.uhi) } else { Self::from_s(w, a.slo.min(-1), a.shi.max(-1)) } }
            Op::Ite => {
                let a = g(n.b); let b = g(n.c);
                Info { ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi), undef: false }
            }
            Op::Eq if self.w(n.a) > 0 => {
                let a = g(n.a); let b = g(n.b);
                if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo { Self::from_u(1, 0, 0) }
                else if a.ulo == a.uhi && b.ulo == b.uhi { Self::from_u(1, 1, 1) } else { Self::full(1) }
            }
            Op::Ult | Op::Ule => {
                let a = g(n.a); let b = g(n.b); let d = (n.op == Op::Ule) as u128;
                if ctx {
                    let (x, y) = (self.strip0(n.a), self.strip0(n.b));
                    if let Some(&s) = self.lt.get(&(x, y)) { if s || d == 1 { return Self::from_u(1, 1, 1); } }
                    if let Some(&s) = self.lt.get(&(y, x)) { if s || d == 0 { return Self::from_u(1, 0, 0); } }
                }
                if a.uhi < b.ulo + d { Self::from_u(1, 1, 1) } else if a.ulo + (1 - d) > b.uhi { Self::from_u(1, 0, 0) } else { Self::full(1) }
            }
            Op::Slt | Op::Sle => {
                let a = g(n.a); let b = g(n.b); let d = (n.op == Op::Sle) as i128;
                if self.w(n.a) > 64 { Self::full(1) }
                else if a.shi < b.slo + d { Self::from_u(1, 1, 1) } else if a.slo + (1 - d) > b.shi { Self::from_u(1, 0, 0) } else { Self::full(1) }
            }
            _ => Self::full(w),
        }
    }
    /// an expression with the same unsigned value on this path (of any width)
    fn strip0(&self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::ZExt => self.strip0(n.a),
            Op::SExt if self.i(n.a).slo >= 0 && !self.info[n.a as usize].undef => self.strip0(n.a),
            Op::Extract if n.imm == 0 && !self.info[n.a as usize].undef && self.i(n.a).uhi <= mask(n.w) => self.strip0(n.a),
            _ => e,
        }
    }

    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let n = Node { op: Op::Const, w, a: NONE, b: NONE, c: NONE, imm: v & mask(w) };
        if let Some(&e) = self.map.get(&n) { return e; }
        self.intern(n)
    }
    pub fn var(&mut self, w: u16) -> (E, u32) {
        let id = self.n_vars;
        self.n_vars += 1;
        let e = self.intern(Node { op: if w == 0 { Op::RVar } else { Op::Var }, w, a: NONE, b: NONE, c: NONE, imm: id as u128 });
        (e, id)
    }
    pub fn input(&mut self, pos: usize, w: u16) -> (E, u32) {
        if let Some(&x) = self.by_pos.get(&(pos, w)) { return x; }
        let id = self.n_vars;
        self.pos_of.insert(id, pos);
        let r = self.var(w);
        self.by_pos.insert((pos, w), r);
        r
    }
    pub fn input_bit(&self, id: u32) -> u64 { match self.pos_of.get(&id) { Some(&k) if k < 63 => 1 << k, _ => 1 << 63 } }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}", n.imm),
            Op::Var => format!("v{}:{}", n.imm, n.w),
            _ if d == 0 => format!("#{}", e),
            _ => { let mut s = format!("({:?}:{}", n.op, n.w); if n.op == Op::Extract { s += &format!("@{}", n.imm); } for x in [n.a, n.b, n.c] { if x != NONE { s += " "; s += &self.show(x, d - 1); } } s + ")" }
        }
    }
    pub fn undef(&mut self, w: u16) -> E {
        let id = self.n_vars;
        self.n_vars += 1;
        self.intern(Node { op: Op::Undef, w, a: NONE, b: NONE, c: NONE, imm: id as u128 })
    }
    fn mk1(&mut self, op: Op, w: u16, a: E) -> E { self.intern(Node { op, w, a, b: NONE, c: NONE, imm: 0 }) }
    fn mk2(&mut self, op: Op, w: u16, a: E, b: E) -> E { self.intern(Node { op, w, a, b, c: NONE, imm: 0 }) }

    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(1, 0) }

    pub fn zext(&mut self, e: E, w: u16) -> E {
        let key = (6u8, e, w as u32, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.zext_inner(e, w);
        self.memo.insert(key, r);
        r
    }
    fn zext_inner(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => return self.cst(w, n.imm),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() && n.w > 1 => {
                let b = self.zext(n.b, w); let c = self.zext(n.c, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        self.mk1(Op::ZExt, w, e)
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let key = (7u8, e, w as u32, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.sext_inner(e, w);
        self.memo.insert(key, r);
        r
    }
    fn sext_inner(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        match n.op {
            Op::Const => return self.cst(w, sx(n.imm, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() && n.w > 1 => {
                let b = self.sext(n.b, w); let c = self.sext(n.c, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        if self.i(e).slo >= 0 && n.w > 1 { return self.zext(e, w); }
        self.mk1(Op::SExt, w, e)
    }
    pub fn trunc(&mut self, e: E, w: u16) -> E { self.extract(e, 0, w) }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let key = (0u8, e, lo as u32, w as u32);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.extract_inner(e, lo, w);
        self.memo.insert(key, r);
        r
    }
    /// bit `k` of `x` (k < width of x), pushed through the structure of x
    fn testbit(&mut self, x: E, k: E) -> E {
        let key = (60u8, x, k, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let n = self.n(x);
        let w = n.w;
        let r = match n.op {
            Op::Const if n.imm == 0 => self.fls(),
            Op::Const if n.imm == mask(w) => self.tru(),
            Op::Const if n.imm.count_ones() <= 4 => {
                let mut r = self.fls();
                for b in 0..w { if n.imm >> b & 1 == 1 { let c = self.cst(w, b as u128); let q = self.eq(k, c); r = self.or(r, q); } }
                r
            }
            Op::Or => { let a = self.testbit(n.a, k); let b = self.testbit(n.b, k); self.or(a, b) }
            Op::And => { let a = self.testbit(n.a, k); let b = self.testbit(n.b, k); self.and(a, b) }
            Op::Xor => { let a = self.testbit(n.a, k); let b = self.testbit(n.b, k); self.xor(a, b) }
            Op::Not => { let a = self.testbit(n.a, k); self.not(a) }
            Op::Ite => { let a = self.testbit(n.b, k); let b = self.testbit(n.c, k); self.ite(n.a, a, b) }
            Op::Shl if self.is_const(n.a) == Some(1) => self.eq(n.b, k),
            _ => { let s = self.lshr(x, k); if self.n(s).op == Op::LShr { self.intern(Node { op: Op::Extract, w: 1, a: s, b: NONE, c: NONE, imm: 0 }) } else { self.extract(s, 0, 1) } }
        };
        self.memo.insert(key, r);
        r
    }
    fn extract_inner(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n(e);
        if lo == 0 && n.w == w { return e; }
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        match n.op {
            Op::Const => return self.cst(w, n.imm >> lo),
            Op::Extract => return self.extract(n.a, lo + n.imm as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
                let x = self.extract(n.a, iw - 1, 1); return self.sext(x, w);
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w); let b = self.extract(n.b, 0, w);
                return match n.op { Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), _ => self.mul(a, b) };
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w); let b = self.extract(n.b, lo, w);
                return match n.op { Op::And => self.and(a, b), Op::Or => self.or(a, b), _ => self.xor(a, b) };
            }
            Op::LShr if lo == 0 && w == 1 && n.w <= 64 && self.i(n.b).uhi < n.w as _ && !self.i(n.b).undef => return self.testbit(n.a, n.b),
            Op::Shl if w == 1 && n.w <= 64 && self.is_const(n.a) == Some(1) => { let c = self.cst(n.w, lo as u128); return self.eq(n.b, c); }
            Op::Not => { let a = self.extract(n.a, lo, w); return self.not(a); }
            Op::Ite => {
                let b = self.extract(n.b, lo, w); let c = self.extract(n.c, lo, w);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        if lo > 0 {
            let i = self.i(e);
            if (i.uhi >> lo) == 0 { return self.cst(w, 0); }
        }
        self.intern(Node { op: Op::Extract, w, a: e, b: NONE, c: NONE, imm: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let nh = self.n(h); let nl = self.n(l);
        let w = nh.w + nl.w;
        if let (Op::Const, Op::Const) = (nh.op, nl.op) { return self.cst(w, (nh.imm << nl.w) | nl.imm); }
        if nh.op == Op::Const && nh.imm == 0 { return self.zext(l, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nl.imm + nl.w as u128 == nh.imm {
            return self.extract(nh.a, nl.imm as u16, w);
        }
        if nh.op == Op::Extract && nh.a == l && nh.imm == nl.w as u128 { /* not possible */ }
        // concat(extract of x, concat(extract x, rest))
        if nl.op == Op::Concat {
            let nla = self.n(nl.a);
            if nh.op == Op::Extract && nla.op == Op::Extract && nh.a == nla.a && nla.imm + nla.w as u128 == nh.imm {
                let x = self.extract(nh.a, nla.imm as u16, nh.w + nla.w);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            // concat(zext x, l) = zext(concat(x,l))
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        self.mk2(Op::Concat, w, h, l)
    }

    pub fn not(&mut self, a: E) -> E {
        let key = (1u8, a, 0, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.not_inner(a);
        self.memo.insert(key, r);
        r
    }
    fn not_inner(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(n.w, !n.imm),
            Op::Not => return n.a,
            Op::Ult if true => return self.ule(n.b, n.a),
            Op::Ule => return self.ult(n.b, n.a),
            Op::Slt => return self.sle(n.b, n.a),
            Op::Sle => return self.slt(n.b, n.a),
            Op::RLt => return self.rle(n.b, n.a),
            Op::RLe => return self.rlt(n.b, n.a),
            Op::And if n.w == 1 => { let x = self.not(n.a); let y = self.not(n.b); return self.or(x, y); }
            Op::Or if n.w == 1 => { let x = self.not(n.a); let y = self.not(n.b); return self.and(x, y); }
            Op::Ite => { let x = self.not(n.b); let y = self.not(n.c); return self.ite(n.a, x, y); }
            _ => {}
        }
        self.mk1(Op::Not, n.w, a)
    }
    fn comm(&self, a: E, b: E) -> (E, E) {
        // constants second; otherwise order by id
        if self.nodes[a as usize].op == Op::Const { (b, a) }
        else if self.nodes[b as usize].op == Op::Const { (a, b) }
        else if a <= b { (a, b) } else { (b, a) }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let key = (3u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.and_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn and_inner(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b { return a; }
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(w, na.imm & nb.imm); }
            if nb.imm == 0 { return b; }
            if nb.imm == mask(w) { return a; }
            match na.op {
                Op::And => if let Some(k) = self.is_const(na.b) { let c = self.cst(w, k & nb.imm); return self.and(na.a, c); },
                Op::ZExt => { let iw = self.w(na.a); let c = self.cst(iw, nb.imm); let x = self.and(na.a, c); return self.zext(x, w); }
                Op::Ite if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() => {
                    let x = self.and(na.b, b); let y = self.and(na.c, b); return self.ite(na.a, x, y);
                }
                Op::Concat => {
                    let lw = self.w(na.b); let hw = self.w(na.a);
                    let ch = self.cst(hw, nb.imm >> lw); let cl = self.cst(lw, nb.imm);
                    let h = self.and(na.a, ch); let l = self.and(na.b, cl);
                    return self.concat(h, l);
                }
                _ => {}
            }
            let k = ubits(nb.imm);
            if nb.imm == mask(k) {
                if self.i(a).uhi <= nb.imm { return a; }
                let x = self.extract(a, 0, k); return self.zext(x, w);
            }
            // contiguous run of ones starting at lo
            let lo = nb.imm.trailing_zeros() as u16;
            if (nb.imm >> lo) == mask(k - lo) {
                let x = self.extract(a, lo, k - lo);
                let z = self.cst(lo, 0);
                let y = self.concat(x, z);
                return self.zext(y, w);
            }
            if k < w {
                let x = self.extract(a, 0, k); let c = self.cst(k, nb.imm); let y = self.mk_and_raw(x, c);
                return self.zext(y, w);
            }
        }
        if w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.cst(1, 0); }
            // absorption
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.and(na.a, nb.a); return self.zext(x, w);
        }
        self.mk2(Op::And, w, a, b)
    }
    fn mk_and_raw(&mut self, a: E, b: E) -> E {
        if self.n(a).op == Op::Const { return self.and(a, b); }
        let w = self.w(a);
        let n = self.n(a);
        match n.op { Op::And | Op::ZExt | Op::Ite | Op::Concat => self.and(a, b), _ => self.mk2(Op::And, w, a, b) }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let key = (8u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.or_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn or_inner(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b { return a; }
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(w, na.imm | nb.imm); }
            if nb.imm == 0 { return a; }
            if nb.imm == mask(w) { return b; }
            if na.op == Op::Or { if let Some(k) = self.is_const(na.b) { let c = self.cst(w, k | nb.imm); return self.or(na.a, c); } }
            if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                let x = self.or(na.b, b); let y = self.or(na.c, b); return self.ite(na.a, x, y);
            }
            if na.op == Op::Concat {
                let lw = self.w(na.b); let hw = self.w(na.a);
                let ch = self.cst(hw, nb.imm >> lw); let cl = self.cst(lw, nb.imm);
                let h = self.or(na.a, ch); let l = self.or(na.b, cl);
                return self.concat(h, l);
            }
            if na.op == Op::ZExt {
                let lw = self.w(na.a);
                let ch = self.cst(w - lw, nb.imm >> lw); let cl = self.cst(lw, nb.imm);
                let l = self.or(na.a, cl);
                return self.concat(ch, l);
            }
        }
        if w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.cst(1, 1); }
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::And && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
        }
        // or of concat(x, 0_k) and zext(y:k)
        for (p, q) in [(na, nb), (nb, na)] {
            if p.op == Op::Concat && q.op == Op::ZExt {
                if self.is_const(p.b) == Some(0) {
                    let k = self.w(p.b);
                    let qw = self.w(q.a);
                    if qw <= k { let y = self.zext(q.a, k); return self.concat(p.a, y); }
                }
            }
            if p.op == Op::ZExt && q.op == Op::ZExt {
                let pc = self.n(p.a);
                if pc.op == Op::Concat && self.is_const(pc.b) == Some(0) {
                    let k = self.w(pc.b); let qw = self.w(q.a);
                    if qw <= k { let y = self.zext(q.a, k); let z = self.concat(pc.a, y); return self.zext(z, w); }
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.or(na.a, nb.a); return self.zext(x, w);
        }
        self.mk2(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(w, na.imm ^ nb.imm); }
            if nb.imm == 0 { return a; }
            if nb.imm == mask(w) { return self.not(a); }
            if na.op == Op::Xor { if let Some(k) = self.is_const(na.b) { let c = self.cst(w, k ^ nb.imm); return self.xor(na.a, c); } }
            if na.op == Op::ZExt {
                let lw = self.w(na.a);
                if nb.imm <= mask(lw) { let c = self.cst(lw, nb.imm); let l = self.xor(na.a, c); return self.zext(l, w); }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.xor(na.a, nb.a); return self.zext(x, w);
        }
        if w == 1 {
            if na.op == Op::Not { let x = self.xor(na.a, b); return self.not(x); }
            if nb.op == Op::Not { let x = self.xor(a, nb.a); return self.not(x); }
        }
        self.mk2(Op::Xor, w, a, b)
    }

    /// ite pushing for unary-with-constant ops
    fn ite_consts(&self, n: &Node) -> bool {
        n.op == Op::Ite && self.nodes[n.b as usize].op == Op::Const && self.nodes[n.c as usize].op == Op::Const
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let key = (9u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.add_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn add_inner(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(w, na.imm.wrapping_add(nb.imm)); }
            if nb.imm == 0 { return a; }
            if na.op == Op::Add { if let Some(k) = self.is_const(na.b) { let c = self.cst(w, k.wrapping_add(nb.imm)); return self.add(na.a, c); } }
            if na.op == Op::Sub { if let Some(k) = self.is_const(na.a) { let c = self.cst(w, k.wrapping_add(nb.imm)); return self.sub(c, na.b); } }
            if self.ite_consts(&na) { let x = self.add(na.b, b); let y = self.add(na.c, b); return self.ite(na.a, x, y); }
        }
        if w == 1 { return self.xor(a, b); }
        if na.op == Op::Sub && na.b == b { return na.a; }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Add && nb.op != Op::Const { if let Some(_) = self.is_const(na.b) { let x = self.add(na.a, b); return self.add(x, na.b); } }
        if nb.op == Op::Add { if let Some(_) = self.is_const(nb.b) { let x = self.add(a, nb.a); return self.add(x, nb.b); } }
        if let Some(r) = self.narrow(Op::Add, a, b) { return r; }
        self.mk2(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const { let c = self.cst(w, (!nb.imm).wrapping_add(1)); return self.add(a, c); }
        if w == 1 { return self.xor(a, b); }
        if na.op == Op::Add {
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
            if let Some(_) = self.is_const(na.b) { let x = self.sub(na.a, b); return self.add(x, na.b); }
        }
        if nb.op == Op::Add {
            if nb.a == a && self.is_const(nb.b).is_some() { let k = self.is_const(nb.b).unwrap(); return self.cst(w, (!k).wrapping_add(1)); }
            if let Some(k) = self.is_const(nb.b) { let x = self.sub(a, nb.a); let c = self.cst(w, (!k).wrapping_add(1)); return self.add(x, c); }
        }
        if self.ite_consts(&nb) && na.op == Op::Const { let x = self.sub(a, nb.b); let y = self.sub(a, nb.c); return self.ite(nb.a, x, y); }
        if let Some(r) = self.narrow(Op::Sub, a, b) { return r; }
        self.mk2(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let key = (10u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.mul_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn mul_inner(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        let w = self.w(a);
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(w, na.imm.wrapping_mul(nb.imm)); }
            if nb.imm == 0 { return b; }
            if nb.imm == 1 { return a; }
            if nb.imm.is_power_of_two() { let k = nb.imm.trailing_zeros() as u16; return self.shl_c(a, k); }
            if nb.imm == mask(w) { let z = self.cst(w, 0); return self.sub(z, a); }
            if self.ite_consts(&na) { let x = self.mul(na.b, b); let y = self.mul(na.c, b); return self.ite(na.a, x, y); }
        }
        if w == 1 { return self.and(a, b); }
        if let Some(r) = self.narrow(Op::Mul, a, b) { return r; }
        self.mk2(Op::Mul, w, a, b)
    }
    /// compute at a smaller width when the exact result (and operands) fit
    fn narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 64 || w <= 4 { return None; }
        let ia = self.i(a); let ib = self.i(b);
        // unsigned attempt
        let (ok_u, uhi) = match op {
            Op::Add => (true, ia.uhi + ib.uhi),
            Op::Mul => match ia.uhi.checked_mul(ib.uhi) { Some(h) => (true, h), None => (false, 0) },
            _ => (ia.ulo >= ib.uhi || (self.on && !self.lt.is_empty() && { let (x, y) = (self.strip0(a), self.strip0(b)); self.lt.contains_key(&(y, x)) }), ia.uhi),
        };
        let ku = if ok_u { ubits(uhi.max(ia.uhi).max(ib.uhi)) } else { 255 };
        let (slo, shi) = match op {
            Op::Add => (ia.slo + ib.slo, ia.shi + ib.shi),
            Op::Sub => (ia.slo - ib.shi, ia.shi - ib.slo),
            _ => prod_range(ia.slo, ia.shi, ib.slo, ib.shi),
        };
        let ks = sbits(slo.min(ia.slo).min(ib.slo), shi.max(ia.shi).max(ib.shi));
        let k = ku.min(ks).max(1);
        // avoid repeated tiny narrowing
        if (k as u32) * 4 > (w as u32) * 3 { return None; }
        let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
        let r = match op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) };
        Some(if ku <= ks { self.zext(r, w) } else { self.sext(r, w) })
    }
    pub fn shl_c(&mut self, a: E, k: u16) -> E {
        let w = self.w(a);
        if k == 0 { return a; }
        if k >= w { return self.cst(w, 0); }
        let x = self.extract(a, 0, w - k); let z = self.cst(k, 0);
        self.concat(x, z)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        if let Some(k) = self.is_const(b) { let k = k.min(200) as u16; return self.shl_c(a, k); }
        let nb = self.n(b);
        if self.ite_consts(&nb) { let x = self.shl(a, nb.b); let y = self.shl(a, nb.c); return self.ite(nb.a, x, y); }
        let w = self.w(a);
        let (ia, ib) = (self.i(a), self.i(b));
        if !ia.undef && !ib.undef && ib.uhi < w as u128 {
            let k = (ubits(ia.uhi) as u128 + ib.uhi).max(ubits(ib.uhi) as u128).max(1);
            if k < w as u128 && self.is_const(a).is_none() { let k = k as u16; let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.shl(x, y); return self.zext(r, w); }
        }
        self.mk2(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            let x = self.extract(a, k as u16, w - k as u16);
            return self.zext(x, w);
        }
        let nb = self.n(b);
        if self.ite_consts(&nb) { let x = self.lshr(a, nb.b); let y = self.lshr(a, nb.c); return self.ite(nb.a, x, y); }
        let k = ubits(self.i(a).uhi.max(self.i(b).uhi)).max(1);
        if k < w && !self.i(a).undef && !self.i(b).undef { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.lshr(x, y); return self.zext(r, w); }
        self.mk2(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1) as u16;
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.mk2(Op::AShr, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return self.cst(w, mask(w)); }
            if let Some(x) = self.is_const(a) { return self.cst(w, x / k); }
            if k.is_power_of_two() { let s = self.cst(w, k.trailing_zeros() as u128); return self.lshr(a, s); }
        }
        let ia = self.i(a); let ib = self.i(b);
        if ib.ulo > 0 && ia.uhi < ib.ulo { return self.cst(w, 0); }
        {
            let k = ubits(ia.uhi.max(ib.uhi)).max(1);
            if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.udiv(x, y); return self.zext(r, w); }
        }
        self.mk2(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 { return a; }
            if let Some(x) = self.is_const(a) { return self.cst(w, x % k); }
            if k.is_power_of_two() { let s = self.cst(w, k - 1); return self.and(a, s); }
        }
        let ia = self.i(a); let ib = self.i(b);
        if ib.ulo > 0 && ia.uhi < ib.ulo { return a; }
        let k = ubits(ia.uhi.max(ib.uhi)).max(1);
        if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.urem(x, y); return self.zext(r, w); }
        self.mk2(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y == 0 { return self.cst(w, if x < 0 { 1 } else { mask(w) }); }
            return self.cst(w, x.wrapping_div(y) as u128);
        }
        let ia = self.i(a); let ib = self.i(b);
        if ia.slo >= 0 && ib.slo >= 0 { return self.udiv(a, b); }
        {
            let k = sbits(ia.slo.min(ib.slo), ia.shi.max(ib.shi)) + 1;
            if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.sdiv_raw(x, y); return self.sext(r, w); }
        }
        self.mk2(Op::SDiv, w, a, b)
    }
    fn sdiv_raw(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.is_const(a).is_some() && self.is_const(b).is_some() { return self.sdiv(a, b); }
        let ia = self.i(a); let ib = self.i(b);
        if ia.slo >= 0 && ib.slo >= 0 { return self.udiv(a, b); }
        self.mk2(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y == 0 { return a; }
            return self.cst(w, x.wrapping_rem(y) as u128);
        }
        let ia = self.i(a); let ib = self.i(b);
        if ia.slo >= 0 && ib.slo >= 0 { return self.urem(a, b); }
        let k = sbits(ia.slo.min(ib.slo), ia.shi.max(ib.shi)) + 1;
        if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); let r = self.mk2(Op::SRem, k, x, y); return self.sext(r, w); }
        self.mk2(Op::SRem, w, a, b)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let key = (2u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.eq_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn eq_inner(&mut self, a: E, b: E) -> E {
        let (a, b) = self.comm(a, b);
        if a == b { return self.tru(); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let na = self.n(a); let nb = self.n(b);
        if w == 0 { return self.req(a, b); }
        let ia = self.i(a); let ib = self.i(b);
        if !ia.undef && !ib.undef && (ia.uhi < ib.ulo || ib.uhi < ia.ulo || ia.shi < ib.slo || ib.shi < ia.slo) { return self.fls(); }
        if nb.op == Op::Const {
            if na.op == Op::Const { return self.cst(1, (na.imm == nb.imm) as u128); }
            if w == 1 { return if nb.imm == 1 { a } else { self.not(a) }; }
            match na.op {
                Op::ZExt => { let iw = self.w(na.a); if nb.imm > mask(iw) { return self.fls(); } let c = self.cst(iw, nb.imm); return self.eq(na.a, c); }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let c = self.cst(iw, nb.imm);
                    let back = self.sext(c, w);
                    if back != b { return self.fls(); }
                    return self.eq(na.a, c);
                }
                Op::Ite if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() => {
                    let x = self.eq(na.b, b); let y = self.eq(na.c, b); return self.ite(na.a, x, y);
                }
                Op::Add => if let Some(k) = self.is_const(na.b) { let c = self.cst(w, nb.imm.wrapping_sub(k)); return self.eq(na.a, c); },
                Op::Xor => {
                    if let Some(k) = self.is_const(na.b) { let c = self.cst(w, nb.imm ^ k); return self.eq(na.a, c); }
                    if nb.imm == 0 { return self.eq(na.a, na.b); }
                }
                Op::Sub => {
                    if nb.imm == 0 { return self.eq(na.a, na.b); }
                    if let Some(k) = self.is_const(na.a) { let c = self.cst(w, k.wrapping_sub(nb.imm)); return self.eq(na.b, c); }
                }
                Op::Not => { let c = self.cst(w, !nb.imm); return self.eq(na.a, c); }
                Op::Concat => {
                    let lw = self.w(na.b); let hw = self.w(na.a);
                    let ch = self.cst(hw, nb.imm >> lw); let cl = self.cst(lw, nb.imm);
                    let x = self.eq(na.a, ch); let y = self.eq(na.b, cl);
                    return self.and(x, y);
                }
                Op::And if nb.imm == 0 && w <= 64 => {
                    for (m, x) in [(na.a, na.b), (na.b, na.a)] {
                        let nm = self.n(m);
                        if nm.op == Op::Shl && self.is_const(nm.a) == Some(1) && self.i(nm.b).uhi < w as _ && !self.i(nm.b).undef {
                            let t = self.testbit(x, nm.b);
                            return self.not(t);
                        }
                    }
                }
                Op::Or if nb.imm == 0 => { let x = self.eq(na.a, b); let y = self.eq(na.b, b); return self.and(x, y); }
                _ => {}
            }
        } else {
            if (na.op == Op::ZExt && nb.op == Op::ZExt) || (na.op == Op::SExt && nb.op == Op::SExt) {
                let wa = self.w(na.a); let wb = self.w(nb.a);
                let k = wa.max(wb);
                let (x, y) = if na.op == Op::ZExt { (self.zext(na.a, k), self.zext(nb.a, k)) } else { (self.sext(na.a, k), self.sext(nb.a, k)) };
                return self.eq(x, y);
            }
            if (na.op == Op::ZExt && nb.op == Op::SExt) || (na.op == Op::SExt && nb.op == Op::ZExt) {
                let k = (self.w(na.a).max(self.w(nb.a))) + 1;
                if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.eq(x, y); }
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a); let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == Op::Add && nb.op == Op::Add && self.is_const(na.b).is_some() && na.b == nb.b { return self.eq(na.a, nb.a); }
            if w == 1 { let x = self.xor(a, b); return self.not(x); }
            if w > 8 && w <= 64 {
                let k = sbits(ia.slo.min(ib.slo), ia.shi.max(ib.shi)).min(ubits(ia.uhi.max(ib.uhi)));
                if k >= 1 && (k as u32) * 2 <= w as u32 { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.eq(x, y); }
            }
        }
        if let Some(r) = crate::lin::equal(self, a, b) { return if r { self.tru() } else { self.fls() }; }
        self.mk2(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E { let x = self.eq(a, b); self.not(x) }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let key = (4u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.ult_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn ult_inner(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        let ia = self.i(a); let ib = self.i(b);
        if !ia.undef && !ib.undef {
            if ia.uhi < ib.ulo { return self.tru(); }
            if ia.ulo >= ib.uhi { return self.fls(); }
        }
        let na = self.n(a); let nb = self.n(b);
        if w == 1 { let x = self.not(a); return self.and(x, b); }
        if nb.op == Op::Const && nb.imm == 1 { let z = self.cst(w, 0); return self.eq(a, z); }
        if na.op == Op::Const && na.imm == 0 { let z = self.cst(w, 0); return self.ne(b, z); }
        if nb.op == Op::Const && self.ite_consts(&na) { let x = self.ult(na.b, b); let y = self.ult(na.c, b); return self.ite(na.a, x, y); }
        if na.op == Op::Const && self.ite_consts(&nb) { let x = self.ult(a, nb.b); let y = self.ult(a, nb.c); return self.ite(nb.a, x, y); }
        let k = ubits(ia.uhi.max(ib.uhi)).max(1);
        if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.ult(x, y); }
        self.mk2(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let w = self.w(a);
        let ia = self.i(a); let ib = self.i(b);
        if !ia.undef && !ib.undef {
            if ia.uhi <= ib.ulo { return self.tru(); }
            if ia.ulo > ib.uhi { return self.fls(); }
        }
        let na = self.n(a); let nb = self.n(b);
        if let Some(k) = self.is_const(b) { if k == mask(w) { return self.tru(); } let c = self.cst(w, k + 1); return self.ult(a, c); }
        if let Some(k) = self.is_const(a) { if k == 0 { return self.tru(); } let c = self.cst(w, k - 1); return self.ult(c, b); }
        let _ = (na, nb);
        if w == 1 { let x = self.not(a); return self.or(x, b); }
        let k = ubits(ia.uhi.max(ib.uhi)).max(1);
        if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.ule(x, y); }
        self.mk2(Op::Ule, 1, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let key = (5u8, a, b, 0);
        if let Some(&r) = self.memo.get(&key) { return r; }
        let r = self.slt_inner(a, b);
        self.memo.insert(key, r);
        r
    }
    fn slt_inner(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        let ia = self.i(a); let ib = self.i(b);
        if !ia.undef && !ib.undef {
            if ia.shi < ib.slo { return self.tru(); }
            if ia.slo >= ib.shi { return self.fls(); }
        }
        if ia.slo >= 0 && ib.slo >= 0 { return self.ult(a, b); }
        let na = self.n(a); let nb = self.n(b);
        if nb.op == Op::Const && self.ite_consts(&na) { let x = self.slt(na.b, b); let y = self.slt(na.c, b); return self.ite(na.a, x, y); }
        if na.op == Op::Const && self.ite_consts(&nb) { let x = self.slt(a, nb.b); let y = self.slt(a, nb.c); return self.ite(nb.a, x, y); }
        if w <= 64 {
            let k = sbits(ia.slo.min(ib.slo), ia.shi.max(ib.shi));
            if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.slt(x, y); }
        }
        // sign test
        if nb.op == Op::Const && nb.imm == 0 { return self.extract(a, w - 1, 1); }
        if na.op == Op::Const && na.imm == mask(w) { let x = self.extract(b, w - 1, 1); return self.not(x); }
        self.mk2(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let w = self.w(a);
        let ia = self.i(a); let ib = self.i(b);
        if !ia.undef && !ib.undef {
            if ia.shi <= ib.slo { return self.tru(); }
            if ia.slo > ib.shi { return self.fls(); }
        }
        if ia.slo >= 0 && ib.slo >= 0 { return self.ule(a, b); }
        if let Some(k) = self.is_const(b) { if sx(k, w) == (mask(w) >> 1) as i128 { return self.tru(); } let c = self.cst(w, k.wrapping_add(1)); return self.slt(a, c); }
        if let Some(k) = self.is_const(a) { if k == 1u128 << (w - 1) { return self.tru(); } let c = self.cst(w, k.wrapping_sub(1)); return self.slt(c, b); }
        if w <= 64 {
            let k = sbits(ia.slo.min(ib.slo), ia.shi.max(ib.shi));
            if k < w { let x = self.extract(a, 0, k); let y = self.extract(b, 0, k); return self.sle(x, y); }
        }
        self.mk2(Op::Sle, 1, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Const { return if nc.imm == 1 { a } else { b }; }
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let x = self.not(c); return self.and(x, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let x = self.not(c); return self.or(x, a); }
                _ => {}
            }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if w > 0 {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let k = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, k); let y = self.zext(nb.a, k);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
            if na.op == Op::SExt && nb.op == Op::SExt {
                let k = self.w(na.a).max(self.w(nb.a));
                let x = self.sext(na.a, k); let y = self.sext(nb.a, k);
                let r = self.ite(c, x, y);
                return self.sext(r, w);
            }
            if (na.op == Op::ZExt && nb.op == Op::Const) || (nb.op == Op::ZExt && na.op == Op::Const) {
                let (z, k) = if na.op == Op::ZExt { (na, nb.imm) } else { (nb, na.imm) };
                let kw = self.w(z.a).max(ubits(k)).max(1);
                if kw < w {
                    let x = self.extract(a, 0, kw); let y = self.extract(b, 0, kw);
                    let r = self.ite(c, x, y);
                    return self.zext(r, w);
                }
            }
            if w <= 64 && w > 2 && ((na.op == Op::SExt && nb.op == Op::Const) || (nb.op == Op::SExt && na.op == Op::Const)) {
                let ia = self.i(a); let ib = self.i(b);
                let iw = if na.op == Op::SExt { self.w(na.a) } else { self.w(nb.a) };
                let kc = if na.op == Op::SExt { sbits(ib.slo, ib.slo) } else { sbits(ia.slo, ia.slo) };
                let kw = iw.max(kc);
                if kw < w {
                    let x = self.extract(a, 0, kw); let y = self.extract(b, 0, kw);
                    let r = self.ite(c, x, y);
                    return self.sext(r, w);
                }
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, imm: 0 })
    }

    // ---------- reals ----------
    pub fn rconst(&mut self, num: i128, den: i128) -> E {
        // pack as two i64 if possible; otherwise exact node impossible
        let g = gcd(num.unsigned_abs(), den.unsigned_abs()).max(1) as i128;
        let (mut nn, mut dd) = (num / g, den / g);
        if dd < 0 { nn = -nn; dd = -dd; }
        assert!(nn >= i64::MIN as i128 && nn <= i64::MAX as i128 && dd <= i64::MAX as i128, "real constant too large");
        let imm = ((nn as i64 as u64 as u128) << 64) | (dd as u64 as u128);
        self.intern(Node { op: Op::RConst, w: 0, a: NONE, b: NONE, c: NONE, imm })
    }
    pub fn rval(&self, e: E) -> Option<(i128, i128)> {
        let n = &self.nodes[e as usize];
        if n.op == Op::RConst { Some((((n.imm >> 64) as u64 as i64) as i128, (n.imm as u64) as i128)) } else { None }
    }
    fn rfit(num: i128, den: i128) -> bool {
        if den == 0 { return false; }
        let g = gcd(num.unsigned_abs(), den.unsigned_abs()).max(1) as i128;
        let (n, d) = (num / g, (den / g).abs());
        n.abs() < (1i128 << 62) && d < (1i128 << 62)
    }
    pub fn radd(&mut self, a: E, b: E) -> E {
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) {
            let (n, d) = (p * s + r * q, q * s); if Self::rfit(n, d) { return self.rconst(n, d); }
        }
        if let Some((0, _)) = self.rval(a) { return b; }
        if let Some((0, _)) = self.rval(b) { return a; }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk2(Op::RAdd, 0, a, b)
    }
    pub fn rneg(&mut self, a: E) -> E {
        if let Some((p, q)) = self.rval(a) { return self.rconst(-p, q); }
        if self.n(a).op == Op::RNeg { return self.n(a).a; }
        self.mk1(Op::RNeg, 0, a)
    }
    pub fn rsub(&mut self, a: E, b: E) -> E {
        if a == b { return self.rconst(0, 1); }
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) {
            let (n, d) = (p * s - r * q, q * s); if Self::rfit(n, d) { return self.rconst(n, d); }
        }
        if let Some((0, _)) = self.rval(b) { return a; }
        if let Some((0, _)) = self.rval(a) { return self.rneg(b); }
        self.mk2(Op::RSub, 0, a, b)
    }
    pub fn rmul(&mut self, a: E, b: E) -> E {
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) {
            let (n, d) = (p * r, q * s); if Self::rfit(n, d) { return self.rconst(n, d); }
        }
        for (x, y) in [(a, b), (b, a)] {
            match self.rval(x) { Some((0, _)) => return x, Some((1, 1)) => return y, Some((-1, 1)) => return self.rneg(y), _ => {} }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk2(Op::RMul, 0, a, b)
    }
    pub fn rdiv(&mut self, a: E, b: E) -> E {
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) {
            if r != 0 { let (n, d) = (p * s, q * r); if Self::rfit(n, d) { return self.rconst(n, d); } }
        }
        if let Some((1, 1)) = self.rval(b) { return a; }
        self.mk2(Op::RDiv, 0, a, b)
    }
    pub fn rfun(&mut self, k: u32, a: E) -> E { self.intern(Node { op: Op::RFun, w: 0, a, b: NONE, c: NONE, imm: k as u128 }) }
    pub fn req(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        if let (Some(x), Some(y)) = (self.rval(a), self.rval(b)) { return self.cst(1, (x == y) as u128); }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk2(Op::REq, 1, a, b)
    }
    pub fn rlt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) { return self.cst(1, (p * s < r * q) as u128); }
        self.mk2(Op::RLt, 1, a, b)
    }
    pub fn rle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        if let (Some((p, q)), Some((r, s))) = (self.rval(a), self.rval(b)) { return self.cst(1, (p * s <= r * q) as u128); }
        self.mk2(Op::RLe, 1, a, b)
    }
    pub fn stor(&mut self, a: E, signed: bool) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(a) { let v = if signed { sx(k, w) } else { k as i128 }; if Self::rfit(v, 1) { return self.rconst(v, 1); } }
        self.mk1(if signed { Op::SToR } else { Op::UToR }, 0, a)
    }
    pub fn has_real(&self, e: E, memo: &mut FxMap<E, bool>) -> bool {
        if let Some(&b) = memo.get(&e) { return b; }
        let n = self.n(e);
        let r = n.w == 0 || [n.a, n.b, n.c].iter().any(|&x| x != NONE && self.has_real(x, memo));
        memo.insert(e, r);
        r
    }
}

pub fn gcd(a: u128, b: u128) -> u128 { let (mut a, mut b) = (a, b); while b != 0 { let t = a % b; a = b; b = t; } a }
fn prod_range(a: i128, b: i128, c: i128, d: i128) -> (i128, i128) {
    let mut lo = i128::MAX; let mut hi = i128::MIN;
    for x in [a, b] { for y in [c, d] { let p = x.saturating_mul(y); lo = lo.min(p); hi = hi.max(p); } }
    (lo, hi)
}

/// concrete evaluation under an assignment of the variables
pub struct Model { pub vals: Vec<u128>, memo: std::cell::RefCell<FxMap<E, u128>> }
impl Model {
    pub fn new(vals: Vec<u128>) -> Self { Model { vals, memo: Default::default() } }
    pub fn eval(&self, p: &Pool, e: E) -> u128 {
        let n = p.n(e);
        if n.op == Op::Const { return n.imm; }
        if n.op == Op::Var || n.op == Op::Undef { return self.vals.get(n.imm as usize).copied().unwrap_or(0) & mask(n.w); }
        if let Some(&v) = self.memo.borrow().get(&e) { return v; }
        let w = n.w; let m = mask(w);
        let r = match n.op {
            Op::Ite => if self.eval(p, n.a) & 1 == 1 { self.eval(p, n.b) } else { self.eval(p, n.c) },
            Op::ZExt => self.eval(p, n.a),
            Op::SExt => sx(self.eval(p, n.a), p.w(n.a)) as u128 & m,
            Op::Extract => (self.eval(p, n.a) >> n.imm as u32) & m,
            Op::Concat => (self.eval(p, n.a) << p.w(n.b)) | self.eval(p, n.b),
            Op::Not => !self.eval(p, n.a) & m,
            _ => {
                let a = self.eval(p, n.a); let b = self.eval(p, n.b); let aw = p.w(n.a);
                fold2(n.op, aw, a, b)
            }
        };
        self.memo.borrow_mut().insert(e, r);
        r
    }
}
pub fn fold2(op: Op, aw: u16, a: u128, b: u128) -> u128 {
    let m = mask(aw);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, aw), sx(b, aw)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
        Op::SRem => { let (x, y) = (sx(a, aw), sx(b, aw)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } }
        Op::Shl => if b >= aw as u128 { 0 } else { (a << b as u32) & m },
        Op::LShr => if b >= aw as u128 { 0 } else { a >> b as u32 },
        Op::AShr => (sx(a, aw) >> (b.min(aw as u128 - 1) as u32)) as u128 & m,
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128, Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        _ => panic!("fold2 {:?}", op),
    }
}
