//! Minimal FFI to libz3 and an incremental solver over expression DAG nodes.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_dec_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const c_char;
    fn Z3_get_ast_kind(c: P, a: P) -> c_int;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bv2int(c: P, a: P, s: bool) -> P;
    fn Z3_mk_int2real(c: P, a: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, d: *mut c_uint, e: *mut c_uint);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max: f64, pub oneshot: u64 }

pub struct Solver {
    c: P,
    s: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    sorts: FxMap<u16, P>,
    /// expressions currently asserted, one push level each
    stack: Vec<E>,
    pub stats: Stats,
    vars: Vec<E>,
    pub real: bool,
    n_since_reset: u32,
    rlimit: u32,
    funs: FxMap<u32, P>,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

pub static INC_RLIMIT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(400_000);
/// incremental solving with the SAT-based solver instead of the SMT core
pub static USE_SAT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const SMT_RLIMIT: u32 = 3_000_000;
const REAL_RLIMIT: u32 = 2_000_000;

impl Solver {
    /// a query the incremental solver gave up on: fresh solver with full preprocessing
    /// decides a query from scratch: first the SMT core, then bit-blasting to SAT
    /// drop what defines a square root (its square, its sign) when nothing else mentions that root
    fn without_unused_roots(p: &Pool, pc: &[E], extra: &[E]) -> Vec<E> {
        let root = |e: E| -> Option<E> { let n = p.n(e); if n.op == Op::RFun && n.imm == 5 { Some(e) } else { None } };
        let defines = |c: E| -> Option<E> {
            let n = p.n(c);
            match n.op {
                Op::RLe if p.rval(n.a).map(|x| x.0) == Some(0) => root(n.b),
                Op::REq => [(n.a, n.b), (n.b, n.a)].iter().find_map(|&(x, y)| { let m = p.n(x); if m.op == Op::RMul && m.a == m.b { root(m.a).filter(|&r| p.n(r).a == y) } else { None } }),
                _ => None
            }
        };
        let mut pc = pc.to_vec();
        loop {
            let mut used = std::collections::HashSet::new();
            let mut stack: Vec<E> = extra.to_vec();
            for &c in &pc { match defines(c) { Some(r) => stack.push(p.n(r).a), None => stack.push(c) } }
            while let Some(e) = stack.pop() { if used.insert(e) { let n = p.n(e); for x in [n.a, n.b, n.c] { if x != crate::expr::NONE { stack.push(x); } } } }
            let n = pc.len();
            pc.retain(|&c| match defines(c) { Some(r) => used.contains(&r), None => true });
            if pc.len() == n { return pc }
        }
    }
    unsafe fn oneshot(&mut self, p: &Pool, pc: &[E], extra: &[E]) -> (i32, P) {
        if self.real {
            let pc = &Self::without_unused_roots(p, pc, extra);
            let r = self.tactic(p, pc, extra, &["simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", "simplify", "qfnra-nlsat"], self.rlimit);
            if r.0 != 0 { return r; }
            return self.tactic(p, pc, extra, &["smt"], self.rlimit);
        }
        let r = self.tactic(p, pc, extra, &["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "smt"], SMT_RLIMIT);
        if r.0 != 0 { return r; }
        self.tactic(p, pc, extra, &["qfbv"], self.rlimit)
    }
    unsafe fn tactic(&mut self, p: &Pool, pc: &[E], extra: &[E], names: &[&str], rlimit: u32) -> (i32, P) {
        let c = self.c;
        let mut t: P = std::ptr::null_mut();
        for n in names {
            let n = CString::new(*n).unwrap();
            let x = Z3_mk_tactic(c, n.as_ptr());
            Z3_tactic_inc_ref(c, x);
            if t.is_null() { t = x; } else { let y = Z3_tactic_and_then(c, t, x); Z3_tactic_inc_ref(c, y); Z3_tactic_dec_ref(c, t); Z3_tactic_dec_ref(c, x); t = y; }
        }
        let s = Z3_mk_solver_from_tactic(c, t);
        Z3_solver_inc_ref(c, s);
        if rlimit != 0 {
            let pp = Z3_mk_params(c);
            Z3_params_inc_ref(c, pp);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, pp, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            // nonlinear real arithmetic does not count all of its work
            if self.real { let t = CString::new("timeout").unwrap(); Z3_params_set_uint(c, pp, Z3_mk_string_symbol(c, t.as_ptr()), 60_000); }
            Z3_solver_set_params(c, s, pp);
        }
        for &e in pc.iter().chain(extra) { let a = self.tb(p, e); Z3_solver_assert(c, s, a); }
        let r = Z3_solver_check(c, s);
        let mut m = std::ptr::null_mut();
        if r == 1 { m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); }
        Z3_solver_dec_ref(c, s);
        Z3_tactic_dec_ref(c, t);
        self.stats.oneshot += 1;
        (r, m)
    }
    pub fn new(real: bool, rlimit: u32) -> Self {
        unsafe {
            let _ = Z3_global_param_set;
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver { c, s: std::ptr::null_mut(), bv: Default::default(), bo: Default::default(), sorts: Default::default(),
                stack: vec![], stats: Default::default(), vars: vec![], real, n_since_reset: 0, rlimit, funs: Default::default() };
            s.mk_solver();
            s
        }
    }
    fn mk_solver(&mut self) {
        unsafe {
            if !self.s.is_null() { Z3_solver_dec_ref(self.c, self.s); }
            self.s = if self.real { Z3_mk_solver(self.c) } else if !USE_SAT.load(std::sync::atomic::Ordering::Relaxed) { Z3_mk_simple_solver(self.c) } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), if self.real { REAL_RLIMIT } else { INC_RLIMIT.load(std::sync::atomic::Ordering::Relaxed) });
            if self.real { let t = CString::new("timeout").unwrap(); Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), 4_000); }
            Z3_solver_set_params(self.c, self.s, p);
            self.stack.clear();
            self.n_since_reset = 0;
        }
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a) }; a }
    fn sort(&mut self, w: u16) -> P {
        if let Some(&s) = self.sorts.get(&w) { return s; }
        let s = unsafe { if w == 0 { Z3_mk_real_sort(self.c) } else if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w as c_uint) } };
        self.keep(s);
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            let a = if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            };
            self.keep(a)
        }
    }
    fn bv1(&mut self, v: u64) -> P {
        let s = { if let Some(&s) = self.sorts.get(&1001) { s } else { let s = unsafe { Z3_mk_bv_sort(self.c, 1) }; self.keep(s); self.sorts.insert(1001, s); s } };
        unsafe { let a = Z3_mk_unsigned_int64(self.c, v, s); self.keep(a) }
    }
    /// translate a width-1 expression as Bool
    fn tb(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bo.get(&e) { return a; }
        let n = p.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.imm == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var | Op::Undef => { self.vars.push(e); let nm = CString::new(format!("v{}", n.imm)).unwrap(); let s = self.sort(1); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                Op::Not => { let a = self.tb(p, n.a); Z3_mk_not(c, a) }
                Op::And => { let v = [self.tb(p, n.a), self.tb(p, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.tb(p, n.a), self.tb(p, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { let (x, y) = (self.tb(p, n.a), self.tb(p, n.b)); Z3_mk_xor(c, x, y) }
                Op::Ite => { let (q, x, y) = (self.tb(p, n.a), self.tb(p, n.b), self.tb(p, n.c)); Z3_mk_ite(c, q, x, y) }
                Op::Eq => {
                    if p.w(n.a) == 1 { let (x, y) = (self.tb(p, n.a), self.tb(p, n.b)); Z3_mk_eq(c, x, y) }
                    else { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_eq(c, x, y) }
                }
                Op::Ult => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_bvsle(c, x, y) }
                Op::REq => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_eq(c, x, y) }
                Op::RLt => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_lt(c, x, y) }
                Op::RLe => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_le(c, x, y) }
                _ => {
                    // generic: bit-vector of width 1, compared with 1
                    let x = self.tv1(p, e);
                    self.keep(x);
                    let o = self.bv1(1);
                    Z3_mk_eq(c, x, o)
                }
            }
        };
        self.keep(r);
        self.bo.insert(e, r);
        r
    }
    /// width-1 expression as (_ BitVec 1)
    fn tv1(&mut self, p: &Pool, e: E) -> P {
        let n = p.n(e);
        let c = self.c;
        unsafe {
            match n.op {
                Op::Extract => { let x = self.tv(p, n.a); Z3_mk_extract(c, n.imm as c_uint, n.imm as c_uint, x) }
                Op::Add | Op::Sub => { let (x, y) = (self.tb(p, n.a), self.tb(p, n.b)); let q = self.keep(Z3_mk_xor(c, x, y)); let (o, z) = (self.bv1(1), self.bv1(0)); Z3_mk_ite(c, q, o, z) }
                Op::Mul => { let v = [self.tb(p, n.a), self.tb(p, n.b)]; let q = self.keep(Z3_mk_and(c, 2, v.as_ptr())); let (o, z) = (self.bv1(1), self.bv1(0)); Z3_mk_ite(c, q, o, z) }
                Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                    let x = self.as_bv(p, n.a); let y = self.as_bv(p, n.b);
                    self.bin(n.op, x, y)
                }
                _ => { let q = self.tb(p, e); let (o, z) = (self.bv1(1), self.bv1(0)); Z3_mk_ite(c, q, o, z) }
            }
        }
    }
    fn as_bv(&mut self, p: &Pool, e: E) -> P { if p.w(e) == 1 { let x = self.tv1(p, e); self.keep(x) } else { self.tv(p, e) } }
    unsafe fn bin(&mut self, op: Op, x: P, y: P) -> P {
        let c = self.c;
        match op {
            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y),
            Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
            _ => panic!("bin {:?}", op),
        }
    }
    /// translate a bit-vector (width>1) or real expression
    fn tv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bv.get(&e) { return a; }
        let n = p.n(e);
        if n.w == 1 { let r = self.tv1(p, e); self.keep(r); self.bv.insert(e, r); return r; }
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.imm),
                Op::Var | Op::Undef | Op::RVar => { self.vars.push(e); let nm = CString::new(format!("v{}", n.imm)).unwrap(); let s = self.sort(n.w); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                Op::Not => { let x = self.tv(p, n.a); Z3_mk_bvnot(c, x) }
                Op::Ite => { let (q, x, y) = (self.tb(p, n.a), self.tv(p, n.b), self.tv(p, n.c)); Z3_mk_ite(c, q, x, y) }
                Op::ZExt => {
                    if p.w(n.a) == 1 { let q = self.tb(p, n.a); let (o, z) = (self.num(n.w, 1), self.num(n.w, 0)); Z3_mk_ite(c, q, o, z) }
                    else { let x = self.tv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, x) }
                }
                Op::SExt => {
                    if p.w(n.a) == 1 { let q = self.tb(p, n.a); let (o, z) = (self.num(n.w, mask(n.w)), self.num(n.w, 0)); Z3_mk_ite(c, q, o, z) }
                    else { let x = self.tv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, x) }
                }
                Op::Extract => { let x = self.tv(p, n.a); Z3_mk_extract(c, n.imm as c_uint + n.w as c_uint - 1, n.imm as c_uint, x) }
                Op::Concat => { let x = self.as_bv(p, n.a); let y = self.as_bv(p, n.b); Z3_mk_concat(c, x, y) }
                Op::RConst => {
                    let (a, b) = p.rval(e).unwrap();
                    let t = CString::new(if b == 1 { format!("{}", a) } else { format!("{}/{}", a, b) }).unwrap();
                    let s = self.sort(0);
                    Z3_mk_numeral(c, t.as_ptr(), s)
                }
                Op::RAdd => { let v = [self.tv(p, n.a), self.tv(p, n.b)]; Z3_mk_add(c, 2, v.as_ptr()) }
                Op::RSub => { let v = [self.tv(p, n.a), self.tv(p, n.b)]; Z3_mk_sub(c, 2, v.as_ptr()) }
                Op::RMul => { let v = [self.tv(p, n.a), self.tv(p, n.b)]; Z3_mk_mul(c, 2, v.as_ptr()) }
                Op::RDiv => { let (x, y) = (self.tv(p, n.a), self.tv(p, n.b)); Z3_mk_div(c, x, y) }
                Op::RNeg => { let x = self.tv(p, n.a); Z3_mk_unary_minus(c, x) }
                Op::RFun => {
                    let x = self.tv(p, n.a);
                    let k = n.imm as u32;
                    let f = if let Some(&f) = self.funs.get(&k) { f } else {
                        let s = self.sort(0); let d = [s];
                        let nm = CString::new(format!("fun{}", k)).unwrap();
                        let f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), 1, d.as_ptr(), s);
                        self.keep(f); self.funs.insert(k, f); f
                    };
                    Z3_mk_app(c, f, 1, [x].as_ptr())
                }
                Op::SToR | Op::UToR => { let x = self.as_bv(p, n.a); let i = self.keep(Z3_mk_bv2int(c, x, n.op == Op::SToR)); Z3_mk_int2real(c, i) }
                _ => { let (x, y) = (self.as_bv(p, n.a), self.as_bv(p, n.b)); self.bin(n.op, x, y) }
            }
        };
        self.keep(r);
        self.bv.insert(e, r);
        r
    }

    fn align(&mut self, p: &Pool, pc: &[E]) {
        if self.n_since_reset > 4000 { self.mk_solver(); }
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] { k += 1; }
        if self.stack.len() > k {
            unsafe { Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint) };
            self.stack.truncate(k);
        }
        for &e in &pc[k..] {
            let a = self.tb(p, e);
            unsafe { Z3_solver_push(self.c, self.s); Z3_solver_assert(self.c, self.s, a); }
            self.stack.push(e);
        }
    }

    /// check pc /\ extra; on sat returns a model for every variable known so far
    pub fn check(&mut self, p: &Pool, pc: &[E], extra: &[E]) -> (Sat, Option<Model>, Vec<(u32, String)>) {
        self.align(p, pc);
        let t0 = Instant::now();
        let c = self.c;
        unsafe {
            let ex: Vec<P> = extra.iter().map(|&e| self.tb(p, e)).collect();
            Z3_solver_push(c, self.s);
            for a in ex { Z3_solver_assert(c, self.s, a); }
            let mut r = Z3_solver_check(c, self.s);
            let mut zm: P = std::ptr::null_mut();
            if r == 1 { zm = Z3_solver_get_model(c, self.s); Z3_model_inc_ref(c, zm); }
            let gave_up = r == 0;
            if gave_up { let x = self.oneshot(p, pc, extra); r = x.0; zm = x.1; }
            let mut model = None;
            let mut reals = vec![];
            let sat = match r { 1 => Sat::Sat, -1 => Sat::Unsat, _ => Sat::Unknown };
            if sat == Sat::Sat {
                let m = zm;
                let mut vals = vec![0u128; p.n_vars as usize];
                for &v in &self.vars.clone() {
                    let n = p.n(v);
                    let a = if n.w == 1 { self.tb(p, v) } else { self.tv(p, v) };
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(c, m, a, true, &mut out) {
                        Z3_inc_ref(c, out);
                        if n.w == 1 { vals[n.imm as usize] = (Z3_get_bool_value(c, out) == 1) as u128; }
                        else if n.w == 0 {
                            let s = if Z3_get_ast_kind(c, out) == 0 {
                                CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy().into_owned()
                            } else {
                                CStr::from_ptr(Z3_get_numeral_decimal_string(c, out, 20)).to_string_lossy().into_owned()
                            };
                            reals.push((n.imm as u32, s));
                        }
                        else { let s = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy().into_owned(); vals[n.imm as usize] = s.parse::<u128>().unwrap(); }
                    }
                }
                Z3_model_dec_ref(c, m);
                model = Some(Model::new(vals));
            }
            let dt = t0.elapsed().as_secs_f64();
            if dt > 1.5 && std::env::var("SYMEX_DUMP").is_ok() {
                std::fs::write(format!("/tmp/slow_{}.smt2", std::process::id()), CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_bytes()).ok();
            }
            // popping an interrupted incremental solver can loop for ever inside z3: start afresh instead
            if gave_up { self.mk_solver(); } else { Z3_solver_pop(c, self.s, 1); self.n_since_reset += 1; }
            self.stats.queries += 1;
            self.stats.time += dt;
            if dt > self.stats.max { self.stats.max = dt; }
            match sat { Sat::Sat => self.stats.sat += 1, Sat::Unsat => self.stats.unsat += 1, Sat::Unknown => self.stats.unknown += 1 }
            (sat, model, reals)
        }
    }
}
