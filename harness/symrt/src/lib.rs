//! Interface between a harness and whatever runs it.
//! Default: the `sym_*` functions stay undefined externs and the symbolic executor interprets them.
//! Feature `native`: they replay one concrete input vector against the natively compiled code.

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sym_bits(w: u32) -> u64;
        pub fn sym_real() -> f64;
        pub fn sym_param(i: u32) -> i64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, l: *const u8, n: usize);
        pub fn sym_real_eq(a: f64, b: f64) -> bool;
        pub fn sym_observe(v: u64);
        pub fn sym_cover(l: *const u8, n: usize);
        pub fn sym_expect_panic(l: *const u8, n: usize);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_is_symbolic() -> u64;
        pub fn sym_live_heap() -> u64;
    }
}
#[cfg(feature = "native")]
pub mod raw {
    use std::sync::Mutex;
    pub struct St { pub params: Vec<i64>, pub inputs: Vec<String>, pub pos: usize, pub region: Option<String>, pub fails: Vec<String>, pub obs: Vec<u64>, pub covers: Vec<String> }
    pub static ST: Mutex<St> = Mutex::new(St { params: vec![], inputs: vec![], pos: 0, region: None, fails: vec![], obs: vec![], covers: vec![] });
    fn st() -> std::sync::MutexGuard<'static, St> { match ST.lock() { Ok(g) => g, Err(e) => e.into_inner() } }
    fn next() -> String {
        let mut s = st();
        let p = s.pos; s.pos += 1;
        s.inputs.get(p).cloned().unwrap_or_else(|| "0".into())
    }
    fn s(l: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(l, n)).into_owned() } }
    pub fn finish(what: &str, code: i32) -> ! {
        let g = st();
        for o in &g.obs { println!("OBS {}", o); }
        for c in &g.covers { println!("COVER {}", c); }
        for f in &g.fails { println!("FAIL {}", f); }
        println!("END {}", what);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    pub unsafe fn sym_bits(w: u32) -> u64 { let v: u64 = next().parse().unwrap(); if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
    pub unsafe fn sym_real() -> f64 {
        let t = next(); let t = t.strip_prefix("r:").unwrap_or(&t).replace(['(', ')', '?'], " ");
        let neg = t.contains('-'); let t = t.replace('-', " ");
        let p: Vec<f64> = t.split(|c: char| c == '/' || c == ' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let v = if p.len() == 2 { p[0] / p[1] } else { p[0] };
        if neg { -v } else { v }
    }
    pub unsafe fn sym_param(i: u32) -> i64 { st().params[i as usize] }
    pub unsafe fn sym_assume(c: bool) { if !c { finish("assume", 77) } }
    pub unsafe fn sym_check(c: bool, l: *const u8, n: usize) { if !c { let l = s(l, n); st().fails.push(l); finish("check", 101) } }
    pub unsafe fn sym_real_eq(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
    pub unsafe fn sym_observe(v: u64) { st().obs.push(v) }
    pub unsafe fn sym_cover(l: *const u8, n: usize) { let l = s(l, n); st().covers.push(l) }
    pub unsafe fn sym_expect_panic(l: *const u8, n: usize) { let v = if n == 0 { None } else { Some(s(l, n)) }; st().region = v }
    pub unsafe fn sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn sym_is_symbolic() -> u64 { 0 }
    pub unsafe fn sym_live_heap() -> u64 { 0 }
    pub fn main(tables: &[&[(&str, extern "C" fn())]]) {
        let table: Vec<_> = tables.iter().flat_map(|t| t.iter()).collect();
        // native NAME PARAMS INPUTFILE
        let a: Vec<String> = std::env::args().collect();
        {
            let mut g = st();
            g.params = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            g.inputs = std::fs::read_to_string(&a[3]).unwrap().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        }
        std::panic::set_hook(Box::new(|info| {
            let r = st().region.clone();
            match r {
                Some(l) => { st().covers.push(format!("panic:{}", l)); finish("expected-panic", 0) }
                None => { println!("PANIC {}", info.to_string().replace('\n', " ")); finish("panic", 101) }
            }
        }));
        let f = table.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || f()).unwrap();
        let _ = t.join();
        finish("ok", 0)
    }
}
use raw::*;

/// new variable of `w` bits, zero-extended
#[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { sym_bits(w) } }
#[inline(always)] pub fn boolean() -> bool { bits(1) == 1 }
/// integer in lo..=hi (symbolic)
#[inline(always)] pub fn int(lo: i64, hi: i64) -> i64 {
    let span = (hi - lo) as u64;
    let w = 64 - span.leading_zeros();
    if w == 0 { return lo }
    let x = bits(w);
    if span != (u64::MAX >> (64 - w)) { assume(x <= span); }
    lo + x as i64
}
/// index in 0..n (symbolic)
#[inline(always)] pub fn idx(n: usize) -> usize { int(0, n as i64 - 1) as usize }
/// index in 0..n, one path per value
#[inline(always)] pub fn pick(n: usize) -> usize { concretize(idx(n)) }
#[inline(always)] pub fn concretize(v: usize) -> usize { unsafe { sym_concretize(v as u64) as usize } }
/// branch: one path per value
#[inline(always)] pub fn choose() -> bool { concretize(bits(1) as usize) == 1 }
#[inline(always)] pub fn real() -> f64 { unsafe { sym_real() } }
#[inline(always)] pub fn param(i: u32) -> i64 { unsafe { sym_param(i) } }
#[inline(always)] pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(always)] pub fn check(c: bool, l: &str) { unsafe { sym_check(c, l.as_ptr(), l.len()) } }
#[inline(always)] pub fn real_eq(a: f64, b: f64) -> bool { unsafe { sym_real_eq(a, b) } }
#[inline(always)] pub fn observe(v: u64) { unsafe { sym_observe(v) } }
#[inline(always)] pub fn cover(l: &str) { unsafe { sym_cover(l.as_ptr(), l.len()) } }
/// `f` has to panic
#[inline(always)] pub fn must_panic<R>(l: &str, f: impl FnOnce() -> R) {
    unsafe { sym_expect_panic(l.as_ptr(), l.len()) };
    let r = f();
    unsafe { sym_expect_panic(l.as_ptr(), 0) };
    check(false, l);
    std::mem::forget(r);
}
/// `f` may panic; the path then ends
#[inline(always)] pub fn may_panic<R>(l: &str, f: impl FnOnce() -> R) -> R {
    unsafe { sym_expect_panic(l.as_ptr(), l.len()) };
    let r = f();
    unsafe { sym_expect_panic(l.as_ptr(), 0) };
    r
}
pub fn live_heap() -> u64 { unsafe { sym_live_heap() } }
pub fn is_symbolic() -> bool { unsafe { sym_is_symbolic() == 1 } }

/// Defines the harness entry points and the table the native replayer uses.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
