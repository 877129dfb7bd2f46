//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    func: u32, block: u32, ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret_dst: u32, ret_block: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    model: Rc<Model>,
    n_instr: u64,
    expect_panic: Option<String>,
    inputs: Vec<(u32, u16)>,
    obs: Vec<(String, Val)>,
    covers: Vec<String>,
    reals: Rc<Vec<(u32, String)>>,
    param_cursor: usize,
    /// consecutive branch queries with one feasible side; path length at the last search for pinned variables
    streak: u32, pin_at: usize, trace: Vec<(usize, usize, usize, usize, Val)>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub label: String, pub inputs: Vec<String>, pub trace: Vec<String>, pub count: u64 }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<String>, pub obs: Vec<String>, pub outcome: String }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub killed: u64, pub panics_expected: u64, pub instrs: u64, pub forks: u64, pub checks: u64,
    pub violations: Vec<Violation>, pub errors: Vec<String>, pub covers: std::collections::BTreeMap<String, u64>,
    pub incomplete: u64, pub samples: Vec<Sample>, pub funcs: std::collections::BTreeSet<u32>, pub concretizations: u64, pub ite_access: u64,
    pub check_labels: std::collections::BTreeMap<String, u64>, pub assume_kills: u64,
}

pub struct Config {
    pub params: Vec<i64>, pub deadline: Instant, pub max_instr: u64, pub max_frames: usize, pub ite_limit: usize,
    pub real: bool, pub rlimit: u32, pub sample_every: u64, pub max_samples: usize, pub tokens: Option<(i32, i32)>, pub out: String,
    pub conc_limit: usize,
}

enum Stop { Path, Fork }
enum Ctl { Next, Jump, End }
type X<T> = Result<T, Term>;
/// why a path ended
pub enum Term { Kill, Violation(String, String), Error(String), Retry }
impl From<MemErr> for Term {
    fn from(m: MemErr) -> Term { if m.0.starts_with("unsupported") || m.0.contains("modelled object size") { Term::Error(m.0) } else { Term::Violation("memory".into(), m.0) } }
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub cpool: Vec<Val>,
    pub p: Pool,
    pub s: Solver,
    pub alg: crate::poly::Alg,
    exponents: Vec<u64>,
    pub cfg: Config,
    pub work: Vec<State>,
    pub rep: Report,
    pub children: Vec<i32>,
    gaddr: FxMap<String, u64>,
    externs: FxMap<String, u32>,
    ext_names: Vec<String>,
    panic_fn: Vec<bool>,
    print_fn: Vec<bool>,
    steps_since_check: u64,
    trace: bool,
    pub path_no: u64,
}

extern "C" { fn fork() -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32; }

fn f64c(v: u64) -> f64 { f64::from_bits(v) }

impl<'m> Exec<'m> {
    /// lays out globals and resolves constants in the module
    pub fn prepare(m: &mut Module) -> (Vec<Val>, Mem, FxMap<String, u64>, Vec<(String, u64)>, Pool) {
        let mut pool = Pool::new();
        let mut gaddr: FxMap<String, u64> = Default::default();
        for (i, f) in m.funcs.iter().enumerate() { gaddr.insert(f.name.clone(), FBASE + 16 * i as u64); }
        let nf = m.funcs.len() as u64;
        let mut exts = vec![];
        for (i, d) in m.decls.iter().enumerate() { if !gaddr.contains_key(d) { let a = FBASE + 16 * (nf + i as u64); gaddr.insert(d.clone(), a); exts.push((d.clone(), a)); } }
        let mut cur = GBASE; let mut starts = vec![];
        for g in &m.globals {
            let al = g.align.max(16);
            cur = (cur + al - 1) / al * al;
            gaddr.insert(g.name.clone(), cur);
            starts.push(cur);
            cur += g.ty.size() + 32;
        }
        let mut objs = vec![];
        for g in &m.globals {
            let sz = g.ty.size();
            let mut o = Obj::new(sz, false, false);
            if let Some(init) = &g.init { write_cst(&mut o.data, 0, &g.ty, init, &gaddr); o.constant = g.constant; objs.push(Some(Rc::new(o))); }
            else { objs.push(Some(Rc::new(o))); }
        }
        let mem = Mem::new(objs, starts);
        let mut cp: Vec<Val> = vec![];
        let types = std::mem::take(&mut m.types);
        m.types = types;
        let fidx = m.fidx.clone();
        for f in &mut m.funcs {
            for b in &mut f.blocks {
                for (_, t, inc) in &mut b.phis { for (_, o) in inc { fix(o, t, &gaddr, &mut cp, &mut pool); } }
                for ins in &mut b.ins {
                    match &mut ins.i {
                        I::Bin(_, t, a, c) | I::ICmp(_, t, a, c) | I::FCmp(_, t, a, c) => { fix(a, t, &gaddr, &mut cp, &mut pool); fix(c, t, &gaddr, &mut cp, &mut pool); }
                        I::FNeg(t, a) => fix(a, t, &gaddr, &mut cp, &mut pool),
                        I::Cast(_, t, a, _) => fix(a, t, &gaddr, &mut cp, &mut pool),
                        I::Select(ct, t, c, a, b) => { fix(c, ct, &gaddr, &mut cp, &mut pool); fix(a, t, &gaddr, &mut cp, &mut pool); fix(b, t, &gaddr, &mut cp, &mut pool); }
                        I::Alloca(_, n) => fix(n, &Ty::Int(64), &gaddr, &mut cp, &mut pool),
                        I::Load(_, a) => fix(a, &Ty::Ptr, &gaddr, &mut cp, &mut pool),
                        I::Store(t, v, a) => { fix(v, t, &gaddr, &mut cp, &mut pool); fix(a, &Ty::Ptr, &gaddr, &mut cp, &mut pool); }
                        I::GepRaw(t, b, idx) => {
                            let mut base = b.clone(); fix(&mut base, &Ty::Ptr, &gaddr, &mut cp, &mut pool);
                            let mut off = 0u64; let mut dynx = vec![]; let mut ty = t.clone();
                            for (k, (it, o)) in idx.iter().enumerate() {
                                let scale;
                                let cv = match o { Opd::C(Cst::Int(v)) => Some(*v as i64 as u64), Opd::C(Cst::Zero) => Some(0), _ => None };
                                if k == 0 { scale = ty.size(); }
                                else {
                                    match &ty {
                                        Ty::Struct(..) => { let (o2, t2) = ty.field_offset(cv.expect("struct gep index")); off = off.wrapping_add(o2); ty = t2; continue; }
                                        _ => { let (_, t2) = ty.field_offset(0); scale = t2.size(); ty = t2; }
                                    }
                                }
                                if let Some(v) = cv { off = off.wrapping_add(scale.wrapping_mul(v)); } else { let mut o2 = o.clone(); fix(&mut o2, it, &gaddr, &mut cp, &mut pool); dynx.push((scale, it.bits(), o2)); }
                            }
                            ins.i = I::Gep(base, off, dynx);
                        }
                        I::Call(_, c, args, _) => {
                            match c {
                                Callee::Global(g) => { *c = if let Some(&i) = fidx.get(g) { Callee::Direct(i) } else { Callee::Ext(g.clone()) }; }
                                Callee::Reg(o) => fix(o, &Ty::Ptr, &gaddr, &mut cp, &mut pool),
                                _ => {}
                            }
                            for (t, o) in args { fix(o, t, &gaddr, &mut cp, &mut pool); }
                        }
                        I::CondBr(c, _, _) => fix(c, &Ty::Int(1), &gaddr, &mut cp, &mut pool),
                        I::Switch(t, v, _, _) => fix(v, t, &gaddr, &mut cp, &mut pool),
                        I::Ret(t, Some(v)) => fix(v, t, &gaddr, &mut cp, &mut pool),
                        I::ExtractValue(a, _) => fix(a, &Ty::Int(64), &gaddr, &mut cp, &mut pool),
                        I::InsertValue(t, a, b, ix) => {
                            let mut et = t.clone(); for &k in ix.iter() { et = et.elem(k as usize); }
                            fix(a, t, &gaddr, &mut cp, &mut pool); fix(b, &et, &gaddr, &mut cp, &mut pool);
                        }
                        I::ExtractElement(t, a, b) => { fix(a, t, &gaddr, &mut cp, &mut pool); fix(b, &Ty::Int(64), &gaddr, &mut cp, &mut pool); }
                        I::InsertElement(t, a, b, c) => { let e = t.elem(0); fix(a, t, &gaddr, &mut cp, &mut pool); fix(b, &e, &gaddr, &mut cp, &mut pool); fix(c, &Ty::Int(64), &gaddr, &mut cp, &mut pool); }
                        I::Shuffle(t, a, b, _) => { fix(a, t, &gaddr, &mut cp, &mut pool); fix(b, t, &gaddr, &mut cp, &mut pool); }
                        I::Freeze(a) => fix(a, &Ty::Int(64), &gaddr, &mut cp, &mut pool),
                        I::AtomicRmw(_, t, a, v) => { fix(a, &Ty::Ptr, &gaddr, &mut cp, &mut pool); fix(v, t, &gaddr, &mut cp, &mut pool); }
                        I::CmpXchg(t, a, b, c) => { fix(a, &Ty::Ptr, &gaddr, &mut cp, &mut pool); fix(b, t, &gaddr, &mut cp, &mut pool); fix(c, t, &gaddr, &mut cp, &mut pool); }
                        _ => {}
                    }
                }
            }
        }
        (cp, mem, gaddr, exts, pool)
    }

    pub fn new(m: &'m Module, cpool: Vec<Val>, pool: Pool, gaddr: FxMap<String, u64>, exts: Vec<(String, u64)>, cfg: Config) -> Self {
        let s = Solver::new(cfg.real, cfg.rlimit);
        let panic_fn = m.funcs.iter().map(|f| {
            let n = &f.name;
            (n.contains("4core9panicking") && (f.noreturn || !n.contains("panicking9panicking"))) ||
            (n.contains("3std9panicking") && f.noreturn) || n.contains("12handle_error") && n.contains("7raw_vec") || n.contains("18handle_alloc_error") || n.contains("rust_begin_unwind") || n.contains("___rustc17rust_begin_unwind")
        }).collect();
        let print_fn = m.funcs.iter().map(|f| f.name.contains("3std2io5stdio6__print") || f.name.contains("5stdio6_print") || f.name.contains("5stdio7_eprint")).collect();
        let externs = exts.iter().enumerate().map(|(i, (n, _))| (n.clone(), i as u32)).collect();
        let ext_names = exts.iter().map(|(n, _)| n.clone()).collect();
        Exec { m, cpool, p: pool, s, alg: Default::default(), exponents: vec![], cfg, work: vec![], rep: Report::default(), children: vec![], gaddr, externs, ext_names, panic_fn, print_fn, steps_since_check: 0, trace: std::env::var("SYMEX_TRACE").is_ok(), path_no: 0 }
    }

    pub fn start(&mut self, name: &str, mem: Mem) -> Result<(), String> {
        let f = *self.m.fidx.get(name).ok_or(format!("harness {} not in module", name))?;
        let fr = self.frame(f, vec![], NODST, None);
        self.work.push(State { frames: vec![fr], mem, pc: vec![], model: Rc::new(Model::new(std::env::var("SYMEX_MODEL").map(|t| t.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default())), n_instr: 0, expect_panic: None, inputs: vec![], obs: vec![], covers: vec![], reals: Rc::new(vec![]), param_cursor: 0, streak: 0, pin_at: 0, trace: vec![] });
        Ok(())
    }
    fn frame(&mut self, f: u32, args: Vec<Val>, ret_dst: u32, ret_block: Option<u32>) -> Frame {
        self.rep.funcs.insert(f);
        let func = &self.m.funcs[f as usize];
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if let Some(&r) = func.params.get(i) { regs[r as usize] = a; } }
        Frame { func: f, block: 0, ip: 0, regs, allocas: vec![], ret_dst, ret_block }
    }

    // ---------- parallel exploration ----------
    fn maybe_split(&mut self) {
        if self.work.is_empty() { return; }
        if let Some((rd, _)) = self.cfg.tokens {
            let mut b = [0u8; 1];
            let r = unsafe { read(rd, b.as_mut_ptr(), 1) };
            if r != 1 { return; }
            let pid = unsafe { fork() };
            if pid == 0 {
                // child takes the oldest pending state
                let st = self.work.remove(0);
                self.work.clear();
                self.work.push(st);
                self.rep = Report::default();
                self.children.clear();
                self.s.stats = Stats::default();
                self.path_no = 0;
            } else if pid > 0 {
                self.work.remove(0);
                self.children.push(pid);
            } else {
                unsafe { write(self.cfg.tokens.unwrap().1, b.as_ptr(), 1); }
            }
        }
    }
    pub fn setup_tokens(n: usize) -> (i32, i32) {
        extern "C" { fn pipe(fds: *mut i32) -> i32; }
        let mut f = [0i32; 2];
        unsafe { pipe(f.as_mut_ptr()); fcntl(f[0], 4, 2048); }
        let b = vec![b'x'; n];
        unsafe { write(f[1], b.as_ptr(), n); }
        (f[0], f[1])
    }

    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if Instant::now() > self.cfg.deadline { self.rep.incomplete += 1 + self.work.len() as u64; self.work.clear(); break; }
            self.maybe_split_push(st);
        }
    }
    fn maybe_split_push(&mut self, st: State) {
        // offer pending work before continuing
        self.work.push(st);
        if self.work.len() > 1 { self.maybe_split(); }
        let st = match self.work.pop() { Some(s) => s, None => return };
        self.exec_state(st);
    }

    fn exec_state(&mut self, mut st: State) {
        self.p.reset_ctx();
        for k in 0..st.pc.len() { let c = st.pc[k]; self.p.assume_fact(c); }
        loop {
            if st.n_instr > self.cfg.max_instr { self.violation(&st, "nontermination", &format!("more than {} instructions on one path", self.cfg.max_instr), None); self.end_path(&st, "hang"); return; }
            self.steps_since_check += 1;
            if self.steps_since_check > 1_000 {
                self.steps_since_check = 0;
                if Instant::now() > self.cfg.deadline { self.rep.incomplete += 1; return; }
            }
            let tr = if self.trace { let f = st.frames.last().unwrap(); Some((st.frames.len(), f.func, f.block, f.ip, self.m.funcs[f.func as usize].blocks[f.block as usize].ins[f.ip as usize].dst)) } else { None };
            let r = self.step(&mut st);
            if let (Some((n, f, b, ip, d)), true) = (tr, r.is_ok()) { if d != NODST && st.frames.len() == n { let v = st.frames.last().unwrap().regs[d as usize].clone(); st.trace.push((n, f as usize, b as usize, ip as usize, v)); } }
            match r {
                Ok(true) => {}
                Ok(false) => { return; }
                Err(Term::Retry) => {}
                Err(Term::Kill) => { self.rep.killed += 1; return; }
                Err(Term::Violation(k, l)) => { 
                    if k == "panic" { if let Some(lbl) = st.expect_panic.clone() { self.rep.panics_expected += 1; *self.rep.covers.entry(format!("panic:{}", lbl)).or_insert(0) += 1; self.end_path(&st, "panic"); return; } }
                    self.violation(&st, &k, &l, None); self.rep.paths += 1; return; }
                Err(Term::Error(e)) => {
                    let wh = self.where_(&st);
                    let e = format!("{} @ {}", e, wh.first().cloned().unwrap_or_default());
                    if !self.rep.errors.contains(&e) { self.rep.errors.push(e); }
                    return;
                }
            }
        }
    }

    fn where_(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{}:{}:{}", self.m.funcs[f.func as usize].name, self.m.funcs[f.func as usize].blocks[f.block as usize].name, f.ip)).collect()
    }

    fn input_strings(&self, st: &State, m: &Model, reals: &[(u32, String)]) -> Vec<String> {
        st.inputs.iter().map(|&(v, w)| if w == 0 { format!("r:{}", reals.iter().find(|(k, _)| *k == v).map(|(_, s)| s.clone()).unwrap_or("0".into())) } else { format!("{}", m.vals.get(v as usize).copied().unwrap_or(0) & mask(w)) }).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, label: &str, model: Option<(&Model, &[(u32, String)])>) {
        if let Some(v) = self.rep.violations.iter_mut().find(|v| v.kind == kind && v.label == label) { v.count += 1; return; }
        let own;
        let (m, r): (&Model, &[(u32, String)]) = match model { Some(x) => x, None => { own = st.model.clone(); (&own, &st.reals) } };
        if !self.cfg.real && std::env::var("SYMEX_DEBUG").is_ok() { for &c in &st.pc { if m.eval(&self.p, c) != 1 { eprintln!("model does not satisfy pc: {}", c); } } }
        let inputs = self.input_strings(st, m, r);
        if self.trace { if std::env::var("SYMEX_DEBUG").is_ok() { for &c in &st.pc { println!("PC {}", self.p.show(c, 8)); } } println!("INPUTS {}", inputs.join(",")); self.dump_trace(st, m); self.trace = false; }
        let trace = self.where_(st);
        self.rep.violations.push(Violation { kind: kind.into(), label: label.into(), inputs, trace, count: 1 });
    }

    /// debugging aid: every register written on this path, under a model (SYMEX_TRACE)
    fn dump_trace(&self, st: &State, m: &Model) {
        for (n, f, b, ip, v) in &st.trace {
            let v = match v { Val::C(x) => x.to_string(), Val::E(e) => if self.p.i(*e).undef { "undef".into() } else { format!("{} {}", m.eval(&self.p, *e) as u64, if std::env::var("SYMEX_DEBUG").is_ok() { self.p.show(*e, 6) } else { String::new() }) }, Val::Agg(_) => "agg".into() };
            println!("{} {} {} {}: {}", n, self.m.funcs[*f as usize].name, self.m.funcs[*f as usize].blocks[*b as usize].name, ip, v);
        }
    }
    fn end_path(&mut self, st: &State, outcome: &str) {
        self.rep.paths += 1;
        self.rep.instrs += st.n_instr;
        for c in &st.covers { *self.rep.covers.entry(c.clone()).or_insert(0) += 1; }
        self.path_no += 1;
        if self.trace && std::env::var("SYMEX_CONC").is_ok() { self.dump_trace(st, &st.model); }
        if self.rep.samples.len() < self.cfg.max_samples && (self.path_no % self.cfg.sample_every == 1 || self.cfg.sample_every <= 1) {
            let inputs = self.input_strings(st, &st.model, &st.reals);
            let mut obs = vec![];
            for (l, v) in &st.obs {
                let s = match v { Val::C(x) => x.to_string(), Val::E(e) => { let mut mm = Default::default(); if self.p.has_real(*e, &mut mm) { "real".into() } else { (st.model.eval(&self.p, *e) as u64).to_string() } }, _ => "?".into() };
                obs.push(format!("{}={}", l, s));
            }
            self.rep.samples.push(Sample { inputs, obs, outcome: outcome.into() });
        }
    }

    // ---------- values ----------
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::E(e) if self.p.pinned != 0 && self.p.determined(*e) && { let w = self.p.w(*e); w > 0 && w <= 64 } => Val::C(self.p.pinned_value(*e) as u64),
                v => v.clone(),
            },
            Opd::K(v) => Val::C(*v),
            Opd::Pool(i) => self.cpool[*i as usize].clone(),
            Opd::C(_) => panic!("unresolved constant"),
        }
    }
    fn to_e(&mut self, v: &Val, w: u16) -> E {
        match v { Val::C(x) => self.p.cst(w, *x as u128), Val::E(e) => { debug_assert!(self.p.w(*e) == w || self.p.w(*e) == 0 || w == 0, "width {} vs {}", self.p.w(*e), w); *e } Val::Agg(_) => panic!("aggregate as scalar") }
    }
    fn from_e(&self, e: E) -> Val { match self.p.is_const(e) { Some(v) if self.p.w(e) <= 64 && self.p.w(e) > 0 => Val::C(v as u64), _ => Val::E(e) } }
    fn set(&self, st: &mut State, d: u32, v: Val) { if d != NODST { st.frames.last_mut().unwrap().regs[d as usize] = v; } }

    /// feasibility of pc /\ c
    fn feasible(&mut self, st: &State, c: E) -> (Sat, Option<(Rc<Model>, Rc<Vec<(u32, String)>>)>) {
        if let Some(v) = self.p.is_const(c) { return if v == 1 { (Sat::Sat, Some((st.model.clone(), st.reals.clone()))) } else { (Sat::Unsat, None) }; }
        if !self.cfg.real && st.model.eval(&self.p, c) == 1 { return (Sat::Sat, Some((st.model.clone(), st.reals.clone()))); }
        let (r, m, reals) = self.s.check(&self.p, &st.pc, &[c]);
        (r, m.map(|m| (Rc::new(m), Rc::new(reals))))
    }

    /// decides a condition; forks when both outcomes are feasible. Returns the outcome taken by `st`.
    fn branch(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(v) = self.p.is_const(c) { return Ok(v == 1); }
        { let x = self.p.i(c); if !x.undef && x.ulo == x.uhi { return Ok(x.ulo == 1); } }
        if self.p.i(c).undef { return Err(Term::Violation("uninit".into(), "control flow depends on uninitialised memory".into())); }
        let nc = self.p.not(c);
        for &e in st.pc.iter().rev() { if e == c { return Ok(true); } if e == nc { return Ok(false); } }
        let (take, other_c);
        let cur_c;
        if self.cfg.real {
            let (a, ma) = self.feasible(st, c);
            if a == Sat::Unsat { return Ok(false); }
            let (b, mb) = self.feasible(st, nc);
            if b == Sat::Unsat { return Ok(true); }
            if a == Sat::Unknown || b == Sat::Unknown { self.rep.errors.push(format!("solver returned unknown on a branch in {}", self.where_(st).first().cloned().unwrap_or_default())); }
            if a == Sat::Unknown && b == Sat::Unknown { return Err(Term::Kill); }
            if a == Sat::Unknown { { st.pc.push(nc); self.p.assume_fact(nc); }; let (m, r) = mb.unwrap(); st.model = m; st.reals = r; return Ok(false); }
            if b == Sat::Unknown { { st.pc.push(c); self.p.assume_fact(c); }; let (m, r) = ma.unwrap(); st.model = m; st.reals = r; return Ok(true); }
            let mut o = st.clone();
            o.pc.push(nc); let (m, r) = mb.unwrap(); o.model = m; o.reals = r;
            self.fork_other(o);
            { st.pc.push(c); self.p.assume_fact(c); }; let (m, r) = ma.unwrap(); st.model = m; st.reals = r;
            return Ok(true);
        }
        let v = st.model.eval(&self.p, c) == 1;
        if v { take = true; cur_c = c; other_c = nc; } else { take = false; cur_c = nc; other_c = c; }
        let (r, m) = self.feasible(st, other_c);
        match r {
            Sat::Unsat => { st.streak += 1; if st.streak >= 3 && st.pc.len() > st.pin_at { self.try_pin(st); } }
            Sat::Unknown => { self.rep.errors.push("solver returned unknown on a branch".into()); { st.pc.push(cur_c); self.p.assume_fact(cur_c); }; }
            Sat::Sat => {
                st.streak = 0;
                let mut o = st.clone();
                o.pc.push(other_c);
                let (m, r) = m.unwrap(); o.model = m; o.reals = r;
                self.fork_other(o);
                { st.pc.push(cur_c); self.p.assume_fact(cur_c); };
            }
        }
        Ok(take)
    }
    /// finds the variables that have a single value left on this path
    fn try_pin(&mut self, st: &mut State) {
        st.pin_at = st.pc.len(); st.streak = 0;
        let mut cand: Vec<(E, u128)> = vec![];
        for (k, &(id, w)) in st.inputs.clone().iter().enumerate() {
            if w == 0 || k >= 63 || self.p.pinned & self.p.input_bit(id) != 0 { continue; }
            let v = self.p.input(k, w).0;
            cand.push((v, st.model.eval(&self.p, v)));
        }
        while !cand.is_empty() {
            let mut c = self.p.fls();
            for &(v, x) in &cand { let w = self.p.w(v); let k = self.p.cst(w, x); let e = self.p.ne(v, k); c = self.p.or(c, e); }
            match self.feasible(st, c) {
                (Sat::Unsat, _) => { for (v, x) in cand { let w = self.p.w(v); let k = self.p.cst(w, x); let e = self.p.eq(v, k); if self.p.is_const(e).is_none() { st.pc.push(e); self.p.assume_fact(e); } } st.pin_at = st.pc.len(); return; }
                (Sat::Sat, Some((m, _))) => { let n = cand.len(); let p = &self.p; cand.retain(|&(v, x)| m.eval(p, v) == x); if cand.len() == n { return; } }
                _ => return,
            }
        }
    }
    /// the forked state re-executes the current instruction
    fn fork_other(&mut self, o: State) { self.rep.forks += 1; self.work.push(o); if self.work.len() > 1 { self.maybe_split_keep(); } }
    fn maybe_split_keep(&mut self) {
        // only the parent keeps executing the current state: a child process must drop it.
        // To keep this simple, splitting happens only between paths; see run().
    }

    fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        match self.p.is_const(c) { Some(1) => return Ok(()), Some(_) => { self.rep.assume_kills += 1; return Err(Term::Kill); }, None => {} }
        if st.pc.contains(&c) { return Ok(()); }
        let (r, m) = self.feasible(st, c);
        match r {
            Sat::Sat => { let (m, r) = m.unwrap(); st.model = m; st.reals = r; { st.pc.push(c); self.p.assume_fact(c); }; Ok(()) }
            Sat::Unsat => { self.rep.assume_kills += 1; Err(Term::Kill) }
            Sat::Unknown => Err(Term::Error("solver returned unknown on an assumption".into())),
        }
    }
    fn check(&mut self, st: &mut State, c: E, label: &str) -> X<()> {
        self.rep.checks += 1;
        *self.rep.check_labels.entry(label.to_string()).or_insert(0) += 1;
        match self.p.is_const(c) {
            Some(1) => return Ok(()),
            Some(_) => { return Err(Term::Violation("assert".into(), label.into())); }
            None => {}
        }
        if self.p.i(c).undef { return Err(Term::Violation("uninit".into(), format!("checked value depends on uninitialised memory: {}", label))); }
        if st.pc.contains(&c) { return Ok(()); }
        let nc = self.p.not(c);
        // equations between reals that follow by polynomial division from those of the path
        if self.cfg.real && self.alg.follows(&mut self.p, &st.pc, c) { self.alg.hits += 1; return Ok(()); }
        // always a solver decision (never only the cached model)
        let (mut r, mut m, mut reals) = self.s.check(&self.p, &st.pc, &[nc]);
        if r == Sat::Sat && self.cfg.real {
            // the solver's model may give one function two values at arguments that are equal
            let l = self.congruences(&st.pc, nc);
            if !l.is_empty() {
                let mut x = vec![nc]; x.extend(l);
                (r, m, reals) = self.s.check(&self.p, &st.pc, &x);
            }
        }
        match r {
            Sat::Unsat => Ok(()),
            Sat::Unknown => { self.rep.errors.push(format!("solver returned unknown on check {}", label)); Ok(()) }
            Sat::Sat => {
                let m = m.unwrap();
                self.violation(st, "assert", label, Some((&m, &reals)));
                // continue on the side where the assertion holds
                self.assume(st, c)
            }
        }
    }

    /// equal arguments have equal values, for every pair of applications of a function in the path and the condition
    fn congruences(&mut self, pc: &[E], c: E) -> Vec<E> {
        let (mut seen, mut fs) = (std::collections::HashSet::<E>::new(), vec![]);
        let mut stack = pc.to_vec(); stack.push(c);
        while let Some(e) = stack.pop() {
            if !seen.insert(e) { continue; }
            let n = self.p.n(e);
            if n.op == Op::RFun && n.imm != 5 { fs.push((n.imm, n.a, e)); }
            for x in [n.a, n.b, n.c] { if x != crate::expr::NONE { stack.push(x); } }
        }
        fs.sort();
        let mut out = vec![];
        for i in 0..fs.len() { for j in 0..i {
            if fs[i].0 != fs[j].0 { continue; }
            let same = self.rcmp(Op::REq, fs[i].1, fs[j].1);
            if self.p.is_const(same) == Some(0) { continue; }
            let n = self.p.not(same);
            let v = self.p.req(fs[i].2, fs[j].2);
            let l = self.p.or(n, v);
            if self.p.is_const(l) != Some(1) { out.push(l); }
        } }
        out
    }
    /// picks one concrete value for e on this path and forks the rest
    fn concretize(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(v) = self.p.is_const(e) { return Ok(v as u64); }
        if self.p.w(e) > 0 && self.p.determined(e) { return Ok(self.p.pinned_value(e) as u64); }
        if self.p.i(e).undef { return Err(Term::Violation("uninit".into(), "address or size depends on uninitialised memory".into())); }
        if self.p.w(e) == 0 { return Err(Term::Error("concretization of a real".into())); }
        let mut mm = Default::default();
        if self.p.has_real(e, &mut mm) {
            // case split over the structure: force all inner conditions through branches
            let c = self.first_real_cond(e);
            if let Some(c) = c { self.branch(st, c)?; return self.concretize_after(st, e); }
            return Err(Term::Error("concretization of a value over reals".into()));
        }
        self.rep.concretizations += 1;
        let v = st.model.eval(&self.p, e);
        let w = self.p.w(e);
        let k = self.p.cst(w, v);
        let c = self.p.eq(e, k);
        let nc = self.p.not(c);
        let (r, m) = self.feasible(st, nc);
        match r {
            Sat::Unsat => {}
            Sat::Unknown => return Err(Term::Error("solver returned unknown on a concretization".into())),
            Sat::Sat => {
                let mut o = st.clone();
                o.pc.push(nc);
                let (m, r) = m.unwrap(); o.model = m; o.reals = r;
                self.fork_other(o);
                { st.pc.push(c); self.p.assume_fact(c); };
            }
        }
        Ok(v as u64)
    }
    fn first_real_cond(&self, e: E) -> Option<E> {
        let n = self.p.n(e);
        if n.op == Op::Ite { return Some(n.a); }
        for x in [n.a, n.b, n.c] { if x != u32::MAX { if let Some(c) = self.first_real_cond(x) { return Some(c); } } }
        if matches!(n.op, Op::RLt | Op::RLe | Op::REq) { return Some(e); }
        None
    }
    fn concretize_after(&mut self, st: &mut State, e: E) -> X<u64> {
        // substitute decided conditions and retry
        let e2 = self.subst_known(st, e, &mut Default::default());
        if let Some(v) = self.p.is_const(e2) { return Ok(v as u64); }
        if e2 == e { return Err(Term::Error("cannot concretize a value over reals".into())); }
        self.concretize(st, e2)
    }
    fn subst_known(&mut self, st: &State, e: E, memo: &mut FxMap<E, E>) -> E {
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.p.n(e);
        if n.w == 1 && n.op != Op::Const {
            let ne = self.p.not(e);
            for &c in &st.pc { if c == e { return self.p.tru(); } if c == ne { return self.p.fls(); } }
        }
        let r = match n.op {
            Op::Ite => { let c = self.subst_known(st, n.a, memo); let a = self.subst_known(st, n.b, memo); let b = self.subst_known(st, n.c, memo); self.p.ite(c, a, b) }
            Op::ZExt => { let a = self.subst_known(st, n.a, memo); self.p.zext(a, n.w) }
            Op::SExt => { let a = self.subst_known(st, n.a, memo); self.p.sext(a, n.w) }
            Op::Extract => { let a = self.subst_known(st, n.a, memo); self.p.extract(a, n.imm as u16, n.w) }
            Op::Concat => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.concat(a, b) }
            Op::Add => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.add(a, b) }
            Op::Sub => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.sub(a, b) }
            Op::And => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.and(a, b) }
            Op::Or => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.or(a, b) }
            Op::Xor => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.xor(a, b) }
            Op::Not => { let a = self.subst_known(st, n.a, memo); self.p.not(a) }
            Op::Eq => { let a = self.subst_known(st, n.a, memo); let b = self.subst_known(st, n.b, memo); self.p.eq(a, b) }
            _ => e,
        };
        memo.insert(e, r);
        r
    }
    fn conc_val(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v { Val::C(x) => Ok(*x), Val::E(e) => self.concretize(st, *e), Val::Agg(_) => Err(Term::Error("aggregate where scalar expected".into())) }
    }
    fn conc_opd(&mut self, st: &mut State, o: &Opd) -> X<u64> {
        let v = self.get(st, o);
        let k = self.conc_val(st, &v)?;
        if let (Opd::Reg(r), Val::E(_)) = (o, &v) { st.frames.last_mut().unwrap().regs[*r as usize] = Val::C(k); }
        Ok(k)
    }

    /// over-approximates the values of e from its structure, without the solver
    fn enum_vals(&self, e: E, limit: usize, fuel: &mut u32) -> Option<Vec<u128>> {
        if *fuel == 0 { return None; }
        *fuel -= 1;
        let n = self.p.n(e);
        if n.w == 0 { return None; }
        let mk = mask(n.w);
        let fin = |mut v: Vec<u128>| -> Option<Vec<u128>> { v.sort(); v.dedup(); if v.len() > limit { None } else { Some(v) } };
        match n.op {
            Op::Const => Some(vec![n.imm]),
            Op::Var => if n.w < 8 && (1usize << n.w) <= limit { Some((0..1u128 << n.w).collect()) } else { None },
            Op::Ite => { let mut a = self.enum_vals(n.b, limit, fuel)?; a.extend(self.enum_vals(n.c, limit, fuel)?); fin(a) }
            Op::ZExt => self.enum_vals(n.a, limit, fuel),
            Op::SExt => { let w = self.p.w(n.a); fin(self.enum_vals(n.a, limit, fuel)?.into_iter().map(|v| if v >> (w - 1) & 1 == 1 { (v | !mask(w)) & mk } else { v }).collect()) }
            Op::Not => fin(self.enum_vals(n.a, limit, fuel)?.into_iter().map(|v| !v & mk).collect()),
            Op::Extract => fin(self.enum_vals(n.a, limit, fuel)?.into_iter().map(|v| (v >> n.imm) & mk).collect()),
            Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::And | Op::Or | Op::Concat => {
                let a = self.enum_vals(n.a, limit, fuel)?; let b = self.enum_vals(n.b, limit, fuel)?;
                if a.len() * b.len() > 4 * limit { return None; }
                let wb = self.p.w(n.b);
                let mut o = vec![];
                for &x in &a { for &y in &b { o.push(match n.op {
                    Op::Add => x.wrapping_add(y) & mk, Op::Sub => x.wrapping_sub(y) & mk, Op::Mul => x.wrapping_mul(y) & mk,
                    Op::Shl => if y >= n.w as u128 { 0 } else { (x << y) & mk }, Op::And => x & y, Op::Or => x | y,
                    _ => (x << wb) | y }); } }
                fin(o)
            }
            _ => None,
        }
    }
    /// candidate addresses for an access of `size` bytes (a superset of the feasible ones, all of them valid accesses), or None
    fn addresses(&mut self, st: &State, e: E, limit: usize, size: u64) -> X<Option<Vec<u64>>> {
        let mut fuel = 400;
        if let Some(v) = self.enum_vals(e, limit.max(64), &mut fuel) {
            let (good, bad): (Vec<u128>, Vec<u128>) = v.into_iter().partition(|&x| st.mem.check(x as u64, size).is_ok());
            if good.len() <= limit && !good.is_empty() {
                let mut ok = true;
                if !bad.is_empty() {
                    let w = self.p.w(e);
                    let mut any = self.p.fls();
                    for &x in &bad { let k = self.p.cst(w, x); let q = self.p.eq(e, k); any = self.p.or(any, q); }
                    ok = matches!(self.feasible(st, any).0, Sat::Unsat);
                }
                if ok { return Ok(Some(good.into_iter().map(|x| x as u64).collect())); }
            }
        }
        self.candidates(st, e, limit)
    }

    /// the feasible values of e under pc, or None when there are more than `limit`
    fn candidates(&mut self, st: &State, e: E, limit: usize) -> X<Option<Vec<u64>>> {
        let w = self.p.w(e);
        let mut out = vec![];
        let mut extra = vec![];
        let v = st.model.eval(&self.p, e);
        out.push(v as u64);
        let k = self.p.cst(w, v); let q = self.p.ne(e, k); extra.push(q);
        loop {
            let (r, m, _) = self.s.check(&self.p, &st.pc, &extra);
            match r {
                Sat::Unsat => { out.sort(); return Ok(Some(out)); }
                Sat::Unknown => return Err(Term::Error("solver returned unknown on an address".into())),
                Sat::Sat => {
                    if out.len() >= limit { return Ok(None); }
                    let v = m.unwrap().eval(&self.p, e);
                    out.push(v as u64);
                    let k = self.p.cst(w, v); let q = self.p.ne(e, k); extra.push(q);
                }
            }
        }
    }

    fn load_scalar(&mut self, st: &mut State, addr: u64, t: &Ty) -> X<Val> {
        let n = t.store_size();
        let v = st.mem.load(&mut self.p, addr, n)?;
        if let Ty::Int(w) = t {
            if (*w as u64) < n * 8 {
                return Ok(match v { Val::C(x) => Val::C(x & mask(*w) as u64), Val::E(e) => { let r = self.p.extract(e, 0, *w); self.from_e(r) } a => a });
            }
        }
        Ok(v)
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, t: &Ty) -> X<Val> {
        if t.is_agg() {
            let mut v = vec![];
            for i in 0..t.n_elems() {
                let (o, et) = t.field_offset(i as u64);
                if let (Ty::Vec(..), Ty::Int(w)) = (t, &et) { if w % 8 != 0 { return Err(Term::Error("load of a bit vector".into())); } }
                v.push(self.load_ty(st, addr + o, &et)?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        self.load_scalar(st, addr, t)
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> X<()> {
        if t.is_agg() {
            if let Val::Agg(a) = v {
                for i in 0..t.n_elems() { let (o, et) = t.field_offset(i as u64); self.store_ty(st, addr + o, &et, &a[i])?; }
                return Ok(());
            }
            return Err(Term::Error("aggregate store of scalar".into()));
        }
        st.mem.store(&mut self.p, addr, t.store_size(), v)?;
        Ok(())
    }

    fn sym_load(&mut self, st: &mut State, a: &Opd, e: E, t: &Ty) -> X<Val> {
        if self.p.i(e).undef { return Err(Term::Violation("uninit".into(), "address depends on uninitialised memory".into())); }
        let mut mm = Default::default();
        let real = self.p.has_real(e, &mut mm);
        if !t.is_agg() && self.cfg.ite_limit > 1 && !real {
            if let Some(c) = self.addresses(st, e, self.cfg.ite_limit, t.store_size())? {
                // every candidate must be a valid access, otherwise fork to report it precisely
                if c.iter().all(|&x| st.mem.check(x, t.store_size()).is_ok()) {
                    self.rep.ite_access += 1;
                    let w = if t.is_float() { 0 } else { t.bits() };
                    let mut vals = vec![];
                    let mut c = c.clone();
                    for &x in &c { vals.push(self.load_scalar(st, x, t)?); }
                    // an uninitialised cell counts only if the address can be that cell; then the access forks
                    let mut k = 0;
                    let mut fork = false;
                    while k < c.len() {
                        if let Val::E(v) = vals[k] { if self.p.i(v).undef {
                            let q = self.p.cst(64, c[k] as u128); let q = self.p.eq(e, q);
                            if self.feasible(st, q).0 == Sat::Unsat { c.remove(k); vals.remove(k); continue; }
                            fork = true;
                        } }
                        k += 1;
                    }
                    if fork || c.is_empty() { let addr = self.conc_opd(st, a)?; return self.load_ty(st, addr, t); }
                    if t.is_float() {
                        let anyr = vals.iter().any(|v| matches!(v, Val::E(_)));
                        let es: Vec<E> = vals.iter().map(|v| self.real_of(v)).collect::<X<Vec<_>>>()?;
                        let _ = anyr;
                        let mut acc = es[0];
                        for (i, &x) in c.iter().enumerate().skip(1) { let k = self.p.cst(64, x as u128); let q = self.p.eq(e, k); acc = self.p.ite(q, es[i], acc); }
                        return Ok(Val::E(acc));
                    }
                    let es: Vec<E> = vals.iter().map(|v| self.to_e(v, w)).collect();
                    let mut acc = es[0];
                    for (i, &x) in c.iter().enumerate().skip(1) { let k = self.p.cst(64, x as u128); let q = self.p.eq(e, k); acc = self.p.ite(q, es[i], acc); }
                    return Ok(self.from_e(acc));
                }
            }
        }
        let addr = self.conc_opd(st, a)?;
        self.load_ty(st, addr, t)
    }
    fn sym_store(&mut self, st: &mut State, a: &Opd, e: E, t: &Ty, v: &Val) -> X<()> {
        if self.p.i(e).undef { return Err(Term::Violation("uninit".into(), "address depends on uninitialised memory".into())); }
        let mut mm = Default::default();
        let real = self.p.has_real(e, &mut mm);
        if !t.is_agg() && !t.is_float() && self.cfg.ite_limit > 1 && !real {
            if let Some(c) = self.addresses(st, e, self.cfg.ite_limit, t.store_size())? {
                let n = t.store_size();
                if c.iter().all(|&x| st.mem.check(x, n).is_ok()) && c.windows(2).all(|w| w[1] - w[0] >= n) {
                    self.rep.ite_access += 1;
                    let w = t.bits();
                    let ve = self.to_e(v, w);
                    for &x in &c {
                        let old = self.load_scalar(st, x, t)?;
                        let oe = self.to_e(&old, w);
                        let k = self.p.cst(64, x as u128); let q = self.p.eq(e, k);
                        let nv = self.p.ite(q, ve, oe);
                        let nv = self.from_e(nv);
                        st.mem.store(&mut self.p, x, n, &nv)?;
                    }
                    return Ok(());
                }
            }
        }
        let addr = self.conc_opd(st, a)?;
        self.store_ty(st, addr, t, v)
    }

    // ---------- floats ----------
    fn real_of(&mut self, v: &Val) -> X<E> {
        match v {
            Val::C(b) => self.real_const(f64c(*b)),
            Val::E(e) => if self.p.w(*e) == 0 { Ok(*e) } else { Err(Term::Error("symbolic bits used as a float".into())) },
            _ => Err(Term::Error("aggregate float".into())),
        }
    }
    fn real_const(&mut self, f: f64) -> X<E> {
        if !f.is_finite() { return Err(Term::Error(format!("non-finite float {} in real mode", f))); }
        // exact dyadic
        let (mut m, mut e) = { let b = f.to_bits(); let ex = ((b >> 52) & 0x7ff) as i32; let fr = b & ((1 << 52) - 1); if ex == 0 { (fr as i128, -1074) } else { ((fr | 1 << 52) as i128, ex - 1075) } };
        if f < 0.0 { m = -m; }
        if m == 0 { return Ok(self.p.rconst(0, 1)); }
        while m % 2 == 0 { m /= 2; e += 1; }
        if e >= 0 { if e > 60 { return Err(Term::Error("float constant too large for real mode".into())); } m <<= e; if m.abs() > i64::MAX as i128 { return Err(Term::Error("float constant too large for real mode".into())); } Ok(self.p.rconst(m, 1)) }
        else if e >= -62 { Ok(self.p.rconst(m, 1i128 << (-e))) }
        else {
            // tiny constants (tolerances): product of exact factors
            let mut r = self.p.rconst(m, 1i128 << 62); let mut k = -e - 62;
            while k > 0 { let s = k.min(62); let d = self.p.rconst(1, 1i128 << s); r = self.p.rmul(r, d); k -= s; }
            Ok(r)
        }
    }
    fn fbin(&mut self, op: BinOp, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *t == Ty::F32 {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, _ => x % y };
                return Ok(Val::C(r.to_bits() as u64));
            }
            let (x, y) = (f64c(*x), f64c(*y));
            let r = match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, _ => x % y };
            if !self.cfg.real || !r.is_finite() || op == BinOp::FRem { return Ok(Val::C(r.to_bits())); }
            // exact in real mode
            let (ex, ey) = (self.real_const(x)?, self.real_const(y)?);
            let er = self.rbin(op, ex, ey);
            let rr = self.real_const(r)?;
            return Ok(if er == rr { Val::C(r.to_bits()) } else { Val::E(er) });
        }
        // neutral elements with exact semantics
        let (ea, eb) = (self.real_of(a)?, self.real_of(b)?);
        if op == BinOp::FRem { return Err(Term::Error("frem on symbolic reals".into())); }
        let e = self.rbin(op, ea, eb);
        Ok(self.real_val(e))
    }
    fn real_val(&self, e: E) -> Val {
        if let Some((n, d)) = self.p.rval(e) { if n.abs() < (1 << 53) && (d as u128).is_power_of_two() && d < (1 << 60) { return Val::C(((n as f64) / (d as f64)).to_bits()); } }
        Val::E(e)
    }
    fn rbin(&mut self, op: BinOp, a: E, b: E) -> E { match op { BinOp::FAdd => self.p.radd(a, b), BinOp::FSub => self.p.rsub(a, b), BinOp::FMul => self.p.rmul(a, b), _ => self.p.rdiv(a, b) } }
    /// a square, or built from squares by sums, products and quotients
    fn square(&self, e: E) -> bool {
        if let Some((n, _)) = self.p.rval(e) { return n >= 0; }
        let n = self.p.n(e);
        match n.op {
            Op::RMul => n.a == n.b || self.square(n.a) && self.square(n.b),
            Op::RAdd | Op::RDiv => self.square(n.a) && self.square(n.b),
            Op::RFun => n.imm == 5,
            _ => false
        }
    }
    fn rcmp(&mut self, op: Op, a: E, b: E) -> E {
        // square roots are ordered like their arguments
        let (x, y) = (self.p.n(a), self.p.n(b));
        if x.op == Op::RFun && y.op == Op::RFun && x.imm == 5 && y.imm == 5 { return self.rcmp(op, x.a, y.a); }
        if let Some(e) = self.alg.compare(&mut self.p, op, a, b) { return e; }
        match op { Op::REq => self.p.req(a, b), Op::RLt => self.p.rlt(a, b), _ => self.p.rle(a, b) }
    }
    fn fcmp(&mut self, c: &str, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if *t == Ty::F32 { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) } else { (f64c(*x), f64c(*y)) };
            let un = x.is_nan() || y.is_nan();
            let r = match c { "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un, "uno" => un,
                "ueq" => un || x == y, "une" => x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, "true" => true, "false" => false, _ => return Err(Term::Error(format!("fcmp {}", c))) };
            return Ok(Val::C(r as u64));
        }
        // comparison of a finite real with an infinite constant
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let (Val::E(_), Val::C(k)) = (x, y) {
                let f = f64c(*k);
                if f.is_nan() { return Ok(Val::C((c == "uno" || c.starts_with('u')) as u64)); }
                if f.is_infinite() {
                    let lt = (f > 0.0) != sw; // x < y in operand order
                    let r = match &c[1..] { "eq" => false, "ne" => true, "lt" | "le" => lt, "gt" | "ge" => !lt, "rd" => true, _ => false };
                    return Ok(Val::C(r as u64));
                }
            }
        }
        if c == "ord" { return Ok(Val::C(1)); }
        if c == "uno" { return Ok(Val::C(0)); }
        let (ea, eb) = (self.real_of(a)?, self.real_of(b)?);
        let e = match &c[1..] { "eq" => self.rcmp(Op::REq, ea, eb), "ne" => { let x = self.rcmp(Op::REq, ea, eb); self.p.not(x) } "lt" => self.rcmp(Op::RLt, ea, eb), "le" => self.rcmp(Op::RLe, ea, eb), "gt" => self.rcmp(Op::RLt, eb, ea), "ge" => self.rcmp(Op::RLe, eb, ea), _ => return Err(Term::Error(format!("fcmp {}", c))) };
        Ok(self.from_e(e))
    }

    // ---------- scalar operations ----------
    fn binop(&mut self, op: BinOp, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let Ty::Vec(n, et) = t {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut v = vec![]; for i in 0..*n as usize { v.push(self.binop(op, et, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); }
            return Err(Term::Error("vector op".into()));
        }
        if t.is_float() { return self.fbin(op, t, a, b); }
        let w = t.bits();
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let m = mask(w) as u64;
                let (x, y) = (*x, *y);
                let sxx = |v: u64| -> i64 { if w == 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Term::Violation("ub".into(), "division by zero executed".into())),
                    BinOp::UDiv => x / y, BinOp::URem => x % y,
                    BinOp::SDiv => sxx(x).wrapping_div(sxx(y)) as u64, BinOp::SRem => sxx(x).wrapping_rem(sxx(y)) as u64,
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (sxx(x) >> y.min(w as u64 - 1)) as u64,
                    _ => unreachable!(),
                };
                return Ok(Val::C(r & m));
            }
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        if self.p.w(ea) == 0 || self.p.w(eb) == 0 {
            // integer operation on the bits of a real: only sign manipulation is supported
            if let (BinOp::And, Some(k)) = (op, self.p.is_const(eb)) { if k == 0x7fff_ffff_ffff_ffff { let z = self.p.rconst(0, 1); let c = self.p.rlt(ea, z); let n = self.p.rneg(ea); return Ok(Val::E(self.p.ite(c, n, ea))); } }
            if let (BinOp::Xor, Some(k)) = (op, self.p.is_const(eb)) { if k == 0x8000_0000_0000_0000 { return Ok(Val::E(self.p.rneg(ea))); } }
            return Err(Term::Error("integer operation on the bits of a symbolic real".into()));
        }
        let p = &mut self.p;
        let e = match op {
            BinOp::Add => p.add(ea, eb), BinOp::Sub => p.sub(ea, eb), BinOp::Mul => p.mul(ea, eb),
            BinOp::UDiv => p.udiv(ea, eb), BinOp::URem => p.urem(ea, eb), BinOp::SDiv => p.sdiv(ea, eb), BinOp::SRem => p.srem(ea, eb),
            BinOp::And => p.and(ea, eb), BinOp::Or => p.or(ea, eb), BinOp::Xor => p.xor(ea, eb),
            BinOp::Shl => p.shl(ea, eb), BinOp::LShr => p.lshr(ea, eb), BinOp::AShr => p.ashr(ea, eb),
            _ => unreachable!(),
        };
        Ok(self.from_e(e))
    }
    fn icmp(&mut self, c: Cmp, t: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let Ty::Vec(n, et) = t {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut v = vec![]; for i in 0..*n as usize { v.push(self.icmp(c, et, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); }
            return Err(Term::Error("vector icmp".into()));
        }
        let w = t.bits();
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let s = |v: u64| -> i64 { if w == 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
                let r = match c { Cmp::Eq => x == y, Cmp::Ne => x != y, Cmp::Ugt => x > y, Cmp::Uge => x >= y, Cmp::Ult => x < y, Cmp::Ule => x <= y, Cmp::Sgt => s(x) > s(y), Cmp::Sge => s(x) >= s(y), Cmp::Slt => s(x) < s(y), Cmp::Sle => s(x) <= s(y) };
                return Ok(Val::C(r as u64));
            }
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        if self.p.w(ea) == 0 || self.p.w(eb) == 0 {
            if let Some(k) = self.p.is_const(eb) {
                let z = self.p.rconst(0, 1);
                match c {
                    Cmp::Slt if k == 0 => { let e = self.p.rlt(ea, z); return Ok(self.from_e(e)); }
                    Cmp::Sgt if k == u64::MAX as u128 => { let e = self.p.rle(z, ea); return Ok(self.from_e(e)); }
                    Cmp::Eq | Cmp::Ne if k == 0 => { let mut e = self.p.req(ea, z); if c == Cmp::Ne { e = self.p.not(e); } return Ok(self.from_e(e)); }
                    _ => {}
                }
            }
            return Err(Term::Error("integer comparison on the bits of a symbolic real".into()));
        }
        let p = &mut self.p;
        let e = match c {
            Cmp::Eq => p.eq(ea, eb), Cmp::Ne => p.ne(ea, eb), Cmp::Ugt => p.ult(eb, ea), Cmp::Uge => p.ule(eb, ea), Cmp::Ult => p.ult(ea, eb), Cmp::Ule => p.ule(ea, eb),
            Cmp::Sgt => p.slt(eb, ea), Cmp::Sge => p.sle(eb, ea), Cmp::Slt => p.slt(ea, eb), Cmp::Sle => p.sle(ea, eb),
        };
        Ok(self.from_e(e))
    }
    fn cast(&mut self, op: CastOp, t: &Ty, v: &Val, d: &Ty) -> X<Val> {
        if let (Ty::Vec(n, et), Ty::Vec(_, dt)) = (t, d) {
            if op != CastOp::BitCast {
                if let Val::Agg(x) = v { let mut o = vec![]; for i in 0..*n as usize { o.push(self.cast(op, et, &x[i], dt)?); } return Ok(Val::Agg(Rc::new(o))); }
            }
        }
        match op {
            CastOp::ZExt | CastOp::SExt | CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr => {
                let (w, dw) = (t.bits(), d.bits());
                if dw <= 64 {
                    if let Val::C(x) = v {
                        let s = if w >= 64 { *x as i64 } else { ((*x << (64 - w)) as i64) >> (64 - w) };
                        return Ok(Val::C(match op { CastOp::SExt => s as u64 & mask(dw) as u64, _ => *x & mask(dw) as u64 }));
                    }
                }
                let e = self.to_e(v, w);
                if self.p.w(e) == 0 { return if w == dw { Ok(v.clone()) } else { Err(Term::Error("cast of the bits of a symbolic real".into())) }; }
                let r = if dw < w { self.p.extract(e, 0, dw) } else if op == CastOp::SExt { self.p.sext(e, dw) } else { self.p.zext(e, dw) };
                Ok(self.from_e(r))
            }
            CastOp::BitCast => {
                if !t.is_agg() && !d.is_agg() { return Ok(v.clone()); }
                // flatten to an integer, then split
                let flat = self.flatten(t, v)?;
                self.unflatten(d, flat)
            }
            CastOp::SIToFP | CastOp::UIToFP => {
                let w = t.bits();
                if let Val::C(x) = v {
                    let s = if w >= 64 { *x as i64 } else { ((*x << (64 - w)) as i64) >> (64 - w) };
                    if *d == Ty::F32 { return Ok(Val::C((if op == CastOp::SIToFP { s as f32 } else { *x as f32 }).to_bits() as u64)); }
                    return Ok(Val::C((if op == CastOp::SIToFP { s as f64 } else { *x as f64 }).to_bits()));
                }
                let e = self.to_e(v, w);
                let r = self.p.stor(e, op == CastOp::SIToFP);
                Ok(Val::E(r))
            }
            CastOp::FPToSI | CastOp::FPToUI => {
                let dw = d.bits();
                if let Val::C(x) = v {
                    let f = if *t == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64c(*x) };
                    return Ok(Val::C((if op == CastOp::FPToSI { f as i64 as u64 } else { f as u64 }) & mask(dw) as u64));
                }
                Err(Term::Error("float to integer cast of a symbolic real".into()))
            }
            CastOp::FPExt => match v { Val::C(x) => Ok(Val::C((f32::from_bits(*x as u32) as f64).to_bits())), _ => Ok(v.clone()) },
            CastOp::FPTrunc => match v { Val::C(x) => Ok(Val::C((f64c(*x) as f32).to_bits() as u64)), _ => Ok(v.clone()) },
        }
    }
    fn flatten(&mut self, t: &Ty, v: &Val) -> X<E> {
        if !t.is_agg() { return Ok(self.to_e(v, t.bits())); }
        let mut acc: Option<E> = None;
        if let Val::Agg(a) = v {
            for i in (0..t.n_elems()).rev() { let et = t.elem(i); let e = self.flatten(&et, &a[i])?; acc = Some(match acc { None => e, Some(h) => { if self.p.w(h) + self.p.w(e) > 128 { return Err(Term::Error("vector wider than 128 bits".into())); } self.p.concat(h, e) } }); }
        }
        acc.ok_or(Term::Error("flatten".into()))
    }
    fn unflatten(&mut self, t: &Ty, e: E) -> X<Val> {
        if !t.is_agg() { return Ok(self.from_e(e)); }
        let mut v = vec![]; let mut o = 0;
        for i in 0..t.n_elems() { let et = t.elem(i); let w = et.bits(); let x = self.p.extract(e, o, w); v.push(self.unflatten(&et, x)?); o += w; }
        Ok(Val::Agg(Rc::new(v)))
    }
    fn select(&mut self, st: &mut State, t: &Ty, c: &Val, a: &Val, b: &Val) -> X<Val> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::Agg(cs) => {
                if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut v = vec![]; for i in 0..cs.len() { let et = t.elem(i); v.push(self.select(st, &et, &cs[i], &x[i], &y[i])?); } Ok(Val::Agg(Rc::new(v))) } else { Err(Term::Error("vector select".into())) }
            }
            Val::E(ce) => {
                if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                    let mut v = vec![];
                    for i in 0..x.len() { let et = t.elem(i); v.push(self.select(st, &et, c, &x[i], &y[i])?); }
                    return Ok(Val::Agg(Rc::new(v)));
                }
                if t.is_float() {
                    let fin = |v: &Val| match v { Val::C(b) => f64c(*b).is_finite(), _ => true };
                    if !fin(a) || !fin(b) || !self.cfg.real { let r = self.branch(st, *ce)?; return Ok(if r { a.clone() } else { b.clone() }); }
                    let (x, y) = (self.real_of(a)?, self.real_of(b)?); return Ok(Val::E(self.p.ite(*ce, x, y)));
                }
                if *t == Ty::Ptr {
                    // pointers: keep the two alternatives apart
                    let r = self.branch(st, *ce)?;
                    return Ok(if r { a.clone() } else { b.clone() });
                }
                let w = t.bits();
                let isr = |v: &Val, p: &Pool| matches!(v, Val::E(e) if p.w(*e) == 0);
                if isr(a, &self.p) || isr(b, &self.p) { let r = self.branch(st, *ce)?; return Ok(if r { a.clone() } else { b.clone() }); }
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let e = self.p.ite(*ce, x, y);
                Ok(self.from_e(e))
            }
        }
    }

    // ---------- main step ----------
    /// Ok(true): continue with this state; Ok(false): the path has ended normally
    fn step(&mut self, st: &mut State) -> X<bool> {
        let m: &'m Module = self.m;
        let (fi, bi, ip) = { let f = st.frames.last().unwrap(); (f.func as usize, f.block as usize, f.ip as usize) };
        let ins: &'m Instr = &m.funcs[fi].blocks[bi].ins[ip];
        st.n_instr += 1;
        let d = ins.dst;
        match &ins.i {
            I::Bin(op, t, a, b) => { let x = self.get(st, a); let y = self.get(st, b);
                if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) { if let Val::E(e) = &y { if !self.p.i(*e).undef && self.p.w(*e) > 0 {
                    // the compiler guarantees a non-zero divisor; make that explicit for the solver-side semantics
                    let z = self.p.cst(t.bits(), 0); let c = self.p.ne(*e, z); if self.p.is_const(c).is_none() { let r = self.branch(st, c)?; if !r { return Err(Term::Violation("ub".into(), "division by zero executed".into())); } } } } }
                if *op == BinOp::FDiv && self.cfg.real {
                    // a divisor that can be zero is a path of its own, on which the quotient is unknown
                    let ys: Vec<Val> = match &y { Val::Agg(v) => v.to_vec(), v => vec![v.clone()] };
                    let mut zero = vec![];
                    for y in &ys { zero.push(if let Val::E(e) = y { let z = self.p.rconst(0, 1); let c = self.rcmp(Op::REq, *e, z); self.branch(st, c)? } else { false }); }
                    if zero.contains(&true) {
                        if zero.len() > 1 { return Err(Term::Error("vector division by zero".into())); }
                        let e = self.real_of(&x)?; let v = Val::E(self.p.rfun(90, e)); self.set(st, d, v); return { st.frames.last_mut().unwrap().ip += 1; Ok(true) };
                    }
                }
                let v = self.binop(*op, t, &x, &y)?; self.set(st, d, v); }
            I::ICmp(c, t, a, b) => { let x = self.get(st, a); let y = self.get(st, b); let v = self.icmp(*c, t, &x, &y)?; self.set(st, d, v); }
            I::FCmp(c, t, a, b) => { let x = self.get(st, a); let y = self.get(st, b);
                if let Ty::Vec(n, et) = t { if let (Val::Agg(p), Val::Agg(q)) = (&x, &y) { let mut v = vec![]; for i in 0..*n as usize { v.push(self.fcmp(c, et, &p[i], &q[i])?); } self.set(st, d, Val::Agg(Rc::new(v))); } }
                else { let v = self.fcmp(c, t, &x, &y)?; self.set(st, d, v); } }
            I::FNeg(t, a) => { let x = self.get(st, a); let v = match x { Val::C(b) => if *t == Ty::F32 { Val::C((-f32::from_bits(b as u32)).to_bits() as u64) } else { Val::C((-f64c(b)).to_bits()) }, Val::E(e) => Val::E(self.p.rneg(e)), Val::Agg(a) => { let mut v = vec![]; for x in a.iter() { v.push(match x { Val::C(b) => Val::C((-f64c(*b)).to_bits()), Val::E(e) => Val::E(self.p.rneg(*e)), _ => return Err(Term::Error("fneg".into())) }); } Val::Agg(Rc::new(v)) } }; self.set(st, d, v); }
            I::Cast(op, t, a, dt) => { let x = self.get(st, a); let v = self.cast(*op, t, &x, dt)?; self.set(st, d, v); }
            I::Select(_, t, c, a, b) => { let c = self.get(st, c); let x = self.get(st, a); let y = self.get(st, b); let v = self.select(st, t, &c, &x, &y)?; self.set(st, d, v); }
            I::Alloca(sz, n) => { let n = self.conc_opd(st, n)?; let a = st.mem.alloc(sz * n, true, false)?; st.frames.last_mut().unwrap().allocas.push(a); self.set(st, d, Val::C(a)); }
            I::Load(t, a) => {
                let av = self.get(st, a);
                let v = match av { Val::C(x) => self.load_ty(st, x, t)?, Val::E(e) => self.sym_load(st, a, e, t)?, _ => return Err(Term::Error("load".into())) };
                self.set(st, d, v);
            }
            I::Store(t, v, a) => {
                let av = self.get(st, a); let vv = self.get(st, v);
                match av { Val::C(x) => self.store_ty(st, x, t, &vv)?, Val::E(e) => self.sym_store(st, a, e, t, &vv)?, _ => return Err(Term::Error("store".into())) }
            }
            I::Gep(b, off, dynx) => {
                let bv = self.get(st, b);
                let mut all = true; let mut acc = *off;
                if let Val::C(x) = &bv { acc = acc.wrapping_add(*x); } else { all = false; }
                let mut vs: Vec<(u64, u16, Val)> = vec![];
                for (s, w, o) in dynx { let v = self.get(st, o); if let Val::C(x) = &v { let x = sx(*x as u128, *w) as i64 as u64; acc = acc.wrapping_add(s.wrapping_mul(x)); } else { all = false; vs.push((*s, *w, v)); } }
                if all { self.set(st, d, Val::C(acc)); }
                else {
                    let mut e = self.p.cst(64, acc as u128);
                    if let Val::E(x) = &bv { e = self.p.add(e, *x); }
                    for (s, w, v) in vs { if let Val::E(x) = v { let x = if w < 64 { self.p.sext(x, 64) } else { x }; let k = self.p.cst(64, s as u128); let y = self.p.mul(x, k); e = self.p.add(e, y); } }
                    let v = self.from_e(e);
                    self.set(st, d, v);
                }
            }
            I::Br(t) => { return self.jump(st, *t).map(|_| true); }
            I::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                let take = match cv { Val::C(x) => x & 1 == 1, Val::E(e) => { let r = self.branch(st, e)?; if let Opd::Reg(r2) = c { st.frames.last_mut().unwrap().regs[*r2 as usize] = Val::C(r as u64); } r } _ => return Err(Term::Error("br".into())) };
                return self.jump(st, if take { *a } else { *b }).map(|_| true);
            }
            I::Switch(t, v, def, cases) => {
                let vv = self.get(st, v);
                match vv {
                    Val::C(x) => { let mut tgt = *def; for (k, l) in cases { if *k == x as u128 { tgt = *l; break; } } return self.jump(st, tgt).map(|_| true); }
                    Val::E(e) => {
                        if self.p.i(e).undef { return Err(Term::Violation("uninit".into(), "switch on uninitialised memory".into())); }
                        // group the cases by target
                        let w = t.bits();
                        let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, l) in cases { match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1.push(*k), None => groups.push((*l, vec![*k])) } }
                        let v0 = if self.cfg.real { None } else { Some(st.model.eval(&self.p, e)) };
                        // the group chosen by the current model first
                        if let Some(v0) = v0 { if let Some(i) = groups.iter().position(|g| g.1.contains(&v0)) { groups.swap(0, i); } }
                        for (l, ks) in groups {
                            let mut c = self.p.fls();
                            for k in ks { let kc = self.p.cst(w, k); let q = self.p.eq(e, kc); c = self.p.or(c, q); }
                            if self.branch(st, c)? { return self.jump(st, l).map(|_| true); }
                        }
                        return self.jump(st, *def).map(|_| true);
                    }
                    _ => return Err(Term::Error("switch".into())),
                }
            }
            I::Ret(_, v) => {
                let val = v.as_ref().map(|o| self.get(st, o));
                let f = st.frames.pop().unwrap();
                for a in f.allocas { st.mem.free(a, false)?; }
                if st.frames.is_empty() {
                    self.end_path(st, "ok");
                    return Ok(false);
                }
                if let Some(v) = val { self.set(st, f.ret_dst, v); }
                if let Some(b) = f.ret_block { return self.jump(st, b).map(|_| true); }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(true);
            }
            I::Unreachable => return Err(Term::Violation("ub".into(), "unreachable instruction executed".into())),
            I::ExtractValue(a, ix) => { let mut v = self.get(st, a); for &k in ix { v = match v { Val::Agg(x) => x[k as usize].clone(), Val::C(0) => Val::C(0), _ => return Err(Term::Error("extractvalue".into())) }; } self.set(st, d, v); }
            I::InsertValue(t, a, b, ix) => {
                let av = self.get(st, a); let bv = self.get(st, b);
                let v = ins_val(t, av, &bv, ix);
                self.set(st, d, v);
            }
            I::ExtractElement(_, a, b) => { let i = self.conc_opd(st, b)? as usize; let v = match self.get(st, a) { Val::Agg(x) => x[i].clone(), _ => return Err(Term::Error("extractelement".into())) }; self.set(st, d, v); }
            I::InsertElement(_, a, b, c) => { let i = self.conc_opd(st, c)? as usize; let bv = self.get(st, b); let v = match self.get(st, a) { Val::Agg(x) => { let mut y = (*x).clone(); y[i] = bv; Val::Agg(Rc::new(y)) } _ => return Err(Term::Error("insertelement".into())) }; self.set(st, d, v); }
            I::Shuffle(t, a, b, mk) => {
                let n = t.n_elems();
                if let (Val::Agg(x), Val::Agg(y)) = (self.get(st, a), self.get(st, b)) {
                    let v: Vec<Val> = mk.iter().map(|k| match k { None => Val::C(0), Some(k) => if (*k as usize) < n { x[*k as usize].clone() } else { y[*k as usize - n].clone() } }).collect();
                    self.set(st, d, Val::Agg(Rc::new(v)));
                } else { return Err(Term::Error("shuffle".into())); }
            }
            I::Freeze(a) => { let v = self.get(st, a); self.set(st, d, v); }
            I::AtomicRmw(op, t, a, v) => {
                let addr = self.conc_opd(st, a)?; let vv = self.get(st, v);
                let old = self.load_ty(st, addr, t)?;
                let nv = match op.as_str() {
                    "xchg" => vv, "add" => self.binop(BinOp::Add, t, &old, &vv)?, "sub" => self.binop(BinOp::Sub, t, &old, &vv)?, "and" => self.binop(BinOp::And, t, &old, &vv)?, "or" => self.binop(BinOp::Or, t, &old, &vv)?, "xor" => self.binop(BinOp::Xor, t, &old, &vv)?,
                    _ => return Err(Term::Error(format!("atomicrmw {}", op))),
                };
                self.store_ty(st, addr, t, &nv)?;
                self.set(st, d, old);
            }
            I::CmpXchg(t, a, c, n) => {
                let addr = self.conc_opd(st, a)?; let cv = self.get(st, c); let nv = self.get(st, n);
                let old = self.load_ty(st, addr, t)?;
                let eq = self.icmp(Cmp::Eq, t, &old, &cv)?;
                let ok = match eq { Val::C(x) => x == 1, Val::E(e) => self.branch(st, e)?, _ => false };
                if ok { self.store_ty(st, addr, t, &nv)?; }
                self.set(st, d, Val::Agg(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(Term::Error(format!("unsupported instruction: {}", s))),
            I::GepRaw(..) => unreachable!(),
            I::Call(rt, callee, args, normal) => {
                let fidx = match callee {
                    Callee::Direct(i) => Some(*i),
                    Callee::Ext(name) => { let r = self.call_ext(st, name, rt, args, d)?; return self.after_call(st, r, *normal); }
                    Callee::Asm => { return self.after_call(st, Ctl::Next, *normal); }
                    Callee::Reg(o) => {
                        let a = self.conc_opd(st, o)?;
                        if a < FBASE || (a - FBASE) % 16 != 0 { return Err(Term::Violation("memory".into(), format!("call through invalid function pointer {:#x}", a))); }
                        let i = ((a - FBASE) / 16) as usize;
                        if i < m.funcs.len() { Some(i as u32) } else {
                            let name = m.decls.get(i - m.funcs.len()).cloned().ok_or(Term::Violation("memory".into(), "call through invalid function pointer".into()))?;
                            let r = self.call_ext(st, &name, rt, args, d)?; return self.after_call(st, r, *normal);
                        }
                    }
                    Callee::Global(_) => unreachable!(),
                };
                let fi = fidx.unwrap();
                if self.panic_fn[fi as usize] {
                    let loc = self.panic_loc(st, args);
                    let name = &m.funcs[fi as usize].name;
                    let nounw = name.contains("nounwind") ;
                    return Err(Term::Violation(if nounw { "ub".into() } else { "panic".into() }, if nounw { format!("unsafe precondition violated at {}", loc) } else { loc }));
                }
                if self.print_fn[fi as usize] { return self.after_call(st, Ctl::Next, *normal); }
                if st.frames.len() > self.cfg.max_frames { return Err(Term::Violation("stack".into(), format!("recursion deeper than {} frames", self.cfg.max_frames))); }
                let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let fr = self.frame(fi, a, d, *normal);
                st.frames.push(fr);
                return Ok(true);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(true)
    }
    fn after_call(&mut self, st: &mut State, c: Ctl, normal: Option<u32>) -> X<bool> {
        match c {
            Ctl::End => Ok(false),
            _ => { if let Some(b) = normal { self.jump(st, b)?; } else { st.frames.last_mut().unwrap().ip += 1; } Ok(true) }
        }
    }
    fn jump(&mut self, st: &mut State, t: u32) -> X<()> {
        let m: &'m Module = self.m;
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        let b = &m.funcs[f.func as usize].blocks[t as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let o = &inc.iter().find(|(l, _)| *l == from).ok_or(Term::Error("phi without incoming block".into()))?.1;
                let v = match o { Opd::Reg(r) => f.regs[*r as usize].clone(), Opd::K(v) => Val::C(*v), Opd::Pool(i) => self.cpool[*i as usize].clone(), _ => unreachable!() };
                f.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, _, inc) in &b.phis {
                    let o = &inc.iter().find(|(l, _)| *l == from).ok_or(Term::Error("phi without incoming block".into()))?.1;
                    vals.push(match o { Opd::Reg(r) => f.regs[*r as usize].clone(), Opd::K(v) => Val::C(*v), Opd::Pool(i) => self.cpool[*i as usize].clone(), _ => unreachable!() });
                }
                for ((d, _, _), v) in b.phis.iter().zip(vals) { f.regs[*d as usize] = v; }
            }
        }
        f.block = t;
        f.ip = 0;
        Ok(())
    }

    fn panic_loc(&self, st: &State, args: &[(Ty, Opd)]) -> String {
        for (t, o) in args.iter().rev() {
            if *t != Ty::Ptr { continue; }
            if let Val::C(a) = self.get(st, o) {
                if let Some(b) = st.mem.read_concrete(a, 24) {
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap()); let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap()); let col = u32::from_le_bytes(b[20..24].try_into().unwrap());
                    if n > 0 && n < 300 && line > 0 && line < 1_000_000 {
                        if let Some(s) = st.mem.read_concrete(p, n) { if let Ok(s) = String::from_utf8(s) { if s.ends_with(".rs") { return format!("{}:{}:{}", s, line, col); } } }
                    }
                }
            }
        }
        let n = st.frames.last().map(|f| self.m.funcs[f.func as usize].name.clone()).unwrap_or_default();
        format!("in {}", n)
    }

    fn read_str(&self, st: &State, p: u64, n: u64) -> String {
        st.mem.read_concrete(p, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or("?".into())
    }

    fn call_ext(&mut self, st: &mut State, name: &str, rt: &Ty, args: &[(Ty, Opd)], d: u32) -> X<Ctl> {
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, rt, args, d); }
        match name {
            "malloc" => { let n = self.conc_opd(st, &args[0].1)?; let a = st.mem.alloc(n, true, true)?; self.set(st, d, Val::C(a)); }
            "calloc" => { let n = self.conc_opd(st, &args[0].1)?; let k = self.conc_opd(st, &args[1].1)?; let a = st.mem.alloc(n.checked_mul(k).ok_or(Term::Error("calloc".into()))?, false, true)?; self.set(st, d, Val::C(a)); }
            "posix_memalign" => { let pp = self.conc_opd(st, &args[0].1)?; let n = self.conc_opd(st, &args[2].1)?; let a = st.mem.alloc(n, true, true)?; st.mem.store(&mut self.p, pp, 8, &Val::C(a))?; self.set(st, d, Val::C(0)); }
            "aligned_alloc" => { let n = self.conc_opd(st, &args[1].1)?; let a = st.mem.alloc(n, true, true)?; self.set(st, d, Val::C(a)); }
            "free" => { let a = self.conc_opd(st, &args[0].1)?; if a != 0 { st.mem.free(a, true)?; } }
            "realloc" => {
                let a = self.conc_opd(st, &args[0].1)?; let n = self.conc_opd(st, &args[1].1)?;
                let b = st.mem.alloc(n, true, true)?;
                if a != 0 {
                    let (id, off) = st.mem.find(a).ok_or(Term::Violation("memory".into(), "realloc of invalid pointer".into()))?;
                    let old = st.mem.obj(id).ok_or(Term::Violation("memory".into(), "realloc of freed pointer".into()))?.size;
                    let _ = off;
                    st.mem.copy(b, a, old.min(n))?;
                    st.mem.free(a, true)?;
                }
                self.set(st, d, Val::C(b));
            }
            "memcmp" | "bcmp" => {
                let a = self.conc_opd(st, &args[0].1)?; let b = self.conc_opd(st, &args[1].1)?; let n = self.conc_opd(st, &args[2].1)?;
                let mut res = self.p.cst(32, 0);
                for i in (0..n).rev() {
                    let x = st.mem.load(&mut self.p, a + i, 1)?; let y = st.mem.load(&mut self.p, b + i, 1)?;
                    let (ex, ey) = (self.to_e(&x, 8), self.to_e(&y, 8));
                    let eq = self.p.eq(ex, ey);
                    let lt = self.p.ult(ex, ey);
                    let (m1, p1) = (self.p.cst(32, 0xffff_ffff), self.p.cst(32, 1));
                    let ne = if name == "bcmp" { p1 } else { self.p.ite(lt, m1, p1) };
                    res = self.p.ite(eq, res, ne);
                }
                let v = self.from_e(res); self.set(st, d, v);
            }
            "memcpy" | "memmove" => { let a = self.conc_opd(st, &args[0].1)?; let b = self.conc_opd(st, &args[1].1)?; let n = self.conc_opd(st, &args[2].1)?; st.mem.copy(a, b, n)?; self.set(st, d, Val::C(a)); }
            "strlen" => { let a = self.conc_opd(st, &args[0].1)?; let mut n = 0; loop { match st.mem.load(&mut self.p, a + n, 1)? { Val::C(0) => break, Val::C(_) => n += 1, _ => return Err(Term::Error("strlen of symbolic".into())) } } self.set(st, d, Val::C(n)); }
            "abort" | "exit" | "_exit" => return Err(Term::Violation("panic".into(), "abort called".into())),
            "sym_bits" => {
                let w = self.conc_opd(st, &args[0].1)? as u16;
                let (e, id) = self.p.input(st.inputs.len(), w);
                st.inputs.push((id, w));
                if let Ok(t) = std::env::var("SYMEX_CONC") { let v: u64 = t.split(',').nth(st.inputs.len() - 1).unwrap_or("0").parse().unwrap(); self.set(st, d, Val::C(v)); } else {
                let z = self.p.zext(e, 64);
                let v = self.from_e(z); self.set(st, d, v); }
            }
            "sym_real" => { let (e, id) = self.p.input(st.inputs.len(), 0); st.inputs.push((id, 0)); self.set(st, d, Val::E(e)); }
            "sym_param" => { let i = self.conc_opd(st, &args[0].1)? as usize; let v = *self.cfg.params.get(i).ok_or(Term::Error(format!("missing parameter {}", i)))?; self.set(st, d, Val::C(v as u64)); }
            "sym_assume" => { let v = self.get(st, &args[0].1); let e = self.to_e(&v, 1); self.assume(st, e)?; }
            "sym_check" => {
                let v = self.get(st, &args[0].1);
                let (p, n) = (self.conc_opd(st, &args[1].1)?, self.conc_opd(st, &args[2].1)?);
                let l = self.read_str(st, p, n);
                let e = self.to_e(&v, 1);
                self.check(st, e, &l)?;
            }
            "sym_real_eq" => {
                // exact equality over the reals (native: approximate)
                let a = self.get(st, &args[0].1); let b = self.get(st, &args[1].1);
                let r = match (&a, &b) { (Val::C(x), Val::C(y)) if !f64c(*x).is_finite() || !f64c(*y).is_finite() => Val::C((f64c(*x) == f64c(*y)) as u64), _ => { let (x, y) = (self.real_of(&a)?, self.real_of(&b)?); let e = self.rcmp(Op::REq, x, y); self.from_e(e) } };
                self.set(st, d, r);
            }
            "sym_observe" => { let v = self.get(st, &args[0].1); let i = st.obs.len(); st.obs.push((format!("o{}", i), v)); }
            "sym_cover" => { let (p, n) = (self.conc_opd(st, &args[0].1)?, self.conc_opd(st, &args[1].1)?); let l = self.read_str(st, p, n); st.covers.push(l); }
            "sym_expect_panic" => { let (p, n) = (self.conc_opd(st, &args[0].1)?, self.conc_opd(st, &args[1].1)?); st.expect_panic = if n == 0 { None } else { Some(self.read_str(st, p, n)) }; }
            "sym_concretize" => { let v = self.conc_opd(st, &args[0].1)?; self.set(st, d, Val::C(v)); }
            "sym_is_symbolic" => { self.set(st, d, Val::C(1)); }
            "sym_live_heap" => { let v = st.mem.live_heap; self.set(st, d, Val::C(v)); }
            "sym_debug" => { let v = self.get(st, &args[0].1); eprintln!("debug {:?}", v); }
            "sin" | "cos" | "exp" | "log" | "sqrt" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "cbrt" | "exp2" | "log2" | "log10" => { let v = self.get(st, &args[0].1); let r = self.ffun(st, name, &v)?; self.set(st, d, r); }
            "pow" => { let a = self.get(st, &args[0].1); let b = self.get(st, &args[1].1); let r = self.fpow(st, &a, &b)?; self.set(st, d, r); }
            "fmod" => { let a = self.get(st, &args[0].1); let b = self.get(st, &args[1].1); let r = self.fbin(BinOp::FRem, &Ty::F64, &a, &b)?; self.set(st, d, r); }
            "getenv" => { self.set(st, d, Val::C(0)); }
            "write" => { let n = self.get(st, &args[2].1); self.set(st, d, n); }
            // the keys of hash maps (16 bytes): fixed; anything else is not a harness this executor decides
            "getrandom" => {
                let a = self.conc_opd(st, &args[0].1)?; let n = self.conc_opd(st, &args[1].1)?;
                if n != 16 { return Err(Term::Error("getrandom called".into())); }
                for i in 0..n { st.mem.store(&mut self.p, a + i, 1, &Val::C(i + 1))?; }
                self.set(st, d, Val::C(n));
            }
            _ => return Err(Term::Error(format!("call to external function {}", name))),
        }
        Ok(Ctl::Next)
    }
    fn fpow(&mut self, st: &mut State, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = f64c(*x).powf(f64c(*y));
            if !self.cfg.real || !r.is_finite() || f64c(*y).fract() == 0.0 || f64c(*x) == 1.0 { return Ok(Val::C(r.to_bits())); }
        }
        if let Val::C(k) = b { let f = f64c(*k); if f.fract() == 0.0 && f.abs() <= 16.0 { return self.fpowi(a, f as i32); } }
        // any other constant exponent: one function of positive numbers for each
        if let (true, Val::C(k)) = (self.cfg.real, b) {
            let z = self.p.rconst(0, 1);
            let e = self.real_of(a)?;
            let c = self.rcmp(Op::RLt, z, e);
            let nc = self.p.not(c);
            let sure = self.p.is_const(c).is_none() && { let mut x = self.congruences(&st.pc, nc); x.push(nc); self.s.check(&self.p, &st.pc, &x).0 == Sat::Unsat };
            if !sure && !self.branch(st, c)? { return Err(Term::Error("fractional power of a number that is not positive".into())); }
            let i = match self.exponents.iter().position(|x| x == k) { Some(i) => i, None => { self.exponents.push(*k); self.exponents.len() - 1 } };
            return self.fun_at(st, 100 + i as u32, e);
        }
        Err(Term::Error("pow with symbolic exponent".into()))
    }
    fn fpowi(&mut self, a: &Val, n: i32) -> X<Val> {
        if let Val::C(x) = a { if !self.cfg.real { return Ok(Val::C(f64c(*x).powi(n).to_bits())); } }
        let x = self.real_of(a)?;
        let mut r = self.p.rconst(1, 1);
        for _ in 0..n.unsigned_abs() { r = self.p.rmul(r, x); }
        if n < 0 { let o = self.p.rconst(1, 1); r = self.p.rdiv(o, r); }
        Ok(self.real_val(r))
    }
    fn ffun(&mut self, st: &mut State, name: &str, v: &Val) -> X<Val> {
        if let Val::C(b) = v {
            let x = f64c(*b);
            let r = match name { "sin" => x.sin(), "cos" => x.cos(), "exp" => x.exp(), "log" => x.ln(), "sqrt" => x.sqrt(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "cbrt" => x.cbrt(), "exp2" => x.exp2(), "log2" => x.log2(), "log10" => x.log10(), _ => return Err(Term::Error(name.into())) };
            if !self.cfg.real || !r.is_finite() { return Ok(Val::C(r.to_bits())); }
            // exact cases only stay concrete in real mode
            if name == "sqrt" && r * r == x && r.fract() == 0.0 { return Ok(Val::C(r.to_bits())); }
            if x == 0.0 && matches!(name, "sin" | "cos" | "exp" | "tan" | "sqrt" | "sinh" | "cosh" | "tanh") { return Ok(Val::C(r.to_bits())); }
            if x == 1.0 && name == "log" { return Ok(Val::C(0)); }
        }
        let e = self.real_of(v)?;
        let k = match name { "sin" => 1, "cos" => 2, "exp" => 3, "log" => 4, "sqrt" => 5, "tan" => 6, "asin" => 7, "acos" => 8, "atan" => 9, "sinh" => 10, "cosh" => 11, "tanh" => 12, _ => return Err(Term::Error(format!("{} of a symbolic real", name))) };
        if name == "sqrt" {
            // r >= 0 and r*r = e (a negative argument is a separate path, where the native result is NaN)
            let z = self.p.rconst(0, 1);
            let c = self.rcmp(Op::RLe, z, e);
            if !self.square(e) && !self.branch(st, c)? { return Ok(Val::C(f64::NAN.to_bits())); }
            let r = self.p.rfun(5, e);
            let rr = self.p.rmul(r, r);
            let c1 = self.p.req(rr, e); let c2 = self.p.rle(z, r);
            if self.p.is_const(c1) != Some(1) && !st.pc.contains(&c1) { { st.pc.push(c1); self.p.assume_fact(c1); }; { st.pc.push(c2); self.p.assume_fact(c2); }; }
            return Ok(Val::E(r));
        }
        self.fun_at(st, k, e)
    }
    /// a function known at one point only
    fn fun_at(&mut self, st: &mut State, k: u32, e: E) -> X<Val> {
        let r = self.p.rfun(k, e);
        // the value at zero (at one for log and powers)
        let at = |k: u32| match k { 1 | 6 | 10 | 12 => (0, 0), 2 | 3 | 11 => (0, 1), 4 => (1, 0), k if k >= 100 => (1, 1), _ => (2, 2) };
        if at(k).0 < 2 {
            let (x, y) = (self.p.rconst(at(k).0, 1), self.p.rconst(at(k).1, 1));
            let c = self.rcmp(Op::REq, e, x);
            match self.p.is_const(c) {
                Some(1) => return Ok(self.real_val(y)),
                Some(_) => (),
                None => { let n = self.p.not(c); let v = self.p.req(r, y); let f = self.p.or(n, v); if self.p.is_const(f) != Some(1) && !st.pc.contains(&f) { st.pc.push(f); self.p.assume_fact(f); } }
            }
        }
        Ok(Val::E(r))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, args: &[(Ty, Opd)], d: u32) -> X<Ctl> {
        let base = n;
        macro_rules! a { ($i:expr) => { self.get(st, &args[$i].1) } }
        if base.starts_with("lifetime") || base.starts_with("experimental.noalias") || base.starts_with("dbg.") || base.starts_with("assume") || base.starts_with("x86.sse2.pause") || base.starts_with("donothing") || base.starts_with("prefetch") || base.starts_with("stackrestore") { return Ok(Ctl::Next); }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let x = self.conc_opd(st, &args[0].1)?; let y = self.conc_opd(st, &args[1].1)?; let k = self.conc_opd(st, &args[2].1)?;
            st.mem.copy(x, y, k)?;
            return Ok(Ctl::Next);
        }
        if base.starts_with("memset") {
            let x = self.conc_opd(st, &args[0].1)?; let v = a!(1); let k = self.conc_opd(st, &args[2].1)?;
            for i in 0..k { st.mem.store(&mut self.p, x + i, 1, &v)?; }
            return Ok(Ctl::Next);
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") { return Err(Term::Violation("panic".into(), "trap".into())); }
        if base.starts_with("threadlocal.address") || base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip") || base.starts_with("ssa.copy") { let v = a!(0); self.set(st, d, v); return Ok(Ctl::Next); }
        if base.starts_with("is.constant") { self.set(st, d, Val::C(0)); return Ok(Ctl::Next); }
        if base.starts_with("stacksave") { self.set(st, d, Val::C(0)); return Ok(Ctl::Next); }
        if base.starts_with("objectsize") { self.set(st, d, Val::C(u64::MAX)); return Ok(Ctl::Next); }
        if base.starts_with("load.relative") {
            let p = self.conc_opd(st, &args[0].1)?; let o = self.conc_opd(st, &args[1].1)?;
            let v = st.mem.load(&mut self.p, p.wrapping_add(o), 4)?;
            if let Val::C(x) = v { self.set(st, d, Val::C(p.wrapping_add(x as u32 as i32 as i64 as u64))); return Ok(Ctl::Next); }
            return Err(Term::Error("load.relative".into()));
        }
        // float intrinsics
        let head = base.split('.').next().unwrap();
        if rt.is_float() || (matches!(rt, Ty::Vec(_, t) if t.is_float())) {
            if let Ty::Vec(..) = rt { return Err(Term::Error(format!("vector float intrinsic {}", n))); }
            let x = a!(0);
            let r = match head {
                "fabs" => match &x { Val::C(b) => if *rt == Ty::F32 { Val::C(f32::from_bits(*b as u32).abs().to_bits() as u64) } else { Val::C(f64c(*b).abs().to_bits()) }, Val::E(e) => { let z = self.p.rconst(0, 1); let c = self.p.rlt(*e, z); let ng = self.p.rneg(*e); Val::E(self.p.ite(c, ng, *e)) } _ => unreachable!() },
                "sqrt" | "sin" | "cos" | "exp" | "log" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "exp2" | "log2" | "log10" => self.ffun(st, head, &x)?,
                "pow" => { let y = a!(1); self.fpow(st, &x, &y)? }
                "powi" => { let y = self.conc_opd(st, &args[1].1)?; self.fpowi(&x, y as u32 as i32)? }
                "fmuladd" | "fma" => { let y = a!(1); let z = a!(2); let q = self.fbin(BinOp::FMul, rt, &x, &y)?; self.fbin(BinOp::FAdd, rt, &q, &z)? }
                "floor" | "ceil" | "round" | "trunc" | "rint" | "nearbyint" | "roundeven" => match x { Val::C(b) => { let f = f64c(b); Val::C(match head { "floor" => f.floor(), "ceil" => f.ceil(), "round" => f.round(), "trunc" => f.trunc(), _ => f.round_ties_even() }.to_bits()) } _ => return Err(Term::Error(format!("{} of symbolic real", head))) },
                "maxnum" | "minnum" | "maximum" | "minimum" | "maximumnum" | "minimumnum" => {
                    let y = a!(1);
                    match (&x, &y) {
                        (Val::C(p), Val::C(q)) => { let (p, q) = (f64c(*p), f64c(*q)); Val::C(if head.starts_with("max") { p.max(q) } else { p.min(q) }.to_bits()) }
                        (Val::E(_), Val::C(q)) if !f64c(*q).is_finite() => { let q = f64c(*q); if q.is_nan() { x.clone() } else if (q > 0.0) == head.starts_with("max") { y.clone() } else { x.clone() } }
                        (Val::C(q), Val::E(_)) if !f64c(*q).is_finite() => { let q = f64c(*q); if q.is_nan() { y.clone() } else if (q > 0.0) == head.starts_with("max") { x.clone() } else { y.clone() } }
                        _ => { let (p, q) = (self.real_of(&x)?, self.real_of(&y)?); let c = self.p.rlt(p, q); Val::E(if head.starts_with("max") { self.p.ite(c, q, p) } else { self.p.ite(c, p, q) }) }
                    }
                }
                "copysign" => { let y = a!(1); match (&x, &y) { (Val::C(p), Val::C(q)) => Val::C(f64c(*p).copysign(f64c(*q)).to_bits()), _ => return Err(Term::Error("copysign".into())) } }
                _ => return Err(Term::Error(format!("intrinsic {}", n))),
            };
            self.set(st, d, r);
            return Ok(Ctl::Next);
        }
        if base.contains("with.overflow") {
            let w = args[0].0.bits();
            let (x, y) = (a!(0), a!(1));
            let (ea, eb) = (self.to_e(&x, w), self.to_e(&y, w));
            let p = &mut self.p;
            let signed = base.starts_with('s');
            let op = &base[1..4];
            let r = match op { "add" => p.add(ea, eb), "sub" => p.sub(ea, eb), _ => p.mul(ea, eb) };
            let (ia, ib) = (p.i(ea), p.i(eb));
            let ov = if w > 64 {
                // 128-bit: precise formulas for add/sub only
                match (op, signed) {
                    ("add", false) => p.ult(r, ea),
                    ("sub", false) => p.ult(ea, eb),
                    ("add", true) => { let z = p.cst(w, 0); let (sa, sb, sr) = (p.slt(ea, z), p.slt(eb, z), p.slt(r, z)); let same = p.eq(sa, sb); let df = p.ne(sa, sr); p.and(same, df) }
                    ("sub", true) => { let z = p.cst(w, 0); let (sa, sb, sr) = (p.slt(ea, z), p.slt(eb, z), p.slt(r, z)); let same = p.ne(sa, sb); let df = p.ne(sa, sr); p.and(same, df) }
                    _ => match (p.is_const(ea), p.is_const(eb)) { (Some(a), Some(b)) => { let o = if signed { (a as i128).checked_mul(b as i128).is_none() } else { a.checked_mul(b).is_none() }; p.cst(1, o as u128) } _ => {
                        let k = 64; if !signed && ia.uhi <= mask(k) && ib.uhi <= mask(k) { p.fls() } else { return Err(Term::Error("symbolic 128-bit multiplication overflow".into())) } } }
                }
            } else if signed {
                let (lo, hi) = (sx(1u128 << (w - 1), w), (mask(w) >> 1) as i128);
                let (rl, rh) = match op { "add" => (ia.slo + ib.slo, ia.shi + ib.shi), "sub" => (ia.slo - ib.shi, ia.shi - ib.slo), _ => { let v = [ia.slo * ib.slo, ia.slo * ib.shi, ia.shi * ib.slo, ia.shi * ib.shi]; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) } };
                if rl >= lo && rh <= hi { p.fls() } else {
                    let ww = if op == "mul" { 2 * w } else { w + 1 };
                    let (xa, xb) = (p.sext(ea, ww), p.sext(eb, ww));
                    let full = match op { "add" => p.add(xa, xb), "sub" => p.sub(xa, xb), _ => p.mul(xa, xb) };
                    let back = p.sext(r, ww);
                    p.ne(full, back)
                }
            } else {
                match op {
                    "add" => if ia.uhi + ib.uhi <= mask(w) { p.fls() } else { let (xa, xb) = (p.zext(ea, w + 1), p.zext(eb, w + 1)); let f = p.add(xa, xb); p.extract(f, w, 1) },
                    "sub" => p.ult(ea, eb),
                    _ => if ia.uhi * ib.uhi <= mask(w) { p.fls() } else { let (xa, xb) = (p.zext(ea, 2 * w), p.zext(eb, 2 * w)); let f = p.mul(xa, xb); let h = p.extract(f, w, w); let z = p.cst(w, 0); p.ne(h, z) },
                }
            };
            let v = Val::Agg(Rc::new(vec![self.from_e(r), self.from_e(ov)]));
            self.set(st, d, v);
            return Ok(Ctl::Next);
        }
        if let Ty::Vec(nn, et) = rt {
            // elementwise integer intrinsics
            let mut out = vec![];
            let vs: Vec<Val> = (0..args.len()).map(|i| self.get(st, &args[i].1)).collect();
            for i in 0..*nn as usize {
                let xs: Vec<Val> = vs.iter().map(|v| match v { Val::Agg(a) => a[i].clone(), v => v.clone() }).collect();
                out.push(self.int_intr(head, base, et, &xs, et.bits())?);
            }
            self.set(st, d, Val::Agg(Rc::new(out)));
            return Ok(Ctl::Next);
        }
        if base.starts_with("vector.reduce.") {
            let op = base.split('.').nth(2).unwrap();
            let et = args[0].0.elem(0);
            if let Val::Agg(v) = a!(0) {
                let mut acc = v[0].clone();
                for x in v.iter().skip(1) {
                    acc = match op { "add" => self.binop(BinOp::Add, &et, &acc, x)?, "mul" => self.binop(BinOp::Mul, &et, &acc, x)?, "or" => self.binop(BinOp::Or, &et, &acc, x)?, "and" => self.binop(BinOp::And, &et, &acc, x)?, "xor" => self.binop(BinOp::Xor, &et, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => self.int_intr(op, op, &et, &[acc, x.clone()], et.bits())?, _ => return Err(Term::Error(format!("intrinsic {}", n))) };
                }
                self.set(st, d, acc);
                return Ok(Ctl::Next);
            }
        }
        let xs: Vec<Val> = (0..args.len()).map(|i| self.get(st, &args[i].1)).collect();
        let w = args.get(0).map(|a| a.0.bits()).unwrap_or(64);
        if matches!(head, "fptosi" | "fptoui") { if let Val::C(b) = xs[0] {
            let f = if args[0].0 == Ty::F32 { f32::from_bits(b as u32) as f64 } else { f64c(b) }; let dw = rt.bits();
            let r = if f.is_nan() { 0i128 } else if head == "fptosi" { (f as i128).clamp(-(1i128 << (dw - 1)), (1i128 << (dw - 1)) - 1) } else { (f as u128).min(mask(dw)) as i128 };
            if dw <= 64 { self.set(st, d, Val::C(r as u64 & mask(dw) as u64)); return Ok(Ctl::Next); }
        } }
        // one path per sign / per number of trailing zeros keeps shift amounts constant
        if matches!(head, "abs") { if let Val::E(e) = &xs[0] { if self.p.w(*e) > 0 && !self.p.i(*e).undef { let z = self.p.cst(w, 0); let c = self.p.slt(*e, z); self.branch(st, c)?; } } }
        let mut v = self.int_intr(head, base, rt, &xs, w)?;
        if matches!(head, "cttz" | "ctlz") { if let Val::E(e) = v { if !self.p.i(e).undef { v = Val::C(self.concretize(st, e)?); } } }
        self.set(st, d, v);
        Ok(Ctl::Next)
    }

    fn int_intr(&mut self, head: &str, base: &str, rt: &Ty, xs: &[Val], w: u16) -> X<Val> {
        let e: Vec<E> = xs.iter().enumerate().map(|(i, v)| self.to_e(v, if i > 0 && matches!(head, "ctlz" | "cttz" | "abs") { 1 } else { w })).collect();
        if e.iter().any(|&x| self.p.w(x) == 0) { return Err(Term::Error(format!("integer intrinsic {} on a real", base))); }
        let p = &mut self.p;
        let r = match head {
            "umax" => { let c = p.ult(e[0], e[1]); p.ite(c, e[1], e[0]) }
            "umin" => { let c = p.ult(e[0], e[1]); p.ite(c, e[0], e[1]) }
            "smax" => { let c = p.slt(e[0], e[1]); p.ite(c, e[1], e[0]) }
            "smin" => { let c = p.slt(e[0], e[1]); p.ite(c, e[0], e[1]) }
            "abs" => { let z = p.cst(w, 0); let c = p.slt(e[0], z); let n = p.sub(z, e[0]); p.ite(c, n, e[0]) }
            "ucmp" | "scmp" => {
                let rw = rt.bits();
                let (lt, gt) = if head == "ucmp" { (p.ult(e[0], e[1]), p.ult(e[1], e[0])) } else { (p.slt(e[0], e[1]), p.slt(e[1], e[0])) };
                let (m1, z, o) = (p.cst(rw, mask(rw)), p.cst(rw, 0), p.cst(rw, 1));
                let x = p.ite(gt, o, z); p.ite(lt, m1, x)
            }
            "uadd" if base.starts_with("uadd.sat") => { let s = p.add(e[0], e[1]); let c = p.ult(s, e[0]); let m = p.cst(w, mask(w)); p.ite(c, m, s) }
            "usub" if base.starts_with("usub.sat") => { let c = p.ult(e[0], e[1]); let s = p.sub(e[0], e[1]); let z = p.cst(w, 0); p.ite(c, z, s) }
            "sadd" | "ssub" if base.contains(".sat") => {
                let (xa, xb) = (p.sext(e[0], w + 1), p.sext(e[1], w + 1));
                let f = if head == "sadd" { p.add(xa, xb) } else { p.sub(xa, xb) };
                let (mx, mn) = (p.cst(w + 1, mask(w) >> 1), p.cst(w + 1, (1u128 << (w - 1)) | (1u128 << w)));
                let c1 = p.slt(mx, f); let c2 = p.slt(f, mn);
                let y = p.ite(c2, mn, f); let y = p.ite(c1, mx, y);
                p.extract(y, 0, w)
            }
            "ctpop" => { let mut s = p.cst(w, 0); if let Some(v) = p.is_const(e[0]) { s = p.cst(w, v.count_ones() as u128) } else { for i in 0..w { let b = p.extract(e[0], i, 1); let b = if w > 1 { p.zext(b, w) } else { b }; s = p.add(s, b); } } s }
            "ctlz" => { if let Some(v) = p.is_const(e[0]) { p.cst(w, (v.leading_zeros() as u128) - (128 - w as u128)) } else { let mut r = p.cst(w, w as u128); for i in 0..w { let b = p.extract(e[0], i, 1); let k = p.cst(w, (w - 1 - i) as u128); r = p.ite(b, k, r); } r } }
            "cttz" => { if let Some(v) = p.is_const(e[0]) { p.cst(w, (v.trailing_zeros() as u128).min(w as u128)) } else { let mut r = p.cst(w, w as u128); for i in (0..w).rev() { let b = p.extract(e[0], i, 1); let k = p.cst(w, i as u128); r = p.ite(b, k, r); } r } }
            "bswap" => { let mut r: Option<E> = None; for i in 0..w / 8 { let b = p.extract(e[0], i * 8, 8); r = Some(match r { None => b, Some(h) => p.concat(h, b) }); } r.unwrap() }
            "bitreverse" => { let mut r: Option<E> = None; for i in 0..w { let b = p.extract(e[0], i, 1); r = Some(match r { None => b, Some(h) => p.concat(h, b) }); } r.unwrap() }
            "fshl" | "fshr" => {
                if let Some(k) = p.is_const(e[2]) {
                    let k = (k % w as u128) as u16;
                    if k == 0 { if head == "fshl" { e[0] } else { e[1] } }
                    else {
                        let s = if head == "fshl" { w - k } else { k };
                        // concat(a,b) >> s, low w bits
                        let lo = p.extract(e[1], s, w - s); let hi = p.extract(e[0], 0, s);
                        p.concat(hi, lo)
                    }
                } else {
                    let wc = p.cst(w, w as u128); let k = p.urem(e[2], wc);
                    let nk = p.sub(wc, k); let z = p.cst(w, 0); let c = p.eq(k, z);
                    if head == "fshl" { let a = p.shl(e[0], k); let b = p.lshr(e[1], nk); let x = p.or(a, b); p.ite(c, e[0], x) }
                    else { let a = p.lshr(e[1], k); let b = p.shl(e[0], nk); let x = p.or(a, b); p.ite(c, e[1], x) }
                }
            }
            _ => return Err(Term::Error(format!("intrinsic llvm.{}", base))),
        };
        Ok(self.from_e(r))
    }
    pub fn unused(&self) { let _ = (&self.gaddr, &self.externs, &self.ext_names, &self.cfg.conc_limit, Stop::Path as u8, Stop::Fork as u8, Ctl::Jump as u8); }
}

fn ins_val(t: &Ty, a: Val, b: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return b.clone(); }
    let mut v: Vec<Val> = match a { Val::Agg(x) => (*x).clone(), _ => (0..t.n_elems()).map(|i| zero_of(&t.elem(i))).collect() };
    let et = t.elem(ix[0] as usize);
    let old = v[ix[0] as usize].clone();
    v[ix[0] as usize] = ins_val(&et, old, b, &ix[1..]);
    Val::Agg(Rc::new(v))
}
fn zero_of(t: &Ty) -> Val { if t.is_agg() { Val::Agg(Rc::new((0..t.n_elems()).map(|i| zero_of(&t.elem(i))).collect())) } else { Val::C(0) } }

fn cst_u64(c: &Cst, t: &Ty, g: &FxMap<String, u64>) -> u128 {
    match c {
        Cst::Int(v) => *v & mask(t.bits().max(1)),
        Cst::Float(v) => *v as u128,
        Cst::Null | Cst::Undef | Cst::Zero => 0,
        Cst::Global(n) => g.get(n).copied().unwrap_or(0) as u128,
        Cst::Gep(ty, b, idx) => {
            let mut a = cst_u64(&b.1, &b.0, g) as u64;
            let mut ty = ty.clone();
            for (k, (it, o)) in idx.iter().enumerate() {
                let v = sx(cst_u64(o, it, g), it.bits()) as i64 as u64;
                if k == 0 { a = a.wrapping_add(ty.size().wrapping_mul(v)); } else { match &ty { Ty::Struct(..) => { let (o2, t2) = ty.field_offset(v); a = a.wrapping_add(o2); ty = t2; } _ => { let (_, t2) = ty.field_offset(0); a = a.wrapping_add(t2.size().wrapping_mul(v)); ty = t2; } } }
            }
            a as u128
        }
        Cst::Cast(op, x, d) => { let v = cst_u64(&x.1, &x.0, g); let v = if op == "sext" { sx(v, x.0.bits()) as u128 } else { v }; v & mask(d.bits()) }
        Cst::Bin(op, t, a, b) => { let (x, y) = (cst_u64(a, t, g), cst_u64(b, t, g)); (match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "and" => x & y, "or" => x | y, "xor" => x ^ y, "shl" => x << (y as u32), _ => x >> (y as u32) }) & mask(t.bits()) }
        _ => 0,
    }
}
fn write_cst(out: &mut [u8], off: usize, t: &Ty, c: &Cst, g: &FxMap<String, u64>) {
    match c {
        Cst::Agg(v) => { for (i, (et, ec)) in v.iter().enumerate() { let (o, _) = t.field_offset(i as u64); write_cst(out, off + o as usize, et, ec, g); } }
        Cst::Str(b) => out[off..off + b.len()].copy_from_slice(b),
        Cst::Splat(et, ec) => { for i in 0..t.n_elems() { write_cst(out, off + i * et.size() as usize, et, ec, g); } }
        Cst::Zero | Cst::Undef | Cst::Null => {}
        _ => { let v = cst_u64(c, t, g); let n = t.store_size() as usize; out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
    }
}
fn cst_val(c: &Cst, t: &Ty, g: &FxMap<String, u64>, p: &mut Pool) -> Val {
    if t.is_agg() {
        let v = match c {
            Cst::Agg(v) => v.iter().map(|(et, ec)| cst_val(ec, et, g, p)).collect(),
            Cst::Str(b) => b.iter().map(|&x| Val::C(x as u64)).collect(),
            Cst::Splat(et, ec) => (0..t.n_elems()).map(|_| cst_val(ec, et, g, p)).collect(),
            _ => (0..t.n_elems()).map(|i| zero_of(&t.elem(i))).collect(),
        };
        return Val::Agg(Rc::new(v));
    }
    let w = t.bits();
    let v = cst_u64(c, t, g);
    if w <= 64 { Val::C(v as u64) } else { Val::E(p.cst(w, v)) }
}
fn fix(o: &mut Opd, t: &Ty, g: &FxMap<String, u64>, cp: &mut Vec<Val>, p: &mut Pool) {
    if let Opd::C(c) = o {
        let v = cst_val(c, t, g, p);
        *o = match v { Val::C(x) => Opd::K(x), v => { cp.push(v); Opd::Pool(cp.len() as u32 - 1) } };
    }
}
