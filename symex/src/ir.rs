//! Parser for textual LLVM IR (as printed by llvm-dis) into a compact executable form.
use crate::expr::FxMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64, Label, Meta,
    Arr(u64, Rc<Ty>), Vec(u32, Rc<Ty>), Struct(Vec<Ty>, bool),
    Func,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 1 { 1 } else { let a = self.align(); (b + a - 1) / a * a } }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits() as u64; ((bits + 7) / 8).next_power_of_two() }
            Ty::Struct(f, packed) => {
                let mut o = 0u64; let mut al = 1;
                for t in f { let a = if *packed { 1 } else { t.align() }; o = (o + a - 1) / a * a; o += t.size(); al = al.max(a); }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => (*n as u16) * t.bits(), _ => (self.size() * 8) as u16 } }
    pub fn field_offset(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a;
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn is_float(&self) -> bool { matches!(self, Ty::F32 | Ty::F64) }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) }
    pub fn n_elems(&self) -> usize { match self { Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 } }
    pub fn elem(&self, i: usize) -> Ty { match self { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), Ty::Struct(f, _) => f[i].clone(), _ => panic!() } }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128), Float(u64), Null, Undef, Zero,
    Global(String),
    Agg(Vec<(Ty, Cst)>), Str(Vec<u8>),
    Splat(Ty, Box<Cst>),
    Gep(Ty, Box<(Ty, Cst)>, Vec<(Ty, Cst)>),
    Cast(String, Box<(Ty, Cst)>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(Cst), /// resolved scalar
    K(u64), /// resolved constant-pool index
    Pool(u32) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { ZExt, SExt, Trunc, PtrToInt, IntToPtr, BitCast, FPToSI, FPToUI, SIToFP, UIToFP, FPExt, FPTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Global(String), Direct(u32), Ext(String), Reg(Opd), Asm }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Cmp, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Select(Ty, Ty, Opd, Opd, Opd),
    Alloca(u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, constant offset, (scale, index type bits, operand)*
    Gep(Opd, u64, Vec<(u64, u16, Opd)>),
    GepRaw(Ty, Opd, Vec<(Ty, Opd)>),
    Call(Ty, Callee, Vec<(Ty, Opd)>, Option<u32>),
    Br(u32), CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd), InsertElement(Ty, Opd, Opd, Opd), Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Freeze(Opd),
    AtomicRmw(String, Ty, Opd, Opd), CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Instr { pub dst: u32, pub i: I }
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block { pub name: String, pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub ins: Vec<Instr> }
#[derive(Clone, Debug, Default)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub blocks: Vec<Block>, pub nregs: u32, pub noreturn: bool }
#[derive(Clone, Debug)]
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Cst>, pub align: u64, pub constant: bool }

#[derive(Default)]
pub struct Module { pub funcs: Vec<Func>, pub fidx: FxMap<String, u32>, pub globals: Vec<Global>, pub types: FxMap<String, Ty>, pub decls: Vec<String> }

#[derive(Clone, Debug, PartialEq)]
enum T { Local(String), Global(String), Num(String), Word(String), P(char), Str(Vec<u8>), Meta(String), Attr(String), CStr(Vec<u8>), Dots, Type(String) }

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0; let mut out = Vec::new();
    let idch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = Vec::new();
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; continue; }
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' { String::from_utf8_lossy(&quoted(b, &mut i)).into_owned() } else { let st = i; while i < b.len() && idch(b[i]) { i += 1; } s[st..i].to_string() };
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' { let q = quoted(b, &mut i); out.push(T::Meta(String::from_utf8_lossy(&q).into_owned())); }
                else { let st = i; while i < b.len() && (idch(b[i]) || b[i] == b'\\') { i += 1; } out.push(T::Meta(s[st..i].to_string())); }
            }
            b'#' => { i += 1; let st = i; while i < b.len() && idch(b[i]) { i += 1; } out.push(T::Attr(s[st..i].to_string())); }
            b'"' => { let q = quoted(b, &mut i); out.push(T::Str(q)); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; let q = quoted(b, &mut i); out.push(T::CStr(q)); }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' => { i += 3; out.push(T::Dots); }
            b'0'..=b'9' | b'-' | b'+' => { let st = i; i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || (b[i] == b'-' && (b[i-1] == b'e' || b[i-1] == b'E'))) { i += 1; } out.push(T::Num(s[st..i].to_string())); }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let st = i; while i < b.len() && idch(b[i]) { i += 1; } out.push(T::Word(s[st..i].to_string())); }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
    }
    out
}

struct Ps<'a> { t: &'a [T], i: usize, types: &'a FxMap<String, Ty> }
type R<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn next(&mut self) -> R<T> { let x = self.t.get(self.i).cloned().ok_or("eol".to_string()); self.i += 1; x }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    fn eat(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn need(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {} got {:?} at {}", c, self.peek(), self.i)) } }
    fn word(&self) -> Option<&str> { if let Some(T::Word(w)) = self.peek() { Some(w) } else { None } }
    fn eatw(&mut self, s: &str) -> bool { if self.word() == Some(s) { self.i += 1; true } else { false } }
    fn skip_parens(&mut self) -> R<()> {
        self.need('(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } }
        Ok(())
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token" | "x86_fp80" | "bfloat") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::Local(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        let r = match t {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.eatw("addrspace") { self.skip_parens()?; } Ty::Ptr }
                "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" | "token" => Ty::Meta,
                "x86_fp80" | "fp128" => Ty::Int(128), "half" | "bfloat" => Ty::Int(16),
                _ if w.starts_with('i') => Ty::Int(w[1..].parse::<u32>().map_err(|_| format!("type {}", w))?.min(60000) as u16),
                _ => return Err(format!("type word {}", w)),
            },
            T::P('{') => { let f = self.fields('}')?; Ty::Struct(f, false) }
            T::P('[') => { let n = self.num()?; if !self.eatw("x") { return Err("arr".into()); } let t = self.ty()?; self.need(']')?; Ty::Arr(n as u64, Rc::new(t)) }
            T::P('<') => {
                if self.eat('{') { let f = self.fields('}')?; self.need('>')?; Ty::Struct(f, true) }
                else { let n = self.num()?; if !self.eatw("x") { return Err("vec".into()); } let t = self.ty()?; self.need('>')?; Ty::Vec(n as u32, Rc::new(t)) }
            }
            T::Local(n) => self.types.get(&n).cloned().ok_or(format!("type {}", n))?,
            t => return Err(format!("type tok {:?}", t)),
        };
        Ok(r)
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat(',') { continue; } self.need(end)?; return Ok(v); }
    }
    fn num(&mut self) -> R<i128> { match self.next()? { T::Num(s) => s.parse::<i128>().map_err(|e| format!("{} {}", s, e)), t => Err(format!("num {:?}", t)) } }

    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.next()? {
            T::Num(s) => {
                if ty.is_float() { return Ok(Cst::Float(parse_float(&s, ty)?)); }
                if let Ok(v) = s.parse::<i128>() { return Ok(Cst::Int(v as u128)); }
                if let Ok(v) = s.parse::<u128>() { return Ok(Cst::Int(v)); }
                if s.starts_with("0x") { return Ok(Cst::Float(parse_float(&s, ty)?)); }
                Err(format!("number {}", s))
            }
            T::Global(g) => Ok(Cst::Global(g)),
            T::CStr(b) => Ok(Cst::Str(b)),
            T::Word(w) if w.starts_with("f0x") && ty.is_float() => Ok(Cst::Float(parse_float(&w, ty)?)),
            T::Word(w) => match w.as_str() {
                "true" => Ok(Cst::Int(1)), "false" => Ok(Cst::Int(0)),
                "null" => Ok(Cst::Null), "undef" | "poison" => Ok(Cst::Undef), "zeroinitializer" | "none" => Ok(Cst::Zero),
                "inf" | "nan" => Err(format!("float const {}", w)),
                "splat" => { self.need('(')?; let t = self.ty()?; let c = self.cst(&t)?; self.need(')')?; Ok(Cst::Splat(t, Box::new(c))) }
                "getelementptr" => {
                    loop {
                        if self.isp('(') { break; }
                        self.next()?;
                        // inrange(...) form
                        if let Some(T::Word(x)) = self.t.get(self.i - 1) { if x == "inrange" { self.skip_parens()?; } }
                    }
                    self.need('(')?;
                    let t = self.ty()?;
                    self.need(',')?;
                    let bt = self.ty()?; let b = self.cst(&bt)?;
                    let mut idx = vec![];
                    while self.eat(',') { let t = self.ty()?; let c = self.cst(&t)?; idx.push((t, c)); }
                    self.need(')')?;
                    Ok(Cst::Gep(t, Box::new((bt, b)), idx))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    self.need('(')?;
                    let t = self.ty()?; let c = self.cst(&t)?;
                    if !self.eatw("to") { return Err("to".into()); }
                    let d = self.ty()?;
                    self.need(')')?;
                    Ok(Cst::Cast(w, Box::new((t, c)), d))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while !self.isp('(') { self.next()?; }
                    self.need('(')?;
                    let t = self.ty()?; let a = self.cst(&t)?; self.need(',')?; let t2 = self.ty()?; let b = self.cst(&t2)?; self.need(')')?;
                    Ok(Cst::Bin(w, t, Box::new(a), Box::new(b)))
                }
                "dso_local_equivalent" | "no_cfi" => self.cst(ty),
                _ => Err(format!("const word {}", w)),
            },
            T::P('{') => self.agg('}'),
            T::P('[') => self.agg(']'),
            T::P('<') => {
                if self.eat('{') { let a = self.agg('}')?; self.need('>')?; Ok(a) } else { self.agg('>') }
            }
            t => Err(format!("const {:?}", t)),
        }
    }
    fn agg(&mut self, end: char) -> R<Cst> {
        let mut v = vec![];
        if self.eat(end) { return Ok(Cst::Agg(v)); }
        loop { let t = self.ty()?; let c = self.cst(&t)?; v.push((t, c)); if self.eat(',') { continue; } self.need(end)?; return Ok(Cst::Agg(v)); }
    }
    /// parameter / return attributes
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    let w = w.clone();
                    if self.is_type() { return Ok(()); }
                    if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "asm") { return Ok(()); }
                    self.i += 1;
                    if self.isp('(') { self.skip_parens()?; }
                    else if w == "align" { self.i += 1; }
                }
                Some(T::Str(_)) => { self.i += 1; if self.eat('=') { self.i += 1; } }
                Some(T::Attr(_)) => { self.i += 1; }
                _ => return Ok(()),
            }
        }
    }
}

fn parse_float(s: &str, ty: &Ty) -> R<u64> {
    let bits64 = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e))? }
        else if let Some(h) = s.strip_prefix("f0x") { return u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e)); }
        else { s.parse::<f64>().map_err(|e| format!("{} {}", s, e))?.to_bits() };
    Ok(if *ty == Ty::F32 { (f64::from_bits(bits64) as f32).to_bits() as u64 } else { bits64 })
}

struct FnCtx { regs: FxMap<String, u32>, n: u32, labels: FxMap<String, u32> }
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { r } else { let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r } }
}

fn opd(p: &mut Ps, f: &mut FnCtx, ty: &Ty) -> R<Opd> {
    if let Some(T::Local(n)) = p.peek() { let n = n.clone(); p.i += 1; return Ok(Opd::Reg(f.reg(&n))); }
    if *ty == Ty::Meta { // skip metadata operand
        p.i += 1;
        if p.isp('(') { p.skip_parens()?; }
        return Ok(Opd::K(0));
    }
    Ok(Opd::C(p.cst(ty)?))
}
fn tyopd(p: &mut Ps, f: &mut FnCtx) -> R<(Ty, Opd)> { let t = p.ty()?; let o = opd(p, f, &t)?; Ok((t, o)) }
fn label(p: &mut Ps, f: &FnCtx) -> R<u32> {
    if !p.eatw("label") { return Err("label".into()); }
    match p.next()? { T::Local(n) => f.labels.get(&n).copied().ok_or(format!("label {}", n)), t => Err(format!("label {:?}", t)) }
}

fn parse_instr(p: &mut Ps, f: &mut FnCtx, phis: &mut Vec<(u32, Ty, Vec<(u32, Opd)>)>) -> R<Option<Instr>> {
    let mut dst = NODST;
    if let (Some(T::Local(n)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) { dst = f.reg(n); p.i = 2; }
    let w = match p.next()? { T::Word(w) => w, t => return Err(format!("instr {:?}", t)) };
    let bin = |w: &str| -> Option<BinOp> { Some(match w {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
        "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
        "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, "frem" => BinOp::FRem, _ => return None }) };
    let cast = |w: &str| -> Option<CastOp> { Some(match w {
        "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "trunc" => CastOp::Trunc, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" | "addrspacecast" => CastOp::BitCast,
        "fptosi" => CastOp::FPToSI, "fptoui" => CastOp::FPToUI, "sitofp" => CastOp::SIToFP, "uitofp" => CastOp::UIToFP, "fpext" => CastOp::FPExt, "fptrunc" => CastOp::FPTrunc, _ => return None }) };
    let flags = |p: &mut Ps| { while !p.is_type() && matches!(p.peek(), Some(T::Word(_))) { p.i += 1; if p.isp('(') { let _ = p.skip_parens(); } } };
    if let Some(op) = bin(&w) {
        flags(p);
        let t = p.ty()?; let a = opd(p, f, &t)?; p.need(',')?; let b = opd(p, f, &t)?;
        return Ok(Some(Instr { dst, i: I::Bin(op, t, a, b) }));
    }
    if let Some(op) = cast(&w) {
        flags(p);
        let (t, a) = tyopd(p, f)?;
        if !p.eatw("to") { return Err("to".into()); }
        let d = p.ty()?;
        return Ok(Some(Instr { dst, i: I::Cast(op, t, a, d) }));
    }
    let i = match w.as_str() {
        "fneg" => { flags(p); let (t, a) = tyopd(p, f)?; I::FNeg(t, a) }
        "icmp" => {
            p.eatw("samesign");
            let c = match p.next()? { T::Word(w) => w, _ => return Err("icmp".into()) };
            let c = match c.as_str() { "eq" => Cmp::Eq, "ne" => Cmp::Ne, "ugt" => Cmp::Ugt, "uge" => Cmp::Uge, "ult" => Cmp::Ult, "ule" => Cmp::Ule, "sgt" => Cmp::Sgt, "sge" => Cmp::Sge, "slt" => Cmp::Slt, "sle" => Cmp::Sle, _ => return Err(c) };
            let t = p.ty()?; let a = opd(p, f, &t)?; p.need(',')?; let b = opd(p, f, &t)?;
            I::ICmp(c, t, a, b)
        }
        "fcmp" => {
            let mut c = String::new();
            while !p.is_type() { if let T::Word(w) = p.next()? { c = w; } }
            let t = p.ty()?; let a = opd(p, f, &t)?; p.need(',')?; let b = opd(p, f, &t)?;
            I::FCmp(c, t, a, b)
        }
        "select" => {
            flags(p);
            let (ct, c) = tyopd(p, f)?; p.need(',')?; let (t, a) = tyopd(p, f)?; p.need(',')?; let (_, b) = tyopd(p, f)?;
            I::Select(ct, t, c, a, b)
        }
        "alloca" => {
            p.eatw("inalloca");
            let t = p.ty()?;
            let mut n = Opd::K(1);
            if p.eat(',') && p.is_type() { let (_, o) = tyopd(p, f)?; n = o; }
            I::Alloca(t.size(), n)
        }
        "load" => {
            p.eatw("atomic"); p.eatw("volatile");
            let t = p.ty()?; p.need(',')?; let (_, a) = tyopd(p, f)?;
            I::Load(t, a)
        }
        "store" => {
            p.eatw("atomic"); p.eatw("volatile");
            let (t, v) = tyopd(p, f)?; p.need(',')?; let (_, a) = tyopd(p, f)?;
            I::Store(t, v, a)
        }
        "getelementptr" => {
            flags(p);
            let t = p.ty()?; p.need(',')?;
            let (bt, b) = tyopd(p, f)?;
            if bt != Ty::Ptr { return Ok(Some(Instr { dst, i: I::Unsupported("vector gep".into()) })); }
            let mut idx = vec![];
            while p.eat(',') { if !p.is_type() { break; } idx.push(tyopd(p, f)?); }
            I::GepRaw(t, b, idx)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if matches!(w.as_str(), "tail" | "musttail" | "notail") { p.eatw("call"); }
            p.attrs()?; // fmf, cc, ret attrs
            let rt = p.ty()?;
            if p.isp('(') { p.skip_parens()?; } // varargs function type
            let mut asm = false;
            let callee = match p.next()? {
                T::Global(g) => Callee::Global(g),
                T::Local(n) => Callee::Reg(Opd::Reg(f.reg(&n))),
                T::Word(w) if w == "asm" => { asm = true; while !matches!(p.peek(), Some(T::P('('))) { p.i += 1; } Callee::Asm }
                T::Word(w) => { p.i -= 1; let _ = w; let c = p.cst(&Ty::Ptr)?; Callee::Reg(Opd::C(c)) }
                t => return Err(format!("callee {:?}", t)),
            };
            let _ = asm;
            p.need('(')?;
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    if p.peek() == Some(&T::Dots) { p.i += 1; }
                    let t = p.ty()?;
                    if t == Ty::Meta { // skip to , or )
                        let mut d = 0;
                        loop { match p.peek() { Some(T::P('(')) | Some(T::P('{')) => { d += 1; p.i += 1; } Some(T::P(')')) if d == 0 => break, Some(T::P(')')) | Some(T::P('}')) => { d -= 1; p.i += 1; } Some(T::P(',')) if d == 0 => break, None => break, _ => p.i += 1 } }
                        args.push((Ty::Meta, Opd::K(0)));
                    } else {
                        p.attrs()?;
                        let o = opd(p, f, &t)?;
                        args.push((t, o));
                    }
                    if p.eat(',') { continue; }
                    p.need(')')?;
                    break;
                }
            }
            let mut normal = None;
            if w == "invoke" {
                while p.word() != Some("to") { p.next()?; }
                p.i += 1;
                normal = Some(label(p, f)?);
            }
            I::Call(rt, callee, args, normal)
        }
        "br" => {
            if p.word() == Some("label") { I::Br(label(p, f)?) }
            else { let (_, c) = tyopd(p, f)?; p.need(',')?; let a = label(p, f)?; p.need(',')?; let b = label(p, f)?; I::CondBr(c, a, b) }
        }
        "switch" => {
            let (t, v) = tyopd(p, f)?; p.need(',')?; let d = label(p, f)?;
            p.need('[')?;
            let mut cs = vec![];
            while !p.eat(']') { let ct = p.ty()?; let c = p.cst(&ct)?; p.need(',')?; let l = label(p, f)?; let v = match c { Cst::Int(v) => v & crate::expr::mask(ct.bits()), _ => return Err("switch const".into()) }; cs.push((v, l)); }
            I::Switch(t, v, d, cs)
        }
        "ret" => { let t = p.ty()?; if t == Ty::Void { I::Ret(t, None) } else { let o = opd(p, f, &t)?; I::Ret(t, Some(o)) } }
        "unreachable" => I::Unreachable,
        "landingpad" | "cleanup" | "catch" | "filter" | "resume" | "cleanupret" | "catchswitch" | "catchpad" | "cleanuppad" => I::Unsupported(w.clone()),
        "extractvalue" => { let (_, a) = tyopd(p, f)?; let mut ix = vec![]; while p.eat(',') { if let Some(T::Num(_)) = p.peek() { ix.push(p.num()? as u32) } else { break; } } I::ExtractValue(a, ix) }
        "insertvalue" => { let (t, a) = tyopd(p, f)?; p.need(',')?; let (_, b) = tyopd(p, f)?; let mut ix = vec![]; while p.eat(',') { if let Some(T::Num(_)) = p.peek() { ix.push(p.num()? as u32) } else { break; } } I::InsertValue(t, a, b, ix) }
        "extractelement" => { let (t, a) = tyopd(p, f)?; p.need(',')?; let (_, b) = tyopd(p, f)?; I::ExtractElement(t, a, b) }
        "insertelement" => { let (t, a) = tyopd(p, f)?; p.need(',')?; let (_, b) = tyopd(p, f)?; p.need(',')?; let (_, c) = tyopd(p, f)?; I::InsertElement(t, a, b, c) }
        "shufflevector" => {
            let (t, a) = tyopd(p, f)?; p.need(',')?; let (_, b) = tyopd(p, f)?; p.need(',')?;
            let mt = p.ty()?; let m = p.cst(&mt)?;
            let n = mt.n_elems();
            let m = match m {
                Cst::Zero => vec![Some(0); n], Cst::Undef => vec![None; n],
                Cst::Agg(v) => v.into_iter().map(|(_, c)| match c { Cst::Int(v) => Some(v as u32), _ => None }).collect(),
                Cst::Splat(_, c) => vec![match *c { Cst::Int(v) => Some(v as u32), _ => None }; n],
                _ => return Err("shuffle mask".into()),
            };
            I::Shuffle(t, a, b, m)
        }
        "freeze" => { let (_, a) = tyopd(p, f)?; I::Freeze(a) }
        "fence" => I::Nop,
        "atomicrmw" => {
            p.eatw("volatile");
            let op = match p.next()? { T::Word(w) => w, _ => return Err("rmw".into()) };
            let (_, a) = tyopd(p, f)?; p.need(',')?; let (t, v) = tyopd(p, f)?;
            I::AtomicRmw(op, t, a, v)
        }
        "cmpxchg" => {
            p.eatw("weak"); p.eatw("volatile");
            let (_, a) = tyopd(p, f)?; p.need(',')?; let (t, c) = tyopd(p, f)?; p.need(',')?; let (_, n) = tyopd(p, f)?;
            I::CmpXchg(t, a, c, n)
        }
        "phi" => {
            flags(p);
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.need('[')?;
                let o = opd(p, f, &t)?; p.need(',')?;
                let l = match p.next()? { T::Local(n) => *f.labels.get(&n).ok_or("phi label".to_string())?, _ => return Err("phi".into()) };
                p.need(']')?;
                v.push((l, o));
                if p.eat(',') && p.isp('[') { continue; }
                break;
            }
            phis.push((dst, t, v));
            return Ok(None);
        }
        _ => I::Unsupported(w.clone()),
    };
    Ok(Some(Instr { dst, i }))
}

pub fn parse(text: &str) -> Module {
    let mut m = Module::default();
    let lines: Vec<&str> = text.lines().collect();
    // types
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            if let T::Local(n) = &t[0] {
                let mut p = Ps { t: &t, i: 3, types: &m.types };
                if let Ok(ty) = p.ty() { let n = n.clone(); m.types.insert(n, ty); }
            }
        }
    }
    let types = std::mem::take(&mut m.types);
    let mut noret: FxMap<String, bool> = Default::default();
    for l in &lines {
        if l.starts_with("attributes #") {
            let t = lex(l);
            if let Some(T::Attr(a)) = t.get(1) { noret.insert(a.clone(), t.iter().any(|x| *x == T::Word("noreturn".into()))); }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            match parse_global(l, &types) { Ok(Some(g)) => m.globals.push(g), Ok(None) => {}, Err(e) => panic!("global: {} in {}", e, &l[..l.len().min(300)]) }
        } else if l.starts_with("declare ") {
            let t = lex(l);
            if let Some(T::Global(n)) = t.iter().find(|x| matches!(x, T::Global(_))) { m.decls.push(n.clone()); }
        } else if l.starts_with("define ") {
            let start = i;
            while lines[i] != "}" { i += 1; }
            let f = parse_func(&lines[start..i], &types, &noret);
            m.fidx.insert(f.name.clone(), m.funcs.len() as u32);
            m.funcs.push(f);
        }
        i += 1;
    }
    m.types = types;
    m
}

fn parse_global(l: &str, types: &FxMap<String, Ty>) -> R<Option<Global>> {
    let t = lex(l);
    let mut p = Ps { t: &t, i: 0, types };
    let name = match p.next()? { T::Global(n) => n, _ => return Ok(None) };
    p.need('=')?;
    let mut constant = false; let mut ext = false; let mut is_alias = false;
    loop {
        match p.peek() {
            Some(T::Word(w)) if w == "global" => { p.i += 1; break; }
            Some(T::Word(w)) if w == "constant" => { constant = true; p.i += 1; break; }
            Some(T::Word(w)) if w == "alias" => { is_alias = true; p.i += 1; break; }
            Some(T::Word(w)) => { if w == "external" || w == "extern_weak" { ext = true; } p.i += 1; if p.isp('(') { p.skip_parens()?; } }
            _ => return Err("global kw".into()),
        }
    }
    if is_alias { return Ok(None); }
    let ty = p.ty()?;
    let init = if ext { None } else { Some(p.cst(&ty)?) };
    let mut align = 8;
    while let Ok(t) = p.next() { if t == T::Word("align".into()) { if let Ok(n) = p.num() { align = n as u64; } } }
    Ok(Some(Global { name, ty, init, align, constant }))
}

fn parse_func(ls: &[&str], types: &FxMap<String, Ty>, noret: &FxMap<String, bool>) -> Func {
    let t = lex(ls[0]);
    let gi = t.iter().position(|x| matches!(x, T::Global(_))).unwrap();
    let name = if let T::Global(n) = &t[gi] { n.clone() } else { unreachable!() };
    let mut f = FnCtx { regs: Default::default(), n: 0, labels: Default::default() };
    let mut func = Func { name: name.clone(), ..Default::default() };
    // params
    let mut d = 0; let mut k = gi + 1; let mut unnamed = 0u32;
    let mut cur_has = false; let mut cur_name: Option<String> = None;
    loop {
        match &t[k] {
            T::P('(') | T::P('[') | T::P('{') => d += 1,
            T::P(')') | T::P(']') | T::P('}') => { d -= 1; }
            T::Local(n) if d == 1 => { cur_name = Some(n.clone()); }
            _ => {}
        }
        if !(k == gi + 1) && d >= 1 && !matches!(&t[k], T::P(',')) { cur_has = true; }
        if (d == 1 && t[k] == T::P(',')) || d == 0 {
            if cur_has || cur_name.is_some() {
                let n = cur_name.take().unwrap_or_else(|| { let s = unnamed.to_string(); s });
                unnamed += 1;
                let r = f.reg(&n);
                func.params.push(r);
            }
            cur_has = false;
        }
        if d == 0 { break; }
        k += 1;
    }
    if let Some(T::Attr(_)) = t.get(k + 1) {}
    func.noreturn = t[k..].iter().any(|x| if let T::Attr(a) = x { noret.get(a).copied().unwrap_or(false) } else { false });
    // labels
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let entry = func.params.len().to_string();
    let mut curname = entry; let mut first = true;
    let mut cur: Vec<String> = vec![];
    let mut j = 1;
    while j < ls.len() {
        let l = ls[j];
        if l.is_empty() { j += 1; continue; }
        if !l.starts_with(' ') && !l.starts_with('\t') {
            // label
            let lab = l.split(':').next().unwrap();
            let lab = if l.starts_with('"') { let e = l[1..].find('"').unwrap(); l[1..1 + e].to_string() } else { lab.to_string() };
            if !(first && cur.is_empty()) { blocks.push((std::mem::take(&mut curname), std::mem::take(&mut cur))); }
            first = false;
            curname = lab;
        } else {
            first = false;
            let mut s = l.trim().to_string();
            if s.starts_with("switch ") || s.contains(" switch ") { while !s.trim_end().ends_with(']') && !s.contains("], !") && !s.contains("] ,") { j += 1; s.push(' '); s.push_str(ls[j].trim()); if ls[j].trim().starts_with(']') { break; } } }
            else if s.contains("landingpad") { cur.push(s); j += 1; while j < ls.len() && (ls[j].trim().starts_with("cleanup") || ls[j].trim().starts_with("catch ") || ls[j].trim().starts_with("filter ")) { j += 1; } continue; }
            else if s.contains("invoke ") && !s.contains(" unwind label") { j += 1; s.push(' '); s.push_str(ls[j].trim()); }
            cur.push(s);
        }
        j += 1;
    }
    blocks.push((curname, cur));
    for (n, (l, _)) in blocks.iter().enumerate() { f.labels.insert(l.clone(), n as u32); }
    for (n, body) in &blocks {
        let mut b = Block { name: n.clone(), ..Default::default() };
        for s in body {
            let toks = lex(s);
            if toks.is_empty() { continue; }
            let mut p = Ps { t: &toks, i: 0, types };
            match parse_instr(&mut p, &mut f, &mut b.phis) {
                Ok(Some(i)) => b.ins.push(i),
                Ok(None) => {}
                Err(e) => {
                    // an instruction that cannot be parsed is an error only if executed
                    let mut dst = NODST;
                    if let (Some(T::Local(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) { dst = f.reg(n); }
                    b.ins.push(Instr { dst, i: I::Unsupported(format!("parse: {} in `{}`", e, s.chars().take(200).collect::<String>())) });
                }
            }
        }
        func.blocks.push(b);
    }
    func.nregs = f.n;
    func
}
