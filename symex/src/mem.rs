//! Concrete-address memory with symbolic bytes; copy-on-write between states.
use crate::expr::*;
use std::rc::Rc;

pub const SLOT: u32 = 22;
pub const HEAP_BASE: u64 = 1 << 44;
pub const GBASE: u64 = 0x1000_0000;
pub const FBASE: u64 = 0x0010_0000;

#[derive(Clone, Debug)]
pub enum Val { C(u64), E(E), Agg(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, otherwise ((E as u64)+1) << 8 | byte index
    pub cells: Option<Vec<u64>>,
    /// bitset of uninitialised bytes
    pub undef: Option<Vec<u64>>,
    pub heap: bool,
    pub constant: bool,
}
impl Obj {
    pub fn new(size: u64, undef: bool, heap: bool) -> Obj {
        Obj { size, data: vec![0; size as usize], cells: None, undef: if undef && size > 0 { Some(vec![u64::MAX; (size as usize + 63) / 64]) } else { None }, heap, constant: false }
    }
    #[inline] pub fn is_undef(&self, i: usize) -> bool { match &self.undef { Some(u) => u[i / 64] >> (i % 64) & 1 == 1, None => false } }
    #[inline] pub fn set_def(&mut self, i: usize) { if let Some(u) = &mut self.undef { u[i / 64] &= !(1 << (i % 64)); } }
    pub fn set_undef(&mut self, i: usize) {
        if self.undef.is_none() { self.undef = Some(vec![0; (self.size as usize + 63) / 64]); }
        self.undef.as_mut().unwrap()[i / 64] |= 1 << (i % 64);
    }
}

const CH: usize = 64;
type Chunk = Rc<[Option<Rc<Obj>>; CH]>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>,
    next: u64,
    pub globals: Rc<Vec<Option<Rc<Obj>>>>,
    pub gstart: Rc<Vec<u64>>,
    pub gmod: FxMap<u32, Rc<Obj>>,
    pub live_heap: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Id { H(u64), G(u32) }

#[derive(Debug)]
pub struct MemErr(pub String);

impl Mem {
    pub fn new(globals: Vec<Option<Rc<Obj>>>, gstart: Vec<u64>) -> Mem {
        Mem { chunks: vec![], next: 0, globals: Rc::new(globals), gstart: Rc::new(gstart), gmod: Default::default(), live_heap: 0 }
    }
    pub fn alloc(&mut self, size: u64, undef: bool, heap: bool) -> Result<u64, MemErr> {
        if size >= (1 << SLOT) - 64 { return Err(MemErr(format!("allocation of {} bytes exceeds the modelled object size", size))); }
        let id = self.next;
        self.next += 1;
        if id as usize / CH >= self.chunks.len() { self.chunks.push(Rc::new(std::array::from_fn(|_| None))); }
        Rc::make_mut(self.chunks.last_mut().unwrap())[id as usize % CH] = Some(Rc::new(Obj::new(size, undef, heap)));
        if heap { self.live_heap += 1; }
        Ok(HEAP_BASE + (id << SLOT))
    }
    pub fn free(&mut self, addr: u64, heap: bool) -> Result<(), MemErr> {
        if addr < HEAP_BASE || (addr - HEAP_BASE) & ((1 << SLOT) - 1) != 0 { return Err(MemErr("free of a pointer that is not an allocation start".into())); }
        let id = (addr - HEAP_BASE) >> SLOT;
        let c = id as usize / CH;
        if c >= self.chunks.len() || self.chunks[c][id as usize % CH].is_none() { return Err(MemErr("double free".into())); }
        let slot = &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH];
        if heap && !slot.as_ref().unwrap().heap { return Err(MemErr("free of a stack object".into())); }
        if heap { self.live_heap -= 1; }
        *slot = None;
        Ok(())
    }
    #[inline]
    pub fn find(&self, addr: u64) -> Option<(Id, u64)> {
        if addr >= HEAP_BASE {
            let o = addr - HEAP_BASE;
            Some((Id::H(o >> SLOT), o & ((1 << SLOT) - 1)))
        } else if addr >= GBASE {
            let i = self.gstart.partition_point(|&s| s <= addr);
            if i == 0 { return None; }
            Some((Id::G(i as u32 - 1), addr - self.gstart[i - 1]))
        } else { None }
    }
    #[inline]
    pub fn obj(&self, id: Id) -> Option<&Obj> {
        match id {
            Id::H(i) => { let c = i as usize / CH; self.chunks.get(c).and_then(|ch| ch[i as usize % CH].as_deref()) }
            Id::G(i) => self.gmod.get(&i).map(|r| &**r).or_else(|| self.globals[i as usize].as_deref()),
        }
    }
    pub fn obj_mut(&mut self, id: Id) -> Option<&mut Obj> {
        match id {
            Id::H(i) => {
                let c = i as usize / CH;
                if c >= self.chunks.len() || self.chunks[c][i as usize % CH].is_none() { return None; }
                Rc::make_mut(&mut self.chunks[c])[i as usize % CH].as_mut().map(Rc::make_mut)
            }
            Id::G(i) => {
                if !self.gmod.contains_key(&i) { let o = self.globals[i as usize].clone()?; self.gmod.insert(i, o); }
                self.gmod.get_mut(&i).map(Rc::make_mut)
            }
        }
    }
    pub fn check(&self, addr: u64, n: u64) -> Result<(Id, usize), MemErr> {
        let (id, off) = self.find(addr).ok_or_else(|| MemErr(format!("access of {} bytes through an invalid pointer {:#x}", n, addr)))?;
        let o = self.obj(id).ok_or_else(|| MemErr(format!("access to freed or unallocated memory")))?;
        if off + n > o.size { return Err(MemErr(format!("out-of-bounds access: {} bytes at offset {} of an object of {} bytes", n, off, o.size))); }
        Ok((id, off as usize))
    }
    /// load n bytes (n*8 bits) as a scalar value
    pub fn load(&self, p: &mut Pool, addr: u64, n: u64) -> Result<Val, MemErr> {
        let (id, off) = self.check(addr, n)?;
        let o = self.obj(id).unwrap();
        let n = n as usize;
        let und = o.undef.is_some() && (off..off + n).any(|i| o.is_undef(i));
        let sym = match &o.cells { Some(c) => c[off..off + n].iter().any(|&x| x != 0), None => false };
        if !und && !sym {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::E(p.cst(n as u16 * 8, u128::from_le_bytes(b))));
        }
        if sym {
            // whole real expression?
            let c = o.cells.as_ref().unwrap();
            let e = (c[off] >> 8).wrapping_sub(1) as E;
            if c[off] != 0 && p.w(e) == 0 {
                if (0..n).all(|k| c[off + k] == (((e as u64) + 1) << 8 | k as u64)) && (n == 8 || n == 4) { return Ok(Val::E(e)); }
                return Err(MemErr("unsupported: partial access to a symbolic real".into()));
            }
            if c[off] != 0 && p.w(e) as usize == 8 * n && (0..n).all(|k| c[off + k] == (((e as u64) + 1) << 8 | k as u64)) { return Ok(Val::E(e)); }
        }
        let all_und = und && !sym && (off..off + n).all(|i| o.is_undef(i));
        if all_und { return Ok(Val::E(p.undef(n as u16 * 8))); }
        let mut acc: Option<E> = None;
        for k in (0..n).rev() {
            let c = o.cells.as_ref().map(|c| c[off + k]).unwrap_or(0);
            let b = if c != 0 {
                let e = (c >> 8).wrapping_sub(1) as E;
                if p.w(e) == 0 { return Err(MemErr("unsupported: partial access to a symbolic real".into())); }
                p.extract(e, (c & 255) as u16 * 8, 8)
            } else if o.is_undef(off + k) { p.undef(8) } else { p.cst(8, o.data[off + k] as u128) };
            acc = Some(match acc { None => b, Some(h) => p.concat(h, b) });
        }
        let e = acc.unwrap();
        Ok(match p.is_const(e) { Some(v) if n <= 8 => Val::C(v as u64), _ => Val::E(e) })
    }
    pub fn store(&mut self, p: &mut Pool, addr: u64, n: u64, v: &Val) -> Result<(), MemErr> {
        let (id, off) = self.check(addr, n)?;
        let o = self.obj_mut(id).unwrap();
        if o.constant { return Err(MemErr("write to constant memory".into())); }
        let n = n as usize;
        if o.undef.is_some() { for i in off..off + n { o.set_def(i); } }
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(c) = &mut o.cells { for i in off..off + n { c[i] = 0; } }
            }
            Val::E(e) => {
                if let Some(k) = p.is_const(*e) {
                    let b = k.to_le_bytes();
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                    if let Some(c) = &mut o.cells { for i in off..off + n { c[i] = 0; } }
                    return Ok(());
                }
                let w = p.w(*e);
                let e = if w != 0 && (w as usize) < 8 * n { p.zext(*e, 8 * n as u16) } else { *e };
                if p.n(e).op == Op::Undef { for i in off..off + n { o.set_undef(i); } if let Some(c) = &mut o.cells { for i in off..off + n { c[i] = 0; } } return Ok(()); }
                if o.cells.is_none() { o.cells = Some(vec![0; o.size as usize]); }
                let c = o.cells.as_mut().unwrap();
                // decompose concatenations / extensions so that constant bytes stay concrete
                for k in 0..n {
                    if w == 0 { c[off + k] = ((e as u64) + 1) << 8 | k as u64; continue; }
                    let b = if p.n(e).op == Op::Concat || p.n(e).op == Op::ZExt { let x = p.extract(e, k as u16 * 8, 8); if let Some(v) = p.is_const(x) { c[off + k] = 0; o.data[off + k] = v as u8; continue; } ((e as u64) + 1) << 8 | k as u64 } else { ((e as u64) + 1) << 8 | k as u64 };
                    c[off + k] = b;
                }
            }
            Val::Agg(_) => return Err(MemErr("store of aggregate".into())),
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let (sid, so) = self.check(src, n)?;
        let (did, dof) = self.check(dst, n)?;
        let n = n as usize;
        let (data, cells, und): (Vec<u8>, Option<Vec<u64>>, Option<Vec<bool>>) = {
            let s = self.obj(sid).unwrap();
            (s.data[so..so + n].to_vec(), s.cells.as_ref().map(|c| c[so..so + n].to_vec()).filter(|c| c.iter().any(|&x| x != 0)), s.undef.as_ref().map(|_| (so..so + n).map(|i| s.is_undef(i)).collect::<Vec<bool>>()).filter(|v| v.iter().any(|&b| b)))
        };
        let d = self.obj_mut(did).unwrap();
        if d.constant { return Err(MemErr("write to constant memory".into())); }
        d.data[dof..dof + n].copy_from_slice(&data);
        match cells {
            Some(c) => { if d.cells.is_none() { d.cells = Some(vec![0; d.size as usize]); } d.cells.as_mut().unwrap()[dof..dof + n].copy_from_slice(&c); }
            None => if let Some(dc) = &mut d.cells { for x in &mut dc[dof..dof + n] { *x = 0; } },
        }
        match und {
            Some(u) => for (k, b) in u.iter().enumerate() { if *b { d.set_undef(dof + k) } else { d.set_def(dof + k) } },
            None => if d.undef.is_some() { for i in dof..dof + n { d.set_def(i) } },
        }
        Ok(())
    }
    pub fn read_concrete(&self, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (id, off) = self.check(addr, n).ok()?;
        let o = self.obj(id)?;
        if let Some(c) = &o.cells { if c[off..off + n as usize].iter().any(|&x| x != 0) { return None; } }
        Some(o.data[off..off + n as usize].to_vec())
    }
}
