//! Object-based byte memory with copy-on-write sharing between states.
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
}
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    pub alive: bool,
    pub site: u32,
    pub data: Vec<u8>,
    /// empty: everything concrete; otherwise 0 concrete, 1 uninitialised, 2 symbolic
    pub mask: Vec<u8>,
    pub syms: BTreeMap<u32, Expr>,
}
const CH: usize = 64;
#[derive(Clone)]
pub struct Chunk([Option<Arc<Obj>>; CH]);
impl Chunk {
    fn empty() -> Self {
        Chunk(std::array::from_fn(|_| None))
    }
}
#[derive(Clone, Default)]
pub struct Table(Vec<Arc<Chunk>>);
impl Table {
    #[inline]
    fn get(&self, i: usize) -> Option<&Obj> {
        self.0.get(i / CH)?.0[i % CH].as_deref()
    }
    #[inline]
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.0.get_mut(i / CH)?;
        Some(Arc::make_mut(Arc::make_mut(c).0[i % CH].as_mut()?))
    }
    fn set(&mut self, i: usize, o: Option<Arc<Obj>>) {
        while self.0.len() <= i / CH {
            self.0.push(Arc::new(Chunk::empty()));
        }
        Arc::make_mut(&mut self.0[i / CH]).0[i % CH] = o;
    }
}
pub const STACK0: u64 = 0x0010_0000;
pub const STACKN: u64 = 1 << 14;
pub const HEAP0: u64 = 0x0100_0000;
#[derive(Clone, Default)]
pub struct Mem {
    globals: Table,
    stack: Table,
    heap: Table,
    next_stack: u64,
    next_heap: u64,
    pub live_stack: u64,
}
#[derive(Debug, Clone)]
pub enum MemErr {
    Null,
    Invalid(u64),
    Oob { off: i64, n: u64, size: u64, kind: Kind },
    Uaf { kind: Kind },
    ReadOnly,
    Misaligned(u64, u64),
}
impl MemErr {
    pub fn kind(&self) -> &'static str {
        match self {
            MemErr::Null => "null-dereference",
            MemErr::Invalid(_) => "invalid-pointer",
            MemErr::Oob { .. } => "out-of-bounds",
            MemErr::Uaf { .. } => "use-after-free",
            MemErr::ReadOnly => "write-to-readonly",
            MemErr::Misaligned(..) => "misaligned-access",
        }
    }
}
impl Mem {
    pub fn init_globals(m: &Module) -> Mem {
        let mut mem = Mem::default();
        for (i, g) in m.globals.iter().enumerate() {
            if g.ext_weak {
                continue;
            }
            let o = Obj {
                base: slot_base(GLOBAL_SLOT0 + i as u64, g.align),
                size: g.size,
                align: g.align,
                kind: Kind::Global,
                ro: g.constant,
                alive: true,
                site: 0,
                data: g.data.clone(),
                mask: g.uninit.clone(),
                syms: BTreeMap::new(),
            };
            mem.globals.set(i, Some(Arc::new(o)));
        }
        mem
    }
    #[inline]
    pub fn obj(&self, addr: u64) -> Option<&Obj> {
        let s = addr >> 32;
        if s >= HEAP0 {
            self.heap.get((s - HEAP0) as usize)
        } else if s >= STACK0 {
            self.stack.get((s - STACK0) as usize)
        } else if s >= GLOBAL_SLOT0 {
            self.globals.get((s - GLOBAL_SLOT0) as usize)
        } else {
            None
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let s = addr >> 32;
        if s >= HEAP0 {
            self.heap.get_mut((s - HEAP0) as usize)
        } else if s >= STACK0 {
            self.stack.get_mut((s - STACK0) as usize)
        } else if s >= GLOBAL_SLOT0 {
            self.globals.get_mut((s - GLOBAL_SLOT0) as usize)
        } else {
            None
        }
    }
    fn mk(base: u64, size: u64, align: u64, kind: Kind, zero: bool, site: u32) -> Arc<Obj> {
        Arc::new(Obj {
            base,
            size,
            align,
            kind,
            ro: false,
            alive: true,
            site,
            data: vec![0; size as usize],
            mask: if zero { vec![] } else { vec![1; size as usize] },
            syms: BTreeMap::new(),
        })
    }
    pub fn alloc_stack(&mut self, size: u64, align: u64) -> Option<u64> {
        if self.live_stack >= STACKN - 64 {
            return None;
        }
        let mut s = self.next_stack;
        while self.stack.get(s as usize).is_some() {
            s = (s + 1) % STACKN;
        }
        self.next_stack = (s + 1) % STACKN;
        self.live_stack += 1;
        let base = slot_base(STACK0 + s, align);
        self.stack.set(s as usize, Some(Self::mk(base, size, align, Kind::Stack, false, 0)));
        Some(base)
    }
    pub fn free_stack(&mut self, addr: u64) {
        self.live_stack -= 1;
        self.stack.set(((addr >> 32) - STACK0) as usize, None);
    }
    pub fn alloc_heap(&mut self, size: u64, align: u64, zero: bool, site: u32) -> u64 {
        let s = self.next_heap;
        self.next_heap += 1;
        let base = slot_base(HEAP0 + s, align);
        self.heap.set(s as usize, Some(Self::mk(base, size, align, Kind::Heap, zero, site)));
        base
    }
    pub fn free_heap(&mut self, addr: u64) {
        if let Some(o) = self.obj_mut(addr) {
            o.alive = false;
            o.data = vec![];
            o.mask = vec![];
            o.syms.clear();
        }
    }
    pub fn heap_count(&self) -> u64 {
        self.next_heap
    }
    pub fn live_heap(&self) -> Vec<(u64, u64, u32)> {
        let mut v = vec![];
        for i in 0..self.next_heap {
            if let Some(o) = self.heap.get(i as usize) {
                if o.alive {
                    v.push((o.base, o.size, o.site));
                }
            }
        }
        v
    }
    /// Check an access and return the offset in the object.
    #[inline]
    pub fn check(&self, addr: u64, n: u64, write: bool) -> Result<u64, MemErr> {
        if addr < 0x1_0000_0000 {
            return Err(if addr < 4096 { MemErr::Null } else { MemErr::Invalid(addr) });
        }
        let s = addr >> 32;
        let o = match self.obj(addr) {
            Some(o) => o,
            None => {
                if (STACK0..STACK0 + STACKN).contains(&s) {
                    return Err(MemErr::Uaf { kind: Kind::Stack });
                }
                return Err(MemErr::Invalid(addr));
            }
        };
        if !o.alive {
            return Err(MemErr::Uaf { kind: o.kind });
        }
        let off = addr.wrapping_sub(o.base) as i64;
        if off < 0 || (off as u64).saturating_add(n) > o.size {
            return Err(MemErr::Oob { off, n, size: o.size, kind: o.kind });
        }
        if write && o.ro {
            return Err(MemErr::ReadOnly);
        }
        Ok(off as u64)
    }
}
impl Obj {
    #[inline]
    pub fn byte(&self, off: usize) -> Val {
        if self.mask.is_empty() {
            return Val::C(self.data[off] as u128);
        }
        match self.mask[off] {
            0 => Val::C(self.data[off] as u128),
            1 => Val::U,
            _ => Val::E(self.syms[&(off as u32)].clone()),
        }
    }
    /// Read n bytes little endian as an 8n-bit value.
    pub fn read(&self, off: u64, n: u64) -> Val {
        let (o, n) = (off as usize, n as usize);
        if self.mask.is_empty() || self.mask[o..o + n].iter().all(|m| *m == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[o..o + n]);
            return Val::C(u128::from_le_bytes(b));
        }
        if self.mask[o..o + n].iter().all(|m| *m == 1) {
            return Val::U;
        }
        let mut v = self.byte(o + n - 1);
        let mut w = 8;
        for i in (0..n - 1).rev() {
            v = concat(&v, w, &self.byte(o + i), 8);
            w += 8;
        }
        v
    }
    pub fn set_byte(&mut self, off: usize, v: &Val) {
        match v {
            Val::C(c) => {
                self.data[off] = *c as u8;
                if !self.mask.is_empty() {
                    if self.mask[off] == 2 {
                        self.syms.remove(&(off as u32));
                    }
                    self.mask[off] = 0;
                }
            }
            Val::E(e) if pure_undef(e) => self.set_byte(off, &Val::U),
            Val::E(e) => {
                if self.mask.is_empty() {
                    self.mask = vec![0; self.size as usize];
                }
                self.mask[off] = 2;
                self.syms.insert(off as u32, e.clone());
            }
            Val::U => {
                if self.mask.is_empty() {
                    self.mask = vec![0; self.size as usize];
                }
                if self.mask[off] == 2 {
                    self.syms.remove(&(off as u32));
                }
                self.mask[off] = 1;
            }
            Val::A(_) => panic!("aggregate byte"),
        }
    }
    pub fn write(&mut self, off: u64, n: u64, v: &Val) {
        let (o, n) = (off as usize, n as usize);
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                self.data[o..o + n].copy_from_slice(&b[..n]);
                if !self.mask.is_empty() {
                    if !self.syms.is_empty() {
                        for i in o..o + n {
                            if self.mask[i] == 2 {
                                self.syms.remove(&(i as u32));
                            }
                        }
                    }
                    self.mask[o..o + n].fill(0);
                }
            }
            _ => {
                for i in 0..n {
                    let b = extract(v, (n * 8) as u32, (i * 8) as u32, 8);
                    self.set_byte(o + i, &b);
                }
            }
        }
    }
    /// Snapshot of a range, for copying.
    pub fn range(&self, off: u64, n: u64) -> (Vec<u8>, Vec<u8>, Vec<(u32, Expr)>) {
        let (o, n) = (off as usize, n as usize);
        let d = self.data[o..o + n].to_vec();
        if self.mask.is_empty() {
            return (d, vec![], vec![]);
        }
        let m = self.mask[o..o + n].to_vec();
        let s = if self.syms.is_empty() { vec![] } else { self.syms.range(o as u32..(o + n) as u32).map(|(k, e)| (k - o as u32, e.clone())).collect() };
        (d, m, s)
    }
    pub fn put_range(&mut self, off: u64, r: &(Vec<u8>, Vec<u8>, Vec<(u32, Expr)>)) {
        let o = off as usize;
        let n = r.0.len();
        self.data[o..o + n].copy_from_slice(&r.0);
        if self.mask.is_empty() && (r.1.is_empty() || r.1.iter().all(|x| *x == 0)) {
            return;
        }
        if self.mask.is_empty() {
            self.mask = vec![0; self.size as usize];
        }
        if !self.syms.is_empty() {
            let ks: Vec<u32> = self.syms.range(o as u32..(o + n) as u32).map(|(k, _)| *k).collect();
            for k in ks {
                self.syms.remove(&k);
            }
        }
        if r.1.is_empty() {
            self.mask[o..o + n].fill(0);
        } else {
            self.mask[o..o + n].copy_from_slice(&r.1);
            for (k, e) in &r.2 {
                self.syms.insert(k + o as u32, e.clone());
            }
        }
    }
}
