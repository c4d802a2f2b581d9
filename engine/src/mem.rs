//! Byte-granular symbolic memory with copy-on-write objects at well separated concrete addresses.
use crate::expr::*;
use crate::ll::{BASE_OFF, V};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Stack, Heap, Global }

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// 0 concrete, 1 uninitialised, 2 symbolic
    pub st: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
    pub kind: Kind,
    pub ro: bool,
    pub align: u64,
}

pub const DYN: u32 = 1 << 20;
const CH: usize = 256;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u32,
    pub heap_live: u64,
}

pub fn addr_of(id: u32) -> u64 { ((id as u64) << 24) + BASE_OFF }

impl Obj {
    pub fn new(size: u64, kind: Kind, zero: bool, align: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], st: vec![if zero { 0 } else { 1 }; size as usize], sym: BTreeMap::new(), kind, ro: false, align }
    }
    pub fn uninit_in(&self, off: u64, n: u64) -> bool { self.st[off as usize..(off + n) as usize].iter().any(|&s| s == 1) }
    /// little-endian read of n bytes as a value of 8n bits
    pub fn read(&self, off: u64, n: u64, fresh: &mut dyn FnMut() -> E) -> V {
        let (o, k) = (off as usize, n as usize);
        let st = &self.st[o..o + k];
        if st.iter().all(|&s| s == 0) {
            let mut b = [0u8; 16];
            b[..k].copy_from_slice(&self.data[o..o + k]);
            return V::C(u128::from_le_bytes(b));
        }
        if st.iter().all(|&s| s == 1) { return V::U; }
        let mut e: Option<E> = None;
        for i in 0..k {
            let b = match self.st[o + i] {
                0 => cst(8, self.data[o + i] as u128),
                1 => fresh(),
                _ => self.sym[&((o + i) as u32)],
            };
            e = Some(match e { None => b, Some(l) => cat(b, l) });
        }
        let e = e.unwrap();
        match is_const(e) { Some(c) => V::C(c), None => V::S(e) }
    }
    pub fn byte(&self, off: u64) -> Option<E> {
        match self.st[off as usize] { 0 => Some(cst(8, self.data[off as usize] as u128)), 1 => None, _ => Some(self.sym[&(off as u32)]) }
    }
    pub fn set_byte(&mut self, off: u64, e: Option<E>) {
        let o = off as usize;
        if self.st[o] == 2 { self.sym.remove(&(o as u32)); }
        match e {
            None => self.st[o] = 1,
            Some(e) => match is_const(e) {
                Some(c) => { self.st[o] = 0; self.data[o] = c as u8; }
                None => { self.st[o] = 2; self.sym.insert(o as u32, e); }
            },
        }
    }
    fn clear_sym(&mut self, off: usize, k: usize) {
        if !self.sym.is_empty() {
            for i in off..off + k { if self.st[i] == 2 { self.sym.remove(&(i as u32)); } }
        }
    }
    pub fn write(&mut self, off: u64, n: u64, v: &V) {
        let (o, k) = (off as usize, n as usize);
        match v {
            V::C(c) => {
                self.clear_sym(o, k);
                self.data[o..o + k].copy_from_slice(&c.to_le_bytes()[..k]);
                self.st[o..o + k].fill(0);
            }
            V::U => { self.clear_sym(o, k); self.st[o..o + k].fill(1); }
            V::S(e) => {
                let w = width(*e);
                for i in 0..k {
                    let lo = 8 * i as u32;
                    let b = if lo + 8 <= w { extract(*e, lo, 8) } else if lo < w { zext(extract(*e, lo, w - lo), 8) } else { cst(8, 0) };
                    self.set_byte(off + i as u64, Some(b));
                }
            }
            V::A(_) => panic!("aggregate write"),
        }
    }
}

impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let i = self.next as usize;
        self.next += 1;
        if i / CH >= self.chunks.len() { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        if o.kind == Kind::Heap { self.heap_live += 1; }
        Rc::make_mut(&mut self.chunks[i / CH]).push(Some(Rc::new(o)));
        DYN + i as u32
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let i = (id - DYN) as usize;
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = (id - DYN) as usize;
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?);
        Some(Rc::make_mut(c.get_mut(i % CH)?.as_mut()?))
    }
    pub fn free(&mut self, id: u32) {
        let i = (id - DYN) as usize;
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        if let Some(o) = &c[i % CH] { if o.kind == Kind::Heap { self.heap_live -= 1; } }
        c[i % CH] = None;
    }
    pub fn was_allocated(&self, id: u32) -> bool { id >= DYN && id - DYN < self.next }
    pub fn count(&self) -> u32 { self.next }
}
