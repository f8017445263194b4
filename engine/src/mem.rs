//! Flat byte-addressed memory made of 64 KiB slots; copy-on-write between states.
use crate::expr::E;
use std::rc::Rc;

pub const SLOT_BITS: u32 = 16;
pub const SLOT: u64 = 1 << SLOT_BITS;
/// first slot of the per-state region (below: engine-global constants and statics)
pub const STATE_SLOT0: u64 = 1 << 22;
pub const FN_BASE: u64 = 1 << 46;
const PAGE: usize = 64;

#[derive(Clone)]
pub struct Alloc {
    pub base: u64,
    pub align: u32,
    pub data: Vec<u8>,
    /// symbolic bytes, sorted by offset
    pub sym: Vec<(u32, E)>,
    pub ro: bool,
}
impl Alloc {
    #[inline]
    pub fn sym_range(&self, off: u32, len: u32) -> (usize, usize) {
        if self.sym.is_empty() { return (0, 0); }
        let a = self.sym.partition_point(|x| x.0 < off);
        let b = a + self.sym[a..].partition_point(|x| x.0 < off + len);
        (a, b)
    }
    #[inline]
    pub fn clear_sym(&mut self, off: u32, len: u32) {
        if self.sym.is_empty() { return; }
        let (a, b) = self.sym_range(off, len);
        if a != b { self.sym.drain(a..b); }
    }
    pub fn set_sym(&mut self, off: u32, items: &[(u32, E)], len: u32) {
        let (a, b) = self.sym_range(off, len);
        self.sym.splice(a..b, items.iter().copied());
    }
}

#[derive(Clone)]
pub enum Slot { Empty, A(Rc<Alloc>), Cont(u64) }

#[derive(Clone)]
pub struct SlotTable { pages: Vec<Rc<[Slot; PAGE]>>, free: Vec<u64>, next: u64 }

impl SlotTable {
    pub fn new() -> Self { SlotTable { pages: vec![], free: vec![], next: 0 } }
    #[inline]
    pub fn get(&self, s: u64) -> Option<&Rc<Alloc>> {
        let p = self.pages.get((s as usize) / PAGE)?;
        match &p[(s as usize) % PAGE] {
            Slot::A(a) => Some(a),
            Slot::Empty => None,
            Slot::Cont(f) => { let f = *f; match &self.pages[(f as usize) / PAGE][(f as usize) % PAGE] { Slot::A(a) => Some(a), _ => None } }
        }
    }
    #[inline]
    pub fn get_mut(&mut self, s: u64) -> Option<&mut Alloc> {
        let f = {
            let p = self.pages.get((s as usize) / PAGE)?;
            match &p[(s as usize) % PAGE] { Slot::A(_) => s, Slot::Empty => return None, Slot::Cont(f) => *f }
        };
        let p = Rc::make_mut(&mut self.pages[(f as usize) / PAGE]);
        match &mut p[(f as usize) % PAGE] { Slot::A(a) => Some(Rc::make_mut(a)), _ => None }
    }
    fn put(&mut self, s: u64, v: Slot) {
        let pi = (s as usize) / PAGE;
        while self.pages.len() <= pi { self.pages.push(Rc::new(std::array::from_fn(|_| Slot::Empty))); }
        Rc::make_mut(&mut self.pages[pi])[(s as usize) % PAGE] = v;
    }
    /// reserve slot(s) for `size` bytes; returns first slot
    pub fn reserve(&mut self, size: u64) -> u64 {
        let n = if size == 0 { 1 } else { (size + SLOT - 1) >> SLOT_BITS };
        if n == 1 { if let Some(s) = self.free.pop() { return s; } }
        let s = self.next;
        self.next += n;
        s
    }
    pub fn insert(&mut self, s: u64, a: Alloc) {
        let n = ((a.data.len() as u64) + SLOT - 1) >> SLOT_BITS;
        self.put(s, Slot::A(Rc::new(a)));
        for i in 1..n { self.put(s + i, Slot::Cont(s)); }
    }
    pub fn insert_rc(&mut self, s: u64, a: Rc<Alloc>) {
        let n = ((a.data.len() as u64) + SLOT - 1) >> SLOT_BITS;
        self.put(s, Slot::A(a));
        for i in 1..n { self.put(s + i, Slot::Cont(s)); }
    }
    pub fn remove(&mut self, s: u64) -> bool {
        let n = match self.get(s) { Some(a) => ((a.data.len() as u64) + SLOT - 1) >> SLOT_BITS, None => return false };
        self.put(s, Slot::Empty);
        for i in 1..n { self.put(s + i, Slot::Empty); }
        if n <= 1 { self.free.push(s); }
        true
    }
    pub fn count(&self) -> u64 { self.next }
}
