//! Symbolic interpreter core: states, memory access, forking, function calls.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::posix::Posix;
use crate::z3::{Res, Z3};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_middle::mir::BinOp;
use rustc_middle::mir::interpret::AllocId;
use rustc_middle::ty::layout::LayoutCx;
use rustc_middle::ty::{self, Instance, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_span::def_id::DefId;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V { C(u128), S(E) }

#[derive(Debug)]
pub enum Stop {
    /// both outcomes of this condition are feasible; model for the outcome *not* taken by the current model
    Fork(E, bool, Vec<(u32, u128)>),
    /// path ends
    End(Outcome),
    /// current thread cannot proceed; reschedule
    Block,
    /// current thread finished
    ThreadEnd,
    Unsup(String),
}
#[derive(Debug, Clone)]
pub enum Outcome {
    Ok,
    Pruned,
    /// a harness assertion is violated
    Violation(String),
    Panic(String),
    Exit(i32),
    Deadlock,
    /// bounded resource exhausted
    Limit(String),
}
pub type R<T> = Result<T, Box<Stop>>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Box::new(Stop::Unsup(s.into()))) }
pub fn end<T>(o: Outcome) -> R<T> { Err(Box::new(Stop::End(o))) }

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub func: Rc<Func<'tcx>>,
    pub bb: Bb,
    pub ip: u32,
    pub base: u64,
    pub dst: u64,
    pub target: Option<Bb>,
    pub loc: u64,
    /// stack pointer before this frame
    pub sp: (u32, u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum TS {
    Run,
    /// waiting on a futex word; woken flag set by FUTEX_WAKE
    Futex { addr: u64, deadline: Option<u128>, mask: u32 },
    Join(usize),
    Pipe(u64),
    Sleep(u128),
    Done,
}
#[derive(Clone)]
pub struct Thread<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    /// stack chunks (one memory slot each) and the current (chunk, offset)
    pub stack: Vec<u64>,
    pub sp: (u32, u32),
    pub ts: TS,
    pub tls: FxHashMap<DefId, u64>,
    pub keys: FxHashMap<u64, V>,
    pub dtors: Vec<(u64, u64)>,
    pub errno: u64,
    pub retval: u64,
    pub woken: u8,
    pub name: String,
    pub yielded: bool,
    pub preempt_done: bool,
}
#[derive(Clone, Debug)]
pub struct Input { pub name: String, pub e: E, pub bits: u8 }

#[derive(Clone)]
pub struct State<'tcx> {
    pub mem: SlotTable,
    pub glw: SlotTable,
    pub threads: Vec<Thread<'tcx>>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub known: Rc<FxHashMap<E, bool>>,
    pub model: Rc<Vec<u128>>,
    pub inputs: Vec<Input>,
    pub notes: Vec<String>,
    pub steps: u64,
    pub forks: u32,
    pub px: Posix,
    pub need_sched: bool,
    /// in a forked child: the parent's state
    pub forked: Option<Box<State<'tcx>>>,
}

#[derive(Clone, Copy, Debug)]
pub enum ArgV { A(u64, u64), I(V, u64) }

pub enum FnKind<'tcx> {
    Mir(Rc<Func<'tcx>>),
    Intr(crate::intrin::Intr<'tcx>),
    Foreign(String),
    Over(crate::intrin::Over),
    NoMir(String),
    /// tuple constructor: field (offset, size) in argument order, tag (offset, size, value)
    Ctor(Rc<(Vec<(u64, u64)>, Option<(u64, u8, u128)>)>),
}
impl<'tcx> Clone for FnKind<'tcx> {
    fn clone(&self) -> Self {
        match self {
            FnKind::Mir(a) => FnKind::Mir(a.clone()),
            FnKind::Intr(a) => FnKind::Intr(a.clone()),
            FnKind::Foreign(a) => FnKind::Foreign(a.clone()),
            FnKind::Over(a) => FnKind::Over(*a),
            FnKind::NoMir(a) => FnKind::NoMir(a.clone()),
            FnKind::Ctor(a) => FnKind::Ctor(a.clone()),
        }
    }
}
pub struct FnEnt<'tcx> { pub inst: Instance<'tcx>, pub kind: Option<FnKind<'tcx>> }

pub struct Cfg { pub pin: std::collections::BTreeMap<String, Vec<u128>>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    pub trace: bool,
    pub trace_calls: bool,
    pub keep_going: bool,
    pub echo: bool, pub prof: bool,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub lcx: LayoutCx<'tcx>,
    pub gl: SlotTable,
    pub galloc_map: FxHashMap<AllocId, u64>,
    pub statics: FxHashMap<DefId, u64>,
    pub tls_inits: FxHashMap<DefId, Rc<Alloc>>,
    pub fid_map: FxHashMap<Instance<'tcx>, Fid>,
    pub fns: Vec<FnEnt<'tcx>>,
    pub loc_map: FxHashMap<Span, u64>,
    pub foreign_statics: FxHashMap<String, u64>,
    pub ex: Arena,
    pub z3: Z3,
    pub qcache: FxHashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub qhits: u64,
    pub cfg: Cfg,
    pub covers: FxHashMap<String, u64>,
    pub var_cache: FxHashMap<(String, u32, u8), E>,
    pub total_steps: u64,
    pub checks: u64,
    pub prof: FxHashMap<String, u64>,
    pub stub_log: FxHashMap<String, u64>,
    pub fork_sites: FxHashMap<String, u64>,
    pub instr_cache: FxHashSet<String>,
}

impl<'tcx> State<'tcx> {
    pub fn new() -> Self {
        State {
            mem: SlotTable::new(), glw: SlotTable::new(), threads: vec![], cur: 0, pc: vec![], known: Rc::new(Default::default()),
            model: Rc::new(vec![]), inputs: vec![], notes: vec![], steps: 0, forks: 0, px: Posix::new(), need_sched: false, forked: None,
        }
    }
    #[inline]
    pub fn th(&mut self) -> &mut Thread<'tcx> { let c = self.cur; &mut self.threads[c] }
    #[inline]
    pub fn fr(&mut self) -> &mut Frame<'tcx> { let c = self.cur; self.threads[c].frames.last_mut().unwrap() }
    pub fn add(&mut self, c: E, ex: &mut Arena) {
        if c == TRUE { return; }
        self.pc.push(c);
        self.learn(c, true, ex);
    }
    pub fn learn(&mut self, c: E, v: bool, ex: &mut Arena) {
        let k = Rc::make_mut(&mut self.known);
        k.insert(c, v);
        let n = ex.bnot(c);
        k.insert(n, !v);
        if v { if let Node::BAnd(a, b) = ex.n(c) { self.learn(a, true, ex); self.learn(b, true, ex); } }
        else if let Node::BOr(a, b) = ex.n(c) { self.learn(a, false, ex); self.learn(b, false, ex); }
    }
}

impl<'tcx> Eng<'tcx> {
    // ---------- solver ----------
    fn slice(&mut self, st: &State<'tcx>, c: E) -> Vec<E> {
        let mut vs: FxHashSet<u32> = self.ex.vars(c).iter().copied().collect();
        let mut out = vec![c];
        let mut rest: Vec<E> = st.pc.clone();
        loop {
            let n0 = rest.len();
            let mut keep = vec![];
            for p in rest {
                let pv = self.ex.vars(p);
                if pv.iter().any(|v| vs.contains(v)) {
                    vs.extend(pv.iter().copied());
                    out.push(p);
                } else { keep.push(p); }
            }
            if keep.len() == n0 { break; }
            rest = keep;
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    /// Is pc /\ c satisfiable? Returns assignments for the variables involved.
    pub fn sat_with(&mut self, st: &State<'tcx>, c: E) -> R<Option<Vec<(u32, u128)>>> {
        if c == FALSE { return Ok(None); }
        let q = self.slice(st, c);
        if let Some(r) = self.qcache.get(&q) { self.qhits += 1; return Ok(r.clone()); }
        let r = match self.z3.check(&mut self.ex, &q) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => return unsup("solver returned unknown (timeout)"),
        };
        self.qcache.insert(q, r.clone());
        Ok(r)
    }
    pub fn ev(&self, st: &State<'tcx>, e: E) -> u128 {
        let mut memo = FxHashMap::default();
        self.ex.eval(e, &st.model, &mut memo)
    }
    pub fn decide(&mut self, st: &mut State<'tcx>, c: E) -> R<bool> {
        if c == TRUE { return Ok(true); }
        if c == FALSE { return Ok(false); }
        if let Some(&v) = st.known.get(&c) { return Ok(v); }
        let mv = self.ev(st, c) != 0;
        let other = if mv { self.ex.bnot(c) } else { c };
        match self.sat_with(st, other)? {
            None => { st.learn(c, mv, &mut self.ex); Ok(mv) }
            Some(m) => Err(Box::new(Stop::Fork(c, mv, m))),
        }
    }
    fn settle(&mut self, st: &mut State<'tcx>, e: E) -> R<V> {
        if self.ex.vars(e).len() != 1 { return Ok(V::S(e)); }
        let z = self.ex.c(0, 8);
        let q = self.ex.eq(e, z);
        let c = self.ex.bnot(q);
        if c == TRUE { return Ok(V::C(1)); }
        if c == FALSE { return Ok(V::C(0)); }
        if let Some(&v) = st.known.get(&c) { return Ok(V::C(v as u128)); }
        let mv = self.ev(st, c) != 0;
        let other = if mv { q } else { c };
        if self.sat_with(st, other)?.is_some() { return Ok(V::S(e)); }
        st.learn(c, mv, &mut self.ex);
        Ok(V::C(mv as u128))
    }
    pub fn assume(&mut self, st: &mut State<'tcx>, c: E) -> R<()> {
        if c == TRUE { return Ok(()); }
        if c == FALSE { return end(Outcome::Pruned); }
        if let Some(&v) = st.known.get(&c) { return if v { Ok(()) } else { end(Outcome::Pruned) }; }
        if self.ev(st, c) != 0 { st.add(c, &mut self.ex); return Ok(()); }
        match self.sat_with(st, c)? {
            None => end(Outcome::Pruned),
            Some(m) => { apply_model(st, &m); st.add(c, &mut self.ex); Ok(()) }
        }
    }
    pub fn conc(&mut self, st: &mut State<'tcx>, v: V, bytes: u64) -> R<u128> {
        match v {
            V::C(x) => Ok(x),
            V::S(e) => {
                let x = self.ev(st, e);
                let c = self.ex.c(x, (bytes * 8) as u8);
                let q = self.ex.eq(e, c);
                if self.decide(st, q)? { Ok(x) } else { unsup("conc: model inconsistent") }
            }
        }
    }
    pub fn e(&mut self, v: V, bytes: u8) -> E {
        match v { V::C(x) => self.ex.c(x, bytes * 8), V::S(e) => e }
    }
    pub fn v(&self, e: E) -> V { match self.ex.cv(e) { Some(x) => V::C(x), None => V::S(e) } }
    pub fn vb(&mut self, c: E) -> V { let e = self.ex.b2v(c, 8); self.v(e) }

    // ---------- memory ----------
    #[inline]
    pub fn alloc_of<'s>(&'s self, st: &'s State<'tcx>, addr: u64) -> Option<&'s Alloc> {
        if addr >= FN_BASE { return None; }
        let s = addr >> SLOT_BITS;
        if s >= STATE_SLOT0 { st.mem.get(s - STATE_SLOT0).map(|a| &**a) }
        else { match st.glw.get(s) { Some(a) => Some(a), None => self.gl.get(s).map(|a| &**a) } }
    }
    #[inline]
    pub fn alloc_mut<'s>(&mut self, st: &'s mut State<'tcx>, addr: u64) -> Option<&'s mut Alloc> {
        if addr >= FN_BASE { return None; }
        let s = addr >> SLOT_BITS;
        if s >= STATE_SLOT0 { st.mem.get_mut(s - STATE_SLOT0) }
        else {
            if st.glw.get(s).is_none() {
                let a = self.gl.get(s)?.clone();
                let s0 = a.base >> SLOT_BITS;
                st.glw.insert_rc(s0, a);
            }
            st.glw.get_mut(s)
        }
    }
    pub fn malloc(&mut self, st: &mut State<'tcx>, size: u64, align: u64) -> u64 {
        let s = st.mem.reserve(size);
        let base = (s + STATE_SLOT0) << SLOT_BITS;
        st.mem.insert(s, Alloc { base, align: align as u32, data: vec![0; size as usize], sym: vec![], ro: false });
        base
    }
    pub fn alloc_size(&mut self, st: &mut State<'tcx>, p: u64) -> R<u64> {
        match st.mem.get((p >> SLOT_BITS) - STATE_SLOT0) { Some(a) => Ok(a.data.len() as u64), None => unsup("realloc of unknown block") }
    }
    pub fn mfree(&mut self, st: &mut State<'tcx>, addr: u64) -> R<()> {
        let s = addr >> SLOT_BITS;
        if s < STATE_SLOT0 || !st.mem.remove(s - STATE_SLOT0) { return unsup(format!("free of bad pointer {:#x}", addr)); }
        Ok(())
    }
    #[cold]
    fn oob<T>(&self, st: &State<'tcx>, addr: u64, n: u64, what: &str) -> R<T> {
        let a = self.alloc_of(st, addr).map(|a| (a.base, a.data.len()));
        unsup(format!("memory {} out of bounds: {:#x}+{} alloc={:x?}", what, addr, n, a))
    }
    pub fn rd(&mut self, st: &State<'tcx>, addr: u64, n: u64) -> R<V> {
        if n == 0 { return Ok(V::C(0)); }
        let Some(a) = self.alloc_of(st, addr) else { return self.oob(st, addr, n, "read") };
        let off = (addr - a.base) as usize;
        if off + n as usize > a.data.len() { return self.oob(st, addr, n, "read"); }
        let mut x = 0u128;
        match n {
            8 => x = u64::from_le_bytes(a.data[off..off + 8].try_into().unwrap()) as u128,
            1 => x = a.data[off] as u128,
            4 => x = u32::from_le_bytes(a.data[off..off + 4].try_into().unwrap()) as u128,
            _ => for (i, b) in a.data[off..off + n as usize].iter().enumerate() { x |= (*b as u128) << (8 * i); },
        }
        if a.sym.is_empty() { return Ok(V::C(x)); }
        let (s, e) = a.sym_range(off as u32, n as u32);
        if s == e { return Ok(V::C(x)); }
        let items: Vec<(u32, E)> = a.sym[s..e].to_vec();
        let mut k = 0;
        let mut acc: Option<E> = None;
        for i in 0..n as u32 {
            let b = if k < items.len() && items[k].0 == off as u32 + i { k += 1; items[k - 1].1 } else { self.ex.c((x >> (8 * i)) & 0xff, 8) };
            acc = Some(match acc { None => b, Some(lo) => self.ex.concat(b, lo) });
        }
        Ok(self.v(acc.unwrap()))
    }
    pub fn wr(&mut self, st: &mut State<'tcx>, addr: u64, n: u64, v: V) -> R<()> {
        if n == 0 { return Ok(()); }
        let ok = match self.alloc_of(st, addr) { Some(a) => (addr - a.base) + n <= a.data.len() as u64 && !a.ro, None => false };
        if !ok { return self.oob(st, addr, n, "write"); }
        match v {
            V::C(x) => {
                let a = self.alloc_mut(st, addr).unwrap();
                let off = (addr - a.base) as usize;
                a.data[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]);
                a.clear_sym(off as u32, n as u32);
            }
            V::S(e) => {
                let mut items = vec![];
                let off0 = { let a = self.alloc_of(st, addr).unwrap(); (addr - a.base) as u32 };
                let mut cb = vec![0u8; n as usize];
                for i in 0..n {
                    let b = self.ex.extract((8 * i) as u8, 8, e);
                    match self.ex.cv(b) { Some(x) => cb[i as usize] = x as u8, None => items.push((off0 + i as u32, b)) }
                }
                let a = self.alloc_mut(st, addr).unwrap();
                a.data[off0 as usize..off0 as usize + n as usize].copy_from_slice(&cb);
                a.set_sym(off0, &items, n as u32);
            }
        }
        Ok(())
    }
    pub fn cpy(&mut self, st: &mut State<'tcx>, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 || dst == src { return Ok(()); }
        let Some(a) = self.alloc_of(st, src) else { return self.oob(st, src, n, "copy-read") };
        let off = (src - a.base) as usize;
        if off + n as usize > a.data.len() { return self.oob(st, src, n, "copy-read"); }
        let (s, e) = a.sym_range(off as u32, n as u32);
        let syms: Vec<(u32, E)> = if s == e { vec![] } else { a.sym[s..e].iter().map(|(o, x)| (o - off as u32, *x)).collect() };
        macro_rules! put { ($buf:expr) => {{
            let buf = $buf;
            let ok = match self.alloc_of(st, dst) { Some(a) => (dst - a.base) + n <= a.data.len() as u64 && !a.ro, None => false };
            if !ok { return self.oob(st, dst, n, "copy-write"); }
            let a = self.alloc_mut(st, dst).unwrap();
            let off = (dst - a.base) as usize;
            a.data[off..off + n as usize].copy_from_slice(&buf[..]);
            if syms.is_empty() { a.clear_sym(off as u32, n as u32); }
            else { let it: Vec<(u32, E)> = syms.iter().map(|(o, x)| (o + off as u32, *x)).collect(); a.set_sym(off as u32, &it, n as u32); }
        }} }
        if n == 8 { let b: [u8; 8] = a.data[off..off + 8].try_into().unwrap(); put!(b) }
        else if n <= 32 { let mut b = [0u8; 32]; b[..n as usize].copy_from_slice(&a.data[off..off + n as usize]); put!(&b[..n as usize]) }
        else { let b = a.data[off..off + n as usize].to_vec(); put!(b) }
        Ok(())
    }
    pub fn rd_u64(&mut self, st: &mut State<'tcx>, addr: u64) -> R<u64> { let v = self.rd(st, addr, 8)?; Ok(self.conc(st, v, 8)? as u64) }
    pub fn rd_bytes(&mut self, st: &mut State<'tcx>, addr: u64, n: u64) -> R<Vec<u8>> {
        let mut r = Vec::with_capacity(n as usize);
        for i in 0..n { let v = self.rd(st, addr + i, 1)?; r.push(self.conc(st, v, 1)? as u8); }
        Ok(r)
    }
    pub fn rd_cstr(&mut self, st: &mut State<'tcx>, mut addr: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        loop {
            let v = self.rd(st, addr, 1)?;
            let b = self.conc(st, v, 1)? as u8;
            if b == 0 { return Ok(r); }
            r.push(b);
            addr += 1;
        }
    }
    pub fn wr_bytes(&mut self, st: &mut State<'tcx>, addr: u64, b: &[u8]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let n = b.len() as u64;
        let ok = match self.alloc_of(st, addr) { Some(a) => (addr - a.base) + n <= a.data.len() as u64 && !a.ro, None => false };
        if !ok { return self.oob(st, addr, n, "write"); }
        let a = self.alloc_mut(st, addr).unwrap();
        let off = (addr - a.base) as usize;
        a.data[off..off + b.len()].copy_from_slice(b);
        a.clear_sym(off as u32, n as u32);
        Ok(())
    }

    // ---------- places and operands ----------
    pub fn place(&mut self, st: &mut State<'tcx>, base: u64, p: &Pl) -> R<(u64, V)> {
        let mut addr = base + p.off as u64;
        let mut meta = V::C(0);
        for pj in p.pj.iter() {
            match *pj {
                Pj::Deref => { let v = self.rd(st, addr, 8)?; addr = self.conc(st, v, 8)? as u64; meta = V::C(0); }
                Pj::DerefFat => {
                    let v = self.rd(st, addr, 8)?;
                    meta = self.rd(st, addr + 8, 8)?;
                    addr = self.conc(st, v, 8)? as u64;
                }
                Pj::Off(o) => addr = addr.wrapping_add(o),
                Pj::DynOff(o) => {
                    let vt = self.conc(st, meta, 8)? as u64;
                    let al = self.rd_u64(st, vt + 16)?;
                    addr = addr.wrapping_add((o + al - 1) & !(al - 1));
                }
                Pj::Index { ioff, esz } => {
                    let v = self.rd(st, base + ioff as u64, 8)?;
                    let i = self.conc(st, v, 8)? as u64;
                    addr = addr.wrapping_add(i.wrapping_mul(esz));
                    meta = V::C(0);
                }
                Pj::FromEnd { esz, off } => {
                    let n = self.conc(st, meta, 8)? as u64;
                    addr = addr.wrapping_add((n - off) * esz);
                    meta = V::C(0);
                }
                Pj::SubSlice { esz, from, to } => {
                    let n = self.conc(st, meta, 8)? as u64;
                    addr = addr.wrapping_add(from * esz);
                    meta = V::C((n - from - to) as u128);
                }
            }
        }
        Ok((addr, meta))
    }
    /// Read a scalar through a place whose last dynamic step is a symbolic index into concrete
    /// memory: build an if-then-else table instead of forking.
    fn table_read(&mut self, st: &mut State<'tcx>, base: u64, p: &Pl, n: u64) -> R<Option<V>> {
        let Some(ix) = p.pj.iter().position(|x| matches!(x, Pj::Index { .. })) else { return Ok(None) };
        if p.pj[ix + 1..].iter().any(|x| !matches!(x, Pj::Off(_))) { return Ok(None); }
        let Pj::Index { ioff, esz } = p.pj[ix] else { unreachable!() };
        let iv = self.rd(st, base + ioff as u64, 8)?;
        let V::S(ie) = iv else { return Ok(None) };
        let pre = Pl { off: p.off, pj: p.pj[..ix].into() };
        let (a0, _) = self.place(st, base, &pre)?;
        let post: u64 = p.pj[ix + 1..].iter().map(|x| if let Pj::Off(o) = x { *o } else { 0 }).sum();
        let (ab, alen) = match self.alloc_of(st, a0) { Some(a) => (a.base, a.data.len() as u64), None => return Ok(None) };
        let cnt = (ab + alen - a0) / esz.max(1);
        if cnt == 0 || cnt > 1024 { return Ok(None); }
        // runs of equal values
        let mut runs: Vec<(u64, V)> = vec![]; // (start, value)
        for i in 0..cnt {
            let ad = a0 + i * esz + post;
            if ad + n > ab + alen { break; }
            let v = self.rd(st, ad, n)?;
            if runs.last().map(|r| r.1 != v).unwrap_or(true) { runs.push((i, v)); }
        }
        if runs.len() > 300 { return Ok(None); }
        let mut acc = { let v = runs.last().unwrap().1; self.e(v, n as u8) };
        for k in (0..runs.len() - 1).rev() {
            let lim = self.ex.c(runs[k + 1].0 as u128, 64);
            let c = self.ex.ult(ie, lim);
            let v = self.e(runs[k].1, n as u8);
            acc = self.ex.ite(c, v, acc);
        }
        Ok(Some(self.v(acc)))
    }
    #[inline]
    pub fn opv(&mut self, st: &mut State<'tcx>, base: u64, o: &Op, n: u64) -> R<V> {
        match o {
            Op::Imm(x) => Ok(V::C(*x)),
            Op::Mem(a) => self.rd(st, *a, n),
            Op::Pl(p) => {
                if p.pj.iter().any(|x| matches!(x, Pj::Index { .. })) {
                    if let Some(v) = self.table_read(st, base, p, n)? { return Ok(v); }
                }
                let (a, _) = self.place(st, base, p)?; self.rd(st, a, n)
            }
        }
    }
    pub fn size_align_of_val(&mut self, st: &mut State<'tcx>, l: rustc_middle::ty::layout::TyAndLayout<'tcx>, meta: V) -> R<(u64, u64)> {
        if l.is_sized() { return Ok((l.size.bytes(), l.align.abi.bytes())); }
        match l.ty.kind() {
            ty::Slice(_) | ty::Str => {
                let el = l.field(&self.lcx, 0);
                let n = self.conc(st, meta, 8)? as u64;
                Ok((el.size.bytes() * n, el.align.abi.bytes()))
            }
            ty::Dynamic(..) => {
                let vt = self.conc(st, meta, 8)? as u64;
                Ok((self.rd_u64(st, vt + 8)?, self.rd_u64(st, vt + 16)?))
            }
            ty::Adt(..) | ty::Tuple(..) => {
                let n = l.fields.count() - 1;
                let off = l.fields.offset(n).bytes();
                let f = l.field(&self.lcx, n);
                let (us, ua) = self.size_align_of_val(st, f, meta)?;
                let al = l.align.abi.bytes().max(ua);
                let o = (off + ua - 1) & !(ua - 1);
                Ok(((o + us + al - 1) & !(al - 1), al))
            }
            _ => unsup(format!("size_of_val {:?}", l.ty)),
        }
    }

    // ---------- arithmetic ----------
    pub fn binop(&mut self, op: BinOp, a: V, b: V, sz: u8, bsz: u8, k: Kind) -> R<(V, Option<V>)> {
        use BinOp::*;
        let w = sz * 8;
        if k == Kind::F {
            let (x, y) = (self.e(a, sz), self.e(b, sz));
            let r = match op {
                Add => self.ex.fbin(FK::Add, x, y), Sub => self.ex.fbin(FK::Sub, x, y),
                Mul => self.ex.fbin(FK::Mul, x, y), Div => self.ex.fbin(FK::Div, x, y), Rem => self.ex.fbin(FK::Rem, x, y),
                Eq => { let c = self.ex.fcmp(FC::Eq, x, y); return Ok((self.vb(c), None)); }
                Ne => { let c = self.ex.fcmp(FC::Eq, x, y); let c = self.ex.bnot(c); return Ok((self.vb(c), None)); }
                Lt => { let c = self.ex.fcmp(FC::Lt, x, y); return Ok((self.vb(c), None)); }
                Le => { let c = self.ex.fcmp(FC::Le, x, y); return Ok((self.vb(c), None)); }
                Gt => { let c = self.ex.fcmp(FC::Lt, y, x); return Ok((self.vb(c), None)); }
                Ge => { let c = self.ex.fcmp(FC::Le, y, x); return Ok((self.vb(c), None)); }
                _ => return unsup(format!("float op {:?}", op)),
            };
            return Ok((self.v(r), None));
        }
        let s = k == Kind::S;
        if let (V::C(x), V::C(y)) = (a, b) {
            let m = mask(w);
            let (sx, sy) = (sext(x, w), sext(y, bsz * 8));
            let r = match op {
                Add | AddUnchecked => x.wrapping_add(y) & m,
                Sub | SubUnchecked => x.wrapping_sub(y) & m,
                Mul | MulUnchecked => x.wrapping_mul(y) & m,
                BitAnd => x & y, BitOr => x | y, BitXor => x ^ y,
                Eq => (x == y) as u128, Ne => (x != y) as u128,
                Lt => (if s { sx < sy } else { x < y }) as u128,
                Le => (if s { sx <= sy } else { x <= y }) as u128,
                Gt => (if s { sx > sy } else { x > y }) as u128,
                Ge => (if s { sx >= sy } else { x >= y }) as u128,
                Cmp => { let o = if s { sx.cmp(&sy) } else { x.cmp(&y) }; (o as i8 as u8) as u128 }
                Shl | ShlUnchecked => { let sh = (y & (w as u128 - 1)) as u32; (x << sh) & m }
                Shr | ShrUnchecked => { let sh = (y & (w as u128 - 1)) as u32; if s { ((sx >> sh) as u128) & m } else { x >> sh } }
                Div => { if y == 0 { return unsup("div by zero"); } (if s { sx.wrapping_div(sy) as u128 } else { x / y }) & m }
                Rem => { if y == 0 { return unsup("rem by zero"); } (if s { sx.wrapping_rem(sy) as u128 } else { x % y }) & m }
                AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                    let (r, o) = if s {
                        let (r, o1) = match op { AddWithOverflow => sx.overflowing_add(sy), SubWithOverflow => sx.overflowing_sub(sy), _ => sx.overflowing_mul(sy) };
                        let t = (r as u128) & m;
                        (t, o1 || sext(t, w) != r)
                    } else {
                        let (r, o1) = match op { AddWithOverflow => x.overflowing_add(y), SubWithOverflow => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                        let t = r & m;
                        (t, o1 || t != r)
                    };
                    return Ok((V::C(r), Some(V::C(o as u128))));
                }
                Offset => return unsup("offset"),
            };
            return Ok((V::C(r), None));
        }
        let x = self.e(a, sz);
        let y0 = self.e(b, bsz);
        let ex = &mut self.ex;
        let y = if matches!(op, Shl | ShlUnchecked | Shr | ShrUnchecked) {
            let y = if bsz < sz { ex.zext(y0, w) } else if bsz > sz { ex.extract(0, w, y0) } else { y0 };
            let mm = ex.c(w as u128 - 1, w);
            ex.bin(BK::And, y, mm)
        } else { y0 };
        let r = match op {
            Add | AddUnchecked => ex.bin(BK::Add, x, y),
            Sub | SubUnchecked => ex.bin(BK::Sub, x, y),
            Mul | MulUnchecked => ex.bin(BK::Mul, x, y),
            BitAnd => ex.bin(BK::And, x, y),
            BitOr => ex.bin(BK::Or, x, y),
            BitXor => ex.bin(BK::Xor, x, y),
            Shl | ShlUnchecked => ex.bin(BK::Shl, x, y),
            Shr | ShrUnchecked => ex.bin(if s { BK::AShr } else { BK::LShr }, x, y),
            Div => ex.bin(if s { BK::SDiv } else { BK::UDiv }, x, y),
            Rem => ex.bin(if s { BK::SRem } else { BK::URem }, x, y),
            Eq => { let c = ex.eq(x, y); ex.b2v(c, 8) }
            Ne => { let c = ex.eq(x, y); let c = ex.bnot(c); ex.b2v(c, 8) }
            Lt => { let c = if s { ex.slt(x, y) } else { ex.ult(x, y) }; ex.b2v(c, 8) }
            Le => { let c = if s { ex.sle(x, y) } else { ex.ule(x, y) }; ex.b2v(c, 8) }
            Gt => { let c = if s { ex.slt(y, x) } else { ex.ult(y, x) }; ex.b2v(c, 8) }
            Ge => { let c = if s { ex.sle(y, x) } else { ex.ule(y, x) }; ex.b2v(c, 8) }
            Cmp => {
                let lt = if s { ex.slt(x, y) } else { ex.ult(x, y) };
                let eq = ex.eq(x, y);
                let (m1, z, o) = (ex.c(0xff, 8), ex.c(0, 8), ex.c(1, 8));
                let t = ex.ite(eq, z, o);
                ex.ite(lt, m1, t)
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (r, o) = match (op, s) {
                    (AddWithOverflow, false) => { let r = ex.bin(BK::Add, x, y); let o = ex.ult(r, x); (r, o) }
                    (SubWithOverflow, false) => { let r = ex.bin(BK::Sub, x, y); let o = ex.ult(x, y); (r, o) }
                    (MulWithOverflow, false) => {
                        if w > 64 { return unsup("128-bit symbolic mul overflow"); }
                        let r = ex.bin(BK::Mul, x, y);
                        let (x2, y2) = (ex.zext(x, w * 2), ex.zext(y, w * 2));
                        let p = ex.bin(BK::Mul, x2, y2);
                        let lim = ex.c(mask(w), w * 2);
                        let o = ex.ult(lim, p);
                        (r, o)
                    }
                    (_, true) => {
                        if w > 64 { return unsup("128-bit symbolic signed overflow"); }
                        let kk = match op { AddWithOverflow => BK::Add, SubWithOverflow => BK::Sub, _ => BK::Mul };
                        let r = ex.bin(kk, x, y);
                        let w2 = w * 2;
                        let (x2, y2) = (ex.sext(x, w2), ex.sext(y, w2));
                        let p = ex.bin(kk, x2, y2);
                        let r2 = ex.sext(r, w2);
                        let q = ex.eq(p, r2);
                        let o = ex.bnot(q);
                        (r, o)
                    }
                    _ => unreachable!(),
                };
                let rv = self.v(r);
                let ov = self.vb(o);
                return Ok((rv, Some(ov)));
            }
            Offset => return unsup("offset"),
        };
        Ok((self.v(r), None))
    }
    pub fn cast_int(&mut self, a: V, asz: u8, signed: bool, dsz: u8) -> V {
        match a {
            V::C(x) => V::C(if signed { (sext(x, asz * 8) as u128) & mask(dsz * 8) } else { x & mask(dsz * 8) }),
            V::S(e) => {
                let r = if dsz < asz { self.ex.extract(0, dsz * 8, e) } else if signed { self.ex.sext(e, dsz * 8) } else { self.ex.zext(e, dsz * 8) };
                self.v(r)
            }
        }
    }
    pub fn discr(&mut self, st: &mut State<'tcx>, addr: u64, info: &Disc, dsz: u8) -> R<V> {
        Ok(match *info {
            Disc::Unreachable => return unsup("discriminant of uninhabited"),
            Disc::Single(v) => V::C(v & mask(dsz * 8)),
            Disc::Direct { off, tsz, signed } => { let t = self.rd(st, addr + off, tsz as u64)?; self.cast_int(t, tsz, signed, dsz) }
            Disc::Niche { off, tsz, untagged, start, span, niche_start } => {
                let t = self.rd(st, addr + off, tsz as u64)?;
                match t {
                    V::C(x) => { let rel = x.wrapping_sub(niche_start) & mask(tsz * 8); V::C(if rel <= span { start + rel } else { untagged }) }
                    V::S(e) => {
                        let ns = self.ex.c(niche_start, tsz * 8);
                        let rel = self.ex.bin(BK::Sub, e, ns);
                        let sp = self.ex.c(span, tsz * 8);
                        let c = self.ex.ule(rel, sp);
                        let rv = self.v(rel);
                        let r2 = self.cast_int(rv, tsz, false, dsz);
                        let r2 = self.e(r2, dsz);
                        let sv = self.ex.c(start, dsz * 8);
                        let a = self.ex.bin(BK::Add, r2, sv);
                        let u = self.ex.c(untagged, dsz * 8);
                        let r = self.ex.ite(c, a, u);
                        self.v(r)
                    }
                }
            }
        })
    }

    // ---------- statements ----------
    fn stmt(&mut self, st: &mut State<'tcx>, base: u64, s: &St) -> R<()> {
        match s {
            St::Nop => {}
            St::Copy { dst, src, size } => {
                match src {
                    Op::Imm(x) => { let (d, _) = self.place(st, base, dst)?; self.wr(st, d, *size, V::C(*x))?; }
                    Op::Mem(a) => { let (d, _) = self.place(st, base, dst)?; self.cpy(st, d, *a, *size)?; }
                    Op::Pl(p) => {
                        if *size <= 16 && p.pj.iter().any(|x| matches!(x, Pj::Index { .. })) {
                            if let Some(v) = self.table_read(st, base, p, *size)? {
                                let (d, _) = self.place(st, base, dst)?;
                                return self.wr(st, d, *size, v);
                            }
                        }
                        let (a, _) = self.place(st, base, p)?;
                        let (d, _) = self.place(st, base, dst)?;
                        self.cpy(st, d, a, *size)?;
                    }
                }
            }
            St::Bin { dst, op, a, b, asz, bsz, k, bk: _, ov_off } => {
                let x = self.opv(st, base, a, *asz as u64)?;
                let y = self.opv(st, base, b, *bsz as u64)?;
                let (d, _) = self.place(st, base, dst)?;
                let (r, o) = self.binop(*op, x, y, *asz, *bsz, *k)?;
                let rs = match op { BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp => 1, _ => *asz as u64 };
                // comparisons of bytes are settled here if the path condition settles them, even when they are not branched on
                let r = match r {
                    V::S(e) if rs == 1 && *asz == 1 && *op != BinOp::Cmp && !matches!(op, BinOp::Add | BinOp::Sub | BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor) => self.settle(st, e)?,
                    r => r,
                };
                self.wr(st, d, rs, r)?;
                if let Some(o) = o { self.wr(st, d + ov_off, 1, o)?; }
            }
            St::FatCmp { dst, op, a, b } => {
                let x = self.opv(st, base, a, 16)?;
                let y = self.opv(st, base, b, 16)?;
                let (d, _) = self.place(st, base, dst)?;
                // compare (addr, meta) lexicographically
                let (xe, ye) = (self.e(x, 16), self.e(y, 16));
                let sw = |ex: &mut Arena, e: E| { let lo = ex.extract(0, 64, e); let hi = ex.extract(64, 64, e); ex.concat(lo, hi) };
                let (xs, ys) = (sw(&mut self.ex, xe), sw(&mut self.ex, ye));
                let (xv, yv) = (self.v(xs), self.v(ys));
                let (r, _) = self.binop(*op, xv, yv, 16, 16, Kind::U)?;
                self.wr(st, d, 1, r)?;
            }
            St::PtrOff { dst, a, b, esz, bsz, bs } => {
                let x = self.opv(st, base, a, 8)?;
                let y = self.opv(st, base, b, *bsz as u64)?;
                let x = self.conc(st, x, 8)? as u64;
                let y = self.conc(st, y, *bsz as u64)?;
                let y = if *bs { sext(y, *bsz * 8) as i64 as u64 } else { y as u64 };
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, 8, V::C(x.wrapping_add(y.wrapping_mul(*esz)) as u128))?;
            }
            St::Not { dst, a, sz, k } => {
                let x = self.opv(st, base, a, *sz as u64)?;
                let (d, _) = self.place(st, base, dst)?;
                let r = match (x, k) {
                    (V::C(x), Kind::B) => V::C((x == 0) as u128),
                    (V::S(e), Kind::B) => { let c = self.ex.v2b(e); let c = self.ex.bnot(c); self.vb(c) }
                    (V::C(x), _) => V::C(!x & mask(*sz * 8)),
                    (V::S(e), _) => { let r = self.ex.not(e); self.v(r) }
                };
                self.wr(st, d, *sz as u64, r)?;
            }
            St::Neg { dst, a, sz, k } => {
                let x = self.opv(st, base, a, *sz as u64)?;
                let (d, _) = self.place(st, base, dst)?;
                let e = self.e(x, *sz);
                let r = if *k == Kind::F { let s = self.ex.c(1u128 << (*sz * 8 - 1), *sz * 8); self.ex.bin(BK::Xor, e, s) } else { self.ex.neg(e) };
                let r = self.v(r);
                self.wr(st, d, *sz as u64, r)?;
            }
            St::PtrMeta { dst, a, fat } => {
                if *fat {
                    let x = self.opv(st, base, a, 16)?;
                    let e = self.e(x, 16);
                    let r = self.ex.extract(64, 64, e);
                    let r = self.v(r);
                    let (d, _) = self.place(st, base, dst)?;
                    self.wr(st, d, 8, r)?;
                }
            }
            St::AddrOf { dst, pl, fat } => {
                let (a, m) = self.place(st, base, pl)?;
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, 8, V::C(a as u128))?;
                if *fat { self.wr(st, d + 8, 8, m)?; }
            }
            St::Repeat { dst, src, esz, n } => {
                let (d, _) = self.place(st, base, dst)?;
                if *esz <= 16 {
                    let v = self.opv(st, base, src, *esz)?;
                    if let V::C(x) = v {
                        let b = x.to_le_bytes();
                        let buf: Vec<u8> = b[..*esz as usize].iter().copied().cycle().take((*esz * *n) as usize).collect();
                        return self.wr_bytes(st, d, &buf);
                    }
                    for i in 0..*n { self.wr(st, d + i * esz, *esz, v)?; }
                } else {
                    let s = match src { Op::Mem(a) => *a, Op::Pl(p) => self.place(st, base, p)?.0, Op::Imm(_) => return unsup("repeat imm") };
                    for i in 0..*n { self.cpy(st, d + i * esz, s, *esz)?; }
                }
            }
            St::Discr { dst, pl, info, dsz } => {
                let (a, _) = self.place(st, base, pl)?;
                let v = self.discr(st, a, info, *dsz)?;
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, *dsz as u64, v)?;
            }
            St::SetTag { dst, off, tsz, v } => { let (d, _) = self.place(st, base, dst)?; self.wr(st, d + off, *tsz as u64, V::C(*v))?; }
            St::CastInt { dst, a, asz, signed, dsz } => {
                let x = self.opv(st, base, a, *asz as u64)?;
                let r = self.cast_int(x, *asz, *signed, *dsz);
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, *dsz as u64, r)?;
            }
            St::FToI { dst, a, asz, signed, dsz } => {
                let x = self.opv(st, base, a, *asz as u64)?;
                let e = self.e(x, *asz);
                let r = self.ex.ftoi(*signed, e, *dsz * 8);
                let r = self.v(r);
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, *dsz as u64, r)?;
            }
            St::IToF { dst, a, asz, signed, dsz } => {
                let x = self.opv(st, base, a, *asz as u64)?;
                let e = self.e(x, *asz);
                let r = self.ex.itof(*signed, e, *dsz * 8);
                let r = self.v(r);
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, *dsz as u64, r)?;
            }
            St::FToF { dst, a, asz, dsz } => {
                let x = self.opv(st, base, a, *asz as u64)?;
                let e = self.e(x, *asz);
                let r = self.ex.ftof(e, *dsz * 8);
                let r = self.v(r);
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, *dsz as u64, r)?;
            }
            St::Unsize { dst, src, acts, ssz } => {
                let (s, imm) = match src { Op::Pl(p) => (self.place(st, base, p)?.0, None), Op::Mem(a) => (*a, None), Op::Imm(x) => (0, Some(*x)) };
                let (d, _) = self.place(st, base, dst)?;
                let _ = ssz;
                for act in acts {
                    match act {
                        UnsAct::Copy { so, d: o, n } => {
                            if let Some(x) = imm { self.wr(st, d + o, *n, V::C((x >> (8 * so)) & mask((*n * 8) as u8)))?; }
                            else { self.cpy(st, d + o, s + so, *n)?; }
                        }
                        UnsAct::Imm { d: o, v } => self.wr(st, d + o, 8, V::C(*v as u128))?,
                        UnsAct::Upcast { so, d: o, slot } => {
                            let vt = self.rd_u64(st, s + so)?;
                            let nv = match slot { Some(k) => self.rd_u64(st, vt + 8 * k)?, None => vt };
                            self.wr(st, d + o, 8, V::C(nv as u128))?;
                        }
                    }
                }
            }
            St::Tls { dst, def } => {
                let a = self.tls_addr(st, *def);
                let (d, _) = self.place(st, base, dst)?;
                self.wr(st, d, 8, V::C(a as u128))?;
            }
            St::CopyNonOverlapping { src, dst, cnt, esz } => {
                let s = self.opv(st, base, src, 8)?;
                let d = self.opv(st, base, dst, 8)?;
                let n = self.opv(st, base, cnt, 8)?;
                let (s, d, n) = (self.conc(st, s, 8)? as u64, self.conc(st, d, 8)? as u64, self.conc(st, n, 8)? as u64);
                self.cpy(st, d, s, n * esz)?;
            }
            St::Assume(_) => {}
            St::Unsup(s) => return unsup(s.clone()),
        }
        Ok(())
    }
    pub fn tls_addr(&mut self, st: &mut State<'tcx>, d: DefId) -> u64 {
        if let Some(&a) = st.th().tls.get(&d) { return a; }
        let init = self.tls_init(d);
        let a = self.malloc(st, init.data.len() as u64, init.align as u64);
        { let al = self.alloc_mut(st, a).unwrap(); al.data.copy_from_slice(&init.data); }
        st.th().tls.insert(d, a);
        a
    }

    // ---------- calls ----------
    pub fn kind_of(&mut self, f: Fid) -> FnKind<'tcx> {
        if let Some(k) = &self.fns[f as usize].kind { return k.clone(); }
        let inst = self.fns[f as usize].inst;
        let k = self.resolve_kind(inst);
        self.fns[f as usize].kind = Some(k.clone());
        k
    }
    fn resolve_kind(&mut self, inst: Instance<'tcx>) -> FnKind<'tcx> {
        let tcx = self.tcx;
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Intrinsic(d) => {
                let name = tcx.intrinsic(d).unwrap().name;
                let i = self.intrinsic_kind(name.as_str(), inst);
                if let Some(i) = i { return FnKind::Intr(i); }
                if tcx.intrinsic(d).unwrap().must_be_overridden { return FnKind::NoMir(format!("intrinsic {}", name)); }
                let fb = Instance { def: ty::InstanceKind::Item(d), args: inst.args };
                return self.mir_kind(fb);
            }
            ty::InstanceKind::LlvmIntrinsic(d) => {
                return FnKind::Foreign(tcx.symbol_name(Instance::mono(tcx, d)).name.to_string());
            }
            ty::InstanceKind::Item(d) => {
                if let Some(o) = self.override_for(inst) { return FnKind::Over(o); }
                if tcx.is_foreign_item(d) {
                    let s = tcx.symbol_name(inst).name.to_string();
                    let s = if s.starts_with("_R") || s.starts_with("_ZN") { tcx.item_name(d).to_string() } else { s };
                    return FnKind::Foreign(s);
                }
                if !tcx.is_mir_available(d) && tcx.is_constructor(d) {
                    let fty = inst.ty(tcx, self.env);
                    let sig = tcx.normalize_erasing_late_bound_regions(self.env, fty.fn_sig(tcx));
                    let out = sig.output();
                    let l = self.lay(out);
                    let ty::Adt(adt, _) = out.kind() else { return FnKind::NoMir("ctor".into()) };
                    let vi = if adt.is_enum() { adt.variant_index_with_ctor_id(d) } else { rustc_abi::VariantIdx::from_u32(0) };
                    let vl = l.for_variant(&self.lcx, vi);
                    let fs = (0..vl.fields.count()).map(|i| (vl.fields.offset(i).bytes(), vl.field(&self.lcx, i).size.bytes())).collect();
                    let tag = if adt.is_enum() { self.tag_for(l, vi) } else { None };
                    return FnKind::Ctor(Rc::new((fs, tag.map(|(o, t, v)| (o as u64, t as u8, v as u128)))));
                }
                if !tcx.is_mir_available(d) { return FnKind::NoMir(tcx.def_path_str(did)); }
            }
            _ => {}
        }
        self.mir_kind(inst)
    }
    fn mir_kind(&mut self, inst: Instance<'tcx>) -> FnKind<'tcx> {
        let body = self.tcx.instance_mir(inst.def);
        let f = Lower::lower(self, inst, body);
        FnKind::Mir(Rc::new(f))
    }
    pub fn push_frame(&mut self, st: &mut State<'tcx>, f: &Rc<Func<'tcx>>, args: &[ArgV], dst: u64, target: Option<Bb>, loc: u64) -> R<()> {
        if st.th().frames.len() > 3000 { return end(Outcome::Limit("stack depth".into())); }
        let sp = st.th().sp;
        let base = self.push_stack(st, f.frame_size);
        let mut ai = 0;
        for i in 1..=f.argc {
            let (off, sz) = f.locals[i];
            if let Some((sl, fields)) = &f.spread {
                if *sl == i {
                    for (fo, fs) in fields {
                        if ai < args.len() { self.put_arg(st, base + off + fo, *fs, args[ai])?; }
                        else if *fs != 0 { return unsup(format!("too few args calling {}", f.name)); }
                        ai += 1;
                    }
                    continue;
                }
            }
            if ai < args.len() { self.put_arg(st, base + off, sz, args[ai])?; }
            else if sz != 0 { return unsup(format!("too few args calling {}", f.name)); }
            ai += 1;
        }
        if self.cfg.trace_calls {
            let d = st.th().frames.len();
            eprintln!("{:w$}-> {}", "", f.name, w = d.min(80));
        }
        st.th().frames.push(Frame { func: f.clone(), bb: 0, ip: 0, base, dst, target, loc, sp });
        Ok(())
    }
    fn push_stack(&mut self, st: &mut State<'tcx>, size: u64) -> u64 {
        if size > SLOT { return self.malloc(st, size, 16); }
        let (mut c, mut o) = st.th().sp;
        o = (o + 15) & !15;
        if st.th().stack.is_empty() { let b = self.malloc(st, SLOT, 16); st.th().stack.push(b); }
        if o as u64 + size > SLOT {
            c += 1; o = 0;
            if c as usize >= st.th().stack.len() { let b = self.malloc(st, SLOT, 16); st.th().stack.push(b); }
        }
        st.th().sp = (c, o + size as u32);
        st.th().stack[c as usize] + o as u64
    }
    fn pop_stack(&mut self, st: &mut State<'tcx>, fr: &Frame<'tcx>) -> R<()> {
        st.th().sp = fr.sp;
        let n = fr.func.frame_size;
        if n > SLOT { return self.mfree(st, fr.base); }
        if n > 0 {
            // dead frames must not keep symbolic bytes around
            let a = st.mem.get((fr.base >> SLOT_BITS) - STATE_SLOT0).unwrap();
            let off = (fr.base - a.base) as u32;
            if !a.sym.is_empty() { let (x, y) = a.sym_range(off, n as u32); if x != y { st.mem.get_mut((fr.base >> SLOT_BITS) - STATE_SLOT0).unwrap().clear_sym(off, n as u32); } }
        }
        Ok(())
    }
    fn put_arg(&mut self, st: &mut State<'tcx>, addr: u64, sz: u64, a: ArgV) -> R<()> {
        match a {
            ArgV::A(s, n) => self.cpy(st, addr, s, n.min(sz)),
            ArgV::I(v, n) => { if n == sz { self.wr(st, addr, n, v) } else if n.min(sz) == 0 { Ok(()) } else { let v = self.cast_int(v, n as u8, false, sz as u8); self.wr(st, addr, sz, v) } }
        }
    }
    pub fn argv(&mut self, st: &mut State<'tcx>, a: ArgV) -> R<V> {
        match a { ArgV::A(s, n) => { if n > 16 { return unsup("argv too big"); } self.rd(st, s, n) } ArgV::I(v, _) => Ok(v) }
    }
    pub fn argu(&mut self, st: &mut State<'tcx>, a: ArgV) -> R<u64> {
        let n = match a { ArgV::A(_, n) => n, ArgV::I(_, n) => n };
        let v = self.argv(st, a)?;
        Ok(self.conc(st, v, n)? as u64)
    }
    /// perform a call; on success the current frame has been advanced or a new frame pushed
    pub fn call(&mut self, st: &mut State<'tcx>, f: Fid, args: &[ArgV], dst: u64, dsz: u64, target: Option<Bb>, span: Span) -> R<()> {
        let k = self.kind_of(f);
        match k {
            FnKind::Mir(func) => {
                let loc = if func.track_caller { self.call_loc(st, span) } else { 0 };
                self.push_frame(st, &func, args, dst, target, loc)
            }
            FnKind::Intr(i) => {
                self.intrinsic(st, &i, args, dst, dsz, target, span)
            }
            FnKind::Over(o) => self.overridden(st, o, f, args, dst, dsz, target, span),
            FnKind::Foreign(name) => {
                if self.foreign(st, &name, args, dst, dsz)? {
                    self.ret_to(st, target)?;
                    if let Some(cb) = st.px.pending_cb.take() {
                        let Some(f) = self.addr_fn(cb) else { return unsup("bad callback") };
                        let FnKind::Mir(func) = self.kind_of(f) else { return unsup("callback without MIR") };
                        self.push_frame(st, &func, &[], 0, Some(u32::MAX), 0)?;
                    }
                    if st.px.sig_pending && st.forked.is_none() {
                        st.px.sig_pending = false;
                        let h = st.px.sigint;
                        if h > 1 {
                            let Some(f) = self.addr_fn(h) else { return unsup("bad signal handler") };
                            let FnKind::Mir(func) = self.kind_of(f) else { return unsup("signal handler without MIR") };
                            self.push_frame(st, &func, &[ArgV::I(V::C(2), 4)], 0, Some(u32::MAX), 0)?;
                        } else if h == 0 { return end(Outcome::Exit(130)); }
                    }
                    if let Some(t) = st.px.deferred_cur.take() { st.cur = t; }
                }
                Ok(())
            }
            FnKind::NoMir(s) => unsup(format!("no MIR for {}", s)),
            FnKind::Ctor(c) => {
                for (i, (o, n)) in c.0.iter().enumerate() { self.put_arg(st, dst + o, *n, args[i])?; }
                if let Some((o, t, v)) = c.1 { self.wr(st, dst + o, t as u64, V::C(v))?; }
                self.ret_to(st, target)
            }
        }
    }
    pub fn call_loc(&mut self, st: &mut State<'tcx>, span: Span) -> u64 {
        let fr = st.fr();
        if fr.func.track_caller { return fr.loc; }
        self.loc_addr(span)
    }
    pub fn ret_to(&mut self, st: &mut State<'tcx>, target: Option<Bb>) -> R<()> {
        match target {
            Some(b) => { let f = st.fr(); f.bb = b; f.ip = 0; Ok(()) }
            None => unsup("return from diverging call"),
        }
    }
    fn opaddr(&mut self, st: &mut State<'tcx>, base: u64, o: &Op, n: u64) -> R<ArgV> {
        Ok(match o { Op::Imm(x) => ArgV::I(V::C(*x), n), Op::Mem(a) => ArgV::A(*a, n), Op::Pl(p) => {
            if n <= 16 && p.pj.iter().any(|x| matches!(x, Pj::Index { .. })) {
                if let Some(v) = self.table_read(st, base, p, n)? { return Ok(ArgV::I(v, n)); }
            }
            let (a, _) = self.place(st, base, p)?; ArgV::A(a, n) } })
    }
    fn term(&mut self, st: &mut State<'tcx>, base: u64, blk: &Block) -> R<()> {
        match &blk.tm {
            Tm::Goto(b) => { let f = st.fr(); f.bb = *b; f.ip = 0; }
            Tm::Switch { op, sz, vals, other } => {
                let v = self.opv(st, base, op, *sz as u64)?;
                let t = match v {
                    V::C(x) => vals.iter().find(|(y, _)| *y == x).map(|p| p.1).unwrap_or(*other),
                    V::S(e) => {
                        let mut t = None;
                        for (y, b) in vals.iter() {
                            let c = self.ex.c(*y, *sz * 8);
                            let q = self.ex.eq(e, c);
                            if self.decide(st, q)? { t = Some(*b); break; }
                        }
                        t.unwrap_or(*other)
                    }
                };
                let f = st.fr();
                f.bb = t;
                f.ip = 0;
            }
            Tm::Ret => {
                let c = st.cur;
                let fr = st.threads[c].frames.last().unwrap().clone();
                let n = fr.func.ret_size;
                if st.threads[c].frames.len() == 1 {
                    if n > 0 && n <= 8 { let v = self.rd(st, fr.base, n)?; let x = self.conc(st, v, n)? as u64; st.th().retval = x; }
                    st.th().frames.pop();
                    self.pop_stack(st, &fr)?;
                    return Err(Box::new(Stop::ThreadEnd));
                }
                if n > 0 && fr.dst != 0 { self.cpy(st, fr.dst, fr.base, n)?; }
                st.th().frames.pop();
                self.pop_stack(st, &fr)?;
                match fr.target {
                    Some(b) => { let f = st.fr(); if b != u32::MAX { f.bb = b; f.ip = 0; } }
                    None => return unsup(format!("return from diverging function {}", fr.func.name)),
                }
            }
            Tm::Unreachable => return unsup("reached unreachable"),
            Tm::Drop { pl, glue, dyn_, fat, target } => {
                let (a, m) = self.place(st, base, pl)?;
                let f = if *dyn_ {
                    let vt = self.conc(st, m, 8)? as u64;
                    let fp = self.rd_u64(st, vt)?;
                    if fp == 0 { return self.ret_to(st, Some(*target)); }
                    match self.addr_fn(fp) { Some(f) => f, None => return unsup("bad drop fn") }
                } else { glue.unwrap() };
                let mut args = vec![];
                if *fat && !*dyn_ {
                    let e1 = self.ex.c(a as u128, 64);
                    let e2 = self.e(m, 8);
                    let x = self.ex.concat(e2, e1);
                    args.push(ArgV::I(self.v(x), 16));
                } else { args.push(ArgV::I(V::C(a as u128), 8)); }
                self.call(st, f, &args, 0, 0, Some(*target), blk.tspan)?;
            }
            Tm::Call { callee, args, untuple, dst, dsz, target, span } => {
                let mut av: Vec<ArgV> = Vec::with_capacity(args.len() + 2);
                for a in args.iter() {
                    if a.unsized_ {
                        let Op::Pl(p) = &a.op else { return unsup("unsized arg") };
                        let (ad, m) = self.place(st, base, p)?;
                        let e1 = self.ex.c(ad as u128, 64);
                        let e2 = self.e(m, 8);
                        let x = self.ex.concat(e2, e1);
                        av.push(ArgV::I(self.v(x), 16));
                    } else { let x = self.opaddr(st, base, &a.op, a.size)?; av.push(x); }
                }
                let (d, _) = self.place(st, base, dst)?;
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ptr(o) => {
                        let v = self.opv(st, base, o, 8)?;
                        let p = self.conc(st, v, 8)? as u64;
                        match self.addr_fn(p) { Some(f) => f, None => return unsup(format!("call of bad fn pointer {:#x}", p)) }
                    }
                    Callee::Virtual(idx) => {
                        let r = match av[0] {
                            ArgV::A(s, _) => (self.rd(st, s, 8)?, self.rd(st, s + 8, 8)?),
                            ArgV::I(v, _) => { let e = self.e(v, 16); let a = self.ex.extract(0, 64, e); let b = self.ex.extract(64, 64, e); (self.v(a), self.v(b)) }
                        };
                        let vt = self.conc(st, r.1, 8)? as u64;
                        av[0] = ArgV::I(r.0, 8);
                        let fp = self.rd_u64(st, vt + 8 * *idx as u64)?;
                        match self.addr_fn(fp) { Some(f) => f, None => return unsup(format!("bad vtable fn {:#x} idx {}", fp, idx)) }
                    }
                };
                if let Some(fields) = untuple {
                    let last = av.pop().unwrap();
                    for (o, n) in fields.iter() {
                        match last {
                            ArgV::A(s, _) => av.push(ArgV::A(s + o, *n)),
                            ArgV::I(v, tot) => {
                                if *n == 0 { av.push(ArgV::I(V::C(0), 0)); }
                                else { let e = self.e(v, tot as u8); let x = self.ex.extract((o * 8) as u8, (n * 8) as u8, e); av.push(ArgV::I(self.v(x), *n)); }
                            }
                        }
                    }
                }
                if let Callee::Ptr(_) = callee {
                    // a closure coerced to a function pointer has a zero-sized self that the caller does not pass
                    if let FnKind::Mir(func) = self.kind_of(f) {
                        let want = func.argc + func.spread.as_ref().map_or(0, |s| s.1.len() as usize) - func.spread.is_some() as usize;
                        if want == av.len() + 1 { av.insert(0, ArgV::I(V::C(0), 0)); }
                    }
                }
                self.call(st, f, &av, d, *dsz, *target, *span)?;
            }
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.opv(st, base, cond, 1)?;
                let ok = match v {
                    V::C(x) => (x != 0) == *expected,
                    V::S(e) => { let c = self.ex.v2b(e); self.decide(st, c)? == *expected }
                };
                if !ok { let bt = self.backtrace(st); return end(Outcome::Panic(format!("{}\n{}", msg, bt))); }
                let f = st.fr();
                f.bb = *target;
                f.ip = 0;
            }
            Tm::Unsup(s) => return unsup(s.clone()),
        }
        Ok(())
    }
    pub fn span_str(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.source_callsite().lo());
        let n = l.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", n, l.line)
    }
    pub fn backtrace(&self, st: &State<'tcx>) -> String {
        let mut s = String::new();
        let mut n = 0;
        for fr in st.threads[st.cur].frames.iter().rev() {
            let blk = &fr.func.blocks[fr.bb as usize];
            let sp = if (fr.ip as usize) < blk.spans.len() { blk.spans[fr.ip as usize] } else { blk.tspan };
            let mut nm = fr.func.name.clone();
            if nm.len() > 120 { let mut k = 120; while !nm.is_char_boundary(k) { k -= 1; } nm.truncate(k); nm.push('…'); }
            s.push_str(&format!("    at {} ({})\n", nm, self.span_str(sp)));
            n += 1;
            if n > 40 { s.push_str("    ...\n"); break; }
        }
        s
    }

    /// run until something happens
    pub fn run(&mut self, st: &mut State<'tcx>) -> Box<Stop> {
        loop {
            let (func, bb, base) = { let f = st.fr(); (f.func.clone(), f.bb, f.base) };
            let blk = &func.blocks[bb as usize];
            let mut ip = st.fr().ip as usize;
            while ip < blk.st.len() {
                if self.cfg.trace { eprintln!("  [{}] bb{} ip{} {}", func.name, bb, ip, self.span_str(blk.spans[ip])); }
                if let Err(s) = self.stmt(st, base, &blk.st[ip]) { return s; }
                ip += 1;
                st.fr().ip = ip as u32;
                st.steps += 1;
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps { return Box::new(Stop::End(Outcome::Limit("steps".into()))); }
            if (st.steps & 0x3fff) < 32 && std::time::Instant::now() > self.cfg.deadline { return Box::new(Stop::End(Outcome::Limit("time".into()))); }
            if self.cfg.prof && (st.steps & 0xff) < 8 {
                let fr = &st.threads[st.cur].frames;
                let leaf = fr.last().unwrap().func.name.clone();
                *self.prof.entry(format!("L {}", leaf)).or_insert(0) += 1;
                if let Some(f) = fr.iter().rev().find(|f| f.func.in_repo) { let n = f.func.name.clone(); *self.prof.entry(format!("R {}", n)).or_insert(0) += 1; }
                let mut seen = vec![];
                for f in fr.iter() { if !seen.contains(&&f.func.name) { seen.push(&f.func.name); } }
                let seen: Vec<String> = seen.into_iter().cloned().collect();
                for n in seen { *self.prof.entry(format!("I {}", n)).or_insert(0) += 1; }
            }
            if let Err(s) = self.term(st, base, blk) { return s; }
        }
    }
    pub fn new_thread(&mut self) -> Thread<'tcx> {
        Thread { frames: vec![], stack: vec![], sp: (0, 0), ts: TS::Run, tls: Default::default(), keys: Default::default(), dtors: vec![], errno: 0, retval: 0, woken: 0, name: String::new(), yielded: false, preempt_done: false }
    }
}

pub fn apply_model(st: &mut State<'_>, m: &[(u32, u128)]) {
    let md = Rc::make_mut(&mut st.model);
    for &(v, x) in m {
        if md.len() <= v as usize { md.resize(v as usize + 1, 0); }
        md[v as usize] = x;
    }
}
