//! The environment: allocator symbols, libc, a small in-memory file system, child processes, time, threads.
//! Everything the program under test reaches through FFI ends here.
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use rustc_data_structures::fx::FxHashMap;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const ECHILD: i32 = 10;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOTTY: i32 = 25;
pub const ENOSPC: i32 = 28;
pub const ESPIPE: i32 = 29;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const ENOSYS: i32 = 38;
pub const ETIMEDOUT: i32 = 110;
pub const ESRCH: i32 = 3;

#[derive(Clone, Debug)]
pub enum Nd { File(Rc<Vec<u8>>, Rc<Vec<(u32, E)>>), Dir(BTreeMap<Vec<u8>, u64>, u64), Link(Vec<u8>), Fifo, Pipe(Vec<u8>) }
#[derive(Clone, Debug)]
pub struct Ino { pub nd: Nd, pub mode: u32, pub mtime: u64, pub nlink: u32 }
#[derive(Clone, Debug)]
pub struct Ofd { pub ino: u64, pub pos: u64, pub flags: i32, pub path: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Child { pub pid: u32, pub pgid: u32, pub status: Option<V>, pub reaped: bool, pub polls: u32, pub killed: Option<i32>, pub stdout: Option<u64>, pub thread: usize, pub ignore_term: bool, pub group_killed: bool, pub start: u64, pub dur: Option<E> }
/// what the program started from, for replays
#[derive(Clone)]
pub struct Begin { pub fs: Rc<BTreeMap<u64, Rc<Ino>>>, pub args: Vec<Vec<V>>, pub env: Vec<(Vec<u8>, Vec<u8>)>, pub cwd: Vec<u8>, pub children: usize }
/// what a modelled child did
#[derive(Clone)]
pub struct Script { pub argv: Vec<Vec<u8>>, pub cwd: Vec<u8>, pub out: Vec<u8> }
#[derive(Clone, Debug, Default)]
pub struct DirS { pub ents: Vec<(Vec<u8>, u64)>, pub pos: usize, pub buf: u64, pub fd: i32 }

#[derive(Clone)]
pub struct Posix {
    pub fs: Rc<BTreeMap<u64, Rc<Ino>>>,
    pub next_ino: u64,
    pub fds: Rc<BTreeMap<i32, Rc<std::cell::RefCell<()>>>>,
    pub open: Rc<BTreeMap<i32, u64>>,
    pub ofds: Rc<BTreeMap<u64, Ofd>>,
    pub next_ofd: u64,
    pub dirs: BTreeMap<u64, DirS>,
    pub cwd: Vec<u8>,
    pub now: u64,
    pub children: Vec<Child>,
    pub ch: Vec<E>,
    pub chi: usize,
    pub out: [Rc<(Vec<u8>, Vec<(u32, E)>)>; 2],
    pub snaps: Rc<Vec<(Rc<BTreeMap<u64, Rc<Ino>>>, u64)>>,
    pub excl: Vec<Vec<u8>>,
    pub begin: Option<Rc<Begin>>,
    pub script: Rc<Vec<Script>>,
    pub sym_sched: bool,
    pub regs: BTreeMap<u64, V>,
    pub runs: u32,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub environ: u64,
    pub sysno: u32,
    pub fault: Option<E>,
    pub fault_kinds: u32,
    pub faulted: Option<String>,
    pub intr: Option<(E, u64)>,
    pub spawn_cb: u64,
    pub write_cb: u64,
    pub preempt: u32,
    pub max_polls: u32,
    pub exit_codes: u32,
    pub fa: FxHashMap<u64, Vec<(u32, i32, i32, Vec<u8>)>>,
    pub attr_pg: FxHashMap<u64, u32>,
    pub log: Rc<Vec<u8>>,
    pub no_spawn_fault: bool,
    pub locks: BTreeMap<u64, (u64, bool)>,
    pub rand: u64,
    pub last_spawn: Option<(Vec<Vec<u8>>, Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>)>,
    pub ncpu: u32,
    pub counted: bool,
    pub count_fault: bool,
    pub fault_write_only: bool,
    pub intr_hit: bool,
    pub pending_cb: Option<u64>,
    pub kills: Vec<(i32, i32)>,
    pub next_key: u32,
    pub args: Vec<Vec<V>>,
    pub exit_cb: u64,
    pub exiting: bool,
    pub sigint: u64,
    pub sig_pending: bool,
    pub return_to: Option<usize>,
    pub switch_to: Option<usize>,
    pub exit_code: i32,
    pub fork_ret: Option<u32>,
    pub fork_ok: bool,
    pub fork_pgid: Option<u32>,
    pub deferred_cur: Option<usize>,
}
impl Posix {
    pub fn new() -> Self {
        let mut fs = BTreeMap::new();
        fs.insert(1, Rc::new(Ino { nd: Nd::Dir(BTreeMap::new(), 1), mode: 0o755, mtime: 0, nlink: 1 }));
        Posix {
            fs: Rc::new(fs), next_ino: 2, fds: Default::default(), open: Default::default(), ofds: Default::default(), next_ofd: 1, dirs: Default::default(),
            cwd: b"/".to_vec(), now: 1_000_000_000, children: vec![], ch: vec![], chi: 0, out: Default::default(), snaps: Default::default(), excl: vec![], begin: None, script: Default::default(), sym_sched: false, regs: Default::default(), runs: 0, env: vec![], environ: 0, sysno: 0,
            fault: None, fault_kinds: 0, faulted: None, intr: None, spawn_cb: 0, write_cb: 0, preempt: 0, max_polls: 3, exit_codes: 0, fa: Default::default(), attr_pg: Default::default(),
            log: Default::default(), no_spawn_fault: false, locks: Default::default(), rand: 1, last_spawn: None, ncpu: 4, counted: false, count_fault: false, fault_write_only: true, intr_hit: false, pending_cb: None, kills: vec![], next_key: 0, args: vec![], exit_cb: 0, exiting: false, sigint: 0, sig_pending: false, return_to: None, switch_to: None, exit_code: 0, fork_ret: None, fork_ok: false, fork_pgid: None, deferred_cur: None,
        }
    }
}

pub enum FR { Ret(u64), Done, Frame }

impl<'tcx> Eng<'tcx> {
    pub fn foreign_static(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.foreign_statics.get(name) { return a; }
        let mut d = vec![0; 16];
        if matches!(name, "posix_spawn_file_actions_addchdir_np" | "gnu_get_libc_version") {
            // weakly linked functions that exist here
            let f = self.fns.len() as u32;
            let inst = self.fns[0].inst;
            self.fns.push(FnEnt { inst, kind: Some(FnKind::Foreign(name.to_string())) });
            let p = self.fn_addr(f);
            d[0..8].copy_from_slice(&p.to_le_bytes());
        }
        let a = self.gmem(d, 16, false);
        self.foreign_statics.insert(name.to_string(), a);
        a
    }
    /// engine-internal choice: a fresh symbolic input, stable across instruction restarts
    pub fn choice(&mut self, st: &mut State<'tcx>, name: &str, bits: u8) -> E {
        if st.px.chi < st.px.ch.len() { st.px.chi += 1; return st.px.ch[st.px.chi - 1]; }
        let e = self.fresh(st, name, bits);
        st.px.ch.push(e);
        st.px.chi += 1;
        e
    }
    pub fn set_errno(&mut self, st: &mut State<'tcx>, e: i32) -> R<()> {
        let a = self.errno_addr(st);
        self.wr(st, a, 4, V::C(e as u32 as u128))
    }
    fn errno_addr(&mut self, st: &mut State<'tcx>) -> u64 {
        if st.th().errno == 0 { let a = self.malloc(st, 4, 4); st.th().errno = a; }
        st.th().errno
    }
    pub fn foreign(&mut self, st: &mut State<'tcx>, name: &str, args: &[ArgV], dst: u64, dsz: u64) -> R<bool> {
        st.px.chi = 0;
        let r = self.foreign0(st, name, args, dst, dsz)?;
        st.px.ch.clear();
        st.px.counted = false;
        st.th().yielded = false;
        st.th().preempt_done = false;
        if let Some(t) = st.px.switch_to.take() { st.px.return_to = Some(st.cur); st.px.deferred_cur = Some(t); }
        match r {
            FR::Ret(x) => { if dsz > 0 { self.wr(st, dst, dsz.min(8), V::C(x as u128 & mask((dsz.min(8) * 8) as u8)))?; } Ok(true) }
            FR::Done => Ok(true),
            FR::Frame => Ok(false),
        }
    }
    fn a(&mut self, st: &mut State<'tcx>, args: &[ArgV], i: usize) -> R<u64> { self.argu(st, args[i]) }
    fn ai(&mut self, st: &mut State<'tcx>, args: &[ArgV], i: usize) -> R<i32> { Ok(self.argu(st, args[i])? as u32 as i32) }

    fn foreign0(&mut self, st: &mut State<'tcx>, name: &str, args: &[ArgV], dst: u64, dsz: u64) -> R<FR> {
        macro_rules! a { ($i:expr) => { self.a(st, args, $i)? } }
        let r = match name {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let (n, al) = (a!(0), a!(1));
                if n > 1 << 30 { return unsup(format!("huge allocation {}", n)); }
                self.malloc(st, n, al)
            }
            "__rust_dealloc" => { let p = a!(0); self.mfree(st, p)?; return Ok(FR::Done); }
            "__rust_realloc" => {
                let (p, old, al, n) = (a!(0), a!(1), a!(2), a!(3));
                let q = self.malloc(st, n, al);
                self.cpy(st, q, p, old.min(n))?;
                self.mfree(st, p)?;
                q
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "miri_promise_symbolic_alignment" => return Ok(FR::Done),
            "memcpy" | "memmove" => { let (d, s, n) = (a!(0), a!(1), a!(2)); self.cpy(st, d, s, n)?; d }
            "memset" => { let (d, n) = (a!(0), a!(2)); let v = self.argv(st, args[1])?; let v = self.cast_int(v, 4, false, 1); self.fill_bytes(st, d, v, n)?; d }
            "memcmp" | "bcmp" => { let (p, q, n) = (a!(0), a!(1), a!(2)); let v = self.mem_cmp(st, p, q, n)?; self.wr(st, dst, 4, v)?; return Ok(FR::Done); }
            "strlen" => { let p = a!(0); let mut n = 0; loop { let v = self.rd(st, p + n, 1)?; if self.conc_is_zero(st, v)? { break; } n += 1; } n }
            "memchr" => {
                let (p, n) = (a!(0), a!(2));
                let c = self.argv(st, args[1])?; let c = self.cast_int(c, 4, false, 1); let c = self.e(c, 1);
                let mut r = 0;
                for j in 0..n { let v = self.rd(st, p + j, 1)?; let v = self.e(v, 1); let q = self.ex.eq(v, c); if self.decide(st, q)? { r = p + j; break; } }
                r
            }
            "memrchr" => {
                let (p, n) = (a!(0), a!(2));
                let c = self.argv(st, args[1])?; let c = self.cast_int(c, 4, false, 1); let c = self.e(c, 1);
                let mut r = 0;
                for j in (0..n).rev() { let v = self.rd(st, p + j, 1)?; let v = self.e(v, 1); let q = self.ex.eq(v, c); if self.decide(st, q)? { r = p + j; break; } }
                r
            }
            "__errno_location" => self.errno_addr(st),
            "dlsym" => 0,
            "getauxval" => 0,
            _ => return self.libc(st, name, args, dst, dsz),
        };
        Ok(FR::Ret(r))
    }
    pub fn conc_is_zero(&mut self, st: &mut State<'tcx>, v: V) -> R<bool> {
        match v { V::C(x) => Ok(x == 0), V::S(e) => { let z = self.ex.c(0, 8); let c = self.ex.eq(e, z); self.decide(st, c) } }
    }

    // ---- system call accounting: fault and interrupt injection points ----
    fn count(&mut self, st: &mut State<'tcx>, what: &str, faultable: bool) -> R<bool> {
        if st.px.counted { return Ok(st.px.count_fault); }
        let n = st.px.sysno + 1;
        if let Some((e, addr)) = st.px.intr {
            let k = self.ex.c(n as u128, 32);
            let q = self.ex.eq(e, k);
            if self.decide(st, q)? { if addr != 0 { self.wr(st, addr, 1, V::C(1))?; } else if !st.px.intr_hit { st.px.sig_pending = true; } if !st.px.intr_hit { st.px.intr_hit = true; st.notes.push(format!("interrupt delivered at system call {} ({})", n, what)); } }
        }
        let mut f = false;
        if faultable { if let Some(e) = st.px.fault {
            let k = self.ex.c(n as u128, 32);
            let q = self.ex.eq(e, k);
            f = self.decide(st, q)?;
            if f { st.px.faulted = Some(what.to_string()); st.notes.push(format!("injected failure of system call {}: {}", n, what)); }
        } }
        st.px.sysno = n;
        st.px.counted = true;
        st.px.count_fault = f;
        Ok(f)
    }
    fn fail(&mut self, st: &mut State<'tcx>, e: i32) -> R<FR> { self.set_errno(st, e)?; Ok(FR::Ret(u64::MAX)) }
    fn fsr(&mut self, st: &mut State<'tcx>, r: Result<u64, i32>) -> R<FR> { match r { Ok(x) => Ok(FR::Ret(x)), Err(e) => self.fail(st, e) } }
    fn path(&mut self, st: &mut State<'tcx>, p: u64) -> R<Vec<u8>> { self.rd_cstr(st, p) }
    fn put_stat(&mut self, st: &mut State<'tcx>, buf: u64, i: u64) -> R<()> {
        let n = st.px.ino(i).clone();
        let ty = match n.nd { Nd::File(..) => 0o100000, Nd::Dir(..) => 0o040000, Nd::Link(_) => 0o120000, Nd::Fifo | Nd::Pipe(_) => 0o010000 };
        let size = st.px.size(i);
        let mut b = vec![0u8; 144];
        b[0..8].copy_from_slice(&1u64.to_le_bytes());
        b[8..16].copy_from_slice(&i.to_le_bytes());
        b[16..24].copy_from_slice(&(n.nlink as u64).to_le_bytes());
        b[24..28].copy_from_slice(&(ty | n.mode & 0o7777u32).to_le_bytes());
        b[48..56].copy_from_slice(&size.to_le_bytes());
        b[56..64].copy_from_slice(&4096u64.to_le_bytes());
        b[64..72].copy_from_slice(&(size.div_ceil(512)).to_le_bytes());
        for o in [72, 88, 104] {
            b[o..o + 8].copy_from_slice(&(n.mtime / 1_000_000_000).to_le_bytes());
            b[o + 8..o + 16].copy_from_slice(&(n.mtime % 1_000_000_000).to_le_bytes());
        }
        self.wr_bytes(st, buf, &b)
    }
    fn do_open(&mut self, st: &mut State<'tcx>, at: u64, path: Vec<u8>, flags: i32, mode: u32) -> R<FR> {
        const O_CREAT: i32 = 0o100; const O_EXCL: i32 = 0o200; const O_TRUNC: i32 = 0o1000; const O_DIRECTORY: i32 = 0o200000; const O_NOFOLLOW: i32 = 0o400000; const O_PATH: i32 = 0o10000000;
        let wr = flags & 3 != 0 || flags & O_CREAT != 0;
        let p = String::from_utf8_lossy(&path).into_owned();
        if path == b"/dev/null" { let i = st.px.new_ino(Nd::Fifo, 0o666); let fd = st.px.new_fd(i, flags, path); return Ok(FR::Ret(fd as u64)); }
        if self.count(st, &format!("open{} {}", if wr { " for writing" } else { "" }, p), !st.px.fault_write_only || wr)? { return self.fail(st, if wr { ENOSPC } else { EACCES }); }
        let (d, n, t) = match st.px.resolve(at, &path, flags & O_NOFOLLOW == 0 && !(flags & O_CREAT != 0 && flags & O_EXCL != 0)) { Ok(x) => x, Err(e) => return self.fail(st, e) };
        let i = match t {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return self.fail(st, EEXIST); }
                match &st.px.ino(i).nd {
                    Nd::Dir(..) => if flags & 3 != 0 { return self.fail(st, EISDIR); },
                    Nd::Link(_) => if flags & O_PATH == 0 { return self.fail(st, ELOOP); },
                    _ => if flags & O_DIRECTORY != 0 { return self.fail(st, ENOTDIR); },
                }
                if flags & 3 != 0 && st.px.ino(i).mode & 0o200 == 0 { return self.fail(st, EACCES); }
                if flags & O_TRUNC != 0 && flags & 3 != 0 { let now = st.px.now; let n = st.px.ino_mut(i); n.mtime = now; n.nd = Nd::File(Default::default(), Default::default()); st.px.mutlog(i, &path); }
                i
            }
            None => {
                if flags & O_CREAT == 0 { return self.fail(st, ENOENT); }
                let i = st.px.new_ino(Nd::File(Default::default(), Default::default()), mode & 0o755);
                st.px.link_in(d, &n, i);
                st.px.mutlog(i, &path);
                i
            }
        };
        let fd = st.px.new_fd(i, flags, path);
        Ok(FR::Ret(fd as u64))
    }
    fn do_write(&mut self, st: &mut State<'tcx>, fd: i32, bufs: &[(u64, u64)], at: Option<u64>) -> R<FR> {
        let tot: u64 = bufs.iter().map(|b| b.1).sum();
        if (fd == 1 || fd == 2) && !st.px.open.contains_key(&fd) {
            for &(p, n) in bufs {
                let mut b = vec![];
                let mut sy = vec![];
                let base = st.px.out[fd as usize - 1].0.len() as u32;
                for j in 0..n { let v = self.rd(st, p + j, 1)?; b.push(match v { V::C(x) => x as u8, V::S(e) => { sy.push((base + j as u32, e)); self.ev(st, e) as u8 } }); }
                if self.cfg.echo { eprint!("[{}] {}", fd, String::from_utf8_lossy(&b)); }
                let o = Rc::make_mut(&mut st.px.out[fd as usize - 1]);
                o.0.extend_from_slice(&b);
                o.1.extend(sy);
            }
            return Ok(FR::Ret(tot));
        }
        let (o, of) = match st.px.ofd(fd) { Ok(x) => x, Err(e) => return self.fail(st, e) };
        if let Nd::Fifo = st.px.ino(of.ino).nd { return Ok(FR::Ret(tot)); }
        if let Nd::Pipe(_) = st.px.ino(of.ino).nd {
            let mut v = vec![];
            for &(p, n) in bufs { v.extend(self.rd_bytes(st, p, n)?); }
            if let Nd::Pipe(d) = &mut st.px.ino_mut(of.ino).nd { d.extend(v); }
            for t in 0..st.threads.len() { if st.threads[t].ts == TS::Pipe(of.ino) { st.threads[t].ts = TS::Run; st.px.switch_to = Some(t); } }
            return Ok(FR::Ret(tot));
        }
        if of.flags & 3 == 0 { return self.fail(st, EBADF); }
        if self.count(st, &format!("write {}", String::from_utf8_lossy(&of.path)), true)? { return self.fail(st, ENOSPC); }
        let (mut d, mut s) = match &st.px.ino(of.ino).nd { Nd::File(d, s) => ((**d).clone(), (**s).clone()), _ => return self.fail(st, EINVAL) };
        let mut pos = at.unwrap_or(if of.flags & 0o2000 != 0 { d.len() as u64 } else { of.pos });
        for &(p, n) in bufs {
            if d.len() < (pos + n) as usize { d.resize((pos + n) as usize, 0); }
            s.retain(|x| (x.0 as u64) < pos || (x.0 as u64) >= pos + n);
            for j in 0..n {
                match self.rd(st, p + j, 1)? { V::C(x) => d[(pos + j) as usize] = x as u8, V::S(e) => { d[(pos + j) as usize] = 0; s.push(((pos + j) as u32, e)); } }
            }
            pos += n;
        }
        s.sort_unstable_by_key(|x| x.0);
        let now = st.px.now;
        let n = st.px.ino_mut(of.ino);
        n.nd = Nd::File(Rc::new(d), Rc::new(s));
        n.mtime = now;
        st.px.mutlog(of.ino, &of.path);
        if at.is_none() { Rc::make_mut(&mut st.px.ofds).get_mut(&o).unwrap().pos = pos; }
        Ok(FR::Ret(tot))
    }
    fn do_read(&mut self, st: &mut State<'tcx>, fd: i32, buf: u64, n: u64, at: Option<u64>) -> R<FR> {
        if fd == 0 && !st.px.open.contains_key(&fd) { return Ok(FR::Ret(0)); }
        let (o, of) = match st.px.ofd(fd) { Ok(x) => x, Err(e) => return self.fail(st, e) };
        if let Nd::Fifo = st.px.ino(of.ino).nd { return Ok(FR::Ret(0)); }
        if let Nd::Pipe(d) = &st.px.ino(of.ino).nd {
            if d.is_empty() {
                let writers = st.px.ofds.values().any(|x| x.ino == of.ino && x.flags & 3 == 1);
                if !writers { return Ok(FR::Ret(0)); }
                st.th().ts = TS::Pipe(of.ino);
                return Err(Box::new(Stop::Block));
            }
            let k = n.min(d.len() as u64);
            let v = d[..k as usize].to_vec();
            self.wr_bytes(st, buf, &v)?;
            if let Nd::Pipe(d) = &mut st.px.ino_mut(of.ino).nd { d.drain(..k as usize); }
            return Ok(FR::Ret(k));
        }
        if of.flags & 3 == 1 { return self.fail(st, EBADF); }
        if self.count(st, &format!("read {}", String::from_utf8_lossy(&of.path)), !st.px.fault_write_only)? { return self.fail(st, EIO); }
        let (d, s) = match &st.px.ino(of.ino).nd { Nd::File(d, s) => (d.clone(), s.clone()), Nd::Dir(..) => return self.fail(st, EISDIR), _ => return self.fail(st, EINVAL) };
        let pos = at.unwrap_or(of.pos);
        let k = n.min((d.len() as u64).saturating_sub(pos));
        if k > 0 {
            self.wr_bytes(st, buf, &d[pos as usize..(pos + k) as usize])?;
            for &(q, e) in s.iter() { if (q as u64) >= pos && (q as u64) < pos + k { self.wr(st, buf + q as u64 - pos, 1, V::S(e))?; } }
        }
        if at.is_none() { Rc::make_mut(&mut st.px.ofds).get_mut(&o).unwrap().pos = pos + k; }
        Ok(FR::Ret(k))
    }
    fn do_unlink(&mut self, st: &mut State<'tcx>, at: u64, p: &[u8], dir: bool) -> R<FR> {
        if self.count(st, &format!("{} {}", if dir { "rmdir" } else { "unlink" }, String::from_utf8_lossy(p)), true)? { return self.fail(st, EACCES); }
        let r = if dir { st.px.rmdir(at, p) } else { st.px.unlink(at, p) };
        if r.is_ok() { st.px.mutlog(0, p); }
        self.fsr(st, r.map(|_| 0))
    }
    fn do_rename(&mut self, st: &mut State<'tcx>, a1: u64, p1: &[u8], a2: u64, p2: &[u8]) -> R<FR> {
        if self.count(st, &format!("rename {} {}", String::from_utf8_lossy(p1), String::from_utf8_lossy(p2)), true)? { return self.fail(st, EACCES); }
        let r = st.px.rename(a1, p1, a2, p2);
        if r.is_ok() { st.px.mutlog(0, p1); st.px.mutlog(0, p2); }
        self.fsr(st, r.map(|_| 0))
    }
    fn argv_list(&mut self, st: &mut State<'tcx>, mut p: u64) -> R<Vec<Vec<u8>>> {
        let mut r = vec![];
        if p == 0 { return Ok(r); }
        loop { let q = self.rd_u64(st, p)?; if q == 0 { return Ok(r); } r.push(self.rd_cstr(st, q)?); p += 8; }
    }
    /// a thread other than the current one may run next
    fn yield_point(&mut self, st: &mut State<'tcx>) -> bool {
        st.threads.len() > 1 && st.threads.iter().filter(|t| t.ts != TS::Done).count() > 1
    }
    /// offer a preemption before a globally visible operation
    fn preempt(&mut self, st: &mut State<'tcx>) -> R<()> {
        if st.px.preempt == 0 || st.th().preempt_done || !self.yield_point(st) { return Ok(()); }
        let others = (0..st.threads.len()).any(|i| i != st.cur && match &st.threads[i].ts { TS::Run => true, TS::Join(t) => st.threads[*t].ts == TS::Done, _ => false });
        if !others { return Ok(()); }
        let e = self.choice(st, "preempt", 1);
        let one = self.ex.c(1, 1);
        let q = self.ex.eq(e, one);
        if self.decide(st, q)? {
            st.px.preempt -= 1;
            st.th().preempt_done = true;
            st.px.ch.clear();
            return Err(Box::new(Stop::Block));
        }
        Ok(())
    }
    fn libc(&mut self, st: &mut State<'tcx>, name: &str, args: &[ArgV], dst: u64, dsz: u64) -> R<FR> {
        macro_rules! a { ($i:expr) => { self.a(st, args, $i)? } }
        macro_rules! ai { ($i:expr) => { self.ai(st, args, $i)? } }
        macro_rules! p { ($i:expr) => {{ let x = self.a(st, args, $i)?; self.path(st, x)? }} }
        macro_rules! ret { ($e:expr) => { Ok(FR::Ret(($e) as u64)) } }
        match name {
            // ---- files ----
            "open64" | "open" => { let p = p!(0); let f = ai!(1); let m = if args.len() > 2 { a!(2) as u32 } else { 0 }; self.preempt(st)?; let c = st.px.cwd_ino(); self.do_open(st, c, p, f, m) }
            "openat64" | "openat" => {
                let p = p!(1); let f = ai!(2); let m = if args.len() > 3 { a!(3) as u32 } else { 0 };
                let at = match { let f = ai!(0); st.px.at(f) } { Ok(x) => x, Err(e) => return self.fail(st, e) };
                self.preempt(st)?;
                self.do_open(st, at, p, f, m)
            }
            "close" => { let fd = ai!(0); let r = st.px.close(fd); self.fsr(st, r.map(|_| 0)) }
            "write" => { let (fd, b, n) = (ai!(0), a!(1), a!(2)); self.preempt(st)?; self.do_write(st, fd, &[(b, n)], None) }
            "pwrite64" => { let (fd, b, n, o) = (ai!(0), a!(1), a!(2), a!(3)); self.do_write(st, fd, &[(b, n)], Some(o)) }
            "writev" => {
                let (fd, v, n) = (ai!(0), a!(1), a!(2));
                let mut bufs = vec![];
                for j in 0..(n & 0xffff_ffff) { bufs.push((self.rd_u64(st, v + 16 * j)?, self.rd_u64(st, v + 16 * j + 8)?)); }
                self.preempt(st)?;
                self.do_write(st, fd, &bufs, None)
            }
            "read" => { let (fd, b, n) = (ai!(0), a!(1), a!(2)); self.do_read(st, fd, b, n, None) }
            "pread64" => { let (fd, b, n, o) = (ai!(0), a!(1), a!(2), a!(3)); self.do_read(st, fd, b, n, Some(o)) }
            "lseek64" | "lseek" => {
                let (fd, off, wh) = (ai!(0), a!(1) as i64, ai!(2));
                let (o, of) = match st.px.ofd(fd) { Ok(x) => x, Err(e) => return self.fail(st, e) };
                let base = match wh { 0 => 0, 1 => of.pos as i64, 2 => st.px.size(of.ino) as i64, _ => return self.fail(st, EINVAL) };
                let n = base + off;
                if n < 0 { return self.fail(st, EINVAL); }
                Rc::make_mut(&mut st.px.ofds).get_mut(&o).unwrap().pos = n as u64;
                ret!(n)
            }
            "ftruncate64" | "ftruncate" => {
                let (fd, n) = (ai!(0), a!(1));
                let (_, of) = match st.px.ofd(fd) { Ok(x) => x, Err(e) => return self.fail(st, e) };
                if self.count(st, "ftruncate", true)? { return self.fail(st, EIO); }
                if let Nd::File(d, s) = &mut st.px.ino_mut(of.ino).nd { Rc::make_mut(d).resize(n as usize, 0); Rc::make_mut(s).retain(|x| (x.0 as u64) < n); }
                st.px.mutlog(of.ino, &of.path);
                ret!(0)
            }
            "fsync" | "fdatasync" | "posix_fadvise64" => ret!(0),
            "fchmod" => { let (fd, m) = (ai!(0), a!(1) as u32); let of = match st.px.ofd(fd) { Ok(x) => x.1, Err(e) => return self.fail(st, e) }; st.px.ino_mut(of.ino).mode = m & 0o7777; ret!(0) }
            "chmod" => { let p = p!(0); let m = a!(1) as u32; let c = st.px.cwd_ino(); match st.px.get(c, &p, true) { Ok(i) => { st.px.ino_mut(i).mode = m & 0o7777; ret!(0) } Err(e) => self.fail(st, e) } }
            "utimensat" | "futimens" => ret!(0),
            "stat64" | "lstat64" => {
                let p = p!(0); let b = a!(1); let c = st.px.cwd_ino();
                if self.count(st, &format!("stat {}", String::from_utf8_lossy(&p)), !st.px.fault_write_only)? { return self.fail(st, EACCES); }
                match st.px.get(c, &p, name == "stat64") { Ok(i) => { self.put_stat(st, b, i)?; ret!(0) } Err(e) => self.fail(st, e) }
            }
            "fstatat64" => {
                let at = match { let f = ai!(0); st.px.at(f) } { Ok(x) => x, Err(e) => return self.fail(st, e) };
                let p = p!(1); let b = a!(2); let f = ai!(3);
                match st.px.get(at, &p, f & 0x100 == 0) { Ok(i) => { self.put_stat(st, b, i)?; ret!(0) } Err(e) => self.fail(st, e) }
            }
            "fstat64" => {
                let (fd, b) = (ai!(0), a!(1));
                if fd <= 2 && !st.px.open.contains_key(&fd) { let i = st.px.new_ino(Nd::Fifo, 0o600); self.put_stat(st, b, i)?; return ret!(0); }
                match st.px.ofd(fd) { Ok(x) => { self.put_stat(st, b, x.1.ino)?; ret!(0) } Err(e) => self.fail(st, e) }
            }
            "access" | "faccessat" => { let p = if name == "access" { p!(0) } else { p!(1) }; let c = st.px.cwd_ino(); let r = st.px.get(c, &p, true).map(|_| 0); self.fsr(st, r) }
            "mkdir" => {
                let p = p!(0); let m = a!(1) as u32; let c = st.px.cwd_ino();
                if self.count(st, &format!("mkdir {}", String::from_utf8_lossy(&p)), true)? { return self.fail(st, ENOSPC); }
                let r = st.px.mkdir(c, &p, m);
                if r.is_ok() { st.px.mutlog(0, &p); }
                self.fsr(st, r.map(|_| 0))
            }
            "rmdir" => { let p = p!(0); let c = st.px.cwd_ino(); self.do_unlink(st, c, &p, true) }
            "unlink" => { let p = p!(0); let c = st.px.cwd_ino(); self.do_unlink(st, c, &p, false) }
            "unlinkat" => { let at = match { let f = ai!(0); st.px.at(f) } { Ok(x) => x, Err(e) => return self.fail(st, e) }; let p = p!(1); let f = ai!(2); self.do_unlink(st, at, &p, f & 0x200 != 0) }
            "rename" => { let (p1, p2) = (p!(0), p!(1)); let c = st.px.cwd_ino(); self.do_rename(st, c, &p1, c, &p2) }
            "symlink" => {
                let (t, p) = (p!(0), p!(1)); let c = st.px.cwd_ino();
                if self.count(st, &format!("symlink {}", String::from_utf8_lossy(&p)), true)? { return self.fail(st, EACCES); }
                match st.px.resolve(c, &p, false) { Ok((d, n, None)) => { let i = st.px.new_ino(Nd::Link(t), 0o777); st.px.link_in(d, &n, i); st.px.mutlog(0, &p); ret!(0) } Ok(_) => self.fail(st, EEXIST), Err(e) => self.fail(st, e) }
            }
            "link" | "linkat" => {
                let (t, p) = if name == "link" { (p!(0), p!(1)) } else { (p!(1), p!(3)) }; let c = st.px.cwd_ino();
                match (st.px.get(c, &t, false), st.px.resolve(c, &p, false)) {
                    (Ok(i), Ok((d, n, None))) => { st.px.ino_mut(i).nlink += 1; st.px.link_in(d, &n, i); st.px.mutlog(0, &p); ret!(0) }
                    (Ok(_), Ok(_)) => self.fail(st, EEXIST), (Err(e), _) | (_, Err(e)) => self.fail(st, e) }
            }
            "readlink" => {
                let p = p!(0); let (b, n) = (a!(1), a!(2)); let c = st.px.cwd_ino();
                match st.px.get(c, &p, false) {
                    Ok(i) => match st.px.ino(i).nd.clone() { Nd::Link(t) => { let k = (t.len() as u64).min(n); self.wr_bytes(st, b, &t[..k as usize])?; ret!(k) } _ => self.fail(st, EINVAL) },
                    Err(e) => self.fail(st, e),
                }
            }
            "realpath" => {
                let p = p!(0); let c = st.px.cwd_ino();
                if self.count(st, &format!("realpath {}", String::from_utf8_lossy(&p)), !st.px.fault_write_only)? { self.set_errno(st, EACCES)?; return ret!(0); }
                match st.px.realpath(c, &p) { Ok(mut r) => { r.push(0); let b = match a!(1) { 0 => self.malloc(st, r.len() as u64, 1), b => b }; self.wr_bytes(st, b, &r)?; ret!(b) } Err(e) => { self.set_errno(st, e)?; ret!(0) } }
            }
            "free" => { let p = a!(0); if p != 0 { self.mfree(st, p)?; } Ok(FR::Done) }
            "realloc" => {
                let (p, n) = (a!(0), a!(1));
                let q = self.malloc(st, n.max(1), 16);
                if p != 0 { let old = self.alloc_size(st, p)?; self.cpy(st, q, p, old.min(n))?; self.mfree(st, p)?; }
                ret!(q)
            }
            "malloc" => { let n = a!(0); ret!(self.malloc(st, n.max(1), 16)) }
            "calloc" => { let (n, m) = (a!(0), a!(1)); ret!(self.malloc(st, (n * m).max(1), 16)) }
            "posix_memalign" => { let (pp, al, n) = (a!(0), a!(1), a!(2)); let x = self.malloc(st, n.max(1), al); self.wr(st, pp, 8, V::C(x as u128))?; ret!(0) }
            "opendir" | "fdopendir" => {
                let i = if name == "opendir" {
                    let p = p!(0); let c = st.px.cwd_ino();
                    if self.count(st, &format!("opendir {}", String::from_utf8_lossy(&p)), !st.px.fault_write_only)? { self.set_errno(st, EACCES)?; return ret!(0); }
                    match st.px.get(c, &p, true) { Ok(i) => i, Err(e) => { self.set_errno(st, e)?; return ret!(0); } }
                } else { match { let f = ai!(0); st.px.ofd(f) } { Ok(x) => x.1.ino, Err(e) => { self.set_errno(st, e)?; return ret!(0); } } };
                let ents: Vec<(Vec<u8>, u64)> = match &st.px.ino(i).nd { Nd::Dir(m, p) => [(b".".to_vec(), i), (b"..".to_vec(), *p)].into_iter().chain(m.iter().map(|(k, v)| (k.clone(), *v))).collect(), _ => { self.set_errno(st, ENOTDIR)?; return ret!(0); } };
                let h = self.malloc(st, 280, 16);
                let fd = if name == "opendir" { st.px.new_fd(i, 0, vec![]) } else { ai!(0) };
                st.px.dirs.insert(h, DirS { ents, pos: 0, buf: h, fd });
                ret!(h)
            }
            "readdir64" => {
                let h = a!(0);
                let (e, pos) = { let d = st.px.dirs.get_mut(&h).unwrap(); if d.pos >= d.ents.len() { return ret!(0); } d.pos += 1; (d.ents[d.pos - 1].clone(), d.pos) };
                let ty = match st.px.fs.get(&e.1).map(|i| &i.nd) { Some(Nd::File(..)) => 8, Some(Nd::Dir(..)) => 4, Some(Nd::Link(_)) => 10, _ => 0u8 };
                let mut b = vec![0u8; 280];
                b[0..8].copy_from_slice(&e.1.to_le_bytes());
                b[8..16].copy_from_slice(&(pos as u64).to_le_bytes());
                b[16..18].copy_from_slice(&280u16.to_le_bytes());
                b[18] = ty;
                b[19..19 + e.0.len()].copy_from_slice(&e.0);
                self.wr_bytes(st, h, &b)?;
                ret!(h)
            }
            "closedir" => { let h = a!(0); if let Some(d) = st.px.dirs.remove(&h) { let _ = st.px.close(d.fd); } self.mfree(st, h)?; ret!(0) }
            "dirfd" => { let h = a!(0); ret!(st.px.dirs[&h].fd) }
            "getcwd" => { let (b, n) = (a!(0), a!(1)); let mut c = st.px.cwd.clone(); c.push(0); if c.len() as u64 > n { self.set_errno(st, 34)?; return ret!(0); } self.wr_bytes(st, b, &c)?; ret!(b) }
            "chdir" => { let p = p!(0); let c = st.px.cwd_ino(); match st.px.realpath(c, &p) { Ok(r) => { st.px.cwd = r; ret!(0) } Err(e) => self.fail(st, e) } }
            "fcntl64" | "fcntl" => {
                let (fd, c) = (ai!(0), ai!(1));
                match c {
                    0 | 1030 => { let m = ai!(2); match st.px.open.get(&fd).copied() { Some(o) => { let f = st.px.fd_for(o, m.max(3)); ret!(f) } None if fd <= 2 => { let i = st.px.new_ino(Nd::Fifo, 0o600); let f = st.px.new_fd(i, 2, vec![]); ret!(f) } None => self.fail(st, EBADF) } }
                    1 | 2 | 4 => ret!(0),
                    3 => ret!(match st.px.ofd(fd) { Ok(x) => x.1.flags, Err(_) => 2 }),
                    _ => unsup(format!("fcntl {}", c)),
                }
            }
            "dup2" => { let (o, n) = (ai!(0), ai!(1)); match st.px.open.get(&o).copied() { Some(x) => { Rc::make_mut(&mut st.px.open).insert(n, x); ret!(n) } None => ret!(n) } }
            "flock" => {
                let (fd, op) = (ai!(0), ai!(1));
                let (o, of) = match st.px.ofd(fd) { Ok(x) => x, Err(e) => return self.fail(st, e) };
                if op & 8 != 0 { st.px.locks.remove(&of.ino); return ret!(0); }
                match st.px.locks.get(&of.ino) { Some((h, _)) if *h != o => self.fail(st, EAGAIN), _ => { st.px.locks.insert(of.ino, (o, op & 2 != 0)); ret!(0) } }
            }
            "ioctl" => { if a!(1) == 0x5421 { return ret!(0); } self.fail(st, ENOTTY) }
            "isatty" => { self.set_errno(st, ENOTTY)?; ret!(0) }
            "pipe2" | "pipe" => { let b = a!(0); let i = st.px.new_ino(Nd::Pipe(vec![]), 0o600); let r = st.px.new_fd(i, 0, vec![]); let w = st.px.new_fd(i, 1, vec![]); self.wr(st, b, 4, V::C(r as u128))?; self.wr(st, b + 4, 4, V::C(w as u128))?; ret!(0) }
            "poll" => {
                let (p, n) = (a!(0), a!(1));
                let mut k = 0;
                for j in 0..n {
                    let q = p + 8 * j;
                    let fd = match self.rd(st, q, 4)? { V::C(x) => x as u32 as i32, _ => return unsup("poll") };
                    let ev = match self.rd(st, q + 4, 2)? { V::C(x) => x, _ => return unsup("poll") };
                    let r = if fd >= 0 && st.px.open.contains_key(&fd) { ev & 1 } else { 0 };
                    if r != 0 { k += 1; }
                    self.wr(st, q + 6, 2, V::C(r))?;
                }
                ret!(k)
            }
            "copy_file_range" | "sendfile64" | "splice" | "statx" | "pidfd_open" | "name_to_handle_at" => self.fail(st, ENOSYS),
            // ---- identity, configuration ----
            "getpid" => ret!(1000), "getppid" => ret!(999), "getuid" | "geteuid" | "getgid" | "getegid" => ret!(1000), "gettid" => { let c = st.cur; ret!(1000 + c) }
            "sysconf" => { let k = ai!(0); ret!(match k { 30 => 4096, 83 | 84 => st.px.ncpu as i64, 70 | 69 => 1024, _ => -1 }) }
            "sched_getaffinity" => { let (n, b) = (a!(1), a!(2)); self.fill_bytes(st, b, V::C(0), n)?; let c = st.px.ncpu; self.wr(st, b, 1, V::C(((1u32 << c.min(8)) - 1) as u128))?; ret!(0) }
            "sched_yield" => { if self.yield_point(st) && !st.th().yielded { st.th().yielded = true; st.px.counted = false; return Err(Box::new(Stop::Block)); } ret!(0) }
            "getenv" => { let k = p!(0); let v = st.px.env.iter().find(|e| e.0 == k).map(|e| e.1.clone()); match v { Some(mut v) => { v.push(0); let b = self.malloc(st, v.len() as u64, 1); self.wr_bytes(st, b, &v)?; ret!(b) } None => ret!(0) } }
            "gnu_get_libc_version" => { let b = self.malloc(st, 8, 1); self.wr_bytes(st, b, b"2.39\0")?; ret!(b) }
            "uname" => { let b = a!(0); self.fill_bytes(st, b, V::C(0), 390)?; self.wr_bytes(st, b, b"Linux\0")?; self.wr_bytes(st, b + 65, b"host\0")?; ret!(0) }
            "gethostname" => { let b = a!(0); self.wr_bytes(st, b, b"host\0")?; ret!(0) }
            "getpwuid_r" => { let pp = a!(4); self.wr(st, pp, 8, V::C(0))?; ret!(0) }
            "umask" => ret!(0o022),
            "__xpg_strerror_r" | "strerror_r" => { let (e, b, n) = (ai!(0), a!(1), a!(2)); let mut m = format!("errno {}", e).into_bytes(); m.push(0); m.truncate(n as usize); self.wr_bytes(st, b, &m)?; ret!(0) }
            "getrandom" => { let (b, n) = (a!(0), a!(1)); self.random(st, b, n)?; ret!(n) }
            // ---- time ----
            "clock_gettime" => {
                let b = a!(1);
                st.px.now += 1000;
                let t = st.px.now + if ai!(0) == 0 { 1_700_000_000_000_000_000 } else { 0 };
                self.wr(st, b, 8, V::C((t / 1_000_000_000) as u128))?;
                self.wr(st, b + 8, 8, V::C((t % 1_000_000_000) as u128))?;
                ret!(0)
            }
            "nanosleep" | "clock_nanosleep" => {
                let b = if name == "nanosleep" { a!(0) } else { a!(2) };
                if !st.th().yielded {
                    let (s, n) = (self.rd_u64(st, b)?, self.rd_u64(st, b + 8)?);
                    self.count(st, "sleep", false)?;
                    st.px.now = if name == "clock_nanosleep" && ai!(1) & 1 == 1 { st.px.now.max(s * 1_000_000_000 + n) } else { st.px.now.saturating_add(s.saturating_mul(1_000_000_000)).saturating_add(n) };
                    if self.yield_point(st) { st.th().yielded = true; st.px.counted = false; return Err(Box::new(Stop::Block)); }
                }
                ret!(0)
            }
            // ---- signals ----
            "sigemptyset" | "sigfillset" | "sigaddset" | "signal" | "sigaltstack" | "pthread_sigmask" | "sigprocmask" => ret!(0),
            "sigaction" => { let (sig, act) = (ai!(0), a!(1)); if act != 0 && sig == 2 { st.px.sigint = self.rd_u64(st, act)?; } ret!(0) }
            // ---- processes ----
            "posix_spawnattr_init" | "posix_spawnattr_setflags" | "posix_spawnattr_setsigdefault" | "posix_spawnattr_setsigmask" => ret!(0),
            "posix_spawnattr_destroy" => { let h = a!(0); st.px.attr_pg.remove(&h); ret!(0) }
            "posix_spawnattr_setpgroup" => { let (h, g) = (a!(0), a!(1) as u32); st.px.attr_pg.insert(h, g); ret!(0) }
            "posix_spawn_file_actions_init" => { let h = a!(0); st.px.fa.insert(h, vec![]); ret!(0) }
            "posix_spawn_file_actions_destroy" => { let h = a!(0); st.px.fa.remove(&h); ret!(0) }
            "posix_spawn_file_actions_adddup2" => { let (h, f, t) = (a!(0), ai!(1), ai!(2)); st.px.fa.entry(h).or_default().push((0, f, t, vec![])); ret!(0) }
            "posix_spawn_file_actions_addchdir_np" => { let h = a!(0); let p = p!(1); st.px.fa.entry(h).or_default().push((1, 0, 0, p)); ret!(0) }
            "posix_spawnp" | "posix_spawn" => {
                let (pp, fa, at) = (a!(0), a!(2), a!(3));
                let prog = p!(1);
                let (av, ev) = (a!(4), a!(5));
                let argv = self.argv_list(st, av)?;
                let envp = self.argv_list(st, ev)?;
                self.preempt(st)?;
                if self.count(st, &format!("spawn {}", String::from_utf8_lossy(&prog)), !st.px.no_spawn_fault)? { return ret!(EAGAIN); }
                let mut cwd = st.px.cwd.clone();
                let mut so = None;
                if let Some(v) = st.px.fa.get(&fa).cloned() { for (k, f, t, p) in v { if k == 1 { cwd = p; } else if t == 1 { so = st.px.ofd(f).ok().map(|x| x.1.ino); } } }
                let c0 = st.px.cwd_ino();
                match st.px.get(c0, &cwd, true) { Ok(i) if matches!(st.px.ino(i).nd, Nd::Dir(..)) => {} _ => return ret!(ENOENT) }
                let pid = 2000 + st.px.children.len() as u32;
                let pgid = match st.px.attr_pg.get(&at) { Some(0) => pid, Some(g) => *g, None => 1000 };
                let thr = st.cur;
                st.px.children.push(Child { pid, pgid, status: Some(V::C(0)), reaped: false, polls: 0, killed: None, stdout: so, thread: thr, ignore_term: false, group_killed: false, start: st.px.now, dur: None });
                let env = envp.into_iter().map(|e| { let k = e.iter().position(|c| *c == b'=').unwrap_or(e.len()); (e[..k].to_vec(), e.get(k + 1..).unwrap_or(b"").to_vec()) }).collect();
                Rc::make_mut(&mut st.px.script).push(Script { argv: argv.clone(), cwd: cwd.clone(), out: vec![] });
                st.px.last_spawn = Some((argv, cwd, env));
                self.wr(st, pp, 4, V::C(pid as u128))?;
                if st.px.spawn_cb != 0 {
                    self.wr(st, dst, dsz, V::C(0))?;
                    st.px.pending_cb = Some(st.px.spawn_cb);
                }
                ret!(0)
            }
            "socketpair" => {
                let b = a!(3);
                let i = st.px.new_ino(Nd::Pipe(vec![]), 0o600);
                let r = st.px.new_fd(i, 0, vec![]); let w = st.px.new_fd(i, 1, vec![]);
                self.wr(st, b, 4, V::C(r as u128))?; self.wr(st, b + 4, 4, V::C(w as u128))?; ret!(0)
            }
            "recv" => { let (fd, b, n) = (ai!(0), a!(1), a!(2)); self.do_read(st, fd, b, n, None) }
            "send" => { let (fd, b, n) = (ai!(0), a!(1), a!(2)); self.do_write(st, fd, &[(b, n)], None) }
            "setpgid" => { let (p, g) = (ai!(0), ai!(1)); if p != 0 || st.forked.is_none() { return unsup("setpgid"); } st.px.fork_pgid = Some(g as u32); ret!(0) }
            "fork" => {
                if let Some(pid) = st.px.fork_ret.take() {
                    if st.px.spawn_cb != 0 && st.px.fork_ok { st.px.pending_cb = Some(st.px.spawn_cb); }
                    return ret!(pid);
                }
                if st.forked.is_some() { return unsup("fork in child"); }
                self.preempt(st)?;
                if self.count(st, "fork", !st.px.no_spawn_fault)? { return self.fail(st, EAGAIN); }
                st.px.counted = false;
                st.px.ch.clear();
                let saved = st.clone();
                st.forked = Some(Box::new(saved));
                st.px.fork_pgid = None;
                ret!(0)
            }
            "execvp" | "execv" => {
                let prog = p!(0);
                let av = a!(1);
                let argv = self.argv_list(st, av)?;
                let en = self.foreign_static("environ");
                let ev = self.rd_u64(st, en)?;
                let envp = self.argv_list(st, ev)?;
                let _ = prog;
                let so = st.px.ofd(1).ok().map(|x| x.1.ino);
                let cwd = st.px.cwd.clone();
                let pid = 2000 + st.px.children.len() as u32;
                let pgid = match st.px.fork_pgid { Some(0) => pid, Some(g) => g, None => 1000 };
                let thr = st.cur;
                st.px.children.push(Child { pid, pgid, status: Some(V::C(0)), reaped: false, polls: 0, killed: None, stdout: so, thread: thr, ignore_term: false, group_killed: false, start: st.px.now, dur: None });
                let env = envp.into_iter().map(|e| { let k = e.iter().position(|c| *c == b'=').unwrap_or(e.len()); (e[..k].to_vec(), e.get(k + 1..).unwrap_or(b"").to_vec()) }).collect();
                Rc::make_mut(&mut st.px.script).push(Script { argv: argv.clone(), cwd: cwd.clone(), out: vec![] });
                st.px.last_spawn = Some((argv, cwd, env));
                self.unfork(st, pid, true)
            }
            "waitpid" | "wait4" => {
                let (pid, sp, opt) = (ai!(0), a!(1), ai!(2));
                let Some(k) = st.px.children.iter().position(|c| c.pid as i32 == pid) else { return self.fail(st, ECHILD) };
                if st.px.children[k].reaped { return self.fail(st, ECHILD); }
                self.count(st, "waitpid", false)?;
                if let (Some(d), None) = (st.px.children[k].dur, st.px.children[k].killed) {
                    let el = self.ex.c((st.px.now - st.px.children[k].start) as u128, 64);
                    let run = self.ex.ult(el, d);
                    if opt & 1 == 0 { if self.decide(st, run)? { return unsup("blocking wait for a child of symbolic duration"); } st.px.children[k].polls = 0; }
                    else if self.decide(st, run)? { return ret!(0); }
                    st.px.children[k].polls = 0;
                }
                let c = &mut st.px.children[k];
                if c.killed.is_none() && c.polls > 0 {
                    if opt & 1 != 0 { if c.polls != u32::MAX { c.polls -= 1; } return ret!(0); }
                    if c.polls == u32::MAX { return end(Outcome::Deadlock); }
                }
                if let (Some(_), true) = (c.killed, c.polls == u32::MAX && c.ignore_term && c.killed != Some(9)) {
                    if opt & 1 != 0 { return ret!(0); }
                    return end(Outcome::Deadlock);
                }
                c.reaped = true;
                let v = match c.killed { Some(s) if c.polls > 0 => V::C(s as u128), _ => c.status.unwrap() };
                if sp != 0 { self.wr(st, sp, 4, v)?; }
                ret!(pid)
            }
            "kill" | "killpg" => {
                let (pid, sig) = (ai!(0), ai!(1));
                let pid = if name == "killpg" { -pid } else { pid };
                self.count(st, "kill", false)?;
                let mut hit = false;
                for c in st.px.children.iter_mut() {
                    let m = if pid < 0 { c.pgid as i32 == -pid } else { c.pid as i32 == pid };
                    if m && !c.reaped { hit = true; if sig != 0 { c.killed = Some(sig); } if pid < 0 { c.group_killed = true; } }
                }
                st.px.kills.push((pid, sig));
                if hit { ret!(0) } else { self.fail(st, ESRCH) }
            }
            // ---- threads ----
            "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "prctl" | "pthread_attr_setguardsize" => ret!(0),
            "pthread_self" => { let c = st.cur; ret!(c + 1) }
            "pthread_create" => {
                let (tp, f, arg) = (a!(0), a!(2), a!(3));
                if self.count(st, "pthread_create", false)? { return ret!(EAGAIN); }
                let Some(fid) = self.addr_fn(f) else { return unsup("pthread_create: bad fn") };
                let FnKind::Mir(func) = self.kind_of(fid) else { return unsup("pthread_create: no MIR") };
                let t = self.new_thread();
                st.threads.push(t);
                let id = st.threads.len() - 1;
                let cur = st.cur;
                st.cur = id;
                self.push_frame(st, &func, &[ArgV::I(V::C(arg as u128), 8)], 0, None, 0)?;
                st.cur = cur;
                self.wr(st, tp, 8, V::C(id as u128 + 1))?;
                ret!(0)
            }
            "pthread_join" => {
                let t = a!(0) as usize - 1;
                if st.threads[t].ts != TS::Done { st.th().ts = TS::Join(t); return Err(Box::new(Stop::Block)); }
                ret!(0)
            }
            "pthread_key_create" => { let p = a!(0); st.px.next_key += 1; let k = st.px.next_key; self.wr(st, p, 4, V::C(k as u128))?; ret!(0) }
            "pthread_key_delete" => ret!(0),
            "pthread_setspecific" => { let k = a!(0) & 0xffff_ffff; let v = self.argv(st, args[1])?; st.th().keys.insert(k, v); ret!(0) }
            "pthread_getspecific" => { let k = a!(0) & 0xffff_ffff; let v = st.th().keys.get(&k).copied().unwrap_or(V::C(0)); self.wr(st, dst, 8, v)?; Ok(FR::Done) }
            "__cxa_thread_atexit_impl" => ret!(0),
            "exit" | "_exit" => {
                let c = ai!(0);
                if st.forked.is_some() {
                    let pid = 2000 + st.px.children.len() as u32;
                    let thr = st.cur;
                    st.px.children.push(Child { pid, pgid: pid, status: Some(V::C(((c & 0xff) as u128) << 8)), reaped: false, polls: 0, killed: None, stdout: None, thread: thr, ignore_term: false, group_killed: false, start: st.px.now, dur: None });
                    return self.unfork(st, pid, false);
                }
                if st.px.exit_cb == 0 || st.px.exiting { return end(Outcome::Exit(c)); }
                st.px.exiting = true;
                st.px.exit_code = c;
                let cb = st.px.exit_cb;
                let Some(f) = self.addr_fn(cb) else { return unsup("bad callback") };
                let FnKind::Mir(func) = self.kind_of(f) else { return unsup("callback without MIR") };
                self.push_frame(st, &func, &[], 0, Some(u32::MAX), 0)?;
                Ok(FR::Frame)
            }
            "abort" => { let bt = self.backtrace(st); end(Outcome::Panic(format!("abort\n{}", bt))) }
            "syscall" => {
                let n = a!(0);
                match n {
                    202 => self.futex(st, args),
                    318 => { let (b, k) = (a!(1), a!(2)); self.random(st, b, k)?; ret!(k) }
                    332 | 326 | 434 | 439 | 435 => self.fail(st, ENOSYS),
                    186 => { let c = st.cur; ret!(1000 + c) }
                    _ => unsup(format!("syscall {}", n)),
                }
            }
            _ => unsup(format!("foreign function {}", name)),
        }
    }
    /// the forked child is gone (exec or exit): back to the parent, at its fork call
    fn unfork(&mut self, st: &mut State<'tcx>, pid: u32, ok: bool) -> R<FR> {
        let mut p = *st.forked.take().unwrap();
        let mut px = st.px.clone();
        px.open = p.px.open.clone();
        // descriptors opened by the child are closed with it
        px.ofds = p.px.ofds.clone();
        px.next_ofd = p.px.next_ofd;
        px.cwd = p.px.cwd.clone();
        px.fork_ret = Some(pid);
        px.fork_ok = ok;
        px.ch.clear();
        px.counted = false;
        p.px = px;
        p.pc = st.pc.clone(); p.known = st.known.clone(); p.model = st.model.clone(); p.inputs = st.inputs.clone(); p.notes = st.notes.clone(); p.steps = st.steps; p.forks = st.forks;
        *st = p;
        Ok(FR::Frame)
    }
    fn random(&mut self, st: &mut State<'tcx>, b: u64, n: u64) -> R<()> {
        let mut v = vec![];
        for _ in 0..n { st.px.rand = st.px.rand.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((st.px.rand >> 33) as u8); }
        self.wr_bytes(st, b, &v)
    }
    fn futex(&mut self, st: &mut State<'tcx>, args: &[ArgV]) -> R<FR> {
        let addr = self.a(st, args, 1)?;
        let op = self.ai(st, args, 2)? & 0x7f;
        match op {
            0 | 9 => {
                let w = st.th().woken;
                if w != 0 {
                    st.th().woken = 0;
                    if w == 2 { return self.fail(st, ETIMEDOUT); }
                    return Ok(FR::Ret(0));
                }
                let exp = self.a(st, args, 3)? as u32;
                let v = self.rd(st, addr, 4)?;
                let v = self.conc(st, v, 4)? as u32;
                if v != exp { return self.fail(st, EAGAIN); }
                let tp = self.a(st, args, 4)?;
                let deadline = if tp == 0 { None } else {
                    let (s, n) = (self.rd_u64(st, tp)? as u128, self.rd_u64(st, tp + 8)? as u128);
                    Some(s * 1_000_000_000 + n + if op == 0 { st.px.now as u128 } else { 0 })
                };
                st.th().ts = TS::Futex { addr, deadline, mask: !0 };
                Err(Box::new(Stop::Block))
            }
            1 | 10 => {
                let n = self.a(st, args, 3)? as u32;
                let mut k = 0;
                for t in st.threads.iter_mut() {
                    if k >= n { break; }
                    if let TS::Futex { addr: a, .. } = t.ts { if a == addr { t.ts = TS::Run; t.woken = 1; k += 1; } }
                }
                Ok(FR::Ret(k as u64))
            }
            _ => unsup(format!("futex op {}", op)),
        }
    }
    fn mem_str(&mut self, st: &mut State<'tcx>, p: u64, n: u64) -> R<Vec<u8>> { self.rd_bytes(st, p, n) }
    /// harness control of the environment model
    pub fn pxctl(&mut self, st: &mut State<'tcx>, op: u64, a: V, b: V) -> R<V> {
        let mut c = |en: &mut Self, st: &mut State<'tcx>, v: V| -> R<u64> { Ok(en.conc(st, v, 8)? as u64) };
        Ok(V::C(match op {
            // 1: enable fault injection: a = symbolic index of the failing call (0 = none)
            1 => { let e = self.e(a, 8); let e = self.ex.extract(0, 32, e); st.px.fault = Some(e); st.px.sysno = 0; 0 }
            2 => { st.px.fault = None; st.px.intr = None; 0 }
            // 3: interrupt: a = symbolic index, b = address of the flag
            3 => { let e = self.e(a, 8); let e = self.ex.extract(0, 32, e); let p = c(self, st, b)?; st.px.intr = Some((e, p)); st.px.sysno = 0; 0 }
            // 4: spawn callback
            4 => { st.px.spawn_cb = c(self, st, a)?; 0 }
            // 5: last child: status a, polls b
            5 => { let n = c(self, st, b)?; let v = self.cast_int(a, 8, false, 4); let k = st.px.children.len() - 1; let ch = &mut st.px.children[k]; ch.status = Some(v); ch.polls = n as u32; 0 }
            // 6: argc; 7: argv[a] into buffer b; 8: cwd into a; 9: env value whose name is at a (NUL terminated) into b
            6 => st.px.last_spawn.as_ref().unwrap().0.len() as u128,
            7 => { let i = c(self, st, a)? as usize; let p = c(self, st, b)?; let v = st.px.last_spawn.as_ref().unwrap().0[i].clone(); self.wr_bytes(st, p, &v)?; v.len() as u128 }
            8 => { let p = c(self, st, a)?; let v = st.px.last_spawn.as_ref().unwrap().1.clone(); self.wr_bytes(st, p, &v)?; v.len() as u128 }
            9 => { let k = c(self, st, a)?; let p = c(self, st, b)?; let k = self.rd_cstr(st, k)?; match st.px.last_spawn.as_ref().unwrap().2.iter().find(|e| e.0 == k).cloned() { Some(e) => { self.wr_bytes(st, p, &e.1)?; e.1.len() as u128 } None => u64::MAX as u128 } }
            // 10: system calls so far; 11: fault happened; 12: preemption budget; 13: now (ns)
            10 => st.px.sysno as u128,
            11 => st.px.faulted.is_some() as u128,
            12 => { st.px.preempt = c(self, st, a)? as u32; 0 }
            13 => st.px.now as u128,
            // 14: child count; 15: child a: bit0 reaped, bit1 killed by us, bit2 group killed, sig<<8
            14 => st.px.children.len() as u128,
            15 => { let i = c(self, st, a)? as usize; let ch = &st.px.children[i]; (ch.reaped as u128) | ((ch.killed.is_some() as u128) << 1) | ((ch.group_killed as u128) << 2) | ((ch.killed.unwrap_or(0) as u128) << 8) | ((ch.pid as u128) << 32) }
            // 16: fault only operations that modify the file system; 17: spawn never faults; 18: ncpu; 19: child ignores SIGTERM
            16 => { st.px.fault_write_only = c(self, st, a)? != 0; 0 }
            17 => { st.px.no_spawn_fault = c(self, st, a)? != 0; 0 }
            18 => { st.px.ncpu = c(self, st, a)? as u32; 0 }
            19 => { let k = st.px.children.len() - 1; st.px.children[k].ignore_term = true; 0 }
            // 20: set environment variable (name a, value b; NUL terminated)
            20 => { let (k, v) = (c(self, st, a)?, c(self, st, b)?); let (k, v) = (self.rd_cstr(st, k)?, self.rd_cstr(st, v)?); st.px.env.push((k, v)); self.sync_env(st)?; 0 }
            // 21: clear/read the log of modified paths: into buffer a, returns length (NUL separated)
            21 => { let p = c(self, st, a)?; let v = (*st.px.log).clone(); if p != 0 { self.wr_bytes(st, p, &v)?; } v.len() as u128 }
            22 => { st.px.log = Default::default(); 0 }
            23 => st.cur as u128,
            24 => { st.px.now += c(self, st, a)?; 0 }
            25 => st.px.intr_hit as u128,
            // 26: number of kill calls; 27: a-th kill: pid (as i32) << 32 | sig
            26 => st.px.kills.len() as u128,
            27 => { let i = c(self, st, a)? as usize; let k = st.px.kills[i]; (((k.0 as u32 as u64) << 32) | k.1 as u32 as u64) as u128 }
            // 28: does the last child's stdout go to the file at path a?
            28 => { let p = c(self, st, a)?; let p = self.rd_cstr(st, p)?; let i = st.px.get(1, &p, true).ok(); let k = st.px.children.len() - 1; (st.px.children[k].stdout.is_some() && st.px.children[k].stdout == i) as u128 }
            // 29: stdout/stderr bytes so far into a
            // 29: bytes written so far to standard output (b = 1) or error (b = 2), into a
            29 => { let (p, k) = (c(self, st, a)?, c(self, st, b)? as usize); let v = st.px.out[k - 1].clone(); if p != 0 { self.put_bytes(st, p, &v.0, &v.1)?; } v.0.len() as u128 }
            // 30: add a program argument (NUL terminated); 31: function called when the program exits; 32: last child writes b bytes at a to its stdout; 33: exit code
            30 => { let p = c(self, st, a)?; let v = self.rd_cstr_v(st, p)?; st.px.args.push(v); 0 }
            31 => { st.px.exit_cb = c(self, st, a)?; 0 }
            32 => { let (p, n) = (c(self, st, a)?, c(self, st, b)?); let v = self.rd_bytes(st, p, n)?; let k = st.px.children.len() - 1; if let Some(sc) = Rc::make_mut(&mut st.px.script).last_mut() { sc.out.extend_from_slice(&v); } if let Some(i) = st.px.children[k].stdout { match &mut st.px.ino_mut(i).nd { Nd::Pipe(d) => d.extend(v), Nd::File(d, _) => Rc::make_mut(d).extend(v), _ => {} } } 0 }
            33 => st.px.exit_code as u32 as u128,
            34 => { let p = c(self, st, a)?; let v = self.rd_cstr(st, p)?; st.px.cwd = v; 0 }
            35 => { st.px.children.last().map(|c| c.thread).unwrap_or(0) as u128 }
            // 36: symbolic choice among runnable threads at scheduling points; 37: last child runs for a ns (may be symbolic)
            36 => { st.px.sym_sched = c(self, st, a)? != 0; 0 }
            37 => { let e = self.e(a, 8); let k = st.px.children.len() - 1; st.px.children[k].dur = Some(e); st.px.children[k].polls = 1; 0 }
            // 40: snapshot of the subtree at a; 41: is the subtree at a equal to snapshot b? 46: relative path to leave out of comparisons (0: forget all)
            40 => { let p = c(self, st, a)?; let p = self.rd_cstr(st, p)?; let Ok(i) = st.px.get(1, &p, true) else { return Ok(V::C(u64::MAX as u128)) }; let f = st.px.fs.clone(); let v = Rc::make_mut(&mut st.px.snaps); v.push((f, i)); v.len() as u128 - 1 }
            41 => {
                let (p, k) = (c(self, st, a)?, c(self, st, b)? as usize);
                let p = self.rd_cstr(st, p)?;
                let Ok(i) = st.px.get(1, &p, true) else { return Ok(V::C(0)) };
                let (f2, j) = st.px.snaps[k].clone();
                let f1 = st.px.fs.clone();
                let mut acc = TRUE;
                let mut why = vec![];
                self.tree_eq(&f1, i, &f2, j, &mut vec![], &st.px.excl.clone(), &mut acc, &mut why);
                if !why.is_empty() { st.notes.push(format!("{} differs: {}", String::from_utf8_lossy(&p), why.join(", "))); return Ok(V::C(0)); }
                let e = self.ex.b2v(acc, 64);
                return Ok(self.v(e));
            }
            46 => { let p = c(self, st, a)?; if p == 0 { st.px.excl.clear(); } else { let p = self.rd_cstr(st, p)?; st.px.excl.push(p); } 0 }
            // 42: contents of file a into b (b = 0: its length, MAX if there is none); 43: list the subtree at a into b
            42 => {
                let (p, q) = (c(self, st, a)?, c(self, st, b)?);
                let p = self.rd_cstr(st, p)?;
                match st.px.get(1, &p, true).ok().map(|i| st.px.ino(i).nd.clone()) {
                    Some(Nd::File(d, s)) => { if q != 0 { self.put_bytes(st, q, &d, &s)?; } d.len() as u128 }
                    _ => u64::MAX as u128,
                }
            }
            43 => {
                let (p, q) = (c(self, st, a)?, c(self, st, b)?);
                let p = self.rd_cstr(st, p)?;
                let mut v = vec![];
                if let Ok(i) = st.px.get(1, &p, true) { st.px.list(i, &mut vec![], &mut v); }
                if q != 0 { self.wr_bytes(st, q, &v)?; }
                v.len() as u128
            }
            // 44: write file a; b points to (pointer, length); 47: symlink (target a, path b); 48: mode of a; 49: directory a with parents
            44 => {
                let (p, q) = (c(self, st, a)?, c(self, st, b)?);
                let p = self.rd_cstr(st, p)?;
                let (ptr, n) = (self.rd_u64(st, q)?, self.rd_u64(st, q + 8)?);
                let (mut d, mut sy) = (vec![], vec![]);
                for j in 0..n { match self.rd(st, ptr + j, 1)? { V::C(x) => d.push(x as u8), V::S(e) => { d.push(0); sy.push((j as u32, e)); } } }
                if st.px.put_file(&p, d, sy).is_err() { return unsup("put_file"); }
                0
            }
            47 => { let (t, p) = (c(self, st, a)?, c(self, st, b)?); let (t, p) = (self.rd_cstr(st, t)?, self.rd_cstr(st, p)?); let Ok((d, n, None)) = st.px.resolve(1, &p, false) else { return unsup("symlink") }; let i = st.px.new_ino(Nd::Link(t), 0o777); st.px.link_in(d, &n, i); 0 }
            48 => { let (p, m) = (c(self, st, a)?, c(self, st, b)?); let p = self.rd_cstr(st, p)?; match st.px.get(1, &p, true) { Ok(i) => { st.px.ino_mut(i).mode = m as u32; 0 } Err(_) => u64::MAX as u128 } }
            49 => { let p = c(self, st, a)?; let p = self.rd_cstr(st, p)?; let mut q = vec![]; for k in p.split(|c| *c == b'/').filter(|c| !c.is_empty()) { q.push(b'/'); q.extend_from_slice(k); let _ = st.px.mkdir(1, &q, 0o755); } 0 }
            // 45: the program starts here
            45 => { let b = Begin { fs: st.px.fs.clone(), args: st.px.args.clone(), env: st.px.env.clone(), cwd: st.px.cwd.clone(), children: st.px.children.len() }; st.px.begin = Some(Rc::new(b)); 0 }
            // 50/51: harness registers; 52: mode of path a
            50 => { let k = c(self, st, a)?; st.px.regs.insert(k, b); 0 }
            51 => { let k = c(self, st, a)?; return Ok(st.px.regs.get(&k).copied().unwrap_or(V::C(0))); }
            52 => { let p = c(self, st, a)?; let p = self.rd_cstr(st, p)?; match st.px.get(1, &p, false) { Ok(i) => st.px.ino(i).mode as u128, Err(_) => u64::MAX as u128 } }
            // 53: pgid of child a is its own?; 54: pending (never reaped) children
            53 => { let i = c(self, st, a)? as usize; (st.px.children[i].pgid == st.px.children[i].pid) as u128 }
            // 54: remove the node at a (recursively)
            54 => { let p = c(self, st, a)?; let p = self.rd_cstr(st, p)?; if let Ok((d, n, Some(_))) = st.px.resolve(1, &p, false) { st.px.unlink_in(d, &n); } 0 }
            // 55: look into a JSON document: a = [text ptr, text len, query cstr], b = buffer (0: length only)
            55 => {
                let (p, q) = (c(self, st, a)?, c(self, st, b)?);
                let (t, n, k) = (self.rd_u64(st, p)?, self.rd_u64(st, p + 8)?, self.rd_u64(st, p + 16)?);
                let t = self.rd_bytes(st, t, n)?;
                let k = self.rd_cstr(st, k)?;
                match crate::json::parse(&t).and_then(|j| crate::json::query(&j, &k)) { Some(v) => { if q != 0 { self.wr_bytes(st, q, &v)?; } v.len() as u128 } None => u64::MAX as u128 }
            }
            // 56: what the injected failure hit
            56 => { let q = c(self, st, a)?; let t = st.px.faulted.clone().unwrap_or_default().into_bytes(); if q != 0 { self.wr_bytes(st, q, &t)?; } t.len() as u128 }
            _ => return unsup(format!("pxctl {}", op)),
        }))
    }
    fn put_bytes(&mut self, st: &mut State<'tcx>, q: u64, d: &[u8], s: &[(u32, E)]) -> R<()> {
        self.wr_bytes(st, q, d)?;
        for (o, e) in s { self.wr(st, q + *o as u64, 1, V::S(*e))?; }
        Ok(())
    }
    pub fn rd_cstr_v(&mut self, st: &mut State<'tcx>, mut p: u64) -> R<Vec<V>> {
        let mut r = vec![];
        loop {
            let v = self.rd(st, p, 1)?;
            if self.conc_is_zero(st, v)? { return Ok(r); }
            r.push(v);
            p += 1;
        }
    }
    /// conjunction of the byte equalities that make two trees equal; `why` lists structural differences
    fn tree_eq(&mut self, f1: &BTreeMap<u64, Rc<Ino>>, i: u64, f2: &BTreeMap<u64, Rc<Ino>>, j: u64, path: &mut Vec<u8>, excl: &[Vec<u8>], acc: &mut E, why: &mut Vec<String>) {
        let (a, b) = (&f1[&i], &f2[&j]);
        if Rc::ptr_eq(a, b) && !matches!(a.nd, Nd::Dir(..)) { return; }
        let name = String::from_utf8_lossy(path).into_owned();
        match (&a.nd, &b.nd) {
            (Nd::Dir(x, _), Nd::Dir(y, _)) => {
                let keys: std::collections::BTreeSet<&Vec<u8>> = x.keys().chain(y.keys()).collect();
                for k in keys {
                    let n = path.len();
                    if n > 0 { path.push(b'/'); }
                    path.extend_from_slice(k);
                    if !excl.contains(path) {
                        match (x.get(k), y.get(k)) {
                            (Some(p), Some(q)) => self.tree_eq(f1, *p, f2, *q, path, excl, acc, why),
                            (Some(_), None) => why.push(format!("extra {}", String::from_utf8_lossy(path))),
                            _ => why.push(format!("missing {}", String::from_utf8_lossy(path))),
                        }
                    }
                    path.truncate(n);
                }
            }
            (Nd::File(d1, s1), Nd::File(d2, s2)) => {
                if a.mode != b.mode { why.push(format!("mode of {} {:o} {:o}", name, a.mode, b.mode)); }
                if d1.len() != d2.len() { why.push(format!("length of {}: {} {}", name, d1.len(), d2.len())); return; }
                let (m1, m2): (BTreeMap<u32, E>, BTreeMap<u32, E>) = (s1.iter().copied().collect(), s2.iter().copied().collect());
                for k in 0..d1.len() {
                    let (p, q) = (m1.get(&(k as u32)).copied(), m2.get(&(k as u32)).copied());
                    if p.is_none() && q.is_none() { if d1[k] != d2[k] { why.push(format!("contents of {} at byte {}", name, k)); return; } continue; }
                    let p = p.unwrap_or_else(|| self.ex.c(d1[k] as u128, 8));
                    let q = q.unwrap_or_else(|| self.ex.c(d2[k] as u128, 8));
                    let c = self.ex.eq(p, q);
                    *acc = self.ex.band(*acc, c);
                }
            }
            (Nd::Link(x), Nd::Link(y)) => if x != y { why.push(format!("link {}", name)); },
            _ => why.push(format!("kind of {}", name)),
        }
    }
    pub fn sync_env(&mut self, st: &mut State<'tcx>) -> R<()> {
        let envs = st.px.env.clone();
        let arr = self.malloc(st, 8 * (envs.len() as u64 + 1), 8);
        for (i, (k, v)) in envs.iter().enumerate() {
            let mut s = k.clone(); s.push(b'='); s.extend_from_slice(v); s.push(0);
            let p = self.malloc(st, s.len() as u64, 1);
            self.wr_bytes(st, p, &s)?;
            self.wr(st, arr + 8 * i as u64, 8, V::C(p as u128))?;
        }
        let e = self.foreign_static("environ");
        self.wr(st, e, 8, V::C(arr as u128))
    }
}
impl Posix {
    pub fn mutlog(&mut self, _i: u64, path: &[u8]) {
        let mut p = vec![];
        if path.first() != Some(&b'/') { p.extend_from_slice(&self.cwd); p.push(b'/'); }
        p.extend_from_slice(path);
        p.push(0);
        Rc::make_mut(&mut self.log).extend_from_slice(&p);
    }
}
