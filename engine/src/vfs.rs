//! In-memory file system used by the libc model. Names are concrete; file contents may hold symbolic bytes.
use crate::expr::E;
use crate::posix::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type FsR<T> = Result<T, i32>;

impl Posix {
    pub fn ino(&self, i: u64) -> &Ino { &self.fs[&i] }
    pub fn ino_mut(&mut self, i: u64) -> &mut Ino { Rc::make_mut(Rc::make_mut(&mut self.fs).get_mut(&i).unwrap()) }
    pub fn new_ino(&mut self, nd: Nd, mode: u32) -> u64 {
        let i = self.next_ino;
        self.next_ino += 1;
        let t = self.now;
        Rc::make_mut(&mut self.fs).insert(i, Rc::new(Ino { nd, mode, mtime: t, nlink: 1 }));
        i
    }
    fn dir(&self, i: u64) -> FsR<&BTreeMap<Vec<u8>, u64>> { match &self.ino(i).nd { Nd::Dir(m, _) => Ok(m), _ => Err(ENOTDIR) } }
    fn parent(&self, i: u64) -> u64 { match &self.ino(i).nd { Nd::Dir(_, p) => *p, _ => 1 } }
    /// (directory, final name, target if it exists)
    pub fn resolve(&self, at: u64, path: &[u8], follow: bool) -> FsR<(u64, Vec<u8>, Option<u64>)> { self.res(at, path, follow, 0) }
    fn res(&self, at: u64, path: &[u8], follow: bool, depth: u32) -> FsR<(u64, Vec<u8>, Option<u64>)> {
        if depth > 20 { return Err(ELOOP); }
        if path.is_empty() { return Err(ENOENT); }
        let mut d = if path[0] == b'/' { 1 } else { at };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        let trailing = *path.last().unwrap() == b'/' || path.ends_with(b"/.");
        if comps.is_empty() { return Ok((self.parent(d), b".".to_vec(), Some(d))); }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let m = self.dir(d)?;
            if *c == b".." {
                let p = self.parent(d);
                if last { return Ok((self.parent(p), b"..".to_vec(), Some(p))); }
                d = p;
                continue;
            }
            match m.get(*c) {
                None => { if last { return Ok((d, c.to_vec(), None)); } return Err(ENOENT); }
                Some(&i) => {
                    if let Nd::Link(t) = &self.ino(i).nd {
                        if !last || follow || trailing {
                            let r = self.res(d, t, true, depth + 1)?;
                            if last { return Ok(r); }
                            match r.2 { Some(x) => d = x, None => return Err(ENOENT) }
                            continue;
                        }
                    }
                    if last { if trailing { self.dir(i)?; } return Ok((d, c.to_vec(), Some(i))); }
                    d = i;
                }
            }
        }
        unreachable!()
    }
    pub fn get(&self, at: u64, path: &[u8], follow: bool) -> FsR<u64> { self.resolve(at, path, follow)?.2.ok_or(ENOENT) }
    pub fn link_in(&mut self, d: u64, name: &[u8], i: u64) {
        let t = self.now;
        let n = self.ino_mut(d);
        n.mtime = t;
        if let Nd::Dir(m, _) = &mut n.nd { m.insert(name.to_vec(), i); }
        if let Nd::Dir(_, p) = &mut self.ino_mut(i).nd { *p = d; }
    }
    pub fn unlink_in(&mut self, d: u64, name: &[u8]) {
        let t = self.now;
        let n = self.ino_mut(d);
        n.mtime = t;
        if let Nd::Dir(m, _) = &mut n.nd { m.remove(name); }
    }
    pub fn mkdir(&mut self, at: u64, path: &[u8], mode: u32) -> FsR<u64> {
        let (d, n, t) = self.resolve(at, path, false)?;
        if t.is_some() { return Err(EEXIST); }
        let i = self.new_ino(Nd::Dir(BTreeMap::new(), d), mode);
        self.link_in(d, &n, i);
        Ok(i)
    }
    pub fn unlink(&mut self, at: u64, path: &[u8]) -> FsR<()> {
        let (d, n, t) = self.resolve(at, path, false)?;
        let t = t.ok_or(ENOENT)?;
        if matches!(self.ino(t).nd, Nd::Dir(..)) { return Err(EISDIR); }
        self.unlink_in(d, &n);
        Ok(())
    }
    pub fn rmdir(&mut self, at: u64, path: &[u8]) -> FsR<()> {
        let (d, n, t) = self.resolve(at, path, false)?;
        let t = t.ok_or(ENOENT)?;
        match &self.ino(t).nd { Nd::Dir(m, _) => if !m.is_empty() { return Err(ENOTEMPTY); }, _ => return Err(ENOTDIR) }
        if n == b"." || n == b".." { return Err(EINVAL); }
        self.unlink_in(d, &n);
        Ok(())
    }
    pub fn rename(&mut self, a1: u64, p1: &[u8], a2: u64, p2: &[u8]) -> FsR<()> {
        let (d1, n1, t1) = self.resolve(a1, p1, false)?;
        let t1 = t1.ok_or(ENOENT)?;
        let (d2, n2, t2) = self.resolve(a2, p2, false)?;
        if Some(t1) == t2 { return Ok(()); }
        if let Some(t2) = t2 {
            match (&self.ino(t1).nd, &self.ino(t2).nd) {
                (Nd::Dir(..), Nd::Dir(m, _)) => if !m.is_empty() { return Err(ENOTEMPTY); },
                (Nd::Dir(..), _) => return Err(ENOTDIR),
                (_, Nd::Dir(..)) => return Err(EISDIR),
                _ => {}
            }
        }
        self.unlink_in(d1, &n1);
        self.link_in(d2, &n2, t1);
        Ok(())
    }
    pub fn put_file(&mut self, path: &[u8], data: Vec<u8>, sym: Vec<(u32, E)>) -> FsR<u64> {
        // create parents
        let mut p = vec![];
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        for c in &comps[..comps.len() - 1] { p.push(b'/'); p.extend_from_slice(c); let _ = self.mkdir(1, &p, 0o755); }
        let (d, n, t) = self.resolve(1, path, true)?;
        match t {
            Some(i) => { self.ino_mut(i).nd = Nd::File(Rc::new(data), Rc::new(sym)); Ok(i) }
            None => { let i = self.new_ino(Nd::File(Rc::new(data), Rc::new(sym)), 0o644); self.link_in(d, &n, i); Ok(i) }
        }
    }
    pub fn path_of(&self, mut i: u64) -> Vec<u8> {
        // directories know their parents
        let mut parts: Vec<Vec<u8>> = vec![];
        while i != 1 {
            let p = self.parent(i);
            let Ok(m) = self.dir(p) else { break };
            match m.iter().find(|(_, x)| **x == i) { Some((n, _)) => parts.push(n.clone()), None => break }
            i = p;
        }
        let mut r = vec![];
        for p in parts.iter().rev() { r.push(b'/'); r.extend_from_slice(p); }
        if r.is_empty() { r.push(b'/'); }
        r
    }
    /// realpath of any existing node
    pub fn realpath(&self, at: u64, path: &[u8]) -> FsR<Vec<u8>> {
        let (d, n, t) = self.resolve(at, path, true)?;
        let t = t.ok_or(ENOENT)?;
        if matches!(self.ino(t).nd, Nd::Dir(..)) { return Ok(self.path_of(t)); }
        let mut r = self.path_of(d);
        if r != b"/" { r.push(b'/'); }
        r.extend_from_slice(&n);
        Ok(r)
    }
    pub fn list(&self, i: u64, path: &mut Vec<u8>, out: &mut Vec<u8>) {
        if let Nd::Dir(m, _) = &self.ino(i).nd {
            for (k, &j) in m {
                let n = path.len();
                if n > 0 { path.push(b'/'); }
                path.extend_from_slice(k);
                out.push(match &self.ino(j).nd { Nd::Dir(..) => b'd', Nd::Link(_) => b'l', _ => b'f' });
                out.extend_from_slice(path);
                out.push(0);
                self.list(j, path, out);
                path.truncate(n);
            }
        }
    }
    pub fn size(&self, i: u64) -> u64 { match &self.ino(i).nd { Nd::File(d, _) => d.len() as u64, Nd::Link(t) => t.len() as u64, _ => 4096 } }
    pub fn new_fd(&mut self, ino: u64, flags: i32, path: Vec<u8>) -> i32 {
        let o = self.next_ofd;
        self.next_ofd += 1;
        Rc::make_mut(&mut self.ofds).insert(o, Ofd { ino, pos: 0, flags, path });
        self.fd_for(o, 3)
    }
    pub fn fd_for(&mut self, o: u64, min: i32) -> i32 {
        let mut f = min;
        while self.open.contains_key(&f) { f += 1; }
        Rc::make_mut(&mut self.open).insert(f, o);
        f
    }
    pub fn ofd(&self, fd: i32) -> FsR<(u64, Ofd)> { let o = *self.open.get(&fd).ok_or(EBADF)?; Ok((o, self.ofds[&o].clone())) }
    pub fn close(&mut self, fd: i32) -> FsR<()> {
        let o = Rc::make_mut(&mut self.open).remove(&fd).ok_or(EBADF)?;
        if !self.open.values().any(|x| *x == o) { Rc::make_mut(&mut self.ofds).remove(&o); self.locks.retain(|_, l| l.0 != o); }
        Ok(())
    }
    pub fn cwd_ino(&self) -> u64 { let c = self.cwd.clone(); self.get(1, &c, true).unwrap_or(1) }
    pub fn at(&self, fd: i32) -> FsR<u64> { if fd == -100 { Ok(self.cwd_ino()) } else { Ok(self.ofd(fd)?.1.ino) } }
}
