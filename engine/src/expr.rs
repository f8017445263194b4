//! Hash-consed bit-vector / boolean expression DAG with a light simplifier.
//! Width 0 denotes Bool.
use rustc_data_structures::fx::FxHashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FK { Add, Sub, Mul, Div, Rem, Max, Min }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FC { Eq, Lt, Le }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FU { Sqrt, Floor, Ceil, Round, Trunc, RoundEven }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(BK, E, E),
    Not(E),
    Concat(E, E),
    Extract(u8, E),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    BNot(E),
    BAnd(E, E),
    BOr(E, E),
    // floating point on IEEE bit patterns
    FBin(FK, E, E),
    FCmp(FC, E, E),
    FUn(FU, E),
    FToI(bool, E),  // signed?, saturating; width = result
    IToF(bool, E),  // signed?
    FToF(E),
}

pub struct Arena {
    pub nodes: Vec<(Node, u8)>,
    map: FxHashMap<(Node, u8), E>,
    vars: Vec<Option<Rc<[u32]>>>,
    pub var_info: Vec<(String, u8)>,
}

pub fn mask(w: u8) -> u128 {
    if w == 0 { 1 } else if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u8) -> i128 {
    if w == 0 || w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub const TRUE: E = 1;
pub const FALSE: E = 0;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: Default::default(), vars: vec![], var_info: vec![] };
        a.mk(Node::Const(0), 0);
        a.mk(Node::Const(1), 0);
        a
    }
    pub fn len(&self) -> usize { self.nodes.len() }
    pub fn mk(&mut self, n: Node, w: u8) -> E {
        if let Some(&e) = self.map.get(&(n, w)) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push((n, w));
        self.vars.push(None);
        self.map.insert((n, w), e);
        e
    }
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].1 }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize].0 }
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 { Node::Const(v) => Some(v), _ => None }
    }
    pub fn c(&mut self, v: u128, w: u8) -> E { self.mk(Node::Const(v & mask(w)), w) }
    pub fn b(&self, v: bool) -> E { if v { TRUE } else { FALSE } }
    pub fn var(&mut self, name: &str, w: u8) -> E {
        let id = self.var_info.len() as u32;
        self.var_info.push((name.to_string(), w));
        self.mk(Node::Var(id), w)
    }
    pub fn vars(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] { return v.clone(); }
        // iterative to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vars[x as usize].is_some() { stack.pop(); continue; }
            let (k, nk) = children(self.n(x));
            let mut ready = true;
            for &c in &k[..nk] {
                if self.vars[c as usize].is_none() { stack.push(c); ready = false; }
            }
            if !ready { continue; }
            let r: Rc<[u32]> = match self.n(x) {
                Node::Var(i) => Rc::from(vec![i]),
                _ => {
                    if nk == 0 { Rc::from(vec![]) }
                    else if nk == 1 { self.vars[k[0] as usize].clone().unwrap() }
                    else {
                        let mut v: Vec<u32> = vec![];
                        for &c in &k[..nk] { v.extend_from_slice(self.vars[c as usize].as_ref().unwrap()); }
                        v.sort_unstable();
                        v.dedup();
                        Rc::from(v)
                    }
                }
            };
            self.vars[x as usize] = Some(r);
            stack.pop();
        }
        self.vars[e as usize].clone().unwrap()
    }

    /// an upper bound of the unsigned value
    fn upper(&self, a: E, depth: u32) -> u128 {
        let w = self.w(a);
        let m = mask(w);
        if depth == 0 { return m; }
        match self.n(a) {
            Node::Const(v) => v,
            Node::ZExt(x) => self.upper(x, depth),
            Node::Ite(_, x, y) => self.upper(x, depth - 1).max(self.upper(y, depth - 1)),
            Node::Bin(BK::Add, x, y) => self.upper(x, depth - 1).checked_add(self.upper(y, depth - 1)).filter(|v| *v <= m).unwrap_or(m),
            Node::Bin(BK::Mul, x, y) => self.upper(x, depth - 1).checked_mul(self.upper(y, depth - 1)).filter(|v| *v <= m).unwrap_or(m),
            Node::Bin(BK::And, x, y) => self.upper(x, depth - 1).min(self.upper(y, depth - 1)),
            Node::Bin(BK::URem, x, _) => self.upper(x, depth - 1),
            _ => m,
        }
    }
    pub fn bin(&mut self, k: BK, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin {:?} widths", k);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold_bin(k, x, y, w) { return self.c(r, w); }
        }
        use BK::*;
        // division of values known to be small
        if matches!(k, UDiv | URem) && w > 8 && cb != Some(0) {
            let m = self.upper(a, 6).max(self.upper(b, 6));
            for nw in [8u8, 16, 32] {
                if nw < w && m <= mask(nw) {
                    let (x, y) = (self.extract(0, nw, a), self.extract(0, nw, b));
                    let r = self.bin(k, x, y);
                    if k == URem { return self.zext(r, w); }
                    // division by zero is excluded by the program's own check; keep the value exact otherwise
                    let r = self.zext(r, w);
                    return r;
                }
            }
        }
        // canonical: constant on the right for commutative
        if matches!(k, Add | Mul | And | Or | Xor) && ca.is_some() {
            return self.bin(k, b, a);
        }
        if let Some(y) = cb {
            match (k, y) {
                (Add | Sub | Or | Xor | Shl | LShr | AShr, 0) => return a,
                (Mul, 1) | (UDiv, 1) | (SDiv, 1) => return a,
                (Mul, 0) | (And, 0) => return b,
                (URem, 1) => return self.c(0, w),
                (And, m) if m == mask(w) => return a,
                (Or, m) if m == mask(w) => return b,
                (Xor, m) if m == mask(w) => return self.not(a),
                (Shl | LShr, s) if s >= w as u128 => return self.c(0, w),
                (Sub, y) => { let c = self.c(y.wrapping_neg(), w); return self.bin(Add, a, c); }
                (Add, y) => {
                    if let Node::Bin(Add, p, q) = self.n(a) {
                        if let Some(z) = self.cv(q) {
                            let c = self.c(z.wrapping_add(y), w);
                            return self.bin(Add, p, c);
                        }
                    }
                }
                (And, m) => {
                    // low-bit mask => zext(extract)
                    if m != 0 && (m & (m + 1)) == 0 {
                        let lo = 128 - m.leading_zeros();
                        let lo = lo as u8;
                        let ex = self.extract(0, lo, a);
                        return self.zext(ex, w);
                    }
                    if let Node::Bin(And, p, q) = self.n(a) {
                        if let Some(z) = self.cv(q) { let c = self.c(z & m, w); return self.bin(And, p, c); }
                    }
                    if let Node::Ite(c, x, y2) = self.n(a) {
                        if self.cv(x).is_some() && self.cv(y2).is_some() {
                            let p = self.bin(And, x, b); let q = self.bin(And, y2, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
                (LShr, s) => {
                    // lshr by const => zext(extract high)
                    let s = s as u8;
                    let ex = self.extract(s, w - s, a);
                    return self.zext(ex, w);
                }
                (Shl, s) => {
                    let s = s as u8;
                    let lo = self.extract(0, w - s, a);
                    let z = self.c(0, s);
                    return self.concat(lo, z);
                }
                (UDiv, d) if d.is_power_of_two() => {
                    let s = self.c(d.trailing_zeros() as u128, w);
                    return self.bin(LShr, a, s);
                }
                (URem, d) if d.is_power_of_two() => {
                    let m = self.c(d - 1, w);
                    return self.bin(And, a, m);
                }
                (Mul, d) if d.is_power_of_two() => {
                    let s = self.c(d.trailing_zeros() as u128, w);
                    return self.bin(Shl, a, s);
                }
                _ => {}
            }
        }
        if a == b {
            match k { And | Or => return a, Xor | Sub => return self.c(0, w), _ => {} }
        }
        // or of concat-shaped disjoint parts
        if k == Or || k == Add || k == Xor {
            if let Some(r) = self.merge_disjoint(a, b) { return r; }
        }
        if matches!(k, And | Or | Xor) {
            // (ite c 1 0) op (ite d 1 0)
            if let (Some(c), Some(d)) = (self.as_b2v(a), self.as_b2v(b)) {
                let r = match k { And => self.band(c, d), Or => self.bor(c, d), _ => { let e = self.eq(c, d); self.bnot(e) } };
                return self.b2v(r, w);
            }
        }
        let (a, b) = if matches!(k, Add | Mul | And | Or | Xor) && cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Bin(k, a, b), w)
    }
    // zext(x) | concat(y, 0) => concat
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        for (p, q) in [(a, b), (b, a)] {
            if let Node::Concat(h, l) = self.n(p) {
                let lw = self.w(l);
                if self.cv(l) == Some(0) {
                    // low part zero; q must have high part zero
                    if let Node::ZExt(x) = self.n(q) {
                        if self.w(x) <= lw {
                            let l2 = self.zext(x, lw);
                            return Some(self.concat(h, l2));
                        }
                    }
                    if let Some(c) = self.cv(q) {
                        if c < (1u128 << lw) { let l2 = self.c(c, lw); return Some(self.concat(h, l2)); }
                    }
                    if let Node::Concat(qh, ql) = self.n(q) {
                        if self.w(ql) == lw && self.cv(qh) == Some(0) { return Some(self.concat(h, ql)); }
                    }
                }
            }
        }
        None
    }
    pub fn as_b2v(&self, a: E) -> Option<E> {
        if let Node::Ite(c, x, y) = self.n(a) {
            if self.cv(x) == Some(1) && self.cv(y) == Some(0) && self.w(a) != 0 { return Some(c); }
        }
        None
    }
    pub fn b2v(&mut self, c: E, w: u8) -> E {
        let o = self.c(1, w);
        let z = self.c(0, w);
        self.ite(c, o, z)
    }
    pub fn v2b(&mut self, v: E) -> E {
        let w = self.w(v);
        let z = self.c(0, w);
        let e = self.eq(v, z);
        self.bnot(e)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) { return self.c(!v, w); }
        if let Node::Not(x) = self.n(a) { return x; }
        self.mk(Node::Not(a), w)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.c(0, w);
        if let Some(v) = self.cv(a) { return self.c(v.wrapping_neg(), w); }
        self.mk(Node::Bin(BK::Sub, z, a), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.c((x << wl) | y, w); }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        // adjacent extracts of the same base
        let (hb, hlo) = match self.n(h) { Node::Extract(lo, b) => (b, lo), _ => (h, 0) };
        let (lb, llo) = match self.n(l) { Node::Extract(lo, b) => (b, lo), _ => (l, 0) };
        if hb == lb && hlo == llo + wl && (hb != h) {
            return self.extract(llo, w, hb);
        }
        // concat(h, concat(x, y)) with h,x adjacent
        if let Node::Concat(x, y) = self.n(l) {
            let t = self.try_adj(h, x);
            if let Some(t) = t { return self.concat(t, y); }
        }
        // concat(concat(a,b), l) normalise to right-assoc
        if let Node::Concat(a, b) = self.n(h) {
            let r = self.concat(b, l);
            return self.concat(a, r);
        }
        self.mk(Node::Concat(h, l), w)
    }
    fn try_adj(&mut self, h: E, x: E) -> Option<E> {
        if let (Some(_), Some(_)) = (self.cv(h), self.cv(x)) { return Some(self.concat(h, x)); }
        if let (Node::Extract(hlo, hb), Node::Extract(llo, lb)) = (self.n(h), self.n(x)) {
            if hb == lb && hlo == llo + self.w(x) { let w = self.w(h) + self.w(x); return Some(self.extract(llo, w, hb)); }
        }
        None
    }
    pub fn extract(&mut self, lo: u8, w: u8, a: E) -> E {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32);
        if lo == 0 && w == aw { return a; }
        match self.n(a) {
            Node::Const(v) => self.c(v >> lo, w),
            Node::Extract(l2, x) => self.extract(lo + l2, w, x),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { self.extract(lo - wl, w, h) }
                else if lo + w <= wl { self.extract(lo, w, l) }
                else {
                    let hh = self.extract(0, lo + w - wl, h);
                    let ll = self.extract(lo, wl - lo, l);
                    self.concat(hh, ll)
                }
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { self.c(0, w) }
                else if lo + w <= xw { self.extract(lo, w, x) }
                else { let y = self.extract(lo, xw - lo, x); self.zext(y, w) }
            }
            Node::SExt(x) if lo + w <= self.w(x) => self.extract(lo, w, x),
            Node::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.extract(lo, w, x);
                let q = self.extract(lo, w, y);
                self.ite(c, p, q)
            }
            Node::Bin(k @ (BK::And | BK::Or | BK::Xor), x, y) => {
                let p = self.extract(lo, w, x);
                let q = self.extract(lo, w, y);
                self.bin(k, p, q)
            }
            Node::Bin(k @ (BK::Add | BK::Sub | BK::Mul), x, y) if lo == 0 => {
                let p = self.extract(0, w, x);
                let q = self.extract(0, w, y);
                self.bin(k, p, q)
            }
            Node::Not(x) => { let p = self.extract(lo, w, x); self.not(p) }
            _ => self.mk(Node::Extract(lo, a), w),
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(v) => self.c(v, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            Node::Const(v) => self.c(sext(v, aw) as u128, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Node::SExt(a), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        let w = self.w(a);
        if w == 0 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.bnot(c),
                (Some(1), _) => return self.bor(c, b),
                (Some(0), _) => { let n = self.bnot(c); return self.band(n, b); }
                (_, Some(1)) => { let n = self.bnot(c); return self.bor(n, a); }
                (_, Some(0)) => return self.band(c, a),
                _ => {}
            }
        }
        if let Node::BNot(x) = self.n(c) { return self.ite(x, b, a); }
        if let Node::Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Node::Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        self.mk(Node::Ite(c, a, b), w)
    }
    fn ctree(&self, e: E) -> bool {
        match self.n(e) { Node::Const(_) => true, Node::Ite(_, x, y) => self.cv(x).is_some() && self.cv(y).is_some(), _ => false }
    }
    pub fn bnot(&mut self, a: E) -> E {
        match self.n(a) {
            Node::Const(v) => self.b(v == 0),
            Node::BNot(x) => x,
            Node::Ult(x, y) => self.ule(y, x),
            Node::Ule(x, y) => self.ult(y, x),
            Node::Slt(x, y) => self.sle(y, x),
            Node::Sle(x, y) => self.slt(y, x),
            _ => self.mk(Node::BNot(a), 0),
        }
    }
    pub fn band(&mut self, a: E, b: E) -> E {
        if a == FALSE || b == FALSE { return FALSE; }
        if a == TRUE || a == b { return b; }
        if b == TRUE { return a; }
        let nb = self.bnot(b);
        if nb == a { return FALSE; }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Node::BAnd(a, b), 0)
    }
    pub fn bor(&mut self, a: E, b: E) -> E {
        if a == TRUE || b == TRUE { return TRUE; }
        if a == FALSE || a == b { return b; }
        if b == FALSE { return a; }
        let nb = self.bnot(b);
        if nb == a { return TRUE; }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Node::BOr(a, b), 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(x == y); }
        if ca.is_some() { return self.eq(b, a); }
        if w == 0 {
            if cb == Some(1) { return a; }
            if cb == Some(0) { return self.bnot(a); }
        }
        if let Some(y) = cb {
            match self.n(a) {
                Node::ZExt(x) => {
                    let xw = self.w(x);
                    if y > mask(xw) { return FALSE; }
                    let c = self.c(y, xw);
                    return self.eq(x, c);
                }
                Node::SExt(x) => {
                    let xw = self.w(x);
                    let t = y & mask(xw);
                    if (sext(t, xw) as u128) & mask(w) != y { return FALSE; }
                    let c = self.c(t, xw);
                    return self.eq(x, c);
                }
                Node::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let ch = self.c(y >> wl, wh);
                    let cl = self.c(y, wl);
                    let p = self.eq(h, ch);
                    let q = self.eq(l, cl);
                    return self.band(p, q);
                }
                Node::Ite(c, x, z) => {
                    if self.ctree(x) || self.ctree(z) {
                        let p = self.eq(x, b);
                        let q = self.eq(z, b);
                        return self.ite(c, p, q);
                    }
                }
                Node::Bin(BK::Add, x, k) => {
                    if let Some(kv) = self.cv(k) {
                        let c = self.c(y.wrapping_sub(kv), w);
                        return self.eq(x, c);
                    }
                }
                Node::Bin(BK::Sub, k, x) => {
                    if let Some(kv) = self.cv(k) {
                        let c = self.c(kv.wrapping_sub(y), w);
                        return self.eq(x, c);
                    }
                }
                Node::Bin(BK::Xor, x, k) => {
                    if let Some(kv) = self.cv(k) {
                        let c = self.c(kv ^ y, w);
                        return self.eq(x, c);
                    }
                    if y == 0 { return self.eq(x, k); }
                }
                Node::Bin(BK::Sub, x, z) if y == 0 => return self.eq(x, z),
                Node::Bin(BK::Or, x, z) if y == 0 => {
                    let p = self.eq(x, b);
                    let q = self.eq(z, b);
                    return self.band(p, q);
                }
                Node::Not(x) => { let c = self.c(!y, w); return self.eq(x, c); }
                _ => {}
            }
        } else {
            match (self.n(a), self.n(b)) {
                (Node::ZExt(x), Node::ZExt(z)) if self.w(x) == self.w(z) => return self.eq(x, z),
                (Node::ZExt(x), Node::ZExt(z)) => {
                    let m = self.w(x).max(self.w(z));
                    let (p, q) = (self.zext(x, m), self.zext(z, m));
                    if m < w { return self.eq(p, q); }
                }
                (Node::Concat(h, l), Node::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                    let p = self.eq(h, h2);
                    let q = self.eq(l, l2);
                    return self.band(p, q);
                }
                _ => {}
            }
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Eq(a, b), 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return FALSE; }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(x < y); }
        if cb == Some(0) { return FALSE; }
        if ca == Some(mask(w)) { return FALSE; }
        if cb == Some(1) { let z = self.c(0, w); return self.eq(a, z); }
        if ca == Some(0) { let e = self.eq(b, a); return self.bnot(e); }
        match (self.n(a), self.n(b)) {
            (Node::ZExt(x), Node::Const(y)) => {
                let xw = self.w(x);
                if y > mask(xw) { return TRUE; }
                let c = self.c(y, xw);
                return self.ult(x, c);
            }
            (Node::Const(y), Node::ZExt(x)) => {
                let xw = self.w(x);
                if y >= mask(xw) { return FALSE; }
                let c = self.c(y, xw);
                return self.ult(c, x);
            }
            (Node::ZExt(x), Node::ZExt(z)) => {
                let m = self.w(x).max(self.w(z));
                if m < w { let (p, q) = (self.zext(x, m), self.zext(z, m)); return self.ult(p, q); }
            }
            (Node::Ite(c, x, y), Node::Const(_)) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.ult(x, b); let q = self.ult(y, b); return self.ite(c, p, q);
            }
            (Node::Const(_), Node::Ite(c, x, y)) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.ult(a, x); let q = self.ult(a, y); return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Ult(a, b), 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE; }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(x <= y); }
        if let Some(y) = cb {
            if y == mask(w) { return TRUE; }
            let c = self.c(y + 1, w);
            return self.ult(a, c);
        }
        if let Some(x) = ca {
            if x == 0 { return TRUE; }
            let c = self.c(x - 1, w);
            return self.ult(c, b);
        }
        match (self.n(a), self.n(b)) {
            (Node::ZExt(x), Node::ZExt(z)) => {
                let m = self.w(x).max(self.w(z));
                if m < w { let (p, q) = (self.zext(x, m), self.zext(z, m)); return self.ule(p, q); }
            }
            _ => {}
        }
        self.mk(Node::Ule(a, b), 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return FALSE; }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(sext(x, w) < sext(y, w)); }
        match (self.n(a), self.n(b)) {
            (Node::ZExt(x), Node::ZExt(z)) if self.w(x) < w && self.w(z) < w => return self.ult(a, b),
            (Node::ZExt(_), Node::Const(y)) => return if sext(y, w) < 0 { FALSE } else { self.ult(a, b) },
            (Node::Const(y), Node::ZExt(_)) => return if sext(y, w) < 0 { TRUE } else { self.ult(a, b) },
            (Node::Ite(c, x, y), Node::Const(_)) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.slt(x, b); let q = self.slt(y, b); return self.ite(c, p, q);
            }
            (Node::Const(_), Node::Ite(c, x, y)) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let p = self.slt(a, x); let q = self.slt(a, y); return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Slt(a, b), 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE; }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.b(sext(x, w) <= sext(y, w)); }
        if let Some(y) = cb {
            if y == mask(w) >> 1 { return TRUE; }
            let c = self.c(y.wrapping_add(1), w);
            return self.slt(a, c);
        }
        if let Some(x) = ca {
            if sext(x, w) == sext(1u128 << (w - 1), w) { return TRUE; }
            let c = self.c(x.wrapping_sub(1), w);
            return self.slt(c, b);
        }
        self.mk(Node::Sle(a, b), 0)
    }
    pub fn fbin(&mut self, k: FK, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let r = fold_f(k, x, y, w); return self.c(r, w); }
        self.mk(Node::FBin(k, a, b), w)
    }
    pub fn fcmp(&mut self, k: FC, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.b(fold_fc(k, x, y, w)); }
        self.mk(Node::FCmp(k, a, b), 0)
    }
    pub fn fun(&mut self, k: FU, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) { let r = fold_fu(k, x, w); return self.c(r, w); }
        self.mk(Node::FUn(k, a), w)
    }
    pub fn ftoi(&mut self, signed: bool, a: E, w: u8) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) { let r = fold_ftoi(signed, x, aw, w); return self.c(r, w); }
        self.mk(Node::FToI(signed, a), w)
    }
    pub fn itof(&mut self, signed: bool, a: E, w: u8) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) { let r = fold_itof(signed, x, aw, w); return self.c(r, w); }
        self.mk(Node::IToF(signed, a), w)
    }
    pub fn ftof(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.cv(a) { let r = fold_ftof(x, aw, w); return self.c(r, w); }
        self.mk(Node::FToF(a), w)
    }

    /// Evaluate under a (total, default 0) assignment.
    pub fn eval(&self, e: E, m: &[u128], memo: &mut FxHashMap<E, u128>) -> u128 {
        if let Node::Const(v) = self.n(e) { return v; }
        if let Some(&v) = memo.get(&e) { return v; }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let (n, w) = self.nodes[x as usize];
            let (k, nk) = children(n);
            let mut ready = true;
            for &c in &k[..nk] {
                if !memo.contains_key(&c) {
                    if let Node::Const(v) = self.n(c) { memo.insert(c, v); } else { stack.push(c); ready = false; }
                }
            }
            if !ready { continue; }
            let g = |i: usize| memo[&k[i]];
            let r = match n {
                Node::Const(v) => v,
                Node::Var(i) => m.get(i as usize).copied().unwrap_or(0),
                Node::Bin(b, _, _) => fold_bin(b, g(0), g(1), w).unwrap_or_else(|| match b {
                    // SMT-LIB division by zero
                    BK::UDiv => mask(w),
                    BK::SDiv => if sext(g(0), w) < 0 { 1 } else { mask(w) },
                    _ => g(0),
                }),
                Node::Not(_) => !g(0) & mask(w),
                Node::Concat(_, l) => (g(0) << self.w(l)) | g(1),
                Node::Extract(lo, _) => (g(0) >> lo) & mask(w),
                Node::ZExt(_) => g(0),
                Node::SExt(a) => (sext(g(0), self.w(a)) as u128) & mask(w),
                Node::Ite(..) => if g(0) != 0 { g(1) } else { g(2) },
                Node::Eq(..) => (g(0) == g(1)) as u128,
                Node::Ult(..) => (g(0) < g(1)) as u128,
                Node::Ule(..) => (g(0) <= g(1)) as u128,
                Node::Slt(a, _) => { let w = self.w(a); (sext(g(0), w) < sext(g(1), w)) as u128 }
                Node::Sle(a, _) => { let w = self.w(a); (sext(g(0), w) <= sext(g(1), w)) as u128 }
                Node::BNot(_) => (g(0) == 0) as u128,
                Node::BAnd(..) => g(0) & g(1),
                Node::BOr(..) => g(0) | g(1),
                Node::FBin(k2, _, _) => fold_f(k2, g(0), g(1), w),
                Node::FCmp(k2, a, _) => fold_fc(k2, g(0), g(1), self.w(a)) as u128,
                Node::FUn(k2, _) => fold_fu(k2, g(0), w),
                Node::FToI(s, a) => fold_ftoi(s, g(0), self.w(a), w) & mask(w),
                Node::IToF(s, a) => fold_itof(s, g(0), self.w(a), w),
                Node::FToF(a) => fold_ftof(g(0), self.w(a), w),
            };
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }
}

pub fn children(n: Node) -> ([E; 3], usize) {
    match n {
        Node::Const(_) | Node::Var(_) => ([0; 3], 0),
        Node::Not(a) | Node::Extract(_, a) | Node::ZExt(a) | Node::SExt(a) | Node::BNot(a)
        | Node::FUn(_, a) | Node::FToI(_, a) | Node::IToF(_, a) | Node::FToF(a) => ([a, 0, 0], 1),
        Node::Bin(_, a, b) | Node::Concat(a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Ule(a, b)
        | Node::Slt(a, b) | Node::Sle(a, b) | Node::BAnd(a, b) | Node::BOr(a, b)
        | Node::FBin(_, a, b) | Node::FCmp(_, a, b) => ([a, b, 0], 2),
        Node::Ite(a, b, c) => ([a, b, c], 3),
    }
}

pub fn fold_bin(k: BK, x: u128, y: u128, w: u8) -> Option<u128> {
    let m = mask(w);
    Some(match k {
        BK::Add => x.wrapping_add(y) & m,
        BK::Sub => x.wrapping_sub(y) & m,
        BK::Mul => x.wrapping_mul(y) & m,
        BK::UDiv => { if y == 0 { return None; } x / y }
        BK::URem => { if y == 0 { return None; } x % y }
        BK::SDiv => { if y == 0 { return None; } (sext(x, w).wrapping_div(sext(y, w)) as u128) & m }
        BK::SRem => { if y == 0 { return None; } (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m }
        BK::And => x & y,
        BK::Or => x | y,
        BK::Xor => x ^ y,
        BK::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        BK::LShr => if y >= w as u128 { 0 } else { x >> y },
        BK::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
    })
}
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }
fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
pub fn fold_f(k: FK, x: u128, y: u128, w: u8) -> u128 {
    if w == 32 {
        let (a, b) = (f32b(x), f32b(y));
        (match k { FK::Add => a + b, FK::Sub => a - b, FK::Mul => a * b, FK::Div => a / b, FK::Rem => a % b, FK::Max => a.max(b), FK::Min => a.min(b) }).to_bits() as u128
    } else {
        let (a, b) = (f64b(x), f64b(y));
        (match k { FK::Add => a + b, FK::Sub => a - b, FK::Mul => a * b, FK::Div => a / b, FK::Rem => a % b, FK::Max => a.max(b), FK::Min => a.min(b) }).to_bits() as u128
    }
}
pub fn fold_fc(k: FC, x: u128, y: u128, w: u8) -> bool {
    let (a, b) = if w == 32 { (f32b(x) as f64, f32b(y) as f64) } else { (f64b(x), f64b(y)) };
    match k { FC::Eq => a == b, FC::Lt => a < b, FC::Le => a <= b }
}
pub fn fold_fu(k: FU, x: u128, w: u8) -> u128 {
    let a = if w == 32 { f32b(x) as f64 } else { f64b(x) };
    let r = match k { FU::Sqrt => { if w == 32 { return f32b(x).sqrt().to_bits() as u128 } a.sqrt() } FU::Floor => a.floor(), FU::Ceil => a.ceil(), FU::Round => a.round(), FU::Trunc => a.trunc(), FU::RoundEven => a.round_ties_even() };
    if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }
}
pub fn fold_ftoi(s: bool, x: u128, aw: u8, w: u8) -> u128 {
    let a = if aw == 32 { f32b(x) as f64 } else { f64b(x) };
    let r = match (s, w) {
        (true, 8) => a as i8 as u128, (true, 16) => a as i16 as u128, (true, 32) => a as i32 as u128,
        (true, 64) => a as i64 as u128, (true, _) => a as i128 as u128,
        (false, 8) => a as u8 as u128, (false, 16) => a as u16 as u128, (false, 32) => a as u32 as u128,
        (false, 64) => a as u64 as u128, (false, _) => a as u128,
    };
    r & mask(w)
}
pub fn fold_itof(s: bool, x: u128, aw: u8, w: u8) -> u128 {
    if w == 32 {
        (if s { sext(x, aw) as f32 } else { x as f32 }).to_bits() as u128
    } else {
        (if s { sext(x, aw) as f64 } else { x as f64 }).to_bits() as u128
    }
}
pub fn fold_ftof(x: u128, aw: u8, w: u8) -> u128 {
    if aw == 32 && w == 64 { (f32b(x) as f64).to_bits() as u128 }
    else if aw == 64 && w == 32 { (f64b(x) as f32).to_bits() as u128 }
    else { x }
}
