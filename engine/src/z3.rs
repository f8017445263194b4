//! Minimal FFI to the system libz3 and translation of `expr` nodes.
use crate::expr::*;
use rustc_data_structures::fx::FxHashMap;
use std::ffi::{c_char, c_int, c_uint, CStr, CString};

type P = *mut u8;
#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, s: P);
    fn Z3_model_dec_ref(c: P, s: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

pub struct Z3 {
    c: P,
    s: P,
    cache: FxHashMap<E, P>,
    pub has_fp: FxHashMap<E, bool>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    pub slowest: std::time::Duration,
    timeout_ms: u32,
}

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let z = Z3 { c, s, cache: Default::default(), has_fp: Default::default(), queries: 0, sat: 0, unsat: 0, time: Default::default(), slowest: Default::default(), timeout_ms };
            z.set_limit(s, 20_000_000);
            z
        }
    }
    /// a limit on solver steps: a limit on time costs a timer thread for every query
    fn set_limit(&self, s: P, n: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), n);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn set_timeout(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) { return p; }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.cache.contains_key(&x) { stack.pop(); continue; }
            let (n, w) = ar.nodes[x as usize];
            let (k, nk) = children(n);
            let mut ready = true;
            for &c in &k[..nk] { if !self.cache.contains_key(&c) { stack.push(c); ready = false; } }
            if !ready { continue; }
            let g = |i: usize| self.cache[&k[i]];
            let mut fp = k[..nk].iter().any(|c| self.has_fp.get(c).copied().unwrap_or(false));
            let c = self.c;
            let p = unsafe {
                let fsort = |w: u8| if w == 32 { Z3_mk_fpa_sort_32(c) } else { assert_eq!(w, 64); Z3_mk_fpa_sort_64(c) };
                let tofp = |p: P, w: u8| Z3_mk_fpa_to_fp_bv(c, p, fsort(w));
                match n {
                    Node::Const(v) => {
                        if w == 0 { if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                        else {
                            let s = Z3_mk_bv_sort(c, w as c_uint);
                            if w <= 64 { Z3_mk_unsigned_int64(c, v as u64, s) }
                            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                        }
                    }
                    Node::Var(i) => {
                        let t = CString::new(format!("v{}", i)).unwrap();
                        let sy = Z3_mk_string_symbol(c, t.as_ptr());
                        let s = if w == 0 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                        Z3_mk_const(c, sy, s)
                    }
                    Node::Bin(b, _, _) => {
                        let f = match b {
                            BK::Add => Z3_mk_bvadd, BK::Sub => Z3_mk_bvsub, BK::Mul => Z3_mk_bvmul,
                            BK::UDiv => Z3_mk_bvudiv, BK::SDiv => Z3_mk_bvsdiv, BK::URem => Z3_mk_bvurem, BK::SRem => Z3_mk_bvsrem,
                            BK::And => Z3_mk_bvand, BK::Or => Z3_mk_bvor, BK::Xor => Z3_mk_bvxor,
                            BK::Shl => Z3_mk_bvshl, BK::LShr => Z3_mk_bvlshr, BK::AShr => Z3_mk_bvashr,
                        };
                        f(c, g(0), g(1))
                    }
                    Node::Not(_) => Z3_mk_bvnot(c, g(0)),
                    Node::Concat(..) => Z3_mk_concat(c, g(0), g(1)),
                    Node::Extract(lo, _) => Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, g(0)),
                    Node::ZExt(a) => Z3_mk_zero_ext(c, (w - ar.w(a)) as c_uint, g(0)),
                    Node::SExt(a) => Z3_mk_sign_ext(c, (w - ar.w(a)) as c_uint, g(0)),
                    Node::Ite(..) => Z3_mk_ite(c, g(0), g(1), g(2)),
                    Node::Eq(..) => Z3_mk_eq(c, g(0), g(1)),
                    Node::Ult(..) => Z3_mk_bvult(c, g(0), g(1)),
                    Node::Ule(..) => Z3_mk_bvule(c, g(0), g(1)),
                    Node::Slt(..) => Z3_mk_bvslt(c, g(0), g(1)),
                    Node::Sle(..) => Z3_mk_bvsle(c, g(0), g(1)),
                    Node::BNot(_) => Z3_mk_not(c, g(0)),
                    Node::BAnd(..) => { let v = [g(0), g(1)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    Node::BOr(..) => { let v = [g(0), g(1)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    Node::FBin(k2, a, _) => {
                        fp = true;
                        let aw = ar.w(a);
                        let (x, y) = (tofp(g(0), aw), tofp(g(1), aw));
                        let rm = Z3_mk_fpa_rne(c);
                        let r = match k2 {
                            FK::Add => Z3_mk_fpa_add(c, rm, x, y), FK::Sub => Z3_mk_fpa_sub(c, rm, x, y),
                            FK::Mul => Z3_mk_fpa_mul(c, rm, x, y), FK::Div => Z3_mk_fpa_div(c, rm, x, y),
                            FK::Max => Z3_mk_fpa_max(c, x, y), FK::Min => Z3_mk_fpa_min(c, x, y),
                            FK::Rem => panic!("symbolic float remainder unsupported"),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    Node::FCmp(k2, a, _) => {
                        fp = true;
                        let aw = ar.w(a);
                        let (x, y) = (tofp(g(0), aw), tofp(g(1), aw));
                        match k2 { FC::Eq => Z3_mk_fpa_eq(c, x, y), FC::Lt => Z3_mk_fpa_lt(c, x, y), FC::Le => Z3_mk_fpa_leq(c, x, y) }
                    }
                    Node::FUn(k2, a) => {
                        fp = true;
                        let x = tofp(g(0), ar.w(a));
                        let r = match k2 {
                            FU::Sqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x),
                            FU::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x),
                            FU::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                            FU::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x),
                            FU::Round => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x),
                            FU::RoundEven => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), x),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    Node::FToI(s, a) => {
                        fp = true;
                        let aw = ar.w(a);
                        let x = tofp(g(0), aw);
                        let bs = Z3_mk_bv_sort(c, w as c_uint);
                        let num = |v: u128| { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), bs) };
                        let fnum = |v: f64| {
                            let bits = if aw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                            tofp(Z3_mk_unsigned_int64(c, bits, Z3_mk_bv_sort(c, aw as c_uint)), aw)
                        };
                        let rtz = Z3_mk_fpa_rtz(c);
                        let (lo_f, hi_f, lo_v, hi_v) = if s {
                            (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w) >> 1)
                        } else { (0.0, 2f64.powi(w as i32), 0, mask(w)) };
                        let conv = if s { Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint) } else { Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint) };
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, fnum(lo_f)), num(lo_v), conv);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fnum(hi_f), x), num(hi_v), r);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), num(0), r)
                    }
                    Node::IToF(s, _) => {
                        fp = true;
                        let rm = Z3_mk_fpa_rne(c);
                        let r = if s { Z3_mk_fpa_to_fp_signed(c, rm, g(0), fsort(w)) } else { Z3_mk_fpa_to_fp_unsigned(c, rm, g(0), fsort(w)) };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    Node::FToF(a) => {
                        fp = true;
                        let x = tofp(g(0), ar.w(a));
                        Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fsort(w)))
                    }
                }
            };
            if fp { self.has_fp.insert(x, true); }
            self.cache.insert(x, p);
            stack.pop();
        }
        self.cache[&e]
    }
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        let asts: Vec<P> = cs.iter().map(|&e| self.tr(ar, e)).collect();
        let mut vars: Vec<u32> = vec![];
        for &e in cs { vars.extend_from_slice(&ar.vars(e)); }
        vars.sort_unstable();
        vars.dedup();
        let fp = cs.iter().any(|e| self.has_fp.get(e).copied().unwrap_or(false));
        self.queries += 1;
        unsafe {
            let mut own = None;
            let s = if fp {
                let t = CString::new("QF_FPBV").unwrap();
                let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, t.as_ptr()));
                Z3_solver_inc_ref(self.c, s);
                self.set_timeout(s, self.timeout_ms);
                own = Some(s);
                s
            } else { self.s };
            if own.is_none() { Z3_solver_push(self.c, s); }
            for a in &asts { Z3_solver_assert(self.c, s, *a); }
            let mut r = Z3_solver_check(self.c, s);
            let mut s_used = s;
            let mut own2 = None;
            if r == 0 && own.is_none() {
                // unknown from the simple solver: retry with the bit-blasting tactic
                let t = CString::new("QF_BV").unwrap();
                let s2 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, t.as_ptr()));
                Z3_solver_inc_ref(self.c, s2);
                self.set_timeout(s2, self.timeout_ms * 4);
                for a in &asts { Z3_solver_assert(self.c, s2, *a); }
                r = Z3_solver_check(self.c, s2);
                s_used = s2;
                own2 = Some(s2);
            }
            let res = if r == 1 {
                self.sat += 1;
                let m = Z3_solver_get_model(self.c, s_used);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for &v in &vars {
                    let w = ar.var_info[v as usize].1;
                    let e = ar.mk(Node::Var(v), w);
                    let p = self.tr(ar, e);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, p, true, &mut o) {
                        let st = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap();
                        if let Ok(x) = st.parse::<u128>() { out.push((v, x)); }
                        else { out.push((v, 0)); }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(out)
            } else if r == -1 { self.unsat += 1; Res::Unsat } else { Res::Unknown };
            if own.is_none() { Z3_solver_pop(self.c, s, 1); }
            if let Some(s) = own { Z3_solver_dec_ref(self.c, s); }
            if let Some(s) = own2 { Z3_solver_dec_ref(self.c, s); }
            let d = t0.elapsed();
            self.time += d;
            if d > self.slowest { self.slowest = d; }
            res
        }
    }
    #[allow(dead_code)]
    pub fn dump(&mut self, ar: &mut Arena, cs: &[E]) -> String {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs { let a = self.tr(ar, e); Z3_solver_assert(self.c, self.s, a); }
            let r = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_str().unwrap().to_string();
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
}
