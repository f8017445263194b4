//! Compiler intrinsics and the few library functions the engine replaces.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::Span;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IK {
    ALoad, AStore, AXchg, ACx, AAdd, ASub, AAnd, ANand, AOr, AXor, AMax, AMin, AUMax, AUMin, Fence,
    Nop, Abort, Imm, CallerLoc, Transmute, Offset, ArithOffset, SliceGet, PtrMask, Copy, VolCopyRev, WriteBytes,
    Load, Store, FUn(FU), FBin(FK), Fma, FAbs, CopySign, FToI,
    Ctpop, Ctlz, Cttz, Bswap, BitRev, Cmp3, Bin(BinOp), Ovf(BinOp), SatAdd, SatSub, RotL, RotR,
    Discr, CatchUnwind, PtrOffFrom, RawEq, CompareBytes, BlackBox, ConstEvalSelect, Swap, VtSize, VtAlign,
    SizeOfVal, AlignOfVal, AggPtr, PtrMeta, TypeIdEq, Select, Unreach, PtrGuarCmp, ISub, CarryMulAdd, MinInt, MaxInt, Simd(u8), SimdSplat, SimdMask,
}
#[derive(Clone)]
pub struct Intr<'tcx> { pub k: IK, pub l: Option<TyAndLayout<'tcx>>, pub l2: Option<TyAndLayout<'tcx>>, pub imm: u128, pub disc: Option<(Disc, u8)>, pub inst: Instance<'tcx>, pub signed: bool }

#[derive(Clone, Copy, Debug)]
pub enum Over { Argv, TraceLevel, MemChr(u8, bool), Contains,
    Any(u8), Assume, Check, Cover, Note, Conc, IsSym, InEngine, Fail, Select, PxCtl,
    Panic, SipWrite, SipFinish, Nop, Zero, False, NoneU, AllocErr,
}

impl<'tcx> Eng<'tcx> {
    pub fn intrinsic_kind(&mut self, name: &str, inst: Instance<'tcx>) -> Option<Intr<'tcx>> {
        use IK::*;
        let tcx = self.tcx;
        let tys: Vec<Ty<'tcx>> = inst.args.types().collect();
        let lay = |en: &Self, i: usize| tys.get(i).map(|t| en.lay(*t));
        let mut imm = 0u128;
        let k = match name {
            "atomic_load" => ALoad, "atomic_store" => AStore, "atomic_xchg" => AXchg,
            "atomic_cxchg" | "atomic_cxchgweak" => ACx,
            "atomic_xadd" => AAdd, "atomic_xsub" => ASub, "atomic_and" => AAnd, "atomic_nand" => ANand, "atomic_or" => AOr,
            "atomic_xor" => AXor, "atomic_max" => AMax, "atomic_min" => AMin, "atomic_umax" => AUMax, "atomic_umin" => AUMin,
            "atomic_fence" | "atomic_singlethreadfence" => Fence,
            "prefetch_read_data" | "prefetch_write_data" | "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid"
            | "assert_mem_uninitialized_valid" | "forget" => Nop,
            "abort_immediate" | "abort" | "breakpoint" => Abort,
            "unreachable" => Unreach,
            "likely" | "unlikely" | "black_box" | "transmute" | "transmute_unchecked" => Transmute,
            "select_unpredictable" => Select,
            "caller_location" => CallerLoc,
            "needs_drop" => { imm = tys[0].needs_drop(tcx, self.env) as u128; Imm }
            "size_of" => { imm = self.lay(tys[0]).size.bytes() as u128; Imm }
            "align_of" | "min_align_of" => { imm = self.lay(tys[0]).align.abi.bytes() as u128; Imm }
            "ub_checks" => Imm,
            "overflow_checks" => { imm = 1; Imm }
            "is_val_statically_known" => Imm,
            "variant_count" => { let ty::Adt(a, _) = tys[0].kind() else { return None }; imm = a.variants().len() as u128; Imm }
            "type_id" => { imm = tcx.type_id_hash(tcx.erase_and_anonymize_regions(tys[0])).as_u128(); Imm }
            "type_name" => {
                let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tys[0]));
                let n = s.len() as u64;
                let a = self.gmem(s.into_bytes(), 1, true);
                imm = a as u128 | ((n as u128) << 64);
                Imm
            }
            "type_id_eq" => TypeIdEq,
            "offset" => Offset, "arith_offset" => ArithOffset,
            "slice_get_unchecked" => SliceGet, "ptr_mask" => PtrMask,
            "copy_nonoverlapping" | "copy" => Copy,
            "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => VolCopyRev,
            "write_bytes" | "volatile_set_memory" => WriteBytes,
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => Load,
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" | "nontemporal_store" => Store,
            "sqrt" => FUn(FU::Sqrt), "floor" => FUn(FU::Floor), "ceil" => FUn(FU::Ceil), "trunc" => FUn(FU::Trunc),
            "round" => FUn(FU::Round), "round_ties_even" => FUn(FU::RoundEven),
            "fabs" => FAbs,
            "copysignf64" | "copysignf32" => CopySign,
            "fadd_fast" | "fadd_algebraic" => FBin(FK::Add), "fsub_fast" | "fsub_algebraic" => FBin(FK::Sub),
            "fmul_fast" | "fmul_algebraic" => FBin(FK::Mul), "fdiv_fast" | "fdiv_algebraic" => FBin(FK::Div),
            "minimum_number_nsz_f64" | "minimum_number_nsz_f32" => FBin(FK::Min),
            "maximum_number_nsz_f64" | "maximum_number_nsz_f32" => FBin(FK::Max),
            "float_to_int_unchecked" => FToI,
            "ctpop" => Ctpop, "ctlz" | "ctlz_nonzero" => Ctlz, "cttz" | "cttz_nonzero" => Cttz, "bswap" => Bswap, "bitreverse" => BitRev,
            "three_way_compare" => Bin(BinOp::Cmp),
            "disjoint_bitor" => Bin(BinOp::BitOr),
            "add_with_overflow" => Ovf(BinOp::AddWithOverflow), "sub_with_overflow" => Ovf(BinOp::SubWithOverflow), "mul_with_overflow" => Ovf(BinOp::MulWithOverflow),
            "exact_div" | "unchecked_div" => Bin(BinOp::Div), "unchecked_rem" => Bin(BinOp::Rem),
            "unchecked_shl" => Bin(BinOp::Shl), "unchecked_shr" => Bin(BinOp::Shr),
            "unchecked_add" | "wrapping_add" => Bin(BinOp::Add), "unchecked_sub" | "wrapping_sub" => Bin(BinOp::Sub),
            "unchecked_mul" | "wrapping_mul" => Bin(BinOp::Mul),
            "rotate_left" => RotL, "rotate_right" => RotR,
            "saturating_add" => SatAdd, "saturating_sub" => SatSub,
            "discriminant_value" => Discr,
            "catch_unwind" => CatchUnwind,
            "ptr_offset_from" | "ptr_offset_from_unsigned" => PtrOffFrom,
            "ptr_guaranteed_cmp" => PtrGuarCmp,
            "raw_eq" => RawEq, "compare_bytes" => CompareBytes,
            "const_eval_select" => ConstEvalSelect,
            "typed_swap_nonoverlapping" => Swap,
            "vtable_size" => VtSize, "vtable_align" => VtAlign,
            "size_of_val" => SizeOfVal, "align_of_val" | "min_align_of_val" => AlignOfVal,
            "simd_splat" => SimdSplat, "simd_bitmask" => SimdMask,
            "simd_and" => Simd(0), "simd_or" => Simd(1), "simd_xor" => Simd(2), "simd_add" => Simd(3), "simd_sub" => Simd(4), "simd_eq" => Simd(5), "simd_ne" => Simd(6), "simd_lt" => Simd(7), "simd_gt" => Simd(8), "simd_le" => Simd(9), "simd_ge" => Simd(10),
            "aggregate_raw_ptr" => AggPtr, "ptr_metadata" => PtrMeta,
            _ => return None,
        };
        let l = lay(self, 0);
        let l2 = lay(self, 1);
        let mut disc = None;
        if k == Discr {
            let l = l.unwrap();
            let dt = tys[0].discriminant_ty(tcx);
            disc = Some((self.disc_info(l), self.lay(dt).size.bytes() as u8));
        }
        let signed = match (k, tys.first(), tys.get(1)) { (FToI, _, Some(t)) => t.is_signed(), (_, Some(t), _) => t.is_signed(), _ => false };
        Some(Intr { k, l, l2, imm, disc, inst, signed })
    }

    pub fn intrinsic(&mut self, st: &mut State<'tcx>, i: &Intr<'tcx>, args: &[ArgV], dst: u64, dsz: u64, target: Option<Bb>, span: Span) -> R<()> {
        use IK::*;
        let sz = i.l.map(|l| if l.is_sized() { l.size.bytes() } else { 0 }).unwrap_or(0);
        let s8 = sz as u8;
        let k = if i.signed { Kind::S } else { Kind::U };
        let res: Option<V> = match i.k {
            Nop | Fence => None,
            Abort => { let bt = self.backtrace(st); return end(Outcome::Panic(format!("abort\n{}", bt))); }
            Unreach => return unsup("intrinsics::unreachable"),
            Imm => Some(V::C(i.imm)),
            SimdSplat | SimdMask | Simd(_) => {
                let l = i.l.unwrap();
                let (n, et) = l.ty.simd_size_and_type(self.tcx);
                let es = self.lay(et).size.bytes();
                let e8 = es as u8;
                if i.k == SimdSplat { let v = self.argv(st, args[0])?; for j in 0..n { self.wr(st, dst + j * es, es, v)?; } return self.ret_to(st, target); }
                let lane = |en: &mut Self, st: &mut State<'tcx>, a: ArgV, j: u64| -> R<V> { match a { ArgV::A(p, _) => en.rd(st, p + j * es, es), ArgV::I(V::C(x), _) => Ok(V::C((x >> (j * es * 8)) & mask(e8 * 8))), _ => unsup("simd operand") } };
                if i.k == SimdMask {
                    let mut r = self.ex.c(0, (dsz * 8) as u8);
                    for j in 0..n {
                        let v = lane(self, st, args[0], j)?;
                        let v = self.e(v, e8);
                        let b = self.ex.extract(es as u8 * 8 - 1, 1, v);
                        let b = self.ex.zext(b, (dsz * 8) as u8);
                        let k = self.ex.c(j as u128, (dsz * 8) as u8);
                        let b = self.ex.bin(BK::Shl, b, k);
                        r = self.ex.bin(BK::Or, r, b);
                    }
                    let r = self.v(r);
                    self.wr(st, dst, dsz, r)?;
                    return self.ret_to(st, target);
                }
                let Simd(op) = i.k else { unreachable!() };
                let es2 = dsz / n;
                let mut out = vec![];
                for j in 0..n {
                    let (a, b) = (lane(self, st, args[0], j)?, lane(self, st, args[1], j)?);
                    let (a, b) = (self.e(a, e8), self.e(b, e8));
                    let r = match op {
                        0 => self.ex.bin(BK::And, a, b), 1 => self.ex.bin(BK::Or, a, b), 2 => self.ex.bin(BK::Xor, a, b), 3 => self.ex.bin(BK::Add, a, b), 4 => self.ex.bin(BK::Sub, a, b),
                        _ => {
                            let sg = et.is_signed();
                            let lt = |en: &mut Self, a, b| if sg { en.ex.slt(a, b) } else { en.ex.ult(a, b) };
                            let c = match op { 5 => self.ex.eq(a, b), 6 => { let c = self.ex.eq(a, b); self.ex.bnot(c) } 7 => lt(self, a, b), 8 => lt(self, b, a), 9 => { let c = lt(self, b, a); self.ex.bnot(c) } _ => { let c = lt(self, a, b); self.ex.bnot(c) } };
                            let (o, z) = (self.ex.c(mask(es2 as u8 * 8), es2 as u8 * 8), self.ex.c(0, es2 as u8 * 8));
                            self.ex.ite(c, o, z)
                        }
                    };
                    out.push(self.v(r));
                }
                for (j, v) in out.into_iter().enumerate() { self.wr(st, dst + j as u64 * es2, es2, v)?; }
                return self.ret_to(st, target);
            }
            CallerLoc => { let a = self.call_loc(st, span); Some(V::C(a as u128)) }
            Transmute | BlackBox => {
                if dsz > 0 { match args[0] { ArgV::A(s, n) => self.cpy(st, dst, s, n.min(dsz))?, ArgV::I(v, n) => { let v = if n > dsz { self.cast_int(v, n as u8, false, dsz as u8) } else { v }; self.wr(st, dst, n.min(dsz), v)? } } }
                return self.ret_to(st, target);
            }
            Select => {
                let c = self.argv(st, args[0])?;
                let c = match c { V::C(x) => x != 0, V::S(e) => {
                    let cb = self.ex.v2b(e);
                    if sz <= 16 && sz > 0 {
                        let (a, b) = (self.argv(st, args[1])?, self.argv(st, args[2])?);
                        let (a, b) = (self.e(a, s8), self.e(b, s8));
                        let r = self.ex.ite(cb, a, b);
                        let r = self.v(r);
                        self.wr(st, dst, sz, r)?;
                        return self.ret_to(st, target);
                    }
                    self.decide(st, cb)? } };
                let a = if c { args[1] } else { args[2] };
                match a { ArgV::A(s, n) => self.cpy(st, dst, s, n)?, ArgV::I(v, n) => self.wr(st, dst, n, v)? }
                return self.ret_to(st, target);
            }
            ALoad | Load => {
                let p = self.argu(st, args[0])?;
                self.cpy(st, dst, p, sz)?;
                return self.ret_to(st, target);
            }
            AStore | Store => {
                let p = self.argu(st, args[0])?;
                match args[1] { ArgV::A(s, n) => self.cpy(st, p, s, n)?, ArgV::I(v, n) => self.wr(st, p, n, v)? }
                None
            }
            AXchg | AAdd | ASub | AAnd | ANand | AOr | AXor | AMax | AMin | AUMax | AUMin => {
                let p = self.argu(st, args[0])?;
                let old = self.rd(st, p, sz)?;
                let v = self.argv(st, args[1])?;
                let n = match i.k {
                    AXchg => v,
                    AAdd => self.binop(BinOp::Add, old, v, s8, s8, Kind::U)?.0,
                    ASub => self.binop(BinOp::Sub, old, v, s8, s8, Kind::U)?.0,
                    AAnd => self.binop(BinOp::BitAnd, old, v, s8, s8, Kind::U)?.0,
                    AOr => self.binop(BinOp::BitOr, old, v, s8, s8, Kind::U)?.0,
                    AXor => self.binop(BinOp::BitXor, old, v, s8, s8, Kind::U)?.0,
                    ANand => { let x = self.binop(BinOp::BitAnd, old, v, s8, s8, Kind::U)?.0; let e = self.e(x, s8); let e = self.ex.not(e); self.v(e) }
                    _ => {
                        let kk = if matches!(i.k, AMax | AMin) { Kind::S } else { Kind::U };
                        let c = self.binop(BinOp::Lt, old, v, s8, s8, kk)?.0;
                        let c = self.e(c, 1);
                        let c = self.ex.v2b(c);
                        let (o, n) = (self.e(old, s8), self.e(v, s8));
                        let r = if matches!(i.k, AMax | AUMax) { self.ex.ite(c, n, o) } else { self.ex.ite(c, o, n) };
                        self.v(r)
                    }
                };
                self.wr(st, p, sz, n)?;
                Some(old)
            }
            ACx => {
                let p = self.argu(st, args[0])?;
                let old = self.rd(st, p, sz)?;
                let exp = self.argv(st, args[1])?;
                let new = self.argv(st, args[2])?;
                let (a, b) = (self.e(old, s8), self.e(exp, s8));
                let c = self.ex.eq(a, b);
                let c = self.decide(st, c)?;
                self.wr(st, dst, sz, old)?;
                // (T, bool): bool at offset sz (T: size==align)
                self.wr(st, dst + sz, 1, V::C(c as u128))?;
                if c { self.wr(st, p, sz, new)?; }
                return self.ret_to(st, target);
            }
            TypeIdEq => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                Some(self.binop(BinOp::Eq, a, b, 16, 16, Kind::U)?.0)
            }
            Offset | ArithOffset => {
                let p = self.argu(st, args[0])?;
                let n = self.argu(st, args[1])?;
                let e = if i.k == Offset { let t = i.l.unwrap().ty.builtin_deref(true).unwrap(); self.lay(t).size.bytes() } else { sz };
                Some(V::C(p.wrapping_add(n.wrapping_mul(e)) as u128))
            }
            SliceGet => {
                // <ItemPtr, SlicePtr, T>(slice_ptr, index)
                let t = i.inst.args.types().nth(2).unwrap();
                let e = self.lay(t).size.bytes();
                let p = match args[0] { ArgV::A(s, _) => self.rd_u64(st, s)?, ArgV::I(v, _) => { let x = self.e(v, 16); let x = self.ex.extract(0, 64, x); let x = self.v(x); self.conc(st, x, 8)? as u64 } };
                let n = self.argu(st, args[1])?;
                Some(V::C(p.wrapping_add(n.wrapping_mul(e)) as u128))
            }
            PtrMask => { let p = self.argu(st, args[0])?; let m = self.argu(st, args[1])?; Some(V::C((p & m) as u128)) }
            Copy | VolCopyRev => {
                let (s, d) = if i.k == Copy { (args[0], args[1]) } else { (args[1], args[0]) };
                let (s, d, n) = (self.argu(st, s)?, self.argu(st, d)?, self.argu(st, args[2])?);
                self.cpy(st, d, s, n * sz)?;
                None
            }
            WriteBytes => {
                let (d, n) = (self.argu(st, args[0])?, self.argu(st, args[2])?);
                let v = self.argv(st, args[1])?;
                self.fill_bytes(st, d, v, n * sz)?;
                None
            }
            FUn(f) => { let a = self.argv(st, args[0])?; let e = self.e(a, s8); let r = self.ex.fun(f, e); Some(self.v(r)) }
            FBin(f) => { let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?); let n = dsz as u8; let (a, b) = (self.e(a, n), self.e(b, n)); let r = self.ex.fbin(f, a, b); Some(self.v(r)) }
            FAbs => { let a = self.argv(st, args[0])?; let n = dsz as u8; let e = self.e(a, n); let m = self.ex.c(mask(n * 8) >> 1, n * 8); let r = self.ex.bin(BK::And, e, m); Some(self.v(r)) }
            CopySign => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                let n = dsz as u8; let w = n * 8;
                let (a, b) = (self.e(a, n), self.e(b, n));
                let m = self.ex.c(mask(w) >> 1, w); let s = self.ex.c(1u128 << (w - 1), w);
                let x = self.ex.bin(BK::And, a, m); let y = self.ex.bin(BK::And, b, s);
                let r = self.ex.bin(BK::Or, x, y); Some(self.v(r))
            }
            Fma => return unsup("fma"),
            FToI => { let a = self.argv(st, args[0])?; let e = self.e(a, s8); let r = self.ex.ftoi(i.signed, e, (dsz * 8) as u8); Some(self.v(r)) }
            Ctpop | Ctlz | Cttz | Bswap | BitRev => {
                let a = self.argv(st, args[0])?;
                let w = s8 * 8;
                match a {
                    V::C(x) => Some(V::C(match i.k {
                        Ctpop => x.count_ones() as u128,
                        Ctlz => (x << (128 - w as u32)).leading_zeros().min(w as u32) as u128,
                        Cttz => x.trailing_zeros().min(w as u32) as u128,
                        Bswap => x.swap_bytes() >> (128 - w as u32),
                        _ => x.reverse_bits() >> (128 - w as u32),
                    })),
                    V::S(e) => {
                        let w32 = (dsz * 8) as u8;
                        let r = match i.k {
                            Bswap => { let mut acc = self.ex.extract(0, 8, e); for j in 1..s8 { let b = self.ex.extract(j * 8, 8, e); acc = self.ex.concat(acc, b); } acc }
                            BitRev => { let mut acc = self.ex.extract(0, 1, e); for j in 1..w { let b = self.ex.extract(j, 1, e); acc = self.ex.concat(acc, b); } acc }
                            Ctpop => { let mut acc = self.ex.c(0, w32); for j in 0..w { let b = self.ex.extract(j, 1, e); let b = self.ex.zext(b, w32); acc = self.ex.bin(BK::Add, acc, b); } acc }
                            Ctlz => { let mut acc = self.ex.c(w as u128, w32); for j in 0..w { let b = self.ex.extract(j, 1, e); let one = self.ex.c(1, 1); let c = self.ex.eq(b, one); let v = self.ex.c((w - 1 - j) as u128, w32); acc = self.ex.ite(c, v, acc); } acc }
                            _ => { let mut acc = self.ex.c(w as u128, w32); for j in (0..w).rev() { let b = self.ex.extract(j, 1, e); let one = self.ex.c(1, 1); let c = self.ex.eq(b, one); let v = self.ex.c(j as u128, w32); acc = self.ex.ite(c, v, acc); } acc }
                        };
                        Some(self.v(r))
                    }
                }
            }
            Cmp3 => None,
            Bin(op) => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                let bsz = match args[1] { ArgV::A(_, n) | ArgV::I(_, n) => n as u8 };
                Some(self.binop(op, a, b, s8, bsz, k)?.0)
            }
            Ovf(op) => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                let (r, o) = self.binop(op, a, b, s8, s8, k)?;
                self.wr(st, dst, sz, r)?;
                self.wr(st, dst + sz, 1, o.unwrap())?;
                return self.ret_to(st, target);
            }
            SatAdd | SatSub => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                let w = s8 * 8;
                let op = if i.k == SatAdd { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
                let (r, o) = self.binop(op, a, b, s8, s8, k)?;
                let o = self.e(o.unwrap(), 1);
                let o = self.ex.v2b(o);
                let sat = if !i.signed { self.ex.c(if i.k == SatAdd { mask(w) } else { 0 }, w) } else {
                    let ae = self.e(a, s8);
                    let z = self.ex.c(0, w);
                    let neg = self.ex.slt(ae, z);
                    let mn = self.ex.c(1u128 << (w - 1), w);
                    let mx = self.ex.c(mask(w) >> 1, w);
                    self.ex.ite(neg, mn, mx)
                };
                let r = self.e(r, s8);
                let r = self.ex.ite(o, sat, r);
                Some(self.v(r))
            }
            RotL | RotR => {
                let (a, b) = (self.argv(st, args[0])?, self.argv(st, args[1])?);
                let n = self.conc(st, b, 4)? as u32 % (s8 as u32 * 8);
                let w = s8 * 8;
                let n = if i.k == RotL { n } else { (w as u32 - n) % w as u32 } as u8;
                let e = self.e(a, s8);
                if n == 0 { Some(a) } else {
                    let hi = self.ex.extract(0, w - n, e);
                    let lo = self.ex.extract(w - n, n, e);
                    let r = self.ex.concat(hi, lo);
                    Some(self.v(r))
                }
            }
            Discr => {
                let p = self.argu(st, args[0])?;
                let (d, n) = i.disc.as_ref().unwrap();
                Some(self.discr(st, p, d, *n)?)
            }
            CatchUnwind => {
                // try_fn(data); result 0
                let f = self.argu(st, args[0])?;
                let Some(f) = self.addr_fn(f) else { return unsup("catch_unwind fn") };
                let data = self.argv(st, args[1])?;
                self.wr(st, dst, 4, V::C(0))?;
                return self.call(st, f, &[ArgV::I(data, 8)], 0, 0, target, span);
            }
            PtrOffFrom => {
                let (a, b) = (self.argu(st, args[0])?, self.argu(st, args[1])?);
                Some(V::C(((a.wrapping_sub(b) as i64) / (sz.max(1) as i64)) as u64 as u128))
            }
            PtrGuarCmp => { let (a, b) = (self.argu(st, args[0])?, self.argu(st, args[1])?); Some(V::C((a == b) as u128)) }
            RawEq => {
                let (a, b) = (self.argu(st, args[0])?, self.argu(st, args[1])?);
                let c = self.mem_eq(st, a, b, sz)?;
                Some(self.vb(c))
            }
            CompareBytes => {
                let (a, b, n) = (self.argu(st, args[0])?, self.argu(st, args[1])?, self.argu(st, args[2])?);
                Some(self.mem_cmp(st, a, b, n)?)
            }
            ConstEvalSelect => {
                // <ARG, F, G, RET>(arg, const_fn, rt_fn)
                let tys: Vec<Ty<'tcx>> = i.inst.args.types().collect();
                let al = self.lay(tys[0]);
                let ty::FnDef(d, ga) = *tys[2].kind() else { return unsup("const_eval_select callee") };
                let inst = Instance::try_resolve(self.tcx, self.env, d, ga.no_bound_vars().unwrap()).unwrap().unwrap();
                let f = self.fid(inst);
                let mut av = vec![];
                for j in 0..al.fields.count() {
                    let (o, n) = (al.fields.offset(j).bytes(), al.field(&self.lcx, j).size.bytes());
                    av.push(match args[0] {
                        ArgV::A(s, _) => ArgV::A(s + o, n),
                        ArgV::I(v, t) => if n == 0 { ArgV::I(V::C(0), 0) } else { let e = self.e(v, t as u8); let x = self.ex.extract((o * 8) as u8, (n * 8) as u8, e); ArgV::I(self.v(x), n) },
                    });
                }
                return self.call(st, f, &av, dst, dsz, target, span);
            }
            Swap => {
                let (a, b) = (self.argu(st, args[0])?, self.argu(st, args[1])?);
                let t = self.malloc(st, sz, 16);
                self.cpy(st, t, a, sz)?;
                self.cpy(st, a, b, sz)?;
                self.cpy(st, b, t, sz)?;
                self.mfree(st, t)?;
                None
            }
            VtSize => { let p = self.argu(st, args[0])?; Some(V::C(self.rd_u64(st, p + 8)? as u128)) }
            VtAlign => { let p = self.argu(st, args[0])?; Some(V::C(self.rd_u64(st, p + 16)? as u128)) }
            SizeOfVal | AlignOfVal => {
                let l = i.l.unwrap();
                let meta = if l.is_sized() { V::C(0) } else { match args[0] { ArgV::A(s, _) => self.rd(st, s + 8, 8)?, ArgV::I(v, _) => { let e = self.e(v, 16); let x = self.ex.extract(64, 64, e); self.v(x) } } };
                if let (SizeOfVal, V::S(m), ty::Slice(_) | ty::Str) = (i.k, meta, l.ty.kind()) {
                    let es = l.field(&self.lcx, 0).size.bytes();
                    let c = self.ex.c(es as u128, 64);
                    let r = self.ex.bin(BK::Mul, m, c);
                    Some(self.v(r))
                } else {
                    let (s, a) = self.size_align_of_val(st, l, meta)?;
                    Some(V::C(if i.k == SizeOfVal { s } else { a } as u128))
                }
            }
            AggPtr => {
                let d = self.argv(st, args[0])?;
                let mlen = match args[1] { ArgV::A(_, n) | ArgV::I(_, n) => n };
                self.wr(st, dst, 8, d)?;
                if mlen > 0 { let m = self.argv(st, args[1])?; self.wr(st, dst + 8, 8, m)?; }
                return self.ret_to(st, target);
            }
            PtrMeta => {
                if dsz == 0 { None } else {
                    Some(match args[0] { ArgV::A(s, _) => self.rd(st, s + 8, 8)?, ArgV::I(v, _) => { let e = self.e(v, 16); let x = self.ex.extract(64, 64, e); self.v(x) } })
                }
            }
            ISub | CarryMulAdd | MinInt | MaxInt => return unsup("intrinsic"),
        };
        if let Some(v) = res { if dsz > 0 { self.wr(st, dst, dsz, v)?; } }
        self.ret_to(st, target)
    }
    pub fn fill_bytes(&mut self, st: &mut State<'tcx>, d: u64, v: V, n: u64) -> R<()> {
        match v {
            V::C(x) => { let b = vec![x as u8; n as usize]; self.wr_bytes(st, d, &b) }
            V::S(_) => { for j in 0..n { self.wr(st, d + j, 1, v)?; } Ok(()) }
        }
    }
    pub fn mem_eq(&mut self, st: &mut State<'tcx>, a: u64, b: u64, n: u64) -> R<E> {
        let mut c = TRUE;
        for j in 0..n {
            let (x, y) = (self.rd(st, a + j, 1)?, self.rd(st, b + j, 1)?);
            if let (V::C(p), V::C(q)) = (x, y) { if p != q { return Ok(FALSE); } continue; }
            let (x, y) = (self.e(x, 1), self.e(y, 1));
            let q = self.ex.eq(x, y);
            c = self.ex.band(c, q);
            if c == FALSE { return Ok(FALSE); }
        }
        Ok(c)
    }
    pub fn mem_cmp(&mut self, st: &mut State<'tcx>, a: u64, b: u64, n: u64) -> R<V> {
        let mut items = vec![];
        let mut tail = self.ex.c(0, 32);
        for j in 0..n {
            let (x, y) = (self.rd(st, a + j, 1)?, self.rd(st, b + j, 1)?);
            if let (V::C(p), V::C(q)) = (x, y) {
                if p == q { continue; }
                tail = self.ex.c(if p < q { 0xffff_ffff } else { 1 }, 32);
                break;
            }
            items.push((x, y));
        }
        let (m1, p1) = (self.ex.c(0xffff_ffff, 32), self.ex.c(1, 32));
        for (x, y) in items.into_iter().rev() {
            let (x, y) = (self.e(x, 1), self.e(y, 1));
            let eq = self.ex.eq(x, y);
            let lt = self.ex.ult(x, y);
            let d = self.ex.ite(lt, m1, p1);
            tail = self.ex.ite(eq, tail, d);
        }
        Ok(self.v(tail))
    }

    pub fn override_for(&mut self, inst: Instance<'tcx>) -> Option<Over> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let li = tcx.lang_items();
        if Some(did) == li.panic_fmt() || Some(did) == li.panic_nounwind() || Some(did) == li.panic_cannot_unwind() { return Some(Over::Panic); }
        let p = tcx.def_path_str(did);
        if did.is_local() {
            let q = p.rsplit("::").next().unwrap_or("");
            if p == format!("vp::{q}") || p.ends_with(&format!("::vp::{q}")) {
                return Some(match q {
                    "any_bool" => Over::Any(1), "any_u8" => Over::Any(8), "any_u16" => Over::Any(16), "any_u32" => Over::Any(32), "any_u64" => Over::Any(64),
                    "assume" => Over::Assume, "check" => Over::Check, "cover" => Over::Cover, "note" => Over::Note,
                    "concretize" => Over::Conc, "is_symbolic" => Over::IsSym, "in_engine" => Over::InEngine, "fail" => Over::Fail,
                    "select_u64" => Over::Select, "pxctl" => Over::PxCtl,
                    _ => return None,
                });
            }
            return None;
        }
        let kr = tcx.crate_name(did.krate);
        match kr.as_str() {
            "tracing_core" => {
                let dp = tcx.def_path(did).to_string_no_crate_verbose();
                return if dp.starts_with("::metadata::") && dp.ends_with("::current") { Some(Over::TraceLevel) } else { None };
            }
            "memchr" => {
                let dp = tcx.def_path(did).to_string_no_crate_verbose();
                return match dp.as_str() {
                    "::memchr::memchr_raw" => Some(Over::MemChr(1, false)), "::memchr::memchr2_raw" => Some(Over::MemChr(2, false)), "::memchr::memchr3_raw" => Some(Over::MemChr(3, false)),
                    "::memchr::memrchr_raw" => Some(Over::MemChr(1, true)), "::memchr::memrchr2_raw" => Some(Over::MemChr(2, true)), "::memchr::memrchr3_raw" => Some(Over::MemChr(3, true)),
                    _ => None,
                };
            }
            "std" | "core" | "alloc" => {}
            _ => return None,
        }
        // stable textual paths inside the standard library
        let dp = tcx.def_path(did).to_string_no_crate_verbose();
        Some(match dp.as_str() {
            "::panicking::panic_fmt" | "::panicking::panic_nounwind" | "::panicking::panic_nounwind_fmt" | "::panicking::panic_cannot_unwind"
            | "::panicking::panic_display" | "::panicking::panic" | "::panicking::panic_explicit" | "::panicking::begin_panic" | "::panicking::panic_with_hook"
            | "::panicking::begin_panic_handler" | "::panicking::resume_unwind" | "::rt::begin_panic" | "::panic::resume_unwind"
            | "::panicking::panic_nounwind_nobacktrace" | "::panicking::panic_const::panic_const_async_fn_resumed" => Over::Panic,
            "::sys::args::unix::imp::argc_argv" => Over::Argv,
            "::ub_checks::check_language_ub" => Over::False,
            "::str::pattern::simd_contains" => Over::Contains,
            "::alloc::handle_alloc_error" => Over::AllocErr,
            "::backtrace::helper::lazy_resolve" => Over::Nop,
            _ => {
                if dp.starts_with("::hash::sip::") {
                    let nm = tcx.item_name(did);
                    match nm.as_str() {
                        "write" | "write_str" | "short_write" => return Some(Over::SipWrite),
                        "finish" => return Some(Over::SipFinish),
                        _ => return None,
                    }
                }
                return None;
            }
        })
    }
    fn arg_str(&mut self, st: &mut State<'tcx>, a: ArgV) -> R<String> {
        let (p, n) = match a {
            ArgV::A(s, _) => (self.rd_u64(st, s)?, self.rd_u64(st, s + 8)?),
            ArgV::I(V::C(x), _) => (x as u64, (x >> 64) as u64),
            ArgV::I(..) => return unsup("symbolic str"),
        };
        // bytes under the current model (diagnostic strings may contain symbolic bytes)
        let mut b = vec![];
        for j in 0..n { let v = self.rd(st, p + j, 1)?; b.push(match v { V::C(x) => x as u8, V::S(e) => self.ev(st, e) as u8 }); }
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    pub fn fresh(&mut self, st: &mut State<'tcx>, name: &str, bits: u8) -> E {
        let idx = st.inputs.iter().filter(|i| i.name == name).count() as u32;
        let key = (name.to_string(), idx, bits);
        if let Some(v) = self.cfg.pin.get(name).and_then(|v| v.get(idx as usize)) {
            let e = self.ex.c(*v, bits);
            st.inputs.push(Input { name: name.to_string(), e, bits });
            return e;
        }
        let e = match self.var_cache.get(&key) { Some(&e) => e, None => { let e = self.ex.var(&format!("{}#{}", name, idx), bits); self.var_cache.insert(key, e); e } };
        st.inputs.push(Input { name: name.to_string(), e, bits });
        e
    }
    pub fn overridden(&mut self, st: &mut State<'tcx>, o: Over, f: Fid, args: &[ArgV], dst: u64, dsz: u64, target: Option<Bb>, span: Span) -> R<()> {
        match o {
            Over::Any(bits) => {
                let name = self.arg_str(st, args[0])?;
                let b = bits.max(8);
                let e = self.fresh(st, &name, if bits == 1 { 1 } else { b });
                let e = if bits == 1 { self.ex.zext(e, 8) } else { e };
                let v = self.v(e);
                self.wr(st, dst, (b / 8) as u64, v)?;
            }
            Over::Assume => {
                let c = self.argv(st, args[0])?;
                let c = self.e(c, 1);
                let c = self.ex.v2b(c);
                self.assume(st, c)?;
            }
            Over::Check => {
                let c = self.argv(st, args[0])?;
                let c = self.e(c, 1);
                let c = self.ex.v2b(c);
                self.checks += 1;
                if !self.decide(st, c)? {
                    let m = self.arg_str(st, args[1])?;
                    return end(Outcome::Violation(m));
                }
            }
            Over::Fail => { let m = self.arg_str(st, args[0])?; return end(Outcome::Violation(m)); }
            Over::Cover => { let m = self.arg_str(st, args[0])?; *self.covers.entry(m).or_insert(0) += 1; }
            Over::Note => { let m = self.arg_str(st, args[0])?; st.notes.push(m); }
            Over::Conc => { let v = self.argv(st, args[0])?; let x = self.conc(st, v, 8)?; self.wr(st, dst, 8, V::C(x))?; }
            Over::IsSym => { let v = self.argv(st, args[0])?; self.wr(st, dst, 1, V::C(matches!(v, V::S(_)) as u128))?; }
            Over::InEngine => self.wr(st, dst, 1, V::C(1))?,
            Over::Select => {
                let c = self.argv(st, args[0])?;
                let (a, b) = (self.argv(st, args[1])?, self.argv(st, args[2])?);
                let c = self.e(c, 1);
                let c = self.ex.v2b(c);
                let (a, b) = (self.e(a, 8), self.e(b, 8));
                let r = self.ex.ite(c, a, b);
                let r = self.v(r);
                self.wr(st, dst, 8, r)?;
            }
            Over::PxCtl => {
                let op = self.argu(st, args[0])?;
                let a = self.argv(st, args[1])?;
                let b = self.argv(st, args[2])?;
                let r = self.pxctl(st, op, a, b)?;
                self.wr(st, dst, 8, r)?;
            }
            Over::Panic => {
                let name = self.tcx.def_path_str(self.fns[f as usize].inst.def_id());
                let msg = self.panic_msg(st, &name, args);
                let bt = self.backtrace(st);
                return end(Outcome::Panic(format!("{} at {}\n{}", msg, self.span_str(span), bt)));
            }
            Over::MemChr(n, rev) => {
                let n = n as usize;
                let (p, q) = (self.argu(st, args[n])?, self.argu(st, args[n + 1])?);
                let mut nd = vec![];
                for a in &args[..n] { let v = self.argv(st, *a)?; nd.push(self.e(v, 1)); }
                let mut r = 0;
                for j in 0..q.saturating_sub(p) {
                    let a = if rev { q - 1 - j } else { p + j };
                    let v = self.rd(st, a, 1)?;
                    let v = self.e(v, 1);
                    let mut c = self.ex.eq(v, nd[0]);
                    for x in &nd[1..] { let d = self.ex.eq(v, *x); c = self.ex.bor(c, d); }
                    if self.decide(st, c)? { r = a; break; }
                }
                // Option<*const u8>: tag, pointer
                self.wr(st, dst, 8, V::C((r != 0) as u128))?;
                self.wr(st, dst + 8, 8, V::C(r as u128))?;
            }
            // str::contains for short needles: one expression instead of a vector loop
            Over::Contains => {
                let two = |en: &mut Self, st: &mut State<'tcx>, a: ArgV| -> R<(u64, u64)> { Ok(match a {
                    ArgV::A(s, _) => (en.rd_u64(st, s)?, en.rd_u64(st, s + 8)?),
                    ArgV::I(V::C(x), _) => (x as u64, (x >> 64) as u64),
                    ArgV::I(..) => return unsup("symbolic str"),
                }) };
                let (np, nn) = two(self, st, args[0])?;
                let (hp, hn) = two(self, st, args[1])?;
                let (mut nd, mut hs) = (vec![], vec![]);
                for j in 0..nn { let v = self.rd(st, np + j, 1)?; nd.push(self.e(v, 1)); }
                for j in 0..hn { let v = self.rd(st, hp + j, 1)?; hs.push(self.e(v, 1)); }
                let mut any = FALSE;
                let mut i = 0;
                while i + nd.len() <= hs.len() {
                    let mut all = TRUE;
                    for (k, x) in nd.iter().enumerate() { let d = self.ex.eq(hs[i + k], *x); all = self.ex.band(all, d); }
                    any = self.ex.bor(any, all);
                    i += 1;
                }
                let (one, zero) = (self.ex.c(1, 8), self.ex.c(0, 8));
                let r = self.ex.ite(any, one, zero);
                let r = self.v(r);
                self.wr(st, dst, 1, r)?;
            }
            // LevelFilter::current() == INFO: debug and trace events are not formatted
            Over::TraceLevel => self.wr(st, dst, 8, V::C(2))?,
            Over::Argv => {
                let v = st.px.args.clone();
                let arr = self.malloc(st, 8 * (v.len() as u64 + 1), 8);
                for (i, s) in v.iter().enumerate() {
                    let p = self.malloc(st, s.len() as u64 + 1, 1);
                    for (j, b) in s.iter().enumerate() { self.wr(st, p + j as u64, 1, *b)?; }
                    self.wr(st, p + s.len() as u64, 1, V::C(0))?;
                    self.wr(st, arr + 8 * i as u64, 8, V::C(p as u128))?;
                }
                self.wr(st, arr + 8 * v.len() as u64, 8, V::C(0))?;
                self.wr(st, dst, 8, V::C(v.len() as u128))?;
                self.wr(st, dst + 8, 8, V::C(arr as u128))?;
            }
            Over::AllocErr => return unsup("alloc error"),
            Over::SipWrite | Over::Nop => {}
            Over::SipFinish => self.wr(st, dst, 8, V::C(0x5a5a_1234_5678_9abc))?,
            Over::Zero | Over::False | Over::NoneU => { if dsz > 0 { self.fill_bytes(st, dst, V::C(0), dsz)?; } }
        }
        self.ret_to(st, target)
    }
    fn panic_msg(&mut self, st: &mut State<'tcx>, name: &str, args: &[ArgV]) -> String {
        // core::fmt::Arguments { template: NonNull<u8>, args: NonNull<Argument> }; a literal string has (len<<1|1) in args
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if let Some(a) = args.first() {
            let w = match a {
                ArgV::A(s, n) if *n >= 16 => (self.rd(st, *s, 8).ok(), self.rd(st, *s + 8, 8).ok()),
                ArgV::I(V::C(x), 16) => (Some(V::C(*x as u64 as u128)), Some(V::C(x >> 64))),
                _ => (None, None),
            };
            if let (Some(V::C(p)), Some(V::C(l))) = w {
                let n = if short == "panic_fmt" || short == "panic_nounwind_fmt" { if l & 1 == 1 { (l >> 1) as u64 } else { 0 } } else { l as u64 };
                if n > 0 && n < 4096 {
                    let mut b = vec![];
                    for j in 0..n { match self.rd(st, p as u64 + j, 1) { Ok(V::C(x)) => b.push(x as u8), _ => break } }
                    return String::from_utf8_lossy(&b).into_owned();
                }
                if n == 0 {
                    // template string: print its printable bytes
                    let mut b = vec![];
                    for j in 0..200 { match self.rd(st, p as u64 + j, 1) { Ok(V::C(x)) => b.push(if (0x20..0x7f).contains(&x) { x as u8 } else { b'|' }), _ => break } }
                    return format!("panic: {}", String::from_utf8_lossy(&b));
                }
            }
        }
        format!("panic via {}", short)
    }
}
