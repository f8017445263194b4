//! Lowering of monomorphised rustc MIR into a compact IR with resolved offsets and sizes.
use crate::exec::Eng;
use crate::mem::*;
use rustc_abi::{FieldIdx, FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty, TypeVisitableExt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::rc::Rc;

pub type Fid = u32;
pub type Bb = u32;

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    DerefFat,
    Off(u64),
    /// field of a struct whose unsized tail is `dyn`: offset must be rounded to the dynamic alignment
    DynOff(u64),
    Index { ioff: u32, esz: u64 },
    FromEnd { esz: u64, off: u64 },
    SubSlice { esz: u64, from: u64, to: u64 },
}
#[derive(Clone, Debug)]
pub struct Pl { pub off: u32, pub pj: Box<[Pj]> }
#[derive(Clone, Debug)]
pub enum Op { Pl(Pl), Imm(u128), Mem(u64) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { U, S, F, B }

#[derive(Clone, Debug)]
pub enum Disc {
    Single(u128),
    Direct { off: u64, tsz: u8, signed: bool },
    Niche { off: u64, tsz: u8, untagged: u128, start: u128, span: u128, niche_start: u128 },
    Unreachable,
}
#[derive(Clone, Debug)]
pub enum UnsAct { Copy { so: u64, d: u64, n: u64 }, Imm { d: u64, v: u64 }, Upcast { so: u64, d: u64, slot: Option<u64> } }

pub enum St {
    Nop,
    Copy { dst: Pl, src: Op, size: u64 },
    Bin { dst: Pl, op: BinOp, a: Op, b: Op, asz: u8, bsz: u8, k: Kind, bk: Kind, ov_off: u64 },
    FatCmp { dst: Pl, op: BinOp, a: Op, b: Op },
    PtrOff { dst: Pl, a: Op, b: Op, esz: u64, bsz: u8, bs: bool },
    Not { dst: Pl, a: Op, sz: u8, k: Kind },
    Neg { dst: Pl, a: Op, sz: u8, k: Kind },
    PtrMeta { dst: Pl, a: Op, fat: bool },
    AddrOf { dst: Pl, pl: Pl, fat: bool },
    Repeat { dst: Pl, src: Op, esz: u64, n: u64 },
    Discr { dst: Pl, pl: Pl, info: Disc, dsz: u8 },
    SetTag { dst: Pl, off: u64, tsz: u8, v: u128 },
    CastInt { dst: Pl, a: Op, asz: u8, signed: bool, dsz: u8 },
    FToI { dst: Pl, a: Op, asz: u8, signed: bool, dsz: u8 },
    IToF { dst: Pl, a: Op, asz: u8, signed: bool, dsz: u8 },
    FToF { dst: Pl, a: Op, asz: u8, dsz: u8 },
    Unsize { dst: Pl, src: Op, acts: Vec<UnsAct>, ssz: u64 },
    Tls { dst: Pl, def: DefId },
    CopyNonOverlapping { src: Op, dst: Op, cnt: Op, esz: u64 },
    Assume(Op),
    Unsup(String),
}
pub struct Arg { pub op: Op, pub size: u64, /** unsized argument passed by (place address, metadata) */ pub unsized_: bool }
pub enum Callee { Fn(Fid), Ptr(Op), Virtual(usize) }
pub enum Tm {
    Goto(Bb),
    Switch { op: Op, sz: u8, vals: Box<[(u128, Bb)]>, other: Bb },
    Ret,
    Unreachable,
    Drop { pl: Pl, glue: Option<Fid>, dyn_: bool, fat: bool, target: Bb },
    Call { callee: Callee, args: Box<[Arg]>, untuple: Option<Box<[(u64, u64)]>>, dst: Pl, dsz: u64, target: Option<Bb>, span: Span },
    Assert { cond: Op, expected: bool, msg: String, target: Bb },
    Unsup(String),
}
pub struct Block { pub st: Vec<St>, pub tm: Tm, pub spans: Vec<Span>, pub tspan: Span }
pub struct Func<'tcx> {
    pub inst: Instance<'tcx>,
    pub name: String,
    pub frame_size: u64,
    pub locals: Vec<(u64, u64)>,
    pub argc: usize,
    pub spread: Option<(usize, Vec<(u64, u64)>)>,
    pub blocks: Vec<Block>,
    pub track_caller: bool,
    pub ret_size: u64,
    pub in_repo: bool,
}

pub struct Lower<'a, 'tcx> {
    pub en: &'a mut Eng<'tcx>,
    pub body: &'tcx mir::Body<'tcx>,
    pub inst: Instance<'tcx>,
    loc: Vec<(u64, TyAndLayout<'tcx>)>,
}

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) & !(a - 1) }

impl<'a, 'tcx> Lower<'a, 'tcx> {
    fn mono<T: rustc_middle::ty::TypeFoldable<ty::TyCtxt<'tcx>>>(&self, v: T) -> T {
        self.inst.instantiate_mir_and_normalize_erasing_regions(self.en.tcx, self.en.env, ty::EarlyBinder::bind(self.en.tcx, v))
    }
    fn lay(&self, t: Ty<'tcx>) -> TyAndLayout<'tcx> { self.en.lay(t) }
    fn opty(&self, o: &Operand<'tcx>) -> Ty<'tcx> { self.mono(o.ty(&self.body.local_decls, self.en.tcx)) }

    pub fn lower(en: &'a mut Eng<'tcx>, inst: Instance<'tcx>, body: &'tcx mir::Body<'tcx>) -> Func<'tcx> {
        let mut lw = Lower { en, body, inst, loc: vec![] };
        let mut off = 0u64;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let t = lw.mono(d.ty);
            let l = lw.lay(t);
            let (sz, al) = if l.is_sized() { (l.size.bytes(), l.align.abi.bytes()) } else { (16, 16) };
            off = align_up(off, al);
            lw.loc.push((off, l));
            locals.push((off, sz));
            off += sz;
        }
        let spread = body.spread_arg.map(|l| {
            let lay = lw.loc[l.as_usize()].1;
            let n = lay.fields.count();
            let f = (0..n).map(|i| { let fl = lay.field(&lw.en.lcx, i); (lay.fields.offset(i).bytes(), fl.size.bytes()) }).collect();
            (l.as_usize(), f)
        });
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(Block { st: vec![], tm: Tm::Unsup("unwind cleanup block".into()), spans: vec![], tspan: rustc_span::DUMMY_SP });
                continue;
            }
            let mut st = vec![];
            let mut spans = vec![];
            for s in &bb.statements {
                lw.stmt(&s.kind, &mut st);
                while spans.len() < st.len() { spans.push(s.source_info.span); }
            }
            let term = bb.terminator();
            let tm = lw.term(term);
            blocks.push(Block { st, tm, spans, tspan: term.source_info.span });
        }
        let tcx = lw.en.tcx;
        let name = tcx.def_path_str_with_args(inst.def_id(), inst.args);
        let in_repo = inst.def_id().is_local();
        Func {
            inst, name, frame_size: off.max(1), argc: body.arg_count, spread, blocks,
            ret_size: locals[0].1, locals, track_caller: inst.def.requires_caller_location(tcx), in_repo,
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> (Pl, TyAndLayout<'tcx>) {
        let (off, l0) = self.loc[p.local.as_usize()];
        let mut cur = l0;
        let mut pj: Vec<Pj> = vec![];
        if !l0.is_sized() { pj.push(Pj::DerefFat); }
        let mut boff = off as u32;
        fn add(pj: &mut Vec<Pj>, boff: &mut u32, o: u64) {
            if o == 0 { return; }
            if pj.is_empty() { *boff += o as u32; return; }
            if let Some(Pj::Off(x)) = pj.last_mut() { *x += o; return; }
            pj.push(Pj::Off(o));
        }
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let t = cur.ty.builtin_deref(true).unwrap_or_else(|| panic!("deref of {:?}", cur.ty));
                    let l = self.lay(t);
                    pj.push(if self.en.is_fat(t) { Pj::DerefFat } else { Pj::Deref });
                    cur = l;
                }
                ProjectionElem::Field(f, ty) => {
                    let o = cur.fields.offset(f.as_usize()).bytes();
                    let fl = cur.field(&self.en.lcx, f.as_usize());
                    let fl = { let t = self.mono(ty); let l2 = self.lay(t); if l2.ty != fl.ty { l2 } else { fl } };
                    if !cur.is_sized() && !fl.is_sized() && f.as_usize() + 1 == cur.fields.count() {
                        let tail = self.en.tcx.struct_tail_for_codegen(fl.ty, self.en.env);
                        if matches!(tail.kind(), ty::Dynamic(..)) { pj.push(Pj::DynOff(o)); } else { add(&mut pj, &mut boff, o); }
                    } else { add(&mut pj, &mut boff, o); }
                    cur = fl;
                }
                ProjectionElem::Index(l) => {
                    let el = cur.field(&self.en.lcx, 0);
                    pj.push(Pj::Index { ioff: self.loc[l.as_usize()].0 as u32, esz: el.size.bytes() });
                    cur = el;
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let el = cur.field(&self.en.lcx, 0);
                    let esz = el.size.bytes();
                    if from_end {
                        if let ty::Array(..) = cur.ty.kind() {
                            let n = cur.fields.count() as u64;
                            add(&mut pj, &mut boff, (n - offset) * esz);
                        } else { pj.push(Pj::FromEnd { esz, off: offset }); }
                    } else { add(&mut pj, &mut boff, offset * esz); }
                    cur = el;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let el = cur.field(&self.en.lcx, 0);
                    let esz = el.size.bytes();
                    match cur.ty.kind() {
                        ty::Array(t, _) => {
                            let n = cur.fields.count() as u64;
                            let len = if from_end { n - from - to } else { to - from };
                            add(&mut pj, &mut boff, from * esz);
                            cur = self.lay(Ty::new_array(self.en.tcx, *t, len));
                        }
                        _ => { pj.push(Pj::SubSlice { esz, from, to }); }
                    }
                }
                ProjectionElem::Downcast(_, v) => { cur = cur.for_variant(&self.en.lcx, v); }
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => { let t = self.mono(t); cur = self.lay(t); }
                ProjectionElem::PhantomDeref => panic!("PhantomDeref"),
            }
        }
        (Pl { off: boff, pj: pj.into() }, cur)
    }
    fn sub(p: &Pl, o: u64) -> Pl {
        if o == 0 { return p.clone(); }
        if p.pj.is_empty() { return Pl { off: p.off + o as u32, pj: p.pj.clone() }; }
        let mut v = p.pj.to_vec();
        if let Some(Pj::Off(x)) = v.last_mut() { *x += o; } else { v.push(Pj::Off(o)); }
        Pl { off: p.off, pj: v.into() }
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> Op {
        let k = self.mono(c.const_);
        let ty = k.ty();
        let l = self.lay(ty);
        if l.is_zst() && !matches!(k, mir::Const::Unevaluated(..)) { return Op::Imm(0); }
        match k.eval(self.en.tcx, self.en.env, c.span) {
            Ok(v) => self.en.const_op(v, l),
            Err(_) => panic!("const eval failed for {:?} at {:?}", k, c.span),
        }
    }
    fn oper(&mut self, o: &Operand<'tcx>) -> (Op, TyAndLayout<'tcx>) {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let (pl, l) = self.place(p); (Op::Pl(pl), l) }
            Operand::Constant(c) => { let t = self.opty(o); let l = self.lay(t); (self.konst(c), l) }
            Operand::RuntimeChecks(k) => {
                let l = self.lay(self.en.tcx.types.bool);
                (Op::Imm(match k { mir::RuntimeChecks::OverflowChecks => 1, _ => 0 }), l)
            }
        }
    }
    fn kind(&self, t: Ty<'tcx>) -> Kind {
        match t.kind() {
            ty::Bool => Kind::B,
            ty::Int(_) => Kind::S,
            ty::Float(_) => Kind::F,
            ty::Adt(..) | ty::Pat(..) => Kind::U,
            _ => Kind::U,
        }
    }
    fn stmt(&mut self, s: &StatementKind<'tcx>, out: &mut Vec<St>) {
        match s {
            StatementKind::Assign(b) => { let (p, r) = &**b; self.assign(p, r, out); }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let (pl, l) = self.place(place);
                if let Some((o, tsz, v)) = self.en.tag_for(l, *variant_index) { out.push(St::SetTag { dst: pl, off: o, tsz, v }); }
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => { let (o, _) = self.oper(o); out.push(St::Assume(o)); }
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let t = self.opty(&c.src);
                    let esz = self.lay(t.builtin_deref(true).unwrap()).size.bytes();
                    let (src, _) = self.oper(&c.src);
                    let (dst, _) = self.oper(&c.dst);
                    let (cnt, _) = self.oper(&c.count);
                    out.push(St::CopyNonOverlapping { src, dst, cnt, esz });
                }
            },
            _ => {}
        }
    }
    fn assign(&mut self, p: &mir::Place<'tcx>, r: &Rvalue<'tcx>, out: &mut Vec<St>) {
        let (dst, dl) = self.place(p);
        match r {
            Rvalue::Use(o, ..) => {
                let (src, l) = self.oper(o);
                if dl.size.bytes() > 0 { out.push(St::Copy { dst, src, size: l.size.bytes() }); }
            }
            Rvalue::CopyForDeref(q) => {
                let (src, l) = self.place(q);
                out.push(St::Copy { dst, src: Op::Pl(src), size: l.size.bytes() });
            }
            Rvalue::Reborrow(_, _, q) => {
                let (src, l) = self.place(q);
                out.push(St::Copy { dst, src: Op::Pl(src), size: l.size.bytes() });
            }
            Rvalue::WrapUnsafeBinder(o, _) => {
                let (src, l) = self.oper(o);
                out.push(St::Copy { dst, src, size: l.size.bytes() });
            }
            Rvalue::Repeat(o, n) => {
                let n = self.mono(*n).try_to_target_usize(self.en.tcx).unwrap();
                let (src, l) = self.oper(o);
                if l.size.bytes() > 0 && n > 0 { out.push(St::Repeat { dst, src, esz: l.size.bytes(), n }); }
            }
            Rvalue::Ref(_, _, q) | Rvalue::RawPtr(_, q) => {
                let (pl, l) = self.place(q);
                let fat = self.en.is_fat(l.ty);
                out.push(St::AddrOf { dst, pl, fat });
            }
            Rvalue::ThreadLocalRef(d) => out.push(St::Tls { dst, def: *d }),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(*t);
                self.cast(*k, o, t, dst, out);
            }
            Rvalue::BinaryOp(op, b) => {
                let (a, al) = self.oper(&b.0);
                let (bb, bl) = self.oper(&b.1);
                let asz = al.size.bytes();
                if *op == BinOp::Offset {
                    let e = al.ty.builtin_deref(true).unwrap();
                    let esz = self.lay(e).size.bytes();
                    let bs = matches!(bl.ty.kind(), ty::Int(_));
                    out.push(St::PtrOff { dst, a, b: bb, esz, bsz: bl.size.bytes() as u8, bs });
                } else if asz == 16 && al.ty.is_any_ptr() {
                    out.push(St::FatCmp { dst, op: *op, a, b: bb });
                } else if asz == 0 {
                    // unit-like comparison
                    let v = matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge) as u128;
                    out.push(St::Copy { dst, src: Op::Imm(v), size: dl.size.bytes() });
                } else {
                    let ov_off = if dl.fields.count() >= 2 && matches!(op, BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow) { dl.fields.offset(1).bytes() } else { 0 };
                    out.push(St::Bin { dst, op: *op, a, b: bb, asz: asz as u8, bsz: bl.size.bytes() as u8, k: self.kind(al.ty), bk: self.kind(bl.ty), ov_off });
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let (a, al) = self.oper(o);
                let sz = al.size.bytes() as u8;
                match op {
                    UnOp::Not => out.push(St::Not { dst, a, sz, k: self.kind(al.ty) }),
                    UnOp::Neg => out.push(St::Neg { dst, a, sz, k: self.kind(al.ty) }),
                    UnOp::PtrMetadata => if dl.size.bytes() > 0 { out.push(St::PtrMeta { dst, a, fat: al.size.bytes() == 16 }) },
                }
            }
            Rvalue::Discriminant(q) => {
                let (pl, l) = self.place(q);
                let info = self.en.disc_info(l);
                out.push(St::Discr { dst, pl, info, dsz: dl.size.bytes() as u8 });
            }
            Rvalue::Aggregate(k, ops) => {
                let mut base = dl;
                let mut variant = None;
                let mut active = None;
                match &**k {
                    mir::AggregateKind::Adt(_, v, _, _, f) => {
                        base = dl.for_variant(&self.en.lcx, *v);
                        variant = Some(*v);
                        active = *f;
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let (d, _) = self.oper(&ops[FieldIdx::from_usize(0)]);
                        let (m, ml) = self.oper(&ops[FieldIdx::from_usize(1)]);
                        out.push(St::Copy { dst: dst.clone(), src: d, size: 8 });
                        if ml.size.bytes() > 0 { out.push(St::Copy { dst: Self::sub(&dst, 8), src: m, size: 8 }); }
                        return;
                    }
                    mir::AggregateKind::Array(_) => {
                        let esz = dl.field(&self.en.lcx, 0).size.bytes();
                        for (i, o) in ops.iter().enumerate() {
                            let (src, _) = self.oper(o);
                            if esz > 0 { out.push(St::Copy { dst: Self::sub(&dst, i as u64 * esz), src, size: esz }); }
                        }
                        return;
                    }
                    _ => {}
                }
                if base.is_uninhabited() && !matches!(base.fields, FieldsShape::Arbitrary { .. }) {
                    out.push(St::Unsup("aggregate of uninhabited".into()));
                    return;
                }
                for (i, o) in ops.iter_enumerated() {
                    let i = active.unwrap_or(i);
                    let fo = base.fields.offset(i.as_usize()).bytes();
                    let (src, l) = self.oper(o);
                    if l.size.bytes() > 0 { out.push(St::Copy { dst: Self::sub(&dst, fo), src, size: l.size.bytes() }); }
                }
                if let Some(v) = variant {
                    if let Some((o, tsz, tv)) = self.en.tag_for(dl, v) { out.push(St::SetTag { dst, off: o, tsz, v: tv }); }
                } else if let ty::Coroutine(..) = dl.ty.kind() {
                    if let Some((o, tsz, tv)) = self.en.tag_for(dl, VariantIdx::from_u32(0)) { out.push(St::SetTag { dst, off: o, tsz, v: tv }); }
                }
            }
        }
    }
    fn cast(&mut self, k: CastKind, o: &Operand<'tcx>, t: Ty<'tcx>, dst: Pl, out: &mut Vec<St>) {
        let (a, al) = self.oper(o);
        let dl = self.lay(t);
        let (asz, dsz) = (al.size.bytes(), dl.size.bytes());
        match k {
            CastKind::IntToInt => {
                let mut asz8 = asz as u8;
                let mut src_ty = al.ty;
                // enum-to-int casts are lowered through Discriminant; but C-like scalars may appear
                if let ty::Adt(..) = src_ty.kind() {
                    let info = self.en.disc_info(al);
                    let dt = al.ty.discriminant_ty(self.en.tcx);
                    if let Op::Pl(pl) = &a {
                        let l = self.lay(dt);
                        let _ = l;
                        out.push(St::Discr { dst, pl: pl.clone(), info, dsz: dsz as u8 });
                        return;
                    }
                    src_ty = dt;
                    asz8 = asz as u8;
                }
                out.push(St::CastInt { dst, a, asz: asz8, signed: matches!(src_ty.kind(), ty::Int(_)), dsz: dsz as u8 })
            }
            CastKind::FloatToInt => out.push(St::FToI { dst, a, asz: asz as u8, signed: matches!(t.kind(), ty::Int(_)), dsz: dsz as u8 }),
            CastKind::IntToFloat => out.push(St::IToF { dst, a, asz: asz as u8, signed: matches!(al.ty.kind(), ty::Int(_)), dsz: dsz as u8 }),
            CastKind::FloatToFloat => out.push(St::FToF { dst, a, asz: asz as u8, dsz: dsz as u8 }),
            CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance | CastKind::PtrToPtr | CastKind::FnPtrToPtr
            | CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                let n = asz.min(dsz);
                if n > 0 { out.push(St::Copy { dst, src: a, size: n }); }
            }
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::ReifyFnPointer(..) => {
                    let ty::FnDef(d, args) = *al.ty.kind() else { panic!() };
                    let i = Instance::resolve_for_fn_ptr(self.en.tcx, self.en.env, d, args.no_bound_vars().unwrap()).unwrap();
                    let f = self.en.fid(i);
                    out.push(St::Copy { dst, src: Op::Imm(self.en.fn_addr(f) as u128), size: 8 });
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, args) = *al.ty.kind() else { panic!() };
                    let i = Instance::resolve_closure(self.en.tcx, d, args, ty::ClosureKind::FnOnce);
                    let f = self.en.fid(i);
                    out.push(St::Copy { dst, src: Op::Imm(self.en.fn_addr(f) as u128), size: 8 });
                }
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => {
                    out.push(St::Copy { dst, src: a, size: asz.min(dsz) });
                }
                PointerCoercion::Unsize => {
                    let mut acts = vec![];
                    self.unsize(al, dl, 0, 0, &mut acts);
                    out.push(St::Unsize { dst, src: a, acts, ssz: asz });
                }
            },
        }
    }
    fn unsize(&mut self, s: TyAndLayout<'tcx>, d: TyAndLayout<'tcx>, so: u64, d_o: u64, acts: &mut Vec<UnsAct>) {
        let tcx = self.en.tcx;
        match (s.ty.kind(), d.ty.kind()) {
            (ty::Pat(st, _), ty::Pat(dt, _)) => { let (a, b) = (self.lay(*st), self.lay(*dt)); self.unsize(a, b, so, d_o, acts) }
            (&ty::Ref(_, sp, _), &ty::Ref(_, dp, _) | &ty::RawPtr(dp, _)) | (&ty::RawPtr(sp, _), &ty::RawPtr(dp, _)) => {
                let (st, dt) = tcx.struct_lockstep_tails_for_codegen(sp, dp, self.en.env);
                match (st.kind(), dt.kind()) {
                    (&ty::Array(_, n), &ty::Slice(_)) => {
                        acts.push(UnsAct::Copy { so, d: d_o, n: 8 });
                        acts.push(UnsAct::Imm { d: d_o + 8, v: n.try_to_target_usize(tcx).unwrap() });
                    }
                    (ty::Dynamic(a, _), ty::Dynamic(b, _)) => {
                        acts.push(UnsAct::Copy { so, d: d_o, n: 8 });
                        if a == b { acts.push(UnsAct::Copy { so: so + 8, d: d_o + 8, n: 8 }); }
                        else {
                            let slot = tcx.supertrait_vtable_slot((st, dt)).map(|x| x as u64);
                            acts.push(UnsAct::Upcast { so: so + 8, d: d_o + 8, slot });
                        }
                    }
                    (_, &ty::Dynamic(data, _)) => {
                        let v = self.en.vtable(st, data.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p)));
                        acts.push(UnsAct::Copy { so, d: d_o, n: 8 });
                        acts.push(UnsAct::Imm { d: d_o + 8, v });
                    }
                    _ => panic!("unsize {:?} -> {:?}", s.ty, d.ty),
                }
            }
            (ty::Adt(..), ty::Adt(..)) => {
                for i in 0..s.fields.count() {
                    let sf = s.field(&self.en.lcx, i);
                    let df = d.field(&self.en.lcx, i);
                    let (o1, o2) = (so + s.fields.offset(i).bytes(), d_o + d.fields.offset(i).bytes());
                    if sf.is_zst() && df.is_zst() { continue; }
                    if sf.ty == df.ty { acts.push(UnsAct::Copy { so: o1, d: o2, n: sf.size.bytes() }); }
                    else { self.unsize(sf, df, o1, o2, acts); }
                }
            }
            _ => panic!("unsize_into {:?} -> {:?}", s.ty, d.ty),
        }
    }
    fn term(&mut self, t: &mir::Terminator<'tcx>) -> Tm {
        let tcx = self.en.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => Tm::Goto(target.as_u32()),
            TerminatorKind::FalseEdge { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (op, l) = self.oper(discr);
                Tm::Switch { op, sz: l.size.bytes() as u8, vals: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), other: targets.otherwise().as_u32() }
            }
            TerminatorKind::Return => Tm::Ret,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let (pl, l) = self.place(place);
                let fat = self.en.is_fat(l.ty);
                if let ty::Dynamic(..) = l.ty.kind() {
                    return Tm::Drop { pl, glue: None, dyn_: true, fat, target: target.as_u32() };
                }
                if !l.ty.needs_drop(tcx, self.en.env) { return Tm::Goto(target.as_u32()); }
                let i = Instance::resolve_drop_glue(tcx, l.ty);
                let f = self.en.fid(i);
                Tm::Drop { pl, glue: Some(f), dyn_: false, fat, target: target.as_u32() }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (c, _) = self.oper(cond);
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("attempt to {:?} with overflow", op),
                    mir::AssertKind::OverflowNeg(_) => "attempt to negate with overflow".into(),
                    mir::AssertKind::DivisionByZero(_) => "attempt to divide by zero".into(),
                    mir::AssertKind::RemainderByZero(_) => "attempt to calculate the remainder with a divisor of zero".into(),
                    _ => "assert".into(),
                };
                Tm::Assert { cond: c, expected: *expected, msg: m, target: target.as_u32() }
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fty = self.opty(func);
                let (dst, dl) = self.place(destination);
                let sig = tcx.normalize_erasing_late_bound_regions(self.en.env, fty.fn_sig(tcx));
                let mut a2 = vec![];
                for a in args.iter() {
                    let (op, l) = self.oper(&a.node);
                    a2.push(Arg { op, size: if l.is_sized() { l.size.bytes() } else { 16 }, unsized_: !l.is_sized() });
                }
                let callee = match *fty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        let i = match Instance::try_resolve(tcx, self.en.env, d, ga) { Ok(Some(i)) => i, r => panic!("resolve {:?} {:?}: {:?}", d, ga, r) };
                        match i.def {
                            ty::InstanceKind::Virtual(_, idx) => Callee::Virtual(idx),
                            _ => Callee::Fn(self.en.fid(i)),
                        }
                    }
                    ty::FnPtr(..) => { let (o, _) = self.oper(func); Callee::Ptr(o) }
                    _ => panic!("call of {:?}", fty),
                };
                let untuple = if sig.abi() == rustc_abi::ExternAbi::RustCall && !args.is_empty() {
                    let lt = self.opty(&args.last().unwrap().node);
                    let ll = self.lay(lt);
                    Some((0..ll.fields.count()).map(|i| (ll.fields.offset(i).bytes(), ll.field(&self.en.lcx, i).size.bytes())).collect())
                } else { None };
                Tm::Call { callee, args: a2.into(), untuple, dst, dsz: dl.size.bytes(), target: target.map(|b| b.as_u32()), span: if fn_span.is_dummy() { t.source_info.span } else { t.source_info.span } }
            }
            k => Tm::Unsup(format!("terminator {:?}", k)),
        }
    }
}

impl<'tcx> Eng<'tcx> {
    pub fn lay(&self, t: Ty<'tcx>) -> TyAndLayout<'tcx> {
        match self.tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l, Err(e) => panic!("layout_of {:?}: {:?}", t, e) }
    }
    pub fn is_fat(&self, pointee: Ty<'tcx>) -> bool {
        if pointee.has_escaping_bound_vars() { panic!("bound vars in {:?}", pointee); }
        !self.lay(pointee).is_sized() && !matches!(self.tcx.struct_tail_for_codegen(pointee, self.env).kind(), ty::Foreign(_))
    }
    pub fn disc_info(&self, l: TyAndLayout<'tcx>) -> Disc {
        match &l.variants {
            Variants::Empty => Disc::Unreachable,
            Variants::Single { index } => {
                match l.ty.discriminant_for_variant(self.tcx, *index) { Some(d) => Disc::Single(d.val), None => Disc::Single(0) }
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let tsz = tag.size(&self.tcx).bytes() as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = match tag.primitive() { rustc_abi::Primitive::Int(_, s) => s, _ => false };
                        Disc::Direct { off, tsz, signed }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Disc::Niche {
                        off, tsz, untagged: untagged_variant.as_u32() as u128,
                        start: niche_variants.start.as_u32() as u128,
                        span: (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128,
                        niche_start: *niche_start & crate::expr::mask(tsz * 8),
                    },
                }
            }
        }
    }
    pub fn tag_for(&self, l: TyAndLayout<'tcx>, v: VariantIdx) -> Option<(u64, u8, u128)> {
        match &l.variants {
            Variants::Empty | Variants::Single { .. } => None,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let tsz = tag.size(&self.tcx).bytes() as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = l.ty.discriminant_for_variant(self.tcx, v).unwrap();
                        Some((off, tsz, d.val & crate::expr::mask(tsz * 8)))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if *untagged_variant == v { return None; }
                        let rel = v.as_u32().wrapping_sub(niche_variants.start.as_u32()) as u128;
                        Some((off, tsz, niche_start.wrapping_add(rel) & crate::expr::mask(tsz * 8)))
                    }
                }
            }
        }
    }
    pub fn const_op(&mut self, v: mir::ConstValue, l: TyAndLayout<'tcx>) -> Op {
        match v {
            mir::ConstValue::ZeroSized => Op::Imm(0),
            mir::ConstValue::Scalar(s) => Op::Imm(self.scalar(s)),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let a = self.galloc(alloc_id);
                let mut d = a.to_le_bytes().to_vec();
                d.extend_from_slice(&meta.to_le_bytes());
                let addr = self.gmem(d, 8, true);
                Op::Mem(addr)
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let a = self.galloc(alloc_id);
                let _ = l;
                Op::Mem(a + offset.bytes())
            }
        }
    }
    pub fn scalar(&mut self, s: Scalar) -> u128 {
        match s {
            Scalar::Int(i) => i.to_bits(i.size()),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let GlobalAlloc::TypeId { .. } = self.tcx.global_alloc(id) { return off.bytes() as u128; }
                (self.galloc(id).wrapping_add(off.bytes())) as u128
            }
        }
    }
    /// allocate engine-global memory
    pub fn gmem(&mut self, data: Vec<u8>, align: u64, ro: bool) -> u64 {
        let s = self.gl.reserve(data.len() as u64);
        let base = s << SLOT_BITS;
        self.gl.insert(s, Alloc { base, align: align as u32, data, sym: vec![], ro });
        base
    }
    pub fn galloc(&mut self, id: AllocId) -> u64 {
        if let Some(&a) = self.galloc_map.get(&id) { return a; }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let f = self.fid(instance);
                let a = self.fn_addr(f);
                self.galloc_map.insert(id, a);
                a
            }
            GlobalAlloc::VTable(ty, dynty) => {
                let tr = dynty.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                let a = self.vtable(ty, tr);
                self.galloc_map.insert(id, a);
                a
            }
            GlobalAlloc::Static(d) => {
                let a = self.static_addr(d);
                self.galloc_map.insert(id, a);
                a
            }
            GlobalAlloc::Memory(m) => {
                let inner = m.inner();
                let n = inner.len() as u64;
                let s = self.gl.reserve(n);
                let base = s << SLOT_BITS;
                self.galloc_map.insert(id, base);
                self.fill(s, inner);
                base
            }
            GlobalAlloc::TypeId { .. } => 0,
        }
    }
    fn fill(&mut self, s: u64, inner: &'tcx rustc_middle::mir::interpret::Allocation) {
        let n = inner.len();
        let mut d = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        for (off, prov) in inner.provenance().ptrs().iter() {
            let o = off.bytes() as usize;
            let add = u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
            let id = prov.alloc_id();
            if let GlobalAlloc::TypeId { .. } = self.tcx.global_alloc(id) { continue; }
            let a = self.galloc(id).wrapping_add(add);
            d[o..o + 8].copy_from_slice(&a.to_le_bytes());
        }
        let ro = inner.mutability == rustc_middle::mir::Mutability::Not;
        self.gl.insert(s, Alloc { base: s << SLOT_BITS, align: inner.align.bytes() as u32, data: d, sym: vec![], ro });
    }
    pub fn static_addr(&mut self, d: DefId) -> u64 {
        if let Some(&a) = self.statics.get(&d) { return a; }
        if self.tcx.is_foreign_item(d) {
            let name = self.tcx.symbol_name(Instance::mono(self.tcx, d)).name.to_string();
            let a = self.foreign_static(&name);
            self.statics.insert(d, a);
            return a;
        }
        let c = self.tcx.eval_static_initializer(d).unwrap_or_else(|_| panic!("static {:?}", d));
        let s = self.gl.reserve(c.inner().len() as u64);
        let base = s << SLOT_BITS;
        self.statics.insert(d, base);
        self.fill(s, c.inner());
        base
    }
    /// bytes of a thread-local static's initial value
    pub fn tls_init(&mut self, d: DefId) -> Rc<Alloc> {
        if let Some(a) = self.tls_inits.get(&d) { return a.clone(); }
        let c = self.tcx.eval_static_initializer(d).unwrap_or_else(|_| panic!("static {:?}", d));
        let s = self.gl.reserve(c.inner().len() as u64);
        self.fill(s, c.inner());
        let a = self.gl.get(s).unwrap().clone();
        self.tls_inits.insert(d, a.clone());
        a
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, tr: Option<ty::ExistentialTraitRef<'tcx>>) -> u64 {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let tr = tr.map(|t| self.tcx.erase_and_anonymize_regions(t));
        let id = self.tcx.vtable_allocation((ty, tr));
        self.galloc(id)
    }
    pub fn fid(&mut self, i: Instance<'tcx>) -> Fid {
        if let Some(&f) = self.fid_map.get(&i) { return f; }
        let f = self.fns.len() as Fid;
        self.fns.push(crate::exec::FnEnt { inst: i, kind: None });
        self.fid_map.insert(i, f);
        f
    }
    pub fn fn_addr(&self, f: Fid) -> u64 { FN_BASE + 16 * (f as u64 + 1) }
    pub fn addr_fn(&self, a: u64) -> Option<Fid> {
        if a <= FN_BASE { return None; }
        let f = (a - FN_BASE) / 16 - 1;
        if (f as usize) < self.fns.len() && (a & 15) == 0 { Some(f as Fid) } else { None }
    }
    pub fn loc_addr(&mut self, span: Span) -> u64 {
        if let Some(&a) = self.loc_map.get(&span) { return a; }
        let v = self.tcx.span_as_caller_location(span);
        let a = match v {
            mir::ConstValue::Scalar(s) => self.scalar(s) as u64,
            _ => panic!("caller location"),
        };
        self.loc_map.insert(span, a);
        a
    }
    #[allow(dead_code)]
    pub fn sz(&self, s: Size) -> u64 { s.bytes() }
}
