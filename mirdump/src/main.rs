//! rustc driver that dumps the typed MIR (mir-opt-level 0) of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <rustc args..>`; output directory in MIRDUMP_DIR (one <crate>.json each).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};

enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
use J::*;
fn s(x: impl Into<String>) -> J { S(x.into()) }
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"), B(b) => { let _ = write!(o, "{b}"); } I(i) => { let _ = write!(o, "{i}"); }
            S(x) => esc(o, x),
            A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.w(o); } o.push('}'); }
            M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') ; } o.push('\n'); esc(o, k); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, Option<J>>,
    adtq: Vec<DefId>,
    ext: VecDeque<DefId>,
    seen: BTreeSet<String>,
    depth: usize,
}

const EXT_OK: &[&str] = &["core::option::", "core::result::", "core::cmp::", "core::bool::", "core::mem::", "core::ops::", "core::convert::",
    "core::iter::traits::iterator::", "core::num::", "core::clone::", "core::borrow::", "core::default::", "core::tuple::", "core::intrinsics::"];

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))) }
fn vpath(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> D<'tcx> {
    fn adt(&mut self, d: DefId) -> String {
        let p = path(self.tcx, d);
        if !self.adts.contains_key(&p) { self.adts.insert(p.clone(), None); self.adtq.push(d); }
        p
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        A(a.iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(self.ty(t)) }
            else if let Some(c) = g.as_const() { Some(self.tyconst(c)) } else { None }
        }).collect())
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) { Some(n) => O(vec![("k", s("const")), ("v", I(n as i128))]), None => O(vec![("k", s("const")), ("v", s(format!("{c:?}")))]) }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => O(vec![("k", s("bool"))]),
            ty::Char => O(vec![("k", s("char"))]),
            ty::Int(i) => O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Float(i) => O(vec![("k", s("float")), ("n", s(i.name_str()))]),
            ty::Adt(d, a) => { let p = self.adt(d.did()); let a = self.args(a); O(vec![("k", s("adt")), ("p", s(p)), ("a", a)]) }
            ty::Str => O(vec![("k", s("str"))]),
            ty::Array(t, n) => { let t = self.ty(*t); let n = self.tyconst(*n); O(vec![("k", s("array")), ("t", t), ("n", n)]) }
            ty::Slice(t) => { let t = self.ty(*t); O(vec![("k", s("slice")), ("t", t)]) }
            ty::RawPtr(t, m) => { let t = self.ty(*t); O(vec![("k", s("ptr")), ("m", B(m.is_mut())), ("t", t)]) }
            ty::Ref(_, t, m) => { let t = self.ty(*t); O(vec![("k", s("ref")), ("m", B(m.is_mut())), ("t", t)]) }
            ty::FnDef(d, a) => { let did: DefId = (*d).into(); self.fndef(did, a.skip_binder(), None) }
            ty::Never => O(vec![("k", s("never"))]),
            ty::Tuple(ts) => { let v = ts.iter().map(|t| self.ty(t)).collect(); O(vec![("k", s("tuple")), ("a", A(v))]) }
            ty::Closure(d, a) => { let did: DefId = (*d).into(); let up = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect(); let par = self.args(self.tcx.mk_args(a.as_closure().parent_args())); O(vec![("k", s("closure")), ("p", s(path(self.tcx, did))), ("up", A(up)), ("a", par)]) }
            ty::Param(p) => O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            ty::Alias(_, al) => {
                let (k, d): (&str, DefId) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => ("inh", def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id.into()),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id.into()),
                };
                let hidden = if k == "opaque" && d.is_local() { let h = self.tcx.type_of(d).instantiate(self.tcx, al.args).skip_norm_wip(); self.ty(h) } else { Null };
                let a = self.args(al.args);
                O(vec![("k", s("alias")), ("ak", s(k)), ("p", s(path(self.tcx, d))), ("a", a), ("h", hidden)])
            }
            _ => O(vec![("k", s("other")), ("d", s(format!("{t:?}")))]),
        }
    }
    fn fndef(&mut self, did: DefId, a: GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fndef")), ("p", s(path(tcx, did))), ("vp", s(vpath(tcx, did))), ("a", self.args(a)), ("local", B(did.is_local()))];
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("name", s(tcx.item_name(did).as_str())));
            o.push(("self", if a.len() > 0 && a[0].as_type().is_some() { let t = a.type_at(0); self.ty(t) } else { Null }));
        }
        if let Some(env) = env {
            let args = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(a));
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
                if let ty::InstanceKind::Item(d) = inst.def {
                    o.push(("rp", s(path(tcx, d)))); o.push(("rvp", s(vpath(tcx, d))));
                    let ra = self.args(inst.args); o.push(("ra", ra));
                    o.push(("rlocal", B(d.is_local())));
                    self.want(d); self.want(did);
                } else { o.push(("rkind", s(format!("{:?}", inst.def)))); }
            } else { self.want(did); }
        } else { self.want(did); }
        O(o)
    }
    fn want(&mut self, d: DefId) {
        if d.is_local() { return; }
        let p = path(self.tcx, d);
        let bare = p.trim_start_matches(|c| c == '<' || c == '&');
        if EXT_OK.iter().any(|x| bare.starts_with(x) || p.contains(&format!(" {x}")) || p.contains(&format!("<{x}"))) && self.seen.insert(p) && self.tcx.is_mir_available(d)
            && !self.tcx.intrinsic(d).is_some() { self.ext.push_back(d); }
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => O(vec![("e", s("deref"))]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); O(vec![("e", s("field")), ("i", I(f.as_usize() as i128)), ("t", t)]) }
                ProjectionElem::Index(l) => O(vec![("e", s("index")), ("l", I(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => O(vec![("e", s("cindex")), ("o", I(offset as i128)), ("min", I(min_length as i128)), ("end", B(from_end))]),
                ProjectionElem::Downcast(_, v) => O(vec![("e", s("downcast")), ("v", I(v.as_usize() as i128))]),
                ProjectionElem::Subslice { from, to, from_end } => O(vec![("e", s("subslice")), ("from", I(from as i128)), ("to", I(to as i128)), ("end", B(from_end))]),
                _ => O(vec![("e", s("other")), ("d", s(format!("{e:?}")))]),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        O(vec![("l", I(p.local.as_usize() as i128)), ("p", A(v)), ("t", t)])
    }
    fn bytes(&self, id: interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner(); let n = a.len() as u64;
                let end = match len { Some(l) => off + l, None => n };
                if end > n || !a.provenance().ptrs().is_empty() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }
    /// the parts of a structured constant: (variant, fields)
    fn parts(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        if self.depth >= 6 { return None; }
        match t.kind() {
            ty::Array(_, n) => { if n.try_to_target_usize(self.tcx)? > 256 { return None; } }
            ty::Tuple(_) => {}
            ty::Adt(d, _) if !d.is_union() => {}
            _ => return None,
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        self.depth += 1;
        let fs = d.fields.iter().map(|(x, u)| self.cval(*x, *u)).collect();
        self.depth -= 1;
        Some(O(vec![("v", match d.variant { Some(x) => I(x.as_usize() as i128), None => I(0) }), ("f", A(fs))]))
    }
    fn behind(&mut self, id: interpret::AllocId, off: u64, t: Ty<'tcx>) -> Option<J> {
        if !matches!(self.tcx.try_get_global_alloc(id)?, interpret::GlobalAlloc::Memory(_)) { return None; }
        self.parts(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, t)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tj = self.ty(t);
        let mut o = vec![("o", s("const")), ("t", tj)];
        match v {
            ConstValue::ZeroSized => o.push(("zst", B(true))),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size()); o.push(("bits", s(bits.to_string())));
                o.push(("size", I(i.size().bytes() as i128)));
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let Some(b) = self.bytes(prov.alloc_id(), off.bytes(), None) { o.push(("bytes", A(b.iter().map(|x| I(*x as i128)).collect()))); }
                else { o.push(("dbg", s(format!("{v:?}")))); }
                if let ty::Ref(_, u, _) = t.kind() { if let Some(x) = self.behind(prov.alloc_id(), off.bytes(), *u) { o.push(("to", x)); } }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes(alloc_id, 0, Some(meta)) {
                    match String::from_utf8(b.clone()) { Ok(x) if matches!(t.kind(), ty::Ref(_, u, _) if u.is_str()) => o.push(("str", s(x))), _ => o.push(("bytes", A(b.iter().map(|x| I(*x as i128)).collect()))) }
                } else { o.push(("dbg", s(format!("{v:?}")))); }
                if let ty::Ref(_, u, _) = t.kind() { if let ty::Slice(e) = u.kind() { let at = Ty::new_array(self.tcx, *e, meta); if let Some(x) = self.behind(alloc_id, 0, at) { o.push(("to", x)); } } }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(b) = self.bytes(alloc_id, offset.bytes(), None) { o.push(("ibytes", A(b.iter().map(|x| I(*x as i128)).collect()))); }
                o.push(("dbg", s(format!("{v:?}"))));
            }
        }
        if !o.iter().any(|x| x.0 == "bits" || x.0 == "zst" || x.0 == "str") { if let Some(x) = self.parts(v, t) { o.push(("parts", x)); } }
        O(o)
    }
    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => O(vec![("o", s("copy")), ("pl", self.place(b, p))]),
            Operand::Move(p) => O(vec![("o", s("move")), ("pl", self.place(b, p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(d, a) = t.kind() { let did: DefId = (*d).into(); let f = self.fndef(did, a.skip_binder(), Some(env)); return O(vec![("o", s("const")), ("t", f), ("zst", B(true))]); }
                match c.const_ {
                    Const::Unevaluated(u, t) if u.promoted.is_some() => {
                        let tj = self.ty(t);
                        O(vec![("o", s("promoted")), ("p", s(path(self.tcx, u.def))), ("i", I(u.promoted.unwrap().as_usize() as i128)), ("t", tj)])
                    }
                    cc => match cc.eval(self.tcx, env, c.span) {
                        Ok(v) => self.cval(v, t),
                        Err(_) => { let tj = self.ty(t); let mut o = vec![("o", s("const")), ("t", tj), ("dbg", s(format!("{cc:?}")))];
                            if let Const::Unevaluated(u, _) = cc { o.push(("uneval", s(path(self.tcx, u.def)))); } O(o) }
                    },
                }
            }
            _ => { O(vec![("o", s("other")), ("d", s(format!("{op:?}")))]) }
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => O(vec![("r", s("use")), ("x", self.operand(b, env, o))]),
            Rvalue::Repeat(o, n) => { let n = self.tyconst(*n); O(vec![("r", s("repeat")), ("x", self.operand(b, env, o)), ("n", n)]) }
            Rvalue::Ref(_, k, p) => O(vec![("r", s("ref")), ("m", B(matches!(k, BorrowKind::Mut { .. }))), ("pl", self.place(b, p))]),
            Rvalue::RawPtr(k, p) => O(vec![("r", s("rawptr")), ("d", s(format!("{k:?}"))), ("pl", self.place(b, p))]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); let ft = { let tt = o.ty(&b.local_decls, self.tcx); self.ty(tt) }; O(vec![("r", s("cast")), ("k", s(format!("{k:?}"))), ("x", self.operand(b, env, o)), ("t", t), ("ft", ft)]) }
            Rvalue::BinaryOp(op, bx) => { let t = { let tt = bx.0.ty(&b.local_decls, self.tcx); self.ty(tt) }; O(vec![("r", s("bin")), ("op", s(format!("{op:?}"))), ("a", self.operand(b, env, &bx.0)), ("b", self.operand(b, env, &bx.1)), ("t", t)]) }
            Rvalue::UnaryOp(op, x) => { let t = { let tt = x.ty(&b.local_decls, self.tcx); self.ty(tt) }; O(vec![("r", s("un")), ("op", s(format!("{op:?}"))), ("x", self.operand(b, env, x)), ("t", t)]) }
            Rvalue::Discriminant(p) => O(vec![("r", s("discr")), ("pl", self.place(b, p))]),
            Rvalue::CopyForDeref(p) => O(vec![("r", s("use")), ("x", O(vec![("o", s("copy")), ("pl", self.place(b, p))]))]),
            Rvalue::Reborrow(_, m, p) => O(vec![("r", s("reborrow")), ("m", B(m.is_mut())), ("pl", self.place(b, p))]),
            Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|o| self.operand(b, env, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); O(vec![("k", s("array")), ("t", t)]) }
                    AggregateKind::Tuple => O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, a, _, f) => { let p = self.adt(*d); let a = self.args(a); O(vec![("k", s("adt")), ("p", s(p)), ("v", I(v.as_usize() as i128)), ("a", a), ("f", match f { Some(f) => I(f.as_usize() as i128), None => Null })]) }
                    AggregateKind::Closure(d, a) => { let a = self.args(self.tcx.mk_args(a.as_closure().parent_args())); O(vec![("k", s("closure")), ("p", s(path(self.tcx, *d))), ("a", a)]) }
                    _ => O(vec![("k", s("other"))]),
                };
                O(vec![("r", s("agg")), ("k", k), ("x", A(v))])
            }
            _ => O(vec![("r", s("other")), ("d", s(format!("{r:?}")))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn body(&mut self, did: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>, kind: &str) -> J {
        let locals = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let names: Vec<J> = b.var_debug_info.iter().filter_map(|v| if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { return Some(A(vec![I(p.local.as_usize() as i128), s(v.name.as_str())])); } None } else { None }).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => { let p = self.place(b, &bx.0); let r = self.rvalue(b, env, &bx.1); st.push(O(vec![("s", s("assign")), ("pl", p), ("rv", r), ("at", self.line(x.source_info.span))])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(b, place); st.push(O(vec![("s", s("setdiscr")), ("pl", p), ("v", I(variant_index.as_usize() as i128))])); }
                    StatementKind::Intrinsic(i) => st.push(O(vec![("s", s("intrinsic")), ("d", s(format!("{i:?}")))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => O(vec![("t", s("goto")), ("to", I(target.as_usize() as i128))]),
                TerminatorKind::FalseEdge { real_target, .. } => O(vec![("t", s("goto")), ("to", I(real_target.as_usize() as i128))]),
                TerminatorKind::FalseUnwind { real_target, .. } => O(vec![("t", s("goto")), ("to", I(real_target.as_usize() as i128))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(b, env, discr); let dt = { let tt = discr.ty(&b.local_decls, self.tcx); self.ty(tt) };
                    let v = targets.iter().map(|(v, t)| A(vec![s(v.to_string()), I(t.as_usize() as i128)])).collect();
                    O(vec![("t", s("switch")), ("x", d), ("ty", dt), ("v", A(v)), ("else", I(targets.otherwise().as_usize() as i128))])
                }
                TerminatorKind::Return => O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => O(vec![("t", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => O(vec![("t", s("unwind"))]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(b, place); O(vec![("t", s("drop")), ("pl", p), ("to", I(target.as_usize() as i128))]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(b, env, func); let a = args.iter().map(|x| self.operand(b, env, &x.node)).collect();
                    let at = args.iter().map(|x| { let tt = x.node.ty(&b.local_decls, self.tcx); self.ty(tt) }).collect();
                    let d = self.place(b, destination);
                    O(vec![("t", s("call")), ("f", f), ("a", A(a)), ("at", A(at)), ("d", d), ("to", match target { Some(x) => I(x.as_usize() as i128), None => Null })])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(b, env, cond);
                    let k = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".into(), AssertKind::Overflow(op, ..) => format!("overflow_{op:?}"), AssertKind::OverflowNeg(_) => "overflow_neg".into(), AssertKind::DivisionByZero(_) => "div_zero".into(), AssertKind::RemainderByZero(_) => "rem_zero".into(), _ => "other".to_string() };
                    O(vec![("t", s("assert")), ("c", c), ("e", B(*expected)), ("m", s(k)), ("to", I(target.as_usize() as i128))])
                }
                _ => O(vec![("t", s("other")), ("d", s(format!("{:?}", t.kind)))]),
            };
            blocks.push(O(vec![("st", A(st)), ("te", tj), ("at", at), ("cl", B(bb.is_cleanup))]));
        }
        let gens = self.tcx.generics_of(self.tcx.typeck_root_def_id(did));
        let mut g = vec![]; let mut cur = Some(gens);
        while let Some(x) = cur { let mut v: Vec<J> = x.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name.as_str())).collect(); v.append(&mut g); g = v; cur = x.parent.map(|p| self.tcx.generics_of(p)); }
        let ret = self.line(self.tcx.def_span(did));
        O(vec![("kind", s(kind)), ("nargs", I(b.arg_count as i128)), ("spread", match b.spread_arg { Some(l) => I(l.as_usize() as i128), None => Null }), ("generics", A(g)), ("locals", A(locals)), ("names", A(names)), ("blocks", A(blocks)), ("at", ret), ("local", B(did.is_local()))])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        // the debug checks of raw pointers a `vec![..]` of the standard library expands to
        for p in ["CheckAlignment", "CheckNull"] { c.opts.unstable_opts.mir_enable_passes.push((p.to_string(), false)); }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("MIRDUMP_DIR") else { return rustc_driver::Compilation::Continue };
        let mut d = D { tcx, adts: Default::default(), adtq: vec![], ext: Default::default(), seen: Default::default(), depth: 0 };
        let mut fns: Vec<(String, J)> = vec![];
        let add = |d: &mut D<'tcx>, fns: &mut Vec<(String, J)>, did: DefId| {
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
            let env = TypingEnv::post_analysis(tcx, did);
            let b = tcx.optimized_mir(did);
            let p = path(tcx, did);
            let mut j = d.body(did, b, env, match kind { DefKind::Closure => "closure", _ => "fn" });
            if let O(v) = &mut j {
                v.push(("vp", s(vpath(tcx, did))));
                v.push(("vis", s(if did.is_local() && kind != DefKind::Closure { if tcx.effective_visibilities(()).is_reachable(did.expect_local()) { "pub" } else { "priv" } } else { "" })));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let sj = d.ty(st); v.push(("impl_self", sj));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) { v.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id)))); }
                    v.push(("name", s(tcx.item_name(did).as_str())));
                }
            }
            let pr: Vec<J> = tcx.promoted_mir(did).iter().map(|pb| d.body(did, pb, env, "promoted")).collect();
            if let O(v) = &mut j { v.push(("promoted", A(pr))); }
            fns.push((p, j));
        };
        for ld in tcx.mir_keys(()) { add(&mut d, &mut fns, ld.to_def_id()); }
        let mut n = 0;
        while let Some(x) = d.ext.pop_front() { n += 1; if n > 600 { break; } add(&mut d, &mut fns, x);
            // closures inside external bodies are reached through aggregates; queue them
            let cl: Vec<DefId> = tcx.optimized_mir(x).basic_blocks.iter().flat_map(|b| b.statements.iter()).filter_map(|st| if let StatementKind::Assign(bx) = &st.kind { if let Rvalue::Aggregate(k, _) = &bx.1 { if let AggregateKind::Closure(d, _) = &**k { return Some(*d); } } None } else { None }).collect();
            for c in cl { if d.seen.insert(path(tcx, c)) && tcx.is_mir_available(c) { d.ext.push_back(c); } }
        }
        while let Some(a) = d.adtq.pop() {
            let def = tcx.adt_def(a);
            let p = path(tcx, a);
            let gens: Vec<J> = tcx.generics_of(a).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name.as_str())).collect();
            let deep = a.is_local() || !def.is_struct() || p.contains("core::ops::range") || p.contains("ordered_float") || p.contains("statrs") || p.ends_with("::CsvParseOptions") || p.ends_with("::relevance::Relevance");
            let vs: Vec<J> = def.variants().iter_enumerated().map(|(vi, v)| {
                let fs = if deep { v.fields.iter().map(|f| { let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); A(vec![s(f.name.as_str()), d.ty(ft)]) }).collect() } else { vec![] };
                let disc = if def.is_enum() { I(def.discriminant_for_variant(tcx, vi).val as i128) } else { I(0) };
                O(vec![("name", s(v.name.as_str())), ("fields", A(fs)), ("discr", disc)])
            }).collect();
            d.adts.insert(p, Some(O(vec![("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })), ("generics", A(gens)), ("variants", A(vs)), ("local", B(a.is_local())), ("deep", B(deep))])));
        }
        let j = O(vec![("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())), ("fns", M(fns)), ("adts", M(d.adts.into_iter().map(|(k, v)| (k, v.unwrap_or(Null))).collect()))]);
        let mut o = String::new(); j.w(&mut o);
        std::fs::write(format!("{out}/{}.json", tcx.crate_name(rustc_span::def_id::LOCAL_CRATE)), o).expect("write MIRDUMP_DIR");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    a.remove(0); // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
