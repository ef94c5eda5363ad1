// MIR dumper: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER.  It writes the resolved,
// type-checked program (MIR after drop elaboration, no optimisation; ADT definitions; impl table)
// of the workspace crate as JSON to $XD_DUMP_DIR.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<_> = a.iter().filter_map(|x| x.as_type()).collect();
        J::A(v.into_iter().map(|t| n(self.ty(t))).collect())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let idx = self.ty_out.len();
        self.tys.insert(t, idx);
        self.ty_out.push(J::N);
        let txt = ("s", s(format!("{}", t)));
        let j = match t.kind() {
            ty::Bool => vec![("k", s("bool"))],
            ty::Char => vec![("k", s("char"))],
            ty::Int(i) => vec![("k", s("int")), ("n", s(i.name_str()))],
            ty::Uint(i) => vec![("k", s("uint")), ("n", s(i.name_str()))],
            ty::Float(_) => vec![("k", s("float"))],
            ty::Str => vec![("k", s("str"))],
            ty::Never => vec![("k", s("never"))],
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                vec![("k", s("adt")), ("p", s(self.key(def.did()))), ("a", a)]
            }
            ty::Array(e, len) => {
                let l = len
                    .try_to_target_usize(self.tcx)
                    .map(|x| J::I(x as i128))
                    .unwrap_or(J::N);
                vec![("k", s("array")), ("e", n(self.ty(*e))), ("len", l)]
            }
            ty::Slice(e) => vec![("k", s("slice")), ("e", n(self.ty(*e)))],
            ty::RawPtr(e, _) => vec![("k", s("ptr")), ("e", n(self.ty(*e)))],
            ty::Ref(_, e, m) => vec![
                ("k", s("ref")),
                ("e", n(self.ty(*e))),
                ("m", J::B(m.is_mut())),
            ],
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                vec![("k", s("tuple")), ("a", J::A(v))]
            }
            ty::FnDef(d, a) => {
                let a = self.args(a.skip_binder());
                vec![("k", s("fndef")), ("p", s(self.key((*d).into()))), ("a", a)]
            }
            ty::Closure(d, _) => vec![("k", s("closure")), ("p", s(self.key((*d).into())))],
            ty::Param(p) => vec![("k", s("param")), ("n", s(p.name.to_string()))],
            ty::Dynamic(preds, _) => {
                let p = preds
                    .principal_def_id()
                    .map(|d| s(self.key(d.into())))
                    .unwrap_or(J::N);
                vec![("k", s("dyn")), ("p", p)]
            }
            _ => vec![("k", s("other"))],
        };
        let mut j = j;
        j.push(txt);
        self.ty_out[idx] = J::O(j);
        idx
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, ());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        let full = d.is_local()
            || matches!(
                self.tcx.crate_name(d.krate).as_str(),
                "core" | "alloc" | "quick_xml" | "std" | "log"
            );
        if full {
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    let x = def.discriminant_for_variant(self.tcx, vi);
                    J::I(x.val as i128)
                } else {
                    J::I(0)
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = n(self.ty(fty));
                    fs.push(J::A(vec![s(f.name.to_string()), t, J::B(f.vis.is_public())]));
                }
                vs.push(J::O(vec![
                    ("n", s(v.name.to_string())),
                    ("d", discr),
                    ("f", J::A(fs)),
                ]));
            }
        }
        let gens = self.generics(d);
        let j = J::O(vec![
            ("p", s(self.key(d))),
            ("local", J::B(d.is_local())),
            ("enum", J::B(def.is_enum())),
            ("g", gens),
            ("v", J::A(vs)),
            (
                "span",
                if d.is_local() { self.span(self.tcx.def_span(d)) } else { J::N },
            ),
        ]);
        self.adt_out.push(j);
    }

    fn generics(&mut self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                v.push(s(p.name.to_string()));
            }
        }
        J::A(v)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), n(lo.line)])
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.variants().len() > 0 && !def.is_union() {
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                format!("{}", f.index())
                            }
                        }
                        _ => format!("{}", f.index()),
                    };
                    J::A(vec![s("f"), n(f.index()), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(sym, vi) => J::A(vec![
                    s("d"),
                    n(vi.index()),
                    s(sym.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => s("?"),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.index()), J::A(pr)])
    }

    fn bytes_of(&self, alloc_id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let (o, l) = (off as usize, len as usize);
                if o + l <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(..) | ty::Closure(..) => J::O(vec![("z", J::B(true))]),
                _ => J::O(vec![("z", J::B(true))]),
            },
            ConstValue::Scalar(Scalar::Int(i)) => {
                let signed = matches!(t.kind(), ty::Int(_));
                if signed {
                    J::O(vec![("i", J::I(i.to_int(i.size())))])
                } else {
                    J::O(vec![("i", J::I(i.to_bits(i.size()) as i128))])
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => J::O(vec![("static", s(self.key(d)))]),
                    GlobalAlloc::Function { instance } => {
                        J::O(vec![("fnptr", s(self.key(instance.def_id())))])
                    }
                    GlobalAlloc::Memory(m) => {
                        // &[u8; N] and friends
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, l) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    if let Some(l) = l.try_to_target_usize(tcx) {
                                        if let Some(b) = self.bytes_of(aid, off.bytes(), l) {
                                            return J::O(vec![(
                                                "bytes",
                                                J::A(b.into_iter().map(|x| n(x as usize)).collect()),
                                            )]);
                                        }
                                    }
                                }
                            }
                            if inner.is_scalar() {
                                let sz = m.inner().len() as u64;
                                if sz <= 16 && off.bytes() == 0 {
                                    if let Some(b) = self.bytes_of(aid, 0, sz) {
                                        let mut x: u128 = 0;
                                        for (i, y) in b.iter().enumerate() {
                                            x |= (*y as u128) << (8 * i);
                                        }
                                        return J::O(vec![("refi", J::I(x as i128))]);
                                    }
                                }
                            }
                        }
                        J::O(vec![("mem", s(format!("{:?}", t)))])
                    }
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                            return J::O(vec![("str", s(String::from_utf8_lossy(&b).to_string()))]);
                        }
                    }
                    if let ty::Slice(e) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                                return J::O(vec![(
                                    "bytes",
                                    J::A(b.into_iter().map(|x| n(x as usize)).collect()),
                                )]);
                            }
                        }
                    }
                }
                J::O(vec![("opaque", s("slice"))])
            }
            ConstValue::Indirect { .. } => J::O(vec![("opaque", s("indirect"))]),
        }
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = n(self.ty(t));
        let v = match c.const_ {
            Const::Val(v, t) => self.cval(v, t),
            Const::Ty(_, ct) => match ct.try_to_target_usize(self.tcx) {
                Some(x) => J::O(vec![("i", J::I(x as i128))]),
                None => match ct.kind() {
                    ty::ConstKind::Value(v) => {
                        let cv = self.tcx.valtree_to_const_val(v);
                        self.cval(cv, v.ty)
                    }
                    _ => J::O(vec![("opaque", s(format!("{}", ct)))]),
                },
            },
            Const::Unevaluated(u, t) => {
                let mut o = vec![("uneval", s(self.key(u.def)))];
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.index())));
                } else {
                    let simple = t.is_scalar()
                        || matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    if simple {
                        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                            let mut j = match self.cval(v, t) {
                                J::O(v) => v,
                                _ => vec![],
                            };
                            j.push(("from", s(self.key(u.def))));
                            return J::O(vec![("t", ti), ("v", J::O(j))]);
                        }
                    }
                }
                J::O(o)
            }
        };
        let mut o = vec![("t", ti), ("v", v)];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(env, (*d).into(), a.skip_binder())));
        }
        J::O(o)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.key(d))), ("local", J::B(d.is_local()))];
        o.push(("kr", s(tcx.crate_name(d.krate).to_string())));
        o.push(("a", self.args(a)));
        o.push(("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.key(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("ist", s(format!("{}", st))));
            if let ty::Adt(ad, _) = st.kind() {
                o.push(("iadt", s(self.key(ad.did()))));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("itr", s(self.key(tr.def_id))));
            }
        }
        let a = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("r", s(self.key(rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                let ra = self.args(inst.args);
                o.push(("ra", ra));
            }
            let k = match inst.def {
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Item(..) => "item",
                ty::InstanceKind::Intrinsic(..) => "intrinsic",
                _ => "other",
            };
            o.push(("ik", s(k)));
        }
        J::O(o)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(env, c)]),
            other => J::A(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(env, b, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::A(vec![s("repeat"), self.operand(env, b, o), l])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(b, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let from = o.ty(&b.local_decls, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(ks),
                    self.operand(env, b, o),
                    n(self.ty(*t)),
                    n(self.ty(from)),
                ])
            }
            Rvalue::BinaryOp(op, x) => J::A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(env, b, &x.0),
                self.operand(env, b, &x.1),
            ]),
            Rvalue::UnaryOp(op, x) => {
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(env, b, x)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                J::A(vec![s("discr"), self.place(b, p), n(self.ty(t))])
            }
            Rvalue::Aggregate(k, fs) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names =
                            v.fields.iter().map(|f| s(f.name.to_string())).collect::<Vec<_>>();
                        J::A(vec![
                            s("adt"),
                            s(self.key(*d)),
                            n(vi.index()),
                            s(v.name.to_string()),
                            J::A(names),
                            self.args(a),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    other => J::A(vec![s("other"), s(format!("{:?}", other))]),
                };
                let fs = fs.iter().map(|f| self.operand(env, b, f)).collect();
                J::A(vec![s("agg"), kj, J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(b, p)])])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, d: DefId, b: &Body<'tcx>, promoted: bool) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let nm = names.get(&i.index()).map(|x| s(x.clone())).unwrap_or(J::N);
            ls.push(J::A(vec![n(self.ty(l.ty)), nm]));
        }
        let mut bbs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push(J::N);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(b, &a.0);
                        let r = self.rvalue(env, b, &a.1);
                        J::A(vec![s("="), p, r, self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                        s("sd"),
                        self.place(b, place),
                        n(variant_index.index()),
                    ]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.index())]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.index())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let v = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::I(v as i128), n(t.index())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(env, b, discr),
                        J::A(v),
                        n(targets.otherwise().index()),
                        n(self.ty(dt)),
                        sp,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    J::A(vec![
                        s("drop"),
                        self.place(b, place),
                        n(target.index()),
                        n(self.ty(t)),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, b, func);
                    let a = args.iter().map(|x| self.operand(env, b, &x.node)).collect();
                    let at = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, tcx);
                            n(self.ty(t))
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(b, destination),
                        target.map(|t| n(t.index())).unwrap_or(J::N),
                        sp,
                        n(self.ty(dt)),
                        J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(env, b, cond),
                        J::B(*expected),
                        s(m),
                        n(target.index()),
                        sp,
                    ])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("unwind")])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.index())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.index())])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
        }
        let proms = if promoted {
            vec![]
        } else {
            tcx.promoted_mir(d).iter().map(|p| self.body(d, p, true)).collect()
        };
        let kind = format!("{:?}", tcx.def_kind(d));
        let vis = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let v = tcx.visibility(d).is_public();
            let reach = d
                .as_local()
                .map(|l| tcx.effective_visibilities(()).is_reachable(l))
                .unwrap_or(false);
            J::A(vec![J::B(v), J::B(reach)])
        } else {
            J::N
        };
        let mut o = vec![
            ("key", s(self.key(d))),
            ("kind", s(kind)),
            ("args", n(b.arg_count)),
            ("locals", J::A(ls)),
            ("bb", J::A(bbs)),
            ("span", self.span(tcx.def_span(d))),
            ("prom", J::A(proms)),
            ("vis", vis),
        ];
        if !promoted {
            o.push(("g", self.generics(d)));
            let nm = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
            o.push(("n", s(nm)));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("tr", s(self.key(tr))));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("ist", n(self.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("itr", s(self.key(tr.def_id))));
                }
            }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(format!("{:?}", tcx.fn_sig(d)).contains("unsafe"))));
            }
        }
        J::O(o)
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let dir = match std::env::var("XD_DUMP_DIR") {
        Ok(d) => d,
        Err(_) => return,
    };
    let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![] };
    let mut bodies = vec![];
    for l in tcx.mir_keys(()).iter() {
        let l: LocalDefId = *l;
        let d = l.to_def_id();
        let k = tcx.def_kind(d);
        let b = match k {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
            DefKind::Const { .. }
            | DefKind::Static { .. }
            | DefKind::AssocConst { .. }
            | DefKind::AnonConst => tcx.mir_for_ctfe(d),
            _ => continue,
        };
        bodies.push(cx.body(d, b, false));
    }
    // impl table
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_norm_wip());
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_fn() {
                        ms.push(J::A(vec![s(it.name().to_string()), s(cx.key(it.def_id))]));
                    }
                }
                let sti = cx.ty(st);
                let trj = match tr {
                    Some(t) => s(cx.key(t.def_id)),
                    None => J::N,
                };
                let tra = match tr {
                    Some(t) => cx.args(t.args),
                    None => J::N,
                };
                impls.push(J::O(vec![
                    ("st", n(sti)),
                    ("tr", trj),
                    ("tra", tra),
                    ("m", J::A(ms)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Trait { .. } => {
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_fn() {
                        let sig = tcx.fn_sig(it.def_id).instantiate_identity().skip_norm_wip().skip_binder();
                        let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t))).collect();
                        let out = n(cx.ty(sig.output()));
                        ms.push(J::A(vec![
                            s(it.name().to_string()),
                            s(cx.key(it.def_id)),
                            J::B(it.defaultness(tcx).has_value()),
                            J::A(ins),
                            out,
                        ]));
                    }
                }
                let vis = tcx.visibility(d).is_public();
                let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
                traits.push(J::O(vec![("p", s(cx.key(d))), ("m", J::A(ms)), ("pub", J::B(vis)), ("reach", J::B(reach))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.ty(t);
            }
            _ => {}
        }
    }
    // statics (also inside functions) with mutability
    let mut statics = vec![];
    for l in tcx.mir_keys(()).iter() {
        let d = l.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            statics.push(J::A(vec![s(cx.key(d)), n(ti), J::B(mutability.is_mut()), cx.span(tcx.def_span(d))]));
        }
    }
    let out = J::O(vec![
        ("crate", s(cname.clone())),
        ("bodies", J::A(bodies)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("adts", J::A(std::mem::take(&mut cx.adt_out))),
        ("types", J::A(std::mem::take(&mut cx.ty_out))),
    ]);
    let mut o = String::new();
    out.w(&mut o);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, cname), o).expect("write dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == "xml_dom" {
            rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx));
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && !args[1].starts_with('-') {
        args.remove(0);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
