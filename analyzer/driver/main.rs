// MIR fact extractor: a rustc driver run as RUSTC_WORKSPACE_WRAPPER.
// For every workspace crate it writes <OCA_FACTS_DIR>/<crate>.json with the type-checked program:
// ADTs, trait impls, and the MIR of every function, closure and constant, with callees resolved.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    seen_adts: HashMap<DefId, ()>,
    pending_adts: Vec<DefId>,
}

fn hash(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{:?}", tcx.def_path_hash(d).0)
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
/// path of a type; types of the same name in different blocks of a function are told apart
fn apath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.def_key(d).disambiguated_data.disambiguator;
    if k == 0 { path(tcx, d) } else { format!("{}#{}", path(tcx, d), k) }
}
fn tystr(ty: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", ty))))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> J {
        if let Some(i) = self.tyidx.get(&ty) {
            return J::I(*i as i128);
        }
        let i = self.types.len();
        self.tyidx.insert(ty, i);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let mut sty = tystr(ty);
        for a in ty.walk() {
            if let Some(ty::Adt(d, _)) = a.as_type().map(|t| t.kind()) {
                let k = tcx.def_key(d.did()).disambiguated_data.disambiguator;
                if k != 0 {
                    sty.push_str(&format!("#{}", k));
                }
            }
        }
        let st = s(sty);
        let j = match ty.kind() {
            ty::Adt(def, args) => {
                let did = def.did();
                if !self.seen_adts.contains_key(&did) {
                    self.seen_adts.insert(did, ());
                    self.pending_adts.push(did);
                }
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("adt")), ("s", st), ("p", s(apath(tcx, did))), ("a", J::A(a))])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ref")), ("s", st), ("t", t), ("m", J::B(m.is_mut()))])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ptr")), ("s", st), ("t", t), ("m", J::B(m.is_mut()))])
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("slice")), ("s", st), ("t", t)])
            }
            ty::Array(t, _) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("array")), ("s", st), ("t", t)])
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("s", st), ("a", J::A(a))])
            }
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("s", st), ("h", s(hash(tcx, *d)))]),
            ty::FnDef(d, args) => {
                let (p, h) = (path(tcx, *d), hash(tcx, *d));
                let a: Vec<J> = args.skip_binder().types().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("fndef")), ("s", st), ("p", s(p)), ("h", s(h)), ("a", J::A(a))])
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| path(tcx, d));
                J::O(vec![("k", s("dyn")), ("s", st), ("p", p.map(s).unwrap_or(J::Null))])
            }
            ty::Param(_) => J::O(vec![("k", s("param")), ("s", st)]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", st)]),
            ty::Str => J::O(vec![("k", s("str")), ("s", st)]),
            ty::Bool => J::O(vec![("k", s("bool")), ("s", st)]),
            ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                J::O(vec![("k", s("prim")), ("s", st)])
            }
            _ => J::O(vec![("k", s("other")), ("s", st)]),
        };
        self.types[i] = j;
        J::I(i as i128)
    }

    fn flush_adts(&mut self) {
        while let Some(did) = self.pending_adts.pop() {
            let tcx = self.tcx;
            let def = tcx.adt_def(did);
            let p = apath(tcx, did);
            // only crates of the workspace and a few std enums need their layout
            let krate = tcx.crate_name(did.krate).to_string();
            let std = matches!(krate.as_str(), "core" | "alloc" | "std");
            let mut vs = vec![];
            if !std || def.is_enum() {
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    let fs: Vec<J> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            J::O(vec![
                                ("n", s(f.name.to_string())),
                                ("t", t),
                                ("pub", J::B(f.vis.is_public())),
                            ])
                        })
                        .collect();
                    vs.push(J::O(vec![
                        ("n", s(v.name.to_string())),
                        ("d", J::I(discr)),
                        ("f", J::A(fs)),
                    ]));
                }
            }
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let sp = self.span(tcx.def_span(did));
            let pars: Vec<J> = tcx
                .generics_of(did)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| s(p.name.to_string()))
                .collect();
            self.adts.push(J::O(vec![
                ("p", s(p)),
                ("kind", s(kind)),
                ("local", J::B(did.is_local())),
                ("pars", J::A(pars)),
                ("v", J::A(vs)),
                ("sp", sp),
            ]));
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let bt = self.ty(pt.ty);
                    J::A(vec![
                        s("."),
                        J::I(f.as_usize() as i128),
                        bt,
                        pt.variant_index.map(|v| J::I(v.as_usize() as i128)).unwrap_or(J::Null),
                    ])
                }
                ProjectionElem::Index(l) => J::A(vec![s("["), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let bt = self.ty(pt.ty);
                    J::A(vec![s("v"), J::I(v.as_usize() as i128), bt])
                }
                _ => J::A(vec![s("?")]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn callee(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(path(tcx, d))), ("h", s(hash(tcx, d)))];
        let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("a", J::A(a)));
        o.push(("local", J::B(d.is_local())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(path(tcx, tr))));
            o.push(("m", s(tcx.item_name(d).to_string())));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("rk", s(k)));
                o.push(("rp", s(path(tcx, rd))));
                o.push(("rh", s(hash(tcx, rd))));
                let ra: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
                o.push(("ra", J::A(ra)));
            }
        }
        J::O(o)
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let n = a.len();
                let off = off as usize;
                let end = match len {
                    Some(l) => off + l as usize,
                    None => n,
                };
                if end > n {
                    return None;
                }
                if !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(env, *d, args.skip_binder());
            return J::O(vec![("fn", f)]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![
                    ("prom", J::I(p.as_usize() as i128)),
                    ("h", s(hash(tcx, u.def))),
                    ("t", tj),
                ]);
            }
        }
        let named = match c.const_ {
            Const::Unevaluated(u, _) => Some((hash(tcx, u.def), path(tcx, u.def))),
            _ => None,
        };
        let mut o = vec![("t", tj)];
        if let Some((h, p)) = named {
            o.push(("h", s(h)));
            o.push(("p", s(p)));
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(mir::interpret::Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let v: i128 = if t.is_signed() { i.to_int(i.size()) } else { bits as i128 };
                o.push(("v", J::I(v)));
            }
            Ok(ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        o.push(("static", s(path(tcx, d))));
                        o.push(("sh", s(hash(tcx, d))));
                    }
                    _ => {
                        if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), None) {
                            o.push(("b", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
            }
            Ok(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
                    match String::from_utf8(b.clone()) {
                        Ok(x) if t.peel_refs().is_str() => o.push(("str", s(x))),
                        _ => o.push(("b", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))),
                    }
                }
            }
            Ok(ConstValue::Indirect { .. }) => o.push(("ind", J::B(true))),
            Err(_) => {}
        }
        J::O(o)
    }

    fn operand(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(env, c)]),
            _ => J::A(vec![s("?")]),
        }
    }

    fn rvalue(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(env, body, o)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.operand(env, body, o)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                self.place(body, p),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("reborrow"), self.place(body, p), J::B(m.is_mut())])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(body, p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(env, body, o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.operand(env, body, &ops.0),
                self.operand(env, body, &ops.1),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(env, body, o)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), t])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => J::A(vec![
                        s("adt"),
                        s(apath(self.tcx, *d)),
                        J::I(v.as_usize() as i128),
                    ]),
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![s("closure"), s(hash(self.tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), k, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])])
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", rv))]),
        }
    }

    fn body(&mut self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(body, p)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, &a.0);
                        let r = self.rvalue(env, body, &a.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("sd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::I(target.as_usize() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(env, body, discr);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), J::I(b.as_usize() as i128)]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        d,
                        J::A(ts),
                        J::I(targets.otherwise().as_usize() as i128),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    J::A(vec![s("drop"), p, J::I(target.as_usize() as i128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                    let d = self.place(body, destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(env, body, cond);
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        J::I(target.as_usize() as i128),
                        s(m),
                        sp,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                _ => J::A(vec![s("end")]),
            };
            blocks.push(J::A(vec![J::A(st), tj, J::B(bb.is_cleanup)]));
        }
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("sp", self.span(body.span)),
        ])
    }
}

fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        adts: vec![],
        seen_adts: HashMap::new(),
        pending_adts: vec![],
    };
    let mut fns = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let (b, isfn) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), true),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                (tcx.mir_for_ctfe(d), false)
            }
            _ => continue,
        };
        let bj = cx.body(env, b);
        let prom: Vec<J> = tcx.promoted_mir(d).iter().map(|p| cx.body(env, p)).collect();
        let mut o = vec![
            ("h", s(hash(tcx, d))),
            ("p", s(path(tcx, d))),
            ("kind", s(format!("{:?}", kind))),
            ("fn", J::B(isfn)),
            ("parent", s(path(tcx, tcx.parent(d)))),
            ("body", bj),
            ("prom", J::A(prom)),
        ];
        o.push(("pub", J::B(tcx.visibility(d).is_public())));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let names: Vec<J> = ty::GenericArgs::identity_for_item(tcx, d)
                .types()
                .map(|t| s(tystr(t)))
                .collect();
            if !names.is_empty() {
                o.push(("gen", J::A(names)));
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let tj = cx.ty(t);
            o.push(("self", tj));
            o.push(("name", s(tcx.item_name(d).to_string())));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                let ta: Vec<J> = tr.args.types().skip(1).map(|t| cx.ty(t)).collect();
                o.push(("targs", J::A(ta)));
            }
            let auto = tcx.is_automatically_derived(imp);
            o.push(("derived", J::B(auto)));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait_default", s(path(tcx, tr))));
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        fns.push(J::O(o));
    }
    // make sure every local ADT is present
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
            cx.ty(t);
        }
    }
    cx.flush_adts();
    let out = J::O(vec![
        ("crate", s(krate.clone())),
        ("types", J::A(cx.types)),
        ("adts", J::A(cx.adts)),
        ("fns", J::A(fns)),
    ]);
    let mut st = String::new();
    out.w(&mut st);
    let tmp = format!("{}/{}.tmp{}", dir, krate, std::process::id());
    std::fs::write(&tmp, st).unwrap();
    std::fs::rename(&tmp, format!("{}/{}.json", dir, krate)).unwrap();
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("OCA_FACTS_DIR") {
            let is_lib = tcx.crate_types().iter().any(|t| {
                let t = format!("{:?}", t);
                t.contains("lib") || t.contains("Lib")
            });
            let pm = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("ProcMacro"));
            if is_lib && !pm {
                dump(tcx, &dir);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|x| x == "rustc").unwrap_or(false)
    {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
