//! mirdump: a rustc driver which writes the type-checked program (MIR of every body, with
//! resolved callees, plus ADT / impl / static tables) as JSON.  It changes nothing in the build:
//! it is injected with RUSTC_WORKSPACE_WRAPPER and acts only on the crate named in MIRDUMP_CRATE.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn span(&self, sp: Span) -> J {
        // report the outermost expansion site (macros such as trace! / try!)
        let macro_ = if sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            match d.kind {
                rustc_span::ExpnKind::Macro(_, n) => s(n.to_string()),
                rustc_span::ExpnKind::Desugaring(k) => s(format!("desugar:{:?}", k)),
                _ => J::N,
            }
        } else { J::N };
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), J::I(lo.line as i128), macro_])
    }
    fn tys(&self, t: Ty<'tcx>) -> J {
        let k = |k: &str, r: Vec<J>| { let mut v = vec![s(k)]; v.extend(r); J::A(v) };
        match t.kind() {
            ty::Bool => k("bool", vec![]),
            ty::Char => k("char", vec![]),
            ty::Str => k("str", vec![]),
            ty::Never => k("never", vec![]),
            ty::Int(i) => k("int", vec![s(i.name_str())]),
            ty::Uint(i) => k("int", vec![s(i.name_str())]),
            ty::Adt(d, a) => k("adt", vec![s(self.path(d.did())), J::A(a.types().map(|t| self.tys(t)).collect())]),
            ty::Ref(_, t, m) => k("ref", vec![J::B(m.is_mut()), self.tys(*t)]),
            ty::RawPtr(t, m) => k("ptr", vec![J::B(m.is_mut()), self.tys(*t)]),
            ty::Slice(t) => k("slice", vec![self.tys(*t)]),
            ty::Array(t, _) => k("array", vec![self.tys(*t)]),
            ty::Tuple(l) => k("tuple", vec![J::A(l.iter().map(|t| self.tys(t)).collect())]),
            ty::Param(p) => k("param", vec![s(p.name.as_str())]),
            ty::Closure(d, _) => k("closure", vec![s(self.id(*d))]),
            ty::FnDef(d, _) => k("fndef", vec![s(self.path(*d))]),
            ty::Dynamic(p, ..) => k("dyn", vec![match p.principal_def_id() { Some(d) => s(self.path(d)), None => J::N }]),
            ty::Alias(..) => {
                let txt = format!("{}", t);
                match self.proj(t) { Some(j) => j, None => k("alias", vec![s(txt)]) }
            }
            _ => k("other", vec![s(format!("{}", t))]),
        }
    }
    fn proj(&self, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if let ty::Alias(.., a) = t.kind() {
            let d: DefId = match a.kind { ty::AliasTyKind::Projection { def_id } => def_id.into(), _ => return None };
            if tcx.def_kind(d) == DefKind::AssocTy {
                let tr = tcx.opt_parent(d).filter(|p| tcx.def_kind(*p) == DefKind::Trait)?;
                return Some(J::A(vec![s("proj"), s(self.path(tr)), s(tcx.item_name(d).to_string()),
                    J::A(a.args.types().map(|t| self.tys(t)).collect())]));
            }
        }
        None
    }
    fn place(&self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![J::I(p.local.as_usize() as i128)];
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => {
                    let k = match pty.ty.kind() {
                        ty::Ref(_, _, m) => if m.is_mut() { "mut" } else { "ref" },
                        ty::RawPtr(..) => "raw",
                        ty::Adt(..) => "box",
                        _ => "other",
                    };
                    J::A(vec![s("d"), s(k)])
                }
                ProjectionElem::Field(f, _) => {
                    let n = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(vi).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(n)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pty.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    J::A(vec![s("v"), J::I(v.as_usize() as i128), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                _ => J::A(vec![s("x")]),
            });
            pty = pty.projection_ty(tcx, e);
        }
        J::A(out)
    }
    fn fnref(&self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let te = ty::TypingEnv::non_body_analysis(tcx, owner);
        let mut o = vec![
            ("path", s(self.path(d))),
            ("id", s(self.id(d))),
            ("args", J::A(args.types().map(|t| self.tys(t)).collect())),
            ("local", J::B(d.is_local())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("self", self.tys(args.type_at(0))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let nargs = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, d, nargs) {
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("rkind", s(kind)));
                if kind == "item" {
                    o.push(("res", s(self.id(i.def_id()))));
                    o.push(("respath", s(self.path(i.def_id()))));
                    o.push(("rargs", J::A(i.args.types().map(|t| self.tys(t)).collect())));
                }
            }
        }
        J::O(o)
    }
    fn cst(&self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let te = ty::TypingEnv::non_body_analysis(tcx, owner);
        let mut o = vec![("k", s("const")), ("ty", self.tys(t))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.fnref(owner, *d, a.no_bound_vars().unwrap())));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
            o.push(("named", s(self.path(u.def))));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            o.push(("static", s(self.path(d))));
            return J::O(o);
        }
        if let Ok(v) = c.const_.eval(tcx, te, c.span) {
            match t.kind() {
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).into_owned())));
                    }
                }
                ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) => {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                            o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
                ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                    if let Some(i) = v.try_to_scalar_int() {
                        let sz = i.size();
                        let n = if matches!(t.kind(), ty::Int(_)) { i.to_int(sz) } else { i.to_uint(sz) as i128 };
                        o.push(("int", J::I(n)));
                    }
                }
                _ => {
                    if let ConstValue::ZeroSized = v { o.push(("zst", J::B(true))); }
                }
            }
        }
        J::O(o)
    }
    fn op(&self, owner: DefId, b: &Body<'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(b, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(b, p))]),
            Operand::Constant(c) => self.cst(owner, c),
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }
    fn rv(&self, owner: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.op(owner, b, o))]),
            Rvalue::Repeat(o, _) => J::O(vec![("k", s("repeat")), ("o", self.op(owner, b, o))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("b", s(match bk { BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "mut" , #[allow(unreachable_patterns)] _ => "other"})),
                ("p", self.place(b, p)),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![("k", s("reborrow")), ("b", s(if m.is_mut() { "mut" } else { "shared" })), ("p", self.place(b, p))]),
            Rvalue::RawPtr(k, p) => J::O(vec![("k", s("rawptr")), ("b", s(format!("{:?}", k))), ("p", self.place(b, p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("k", s("cast")), ("c", s(format!("{:?}", k))), ("o", self.op(owner, b, o)),
                ("from", self.tys(o.ty(&b.local_decls, tcx))), ("ty", self.tys(*t)),
            ]),
            Rvalue::BinaryOp(op, x) => J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", op))), ("l", self.op(owner, b, &x.0)), ("r", self.op(owner, b, &x.1)), ("ty", self.tys(x.0.ty(&b.local_decls, tcx)))]),
            Rvalue::UnaryOp(op, x) => J::O(vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("o", self.op(owner, b, x))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let mut vars = vec![];
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        for (vi, dv) in d.discriminants(tcx) {
                            vars.push(J::A(vec![J::I(dv.val as i128), s(d.variant(vi).name.to_string())]));
                        }
                    }
                }
                J::O(vec![("k", s("discr")), ("p", self.place(b, p)), ("vars", J::A(vars)), ("ty", self.tys(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.op(owner, b, o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("agg")), ("a", s("array")), ("ops", ops)]),
                    AggregateKind::Tuple => J::O(vec![("k", s("agg")), ("a", s("tuple")), ("ops", ops)]),
                    AggregateKind::Adt(d, v, ..) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        J::O(vec![
                            ("k", s("agg")), ("a", s("adt")), ("adt", s(self.path(*d))),
                            ("variant", if def.is_enum() { s(var.name.to_string()) } else { J::N }),
                            ("fields", J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect())),
                            ("ops", ops),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("k", s("agg")), ("a", s("closure")), ("id", s(self.id(*d))), ("ops", ops)]),
                    _ => J::O(vec![("k", s("agg")), ("a", s("other")), ("ops", ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(b, p))]))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("path", s(self.path(*d)))]),
            _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{:?}", r)))]),
        }
    }
    fn body(&self, owner: DefId, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let bb = |x: BasicBlock| J::I(x.as_usize() as i128);
        let mut names: Vec<J> = (0..b.local_decls.len()).map(|_| J::N).collect();
        let mut upnames = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = s(v.name.as_str()); }
                else if p.local.as_usize() == 1 { upnames.push(J::A(vec![s(v.name.as_str()), self.place(b, &p)])); }
            }
        }
        let locals = b.local_decls.iter().map(|d| self.tys(d.ty)).collect();
        let mut blocks = vec![];
        for data in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &data.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = a.1 { continue; }
                        st.push(J::O(vec![("k", s("assign")), ("p", self.place(b, &a.0)), ("r", self.rv(owner, b, &a.1)), ("sp", self.span(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { .. } => st.push(J::O(vec![("k", s("setdiscr"))])),
                    StatementKind::Intrinsic(_) => st.push(J::O(vec![("k", s("intrinsic"))])),
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bb(*target))],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bb(*real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bb(*real_target))],
                TerminatorKind::Drop { place, target, .. } => vec![("k", s("drop")), ("p", self.place(b, place)), ("t", bb(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("k", s("switch")), ("o", self.op(owner, b, discr)), ("ty", self.tys(discr.ty(&b.local_decls, tcx))),
                    ("ts", J::A(targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), bb(t)])).collect())),
                    ("else", bb(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", s("unwind"))],
                TerminatorKind::Call { func, args, destination, target, .. } => vec![
                    ("k", s("call")), ("f", self.op(owner, b, func)), ("fty", self.tys(func.ty(&b.local_decls, tcx))),
                    ("args", J::A(args.iter().map(|a| self.op(owner, b, &a.node)).collect())),
                    ("dest", self.place(b, destination)),
                    ("dty", self.tys(destination.ty(&b.local_decls, tcx).ty)),
                    ("t", match target { Some(t) => bb(*t), None => J::N }),
                ],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(owner, b, len), self.op(owner, b, index)]),
                        AssertKind::Overflow(o, l, r) => (format!("overflow:{:?}", o), vec![self.op(owner, b, l), self.op(owner, b, r)]),
                        m => { let d = format!("{:?}", m); (d.chars().take(40).collect(), vec![]) }
                    };
                    vec![("k", s("assert")), ("o", self.op(owner, b, cond)), ("exp", J::B(*expected)), ("msg", s(mk)), ("ops", J::A(ops)), ("t", bb(*target))]
                }
                _ => vec![("k", s("other"))],
            };
            let mut term = term;
            term.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(term)), ("cleanup", J::B(data.is_cleanup))]));
        }
        vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("upnames", J::A(upnames)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut bodies = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // MIR of the enclosing bodies before anything steals it
        for &d in &owners {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let (body, promoted) = tcx.mir_promoted(d);
            let body = body.borrow();
            let promoted = promoted.borrow();
            let mut o = vec![
                ("id", s(cx.id(did))),
                ("path", s(cx.path(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(did))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(!tcx.fn_sig(did).skip_binder().safety().is_safe())));
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
            }
            {
                let root = tcx.typeck_root_def_id(did);
                let mut names = vec![];
                let mut chain = vec![];
                let mut g = Some(tcx.generics_of(root));
                while let Some(x) = g { chain.push(x); g = x.parent.map(|p| tcx.generics_of(p)); }
                for x in chain.iter().rev() {
                    for p in &x.own_params {
                        if let ty::GenericParamDefKind::Type { .. } = p.kind { names.push(s(p.name.as_str())); }
                    }
                }
                o.push(("generics", J::A(names)));
            }
            let assoc = if kind == DefKind::Closure { None } else { tcx.opt_associated_item(did) };
            if let Some(_) = assoc {
                o.push(("name", s(tcx.item_name(did).to_string())));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    o.push(("impl", s(cx.id(im))));
                    o.push(("implself", cx.tys(tcx.type_of(im).instantiate_identity().skip_normalization())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("impltrait", s(cx.path(tr.skip_binder().def_id))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    o.push(("traitdefault", s(cx.path(tr))));
                }
            } else if kind == DefKind::Fn {
                o.push(("name", s(tcx.item_name(did).to_string())));
            }
            if kind == DefKind::Closure {
                o.push(("parent", s(cx.id(tcx.typeck_root_def_id(did)))));
            }
            o.extend(cx.body(did, &body));
            o.push(("promoted", J::A(promoted.iter().map(|p| J::O(cx.body(did, p))).collect())));
            bodies.push(J::O(o));
        }
        // ADTs, impls, statics
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut traits = vec![];
        let mut unsafes = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in a.variants() {
                        vs.push(J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("fields", J::A(v.fields.iter().map(|f| J::A(vec![
                                s(f.name.to_string()),
                                cx.tys(tcx.type_of(f.did).instantiate_identity().skip_normalization()),
                                J::B(tcx.visibility(f.did).is_public()),
                            ])).collect())),
                        ]));
                    }
                    adts.push(J::O(vec![("path", s(cx.path(did))), ("enum", J::B(a.is_enum())), ("variants", J::A(vs)), ("span", cx.span(tcx.def_span(did)))]));
                }
                DefKind::Impl { .. } => {
                    let tr = tcx.impl_opt_trait_ref(did);
                    let methods = tcx.associated_items(did).in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| J::A(vec![s(i.name().to_string()), s(cx.id(i.def_id))])).collect();
                    let atys = tcx.associated_items(did).in_definition_order()
                        .filter(|i| i.is_type())
                        .map(|i| J::A(vec![s(i.name().to_string()), cx.tys(tcx.type_of(i.def_id).instantiate_identity().skip_normalization())])).collect();
                    let targs = match tr { Some(t) => t.skip_binder().args.types().skip(1).map(|t| cx.tys(t)).collect(), None => vec![] };
                    let unsafe_ = tr.is_some() && !tcx.impl_trait_header(did).safety.is_safe();
                    impls.push(J::O(vec![
                        ("id", s(cx.id(did))),
                        ("trait", match tr { Some(t) => s(cx.path(t.skip_binder().def_id)), None => J::N }),
                        ("self", cx.tys(tcx.type_of(did).instantiate_identity().skip_normalization())),
                        ("methods", J::A(methods)),
                        ("types", J::A(atys)),
                        ("targs", J::A(targs)),
                        ("unsafe", J::B(unsafe_)),
                        ("span", cx.span(tcx.def_span(did))),
                        ("derived", J::B(tcx.is_automatically_derived(did))),
                    ]));
                }
                DefKind::Trait => {
                    let methods = tcx.associated_items(did).in_definition_order()
                        .map(|i| J::A(vec![s(i.name().to_string()), s(cx.id(i.def_id)), J::B(i.defaultness(tcx).has_value())])).collect();
                    traits.push(J::O(vec![("path", s(cx.path(did))), ("methods", J::A(methods))]));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![("path", s(cx.path(did))), ("mut", J::B(mutability.is_mut())), ("ty", cx.tys(tcx.type_of(did).instantiate_identity().skip_normalization())), ("span", cx.span(tcx.def_span(did)))]));
                }
                _ => {}
            }
        }
        // unsafe blocks
        struct V<'a, 'tcx> { cx: &'a Cx<'tcx>, out: &'a mut Vec<J> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.cx.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    let j = self.cx.span(b.span);
                    self.out.push(j);
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        {
            let mut v = V { cx: &cx, out: &mut unsafes };
            tcx.hir_walk_toplevel_module(&mut v);
        }
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("statics", J::A(statics)),
            ("unsafe_blocks", J::A(unsafes)),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("mirdump: cannot write");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").ok();
    let out = std::env::var("MIRDUMP_OUT").ok();
    let code = rustc_driver::catch_with_exit_code(|| {
        if krate.is_some() && krate == want && out.is_some() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.clone().unwrap() })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
