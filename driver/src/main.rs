//! rustc driver: exports the type-checked program (MIR of every body, impl/trait/ADT tables,
//! resolved callees) of the crate being checked as JSON.  It is injected with
//! RUSTC_WORKSPACE_WRAPPER under `cargo check`, so it sees exactly what the compiler sees.
#![feature(rustc_private)]
#![allow(unused_imports)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArg, GenericArgKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::BTreeMap;
use std::fmt::Write as _;

/// Minimal JSON value
enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) } }
macro_rules! arr { ($($v:expr),* $(,)?) => { J::A(vec![$($v),*]) } }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::U(i) => write!(o, "{i}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    /// unique, line-independent key of a local definition
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }
    /// {crate, recv (last segment of self type / trait), name, key, local}
    fn defref(&self, d: DefId) -> Vec<(String, J)> {
        let tcx = self.tcx;
        let mut recv = J::Null;
        let mut is_trait = false;
        if let Some(parent) = tcx.opt_parent(d) {
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    recv = s(tcx.item_name(parent));
                    is_trait = true;
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    recv = match st.kind() {
                        ty::Adt(a, _) => s(tcx.item_name(a.did())),
                        _ => s(st),
                    };
                }
                _ => {}
            }
        }
        let name = match tcx.opt_item_name(d) {
            Some(n) => n.to_string(),
            None => "{anon}".into(),
        };
        vec![
            ("crate".into(), s(tcx.crate_name(d.krate))),
            ("recv".into(), recv),
            ("trait".into(), J::B(is_trait)),
            ("name".into(), s(name)),
            ("key".into(), s(self.key(d))),
            ("local".into(), J::B(d.is_local())),
        ]
    }
    fn args(&self, a: &[GenericArg<'tcx>]) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    GenericArgKind::Type(t) => Some(self.ty(t)),
                    GenericArgKind::Const(c) => Some(self.tyconst(c)),
                    _ => None,
                })
                .collect(),
        )
    }
    fn tyconst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => obj! {"k"=>s("constparam"), "name"=>s(p.name)},
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(l) => obj! {"k"=>s("constval"), "v"=>J::U(l.to_bits_unchecked())},
                None => obj! {"k"=>s("constother"), "dbg"=>s(format!("{c:?}"))},
            },
            _ => obj! {"k"=>s("constother"), "dbg"=>s(format!("{c:?}"))},
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                obj! {"k"=>s("prim"), "name"=>s(t)}
            }
            ty::Adt(a, args) => {
                obj! {"k"=>s("adt"), "name"=>s(self.tcx.item_name(a.did())), "crate"=>s(self.tcx.crate_name(a.did().krate)), "key"=>s(self.key(a.did())), "args"=>self.args(args)}
            }
            ty::Param(p) => obj! {"k"=>s("param"), "name"=>s(p.name)},
            ty::Ref(_, t, m) => obj! {"k"=>s("ref"), "mut"=>J::B(m.is_mut()), "t"=>self.ty(*t)},
            ty::RawPtr(t, m) => obj! {"k"=>s("ptr"), "mut"=>J::B(m.is_mut()), "t"=>self.ty(*t)},
            ty::Tuple(ts) => obj! {"k"=>s("tuple"), "ts"=>J::A(ts.iter().map(|t| self.ty(t)).collect())},
            ty::Array(t, n) => obj! {"k"=>s("array"), "t"=>self.ty(*t), "n"=>self.tyconst(*n)},
            ty::Slice(t) => obj! {"k"=>s("slice"), "t"=>self.ty(*t)},
            ty::Closure(d, args) => obj! {"k"=>s("closure"), "key"=>s(self.key(*d)), "args"=>self.args(args.as_closure().parent_args())},
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let mut v = vec![("k".to_string(), s("fndef"))];
                v.push(("unsafe".into(), J::B(self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe())));
                v.extend(self.defref(*d));
                v.push(("args".into(), self.args(args)));
                J::O(v)
            }
            ty::FnPtr(..) => obj! {"k"=>s("fnptr"), "dbg"=>s(t)},
            ty::Dynamic(preds, ..) => {
                let mut names = vec![];
                for p in preds.iter() {
                    if let ty::ExistentialPredicate::Trait(tr) = p.skip_binder() {
                        names.push(obj! {"trait"=>s(self.key(tr.def_id)), "name"=>s(self.tcx.item_name(tr.def_id)), "args"=>self.args(tr.args)});
                    }
                }
                obj! {"k"=>s("dyn"), "traits"=>J::A(names)}
            }
            ty::Alias(..) => self.alias(t),
            _ => obj! {"k"=>s("other"), "dbg"=>s(t)},
        }
    }
    fn alias(&self, t: Ty<'tcx>) -> J {
        let ty::Alias(_, al) = t.kind() else { unreachable!() };
        let d: Option<DefId> = match al.kind {
            ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
            ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()),
            ty::AliasTyKind::Free { def_id } => Some(def_id.into()),
            ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
        };
        match d {
            Some(d) => {
                let tr = self.tcx.opt_parent(d).map(|p| self.key(p)).unwrap_or_default();
                obj! {"k"=>s("alias"), "name"=>s(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()), "trait"=>s(tr), "args"=>self.args(al.args), "dbg"=>s(t)}
            }
            None => obj! {"k"=>s("other"), "dbg"=>s(t)},
        }
    }

    fn place(&self, p: &Place<'tcx>) -> J {
        let proj = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => arr![s("deref")],
                ProjectionElem::Field(f, t) => arr![s("field"), J::U(f.as_u32() as u128), self.ty(t)],
                ProjectionElem::Index(l) => arr![s("index"), J::U(l.as_u32() as u128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("cidx"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr![s("subslice"), J::U(from as u128), J::U(to as u128), J::B(from_end)]
                }
                ProjectionElem::Downcast(n, v) => {
                    arr![s("downcast"), J::U(v.as_u32() as u128), n.map(s).unwrap_or(J::Null)]
                }
                other => arr![s("other"), s(format!("{other:?}"))],
            })
            .collect();
        obj! {"l"=>J::U(p.local.as_u32() as u128), "p"=>J::A(proj)}
    }

    fn constop(&self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut v = vec![("op".to_string(), s("const")), ("ty".to_string(), self.ty(t))];
        match c.const_ {
            Const::Ty(_, ct) => {
                v.push(("ck".into(), s("ty")));
                v.push(("c".into(), self.tyconst(ct)));
            }
            Const::Unevaluated(u, _) => {
                v.push(("ck".into(), s("uneval")));
                let d = self.defref(u.def);
                v.extend(d);
                v.push(("args".into(), self.args(u.args)));
                v.push(("promoted".into(), u.promoted.map(|p| J::U(p.as_u32() as u128)).unwrap_or(J::Null)));
                // if it does not depend on generics, also give its value
                if !u.args.has_param() && u.promoted.is_none() {
                    let te = ty::TypingEnv::post_analysis(tcx, owner);
                    if let Some(bits) = c.const_.try_eval_bits(tcx, te) {
                        v.push(("bits".into(), s(bits)));
                    }
                }
            }
            Const::Val(val, _) => {
                v.push(("ck".into(), s("val")));
                match val {
                    ConstValue::ZeroSized => v.push(("zst".into(), J::B(true))),
                    ConstValue::Scalar(sc) => {
                        if let Some(int) = sc.try_to_scalar_int().discard_err_opt() {
                            v.push(("bits".into(), s(int.to_bits_unchecked())));
                            v.push(("size".into(), J::U(int.size().bytes() as u128)));
                        } else {
                            v.push(("ptr".into(), s(format!("{sc:?}"))));
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            v.push(("str".into(), s(String::from_utf8_lossy(b))));
                        }
                    }
                    ConstValue::Indirect { .. } => {
                        v.push(("indirect".into(), s(format!("{}", c.const_))));
                    }
                }
            }
        }
        J::O(v)
    }

    fn operand(&self, owner: DefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"op"=>s("copy"), "place"=>self.place(p)},
            Operand::Move(p) => obj! {"op"=>s("move"), "place"=>self.place(p)},
            Operand::Constant(c) => self.constop(owner, c),
            #[allow(unreachable_patterns)]
            other => obj! {"op"=>s("other"), "dbg"=>s(format!("{other:?}"))},
        }
    }

    fn rvalue(&self, owner: DefId, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(owner, o);
        match r {
            Rvalue::Use(o, ..) => obj! {"r"=>s("use"), "o"=>op(o)},
            Rvalue::Repeat(o, n) => obj! {"r"=>s("repeat"), "o"=>op(o), "n"=>self.tyconst(*n)},
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                obj! {"r"=>s("ref"), "mut"=>J::B(m), "place"=>self.place(p)}
            }
            Rvalue::RawPtr(k, p) => obj! {"r"=>s("rawptr"), "kind"=>s(format!("{k:?}")), "place"=>self.place(p)},
            Rvalue::Cast(k, o, t) => obj! {"r"=>s("cast"), "kind"=>s(format!("{k:?}")), "o"=>op(o), "ty"=>self.ty(*t)},
            Rvalue::BinaryOp(b, ab) => obj! {"r"=>s("bin"), "b"=>s(format!("{b:?}")), "x"=>op(&ab.0), "y"=>op(&ab.1)},
            Rvalue::UnaryOp(u, o) => obj! {"r"=>s("un"), "u"=>s(format!("{u:?}")), "o"=>op(o)},
            Rvalue::Discriminant(p) => obj! {"r"=>s("discr"), "place"=>self.place(p)},
            Rvalue::CopyForDeref(p) => obj! {"r"=>s("use"), "o"=>obj!{"op"=>s("copy"), "place"=>self.place(p)}},
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r".to_string(), s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        v.push(("ak".into(), s("array")));
                        v.push(("ty".into(), self.ty(*t)));
                    }
                    AggregateKind::Tuple => v.push(("ak".into(), s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        v.push(("ak".into(), s("adt")));
                        v.push(("adt".into(), s(self.key(*d))));
                        v.push(("name".into(), s(self.tcx.item_name(*d))));
                        let def = self.tcx.adt_def(*d);
                        v.push(("variant".into(), J::U(vi.as_u32() as u128)));
                        v.push(("vname".into(), s(def.variant(*vi).name)));
                        v.push(("isenum".into(), J::B(def.is_enum())));
                        v.push(("fields".into(), J::A(def.variant(*vi).fields.iter().map(|f| s(f.name)).collect())));
                        v.push(("args".into(), self.args(args)));
                    }
                    AggregateKind::Closure(d, args) => {
                        v.push(("ak".into(), s("closure")));
                        v.push(("key".into(), s(self.key(*d))));
                        v.push(("args".into(), self.args(args.as_closure().parent_args())));
                    }
                    other => {
                        v.push(("ak".into(), s("other")));
                        v.push(("dbg".into(), s(format!("{other:?}"))));
                    }
                }
                v.push(("ops".into(), J::A(ops.iter().map(op).collect())));
                J::O(v)
            }
            other => obj! {"r"=>s("other"), "dbg"=>s(format!("{other:?}"))},
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        // attribute code of a macro expansion to the place it is written in this crate
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        arr![
            s(lo.file.name.prefer_local_unconditionally().to_string()),
            J::U(lo.line as u128)
        ]
    }

    /// written inside the expansion of another crate's macro?
    fn ext_macro(&self, sp: rustc_span::Span) -> bool {
        sp.macro_backtrace().any(|e| e.macro_def_id.map(|m| !m.is_local()).unwrap_or(false))
    }

    fn body(&self, owner: DefId, b: &Body<'tcx>) -> J {
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for vi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(vi.name.to_string());
                }
            }
        }
        let locals = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                obj! {"ty"=>self.ty(d.ty), "name"=>names.get(&l.as_u32()).map(s).unwrap_or(J::Null)}
            })
            .collect();
        let blocks = b
            .basic_blocks
            .iter()
            .map(|bb| {
                let mut st = vec![];
                for x in &bb.statements {
                    match &x.kind {
                        StatementKind::Assign(pr) => {
                            let (p, r) = &**pr;
                            st.push(obj! {"s"=>s("assign"), "place"=>self.place(p), "rv"=>self.rvalue(owner, r), "sp"=>self.span(x.source_info.span)});
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            st.push(obj! {"s"=>s("setdiscr"), "place"=>self.place(place), "v"=>J::U(variant_index.as_u32() as u128)});
                        }
                        StatementKind::Intrinsic(i) => st.push(obj! {"s"=>s("intrinsic"), "dbg"=>s(format!("{i:?}"))}),
                        _ => {}
                    }
                }
                let t = bb.terminator();
                let bbn = |b: BasicBlock| J::U(b.as_u32() as u128);
                let term = match &t.kind {
                    TerminatorKind::Goto { target, .. } => obj! {"t"=>s("goto"), "to"=>bbn(*target)},
                    TerminatorKind::SwitchInt { discr, targets } => obj! {
                        "t"=>s("switch"), "o"=>self.operand(owner, discr),
                        "ty"=>self.ty(discr.ty(&b.local_decls, self.tcx)),
                        "cases"=>J::A(targets.iter().map(|(v, b)| arr![s(v), bbn(b)]).collect()),
                        "else"=>bbn(targets.otherwise())
                    },
                    TerminatorKind::Return => obj! {"t"=>s("return")},
                    TerminatorKind::Unreachable => obj! {"t"=>s("unreachable")},
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj! {"t"=>s("unwind")},
                    TerminatorKind::Drop { place, target, .. } => obj! {"t"=>s("drop"), "place"=>self.place(place), "to"=>bbn(*target)},
                    TerminatorKind::Call { func, args, destination, target, .. } => obj! {
                        "t"=>s("call"), "f"=>self.operand(owner, func),
                        "args"=>J::A(args.iter().map(|a| self.operand(owner, &a.node)).collect()),
                        "dest"=>self.place(destination),
                        "dty"=>self.ty(destination.ty(&b.local_decls, self.tcx).ty),
                        "to"=>target.map(bbn).unwrap_or(J::Null),
                        "extmacro"=>J::B(self.ext_macro(t.source_info.span))
                    },
                    TerminatorKind::Assert { cond, expected, target, msg, .. } => obj! {
                        "t"=>s("assert"), "o"=>self.operand(owner, cond), "exp"=>J::B(*expected), "to"=>bbn(*target), "msg"=>s(format!("{msg:?}"))
                    },
                    TerminatorKind::FalseEdge { real_target, .. } => obj! {"t"=>s("goto"), "to"=>bbn(*real_target)},
                    TerminatorKind::FalseUnwind { real_target, .. } => obj! {"t"=>s("goto"), "to"=>bbn(*real_target)},
                    other => obj! {"t"=>s("other"), "dbg"=>s(format!("{other:?}"))},
                };
                obj! {"st"=>J::A(st), "term"=>term, "sp"=>self.span(t.source_info.span), "cleanup"=>J::B(bb.is_cleanup)}
            })
            .collect();
        obj! {"argc"=>J::U(b.arg_count as u128), "locals"=>J::A(locals), "blocks"=>J::A(blocks), "span"=>self.span(b.span)}
    }

    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(s(p.name));
            }
        }
        J::A(names)
    }

    fn preds(&self, d: DefId) -> J {
        let mut v = vec![];
        for c in self.tcx.clauses_of(d).instantiate_identity(self.tcx).clauses {
            let c = c.skip_norm_wip();
            if let ty::ClauseKind::Trait(tp) = c.kind().skip_binder() {
                v.push(obj! {"trait"=>s(self.key(tp.trait_ref.def_id)), "name"=>s(self.tcx.item_name(tp.trait_ref.def_id)), "crate"=>s(self.tcx.crate_name(tp.trait_ref.def_id.krate)), "args"=>self.args(tp.trait_ref.args)});
            }
        }
        J::A(v)
    }

    fn run(&self) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let body: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    tcx.optimized_mir(d)
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    tcx.mir_for_ctfe(d)
                }
                _ => continue,
            };
            let mut v = vec![
                ("kind".to_string(), s(format!("{kind:?}"))),
                ("ref".to_string(), J::O(self.defref(d))),
                ("path".to_string(), s(self.path(d))),
                ("generics".to_string(), self.generics(d)),
                ("preds".to_string(), self.preds(d)),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                v.push(("pub".into(), J::B(tcx.effective_visibilities(()).is_reachable(*ld))));
                v.push(("vis".into(), s(format!("{:?}", tcx.visibility(d)))));
                v.push(("derived".into(), J::B(tcx.opt_parent(d).map(|p| tcx.is_automatically_derived(p)).unwrap_or(false))));
            }
            if let Some(p) = tcx.opt_parent(d) {
                v.push(("parent".into(), s(self.key(p))));
            }
            v.push(("mir".into(), self.body(d, body)));
            let proms = tcx.promoted_mir(d);
            v.push(("promoted".into(), J::A(proms.iter().map(|b| self.body(d, b)).collect())));
            bodies.push((self.key(d), J::O(v)));
        }
        // impls, traits and adts
        let mut impls = vec![];
        let mut traits = vec![];
        let mut adts = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let tr = if of_trait {
                        let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        obj! {"key"=>s(self.key(r.def_id)), "name"=>s(tcx.item_name(r.def_id)), "crate"=>s(tcx.crate_name(r.def_id.krate)), "args"=>self.args(r.args)}
                    } else {
                        J::Null
                    };
                    let mut items = vec![];
                    let mut types = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(n) = tcx.opt_item_name(it.def_id) {
                            if matches!(it.kind, ty::AssocKind::Type { .. }) {
                                types.push((n.to_string(), self.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())));
                            } else {
                                items.push((n.to_string(), s(self.key(it.def_id))));
                            }
                        }
                    }
                    impls.push(obj! {
                        "key"=>s(self.key(d)), "trait"=>tr,
                        "self"=>self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                        "generics"=>self.generics(d), "preds"=>self.preds(d),
                        "derived"=>J::B(tcx.is_automatically_derived(d)),
                        "items"=>J::O(items), "types"=>J::O(types), "span"=>self.span(tcx.def_span(d))
                    });
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(n) = tcx.opt_item_name(it.def_id) {
                            items.push((
                                n.to_string(),
                                obj! {"kind"=>s(format!("{:?}", it.kind)), "key"=>s(self.key(it.def_id)), "default"=>J::B(tcx.defaultness(it.def_id).has_value())},
                            ));
                        }
                    }
                    traits.push((self.key(d), obj! {"name"=>s(tcx.item_name(d)), "generics"=>self.generics(d), "items"=>J::O(items)}));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = def
                        .variants()
                        .iter_enumerated()
                        .map(|(vi, v)| {
                            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                            obj! {"name"=>s(v.name), "discr"=>s(discr), "fields"=>J::A(v.fields.iter().map(|f| obj!{"name"=>s(f.name), "ty"=>self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), "vis"=>s(format!("{:?}", f.vis))}).collect())}
                        })
                        .collect();
                    adts.push((self.key(d), obj! {"name"=>s(tcx.item_name(d)), "enum"=>J::B(def.is_enum()), "generics"=>self.generics(d), "variants"=>J::A(vs)}));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let te = ty::TypingEnv::post_analysis(tcx, d);
                    statics.push(obj! {"key"=>s(self.key(d)), "mut"=>J::B(mutability.is_mut()), "ty"=>self.ty(t), "thread_local"=>J::B(tcx.is_thread_local_static(d)), "freeze"=>J::B(t.is_freeze(tcx, te)), "sp"=>self.span(tcx.def_span(d))});
                }
                _ => {}
            }
        }
        obj! {
            "crate"=>s(tcx.crate_name(LOCAL_CRATE)),
            "bodies"=>J::O(bodies), "impls"=>J::A(impls), "traits"=>J::O(traits), "adts"=>J::O(adts), "statics"=>J::A(statics)
        }
    }
}

trait DiscardErrOpt<T> {
    fn discard_err_opt(self) -> Option<T>;
}
impl<T, E> DiscardErrOpt<T> for Result<T, E> {
    fn discard_err_opt(self) -> Option<T> {
        self.ok()
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let j = cx.run();
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&self.out, o).expect("write MIR export");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: mirx <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let want = std::env::var("MIRX_CRATE").unwrap_or_else(|_| "ndarray_glm".into());
    let out = std::env::var("MIRX_OUT").ok();
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    struct Nop;
    impl Callbacks for Nop {}
    if crate_name == want && out.is_some() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.unwrap() });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
