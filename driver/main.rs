// varisat-facts: a rustc driver that dumps the type-checked program (ADTs, impls, MIR with
// resolved callees) of the crate being compiled as one JSON document per crate.
//
// Injected through RUSTC_WORKSPACE_WRAPPER; argv = [self, rustc, args...].
// Output directory: $VFACTS_OUT.  Analysis only: nothing of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

struct Cb;

// ---------------------------------------------------------------- JSON helpers
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(fields: &[(&str, String)]) -> String {
    let v: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

// `partial_ref` context handles have huge nested types; every rule treats them as one opaque
// context, so they are abbreviated to CTX (and their type-level indices to IDX).
fn abbrev(s: &str) -> String {
    let keys = [
        ("partial_ref::Mut<", "CTX"),
        ("partial_ref::Const<", "CTX"),
        ("partial_ref::Ref<", "CTX"),
        ("partial_ref::IndexNext<", "IDX"),
        ("partial_ref::SubsetIndexCons<", "IDX"),
    ];
    let mut out = String::with_capacity(s.len().min(256));
    let mut i = 0;
    'outer: while i < s.len() {
        for (k, r) in keys.iter() {
            if s[i..].starts_with(k) {
                let mut depth = 1usize;
                let mut j = i + k.len();
                let b = s.as_bytes();
                while j < s.len() && depth > 0 {
                    match b[j] {
                        b'<' => depth += 1,
                        b'>' if b[j - 1] != b'-' => depth -= 1,
                        _ => {}
                    }
                    j += 1;
                }
                out.push_str(r);
                i = j;
                continue 'outer;
            }
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

fn full<R>(f: impl FnOnce() -> R) -> R {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(f())))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        full(|| self.tcx.def_path_str(d))
    }
    fn id(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        abbrev(&full(|| format!("{}", t)))
    }
    fn span(&self, s: Span) -> String {
        let exp = s.from_expansion();
        let root = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let mac = if exp {
            let d = s.ctxt().outer_expn_data();
            js(&format!("{}", d.kind.descr()))
        } else {
            "null".to_string()
        };
        obj(&[("f", js(&file)), ("l", lo.line.to_string()), ("m", mac)])
    }
    fn generic_args(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        arr(args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(js(&self.ty(t))),
            ty::GenericArgKind::Const(c) => Some(js(&full(|| format!("{}", c)))),
            _ => None,
        }))
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut projs = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref => projs.push(js("*")),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            (self.path(def.did()), v.fields[f].name.to_string())
                        }
                        ty::Closure(d, _) => {
                            let caps = self.tcx.closure_captures(d.as_local().unwrap());
                            let n = caps
                                .get(f.index())
                                .map(|c| c.to_symbol().to_string())
                                .unwrap_or_default();
                            (self.id(*d), n)
                        }
                        _ => (String::new(), f.index().to_string()),
                    };
                    projs.push(obj(&[
                        ("k", js("f")),
                        ("i", f.index().to_string()),
                        ("n", js(&name)),
                        ("o", js(&owner)),
                    ]));
                }
                ProjectionElem::Index(l) => {
                    projs.push(obj(&[("k", js("i")), ("l", l.index().to_string())]))
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => projs.push(obj(&[
                    ("k", js("ci")),
                    ("o", offset.to_string()),
                    ("e", from_end.to_string()),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => projs.push(obj(&[
                    ("k", js("ss")),
                    ("a", from.to_string()),
                    ("b", to.to_string()),
                    ("e", from_end.to_string()),
                ])),
                ProjectionElem::Downcast(n, v) => {
                    let name = match (n, pty.ty.kind()) {
                        (Some(n), _) => n.to_string(),
                        (None, ty::Adt(def, _)) => def.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    projs.push(obj(&[("k", js("d")), ("v", js(&name))]))
                }
                _ => projs.push(obj(&[("k", js("?"))])),
            }
            pty = pty.projection_ty(self.tcx, elem);
        }
        obj(&[
            ("l", p.local.index().to_string()),
            ("p", arr(projs)),
            ("t", js(&self.ty(pty.ty))),
        ])
    }

    fn fn_ref(&self, caller: DefId, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut fields = vec![
            ("id", js(&self.id(def))),
            ("path", js(&self.path(def))),
            ("name", js(&tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default())),
            ("ga", self.generic_args(args)),
        ];
        if let Some(tr) = tcx.trait_of_assoc(def) {
            fields.push(("trait", js(&self.path(tr))));
        }
        let kind = tcx.def_kind(def);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).skip_binder();
            fields.push(("unsafe", (!sig.safety().is_safe()).to_string()));
        }
        if matches!(
            kind,
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
        ) {
            let env = ty::TypingEnv::post_analysis(tcx, caller);
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, def, args) {
                let rd = inst.def_id();
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    fields.push(("virtual", "true".into()));
                }
                if rd != def {
                    fields.push(("rid", js(&self.id(rd))));
                    fields.push(("rpath", js(&self.path(rd))));
                    fields.push(("rga", self.generic_args(inst.args)));
                }
            }
        }
        obj(&fields)
    }

    fn constant(&self, caller: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut fields = vec![("k", js("const")), ("t", js(&self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                fields.push(("fn", self.fn_ref(caller, *d, args.skip_binder())));
                return obj(&fields);
            }
            _ => {}
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    fields.push(("promoted", js(&format!("{}::promoted{}", self.id(u.def), p.index()))));
                } else {
                    fields.push(("cid", js(&self.id(u.def))));
                    fields.push(("cpath", js(&self.path(u.def))));
                }
            }
            _ => {}
        }
        let env = ty::TypingEnv::post_analysis(tcx, caller);
        if t.is_scalar() || t.is_bool() {
            if let Some(s) = c.const_.try_eval_scalar(tcx, env) {
                if let Ok(i) = s.try_to_scalar_int() {
                    let v: String = match t.kind() {
                        ty::Int(_) => format!("{}", i.to_int(i.size())),
                        ty::Float(_) => format!("{}", i.to_bits(i.size())),
                        _ => format!("{}", i.to_uint(i.size())),
                    };
                    fields.push(("v", js(&v)));
                }
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            let is_str = inner.is_str();
            let is_bytes = matches!(inner.kind(), ty::Slice(e) | ty::Array(e, _) if *e == tcx.types.u8);
            if is_str || is_bytes {
                if let Const::Val(v, _) = c.const_ {
                    if is_str || matches!(inner.kind(), ty::Slice(_)) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            fields.push(("s", js(&String::from_utf8_lossy(b))));
                        }
                    } else {
                        fields.push(("dbg", js(&full(|| format!("{}", c.const_)))));
                    }
                }
            }
        }
        if !fields.iter().any(|f| ["v", "s", "dbg"].contains(&f.0)) {
            fields.push(("dbg", js(&full(|| format!("{}", c.const_)))));
        }
        obj(&fields)
    }

    fn operand(&self, caller: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("k", js("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => obj(&[("k", js("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(caller, c),
            _ => obj(&[("k", js("other")), ("dbg", js(&format!("{:?}", o)))]),
        }
    }

    fn rvalue(&self, caller: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(caller, body, o);
        match r {
            Rvalue::Use(o, _) => obj(&[("k", js("use")), ("a", op(o))]),
            Rvalue::Repeat(o, n) => {
                obj(&[("k", js("repeat")), ("a", op(o)), ("n", js(&full(|| format!("{}", n))))])
            }
            Rvalue::Ref(_, bk, p) => obj(&[
                ("k", js("ref")),
                ("m", matches!(bk, BorrowKind::Mut { .. }).to_string()),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => obj(&[
                ("k", js("rawptr")),
                ("m", js(&format!("{:?}", k))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => obj(&[
                ("k", js("cast")),
                ("c", js(&format!("{:?}", k))),
                ("a", op(o)),
                ("t", js(&self.ty(*t))),
            ]),
            Rvalue::BinaryOp(b, ab) => obj(&[
                ("k", js("bin")),
                ("op", js(&format!("{:?}", b))),
                ("a", op(&ab.0)),
                ("b", op(&ab.1)),
            ]),
            Rvalue::UnaryOp(u, o) => {
                obj(&[("k", js("un")), ("op", js(&format!("{:?}", u))), ("a", op(o))])
            }
            Rvalue::Discriminant(p) => obj(&[("k", js("discr")), ("p", self.place(body, p))]),
            Rvalue::CopyForDeref(p) => {
                obj(&[("k", js("use")), ("a", obj(&[("k", js("copy")), ("p", self.place(body, p))]))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fields = vec![("k", js("agg"))];
                match &**k {
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        fields.push(("adt", js(&self.path(*d))));
                        fields.push(("variant", js(var.name.as_str())));
                        let names: Vec<String> = match active {
                            Some(f) => vec![js(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        fields.push(("fields", arr(names)));
                        fields.push(("ga", self.generic_args(args)));
                    }
                    AggregateKind::Closure(d, _) => {
                        fields.push(("closure", js(&self.id(*d))));
                        if let Some(l) = d.as_local() {
                            let caps = self.tcx.closure_captures(l);
                            fields.push((
                                "fields",
                                arr(caps.iter().map(|c| js(&c.to_symbol().to_string()))),
                            ));
                        }
                    }
                    AggregateKind::Tuple => fields.push(("tuple", "true".into())),
                    AggregateKind::Array(_) => fields.push(("array", "true".into())),
                    _ => fields.push(("other", "true".into())),
                }
                fields.push(("ops", arr(ops.iter().map(|o| op(o)))));
                obj(&fields)
            }
            _ => obj(&[("k", js("other")), ("dbg", js(&format!("{:?}", r)))]),
        }
    }

    fn body(&self, caller: DefId, id: &str, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(i, d)| {
            obj(&[
                ("t", js(&self.ty(d.ty))),
                (
                    "n",
                    names[i.index()].as_ref().map(|n| js(n)).unwrap_or("null".into()),
                ),
            ])
        }));
        let blocks = arr(body.basic_blocks.iter().map(|bb| {
            let stmts = arr(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(b) => Some(obj(&[
                    ("k", js("=")),
                    ("d", self.place(body, &b.0)),
                    ("r", self.rvalue(caller, body, &b.1)),
                    ("s", self.span(s.source_info.span)),
                ])),
                StatementKind::SetDiscriminant { place, variant_index } => Some(obj(&[
                    ("k", js("sd")),
                    ("d", self.place(body, place)),
                    ("v", variant_index.index().to_string()),
                    ("s", self.span(s.source_info.span)),
                ])),
                StatementKind::StorageDead(l) => {
                    Some(obj(&[("k", js("dead")), ("l", l.index().to_string())]))
                }
                _ => None,
            }));
            let t = bb.terminator();
            let unwind = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.index().to_string(),
                _ => "null".to_string(),
            };
            let mut tf = vec![("s", self.span(t.source_info.span))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tf.push(("k", js("goto")));
                    tf.push(("to", target.index().to_string()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tf.push(("k", js("switch")));
                    tf.push(("a", self.operand(caller, body, discr)));
                    tf.push((
                        "ts",
                        arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index()))),
                    ));
                    tf.push(("ow", targets.otherwise().index().to_string()));
                }
                TerminatorKind::Return => tf.push(("k", js("return"))),
                TerminatorKind::Unreachable => tf.push(("k", js("unreachable"))),
                TerminatorKind::UnwindResume => tf.push(("k", js("resume"))),
                TerminatorKind::Drop { place, target, unwind: u, .. } => {
                    tf.push(("k", js("drop")));
                    tf.push(("p", self.place(body, place)));
                    tf.push(("to", target.index().to_string()));
                    tf.push(("uw", unwind(u)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u, .. } => {
                    tf.push(("k", js("call")));
                    tf.push(("f", self.operand(caller, body, func)));
                    tf.push(("args", arr(args.iter().map(|a| self.operand(caller, body, &a.node)))));
                    tf.push(("d", self.place(body, destination)));
                    tf.push((
                        "to",
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                    ));
                    tf.push(("uw", unwind(u)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
                    tf.push(("k", js("assert")));
                    tf.push(("a", self.operand(caller, body, cond)));
                    tf.push(("e", expected.to_string()));
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    tf.push(("m", js(kind)));
                    if let AssertKind::BoundsCheck { len, index } = &**msg {
                        tf.push(("len", self.operand(caller, body, len)));
                        tf.push(("idx", self.operand(caller, body, index)));
                    }
                    tf.push(("to", target.index().to_string()));
                    tf.push(("uw", unwind(u)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    tf.push(("k", js("goto")));
                    tf.push(("to", real_target.index().to_string()));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    tf.push(("k", js("goto")));
                    tf.push(("to", real_target.index().to_string()));
                }
                other => {
                    tf.push(("k", js("other")));
                    tf.push(("dbg", js(&format!("{:?}", other))));
                }
            }
            obj(&[("st", stmts), ("t", obj(&tf)), ("cu", bb.is_cleanup.to_string())])
        }));
        let mut fields = vec![
            ("id", js(id)),
            ("path", js(&self.path(caller))),
            ("kind", js(&format!("{:?}", tcx.def_kind(caller)))),
            ("argc", body.arg_count.to_string()),
            ("span", self.span(body.span)),
            ("locals", locals),
            ("blocks", blocks),
        ];
        if let Some(n) = tcx.opt_item_name(caller) {
            fields.push(("name", js(n.as_str())));
        }
        if matches!(tcx.def_kind(caller), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(caller).skip_binder();
            fields.push(("unsafe", (!sig.safety().is_safe()).to_string()));
            fields.push(("vis", js(&format!("{:?}", tcx.visibility(caller)))));
            let eff = tcx.effective_visibilities(()).is_reachable(caller.expect_local());
            fields.push(("exported", eff.to_string()));
            let exp = tcx.effective_visibilities(()).is_exported(caller.expect_local());
            fields.push(("public", exp.to_string()));
        }
        let mut par = tcx.opt_parent(caller);
        if tcx.def_kind(caller) == DefKind::Closure {
            fields.push(("closure_of", js(&self.id(tcx.typeck_root_def_id(caller)))));
            par = None;
        }
        if let Some(p) = par {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    fields.push((
                        "self_ty",
                        js(&self.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip())),
                    ));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        fields.push(("trait", js(&self.path(tr.def_id))));
                        let derived = tcx.is_automatically_derived(p);
                        fields.push(("derived", derived.to_string()));
                    }
                }
                DefKind::Trait => fields.push(("trait_decl", js(&self.path(p)))),
                _ => {}
            }
        }
        obj(&fields)
    }

    fn adt(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let variants = arr(def.variants().iter_enumerated().map(|(vi, v)| {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            obj(&[
                ("name", js(v.name.as_str())),
                ("discr", js(&discr)),
                (
                    "fields",
                    arr(v.fields.iter().map(|f| {
                        obj(&[
                            ("name", js(f.name.as_str())),
                            (
                                "ty",
                                js(&self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            ),
                            ("vis", js(&format!("{:?}", f.vis))),
                        ])
                    })),
                ),
            ])
        }));
        let repr = def.repr();
        obj(&[
            ("path", js(&self.path(d))),
            ("kind", js(kind)),
            ("transparent", repr.transparent().to_string()),
            ("repr", js(&format!("{:?}", repr.int))),
            ("variants", variants),
            ("span", self.span(tcx.def_span(d))),
        ])
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.debug_assertions = false;
        config.opts.cg.overflow_checks = Some(false);
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("VFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut bodies = Vec::new();
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut statics = Vec::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let id = cx.id(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    bodies.push(cx.body(d, &id, body));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, &format!("{}::promoted{}", id, pi.index()), pb));
                    }
                }
                DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. }
                | DefKind::AnonConst => {
                    let body = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, &id, body));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, &format!("{}::promoted{}", id, pi.index()), pb));
                    }
                }
                _ => {}
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(cx.adt(d)),
                DefKind::Static { mutability, .. } => {
                    statics.push(obj(&[
                        ("path", js(&cx.path(d))),
                        ("mut", mutability.is_mut().to_string()),
                        ("ty", js(&cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let mut f = vec![
                        ("id", js(&cx.id(d))),
                        (
                            "self_ty",
                            js(&cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                        ),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        f.push(("trait", js(&cx.path(tr.def_id))));
                        f.push(("tga", cx.generic_args(tr.args)));
                    }
                    f.push((
                        "items",
                        arr(tcx.associated_item_def_ids(d).iter().map(|i| js(&cx.id(*i)))),
                    ));
                    f.push((
                        "trait_items",
                        arr(tcx.associated_items(d).in_definition_order().map(|i| {
                            js(&i.trait_item_def_id().map(|t| cx.id(t)).unwrap_or_default())
                        })),
                    ));
                    impls.push(obj(&f));
                }
                _ => {}
            }
        }
        // Definitions of foreign enums used through discriminants are resolved by name tables in
        // the analysis; local crates export all of theirs here.
        let doc = obj(&[
            ("crate", js(&krate)),
            ("rustc", js(option_env!("CFG_VERSION").unwrap_or(""))),
            ("bodies", format!("[{}]", bodies.join(",\n"))),
            ("adts", format!("[{}]", adts.join(",\n"))),
            ("impls", format!("[{}]", impls.join(",\n"))),
            ("statics", format!("[{}]", statics.join(",\n"))),
        ]);
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let file = format!("{}/{}{}.json", out, krate, if is_bin { "-bin" } else { "" });
        let tmp = format!("{}.tmp{}", file, std::process::id());
        std::fs::write(&tmp, doc).expect("write facts");
        std::fs::rename(&tmp, &file).expect("rename facts");
        let _ = |_: LocalDefId| ();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
