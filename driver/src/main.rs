//! Dumps the type-checked program (generic MIR, ADTs, signatures, impls) of the
//! crate being compiled as JSON into the file named by `PAPAYA_FACTS_OUT`.
//!
//! Used as RUSTC_WRAPPER: `papaya-facts <rustc> args...`.  Only the crate whose
//! name is in `PAPAYA_FACTS_CRATE` is dumped; every other invocation is passed
//! through to the real compiler.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::Scalar};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => wstr(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    adt_queue: VecDeque<DefId>,
    want: VecDeque<DefId>,
    wanted: HashSet<DefId>,
}

const EXTERNAL: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::convert", "core::cmp", "core::bool",
    "core::iter", "core::clone", "core::mem::maybe_uninit", "core::mem::manually_drop",
    "core::tuple", "core::borrow", "core::slice::iter", "core::panic::unwind_safe",
    "equivalent::", "core::default",
];

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        self.tcx.def_path(d).to_string_no_crate_verbose();
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(p.krate), p.to_string_no_crate_verbose())
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    /// A stable human readable path: `module::Type::method` for methods.
    fn nice(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            return format!("{}::{{closure}}", self.nice(tcx.parent(d)));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let base = match ty.kind() {
                ty::Adt(a, _) => self.path(a.did()),
                ty::RawPtr(..) => "*ptr".to_string(),
                ty::Ref(..) => "&ref".to_string(),
                ty::Param(_) => "{blanket}".to_string(),
                _ => format!("{:?}", ty),
            };
            return format!("{}::{}", base, tcx.item_name(d));
        }
        self.path(d)
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        let name = match name.rfind("/src/") {
            Some(i) => name[i + 1..].to_string(),
            None => name,
        };
        J::s(format!("{}:{}", name, lo.line))
    }

    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d) {
            self.adt_queue.push_back(d);
        }
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => {
                    v.push(J::O(vec![("k", J::s("const")), ("s", J::s(format!("{:?}", c)))]))
                }
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn lays(&mut self, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let ty::GenericArgKind::Type(t) = x.kind() {
                let t = self.tcx.erase_and_anonymize_regions(t);
                v.push(match self.tcx.layout_of(env.as_query_input(t)) {
                    Ok(l) => J::A(vec![
                        J::N(l.size.bytes() as i128),
                        J::N(l.align.abi.bytes() as i128),
                    ]),
                    Err(_) => J::Null,
                });
            } else if let ty::GenericArgKind::Const(_) = x.kind() {
                v.push(J::Null)
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let k = |s: &str| ("k", J::s(s));
        match t.kind() {
            ty::Bool => J::O(vec![k("bool")]),
            ty::Char => J::O(vec![k("char")]),
            ty::Int(i) => J::O(vec![k("int"), ("n", J::s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![k("uint"), ("n", J::s(i.name_str()))]),
            ty::Float(f) => J::O(vec![k("float"), ("n", J::s(f.name_str()))]),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let a = self.args(a);
                J::O(vec![k("adt"), ("d", J::s(self.path(d.did()))), ("a", a)])
            }
            ty::Str => J::O(vec![k("str")]),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                J::O(vec![k("array"), ("t", e), ("n", J::s(format!("{:?}", n)))])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                J::O(vec![k("slice"), ("t", e)])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                J::O(vec![k("ptr"), ("t", e), ("m", J::B(m.is_mut()))])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::O(vec![k("ref"), ("t", e), ("m", J::B(m.is_mut()))])
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let args = self.args(a);
                let d: DefId = (*d).into();
                J::O(vec![k("fndef"), ("d", J::s(self.id(d))), ("p", J::s(self.nice(d))), ("a", args)])
            }
            ty::Closure(d, a) => {
                let d: DefId = (*d).into();
                let parent = a.as_closure().parent_args();
                let parent = self.tcx.mk_args(parent);
                let args = self.args(parent);
                let ups: Vec<J> =
                    a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                if d.krate != LOCAL_CRATE {
                    self.want(d);
                }
                J::O(vec![k("closure"), ("d", J::s(self.id(d))), ("a", args), ("u", J::A(ups))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![k("tuple"), ("a", J::A(v))])
            }
            ty::Param(p) => J::O(vec![k("param"), ("n", J::s(p.name.as_str()))]),
            ty::Never => J::O(vec![k("never")]),
            ty::FnPtr(..) => J::O(vec![k("fnptr"), ("s", J::s(format!("{:?}", t)))]),
            ty::Dynamic(..) => J::O(vec![k("dyn"), ("s", J::s(format!("{:?}", t)))]),
            ty::Alias(_, a) => {
                let args = self.args(a.args);
                J::O(vec![k("alias"), ("s", J::s(format!("{:?}", t))), ("a", args)])
            }
            _ => J::O(vec![k("other"), ("s", J::s(format!("{:?}", t)))]),
        }
    }

    fn want(&mut self, d: DefId) {
        if !self.wanted.insert(d) {
            return;
        }
        if d.krate != LOCAL_CRATE {
            let p = self.id(d);
            if !EXTERNAL.iter().any(|e| p.starts_with(e)) {
                return;
            }
        }
        self.want.push_back(d);
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("k", J::s("const")), ("ty", tj)];
        if let ty::FnDef(d, a) = t.kind() {
            let d: DefId = (*d).into();
            let a = a.skip_binder();
            self.want(d);
            let f = self.callee(d, a, env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Some(s) = c.try_eval_scalar(tcx, env) {
            match s {
                Scalar::Int(i) => {
                    let size = i.size();
                    let v = i.to_bits(size);
                    o.push(("v", J::N(v as i128)));
                    o.push(("sz", J::N(size.bytes() as i128)));
                    return J::O(o);
                }
                Scalar::Ptr(..) => {}
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            let args = self.args(u.args);
            let mut v = vec![
                ("d", J::s(self.id(u.def))),
                ("p", J::s(self.nice(u.def))),
                ("a", args),
            ];
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                v.push(("trait", J::s(self.path(tr))));
                v.push(("name", J::s(tcx.item_name(u.def).as_str())));
            }
            if let Some(p) = u.promoted {
                v.push(("promoted", J::N(p.as_usize() as i128)));
            }
            o.push(("uneval", J::O(v)));
        }
        o.push(("s", J::s(format!("{:?}", c))));
        J::O(o)
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = self.args(a);
        let lay = self.lays(a, env);
        let mut o = vec![
            ("d", J::s(self.id(d))),
            ("p", J::s(self.nice(d))),
            ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("a", args),
            ("lay", lay),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(tr))));
        }
        if tcx.intrinsic(d).is_some() {
            o.push(("intrinsic", J::B(true)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let er = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, er) {
                let rd = inst.def_id();
                self.want(rd);
                let ra = match inst.def {
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => None,
                    _ => {
                        if tcx.is_closure_like(rd) {
                            None
                        } else {
                            Some(self.args(inst.args))
                        }
                    }
                };
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once",
                    _ => "shim",
                };
                o.push((
                    "res",
                    J::O(vec![
                        ("d", J::s(self.id(rd))),
                        ("p", J::s(self.nice(rd))),
                        ("kind", J::s(kind)),
                        ("a", ra.unwrap_or(J::Null)),
                    ]),
                ));
            }
        }
        J::O(o)
    }

    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            let next = pt.projection_ty(tcx, e);
            proj.push(match e {
                Deref => J::A(vec![J::s("*")]),
                Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut owner = String::from("tuple");
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.adt(a.did());
                            owner = self.path(a.did());
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            name = a.variant(vi).fields[f].name.to_string();
                        }
                        ty::Closure(..) => owner = "closure".into(),
                        _ => {}
                    }
                    J::A(vec![J::s("f"), J::N(f.index() as i128), J::s(name), J::s(owner)])
                }
                Index(l) => J::A(vec![J::s("i"), J::N(l.as_usize() as i128)]),
                Downcast(_, v) => J::A(vec![J::s("d"), J::N(v.as_usize() as i128)]),
                ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("ci"), J::N(offset as i128), J::B(from_end)])
                }
                _ => J::A(vec![J::s("?"), J::s(format!("{:?}", e))]),
            });
            pt = next;
        }
        let ty = self.ty(pt.ty);
        J::O(vec![("l", J::N(p.local.as_usize() as i128)), ("p", J::A(proj)), ("ty", ty)])
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("pl", self.place(p, body))]),
            mir::Operand::Move(p) => J::O(vec![("k", J::s("move")), ("pl", self.place(p, body))]),
            mir::Operand::Constant(c) => self.constant(&c.const_, env),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("k", J::s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        let k = |s: &str| ("k", J::s(s));
        match r {
            Use(op, _) => {
                let o = self.operand(op, body, env);
                J::O(vec![k("use"), ("op", o)])
            }
            Repeat(op, n) => {
                let o = self.operand(op, body, env);
                J::O(vec![k("repeat"), ("op", o), ("n", J::s(format!("{:?}", n)))])
            }
            Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::O(vec![k("ref"), ("m", J::B(m)), ("pl", self.place(p, body))])
            }
            RawPtr(_, p) => J::O(vec![k("rawptr"), ("pl", self.place(p, body))]),
            Cast(ck, op, t) => {
                let o = self.operand(op, body, env);
                let from = op.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                let t = self.ty(*t);
                J::O(vec![k("cast"), ("ck", J::s(format!("{:?}", ck))), ("op", o), ("from", from), ("ty", t)])
            }
            BinaryOp(b, ops) => {
                let a = self.operand(&ops.0, body, env);
                let c = self.operand(&ops.1, body, env);
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::O(vec![k("bin"), ("op", J::s(format!("{:?}", b))), ("a", a), ("b", c), ("ty", t)])
            }
            UnaryOp(u, op) => {
                let a = self.operand(op, body, env);
                let t = op.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::O(vec![k("un"), ("op", J::s(format!("{:?}", u))), ("a", a), ("ty", t)])
            }
            Discriminant(p) => J::O(vec![k("discr"), ("pl", self.place(p, body))]),
            Aggregate(ak, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let mut o = vec![k("agg"), ("ops", J::A(v))];
                match &**ak {
                    mir::AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
                    mir::AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    mir::AggregateKind::Adt(d, v, a, _, uf) => {
                        self.adt(*d);
                        o.push(("ak", J::s("adt")));
                        o.push(("d", J::s(self.path(*d))));
                        o.push(("v", J::N(v.as_usize() as i128)));
                        let a = self.args(a);
                        o.push(("a", a));
                        if let Some(u) = uf {
                            o.push(("uf", J::N(u.index() as i128)));
                        }
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let parent = self.tcx.mk_args(a.as_closure().parent_args());
                        o.push(("ak", J::s("closure")));
                        o.push(("d", J::s(self.id(*d))));
                        let a = self.args(parent);
                        o.push(("a", a));
                        self.want(*d);
                    }
                    mir::AggregateKind::RawPtr(..) => o.push(("ak", J::s("rawptr"))),
                    _ => o.push(("ak", J::s("other"))),
                }
                J::O(o)
            }
            CopyForDeref(p) => {
                let p = self.place(p, body);
                J::O(vec![k("use"), ("op", J::O(vec![("k", J::s("copy")), ("pl", p)]))])
            }
            ThreadLocalRef(d) => J::O(vec![k("tls"), ("d", J::s(self.id(*d)))]),
            _ => J::O(vec![k("other"), ("s", J::s(format!("{:?}", r)))]),
        }
    }

    fn unwind(&self, u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Cleanup(b) => J::N(b.as_usize() as i128),
            mir::UnwindAction::Continue => J::s("continue"),
            mir::UnwindAction::Unreachable => J::s("unreachable"),
            mir::UnwindAction::Terminate(_) => J::s("terminate"),
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::N(p.local.as_usize() as i128), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            for s in &bb.statements {
                use mir::StatementKind::*;
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        sts.push(J::O(vec![("k", J::s("=")), ("pl", p), ("rv", r), ("sp", sp)]));
                    }
                    SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        sts.push(J::O(vec![
                            ("k", J::s("setd")),
                            ("pl", p),
                            ("v", J::N(variant_index.as_usize() as i128)),
                        ]));
                    }
                    StorageDead(l) => {
                        sts.push(J::O(vec![("k", J::s("dead")), ("l", J::N(l.as_usize() as i128))]))
                    }
                    Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::Assume(op) = &**i {
                            let o = self.operand(op, body, env);
                            sts.push(J::O(vec![("k", J::s("assume")), ("op", o)]));
                        } else {
                            sts.push(J::O(vec![("k", J::s("other")), ("s", J::s(format!("{:?}", s.kind)))]));
                        }
                    }
                    StorageLive(_) | Nop | ConstEvalCounter | Coverage(..) | PlaceMention(..)
                    | FakeRead(..) | AscribeUserType(..) => {}
                    _ => sts.push(J::O(vec![("k", J::s("other")), ("s", J::s(format!("{:?}", s.kind)))])),
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let n = |b: &mir::BasicBlock| J::N(b.as_usize() as i128);
            use mir::TerminatorKind::*;
            let mut o: Vec<(&'static str, J)> = match &t.kind {
                Goto { target, .. } => vec![("k", J::s("goto")), ("t", n(target))],
                SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, env);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v = targets.iter().map(|(v, b)| J::A(vec![J::N(v as i128), n(&b)])).collect();
                    vec![
                        ("k", J::s("switch")),
                        ("d", d),
                        ("ty", dt),
                        ("v", J::A(v)),
                        ("o", n(&targets.otherwise())),
                    ]
                }
                UnwindResume => vec![("k", J::s("resume"))],
                UnwindTerminate(_) => vec![("k", J::s("abort"))],
                Return => vec![("k", J::s("return"))],
                Unreachable => vec![("k", J::s("unreachable"))],
                Drop { place, target, unwind, .. } => {
                    let p = self.place(place, body);
                    vec![("k", J::s("drop")), ("pl", p), ("t", n(target)), ("u", self.unwind(unwind))]
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, body, env);
                    let a = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let d = self.place(destination, body);
                    vec![
                        ("k", J::s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("d", d),
                        ("t", target.as_ref().map(n).unwrap_or(J::Null)),
                        ("u", self.unwind(unwind)),
                    ]
                }
                Assert { cond, expected, target, unwind, msg } => {
                    let c = self.operand(cond, body, env);
                    vec![
                        ("k", J::s("assert")),
                        ("c", c),
                        ("e", J::B(*expected)),
                        ("m", J::s(format!("{:?}", msg).chars().take(40).collect::<String>())),
                        ("t", n(target)),
                        ("u", self.unwind(unwind)),
                    ]
                }
                FalseEdge { real_target, .. } => vec![("k", J::s("goto")), ("t", n(real_target))],
                FalseUnwind { real_target, .. } => vec![("k", J::s("goto")), ("t", n(real_target))],
                k => vec![("k", J::s("other")), ("s", J::s(format!("{:?}", k)))],
            };
            o.push(("sp", sp));
            blocks.push(J::O(vec![
                ("s", J::A(sts)),
                ("t", J::O(o)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::N(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn generics(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(J::s(p.name.as_str())),
            }
        }
        J::A(v)
    }

    fn function(&mut self, d: DefId) -> Option<J> {
        let tcx = self.tcx;
        if !tcx.is_mir_available(d) {
            return None;
        }
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut o = vec![
            ("id", J::s(self.id(d))),
            ("p", J::s(self.nice(d))),
            ("kind", J::s(format!("{:?}", kind))),
            ("name", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("sp", self.span(tcx.def_span(d))),
        ];
        let gd = if tcx.is_closure_like(d) { tcx.typeck_root_def_id(d) } else { d };
        o.push(("generics", self.generics(gd)));
        if tcx.is_closure_like(d) {
            o.push(("parent", J::s(self.id(tcx.parent(d)))));
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let ty::Closure(_, a) = t.kind() {
                o.push(("ckind", J::s(format!("{:?}", a.as_closure().kind()))));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            let out = self.ty(sig.output());
            o.push(("inputs", J::A(ins)));
            o.push(("output", out));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            if let Some(ld) = d.as_local() {
                o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(ld))));
            }
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                o.push(("self", t));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(self.path(tr.def_id))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("intrait", J::s(self.path(tr))));
            }
        }
        let body = if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            tcx.mir_for_ctfe(d)
        } else {
            tcx.optimized_mir(d)
        };
        let b = self.body(body, env);
        o.push(("body", b));
        let mut proms = vec![];
        for p in tcx.promoted_mir(d).iter() {
            proms.push(self.body(p, env));
        }
        o.push(("promoted", J::A(proms)));
        Some(J::O(o))
    }

    fn do_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<u128> = if a.is_enum() {
            a.discriminants(tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        for (i, v) in a.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tj = if d.krate == LOCAL_CRATE {
                    self.ty(t)
                } else {
                    J::O(vec![("k", J::s("ext")), ("s", J::s(format!("{:?}", t)))])
                };
                fs.push(J::A(vec![J::s(f.name.as_str()), tj, J::B(f.vis.is_public())]));
            }
            vs.push(J::O(vec![
                ("name", J::s(v.name.as_str())),
                ("discr", J::N(discrs.get(i).copied().unwrap_or(0) as i128)),
                ("fields", J::A(fs)),
            ]));
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let lay = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => J::A(vec![J::N(l.size.bytes() as i128), J::N(l.align.abi.bytes() as i128)]),
            Err(_) => J::Null,
        };
        let repr = a.repr();
        let o = J::O(vec![
            ("kind", J::s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
            ("generics", self.generics(d)),
            ("variants", J::A(vs)),
            ("lay", lay),
            ("reprc", J::B(repr.c())),
            ("transparent", J::B(repr.transparent())),
            ("align", repr.align.map(|a| J::N(a.bytes() as i128)).unwrap_or(J::Null)),
            ("packed", J::B(repr.packed())),
            ("local", J::B(d.krate == LOCAL_CRATE)),
            ("sp", self.span(tcx.def_span(d))),
        ]);
        let p = self.path(d);
        self.adts.insert(p, o);
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        adts: BTreeMap::new(),
        adt_seen: HashSet::new(),
        adt_queue: VecDeque::new(),
        want: VecDeque::new(),
        wanted: HashSet::new(),
    };
    for d in tcx.hir_body_owners() {
        cx.want(d.to_def_id());
    }
    // impls and constants
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(t);
                let mut o = vec![
                    ("self", tj),
                    ("generics", cx.generics(d)),
                    ("sp", cx.span(tcx.def_span(d))),
                    ("id", J::s(cx.id(d))),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(cx.path(tr.def_id))));
                    let a = cx.args(tr.args);
                    o.push(("targs", a));
                    o.push(("neg", J::B(matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative))));
                }
                let preds: Vec<J> = tcx
                    .clauses_of(d)
                    .instantiate_identity(tcx)
                    .into_iter()
                    .map(|(p, _)| J::s(format!("{:?}", p.skip_norm_wip())))
                    .collect();
                o.push(("preds", J::A(preds)));
                let mut items = vec![];
                for it in tcx.associated_item_def_ids(d) {
                    let name = tcx.opt_item_name(*it).map(|s| s.to_string()).unwrap_or_default();
                    let mut v = vec![("d", J::s(cx.id(*it)))];
                    if let Some(b) = assoc_const(tcx, *it) {
                        v.push(("v", J::N(b as i128)));
                    }
                    items.push((name, J::O(v)));
                }
                o.push(("items", J::M(items)));
                impls.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
            _ => {}
        }
    }
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            if let Some(b) = assoc_const(tcx, d) {
                consts.push((cx.nice(d), J::N(b as i128)));
            }
        }
    }
    let mut fns = vec![];
    let mut n = 0;
    while let Some(d) = cx.want.pop_front() {
        n += 1;
        if n > 6000 {
            break;
        }
        if !matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
        ) {
            continue;
        }
        if let Some(f) = cx.function(d) {
            fns.push(f);
        }
    }
    while let Some(d) = cx.adt_queue.pop_front() {
        cx.do_adt(d);
    }
    let adts = std::mem::take(&mut cx.adts).into_iter().collect();
    let o = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("fns", J::A(fns)),
        ("adts", J::M(adts)),
        ("impls", J::A(impls)),
        ("consts", J::M(consts)),
    ]);
    let mut s = String::new();
    o.write(&mut s);
    s
}

fn assoc_const(tcx: TyCtxt<'_>, d: DefId) -> Option<u128> {
    if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
        return None;
    }
    if tcx.trait_of_assoc(d).is_some() {
        return None;
    }
    let v = tcx.const_eval_poly(d).ok()?;
    match v.try_to_scalar()? {
        Scalar::Int(i) => Some(i.to_bits(i.size())),
        _ => None,
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = std::env::var("PAPAYA_FACTS_OUT").expect("PAPAYA_FACTS_OUT");
        let s = dump(tcx);
        std::fs::write(&out, s).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of the real compiler.
    let rustc = args.remove(1);
    let want = std::env::var("PAPAYA_FACTS_CRATE").unwrap_or_default();
    let mut it = args.iter();
    let mut name = String::new();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned().unwrap_or_default();
        }
    }
    if name != want || want.is_empty() {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args[0] = rustc;
    for f in [
        "-Zmir-opt-level=0",
        "-Zmir-enable-passes=-ReorderBasicBlocks,-ReorderLocals",
        "-Coverflow-checks=off",
        "-Cdebug-assertions=off",
        "--cap-lints=allow",
        "-Zcrate-attr=allow(internal_features)",
    ] {
        args.push(f.to_string());
    }
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
