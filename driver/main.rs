// MIR extractor: dumps, as JSON, the resolved MIR of every function of the crate being compiled,
// together with the (instantiated, resolved) bodies of what those functions call.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        '\r' => o.push_str("\\r"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- exploration
type Key<'tcx> = (InstanceKind<'tcx>, GenericArgsRef<'tcx>, DefId, Option<Promoted>);

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(Key<'tcx>, usize)>,
    allow: Vec<String>,
    nonlocal_depth: usize,
}

struct Bx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    key: Key<'tcx>,
    env: TypingEnv<'tcx>,
    depth: usize,
    body: &'a Body<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // never the shortened/visible path: crate::module::item
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn id(&mut self, k: Key<'tcx>, depth: usize) -> usize {
        if let Some(n) = self.ids.get(&k) {
            return *n;
        }
        let n = self.ids.len();
        self.ids.insert(k, n);
        self.queue.push_back((k, depth));
        n
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(n) => J::O(vec![("k", s("int")), ("n", s(n.name_str()))]),
            ty::Uint(n) => J::O(vec![("k", s("int")), ("n", s(n.name_str()))]),
            ty::Float(n) => J::O(vec![("k", s("float")), ("n", s(n.name_str()))]),
            ty::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("t", self.ty(*t))]),
            ty::RawPtr(t, m) => J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("t", self.ty(*t))]),
            ty::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            ty::Array(t, n) => J::O(vec![("k", s("array")), ("t", self.ty(*t)), ("n", s(format!("{}", n)))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("ts", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Adt(d, a) => J::O(vec![("k", s("adt")), ("p", s(path(tcx, d.did()))), ("a", self.args(a))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("p", s(path(tcx, *d)))]),
            ty::FnDef(d, a) => J::O(vec![("k", s("fndef")), ("p", s(path(tcx, *d))), ("a", self.args(a.skip_binder()))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(format!("{}", t)))]),
            ty::Alias(..) => J::O(vec![("k", s("alias")), ("s", s(ty::print::with_no_trimmed_paths!(format!("{}", t))))]),
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{}", t)))]),
        }
    }

    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Lifetime(_) => None,
                    ty::GenericArgKind::Type(t) => Some(self.ty(t)),
                    ty::GenericArgKind::Const(c) => Some(self.tyconst(c)),
                })
                .collect(),
        )
    }

    fn tyconst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::O(vec![("k", s("cparam")), ("n", s(p.name.as_str()))]),
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(l) => J::O(vec![("k", s("cval")), ("v", s(format!("{}", l.to_bits(l.size())))), ("t", self.ty(v.ty))]),
                None => J::O(vec![("k", s("cother")), ("s", s(format!("{:?}", c)))]),
            },
            _ => J::O(vec![("k", s("cother")), ("s", s(format!("{:?}", c)))]),
        }
    }
}

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, t: T) -> T {
        let tcx = self.cx.tcx;
        let inst = ty::EarlyBinder::bind(tcx, t).instantiate(tcx, self.key.1);
        let raw = tcx.erase_and_anonymize_regions(inst.clone().skip_normalization());
        match tcx.try_normalize_erasing_regions(self.env, inst) {
            Ok(x) => x,
            Err(_) => raw,
        }
    }
    fn jty(&self, t: Ty<'tcx>) -> J {
        let t = self.norm(t);
        self.cx.ty(t)
    }
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::O(vec![("f", i(f.as_usize())), ("t", self.jty(t))]),
                ProjectionElem::Index(l) => J::O(vec![("ix", i(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::O(vec![("cix", J::I(offset as i128)), ("min", J::I(min_length as i128)), ("end", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::O(vec![("sub", J::I(from as i128)), ("to", J::I(to as i128)), ("end", J::B(from_end))])
                }
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", i(v.as_usize()))]),
                o => J::O(vec![("other", s(format!("{:?}", o)))]),
            });
        }
        J::O(vec![("l", i(p.local.as_usize())), ("p", J::A(v))])
    }

    fn fndef(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        // d, a already normalised in the caller's environment
        let tcx = self.cx.tcx;
        let mut o = vec![("p", s(path(tcx, d))), ("a", self.cx.args(a)), ("local", J::B(d.is_local()))];
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).instantiate_identity_().safety().is_unsafe() {
            o.push(("uns", J::B(true)));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("m", s(tcx.item_name(d).as_str())));
            o.push(("self", self.cx.ty(a.type_at(0))));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
            let rd = inst.def_id();
            o.push(("rp", s(path(tcx, rd))));
            o.push(("rlocal", J::B(rd.is_local())));
            o.push(("kind", s(match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                _ => "other",
            })));
            // a default method body reached through an unresolved Self stays abstract
            let item = match inst.def {
                InstanceKind::Item(x) => Some(x),
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => Some(rd),
                _ => None,
            };
            if let Some(x) = item {
                let want = if x.is_local() {
                    true
                } else {
                    let p = path(tcx, x);
                    self.depth < self.cx.nonlocal_depth && self.cx.allow.iter().any(|a| p.starts_with(a.as_str()))
                };
                let has = match tcx.def_kind(x) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.is_mir_available(x),
                    _ => false,
                };
                if want && has {
                    let depth = if x.is_local() { self.depth } else { self.depth + 1 };
                    let args = if matches!(inst.def, InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })) {
                        // the closure's own arguments
                        match a.type_at(0).kind() {
                            ty::Closure(_, ca) => *ca,
                            _ => inst.args,
                        }
                    } else {
                        inst.args
                    };
                    let root = self.key.2;
                    let id = self.cx.id((InstanceKind::Item(x), args, root, None), depth);
                    o.push(("id", i(id)));
                }
            }
        }
        J::O(o)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let k = self.norm(c.const_);
        let t = k.ty();
        let tj = self.cx.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let f = self.fndef(*d, a.skip_binder());
            return J::O(vec![("k", s("fn")), ("f", f)]);
        }
        match k {
            mir::Const::Ty(_, c) => J::O(vec![("k", s("cty")), ("c", self.cx.tyconst(c)), ("t", tj)]),
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let root = self.key.2;
                    let d = self.depth;
                    let id = self.cx.id((InstanceKind::Item(u.def), u.args, root, Some(p)), d);
                    return J::O(vec![("k", s("promoted")), ("id", i(id)), ("t", tj)]);
                }
                let mut o = vec![("k", s("uneval")), ("p", s(path(tcx, u.def))), ("a", self.cx.args(u.args)), ("t", tj)];
                if let Some(tr) = tcx.trait_of_assoc(u.def) {
                    o.push(("trait", s(path(tcx, tr))));
                    o.push(("m", s(tcx.item_name(u.def).as_str())));
                    o.push(("self", self.cx.ty(u.args.type_at(0))));
                }
                if let Ok(v) = k.eval(tcx, self.env, c.span) {
                    if let Some(sc) = v.try_to_scalar_int() {
                        o.push(("bits", s(format!("{}", sc.to_bits(sc.size())))));
                        o.push(("size", J::I(sc.size().bytes() as i128)));
                    }
                } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                    if inst.def_id().is_local() {
                        let root = self.key.2;
                        let d = self.depth;
                        let id = self.cx.id((InstanceKind::Item(inst.def_id()), inst.args, root, None), d);
                        o.push(("id", i(id)));
                    }
                }
                J::O(o)
            }
            mir::Const::Val(v, _) => {
                if let Some(sc) = v.try_to_scalar_int() {
                    return J::O(vec![
                        ("k", s("val")),
                        ("bits", s(format!("{}", sc.to_bits(sc.size())))),
                        ("size", J::I(sc.size().bytes() as i128)),
                        ("t", tj),
                    ]);
                }
                J::O(vec![("k", s(if matches!(v, ConstValue::ZeroSized) { "zst" } else { "valother" })), ("t", tj), ("s", s(format!("{}", k)))])
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", s("const")), ("c", self.constant(c))]),
            #[allow(unreachable_patterns)]
            o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(*n);
                J::O(vec![("k", s("repeat")), ("o", self.operand(o)), ("n", self.cx.tyconst(n))])
            }
            Rvalue::Ref(_, b, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(b, BorrowKind::Mut { .. }))),
                ("pl", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("pl", self.place(p))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, self.cx.tcx);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{:?}", k))),
                    ("o", self.operand(o)),
                    ("t", self.jty(*t)),
                    ("from", self.jty(from)),
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&self.body.local_decls, self.cx.tcx);
                J::O(vec![
                    ("k", s("bin")),
                    ("op", s(format!("{:?}", op))),
                    ("a", self.operand(&ab.0)),
                    ("b", self.operand(&ab.1)),
                    ("t", self.jty(t)),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&self.body.local_decls, self.cx.tcx);
                J::O(vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("a", self.operand(a)), ("t", self.jty(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.cx.tcx).ty;
                J::O(vec![("k", s("discr")), ("pl", self.place(p)), ("t", self.jty(t))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("pl", self.place(p))]))]),
            Rvalue::Aggregate(k, ops) => {
                let tcx = self.cx.tcx;
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        o.push(("t", self.jty(*t)));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let a = self.norm(*a);
                        let def = tcx.adt_def(*d);
                        o.push(("ak", s("adt")));
                        o.push(("p", s(path(tcx, *d))));
                        o.push(("v", i(v.as_usize())));
                        o.push(("vn", s(def.variant(*v).name.as_str())));
                        o.push(("enum", J::B(def.is_enum())));
                        o.push(("fields", J::A(def.variant(*v).fields.iter().map(|f| s(f.name.as_str())).collect())));
                        o.push(("a", self.cx.args(a)));
                    }
                    AggregateKind::Closure(d, a) => {
                        let a = self.norm(*a);
                        o.push(("ak", s("closure")));
                        o.push(("p", s(path(tcx, *d))));
                        let root = self.key.2;
                        let depth = self.depth;
                        if tcx.is_mir_available(*d) {
                            let id = self.cx.id((InstanceKind::Item(*d), a, root, None), depth);
                            o.push(("id", i(id)));
                        }
                    }
                    k => {
                        o.push(("ak", s("other")));
                        o.push(("s", s(format!("{:?}", k))));
                    }
                }
                let v = ops.iter().map(|x| self.operand(x)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.cx.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }

    fn dump(&mut self) -> Vec<(&'static str, J)> {
        let body = self.body;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.jty(d.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(&b.1);
                        st.push(J::O(vec![("k", s("=")), ("pl", self.place(&b.0)), ("r", r), ("line", self.line(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![("k", s("setd")), ("pl", self.place(place)), ("v", i(variant_index.as_usize()))]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::O(vec![("k", s("dead")), ("l", i(l.as_usize()))])),
                    StatementKind::StorageLive(l) => st.push(J::O(vec![("k", s("live")), ("l", i(l.as_usize()))])),
                    StatementKind::Intrinsic(x) => st.push(J::O(vec![("k", s("intr")), ("s", s(format!("{:?}", x)))])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let mut t = match &term.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", i(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.cx.tcx);
                    vec![
                        ("k", s("switch")),
                        ("o", self.operand(discr)),
                        ("ty", self.jty(ty)),
                        ("vals", J::A(targets.iter().map(|(v, t)| J::A(vec![s(format!("{}", v)), i(t.as_usize())])).collect())),
                        ("else", i(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("k", s("terminate"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.cx.tcx).ty;
                    vec![("k", s("drop")), ("pl", self.place(place)), ("ty", self.jty(ty)), ("t", i(target.as_usize()))]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    vec![
                        ("k", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("dest", self.place(destination)),
                        ("t", target.map_or(J::Null, |t| i(t.as_usize()))),
                    ]
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    vec![
                        ("k", s("assert")),
                        ("o", self.operand(cond)),
                        ("exp", J::B(*expected)),
                        ("t", i(target.as_usize())),
                        ("msg", s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string())),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", i(real_target.as_usize()))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", i(real_target.as_usize()))],
                k => vec![("k", s("other")), ("s", s(format!("{:?}", k)))],
            };
            t.push(("line", line));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(t)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        vec![
            ("argc", i(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}

/// unsafe blocks written in the crate
struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VERIF_MIR_OUT") {
            Ok(x) => x,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if krate.as_str() != std::env::var("VERIF_CRATE").unwrap_or_default() {
            return Compilation::Continue;
        }
        let allow = std::env::var("VERIF_ALLOW").unwrap_or_default();
        let mut cx = Cx {
            tcx,
            ids: HashMap::new(),
            queue: VecDeque::new(),
            allow: allow.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            nonlocal_depth: 8,
        };
        let mut roots = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().map(|d| d.to_def_id()).collect();
        keys.sort_by_key(|d| path(tcx, *d));
        for d in keys {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let n = cx.id((InstanceKind::Item(d), args, d, None), 0);
            roots.push(i(n));
        }
        let mut bodies: Vec<J> = vec![];
        let mut total = 0usize;
        while let Some((key, depth)) = cx.queue.pop_front() {
            total += 1;
            let d = key.0.def_id();
            let id = cx.ids[&key];
            let env = TypingEnv::post_analysis(tcx, key.2);
            let mut o = vec![
                ("id", i(id)),
                ("p", s(path(tcx, d))),
                ("local", J::B(d.is_local())),
                ("root", s(path(tcx, key.2))),
                ("isroot", J::B(key.2 == d && key.3.is_none() && key.1 == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d)))),
                ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                ("args", cx.args(key.1)),
            ];
            let span = tcx.def_span(d);
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(span.lo());
            o.push(("file", s(format!("{}", lo.file.name.prefer_local_unconditionally()))));
            o.push(("line", i(lo.line)));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("name", s(tcx.item_name(d).as_str())));
                let g = tcx.generics_of(d);
                let _ = g;
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(path(tcx, t))));
                }
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", cx.ty(tcx.type_of(im).instantiate_identity_())));
                    if let Some(t) = tcx.impl_opt_trait_id(im) {
                        o.push(("impl_trait", s(path(tcx, t))));
                    }
                }
                o.push(("unsafe", J::B(tcx.fn_sig(d).instantiate_identity_().safety().is_unsafe())));
                o.push(("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "priv" })));
                o.push(("reachable", J::B(d.is_local() && tcx.effective_visibilities(()).is_reachable(d.expect_local()))));
            }
            if total > 6000 {
                o.push(("truncated", J::B(true)));
                bodies.push(J::O(o));
                continue;
            }
            let body: Option<&Body<'tcx>> = match key.3 {
                Some(p) => tcx.promoted_mir(d).get(p),
                None => match tcx.def_kind(d) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => Some(tcx.optimized_mir(d)),
                    _ => Some(tcx.mir_for_ctfe(d)),
                },
            };
            if let Some(body) = body {
                let mut bx = Bx { cx: &mut cx, key, env, depth, body };
                let mut b = bx.dump();
                o.append(&mut b);
            }
            bodies.push(J::O(o));
        }
        // enums / structs of the crate and the impls of traits
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            let dk = format!("{:?}", tcx.def_kind(d));
            if (dk.starts_with("AssocConst") || dk.starts_with("Const")) && !dk.starts_with("ConstParam") && tcx.trait_of_assoc(d).is_none() {
                let mut o = vec![("p", s(path(tcx, d))), ("n", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())), ("t", cx.ty(tcx.type_of(d).instantiate_identity_()))];
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if let Some(sc) = v.try_to_scalar_int() {
                            o.push(("bits", s(format!("{}", sc.to_bits(sc.size())))));
                        }
                    }
                }
                consts.push(J::O(o));
            }
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = def
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("n", s(v.name.as_str())),
                                ("f", J::A(v.fields.iter().map(|f| J::O(vec![("n", s(f.name.as_str())), ("t", cx.ty(tcx.type_of(f.did).instantiate_identity_()))])).collect())),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![("p", s(path(tcx, d))), ("kind", s(format!("{:?}", tcx.def_kind(d)))), ("variants", J::A(vs))]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![("self", cx.ty(tcx.type_of(d).instantiate_identity_())), ("of_trait", J::B(of_trait))];
                    if let Some(t) = tcx.impl_opt_trait_id(d) {
                        o.push(("trait", s(path(tcx, t))));
                    }
                    let items = tcx.associated_item_def_ids(d).iter().map(|x| J::A(vec![s(format!("{:?}", tcx.def_kind(*x))), s(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default()), s(path(tcx, *x))])).collect();
                    o.push(("items", J::A(items)));
                    o.push(("p", s(path(tcx, d))));
                    o.push(("preds", J::A(tcx.param_env(d).caller_bounds().map(|c| s(format!("{:?}", c))).collect())));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let items = tcx.associated_item_def_ids(d).iter().map(|x| J::A(vec![s(format!("{:?}", tcx.def_kind(*x))), s(tcx.opt_item_name(*x).map(|n| n.to_string()).unwrap_or_default()), J::B(tcx.defaultness(*x).has_value())])).collect();
                    traits.push(J::O(vec![("p", s(path(tcx, d))), ("items", J::A(items))]));
                }
                _ => {}
            }
        }
        let mut unsafes = vec![];
        let sm = tcx.sess.source_map();
        let mut site = |what: &str, d: DefId, sp: rustc_span::Span| {
            let ext = sp.from_expansion() && sp.in_external_macro(sm);
            let lo = sm.lookup_char_pos(sp.source_callsite().lo());
            let hi = sm.lookup_char_pos(sp.source_callsite().hi());
            unsafes.push(J::O(vec![
                ("what", s(what)),
                ("p", s(path(tcx, d))),
                ("file", s(format!("{}", lo.file.name.prefer_local_unconditionally()))),
                ("line", i(lo.line)),
                ("end", i(hi.line)),
                ("ext", J::B(ext)),
            ]));
        };
        for d in tcx.hir_body_owners() {
            let mut v = UnsafeV { tcx, out: vec![] };
            let b = tcx.hir_body_owned_by(d);
            rustc_hir::intravisit::Visitor::visit_expr(&mut v, b.value);
            for sp in v.out {
                site("block", d.to_def_id(), sp);
            }
        }
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(d).instantiate_identity_().safety().is_unsafe() {
                        site("fn", d, tcx.def_span(d));
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    if tcx.impl_trait_header(d).safety.is_unsafe() {
                        site("impl", d, tcx.def_span(d));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    if mutability.is_mut() {
                        site("static mut", d, tcx.def_span(d));
                    }
                }
                DefKind::Union => site("union", d, tcx.def_span(d)),
                DefKind::ForeignMod => site("extern", d, tcx.def_span(d)),
                _ => {}
            }
        }
        let j = J::O(vec![
            ("unsafes", J::A(unsafes)),
            ("crate", s(krate.as_str())),
            ("roots", J::A(roots)),
            ("bodies", J::A(bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("traits", J::A(traits)),
        ]);
        let mut st = String::new();
        j.w(&mut st);
        std::fs::write(out, st).unwrap();
        Compilation::Continue
    }
}

trait Inst<T> {
    fn instantiate_identity_(self) -> T;
}
impl<'tcx, T> Inst<T> for ty::EarlyBinder<'tcx, T> {
    fn instantiate_identity_(self) -> T {
        self.skip_binder()
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let extra = std::env::var("VERIF_RUSTC_ARGS").unwrap_or_default();
    args.extend(extra.split_whitespace().map(|x| x.to_string()));
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
