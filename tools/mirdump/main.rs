//! mirdump: a rustc driver that dumps the MIR of every function of the crate being
//! compiled (phase: after borrowck-facing promotion, before drop elaboration and the
//! coroutine transform) as JSON. Used through RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    N(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => write!(o, "{n}").unwrap(),
            J::U(n) => write!(o, "{n}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    out: Vec<J>,
    ext: Vec<DefId>,
    seen: std::collections::HashSet<DefId>,
}

const LIBFNS: &[&str] = &[
    "std::option::Option::",
    "std::result::Result::",
    "std::task::Poll::",
    "std::ops::ControlFlow::",
    "core::bool::",
    "std::primitive::bool",
    "std::iter::Iterator::",
    "<std::ops::ControlFlow",
    "<std::option::Option<",
    "<std::result::Result<",
    "<std::task::Poll<",
];

// foreign ADTs whose fields are expanded structurally
const EXPAND: &[&str] = &[
    "std::option::Option",
    "std::result::Result",
    "std::task::Poll",
    "std::pin::Pin",
    "std::ops::ControlFlow",
    "std::ops::Range",
    "std::ops::RangeFrom",
    "std::ops::RangeTo",
    "std::ops::RangeFull",
    "std::ops::RangeToInclusive",
    "std::ops::RangeInclusive",
    "std::io::ErrorKind",
    "std::cmp::Ordering",
    "std::convert::Infallible",
    "std::sync::atomic::Ordering",
    "std::collections::hash_map::Entry",
    "std::net::SocketAddr",
    "std::cmp::Reverse",
    "tokio::sync::mpsc::error::TrySendError",
    "tokio::sync::mpsc::error::SendError",
    "tokio::sync::mpsc::error::TryRecvError",
    "log::Level",
    "log::LevelFilter",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    /// small functions of the standard library whose own MIR is interpreted
    fn want(&mut self, d: DefId) {
        if d.is_local() || self.seen.contains(&d) {
            return;
        }
        let p = self.path(d);
        if LIBFNS.iter().any(|l| p.starts_with(l)) && self.tcx.is_mir_available(d) {
            self.seen.insert(d);
            self.ext.push(d);
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::U(self.tyid(t) as u128)
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for t in a.iter() {
            if let Some(t) = t.as_type() {
                v.push(self.ty(t));
            }
        }
        J::A(v)
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.out.len();
        self.tys.insert(t, id);
        self.out.push(J::Null);
        let repr = with_no_trimmed_paths!(format!("{t}"));
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(repr))];
        let k = |o: &mut Vec<(&'static str, J)>, x: &str| o.push(("k", s(x)));
        match *t.kind() {
            ty::Bool => k(&mut o, "bool"),
            ty::Char => k(&mut o, "char"),
            ty::Int(i) => {
                k(&mut o, "int");
                o.push(("signed", J::B(true)));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Uint(i) => {
                k(&mut o, "int");
                o.push(("signed", J::B(false)));
                o.push(("bits", J::U(i.bit_width().unwrap_or(64) as u128)));
            }
            ty::Float(_) => k(&mut o, "float"),
            ty::Str => k(&mut o, "str"),
            ty::Never => k(&mut o, "never"),
            ty::Adt(def, a) => {
                k(&mut o, "adt");
                let path = self.path(def.did());
                o.push(("local", J::B(def.did().is_local())));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let args = self.args(a);
                o.push(("args", args));
                let krate = tcx.crate_name(def.did().krate).to_string();
                let expand = def.did().is_local() || krate.starts_with("protosocket") || EXPAND.contains(&path.as_str());
                o.push(("crate", s(krate)));
                o.push(("path", s(path)));
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { J::N(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::N(0) };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = self.norm(f.ty(tcx, a).skip_norm_wip());
                            let fj = self.ty(ft);
                            fs.push(J::O(vec![("name", s(f.name)), ("ty", fj)]));
                        }
                        vs.push(J::O(vec![("name", s(v.name)), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Array(e, n) => {
                k(&mut o, "array");
                let e = self.ty(e);
                o.push(("elem", e));
                o.push(("len", n.try_to_target_usize(tcx).map(|n| J::U(n as u128)).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                k(&mut o, "slice");
                let e = self.ty(e);
                o.push(("elem", e));
            }
            ty::RawPtr(e, m) => {
                k(&mut o, "ptr");
                let e = self.ty(e);
                o.push(("ty", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                k(&mut o, "ref");
                let e = self.ty(e);
                o.push(("ty", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                k(&mut o, "fndef");
                let _ = a;
                o.push(("path", s(self.path(d))));
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Dynamic(..) => k(&mut o, "dyn"),
            ty::Closure(d, a) => {
                k(&mut o, "closure");
                self.want(d);
                o.push(("path", s(self.path(d))));
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(up)));
            }
            ty::Coroutine(d, a) => {
                k(&mut o, "coroutine");
                o.push(("path", s(self.path(d))));
                let up: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(up)));
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Param(p) => {
                k(&mut o, "param");
                o.push(("name", s(p.name)));
            }
            ty::Alias(..) => {
                k(&mut o, "alias");
            }
            _ => k(&mut o, "other"),
        }
        self.out[id] = J::O(o);
        id
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        t
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let next = pt.projection_ty(self.tcx, e);
            proj.push(match e {
                ProjectionElem::Deref => J::O(vec![("k", s("deref"))]),
                ProjectionElem::Field(f, _t) => {
                    let tj = self.ty(next.ty);
                    J::O(vec![("k", s("field")), ("i", J::U(f.as_usize() as u128)), ("ty", tj)])
                }
                ProjectionElem::Index(l) => J::O(vec![("k", s("index")), ("l", J::U(l.as_usize() as u128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("k", s("cindex")),
                    ("off", J::U(offset as u128)),
                    ("min", J::U(min_length as u128)),
                    ("from_end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("k", s("subslice")),
                    ("from", J::U(from as u128)),
                    ("to", J::U(to as u128)),
                    ("from_end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(n, v) => J::O(vec![
                    ("k", s("downcast")),
                    ("v", J::U(v.as_usize() as u128)),
                    ("name", n.map(|n| s(n)).unwrap_or(J::Null)),
                ]),
                ProjectionElem::OpaqueCast(_) => J::O(vec![("k", s("opaquecast"))]),
                _ => J::O(vec![("k", s("other"))]),
            });
            pt = next;
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", J::U(p.local.as_usize() as u128)), ("p", J::A(proj)), ("ty", t)])
    }

    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let args = self.args(a);
        let mut o = vec![
            ("path", s(self.path(d))),
            ("crate", s(tcx.crate_name(d.krate))),
            ("name", tcx.opt_item_name(d).map(|n| s(n)).unwrap_or(J::Null)),
            ("args", args),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let st = a.type_at(0);
            let stj = self.ty(st);
            o.push(("self", stj));
            let te = ty::TypingEnv::post_analysis(tcx, owner);
            if !a.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, a) {
                    if let ty::InstanceKind::Item(rd) = inst.def {
                        self.want(rd);
                        o.push(("resolved", s(self.path(rd))));
                        o.push(("resolved_crate", s(tcx.crate_name(rd.krate))));
                    }
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            self.want(d);
            let imp = tcx.parent(d);
            if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                let st = tcx.type_of(imp).instantiate(tcx, a).skip_norm_wip();
                let stj = self.ty(st);
                o.push(("self", stj));
            }
        } else if matches!(tcx.def_kind(d), DefKind::Fn) {
            self.want(d);
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
        }
        J::O(o)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        if let ty::FnDef(d, a) = *t.kind() {
            o.push(("fn", self.fnref(d, a.skip_binder(), owner)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::U(p.as_usize() as u128)));
                o.push(("of", s(self.path(u.def))));
                return J::O(o);
            }
            o.push(("const", s(self.path(u.def))));
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                o.push(("param", s(p.name)));
                return J::O(o);
            }
        }
        let te = ty::TypingEnv::post_analysis(tcx, owner);
        let generic = c.const_.has_param();
        if !generic && (t.is_integral() || t.is_bool() || t.is_char()) {
            if let Some(b) = c.const_.try_eval_bits(tcx, te) {
                if t.is_signed() {
                    let size = match t.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 64,
                    };
                    let sh = 128 - size as u32;
                    o.push(("int", J::N(((b << sh) as i128) >> sh)));
                } else {
                    o.push(("int", J::U(b)));
                }
                return J::O(o);
            }
        }
        if let Const::Val(cv, _) = c.const_ {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b))));
                        return J::O(o);
                    }
                }
            }
            if matches!(cv, ConstValue::ZeroSized) {
                o.push(("zst", J::B(true)));
                return J::O(o);
            }
        }
        o.push(("opaque", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, p: &Operand<'tcx>, owner: DefId) -> J {
        match p {
            Operand::Copy(p) => {
                let pj = self.place(body, p);
                J::O(vec![("k", s("copy")), ("p", pj)])
            }
            Operand::Move(p) => {
                let pj = self.place(body, p);
                J::O(vec![("k", s("move")), ("p", pj)])
            }
            Operand::Constant(c) => {
                let cj = self.constant(c, owner);
                J::O(vec![("k", s("const")), ("c", cj)])
            }
            _ => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, owner: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let oj = self.operand(body, o, owner);
                J::O(vec![("k", s("use")), ("o", oj)])
            }
            Rvalue::Repeat(o, n) => {
                let oj = self.operand(body, o, owner);
                J::O(vec![("k", s("repeat")), ("o", oj), ("n", n.try_to_target_usize(self.tcx).map(|n| J::U(n as u128)).unwrap_or(J::Null))])
            }
            Rvalue::Ref(_, bk, p) => {
                let pj = self.place(body, p);
                let m = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::O(vec![("k", s("ref")), ("b", s(m)), ("p", pj)])
            }
            Rvalue::RawPtr(k, p) => {
                let pj = self.place(body, p);
                J::O(vec![("k", s("rawptr")), ("b", s(format!("{k:?}"))), ("p", pj)])
            }
            Rvalue::Cast(ck, o, t) => {
                let oj = self.operand(body, o, owner);
                let tj = self.ty(*t);
                J::O(vec![("k", s("cast")), ("c", s(format!("{ck:?}"))), ("o", oj), ("ty", tj)])
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(body, &b.0, owner);
                let r = self.operand(body, &b.1, owner);
                let t = b.0.ty(body, self.tcx);
                let tj = self.ty(t);
                J::O(vec![("k", s("bin")), ("op", s(format!("{op:?}"))), ("l", l), ("r", r), ("ty", tj)])
            }
            Rvalue::UnaryOp(op, o) => {
                let oj = self.operand(body, o, owner);
                J::O(vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("o", oj)])
            }
            Rvalue::Discriminant(p) => {
                let pj = self.place(body, p);
                J::O(vec![("k", s("discr")), ("p", pj)])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, o, owner)).collect();
                let mut o = vec![("k", s("agg")), ("ops", J::A(os))];
                match **k {
                    AggregateKind::Array(_) => o.push(("a", s("array"))),
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, v, ..) => {
                        o.push(("a", s("adt")));
                        o.push(("path", s(self.path(d))));
                        o.push(("v", J::U(v.as_usize() as u128)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("a", s("closure")));
                        o.push(("path", s(self.path(d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("a", s("coroutine")));
                        o.push(("path", s(self.path(d))));
                    }
                    _ => o.push(("a", s("other"))),
                }
                let t = r.ty(body, self.tcx);
                let tj = self.ty(t);
                o.push(("ty", tj));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", pj)]))])
            }
            Rvalue::ThreadLocalRef(_) => J::O(vec![("k", s("tls"))]),
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{r:?}")))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }

    fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_l, d) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(body, &p);
                names.push(J::O(vec![("n", s(v.name)), ("p", pj)]));
            }
        }
        let mut blocks = vec![];
        for (_b, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &data.statements {
                let j = match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1, owner);
                        J::O(vec![("k", s("assign")), ("p", p), ("r", r), ("sp", self.line(x.source_info.span))])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        J::O(vec![("k", s("setdiscr")), ("p", p), ("v", J::U(variant_index.as_usize() as u128))])
                    }
                    StatementKind::StorageDead(l) => J::O(vec![("k", s("dead")), ("l", J::U(l.as_usize() as u128))]),
                    StatementKind::StorageLive(l) => J::O(vec![("k", s("live")), ("l", J::U(l.as_usize() as u128))]),
                    StatementKind::Intrinsic(i) => J::O(vec![("k", s("intrinsic")), ("s", s(format!("{i:?}")))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = data.terminator();
            let bb = |b: BasicBlock| J::U(b.as_usize() as u128);
            let mut o: Vec<(&'static str, J)> = vec![];
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => bb(*b),
                _ => J::Null,
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bb(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let d = self.operand(body, discr, owner);
                    o.push(("d", d));
                    let dt = discr.ty(body, tcx);
                    let dj = self.ty(dt);
                    o.push(("dty", dj));
                    o.push(("ts", J::A(targets.iter().map(|(v, b)| J::A(vec![J::U(v), bb(b)])).collect())));
                    o.push(("o", bb(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("terminate"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", s("drop")));
                    let p = self.place(body, place);
                    o.push(("p", p));
                    o.push(("t", bb(*target)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", s("call")));
                    let f = self.operand(body, func, owner);
                    o.push(("f", f));
                    let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, owner)).collect();
                    o.push(("a", J::A(a)));
                    let d = self.place(body, destination);
                    o.push(("d", d));
                    o.push(("t", target.map(bb).unwrap_or(J::Null)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("k", s("assert")));
                    let c = self.operand(body, cond, owner);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds check".to_string(),
                        AssertKind::Overflow(op, ..) => format!("{op:?} overflow"),
                        other => format!("{other:?}"),
                    };
                    o.push(("m", s(m)));
                    o.push(("t", bb(*target)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    o.push(("k", s("yield")));
                    let v = self.operand(body, value, owner);
                    o.push(("v", v));
                    o.push(("t", bb(*resume)));
                    let p = self.place(body, resume_arg);
                    o.push(("arg", p));
                    o.push(("drop", drop.map(bb).unwrap_or(J::Null)));
                }
                TerminatorKind::CoroutineDrop => o.push(("k", s("coroutinedrop"))),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bb(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bb(*real_target)));
                }
                _ => o.push(("k", s("other"))),
            }
            o.push(("sp", self.line(t.source_info.span)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("cleanup", J::B(data.is_cleanup))]));
        }
        J::O(vec![
            ("argc", J::U(body.arg_count as u128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("phase", s(format!("{:?}", body.phase))),
        ])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_DIR") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, tys: HashMap::new(), out: vec![], ext: vec![], seen: Default::default() };
        let mut bodies = vec![];
        for &ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(ld);
            let b = b.borrow().clone();
            let p = p.borrow().clone();
            bodies.push((ld, kind, b, p));
        }
        let mut fns = vec![];
        for (ld, kind, b, p) in &bodies {
            let did = ld.to_def_id();
            let mut o: Vec<(&'static str, J)> = vec![];
            o.push(("path", s(cx.path(did))));
            o.push(("kind", s(format!("{kind:?}"))));
            o.push(("name", tcx.opt_item_name(did).map(|n| s(n)).unwrap_or(J::Null)));
            o.push(("vis", s(if matches!(kind, DefKind::Closure) { "closure".to_string() } else if tcx.visibility(did).is_public() { "pub".into() } else { "priv".into() })));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            o.push(("coroutine", J::B(tcx.is_coroutine(did))));
            let mut root = did;
            while matches!(tcx.def_kind(root), DefKind::Closure) {
                root = tcx.parent(root);
            }
            if matches!(tcx.def_kind(root), DefKind::AssocFn) {
                let imp = tcx.parent(root);
                if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    if let ty::Adt(d, _) = st.kind() {
                        o.push(("impl_self", s(tcx.item_name(d.did()))));
                        o.push(("impl_self_path", s(cx.path(d.did()))));
                    }
                    let stj = cx.ty(st);
                    o.push(("impl_self_ty", stj));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let td = tr.skip_binder().def_id;
                        o.push(("impl_trait", s(tcx.item_name(td))));
                        o.push(("impl_trait_path", s(cx.path(td))));
                    }
                } else {
                    o.push(("in_trait", s(cx.path(imp))));
                }
            }
            let bj = cx.body(b, did);
            o.push(("body", bj));
            let pj: Vec<J> = p.iter().map(|b| cx.body(b, did)).collect();
            o.push(("promoted", J::A(pj)));
            o.push(("sp", cx.line(tcx.def_span(did))));
            fns.push(J::O(o));
        }
        while let Some(d) = cx.ext.pop() {
            let kind = tcx.def_kind(d);
            let mut o: Vec<(&'static str, J)> = vec![];
            o.push(("path", s(cx.path(d))));
            o.push(("kind", s(format!("{kind:?}"))));
            o.push(("name", tcx.opt_item_name(d).map(|n| s(n)).unwrap_or(J::Null)));
            o.push(("vis", s("ext")));
            o.push(("ext", J::B(true)));
            let b = tcx.optimized_mir(d);
            let bj = cx.body(b, d);
            o.push(("body", bj));
            let pj: Vec<J> = tcx.promoted_mir(d).iter().map(|b| cx.body(b, d)).collect();
            o.push(("promoted", J::A(pj)));
            o.push(("sp", cx.line(tcx.def_span(d))));
            fns.push(J::O(o));
        }
        let tys = std::mem::take(&mut cx.out);
        let top = J::O(vec![("crate", s(&krate)), ("types", J::A(tys)), ("fns", J::A(fns))]);
        let mut out = String::new();
        top.w(&mut out);
        let suffix = if tcx.sess.opts.test { "-test" } else { "" };
        std::fs::write(format!("{dir}/{krate}{suffix}.json"), out).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: driver rustc args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
