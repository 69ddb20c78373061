// rustc driver: dumps the type-checked, resolved MIR of the crate being compiled (and of the small
// foreign generic functions it reaches) as JSON. It is injected with RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

enum J { S(String), N(i128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => esc(s, o),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, queue: VecDeque<(DefId, u32)>, seen: HashSet<DefId>, adts: BTreeMap<String, J>, adt_seen: HashMap<DefId, ()> , depth: u32 }

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn want(&mut self, d: DefId) {
        if self.seen.insert(d) { self.queue.push_back((d, self.depth + 1)); }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        use rustc_middle::ty::*;
        match *t.kind() {
            Bool => J::A(vec![s("bool")]), Char => J::A(vec![s("char")]), Str => J::A(vec![s("str")]), Never => J::A(vec![s("never")]),
            Int(i) => J::A(vec![s("int"), s(i.name_str())]),
            Uint(i) => J::A(vec![s("int"), s(i.name_str())]),
            Float(f) => J::A(vec![s("float"), s(f.name_str())]),
            Param(p) => J::A(vec![s("param"), s(p.name.as_str())]),
            Adt(d, args) => { self.adt(d.did()); let a = args.types().map(|x| self.ty(x)).collect(); J::A(vec![s("adt"), s(self.key(d.did())), J::A(a)]) }
            Ref(_, t, m) => { let j = self.ty(t); J::A(vec![s("ref"), J::B(m.is_mut()), j]) }
            RawPtr(t, m) => { let j = self.ty(t); J::A(vec![s("ptr"), J::B(m.is_mut()), j]) }
            Slice(t) => { let j = self.ty(t); J::A(vec![s("slice"), j]) }
            Array(t, n) => { let j = self.ty(t); let n = match n.try_to_target_usize(self.tcx) { Some(n) => J::N(n as i128), None => self.kval(n) }; J::A(vec![s("array"), j, n]) }
            Tuple(ts) => { let a = ts.iter().map(|x| self.ty(x)).collect(); J::A(vec![s("tuple"), J::A(a)]) }
            FnDef(d, _) => J::A(vec![s("fndef"), s(self.key(d))]),
            Closure(d, _) => { self.want(d); J::A(vec![s("closure"), s(self.key(d))]) }
            Dynamic(preds, _) => J::A(vec![s("dyn"), s(preds.principal_def_id().map(|d| self.key(d)).unwrap_or_default())]),
            _ => J::A(vec![s("other"), s(format!("{:?}", t))]),
        }
    }
    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d, ()).is_some() { return; }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let j = if d.is_local() { self.ty(t) } else { s(format!("{:?}", t)) };
                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", j), ("vis_pub", J::B(f.vis.is_public()))]));
            }
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("fields", J::A(fs))]));
        }
        let mut o = vec![("local", J::B(d.is_local())), ("kind", s(format!("{:?}", def.adt_kind()))), ("variants", J::A(vs)), ("name", s(tcx.item_name(d).as_str()))];
        if d.is_local() {
            let env = TypingEnv::post_analysis(tcx, d);
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            o.push(("freeze", J::B(t.is_freeze(tcx, env))));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        let k = self.key(d);
        self.adts.insert(k, J::O(o));
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let inner = sm.lookup_char_pos(sp.lo());
        let _ = inner;
        J::S(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => { let j = self.ty(t); J::A(vec![s("field"), J::N(f.as_usize() as i128), j]) }
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("cindex"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("subslice"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), J::N(v.as_usize() as i128)]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            });
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(v)])
    }
    fn kval(&self, c: ty::Const<'tcx>) -> J {
        if let ty::ConstKind::Param(p) = c.kind() { return J::A(vec![s("cparam"), s(p.name.as_str())]); }
        if let Some(n) = c.try_to_target_usize(self.tcx) { return J::A(vec![s("constval"), J::N(n as i128)]); }
        if let Some(l) = c.try_to_leaf() { return J::A(vec![s("constval"), J::N(l.to_bits(l.size()) as i128)]); }
        J::A(vec![s("other"), s(format!("{:?}", c))])
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("key", s(self.key(d))), ("name", s(tcx.item_name(d).as_str().to_string()))];
        let tys: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(tys)));
        let cs: Vec<J> = args.consts().map(|c| self.kval(c)).collect();
        if !cs.is_empty() { o.push(("cargs", J::A(cs))); }
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.key(t)))); }
        if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let j = self.ty(st);
            o.push(("impl_self", j));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        }
        let mut res = d;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                if let ty::InstanceKind::Item(r) = inst.def {
                    res = r;
                    o.push(("resolved", s(self.key(r))));
                    let rt: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
                    o.push(("resolved_targs", J::A(rt)));
                    let rc: Vec<J> = inst.args.consts().map(|c| self.kval(c)).collect();
                    if !rc.is_empty() { o.push(("resolved_cargs", J::A(rc))); }
                    if let Some(i) = tcx.impl_of_assoc(r) {
                        let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                        let j = self.ty(st);
                        o.push(("resolved_self", j));
                    }
                } else {
                    o.push(("shim", s(format!("{:?}", inst.def).chars().take(80).collect::<String>())));
                }
            }
        }
        self.want(res);
        J::O(o)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::TyKind::FnDef(d, args) = *t.kind() {
            let cj = self.callee(d, args.skip_binder(), env);
            return J::O(vec![("k", s("const")), ("ty", tj), ("fn", cj)]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![("k", s("const")), ("ty", tj), ("promoted", J::N(p.as_usize() as i128)), ("def", s(self.key(u.def)))]);
            }
        }
        let mut o = vec![("k", s("const")), ("ty", tj)];
        if let Const::Unevaluated(u, _) = c.const_ { o.push(("path", s(self.key(u.def)))); }
        if let Const::Ty(_, ct) = c.const_ { if let ty::ConstKind::Param(p) = ct.kind() { o.push(("cparam", s(p.name.as_str()))); } }
        if let Const::Ty(_, ct) = c.const_ { o.push(("tyconst", s(format!("{:?}", ct)))); }
        match c.const_.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                o.push(("bits", s(bits.to_string())));
                o.push(("size", J::N(i.size().bytes() as i128)));
                if let ty::TyKind::Int(_) = t.kind() { o.push(("int", s(i.to_int(i.size()).to_string()))); }
            }
            Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) => {
                // reference to a static?
                let al = tcx.try_get_global_alloc(p.provenance.alloc_id());
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = al { o.push(("static", s(self.key(d)))); }
                o.push(("other", s("ptr")));
            }
            Ok(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
            Ok(v) => { let d = format!("{:?}", v); o.push(("other", s(d.chars().take(60).collect::<String>()))); }
            Err(_) => o.push(("uneval", J::B(true))),
        }
        J::O(o)
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let j = self.place(p); J::O(vec![("k", s("copy")), ("p", j)]) }
            Operand::Move(p) => { let j = self.place(p); J::O(vec![("k", s("move")), ("p", j)]) }
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            other => J::O(vec![("k", s("rtcheck")), ("d", s(format!("{:?}", other)))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => { let j = self.op(o, env); J::A(vec![s("use"), j]) }
            Rvalue::Repeat(o, n) => { let j = self.op(o, env); let n = match n.try_to_target_usize(self.tcx) { Some(n) => J::N(n as i128), None => self.kval(*n) }; J::A(vec![s("repeat"), j, n]) }
            Rvalue::Ref(_, bk, p) => { let j = self.place(p); J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), j]) }
            Rvalue::RawPtr(k, p) => { let j = self.place(p); J::A(vec![s("rawptr"), s(format!("{:?}", k)), j]) }
            Rvalue::Cast(k, o, t) => { let j = self.op(o, env); let tj = self.ty(*t); let st = J::Null; let _ = st; J::A(vec![s("cast"), s(format!("{:?}", k)), j, tj]) }
            Rvalue::BinaryOp(b, x) => { let a = self.op(&x.0, env); let c = self.op(&x.1, env); J::A(vec![s("bin"), s(format!("{:?}", b)), a, c]) }
            Rvalue::UnaryOp(u, o) => { let j = self.op(o, env); J::A(vec![s("un"), s(format!("{:?}", u)), j]) }
            Rvalue::Discriminant(p) => { let j = self.place(p); J::A(vec![s("discr"), j]) }
            Rvalue::CopyForDeref(p) => { let j = self.place(p); J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("p", j)])]) }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => { self.adt(*d); J::A(vec![s("adt"), s(self.key(*d)), J::N(v.as_usize() as i128), match f { Some(f) => J::N(f.as_usize() as i128), None => J::Null }]) }
                    AggregateKind::Closure(d, _) => { self.want(*d); J::A(vec![s("closure"), s(self.key(*d))]) }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.op(o, env)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for l in b.local_decls.iter() { let j = self.ty(l.ty); locals.push(j); }
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let j = self.place(p);
                names.push(J::A(vec![s(v.name.as_str()), j]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("assign"), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, J::N(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i))])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::N(l.as_usize() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::N(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::N(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v = targets.iter().map(|(v, t)| J::A(vec![s(v.to_string()), J::N(t.as_usize() as i128)])).collect();
                    J::A(vec![s("switch"), d, J::A(v), J::N(targets.otherwise().as_usize() as i128), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); let pt = place.ty(&b.local_decls, self.tcx).ty; let needs = pt.needs_drop(self.tcx, env); J::A(vec![s("drop"), p, J::N(target.as_usize() as i128), J::B(needs)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let a = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, match target { Some(t) => J::N(t.as_usize() as i128), None => J::Null }])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow_{:?}", op),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), J::N(target.as_usize() as i128), s(m)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), J::N(real_target.as_usize() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), J::N(real_target.as_usize() as i128)]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("span", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        vec![("args", J::N(b.arg_count as i128)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks))]
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let out = match std::env::var("VERIF_MIR_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        if name.as_str() != std::env::var("VERIF_MIR_CRATE").unwrap_or("rustdht".into()) { return Compilation::Continue; }
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), adts: BTreeMap::new(), adt_seen: HashMap::new(), depth: 0 };
        let mut fns: Vec<(String, J)> = vec![];
        for &l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            if cx.seen.insert(d) { cx.queue.push_back((d, 0)); }
        }
        let mut statics = vec![];
        let mut impls = vec![];
        let mut unsafe_impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(J::O(vec![("key", s(cx.key(d))), ("mut", J::B(mutability.is_mut())), ("ty", s(format!("{:?}", t))), ("freeze", J::B(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)))), ("span", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
                DefKind::Trait => {
                    let sup: Vec<J> = tcx.explicit_super_clauses_of(d).skip_binder().iter().filter_map(|(c, _)| c.as_trait_clause().map(|t| s(cx.key(t.def_id())))).collect();
                    let items: Vec<J> = tcx.associated_items(d).in_definition_order().map(|i| J::O(vec![("name", s(i.name().as_str())), ("key", s(cx.key(i.def_id))), ("default", J::B(i.defaultness(tcx).has_value()))])).collect();
                    traits.push((cx.key(d), J::O(vec![("super", J::A(sup)), ("items", J::A(items))])));
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    let st = cx.ty(tr.self_ty());
                    let items: Vec<(String, J)> = tcx.associated_items(d).in_definition_order().map(|i| (i.name().as_str().to_string(), s(cx.key(i.def_id)))).collect();
                    let o = J::O(vec![("trait", s(cx.key(tr.def_id))), ("self", st), ("items", J::M(items)), ("unsafe", J::B(h.safety.is_unsafe())), ("span", cx.span(tcx.def_span(d)))]);
                    impls.push(o);
                    if h.safety.is_unsafe() { unsafe_impls.push(s(format!("{:?}", tr))); }
                }
                _ => {}
            }
        }
        let dep_crates = ["num_complex", "num_traits", "num_integer", "transpose", "strength_reduce", "primal_check", "rustfft"];
        while let Some((d, depth)) = cx.queue.pop_front() {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            if d.is_local() {
                if !tcx.mir_keys(()).contains(&d.expect_local()) { continue; }
            } else {
                if !tcx.is_mir_available(d) { continue; }
                let cn = tcx.crate_name(d.krate);
                let dep = dep_crates.contains(&cn.as_str());
                if depth > (if dep { 4 } else { 3 }) { continue; }
                let b = tcx.optimized_mir(d);
                if b.basic_blocks.len() > (if dep { 200 } else { 25 }) { continue; }
            }
            cx.depth = depth;
            let env = TypingEnv::post_analysis(tcx, d);
            let b = tcx.optimized_mir(d);
            let mut o = vec![("name", s(tcx.def_path_str(d))), ("local", J::B(d.is_local())), ("span", cx.span(tcx.def_span(d)))];
            if k != DefKind::Closure {
                let sig = tcx.fn_sig(d).skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("short", s(tcx.item_name(d).as_str())));
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let j = cx.ty(st);
                o.push(("impl_self", j));
                if let Some(t) = tcx.impl_opt_trait_ref(i) { o.push(("impl_trait", s(cx.key(t.skip_binder().def_id)))); }
            }
            if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(cx.key(t)))); }
            if k == DefKind::Closure { o.push(("closure", J::B(true))); o.push(("parent", s(cx.key(tcx.parent(d))))); }
            if d.is_local() {
                let ub = tcx.hir_maybe_body_owned_by(d.expect_local()).is_some();
                let _ = ub;
            }
            let mut gs = vec![];
            let mut chain = vec![];
            let mut cur = Some(tcx.generics_of(if k == DefKind::Closure { tcx.typeck_root_def_id(d) } else { d }));
            while let Some(g) = cur { chain.push(g); cur = g.parent.map(|p| tcx.generics_of(p)); }
            for g in chain.iter().rev() { for p in &g.own_params { if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gs.push(s(p.name.as_str())); } } }
            o.push(("generics", J::A(gs)));
            let mut cg = vec![];
            for g in chain.iter().rev() { for p in &g.own_params { if matches!(p.kind, ty::GenericParamDefKind::Const { .. }) { cg.push(s(p.name.as_str())); } } }
            if !cg.is_empty() { o.push(("cgenerics", J::A(cg))); }
            let bj = cx.body(b, env);
            o.extend(bj);
            if d.is_local() {
                let pm = tcx.promoted_mir(d);
                let v: Vec<J> = pm.iter().map(|p| J::O(cx.body(p, env))).collect();
                o.push(("promoted", J::A(v)));
            } else {
                let pm = tcx.promoted_mir(d);
                let v: Vec<J> = pm.iter().map(|p| J::O(cx.body(p, env))).collect();
                o.push(("promoted", J::A(v)));
            }
            fns.push((cx.key(d), J::O(o)));
        }
        let adts: Vec<(String, J)> = std::mem::take(&mut cx.adts).into_iter().collect();
        let root = J::O(vec![("fns", J::M(fns)), ("adts", J::M(adts)), ("impls", J::A(impls)), ("traits", J::M(traits)), ("statics", J::A(statics)), ("unsafe_impls", J::A(unsafe_impls))]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&out, o).expect("write MIR dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|x| x == "rustc").unwrap_or(false) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
