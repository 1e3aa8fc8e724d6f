//! mkfacts: a rustc driver which dumps the type-checked program of one crate
//! (built MIR with resolved callees, type definitions, impls, evaluated
//! constants) as JSON.  Used through RUSTC_WORKSPACE_WRAPPER; it behaves like
//! plain rustc for every other crate.
#![feature(rustc_private)]
#![allow(internal_features)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = RefCell::new(Vec::new());
}
type Built = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<Built> = OnceLock::new();

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // Only kept until after_analysis of the same session.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((def, b)));
    r
}

// ---------------------------------------------------------------- JSON
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => o.push_str(&n.to_string()),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    o.push('"');
                    o.push_str(n);
                    o.push_str("\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_recs: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_q: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy | DefKind::Const { .. } => {
                if let Some(p) = tcx.opt_parent(d) {
                    match tcx.def_kind(p) {
                        DefKind::Impl { of_trait } => {
                            let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                            let st = self.ty_head(self_ty);
                            if of_trait {
                                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                                return format!("<{} as {}>::{}", st, self.plain(tr.def_id), name);
                            }
                            return format!("{}::{}", st, name);
                        }
                        DefKind::Trait => return format!("{}::{}", self.plain(p), name),
                        _ => {}
                    }
                }
                self.plain(d)
            }
            DefKind::Closure => {
                let p = tcx.parent(d);
                let dp = tcx.def_path(d);
                let dis = dp.data.last().map(|x| x.disambiguator).unwrap_or(0);
                format!("{}::{{closure#{}}}", self.path(p), dis)
            }
            _ => self.plain(d),
        }
    }
    fn plain(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let dp = tcx.def_path(d);
        let mut o = tcx.crate_name(d.krate).to_string();
        for x in &dp.data {
            o.push_str("::");
            o.push_str(&x.as_sym(false).to_string());
        }
        o
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.plain(a.did()),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_head(*t)),
            ty::Param(p) => p.name.to_string(),
            ty::Tuple(_) => "tuple".into(),
            ty::RawPtr(..) => "ptr".into(),
            _ => with_no_trimmed_paths!(t.to_string()),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(s(format!("{}", c))),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(k) = self.types.get(&t) {
            return *k;
        }
        let id = self.type_recs.len();
        self.types.insert(t, id);
        self.type_recs.push(J::N);
        let rec = match t.kind() {
            ty::Bool => J::A(vec![s("bool")]),
            ty::Char => J::A(vec![s("char")]),
            ty::Int(x) => J::A(vec![s("int"), s(x.name_str())]),
            ty::Uint(x) => J::A(vec![s("int"), s(x.name_str())]),
            ty::Float(x) => J::A(vec![s("float"), s(x.name_str())]),
            ty::Adt(a, args) => {
                if self.adts.insert(a.did(), ()).is_none() {
                    self.adt_q.push(a.did());
                }
                let aj = self.args(args);
                J::A(vec![s("adt"), s(self.plain(a.did())), aj])
            }
            ty::Str => J::A(vec![s("str")]),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::N);
                let e = self.ty(*e);
                J::A(vec![s("array"), e, n])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                J::A(vec![s("slice"), e])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                J::A(vec![s("ptr"), e, J::B(m.is_mut())])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::A(vec![s("ref"), e, J::B(m.is_mut())])
            }
            ty::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let aj = self.args(a.skip_binder());
                J::A(vec![s("fndef"), s(self.path(d)), aj])
            }
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(with_no_trimmed_paths!(t.to_string()))]),
            ty::Dynamic(preds, _) => {
                let mut n = String::new();
                let mut aj = J::A(vec![]);
                if let Some(p) = preds.principal() {
                    let p = p.skip_binder();
                    n = self.plain(p.def_id);
                    aj = self.args(p.args);
                }
                J::A(vec![s("dyn"), s(n), aj])
            }
            ty::Closure(d, a) => {
                let up = self.ty_list(a.as_closure().upvar_tys());
                J::A(vec![s("closure"), s(self.path(*d)), up])
            }
            ty::Coroutine(d, a) => {
                let up = self.ty_list(a.as_coroutine().upvar_tys());
                J::A(vec![s("coroutine"), s(self.path(*d)), up])
            }
            ty::Never => J::A(vec![s("never")]),
            ty::Tuple(l) => {
                let l = self.ty_list(l);
                J::A(vec![s("tuple"), l])
            }
            ty::Param(p) => J::A(vec![s("param"), s(p.name)]),
            _ => J::A(vec![s("other"), s(with_no_trimmed_paths!(t.to_string()))]),
        };
        self.type_recs[id] = rec;
        id
    }
    fn ty_list(&mut self, l: &'tcx ty::List<Ty<'tcx>>) -> J {
        let mut v = vec![];
        for t in l.iter() {
            v.push(self.ty(t));
        }
        J::A(v)
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    // --- constants
    fn alloc_bytes(&self, id: AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if !m.provenance().ptrs().is_empty() {
                    return None;
                }
                let n = m.len();
                let end = len.map(|l| off + l).unwrap_or(n);
                if end > n {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn bytes(b: &[u8]) -> J {
        J::A(b.iter().map(|x| J::I(*x as i128)).collect())
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, out: &mut Vec<(&'static str, J)>) {
        match sc {
            Scalar::Int(n) => {
                let size = n.size();
                let v: i128 = match t.kind() {
                    ty::Int(_) => n.to_int(size),
                    _ => n.to_uint(size) as i128,
                };
                out.push(("int", J::I(v)));
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Function { instance } => {
                        out.push(("fnptr", s(self.path(instance.def_id()))));
                    }
                    GlobalAlloc::Static(d) => out.push(("static", s(self.path(d)))),
                    _ => {
                        if let Some(b) = self.alloc_bytes(id, off.bytes_usize(), None) {
                            out.push(("ptr_bytes", Self::bytes(&b)));
                        } else {
                            out.push(("opaque", J::B(true)));
                        }
                    }
                }
            }
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ct = c.const_;
        let t = ct.ty();
        let mut out: Vec<(&'static str, J)> = vec![];
        let tj = self.ty(t);
        out.push(("ty", tj));
        if let ty::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let f = self.callee(d, args.skip_binder(), env);
            out.push(("fn", f));
            return J::O(out);
        }
        if let Const::Unevaluated(u, _) = ct {
            let aj = self.args(u.args);
            out.push(("named", s(self.path(u.def))));
            out.push(("nargs", aj));
        }
        if let Const::Ty(_, k) = ct {
            out.push(("tyconst", s(format!("{}", k))));
        }
        match ct.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(sc)) => self.scalar(sc, t, &mut out),
            Ok(ConstValue::ZeroSized) => out.push(("zst", J::B(true))),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, None) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            out.push(("str", s(String::from_utf8_lossy(&b[..meta as usize]))));
                        } else {
                            out.push(("ptr_bytes", Self::bytes(&b)));
                        }
                    }
                }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                let len = tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes_usize());
                if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes_usize(), len) {
                    out.push(("mem", Self::bytes(&b)));
                } else {
                    out.push(("opaque", J::B(true)));
                }
            }
            Err(_) => out.push(("generic", J::B(true))),
        }
        J::O(out)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let aj = self.args(args);
        let mut o = vec![("path", s(self.path(d))), ("args", aj), ("local", J::B(d.is_local()))];
        if let Some(p) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.plain(p))));
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                match inst.def {
                    InstanceKind::Item(r) => {
                        let ra = self.args(inst.args);
                        o.push(("res", s(self.path(r))));
                        o.push(("res_local", J::B(r.is_local())));
                        o.push(("res_args", ra));
                    }
                    InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                    _ => {}
                }
            }
        } else if let DefKind::Ctor(..) = kind {
            let p = tcx.parent(d);
            o.push(("ctor", s(self.plain(p))));
        }
        J::O(o)
    }

    // --- bodies
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let mut name = f.index().to_string();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if a.variants().len() > v.index() && a.variant(v).fields.len() > f.index() {
                            name = a.variant(v).fields[f].name.to_string();
                        }
                    }
                    let tj = self.ty(t);
                    J::A(vec![s("f"), i(f.index()), s(name), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    J::A(vec![s("d"), i(v.index()), s(n.map(|n| n.to_string()).unwrap_or_default())])
                }
                _ => J::A(vec![s("?")]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![i(p.local.index()), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p, body);
                J::A(vec![s("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p, body);
                J::A(vec![s("m"), p])
            }
            Operand::Constant(c) => {
                let k = self.konst(c, env);
                J::A(vec![s("k"), k])
            }
            _ => J::A(vec![s("?")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o, body, env);
                J::A(vec![s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, body, env);
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::N);
                J::A(vec![s("repeat"), o, n])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p, body);
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p, body);
                J::A(vec![s("rawptr"), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, body, env);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, body, env);
                let b = self.operand(&ab.1, body, env);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, b])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a, body, env);
                J::A(vec![s("un"), s(format!("{:?}", op)), a])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p, body);
                J::A(vec![s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let k = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let adt = self.tcx.adt_def(*d);
                        let aj = self.args(a);
                        J::A(vec![
                            s("adt"),
                            s(self.plain(*d)),
                            i(v.index()),
                            s(adt.variant(*v).name),
                            aj,
                            J::A(adt.variant(*v).fields.iter().map(|f| s(f.name)).collect()),
                            af.map(|f| i(f.index())).unwrap_or(J::N),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(self.path(*d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![s("coroutine_closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                let v = ops.iter().map(|o| self.operand(o, body, env)).collect();
                J::A(vec![s("agg"), k, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, body);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, body);
                J::A(vec![s("reborrow"), J::B(m.is_mut()), p])
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, d: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(&p, body);
                    upnames.push(J::A(vec![s(v.name), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            locals.push(J::A(vec![t, names.get(&l.index()).map(|n| s(n)).unwrap_or(J::N), J::B(decl.mutability.is_mut())]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![s("setd"), p, i(variant_index.index())]));
                    }
                    StatementKind::Intrinsic(x) => st.push(J::A(vec![s("intr"), s(format!("{:?}", x))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bi = |b: BasicBlock| i(b.index());
            let mut o = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(s("goto"));
                    o.push(bi(*target));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.operand(discr, body, env);
                    let dt = discr.ty(body, tcx);
                    let dt = self.ty(dt);
                    o.push(s("switch"));
                    o.push(dj);
                    o.push(J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bi(b)])).collect()));
                    o.push(bi(targets.otherwise()));
                    o.push(dt);
                }
                TerminatorKind::Return => o.push(s("return")),
                TerminatorKind::Unreachable => o.push(s("unreachable")),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, body);
                    o.push(s("drop"));
                    o.push(p);
                    o.push(bi(*target));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, body, env);
                    let a = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    let dp = self.place(destination, body);
                    o.push(s("call"));
                    o.push(f);
                    o.push(J::A(a));
                    o.push(dp);
                    o.push(target.map(|b| bi(b)).unwrap_or(J::N));
                    o.push(self.span(*fn_span));
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, body, env);
                    let a = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    o.push(s("tailcall"));
                    o.push(f);
                    o.push(J::A(a));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, body, env);
                            let ix = self.operand(index, body, env);
                            J::A(vec![s("bounds"), l, ix])
                        }
                        AssertKind::Overflow(op, ..) => J::A(vec![s("overflow"), s(format!("{:?}", op))]),
                        _ => J::A(vec![s("other")]),
                    };
                    o.push(s("assert"));
                    o.push(c);
                    o.push(J::B(*expected));
                    o.push(m);
                    o.push(bi(*target));
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, body, env);
                    let p = self.place(resume_arg, body);
                    o.push(s("yield"));
                    o.push(v);
                    o.push(bi(*resume));
                    o.push(p);
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(s("goto"));
                    o.push(bi(*real_target));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(s("goto"));
                    o.push(bi(*real_target));
                }
                k => {
                    o.push(s("other"));
                    o.push(s(k.name()));
                }
            }
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::A(o)), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let kind = format!("{:?}", tcx.def_kind(did));
        let parent = tcx.opt_parent(did).map(|p| s(self.path(p))).unwrap_or(J::N);
        let mut o = vec![
            ("path", s(self.path(did))),
            ("plain", s(self.plain(did))),
            ("kind", s(kind)),
            ("parent", parent),
            ("args", i(body.arg_count)),
            ("span", self.span(tcx.def_span(did))),
            ("locals", J::A(locals)),
            ("upnames", J::A(upnames)),
            ("coroutine", J::B(body.coroutine.is_some())),
            ("blocks", J::A(blocks)),
        ];
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            let out = self.ty(sig.output());
            o.push(("inputs", J::A(ins)));
            o.push(("output", out));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
            let gens = tcx.generics_of(did);
            let mut g = vec![];
            let mut cur = Some(gens);
            while let Some(x) = cur {
                let mut own: Vec<J> = x.own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name)).collect();
                own.append(&mut g);
                g = own;
                cur = x.parent.map(|p| tcx.generics_of(p));
            }
            o.push(("generics", J::A(g)));
        }
        J::O(o)
    }
    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let discr: Vec<i128> = if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val as i128).collect() } else { vec![0] };
        for (k, v) in a.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = if d.is_local() || tcx.crate_name(d.krate).as_str() == "core" {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    if d.is_local() { self.ty(t) } else { J::N }
                } else {
                    J::N
                };
                fs.push(J::A(vec![s(f.name), t, s(format!("{:?}", f.vis))]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name)),
                ("discr", discr.get(k).map(|x| J::I(*x)).unwrap_or(J::N)),
                ("fields", J::A(fs)),
            ]));
        }
        let mut g = vec![];
        for p in &tcx.generics_of(d).own_params {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                g.push(s(p.name));
            }
        }
        let sp = if d.is_local() { self.span(tcx.def_span(d)) } else { J::N };
        J::O(vec![
            ("path", s(self.plain(d))),
            ("local", J::B(d.is_local())),
            ("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
            ("generics", J::A(g)),
            ("variants", J::A(vs)),
            ("span", sp),
        ])
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let bodies = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
        let mut cx = Cx { tcx, types: HashMap::new(), type_recs: vec![], adts: HashMap::new(), adt_q: vec![] };
        let mut bj = vec![];
        let mut seen = std::collections::HashSet::new();
        for (d, b) in bodies.iter() {
            if !seen.insert(*d) {
                continue;
            }
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            bj.push(cx.body(*d, b));
        }
        // impls, traits, consts, unsafe regions
        let mut impls = vec![];
        let mut consts = vec![];
        let mut mods = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let stj = cx.ty(st);
                    let items = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|a| J::A(vec![s(a.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(cx.path(a.def_id))]))
                        .collect();
                    let mut o = vec![("self", stj), ("items", J::A(items)), ("span", cx.span(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.plain(tr.def_id))));
                        let aj = cx.args(tr.args);
                        o.push(("trait_args", aj));
                    }
                    impls.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tj = cx.ty(t);
                    consts.push(J::O(vec![("path", s(cx.path(did))), ("ty", tj), ("span", cx.span(tcx.def_span(did)))]));
                }
                DefKind::Mod => mods.push(s(cx.plain(did))),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    cx.ty(t);
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        while let Some(d) = cx.adt_q.pop() {
            adts.push(cx.adt(d));
        }
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("bodies", J::A(bj)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("mods", J::A(mods)),
            ("adts", J::A(adts)),
            ("types", J::A(std::mem::take(&mut cx.type_recs))),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        rustc_driver::Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(run)
}

fn run() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MKFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MKFACTS_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    if !out.is_empty() && name.as_deref() == Some(want.as_str()) {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
