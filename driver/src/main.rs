//! rustc driver: dumps the MIR (as built from the type-checked program, before any
//! transformation) of every local body as JSON, for the analyses in ../analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn ser(j: &J, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::B(b) => out.push_str(if *b { "true" } else { "false" }),
        J::I(n) => {
            let _ = write!(out, "{}", n);
        }
        J::S(x) => esc(out, x),
        J::A(v) => {
            out.push('[');
            for (n, x) in v.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                ser(x, out);
            }
            out.push(']');
        }
        J::O(v) => {
            out.push('{');
            for (n, (k, x)) in v.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                esc(out, k);
                out.push(':');
                ser(x, out);
            }
            out.push('}');
        }
        J::M(v) => {
            out.push('{');
            for (n, (k, x)) in v.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                esc(out, k);
                out.push(':');
                ser(x, out);
            }
            out.push('}');
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    defs: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&mut self, d: DefId) -> J {
        let key = self.id_str(d);
        if !self.defs.contains_key(&key) {
            self.defs.insert(key.clone(), J::Null);
            let tcx = self.tcx;
            let name = name_of(tcx, d);
            let mut o = vec![("name", s(name)), ("local", J::B(d.is_local()))];
            o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(name_of(tcx, t))));
                o.push(("method", s(tcx.item_name(d).to_string())));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                if tcx.impl_opt_trait_ref(im).is_some() {
                    let tr = tcx.impl_trait_ref(im).skip_binder();
                    o.push(("impl_trait", s(name_of(tcx, tr.def_id))));
                    let ta: Vec<J> = tr.args.types().map(|t| i(self.ty(t))).collect();
                    o.push(("impl_trait_args", J::A(ta)));
                    o.push(("method", s(tcx.item_name(d).to_string())));
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
                let st = tcx.type_of(im).skip_binder();
                let st = self.ty(st);
                o.push(("impl_self", i(st)));
            }
            if matches!(
                tcx.def_kind(d),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Struct | DefKind::Enum
            ) {
                o.push(("generics", self.generics(d)));
            }
            self.defs.insert(key.clone(), J::O(o));
        }
        J::S(key)
    }
    fn generics(&mut self, d: DefId) -> J {
        let mut out = vec![];
        let mut g = Some(self.tcx.generics_of(d));
        while let Some(gg) = g {
            for p in &gg.own_params {
                out.push((p.index, p.name.to_string()));
            }
            g = gg.parent.map(|p| self.tcx.generics_of(p));
        }
        out.sort();
        J::A(out.into_iter().map(|x| s(x.1)).collect())
    }
    fn id_str(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => {
                    let t = self.ty(t);
                    v.push(i(t))
                }
                GenericArgKind::Const(c) => v.push(J::O(vec![("const", s(format!("{}", c)))])),
                GenericArgKind::Lifetime(_) => v.push(J::Null),
                #[allow(unreachable_patterns)]
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> J {
        let key = self.id_str(def.did());
        let name = name_of(self.tcx, def.did());
        if !self.adts.contains_key(&key) {
            self.adts.insert(key.clone(), J::Null);
            let tcx = self.tcx;
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in &v.fields {
                    let ft = tcx.type_of(f.did).instantiate_identity();
                    let ft = ft.skip_norm_wip();
                    let ft = self.ty(ft);
                    fs.push(J::O(vec![("name", s(f.name.to_string())), ("ty", i(ft))]));
                }
                let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs)), ("discr", J::I(discr))]));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let dtor = tcx.adt_destructor(def.did()).map(|d| self.id(d.did)).unwrap_or(J::Null);
            let gens = self.generics(def.did());
            self.adts.insert(
                key.clone(),
                J::O(vec![
                    ("name", s(name)),
                    ("kind", s(kind)),
                    ("local", J::B(def.did().is_local())),
                    ("variants", J::A(vs)),
                    ("drop", dtor),
                    ("generics", gens),
                ]),
            );
        }
        s(key)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(n) = self.tmap.get(&t) {
            return *n;
        }
        let n = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, n);
        let txt = s(ty::print::with_no_trimmed_paths!(format!("{}", t)));
        let mut o: Vec<(&'static str, J)> = match t.kind() {
            TyKind::Bool => vec![("k", s("bool"))],
            TyKind::Char => vec![("k", s("char"))],
            TyKind::Int(x) => vec![("k", s("int")), ("n", s(x.name_str()))],
            TyKind::Uint(x) => vec![("k", s("int")), ("n", s(x.name_str()))],
            TyKind::Float(x) => vec![("k", s("float")), ("n", s(x.name_str()))],
            TyKind::Str => vec![("k", s("str"))],
            TyKind::Never => vec![("k", s("never"))],
            TyKind::Adt(d, a) => {
                let id = self.adt(*d);
                let a = self.args(a);
                vec![("k", s("adt")), ("id", id), ("args", a)]
            }
            TyKind::Foreign(_) => vec![("k", s("foreign"))],
            TyKind::Array(e, len) => {
                let e = self.ty(*e);
                let l = match len.try_to_target_usize(self.tcx) {
                    Some(l) => J::I(l as i128),
                    None => s(format!("{}", len)),
                };
                vec![("k", s("array")), ("e", i(e)), ("len", l)]
            }
            TyKind::Slice(e) => {
                let e = self.ty(*e);
                vec![("k", s("slice")), ("e", i(e))]
            }
            TyKind::RawPtr(e, m) => {
                let e = self.ty(*e);
                vec![("k", s("ptr")), ("e", i(e)), ("mut", J::B(m.is_mut()))]
            }
            TyKind::Ref(_, e, m) => {
                let e = self.ty(*e);
                vec![("k", s("ref")), ("e", i(e)), ("mut", J::B(m.is_mut()))]
            }
            TyKind::FnDef(d, a) => {
                let id = self.id(*d);
                let a = self.args(a.skip_binder());
                vec![("k", s("fndef")), ("id", id), ("args", a)]
            }
            TyKind::FnPtr(..) => vec![("k", s("fnptr"))],
            TyKind::Dynamic(p, ..) => {
                let pr = p.principal_def_id().map(|d| s(name_of(self.tcx, d))).unwrap_or(J::Null);
                vec![("k", s("dyn")), ("trait", pr)]
            }
            TyKind::Closure(d, a) => {
                let id = self.id(*d);
                let pa = a.as_closure().parent_args();
                let pa = self.tcx.mk_args(pa);
                let pa = self.args(pa);
                vec![("k", s("closure")), ("id", id), ("args", pa)]
            }
            TyKind::Coroutine(d, a) => {
                let id = self.id(*d);
                let pa = a.as_coroutine().parent_args();
                let pa = self.tcx.mk_args(pa);
                let pa = self.args(pa);
                vec![("k", s("coroutine")), ("id", id), ("args", pa)]
            }
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| i(self.ty(t))).collect();
                vec![("k", s("tuple")), ("e", J::A(v))]
            }
            TyKind::Param(p) => vec![("k", s("param")), ("n", s(p.name.to_string())), ("idx", i(p.index as usize))],
            TyKind::Alias(..) => vec![("k", s("alias"))],
            _ => vec![("k", s("other"))],
        };
        o.push(("s", txt));
        self.types[n] = J::O(o);
        n
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp0.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = vec![("o", s("const")), ("ty", i(tid))];
        if let TyKind::FnDef(d, a) = t.kind() {
            let id = self.id(*d);
            o.push(("fn", id));
            let a = a.skip_binder();
            let aj = self.args(a);
            o.push(("args", aj));
            if tcx.trait_of_assoc(*d).is_some() {
                let a2 = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *d, a2) {
                    if inst.def_id() != *d {
                        let id = self.id(inst.def_id());
                        let ia = self.args(inst.args);
                        o.push(("rfn", id));
                        o.push(("rargs", ia));
                    }
                }
            }
            return J::O(o);
        }
        match c.const_ {
            Const::Val(v, _) => {
                let vj = self.cval(v, t);
                o.push(("v", vj))
            }
            Const::Unevaluated(u, _) => {
                let id = self.id(u.def);
                o.push(("uneval", id));
                let a = self.args(u.args);
                o.push(("args", a));
                if u.promoted.is_some() {
                    o.push(("promoted", J::B(true)));
                }
            }
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_target_usize(tcx) {
                    o.push(("v", J::I(v as i128)));
                } else {
                    o.push(("ct", s(format!("{}", ct))));
                }
            }
        }
        J::O(o)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(n)) => match t.kind() {
                TyKind::Bool => J::B(n.try_to_bool().unwrap_or(false)),
                TyKind::Char => J::O(vec![("char", J::I(n.to_bits(n.size()) as i128))]),
                TyKind::Int(_) => J::I(n.to_int(n.size())),
                TyKind::Uint(_) => J::I(n.to_bits(n.size()) as i128),
                TyKind::Float(_) => {
                    let b = n.to_bits(n.size());
                    let f = if n.size().bytes() == 8 { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
                    J::O(vec![("float", s(format!("{:?}", f)))])
                }
                _ => J::O(vec![("bits", s(format!("{}", n.to_bits(n.size()))))]),
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                    let is_str = matches!(t.kind(), TyKind::Ref(_, e, _) if e.is_str());
                    if is_str {
                        return J::O(vec![("str", s(String::from_utf8_lossy(bytes).to_string()))]);
                    }
                    return J::O(vec![("bytes", J::A(bytes.iter().map(|b| J::I(*b as i128)).collect()))]);
                }
                J::Null
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let id = self.id(d);
                        J::O(vec![("static", id)])
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let _ = (off, AllocRange { start: off, size: rustc_abi::Size::ZERO });
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        J::O(vec![("bytes", J::A(bytes.iter().map(|b| J::I(*b as i128)).collect()))])
                    }
                    _ => J::O(vec![("ptr", J::B(true))]),
                }
            }
            _ => J::Null,
        }
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(body, tcx);
            pr.push(match e {
                ProjectionElem::Deref => {
                    let bx = bt.ty.is_box();
                    J::A(vec![s("*"), J::B(bx)])
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("."), i(f.as_usize()), i(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("[c]"), i(offset as usize), i(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("[..]"), i(from as usize), i(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_usize())]),
                #[allow(unreachable_patterns)]
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("o", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("o", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            o => J::O(vec![("o", s("other")), ("txt", s(format!("{:?}", o)))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("a", self.operand(o, body, env))]),
            Rvalue::Repeat(o, n) => {
                let l = match n.try_to_target_usize(self.tcx) {
                    Some(l) => J::I(l as i128),
                    None => s(format!("{}", n)),
                };
                J::O(vec![("r", s("repeat")), ("a", self.operand(o, body, env)), ("n", l)])
            }
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))),
                ("fake", J::B(matches!(k, BorrowKind::Fake(_)))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("ref")), ("raw", J::B(true)), ("mut", J::B(true)), ("fake", J::B(false)), ("p", self.place(p, body))]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(body, self.tcx);
                let ot = self.ty(ot);
                let t = self.ty(*t);
                J::O(vec![("r", s("cast")), ("ck", s(format!("{:?}", k))), ("a", self.operand(o, body, env)), ("from", i(ot)), ("ty", i(t))])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                let t = self.ty(t);
                J::O(vec![
                    ("r", s("bin")),
                    ("op", s(format!("{:?}", op))),
                    ("a", self.operand(&b.0, body, env)),
                    ("b", self.operand(&b.1, body, env)),
                    ("ty", i(t)),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                let t = self.ty(t);
                J::O(vec![("r", s("un")), ("op", s(format!("{:?}", op))), ("a", self.operand(o, body, env)), ("ty", i(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                J::O(vec![("r", s("discr")), ("p", self.place(p, body)), ("ty", i(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        vec![("ak", s("array")), ("ty", i(t))]
                    }
                    AggregateKind::Tuple => vec![("ak", s("tuple"))],
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        let id = self.adt(def);
                        let a = self.args(a);
                        vec![("ak", s("adt")), ("id", id), ("variant", i(v.as_usize())), ("args", a), ("union", J::B(f.is_some()))]
                    }
                    AggregateKind::Closure(d, a) => {
                        let id = self.id(*d);
                        let pa = self.tcx.mk_args(a.as_closure().parent_args());
                        let pa = self.args(pa);
                        vec![("ak", s("closure")), ("id", id), ("args", pa)]
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let id = self.id(*d);
                        let pa = self.tcx.mk_args(a.as_coroutine().parent_args());
                        let pa = self.args(pa);
                        vec![("ak", s("coroutine")), ("id", id), ("args", pa)]
                    }
                    k => vec![("ak", s("other")), ("txt", s(format!("{:?}", k)))],
                };
                let mut o = vec![("r", s("agg"))];
                o.extend(kj);
                o.push(("ops", J::A(ops)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("a", J::O(vec![("o", s("copy")), ("p", self.place(p, body))]))]),
            r => J::O(vec![("r", s("other")), ("txt", s(format!("{:?}", r)))]),
        }
    }
    fn body(&mut self, def: rustc_hir::def_id::LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let steal = tcx.mir_built(def);
        let b = steal.borrow();
        let body: &Body<'tcx> = &b;
        let env = TypingEnv::non_body_analysis(tcx, def.to_def_id());
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut o = vec![("ty", i(t))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("name", s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let lt = a.0.ty(body, tcx).ty;
                        let lt = self.ty(lt);
                        st.push(J::O(vec![("s", s("=")), ("p", self.place(&a.0, body)), ("v", self.rvalue(&a.1, body, env)), ("ty", i(lt)), ("sp", sp)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("s", s("setdiscr")),
                        ("p", self.place(place, body)),
                        ("variant", i(variant_index.as_usize())),
                        ("sp", sp),
                    ])),
                    StatementKind::StorageDead(l) => st.push(J::O(vec![("s", s("dead")), ("l", i(l.as_usize()))])),
                    StatementKind::Intrinsic(x) => st.push(J::O(vec![("s", s("intrinsic")), ("txt", s(format!("{:?}", x)))])),
                    _ => (),
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", i(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(body, tcx);
                    let ty = self.ty(ty);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), i(b.as_usize())])).collect();
                    vec![("t", s("switch")), ("a", self.operand(discr, body, env)), ("ty", i(ty)), ("tgts", J::A(v)), ("else", i(targets.otherwise().as_usize()))]
                }
                TerminatorKind::UnwindResume => vec![("t", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("t", s("abort"))],
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let pt = self.ty(pt);
                    vec![("t", s("drop")), ("p", self.place(place, body)), ("ty", i(pt)), ("to", i(target.as_usize())), ("uw", uw(unwind))]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, body, env);
                    let mut a = vec![];
                    for x in args.iter() {
                        a.push(self.operand(&x.node, body, env));
                    }
                    let mut at = vec![];
                    for x in args.iter() {
                        let t = x.node.ty(body, tcx);
                        at.push(i(self.ty(t)));
                    }
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    vec![
                        ("t", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("aty", J::A(at)),
                        ("dst", self.place(destination, body)),
                        ("dty", i(dt)),
                        ("to", target.map(|x| i(x.as_usize())).unwrap_or(J::Null)),
                        ("uw", uw(unwind)),
                        ("exp", s(expn(t.source_info.span))),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => vec![
                    ("t", s("assert")),
                    ("a", self.operand(cond, body, env)),
                    ("exp", J::B(*expected)),
                    ("msg", s(assert_kind(msg))),
                    ("to", i(target.as_usize())),
                    ("uw", uw(unwind)),
                ],
                TerminatorKind::Yield { value, resume, resume_arg, drop } => vec![
                    ("t", s("yield")),
                    ("a", self.operand(value, body, env)),
                    ("to", i(resume.as_usize())),
                    ("dst", self.place(resume_arg, body)),
                    ("drop", drop.map(|x| i(x.as_usize())).unwrap_or(J::Null)),
                ],
                TerminatorKind::CoroutineDrop => vec![("t", s("codrop"))],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("t", s("goto")), ("to", i(real_target.as_usize()))],
                k => vec![("t", s("other")), ("txt", s(format!("{:?}", k)))],
            };
            o.push(("sp", sp));
            blocks.push(J::O(vec![("cl", J::B(bb.is_cleanup)), ("st", J::A(st)), ("tm", J::O(o))]));
        }
        let id = self.id(def.to_def_id());
        let gens = self.generics(def.to_def_id());
        let mut o = vec![
            ("id", id),
            ("kind", s(format!("{:?}", tcx.def_kind(def)))),
            ("span", self.span(body.span)),
            ("argc", i(body.arg_count)),
            ("generics", gens),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("coroutine", J::B(tcx.is_coroutine(def.to_def_id()))),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)),
        ];
        let par = tcx.local_parent(def);
        o.push(("parent", s(self.id_str(par.to_def_id()))));
        if let Some(r) = tcx.hir_body_owner_kind(def).fn_or_closure().then_some(()) {
            let _ = r;
        }
        let test = tcx.sess.opts.test;
        o.push(("test", J::B(test)));
        Some(J::O(o))
    }
}

fn name_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let full = ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)));
    full
}
fn expn(sp: Span) -> String {
    if sp.from_expansion() {
        let e = sp.ctxt().outer_expn_data();
        format!("{:?}", e.kind)
    } else {
        String::new()
    }
}
fn assert_kind<'tcx>(m: &AssertKind<Operand<'tcx>>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "bounds".into(),
        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
        AssertKind::OverflowNeg(..) => "overflow Neg".into(),
        AssertKind::DivisionByZero(..) => "div zero".into(),
        AssertKind::RemainderByZero(..) => "rem zero".into(),
        AssertKind::ResumedAfterReturn(..) | AssertKind::ResumedAfterPanic(..) | AssertKind::ResumedAfterDrop(..) => "resumed".into(),
        _ => "other".into(),
    }
}
fn uw(u: &UnwindAction) -> J {
    match u {
        UnwindAction::Cleanup(b) => i(b.as_usize()),
        _ => J::Null,
    }
}
trait OwnerKind {
    fn fn_or_closure(&self) -> bool;
}
impl OwnerKind for rustc_hir::BodyOwnerKind {
    fn fn_or_closure(&self) -> bool {
        matches!(self, rustc_hir::BodyOwnerKind::Fn | rustc_hir::BodyOwnerKind::Closure)
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(x) => x,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new(), defs: BTreeMap::new() };
        let mut bodies = vec![];
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        for d in &owners {
            // force typeck first so that errors are reported normally
            let _ = tcx.ensure_ok().typeck(*d);
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        for d in owners {
            if let Some(b) = cx.body(d) {
                bodies.push(b);
            }
        }
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Impl { .. }) {
                continue;
            }
            let did = id.to_def_id();
            let st = tcx.type_of(did).skip_binder();
            let st = cx.ty(st);
            let mut o = vec![("self", i(st)), ("derived", J::B(tcx.is_automatically_derived(did)))];
            if tcx.impl_opt_trait_ref(did).is_some() {
                let tr = tcx.impl_trait_ref(did).skip_binder();
                o.push(("trait", s(name_of(tcx, tr.def_id))));
                let a = cx.args(tr.args);
                o.push(("targs", a));
            }
            let mut items = BTreeMap::new();
            for it in tcx.associated_items(did).in_definition_order() {
                let idj = cx.id(it.def_id);
                items.insert(it.name().to_string(), idj);
            }
            let g = cx.generics(did);
            o.push(("generics", g));
            o.push(("items", J::M(items)));
            o.push(("span", cx.span(tcx.def_span(did))));
            impls.push(J::O(o));
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c).contains("Executable"));
        let root = J::O(vec![
            ("crate", s(name.clone())),
            ("bin", J::B(is_bin)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::M(std::mem::take(&mut cx.adts))),
            ("defs", J::M(std::mem::take(&mut cx.defs))),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
        ]);
        let mut txt = String::new();
        ser(&root, &mut txt);
        let f = format!("{}/{}-{}.json", out, name, if is_bin { "bin" } else { "lib" });
        std::fs::write(f, txt).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Dump);
}
