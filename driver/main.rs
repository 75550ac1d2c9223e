// MIR exporter. Built with the pinned nightly (rustc-dev); run as RUSTC_WORKSPACE_WRAPPER.
// For the crates named in PUCK_SA_CRATES it type-checks as usual and then writes, as JSON,
// every local body (at -Zmir-opt-level=0), plus the bodies of the core/alloc combinators they
// reach, with callees resolved through the type system.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind,
    TypingEnv, TypeVisitableExt, Unnormalized};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(&'static str, J)>) }
impl J {
    fn s(x: impl Into<String>) -> J { J::Str(x.into()) }
    fn n(x: impl std::fmt::Display) -> J { J::Num(x.to_string()) }
    fn out(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => esc(s, o),
            J::Arr(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.out(o) } o.push(']') }
            J::Obj(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.out(o) } o.push('}') }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c) }
    }
    o.push('"');
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)))
}
/// Canonical path, independent of re-exports: "core::option::Option::map".
fn cpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d))))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>, tyix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>, adtseen: HashSet<DefId>,
    queue: VecDeque<(String, Work<'tcx>, TypingEnv<'tcx>, String)>,
    seen: HashSet<String>,
    env: TypingEnv<'tcx>, root: String,
}
#[derive(Clone)]
enum Work<'tcx> { Inst(Instance<'tcx>), Promoted(DefId, ty::GenericArgsRef<'tcx>, Promoted), Const(DefId, ty::GenericArgsRef<'tcx>) }

const STD_INLINE: &[&str] = &["core::option", "core::result", "core::ops::function", "core::ops::try_trait",
    "core::ops::control_flow", "core::iter::", "core::cmp", "core::convert", "core::mem::", "core::bool",
    "core::borrow", "alloc::borrow", "core::tuple", "core::clone", "core::default", "core::ops::bit", "core::ops::arith",
    "core::num::", "core::char::methods", "core::ops::range", "core::marker", "core::ops::deref"];

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let l = sm.lookup_char_pos(sp2.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", f, l.line))
    }
    fn inlinable(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = cpath(self.tcx, d);
        let p = p.trim_start_matches('<');
        if STD_INLINE.iter().any(|x| p.starts_with(x)) { return true; }
        // trait impls are printed as <T as Trait>::m : use the defining module of the impl
        let mut cur = self.tcx.opt_parent(d);
        while let Some(c) = cur {
            if self.tcx.def_kind(c) == DefKind::Mod {
                let m = cpath(self.tcx, c) + "::";
                return STD_INLINE.iter().any(|x| m.starts_with(x));
            }
            cur = self.tcx.opt_parent(c);
        }
        false
    }
    fn key_of(&self, inst: Instance<'tcx>) -> String {
        let k = ty::print::with_no_trimmed_paths!(format!("{:?}#{:?}", inst.def, inst.args));
        if inst.args.has_param() { format!("{}@@{}", self.root, k) } else { k }
    }
    fn want(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = match inst.def { InstanceKind::Item(d) => d, _ => return None };
        if !self.tcx.is_mir_available(d) || !self.inlinable(d) { return None; }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) && !d.is_local() { }
        let k = self.key_of(inst);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), Work::Inst(inst), self.env, self.root.clone()));
        }
        Some(k)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adtseen.insert(def.did()) { return; }
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fs.push(J::Arr(vec![J::s(f.name.to_string()), J::s(ty::print::with_no_trimmed_paths!(format!("{}", t))),
                    J::s(format!("{:?}", self.tcx.visibility(f.did)))]));
            }
            vs.push(J::Obj(vec![("name", J::s(v.name.to_string())), ("discr", J::n(discr)), ("fields", J::Arr(fs))]));
        }
        let p = cpath(self.tcx, def.did());
        let local = def.did().is_local();
        let sp = self.span(self.tcx.def_span(def.did()));
        self.adts.push(J::Obj(vec![("path", J::s(p)), ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::Bool(local)), ("span", sp), ("variants", J::Arr(vs))]));
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = if t.has_escaping_bound_vars() { t } else { t };
        if let Some(i) = self.tyix.get(&t) { return J::n(i); }
        let i = self.types.len();
        self.tyix.insert(t, i);
        self.types.push(J::Null);
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", t)));
        let mut o: Vec<(&'static str, J)> = vec![];
        match *t.kind() {
            TyKind::Bool => o.push(("k", J::s("bool"))),
            TyKind::Char => o.push(("k", J::s("char"))),
            TyKind::Int(_) | TyKind::Uint(_) => {
                o.push(("k", J::s("int")));
                o.push(("signed", J::Bool(matches!(t.kind(), TyKind::Int(_)))));
                let bits = match t.kind() { TyKind::Int(x) => x.bit_width().unwrap_or(32), TyKind::Uint(x) => x.bit_width().unwrap_or(32), _ => 0 };
                o.push(("bits", J::n(bits)));
            }
            TyKind::Adt(d, args) => {
                self.adt(d);
                o.push(("k", J::s("adt")));
                o.push(("def", J::s(cpath(self.tcx, d.did()))));
                let a = args.iter().filter_map(|g| g.as_type()).collect::<Vec<_>>();
                let a = a.into_iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(a)));
            }
            TyKind::Str => o.push(("k", J::s("str"))),
            TyKind::Array(x, n) => { o.push(("k", J::s("array"))); let x = self.ty(x); o.push(("t", x));
                o.push(("n", match n.try_to_target_usize(self.tcx) { Some(v) => J::n(v), None => J::Null })); }
            TyKind::Slice(x) => { o.push(("k", J::s("slice"))); let x = self.ty(x); o.push(("t", x)); }
            TyKind::RawPtr(x, m) => { o.push(("k", J::s("ptr"))); o.push(("mut", J::Bool(m.is_mut()))); let x = self.ty(x); o.push(("t", x)); }
            TyKind::Ref(_, x, m) => { o.push(("k", J::s("ref"))); o.push(("mut", J::Bool(m.is_mut()))); let x = self.ty(x); o.push(("t", x)); }
            TyKind::Tuple(xs) => { o.push(("k", J::s("tuple"))); let a = xs.iter().map(|x| self.ty(x)).collect(); o.push(("args", J::Arr(a))); }
            TyKind::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::s(cpath(self.tcx, d))));
                let inst = Instance::new_raw(d, args);
                let k = self.want(inst);
                o.push(("key", k.map(J::Str).unwrap_or(J::Null)));
                let sp = self.span(self.tcx.def_span(d)); o.push(("span", sp));
                let kind = format!("{:?}", args.as_closure().kind()); o.push(("ckind", J::s(kind)));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let a = ups.into_iter().map(|x| self.ty(x)).collect(); o.push(("args", J::Arr(a)));
            }
            TyKind::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(d, args.skip_binder());
                o.push(("callee", c));
            }
            TyKind::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            TyKind::Dynamic(preds, _) => { o.push(("k", J::s("dyn")));
                if let Some(d) = preds.principal_def_id() { o.push(("trait", J::s(cpath(self.tcx, d)))); } }
            TyKind::Param(_) => o.push(("k", J::s("param"))),
            TyKind::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("s", J::Str(s)));
        self.types[i] = J::Obj(o);
        J::n(i)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("decl", J::s(cpath(tcx, d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", J::s(cpath(tcx, tr)))); 
            o.push(("method", J::s(tcx.item_name(d).to_string()))); }
        else if let Some(im) = tcx.impl_of_assoc(d) { let _ = im; o.push(("method", J::s(tcx.item_name(d).to_string()))); }
        let tys: Vec<Ty<'tcx>> = args.iter().filter_map(|g| g.as_type()).collect();
        let a = tys.iter().map(|x| self.ty(*x)).collect(); o.push(("args", J::Arr(a)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("kind", J::s("ctor")));
            let p = tcx.parent(d);
            let (adt, v) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                let adt = tcx.parent(p); (adt, tcx.adt_def(adt).variant_index_with_id(p).as_usize()) } else { (p, 0) };
            self.adt(tcx.adt_def(adt));
            o.push(("adt", J::s(cpath(tcx, adt)))); o.push(("variant", J::n(v)));
            return J::Obj(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let res = tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(args));
        let args2 = res.unwrap_or(args);
        match Instance::try_resolve(tcx, self.env, d, args2) {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Item(di) => {
                        o.push(("kind", J::s("item")));
                        o.push(("path", J::s(cpath(tcx, di))));
                        o.push(("local", J::Bool(di.is_local())));
                        let tys: Vec<Ty<'tcx>> = inst.args.iter().filter_map(|g| g.as_type()).collect();
                        let a = tys.iter().map(|x| self.ty(*x)).collect(); o.push(("iargs", J::Arr(a)));
                        if tcx.is_intrinsic(di, rustc_span::Symbol::intern("")) { }
                        let k = self.want(inst);
                        o.push(("key", k.map(J::Str).unwrap_or(J::Null)));
                    }
                    InstanceKind::Intrinsic(di) | InstanceKind::LlvmIntrinsic(di) => { o.push(("kind", J::s("intrinsic"))); o.push(("path", J::s(cpath(tcx, di)))); }
                    InstanceKind::Virtual(di, _) => { o.push(("kind", J::s("virtual"))); o.push(("path", J::s(cpath(tcx, di)))); }
                    InstanceKind::Shim(sk) => match sk {
                        ShimKind::FnPtr(_, t) => { o.push(("kind", J::s("fnptrshim"))); let t = self.ty(t); o.push(("target", t)); }
                        ShimKind::ClosureOnce { closure, .. } => { o.push(("kind", J::s("closureonce")));
                            let ci = Instance::new_raw(closure, inst.args);
                            // inst.args are the closure's args
                            let k = self.want(ci); o.push(("key", k.map(J::Str).unwrap_or(J::Null))); }
                        ShimKind::Clone(_, t) => { o.push(("kind", J::s("cloneshim"))); let t = self.ty(t); o.push(("target", t)); }
                        ShimKind::VTable(di) | ShimKind::Reify(di, _) => { let i2 = Instance::new_raw(di, inst.args); o.push(("kind", J::s("item"))); o.push(("path", J::s(cpath(tcx, di)))); 
                            let k = self.want(i2); o.push(("key", k.map(J::Str).unwrap_or(J::Null))); }
                        ShimKind::DropGlue(..) => o.push(("kind", J::s("dropglue"))),
                        _ => o.push(("kind", J::s("shim"))),
                    },
                }
            }
            _ => { o.push(("kind", J::s("unresolved"))); o.push(("path", J::s(cpath(tcx, d)))); }
        }
        J::Obj(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::Arr(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::Arr(vec![J::s("f"), J::n(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![J::s("c"), J::n(offset), J::n(min_length), J::Bool(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![J::s("s"), J::n(from), J::n(to), J::Bool(from_end)]),
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("v"), J::n(v.as_usize())]),
                _ => J::Arr(vec![J::s("x")]),
            });
        }
        J::Arr(vec![J::n(p.local.as_usize()), J::Arr(pr)])
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        if depth > 6 { return vec![("opaque", J::s("deep"))]; }
        match *t.kind() {
            TyKind::FnDef(d, args) => { let c = self.callee(d, args.skip_binder()); return vec![("fn", c)]; }
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let ConstValue::Scalar(Scalar::Int(i)) = v {
                    let size = i.size();
                    if matches!(t.kind(), TyKind::Int(_)) { return vec![("int", J::n(i.to_int(size)))]; }
                    return vec![("int", J::n(i.to_uint(size)))];
                }
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                match v {
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() { return vec![("str", J::s(String::from_utf8_lossy(b)))]; }
                            if let TyKind::Slice(x) = inner.kind() { if *x == tcx.types.u8 {
                                return vec![("bytes", J::Arr(b.iter().map(J::n).collect()))]; } }
                        }
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            if let TyKind::Array(x, n) = inner.kind() {
                                if *x == tcx.types.u8 { if let Some(n) = n.try_to_target_usize(tcx) {
                                    let o = off.bytes() as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                    return vec![("bytes", J::Arr(b.iter().map(J::n).collect())), ("arr", J::Bool(true))];
                                } }
                            }
                            if let Ok(layout) = tcx.layout_of(self.env.as_query_input(inner)) {
                                if layout.is_sized() {
                                    let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                    if !matches!(inner.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Ref(..)) {
                                        let x = self.constval(cv, inner, depth + 1);
                                        return vec![("refto", J::Obj(x)), ];
                                    } else if matches!(inner.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char) {
                                        let o = off.bytes() as usize; let n = layout.size.bytes() as usize;
                                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                        let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                                        let tj = self.ty(inner);
                                        return vec![("refto", J::Obj(vec![("int", J::n(x)), ("ty", tj)]))];
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let TyKind::Adt(d, _) = t.kind() { if d.is_union() { return vec![("opaque", J::s("union"))]; } }
                if !t.has_param() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let mut fs = vec![];
                        for (fv, ft) in d.fields { let tj = self.ty(*ft); let mut x = self.constval(*fv, *ft, depth + 1); x.push(("ty", tj)); fs.push(J::Obj(x)); }
                        let var = d.variant.map(|v| J::n(v.as_usize())).unwrap_or(J::n(0));
                        return vec![("agg", J::Obj(vec![("variant", var), ("fields", J::Arr(fs))]))];
                    }
                }
                if matches!(v, ConstValue::ZeroSized) { return vec![("zst", J::Bool(true))]; }
            }
            TyKind::Closure(..) => { if matches!(v, ConstValue::ZeroSized) { return vec![("zst", J::Bool(true))]; } }
            _ => {}
        }
        vec![("opaque", J::s(ty::print::with_no_trimmed_paths!(format!("{:?}", v))))]
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if let TyKind::FnDef(d, args) = *t.kind() { let cal = self.callee(d, args.skip_binder()); o.push(("fn", cal)); return J::Obj(o); }
        match c.const_ {
            mir::Const::Val(v, t) => o.extend(self.constval(v, t, 0)),
            mir::Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    let k = format!("promoted:{}:{:?}:{:?}@@{}", path(self.tcx, u.def), p, u.args, self.root);
                    if self.seen.insert(k.clone()) { self.queue.push_back((k.clone(), Work::Promoted(u.def, u.args, p), self.env, self.root.clone())); }
                    o.push(("promoted", J::Str(k)));
                } else {
                    o.push(("path", J::s(cpath(self.tcx, u.def))));
                    let ev = if !u.args.has_param() || !u.def.is_local() { c.const_.eval(self.tcx, self.env, c.span).ok() } else { None };
                    let mut done = false;
                    if let Some(v) = ev {
                        let x = self.constval(v, t, 0);
                        if !format_has_opaque(&x) { o.extend(x); done = true; }
                    }
                    if !done {
                        let kind = self.tcx.def_kind(u.def);
                        if self.tcx.is_mir_available(u.def) {
                            let _ = kind;
                            let k = format!("const:{}:{:?}@@{}", path(self.tcx, u.def), u.args, self.root);
                            if self.seen.insert(k.clone()) { self.queue.push_back((k.clone(), Work::Const(u.def, u.args), self.env, self.root.clone())); }
                            o.push(("item", J::Str(k)));
                        } else { o.push(("opaque", J::s(format!("{:?}", u)))); }
                    }
                }
            }
            mir::Const::Ty(t, ct) => {
                let mut done = false;
                if let ty::ConstKind::Value(v) = ct.kind() {
                    if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                        let is_str = matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str());
                        if is_str { o.push(("str", J::s(String::from_utf8_lossy(b)))); } else { o.push(("bytes", J::Arr(b.iter().map(J::n).collect()))); }
                        done = true;
                    } else if let Some(l) = v.try_to_leaf() {
                        let size = l.size();
                        if matches!(t.kind(), TyKind::Int(_)) { o.push(("int", J::n(l.to_int(size)))); } else { o.push(("int", J::n(l.to_uint(size)))); }
                        done = true;
                    }
                }
                if !done {
                    if let Some(n) = ct.try_to_target_usize(self.tcx) { o.push(("int", J::n(n))); } else { o.push(("opaque", J::s(format!("{:?}", ct)))); }
                }
            }
        }
        J::Obj(o)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p); J::Arr(vec![J::s("cp"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::Arr(vec![J::s("mv"), p]) }
            Operand::Constant(c) => { let c = self.konst(c); J::Arr(vec![J::s("k"), c]) }
            _ => J::Arr(vec![J::s("rc")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o); J::Arr(vec![J::s("use"), o]) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o); J::Arr(vec![J::s("repeat"), o, match n.try_to_target_usize(self.tcx) { Some(v) => J::n(v), None => J::Null }]) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p); J::Arr(vec![J::s("ref"), J::Bool(matches!(k, BorrowKind::Mut { .. })), p]) }
            Rvalue::RawPtr(k, p) => { let p = self.place(p); J::Arr(vec![J::s("ref"), J::Bool(matches!(k, RawPtrKind::Mut)), p]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::Arr(vec![J::s("use"), J::Arr(vec![J::s("cp"), p]), J::Bool(m.is_mut())]) }
            Rvalue::Cast(k, o, t) => { let o2 = self.operand(o); let t = self.ty(*t); J::Arr(vec![J::s("cast"), J::s(format!("{:?}", k)), o2, t]) }
            Rvalue::BinaryOp(b, ops) => { let a = self.operand(&ops.0); let c = self.operand(&ops.1); J::Arr(vec![J::s("bin"), J::s(format!("{:?}", b)), a, c]) }
            Rvalue::UnaryOp(u, a) => { let a = self.operand(a); J::Arr(vec![J::s("un"), J::s(format!("{:?}", u)), a]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::Arr(vec![J::s("discr"), p]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::Arr(vec![J::s("use"), J::Arr(vec![J::s("cp"), p])]) }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => { self.adt(self.tcx.adt_def(*d)); J::Arr(vec![J::s("adt"), J::s(cpath(self.tcx, *d)), J::n(v.as_usize())]) }
                    AggregateKind::Closure(d, args) => { let k = self.want(Instance::new_raw(*d, args)); J::Arr(vec![J::s("closure"), k.map(J::Str).unwrap_or(J::Null), J::s(cpath(self.tcx, *d))]) }
                    AggregateKind::RawPtr(..) => J::Arr(vec![J::s("rawptr")]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kk, J::Arr(fs)])
            }
            _ => J::Arr(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, key: &str, b: &Body<'tcx>, extra: Vec<(&'static str, J)>) -> J {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info { if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); } } }
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::Arr(vec![t, names.get(&l.as_usize()).map(|s| J::s(s.clone())).unwrap_or(J::Null)]));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(&a.1); let sp = self.span(s.source_info.span); st.push(J::Arr(vec![J::s("="), p, r, sp])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::Arr(vec![J::s("setd"), p, J::n(variant_index.as_usize())])); }
                    StatementKind::Intrinsic(i) => { if let NonDivergingIntrinsic::Assume(o) = &**i { let o = self.operand(o); st.push(J::Arr(vec![J::s("assume"), o])); } }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), J::n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), J::n(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx); let dt = self.ty(dt);
                    let v = targets.iter().map(|(v, t)| J::Arr(vec![J::n(v), J::n(t.as_usize())])).collect();
                    J::Arr(vec![J::s("switch"), d, J::Arr(v), J::n(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::Arr(vec![J::s("drop"), p, J::n(target.as_usize())]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty; let dt = self.ty(dt);
                    J::Arr(vec![J::s("call"), f, J::Arr(a), d, target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null), dt])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(o, ..) => format!("overflow:{:?}", o),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), _ => "other".into() };
                    J::Arr(vec![J::s("assert"), c, J::Bool(*expected), J::s(m), J::n(target.as_usize())])
                }
                other => J::Arr(vec![J::s("other"), J::s(format!("{:?}", other))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", tj), ("sp", sp), ("c", J::Bool(bb.is_cleanup))]));
        }
        let sp = self.span(b.span);
        let mut o = vec![("key", J::s(key)), ("span", sp), ("argc", J::n(b.arg_count)),
            ("spread", b.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)), ("blocks", J::Arr(blocks))];
        o.extend(extra);
        J::Obj(o)
    }
}
fn format_has_opaque(x: &[(&'static str, J)]) -> bool {
    fn h(j: &J) -> bool { match j { J::Obj(v) => v.iter().any(|(k, x)| *k == "opaque" || h(x)), J::Arr(v) => v.iter().any(h), _ => false } }
    x.iter().any(|(k, v)| *k == "opaque" || h(v))
}

fn export<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, types: vec![], tyix: HashMap::new(), adts: vec![], adtseen: HashSet::new(), queue: VecDeque::new(), seen: HashSet::new(),
        env: TypingEnv::fully_monomorphized(), root: String::new() };
    let mut roots = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { continue; }
        cx.env = TypingEnv::post_analysis(tcx, d);
        cx.root = path(tcx, d);
        let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
        let inst = Instance::new_raw(d, args);
        let Some(k) = cx.want(inst) else { continue };
        let derived = tcx.def_span(d).from_expansion();
        let mut o = vec![("path", J::s(cpath(tcx, d))), ("name", J::s(tcx.item_name(d).to_string())), ("key", J::Str(k)), ("derived", J::Bool(derived)),
            ("pub", J::Bool(ev.is_reachable(ld))), ("vis", J::s(format!("{:?}", tcx.visibility(d))))];
        let sp = cx.span(tcx.def_span(d)); o.push(("span", sp));
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let t = cx.ty(st); o.push(("self", t));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("trait", J::s(cpath(tcx, tr.skip_binder().def_id)))); 
              o.push(("traitref", J::s(ty::print::with_no_trimmed_paths!(format!("{}", tr.skip_binder()))))); }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<_> = sig.inputs().to_vec();
        let a = ins.iter().map(|t| cx.ty(*t)).collect(); o.push(("inputs", J::Arr(a)));
        let r = cx.ty(sig.output()); o.push(("output", r));
        roots.push(J::Obj(o));
    }
    let mut bodies = vec![];
    while let Some((key, w, env, root)) = cx.queue.pop_front() {
        cx.env = env; cx.root = root;
        let (b, extra): (Body<'tcx>, Vec<(&'static str, J)>) = match w {
            Work::Inst(inst) => {
                let raw = tcx.instance_mir(inst.def).clone();
                let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw));
                let d = inst.def_id();
                (b, vec![("path", J::s(cpath(tcx, d))), ("local", J::Bool(d.is_local())), ("kind", J::s(format!("{:?}", tcx.def_kind(d))))])
            }
            Work::Promoted(d, args, p) => {
                let raw = tcx.promoted_mir(d)[p].clone();
                let b = tcx.instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, raw));
                (b, vec![("path", J::s(format!("{}::promoted{}", cpath(tcx, d), p.as_usize()))), ("local", J::Bool(d.is_local())), ("kind", J::s("Promoted"))])
            }
            Work::Const(d, args) => {
                let raw = tcx.mir_for_ctfe(d).clone();
                let b = tcx.instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, raw));
                (b, vec![("path", J::s(cpath(tcx, d))), ("local", J::Bool(d.is_local())), ("kind", J::s("Const"))])
            }
        };
        let j = cx.body(&key, &b, extra);
        bodies.push(j);
    }
    // trait impls of local types
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(ld) {
            let tr = tcx.impl_trait_ref(ld.to_def_id()).instantiate_identity().skip_norm_wip();
            let t = cx.ty(tr.self_ty());
            impls.push(J::Obj(vec![("trait", J::s(cpath(tcx, tr.def_id))), ("self", t)]));
        }
    }
    for ld in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(ld), DefKind::Struct | DefKind::Enum) { cx.adt(tcx.adt_def(ld.to_def_id())); }
    }
    let doc = J::Obj(vec![("crate", J::s(krate.clone())), ("roots", J::Arr(roots)), ("types", J::Arr(cx.types.clone())), ("adts", J::Arr(cx.adts.clone())),
        ("bodies", J::Arr(bodies)), ("impls", J::Arr(impls))]);
    let mut s = String::new(); doc.out(&mut s);
    std::fs::write(format!("{}/{}.json", out, krate), s).unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("PUCK_SA_OUT").unwrap();
        ty::print::with_no_trimmed_paths!(export(tcx, &out));
        Compilation::Continue
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1); // the real rustc path
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let crates = std::env::var("PUCK_SA_CRATES").unwrap_or_default();
    if crates.split(',').any(|c| c == name) && std::env::var("PUCK_SA_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
