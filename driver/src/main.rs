//! Runs rustc on a crate and, when that crate is the one to analyse, writes the monomorphised MIR
//! of everything reachable from its public functions (or `main`) as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. Environment: MIRDUMP_CRATE (crate name), MIRDUMP_OUT (file).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver as _;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::*;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_ast::attr::AttributeExt;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};

/// Crates whose functions are always analysed.
const OURS: &[&str] = &["osmio"];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    order: Vec<Instance<'tcx>>,
    todo: VecDeque<usize>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    ty_json: Vec<Option<J>>,
    iter_next: HashMap<Ty<'tcx>, usize>,
    models: HashMap<String, DefId>,
    local_name: String,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    /// crate::module::{impl#0}::name
    fn raw_path(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ours(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate);
        let c = c.as_str();
        c == self.local_name || OURS.contains(&c)
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }

    // ---------------------------------------------------------------- types
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        self.ty_json.push(None);
        let j = self.ty_desc(t);
        self.ty_json[i] = Some(j);
        i
    }
    fn ty_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        J::Arr(v)
    }
    fn ty_desc(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(with_no_visible_paths!(t.to_string()));
        let mut o = vec![("s", s(name))];
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s(match t.kind() {
                    ty::Bool => "bool",
                    ty::Char => "char",
                    ty::Int(_) => "int",
                    ty::Uint(_) => "uint",
                    ty::Float(_) => "float",
                    ty::Str => "str",
                    _ => "never",
                })));
                if let ty::Int(_) | ty::Uint(_) = t.kind() {
                    let size = match t.kind() {
                        ty::Int(i) => i.normalize(64).bit_width().unwrap(),
                        ty::Uint(i) => i.normalize(64).bit_width().unwrap(),
                        _ => 0,
                    };
                    o.push(("bits", n(size as i128)));
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("e", self.ty(inner)));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                o.push(("e", self.ty(inner)));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                o.push(("e", self.ty(inner)));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                o.push(("e", self.ty(inner)));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len", n(l as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(def.did()))));
                o.push(("enum", J::Bool(def.is_enum())));
                o.push(("a", self.ty_args(args)));
                let krate = tcx.crate_name(def.did().krate);
                let with_fields = self.ours(def.did())
                    || matches!(krate.as_str(), "core" | "xml" | "protobuf");
                let mut vs = Vec::new();
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = if with_fields {
                                let ft = tcx
                                    .try_normalize_erasing_regions(env(), f.ty(tcx, args))
                                    .ok();
                                match ft {
                                    Some(ft) => self.ty(ft),
                                    None => J::Null,
                                }
                            } else {
                                J::Null
                            };
                            fs.push(a([s(f.name.as_str()), fty]));
                        }
                        let d = if def.is_enum() {
                            let x = def.discriminant_for_variant(tcx, vi);
                            let bits = x.val as i128;
                            let signed = match x.ty.kind() {
                                ty::Int(i) => {
                                    let w = i.normalize(64).bit_width().unwrap();
                                    let sh = 128 - w as u32;
                                    (bits << sh) >> sh
                                }
                                _ => bits,
                            };
                            J::Num(signed)
                        } else {
                            J::Null
                        };
                        vs.push(a([s(v.name.as_str()), J::Arr(fs), d]));
                    }
                }
                o.push(("v", J::Arr(vs)));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if self.ours(def.did()) {
                        let inst = Instance::expect_resolve(tcx, env(), d.did, args, DUMMY_SP);
                        o.push(("drop", n(self.inst(inst) as i128)));
                    }
                }
            }
            ty::Closure(def, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(def))));
                let inst = Instance::new_raw(def, args);
                o.push(("inst", n(self.inst(inst) as i128)));
                let kind = args.as_closure().kind();
                o.push(("ck", s(format!("{:?}", kind))));
            }
            ty::FnDef(def, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().expect("bound vars");
                o.push(("callee", self.callee(def, args)));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        J::Obj(o)
    }

    // ------------------------------------------------------------ instances
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let x = self.order.len();
        self.ids.insert(i, x);
        self.order.push(i);
        self.todo.push_back(x);
        x
    }
    fn descend(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = match i.def {
            InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) | InstanceKind::Virtual(..) => {
                return false
            }
            InstanceKind::Shim(sh) => {
                return matches!(
                    sh,
                    ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Reify(..)
                )
            }
            InstanceKind::Item(d) => d,
        };
        if tcx.is_foreign_item(d) {
            return false;
        }
        if self.ours(d) {
            return tcx.is_mir_available(d);
        }
        let krate = tcx.crate_name(d.krate);
        let p = tcx.def_path(d).to_string_no_crate_verbose();
        let ok = match krate.as_str() {
            "core" => [
                "::option", "::result", "::ops", "::convert", "::bool", "::cmp", "::iter", "::tuple", "::default",
                "::borrow",
            ]
            .iter()
            .any(|m| p.starts_with(m)),
            "derive_builder_core" | "derive_builder" => true,
            "protobuf" => ["::message_field", "::enum_or_unknown"].iter().any(|m| p.starts_with(m)),
            _ => false,
        };
        ok && tcx.is_mir_available(d)
    }

    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(def))), ("raw", s(self.raw_path(def))), ("a", self.ty_args(args))];
        let tr = tcx.trait_of_assoc(def);
        if let Some(t) = tr {
            o.push(("trait", s(self.path(t))));
            o.push(("name", s(tcx.item_name(def).as_str())));
        }
        // our own models of library functions
        if !self.ours(def) {
            let mut cands = vec![self.path(def)];
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env(), def, args) {
                if let InstanceKind::Item(d2) = inst.def {
                    if d2 != def {
                        cands.insert(0, self.path(d2));
                    }
                }
            }
            for p in cands {
                if let Some(&m) = self.models.get(&p) {
                    let g = tcx.generics_of(m);
                    let want = g.count();
                    // only the type arguments, in order
                    let targs: Vec<ty::GenericArg<'tcx>> =
                        args.iter().filter(|x| x.as_type().is_some()).take(want).collect();
                    if targs.len() == want {
                        let margs = tcx.mk_args(&targs);
                        let inst = Instance::expect_resolve(tcx, env(), m, margs, DUMMY_SP);
                        o.push(("model", s(self.path(m))));
                        o.push(("inst", n(self.inst(inst) as i128)));
                        return J::Obj(o);
                    }
                }
            }
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env(), def, args) {
            match inst.def {
                InstanceKind::Virtual(..) => o.push(("virtual", J::Bool(true))),
                InstanceKind::Intrinsic(..) => o.push(("intrinsic", J::Bool(true))),
                _ => {
                    let d2 = inst.def.def_id();
                    if d2 != def {
                        o.push(("rpath", s(self.path(d2))));
                        o.push(("rraw", s(self.raw_path(d2))));
                    }
                    o.push(("ours", J::Bool(self.ours(d2))));
                    if self.descend(inst) {
                        o.push(("inst", n(self.inst(inst) as i128)));
                    }
                }
            }
        }
        // things the models may call back
        let mut seen = HashSet::new();
        for t in args.types() {
            self.note_ty(t, &mut seen);
        }
        // Display & co. of what is formatted
        let p = self.path(def);
        if let Some(rest) = p.strip_prefix("core::fmt::rt::Argument::<'_>::new_") {
            let tn = match rest {
                "display" => Some("Display"),
                "debug" => Some("Debug"),
                _ => None,
            };
            if let (Some(tn), Some(t)) = (tn, args.types().next()) {
                let mut t = t;
                while let ty::Ref(_, i, _) = t.kind() {
                    t = *i;
                }
                o.push(("fmt_ty", self.ty(t)));
                if let Some(i) = self.trait_method(&format!("core::fmt::{}", tn), "fmt", t) {
                    if self.descend(i) {
                        o.push(("fmt_inst", n(self.inst(i) as i128)));
                    }
                }
            }
        }
        if p == "alloc::string::ToString::to_string" {
            if let Some(mut t) = args.types().next() {
                while let ty::Ref(_, i, _) = t.kind() {
                    t = *i;
                }
                o.push(("fmt_ty", self.ty(t)));
                if let Some(i) = self.trait_method("core::fmt::Display", "fmt", t) {
                    if self.descend(i) {
                        o.push(("fmt_inst", n(self.inst(i) as i128)));
                    }
                }
            }
        }
        if p == "core::str::<impl str>::parse" {
            if let Some(t) = args.types().next() {
                if let Some(i) = self.trait_method("core::str::traits::FromStr", "from_str", t) {
                    if self.descend(i) {
                        o.push(("from_str", n(self.inst(i) as i128)));
                    }
                }
            }
        }
        J::Obj(o)
    }
    fn trait_method(&self, trait_path: &str, name: &str, t: Ty<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.all_traits_including_private().find(|d| self.path(*d) == trait_path)?;
        let m = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|i| i.name().as_str() == name)?
            .def_id;
        let args = tcx.mk_args(&[t.into()]);
        Instance::try_resolve(tcx, env(), m, args).ok().flatten()
    }
    fn note_ty(&mut self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) {
        if !seen.insert(t) {
            return;
        }
        self.ty_id(t);
        let tcx = self.tcx;
        let is_iter_like = matches!(t.kind(), ty::Adt(..) | ty::Ref(..) | ty::Dynamic(..));
        if is_iter_like && !self.iter_next.contains_key(&t) {
            if let Some(it) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator")) {
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env());
                if infcx.type_implements_trait(it, [t], penv).must_apply_modulo_regions() {
                    let next = tcx
                        .associated_items(it)
                        .in_definition_order()
                        .find(|i| i.name().as_str() == "next")
                        .unwrap()
                        .def_id;
                    // reserve, against recursion
                    self.iter_next.insert(t, usize::MAX);
                    let args = tcx.mk_args(&[t.into()]);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env(), next, args) {
                        if self.descend(inst) {
                            let id = self.inst(inst);
                            self.iter_next.insert(t, id);
                        }
                    }
                }
            }
        }
        if let ty::Adt(_, args) = t.kind() {
            for t2 in args.types() {
                self.note_ty(t2, seen);
            }
        }
    }

    // ---------------------------------------------------------------- consts
    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Obj(vec![("opaque", s("depth"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let bits: Option<(u128, u64)> = match cv {
                    ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => Some((i.to_bits(i.size()), i.size().bits())),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let al = tcx.global_alloc(alloc_id).unwrap_memory();
                        let size = tcx.layout_of(env().as_query_input(t)).unwrap().size;
                        match al.inner().read_scalar(
                            &tcx,
                            mir::interpret::AllocRange { start: offset, size },
                            false,
                        ) {
                            Ok(mir::interpret::Scalar::Int(i)) => Some((i.to_bits(i.size()), i.size().bits())),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                match bits {
                    Some((b, w)) => {
                        let mut v = b as i128;
                        if let ty::Int(_) = t.kind() {
                            let sh = 128 - w as u32;
                            v = (v << sh) >> sh;
                        }
                        if let ty::Float(f) = t.kind() {
                            let x = match f.bit_width() {
                                32 => f32::from_bits(b as u32) as f64,
                                _ => f64::from_bits(b as u64),
                            };
                            return J::Obj(vec![("f", s(format!("{:?}", x)))]);
                        }
                        J::Obj(vec![("i", J::Num(v))])
                    }
                    None => J::Obj(vec![("opaque", s("scalar"))]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let fat = match inner.kind() {
                    ty::Str => true,
                    ty::Slice(e) if *e == tcx.types.u8 => true,
                    _ => false,
                };
                if fat {
                    let bytes = cv.try_get_slice_bytes_for_diagnostics(tcx);
                    return match bytes {
                        Some(b) => {
                            if inner.is_str() {
                                J::Obj(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                            } else {
                                J::Obj(vec![("bytes", a(b.iter().map(|x| n(*x as i128))))])
                            }
                        }
                        None => J::Obj(vec![("opaque", s("slice"))]),
                    };
                }
                if let ty::Slice(e) = inner.kind() {
                    // &[T]: read the fat pointer
                    if let ConstValue::Slice { alloc_id, meta } = cv {
                        return self.seq(alloc_id, rustc_abi::Size::ZERO, *e, meta, depth);
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = cv {
                        let al = tcx.global_alloc(alloc_id).unwrap_memory();
                        let ps = tcx.data_layout.pointer_size();
                        let p = al.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: ps }, true);
                        let m = al.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false);
                        if let (Ok(mir::interpret::Scalar::Ptr(p, _)), Ok(mir::interpret::Scalar::Int(m))) = (p, m) {
                            let (prov, off) = p.into_raw_parts();
                            return self.seq(prov.alloc_id(), off, *e, m.to_bits(m.size()) as u64, depth);
                        }
                    }
                    return J::Obj(vec![("opaque", s("slice"))]);
                }
                let ptr = match cv {
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let al = tcx.global_alloc(alloc_id).unwrap_memory();
                        let ps = tcx.data_layout.pointer_size();
                        match al.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: ps }, true) {
                            Ok(mir::interpret::Scalar::Ptr(p, _)) => Some(p),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let Some(p) = ptr else { return J::Obj(vec![("opaque", s("ptr"))]) };
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                        let inner_v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        if let ty::Dynamic(..) = inner.kind() {
                            return J::Obj(vec![("opaque", s("dyn"))]);
                        }
                        let j = self.cval(inner_v, *inner, depth + 1);
                        J::Obj(vec![("ref", j)])
                    }
                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                        let mut o = vec![("static", s(self.path(d)))];
                        if self.ours(d) && !tcx.is_mutable_static(d) && depth < 8 {
                            if let Ok(al) = tcx.eval_static_initializer(d) {
                                let id = tcx.reserve_and_set_memory_alloc(al);
                                let j = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1);
                                o.push(("init", j));
                            }
                        }
                        J::Obj(o)
                    }
                    _ => J::Obj(vec![("opaque", s("alloc"))]),
                }
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() || (def.is_enum() && def.variants().is_empty()) {
                        return J::Obj(vec![("opaque", s("union"))]);
                    }
                }
                if let ty::Array(e, len) = t.kind() {
                    if let (ConstValue::Indirect { alloc_id, offset }, Some(l)) =
                        (cv, len.try_to_target_usize(tcx))
                    {
                        return self.seq(alloc_id, offset, *e, l, depth);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    Some(d) => {
                        if let ty::Adt(def, _) = t.kind() {
                            if self.path(def.did()) == "alloc::vec::Vec" {
                                if let Some((lv, lt)) = d.fields.iter().map(|x| (x.0, x.1)).last() {
                                    if self.bits(lv, lt) == Some(0) {
                                        return J::Obj(vec![("arr", J::Arr(vec![]))]);
                                    }
                                }
                                return J::Obj(vec![("opaque", s("vec"))]);
                            }
                        }
                        let fs: Vec<J> = d.fields.iter().map(|(v, ft)| self.cval(*v, *ft, depth + 1)).collect();
                        match t.kind() {
                            ty::Array(..) => J::Obj(vec![("arr", J::Arr(fs))]),
                            _ => J::Obj(vec![
                                ("var", n(d.variant.map_or(0, |v| v.as_usize()) as i128)),
                                ("fields", J::Arr(fs)),
                            ]),
                        }
                    }
                    None => match self.unit_variant(cv, t) {
                        Some(v) => J::Obj(vec![("var", n(v as i128)), ("fields", J::Arr(vec![]))]),
                        None => J::Obj(vec![("opaque", s("destructure"))]),
                    },
                }
            }
            ty::FnDef(..) => J::Obj(vec![("zst", J::Bool(true))]),
            _ if matches!(cv, ConstValue::ZeroSized) => J::Obj(vec![("zst", J::Bool(true))]),
            _ => J::Obj(vec![("opaque", s("other"))]),
        }
    }
    /// the bits of a scalar constant
    fn bits(&self, cv: ConstValue, t: Ty<'tcx>) -> Option<u128> {
        let tcx = self.tcx;
        match cv {
            ConstValue::Scalar(mir::interpret::Scalar::Int(l)) => Some(l.to_bits(l.size())),
            ConstValue::Indirect { alloc_id, offset } => {
                let size = tcx.layout_of(env().as_query_input(t)).ok()?.size;
                let al = tcx.global_alloc(alloc_id).unwrap_memory();
                let r = mir::interpret::AllocRange { start: offset, size };
                match al.inner().read_scalar(&tcx, r, false) {
                    Ok(mir::interpret::Scalar::Int(l)) => Some(l.to_bits(l.size())),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// the variant of an enum constant in memory, when it is one without fields
    fn unit_variant(&self, cv: ConstValue, t: Ty<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let ty::Adt(def, _) = t.kind() else { return None };
        let ConstValue::Indirect { alloc_id, offset } = cv else { return None };
        let lay = tcx.layout_of(env().as_query_input(t)).ok()?;
        let rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } = &lay.variants else { return None };
        let off = lay.fields.offset(tag_field.as_usize());
        let size = tag.size(&tcx);
        let al = tcx.global_alloc(alloc_id).unwrap_memory();
        let r = mir::interpret::AllocRange { start: offset + off, size };
        let v = match al.inner().read_scalar(&tcx, r, false) {
            Ok(mir::interpret::Scalar::Int(l)) => l.to_bits(l.size()),
            _ => return None,
        };
        let idx = match tag_encoding {
            rustc_abi::TagEncoding::Direct => def.discriminants(tcx).find(|(_, d)| size.truncate(d.val) == v)?.0,
            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                let rel = size.truncate(v.wrapping_sub(*niche_start));
                let (a, b) = (niche_variants.start.as_u32() as u128, niche_variants.last.as_u32() as u128);
                if rel <= b - a { rustc_abi::VariantIdx::from_u32((a + rel) as u32) } else { *untagged_variant }
            }
        };
        if def.variant(idx).fields.is_empty() { Some(idx.as_usize()) } else { None }
    }
    fn seq(&mut self, alloc_id: mir::interpret::AllocId, off: rustc_abi::Size, e: Ty<'tcx>, len: u64, depth: usize) -> J {
        let tcx = self.tcx;
        if len > 4096 {
            return J::Obj(vec![("opaque", s("long"))]);
        }
        let sz = tcx.layout_of(env().as_query_input(e)).unwrap().size;
        if e == tcx.types.u8 {
            if let Some(mir::interpret::GlobalAlloc::Memory(al)) = tcx.try_get_global_alloc(alloc_id) {
                let b = al
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + len as usize);
                return J::Obj(vec![("bytes", a(b.iter().map(|x| n(*x as i128))))]);
            }
        }
        let mut v = Vec::new();
        for i in 0..len {
            v.push(self.cval(ConstValue::Indirect { alloc_id, offset: off + sz * i }, e, depth + 1));
        }
        J::Obj(vec![("arr", J::Arr(v))])
    }

    // ------------------------------------------------------------------ MIR
    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => a([s("*")]),
                mir::ProjectionElem::Field(f, _) => {
                    let (adt, var, name) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_union() {
                                (s("union"), 0, f.as_usize().to_string())
                            } else {
                                let v = &def.variants()[vi];
                                (s(self.path(def.did())), vi.as_usize(), v.fields[f].name.to_string())
                            }
                        }
                        ty::Tuple(_) => (s("tuple"), 0, f.as_usize().to_string()),
                        ty::Closure(..) => (s("closure"), 0, f.as_usize().to_string()),
                        _ => (s("other"), 0, f.as_usize().to_string()),
                    };
                    a([s("f"), n(f.as_usize() as i128), adt, n(var as i128), s(name)])
                }
                mir::ProjectionElem::Index(l) => a([s("i"), n(l.as_usize() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    a([s("ci"), n(offset as i128), J::Bool(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    a([s("ss"), n(from as i128), n(to as i128), J::Bool(from_end)])
                }
                mir::ProjectionElem::Downcast(nm, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variants()[v].name.to_string(),
                        _ => nm.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    a([s("d"), n(v.as_usize() as i128), s(name)])
                }
                _ => a([s("?")]),
            };
            pr.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        a([n(p.local.as_usize() as i128), J::Arr(pr), self.ty(pty.ty)])
    }
    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => a([s("c"), self.place(body, p)]),
            mir::Operand::Move(p) => a([s("m"), self.place(body, p)]),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = match t.kind() {
                    ty::FnDef(..) => J::Obj(vec![("zst", J::Bool(true))]),
                    _ => match c.const_.eval(self.tcx, env(), c.span) {
                        Ok(cv) => self.cval(cv, t, 0),
                        Err(_) => J::Obj(vec![("opaque", s("eval"))]),
                    },
                };
                let mut v = v;
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        if let J::Obj(ref mut o) = v {
                            o.push(("const", s(self.path(u.def))));
                        }
                    }
                }
                a([s("k"), self.ty(t), v])
            }
            _ => a([s("rc")]),
        }
    }
    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => a([s("use"), self.operand(body, o)]),
            mir::Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx);
                a([s("repeat"), self.operand(body, o), l.map_or(J::Null, |x| n(x as i128))])
            }
            mir::Rvalue::Ref(_, k, p) => {
                a([s("ref"), self.place(body, p), J::Bool(matches!(k, mir::BorrowKind::Mut { .. }))])
            }
            mir::Rvalue::Reborrow(_, _, p) => a([s("use"), a([s("c"), self.place(body, p)])]),
            mir::Rvalue::RawPtr(_, p) => a([s("ref"), self.place(body, p), J::Bool(true)]),
            mir::Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let mut v = vec![
                    s("cast"),
                    s(match k {
                        mir::CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                        k => format!("{:?}", k),
                    }),
                    self.operand(body, o),
                    self.ty(*t),
                    self.ty(st),
                ];
                v.push(self.vtable(st, *t));
                J::Arr(v)
            }
            mir::Rvalue::BinaryOp(op, b) => a([
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(body, &b.0),
                self.operand(body, &b.1),
                {
                    let t = b.0.ty(&body.local_decls, tcx);
                    self.ty(t)
                },
            ]),
            mir::Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                a([s("un"), s(format!("{:?}", op)), self.operand(body, o), self.ty(t)])
            }
            mir::Rvalue::Discriminant(p) => a([s("discr"), self.place(body, p)]),
            mir::Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, tcx);
                let (kind, var) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                a([s("agg"), s(kind), n(var as i128), J::Arr(v), self.ty(t)])
            }
            mir::Rvalue::CopyForDeref(p) => a([s("use"), a([s("c"), self.place(body, p)])]),
            _ => a([s("opaque"), s(format!("{:?}", r))]),
        }
    }
    /// For a cast to `dyn Trait`: which instance each method is
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let peel = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
                ty::Adt(def, args) if def.is_box() => Some(args.type_at(0)),
                _ => None,
            }
        };
        let (Some(si), Some(di)) = (peel(src), peel(dst)) else { return J::Null };
        let ty::Dynamic(preds, _) = di.kind() else { return J::Null };
        if let ty::Dynamic(..) = si.kind() {
            return J::Null;
        }
        let Some(principal) = preds.principal() else { return J::Null };
        let tr = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, si));
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut v = Vec::new();
        for e in tcx.vtable_entries(tr) {
            if let ty::VtblEntry::Method(inst) = e {
                let d = inst.def_id();
                let name = tcx.item_name(d);
                let id = if self.descend(*inst) { n(self.inst(*inst) as i128) } else { J::Null };
                v.push(a([s(name.as_str()), id, s(self.path(d))]));
            }
        }
        a([self.ty(si), J::Arr(v)])
    }

    fn body(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let orig = tcx.instance_mir(i.def);
        let body: mir::Body<'tcx> =
            i.instantiate_mir_and_normalize_erasing_regions(tcx, env(), EarlyBinder::bind(tcx, orig.clone()));
        let body = &body;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(a([t, names.get(&l.as_usize()).map_or(J::Null, |x| s(x.clone()))]));
        }
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = Vec::new();
            for stmt in &data.statements {
                match &stmt.kind {
                    mir::StatementKind::Assign(b) => {
                        let sp = self.span(stmt.source_info.span);
                        st.push(a([s("="), self.place(body, &b.0), self.rvalue(body, &b.1), sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(a([s("sd"), self.place(body, place), n(variant_index.as_usize() as i128)]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(a([s("dead"), n(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => a([s("goto"), n(target.as_usize() as i128)]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let bits: Option<u32> = match dt.kind() {
                        ty::Int(x) => Some(x.normalize(64).bit_width().unwrap() as u32),
                        _ => None,
                    };
                    let mut v = Vec::new();
                    for (val, bb) in targets.iter() {
                        let mut x = val as i128;
                        if let Some(b) = bits {
                            let sh = 128 - b;
                            x = (x << sh) >> sh;
                        }
                        v.push(a([J::Num(x), n(bb.as_usize() as i128)]));
                    }
                    a([
                        s("switch"),
                        self.operand(body, discr),
                        J::Arr(v),
                        n(targets.otherwise().as_usize() as i128),
                        self.ty(dt),
                        sp,
                    ])
                }
                mir::TerminatorKind::Return => a([s("ret")]),
                mir::TerminatorKind::Unreachable => a([s("unreachable")]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    a([s("drop"), self.place(body, place), n(target.as_usize() as i128), sp])
                }
                mir::TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = match ft.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().expect("bound vars");
                            self.callee(*d, ga)
                        }
                        _ => J::Obj(vec![("indirect", self.operand(body, func))]),
                    };
                    let v: Vec<J> = args.iter().map(|o| self.operand(body, &o.node)).collect();
                    let fsp = self.span(*fn_span);
                    a([
                        s("call"),
                        c,
                        J::Arr(v),
                        self.place(body, destination),
                        target.map_or(J::Null, |t| n(t.as_usize() as i128)),
                        fsp,
                    ])
                }
                mir::TerminatorKind::Assert { cond, expected, target, msg, .. } => a([
                    s("assert"),
                    self.operand(body, cond),
                    J::Bool(*expected),
                    n(target.as_usize() as i128),
                    s(match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) | mir::AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    }),
                    sp,
                ]),
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    a([s("goto"), n(real_target.as_usize() as i128)])
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    a([s("goto"), n(real_target.as_usize() as i128)])
                }
                k => a([s("other"), s(format!("{:?}", std::mem::discriminant(k)))]),
            };
            blocks.push(a([J::Arr(st), t]));
        }
        J::Obj(vec![
            ("argc", n(body.arg_count as i128)),
            ("spread", body.spread_arg.map_or(J::Null, |l| n(l.as_usize() as i128))),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = Vec::new();
        // models: functions in `mod models` with a doc-free attribute: their name encodes nothing, the
        // table is the const MODELS: &[(&str, &str)] in that module, read from HIR by name
        for ld in tcx.hir_crate_items(()).free_items() {
            let d = ld.owner_id.to_def_id();
            if tcx.def_kind(d) != DefKind::Fn {
                continue;
            }
            if let Some(m) = model_of(tcx, d) {
                for x in m.split('|') {
                    self.models.insert(x.trim().to_string(), d);
                }
                continue;
            }
            let is_main = tcx.entry_fn(()).map(|(e, _)| e) == Some(d);
            if tcx.generics_of(d).count() == tcx.generics_of(d).own_counts().lifetimes
                && (is_main || tcx.visibility(d).is_public())
            {
                roots.push(d);
            }
        }
        let mut rj = Vec::new();
        for d in roots {
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = Instance::new_raw(d, args);
            let id = self.inst(i);
            rj.push(a([s(self.path(d)), n(id as i128)]));
        }
        // the functions of generated protobuf messages, which only library code calls
        let mut mj = Vec::new();
        for c in tcx.crates(()) {
            if tcx.crate_name(*c).as_str() != "osmio" {
                continue;
            }
            for im in tcx.trait_impls_in_crate(*c) {
                let tr = tcx.impl_trait_ref(*im).instantiate_identity().skip_norm_wip();
                if tcx.crate_name(tr.def_id.krate).as_str() != "protobuf" || tcx.item_name(tr.def_id).as_str() != "Message" {
                    continue;
                }
                let ty::Adt(def, _) = tr.self_ty().kind() else { continue };
                let mut fns: Vec<DefId> = tcx.associated_item_def_ids(*im).to_vec();
                for ii in tcx.inherent_impls(def.did()) {
                    fns.extend(tcx.associated_item_def_ids(*ii));
                }
                for d in fns {
                    if tcx.def_kind(d) != DefKind::AssocFn || tcx.generics_of(d).count() != tcx.generics_of(d).own_counts().lifetimes {
                        continue;
                    }
                    if tcx.is_mir_available(d) {
                        let args = ty::GenericArgs::identity_for_item(tcx, d);
                        let args = tcx.erase_and_anonymize_regions(args);
                        let i = Instance::new_raw(d, args);
                        let id = self.inst(i);
                        let t = tcx.erase_and_anonymize_regions(tr.self_ty());
                        let t = self.ty(t);
                        mj.push(a([s(self.path(def.did())), s(tcx.item_name(d).as_str()), n(id as i128), t]));
                    }
                }
            }
        }
        let mut ij: Vec<J> = Vec::new();
        while let Some(x) = self.todo.pop_front() {
            let i = self.order[x];
            let d = i.def_id();
            let mut o = vec![
                ("id", n(x as i128)),
                ("path", s(self.path(d))),
                ("raw", s(self.raw_path(d))),
                ("full", s(with_no_trimmed_paths!(with_no_visible_paths!(i.to_string())))),
                ("crate", s(tcx.crate_name(d.krate).as_str())),
                ("span", self.span(tcx.def_span(d))),
            ];
            if self.descend(i) {
                o.push(("body", self.body(i)));
            }
            ij.push(J::Obj(o));
        }
        let mut tj = Vec::new();
        let mut k = 0;
        while k < self.ty_json.len() {
            tj.push(self.ty_json[k].clone().unwrap_or(J::Null));
            k += 1;
        }
        let mut nx: Vec<(usize, usize)> = self
            .iter_next
            .iter()
            .filter(|(_, v)| **v != usize::MAX)
            .map(|(t, v)| (self.tys[t], *v))
            .collect();
        nx.sort();
        let out = J::Obj(vec![
            ("crate", s(self.local_name.clone())),
            ("roots", J::Arr(rj)),
            ("messages", J::Arr(mj)),
            ("instances", J::Arr(ij)),
            ("types", J::Arr(tj)),
            ("iter_next", a(nx.into_iter().map(|(t, v)| a([n(t as i128), n(v as i128)])))),
        ]);
        let mut st = String::new();
        out.write(&mut st);
        st
    }
}

/// `#[doc = "model: path | path"]`
fn model_of(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    let ld = d.as_local()?;
    for at in tcx.hir_attrs(tcx.local_def_id_to_hir_id(ld)) {
        if let Some(doc) = at.doc_str() {
            if let Some(m) = doc.as_str().trim().strip_prefix("model:") {
                return Some(m.to_string());
            }
        }
    }
    None
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if std::env::var("MIRDUMP_CRATE").ok().as_deref() == Some(name.as_str()) {
            let mut d = Dump {
                tcx,
                ids: HashMap::new(),
                order: vec![],
                todo: VecDeque::new(),
                tys: HashMap::new(),
                ty_list: vec![],
                ty_json: vec![],
                iter_next: HashMap::new(),
                models: HashMap::new(),
                local_name: name,
            };
            let st = d.run();
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            std::fs::write(&out, st).expect("cannot write the facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    std::process::exit(match rustc_driver_impl::catch_fatal_errors(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb)) {
        Ok(()) => 0,
        Err(_) => 1,
    });
}
