//! `mirdump`: a rustc driver which, for every local function of the crate being
//! checked, writes the *resolved* program as JSON: the optimised MIR (mir-opt-level 0)
//! of the function and of every function instance reachable from it, with callees
//! resolved through the type checker, constants evaluated, and types spelled out.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER, so argv[1] is the real rustc.
//! MIRDUMP_OUT   directory for <crate>.json
//! MIRDUMP_LEAF  file with path prefixes whose bodies must not be followed
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, GlobalId, Scalar};
use rustc_middle::mir::{self, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

macro_rules! s { ($e:expr) => { J::S($e.to_string()) } }
macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }
fn n(v: usize) -> J { J::N(v as i128) }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<(Ty<'tcx>, usize), usize>,
    fns: Vec<(String, J)>,
    fnmap: HashMap<String, ()>,
    queue: Vec<(Instance<'tcx>, TypingEnv<'tcx>, usize, String)>,
    constkeys: std::collections::HashSet<String>,
    leaf: Vec<String>,
    keep: Vec<String>,
    env: TypingEnv<'tcx>,
    envid: usize,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{t}"))))
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let key = (t, if t.has_param() { self.envid } else { 0 });
        if let Some(&i) = self.tymap.get(&key) { return i; }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(key, id);
        let st = tystr(t);
        let j = match *t.kind() {
            ty::Bool => obj! {"k": s!("bool")},
            ty::Char => obj! {"k": s!("char")},
            ty::Int(_) | ty::Uint(_) => obj! {"k": s!("int")},
            ty::Float(_) => obj! {"k": s!("float")},
            ty::Str => obj! {"k": s!("str")},
            ty::Never => obj! {"k": s!("never")},
            ty::Slice(e) => { let e = self.ty(e); obj! {"k": s!("slice"), "t": n(e)} }
            ty::Array(e, c) => {
                let e = self.ty(e);
                let len = c.try_to_target_usize(tcx).map(|v| n(v as usize)).unwrap_or(J::Null);
                obj! {"k": s!("array"), "t": n(e), "n": len}
            }
            ty::RawPtr(e, m) => { let e = self.ty(e); obj! {"k": s!("ptr"), "t": n(e), "mut": J::B(m.is_mut())} }
            ty::Ref(_, e, m) => { let e = self.ty(e); obj! {"k": s!("ref"), "t": n(e), "mut": J::B(m.is_mut())} }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| n(self.ty(x))).collect(); obj! {"k": s!("tuple"), "f": J::A(v)} }
            ty::Param(p) => obj! {"k": s!("param"), "name": s!(p.name)},
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| s!(path(tcx, d))).unwrap_or(J::Null);
                obj! {"k": s!("dyn"), "p": p}
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d.into(), args.skip_binder());
                obj! {"k": s!("fndef"), "c": c}
            }
            ty::FnPtr(..) => obj! {"k": s!("fnptr")},
            ty::Closure(d, args) => {
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                let d: DefId = d.into();
                let inst = Instance::new_raw(d, args);
                let kind = format!("{:?}", args.as_closure().kind());
                let k = self.instance(inst);
                obj! {"k": s!("closure"), "path": s!(path(tcx, d)), "f": J::A(up), "key": k, "ck": s!(kind)}
            }
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                let opaque = self.leaf_ty(&p);
                let ak = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                let mut vs = vec![];
                if !opaque {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dis = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_norm_wip());
                            fs.push(J::A(vec![s!(f.name), n(self.ty(ft))]));
                        }
                        vs.push(obj! {"n": s!(v.name), "d": J::Raw(dis), "f": J::A(fs)});
                    }
                }
                obj! {"k": s!("adt"), "path": s!(p), "ak": s!(ak), "args": J::A(targs), "v": J::A(vs), "opaque": J::B(opaque), "local": J::B(def.did().is_local())}
            }
            ty::Alias(..) => obj! {"k": s!("alias")},
            _ => obj! {"k": s!("other")},
        };
        let mut o = match j { J::O(o) => o, _ => unreachable!() };
        o.push(("s", s!(st)));
        self.types[id] = J::O(o);
        id
    }

    fn leaf_ty(&self, p: &str) -> bool {
        // field-level structure of these is never looked at
        const T: [&str; 22] = ["alloc::", "std::", "proc_macro", "syn::", "quote::", "hashbrown::", "core::fmt::Formatter", "core::fmt::rt", "core::fmt::FormattingOptions", "core::slice::iter", "core::str::", "core::num::", "core::cell::", "core::sync::", "core::panic", "core::array::", "core::mem::maybe_uninit", "core::mem::manually_drop", "core::ptr::", "core::alloc::", "core::any::", "core::hash::"];
        T.iter().any(|t| p.starts_with(t))
    }

    fn is_leaf(&self, p: &str) -> bool {
        if self.keep.iter().any(|k| p.starts_with(k.as_str())) { return false; }
        self.leaf.iter().any(|k| p.starts_with(k.as_str()))
    }

    /// key of an instance whose body is (or will be) dumped; Null if not followed
    fn instance(&mut self, mut inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        // iterator methods which std overrides for speed are equal to the provided ones by contract
        if let InstanceKind::Item(d) = inst.def {
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let ip = path(tcx, d);
                if (ip.starts_with("<core::slice::iter::") || ip.starts_with("<core::array::iter::") || ip.starts_with("<alloc::vec::into_iter::")
                    || ip.starts_with("<core::slice::Iter") || ip.starts_with("<core::array::IntoIter") || ip.starts_with("<alloc::vec::IntoIter")
                    || ip.starts_with("<core::str::Chars") || ip.starts_with("<core::str::CharIndices") || ip.starts_with("<core::str::Bytes") || ip.starts_with("<core::str::iter::"))
                    && !matches!(tcx.item_name(d).as_str(), "next" | "next_back")
                {
                    if let Some(tm) = tcx.trait_item_of(d) {
                        if tcx.is_mir_available(tm) && tcx.defaultness(tm).has_value() {
                            let tr = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
                            let own = inst.args.rebase_onto(tcx, imp, tr.args);
                            inst = Instance::new_raw(tm, own);
                        }
                    }
                }
            }
        }
        let avail = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !matches!(tcx.def_kind(d), DefKind::Const{..} | DefKind::Static{..}),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(k) => !matches!(k, ty::ShimKind::DropGlue(..)),
        };
        if !avail { return J::Null; }
        let p = path(tcx, inst.def_id());
        if matches!(inst.def, InstanceKind::Item(_)) && !did.is_local() && self.is_leaf(&p) { return J::Null; }
        let mut key = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
            tcx.def_path_str_with_args(inst.def_id(), inst.args))));
        if let InstanceKind::Shim(k) = inst.def { let d = format!("{k:?}"); let w: String = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(); let _ = write!(key, " shim:{w}"); if let ty::ShimKind::Clone(_, t) | ty::ShimKind::FnPtr(_, t) = k { let _ = write!(key, ":{}", tystr(t)); } }
        if inst.args.has_param() { let _ = write!(key, " @{}", self.envid); }
        if self.fnmap.insert(key.clone(), ()).is_none() {
            let (env, eid) = (self.env, self.envid);
            self.queue.push((inst, env, eid, key.clone()));
        }
        J::S(key)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let targs: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
        let tr = tcx.trait_of_assoc(d);
        let tm = tr.map(|t| s!(format!("{}::{}", path(tcx, t), tcx.item_name(d)))).unwrap_or(J::Null);
        let name = tcx.opt_item_name(d).map(|x| s!(x)).unwrap_or(J::Null);
        let mut o = vec![("p", s!(p)), ("n", name), ("args", J::A(targs)), ("tm", tm)];
        let args_e = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, self.env, d, args_e) {
            Ok(Some(i)) => {
                let k = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("k", s!(k)));
                let rp = path(tcx, i.def_id());
                o.push(("rp", s!(rp)));
                o.push(("local", J::B(i.def_id().is_local())));
                let key = self.instance(i);
                let leaf = matches!(key, J::Null);
                o.push(("key", key));
                // collecting into a library collection: the iteration is followed
                if leaf && !i.def_id().is_local() {
                    if let Some(t) = tr {
                        let tp = path(tcx, t);
                        if tp.ends_with("::FromIterator") || tp.ends_with("::Extend") {
                            if let (Some(it), Some(coll)) = (args_e.types().last(), args_e.types().next()) {
                                if let Some(j) = self.iteration(it, coll) { o.push(("itc", j)); }
                            }
                        }
                    }
                }
            }
            _ => { o.push(("k", s!("trait"))); }
        }
        J::O(o)
    }

    /// what iterating over a value of type `it` calls, and the types involved
    fn iteration(&mut self, it: Ty<'tcx>, coll: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let into = tcx.lang_items().into_iter_fn()?;
        let next = tcx.lang_items().next_fn()?;
        let out = |d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>| -> Option<Ty<'tcx>> {
            let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip();
            let o = tcx.instantiate_bound_regions_with_erased(sig).output();
            tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(o)).ok()
        };
        let ia = tcx.mk_args(&[it.into()]);
        let ity = out(into, ia, self.env)?;
        let na = tcx.mk_args(&[ity.into()]);
        let opt = out(next, na, self.env)?;
        let item = match opt.kind() { ty::Adt(_, a) => a.type_at(0), _ => return None };
        let er = tcx.lifetimes.re_erased;
        let o = vec![
            ("i", n(self.ty(it))), ("it", n(self.ty(ity))), ("rit", n(self.ty(Ty::new_mut_ref(tcx, er, ity)))), ("opt", n(self.ty(opt))), ("item", n(self.ty(item))),
            ("unit", n(self.ty(tcx.types.unit))), ("disc", n(self.ty(tcx.types.isize))), ("coll", n(self.ty(coll))), ("rcoll", n(self.ty(Ty::new_mut_ref(tcx, er, coll)))),
            ("into", self.callee(into, ia)), ("next", self.callee(next, na)),
        ];
        Some(J::O(o))
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => s!("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s!("f"), n(f.as_usize()), n(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s!("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s!("c"), n(offset as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s!("s"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s!("d"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => s!("="),
            });
        }
        J::A(v)
    }

    fn mem(&mut self, aid: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let alloc = match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(d) => {
                if tcx.is_foreign_item(d) { return s!("?static"); }
                match tcx.eval_static_initializer(d) { Ok(a) => a, Err(_) => return s!("?static") }
            }
            GlobalAlloc::Function { .. } => return s!("?fn"),
            _ => return s!("?alloc"),
        };
        let a = alloc.inner();
        self.decode(a, off, t, depth)
    }

    fn decode(&mut self, a: &mir::interpret::Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 { return s!("?deep"); }
        let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) else { return s!("?layout") };
        let psz = 8u64;
        let rd_ptr = |a: &mir::interpret::Allocation, off: u64| -> Option<(mir::interpret::AllocId, u64)> {
            match a.read_scalar(&tcx, alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(psz)), true) {
                Ok(Scalar::Ptr(p, _)) => { let (prov, o) = p.into_raw_parts(); Some((prov.alloc_id(), o.bytes())) }
                _ => None,
            }
        };
        let rd_int = |a: &mir::interpret::Allocation, off: u64, sz: u64| -> Option<u128> {
            match a.read_scalar(&tcx, alloc_range(rustc_abi::Size::from_bytes(off), rustc_abi::Size::from_bytes(sz)), false) {
                Ok(Scalar::Int(i)) => Some(i.to_bits(i.size())),
                _ => None,
            }
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match rd_int(a, off, lay.size.bytes()) {
                Some(v) => obj! {"i": J::Raw(self.sint(v, t).to_string())},
                None => s!("?uninit"),
            },
            ty::Float(_) => s!("?float"),
            ty::Closure(..) | ty::FnDef(..) if lay.size.bytes() == 0 => { let cid = self.ty(t); obj! {"zst": n(cid)} }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() { let o = lay.fields.offset(i).bytes(); v.push(self.decode(a, off + o, x, depth + 1)); }
                obj! {"agg": J::A(v)}
            }
            ty::Array(e, c) => {
                let Some(len) = c.try_to_target_usize(tcx) else { return s!("?len") };
                if len > 4096 { return s!("?big"); }
                let Ok(el) = tcx.layout_of(self.env.as_query_input(e)) else { return s!("?layout") };
                if e == tcx.types.u8 { return self.bytes(a, off, len); }
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(a, off + i * el.size.bytes(), e, depth + 1)); }
                obj! {"arr": J::A(v)}
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let Some((id, o)) = rd_ptr(a, off) else { return s!("?ptr") };
                match *e.kind() {
                    ty::Str => { let len = rd_int(a, off + psz, psz).unwrap_or(0) as u64; self.mem_bytes(id, o, len, true) }
                    ty::Slice(el) => {
                        let len = rd_int(a, off + psz, psz).unwrap_or(0) as u64;
                        self.mem_slice(id, o, len, el, depth + 1)
                    }
                    ty::Dynamic(..) => {
                        let Some((vid, _)) = rd_ptr(a, off + psz) else { return s!("?dyn") };
                        let GlobalAlloc::VTable(ct, _) = tcx.global_alloc(vid) else { return s!("?dyn") };
                        if ct.has_erased_regions() || !ct.has_param() {
                            let v = if tcx.layout_of(self.env.as_query_input(ct)).map(|l| l.size.bytes() == 0).unwrap_or(false) { let cid = self.ty(ct); obj! {"zst": n(cid)} } else { self.mem(id, o, ct, depth + 1) };
                            let cid = self.ty(ct);
                            let vt = self.vtable(Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, ct), Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, e));
                            return obj! {"dynref": v, "dt": n(cid), "vt": vt};
                        }
                        s!("?dyn")
                    }
                    _ => { let v = self.mem(id, o, e, depth + 1); obj! {"ref": v} }
                }
            }
            ty::Adt(def, args) => {
                if def.is_union() { return s!("?union"); }
                let vidx = if def.is_enum() {
                    match self.variant(a, off, t, &lay) { Some(v) => v, None => return s!("?variant") }
                } else { rustc_abi::FIRST_VARIANT };
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let vl = lay.for_variant(&cx, vidx);
                let mut v = vec![];
                for (i, f) in def.variant(vidx).fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_norm_wip());
                    let o = vl.fields.offset(i).bytes();
                    v.push(self.decode(a, off + o, ft, depth + 1));
                }
                obj! {"adt": n(vidx.as_usize()), "f": J::A(v)}
            }
            ty::FnDef(..) => obj! {"zst": n(self.ty(t))},
            ty::FnPtr(..) => {
                if let Some((id, _)) = rd_ptr(a, off) { if let GlobalAlloc::Function { instance } = tcx.global_alloc(id) {
                    let k = self.callee(instance.def_id(), instance.args);
                    return obj! {"fnptr": k};
                } }
                s!("?fnptr")
            }
            _ => s!("?other"),
        }
    }

    fn variant(&mut self, a: &mir::interpret::Allocation, off: u64, t: Ty<'tcx>, lay: &rustc_abi::TyAndLayout<'tcx, Ty<'tcx>>) -> Option<rustc_abi::VariantIdx> {
        use rustc_abi::Variants;
        let tcx = self.tcx;
        let mut sc = None;
        if let Variants::Multiple { tag, tag_field, .. } = &lay.variants {
            let o = off + lay.fields.offset(tag_field.as_usize()).bytes();
            let sz = tag.size(&tcx);
            sc = a.read_scalar(&tcx, alloc_range(rustc_abi::Size::from_bytes(o), sz), matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_))).ok();
        }
        self.variant_of(sc, t, lay)
    }

    fn variant_of(&mut self, sc: Option<Scalar>, t: Ty<'tcx>, lay: &rustc_abi::TyAndLayout<'tcx, Ty<'tcx>>) -> Option<rustc_abi::VariantIdx> {
        use rustc_abi::{TagEncoding, Variants};
        let tcx = self.tcx;
        match &lay.variants {
            Variants::Empty => None,
            Variants::Single { index } => Some(*index),
            Variants::Multiple { tag, tag_encoding, .. } => {
                let sz = tag.size(&tcx);
                match tag_encoding {
                    TagEncoding::Direct => {
                        let Some(Scalar::Int(i)) = sc else { return None };
                        let v = i.to_bits(sz);
                        let ty::Adt(def, _) = *t.kind() else { return None };
                        def.discriminants(tcx).find(|(_, d)| { let m = if sz.bits() >= 128 { u128::MAX } else { (1u128 << sz.bits()) - 1 }; d.val & m == v }).map(|(i, _)| i)
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        match sc {
                            Some(Scalar::Int(i)) => {
                                let v = i.to_bits(sz);
                                let m = if sz.bits() >= 128 { u128::MAX } else { (1u128 << sz.bits()) - 1 };
                                let rel = v.wrapping_sub(*niche_start) & m;
                                let (st, en) = (niche_variants.start.as_u32() as u128, niche_variants.last.as_u32() as u128);
                                if rel <= en - st { Some(rustc_abi::VariantIdx::from_u32((st + rel) as u32)) } else { Some(*untagged_variant) }
                            }
                            _ => Some(*untagged_variant),
                        }
                    }
                }
            }
        }
    }

    fn sint(&self, v: u128, t: Ty<'tcx>) -> i128 {
        if let ty::Int(it) = *t.kind() {
            let bits = it.bit_width().unwrap_or(64);
            if bits < 128 { let sh = 128 - bits; return ((v << sh) as i128) >> sh; }
        }
        v as i128
    }
    fn bytes(&mut self, a: &mir::interpret::Allocation, off: u64, len: u64) -> J {
        let (o, l) = (off as usize, len as usize);
        if o + l > a.len() { return s!("?oob"); }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l);
        obj! {"bytes": J::A(b.iter().map(|x| n(*x as usize)).collect())}
    }
    fn mem_bytes(&mut self, id: mir::interpret::AllocId, off: u64, len: u64, is_str: bool) -> J {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return s!("?alloc") };
        let b = self.bytes(a.inner(), off, len);
        match b { J::O(mut o) => { let v = o.remove(0).1; if is_str { obj! {"str": v} } else { obj! {"bstr": v} } } x => x }
    }
    fn mem_slice(&mut self, id: mir::interpret::AllocId, off: u64, len: u64, el: Ty<'tcx>, depth: usize) -> J {
        if el == self.tcx.types.u8 { return self.mem_bytes(id, off, len, false); }
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return s!("?alloc") };
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(el)) else { return s!("?layout") };
        if len > 4096 { return s!("?big"); }
        let mut v = vec![];
        for i in 0..len { v.push(self.decode(a.inner(), off + i * l.size.bytes(), el, depth + 1)); }
        obj! {"sl": J::A(v)}
    }

    /// body of a constant too generic to evaluate here
    fn const_body(&mut self, u: mir::UnevaluatedConst<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(u.args);
        let (raw, args) = match u.promoted {
            Some(p) => (tcx.promoted_mir(u.def)[p].clone(), args),
            None => match Instance::try_resolve(tcx, self.env, u.def, args) {
                Ok(Some(i)) if matches!(tcx.def_kind(i.def_id()), DefKind::AssocConst { .. } | DefKind::Const { .. }) && tcx.is_mir_available(i.def_id()) => (tcx.mir_for_ctfe(i.def_id()).clone(), i.args),
                _ => return J::Null,
            },
        };
        let key = format!("const {}[{}] {args:?} @{}", path(tcx, u.def), u.promoted.map(|p| p.as_usize() as isize).unwrap_or(-1), self.envid);
        if !self.constkeys.insert(key.clone()) { return s!(key); }
        let inst = Instance::new_raw(u.def, args);
        let Ok(body) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw)) else { return J::Null };
        let b = self.body_of(&body, inst);
        self.fns.push((key.clone(), b));
        s!(key)
    }

    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return obj! {"zst": n(tid)}; }
        let ev = match c {
            // a promoted belongs to exactly the body it occurs in: resolving it like a method would
            // look in the overriding impl of a trait's default method
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                let args = tcx.erase_and_anonymize_regions(u.args);
                if u.promoted.unwrap().as_usize() >= tcx.promoted_mir(u.def).len() { return obj! {"un": s!(path(tcx, u.def)), "key": J::Null, "t": n(tid)}; }
                if args.has_param() { Err(()) } else {
                    tcx.const_eval_global_id(self.env, GlobalId { instance: Instance::new_raw(u.def, args), promoted: u.promoted }, rustc_span::DUMMY_SP).map_err(|_| ())
                }
            }
            _ => c.eval(tcx, self.env, rustc_span::DUMMY_SP).map_err(|_| ()),
        };
        let v = match ev {
            Ok(v) => v,
            Err(_) => {
                let d = match c { Const::Unevaluated(u, _) => path(tcx, u.def), Const::Ty(_, c) => format!("{c}"), _ => "?".into() };
                let key = match c { Const::Unevaluated(u, _) => self.const_body(*u), _ => J::Null };
                return obj! {"un": s!(d), "key": key, "t": n(tid)};
            }
        };
        let val = match v {
            ConstValue::ZeroSized => return obj! {"zst": n(tid)},
            ConstValue::Scalar(Scalar::Int(i)) => {
                match *t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => { let r = i.to_bits(i.size()); obj! {"i": J::Raw(self.sint(r, t).to_string())} }
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destructure(v, t, 0),
                    _ => s!("?scalar"),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match *t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            if tcx.is_mutable_static(d) || !e.is_freeze(tcx, self.env) { return obj! {"t": n(tid), "v": obj!{"static": s!(path(tcx, d))}}; }
                        }
                        let v = self.mem(prov.alloc_id(), off.bytes(), e, 0); obj! {"ref": v}
                    }
                    ty::FnPtr(..) => match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Function { instance } => { let k = self.callee(instance.def_id(), instance.args); obj! {"fnptr": k} }
                        _ => s!("?fnptr"),
                    },
                    _ => self.destructure(v, t, 0),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                match *t.kind() {
                    ty::Ref(_, e, _) => match *e.kind() {
                        ty::Str => self.mem_bytes(alloc_id, 0, meta, true),
                        ty::Slice(el) => self.mem_slice(alloc_id, 0, meta, el, 0),
                        _ => s!("?slice"),
                    },
                    _ => s!("?slice"),
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t, 0),
        };
        obj! {"t": n(tid), "v": val}
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 10 { return s!("?deep"); }
        if t.has_param() {
            // a fieldless variant of a generic enum, such as None::<&T>
            if let (ty::Adt(def, _), ConstValue::Scalar(sc @ Scalar::Int(_))) = (t.kind(), v) {
                if def.is_enum() {
                    if let Ok(lay) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        if let Some(i) = self.variant_of(Some(sc), t, &lay) {
                            if def.variant(i).fields.is_empty() { return obj! {"adt": n(i.as_usize()), "f": J::A(vec![])}; }
                        }
                    }
                }
            }
            return s!("?generic");
        }
        match *t.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.destructure(*fv, *ft, depth + 1)).collect();
                        match t.kind() {
                            ty::Adt(..) => obj! {"adt": n(d.variant.map(|x| x.as_usize()).unwrap_or(0)), "f": J::A(fs)},
                            ty::Tuple(..) => obj! {"agg": J::A(fs)},
                            _ => obj! {"arr": J::A(fs)},
                        }
                    }
                    None => s!("?destructure"),
                }
            }
            _ => {
                let c = Const::Val(v, t);
                match self.constant(&c) { J::O(o) => o.into_iter().find(|x| x.0 == "v" ).map(|x| x.1).unwrap_or(obj! {"zst": n(self.ty(t))}), x => x }
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); obj! {"c": p} }
            Operand::Move(p) => { let p = self.place(p); obj! {"m": p} }
            Operand::Constant(c) => { let c = self.constant(&c.const_); obj! {"k": c} }
            Operand::RuntimeChecks(_) => { let b = self.tcx.types.bool; let t = self.ty(b); obj! {"k": obj!{"t": n(t), "v": obj!{"i": n(0)}}} }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o); J::A(vec![s!("use"), o]) }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                let c = c.try_to_target_usize(tcx).map(|v| n(v as usize)).unwrap_or(J::Null);
                J::A(vec![s!("repeat"), o, c])
            }
            Rvalue::Ref(_, k, p) => { let m = k.mutability().is_mut(); let p = self.place(p); J::A(vec![s!("ref"), p, J::B(m)]) }
            Rvalue::RawPtr(k, p) => { let m = matches!(k, mir::RawPtrKind::Mut); let p = self.place(p); J::A(vec![s!("ref"), p, J::B(m)]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![s!("reborrow"), p, J::B(m.is_mut())]) }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s!("unknown"), s!("tls")]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, tcx);
                let oj = self.operand(o);
                let kind = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                let (fi, ti) = (self.ty(from), self.ty(*t));
                let mut v = vec![s!("cast"), s!(kind), oj, n(fi), n(ti)];
                if kind.starts_with("Unsize") { v.push(self.vtable(from, *t)); }
                if kind.starts_with("ReifyFnPointer") || kind.starts_with("ClosureFnPointer") { v.push(J::Null); }
                J::A(v)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, tcx);
                let (a, b, t) = (self.operand(&ab.0), self.operand(&ab.1), self.ty(t));
                J::A(vec![s!("bin"), s!(format!("{op:?}")), a, b, n(t)])
            }
            Rvalue::UnaryOp(op, a) => { let t = a.ty(body, tcx); let a = self.operand(a); let t = self.ty(t); J::A(vec![s!("un"), s!(format!("{op:?}")), a, n(t)]) }
            Rvalue::Discriminant(p) => { let t = p.ty(body, tcx).ty; let t = self.ty(t); let p = self.place(p); J::A(vec![s!("discr"), p, n(t)]) }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(body, tcx);
                let t = self.ty(t);
                let (kind, v, act) = match **k {
                    mir::AggregateKind::Array(_) => ("array", 0, J::Null),
                    mir::AggregateKind::Tuple => ("tuple", 0, J::Null),
                    mir::AggregateKind::Adt(_, v, _, _, active) => ("adt", v.as_usize(), active.map(|a| n(a.as_usize())).unwrap_or(J::Null)),
                    mir::AggregateKind::Closure(..) => ("closure", 0, J::Null),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0, J::Null),
                    _ => ("other", 0, J::Null),
                };
                J::A(vec![s!("agg"), s!(kind), n(t), n(v), J::A(f), act])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s!("use"), obj! {"c": p}]) }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.operand(o); J::A(vec![s!("use"), o]) }
        }
    }

    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (Some(a), Some(b)) = (from.builtin_deref(true).or(from.boxed_ty()), to.builtin_deref(true).or(to.boxed_ty())) else { return J::Null };
        let (a, b) = tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        let ty::Dynamic(preds, _) = *b.kind() else { return J::Null };
        if matches!(a.kind(), ty::Dynamic(..)) { return J::Null }
        let Some(pr) = preds.principal() else { return J::Null };
        let pr = tcx.instantiate_bound_regions_with_erased(pr);
        let tref = pr.with_self_ty(tcx, a);
        let mut out = vec![];
        let mut todo = vec![tref];
        let mut seen = std::collections::HashSet::new();
        while let Some(tr) = todo.pop() {
            if !seen.insert(tr.def_id) { continue; }
            for &m in tcx.associated_item_def_ids(tr.def_id) {
                if tcx.def_kind(m) != DefKind::AssocFn { continue; }
                if tcx.generics_of(m).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                let args = ty::GenericArgs::for_item(tcx, m, |p, _| if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() });
                let c = self.callee(m, args);
                out.push(J::A(vec![s!(format!("{}::{}", path(tcx, tr.def_id), tcx.item_name(m))), c]));
            }
            for (cl, _) in tcx.explicit_super_clauses_of(tr.def_id).iter_instantiated_copied(tcx, tr.args).map(|x| x.skip_norm_wip()) {
                if let Some(t) = cl.as_trait_clause() { todo.push(tcx.instantiate_bound_regions_with_erased(t.map_bound(|x| x.trait_ref))); }
            }
        }
        let aid = self.ty(a);
        obj! {"self": n(aid), "m": J::A(out)}
    }

    fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone())).ok()?;
        Some(self.body_of(&body, inst))
    }

    fn body_of(&mut self, body: &mir::Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(J::A(vec![n(p.local.as_usize()), s!(v.name)])); } }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(&b.0); let r = self.rvalue(&b.1, body); st.push(J::A(vec![p, r])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![p, J::A(vec![s!("setdiscr"), n(variant_index.as_usize())])])); }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        _ => st.push(J::A(vec![J::A(vec![n(0)]), J::A(vec![s!("unknown"), s!("copy_nonoverlapping")])])),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s!("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s!("goto"), n(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(body, tcx);
                    let o = self.operand(discr);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::Raw(self.sint(v, t).to_string()), n(b.as_usize())])).collect();
                    let t = self.ty(t);
                    J::A(vec![s!("switch"), o, J::A(v), n(targets.otherwise().as_usize()), n(t)])
                }
                TerminatorKind::Return => J::A(vec![s!("return")]),
                TerminatorKind::Unreachable => J::A(vec![s!("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    let mut c = J::Null;
                    if let ty::Adt(def, args) = *t.kind() {
                        if let Some(dst) = tcx.adt_destructor(def.did()) {
                            if !self.is_leaf(&path(tcx, def.did())) && !self.leaf_ty(&path(tcx, def.did())) { c = self.callee(dst.did, args); }
                        }
                    }
                    let t = self.ty(t);
                    let p = self.place(place);
                    J::A(vec![s!("drop"), p, n(target.as_usize()), n(t), c])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(body, tcx);
                    let f = match *ft.kind() {
                        ty::FnDef(d, a) => self.callee(d.into(), a.skip_binder()),
                        _ => { let o = self.operand(func); obj! {"k": s!("fnptr"), "o": o} }
                    };
                    let sig = ft.fn_sig(tcx);
                    let abi = format!("{:?}", sig.abi());
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    let tys: Vec<J> = args.iter().map(|x| { let t = x.node.ty(body, tcx); n(self.ty(t)) }).collect();
                    J::A(vec![s!("call"), f, J::A(a), d, target.map(|t| n(t.as_usize())).unwrap_or(J::Null), n(dt), J::A(tys), s!(abi)])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.operand(cond);
                    let m = format!("{:?}", msg); let m: String = m.chars().take(60).collect();
                    J::A(vec![s!("assert"), o, J::B(*expected), n(target.as_usize()), s!(m)])
                }
                k => J::A(vec![s!("other"), s!(k.name())]),
            };
            blocks.push(J::A(vec![J::A(st), t, n(loc.line)]));
        }
        let sp = body.span;
        let lo = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        obj! {
            "path": s!(path(tcx, inst.def_id())), "args": n(body.arg_count), "locals": J::A(locals), "names": J::A(names),
            "spread": body.spread_arg.map(|x| n(x.as_usize())).unwrap_or(J::Null),
            "bb": J::A(blocks), "file": s!(file), "line": n(lo.line), "local": J::B(inst.def_id().is_local()),
            "closure": J::B(matches!(inst.def, InstanceKind::Item(d) if tcx.is_closure_like(d))),
        }
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let (mut leaf, mut keep) = (vec![], vec![]);
        if let Ok(f) = std::env::var("MIRDUMP_LEAF") {
            for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
                let l = l.trim();
                if l.is_empty() || l.starts_with('#') { continue; }
                if let Some(k) = l.strip_prefix('!') { keep.push(k.to_string()) } else { leaf.push(l.to_string()) }
            }
        }
        let mut d = Dump { tcx, types: vec![], tymap: HashMap::new(), fns: vec![], fnmap: HashMap::new(), queue: vec![], leaf, keep, env: TypingEnv::fully_monomorphized(), envid: 0, constkeys: Default::default() };
        let mut entries = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    d.env = TypingEnv::post_analysis(tcx, did);
                    d.envid = id.local_def_index.as_usize() + 1;
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = d.ty(t);
                    let fs: Vec<J> = def.all_fields().map(|f| J::A(vec![s!(f.name), s!(format!("{:?}", f.vis)), J::B(f.vis.is_public())])).collect();
                    adts.push(obj! {"path": s!(path(tcx, did)), "t": n(ti), "pub": J::B(tcx.visibility(did).is_public()), "fields": J::A(fs), "nonexh": J::B(def.is_variant_list_non_exhaustive() || (def.is_struct() && def.non_enum_variant().is_field_list_non_exhaustive()))});
                }
                DefKind::Impl { of_trait } => {
                    d.env = TypingEnv::post_analysis(tcx, did);
                    d.envid = id.local_def_index.as_usize() + 1;
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait { let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip(); s!(path(tcx, r.def_id)) } else { J::Null };
                    let items: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|m| s!(tcx.item_name(*m))).collect();
                    let sti = d.ty(st);
                    impls.push(obj! {"trait": tr, "self": n(sti), "items": J::A(items), "s": s!(tystr(st))});
                }
                _ => {}
            }
        }
        for id in tcx.mir_keys(()) {
            let did = id.to_def_id();
            let dk = tcx.def_kind(did);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            if matches!(dk, DefKind::Closure) { continue; }
            if !tcx.is_mir_available(did) { continue; }
            d.env = TypingEnv::post_analysis(tcx, did);
            d.envid = id.local_def_index.as_usize() + 1;
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let key = d.instance(inst);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let sig = tcx.try_normalize_erasing_regions(d.env, ty::Unnormalized::new_wip(sig)).unwrap_or(sig);
            let ins: Vec<J> = sig.inputs().iter().map(|t| n(d.ty(*t))).collect();
            let outt = d.ty(sig.output());
            let mut o = vec![("key", key), ("path", s!(path(tcx, did))), ("ins", J::A(ins)), ("out", n(outt)), ("pub", J::B(tcx.visibility(did).is_public())), ("name", s!(tcx.item_name(did)))];
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self", n(d.ty(st))));
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(imp) {
                    let r = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s!(path(tcx, r.def_id))));
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                o.push(("provided", s!(path(tcx, t))));
            }
            let loc = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).source_callsite().lo());
            o.push(("file", s!(loc.file.name.prefer_local_unconditionally())));
            o.push(("line", n(loc.line)));
            entries.push(J::O(o));
        }
        while let Some((inst, env, eid, key)) = d.queue.pop() {
            d.env = env;
            d.envid = eid;
            let b = d.body(inst).unwrap_or(J::Null);
            d.fns.push((key, b));
            if d.fns.len() > 60000 { break; }
        }
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let feats: Vec<J> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|v| s!(v))).collect();
        let deps: Vec<J> = tcx.crates(()).iter().map(|c| s!(tcx.crate_name(*c))).collect();
        let fns = std::mem::take(&mut d.fns);
        let j = obj! {
            "crate": s!(krate), "test": J::B(tcx.sess.opts.test), "features": J::A(feats), "deps": J::A(deps),
            "entries": J::A(entries), "adts": J::A(adts), "impls": J::A(impls),
            "types": J::A(std::mem::take(&mut d.types)),
            "fns": J::D(fns),
        };
        let suffix = if tcx.sess.opts.test { "-test" } else { "" };
        let mut st = String::new();
        j.write(&mut st);
        std::fs::write(format!("{out}/{krate}{suffix}.json"), st).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if a.len() > 1 && (a[1].ends_with("rustc") || a[1].ends_with("rustc.exe")) { a.remove(1); }
    if !a.iter().any(|x| x == "--crate-name") || a.iter().any(|x| x.starts_with("--print")) || a.iter().any(|x| x == "build_script_build") {
        struct Nop; impl rustc_driver_impl::Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&a, &mut Nop);
        return;
    }
    rustc_driver_impl::compiler_entrypoint(&a, &mut Cb);
}
