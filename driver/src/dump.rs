use crate::json::J;
use crate::obj;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, Unnormalized};
use std::collections::{HashMap, HashSet, VecDeque};
use std::io::Write as _;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(String, Work<'tcx>)>,
    seen: HashSet<String>,
    shims: HashMap<String, DefId>,
}

#[derive(Clone)]
enum Work<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

/// Path of an item without `{impl#n}` indexes.
pub fn canon(tcx: TyCtxt<'_>, d: DefId) -> String {
    let kind = tcx.def_kind(d);
    let krate = tcx.crate_name(d.krate).to_string();
    if d.is_crate_root() {
        return krate;
    }
    let parent = tcx.parent(d);
    match kind {
        DefKind::Impl { .. } => {
            let self_ty = tcx.type_of(d).instantiate_identity().skip_normalization();
            let st = short_ty(tcx, self_ty);
            match tcx.impl_opt_trait_ref(d) {
                Some(tr) => {
                    let tr = tr.instantiate_identity().skip_normalization();
                    format!("<{} as {}>", st, canon(tcx, tr.def_id))
                }
                None => st,
            }
        }
        DefKind::Closure => {
            let key = tcx.def_key(d);
            format!("{}::{{closure#{}}}", canon(tcx, parent), key.disambiguated_data.disambiguator)
        }
        _ => {
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{anon}".into());
            format!("{}::{}", canon(tcx, parent), name)
        }
    }
}

fn short_ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => canon(tcx, a.did()),
        ty::Ref(_, t, _) => format!("&{}", short_ty(tcx, *t)),
        ty::RawPtr(t, _) => format!("*{}", short_ty(tcx, *t)),
        ty::Slice(t) => format!("[{}]", short_ty(tcx, *t)),
        ty::Array(t, _) => format!("[{};_]", short_ty(tcx, *t)),
        _ => format!("{t}"),
    }
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn inline_ok(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate).to_string();
        match k.as_str() {
            "std" | "alloc" | "hashbrown" | "wyhash" | "fastrand" | "oorandom" | "rand_core" => false,
            "core" => {
                let c = canon(self.tcx, d);
                // The module of the function or of the implementing type.
                let path = self.tcx.def_path(d);
                let first = path.data.first().and_then(|x| x.data.get_opt_name()).map(|s| s.to_string()).unwrap_or_default();
                matches!(first.as_str(), "option" | "result" | "ops" | "iter" | "cmp" | "convert" | "mem" | "clone" | "default" | "bool" | "tuple" | "array" | "borrow" | "hint" | "num" | "intrinsics" | "ptr" | "cell" | "slice" | "hash" | "marker" | "pin" | "any" | "char" | "ascii" | "time" )
                    || c.contains("::fold")
            }
            _ => true,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::U(self.ty_id(t) as u128)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.ty_ix.insert(t, ix);
        let tcx = self.tcx;
        let s = format!("{t}");
        let j = match t.kind() {
            ty::Bool => obj! {k: J::s("bool"), s: J::S(s)},
            ty::Char => obj! {k: J::s("char"), s: J::S(s)},
            ty::Int(i) => obj! {k: J::s("int"), s: J::S(s), signed: J::B(true), bits: J::U(i.bit_width().unwrap_or(64) as u128)},
            ty::Uint(i) => obj! {k: J::s("int"), s: J::S(s), signed: J::B(false), bits: J::U(i.bit_width().unwrap_or(64) as u128)},
            ty::Float(_) => obj! {k: J::s("float"), s: J::S(s)},
            ty::Str => obj! {k: J::s("str"), s: J::S(s)},
            ty::Never => obj! {k: J::s("never"), s: J::S(s)},
            ty::Adt(def, args) => {
                let krate = tcx.crate_name(def.did().krate).to_string();
                let expand = !matches!(krate.as_str(), "std" | "alloc" | "hashbrown") || def.is_enum() && krate != "hashbrown";
                let mut vs = vec![];
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let fj = self.ty(ft);
                            fs.push(obj! {n: J::s(f.name.to_string()), t: fj});
                        }
                        let discr = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            J::s(format!("{}", d))
                        } else { J::Null };
                        let dv = if def.is_enum() { J::U(def.discriminant_for_variant(tcx, vi).val) } else { J::U(0) };
                        vs.push(obj! {n: J::s(v.name.to_string()), d: dv, ds: discr, f: J::A(fs)});
                    }
                }
                let targs: Vec<J> = args.types().map(|a| self.ty(a)).collect();
                let dtor = match tcx.adt_destructor(def.did()) {
                    Some(d) => {
                        let inst = Instance::try_resolve(tcx, self.env, d.did, *args).ok().flatten();
                        match inst {
                            Some(i) if self.inline_ok(d.did) && tcx.crate_name(d.did.krate).as_str() != "core" => J::S(self.enqueue(i)),
                            _ => J::s(canon(tcx, d.did)),
                        }
                    }
                    None => J::Null,
                };
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                obj! {k: J::s("adt"), s: J::S(s), p: J::S(canon(tcx, def.did())), krate: J::S(krate), kind: J::s(kind), v: J::A(vs), a: J::A(targs), exp: J::B(expand), drop: dtor}
            }
            ty::Ref(_, u, m) => {
                let uj = self.ty(*u);
                obj! {k: J::s("ref"), s: J::S(s), t: uj, m: J::B(m.is_mut())}
            }
            ty::RawPtr(u, m) => {
                let uj = self.ty(*u);
                obj! {k: J::s("ptr"), s: J::S(s), t: uj, m: J::B(m.is_mut())}
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                obj! {k: J::s("tuple"), s: J::S(s), f: J::A(v)}
            }
            ty::Array(u, n) => {
                let uj = self.ty(*u);
                let n = n.try_to_target_usize(tcx).map(|x| J::U(x as u128)).unwrap_or(J::Null);
                obj! {k: J::s("array"), s: J::S(s), t: uj, n: n}
            }
            ty::Slice(u) => {
                let uj = self.ty(*u);
                obj! {k: J::s("slice"), s: J::S(s), t: uj}
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(d.to_def_id_(), args);
                obj! {k: J::s("fndef"), s: J::S(s), callee: c}
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let inst = Instance::new_raw(d.to_def_id_(), *args);
                let key = self.enqueue(inst);
                let kd = format!("{:?}", args.as_closure().kind());
                obj! {k: J::s("closure"), s: J::S(s), f: J::A(ups), key: J::S(key), kind: J::S(kd)}
            }
            ty::Dynamic(..) => obj! {k: J::s("dyn"), s: J::S(s)},
            ty::Param(_) => obj! {k: J::s("param"), s: J::S(s)},
            ty::Alias(..) => obj! {k: J::s("alias"), s: J::S(s)},
            _ => obj! {k: J::s("other"), s: J::S(s)},
        };
        self.types[ix] = j;
        ix
    }

    fn key(&self, i: Instance<'tcx>) -> String {
        let mut s = canon(self.tcx, i.def_id());
        if let InstanceKind::Shim(sh) = i.def {
            let n = match sh {
                ShimKind::VTable(..) => "vtable",
                ShimKind::Reify(..) => "reify",
                ShimKind::FnPtr(..) => "fnptr",
                ShimKind::ClosureOnce { .. } => "closure_once",
                ShimKind::DropGlue(..) => "dropglue",
                ShimKind::Clone(..) => "clone",
                _ => "shim",
            };
            s.push_str("#");
            s.push_str(n);
        }
        let a: Vec<String> = i.args.iter().filter(|a| a.as_region().is_none()).map(|a| format!("{a}")).collect();
        format!("{}<{}>", s, a.join(", "))
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.key(i);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), Work::Inst(i)));
        }
        k
    }

    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let dk = self.tcx.def_kind(d);
                match dk {
                    DefKind::Const | DefKind::AssocConst | DefKind::AnonConst => (dk != DefKind::AssocConst || self.tcx.defaultness(d).has_value()) && self.tcx.trivial_const(d).is_none(),
                    DefKind::Ctor(..) => false,
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => self.tcx.is_mir_available(d),
                    _ => false,
                }
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::Clone(..)) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    /// A plain body that stands for a function of std which works on raw memory.
    fn shim(&self, i: Instance<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let InstanceKind::Item(d) = i.def else { return None };
        if !matches!(tcx.crate_name(d.krate).as_str(), "core" | "alloc" | "std") || tcx.def_kind(d) != DefKind::AssocFn && tcx.def_kind(d) != DefKind::Fn {
            return None;
        }
        let path = canon(tcx, d);
        let name = path.rsplit("::").next().unwrap_or("").to_string();
        let types: Vec<ty::GenericArg<'tcx>> = i.args.iter().filter(|a| a.as_type().is_some()).collect();
        let (shim, args) = if path.contains(";_]::") && !path.starts_with('<') || path == "core::array::from_fn" {
            let n = i.args.iter().find_map(|a| a.as_const()).and_then(|c| c.try_to_target_usize(tcx))?;
            (format!("array_{name}_{n}"), types)
        } else if path.starts_with('<') && path.contains(" as core::iter::traits::iterator::Iterator>::") && !path.starts_with("<core::iter::") {
            let sig = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip();
            let t = self.norm(sig.skip_binder().inputs().first()?.peel_refs());
            let own = tcx.generics_of(d).own_params.len();
            let mut a: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
            a.extend(i.args.iter().skip(i.args.len() - own).filter(|a| a.as_type().is_some()));
            (format!("iter_{name}"), a)
        } else if path.starts_with("<alloc::") && path.ends_with(" as core::iter::traits::collect::FromIterator>::from_iter") {
            (format!("{}_from_iter", path.split(" as ").next()?.rsplit("::").next()?), types)
        } else if path.starts_with("<alloc::") && path.ends_with(" as core::iter::traits::collect::Extend>::extend") {
            let last = types.last()?.as_type()?;
            if last.is_array() || last.ty_adt_def().is_some_and(|d| canon(tcx, d.did()) == "core::option::Option") { return None; }
            let plain = types.into_iter().filter(|a| !a.as_type().and_then(|t| t.ty_adt_def()).is_some_and(|d| tcx.item_name(d.did()).as_str() == "Global")).collect();
            (format!("{}_extend", path.split(" as ").next()?.rsplit("::").next()?), plain)
        } else if path.starts_with("std::collections::hash::map::Entry::") {
            let global = |a: &ty::GenericArg<'tcx>| a.as_type().and_then(|t| t.ty_adt_def()).is_some_and(|d| tcx.item_name(d.did()).as_str() == "Global");
            (format!("entry_{name}"), types.into_iter().filter(|a| !global(a)).collect())
        } else {
            return None;
        };
        let def = *self.shims.get(&shim)?;
        let want = tcx.generics_of(def);
        let lts = want.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
        if want.own_params.len() - lts != args.len() { return None; }
        let mut all: Vec<ty::GenericArg<'tcx>> = (0..lts).map(|_| tcx.lifetimes.re_erased.into()).collect();
        all.extend(args);
        Some(Instance::new_raw(def, tcx.mk_args(&all)))
    }

    /// Resolve a callee; describes how it resolved.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(args)).unwrap_or(args);
        let path = canon(tcx, d);
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| canon(tcx, t));
        let dk = tcx.def_kind(d);
        if let DefKind::Ctor(..) = dk {
            let variant = match tcx.def_kind(tcx.parent(d)) {
                DefKind::Variant => {
                    let vd = tcx.parent(d);
                    let adt = tcx.adt_def(tcx.parent(vd));
                    adt.variant_index_with_ctor_id(d).as_u32()
                }
                _ => 0,
            };
            return obj! {path: J::S(path), how: J::s("ctor"), variant: J::U(variant as u128), a: J::A(targs)};
        }
        let mut how = "abstract";
        let mut key = J::Null;
        let mut rpath = J::Null;
        if let Ok(Some(mut i)) = Instance::try_resolve(tcx, self.env, d, args) {
            if let Some(s) = self.shim(i) { i = s; }
            rpath = J::S(canon(tcx, i.def_id()));
            match i.def {
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => how = "intrinsic",
                InstanceKind::Virtual(..) => how = "virtual",
                InstanceKind::Item(id) => {
                    if self.inline_ok(id) && self.has_body(i) {
                        how = "body";
                        key = J::S(self.enqueue(i));
                    } else {
                        how = "opaque";
                        key = J::S(self.key(i));
                    }
                }
                InstanceKind::Shim(sh) => {
                    how = match sh {
                        ShimKind::ClosureOnce { .. } => "closure_once",
                        ShimKind::Clone(..) => "clone_shim",
                        ShimKind::FnPtr(..) => "fnptr_shim",
                        ShimKind::DropGlue(..) => "drop_glue",
                        ShimKind::Reify(..) => "reify",
                        _ => "shim",
                    };
                    if matches!(sh, ShimKind::ClosureOnce { .. } | ShimKind::Clone(..) | ShimKind::FnPtr(..)) {
                        key = J::S(self.enqueue(i));
                    }
                }
            }
        }
        obj! {path: J::S(path), tr: tr.map(J::S).unwrap_or(J::Null), how: J::s(how), key: key, rpath: rpath, a: J::A(targs)}
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = mir_place_ty_local(body, p.local);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    J::A(vec![J::s("f"), J::U(f.as_u32() as u128), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![J::s("c"), J::U(offset as u128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("sub"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::U(v.as_u32() as u128)]),
                _ => J::A(vec![J::s("x"), J::s(format!("{e:?}"))]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let tj = self.ty(pt.ty);
        obj! {l: J::U(p.local.as_u32() as u128), p: J::A(proj), t: tj}
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(t);
        let tj = self.ty(t);
        match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => return obj! {k: J::s("zst"), t: tj},
            (ConstValue::Scalar(Scalar::Int(s)), ty::Bool | ty::Char | ty::Uint(_)) => {
                return obj! {k: J::s("int"), t: tj, v: J::U(s.to_bits(s.size()))};
            }
            (ConstValue::Scalar(Scalar::Int(s)), ty::Int(_)) => {
                return obj! {k: J::s("int"), t: tj, v: J::I(s.to_int(s.size()))};
            }
            (ConstValue::Scalar(Scalar::Int(s)), ty::Adt(a, args)) if tcx.is_diagnostic_item(rustc_span::sym::NonZero, a.did()) => {
                let v = if args.type_at(0).is_signed() { J::I(s.to_int(s.size())) } else { J::U(s.to_uint(s.size())) };
                return obj! {k: J::s("int"), t: tj, v: v};
            }
            (ConstValue::Slice { .. }, _) => return obj! {k: J::s("str"), t: tj},
            (ConstValue::Scalar(Scalar::Ptr(..)), _) => return obj! {k: J::s("ptr"), t: tj},
            _ => {}
        }
        if !t.has_non_region_param() && matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            if let ty::Adt(a, _) = t.kind() { if a.is_union() { return obj! {k: J::s("opaque"), t: tj}; } }
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let vi = d.variant.map(|x| J::U(x.as_u32() as u128)).unwrap_or(J::Null);
                let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft)).collect();
                return obj! {k: J::s("agg"), t: tj, v: vi, f: J::A(fs)};
            }
        }
        if let Some(vi) = self.plain_variant(v, t) {
            return obj! {k: J::s("agg"), t: tj, v: J::U(vi as u128), f: J::A(vec![])};
        }
        obj! {k: J::s("opaque"), t: tj}
    }

    /// Which variant a scalar constant of a (generic) enum is, if that variant has no fields.
    fn plain_variant(&self, v: ConstValue, t: Ty<'tcx>) -> Option<usize> {
        let ConstValue::Scalar(Scalar::Int(s)) = v else { return None };
        let ty::Adt(a, _) = t.kind() else { return None };
        if !a.is_enum() { return None; }
        let layout = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let rustc_abi::Variants::Multiple { tag, tag_encoding, .. } = &layout.layout.variants else { return None };
        let size = tag.size(&self.tcx);
        if size != s.size() { return None; }
        let bits = s.to_bits(size);
        let vi = match tag_encoding {
            rustc_abi::TagEncoding::Direct => {
                a.discriminants(self.tcx).find(|(_, d)| size.truncate(d.val) == bits)?.0.as_usize()
            }
            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                let rel = size.truncate(bits.wrapping_sub(*niche_start));
                let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                if rel <= n { niche_variants.start.as_usize() + rel as usize } else { untagged_variant.as_usize() }
            }
        };
        a.variant(rustc_abi::VariantIdx::from_usize(vi)).fields.is_empty().then_some(vi)
    }

    fn constant(&mut self, owner: Instance<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let t = self.norm(t);
        let tj = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return obj! {k: J::s("zst"), t: tj};
        }
        match c.const_ {
            Const::Val(v, t) => self.const_val(v, t),
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let inst = Instance::new_raw(u.def, u.args);
                    let _ = owner;
                    let key = format!("promoted[{}] {}", p.as_u32(), self.key(inst));
                    if self.seen.insert(key.clone()) {
                        self.queue.push_back((key.clone(), Work::Promoted(inst, p)));
                    }
                    return obj! {k: J::s("promoted"), t: tj, key: J::S(key)};
                }
                let args = tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(u.args)).unwrap_or(u.args);
                let mut val = J::Null;
                if !args.has_non_region_param() {
                    if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                        val = self.const_val(v, t);
                    }
                }
                let path = canon(tcx, u.def);
                let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                let mut key = J::Null;
                let mut rpath = J::Null;
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, u.def, args) {
                    rpath = J::S(canon(tcx, i.def_id()));
                    if let Some((v, _)) = tcx.trivial_const(i.def_id()) {
                        val = self.const_val(v, t);
                    }
                    if self.has_body(i) && self.inline_ok(i.def_id()) {
                        key = J::S(self.enqueue(i));
                    }
                }
                obj! {k: J::s("uneval"), t: tj, path: J::S(path), rpath: rpath, key: key, a: J::A(targs), val: val}
            }
            Const::Ty(_, ct) => {
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    if !ct.has_non_region_param() { return self.const_val(v, t); }
                }
                obj! {k: J::s("opaque"), t: tj}
            }
        }
    }

    fn operand(&mut self, owner: Instance<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let pj = self.place(body, p); obj! {o: J::s("copy"), p: pj} }
            Operand::Move(p) => { let pj = self.place(body, p); obj! {o: J::s("move"), p: pj} }
            Operand::Constant(c) => { let cj = self.constant(owner, c); obj! {o: J::s("const"), c: cj} }
            Operand::RuntimeChecks(r) => obj! {o: J::s("rtchecks"), c: J::s(format!("{r:?}"))},
        }
    }

    fn rvalue(&mut self, owner: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => { let oj = self.operand(owner, body, o); obj! {r: J::s("use"), o: oj} }
            Rvalue::Repeat(o, n) => {
                let oj = self.operand(owner, body, o);
                let n = n.try_to_target_usize(tcx).map(|x| J::U(x as u128)).unwrap_or(J::Null);
                obj! {r: J::s("repeat"), o: oj, n: n}
            }
            Rvalue::Ref(_, bk, p) => {
                let pj = self.place(body, p);
                obj! {r: J::s("ref"), p: pj, m: J::B(matches!(bk, BorrowKind::Mut { .. }))}
            }
            Rvalue::RawPtr(_, p) => { let pj = self.place(body, p); obj! {r: J::s("ref"), p: pj, m: J::B(true)} }
            Rvalue::ThreadLocalRef(d) => obj! {r: J::s("tls"), d: J::s(canon(tcx, *d))},
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(owner, body, o);
                let ot = o.ty(&body.local_decls, tcx);
                let otj = self.ty(ot);
                let tj = self.ty(*t);
                obj! {r: J::s("cast"), k: J::s(format!("{k:?}")), o: oj, ot: otj, t: tj}
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(owner, body, &b.0);
                let c = self.operand(owner, body, &b.1);
                let t0 = b.0.ty(&body.local_decls, tcx);
                let t = self.ty(t0);
                let rt = self.ty(r.ty(&body.local_decls, tcx));
                obj! {r: J::s("bin"), op: J::s(format!("{op:?}")), a: a, b: c, t: t, rt: rt}
            }
            Rvalue::UnaryOp(op, o) => {
                let a = self.operand(owner, body, o);
                let t = self.ty(o.ty(&body.local_decls, tcx));
                obj! {r: J::s("un"), op: J::s(format!("{op:?}")), a: a, t: t}
            }
            Rvalue::Discriminant(p) => {
                let pj = self.place(body, p);
                let t = self.ty(p.ty(&body.local_decls, tcx).ty);
                let rt = self.ty(r.ty(&body.local_decls, tcx));
                obj! {r: J::s("discr"), p: pj, t: t, rt: rt}
            }
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<J> = fs.iter().map(|f| self.operand(owner, body, f)).collect();
                let t = self.ty(r.ty(&body.local_decls, tcx));
                let (kind, variant) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, _) => ("adt", vi.as_u32()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                obj! {r: J::s("agg"), k: J::s(kind), v: J::U(variant as u128), f: J::A(v), t: t}
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                obj! {r: J::s("use"), o: obj! {o: J::s("copy"), p: pj}}
            }
            Rvalue::Reborrow(_, m, p) => {
                let pj = self.place(body, p);
                obj! {r: J::s("ref"), p: pj, m: J::B(m.is_mut())}
            }
            Rvalue::WrapUnsafeBinder(o, _) => { let oj = self.operand(owner, body, o); obj! {r: J::s("use"), o: oj} }
        }
    }

    fn span(&self, s: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn body(&mut self, owner: Instance<'tcx>, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(owner, body, &b.1);
                        st.push(obj! {s: J::s("="), p: p, r: r, at: sp});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(obj! {s: J::s("setdiscr"), p: p, v: J::U(variant_index.as_u32() as u128), at: sp});
                    }
                    StatementKind::StorageDead(l) => st.push(obj! {s: J::s("dead"), l: J::U(l.as_u32() as u128)}),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => obj! {k: J::s("goto"), b: J::U(target.as_u32() as u128)},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(owner, body, discr);
                    let t = self.ty(discr.ty(&body.local_decls, self.tcx));
                    let arms: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), J::U(b.as_u32() as u128)])).collect();
                    obj! {k: J::s("switch"), o: o, t: t, arms: J::A(arms), other: J::U(targets.otherwise().as_u32() as u128)}
                }
                TerminatorKind::Return => obj! {k: J::s("return")},
                TerminatorKind::Unreachable => obj! {k: J::s("unreachable")},
                TerminatorKind::UnwindResume => obj! {k: J::s("resume")},
                TerminatorKind::UnwindTerminate(_) => obj! {k: J::s("terminate")},
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    obj! {k: J::s("drop"), p: p, b: J::U(target.as_u32() as u128), at: sp}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let ft = self.norm(ft);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); self.callee(d.to_def_id_(), a) }
                        _ => {
                            let o = self.operand(owner, body, func);
                            obj! {how: J::s("indirect"), path: J::s("<indirect>"), o: o}
                        }
                    };
                    let aj: Vec<J> = args.iter().map(|a| self.operand(owner, body, &a.node)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); self.ty(t) }).collect();
                    let d = self.place(body, destination);
                    obj! {k: J::s("call"), f: f, args: J::A(aj), at_: J::A(at), d: d, b: target.map(|t| J::U(t.as_u32() as u128)).unwrap_or(J::Null), at: sp}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(owner, body, cond);
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").chars().take(60).collect::<String>();
                    obj! {k: J::s("assert"), o: o, e: J::B(*expected), m: J::S(m), b: J::U(target.as_u32() as u128), at: sp}
                }
                TerminatorKind::FalseEdge { real_target, .. } => obj! {k: J::s("goto"), b: J::U(real_target.as_u32() as u128)},
                TerminatorKind::FalseUnwind { real_target, .. } => obj! {k: J::s("goto"), b: J::U(real_target.as_u32() as u128)},
                x => obj! {k: J::s("other"), d: J::s(format!("{x:?}"))},
            };
            blocks.push(obj! {s: J::A(st), t: t, c: J::B(bb.is_cleanup)});
        }
        let sp = self.span(body.span);
        let spread = body.spread_arg.map(|l| J::U(l.as_u32() as u128)).unwrap_or(J::Null);
        obj! {argc: J::U(body.arg_count as u128), locals: J::A(locals), blocks: J::A(blocks), at: sp, spread: spread}
    }

    fn run_root(&mut self, root: DefId) -> J {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, root);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(root, args);
        let rkey = self.enqueue(inst);
        let mut bodies = vec![];
        while let Some((k, w)) = self.queue.pop_front() {
            let (inst, raw): (Instance<'tcx>, Option<Body<'tcx>>) = match &w {
                Work::Inst(i) => {
                    if self.has_body(*i) { (*i, Some(tcx.instance_mir(i.def).clone())) } else { (*i, None) }
                }
                Work::Promoted(i, p) => (*i, tcx.promoted_mir(i.def_id()).get(*p).cloned()),
            };
            let Some(raw) = raw else { continue };
            let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw)) {
                Ok(b) => b,
                Err(_) => { eprintln!("gsc-facts: cannot normalise {k}"); continue; }
            };
            let j = self.body(inst, &b);
            let path = canon(tcx, inst.def_id());
            let is_const = matches!(inst.def, InstanceKind::Item(d) if matches!(tcx.def_kind(d), DefKind::Const|DefKind::AssocConst|DefKind::AnonConst));
            let krate = tcx.crate_name(inst.def_id().krate).to_string();
            let targs: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
            bodies.push((k, obj! {path: J::S(path), krate: J::S(krate), konst: J::B(is_const), a: J::A(targs), body: j}));
        }
        let types = std::mem::take(&mut self.types);
        obj! {root: J::s(tcx.item_name(root).to_string()), key: J::S(rkey), types: J::A(types), inst: J::O(bodies)}
    }
}

fn mir_place_ty_local<'tcx>(body: &Body<'tcx>, l: Local) -> PlaceTy<'tcx> {
    PlaceTy::from_ty(body.local_decls[l].ty)
}

trait ToDefId { fn to_def_id_(self) -> DefId; }
impl<T: Into<DefId>> ToDefId for T { fn to_def_id_(self) -> DefId { self.into() } }

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut f = std::fs::File::create(out).expect("create facts file");
    let mut n = 0;
    let mut shims = HashMap::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if tcx.def_kind(d) == DefKind::Fn && canon(tcx, d).contains("::shims::") { shims.insert(tcx.item_name(d).to_string(), d); }
    }
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn { continue; }
        let name = tcx.item_name(d).to_string();
        if !name.starts_with("root_") { continue; }
        let mut cx = Cx {
            tcx, env: TypingEnv::post_analysis(tcx, d), types: vec![], ty_ix: HashMap::new(),
            queue: VecDeque::new(), seen: HashSet::new(), shims: shims.clone(),
        };
        let j = cx.run_root(d);
        let mut s = String::new();
        j.write(&mut s);
        s.push('\n');
        f.write_all(s.as_bytes()).unwrap();
        n += 1;
    }
    let mut s = String::new();
    crate_info(tcx).write(&mut s);
    s.push('\n');
    f.write_all(s.as_bytes()).unwrap();
    eprintln!("gsc-facts: {n} roots in {}", tcx.crate_name(LOCAL_CRATE));
}

fn crate_info<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let crates: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    obj! {crate_info: J::s(tcx.crate_name(LOCAL_CRATE).to_string()), crates: J::A(crates)}
}

/// What a library crate consists of: crates it is built on, statics, unsafe code, functions.
pub fn lib<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    use rustc_hir as hir;
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'tcx> { tcx: TyCtxt<'tcx>, unsafes: Vec<J> }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
        fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
            if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
                self.unsafes.push(J::s(format!("unsafe block at {}", self.tcx.sess.source_map().span_to_diagnostic_string(b.span))));
            }
            intravisit::walk_block(self, b);
        }
        fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
            if let hir::ItemKind::Impl(im) = i.kind {
                if let Some(t) = im.of_trait {
                    if matches!(t.safety, hir::Safety::Unsafe) {
                        self.unsafes.push(J::s(format!("unsafe impl at {}", self.tcx.sess.source_map().span_to_diagnostic_string(i.span))));
                    }
                }
            }
            intravisit::walk_item(self, i);
        }
    }
    let mut v = V { tcx, unsafes: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    let mut fns = vec![];
    let mut statics = vec![];
    let mut foreign = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let ev = tcx.effective_visibilities(());
    let self_of = |i: DefId| match tcx.type_of(i).instantiate_identity().skip_normalization().kind() {
        ty::Adt(a, _) => Some(a.did()),
        _ => None,
    };
    for d in tcx.hir_crate_items(()).definitions() {
        let l = d;
        let d = d.to_def_id();
        let place = |d: DefId| J::s(tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d)));
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let mut fs = vec![];
                for v in a.variants() {
                    let closed = a.is_enum() && v.is_field_list_non_exhaustive();
                    for x in &v.fields {
                        let seen = x.did.as_local().map_or(false, |x| ev.is_reachable(x)) && tcx.visibility(x.did).is_public();
                        fs.push(obj! {name: J::s(format!("{}{}", if a.is_enum() { format!("{}.", v.name) } else { String::new() }, x.name)),
                            open: J::B(if a.is_enum() { !closed } else { seen }), at: place(x.did)});
                    }
                }
                adts.push(obj! {path: J::S(canon(tcx, d)), seen: J::B(ev.is_reachable(l)), fields: J::A(fs), at: place(d)});
            }
            DefKind::Impl { of_trait: true } => {
                if let (Some(a), Some(tr)) = (self_of(d), tcx.impl_opt_trait_ref(d)) {
                    let tr = tr.instantiate_identity().skip_normalization();
                    let args: Vec<J> = tr.args.types().skip(1).map(|t| match t.kind() {
                        ty::Adt(a, _) => J::S(canon(tcx, a.did())),
                        _ => J::s(format!("{t}")),
                    }).collect();
                    // the constants that it gives another value than the default, as far as they are known
                    let consts: Vec<J> = tcx.associated_items(d).in_definition_order()
                        .filter(|i| matches!(i.kind, ty::AssocKind::Const { .. })).map(|i| {
                            let v = tcx.const_eval_poly(i.def_id).ok().and_then(|v| v.try_to_scalar_int());
                            obj! {n: J::s(i.name().to_string()), v: v.map(|v| J::U(v.to_bits_unchecked())).unwrap_or(J::Null), at: place(i.def_id)}
                        }).collect();
                    impls.push(obj! {adt: J::S(canon(tcx, a)), tr: J::S(canon(tcx, tr.def_id)), args: J::A(args), consts: J::A(consts), at: place(d)});
                }
            }
            DefKind::AssocFn if tcx.visibility(d).is_public() && ev.is_reachable(l)
                && matches!(tcx.def_kind(tcx.parent(d)), DefKind::Impl { of_trait: false }) => {
                if let Some(a) = self_of(tcx.parent(d)) {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
                    let recv = if !tcx.associated_item(d).is_method() { "none" } else {
                        match sig.inputs()[0].kind() {
                            ty::Ref(_, _, m) if m.is_mut() => "mut",
                            ty::Ref(..) => "ref",
                            _ => "value",
                        }
                    };
                    impls.push(obj! {adt: J::S(canon(tcx, a)), tr: J::Null, name: J::s(tcx.item_name(d).to_string()), recv: J::s(recv), ret: J::s(format!("{}", sig.output())), at: place(d)});
                }
            }
            _ => {}
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let auto = tcx.span_of_impl(d).is_err() || tcx.def_span(d).from_expansion();
                let f = canon(tcx, d);
                let at = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
                let body = tcx.is_mir_available(d);
                let uns = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                if uns { v.unsafes.push(J::s(format!("unsafe fn {f}"))); }
                fns.push(obj! {path: J::S(f), at: J::S(at), body: J::B(body), gen: J::B(auto)});
            }
            DefKind::Static { .. } => statics.push(J::s(canon(tcx, d))),
            DefKind::ForeignMod | DefKind::ForeignTy | DefKind::GlobalAsm => foreign.push(J::s(canon(tcx, d))),
            _ => {}
        }
    }
    let crates: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
    let j = obj! {lib: J::s(tcx.crate_name(LOCAL_CRATE).to_string()), crates: J::A(crates), statics: J::A(statics), foreign: J::A(foreign), unsafes: J::A(v.unsafes), fns: J::A(fns), adts: J::A(adts), impls: J::A(impls)};
    let mut s = String::new();
    j.write(&mut s);
    s.push('\n');
    std::fs::write(out, s).expect("write");
}
