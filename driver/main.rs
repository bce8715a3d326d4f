// mirdump: a rustc_private driver that dumps the MIR of every local function of a crate, as
// monomorphic instances with resolved callees, plus the dependency bodies they reach.
// Used as RUSTC_WORKSPACE_WRAPPER; writes JSON into $MIRDUMP_OUT for the crates in $MIRDUMP_CRATES.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_public_bridge;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------- minimal JSON ----------
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(d))))
}
fn ty_str(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(t.to_string())))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: &'tcx HashMap<LocalDefId, Body<'tcx>>,
    ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize, usize)>, // instance, id, depth of external calls
    opaque: Vec<String>,
    force: Vec<String>,
    maxdepth: usize,
    out: Vec<J>,
    tys: HashMap<String, usize>,
    tylist: Vec<(String, J)>,
}

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::fully_monomorphized()
    }

    fn is_opaque(&self, path: &str) -> bool {
        if self.force.iter().any(|p| path.starts_with(p.as_str())) {
            return false;
        }
        self.opaque.iter().any(|p| path.starts_with(p.as_str()))
    }

    // body of an instance, monomorphised
    fn body(&self, inst: Instance<'tcx>) -> Option<Body<'tcx>> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                let b: Body<'tcx> = if let Some(l) = d.as_local() {
                    self.local.get(&l)?.clone()
                } else {
                    if !tcx.is_mir_available(d) {
                        return None;
                    }
                    match tcx.def_kind(d) {
                        DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {}
                        _ => return None,
                    }
                    tcx.optimized_mir(d).clone()
                };
                Some(inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env(),
                    ty::EarlyBinder::bind(tcx, b),
                ))
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ty::ShimKind::FnPtr(..))
            | InstanceKind::Shim(ty::ShimKind::Reify(..)) => {
                let b = tcx.instance_mir(inst.def).clone();
                Some(inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env(),
                    ty::EarlyBinder::bind(tcx, b),
                ))
            }
            _ => None,
        }
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> J {
        let s = ty_str(t);
        if let Some(i) = self.tys.get(&s) {
            return J::I(*i as i128);
        }
        let i = self.tylist.len();
        self.tys.insert(s.clone(), i);
        self.tylist.push((s, J::N));
        let info = self.ty_info(t);
        self.tylist[i].1 = info;
        J::I(i as i128)
    }

    // structural info: what kind of type, adt path, args
    fn ty_info(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Ref(_, inner, m) => {
                let i = self.tyid(*inner);
                J::O(vec![("k", J::s("ref")), ("mut", J::B(m.is_mut())), ("of", i)])
            }
            ty::RawPtr(inner, _) => {
                let i = self.tyid(*inner);
                J::O(vec![("k", J::s("ptr")), ("of", i)])
            }
            ty::Adt(def, args) => {
                let mut v = vec![
                    ("k", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                    ("path", J::s(path_of(tcx, def.did()))),
                ];
                let mut a = vec![];
                for x in args.types() {
                    a.push(self.tyid(x));
                }
                v.push(("args", J::A(a)));
                if def.is_enum() {
                    let mut vs = vec![];
                    for (vi, d) in def.discriminants(tcx) {
                        vs.push(J::A(vec![
                            J::s(def.variant(vi).name.to_string()),
                            J::I(d.val as i128),
                            J::I(def.variant(vi).fields.len() as i128),
                        ]));
                    }
                    v.push(("variants", J::A(vs)));
                }
                if def.did().is_local() || def.variants().iter().map(|x| x.fields.len()).sum::<usize>() < 24 {
                    let mut vf = vec![];
                    for vd in def.variants() {
                        let mut fs = vec![];
                        for f in vd.fields.iter() {
                            fs.push(J::s(f.name.to_string()));
                        }
                        vf.push(J::A(fs));
                    }
                    v.push(("fields", J::A(vf)));
                }
                if let Ok(l) = tcx.layout_of(self.env().as_query_input(t)) {
                    v.push(("size", J::I(l.size.bytes() as i128)));
                }
                J::O(v)
            }
            ty::Array(e, n) => {
                let i = self.tyid(*e);
                let len = n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::O(vec![("k", J::s("array")), ("of", i), ("len", len)])
            }
            ty::Slice(e) => {
                let i = self.tyid(*e);
                J::O(vec![("k", J::s("slice")), ("of", i)])
            }
            ty::Str => J::O(vec![("k", J::s("str"))]),
            ty::Tuple(ts) => {
                let mut a = vec![];
                for x in ts.iter() {
                    a.push(self.tyid(x));
                }
                J::O(vec![("k", J::s("tuple")), ("args", J::A(a))])
            }
            ty::Closure(d, _) => J::O(vec![("k", J::s("closure")), ("path", J::s(path_of(tcx, *d)))]),
            ty::Coroutine(d, args) => {
                let mut v = vec![("k", J::s("coroutine")), ("path", J::s(path_of(tcx, *d))), ("local", J::B(d.is_local()))];
                let r = args.as_coroutine().return_ty();
                v.push(("ret", self.tyid(r)));
                let inst = Instance::new_raw(*d, args);
                if !self.is_opaque(&path_of(tcx, *d)) && d.is_local() {
                    let id = self.request(inst, 0);
                    v.push(("inst", J::I(id as i128)));
                }
                J::O(v)
            }
            ty::FnDef(d, args) => J::O(vec![("k", J::s("fndef")), ("fn", { let a = self.tcx.erase_and_anonymize_regions(args.skip_binder()); self.callee(*d, a, 0) })]),
            ty::FnPtr(..) => J::O(vec![("k", J::s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("k", J::s("dyn"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", J::s("int"))]),
            ty::Bool => J::O(vec![("k", J::s("bool"))]),
            _ => J::O(vec![("k", J::s("other"))]),
        }
    }

    fn request(&mut self, inst: Instance<'tcx>, depth: usize) -> usize {
        if let Some(i) = self.ids.get(&inst) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert(inst, i);
        self.queue.push_back((inst, i, depth));
        i
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let decl = path_of(tcx, d);
        let mut v = vec![("decl", J::s(decl.clone()))];
        let mut targs = vec![];
        for a in args.types() {
            targs.push(self.tyid(a));
        }
        v.push(("targs", J::A(targs)));
        let mut cargs = vec![];
        for c in args.consts() {
            cargs.push(c.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::N));
        }
        if !cargs.is_empty() {
            v.push(("cargs", J::A(cargs)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", J::s(path_of(tcx, tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // tuple struct / variant constructor used as a function
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), Some(parent)),
                _ => (parent, None),
            };
            let nf = match var {
                Some(vd) => tcx.adt_def(adt).variant_with_id(vd).fields.len(),
                None => tcx.adt_def(adt).non_enum_variant().fields.len(),
            };
            v.push((
                "ctor",
                J::A(vec![
                    J::s(path_of(tcx, adt)),
                    var.map(|x| J::s(tcx.item_name(x).to_string())).unwrap_or(J::N),
                    J::I(nf as i128),
                ]),
            ));
            return J::O(v);
        }
        if args.has_non_region_param() {
            return J::O(v);
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(_) => "shim",
                };
                v.push(("kind", J::s(kind)));
                let rd = inst.def_id();
                let rp = path_of(tcx, rd);
                v.push(("path", J::s(rp.clone())));
                v.push(("crate", J::s(tcx.crate_name(rd.krate).to_string())));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity();
                    v.push(("implself", J::s(ty_str(st.skip_norm_wip()))));
                }
                let local = rd.is_local();
                let nd = if local { 0 } else { depth + 1 };
                let follow = local
                    || (nd <= self.maxdepth && !self.is_opaque(&rp) && !self.is_opaque(&decl));
                if follow && matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Shim(_)) && kind != "cloneshim" && kind != "drop" {
                    let has = match inst.def {
                        InstanceKind::Item(x) => {
                            if let Some(l) = x.as_local() {
                                self.local.contains_key(&l)
                            } else {
                                tcx.is_mir_available(x)
                            }
                        }
                        _ => true,
                    };
                    if has {
                        let id = self.request(inst, nd);
                        v.push(("inst", J::I(id as i128)));
                    }
                }
            }
            _ => v.push(("kind", J::s("unresolved"))),
        }
        J::O(v)
    }

    /// a pointer-typed constant that lives in memory, as an immediate
    fn load_indirect(&self, c: ConstValue, t: Ty<'tcx>) -> ConstValue {
        let tcx = self.tcx;
        let inner = match t.kind() {
            ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
            ty::FnPtr(..) => None,
            _ => return c,
        };
        if let ConstValue::Indirect { alloc_id, offset } = c {
            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                let ps = tcx.data_layout.pointer_size();
                let a = a.inner();
                if let Ok(interpret::Scalar::Ptr(p, sz)) = a.read_scalar(&tcx, interpret::alloc_range(offset, ps), true) {
                    let fat = matches!(inner.map(|i| i.kind()), Some(ty::Str) | Some(ty::Slice(_)));
                    if !fat {
                        return ConstValue::Scalar(interpret::Scalar::Ptr(p, sz));
                    }
                    let (prov, off) = p.prov_and_relative_offset();
                    if off == rustc_abi::Size::ZERO {
                        if let Ok(interpret::Scalar::Int(n)) = a.read_scalar(&tcx, interpret::alloc_range(offset + ps, ps), false) {
                            let meta = n.to_bits(n.size()) as u64;
                            return ConstValue::Slice { alloc_id: prov.alloc_id(), meta };
                        }
                    }
                }
            }
        }
        c
    }

    fn const_val(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize, lvl: usize) -> J {
        let tcx = self.tcx;
        if lvl > 8 {
            return J::O(vec![("u", J::s("deep"))]);
        }
        let c = self.load_indirect(c, t);
        match t.kind() {
            ty::FnDef(d, args) => return J::O(vec![("fn", { let a = self.tcx.erase_and_anonymize_regions(args.skip_binder()); self.callee(*d, a, depth) })]),
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let has = if let Some(l) = d.as_local() { self.local.contains_key(&l) } else { true };
                let mut v = vec![("closure", J::s(path_of(tcx, *d)))];
                if has {
                    let id = self.request(inst, depth);
                    v.push(("inst", J::I(id as i128)));
                }
                return J::O(v);
            }
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(s) = c.try_to_scalar_int() {
                    let size = s.size();
                    if let ty::Bool = t.kind() {
                        return J::O(vec![("b", J::B(s.to_bits(size) != 0))]);
                    }
                    let v: i128 = if let ty::Int(_) = t.kind() { s.to_int(size) } else { s.to_bits(size) as i128 };
                    return J::O(vec![("i", J::I(v))]);
                }
                return J::O(vec![("u", J::s("int"))]);
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("s", J::s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return J::O(vec![("u", J::s("str"))]);
                }
                ty::Slice(e) if *e == tcx.types.u8 => {
                    if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                    }
                    return J::O(vec![("u", J::s("bytes"))]);
                }
                ty::Slice(e) => {
                    // slice of non-u8: read the backing array
                    if let ConstValue::Slice { alloc_id, meta } = c {
                        let at = Ty::new_array(tcx, *e, meta);
                        let cv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                        let x = self.const_val(cv, at, depth, lvl + 1);
                        return J::O(vec![("ref", x)]);
                    }
                    return J::O(vec![("u", J::s("slice"))]);
                }
                _ => {
                    // pointer to a sized constant
                    if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = c {
                        let (prov, off) = p.prov_and_relative_offset();
                        let aid = prov.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Memory(_)) => {
                                let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let x = self.const_val(cv, *inner, depth, lvl + 1);
                                return J::O(vec![("ref", x)]);
                            }
                            Some(GlobalAlloc::Static(d)) => {
                                return J::O(vec![("static", J::s(path_of(tcx, d)))]);
                            }
                            _ => {}
                        }
                    }
                    return J::O(vec![("u", J::s(ty_str(t)))]);
                }
            },
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = c {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        return J::O(vec![("fn", self.callee(instance.def_id(), instance.args, depth))]);
                    }
                }
                return J::O(vec![("u", J::s("fnptr"))]);
            }
            ty::RawPtr(inner, _) => {
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = c {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        return J::O(vec![("static", J::s(path_of(tcx, d)))]);
                    }
                }
                let _ = inner;
                return J::O(vec![("u", J::s("rawptr"))]);
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = c {
            if let ty::Tuple(ts) = t.kind() {
                if ts.is_empty() {
                    return J::O(vec![("tuple", J::A(vec![]))]);
                }
            }
        }
        match t.kind() {
            ty::Array(..) | ty::Tuple(_) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                    let fields: Vec<_> = d.fields.to_vec();
                    let fs = fields.into_iter().map(|(c, t)| self.const_val(c, t, depth, lvl + 1)).collect();
                    return J::O(vec![(if matches!(t.kind(), ty::Tuple(_)) { "tuple" } else { "arr" }, J::A(fs))]);
                }
            }
            ty::Adt(def, _) if !def.is_union() && def.variants().len() > 0 => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                    let var = match d.variant {
                        Some(v) => def.variant(v),
                        None => def.non_enum_variant(),
                    };
                    let mut fs = vec![];
                    let fields: Vec<_> = d.fields.to_vec();
                    for (i, (c, t)) in fields.into_iter().enumerate() {
                        let n = var.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                        let x = self.const_val(c, t, depth, lvl + 1);
                        fs.push(J::A(vec![J::s(n), x]));
                    }
                    return J::O(vec![
                        ("adt", J::s(path_of(tcx, def.did()))),
                        ("var", if def.is_enum() { J::s(var.name.to_string()) } else { J::N }),
                        ("f", J::A(fs)),
                    ]);
                }
            }
            _ => {}
        }
        J::O(vec![("u", J::s(ty_str(t)))])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, depth: usize) -> J {
        let t = c.const_.ty();
        match c.const_.eval(self.tcx, self.env(), c.span) {
            Ok(v) => {
                let x = self.const_val(v, t, depth, 0);
                // name of the constant item, if it is one (diagnostics / named-constant rules)
                if let Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        let n = path_of(self.tcx, u.def);
                        return J::O(vec![("v", x), ("name", J::s(n))]);
                    }
                }
                J::O(vec![("v", x)])
            }
            Err(_) => J::O(vec![("v", J::O(vec![("u", J::s(format!("{:?}", c.const_)))]))]),
        }
    }

    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for (base, elem) in p.as_ref().iter_projections() {
            let pt = base.ty(&body.local_decls, tcx);
            v.push(match elem {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vd = match pt.variant_index {
                                Some(vi) => def.variant(vi),
                                None => {
                                    if def.is_enum() {
                                        def.variant(rustc_abi::VariantIdx::from_usize(0))
                                    } else {
                                        def.non_enum_variant()
                                    }
                                }
                            };
                            vd.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![J::s("f"), J::s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match (n, pt.ty.kind()) {
                        (_, ty::Adt(def, _)) if def.is_enum() => def.variant(vi).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::A(vec![J::s("v"), J::s(name)])
                }
                _ => J::s("oc"),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, depth: usize) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(*p, body)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(*p, body)]),
            Operand::Constant(c) => {
                let t = self.tyid(c.const_.ty());
                J::A(vec![J::s("k"), self.constant(c, depth), t])
            }
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o, body, depth)]),
            Rvalue::Repeat(o, n) => {
                let c = n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::A(vec![J::s("repeat"), self.op(o, body, depth), c])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                J::s(match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                    #[allow(unreachable_patterns)]
                    _ => "s",
                }),
                self.place(*p, body),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::s("r"), self.place(*p, body)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let f = self.tyid(from);
                let tt = self.tyid(*t);
                let mut v = vec![J::s("cast"), J::s(format!("{:?}", k)), self.op(o, body, depth), f, tt];
                if let (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _), ty::Closure(d, args)) =
                    (k, from.kind())
                {
                    let inst = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                    let _ = inst;
                    let inst = Instance::new_raw(*d, args);
                    let id = self.request(inst, depth);
                    v.push(J::I(id as i128));
                }
                J::A(v)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                J::A(vec![
                    J::s("bin"),
                    J::s(format!("{:?}", b)),
                    self.op(&ops.0, body, depth),
                    self.op(&ops.1, body, depth),
                    J::s(ty_str(t)),
                ])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::s(format!("{:?}", u)), self.op(o, body, depth)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let ti = self.tyid(t);
                J::A(vec![J::s("discr"), self.place(*p, body), ti])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.op(o, body, depth)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*vi);
                        let names: Vec<J> = if let Some(a) = active {
                            vec![J::s(vd.fields[*a].name.to_string())]
                        } else {
                            vd.fields.iter().map(|f| J::s(f.name.to_string())).collect()
                        };
                        J::A(vec![
                            J::s("adt"),
                            J::s(path_of(tcx, *d)),
                            if def.is_enum() { J::s(vd.name.to_string()) } else { J::N },
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let has = if let Some(l) = d.as_local() { self.local.contains_key(&l) } else { tcx.is_mir_available(*d) };
                        let mut v = vec![J::s("closure"), J::s(path_of(tcx, *d))];
                        if has {
                            let id = self.request(inst, depth);
                            v.push(J::I(id as i128));
                        } else {
                            v.push(J::N);
                        }
                        J::A(v)
                    }
                    AggregateKind::Coroutine(d, args) | AggregateKind::CoroutineClosure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let has = d.as_local().map(|l| self.local.contains_key(&l)).unwrap_or(false);
                        let mut v = vec![J::s("coroutine"), J::s(path_of(tcx, *d))];
                        if has {
                            let id = self.request(inst, depth);
                            v.push(J::I(id as i128));
                        } else {
                            v.push(J::N);
                        }
                        J::A(v)
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                };
                J::A(vec![J::s("agg"), kind, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(*p, body)])]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(*p, body)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path_of(tcx, *d))]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
        }
    }

    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = sp.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::A(vec![J::S(f), J::I(l.line as i128)])
    }

    fn dump_body(&mut self, inst: Instance<'tcx>, id: usize, depth: usize) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut v = vec![
            ("id", J::I(id as i128)),
            ("path", J::s(path_of(tcx, d))),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("shim", J::B(!matches!(inst.def, InstanceKind::Item(_)))),
            ("depth", J::I(depth as i128)),
        ];
        let mut targs = vec![];
        for a in inst.args.types() {
            targs.push(self.tyid(a));
        }
        v.push(("targs", J::A(targs)));
        let kind = tcx.def_kind(d);
        v.push(("kind", J::s(format!("{:?}", kind))));
        if let DefKind::Closure = kind {
            if tcx.is_coroutine(d) {
                v.push(("coroutine", J::B(true)));
            }
            v.push(("parent", J::s(path_of(tcx, tcx.typeck_root_def_id(d)))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            v.push(("vis", J::B(tcx.visibility(d).is_public())));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                v.push(("trait", J::s(path_of(tcx, tr))));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity();
                v.push(("implself", J::s(ty_str(st.skip_norm_wip()))));
                if let Some(t) = tcx.impl_opt_trait_ref(im) {
                    v.push(("impltrait", J::s(path_of(tcx, t.skip_binder().def_id))));
                }
                v.push(("name", J::s(tcx.item_name(d).to_string())));
            }
        }
        let body = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body(inst))) {
            Ok(Some(b)) => b,
            _ => {
                v.push(("nobody", J::B(true)));
                self.out.push(J::O(v));
                return;
            }
        };
        let body = &body;
        v.push(("span", self.loc(body.span)));
        v.push(("argc", J::I(body.arg_count as i128)));
        if body.spread_arg.is_some() {
            v.push(("spread", J::I(body.spread_arg.unwrap().as_usize() as i128)));
        }
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.tyid(l.ty));
        }
        v.push(("locals", J::A(locals)));
        let mut names = vec![];
        for vd in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vd.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), J::s(vd.name.to_string())]));
                }
            }
        }
        v.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            let (p, r) = &**b;
                            if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                                continue;
                            }
                            let pl = self.place(*p, body);
                            let rv = self.rvalue(r, body, depth);
                            let line = tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                            st.push(J::A(vec![J::s("="), pl, rv, J::I(line as i128)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let t = place.ty(&body.local_decls, tcx).ty;
                            let n = match t.kind() {
                                ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                                _ => "?".to_string(),
                            };
                            let pl = self.place(**place, body);
                            st.push(J::A(vec![J::s("setd"), pl, J::s(n)]));
                        }
                        StatementKind::Intrinsic(i) => {
                            st.push(J::A(vec![J::s("intr"), J::s(format!("{:?}", i))]));
                        }
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let tj = if bb.is_cleanup {
                J::A(vec![J::s("cleanup")])
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::I(target.as_usize() as i128)]),
                    TerminatorKind::FalseEdge { real_target, .. } => {
                        J::A(vec![J::s("goto"), J::I(real_target.as_usize() as i128)])
                    }
                    TerminatorKind::FalseUnwind { real_target, .. } => {
                        J::A(vec![J::s("goto"), J::I(real_target.as_usize() as i128)])
                    }
                    TerminatorKind::Drop { place, target, .. } => J::A(vec![
                        J::s("drop"),
                        J::I(target.as_usize() as i128),
                        self.place(*place, body),
                    ]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let t = discr.ty(&body.local_decls, tcx);
                        let mut cs = vec![];
                        for (val, bb) in targets.iter() {
                            let x: i128 = match t.kind() {
                                ty::Int(_) => {
                                    let size = tcx.layout_of(self.env().as_query_input(t)).unwrap().size;
                                    size.sign_extend(val)
                                }
                                _ => val as i128,
                            };
                            cs.push(J::A(vec![J::I(x), J::I(bb.as_usize() as i128)]));
                        }
                        J::A(vec![
                            J::s("switch"),
                            self.op(discr, body, depth),
                            J::s(ty_str(t)),
                            J::A(cs),
                            J::I(targets.otherwise().as_usize() as i128),
                        ])
                    }
                    TerminatorKind::Return => J::A(vec![J::s("return")]),
                    TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                        J::s("assert"),
                        self.op(cond, body, depth),
                        J::B(*expected),
                        J::I(target.as_usize() as i128),
                        J::s(format!("{:?}", msg).chars().take(40).collect::<String>()),
                    ]),
                    TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                        let ft = func.ty(&body.local_decls, tcx);
                        let f = match ft.kind() {
                            ty::FnDef(d, a) => { let a = self.tcx.erase_and_anonymize_regions(a.skip_binder()); self.callee(*d, a, depth) }
                            _ => J::O(vec![("ptr", self.op(func, body, depth))]),
                        };
                        let aj: Vec<J> = args.iter().map(|a| self.op(&a.node, body, depth)).collect();
                        let at: Vec<J> = args
                            .iter()
                            .map(|a| {
                                let t = a.node.ty(&body.local_decls, tcx);
                                self.tyid(t)
                            })
                            .collect();
                        let dt = destination.ty(&body.local_decls, tcx).ty;
                        let dti = self.tyid(dt);
                        J::A(vec![
                            J::s("call"),
                            f,
                            J::A(aj),
                            self.place(*destination, body),
                            target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::N),
                            self.loc(*fn_span),
                            J::A(at),
                            dti,
                        ])
                    }
                    TerminatorKind::Yield { resume, resume_arg, .. } => J::A(vec![
                        J::s("yield"),
                        J::I(resume.as_usize() as i128),
                        self.place(*resume_arg, body),
                    ]),
                    _ => J::A(vec![J::s("stop")]),
                }
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
        }
        v.push(("blocks", J::A(blocks)));
        self.out.push(J::O(v));
    }

    fn roots(&mut self) {
        let tcx = self.tcx;
        let mut keys: Vec<LocalDefId> = self.local.keys().copied().collect();
        keys.sort_by_key(|k| path_of(tcx, k.to_def_id()));
        for l in keys {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(d);
            if !g.requires_monomorphization(tcx) {
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| tcx.lifetimes.re_erased.into_arg(p));
                let inst = Instance::new_raw(d, args);
                self.request(inst, 0);
                continue;
            }
            // exactly one type parameter bounded by a local trait: instantiate for each impl
            let preds = tcx.clauses_of(d).instantiate_identity(tcx);
            let mut cand: Vec<Ty<'tcx>> = vec![];
            for p in preds.clauses.iter() {
                if let Some(tp) = p.skip_norm_wip().as_trait_clause() {
                    let tid = tp.def_id();
                    if path_of(tcx, tid).ends_with("::ser::Serializer") {
                        // what a serializable report hands to a serializer: one concrete serializer stands for all
                        let mut all: Vec<Ty<'tcx>> = tcx
                            .all_impls(tid)
                            .map(|im| tcx.type_of(im).instantiate_identity().skip_norm_wip())
                            .filter(|t| !t.has_non_region_param())
                            .collect();
                        all.sort_by_key(|t| t.to_string());
                        cand.extend(all.iter().find(|t| t.to_string() == "serde_json::value::Serializer" || t.to_string().ends_with("value::ser::Serializer")).copied().map(|t| tcx.erase_and_anonymize_regions(t)));
                    }
                    if tid.is_local() {
                        for im in tcx.all_impls(tid) {
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            if !st.has_non_region_param() {
                                cand.push(st);
                            }
                        }
                    }
                }
            }
            let ntypes = (0..g.count())
                .filter(|i| matches!(g.param_at(*i, tcx).kind, ty::GenericParamDefKind::Type { .. }))
                .count();
            if ntypes != 1 {
                continue;
            }
            for c in cand {
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Type { .. } => c.into(),
                    _ => tcx.lifetimes.re_erased.into(),
                });
                let inst = Instance::new_raw(d, args);
                self.request(inst, 0);
            }
        }
    }

    fn run(&mut self) {
        self.roots();
        while let Some((i, id, depth)) = self.queue.pop_front() {
            self.dump_body(i, id, depth);
        }
    }
}

trait IntoArg<'tcx> {
    fn into_arg(self, p: &ty::GenericParamDef) -> ty::GenericArg<'tcx>;
}
impl<'tcx> IntoArg<'tcx> for ty::Region<'tcx> {
    fn into_arg(self, _p: &ty::GenericParamDef) -> ty::GenericArg<'tcx> {
        self.into()
    }
}

#[derive(Default)]
struct Cb {
    bodies: Option<Box<HashMap<LocalDefId, Body<'static>>>>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut m = HashMap::new();
        for l in tcx.hir_body_owners() {
            if !matches!(tcx.def_kind(l), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let (b, _) = tcx.mir_promoted(l);
            let b: Body<'tcx> = b.borrow().clone();
            // SAFETY: both callbacks run inside the same global context; only the name of 'tcx differs.
            let b: Body<'static> = unsafe { std::mem::transmute(b) };
            m.insert(l, b);
        }
        self.bodies = Some(Box::new(m));
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let bodies: &'tcx HashMap<LocalDefId, Body<'tcx>> =
            unsafe { std::mem::transmute(Box::leak(self.bodies.take().unwrap())) };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let conf = std::fs::read_to_string(std::env::var("MIRDUMP_CONF").unwrap()).unwrap();
        let mut opaque = vec![];
        let mut force = vec![];
        let mut maxdepth = 12;
        for l in conf.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(x) = l.strip_prefix("depth ") {
                maxdepth = x.parse().unwrap();
            } else if let Some(x) = l.strip_prefix("force ") {
                force.push(x.to_string());
            } else if let Some(x) = l.strip_prefix("opaque ") {
                opaque.push(x.to_string());
            }
        }
        let mut d = Dump {
            tcx,
            local: bodies,
            ids: HashMap::new(),
            queue: VecDeque::new(),
            opaque,
            force,
            maxdepth,
            out: vec![],
            tys: HashMap::new(),
            tylist: vec![],
        };
        d.run();
        let variant = std::env::var("MIRDUMP_VARIANT").unwrap_or_default();
        let mut o = String::new();
        let tyl = J::A(std::mem::take(&mut d.tylist).into_iter().map(|(s, i)| J::A(vec![J::S(s), i])).collect());
        // local ADTs with discriminants and field types (ABI rules)
        let mut adts = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(l), DefKind::Enum | DefKind::Struct) {
                let def = tcx.adt_def(l);
                let mut vs = vec![];
                for (vi, vd) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let fs = vd
                        .fields
                        .iter()
                        .map(|f| {
                            J::A(vec![
                                J::s(f.name.to_string()),
                                J::s(ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            ])
                        })
                        .collect();
                    vs.push(J::O(vec![("name", J::s(vd.name.to_string())), ("discr", J::I(disc)), ("fields", J::A(fs))]));
                }
                adts.push(J::O(vec![
                    ("path", J::s(path_of(tcx, l.to_def_id()))),
                    ("enum", J::B(def.is_enum())),
                    ("variants", J::A(vs)),
                ]));
            }
        }
        let mut impls = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(l) {
                let tr = tcx.impl_trait_ref(l.to_def_id());
                let st = tcx.type_of(l).instantiate_identity().skip_norm_wip();
                impls.push(J::A(vec![J::s(path_of(tcx, tr.skip_binder().def_id)), J::s(ty_str(st))]));
            }
        }
        J::O(vec![
            ("crate", J::s(name.clone())),
            ("variant", J::s(variant.clone())),
            ("types", tyl),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("insts", J::A(std::mem::take(&mut d.out))),
        ])
        .w(&mut o);
        let dir = std::env::var("MIRDUMP_OUT").unwrap();
        let fin = format!("{}/{}{}.json", dir, name, variant);
        let tmp = format!("{}.tmp{}", fin, std::process::id());
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, &fin).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    let mut is_test = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    for a in &args {
        if a == "--test" {
            is_test = true;
        }
    }
    // the command-line client's binary has the library's crate name: keep them apart
    if name == "spl_token_wrap" && std::env::var("CARGO_PKG_NAME").as_deref() == Ok("spl-token-wrap-cli") {
        name = "spl_token_wrap_cli".into();
        for i in 1..args.len() {
            if args[i - 1] == "--crate-name" {
                args[i] = name.clone();
            }
        }
    }
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if want.split(',').any(|c| c == name) && !is_test {
        if let Ok(extra) = std::env::var("MIRDUMP_ARGS") {
            for a in extra.split('\u{1f}').filter(|x| !x.is_empty()) {
                args.push(a.to_string());
            }
        }
        rustc_driver::compiler_entrypoint(&args, &mut Cb::default());
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
