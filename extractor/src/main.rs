//! rustc_private driver: dumps the (drop-elaborated, monomorphised) MIR of the
//! crate under analysis as JSON, with callees resolved through the type system.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER; for every crate but the binary
//! named by MIRFACTS_CRATE it behaves exactly like rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

/// Minimal JSON value (no serde available for this toolchain offline).
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    ids: HashMap<Instance<'tcx>, String>,
    used: HashMap<String, usize>,
    out: Vec<(String, J)>,
    adts: BTreeMap<String, J>,
}

fn inline_std(path: &str) -> bool {
    // External bodies that are worth shipping: small combinators the analyses may step into.
    const P: &[&str] = &[
        "std::option::", "core::option::", "std::result::", "core::result::", "std::ops::", "core::ops::", "std::cmp::",
        "core::cmp::", "std::bool", "core::bool", "std::mem::", "core::mem::", "std::iter::", "core::iter::",
        "std::convert::", "core::convert::", "std::ops::control_flow", "core::char::", "std::char::",
    ];
    P.iter().any(|p| path.contains(p))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            p
        } else if p.starts_with('<') || p.starts_with(&format!("{}::", k)) || p.starts_with("std::") {
            p
        } else {
            p
        }
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> String {
        if let Some(x) = self.ids.get(&i) {
            return x.clone();
        }
        let base = match i.def {
            InstanceKind::Item(d) => {
                if i.args.non_erasable_generics().next().is_some() && !self.tcx.is_closure_like(d) {
                    self.tcx.def_path_str_with_args(d, i.args)
                } else {
                    self.tcx.def_path_str(d)
                }
            }
            _ => format!("{}", i),
        };
        let n = self.used.entry(base.clone()).or_insert(0);
        *n += 1;
        let id = if *n == 1 { base } else { format!("{}#{}", base, n) };
        self.ids.insert(i, id.clone());
        self.queue.push_back(i);
        id
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        s(t.to_string())
    }

    fn adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, args) = t.kind() {
            let key = t.to_string();
            if self.adts.contains_key(&key) {
                return;
            }
            let mut vs = Vec::new();
            self.adts.insert(key.clone(), J::Null);
            if def.is_enum() {
                for (vi, d) in def.discriminants(self.tcx) {
                    let v = def.variant(vi);
                    vs.push(J::O(vec![
                        ("name", s(v.name.as_str())),
                        ("discr", J::I(d.val as i128)),
                        ("fields", J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect())),
                        (
                            "ftys",
                            J::A(v.fields.iter().map(|f| s(self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args)).to_string())).collect()),
                        ),
                    ]));
                }
            } else {
                let v = def.non_enum_variant();
                vs.push(J::O(vec![
                    ("name", s(v.name.as_str())),
                    ("discr", J::I(0)),
                    ("fields", J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect())),
                    (
                        "ftys",
                        J::A(v.fields.iter().map(|f| s(self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args)).to_string())).collect()),
                    ),
                ]));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            self.adts.insert(
                key,
                J::O(vec![("def", s(self.tcx.def_path_str(def.did()))), ("kind", s(kind)), ("local", J::B(def.did().is_local())), ("variants", J::A(vs))]),
            );
            if def.did().is_local() {
                for v in def.variants().iter() {
                    for f in v.fields.iter() {
                        let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                        self.adt_deep(ft);
                    }
                }
            }
        }
    }
    fn adt_deep(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Adt(_, args) => {
                self.adt(t);
                let v: Vec<_> = args.types().collect();
                for a in v {
                    self.adt_deep(a);
                }
            }
            ty::Ref(_, t, _) => self.adt_deep(*t),
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    self.adt_deep(t);
                }
            }
            ty::Slice(t) | ty::Array(t, _) => self.adt_deep(*t),
            _ => {}
        }
    }

    fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pr = Vec::new();
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                def.variant(vi).fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
                            } else {
                                String::new()
                            }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    self.adt(pt.ty);
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(n, vi) => {
                    self.adt(pt.ty);
                    let name = match (n, pt.ty.kind()) {
                        (Some(n), _) => n.to_string(),
                        (None, ty::Adt(d, _)) => d.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::A(vec![s("v"), s(name)])
                }
                _ => J::A(vec![s("?"), s(format!("{:?}", e))]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(pr))])
    }

    fn str_of_bytes(&self, b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(x) => s(x),
            Err(_) => J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
        }
    }

    /// Best-effort decoding of a constant into a structured value.
    fn constval(&mut self, c: &Const<'tcx>) -> J {
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.no_bound_vars().unwrap());
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                    return self.cv(v, t, 0);
                }
                return J::O(vec![("promoted", J::I(p.as_usize() as i128))]);
            }
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cv(v, t, 0),
            Err(_) => J::O(vec![("opaque", s(format!("{}", c)))]),
        }
    }

    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 6 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => self.scalar_int(i, t),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let a = prov.alloc_id();
                match self.tcx.try_get_global_alloc(a) {
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.tcx.def_path_str(d)))]),
                    Some(GlobalAlloc::Function { instance }) => J::O(vec![("fnptr", s(self.inst_id_if_local(instance)))]),
                    Some(GlobalAlloc::Memory(m)) => {
                        let inner = match t.kind() {
                            ty::Ref(_, it, _) => *it,
                            ty::RawPtr(it, _) => *it,
                            _ => return J::O(vec![("opaque", s("ptr"))]),
                        };
                        let r = self.mem(m.inner(), off.bytes() as usize, inner, depth + 1, None);
                        J::O(vec![("ref", r)])
                    }
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, args) = t.kind() {
                    return self.fndef(*d, args.no_bound_vars().unwrap());
                }
                J::O(vec![("zst", s(t.to_string()))])
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let inner = match t.kind() {
                        ty::Ref(_, it, _) => *it,
                        _ => return J::O(vec![("opaque", s("slice"))]),
                    };
                    let r = self.mem(m.inner(), 0, inner, depth + 1, Some(meta as usize));
                    return match r {
                        J::O(ref v) if v.len() == 1 && v[0].0 == "str" => r.clone(),
                        _ => J::O(vec![("ref", r)]),
                    };
                }
                J::O(vec![("opaque", s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    return self.mem(m.inner(), offset.bytes() as usize, t, depth + 1, None);
                }
                J::O(vec![("opaque", s("indirect"))])
            }
        }
    }

    fn scalar_int(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> J {
        let bits = i.to_bits(i.size());
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
            ty::Char => J::O(vec![("char", J::I(bits as i128))]),
            ty::Int(_) => J::O(vec![("int", J::I(i.size().sign_extend(bits) as i128))]),
            ty::Uint(_) => J::O(vec![("int", J::I(bits as i128))]),
            ty::Adt(def, args) => {
                if def.is_enum() {
                    self.adt(t);
                    for (vi, d) in def.discriminants(self.tcx) {
                        if def.variant(vi).fields.is_empty() && (d.val & mask(i.size().bits())) == bits {
                            return J::O(vec![("variant", s(def.variant(vi).name.as_str())), ("adt", s(t.to_string())), ("fields", J::A(vec![]))]);
                        }
                    }
                    J::O(vec![("opaque", s(format!("{}:{}", t, bits)))])
                } else if def.is_struct() && def.non_enum_variant().fields.len() == 1 {
                    let ft = self.tcx.normalize_erasing_regions(self.env, def.non_enum_variant().fields.iter().next().unwrap().ty(self.tcx, args));
                    let inner = self.scalar_int(i, ft);
                    self.adt(t);
                    J::O(vec![("variant", s(def.non_enum_variant().name.as_str())), ("adt", s(t.to_string())), ("fields", J::A(vec![inner]))])
                } else {
                    J::O(vec![("opaque", s(format!("{}:{}", t, bits)))])
                }
            }
            _ => J::O(vec![("opaque", s(format!("{}:{}", t, bits)))]),
        }
    }

    fn mem(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: usize, t: Ty<'tcx>, depth: usize, meta: Option<usize>) -> J {
        use rustc_abi::Size;
        if depth > 8 {
            return J::O(vec![("opaque", s("deep"))]);
        }
        match t.kind() {
            ty::Str => {
                let n = meta.unwrap_or(a.len() - off);
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                J::O(vec![("str", self.str_of_bytes(b))])
            }
            ty::Slice(et) => {
                let n = meta.unwrap_or(0);
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(*et)) else { return J::O(vec![("opaque", s("layout"))]) };
                let sz = l.size.bytes() as usize;
                if n > 256 {
                    return J::O(vec![("opaque", s("bigslice"))]);
                }
                let v = (0..n).map(|i| self.mem(a, off + i * sz, *et, depth + 1, None)).collect();
                J::O(vec![("list", J::A(v))])
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(*et)) else { return J::O(vec![("opaque", s("layout"))]) };
                let sz = l.size.bytes() as usize;
                if n > 256 {
                    return J::O(vec![("opaque", s("bigarray"))]);
                }
                let v = (0..n).map(|i| self.mem(a, off + i * sz, *et, depth + 1, None)).collect();
                J::O(vec![("list", J::A(v))])
            }
            ty::Ref(_, it, _) => {
                let ps = self.tcx.data_layout.pointer_size().bytes() as usize;
                let Ok(sc) = a.read_scalar(&self.tcx, AllocRange { start: Size::from_bytes(off), size: Size::from_bytes(ps) }, true) else {
                    return J::O(vec![("opaque", s("ref"))]);
                };
                let m = match it.kind() {
                    ty::Str | ty::Slice(_) => {
                        let Ok(x) = a.read_scalar(&self.tcx, AllocRange { start: Size::from_bytes(off + ps), size: Size::from_bytes(ps) }, false) else {
                            return J::O(vec![("opaque", s("ref"))]);
                        };
                        x.to_target_usize(&self.tcx).discard_err().map(|x| x as usize)
                    }
                    _ => None,
                };
                if let Scalar::Ptr(p, _) = sc {
                    let (prov, o2) = p.into_raw_parts();
                    match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Memory(mm)) => {
                            let r = self.mem(mm.inner(), o2.bytes() as usize, *it, depth + 1, m);
                            return match r {
                                J::O(ref v) if v.len() == 1 && v[0].0 == "str" => r.clone(),
                                _ => J::O(vec![("ref", r)]),
                            };
                        }
                        Some(GlobalAlloc::Static(d)) => return J::O(vec![("static", s(self.tcx.def_path_str(d)))]),
                        _ => {}
                    }
                }
                J::O(vec![("opaque", s("ref"))])
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("opaque", s("layout"))]) };
                match a.read_scalar(&self.tcx, AllocRange { start: Size::from_bytes(off), size: l.size }, false) {
                    Ok(Scalar::Int(i)) => self.scalar_int(i, t),
                    _ => J::O(vec![("opaque", s("scalar"))]),
                }
            }
            ty::Tuple(ts) => {
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("opaque", s("layout"))]) };
                let v = ts.iter().enumerate().map(|(i, ft)| self.mem(a, off + l.fields.offset(i).bytes() as usize, ft, depth + 1, None)).collect();
                J::O(vec![("tuple", J::A(v))])
            }
            ty::Adt(def, args) => {
                self.adt(t);
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("opaque", s("layout"))]) };
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                let vi = match &l.variants {
                    rustc_abi::Variants::Single { index } => Some(*index),
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = l.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let tsz = tag.size(&self.tcx);
                        let raw = a.read_scalar(&self.tcx, AllocRange { start: Size::from_bytes(off + toff), size: tsz }, false);
                        match (raw, tag_encoding) {
                            (Ok(Scalar::Int(i)), rustc_abi::TagEncoding::Direct) => {
                                let bits = i.to_bits(tsz);
                                let mut r = None;
                                for (vi, d) in def.discriminants(self.tcx) {
                                    if d.val & mask(tsz.bits()) == bits {
                                        r = Some(vi);
                                    }
                                }
                                r
                            }
                            (Ok(Scalar::Int(i)), rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start }) => {
                                let bits = i.to_bits(tsz);
                                let rel = bits.wrapping_sub(*niche_start) & mask(tsz.bits());
                                let nv = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= nv {
                                    Some(rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32))
                                } else {
                                    Some(*untagged_variant)
                                }
                            }
                            (_, rustc_abi::TagEncoding::Niche { untagged_variant, .. }) => Some(*untagged_variant),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let Some(vi) = vi else { return J::O(vec![("opaque", s(t.to_string()))]) };
                let vl = l.for_variant(&cx, vi);
                let v = def.variant(vi);
                let mut fs = Vec::new();
                for (i, f) in v.fields.iter().enumerate() {
                    let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                    fs.push(self.mem(a, off + vl.fields.offset(i).bytes() as usize, ft, depth + 1, None));
                }
                J::O(vec![("variant", s(v.name.as_str())), ("adt", s(t.to_string())), ("fields", J::A(fs))])
            }
            _ => J::O(vec![("opaque", s(t.to_string()))]),
        }
    }

    fn inst_id_if_local(&mut self, i: Instance<'tcx>) -> String {
        if i.def_id().is_local() {
            self.inst_id(i)
        } else {
            self.tcx.def_path_str(i.def_id())
        }
    }

    /// A function item: its path, and, resolved through the type system, the body that will run.
    fn fndef(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("fn", s(self.path(d)))];
        let targs: Vec<J> = args.types().map(|t| s(t.to_string())).collect();
        o.push(("targs", J::A(targs)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(tcx.def_path_str(t))));
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                o.push(("res", s(self.path(i.def_id()))));
                match i.def {
                    InstanceKind::Item(rd) if rd.is_local() && tcx.is_mir_available(rd) => {
                        let id = self.inst_id(i);
                        o.push(("inst", s(id)));
                    }
                    InstanceKind::Item(rd) if tcx.is_mir_available(rd) && inline_std(&self.path(rd)) => {
                        let id = self.inst_id(i);
                        o.push(("xinst", s(id)));
                    }
                    InstanceKind::Shim(_) => {
                        // a shim around a local closure/fn: name the underlying body
                        if i.def_id().is_local() && tcx.is_mir_available(i.def_id()) {}
                        o.push(("shim", s(format!("{:?}", i.def))));
                    }
                    _ => {}
                }
                if i.def_id().is_local() {
                    o.push(("local", J::B(true)));
                }
            }
            _ => o.push(("unresolved", J::B(true))),
        }
        // local code reachable through type arguments: closures, fn items, trait impls used by std machinery
        let mut cl: Vec<J> = Vec::new();
        let mut stack: Vec<Ty<'tcx>> = args.types().collect();
        while let Some(t) = stack.pop() {
            match t.kind() {
                ty::Closure(cd, ca) => {
                    if tcx.is_mir_available(*cd) {
                        let i = Instance::new_raw(*cd, ca);
                        let id = if cd.is_local() { Some(self.inst_id(i)) } else { None };
                        if let Some(id) = id {
                            cl.push(s(id));
                        }
                    }
                }
                ty::FnDef(fd, fa) => {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *fd, fa.no_bound_vars().unwrap()) {
                        if i.def_id().is_local() {
                            let id = self.inst_id(i);
                            cl.push(s(id));
                        }
                    }
                }
                ty::Ref(_, t, _) => stack.push(*t),
                ty::Adt(_, a) => {
                    for x in a.types() {
                        stack.push(x);
                    }
                }
                _ => {}
            }
        }
        if !cl.is_empty() {
            o.push(("cls", J::A(cl)));
        }
        let p = self.path(d);
        let mut fmt = Vec::new();
        let disp = p.contains("new_display") || p.contains("to_string") || p.contains("ToString");
        let dbg = p.contains("new_debug");
        if disp || dbg {
            for t in args.types() {
                let mut t = t;
                while let ty::Ref(_, it, _) = t.kind() {
                    t = *it;
                }
                // look through smart pointers and guards to the local type they display
                let mut cands = vec![t];
                let mut seen = 0;
                while let Some(t) = cands.pop() {
                    seen += 1;
                    if seen > 12 {
                        break;
                    }
                    if let ty::Adt(def, a) = t.kind() {
                        if def.did().is_local() {
                            let name = if dbg { rustc_span::sym::Debug } else { rustc_span::sym::Display };
                            if let Some(tr) = tcx.get_diagnostic_item(name) {
                                let m = tcx.associated_item_def_ids(tr)[0];
                                let ta = tcx.mk_args(&[t.into()]);
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m, ta) {
                                    if i.def_id().is_local() {
                                        let id = self.inst_id(i);
                                        fmt.push(s(id));
                                    }
                                }
                            }
                        } else {
                            for x in a.types() {
                                cands.push(x);
                            }
                        }
                    }
                }
            }
        }
        if !fmt.is_empty() {
            o.push(("fmt", J::A(fmt)));
        }
        J::O(o)
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(b, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(b, *p))]),
            Operand::Constant(c) => {
                let v = self.constval(&c.const_);
                J::O(vec![("k", v), ("ty", self.ty(c.const_.ty()))])
            }
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::O(vec![("opaque", s(format!("{:?}", o)))])), ("ty", s("?"))]),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(b, o)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(b, *p))])]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(b, o), s(n.to_string())]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Mut { .. } => "mut",
                    _ => "fake",
                }),
                self.place(b, *p),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(b, *p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(b, *p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, o), self.ty(*t)]),
            Rvalue::BinaryOp(op, bx) => {
                let (x, y) = &**bx;
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, x), self.operand(b, y)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                self.adt(t);
                J::A(vec![s("discr"), self.place(b, *p), self.ty(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(b, o)).collect();
                match &**k {
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let t = Ty::new_adt(self.tcx, def, args);
                        self.adt(t);
                        J::A(vec![
                            s("agg"),
                            s("adt"),
                            s(self.tcx.def_path_str(*d)),
                            s(v.name.as_str()),
                            J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect()),
                            J::A(f),
                        ])
                    }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), s(""), s(""), J::A(vec![]), J::A(f)]),
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), s(""), s(""), J::A(vec![]), J::A(f)]),
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        let id = self.inst_id(i);
                        J::A(vec![s("agg"), s("closure"), s(id), s(""), J::A(vec![]), J::A(f)])
                    }
                    _ => J::A(vec![s("agg"), s("other"), s(""), s(""), J::A(vec![]), J::A(f)]),
                }
            }
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let n = format!("{}", l.file.name.prefer_local_unconditionally());
        J::A(vec![s(n), J::I(l.line as i128)])
    }

    fn dump(&mut self, inst: Instance<'tcx>, id: &str) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let b = &body;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars = Vec::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upvars.push(J::A(vec![s(v.name.as_str()), self.place(b, p)]));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, ld) in b.local_decls.iter_enumerated() {
            self.adt_deep(ld.ty);
            let mut o = vec![("ty", self.ty(ld.ty))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("n", s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), self.place(b, *p), self.rvalue(b, r), sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(b, tcx).ty;
                        let n = if let ty::Adt(def, _) = t.kind() { def.variant(*variant_index).name.to_string() } else { String::new() };
                        st.push(J::A(vec![s("sd"), self.place(b, **place), s(n)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(x) => J::I(x.as_usize() as i128),
                _ => J::Null,
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(target.as_usize() as i128))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b, tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let sz = tcx.layout_of(self.env.as_query_input(dt)).map(|l| l.size).unwrap();
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", self.operand(b, discr)),
                        ("dty", self.ty(dt)),
                        (
                            "ts",
                            J::A(
                                targets
                                    .iter()
                                    .map(|(v, t)| {
                                        let v = if signed { sz.sign_extend(v) as i128 } else { v as i128 };
                                        J::A(vec![J::I(v), J::I(t.as_usize() as i128)])
                                    })
                                    .collect(),
                            ),
                        ),
                        ("o", J::I(targets.otherwise().as_usize() as i128)),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreach"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(b, tcx).ty;
                    J::O(vec![
                        ("k", s("drop")),
                        ("p", self.place(b, *place)),
                        ("ty", self.ty(ty)),
                        ("t", J::I(target.as_usize() as i128)),
                        ("u", uw(unwind)),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(b, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| s(x.node.ty(b, tcx).to_string())).collect();
                    let rt = destination.ty(b, tcx).ty;
                    self.adt_deep(rt);
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", self.place(b, *destination)),
                        ("rty", self.ty(rt)),
                        ("t", target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null)),
                        ("u", uw(unwind)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(b, len), self.operand(b, index)])
                        }
                        AssertKind::Overflow(op, x, y) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(b, x), self.operand(b, y)]),
                        m => J::A(vec![s("other"), s(format!("{:?}", m))]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", self.operand(b, cond)),
                        ("e", J::B(*expected)),
                        ("m", m),
                        ("t", J::I(target.as_usize() as i128)),
                        ("u", uw(unwind)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(real_target.as_usize() as i128))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", J::I(real_target.as_usize() as i128))]),
                k => J::O(vec![("k", s("?")), ("v", s(format!("{:?}", k)))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cu", J::B(bb.is_cleanup))]));
        }
        let j = J::O(vec![
            ("def", s(self.path(d))),
            ("inst", s(id)),
            ("local", J::B(d.is_local())),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("span", self.span(tcx.def_span(d))),
            ("nargs", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)),
            ("upvars", J::A(upvars)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]);
        self.out.push((id.to_string(), j));
    }
}

fn mask(bits: u64) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        rustc_middle::ty::print::with_no_trimmed_paths!({
            let mut cx = Cx {
                tcx,
                env: TypingEnv::fully_monomorphized(),
                queue: VecDeque::new(),
                ids: HashMap::new(),
                used: HashMap::new(),
                out: Vec::new(),
                adts: BTreeMap::new(),
            };
            let mut roots: Vec<DefId> = Vec::new();
            for ld in tcx.mir_keys(()) {
                let d = ld.to_def_id();
                let k = tcx.def_kind(d);
                if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                    continue;
                }
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let p = tcx.def_path_str(d);
                // the LR automaton itself (four identical copies) is read from the grammar; keep the actions
                if p.contains("grammar::") && !p.contains("__action") && !p.ends_with("CompleteCommandParser::parse") {
                    continue;
                }
                roots.push(d);
            }
            for d in roots {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                let i = Instance::new_raw(d, args);
                cx.inst_id(i);
            }
            while let Some(i) = cx.queue.pop_front() {
                let id = cx.ids[&i].clone();
                let p = tcx.def_path_str(i.def_id());
                if p.contains("grammar::") && !p.contains("__action") && !p.ends_with("CompleteCommandParser::parse") {
                    continue;
                }
                if !tcx.is_mir_available(i.def_id()) {
                    continue;
                }
                if cx.out.len() > 6000 {
                    break;
                }
                cx.dump(i, &id);
            }
            let mut statics = Vec::new();
            for ld in tcx.hir_crate_items(()).definitions() {
                let d = ld.to_def_id();
                if let DefKind::Static { .. } = tcx.def_kind(d) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push((tcx.def_path_str(d), s(t.to_string())));
                }
            }
            let top = J::O(vec![
                ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
                ("fns", J::M(std::mem::take(&mut cx.out))),
                ("adts", J::M(cx.adts.into_iter().collect())),
                ("statics", J::M(statics)),
            ]);
            let mut o = String::new();
            top.w(&mut o);
            let tmp = format!("{}.tmp{}", self.out, std::process::id());
            std::fs::write(&tmp, o).unwrap();
            std::fs::rename(&tmp, &self.out).unwrap();
        });
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let mut name = String::new();
    let mut is_test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if a == "--test" {
            is_test = true;
        }
    }
    if !want.is_empty() && name == want && !is_test && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        })
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
