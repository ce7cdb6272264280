// vdriver: a rustc wrapper that type-checks and lowers a crate with the real compiler and then
// serves facts about the *resolved* program (MIR bodies with resolved callees, types, constants,
// impls and their predicates) over stdin/stdout, one JSON document per line.
//
//   vdriver <rustc args>            behaves like rustc
//   VDRIVER_SERVE=1 vdriver <args>  compiles up to analysis, then serves queries
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::VariantIdx;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::io::{BufRead, Write};

// ------------------------------------------------------------------ tiny JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => o.push_str(&i.to_string()),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('"'); o.push_str(k); o.push_str("\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum BodyKind { Mir, Promoted(u32), Const }

struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Ty<'tcx>>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    // an instance as seen from a root item, whose generic parameters stay opaque
    insts: Vec<(Instance<'tcx>, DefId, BodyKind)>,
    inst_ids: HashMap<(Instance<'tcx>, DefId, BodyKind), usize>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))).replace("crate::", &format!("{}::", tcx.crate_name(LOCAL_CRATE)))
}
fn tstr<'tcx, T: std::fmt::Display>(tcx: TyCtxt<'tcx>, t: T) -> String {
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))).replace("crate::", &format!("{}::", tcx.crate_name(LOCAL_CRATE)))
}

impl<'tcx> Srv<'tcx> {
    fn env(&self, root: DefId) -> TypingEnv<'tcx> { TypingEnv::post_analysis(self.tcx, root) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(t);
        self.ty_ids.insert(t, i);
        i
    }
    fn jty(&mut self, t: Ty<'tcx>) -> J { n(self.ty(t)) }

    fn inst(&mut self, i: Instance<'tcx>, root: DefId, k: BodyKind) -> usize {
        let key = (i, root, k);
        if let Some(x) = self.inst_ids.get(&key) { return *x; }
        let x = self.insts.len();
        self.insts.push(key);
        self.inst_ids.insert(key, x);
        x
    }

    fn jargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v: Vec<_> = args.iter().collect();
        let mut out = vec![];
        for a in v {
            if let Some(t) = a.as_type() { out.push(self.jty(t)); }
            else if let Some(c) = a.as_const() { out.push(s(tstr(self.tcx, c))); }
        }
        J::A(out)
    }

    // describe a callable: generic item + args, resolved as far as the root's environment allows
    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, def)))];
        o.push(("args", self.jargs(args)));
        o.push(("krate", s(tcx.crate_name(def.krate).to_string())));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("name", s(tcx.item_name(def).to_string())));
        }
        if let Some(i) = tcx.intrinsic(def) { o.push(("intrinsic", s(i.name.to_string()))); }
        let kind = tcx.def_kind(def);
        if let DefKind::Ctor(..) = kind {
            // a constructor used as a function
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        let env = self.env(root);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, def, args)));
        match res {
            Ok(Ok(Some(inst))) => self.inst_desc(inst, root, &mut o),
            _ => {
                // a provided method of a trait on a type that is only known by its bounds
                if tcx.trait_of_assoc(def).is_some() && tcx.defaultness(def).has_value() && tcx.is_mir_available(def) {
                    let id = self.inst(Instance { def: InstanceKind::Item(def), args }, root, BodyKind::Mir);
                    o.push(("definst", n(id)));
                }
            }
        }
        J::O(o)
    }
    fn inst_desc(&mut self, inst: Instance<'tcx>, root: DefId, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                o.push(("rpath", s(path(tcx, d))));
                o.push(("rkrate", s(tcx.crate_name(d.krate).to_string())));
                o.push(("rargs", self.jargs(inst.args)));
                if tcx.is_mir_available(d) && !tcx.is_foreign_item(d) {
                    let id = self.inst(inst, root, BodyKind::Mir);
                    o.push(("inst", n(id)));
                }
            }
            InstanceKind::Intrinsic(d) | InstanceKind::LlvmIntrinsic(d) => {
                o.push(("intrinsic", s(tcx.item_name(d).to_string())));
            }
            InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
            InstanceKind::Shim(k) => {
                let nm = match k {
                    ShimKind::FnPtr(..) => "fnptr",
                    ShimKind::ClosureOnce { .. } => "closure_once",
                    ShimKind::DropGlue(..) => "drop",
                    ShimKind::Clone(..) => "clone",
                    _ => "other",
                };
                o.push(("shim", s(nm)));
            }
        }
    }

    fn const_ty_val(&mut self, c: mir::Const<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.jty(ty))];
        match ty.kind() {
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder(), root);
                o.push(("fn", c));
                return J::O(o);
            }
            _ => {}
        }
        match c {
            mir::Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    o.push(("param", s(p.name.to_string())));
                    return J::O(o);
                }
            }
            mir::Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    let inst = Instance { def: InstanceKind::Item(uv.def), args: uv.args };
                    let id = self.inst(inst, root, BodyKind::Promoted(p.as_u32()));
                    o.push(("body", n(id)));
                    return J::O(o);
                }
                // associated consts of opaque parameters stay symbolic
                let env = self.env(root);
                let dk = tcx.def_kind(uv.def);
                let res = if matches!(dk, DefKind::AssocConst { .. } | DefKind::Const { .. }) {
                    Instance::try_resolve(tcx, env, uv.def, uv.args).ok().flatten()
                } else { None };
                if let Some(i) = res {
                    if let InstanceKind::Item(d) = i.def {
                        if tcx.is_mir_available(d) || d.is_local() {
                            let id = self.inst(i, root, BodyKind::Const);
                            o.push(("body", n(id)));
                            o.push(("cpath", s(path(tcx, d))));
                            return J::O(o);
                        }
                    }
                }
                if let Ok(v) = c.eval(tcx, env, DUMMY_SP) {
                    let x = self.const_val(v, ty, root);
                    o.push(("val", x));
                    return J::O(o);
                }
                o.push(("uneval", s(path(tcx, uv.def))));
                o.push(("args", self.jargs(uv.args)));
                return J::O(o);
            }
            mir::Const::Val(v, _) => {
                let x = self.const_val(v, ty, root);
                o.push(("val", x));
                return J::O(o);
            }
        }
        let env = self.env(root);
        if let Ok(v) = c.eval(tcx, env, DUMMY_SP) {
            let x = self.const_val(v, ty, root);
            o.push(("val", x));
        } else {
            o.push(("opaque", s(tstr(tcx, format!("{:?}", c)))));
        }
        J::O(o)
    }

    fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => self.int_val(ty, i.to_bits_unchecked(), root, 0),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.ptr_val(prov.alloc_id(), off.bytes(), None, ty, root)
            }
            ConstValue::Slice { alloc_id, meta } => self.ptr_val(alloc_id, 0, Some(meta), ty, root),
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(_) = tcx.global_alloc(alloc_id) {
                    self.mem_val(alloc_id, offset.bytes(), ty, root, 0)
                } else { J::O(vec![("opaque", s("indirect"))]) }
            }
        }
    }
    /// the variant that a tag stands for
    fn tagged(&self, ty: Ty<'tcx>, v: &rustc_abi::Variants<rustc_abi::FieldIdx, rustc_abi::VariantIdx>, size: u64, bits: u128) -> Option<rustc_abi::VariantIdx> {
        use rustc_abi::{TagEncoding, Variants};
        let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
        let ty::Adt(def, _) = ty.kind() else { return None };
        match v {
            Variants::Single { index } => Some(*index),
            Variants::Multiple { tag_encoding: TagEncoding::Direct, .. } => def.discriminants(self.tcx).find(|(_, d)| d.val & mask == bits & mask).map(|(i, _)| i),
            Variants::Multiple { tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                let rel = bits.wrapping_sub(*niche_start) & mask;
                let (lo, hi) = (niche_variants.start.as_u32() as u128, niche_variants.last.as_u32() as u128);
                Some(if rel <= hi - lo { rustc_abi::VariantIdx::from_u32((lo + rel) as u32) } else { *untagged_variant })
            }
            _ => None,
        }
    }
    fn int_val(&mut self, ty: Ty<'tcx>, bits: u128, root: DefId, d: u32) -> J {
        let tcx = self.tcx;
        let plain = |me: &mut Self| J::O(vec![("bits", J::S(bits.to_string())), ("adt", me.jty(ty))]);
        let env = self.env(root);
        match ty.kind() {
            ty::Adt(def, args) if d < 12 && (def.is_enum() || def.is_struct()) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return plain(self) };
                let idx = if def.is_enum() { self.tagged(ty, &l.variants, l.size.bytes(), bits) } else { Some(rustc_abi::FIRST_VARIANT) };
                let Some(idx) = idx else { return plain(self) };
                let fs: Vec<_> = def.variant(idx).fields.iter().map(|f| f.did).collect();
                let mut v = vec![];
                for did in fs {
                    let ft = tcx.type_of(did).instantiate(tcx, args);
                    let Ok(ft) = tcx.try_normalize_erasing_regions(env, ft) else { return plain(self) };
                    let Ok(fl) = tcx.layout_of(env.as_query_input(ft)) else { return plain(self) };
                    v.push(if fl.is_zst() { J::O(vec![("zst", J::B(true))]) } else { self.int_val(ft, bits, root, d + 1) });
                }
                let mut o = vec![("struct", J::A(v)), ("adt", self.jty(ty))];
                if def.is_enum() { o.push(("variant", n(idx.as_usize()))); }
                J::O(o)
            }
            ty::Adt(..) => plain(self),
            _ => J::O(vec![("bits", J::S(bits.to_string()))]),
        }
    }
    fn ptr_val(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, meta: Option<u64>, ty: Ty<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let inner = match ty.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
            _ => return J::O(vec![("opaque", s(format!("ptr as {}", tstr(tcx, ty))))]),
        };
        match tcx.global_alloc(a) {
            GlobalAlloc::Memory(_) => {}
            GlobalAlloc::Static(d) => {
                // a static inside a generic function is one for all its instances
                let up = tcx.parent(d);
                let shared = matches!(tcx.def_kind(up), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && {
                    let g = tcx.generics_of(up);
                    g.requires_monomorphization(tcx)
                };
                return J::O(vec![("static", s(format!("{}{}", path(tcx, d), if shared { " (one for every instance)" } else { "" })))]);
            }
            GlobalAlloc::Function { instance } => {
                let mut o = vec![];
                self.inst_desc(instance, root, &mut o);
                return J::O(vec![("fnptr", J::O(o))]);
            }
            _ => return J::O(vec![("opaque", s("alloc"))]),
        }
        let x = match inner.kind() {
            ty::Str => {
                let m = meta.unwrap_or(0);
                let b = self.bytes(a, off, m);
                J::O(vec![("str", s(String::from_utf8_lossy(&b).into_owned()))])
            }
            ty::Slice(e) => {
                let e = *e;
                self.array_val(a, off, meta.unwrap_or(0), e, root, 0)
            }
            _ => self.mem_val(a, off, inner, root, 0),
        };
        J::O(vec![("ref", x)])
    }
    fn bytes(&self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Vec<u8> {
        let al = self.tcx.global_alloc(a).unwrap_memory().inner();
        let (o, l) = (off as usize, len as usize);
        if o + l > al.len() { return vec![]; }
        al.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).to_vec()
    }
    fn array_val(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>, root: DefId, d: u32) -> J {
        let env = self.env(root);
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            let b = self.bytes(a, off, len);
            return J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]);
        }
        let Ok(l) = self.tcx.layout_of(env.as_query_input(e)) else { return J::O(vec![("opaque", s("layout"))]) };
        let sz = l.size.bytes();
        let mut v = vec![];
        for i in 0..len { v.push(self.mem_val(a, off + i * sz, e, root, d + 1)); }
        J::O(vec![("array", J::A(v))])
    }
    // decode a typed value out of constant memory
    fn mem_val(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, ty: Ty<'tcx>, root: DefId, d: u32) -> J {
        let tcx = self.tcx;
        if d > 12 { return J::O(vec![("opaque", s("deep"))]); }
        let env = self.env(root);
        let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return J::O(vec![("opaque", s("layout"))]) };
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let b = self.bytes(a, off, l.size.bytes());
                let mut x: u128 = 0;
                for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                J::O(vec![("bits", J::S(x.to_string()))])
            }
            ty::Array(e, len) => {
                let e = *e;
                match len.try_to_target_usize(tcx) {
                    Some(k) => self.array_val(a, off, k, e, root, d),
                    None => J::O(vec![("opaque", s("arraylen"))]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let al = tcx.global_alloc(a).unwrap_memory().inner();
                let ps = tcx.data_layout.pointer_size();
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: ps };
                match al.read_scalar(&tcx, r, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            let b = self.bytes(a, off + ps.bytes(), ps.bytes());
                            let mut x: u64 = 0;
                            for (i, y) in b.iter().enumerate() { x |= (*y as u64) << (8 * i); }
                            Some(x)
                        } else { None };
                        let (prov, o2) = p.into_raw_parts();
                        self.ptr_val(prov.alloc_id(), o2.bytes(), meta, ty, root)
                    }
                    _ => {
                        if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            let b = self.bytes(a, off + ps.bytes(), ps.bytes());
                            if b.iter().all(|x| *x == 0) {
                                let k = if matches!(inner.kind(), ty::Str) { ("str", s("")) } else { ("array", J::A(vec![])) };
                                return J::O(vec![("ref", J::O(vec![k]))]);
                            }
                        }
                        J::O(vec![("opaque", s("rawint"))])
                    }
                }
            }
            ty::Tuple(ts) => {
                let ts: Vec<_> = ts.iter().collect();
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.mem_val(a, off + l.fields.offset(i).bytes(), *t, root, d + 1));
                }
                J::O(vec![("tuple", J::A(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                let fs: Vec<_> = def.non_enum_variant().fields.iter().map(|f| f.did).collect();
                for (i, did) in fs.iter().enumerate() {
                    let ft = tcx.type_of(*did).instantiate(tcx, args);
                    let ft = match tcx.try_normalize_erasing_regions(env, ft) { Ok(t) => t, Err(_) => return J::O(vec![("opaque", s("norm"))]) };
                    v.push(self.mem_val(a, off + l.fields.offset(i).bytes(), ft, root, d + 1));
                }
                J::O(vec![("struct", J::A(v)), ("adt", self.jty(ty))])
            }
            ty::Adt(def, args) if def.is_enum() => {
                use rustc_abi::Variants;
                match &l.variants {
                    Variants::Single { index } => {
                        let idx = *index;
                        let mut v = vec![];
                        let fs: Vec<_> = def.variant(idx).fields.iter().map(|f| f.did).collect();
                        for (i, did) in fs.iter().enumerate() {
                            let ft = tcx.type_of(*did).instantiate(tcx, args);
                            let ft = match tcx.try_normalize_erasing_regions(env, ft) { Ok(t) => t, Err(_) => return J::O(vec![("opaque", s("norm"))]) };
                            v.push(self.mem_val(a, off + l.fields.offset(i).bytes(), ft, root, d + 1));
                        }
                        J::O(vec![("variant", n(idx.as_usize())), ("struct", J::A(v)), ("adt", self.jty(ty))])
                    }
                    Variants::Multiple { tag, tag_field, variants, .. } => {
                        let al = tcx.global_alloc(a).unwrap_memory().inner();
                        let size = tag.size(&tcx);
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off) + l.fields.offset(tag_field.as_usize()), size };
                        let pointer = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                        let idx = match al.read_scalar(&tcx, r, pointer) {
                            Ok(Scalar::Int(i)) => self.tagged(ty, &l.variants, size.bytes(), i.to_bits_unchecked()),
                            Ok(Scalar::Ptr(..)) => match &l.variants {
                                Variants::Multiple { tag_encoding: rustc_abi::TagEncoding::Niche { untagged_variant, .. }, .. } => Some(*untagged_variant),
                                _ => None,
                            },
                            _ => None,
                        };
                        let Some(idx) = idx else { return J::O(vec![("opaque", s("enum"))]) };
                        let offs: Vec<u64> = variants[idx].field_offsets.iter().map(|o| o.bytes()).collect();
                        let fs: Vec<_> = def.variant(idx).fields.iter().map(|f| f.did).collect();
                        let mut v = vec![];
                        for (o, did) in offs.iter().zip(fs) {
                            let ft = tcx.type_of(did).instantiate(tcx, args);
                            let ft = match tcx.try_normalize_erasing_regions(env, ft) { Ok(t) => t, Err(_) => return J::O(vec![("opaque", s("norm"))]) };
                            let z = tcx.layout_of(env.as_query_input(ft)).map(|l| l.is_zst()).unwrap_or(false);
                            v.push(if z { J::O(vec![("zst", J::B(true))]) } else { self.mem_val(a, off + o, ft, root, d + 1) });
                        }
                        J::O(vec![("variant", n(idx.as_usize())), ("struct", J::A(v)), ("adt", self.jty(ty))])
                    }
                    _ => J::O(vec![("opaque", s("enum"))]),
                }
            }
            _ => J::O(vec![("opaque", s(tstr(tcx, ty)))]),
        }
    }

    fn place(&mut self, p: mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("*")]),
                mir::ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.jty(t)]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)]),
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>, root: DefId) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(*p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(*p)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.const_ty_val(c.const_, root)]),
            other => J::A(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, root: DefId) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => J::A(vec![s("use"), self.operand(o, root)]),
            Repeat(o, c) => {
                let l = match c.try_to_target_usize(self.tcx) { Some(k) => n(k as usize), None => s(tstr(self.tcx, *c)) };
                J::A(vec![s("repeat"), self.operand(o, root), l])
            }
            Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(*p)]),
            RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(*p)]),
            Cast(k, o, t) => {
                let kn = format!("{:?}", k);
                J::A(vec![s("cast"), s(kn), self.operand(o, root), self.jty(*t)])
            }
            BinaryOp(op, ab) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&ab.0, root), self.operand(&ab.1, root)]),
            UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(a, root)]),
            Discriminant(p) => J::A(vec![s("discr"), self.place(*p)]),
            Aggregate(k, ops) => {
                let os: Vec<_> = ops.iter().map(|o| self.operand(o, root)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("ty", self.jty(*t))]),
                    mir::AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    mir::AggregateKind::Adt(d, v, args, _, f) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        J::O(vec![("k", s("adt")), ("ty", self.jty(t)), ("v", n(v.as_usize())), ("union", match f { Some(f) => n(f.as_usize()), None => J::Null })])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::O(vec![("k", s("closure")), ("ty", self.jty(t))])
                    }
                    mir::AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            CopyForDeref(p) => { let p = self.place(*p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(*p)]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, id: usize) -> J {
        let (inst, root, kind) = self.insts[id];
        let tcx = self.tcx;
        let def = inst.def_id();
        let raw: &mir::Body<'tcx> = match kind {
            BodyKind::Mir => tcx.instance_mir(inst.def),
            BodyKind::Promoted(p) => &tcx.promoted_mir(def)[mir::Promoted::from_u32(p)],
            BodyKind::Const => tcx.mir_for_ctfe(def),
        };
        let env = self.env(root);
        let raw2: mir::Body<'tcx> = raw.clone();
        let (body, normed) = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw2)) {
            Ok(b) => (b, true),
            Err(_) => (EarlyBinder::bind(tcx, raw.clone()).instantiate(tcx, inst.args).skip_norm_wip(), false),
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(self.jty(l.ty)); }
        let mut blocks = vec![];
        let sm = tcx.sess.source_map();
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(a.0);
                        let r = self.rvalue(&a.1, root);
                        st.push(J::A(vec![s("="), p, r]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i { st.push(J::A(vec![s("copynon")])); }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            use mir::TerminatorKind as T;
            let line = { let sp = t.source_info.span.source_callsite(); if sp.is_dummy() { String::new() } else { let l = sm.lookup_char_pos(sp.lo()); format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line) } };
            let tj = match &t.kind {
                T::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                T::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, root);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let mut v = vec![];
                    for (x, b) in targets.iter() { v.push(J::A(vec![J::S(x.to_string()), n(b.as_usize())])); }
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_usize()), self.jty(dt)])
                }
                T::UnwindResume => J::A(vec![s("resume")]),
                T::UnwindTerminate(_) => J::A(vec![s("abort")]),
                T::Return => J::A(vec![s("return")]),
                T::Unreachable => J::A(vec![s("unreachable")]),
                T::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(*place), n(target.as_usize())]),
                T::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, root);
                    let a: Vec<_> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                    let at: Vec<_> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.jty(t) }).collect();
                    let d = self.place(*destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![s("call"), f, J::A(a), d, match target { Some(t) => n(t.as_usize()), None => J::Null }, J::A(at), self.jty(dt), s(line)])
                }
                T::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, root);
                    J::A(vec![s("assert"), c, J::B(*expected), n(target.as_usize()), s(format!("{:?}", msg).chars().take(60).collect::<String>()), s(match &**msg { mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(..) => "overflow", mir::AssertKind::BoundsCheck { .. } => "bounds", _ => "other" }), s(line)])
                }
                T::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                T::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("path", s(path(tcx, def))),
            ("krate", s(tcx.crate_name(def.krate).to_string())),
            ("normed", J::B(normed)),
            ("argc", n(body.arg_count)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("loc", s(self.loc(def))),
        ])
    }

    fn loc(&self, def: DefId) -> String {
        let sp = self.tcx.def_span(def).source_callsite();
        if sp.is_dummy() { return String::new(); }
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn ty_info(&mut self, id: usize, root: DefId) -> J {
        let tcx = self.tcx;
        let t = self.tys[id];
        let env = self.env(root);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tstr(tcx, t)))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => { o.push(("k", s("int"))); o.push(("bits", n(i.bit_width().unwrap_or(64) as usize))); }
            ty::Uint(i) => { o.push(("k", s("uint"))); o.push(("bits", n(i.bit_width().unwrap_or(64) as usize))); }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Slice(e) => { let e = *e; o.push(("k", s("slice"))); o.push(("e", self.jty(e))); }
            ty::Array(e, l) => {
                let (e, l) = (*e, *l);
                o.push(("k", s("array"))); o.push(("e", self.jty(e)));
                if let Some(k) = l.try_to_target_usize(tcx) { o.push(("len", n(k as usize))); }
            }
            ty::Ref(_, e, m) => { let (e, m) = (*e, *m); o.push(("k", s("ref"))); o.push(("e", self.jty(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(e, m) => { let (e, m) = (*e, *m); o.push(("k", s("ptr"))); o.push(("e", self.jty(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Tuple(ts) => {
                let ts: Vec<_> = ts.iter().collect();
                o.push(("k", s("tuple")));
                let v = ts.into_iter().map(|x| self.jty(x)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::FnDef(d, args) => {
                let (d, args) = (*d, args.skip_binder());
                o.push(("k", s("fndef")));
                let c = self.callee(d.into(), args, root);
                o.push(("fn", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => {
                let (d, args) = (*d, *args);
                o.push(("k", s("closure")));
                let up: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let v = up.into_iter().map(|x| self.jty(x)).collect();
                o.push(("fields", J::A(v)));
                let inst = Instance { def: InstanceKind::Item(d.into()), args };
                let id = self.inst(inst, root, BodyKind::Mir);
                o.push(("inst", n(id)));
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind()))));
                let ni = args.as_closure().sig().skip_binder().inputs().first().map(|t| if let ty::Tuple(l) = t.kind() { l.len() } else { 0 }).unwrap_or(0);
                o.push(("nargs", n(ni)));
            }
            ty::Adt(def, args) => {
                let args = *args;
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("args", self.jargs(args)));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("union", J::B(def.is_union())));
                o.push(("box", J::B(def.is_box())));
                o.push(("krate", s(tcx.crate_name(def.did().krate).to_string())));
                if let DefKind::Enum | DefKind::Struct | DefKind::Union = tcx.def_kind(def.did()) {
                    let mut vs = vec![];
                    let vars: Vec<(VariantIdx, String, Vec<(String, DefId, bool)>)> = def.variants().iter_enumerated().map(|(i, v)| {
                        (i, v.name.to_string(), v.fields.iter().map(|f| (f.name.to_string(), f.did, f.vis.is_public())).collect())
                    }).collect();
                    for (i, name, fs) in vars {
                        let mut fj = vec![];
                        for (fname, did, public) in fs {
                            let ft = tcx.type_of(did).instantiate(tcx, args);
                            let ft2 = tcx.try_normalize_erasing_regions(env, ft).unwrap_or_else(|_| tcx.type_of(did).instantiate(tcx, args).skip_norm_wip());
                            fj.push(J::A(vec![s(fname), self.jty(ft2), J::B(public)]));
                        }
                        let d = if def.is_enum() {
                            let x = def.discriminant_for_variant(tcx, i);
                            match x.ty.kind() {
                                ty::Int(it) => {
                                    let b = 128 - it.bit_width().unwrap_or(64) as u32;
                                    J::S((((x.val << b) as i128) >> b).to_string())
                                }
                                _ => J::S(x.val.to_string()),
                            }
                        } else { s("0") };
                        vs.push(J::O(vec![("name", s(name)), ("fields", J::A(fj)), ("d", d)]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn krate(&self, name: &str) -> Option<CrateNum> {
        if self.tcx.crate_name(LOCAL_CRATE).as_str() == name { return Some(LOCAL_CRATE); }
        self.tcx.crates(()).iter().copied().find(|c| self.tcx.crate_name(*c).as_str() == name)
    }
    fn defs(&self, c: CrateNum) -> Vec<DefId> {
        let tcx = self.tcx;
        if c == LOCAL_CRATE {
            tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).collect::<Vec<_>>()
                .into_iter().chain(tcx.mir_keys(()).iter().map(|d| d.to_def_id())).collect::<rustc_data_structures::fx::FxIndexSet<_>>().into_iter().collect()
        } else {
            let k = tcx.num_extern_def_ids(c);
            (0..k).map(|i| DefId { krate: c, index: DefIndex::from_usize(i) }).collect()
        }
    }
    // every function-like item of a crate (free fns, methods, closures)
    fn fns(&mut self, name: &str) -> J {
        let tcx = self.tcx;
        let Some(c) = self.krate(name) else { return J::Null };
        let mut out = vec![];
        for d in self.defs(c) {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            if !tcx.is_mir_available(d) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let root = tcx.typeck_root_def_id(d);
            let id = self.inst(inst, root, BodyKind::Mir);
            let mut o = vec![("path", s(path(tcx, d))), ("inst", n(id)), ("kind", s(format!("{:?}", k))), ("loc", s(self.loc(d)))];
            if !matches!(k, DefKind::Closure) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let inp: Vec<_> = sig.inputs().to_vec();
                let ins: Vec<J> = inp.into_iter().map(|t| { let t2 = tcx.erase_and_anonymize_regions(t); self.jty(t2) }).collect();
                let outt = tcx.erase_and_anonymize_regions(sig.output());
                o.push(("inputs", J::A(ins)));
                o.push(("output", self.jty(outt)));
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", s(tstr(tcx, st))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        o.push(("traitref", s(tstr(tcx, tr))));
                    }
                }
            }
            out.push(J::O(o));
        }
        J::A(out)
    }
    fn impls(&mut self, name: &str) -> J {
        let tcx = self.tcx;
        let Some(c) = self.krate(name) else { return J::Null };
        let mut out = vec![];
        for d in self.defs(c) {
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) { continue; }
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let preds: Vec<J> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.into_iter().map(|p| s(tstr(tcx, p.skip_norm_wip()))).collect();
            let mut o = vec![("self", s(tstr(tcx, st))), ("preds", J::A(preds)), ("loc", s(self.loc(d)))];
            if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                o.push(("traitref", s(tstr(tcx, tr))));
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(d))));
            out.push(J::O(o));
        }
        J::A(out)
    }

    // unsafe blocks, functions, impls and attributes written in the local crate
    fn unsafes(&mut self) -> J {
        let mut v = UnsafeVisitor { tcx: self.tcx, out: vec![] };
        self.tcx.hir_walk_toplevel_module(&mut v);
        let tcx = self.tcx;
        let bodies = tcx.hir_body_owners().count();
        J::O(vec![
            ("bodies", n(bodies)),
            ("found", J::A(v.out.into_iter().map(|(k, sp)| J::O(vec![("what", s(k)), ("loc", s(tcx.sess.source_map().span_to_diagnostic_string(sp)))])).collect())),
        ])
    }

    fn handle(&mut self, line: &str) -> J {
        let mut it = line.split_whitespace();
        match it.next() {
            Some("fns") => { let c = it.next().unwrap_or(""); self.fns(c) }
            Some("impls") => { let c = it.next().unwrap_or(""); self.impls(c) }
            // mk <fn path> <root inst> <ty>*: instantiate a local helper function
            Some("mk") => {
                let name = it.next().unwrap_or("").to_string();
                let r: usize = it.next().unwrap().parse().unwrap();
                let root = self.insts[r].1;
                let tys: Vec<Ty<'tcx>> = it.map(|x| self.tys[x.parse::<usize>().unwrap()]).collect();
                let tcx = self.tcx;
                let Some(d) = self.defs(LOCAL_CRATE).into_iter().find(|d| matches!(tcx.def_kind(*d), DefKind::Fn) && path(tcx, *d) == name) else { return J::Null };
                let mut k = 0;
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => { k += 1; tys[k - 1].into() }
                });
                let inst = Instance { def: InstanceKind::Item(d), args };
                n(self.inst(inst, root, BodyKind::Mir))
            }
            Some("unsafe") => self.unsafes(),
            Some("crates") => J::A(self.tcx.crates(()).iter().map(|c| s(self.tcx.crate_name(*c).to_string())).collect()),
            Some("body") => { let i: usize = it.next().unwrap().parse().unwrap(); self.body(i) }
            Some("ty") => {
                let i: usize = it.next().unwrap().parse().unwrap();
                let r: usize = it.next().unwrap().parse().unwrap();
                let root = self.insts[r].1;
                self.ty_info(i, root)
            }
            _ => J::Null,
        }
    }
}

struct UnsafeVisitor<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, rustc_span::Span)> }
impl<'tcx> UnsafeVisitor<'tcx> {
    fn hit(&mut self, what: &str, sp: rustc_span::Span) {
        if !sp.allows_unsafe() { self.out.push((what.to_string(), sp)); }
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.hit("unsafe block", b.span); }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_fn(&mut self, k: rustc_hir::intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, sp: rustc_span::Span, id: rustc_hir::def_id::LocalDefId) {
        if let Some(h) = k.header() { if h.is_unsafe() { self.hit("unsafe fn", sp); } }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => if let Some(h) = im.of_trait { if h.safety.is_unsafe() && !self.tcx.is_automatically_derived(i.owner_id.to_def_id()) { self.hit("unsafe impl", i.span); } },
            rustc_hir::ItemKind::Trait { safety, .. } => if safety.is_unsafe() { self.hit("unsafe trait", i.span); },
            rustc_hir::ItemKind::ForeignMod { .. } => self.hit("foreign functions", i.span),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.hit("assembly", i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
}

struct Cb { serve: bool }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !self.serve { return Compilation::Continue; }
        let mut srv = Srv { tcx, tys: vec![], ty_ids: HashMap::new(), insts: vec![], inst_ids: HashMap::new() };
        let so = std::io::stdout();
        { let mut w = so.lock(); writeln!(w, "\"READY\"").unwrap(); w.flush().unwrap(); }
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            if line == "quit" { break; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| srv.handle(&line)));
            let j = match r { Ok(j) => j, Err(_) => J::O(vec![("error", s("panic in query"))]) };
            let mut o = String::new();
            j.w(&mut o);
            o.push('\n');
            let mut w = so.lock();
            w.write_all(o.as_bytes()).unwrap();
            w.flush().unwrap();
        }
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let serve = std::env::var_os("VDRIVER_SERVE").is_some();
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { serve });
    })
}
