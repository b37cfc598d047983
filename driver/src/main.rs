//! mirdump: a rustc driver that type-checks a crate as usual and writes the
//! resolved program (types, MIR of every local body, evaluated constants,
//! resolved callees, public API, statics) as JSON.  Nothing of the analysed
//! crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::{s, u, J};
use rustc_abi::{FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, ConstAllocation, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};

/// `unsafe` blocks written in the source (not those of std macros), per body owner
struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<rustc_span::Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !from_std_macro(self.tcx, b.span) { self.out.push(b.span); }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_anon_const(&mut self, _c: &'tcx rustc_hir::AnonConst) {}
    fn visit_inline_const(&mut self, _c: &'tcx rustc_hir::ConstBlock) {}
}
fn from_std_macro(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> bool {
    sp.macro_backtrace().any(|e| e.macro_def_id.map(|d| ["std", "core", "alloc"].contains(&tcx.crate_name(d.krate).as_str())).unwrap_or(false))
}
fn auto<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, env: ty::ParamEnv<'tcx>, name: &str) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let did = match name { "Sync" => tcx.lang_items().sync_trait(), _ => tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")) };
    let Some(did) = did else { return true };
    let inf = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    inf.type_implements_trait(did, [t], env).must_apply_modulo_regions()
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashMap<String, ()>,
    bodies: Vec<(String, J)>,
    depth: usize,
    env: TypingEnv<'tcx>,
    consts: BTreeMap<String, J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d))))
}
fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str_with_args(d, a))))
}
fn tystr(t: Ty<'_>) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", t))))
}
fn span(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let l = sm.lookup_char_pos(sp.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

/// Library bodies worth exporting, so that the analysis can look through
/// small generic adaptors it has no model for.
fn lib_ok(p: &str) -> bool {
    const PFX: &[&str] = &[
        "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::",
        "core::bool::", "core::tuple::", "core::mem::take", "core::mem::replace", "core::array::",
        "<core::option::", "<core::result::", "<core::ops::", "<core::cmp::", "core::iter::",
        "<core::iter::", "core::slice::", "<core::slice::", "<core::array::", "core::range::",
    ];
    PFX.iter().any(|x| p.starts_with(x)) || (p.starts_with('<') && p.contains(" as core::ops::"))
        || (p.starts_with('<') && p.contains(" as core::convert::")) || (p.starts_with('<') && p.contains(" as core::cmp::"))
        || (p.starts_with('<') && p.contains(" as core::iter::"))
}

impl<'tcx> Cx<'tcx> {
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let base = path_args(self.tcx, i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(k) => { let n = format!("{:?}", k); format!("{}|{}", base, n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")) }
            o => { let n = format!("{:?}", o); format!("{}|{}", base, n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")) }
        }
    }
    fn enqueue(&mut self, i: Instance<'tcx>) -> Option<String> {
        let key = self.inst_key(i);
        if self.seen.contains_key(&key) { return Some(key); }
        let d = i.def_id();
        let InstanceKind::Item(_) = i.def else { return None; };
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) { return None; }
        if self.tcx.intrinsic(d).is_some() || self.tcx.is_foreign_item(d) { return None; }
        let local = d.is_local();
        let depth = if local { 0 } else { self.depth + 1 };
        if !local {
            let p = path(self.tcx, self.tcx.typeck_root_def_id(d));
            if depth > 8 || !lib_ok(&p) || !self.tcx.is_mir_available(d) { return None; }
        } else if !self.tcx.is_mir_available(d) { return None; }
        self.seen.insert(key.clone(), ());
        self.queue.push_back((i, depth));
        Some(key)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { u(self.tyid(t)) }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, id);
        let str_ = tystr(t);
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => obj! {"k" => s("bool")},
            ty::Char => obj! {"k" => s("char")},
            ty::Int(i) => obj! {"k" => s("int"), "n" => s(i.name_str())},
            ty::Uint(i) => obj! {"k" => s("uint"), "n" => s(i.name_str())},
            ty::Float(i) => obj! {"k" => s("float"), "n" => s(i.name_str())},
            ty::Str => obj! {"k" => s("str")},
            ty::Never => obj! {"k" => s("never")},
            ty::Ref(_, x, m) => obj! {"k" => s("ref"), "t" => self.ty(x), "mut" => J::B(m.is_mut())},
            ty::RawPtr(x, m) => obj! {"k" => s("ptr"), "t" => self.ty(x), "mut" => J::B(m.is_mut())},
            ty::Slice(x) => obj! {"k" => s("slice"), "t" => self.ty(x)},
            ty::Array(x, n) => obj! {"k" => s("array"), "t" => self.ty(x), "n" => n.try_to_target_usize(tcx).map(u).unwrap_or(J::Null)},
            ty::Tuple(ts) => { let v = ts.iter().map(|x| self.ty(x)).collect(); obj! {"k" => s("tuple"), "ts" => J::A(v)} }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs = v.fields.iter().map(|f| {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                        obj! {"name" => s(f.name.to_string()), "t" => self.ty(ft)}
                    }).collect();
                    let discr = if def.is_enum() { let d = def.discriminant_for_variant(tcx, vi); J::U(d.val) } else { J::U(0) };
                    vs.push(obj! {"name" => s(v.name.to_string()), "discr" => discr, "fields" => J::A(fs)});
                }
                let av = args.iter().filter_map(|a| a.as_type()).map(|x| self.ty(x)).collect();
                obj! {"k" => s("adt"), "path" => s(path(tcx, def.did())), "enum" => J::B(def.is_enum()), "union" => J::B(def.is_union()),
                      "args" => J::A(av), "variants" => J::A(vs), "local" => J::B(def.did().is_local())}
            }
            ty::FnDef(d, args) => { let args = args.no_bound_vars().unwrap(); self.fndef(d, args) }
            ty::Closure(d, args) => {
                let key = { let i = Instance::new_raw(d, args); self.enqueue(i).unwrap_or_else(|| self.inst_key(i)) };
                let up = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                obj! {"k" => s("closure"), "path" => s(path(tcx, d)), "key" => s(key), "up" => J::A(up), "kind" => s(format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind()))}
            }
            ty::FnPtr(..) => obj! {"k" => s("fnptr")},
            ty::Param(p) => obj! {"k" => s("param"), "n" => s(p.name.to_string())},
            ty::Dynamic(..) => obj! {"k" => s("dyn")},
            _ => obj! {"k" => s("other")},
        };
        let J::O(mut v) = j else { unreachable!() };
        v.push(("s".to_string(), s(str_)));
        self.types[id] = J::O(v);
        id
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|x| self.ty(x)).collect();
        let mut v = vec![
            ("k".to_string(), s("fndef")), ("path".to_string(), s(path(tcx, d))), ("args".to_string(), J::A(targs)),
            ("crate".to_string(), s(tcx.crate_name(d.krate).to_string())),
        ];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) { DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()), _ => (parent, tcx.item_name(parent).to_string()) };
            v.push(("ctor".to_string(), s(var)));
            v.push(("ctor_adt".to_string(), s(path(tcx, adt))));
            v.push(("key".to_string(), J::Null));
            return J::O(v);
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        v.push(("unsafe".to_string(), J::B(!sig.safety().is_safe())));
        if let Some(tr) = tcx.trait_of_assoc(d) { v.push(("trait".to_string(), s(path(tcx, tr)))); }
        let r = Instance::try_resolve(tcx, self.env, d, args);
        match r {
            Ok(Some(i)) => {
                let key = self.enqueue(i);
                v.push(("rpath".to_string(), s(path(tcx, i.def_id()))));
                let ra: Vec<J> = i.args.iter().filter_map(|a| a.as_type()).map(|x| self.ty(x)).collect();
                v.push(("rargs".to_string(), J::A(ra)));
                v.push(("rkind".to_string(), s(match i.def { InstanceKind::Item(_) => "item".to_string(), _ => self.inst_key(i).rsplit('|').next().unwrap().to_string() })));
                v.push(("key".to_string(), key.map(s).unwrap_or(J::Null)));
            }
            _ => v.push(("key".to_string(), J::Null)),
        }
        J::O(v)
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>, d: usize) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => { let sz = i.size(); J::O(vec![("v".into(), J::I(sz.sign_extend(bits)))]) }
                    ty::Uint(_) => J::O(vec![("v".into(), J::U(bits))]),
                    ty::Bool => J::O(vec![("b".into(), J::B(bits != 0))]),
                    ty::Char => J::O(vec![("c".into(), J::U(bits))]),
                    ty::Float(f) => J::O(vec![("f".into(), s(match f.bit_width() { 64 => format!("{:?}", f64::from_bits(bits as u64)), 32 => format!("{:?}", f32::from_bits(bits as u32)), _ => format!("bits{}", bits) }))]),
                    _ => J::O(vec![("raw".into(), J::U(bits))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointee(prov.alloc_id(), off, None, t, d)
            }
        }
    }
    fn pointee(&mut self, id: mir::interpret::AllocId, off: Size, meta: Option<u64>, t: Ty<'tcx>, d: usize) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let inst = match instance.def { InstanceKind::Item(_) => instance, _ => {
                    // closure adapter: take the closure itself
                    match instance.args.types().next().map(|x| *x.kind()) { Some(ty::Closure(cd, ca)) => Instance::new_raw(cd, ca), _ => instance } } };
                let clos = self.tcx.is_closure_like(inst.def_id());
                let k = self.enqueue(inst);
                obj! {"fn" => s(self.inst_key(inst)), "body" => J::B(k.is_some()), "closure" => J::B(clos), "path" => s(path(self.tcx, inst.def_id())), "span" => s(span(self.tcx, self.tcx.def_span(inst.def_id())))}
            }
            GlobalAlloc::Static(sd) if matches!(self.tcx.def_kind(sd), DefKind::Static { nested: true, mutability, .. } if !mutability.is_mut()) => {
                // anonymous allocation behind a named static
                let inner = match t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x, _ => return J::O(vec![("opaque".into(), s(tystr(t)))]) };
                match self.tcx.eval_static_initializer(sd) {
                    Ok(m) => { let v = self.read(m, off, inner, meta, d + 1); obj! {"ref" => v} }
                    Err(_) => J::O(vec![("opaque".into(), s(tystr(t)))]),
                }
            }
            GlobalAlloc::Static(sd) => obj! {"static" => s(path(self.tcx, sd))},
            GlobalAlloc::Memory(m) => {
                let inner = match t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x, _ => return J::O(vec![("opaque".into(), s(tystr(t)))]) };
                let v = self.read(m, off, inner, meta, d + 1);
                obj! {"ref" => v}
            }
            _ => J::O(vec![("opaque".into(), s(tystr(t)))]),
        }
    }
    fn read(&mut self, a: ConstAllocation<'tcx>, off: Size, t: Ty<'tcx>, meta: Option<u64>, d: usize) -> J {
        let tcx = self.tcx;
        if d > 24 { return J::O(vec![("opaque".into(), s("depth"))]); }
        match *t.kind() {
            ty::Str => {
                let n = meta.unwrap_or(0) as usize; let o = off.bytes_usize();
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                return J::O(vec![("str".into(), s(String::from_utf8_lossy(b).to_string()))]);
            }
            ty::Slice(e) => {
                let n = meta.unwrap_or(0);
                let sz = tcx.layout_of(self.env.as_query_input(e)).unwrap().size;
                let v = (0..n).map(|i| self.read(a, off + sz * i, e, None, d + 1)).collect();
                return J::O(vec![("arr".into(), J::A(v)), ("et".into(), self.ty(e))]);
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let sz = tcx.layout_of(self.env.as_query_input(e)).unwrap().size;
                let v = (0..n).map(|i| self.read(a, off + sz * i, e, None, d + 1)).collect();
                return J::O(vec![("arr".into(), J::A(v)), ("et".into(), self.ty(e))]);
            }
            _ => {}
        }
        let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("opaque".into(), s(tystr(t)))]) };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match a.inner().read_scalar(&tcx, AllocRange { start: off, size: lay.size }, false) { Ok(sc) => self.scalar(sc, t, d), Err(_) => J::O(vec![("uninit".into(), J::B(true))]) }
            }
            ty::FnPtr(..) => match a.inner().read_scalar(&tcx, AllocRange { start: off, size: lay.size }, true) { Ok(sc) => self.scalar(sc, t, d), Err(_) => J::O(vec![("uninit".into(), J::B(true))]) },
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let ps = tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&tcx, AllocRange { start: off, size: ps }, true);
                let fat = matches!(x.kind(), ty::Str | ty::Slice(_));
                let meta = if fat { a.inner().read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false).ok().and_then(|m| m.to_target_usize(&tcx).discard_err()) } else { None };
                match p { Ok(Scalar::Ptr(p, _)) => { let (pr, o) = p.prov_and_relative_offset(); self.pointee(pr.alloc_id(), o, meta, t, d) } _ => J::O(vec![("opaque".into(), s("intptr"))]) }
            }
            ty::Tuple(ts) => {
                let v = ts.iter().enumerate().map(|(i, x)| self.read(a, off + lay.fields.offset(i), x, None, d + 1)).collect();
                J::O(vec![("tup".into(), J::A(v))])
            }
            ty::Adt(def, args) => {
                if def.is_union() { return J::O(vec![("opaque".into(), s(tystr(t)))]); }
                let vi = match self.variant(a, off, lay.layout, def) { Some(v) => v, None => return J::O(vec![("opaque".into(), s(format!("bad discriminant {}", tystr(t))))]) };
                let v = def.variant(vi);
                let offs: Vec<Size> = match &lay.variants {
                    Variants::Multiple { variants, .. } => v.fields.indices().map(|i| variants[vi].field_offsets[i]).collect(),
                    _ => match &lay.fields { FieldsShape::Arbitrary { .. } => v.fields.indices().map(|i| lay.fields.offset(i.as_usize())).collect(), _ => v.fields.indices().map(|_| Size::ZERO).collect() },
                };
                let fs = v.fields.iter().zip(offs).map(|(f, o)| {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                    self.read(a, off + o, ft, None, d + 1)
                }).collect();
                obj! {"adt" => s(path(tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "fs" => J::A(fs), "t" => self.ty(t)}
            }
            ty::FnDef(..) | ty::Closure(..) => J::O(vec![("zst".into(), self.ty(t))]),
            _ => J::O(vec![("opaque".into(), s(tystr(t)))]),
        }
    }
    fn variant(&self, a: ConstAllocation<'tcx>, off: Size, lay: rustc_abi::Layout<'tcx>, def: ty::AdtDef<'tcx>) -> Option<VariantIdx> {
        let tcx = self.tcx;
        match &lay.0.variants {
            Variants::Empty => None,
            Variants::Single { index } => Some(*index),
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let to = lay.0.fields.offset(tag_field.as_usize());
                let sz = tag.size(&tcx);
                let sc = a.inner().read_scalar(&tcx, AllocRange { start: off + to, size: sz }, matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_))).ok()?;
                let (bits, isptr) = match sc { Scalar::Int(i) => (i.to_bits(i.size()), false), Scalar::Ptr(..) => (0, true) };
                match tag_encoding {
                    TagEncoding::Direct => {
                        variants.indices().find(|v| sz.truncate(def.discriminant_for_variant(tcx, *v).val) == bits)
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if isptr { return Some(*untagged_variant); }
                        let mask = if sz.bits() >= 128 { u128::MAX } else { (1u128 << sz.bits()) - 1 };
                        let rel = bits.wrapping_sub(*niche_start) & mask;
                        let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                        if rel <= n { Some(VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)) } else { Some(*untagged_variant) }
                    }
                }
            }
        }
    }
    fn constant(&mut self, cv: ConstValue, t: Ty<'tcx>) -> J {
        match cv {
            ConstValue::Scalar(sc) => match t.kind() {
                ty::Adt(def, args) => {
                    // newtype-like or fieldless enum stored as a scalar
                    let tcx = self.tcx;
                    let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("opaque".into(), s(tystr(t)))]) };
                    if let Scalar::Int(i) = sc {
                        let bits = i.to_bits(i.size());
                        if def.is_enum() {
                            match &lay.variants {
                                Variants::Multiple { tag_encoding: TagEncoding::Direct, .. } if def.variants().iter().all(|v| v.fields.is_empty()) => {
                                    for (vi, v) in def.variants().iter_enumerated() {
                                        let dv = def.discriminant_for_variant(tcx, vi).val;
                                        let m = i.size().truncate(dv);
                                        if m == bits { return obj! {"adt" => s(path(tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "fs" => J::A(vec![]), "t" => self.ty(t)}; }
                                    }
                                }
                                Variants::Multiple { tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                                    let mask = if i.size().bits() >= 128 { u128::MAX } else { (1u128 << i.size().bits()) - 1 };
                                    let rel = bits.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    let vi = if rel <= n { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant };
                                    let v = def.variant(vi);
                                    if v.fields.is_empty() { return obj! {"adt" => s(path(tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "fs" => J::A(vec![]), "t" => self.ty(t)}; }
                                    if v.fields.len() == 1 {
                                        let ft = v.fields.iter().next().unwrap().ty(tcx, args);
                                        if let Ok(ft) = tcx.try_normalize_erasing_regions(self.env, ft) { let f = self.scalar(sc, ft, 0); return obj! {"adt" => s(path(tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "fs" => J::A(vec![f]), "t" => self.ty(t)}; }
                                    }
                                }
                                _ => {}
                            }
                            return obj! {"opaque" => s(tystr(t)), "bits" => J::U(bits)};
                        }
                    }
                    if def.is_struct() {
                        let v = def.non_enum_variant();
                        let fs: Vec<J> = v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args);
                            let Ok(ft) = tcx.try_normalize_erasing_regions(self.env, ft) else { return J::Null };
                            let z = tcx.layout_of(self.env.as_query_input(ft)).map(|l| l.is_zst()).unwrap_or(false);
                            if z { J::O(vec![("zst".into(), self.ty(ft))]) } else { self.constant(ConstValue::Scalar(sc), ft) }
                        }).collect();
                        return obj! {"adt" => s(path(tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(0usize), "fs" => J::A(fs), "t" => self.ty(t)};
                    }
                    J::O(vec![("opaque".into(), s(tystr(t)))])
                }
                ty::Tuple(ts) if ts.len() >= 1 => {
                    let fs = ts.iter().map(|x| { let z = self.tcx.layout_of(self.env.as_query_input(x)).map(|l| l.is_zst()).unwrap_or(false); if z { J::O(vec![("zst".into(), self.ty(x))]) } else { self.constant(ConstValue::Scalar(sc), x) } }).collect();
                    J::O(vec![("tup".into(), J::A(fs))])
                }
                _ => self.scalar(sc, t, 0),
            },
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(..) | ty::Closure(..) => J::O(vec![("zst".into(), self.ty(t))]),
                ty::Adt(def, _) => match def.variants().iter_enumerated().next() { Some((vi, v)) => obj! {"adt" => s(path(self.tcx, def.did())), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "fs" => J::A(vec![]), "t" => self.ty(t)}, None => J::O(vec![("opaque".into(), s(tystr(t)))]) },
                ty::Tuple(ts) => { let v = ts.iter().map(|x| self.constant(ConstValue::ZeroSized, x)).collect(); J::O(vec![("tup".into(), J::A(v))]) }
                ty::Array(e, _) => J::O(vec![("arr".into(), J::A(vec![])), ("et".into(), self.ty(*e))]),
                _ => J::O(vec![("zst".into(), self.ty(t))]),
            },
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, Size::ZERO, Some(meta), t, 0),
            ConstValue::Indirect { alloc_id, offset } => {
                let m = self.tcx.global_alloc(alloc_id).unwrap_memory();
                self.read(m, offset, t, None, 0)
            }
        }
    }
    fn const_op(&mut self, c: &mir::Const<'tcx>, sp: rustc_span::Span) -> J {
        let t = c.ty();
        let mut src = J::Null;
        if let mir::Const::Unevaluated(uv, _) = c { if uv.promoted.is_none() { src = s(path(self.tcx, uv.def)); } }
        let v = match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => J::O(vec![("zst".into(), self.ty(t))]),
            _ => match c.eval(self.tcx, self.env, sp) { Ok(cv) => {
                if let J::S(p) = &src {
                    // named constants are exported once
                    if !self.consts.contains_key(p) { let v = self.constant(cv, t); let tid = self.ty(t); self.consts.insert(p.clone(), obj! {"t" => tid, "v" => v}); }
                    J::O(vec![("named".into(), s(p.clone()))])
                } else { self.constant(cv, t) }
            }, Err(_) => J::O(vec![("uneval".into(), s(tystr(t)))]) },
        };
        obj! {"o" => s("c"), "t" => self.ty(t), "v" => v, "src" => src}
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("*")]),
                mir::ProjectionElem::Field(f, t) => J::A(vec![s("f"), u(f.as_usize()), self.ty(t)]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), u(offset), J::B(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), u(from), u(to), J::B(from_end)]),
                mir::ProjectionElem::Downcast(n, v) => J::A(vec![s("d"), u(v.as_usize()), s(n.map(|x| x.to_string()).unwrap_or_default())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![u(p.local.as_usize()), J::A(pr)])
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => obj! {"o" => s("cp"), "p" => self.place(p)},
            mir::Operand::Move(p) => obj! {"o" => s("mv"), "p" => self.place(p)},
            mir::Operand::Constant(c) => self.const_op(&c.const_, c.span),
            x => obj! {"o" => s("rt"), "s" => s(format!("{:?}", x))},
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        match r {
            mir::Rvalue::Use(o, _) => obj! {"r" => s("use"), "a" => self.operand(o)},
            mir::Rvalue::Repeat(o, n) => obj! {"r" => s("repeat"), "a" => self.operand(o), "n" => n.try_to_target_usize(self.tcx).map(u).unwrap_or(J::Null)},
            mir::Rvalue::Ref(_, k, p) => obj! {"r" => s("ref"), "p" => self.place(p), "mut" => J::B(matches!(k, mir::BorrowKind::Mut { .. }))},
            mir::Rvalue::RawPtr(_, p) => obj! {"r" => s("rawptr"), "p" => self.place(p)},
            mir::Rvalue::Cast(k, o, t) => obj! {"r" => s("cast"), "k" => s(format!("{:?}", k)), "a" => self.operand(o), "t" => self.ty(*t)},
            mir::Rvalue::BinaryOp(op, ab) => obj! {"r" => s("bin"), "op" => s(format!("{:?}", op)), "a" => self.operand(&ab.0), "b" => self.operand(&ab.1)},
            mir::Rvalue::UnaryOp(op, a) => obj! {"r" => s("un"), "op" => s(format!("{:?}", op)), "a" => self.operand(a)},
            mir::Rvalue::Discriminant(p) => obj! {"r" => s("discr"), "p" => self.place(p)},
            mir::Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => obj! {"a" => s("array"), "t" => self.ty(*t)},
                    mir::AggregateKind::Tuple => obj! {"a" => s("tuple")},
                    mir::AggregateKind::Adt(d, vi, _args, _, f) => {
                        let def = self.tcx.adt_def(*d); let v = def.variant(*vi);
                        obj! {"a" => s("adt"), "path" => s(path(self.tcx, *d)), "var" => s(v.name.to_string()), "vi" => u(vi.as_usize()), "uf" => f.map(|x| u(x.as_usize())).unwrap_or(J::Null)}
                    }
                    mir::AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); obj! {"a" => s("closure"), "t" => self.ty(t)} }
                    x => obj! {"a" => s("other"), "s" => s(format!("{:?}", x))},
                };
                obj! {"r" => s("agg"), "k" => kj, "ops" => J::A(v)}
            }
            mir::Rvalue::CopyForDeref(p) => obj! {"r" => s("use"), "a" => obj! {"o" => s("cp"), "p" => self.place(p)}},
            mir::Rvalue::ThreadLocalRef(d) => obj! {"r" => s("tls"), "path" => s(path(self.tcx, *d))},
            x => obj! {"r" => s("other"), "s" => s(format!("{:?}", x))},
        }
    }
    fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let body0 = if tcx.is_const_fn(d) || matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) { tcx.instance_mir(inst.def) } else { tcx.mir_for_ctfe(d) };
        let generic = tcx.generics_of(d).requires_monomorphization(tcx) && { use rustc_middle::ty::TypeVisitableExt; inst.args.has_param() };
        self.env = if generic { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body0.clone())) { Ok(b) => b, Err(_) => return None };
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<J> = vec![J::Null; locals.len()];
        for v in &body.var_debug_info { if let mir::VarDebugInfoContents::Place(p) = v.value { if let Some(l) = p.as_local() { names[l.as_usize()] = s(v.name.to_string()); } } }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(b) => { let (p, r) = &**b; st.push(obj! {"p" => self.place(p), "rv" => self.rvalue(r)}); }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => st.push(obj! {"p" => self.place(place), "setd" => u(variant_index.as_usize())}),
                    mir::StatementKind::Intrinsic(i) => st.push(obj! {"intr" => s(format!("{:?}", i))}),
                    mir::StatementKind::StorageDead(l) => st.push(obj! {"dead" => u(l.as_usize())}),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = s(span(tcx, t.source_info.span));
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => obj! {"t" => s("goto"), "to" => u(target.as_usize())},
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vs = targets.iter().map(|(v, b)| J::A(vec![J::U(v), u(b.as_usize())])).collect();
                    obj! {"t" => s("switch"), "d" => self.operand(discr), "dt" => self.ty(dt), "vs" => J::A(vs), "else" => u(targets.otherwise().as_usize()), "sp" => sp}
                }
                mir::TerminatorKind::Return => obj! {"t" => s("ret")},
                mir::TerminatorKind::Unreachable => obj! {"t" => s("unreachable")},
                mir::TerminatorKind::Drop { place, target, .. } => { let pt = place.ty(&body.local_decls, tcx).ty; obj! {"t" => s("drop"), "p" => self.place(place), "pt" => self.ty(pt), "to" => u(target.as_usize())} }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    obj! {"t" => s("call"), "f" => self.operand(func), "ft" => self.ty(ft), "args" => J::A(a), "at" => J::A(at), "dst" => self.place(destination), "dt" => self.ty(dt), "to" => target.map(|b| u(b.as_usize())).unwrap_or(J::Null), "sp" => sp}
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (&str, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(len), self.operand(index)]),
                        mir::AssertKind::Overflow(_, a, b) => ("overflow", vec![self.operand(a), self.operand(b)]),
                        mir::AssertKind::OverflowNeg(a) => ("overflow_neg", vec![self.operand(a)]),
                        mir::AssertKind::DivisionByZero(a) => ("div0", vec![self.operand(a)]),
                        mir::AssertKind::RemainderByZero(a) => ("rem0", vec![self.operand(a)]),
                        _ => ("other", vec![]),
                    };
                    obj! {"t" => s("assert"), "c" => self.operand(cond), "exp" => J::B(*expected), "msg" => s(m), "ops" => J::A(ops), "to" => u(target.as_usize()), "sp" => sp}
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => obj! {"t" => s("goto"), "to" => u(real_target.as_usize())},
                mir::TerminatorKind::FalseUnwind { real_target, .. } => obj! {"t" => s("goto"), "to" => u(real_target.as_usize())},
                x => obj! {"t" => s("other"), "s" => s(format!("{:?}", x)), "sp" => sp},
            };
            blocks.push(obj! {"s" => J::A(st), "t" => tj});
        }
        Some(obj! {
            "path" => s(path(tcx, d)), "local" => J::B(d.is_local()), "span" => s(span(tcx, tcx.def_span(d))), "generic" => J::B(generic),
            "closure" => J::B(tcx.is_closure_like(d)), "argc" => u(body.arg_count), "spread" => body.spread_arg.map(|l| u(l.as_usize())).unwrap_or(J::Null),
            "locals" => J::A(locals), "names" => J::A(names), "blocks" => J::A(blocks)
        })
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), queue: VecDeque::new(), seen: HashMap::new(), bodies: vec![], depth: 0, env: TypingEnv::fully_monomorphized(), consts: BTreeMap::new() };
        let eff = tcx.effective_visibilities(());
        let mut fns = vec![]; let mut statics = vec![]; let mut adts = vec![]; let mut unsafes = vec![];
        let mut all: Vec<rustc_hir::def_id::LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        for c in tcx.hir_body_owners() { if matches!(tcx.def_kind(c), DefKind::Closure) && !all.contains(&c) { all.push(c); } }
        for ld in all {
            let d = ld.to_def_id();
            // closures of constants and statics (rule functions, lazy initialisers) run at run time
            let free_closure = matches!(tcx.def_kind(d), DefKind::Closure) && !matches!(tcx.def_kind(tcx.typeck_root_def_id(d)), DefKind::Fn | DefKind::AssocFn);
            if free_closure && matches!(tcx.def_kind(tcx.typeck_root_def_id(d)), DefKind::Static { .. }) {
                if let ty::Closure(cd, args) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() { cx.env = TypingEnv::fully_monomorphized(); cx.enqueue(Instance::new_raw(*cd, args)); }
            }
            if free_closure || matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.is_mir_available(d) {
                use rustc_hir::intravisit::Visitor;
                let mut un = Unsafe { tcx, out: vec![] };
                if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                    un.visit_body(b);
                    if !free_closure && !tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_safe() { un.out.push(b.value.span); }
                }
                if !un.out.is_empty() {
                    let mut ids = vec![d];
                    if !free_closure { for c in tcx.hir_body_owners() { if matches!(tcx.def_kind(c), DefKind::Closure) && tcx.typeck_root_def_id(c.to_def_id()) == d { ids.push(c.to_def_id()); } } }
                    for id in ids {
                        let m = tcx.optimized_mir(id);
                        let mut hit = |sp: rustc_span::Span, what: String| {
                            if from_std_macro(tcx, sp) { return; }
                            if un.out.iter().any(|b| b.lo() <= sp.lo() && sp.hi() <= b.hi()) { unsafes.push(obj! {"fn" => s(path(tcx, d)), "what" => s(what), "span" => s(span(tcx, sp))}); }
                        };
                        for bb in m.basic_blocks.iter() {
                            for st in &bb.statements {
                                if let mir::StatementKind::Intrinsic(i) = &st.kind { hit(st.source_info.span, format!("unsafe intrinsic {i:?}")); }
                                if let mir::StatementKind::Assign(b) = &st.kind {
                                    let mut ps = vec![b.0];
                                    match &b.1 { mir::Rvalue::Ref(_, _, p) | mir::Rvalue::RawPtr(_, p) | mir::Rvalue::Discriminant(p) => ps.push(*p),
                                        mir::Rvalue::Use(o, ..) | mir::Rvalue::Cast(_, o, _) | mir::Rvalue::UnaryOp(_, o) => if let Some(p) = o.place() { ps.push(p) },
                                        mir::Rvalue::BinaryOp(_, x) => { for o in [&x.0, &x.1] { if let Some(p) = o.place() { ps.push(p) } } }
                                        _ => {} }
                                    if let mir::Rvalue::Cast(mir::CastKind::Transmute, ..) = &b.1 { hit(st.source_info.span, "transmute".into()); }
                                    if let mir::Rvalue::BinaryOp(op, _) = &b.1 { use mir::BinOp::*; if matches!(op, AddUnchecked | SubUnchecked | MulUnchecked | ShlUnchecked | ShrUnchecked) { hit(st.source_info.span, format!("unchecked arithmetic ({op:?})")); } }
                                    for p in ps {
                                        for (base, el) in p.iter_projections() {
                                            let t = base.ty(&m.local_decls, tcx).ty;
                                            if matches!(el, mir::ProjectionElem::Deref) && t.is_raw_ptr() { hit(st.source_info.span, "dereference of a raw pointer".into()); }
                                            if matches!(el, mir::ProjectionElem::Field(..)) && t.is_union() { hit(st.source_info.span, "access of a union field".into()); }
                                        }
                                    }
                                }
                            }
                            let t = bb.terminator();
                            match &t.kind {
                                mir::TerminatorKind::Call { func, .. } => {
                                    let ft = func.ty(&m.local_decls, tcx);
                                    if ft.is_fn() && !ft.fn_sig(tcx).safety().is_safe() { hit(t.source_info.span, format!("call of unsafe {}", tystr(ft))); }
                                }
                                mir::TerminatorKind::InlineAsm { .. } => hit(t.source_info.span, "inline assembly".into()),
                                _ => {}
                            }
                        }
                    }
                }
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) { continue; }
                    let i = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
                    let key = cx.inst_key(i); cx.enqueue(i);
                    let imp = tcx.impl_of_assoc(d);
                    let tr = imp.and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!({ use rustc_middle::ty::print::PrintTraitRefExt; format!("{}", t.instantiate_identity().skip_norm_wip().print_only_trait_path()) }))));
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let derived = imp.map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
                    fns.push(obj! {"path" => s(path(tcx, d)), "key" => s(key), "pub" => J::B(eff.is_exported(ld)), "const" => J::B(tcx.is_const_fn(d)),
                        "impl_self" => imp.map(|i| s(tystr(tcx.type_of(i).instantiate_identity().skip_norm_wip()))).unwrap_or(J::Null),
                        "impl_trait" => tr.map(s).unwrap_or(J::Null), "unsafe" => J::B(!sig.safety().is_safe()), "derived" => J::B(derived),
                        "name" => s(tcx.item_name(d).to_string()), "span" => s(span(tcx, tcx.def_span(d)))});
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized(); cx.env = env;
                    let frz = t.is_freeze(tcx, env);
                    let v = match tcx.eval_static_initializer(d) { Ok(a) => cx.read(a, Size::ZERO, t, None, 0), Err(_) => J::Null };
                    statics.push(obj! {"path" => s(path(tcx, d)), "t" => cx.ty(t), "mut" => J::B(mutability.is_mut()), "freeze" => J::B(frz), "tls" => J::B(tcx.is_thread_local_static(d)), "v" => v, "pub" => J::B(eff.is_exported(ld)), "span" => s(span(tcx, tcx.def_span(d)))});
                }
                DefKind::Const { .. } => {
                    if tcx.generics_of(d).own_requires_monomorphization() { continue; }
                    cx.env = TypingEnv::fully_monomorphized();
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(d) { let p = path(tcx, d); let v = cx.constant(v, t); let tid = cx.ty(t); cx.consts.insert(p, obj! {"t" => tid, "v" => v, "pub" => J::B(eff.is_exported(ld)), "span" => s(span(tcx, tcx.def_span(d)))}); }
                }
                DefKind::Struct | DefKind::Enum => {
                    cx.env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    adts.push(obj! {"path" => s(path(tcx, d)), "t" => cx.ty(t), "pub" => J::B(eff.is_exported(ld)), "send" => J::B(auto(tcx, t, tcx.param_env(d), "Send")), "sync" => J::B(auto(tcx, t, tcx.param_env(d), "Sync")), "freeze" => J::B(t.is_freeze(tcx, cx.env)), "span" => s(span(tcx, tcx.def_span(d)))});
                }
                _ => {}
            }
        }
        while let Some((i, depth)) = cx.queue.pop_front() {
            cx.depth = depth;
            let key = cx.inst_key(i);
            if let Some(b) = cx.body(i) { cx.bodies.push((key, b)); }
        }
        let dest = std::path::Path::new(&out).join(format!("{}{}.json", krate, if is_bin { "-bin" } else { "" }));
        let cs: Vec<(String, J)> = cx.consts.into_iter().collect();
        let j = obj! {"crate" => s(krate), "bin" => J::B(is_bin), "fns" => J::A(fns), "statics" => J::A(statics), "adts" => J::A(adts), "unsafe" => J::A(unsafes),
            "consts" => J::O(cs), "types" => J::A(cx.types), "bodies" => J::O(cx.bodies)};
        let mut o = String::new(); j.write(&mut o);
        std::fs::write(dest, o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) { args.remove(1); }
    if std::env::var("MIRDUMP_OUT").is_ok() { args.push("-Zmir-opt-level=0".into()); args.push("-Zub-checks=no".into()); }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Dump);
}
