// Fact extractor: a rustc driver that type-checks a crate of /repo exactly as
// cargo does and writes the resolved MIR of every local function (and of every
// function reachable from it whose body is visible) as JSON lines.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_session;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Dump {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn path_of(tcx: TyCtxt<'_>, did: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(did))))
}

fn ty_str(ty: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(ty.to_string())))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    inst: Instance<'tcx>,
    root: Option<DefId>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(Key<'tcx>, usize)>,
    adts: HashMap<String, String>,
    out: Dump,
    allow: Vec<String>,
}

const WHITELIST: &[&str] = &[
    "core::option::Option",
    "<core::option::Option",
    "core::result::Result",
    "<core::result::Result",
    "core::ops::control_flow",
    "<core::ops::control_flow",
    "core::ops::function",
    "core::bool::",
    "<T as core::convert",
    "core::convert::",
    "<bool as",
    "bool::",
    "core::cmp::min",
    "core::cmp::max",
];

const DENY: &[&str] = &[
    "PartialEq", "PartialOrd", "::cmp::", "Iterator", "IntoIterator", "Debug", "Display", "Hash",
];

impl<'tcx> Cx<'tcx> {
    fn expand(&self, inst: Instance<'tcx>) -> bool {
        let did = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Virtual(..) | ty::InstanceKind::Intrinsic(_) => return false,
            _ => {
                let s = format!("{:?}", inst.def);
                return s.starts_with("ClosureOnceShim")
                    || s.starts_with("FnPtrShim")
                    || s.starts_with("Shim(ClosureOnce")
                    || s.starts_with("Shim(FnPtr");
            }
        }
        let tcx = self.tcx;
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            return false;
        }
        if tcx.is_foreign_item(did) || !tcx.is_mir_available(did) {
            return false;
        }
        if did.is_local() {
            return true;
        }
        let krate = tcx.crate_name(did.krate);
        if self.allow.iter().any(|a| a == krate.as_str()) {
            return true;
        }
        let p = path_of(tcx, did);
        if DENY.iter().any(|d| p.contains(d)) {
            return false;
        }
        if WHITELIST.iter().any(|w| p.starts_with(w)) {
            return true;
        }
        // inherent/trait impls on Option/Result
        if let Some(imp) = tcx.inherent_impl_of_assoc(did).or_else(|| tcx.trait_impl_of_assoc(did)) {
            let st = ty_str(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            if st.starts_with("core::option::Option")
                || st.starts_with("core::result::Result")
                || st.starts_with("core::ops::control_flow::ControlFlow")
            {
                return true;
            }
        }
        false
    }

    fn id_for(&mut self, inst: Instance<'tcx>, root: DefId) -> usize {
        let has_param = inst.args.has_param();
        let k = Key { inst, root: if has_param { Some(root) } else { None } };
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert(k, i);
        self.queue.push_back((Key { inst, root: Some(root) }, i));
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let name = path_of(self.tcx, def.did());
        if self.adts.contains_key(&name) {
            return name;
        }
        let mut s = String::new();
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let _ = write!(s, "{{\"k\":\"adt\",\"name\":{},\"kind\":\"{}\",\"variants\":[", esc(&name), kind);
        let tcx = self.tcx;
        for (i, v) in def.variants().iter_enumerated() {
            if i.as_usize() > 0 {
                s.push(',');
            }
            let d = if def.is_enum() { def.discriminant_for_variant(tcx, i).val.to_string() } else { "0".into() };
            let _ = write!(s, "{{\"n\":{},\"d\":\"{}\",\"f\":[", esc(v.name.as_str()), d);
            for (j, f) in v.fields.iter_enumerated() {
                if j.as_usize() > 0 {
                    s.push(',');
                }
                s.push_str(&esc(f.name.as_str()));
            }
            s.push_str("]}");
        }
        s.push(']');
        if tcx.generics_of(def.did()).count() == 0 {
            let t = tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
            if let Ok(l) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)) {
                let _ = write!(s, ",\"size\":{}", l.size.bytes());
            }
        }
        s.push('}');
        self.adts.insert(name.clone(), s);
        name
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                mir::ProjectionElem::Deref => s.push_str(",\"*\""),
                mir::ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if vi.as_usize() < def.variants().len() {
                            let v = def.variant(vi);
                            if f.as_usize() < v.fields.len() {
                                name = v.fields[f].name.to_string();
                            }
                        }
                        self.adt(*def);
                    }
                    let _ = write!(s, ",[\"f\",{}]", esc(&name));
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                mir::ProjectionElem::Downcast(n, vi) => {
                    let name = if let ty::Adt(def, _) = pt.ty.kind() {
                        self.adt(*def);
                        def.variant(vi).name.to_string()
                    } else {
                        n.map(|n| n.to_string()).unwrap_or_else(|| vi.as_usize().to_string())
                    };
                    let _ = write!(s, ",[\"v\",{}]", esc(&name));
                }
                _ => s.push_str(",\"?\""),
            }
            pt = pt.projection_ty(self.tcx, elem);
        }
        s.push(']');
        s
    }

    fn fn_ref(&mut self, env: ty::TypingEnv<'tcx>, root: DefId, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::from("{");
        let p = path_of(tcx, def);
        let _ = write!(s, "\"path\":{}", esc(&p));
        let argstr = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| esc(&ty_str(t)))
            .collect::<Vec<_>>()
            .join(",");
        let _ = write!(s, ",\"targs\":[{}]", argstr);
        let mut rustcall = false;
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(s, ",\"trait\":{},\"method\":{}", esc(&path_of(tcx, tr)), esc(tcx.item_name(def).as_str()));
            if tcx.fn_trait_kind_from_def_id(tr).is_some() {
                rustcall = true;
            }
        }
        if rustcall {
            s.push_str(",\"rustcall\":true");
        }
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            // tuple struct / variant constructor
            let parent = tcx.parent(def);
            let (adt_did, vname) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            let ad = tcx.adt_def(adt_did);
            let n = self.adt(ad);
            let _ = write!(s, ",\"ctor\":[{},{}]}}", esc(&n), esc(&vname));
            return s;
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, def, args)));
        if let Ok(Ok(Some(inst))) = res {
            let rp = path_of(tcx, inst.def_id());
            if rp != p {
                let _ = write!(s, ",\"res\":{}", esc(&rp));
            }
            if let ty::InstanceKind::Virtual(..) = inst.def {
                s.push_str(",\"virtual\":true");
            } else if self.expand(inst) {
                let id = self.id_for(inst, root);
                let _ = write!(s, ",\"inst\":{}", id);
            }
        }
        s.push('}');
        s
    }

    fn bytes_of(&self, alloc_id: rustc_middle::mir::interpret::AllocId, start: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc_id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let st = start as usize;
                let en = st + len as usize;
                if en > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(st..en).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, env: ty::TypingEnv<'tcx>, root: DefId, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        if let ty::FnDef(def, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| tcx.erase_and_anonymize_regions(*args).skip_binder());
            let f = self.fn_ref(env, root, *def, args);
            return format!("[\"fn\",{}]", f);
        }
        let mut name = String::from("null");
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = esc(&path_of(tcx, u.def));
            } else {
                name = esc(&format!("{}#{:?}", path_of(tcx, u.def), u.promoted.unwrap()));
            }
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            name = esc(&format!("{}", ct));
        }
        let tys = esc(&ty_str(ty));
        let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        let v = match val {
            Ok(Ok(v)) => self.const_value(v, ty),
            _ => "null".to_string(),
        };
        // aggregated constants (promoted enums / structs)
        let mut extra = String::from("null");
        if let Ok(Ok(cv)) = val {
            extra = self.destructure(cv, ty, 0).unwrap_or("null".into());
        }
        format!("[\"c\",{},{},{},{}]", tys, v, name, extra)
    }

    fn const_value(&mut self, v: mir::ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match ty.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let sh = 128 - sz;
                        let sv = ((bits << sh) as i128) >> sh;
                        format!("\"{}\"", sv)
                    }
                    ty::Bool => format!("\"{}\"", if bits != 0 { "true" } else { "false" }),
                    ty::Float(_) => {
                        let f = if i.size().bits() == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
                        esc(&format!("{}", f))
                    }
                    _ => format!("\"{}\"", bits),
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => match self.bytes_of(alloc_id, 0, meta) {
                Some(b) => {
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if inner.is_str() {
                            return format!("[\"s\",{}]", esc(&String::from_utf8_lossy(&b)));
                        }
                    }
                    format!("[\"b\",{:?}]", b)
                }
                None => "null".into(),
            },
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // reference to a sized value: try [u8; N]
                if let ty::Ref(_, inner, _) = ty.kind() {
                    if let ty::Array(t, n) = inner.kind() {
                        if *t == tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), n) {
                                    return format!("[\"b\",{:?}]", b);
                                }
                            }
                        }
                    }
                }
                "null".into()
            }
            mir::ConstValue::ZeroSized => "\"zst\"".into(),
            mir::ConstValue::Indirect { .. } => "null".into(),
        }
    }

    fn destructure(&mut self, v: mir::ConstValue, ty: Ty<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        if depth > 4 || ty.has_param() {
            return None;
        }
        match ty.kind() {
            ty::Adt(def, _) if def.is_enum() || def.is_struct() => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, ty)
                }));
                let d = r.ok()??;
                let n = self.adt(*def);
                let vi = d.variant?;
                let vn = def.variant(vi).name.to_string();
                let mut fs = Vec::new();
                for (cv, t) in d.fields.iter() {
                    let val = self.const_value(*cv, *t);
                    let ex = self.destructure(*cv, *t, depth + 1).unwrap_or("null".into());
                    fs.push(format!("[\"c\",{},{},null,{}]", esc(&ty_str(*t)), val, ex));
                }
                Some(format!("[\"agg\",{},{},[{}]]", esc(&n), esc(&vn), fs.join(",")))
            }
            ty::Tuple(_) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, ty)
                }));
                let d = r.ok()??;
                let mut fs = Vec::new();
                for (cv, t) in d.fields.iter() {
                    let val = self.const_value(*cv, *t);
                    let ex = self.destructure(*cv, *t, depth + 1).unwrap_or("null".into());
                    fs.push(format!("[\"c\",{},{},null,{}]", esc(&ty_str(*t)), val, ex));
                }
                Some(format!("[\"tuple\",\"\",\"\",[{}]]", fs.join(",")))
            }
            ty::Ref(_, inner, _) => {
                // promoted &Enum / &Struct
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    if !inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                        return None;
                    }
                    let (prov, off) = p.prov_and_relative_offset();
                    let alloc_id = prov.alloc_id();
                    if !matches!(tcx.try_get_global_alloc(alloc_id)?, GlobalAlloc::Memory(_)) {
                        return None;
                    }
                    let layout = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(*inner)).ok()?;
                    if let rustc_abi::BackendRepr::Scalar(sc) = layout.backend_repr {
                        // read scalar bytes
                        let sz = sc.size(&tcx).bytes();
                        let b = self.bytes_of(alloc_id, off.bytes(), sz)?;
                        if let rustc_abi::Primitive::Int(..) = sc.primitive() {
                            let mut x: u128 = 0;
                            for (i, by) in b.iter().enumerate() {
                                x |= (*by as u128) << (8 * i);
                            }
                            let si = ty::ScalarInt::try_from_uint(x, rustc_abi::Size::from_bytes(sz))?;
                            let cv = mir::ConstValue::Scalar(mir::interpret::Scalar::Int(si));
                            let val = self.const_value(cv, *inner);
                            let ex = self.destructure(cv, *inner, depth + 1).unwrap_or("null".into());
                            return Some(format!("[\"ref\",\"\",\"\",[[\"c\",{},{},null,{}]]]", esc(&ty_str(*inner)), val, ex));
                        }
                    }
                    // &&str, &&[u8], &&T: the inner pointer is read out of the allocation
                    if let ty::Ref(_, pointee, _) = inner.kind() {
                        let GlobalAlloc::Memory(mem) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                        let a = mem.inner();
                        let prov = a.provenance().ptrs().iter().find(|(o, _)| *o == off).map(|(_, p)| *p)?;
                        let base = self.bytes_of(alloc_id, off.bytes(), 8)?;
                        let addr = u64::from_le_bytes(base[..8].try_into().ok()?);
                        let cv = if pointee.is_str() || pointee.is_slice() {
                            let meta = self.bytes_of(alloc_id, off.bytes() + 8, 8)?;
                            let meta = u64::from_le_bytes(meta[..8].try_into().ok()?);
                            if addr != 0 {
                                return None;
                            }
                            mir::ConstValue::Slice { alloc_id: prov.alloc_id(), meta }
                        } else {
                            let p = mir::interpret::Pointer::new(prov, rustc_abi::Size::from_bytes(addr));
                            mir::ConstValue::Scalar(mir::interpret::Scalar::from_pointer(p, &tcx))
                        };
                        let val = self.const_value(cv, *inner);
                        let ex = self.destructure(cv, *inner, depth + 1).unwrap_or("null".into());
                        return Some(format!("[\"ref\",\"\",\"\",[[\"c\",{},{},null,{}]]]", esc(&ty_str(*inner)), val, ex));
                    }
                    let cv = mir::ConstValue::Indirect { alloc_id, offset: off };
                    // &(..), &Struct
                    let ex = self.destructure(cv, *inner, depth + 1)?;
                    return Some(format!("[\"ref\",\"\",\"\",[[\"c\",{},null,null,{}]]]", esc(&ty_str(*inner)), ex));
                }
                None
            }
            _ => None,
        }
    }

    fn operand(&mut self, env: ty::TypingEnv<'tcx>, root: DefId, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"p\",{}]", self.place(body, *p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            mir::Operand::Constant(c) => self.constant(env, root, c),
            _ => "[\"c\",\"bool\",\"false\",\"runtime_checks\",null]".into(),
        }
    }

    fn rvalue(&mut self, env: ty::TypingEnv<'tcx>, root: DefId, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, root, body, o)),
            mir::Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, root, body, o), n)
            }
            mir::Rvalue::Ref(_, bk, p) => {
                let m = !matches!(bk, mir::BorrowKind::Shared | mir::BorrowKind::Fake(_));
                format!("[\"ref\",{},{}]", self.place(body, *p), m)
            }
            mir::Rvalue::RawPtr(k, p) => {
                let m = format!("{:?}", k).contains("Mut");
                format!("[\"ref\",{},{}]", self.place(body, *p), m)
            }
            mir::Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k).split('(').next().unwrap_or("")), self.operand(env, root, body, o), esc(&ty_str(*t)), esc(&ty_str(o.ty(&body.local_decls, tcx))))
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(env, root, body, &ab.0), self.operand(env, root, body, &ab.1))
            }
            mir::Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(env, root, body, o)),
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let n = if let ty::Adt(d, _) = t.kind() { self.adt(*d) } else { String::new() };
                format!("[\"discr\",{},{}]", self.place(body, *p), esc(&n))
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let os = ops.iter().map(|o| self.operand(env, root, body, o)).collect::<Vec<_>>().join(",");
                match &**k {
                    mir::AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,[{}]]", os),
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,[{}]]", os),
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        let n = self.adt(ad);
                        let v = ad.variant(*vi).name.to_string();
                        let _ = active;
                        format!("[\"agg\",{},{},[{}]]", esc(&n), esc(&v), os)
                    }
                    mir::AggregateKind::Closure(d, cargs) => {
                        let inst = Instance::new_raw(*d, cargs);
                        let id = if self.expand(inst) { self.id_for(inst, root).to_string() } else { "null".into() };
                        format!("[\"agg\",\"closure\",{},[{}],{}]", esc(&path_of(tcx, *d)), os, id)
                    }
                    _ => format!("[\"agg\",\"other\",null,[{}]]", os),
                }
            }
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(body, *p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line)
    }

    fn dump(&mut self, key: Key<'tcx>, id: usize) {
        let tcx = self.tcx;
        let inst = key.inst;
        let root = key.root.unwrap();
        let env = ty::TypingEnv::post_analysis(tcx, root);
        let raw = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        let body = &body;
        let did = inst.def_id();
        let mut s = String::new();
        let (file, line) = self.span(body.span);
        let _ = write!(
            s,
            "{{\"k\":\"fn\",\"id\":{},\"path\":{},\"crate\":{},\"file\":{},\"line\":{},\"argc\":{},\"closure\":{},\"spread\":{},\"vis\":{}",
            id,
            esc(&path_of(tcx, did)),
            esc(tcx.crate_name(did.krate).as_str()),
            esc(&file),
            line,
            body.arg_count,
            tcx.is_closure_like(did) && matches!(inst.def, ty::InstanceKind::Item(_)),
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false },
        );
        if let Some(tr) = tcx.trait_impl_of_assoc(did) {
            let trr = tcx.impl_trait_ref(tr);
            let trr = trr.instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"impl_trait\":{}", esc(&path_of(tcx, trr.def_id)));
            let _ = write!(s, ",\"impl_self\":{}", esc(&ty_str(trr.self_ty())));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"impl_self\":{}", esc(&ty_str(st)));
        }
        if tcx.is_closure_like(did) {
            let p = tcx.typeck_root_def_id(did);
            let _ = write!(s, ",\"parent\":{}", esc(&path_of(tcx, p)));
        }
        let targs = inst.args.iter().filter_map(|a| a.as_type()).map(|t| esc(&ty_str(t))).collect::<Vec<_>>().join(",");
        let _ = write!(s, ",\"targs\":[{}]", targs);
        let ident = did == root;
        let _ = write!(s, ",\"root\":{}", ident);
        s.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                s.push(',');
            }
            s.push_str(&esc(&ty_str(l.ty)));
        }
        s.push_str("],\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    s.push(',');
                }
                first = false;
                if p.projection.is_empty() {
                    let _ = write!(s, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                } else {
                    let pl = self.place(body, p);
                    let _ = write!(s, "{}:{}", esc(&pl), esc(v.name.as_str()));
                }
            }
        }
        s.push_str("},\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            if bb.is_cleanup {
                s.push_str("null");
                continue;
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let t = match &st.kind {
                    mir::StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pl = self.place(body, *p);
                        let rv = self.rvalue(env, root, body, r);
                        format!("[\"=\",{},{},{}]", pl, rv, self.span(st.source_info.span).1)
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let v = if let ty::Adt(d, _) = t.kind() { d.variant(*variant_index).name.to_string() } else { String::new() };
                        format!("[\"sd\",{},{}]", self.place(body, **place), esc(&v))
                    }
                    mir::StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    mir::StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],\"t\":");
            let term = bb.terminator();
            let (tf, tl) = self.span(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let vs = targets
                        .iter()
                        .map(|(v, b)| {
                            let vv = if let ty::Int(it) = ty.kind() {
                                let sz = it.bit_width().unwrap_or(64);
                                let sh = 128 - sz;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[\"{}\",{}]", vv, b.as_usize())
                        })
                        .collect::<Vec<_>>()
                        .join(",");
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(env, root, body, discr), vs, targets.otherwise().as_usize(), esc(&ty_str(ty)))
                }
                mir::TerminatorKind::Return => "[\"return\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let mut dropinst = String::from("null");
                    if let ty::Adt(d, _) = t.kind() {
                        if d.did().is_local() || self.allow.iter().any(|a| a == tcx.crate_name(d.did().krate).as_str()) {
                            if let Some(x) = tcx.adt_destructor(d.did()) {
                                dropinst = esc(&path_of(tcx, x.did));
                            }
                        }
                    }
                    format!("[\"drop\",{},{},{},{}]", self.place(body, *place), target.as_usize(), esc(&ty_str(t)), dropinst)
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, root, body, func);
                    let a = args.iter().map(|a| self.operand(env, root, body, &a.node)).collect::<Vec<_>>().join(",");
                    let aty = args.iter().map(|a| esc(&ty_str(a.node.ty(&body.local_decls, tcx)))).collect::<Vec<_>>().join(",");
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{},{}]",
                        f,
                        a,
                        self.place(body, *destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        aty,
                        esc(&ty_str(dty)),
                        esc(&tf)
                    )
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len.clone(), index.clone()]),
                        mir::AssertKind::Overflow(op, a, b) => (format!("overflow{:?}", op), vec![a.clone(), b.clone()]),
                        mir::AssertKind::OverflowNeg(a) => ("overflowNeg".into(), vec![a.clone()]),
                        mir::AssertKind::DivisionByZero(a) => ("div0".into(), vec![a.clone()]),
                        mir::AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a.clone()]),
                        _ => ("other".into(), vec![]),
                    };
                    let os = ops.iter().map(|o| self.operand(env, root, body, o)).collect::<Vec<_>>().join(",");
                    format!("[\"assert\",{},{},{},[{}],{}]", self.operand(env, root, body, cond), expected, esc(&k), os, target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            let _ = write!(s, "{},\"l\":{}}}", t, tl);
        }
        s.push_str("]}\n");
        self.out.out.push_str(&s);
    }
}

struct Cb {
    out: String,
    allow: Vec<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            ids: HashMap::new(),
            queue: VecDeque::new(),
            adts: HashMap::new(),
            out: Dump { out: String::new() },
            allow: self.allow.clone(),
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            if !tcx.is_mir_available(did) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let inst = Instance::new_raw(did, args);
            cx.id_for(inst, did);
        }
        while let Some((k, id)) = cx.queue.pop_front() {
            cx.dump(k, id);
        }
        let mut s = String::new();
        let _ = writeln!(s, "{{\"k\":\"crate\",\"name\":{}}}", esc(&krate));
        let mut names: Vec<_> = cx.adts.keys().cloned().collect();
        names.sort();
        for n in names {
            s.push_str(&cx.adts[&n]);
            s.push('\n');
        }
        s.push_str(&cx.out.out);
        let p = format!("{}/{}.jsonl", self.out, krate);
        let tmp = format!("{}.{}.tmp", p, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VP_FACTS_OUT").ok();
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let wanted = krate == "tftp_dus";
    if let (Some(out), true, false) = (out, wanted, is_test) {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        let mut cb = Cb { out: {
            // the library and the binary share a crate name: tell them apart by crate type
            let bin = args.iter().position(|a| a == "--crate-type").and_then(|i| args.get(i + 1)).map(|t| t == "bin").unwrap_or(false);
            let d = format!("{}/{}", out, if bin { "bin" } else { "lib" });
            std::fs::create_dir_all(&d).expect("facts dir");
            d
        }, allow: vec!["tftp_dus".into()] };
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    } else {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    }
}
