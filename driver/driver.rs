//! MIR exporter: runs as rustc on the contracts crate and writes, for every `vc_*` root function,
//! the monomorphic MIR of everything reachable from it (std, nom, firrtl-ast, contracts) as JSON.
#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { write!(o, "\\u{:04x}", u).unwrap(); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_out: Vec<String>,
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: Vec<(usize, String)>,
    stops: Vec<String>,
    models: HashMap<String, FnDef>,
    model_map: HashMap<String, String>,
    virt_calls: Vec<(usize, FnDef, GenericArgs)>, // instance id, method, args
    virt_key: HashMap<Instance, usize>,
    dyn_casts: Vec<(Ty, String)>, // concrete type, dyn principal name
    dyn_seen: HashSet<(Ty, String)>,
    virt_done: HashSet<(usize, Ty)>,
    virt_out: Vec<(usize, usize, usize)>, // virtual instance id, type id, instance id
    drop_memo: HashMap<Ty, bool>,
}

fn principal(t: Ty) -> Option<String> {
    if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = t.kind() {
        for p in preds {
            if let ExistentialPredicate::Trait(tr) = p.value { return Some(tr.def_id.name().to_string()); }
        }
        return Some("auto".into());
    }
    None
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let s = self.ty_str(t);
        self.type_out[id] = s;
        id
    }

    fn args_str(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(js(&format!("{:?}", c.eval_target_usize().ok()))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_str(&mut self, t: Ty) -> String {
        let name = js(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":true}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":false}}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", js(&format!("{:?}", f))),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
                RigidTy::Array(e, n) => { let e = self.ty(e); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.eval_target_usize().unwrap_or(0)) }
                RigidTy::RawPtr(e, _) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{}}}", e) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m == Mutability::Mut) }
                RigidTy::Tuple(es) => { let v: Vec<String> = es.iter().map(|e| self.ty(*e).to_string()).collect(); format!("{{\"k\":\"tuple\",\"es\":[{}]}}", v.join(",")) }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve_for_fn_ptr(def, &args).ok();
                    let i = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"fndef\",\"n\":{},\"i\":{}}}", name, i)
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", name),
                RigidTy::Closure(def, args) => {
                    // the last generic argument is the tuple of captured values
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(es)) => es, _ => vec![] },
                        _ => vec![],
                    };
                    let v: Vec<String> = ups.iter().map(|e| self.ty(*e).to_string()).collect();
                    // its body, and how that takes the captured values
                    let ck = match args.0.len().checked_sub(3).and_then(|k| args.0.get(k)) {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => Some(ClosureKind::Fn),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => Some(ClosureKind::FnMut),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => Some(ClosureKind::FnOnce),
                            _ => None,
                        },
                        _ => None,
                    };
                    let by = match ck { Some(ClosureKind::FnOnce) => "v", Some(_) => "r", None => "?" };
                    let esc = { use rustc_middle::ty::TypeVisitableExt; rustc_public::rustc_internal::internal(self.tcx, t).has_escaping_bound_vars() };
                    let ci = match ck { Some(k) if !esc => Instance::resolve_closure(def, &args, k).ok(), _ => None };
                    let ci = match ci { Some(i) => self.inst(i).to_string(), None => "null".into() };
                    format!("{{\"k\":\"closure\",\"n\":{},\"d\":{},\"es\":[{}],\"i\":{},\"by\":\"{}\"}}", name, js(&def.name()), v.join(","), ci, by)
                }
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{},\"p\":{}}}", name, js(&principal(t).unwrap_or_default())),
                RigidTy::Adt(def, args) => {
                    let a = self.args_str(&args);
                    let kind = if def.kind().is_enum() { "enum" } else if def.kind().is_union() { "union" } else { "struct" };
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter().enumerate() {
                        let d = if def.kind().is_enum() { def.discriminant_for_variant(VariantIdx::to_val(vi)).val } else { 0 };
                        let fs: Vec<String> = v.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            let id = self.ty(ft);
                            format!("[{},{}]", js(&f.name), id)
                        }).collect();
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", js(&v.name()), d, fs.join(",")));
                    }
                    format!("{{\"k\":\"adt\",\"n\":{},\"d\":{},\"kind\":\"{}\",\"a\":{},\"v\":[{}]}}", name, js(&def.name()), kind, a, vs.join(","))
                }
                other => format!("{{\"k\":\"other\",\"n\":{},\"x\":{}}}", name, js(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            other => format!("{{\"k\":\"other\",\"n\":{},\"x\":{}}}", name, js(&format!("{:?}", other).chars().take(80).collect::<String>())),
        }
    }

    fn defname(&self, i: &Instance) -> String { i.def.name().to_string() }

    fn inst(&mut self, i0: Instance) -> usize {
        let mut i = i0;
        let dn = self.defname(&i);
        if let Some(m) = self.model_map.get(&dn) {
            if let Some(f) = self.models.get(m) {
                if let Ok(r) = Instance::resolve(*f, &strip_lifetimes(&i.args(), f)) { i = r; }
            }
        }
        if let Some(x) = self.inst_ids.get(&i) { return *x; }
        let id = self.inst_ids.len();
        self.inst_ids.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn stopped(&self, dn: &str, name: &str) -> bool {
        self.stops.iter().any(|s| if let Some(p) = s.strip_suffix('*') { dn.starts_with(p) || name.starts_with(p) } else { s == dn || s == name })
    }

    fn needs_drop_body(&mut self, t: Ty) -> bool {
        if let Some(b) = self.drop_memo.get(&t) { return *b; }
        self.drop_memo.insert(t, false);
        let r = match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let n = def.name().to_string();
                if !(n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::")) {
                    let did = rustc_public::rustc_internal::internal(self.tcx, def.def_id());
                    if self.tcx.adt_destructor(did).is_some() { true } else {
                        def.variants().iter().any(|v| v.fields().iter().any(|f| { let ft = f.ty_with_args(&args); self.needs_drop_body(ft) }))
                    }
                } else {
                    args.0.iter().any(|a| if let GenericArgKind::Type(t) = a { self.needs_drop_body(*t) } else { false })
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(es)) => es.iter().any(|e| self.needs_drop_body(*e)),
            TyKind::RigidTy(RigidTy::Array(e, _)) => self.needs_drop_body(e),
            TyKind::RigidTy(RigidTy::Closure(_, args)) => match args.0.last() { Some(GenericArgKind::Type(t)) => self.needs_drop_body(*t), _ => false },
            _ => false,
        };
        self.drop_memo.insert(t, r);
        r
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => { let p = self.place(p); format!("[\"c\",{}]", p) }
            Operand::Move(p) => { let p = self.place(p); format!("[\"m\",{}]", p) }
            Operand::Constant(c) => { let s = self.konst(&c.const_); format!("[\"k\",{}]", s) }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", matches!(r, RuntimeChecks::OverflowChecks)),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "[\"z\"]".to_string(),
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("[\"i\",\"{}\"]", n), Err(_) => "[\"?\",\"tyconst\"]".into() },
            ConstantKind::Unevaluated(u) => format!("[\"?\",{}]", js(&format!("uneval {:?}", u.def))),
            ConstantKind::Param(p) => format!("[\"?\",{}]", js(&p.name)),
        };
        format!("[{},{}]", tid, v)
    }

    fn ptr_at(&self, a: &Allocation, off: usize) -> Option<(AllocIdW, usize)> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                let addend = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                return Some((p.0, addend));
            }
        }
        None
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        let shape = match t.layout() { Ok(l) => l.shape(), Err(e) => return format!("[\"?\",{}]", js(&format!("{:?}", e))) };
        let size = shape.size.bytes();
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else { return "[\"?\",\"nonrigid\"]".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => match a.read_partial_uint(off..off + size) { Ok(n) => format!("[\"i\",\"{}\"]", n), Err(_) => "[\"u\"]".into() },
            RigidTy::Int(_) => match a.read_partial_uint(off..off + size) {
                Ok(n) => { let bits = size * 8; let n = if bits < 128 && n >> (bits - 1) & 1 == 1 { n as i128 - (1i128 << bits) } else { n as i128 }; format!("[\"i\",\"{}\"]", n) }
                Err(_) => "[\"u\"]".into(),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((id, add)) = self.ptr_at(a, off) else {
                    return match a.read_partial_uint(off..off + 8) { Ok(n) => format!("[\"addr\",\"{}\"]", n), Err(_) => "[\"u\"]".into() };
                };
                let meta = if size == 16 { a.read_partial_uint(off + 8..off + 16).ok().map(|x| x as usize) } else { None };
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = meta.unwrap_or(0);
                            let b: Vec<u8> = m.bytes[add..add + n].iter().map(|x| x.unwrap_or(0)).collect();
                            format!("[\"str\",{}]", js(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = meta.unwrap_or(0);
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> = (0..n).map(|i| self.decode(&m, add + i * es, el)).collect();
                            format!("[\"sl\",[{}]]", v.join(","))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"?\",\"dynref\"]".into(),
                        _ => { let v = self.decode(&m, add, e); format!("[\"r\",{}]", v) }
                    },
                    GlobalAlloc::Function(i) => { let i = self.inst(i); format!("[\"fn\",{}]", i) }
                    GlobalAlloc::Static(s) => format!("[\"static\",{}]", js(&s.name())),
                    other => format!("[\"?\",{}]", js(&format!("{:?}", other).chars().take(100).collect::<String>())),
                }
            }
            RigidTy::FnPtr(_) => match self.ptr_at(a, off) {
                Some((id, _)) => match GlobalAlloc::from(id) { GlobalAlloc::Function(i) => { let i = self.inst(i); format!("[\"fn\",{}]", i) } _ => "[\"?\",\"fnptr\"]".into() },
                None => "[\"?\",\"fnptr\"]".into(),
            },
            RigidTy::Tuple(es) => { let v = self.dec_fields(a, off, &es, &shape); format!("[\"a\",0,[{}]]", v) }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * es, e)).collect();
                format!("[\"a\",0,[{}]]", v.join(","))
            }
            RigidTy::Closure(_, args) => {
                let ups = match args.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(es)) => es, _ => vec![] }, _ => vec![] };
                let v = self.dec_fields(a, off, &ups, &shape); format!("[\"a\",0,[{}]]", v)
            }
            RigidTy::FnDef(..) | RigidTy::Never => "[\"z\"]".into(),
            RigidTy::Adt(def, args) => {
                if def.kind().is_union() { 
                    // first field that has the full size (MaybeUninit and friends)
                    let vs = def.variants(); let f = vs[0].fields();
                    let ft = f.last().unwrap().ty_with_args(&args);
                    let s = self.decode(a, off, ft); return format!("[\"un\",{}]", s);
                }
                let vars = def.variants();
                match &shape.variants {
                    VariantsShape::Empty => "[\"z\"]".into(),
                    VariantsShape::Single { index } => {
                        let vi = index.to_index();
                        let tys: Vec<Ty> = vars[vi].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let v = self.dec_fields(a, off, &tys, &shape);
                        format!("[\"a\",{},[{}]]", vi, v)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "[\"?\",\"enumshape\"]".into() };
                        let toff = off + offsets[*tag_field].bytes();
                        let tsz = tag_size(tag);
                        let has_ptr = self.ptr_at(a, toff).is_some();
                        let raw = a.read_partial_uint(toff..toff + tsz);
                        let Ok(raw) = raw else { return "[\"u\"]".into() };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => (0..vars.len()).find(|i| {
                                let d = def.discriminant_for_variant(VariantIdx::to_val(*i)).val;
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                d & m == raw
                            }).unwrap_or(0),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & m;
                                let lo = niche_variants.start().to_index(); let hi = niche_variants.end().to_index();
                                if !has_ptr && rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        let tys: Vec<Ty> = vars[vi].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let mut v = vec![];
                        for (i, ft) in tys.iter().enumerate() {
                            let o = variants[vi].offsets[i].bytes();
                            v.push(self.decode(a, off + o, *ft));
                        }
                        format!("[\"a\",{},[{}]]", vi, v.join(","))
                    }
                }
            }
            _ => "[\"?\",\"kind\"]".into(),
        }
    }

    fn dec_fields(&mut self, a: &Allocation, off: usize, tys: &[Ty], shape: &LayoutShape) -> String {
        let offs: Vec<usize> = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; tys.len()] };
        let v: Vec<String> = tys.iter().enumerate().map(|(i, t)| self.decode(a, off + offs[i], *t)).collect();
        v.join(",")
    }

    fn call_target(&mut self, func: &Operand, locals: &[LocalDecl]) -> String {
        let t = func.ty(locals).unwrap();
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
            match Instance::resolve(def, &args) {
                Ok(i) => {
                    let id = self.inst(i);
                    if let InstanceKind::Virtual { .. } = i.kind {
                        if !self.virt_key.contains_key(&i) { self.virt_key.insert(i, id); self.virt_calls.push((id, def, args.clone())); }
                    }
                    format!("[\"d\",{}]", id)
                }
                Err(_) => format!("[\"?\",{}]", js(&def.name())),
            }
        } else {
            let o = self.operand(func);
            format!("[\"p\",{}]", o)
        }
    }

    fn note_unsize(&mut self, from: Ty, to: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }),
                _ => None,
            }
        }
        if let (Some(f), Some(t)) = (pointee(from), pointee(to)) {
            if let Some(p) = principal(t) {
                if principal(f).is_none() && self.dyn_seen.insert((f, p.clone())) { self.dyn_casts.push((f, p)); }
            } else if principal(f).is_none() {
                self.note_unsize(f, t)
            }
        }
    }

    fn resolve_virtuals(&mut self) {
        let calls = self.virt_calls.clone();
        let casts = self.dyn_casts.clone();
        for (id, def, args) in &calls {
            let Some(GenericArgKind::Type(st)) = args.0.first() else { continue };
            let Some(p) = principal(*st) else { continue };
            for (ct, cp) in &casts {
                if *cp != p || !self.virt_done.insert((*id, *ct)) { continue; }
                let mut a2 = args.clone();
                a2.0[0] = GenericArgKind::Type(*ct);
                if let Ok(i) = Instance::resolve(*def, &a2) {
                    let iid = self.inst(i);
                    let tid = self.ty(*ct);
                    self.virt_out.push((*id, tid, iid));
                }
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => { let p = self.place(p); format!("[\"ref\",{}]", p) }
            Rvalue::Ref(_, _, p) => { let p = self.place(p); format!("[\"ref\",{}]", p) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); format!("[\"use\",[\"c\",{}]]", p) }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let (kk, vi) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, f) => if f.is_some() { ("union", f.unwrap()) } else { ("adt", v.to_index()) },
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",\"{}\",{},{},[{}]]", kk, t, vi, v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let (a, b) = (self.operand(a), self.operand(b)); format!("[\"bin\",\"{:?}\",{},{},{}]", op, a, b, t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let (a, b) = (self.operand(a), self.operand(b)); format!("[\"cbin\",\"{:?}\",{},{},{}]", op, a, b, t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).unwrap();
                let mut extra = "null".to_string();
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = from.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) { extra = self.inst(i).to_string(); }
                        }
                        "reify".to_string()
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        if let TyKind::RigidTy(RigidTy::Closure(def, args)) = from.kind() {
                            if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) { extra = self.inst(i).to_string(); }
                        }
                        "closurefn".to_string()
                    }
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => { self.note_unsize(from, *t); "unsize".to_string() }
                    other => format!("{:?}", other),
                };
                let o = self.operand(o);
                let (ft, tt) = (self.ty(from), self.ty(*t));
                format!("[\"cast\",{},{},{},{},{}]", js(&kn), o, ft, tt, extra)
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); format!("[\"use\",[\"c\",{}]]", p) }
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let pt = p.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let p = self.place(p); format!("[\"disc\",{},{},{}]", p, t, pt)
            }
            Rvalue::Len(p) => { let p = self.place(p); format!("[\"len\",{}]", p) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o); format!("[\"rep\",{},{}]", o, n.eval_target_usize().unwrap_or(0)) }
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name())),
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                let a = self.operand(a); format!("[\"un\",\"{:?}\",{},{}]", op, a, t)
            }
            Rvalue::Use(o, _) => { let o = self.operand(o); format!("[\"use\",{}]", o) }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r, &locals); ss.push(format!("[\"=\",{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(format!("[\"sd\",{},{}]", p, variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("[\"copy\"]".into()),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    let d = self.operand(discr);
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"sw\",{},[{}],{},{}]", d, v.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&locals).unwrap();
                    if self.needs_drop_body(pt) {
                        let i = Instance::resolve_drop_in_place(pt);
                        let id = self.inst(i);
                        let p = self.place(place);
                        format!("[\"drop\",{},{},{}]", p, id, target)
                    } else { format!("[\"goto\",{}]", target) }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.call_target(func, &locals);
                    let v: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    let at: Vec<String> = args.iter().map(|a| a.ty(&locals).map(|t| self.ty(t)).unwrap_or(0).to_string()).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"call\",{},[{}],{},{},[{}],{}]", f, v.join(","), d, target.map(|t| t.to_string()).unwrap_or("null".into()), at.join(","), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_default();
                    format!("[\"assert\",{},{},{},{}]", c, expected, js(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let line = bb.terminator.source_info.span.get_lines().start_line;
            blocks.push(format!("[[{}],{},{}]", ss.join(","), t, line));
        }
        format!("\"l\":[{}],\"ac\":{},\"sp\":{},\"b\":[{}]", lt.join(","), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), blocks.join(",\n"))
    }

    fn run(&mut self) {
        loop {
            while let Some((id, i)) = self.queue.pop_front() {
                let dn = self.defname(&i);
                let name = i.name().to_string();
                let intr = { let did = rustc_public::rustc_internal::internal(self.tcx, i.def.def_id()); matches!(i.kind, InstanceKind::Item) && self.tcx.intrinsic(did).is_some() };
                let kind = if intr { "intrinsic" } else { match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" } };
                let file = { let s = i.def.span(); format!("{}:{}", s.get_filename(), s.get_lines().start_line) };
                let ga = { let a = i.args(); self.args_str(&a) };
                let stopped = kind == "intrinsic" || kind == "llvm" || kind == "virtual" || self.stopped(&dn, &name);
                let sig = { let t = i.ty(); if let TyKind::RigidTy(RigidTy::FnDef(..)) = t.kind() { t.kind().fn_sig().map(|s| { let s = s.skip_binder(); let v: Vec<String> = s.inputs_and_output.iter().map(|t| self.ty(*t).to_string()).collect(); format!("[{}]", v.join(",")) }).unwrap_or("null".into()) } else { "null".into() } };
                let body = if stopped { None } else { i.body() };
                let bs = match &body { Some(b) => self.body(b), None => "\"b\":null".into() };
                self.fn_out.push((id, format!("{{\"d\":{},\"n\":{},\"k\":\"{}\",\"f\":{},\"ga\":{},\"sig\":{},\"mang\":{},{}}}", js(&dn), js(&name), kind, js(&file), ga, sig, js(&if kind == "intrinsic" || kind == "virtual" { String::new() } else { i.mangled_name().to_string() }), bs)));
            }
            self.resolve_virtuals();
            if self.queue.is_empty() { break; }
        }
    }
}

type AllocIdW = rustc_public::mir::alloc::AllocId;

fn tag_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let v = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match v { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Float { .. } => 8, Primitive::Pointer(_) => 8 }
}

fn strip_lifetimes(args: &GenericArgs, f: &FnDef) -> GenericArgs {
    // model functions take the same type parameters in the same order (lifetimes excluded)
    let n = f.ty().kind();
    let want_lt = if let TyKind::RigidTy(RigidTy::FnDef(_, a)) = n { a.0.iter().filter(|x| matches!(x, GenericArgKind::Lifetime(_))).count() } else { 0 };
    let mut out: Vec<GenericArgKind> = vec![];
    for _ in 0..want_lt { out.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })); }
    for a in &args.0 { if !matches!(a, GenericArgKind::Lifetime(_)) { out.push(a.clone()); } }
    GenericArgs(out)
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("VC_OUT").expect("VC_OUT");
    let stops = std::fs::read_to_string(std::env::var("VC_STOPS").unwrap_or_default()).unwrap_or_default();
    let mut stop_v = vec![];
    let mut model_map = HashMap::new();
    for l in stops.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some((a, b)) = l.split_once(" => ") { model_map.insert(a.trim().to_string(), b.trim().to_string()); } else { stop_v.push(l.to_string()); }
    }
    let krate = rustc_public::local_crate();
    let mut models = HashMap::new();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("vc_") { roots.push((n.clone(), f)); }
        models.insert(n, f);
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    let mut d = Dump { tcx, types: HashMap::new(), type_out: vec![], inst_ids: HashMap::new(), queue: VecDeque::new(), fn_out: vec![], stops: stop_v, models, model_map, virt_calls: vec![], virt_key: HashMap::new(), dyn_casts: vec![], dyn_seen: HashSet::new(), virt_done: HashSet::new(), virt_out: vec![], drop_memo: HashMap::new() };
    let mut rs = vec![];
    for (n, f) in &roots {
        if let Ok(i) = Instance::resolve(*f, &GenericArgs(vec![])) { let id = d.inst(i); rs.push(format!("{}:{}", js(n), id)); }
    }
    d.run();
    let mut fns: BTreeMap<usize, String> = BTreeMap::new();
    for (i, s) in d.fn_out.drain(..) { fns.insert(i, s); }
    let mut o = String::new();
    write!(o, "{{\"roots\":{{{}}},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"virt\":[{}]}}",
        rs.join(","), d.type_out.join(",\n"), fns.values().cloned().collect::<Vec<_>>().join(",\n"),
        d.virt_out.iter().map(|(a, b, c)| format!("[{},{},{}]", a, b, c)).collect::<Vec<_>>().join(",")).unwrap();
    std::fs::write(&out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let real = args.remove(1);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "contracts");
    if !is_target {
        let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, analyze);
    if r.is_err() { std::process::exit(1); }
}
