//! rvc-driver: a rustc driver that dumps the monomorphic MIR reachable from the local
//! crate's functions as JSON.  It performs no analysis; the verification-condition
//! generator (rvc/*.py) consumes the dump.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::*;
use rustc_public::CrateDef;
use rustc_public::crate_def::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct D {
    tys: Vec<String>,
    ty_ix: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    fns: Vec<String>,
    skip: Vec<String>,
    statics: HashSet<String>,
    static_out: Vec<String>,
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ix.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, i);
        let s = self.ty_json(t);
        self.tys[i] = s;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => js(&format!("{:?}", c.kind()).chars().take(40).collect::<String>()),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = js(&format!("{}", t));
        let TyKind::RigidTy(r) = k else { return format!("{{\"k\":\"other\",\"d\":{}}}", disp) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{}}}", match i { IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128 }),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"w\":{},\"us\":{}}}", match i { UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128 }, matches!(i, UintTy::Usize)),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => { let e = self.ty(e); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
            RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
            RigidTy::RawPtr(e, _) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{}}}", e) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", e, matches!(m, Mutability::Mut)) }
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v)) }
            RigidTy::FnDef(d, a) => {
                let args = self.gargs(&a);
                let inst = Instance::resolve(d, &a).ok();
                let id = match inst { Some(i) => { let id = self.inst(i); js(&id) } None => "null".into() };
                format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{},\"d\":{}}}", js(&d.name().to_string()), args, id, disp)
            }
            RigidTy::Closure(d, a) => {
                // resolve as FnOnce by-ref variants: the body instance itself
                let mut ids = vec![];
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) { let id = self.inst(i); ids.push(format!("{}:{}", js("Fn"), js(&id))); }
                format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{{{}}},\"d\":{}}}", js(&d.name().to_string()), ids.join(","), disp)
            }
            RigidTy::Adt(d, a) => {
                let args = self.gargs(&a);
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let mut fs = vec![];
                    let mut fnm = vec![];
                    for f in v.fields() { fs.push(self.ty(f.ty_with_args(&a)).to_string()); fnm.push(js(&f.name.to_string())); }
                    let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"f\":{},\"fn\":{},\"disc\":{}}}", js(&v.name().to_string()), arr(fs), arr(fnm), disc));
                }
                let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                format!("{{\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"args\":{},\"v\":{},\"box\":{},\"d\":{}}}", kind, js(&d.name().to_string()), args, arr(vs), d.is_box(), disp)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"d\":{}}}", disp),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"d\":{}}}", disp),
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", disp),
        }
    }

    fn inst(&mut self, i: Instance) -> String {
        let id = format!("{}", i.mangled_name());
        if self.seen.insert(id.clone()) { self.queue.push_back(i); }
        id
    }

    // ---------- constants
    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 60 { return "{\"opaque\":\"deep\"}".into(); }
        let Ok(layout) = t.layout() else { return "{\"opaque\":\"nolayout\"}".into() };
        let sh = layout.shape();
        let size = sh.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return "{\"opaque\":\"alias\"}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match a.read_partial_uint(off..off + size) {
                Ok(v) => format!("{{\"i\":{}}}", v), Err(_) => "{\"opaque\":\"uninit\"}".into() },
            RigidTy::Int(_) => match a.read_partial_uint(off..off + size) {
                Ok(v) => {
                    let bits = size * 8;
                    if bits == 128 { format!("{{\"i\":{}}}", v as i128) }
                    else if v >> (bits - 1) & 1 == 1 { format!("{{\"i\":{}}}", (v as i128) - (1i128 << bits)) }
                    else { format!("{{\"i\":{}}}", v) }
                }
                Err(_) => "{\"opaque\":\"uninit\"}".into() },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..n).map(|k| self.alloc_val(e, a, off + k * es, depth + 1)).collect();
                format!("{{\"a\":{}}}", arr(v))
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                    return "{\"t\":[]}".into()
                };
                let v = ts.iter().enumerate().map(|(k, ft)| self.alloc_val(*ft, a, off + offsets[k].bytes(), depth + 1)).collect();
                format!("{{\"t\":{}}}", arr(v))
            }
            RigidTy::Adt(d, ga) => {
                let ti = self.ty(t);
                match d.kind() {
                    AdtKind::Union => "{\"opaque\":\"union\"}".into(),
                    AdtKind::Struct => {
                        let v = d.variants_iter().next().unwrap();
                        let offs: Vec<usize> = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        let fs = v.fields().iter().enumerate().map(|(k, f)| self.alloc_val(f.ty_with_args(&ga), a, off + offs.get(k).copied().unwrap_or(0), depth + 1)).collect();
                        format!("{{\"s\":{},\"v\":0,\"f\":{}}}", ti, arr(fs))
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                            VariantsShape::Empty => return "{\"opaque\":\"empty\"}".into(),
                            VariantsShape::Single { index } => (index.to_index(), match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] }),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                                let tsz = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                                let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tv = a.read_partial_uint(off + toff..off + toff + tsz);
                                let mask: u128 = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let Ok(tv) = tv else { return "{\"opaque\":\"uninit\"}".into() };
                                        match d.variants_iter().find(|v| d.discriminant_for_variant(v.idx()).val & mask == tv) { Some(v) => v.idx().to_index(), None => return "{\"opaque\":\"tag\"}".into() }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if isptr { untagged_variant.to_index() } else {
                                            let Ok(tv) = tv else { return "{\"opaque\":\"uninit\"}".into() };
                                            let s = niche_variants.start().to_index(); let e = niche_variants.end().to_index();
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let v = d.variant(VariantIdx::to_val(vi)).unwrap();
                        let fs = v.fields().iter().enumerate().map(|(k, f)| self.alloc_val(f.ty_with_args(&ga), a, off + offs.get(k).copied().unwrap_or(0), depth + 1)).collect();
                        format!("{{\"s\":{},\"v\":{},\"f\":{}}}", ti, vi, arr(fs))
                    }
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return match a.read_partial_uint(off..off + 8) { Ok(v) => format!("{{\"rawptr\":{}}}", v), Err(_) => "{\"opaque\":\"ptr\"}".into() };
                };
                let poff = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                let id: AllocId = prov.0;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => self.pointee(e, &m, poff, a, off, size, depth),
                    GlobalAlloc::Static(s) => { self.static_def(&s); format!("{{\"static\":{}}}", js(&s.name().to_string())) }
                    GlobalAlloc::Function(i) => { let id = self.inst(i); format!("{{\"fn\":{}}}", js(&id)) }
                    _ => "{\"opaque\":\"galloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) { let id = self.inst(i); return format!("{{\"fn\":{}}}", js(&id)); }
                }
                "{\"opaque\":\"fnptr\"}".into()
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => { let ti = self.ty(t); format!("{{\"zst\":{}}}", ti) }
            RigidTy::Never => "{\"opaque\":\"never\"}".into(),
            _ => "{\"opaque\":\"const\"}".into(),
        }
    }
    fn static_def(&mut self, s: &rustc_public::mir::mono::StaticDef) {
        let n = s.name().to_string();
        if !self.statics.insert(n.clone()) { return; }
        let t = s.ty();
        let v = match s.eval_initializer() { Ok(al) => self.alloc_val(t, &al, 0, 0), Err(_) => "{\"opaque\":\"static\"}".into() };
        let ti = self.ty(t);
        self.static_out.push(format!("{}:{{\"ty\":{},\"val\":{}}}", js(&n), ti, v));
    }
    fn pointee(&mut self, e: Ty, m: &Allocation, poff: usize, a: &Allocation, off: usize, size: usize, depth: usize) -> String {
        let TyKind::RigidTy(r) = e.kind() else { return "{\"opaque\":\"p\"}".into() };
        match r {
            RigidTy::Slice(el) if size == 16 => {
                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..n).map(|k| self.alloc_val(el, m, poff + k * es, depth + 1)).collect();
                format!("{{\"ref\":{{\"a\":{}}},\"slice\":true}}", arr(v))
            }
            RigidTy::Str if size == 16 => {
                let n = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                let b: Vec<u8> = m.bytes[poff..poff + n].iter().map(|x| x.unwrap_or(0)).collect();
                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                format!("{{\"str\":{}}}", arr(v))
            }
            RigidTy::Dynamic(..) => "{\"opaque\":\"dyn\"}".into(),
            _ => { let v = self.alloc_val(e, m, poff, depth + 1); format!("{{\"ref\":{}}}", v) }
        }
    }
    fn cst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_val(t, a, 0, 0),
            ConstantKind::ZeroSized => format!("{{\"zst\":{}}}", ti),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.alloc_val(*t2, a, 0, 0),
                TyConstKind::ZSTValue(_) => format!("{{\"zst\":{}}}", ti),
                _ => "{\"opaque\":\"tyconst\"}".into(),
            },
            _ => "{\"opaque\":\"unevaluated\"}".into(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", ti, v)
    }

    // ---------- MIR
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => { let ti = self.ty(*t); format!("[\"f\",{},{}]", i, ti) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.cst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => { let m = matches!(bk, BorrowKind::Mut { .. }); format!("[\"ref\",{},{}]", self.place(p), m) }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), ti) }
            Rvalue::ThreadLocalRef(_) => "[\"opaque\",\"tls\"]".into(),
            Rvalue::Aggregate(k, os) => {
                let v: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => { let ti = self.ty(*t); format!("[\"array\",{}]", ti) }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, ga, _, fi) => { let ti = self.ty(d.ty_with_args(ga)); format!("[\"adt\",{},{},{}]", ti, vi.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, ga) => { let ti = self.ty(Ty::new_closure(*d, ga.clone())); format!("[\"closure\",{}]", ti) }
                    AggregateKind::RawPtr(t, _) => { let ti = self.ty(*t); format!("[\"rawptr\",{}]", ti) }
                    _ => "[\"opaque\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let a = self.place(p); let c = self.rv(r); st.push(format!("[\"=\",{},{}]", a, c)); }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(_) => st.push("[\"opaque\",\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(x, b)| format!("[{},{}]", x, b)).collect();
                    format!("[\"sw\",{},{},{}]", self.op(discr), arr(v), targets.otherwise())
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(), m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()) };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, js(&m), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.func(func, b);
                    let av: Vec<String> = args.iter().map(|a| self.op(a)).collect();
                    format!("[\"call\",{},{},{},{}]", f, arr(av), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(st), tj, line));
        }
        let names: Vec<String> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| format!("[{},{}]", js(&v.name.to_string()), l))).collect();
        format!("\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":[{}]", arr(locals), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(names), blocks.join(",\n  "))
    }
    fn func(&mut self, f: &Operand, b: &Body) -> String {
        let t = f.ty(b.locals());
        if let Ok(t) = t {
            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                let args = self.gargs(&a);
                let inst = Instance::resolve(d, &a).ok();
                let id = match inst {
                    Some(i) => match i.kind {
                        InstanceKind::Virtual { .. } => "null".into(),
                        _ => { let id = self.inst(i); js(&id) }
                    },
                    None => "null".into(),
                };
                return format!("{{\"def\":{},\"args\":{},\"inst\":{}}}", js(&d.name().to_string()), args, id);
            }
        }
        format!("{{\"ptr\":{}}}", self.op(f))
    }
    fn do_inst(&mut self, i: Instance) {
        let id = format!("{}", i.mangled_name());
        let name = i.name().to_string();
        let kind = format!("{:?}", i.kind);
        let def = i.def.name().to_string();
        let args = self.gargs(&i.args());
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let skip = self.skip.iter().any(|p| def.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let is_cl = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let sp = i.def.span();
        let mut s = format!("{}:{{\"name\":{},\"def\":{},\"args\":{},\"kind\":{},\"intr\":{},\"closure\":{},\"file\":{},\"line\":{}",
            js(&id), js(&name), js(&def), args, js(&kind), intr.as_deref().map(js).unwrap_or("null".into()), is_cl, js(&sp.get_filename()), sp.get_lines().start_line);
        if !skip && intr.is_none() && i.has_body() {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                let _ = write!(s, ",{}", bj);
            }
        }
        s.push('}');
        self.fns.push(s);
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("RVC_OUT").unwrap();
    let skip: Vec<String> = std::env::var("RVC_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = D { tys: vec![], ty_ix: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), fns: vec![], skip, statics: HashSet::new(), static_out: vec![] };
    for item in rustc_public::all_local_items() {
        if item.requires_monomorphization() { continue; }
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(item) { d.inst(i); }
    }
    let roots: Vec<String> = d.queue.iter().map(|i| js(&i.mangled_name().to_string())).collect();
    while let Some(i) = d.queue.pop_front() { d.do_inst(i); }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"roots\":{},\n\"tys\":[\n{}\n],\n\"statics\":{{{}}},\n\"fns\":{{\n{}\n}}}}\n",
        js(&rustc_public::local_crate().name), arr(roots), d.tys.join(",\n"), d.static_out.join(",\n"), d.fns.join(",\n"));
    std::fs::write(out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let target = std::env::var("RVC_CRATE").unwrap_or_default();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned().unwrap_or_default();
    if !target.is_empty() && cname == target && !args.iter().any(|a| a.starts_with("--print")) {
        if let Err(e) = run!(&args, dump) { match e { rustc_public::CompilerError::Skipped | rustc_public::CompilerError::Interrupted(_) => {}, _ => std::process::exit(1) } }
    } else {
        use std::os::unix::process::CommandExt;
        let rustc = std::env::var("RVC_RUSTC").unwrap_or("rustc".into());
        let e = std::process::Command::new(rustc).args(&args[1..]).exec();
        panic!("exec rustc: {e}");
    }
}
