//! mirdump: a rustc wrapper.  For the crate named in $MIRDUMP_CRATE it compiles as usual and then
//! writes the monomorphic MIR of every function reachable from the harness roots (functions in a
//! module `roots`, or any `#[no_mangle] extern` is not needed) to $MIRDUMP_OUT as JSON.
//! For every other crate it simply runs rustc in-process with the arguments given.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump {
    cuts: Vec<String>,
    tys: HashMap<Ty, usize>,
    ty_out: BTreeMap<usize, String>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    inst_queue: VecDeque<Instance>,
    fn_out: BTreeMap<usize, String>,
    unsizes: HashSet<(Ty, Ty)>, // (concrete, dyn)
    virtuals: Vec<(FnDef, GenericArgs)>,
    virt_seen: HashSet<(String, String)>,
    virt_out: BTreeMap<(String, usize), usize>,
    statics: BTreeMap<String, String>,
    files: HashMap<String, usize>,
    files_out: Vec<String>,
    dtor: HashSet<String>,
}

fn floatname(f: &FloatTy) -> &'static str {
    match f {
        FloatTy::F16 => "f16",
        FloatTy::F32 => "f32",
        FloatTy::F64 => "f64",
        FloatTy::F128 => "f128",
    }
}
fn intname(i: &IntTy) -> &'static str {
    match i {
        IntTy::Isize => "isize",
        IntTy::I8 => "i8",
        IntTy::I16 => "i16",
        IntTy::I32 => "i32",
        IntTy::I64 => "i64",
        IntTy::I128 => "i128",
    }
}
fn uintname(i: &UintTy) -> &'static str {
    match i {
        UintTy::Usize => "usize",
        UintTy::U8 => "u8",
        UintTy::U16 => "u16",
        UintTy::U32 => "u32",
        UintTy::U64 => "u64",
        UintTy::U128 => "u128",
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.inst_queue.push_back(i);
        k
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(format!(
                    "{{\"c\":{}}}",
                    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        jarr(v)
    }
    fn closure_inst(&mut self, def: ClosureDef, args: &GenericArgs) -> Option<usize> {
        // kind is the third-from-last type argument (i8/i16/i32)
        let tys: Vec<Ty> = args.0.iter().filter_map(|g| g.ty().copied()).collect();
        if tys.len() < 3 {
            return None;
        }
        let kt = tys[tys.len() - 3];
        let kind = match kt.kind().rigid() {
            Some(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
            Some(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
            _ => ClosureKind::FnOnce,
        };
        let i = Instance::resolve_closure(def, args, kind).ok()?;
        Some(self.inst(i))
    }
    fn dump_ty(&mut self, t: Ty) -> String {
        let disp = jstr(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"n\":\"{}\"", intname(&i)),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"n\":\"{}\"", uintname(&i)),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":\"{}\"", floatname(&f)),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!(
                        "\"k\":\"array\",\"e\":{},\"len\":{}",
                        e,
                        n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    format!("\"k\":\"pat\",\"e\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", jarr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.gargs(&a);
                    let inst = match Instance::resolve(d, &a) {
                        Ok(i) => {
                            if let InstanceKind::Virtual { .. } = i.kind {
                                self.note_virtual(d, &a);
                                "\"virtual\"".to_string()
                            } else {
                                self.inst(i).to_string()
                            }
                        }
                        Err(_) => "null".to_string(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", jstr(&d.name()), args, inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let args = self.gargs(&a);
                    let tys: Vec<Ty> = a.0.iter().filter_map(|g| g.ty().copied()).collect();
                    let ups = tys.last().map(|t| self.ty(*t).to_string()).unwrap_or("null".into());
                    let kind = if tys.len() >= 3 { format!("{}", tys[tys.len() - 3]) } else { "?".into() };
                    let inst = self.closure_inst(d, &a).map(|x| x.to_string()).unwrap_or("null".into());
                    format!(
                        "\"k\":\"closure\",\"def\":{},\"args\":{},\"ups\":{},\"ckind\":{},\"inst\":{}",
                        jstr(&d.name()), args, ups, jstr(&kind), inst
                    )
                }
                RigidTy::Dynamic(..) => {
                    let p = t.kind().trait_principal().map(|b| b.skip_binder().def_id.name()).unwrap_or_default();
                    format!("\"k\":\"dyn\",\"trait\":{}", jstr(&p))
                }
                RigidTy::Adt(d, a) => {
                    let args = self.gargs(&a);
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| format!("[{},{}]", jstr(&f.name), self.ty(f.ty_with_args(&a))))
                            .collect();
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", jstr(&v.name()), discr, jarr(fs)));
                    }
                    format!(
                        "\"k\":\"adt\",\"kind\":\"{}\",\"def\":{},\"krate\":{},\"args\":{},\"dtor\":{},\"v\":{}",
                        kind, jstr(&d.name()), jstr(&d.krate().name), args,
                        self.dtor.contains(&d.name().to_string()), jarr(vs)
                    )
                }
                other => format!("\"k\":\"other\",\"dbg\":{}", jstr(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            other => format!("\"k\":\"other\",\"dbg\":{}", jstr(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        let size = t.layout().ok().map(|l| l.shape().size.bytes().to_string()).unwrap_or("null".into());
        format!("{{{},\"s\":{},\"size\":{}}}", body, disp, size)
    }
    fn note_virtual(&mut self, d: FnDef, a: &GenericArgs) {
        let key = (d.name().to_string(), format!("{:?}", a));
        if self.virt_seen.insert(key) {
            self.virtuals.push((d, a.clone()));
        }
    }

    // ---- constants
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = (v << 8) | (a.bytes[off + i]? as u128);
        }
        Some(v)
    }
    fn prov(&self, a: &Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn opaque(&self, why: &str) -> String {
        format!("{{\"k\":\"opaque\",\"why\":{}}}", jstr(why))
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return self.opaque("depth");
        }
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return self.opaque("layout"),
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match self.rd(a, off, 1) {
                    Some(v) => format!("{{\"k\":\"bool\",\"v\":{}}}", v != 0),
                    None => self.opaque("uninit"),
                },
                RigidTy::Char | RigidTy::Uint(_) => match self.rd(a, off, size) {
                    Some(v) => format!("{{\"k\":\"int\",\"v\":{}}}", v),
                    None => self.opaque("uninit"),
                },
                RigidTy::Int(_) => match self.rd(a, off, size) {
                    Some(v) => {
                        let sh = 128 - 8 * size as u32;
                        format!("{{\"k\":\"int\",\"v\":{}}}", ((v << sh) as i128) >> sh)
                    }
                    None => self.opaque("uninit"),
                },
                RigidTy::Float(_) => match self.rd(a, off, size) {
                    Some(v) => format!("{{\"k\":\"float\",\"bits\":{}}}", v),
                    None => self.opaque("uninit"),
                },
                RigidTy::Pat(e, _) => self.decode(a, off, e, depth + 1),
                RigidTy::Tuple(ts) => {
                    let offs = match t.layout().unwrap().shape().fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        _ => vec![],
                    };
                    if offs.len() != ts.len() {
                        if ts.is_empty() {
                            return "{\"k\":\"agg\",\"f\":[]}".into();
                        }
                        return self.opaque("tuple layout");
                    }
                    let v: Vec<String> =
                        ts.iter().zip(offs).map(|(t, o)| self.decode(a, off + o.bytes(), *t, depth + 1)).collect();
                    format!("{{\"k\":\"agg\",\"f\":{}}}", jarr(v))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = e.layout().unwrap().shape().size.bytes();
                    if n > 4096 {
                        return self.opaque("big array");
                    }
                    let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * es, e, depth + 1)).collect();
                    format!("{{\"k\":\"arr\",\"f\":{}}}", jarr(v))
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) if size == 0 => {
                    let ti = self.ty(t);
                    format!("{{\"k\":\"zst\",\"t\":{}}}", ti)
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.decode_ptr(a, off, e, size, depth),
                RigidTy::FnPtr(_) => {
                    if let Some(p) = self.prov(a, off) {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(p) {
                            let k = self.inst(i);
                            return format!("{{\"k\":\"fn\",\"inst\":{}}}", k);
                        }
                    }
                    self.opaque("fnptr")
                }
                RigidTy::Adt(d, ga) => {
                    let shape = t.layout().unwrap().shape();
                    match d.kind() {
                        AdtKind::Struct => {
                            let v = d.variants().remove(0);
                            let fs = v.fields();
                            let offs = match shape.fields {
                                FieldsShape::Arbitrary { offsets } => offsets,
                                _ => vec![],
                            };
                            if offs.len() != fs.len() {
                                if fs.is_empty() {
                                    return "{\"k\":\"agg\",\"f\":[]}".into();
                                }
                                return self.opaque("struct layout");
                            }
                            let v: Vec<String> = fs
                                .iter()
                                .zip(offs)
                                .map(|(f, o)| self.decode(a, off + o.bytes(), f.ty_with_args(&ga), depth + 1))
                                .collect();
                            format!("{{\"k\":\"agg\",\"f\":{}}}", jarr(v))
                        }
                        AdtKind::Enum => {
                            let (vidx, offs): (usize, Vec<usize>) = match shape.variants {
                                VariantsShape::Empty => return self.opaque("empty enum"),
                                VariantsShape::Single { index } => {
                                    let offs = match shape.fields {
                                        FieldsShape::Arbitrary { offsets } => {
                                            offsets.iter().map(|o| o.bytes()).collect()
                                        }
                                        _ => vec![],
                                    };
                                    (index.to_index_(), offs)
                                }
                                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                    let toff = match &shape.fields {
                                        FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(),
                                        _ => 0,
                                    };
                                    let tsize = scalar_size(&tag);
                                    let is_ptr_tag = self.prov(a, off + toff).is_some();
                                    let raw = if is_ptr_tag { None } else { self.rd(a, off + toff, tsize) };
                                    let vi = match tag_encoding {
                                        TagEncoding::Direct => {
                                            let raw = match raw {
                                                Some(r) => r,
                                                None => return self.opaque("tag"),
                                            };
                                            let mut found = None;
                                            for v in d.variants_iter() {
                                                let dv = d.discriminant_for_variant(v.idx()).val;
                                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                                if dv & mask == raw {
                                                    found = Some(v.idx().to_index_());
                                                }
                                            }
                                            match found {
                                                Some(f) => f,
                                                None => return self.opaque("tag value"),
                                            }
                                        }
                                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                            match raw {
                                                None => untagged_variant.to_index_(),
                                                Some(r) => {
                                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                                    let rel = r.wrapping_sub(niche_start) & mask;
                                                    let s = niche_variants.start().to_index_();
                                                    let e = niche_variants.end().to_index_();
                                                    if rel <= (e - s) as u128 {
                                                        s + rel as usize
                                                    } else {
                                                        untagged_variant.to_index_()
                                                    }
                                                }
                                            }
                                        }
                                    };
                                    (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                                }
                            };
                            let v = d.variants().remove(vidx);
                            let fs = v.fields();
                            if fs.len() != offs.len() && !fs.is_empty() {
                                return self.opaque("enum layout");
                            }
                            let fv: Vec<String> = fs
                                .iter()
                                .zip(offs)
                                .map(|(f, o)| self.decode(a, off + o, f.ty_with_args(&ga), depth + 1))
                                .collect();
                            format!("{{\"k\":\"enum\",\"v\":{},\"f\":{}}}", vidx, jarr(fv))
                        }
                        AdtKind::Union => self.opaque("union"),
                    }
                }
                _ => self.opaque("type"),
            },
            _ => self.opaque("type"),
        }
    }
    fn decode_ptr(&mut self, a: &Allocation, off: usize, e: Ty, size: usize, depth: usize) -> String {
        let id = match self.prov(a, off) {
            Some(p) => p,
            None => {
                // dangling (e.g. empty slice) or integer address
                if size == 16 {
                    if let Some(0) = self.rd(a, off + 8, 8) {
                        return "{\"k\":\"ref\",\"to\":{\"k\":\"arr\",\"f\":[]}}".into();
                    }
                }
                let addr = self.rd(a, off, 8).map(|x| x.to_string()).unwrap_or("null".into());
                return format!("{{\"k\":\"addr\",\"v\":{}}}", addr);
            }
        };
        let inner_off = self.rd(a, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => {
                let to = match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let bytes: Option<Vec<u8>> = m.bytes[inner_off..inner_off + n].iter().copied().collect();
                        match bytes.and_then(|b| String::from_utf8(b).ok()) {
                            Some(s) => format!("{{\"k\":\"str\",\"v\":{}}}", jstr(&s)),
                            None => self.opaque("str"),
                        }
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let n = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let es = el.layout().unwrap().shape().size.bytes();
                        if n > 4096 {
                            self.opaque("big slice")
                        } else {
                            let v: Vec<String> =
                                (0..n).map(|i| self.decode(&m, inner_off + i * es, el, depth + 1)).collect();
                            format!("{{\"k\":\"arr\",\"f\":{}}}", jarr(v))
                        }
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => self.opaque("dyn const"),
                    _ => self.decode(&m, inner_off, e, depth + 1),
                };
                format!("{{\"k\":\"ref\",\"to\":{}}}", to)
            }
            GlobalAlloc::Static(s) => {
                let name = s.name().to_string();
                if !self.statics.contains_key(&name) {
                    self.statics.insert(name.clone(), String::new());
                    let v = match s.eval_initializer() {
                        Ok(al) => self.decode(&al, 0, s.ty(), 0),
                        Err(_) => self.opaque("static"),
                    };
                    self.statics.insert(name.clone(), v);
                }
                format!("{{\"k\":\"static\",\"n\":{}}}", jstr(&name))
            }
            GlobalAlloc::Function(i) => {
                let k = self.inst(i);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", k)
            }
            _ => self.opaque("alloc"),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}}}", ti),
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(&a, 0, t, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = a.clone();
                    self.decode(&a, 0, t, 0)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"k\":\"zst\",\"t\":{}}}", ti),
                _ => match tc.eval_target_usize() {
                    Ok(v) => format!("{{\"k\":\"int\",\"v\":{}}}", v),
                    Err(_) => self.opaque("tyconst"),
                },
            },
            ConstantKind::Unevaluated(u) => self.opaque(&format!("unevaluated {}", u.def.name())),
            ConstantKind::Param(p) => self.opaque(&format!("param {}", p.name)),
        };
        format!("{{\"t\":{},\"v\":{}}}", ti, v)
    }

    // ---- MIR
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index_()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            })
            .collect();
        format!("[{},{}]", p.local, jarr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"c\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"m\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"k\",\"c\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rc\",\"v\":{}}}", jstr(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.operand(o)).collect();
        jarr(v)
    }
    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            Rvalue::AddressOf(_, p) => format!("{{\"r\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                format!("{{\"r\":\"ref\",\"p\":{},\"m\":{}}}", self.place(p), !matches!(bk, BorrowKind::Shared))
            }
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"reborrow\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"c\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, ga, _, fi) => {
                        let t = d.ty_with_args(ga);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index_(),
                            fi.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, ga) => {
                        let t = Ty::new_closure(*d, ga.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"a\":{}}}", kk, self.ops(ops))
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("{{\"r\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body.locals()).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, from) {
                    self.note_unsize(f, *t);
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Some(f)) = (k, from) {
                    self.ty(f);
                }
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{},\"from\":{}}}",
                    jstr(&format!("{:?}", k)),
                    self.operand(o),
                    self.ty(*t),
                    from.map(|f| self.ty(f).to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body.locals()).ok();
                format!(
                    "{{\"r\":\"discr\",\"p\":{},\"t\":{}}}",
                    self.place(p),
                    t.map(|f| self.ty(f).to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".into(),
        }
    }
    fn note_unsize(&mut self, from: Ty, to: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0.first().and_then(|g| g.ty().copied()),
                _ => None,
            }
        }
        if let (Some(f), Some(t)) = (pointee(from), pointee(to)) {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = t.kind() {
                self.ty(f);
                self.ty(t);
                self.unsizes.insert((f, t));
            }
        }
    }
    fn span(&mut self, s: &Span) -> String {
        let f = s.get_filename().to_string();
        let n = self.files.len();
        let i = *self.files.entry(f.clone()).or_insert(n);
        if i == n {
            self.files_out.push(f);
        }
        format!("[{},{}]", i, s.get_lines().start_line)
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, b), self.span(&s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index_())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.operand(o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"cpy\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))
                    }
                    _ => continue,
                };
                st.push(x);
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), jarr(br), targets.otherwise(), sp)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(place),
                        target,
                        t.map(|f| self.ty(f).to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(func),
                        self.ops(args),
                        self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertMessage::OverflowNeg(_) => "OverflowNeg".into(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".into(),
                        AssertMessage::NullPointerDereference => "NullPtr".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "Misaligned".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, jstr(&m), target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", jarr(st), t));
        }
        let dbg: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, jstr(&v.name))))
            .collect();
        format!(
            "\"argc\":{},\"locals\":{},\"blocks\":{},\"dbg\":{},\"spread\":{}",
            b.arg_locals().len(),
            jarr(locals),
            jarr(blocks),
            jarr(dbg),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into())
        )
    }
    fn dump_inst(&mut self, i: Instance) -> String {
        let name = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let args = self.gargs(&i.args());
        let head = format!(
            "\"name\":{},\"def\":{},\"krate\":{},\"kind\":\"{}\",\"args\":{}",
            jstr(&name), jstr(&def), jstr(&krate), kind, args
        );
        let cut = self.cuts.iter().any(|c| def.starts_with(c.as_str()) || name.starts_with(c.as_str()));
        if cut {
            return format!("{{{},\"cut\":true}}", head);
        }
        if let InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic = i.kind {
            return format!("{{{},\"intr\":{}}}", head, jstr(&i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()));
        }
        if let InstanceKind::Virtual { .. } = i.kind {
            return format!("{{{},\"nobody\":true,\"ret\":null}}", head);
        }
        match i.body() {
            Some(b) => {
                let s = self.body(&b);
                format!("{{{},{}}}", head, s)
            }
            None => {
                // a constructor used as a function: what it makes
                let ret = match i.ty().kind().fn_sig() {
                    Some(sig) => self.ty(sig.skip_binder().output()).to_string(),
                    None => "null".to_string(),
                };
                format!("{{{},\"nobody\":true,\"ret\":{}}}", head, ret)
            }
        }
    }
    fn pump(&mut self) {
        loop {
            if let Some(t) = self.ty_queue.pop_front() {
                let s = self.dump_ty(t);
                let k = self.tys[&t];
                self.ty_out.insert(k, s);
                continue;
            }
            if let Some(i) = self.inst_queue.pop_front() {
                let k = self.insts[&i];
                let s = self.dump_inst(i);
                self.fn_out.insert(k, s);
                continue;
            }
            // virtual table
            let mut progress = false;
            let uns: Vec<(Ty, Ty)> = self.unsizes.iter().copied().collect();
            let virts = self.virtuals.clone();
            for (d, a) in &virts {
                let selfdyn = match a.0.iter().find_map(|g| g.ty().copied()) {
                    Some(t) => t,
                    None => continue,
                };
                let pr = selfdyn.kind().trait_principal().map(|b| b.skip_binder().def_id.name());
                for (c, dy) in &uns {
                    let pr2 = dy.kind().trait_principal().map(|b| b.skip_binder().def_id.name());
                    if pr.is_none() || pr != pr2 {
                        continue;
                    }
                    let ci = self.ty(*c);
                    let key = (d.name().to_string(), ci);
                    if self.virt_out.contains_key(&key) {
                        continue;
                    }
                    let mut na = a.clone();
                    for g in na.0.iter_mut() {
                        if let GenericArgKind::Type(t) = g {
                            *t = *c;
                            break;
                        }
                    }
                    if let Ok(i) = Instance::resolve(*d, &na) {
                        if let InstanceKind::Virtual { .. } = i.kind {
                            // a trait object re-coerced to itself: its own table
                            continue;
                        }
                        let k = self.inst(i);
                        self.virt_out.insert(key, k);
                        progress = true;
                    }
                }
            }
            if !progress && self.ty_queue.is_empty() && self.inst_queue.is_empty() {
                break;
            }
        }
    }
}

trait ToIndex_ {
    fn to_index_(&self) -> usize;
}
impl ToIndex_ for VariantIdx {
    fn to_index_(&self) -> usize {
        use rustc_public_bridge::IndexedVal;
        self.to_index()
    }
}
fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            rustc_public::abi::IntegerLength::I8 => 1,
            rustc_public::abi::IntegerLength::I16 => 2,
            rustc_public::abi::IntegerLength::I32 => 4,
            rustc_public::abi::IntegerLength::I64 => 8,
            rustc_public::abi::IntegerLength::I128 => 16,
        },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let cuts = std::env::var("MIRDUMP_CUTS")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect::<Vec<_>>();
    let extra: Vec<String> =
        std::env::var("MIRDUMP_EXTRA_CRATES").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut d = Dump {
        cuts,
        tys: HashMap::new(),
        ty_out: BTreeMap::new(),
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        inst_queue: VecDeque::new(),
        fn_out: BTreeMap::new(),
        unsizes: HashSet::new(),
        virtuals: vec![],
        virt_seen: HashSet::new(),
        virt_out: BTreeMap::new(),
        statics: BTreeMap::new(),
        files: HashMap::new(),
        files_out: vec![],
        dtor: HashSet::new(),
    };
    // user-defined destructors
    if let Some(drop_trait) = tcx.lang_items().drop_trait() {
        for (_, impls) in tcx.trait_impls_of(drop_trait).non_blanket_impls() {
            for i in impls {
                let t = tcx.type_of(*i).instantiate_identity().skip_normalization();
                if let rustc_middle::ty::Adt(ad, _) = t.kind() {
                    d.dtor.insert(tcx.def_path_str(ad.did()));
                }
            }
        }
    }
    let mut roots = BTreeMap::new();
    let lc = rustc_public::local_crate();
    let mut cand: Vec<FnDef> = lc.fn_defs();
    for e in &extra {
        for c in rustc_public::find_crates(e) {
            cand.extend(c.fn_defs());
        }
    }
    let mut skipped = vec![];
    for f in cand {
        let name = f.name().to_string();
        let local = f.krate() == lc;
        // with extra crates, also their (and the local) private methods, looked up by name by the contracts of C20
        let is_root = if local { name.contains("roots::") || !extra.is_empty() } else { true } && !name.contains("__pymethod");
        if !is_root {
            continue;
        }
        let nongeneric = {
            let g = f.generics_of();
            g.params.iter().all(|p| matches!(p.kind, rustc_public::ty::GenericParamDefKind::Lifetime)) && g.parent_count == 0
        };
        if !nongeneric {
            skipped.push(name);
            continue;
        }
        match Instance::resolve(f, &GenericArgs(vec![])) {
            Ok(i) => {
                let k = d.inst(i);
                roots.insert(format!("{}", name), k);
            }
            Err(_) => skipped.push(name),
        }
    }
    d.pump();
    let mut s = String::new();
    s.push_str("{\"types\":[");
    s.push_str(&d.ty_out.values().cloned().collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"fns\":[");
    s.push_str(&d.fn_out.values().cloned().collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"roots\":{");
    s.push_str(&roots.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\n\"virt\":[");
    s.push_str(&d.virt_out.iter().map(|((n, c), i)| format!("[{},{},{}]", jstr(n), c, i)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"statics\":{");
    s.push_str(&d.statics.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\n\"skipped\":");
    s.push_str(&jarr(skipped.iter().map(|x| jstr(x))));
    s.push_str(",\n\"files\":");
    s.push_str(&jarr(d.files_out.iter().map(|x| jstr(x))));
    s.push_str("}\n");
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    if name.as_deref() == Some(want.as_str()) && !want.is_empty() {
        let r = run_with_tcx!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
