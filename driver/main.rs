// rustc_private driver: dumps the monomorphised MIR reachable from a crate's
// own functions, with resolved callees, types, decoded constants, dyn-dispatch
// tables and spans, as JSON for the analyses in /verif/sa.
//
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{Scalar, Primitive};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone, Debug)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{n}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

const STOP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "std::io", "core::panicking", "std::panicking", "alloc::raw_vec", "std::thread",
    "std::sync", "alloc::sync", "core::sync", "alloc::alloc", "core::alloc", "std::alloc", "std::collections::hash",
    "alloc::collections::btree", "core::slice::sort", "core::unicode", "std::fs", "std::path", "std::sys", "std::ffi",
    "std::env", "std::time", "core::str", "alloc::str", "std::process", "std::backtrace", "core::ub_checks",
    "core::ptr::drop_in_place", "std::rt", "std::error", "core::num::flt2dec", "core::num::dec2flt", "core::hash",
    "alloc::collections::vec_deque", "core::core_arch", "std_detect", "alloc::string", "core::panic", "alloc::vec::spec",
    "alloc::slice", "alloc::ffi", "core::ffi", "core::char",
];

struct Cx {
    local: String,
    types: Vec<J>,
    type_ids: HashMap<Ty, usize>,
    type_q: VecDeque<(usize, Ty)>,
    inst: Vec<Option<J>>,
    inst_ids: HashMap<Instance, usize>,
    inst_q: VecDeque<(usize, Instance)>,
    statics: Vec<J>,
    static_ids: HashMap<StaticDef, usize>,
    dyns: Vec<J>,
    dyn_seen: HashMap<(Ty, Ty), ()>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
}

fn krate(d: &impl CrateDef) -> String {
    d.krate().name.to_string()
}
fn is_std(k: &str) -> bool {
    matches!(k, "core" | "alloc" | "std")
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&x) = self.type_ids.get(&t) {
            return x;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.type_ids.insert(t, id);
        self.type_q.push_back((id, t));
        id
    }
    fn instance(&mut self, x: Instance) -> usize {
        if let Some(&k) = self.inst_ids.get(&x) {
            return k;
        }
        let id = self.inst.len();
        self.inst.push(None);
        self.inst_ids.insert(x, id);
        self.inst_q.push_back((id, x));
        id
    }
    fn stat(&mut self, d: StaticDef) -> usize {
        if let Some(&k) = self.static_ids.get(&d) {
            return k;
        }
        let id = self.statics.len();
        self.statics.push(J::N);
        self.static_ids.insert(d, id);
        let t = self.ty(d.ty());
        let init = match d.eval_initializer() {
            Ok(a) if krate(&d) == self.local => self.decode(d.ty(), &a, 0, 0),
            _ => J::N,
        };
        self.statics[id] = J::O(vec![("name", s(d.name())), ("crate", s(krate(&d))), ("ty", i(t)), ("init", init),
            ("span", self.span(d.span()))]);
        id
    }
    fn span(&mut self, sp: Span) -> J {
        let f = sp.get_filename().to_string();
        let l = sp.get_lines().start_line;
        let id = match self.file_ids.get(&f) {
            Some(&x) => x,
            None => {
                let id = self.files.len();
                self.files.push(f.clone());
                self.file_ids.insert(f, id);
                id
            }
        };
        J::A(vec![i(id), i(l)])
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(J::O(vec![("t", { let k = self.ty(*t); i(k) })])),
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", self.tyconst(c))])),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn tyconst(&mut self, c: &TyConst) -> J {
        match c.kind() {
            TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
            _ => match c.eval_target_usize() { Ok(n) => J::I(n as i128), _ => J::N },
        }
    }
    fn describe(&mut self, t: Ty) -> J {
        let name = format!("{t}");
        let mut o: Vec<(&'static str, J)> = vec![("name", s(name))];
        let k = t.kind();
        let r = match &k {
            TyKind::RigidTy(r) => r,
            _ => {
                o.push(("k", s("other")));
                return J::O(o);
            }
        };
        match r {
            RigidTy::Bool => o.push(("k", s("bool"))),
            RigidTy::Char => o.push(("k", s("char"))),
            RigidTy::Int(x) => { o.push(("k", s("int"))); o.push(("signed", J::B(true))); o.push(("bits", i(x.num_bytes() * 8))) }
            RigidTy::Uint(x) => { o.push(("k", s("int"))); o.push(("signed", J::B(false))); o.push(("bits", i(x.num_bytes() * 8))) }
            RigidTy::Float(f) => {
                o.push(("k", s("float")));
                o.push(("bits", i(match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 })))
            }
            RigidTy::Str => o.push(("k", s("str"))),
            RigidTy::Never => o.push(("k", s("never"))),
            RigidTy::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("elem", i(e)));
                o.push(("len", match n.eval_target_usize() { Ok(n) => J::I(n as i128), _ => J::N }));
            }
            RigidTy::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(*e); o.push(("elem", i(e))) }
            RigidTy::RawPtr(e, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(*m == Mutability::Mut))); let e = self.ty(*e); o.push(("to", i(e))) }
            RigidTy::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(*m == Mutability::Mut))); let e = self.ty(*e); o.push(("to", i(e))) }
            RigidTy::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| { let k = self.ty(*t); i(k) }).collect();
                o.push(("elems", J::A(v)));
            }
            RigidTy::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(d.name())));
                let kr = krate(d);
                o.push(("crate", s(kr.clone())));
                o.push(("args", self.gargs(a)));
                let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                o.push(("adt", s(kind)));
                if kr == self.local || is_std(&kr) || kr == "num_complex" || kr == "rusty_chromaprint" || kr == "rubato" || kr == "symphonia_core" {
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            let fi = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), i(fi)]));
                        }
                        let discr = if kind == "enum" { J::I(d.discriminant_for_variant(v.idx()).val as i128) } else { J::N };
                        vs.push(J::O(vec![("name", s(v.name().to_string())), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            RigidTy::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(d.name())));
                o.push(("crate", s(krate(d))));
                let tys: Vec<Ty> = a.0.iter().filter_map(|x| match x { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
                if tys.len() >= 3 {
                    let kt = tys[tys.len() - 3];
                    let kind = match kt.kind() {
                        TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => ClosureKind::FnOnce,
                        TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                        _ => ClosureKind::Fn,
                    };
                    if let Ok(x) = Instance::resolve_closure(*d, a, kind) {
                        let k = self.instance(x);
                        o.push(("body", i(k)));
                    }
                    if let TyKind::RigidTy(RigidTy::Tuple(ups)) = tys[tys.len() - 1].kind() {
                        let v = ups.iter().map(|t| { let k = self.ty(*t); i(k) }).collect();
                        o.push(("upvars", J::A(v)));
                    }
                }
            }
            RigidTy::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(d.name())));
                o.push(("crate", s(krate(d))));
                o.push(("args", self.gargs(a)));
                if let Ok(x) = Instance::resolve(*d, a) {
                    let k = self.instance(x);
                    o.push(("inst", i(k)));
                }
            }
            RigidTy::FnPtr(sig) => {
                o.push(("k", s("fnptr")));
                let sig = sig.clone().skip_binder();
                let v = sig.inputs().iter().map(|t| { let k = self.ty(*t); i(k) }).collect();
                o.push(("inputs", J::A(v)));
                let r = self.ty(sig.output());
                o.push(("output", i(r)));
            }
            RigidTy::Dynamic(p, _) => {
                o.push(("k", s("dyn")));
                let mut tr = J::N;
                for b in p {
                    if let ExistentialPredicate::Trait(t) = b.clone().skip_binder() {
                        tr = s(t.def_id.name());
                    }
                }
                o.push(("trait", tr));
            }
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
    // ---- constants
    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n > 16 || off + n > a.bytes.len() {
            return None;
        }
        let mut v = 0u128;
        for k in (0..n).rev() {
            v = (v << 8) | (a.bytes[off + k]? as u128);
        }
        Some(v)
    }
    fn decode_elems(&mut self, e: Ty, a: &Allocation, off: usize, n: usize, depth: usize) -> J {
        let st = match e.layout() { Ok(l) => l.shape().size.bytes(), _ => return J::N };
        if n > 1 << 16 {
            return J::N;
        }
        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let mut h = String::new();
            for k in 0..n {
                match a.bytes.get(off + k).copied().flatten() {
                    Some(b) => { let _ = write!(h, "{b:02x}"); }
                    None => return J::N,
                }
            }
            return J::O(vec![("hex", J::S(h))]);
        }
        let mut v = vec![];
        for k in 0..n {
            v.push(self.decode(e, a, off + k * st, depth + 1));
        }
        J::O(vec![("arr", J::A(v))])
    }
    fn decode_ptr(&mut self, to: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let base = Self::uint(a, off, 8).unwrap_or(0) as usize;
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
        let Some(p) = prov else { return J::O(vec![("addr", J::I(base as i128))]) };
        match GlobalAlloc::from(p.0) {
            GlobalAlloc::Memory(m) => match to.kind() {
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    let v = self.decode_elems(e, &m, base, n, depth + 1);
                    J::O(vec![("ref", v)])
                }
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                    let b: Option<Vec<u8>> = m.bytes[base..base + n].iter().copied().collect();
                    match b {
                        Some(b) => J::O(vec![("str", J::S(String::from_utf8_lossy(&b).into_owned()))]),
                        None => J::N,
                    }
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => J::N,
                _ => {
                    let sz = to.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    // a pointer to one u8 of a larger block (e.g. a byte template): keep the block
                    if sz == 1 && m.bytes.len() > 1 {
                        let v = self.decode_elems(to, &m, base, m.bytes.len() - base, depth + 1);
                        return J::O(vec![("ref", v)]);
                    }
                    let v = self.decode(to, &m, base, depth + 1);
                    J::O(vec![("ref", v)])
                }
            },
            GlobalAlloc::Static(d) => { let k = self.stat(d); J::O(vec![("static", i(k))]) }
            GlobalAlloc::Function(x) => { let k = self.instance(x); J::O(vec![("fn", i(k))]) }
            GlobalAlloc::VTable(..) => J::N,
            _ => J::N,
        }
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        if depth > 12 {
            return J::N;
        }
        let TyKind::RigidTy(r) = t.kind() else { return J::N };
        let num = |n: usize| Self::uint(a, off, n);
        match r {
            RigidTy::Bool => num(1).map_or(J::N, |v| J::I(v as i128)),
            RigidTy::Char => num(4).map_or(J::N, |v| J::I(v as i128)),
            RigidTy::Uint(u) => num(u.num_bytes()).map_or(J::N, |v| if v <= i128::MAX as u128 { J::I(v as i128) } else { J::S(v.to_string()) }),
            RigidTy::Int(u) => num(u.num_bytes()).map_or(J::N, |v| {
                let b = u.num_bytes() * 8;
                let sh = 128 - b as u32;
                J::I(((v << sh) as i128) >> sh)
            }),
            RigidTy::Float(FloatTy::F64) => num(8).map_or(J::N, |v| J::O(vec![("f64", J::S(format!("{:016x}", v)))])),
            RigidTy::Float(FloatTy::F32) => num(4).map_or(J::N, |v| J::O(vec![("f32", J::S(format!("{:08x}", v)))])),
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.decode_ptr(to, a, off, depth),
            RigidTy::FnPtr(_) => self.decode_ptr(t, a, off, depth),
            RigidTy::Array(e, n) => match n.eval_target_usize() {
                Ok(n) => self.decode_elems(e, a, off, n as usize, depth),
                _ => J::N,
            },
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return J::N };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return J::O(vec![("tup", J::A(vec![]))]) };
                let v = ts.iter().enumerate().map(|(k, ft)| self.decode(*ft, a, off + offsets[k].bytes(), depth + 1)).collect();
                J::O(vec![("tup", J::A(v))])
            }
            RigidTy::FnDef(..) => J::O(vec![("zst", J::B(true))]),
            RigidTy::Closure(..) => J::O(vec![("tup", J::A(vec![]))]),
            RigidTy::Adt(d, args) => {
                let Ok(l) = t.layout() else { return J::N };
                let sh = l.shape();
                if d.kind() == AdtKind::Union {
                    return J::N;
                }
                let (var, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return J::N,
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        (rustc_idx(index), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field: _, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[0].bytes(), _ => 0 };
                        let n = { let pr = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.clone() }; match pr { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 } };
                        let hasprov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let Some(v) = Self::uint(a, off + toff, n) else { return J::N };
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                for vv in d.variants_iter() {
                                    let dv = d.discriminant_for_variant(vv.idx()).val;
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    if dv & mask == v {
                                        found = Some(rustc_idx(&vv.idx()));
                                    }
                                }
                                match found { Some(x) => x, None => return J::N }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = rustc_idx(niche_variants.start());
                                let hi = rustc_idx(niche_variants.end());
                                let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                let rel = v.wrapping_sub(*niche_start) & mask;
                                if !hasprov && rel <= (hi - lo) as u128 { lo + rel as usize } else { rustc_idx(untagged_variant) }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let Some(v) = d.variants_iter().nth(var) else { return J::N };
                let mut fs = vec![];
                for (k, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let fo = offs.get(k).copied().unwrap_or(0);
                    fs.push(self.decode(ft, a, off + fo, depth + 1));
                }
                J::O(vec![("adt", i(var)), ("f", J::A(fs))])
            }
            _ => J::N,
        }
    }
    fn constant(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::ZeroSized => match c.ty().kind() {
                TyKind::RigidTy(RigidTy::Adt(..)) => {
                    let a = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                    self.decode(c.ty(), &a, 0, 0)
                }
                _ => J::O(vec![("zst", J::B(true))]),
            },
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0, 0),
            ConstantKind::Ty(tc) => self.tyconst(tc),
            _ => J::N,
        };
        J::O(vec![("ty", i(t)), ("v", v)])
    }
    // ---- bodies
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![i(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(*t); J::A(vec![s("f"), i(*f), i(t)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(*offset as i128), J::I(*min_length as i128), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(*from as i128), J::I(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![s("v"), i(rustc_idx(v))]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("m"), p]) }
            Operand::Constant(c) => { let k = self.constant(&c.const_); J::A(vec![s("k"), k]) }
            Operand::RuntimeChecks(r) => J::A(vec![s("rt"), s(format!("{r:?}"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                let p = self.place(p);
                J::A(vec![s("addr"), J::B(m), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), i(t)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        J::A(vec![s("adt"), i(t), i(rustc_idx(v)), f.map_or(J::N, |x| i(x))])
                    }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); J::A(vec![s("closure"), i(t)]) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("rawptr"), i(t)]) }
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                J::A(vec![s("bin"), s(format!("{op:?}")), a, b])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                J::A(vec![s("cbin"), s(format!("{op:?}")), a, b])
            }
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(st)) = (k, src) {
                    self.unsize(st, *t);
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), Some(st)) = (k, src) {
                    self.ty(st);
                }
                let o2 = self.operand(o);
                let st = match src { Some(x) => { let k = self.ty(x); i(k) }, None => J::N };
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), o2, i(t), st])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                let p = self.place(p);
                J::A(vec![s("discr"), p, i(t)])
            }
            Rvalue::Len(p) => { let p = self.place(p); J::A(vec![s("len"), p]) }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(m), p])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                J::A(vec![s("repeat"), o, match n.eval_target_usize() { Ok(n) => J::I(n as i128), _ => J::N }])
            }
            Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name())]),
            Rvalue::UnaryOp(op, o) => { let o = self.operand(o); J::A(vec![s("un"), s(format!("{op:?}")), o]) }
            Rvalue::Use(o, _) => { let o = self.operand(o); J::A(vec![s("use"), o]) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
        }
    }
    fn unsize(&mut self, src: Ty, dst: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, x, _)) | TyKind::RigidTy(RigidTy::RawPtr(x, _)) => Some(x),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }),
                _ => None,
            }
        }
        let (Some(a), Some(b)) = (pointee(src), pointee(dst)) else { return };
        let bk = b.kind();
        let TyKind::RigidTy(RigidTy::Dynamic(..)) = bk else { return };
        if self.dyn_seen.insert((a, b), ()).is_some() {
            return;
        }
        let Some(p) = bk.trait_principal() else { return };
        let tr = p.skip_binder().with_self_ty(a);
        let mut v = vec![];
        for e in tr.vtable_entries() {
            v.push(match e {
                VtblEntry::Method(x) => { let k = self.instance(x); J::A(vec![i(k), s(x.def.name())]) }
                _ => J::N,
            });
        }
        let (a, b) = (self.ty(a), self.ty(b));
        self.dyns.push(J::O(vec![("src", i(a)), ("dyn", i(b)), ("vtable", J::A(v))]));
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| { let k = self.ty(l.ty); i(k) }).collect();
        let lo = b.locals();
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if d.composite.is_none() {
                    let pl = self.place(p);
                    names.push(J::A(vec![s(d.name.to_string()), pl]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rvalue(r, lo);
                        let p = self.place(p);
                        J::A(vec![s("="), p, r, self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        J::A(vec![s("setd"), p, i(rustc_idx(variant_index))])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        J::A(vec![s("copy"), a, b, n])
                    }
                    _ => continue,
                };
                st.push(j);
            }
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let k = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), i(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(lo).map(|t| self.ty(t)).unwrap_or(0);
                    let d = self.operand(discr);
                    let br = targets.branches().map(|(v, b)| J::A(vec![if v <= i128::MAX as u128 { J::I(v as i128) } else { J::S(v.to_string()) }, i(b)])).collect();
                    J::A(vec![s("switch"), d, J::A(br), i(targets.otherwise()), i(ty)])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(lo).map(|t| self.ty(t)).unwrap_or(0);
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, i(*target), i(ty)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let fty = func.ty(lo).map(|t| self.ty(t)).unwrap_or(0);
                    let a = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let dty = destination.ty(lo).map(|t| self.ty(t)).unwrap_or(0);
                    J::A(vec![s("call"), f, i(fty), J::A(a), d, target.map_or(J::N, |x| i(x)), i(dty)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => { let (a, b) = (self.operand(len), self.operand(index)); J::A(vec![s("bounds"), a, b]) }
                        AssertMessage::Overflow(op, a, b) => { let (a, b) = (self.operand(a), self.operand(b)); J::A(vec![s("overflow"), s(format!("{op:?}")), a, b]) }
                        AssertMessage::OverflowNeg(_) => J::A(vec![s("overflow"), s("Neg")]),
                        AssertMessage::DivisionByZero(_) => J::A(vec![s("div0")]),
                        AssertMessage::RemainderByZero(_) => J::A(vec![s("rem0")]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, i(*target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::A(vec![J::A(st), k, sp]));
        }
        J::O(vec![("argc", i(b.arg_locals().len())), ("locals", J::A(locals)), ("names", J::A(names)),
            ("spread", b.spread_arg().map_or(J::N, |x| i(x))), ("blocks", J::A(blocks))])
    }
    fn dump_instance(&mut self, x: Instance) -> J {
        let path = x.def.name();
        let kr = krate(&x.def);
        let kind = match x.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "llvm".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual:{idx}"),
            InstanceKind::Shim => "shim".to_string(),
        };
        let args = self.gargs(&x.args());
        let mut o = vec![("name", s(x.name())), ("path", s(path.clone())), ("crate", s(kr.clone())), ("kind", s(kind)), ("args", args),
            ("span", self.span(x.def.span()))];
        if let Some(n) = x.intrinsic_name() {
            o.push(("intrinsic", s(n.to_string())));
        }
        let want = kr == self.local
            || (is_std(&kr) && !STOP.iter().any(|p| path.starts_with(p)) && !x.name().starts_with("std::ptr::drop_in_place"));
        if want && matches!(x.kind, InstanceKind::Item | InstanceKind::Shim) {
            // drop glue is not followed: no type of this workspace implements Drop (checked separately)
            if !path.contains("drop_in_place") {
                if let Some(b) = x.body() {
                    let j = self.body(&b);
                    o.push(("body", j));
                }
            }
        }
        J::O(o)
    }
}

fn rustc_idx(v: &VariantIdx) -> usize {
    v.to_index()
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let outdir = std::env::var("SA_OUT").expect("SA_OUT");
    let local = rustc_public::local_crate().name.to_string();
    let kinds: Vec<String> = tcx.crate_types().iter().map(|k| format!("{k:?}")).collect();
    let mut cx = Cx {
        local: local.clone(),
        types: vec![], type_ids: HashMap::new(), type_q: VecDeque::new(),
        inst: vec![], inst_ids: HashMap::new(), inst_q: VecDeque::new(),
        statics: vec![], static_ids: HashMap::new(),
        dyns: vec![], dyn_seen: HashMap::new(),
        files: vec![], file_ids: HashMap::new(),
    };
    let mut roots = vec![];
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        let vis = match tcx.def_kind(did) {
            rustc_hir::def::DefKind::Closure => "closure".to_string(),
            _ => {
                let l = did.expect_local();
                if tcx.effective_visibilities(()).is_reachable(l) { "public".into() } else { "private".into() }
            }
        };
        let is_fn = matches!(it.kind(), ItemKind::Fn);
        let generic = it.requires_monomorphization();
        let sp = cx.span(it.span());
        let safety = if is_fn && tcx.def_kind(did).is_fn_like() && !tcx.is_closure_like(did) {
            format!("{:?}", tcx.fn_sig(did).skip_binder().safety())
        } else { String::new() };
        let mut inst = J::N;
        if is_fn && !generic {
            if let Ok(x) = Instance::try_from(it) {
                let k = cx.instance(x);
                roots.push(i(k));
                inst = i(k);
            }
        }
        items.push(J::O(vec![("path", s(it.name())), ("vis", s(vis)), ("kind", s(format!("{:?}", it.kind()))), ("generic", J::B(generic)),
            ("inst", inst), ("span", sp), ("safety", s(safety))]));
    }
    for d in rustc_public::local_crate().statics() {
        cx.stat(d);
    }
    // all struct/enum definitions of this crate (names and impl'd Drop)
    let mut drops = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let n = im.name();
        drops.push(s(format!("{} {}", n, im.trait_impl().value.def_id.name())));
    }
    loop {
        if let Some((id, x)) = cx.inst_q.pop_front() {
            let j = cx.dump_instance(x);
            cx.inst[id] = Some(j);
        } else if let Some((id, t)) = cx.type_q.pop_front() {
            let j = cx.describe(t);
            cx.types[id] = j;
        } else {
            break;
        }
    }
    // unsafe blocks / unsafe impls / extern blocks in the source of this crate
    let mut unsafes = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'t> { tcx: TyCtxt<'t>, out: Vec<(String, String, String)> }
        impl<'t> V<'t> {
            fn add(&mut self, what: &str, id: rustc_hir::HirId, sp: rustc_span::Span) {
                let o = self.tcx.hir_get_parent_item(id);
                let path = self.tcx.def_path_str(o.to_def_id());
                self.out.push((what.to_string(), path, self.tcx.sess.source_map().span_to_diagnostic_string(sp)));
            }
        }
        impl<'t> Visitor<'t> for V<'t> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'t> { self.tcx }
            fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                        self.add("unsafe block", b.hir_id, b.span);
                    }
                }
                intravisit::walk_block(self, b);
            }
            fn visit_item(&mut self, it: &'t rustc_hir::Item<'t>) {
                let path = self.tcx.def_path_str(it.owner_id.to_def_id());
                let sp = self.tcx.sess.source_map().span_to_diagnostic_string(it.span);
                match &it.kind {
                    rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(("extern block".into(), path, sp)),
                    rustc_hir::ItemKind::GlobalAsm { .. } => self.out.push(("global asm".into(), path, sp)),
                    rustc_hir::ItemKind::Static(m, ..) if m.is_mut() => self.out.push(("static mut".into(), path, sp)),
                    rustc_hir::ItemKind::Impl(im) => if let Some(t) = im.of_trait {
                        if t.safety == rustc_hir::Safety::Unsafe && !it.span.in_external_macro(self.tcx.sess.source_map()) { self.out.push(("unsafe impl".into(), path, sp)) }
                    },
                    rustc_hir::ItemKind::Fn { .. } | rustc_hir::ItemKind::Static(..) => {
                        let a = self.tcx.codegen_fn_attrs(it.owner_id.to_def_id());
                        if a.contains_extern_indicator() && path != "main" && !path.ends_with("::main") { self.out.push(("exported symbol".into(), path, sp)) }
                    }
                    _ => {}
                }
                intravisit::walk_item(self, it);
            }
        }
        let mut v = V { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        for (a, b, c) in v.out { unsafes.push(J::A(vec![s(a), s(b), s(c)])); }
    }
    let statics = std::mem::take(&mut cx.statics);
    let j = J::O(vec![
        ("crate", s(local.clone())),
        ("kinds", J::A(kinds.iter().map(|k| s(k.clone())).collect())),
        ("items", J::A(items)),
        ("roots", J::A(roots)),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("instances", J::A(cx.inst.into_iter().map(|x| x.unwrap_or(J::N)).collect())),
        ("statics", J::A(statics)),
        ("dyns", J::A(cx.dyns)),
        ("files", J::A(cx.files.into_iter().map(J::S).collect())),
        ("trait_impls", J::A(drops)),
        ("unsafe", J::A(unsafes)),
    ]);
    let mut out = String::new();
    j.w(&mut out);
    std::fs::write(format!("{outdir}/{local}.json.tmp"), &out).unwrap();
    std::fs::rename(format!("{outdir}/{local}.json.tmp"), format!("{outdir}/{local}.json")).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.get(1).cloned().unwrap_or_default();
    // argv[1] is the real rustc when run as a wrapper
    if args.len() > 1 && !args[1].starts_with('-') {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|k| args.get(k + 1).cloned());
    let analyse = crate_name.as_deref().map_or(false, |n| n != "___" && n != "build_script_build");
    if !analyse {
        // queries such as `rustc -vV` and `--print`: plain compiler
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&real).args(&args[1..]).exec();
        panic!("cannot run rustc: {e}");
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Coverflow-checks=on".into());
    let r = run_with_tcx!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(_) => std::process::exit(1),
    }
}
