//! MIR extractor.  Used as RUSTC_WRAPPER: every crate is passed through to rustc untouched, except
//! the `qroots` crate, for which the monomorphic MIR reachable from its roots is written as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod json;
use json::J;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap())
}

#[derive(Default)]
struct Cx {
    tys: Vec<Option<J>>,
    tymap: HashMap<Ty, usize>,
    fns: Vec<(String, J)>,
    seen: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    stop: Vec<String>,
    /// Iterator::next and IntoIterator::into_iter
    next: Option<FnDef>,
    into_iter: Option<FnDef>,
    pcmp: Option<FnDef>,
    locals: Vec<LocalDecl>,
    /// unsizing coercions to trait objects: (concrete type, trait object type)
    unsized_to: Vec<(Ty, Ty)>,
    virtuals: Vec<(usize, Instance)>,
    vtable: Vec<J>,
    /// statics named by the body being written: (name, type, mutable, thread-local)
    statics: Vec<(String, Ty, bool, bool)>,
    reached: Vec<J>,
}

impl Cx {
    fn span(&self, sp: rustc_public::ty::Span) -> J {
        let l = sp.get_lines();
        s(format!("{}:{}", sp.get_filename(), l.start_line))
    }

    fn ty(&mut self, ty: Ty) -> J {
        if let Some(&i) = self.tymap.get(&ty) {
            return n(i as i128);
        }
        let i = self.tys.len();
        self.tys.push(None);
        self.tymap.insert(ty, i);
        let j = self.ty_desc(ty);
        self.tys[i] = Some(j);
        n(i as i128)
    }

    fn fields(&mut self, v: &VariantDef, args: &GenericArgs) -> J {
        J::A(v
            .fields()
            .iter()
            .map(|f| {
                let t = self.ty(f.ty_with_args(args));
                J::A(vec![s(f.name.to_string()), t])
            })
            .collect())
    }

    fn ty_desc(&mut self, ty: Ty) -> J {
        let name = format!("{}", ty);
        let k = ty.kind();
        let mut o: Vec<(&'static str, J)> = vec![("str", s(name))];
        let Some(r) = k.rigid() else {
            o.push(("k", s("unknown")));
            return J::O(o);
        };
        match r {
            RigidTy::Bool => o.push(("k", s("bool"))),
            RigidTy::Char => o.push(("k", s("char"))),
            RigidTy::Int(t) => {
                o.push(("k", s("int")));
                o.push(("bits", n(t.num_bytes() as i128 * 8)));
            }
            RigidTy::Uint(t) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(t.num_bytes() as i128 * 8)));
            }
            RigidTy::Float(t) => {
                o.push(("k", s("float")));
                o.push(("name", s(format!("{t:?}"))));
            }
            RigidTy::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("name", s(def.name().to_string())));
                o.push(("crate", s(def.krate().name.to_string())));
                o.push((
                    "kind",
                    s(match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    }),
                ));
                let mut targs = vec![];
                for a in &args.0 {
                    if let GenericArgKind::Type(t) = a {
                        targs.push(self.ty(*t));
                    }
                }
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                for v in def.variants() {
                    let d = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val
                    } else {
                        0
                    };
                    let f = self.fields(&v, args);
                    vs.push(J::O(vec![
                        ("name", s(v.name().to_string())),
                        ("discr", s(d.to_string())),
                        ("fields", f),
                    ]));
                }
                o.push(("variants", J::A(vs)));
                if def.kind() == AdtKind::Enum {
                    if let Some(t) = k.discriminant_ty() {
                        let t = self.ty(t);
                        o.push(("discr_ty", t));
                    }
                }
            }
            RigidTy::Str => o.push(("k", s("str"))),
            RigidTy::Array(t, len) => {
                let t = self.ty(*t);
                o.push(("k", s("array")));
                o.push(("elem", t));
                o.push(("len", n(len.eval_target_usize().unwrap_or(u64::MAX) as i128)));
            }
            RigidTy::Slice(t) => {
                let t = self.ty(*t);
                o.push(("k", s("slice")));
                o.push(("elem", t));
            }
            RigidTy::Pat(t, _) => {
                let t = self.ty(*t);
                o.push(("k", s("pat")));
                o.push(("elem", t));
            }
            RigidTy::RawPtr(t, m) => {
                let t = self.ty(*t);
                o.push(("k", s("ptr")));
                o.push(("elem", t));
                o.push(("mut", J::B(*m == Mutability::Mut)));
            }
            RigidTy::Ref(_, t, m) => {
                let t = self.ty(*t);
                o.push(("k", s("ref")));
                o.push(("elem", t));
                o.push(("mut", J::B(*m == Mutability::Mut)));
            }
            RigidTy::FnDef(def, args) => {
                o.push(("k", s("fndef")));
                o.push(("name", s(def.name().to_string())));
                if let Ok(i) = Instance::resolve(*def, args) {
                    let f = self.inst(i);
                    o.push(("inst", f));
                }
            }
            RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
            RigidTy::Closure(def, args) => {
                o.push(("k", s("closure")));
                if let Ok(i) = Instance::resolve_closure(*def, args, ClosureKind::Fn) {
                    let f = self.inst(i);
                    o.push(("inst", f));
                }
                // upvar tuple type is the last generic argument
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    let t = self.ty(*t);
                    o.push(("upvars", t));
                }
            }
            RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
            RigidTy::Never => o.push(("k", s("never"))),
            RigidTy::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(*t)).collect();
                o.push(("k", s("tuple")));
                o.push(("elems", J::A(v)));
            }
            _ => o.push(("k", s("other"))),
        }
        if let Some(fl) = Self::freeze(&ty) {
            o.push(("layout_size", n(fl as i128)));
        }
        J::O(o)
    }

    fn freeze(ty: &Ty) -> Option<usize> {
        ty.layout().ok().map(|l| l.shape().size.bytes())
    }

    fn inst(&mut self, i: Instance) -> J {
        if let Some(&x) = self.seen.get(&i) {
            return n(x as i128);
        }
        let x = self.fns.len();
        self.seen.insert(i, x);
        self.fns.push((String::new(), J::Null));
        self.queue.push_back((x, i));
        n(x as i128)
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local as i128)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(*t);
                    J::A(vec![s("field"), n(*f as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("cindex"),
                    n(*offset as i128),
                    n(*min_length as i128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("subslice"),
                    n(*from as i128),
                    n(*to as i128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Downcast(v) => J::A(vec![s("downcast"), n(v.to_index() as i128)]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("opaquecast")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtchecks"), s(format!("{r:?}"))]),
        }
    }

    /// Statics and functions an allocation points to.
    fn walk(&mut self, a: &Allocation, mutable: bool, depth: usize) {
        if depth > 20 {
            return;
        }
        for (_, prov) in &a.provenance.ptrs {
            match GlobalAlloc::from(prov.0) {
                GlobalAlloc::Memory(m) => self.walk(&m, false, depth + 1),
                GlobalAlloc::Static(sd) => {
                    let name = sd.name().to_string();
                    if name.contains("{nested#") {
                        // memory a static points to: the static's own type covers it
                        if let Ok(m) = sd.eval_initializer() {
                            self.walk(&m, false, depth + 1);
                        }
                        continue;
                    }
                    let e = (name.clone(), sd.ty(), mutable, false);
                    if !self.statics.contains(&e) {
                        self.statics.push(e);
                        if let Ok(m) = sd.eval_initializer() {
                            self.walk(&m, false, depth + 1);
                        }
                    }
                }
                GlobalAlloc::Function(i) => {
                    let f = self.inst(i);
                    self.reached.push(f);
                }
                _ => {}
            }
        }
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        let mutable = matches!(c.ty().kind().rigid(), Some(RigidTy::RawPtr(_, Mutability::Mut)));
        match c.kind() {
            ConstantKind::Allocated(a) => self.walk(a, mutable, 0),
            ConstantKind::Ty(tc) => {
                if let TyConstKind::Value(_, a) = tc.kind() {
                    let a = a.clone();
                    self.walk(&a, mutable, 0)
                }
            }
            _ => {}
        }
        let v = match c.kind() {
            ConstantKind::ZeroSized => J::A(vec![s("zst")]),
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => {
                    let ty = *ty;
                    let a = a.clone();
                    self.decode(&a, 0, ty, 0)
                }
                TyConstKind::ZSTValue(_) => J::A(vec![s("zst")]),
                _ => J::A(vec![s("opaque")]),
            },
            _ => J::A(vec![s("opaque")]),
        };
        J::O(vec![("ty", t), ("v", v)])
    }

    fn uint(a: &Allocation, off: usize, size: usize) -> Option<u128> {
        if a.provenance.ptrs.iter().any(|(o, _)| *o >= off && *o < off + size) {
            return None;
        }
        let mut r = 0u128;
        for i in (0..size).rev() {
            r = (r << 8) | u128::from((*a.bytes.get(off + i)?)?);
        }
        Some(r)
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> J {
        self.decode_(a, off, ty, depth).unwrap_or_else(|| J::A(vec![s("opaque")]))
    }

    fn decode_(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> Option<J> {
        if depth > 12 {
            return None;
        }
        let k = ty.kind();
        let r = k.rigid()?;
        let shape = ty.layout().ok()?.shape();
        let size = shape.size.bytes();
        Some(match r {
            RigidTy::Bool => J::A(vec![s("bool"), J::B(Self::uint(a, off, 1)? != 0)]),
            RigidTy::Char => J::A(vec![s("int"), s(Self::uint(a, off, 4)?.to_string())]),
            RigidTy::Uint(_) => J::A(vec![s("int"), s(Self::uint(a, off, size)?.to_string())]),
            RigidTy::Int(_) => {
                let u = Self::uint(a, off, size)?;
                let sh = 128 - size * 8;
                let v = ((u << sh) as i128) >> sh;
                J::A(vec![s("int"), s(v.to_string())])
            }
            RigidTy::Float(_) => {
                let u = Self::uint(a, off, size)?;
                let f = if size == 4 {
                    f32::from_bits(u as u32) as f64
                } else {
                    f64::from_bits(u as u64)
                };
                J::A(vec![s("float"), s(format!("{:?}", f)), s(f.to_bits().to_string())])
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return Some(J::A(vec![s("rawint"), s(Self::uint(a, off, 8)?.to_string())]));
                };
                let mut pos = 0usize;
                for i in (0..8).rev() {
                    pos = (pos << 8) | usize::from((*a.bytes.get(off + i)?)?);
                }
                let mut stat = J::Null;
                let target = match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(sd) => {
                        stat = s(sd.name().to_string());
                        sd.eval_initializer().ok()?
                    }
                    GlobalAlloc::Function(i) => {
                        let f = self.inst(i);
                        return Some(J::A(vec![s("fnref"), f]));
                    }
                    _ => return None,
                };
                match t.kind().rigid()? {
                    RigidTy::Str => {
                        let len = Self::uint(a, off + 8, 8)? as usize;
                        let b: Option<Vec<u8>> =
                            target.bytes.get(pos..pos + len)?.iter().copied().collect();
                        J::A(vec![s("strref"), s(String::from_utf8_lossy(&b?).to_string())])
                    }
                    RigidTy::Slice(e) => {
                        let len = Self::uint(a, off + 8, 8)? as usize;
                        let es = e.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.decode(&target, pos + i * es, *e, depth + 1));
                        }
                        J::A(vec![s("sliceref"), J::A(v), stat])
                    }
                    RigidTy::Dynamic(..) => return None,
                    _ => {
                        let inner = self.decode(&target, pos, *t, depth + 1);
                        J::A(vec![s("ref"), inner, stat])
                    }
                }
            }
            RigidTy::Array(e, len) => {
                let es = e.layout().ok()?.shape().size.bytes();
                let len = len.eval_target_usize().ok()? as usize;
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.decode(a, off + i * es, *e, depth + 1));
                }
                J::A(vec![s("array"), J::A(v)])
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + offsets[i].bytes(), *t, depth + 1));
                }
                J::A(vec![s("tuple"), J::A(v)])
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return None;
                }
                let (idx, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                            if let FieldsShape::Primitive = shape.fields {
                                return None;
                            }
                            return None;
                        };
                        (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let toff = off + offsets[*tag_field].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                        };
                        let tsize = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        };
                        let isptr = a
                            .provenance
                            .ptrs
                            .iter()
                            .any(|(o, _)| *o >= toff && *o < toff + tsize);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let t = Self::uint(a, toff, tsize)?;
                                let mask = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                def.variants_iter()
                                    .position(|v| (def.discriminant_for_variant(v.idx()).val & mask) == t)?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr {
                                    untagged_variant.to_index()
                                } else {
                                    let t = Self::uint(a, toff, tsize)?;
                                    let mask = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                    let rel = t.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = def.variants().into_iter().nth(idx)?;
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    fs.push(self.decode(a, off + offs[i], f.ty_with_args(args), depth + 1));
                }
                J::A(vec![s("adt"), n(idx as i128), J::A(fs)])
            }
            RigidTy::FnDef(..) => J::A(vec![s("zst")]),
            RigidTy::Closure(..) if size == 0 => J::A(vec![s("zst")]),
            RigidTy::FnPtr(_) => {
                let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => {
                        let f = self.inst(i);
                        J::A(vec![s("fnref"), f])
                    }
                    _ => return None,
                }
            }
            RigidTy::Pat(t, _) => return self.decode_(a, off, *t, depth + 1),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("addrof"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.operand(o)).collect());
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("agg"), s("array"), ops, t])
                    }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), ops]),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = self.ty(def.ty_with_args(args));
                        J::A(vec![
                            s("agg"),
                            s("adt"),
                            ops,
                            t,
                            n(v.to_index() as i128),
                            active.map_or(J::Null, |x| n(x as i128)),
                        ])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        J::A(vec![s("agg"), s("closure"), ops, t])
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        J::A(vec![s("agg"), s("rawptr"), ops, t])
                    }
                    _ => J::A(vec![s("agg"), s("other"), ops]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                J::A(vec![s("cbin"), s(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(o);
                let kind = format!("{k:?}");
                let mut v = vec![s("cast"), s(kind.clone()), oj, self.ty(*t)];
                if kind.contains("Unsize") {
                    if let Ok(from) = o.ty(&self.locals) {
                        if let (Some(a), Some(b)) = (pointee(from), pointee(*t)) {
                            if matches!(b.kind().rigid(), Some(RigidTy::Dynamic(..))) {
                                v.push(J::Null);
                                v.push(self.ty(a));
                                if !self.unsized_to.contains(&(a, b)) {
                                    self.unsized_to.push((a, b));
                                }
                            }
                        }
                    }
                }
                if kind.contains("ReifyFnPointer") {
                    if let Operand::Constant(c) = o {
                        if let Some((d, args)) = c.const_.ty().kind().fn_def() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, args) {
                                v.push(self.inst(i));
                            }
                        }
                    }
                }
                if kind.contains("ClosureFnPointer") {
                    let lt = match o {
                        Operand::Constant(c) => Some(c.const_.ty()),
                        _ => None,
                    };
                    if let Some(t) = lt {
                        if let TyKind::RigidTy(RigidTy::Closure(d, args)) = t.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                                v.push(self.inst(i));
                            }
                        }
                    }
                }
                J::A(v)
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                self.place(p),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("reborrow"), self.place(p), J::B(*m == Mutability::Mut)])
            }
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.operand(o),
                n(c.eval_target_usize().unwrap_or(u64::MAX) as i128),
            ]),
            Rvalue::ThreadLocalRef(item) => {
                let e = (item.name().to_string(), item.ty(), false, true);
                if !self.statics.contains(&e) {
                    self.statics.push(e);
                }
                J::A(vec![s("tls"), s(item.name().to_string())])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o)]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
        }
    }

    fn callee(&mut self, func: &Operand, body: &Body) -> J {
        let Ok(t) = func.ty(body.locals()) else { return J::Null };
        if let Some((d, args)) = t.kind().fn_def() {
            if let Ok(i) = Instance::resolve(d, args) {
                return self.inst(i);
            }
            return J::O(vec![("unresolved", s(d.name().to_string()))]);
        }
        J::Null
    }

    fn term(&mut self, t: &Terminator, body: &Body) -> J {
        let sp = self.span(t.source_info.span);
        let k = match &t.kind {
            TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target as i128)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets
                    .branches()
                    .map(|(v, b)| J::A(vec![s(v.to_string()), n(b as i128)]))
                    .collect();
                let t = discr.ty(body.locals()).unwrap();
                J::A(vec![
                    s("switch"),
                    self.operand(discr),
                    J::A(br),
                    n(targets.otherwise() as i128),
                    self.ty(t),
                ])
            }
            TerminatorKind::Resume => J::A(vec![s("resume")]),
            TerminatorKind::Abort => J::A(vec![s("abort")]),
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(body.locals()).unwrap();
                let i = Instance::resolve_drop_in_place(t);
                let d = if i.is_empty_shim() { J::Null } else { self.inst(i) };
                J::A(vec![s("drop"), self.place(place), n(*target as i128), d])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let c = self.callee(func, body);
                let args = args.iter().map(|a| self.operand(a)).collect();
                J::A(vec![
                    s("call"),
                    c,
                    J::A(args),
                    self.place(destination),
                    target.map_or(J::Null, |t| n(t as i128)),
                    self.operand(func),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ops): (String, Vec<&Operand>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                    AssertMessage::Overflow(op, a, b) => (format!("Overflow{op:?}"), vec![a, b]),
                    AssertMessage::OverflowNeg(a) => ("OverflowNeg".into(), vec![a]),
                    AssertMessage::DivisionByZero(a) => ("DivisionByZero".into(), vec![a]),
                    AssertMessage::RemainderByZero(a) => ("RemainderByZero".into(), vec![a]),
                    x => (format!("{x:?}"), vec![]),
                };
                let ops = ops.into_iter().map(|o| self.operand(o)).collect();
                J::A(vec![
                    s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    s(m),
                    J::A(ops),
                    n(*target as i128),
                ])
            }
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        };
        J::A(vec![k, sp])
    }

    fn body(&mut self, b: &Body) -> J {
        self.locals = b.locals().to_vec();
        let locals = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(J::A(vec![s("assign"), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, n(variant_index.to_index() as i128), sp]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let a = match i {
                            NonDivergingIntrinsic::Assume(o) => {
                                J::A(vec![s("assume"), self.operand(o), sp])
                            }
                            NonDivergingIntrinsic::CopyNonOverlapping(c) => J::A(vec![
                                s("copy_nonoverlapping"),
                                self.operand(&c.src),
                                self.operand(&c.dst),
                                self.operand(&c.count),
                                sp,
                            ]),
                        };
                        st.push(a);
                    }
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, b);
            blocks.push(J::A(vec![J::A(st), t]));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(J::A(vec![n(l as i128), s(v.name.to_string())]));
            }
        }
        J::O(vec![
            ("argc", n(b.arg_locals().len() as i128)),
            ("spread", b.spread_arg().map_or(J::Null, |x| n(x as i128))),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn drain(&mut self) {
        loop {
            self.drain_queue();
            let done = (self.unsized_to.len(), self.virtuals.len());
            let mut new = vec![];
            for (a, b) in &self.unsized_to {
                for (x, v) in &self.virtuals {
                    let mut args = v.args().0.clone();
                    if args.first() == Some(&GenericArgKind::Type(*b)) {
                        args[0] = GenericArgKind::Type(*a);
                        new.push((*a, *x, v.def, GenericArgs(args)));
                    }
                }
            }
            self.vtable.clear();
            for (a, x, d, args) in new {
                if let Ok(i) = Instance::resolve(FnDef(d.def_id()), &args) {
                    let t = self.ty(a);
                    let f = self.inst(i);
                    self.vtable.push(J::A(vec![t, n(x as i128), f]));
                }
            }
            if self.queue.is_empty() && done == (self.unsized_to.len(), self.virtuals.len()) {
                break;
            }
        }
    }

    fn drain_queue(&mut self) {
        while let Some((x, i)) = self.queue.pop_front() {
            let name = i.name().to_string();
            let mut o = vec![
                ("name", s(name.clone())),
                ("def", s(i.def.name().to_string())),
                ("sym", s(i.mangled_name().to_string())),
                ("crate", s(i.def.krate().name.to_string())),
                ("kind", s(match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                })),
                ("foreign", J::B(i.kind == InstanceKind::Item && i.is_foreign_item())),
                ("span", self.span(i.def.span())),
            ];
            if let Some(iname) = i.intrinsic_name() {
                o.push(("intrinsic", s(iname.to_string())));
            }
            if matches!(i.kind, InstanceKind::Virtual { .. }) {
                self.virtuals.push((x, i));
            }
            let mut targs = vec![];
            for a in &i.args().0 {
                if let GenericArgKind::Type(t) = a {
                    targs.push(self.ty(*t));
                }
            }
            o.push(("targs", J::A(targs)));
            let dname = i.def.name().to_string();
            // consumers the analyzer drives itself: which `next` to call
            if dname.ends_with("Iterator::collect") || dname.ends_with("::from_iter") || dname.ends_with("::from_iterator") || dname.ends_with("::extend") {
                let arg = if dname.ends_with("Iterator::collect") { 0 } else { usize::MAX };
                let tys: Vec<Ty> = i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
                let t = if arg == 0 { tys.first() } else { tys.last() };
                if let (Some(t), Some(next), Some(into)) = (t, self.next, self.into_iter) {
                    let it = if arg == 0 {
                        Some(*t)
                    } else if let Ok(ii) = Instance::resolve(into, &GenericArgs(vec![GenericArgKind::Type(*t)])) {
                        let f = self.inst(ii);
                        o.push(("into_iter", f));
                        ii.body().map(|b| b.ret_local().ty)
                    } else {
                        None
                    };
                    if let Some(it) = it {
                        if let Ok(ni) = Instance::resolve(next, &GenericArgs(vec![GenericArgKind::Type(it)])) {
                            let f = self.inst(ni);
                            o.push(("next", f));
                        }
                    }
                }
            }
            // sorting the analyzer does itself: how two elements or keys compare
            let by = match dname.rsplit("::").next().unwrap_or("") {
                "sort" | "sort_unstable" | "is_sorted" | "binary_search" => 0,
                "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" | "binary_search_by_key" => 1,
                "is_sorted_by_key" => 2,
                _ => usize::MAX,
            };
            if dname.contains("slice") && by < usize::MAX {
                let tys: Vec<Ty> = i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
                if let (Some(t), Some(p)) = (tys.get(by), self.pcmp) {
                    if let Ok(ni) = Instance::resolve(p, &GenericArgs(vec![GenericArgKind::Type(*t), GenericArgKind::Type(*t)])) {
                        let f = self.inst(ni);
                        o.push(("pcmp", f));
                    }
                }
            }
            // library crates by where the function is defined, parts of std by name
            let krate = format!("{}::", i.def.krate().name);
            let stop = self.stop.iter().any(|p| {
                *p == krate || (!p.starts_with("nalgebra") && (name.starts_with(p.as_str()) || name.contains(&format!("<{p}"))))
            });
            if !stop {
                let virt = matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic);
                let has = !virt && (i.kind == InstanceKind::Shim || i.has_body());
                if has {
                    if let Some(b) = i.body() {
                        self.statics.clear();
                        self.reached.clear();
                        let b = self.body(&b);
                        o.push(("body", b));
                        let st: Vec<_> = std::mem::take(&mut self.statics);
                        let st = st
                            .into_iter()
                            .map(|(n, t, m, l)| {
                                let t = self.ty(t);
                                J::A(vec![s(n), t, J::B(m), J::B(l)])
                            })
                            .collect::<Vec<_>>();
                        if !st.is_empty() {
                            o.push(("statics", J::A(st)));
                        }
                        if !self.reached.is_empty() {
                            o.push(("reached", J::A(std::mem::take(&mut self.reached))));
                        }
                    }
                }
            }
            if i.mangled_name().starts_with("_RNc") {
                // constructor of a tuple struct or variant used as a function
                if let Some(sig) = i.ty().kind().fn_sig() {
                    let r = self.ty(sig.value.output());
                    o.push(("ctor", r));
                }
            }
            self.fns[x] = (name, J::O(o));
        }
    }
}

fn dump(out: String) -> ControlFlow<()> {
    let mut cx = Cx::default();
    cx.stop = std::env::var("QDRIVER_STOP")
        .unwrap_or_default()
        .split(',')
        .filter(|x| !x.is_empty())
        .map(str::to_string)
        .collect();
    for td in rustc_public::all_trait_decls() {
        let name = td.name().to_string();
        let want = match name.as_str() {
            "std::iter::Iterator" | "core::iter::Iterator" => "next",
            "std::iter::IntoIterator" | "core::iter::IntoIterator" => "into_iter",
            "std::cmp::PartialOrd" | "core::cmp::PartialOrd" => "partial_cmp",
            _ => continue,
        };
        for f in assoc_fns(td.associated_items()) {
            if f.trimmed_name().to_string().ends_with(want) {
                match want {
                    "next" => cx.next = Some(f),
                    "into_iter" => cx.into_iter = Some(f),
                    _ => cx.pcmp = Some(f),
                }
                break;
            }
        }
    }
    let mut roots = vec![];
    let local = rustc_public::local_crate();
    for f in local.fn_defs() {
        let name = f.trimmed_name().to_string();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("r_") || last.starts_with("s_") {
            if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                let j = cx.inst(i);
                roots.push(J::A(vec![s(last), j]));
            }
        }
    }
    // Every type implementing the calendar trait, and the trait method instances for it.
    let mut cals = vec![];
    let mut impls = vec![];
    for im in rustc_public::all_trait_impls() {
        let t = im.trait_impl().value;
        let tr = t.def_id.name().to_string();
        if tr == "calendar::Calendar" || tr == "Debug" && false {
            let selfty = t.self_ty();
            let kind = selfty.kind();
            let Some(RigidTy::Adt(def, args)) = kind.rigid().cloned() else { continue };
            impls.push(s(format!("{}", selfty)));
            if !args.0.is_empty() {
                continue;
            }
            let tyj = cx.ty(selfty);
            let mut ms = vec![];
            for item in assoc_fns(t.def_id.associated_items()) {
                let a = GenericArgs(vec![GenericArgKind::Type(selfty)]);
                if let Ok(i) = Instance::resolve(item, &a) {
                    let j = cx.inst(i);
                    ms.push(J::A(vec![s(item.trimmed_name().to_string()), j]));
                }
            }
            // inherent associated functions
            let mut inh = vec![];
            for f in find_inherent(&def) {
                if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                    let j = cx.inst(i);
                    inh.push(J::A(vec![s(f.trimmed_name().to_string()), j]));
                }
            }
            cals.push(J::O(vec![
                ("name", s(def.name().to_string())),
                ("crate", s(def.krate().name.to_string())),
                ("ty", tyj),
                ("methods", J::A(ms)),
                ("inherent", J::A(inh)),
            ]));
        }
    }
    // every function of the library crates; those without type parameters become roots of the effect analysis
    let mut public = vec![];
    for k in rustc_public::external_crates() {
        let kn = k.name.to_string();
        if !(kn == "calendar" || kn.starts_with("qlab")) {
            continue;
        }
        for f in k.fn_defs() {
            let mut id = J::Null;
            let ty = f.ty();
            if let Some((d, args)) = ty.kind().fn_def() {
                if args.0.iter().all(|a| matches!(a, GenericArgKind::Lifetime(_))) {
                    if let Ok(i) = Instance::resolve(d, args) {
                        id = cx.inst(i);
                    }
                }
            }
            public.push(J::A(vec![s(f.name().to_string()), s(kn.clone()), id, cx.span(f.span())]));
        }
    }
    cx.drain();
    let fns = std::mem::take(&mut cx.fns);
    let tys = std::mem::take(&mut cx.tys);
    let j = J::O(vec![
        ("roots", J::A(roots)),
        ("calendars", J::A(cals)),
        ("calendar_impls", J::A(impls)),
        ("fns", J::A(fns.into_iter().map(|x| x.1).collect())),
        ("library", J::A(public)),
        ("vtable", J::A(std::mem::take(&mut cx.vtable))),
        ("tys", J::A(tys.into_iter().map(|x| x.unwrap_or(J::Null)).collect())),
    ]);
    let mut buf = String::new();
    j.write(&mut buf);
    let tmp = format!("{out}.tmp{}", std::process::id());
    std::fs::write(&tmp, buf).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind().rigid()? {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(*t),
        RigidTy::Adt(d, args) if d.is_box() => match args.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}

fn assoc_fns(items: Vec<AssocItem>) -> Vec<FnDef> {
    items
        .into_iter()
        .filter(|i| matches!(i.kind, AssocKind::Fn { .. }))
        .map(|i| FnDef(i.def_id.def_id()))
        .collect()
}

fn find_inherent(def: &AdtDef) -> Vec<FnDef> {
    def.inherent_impls().into_iter().flat_map(|i| assoc_fns(i.associated_items())).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let is_roots = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "qroots");
    if !is_roots {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let out = std::env::var("QDRIVER_OUT").expect("QDRIVER_OUT");
    let rargs: Vec<String> = args[1..].to_vec();
    let r = run!(&rargs, || dump(out));
    match r {
        Ok(()) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
