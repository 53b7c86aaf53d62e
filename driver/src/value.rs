//! Structured abstract values, type information and conversions between bytes and values.
use crate::term::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Scalar(N),
    Fat(N, N),
    Agg(Rc<Vec<Value>>),
    Enum { d: N, vs: Rc<Vec<Option<Rc<Vec<Value>>>>> },
    Undef,
}
use Value::*;

#[derive(Clone, Debug)]
pub enum TagI {
    None(usize),
    Direct { off: usize, size: usize },
    Niche { off: usize, size: usize, untagged: usize, lo: usize, hi: usize, start: u128 },
}
#[derive(Clone, Debug)]
pub enum TyI {
    Int { w: u8, signed: bool },
    Bool,
    Char,
    Float(u8),
    Ptr { to: Ty, fat: bool },
    FnPtr,
    Agg(Vec<(usize, Ty)>),
    Enum { vars: Vec<Vec<(usize, Ty)>>, discrs: Vec<u128>, tag: TagI },
    Array(Ty, u64),
    Union(Vec<Ty>),
    Slice(Ty),
    Str,
    Dyn,
    Never,
    Other,
}

pub fn is_sized(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)) => false,
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => match d.variants_iter().next().and_then(|v| v.fields().last().cloned()) {
            Some(f) => is_sized(f.ty_with_args(&a)),
            None => true,
        },
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.last().map(|t| is_sized(*t)).unwrap_or(true),
        _ => true,
    }
}

static mut TYC: *mut HashMap<Ty, Rc<TyI>> = std::ptr::null_mut();
static mut SZC: *mut HashMap<Ty, usize> = std::ptr::null_mut();
pub fn tyi(t: Ty) -> Rc<TyI> {
    unsafe {
        if TYC.is_null() {
            TYC = Box::into_raw(Box::default());
        }
        if let Some(x) = (*TYC).get(&t) {
            return x.clone();
        }
    }
    let r = Rc::new(tyi_(t));
    unsafe { (*TYC).insert(t, r.clone()) };
    r
}
fn int_w(i: IntTy) -> u8 {
    (i.num_bytes() * 8) as u8
}
fn uint_w(i: UintTy) -> u8 {
    (i.num_bytes() * 8) as u8
}
pub fn size_of(t: Ty) -> usize {
    unsafe {
        if SZC.is_null() {
            SZC = Box::into_raw(Box::default());
        }
        if let Some(x) = (*SZC).get(&t) {
            return *x;
        }
        let s = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        (*SZC).insert(t, s);
        s
    }
}
fn tyi_(t: Ty) -> TyI {
    let TyKind::RigidTy(k) = t.kind() else { return TyI::Other };
    let offs = |n: usize| -> Vec<usize> {
        match t.layout().map(|l| l.shape().fields) {
            Ok(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes()).collect(),
            _ => vec![0; n],
        }
    };
    match k {
        RigidTy::Bool => TyI::Bool,
        RigidTy::Char => TyI::Char,
        RigidTy::Int(i) => TyI::Int { w: int_w(i), signed: true },
        RigidTy::Uint(i) => TyI::Int { w: uint_w(i), signed: false },
        RigidTy::Float(f) => TyI::Float(match f {
            FloatTy::F16 => 16,
            FloatTy::F32 => 32,
            FloatTy::F64 => 64,
            FloatTy::F128 => 128,
        }),
        RigidTy::RawPtr(to, _) | RigidTy::Ref(_, to, _) => TyI::Ptr { to, fat: !is_sized(to) },
        RigidTy::FnPtr(_) => TyI::FnPtr,
        RigidTy::FnDef(..) => TyI::Agg(vec![]),
        RigidTy::Tuple(ts) => {
            let o = offs(ts.len());
            TyI::Agg(ts.iter().enumerate().map(|(i, t)| (o.get(i).copied().unwrap_or(0), *t)).collect())
        }
        RigidTy::Closure(_, a) => {
            let up = a.0.last().and_then(|g| g.ty().copied());
            let ts = match up.map(|u| u.kind()) {
                Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts,
                _ => vec![],
            };
            let o = offs(ts.len());
            TyI::Agg(ts.iter().enumerate().map(|(i, t)| (o.get(i).copied().unwrap_or(0), *t)).collect())
        }
        RigidTy::Array(e, n) => TyI::Array(e, n.eval_target_usize().unwrap_or(0)),
        RigidTy::Slice(e) => TyI::Slice(e),
        RigidTy::Str => TyI::Str,
        RigidTy::Dynamic(..) => TyI::Dyn,
        RigidTy::Never => TyI::Never,
        RigidTy::Pat(t, _) => tyi_(t),
        RigidTy::Adt(d, a) => match d.kind() {
            AdtKind::Struct => {
                let v = d.variants_iter().next().unwrap();
                let fs = v.fields();
                let o = offs(fs.len());
                TyI::Agg(fs.iter().enumerate().map(|(i, f)| (o.get(i).copied().unwrap_or(0), f.ty_with_args(&a))).collect())
            }
            AdtKind::Union => TyI::Union(d.variants_iter().next().unwrap().fields().iter().map(|f| f.ty_with_args(&a)).collect()),
            AdtKind::Enum => {
                let vs = d.variants();
                let sh = t.layout().ok().map(|l| l.shape());
                let discrs = vs.iter().map(|v| d.discriminant_for_variant(v.idx()).val).collect();
                let nv = vs.len();
                let mut voffs: Vec<Vec<usize>> = vec![vec![]; nv];
                let mut tag = TagI::None(0);
                if let Some(sh) = sh {
                    match &sh.variants {
                        VariantsShape::Single { index } => {
                            let i = vidx(*index);
                            tag = TagI::None(i);
                            if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                                voffs[i] = offsets.iter().map(|o| o.bytes()).collect();
                            }
                        }
                        VariantsShape::Multiple { tag: sc, tag_encoding, tag_field, variants } => {
                            let off = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let prim = match sc {
                                rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                                rustc_public::abi::Scalar::Union { value } => *value,
                            };
                            let size = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                            tag = match tag_encoding {
                                TagEncoding::Direct => TagI::Direct { off, size },
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => TagI::Niche {
                                    off,
                                    size,
                                    untagged: vidx(*untagged_variant),
                                    lo: vidx(*niche_variants.start()),
                                    hi: vidx(*niche_variants.end()),
                                    start: *niche_start,
                                },
                            };
                            for (i, v) in variants.iter().enumerate() {
                                voffs[i] = v.offsets.iter().map(|o| o.bytes()).collect();
                            }
                        }
                        _ => {}
                    }
                }
                let vars = vs
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        v.fields().iter().enumerate().map(|(j, f)| (voffs[i].get(j).copied().unwrap_or(0), f.ty_with_args(&a))).collect()
                    })
                    .collect();
                TyI::Enum { vars, discrs, tag }
            }
        },
        _ => TyI::Other,
    }
}
pub fn vidx(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

/// Width in bits of a scalar type.
pub fn width(t: Ty) -> u8 {
    match &*tyi(t) {
        TyI::Int { w, .. } => *w,
        TyI::Bool => 1,
        TyI::Char => 32,
        TyI::Float(w) => *w,
        TyI::Ptr { .. } | TyI::FnPtr => 64,
        _ => 64,
    }
}
pub fn signed(t: Ty) -> bool {
    matches!(&*tyi(t), TyI::Int { signed: true, .. })
}
pub fn agg(v: Vec<Value>) -> Value {
    Agg(Rc::new(v))
}
pub fn unit() -> Value {
    agg(vec![])
}
pub fn enumv(nv: usize, i: usize, f: Vec<Value>) -> Value {
    let mut vs = vec![None; nv];
    vs[i] = Some(Rc::new(f));
    Enum { d: m().cn(i as u128), vs: Rc::new(vs) }
}
pub fn none() -> Value {
    enumv(2, 0, vec![])
}
pub fn some(v: Value) -> Value {
    enumv(2, 1, vec![v])
}
/// Option with a symbolic presence condition.
pub fn option(c: N, v: Value) -> Value {
    if c == F {
        return none();
    }
    Enum { d: c, vs: Rc::new(vec![Some(Rc::new(vec![])), Some(Rc::new(vec![v]))]) }
}
pub fn boolv(n: N) -> Value {
    Scalar(n)
}
impl Value {
    pub fn sc(&self) -> N {
        match self {
            Scalar(n) => *n,
            Fat(p, _) => *p,
            Agg(v) if v.len() >= 1 => v.iter().find(|x| !matches!(x, Agg(a) if a.is_empty())).unwrap_or(&v[0]).sc(),
            Enum { d, .. } => *d,
            _ => m().opaque_n(64),
        }
    }
    pub fn fat(&self) -> (N, N) {
        match self {
            Fat(p, l) => (*p, *l),
            Agg(v) => v.iter().find(|x| !matches!(x, Agg(a) if a.is_empty())).map(|x| x.fat()).unwrap_or_else(|| (m().opaque_n(64), m().opaque_n(64))),
            Scalar(p) => (*p, m().opaque_n(64)),
            _ => (m().opaque_n(64), m().opaque_n(64)),
        }
    }
    pub fn field(&self, i: usize) -> Value {
        match self {
            Agg(v) => v.get(i).cloned().unwrap_or(Undef),
            _ => Undef,
        }
    }
}

/// An unknown value of a type.
pub fn opaque(t: Ty) -> Value {
    opaque_d(t, 0)
}
fn opaque_d(t: Ty, d: u32) -> Value {
    if d > 8 {
        return Undef;
    }
    match &*tyi(t) {
        TyI::Int { w, .. } => Scalar(m().opaque_n(*w)),
        TyI::Bool => {
            let o = m().opaque_t(1);
            Scalar(m().cond_in(o, &vec![(1, 1)]))
        }
        TyI::Char => Scalar(m().opaque_n(32)),
        TyI::Float(w) => Scalar(m().opaque_n(*w)),
        TyI::Ptr { fat: false, .. } | TyI::FnPtr => Scalar(m().opaque_n(64)),
        TyI::Ptr { fat: true, .. } => Fat(m().opaque_n(64), m().opaque_n(63)),
        TyI::Agg(fs) => agg(fs.iter().map(|f| opaque_d(f.1, d + 1)).collect()),
        TyI::Enum { vars, .. } => {
            if vars.is_empty() {
                return Undef;
            }
            let o = m().opaque_t(32);
            let mut dn = 0;
            let last = vars.len() - 1;
            for i in (0..=last).rev() {
                let c = m().cn(i as u128);
                if i == last {
                    dn = c;
                } else {
                    let cond = m().cond_in(o, &vec![(i as i128, i as i128)]);
                    dn = m().ite(cond, c, dn);
                }
            }
            Enum { d: dn, vs: Rc::new(vars.iter().map(|fs| Some(Rc::new(fs.iter().map(|f| opaque_d(f.1, d + 1)).collect::<Vec<_>>()))).collect()) }
        }
        TyI::Array(e, n) if *n <= 64 => agg((0..*n).map(|_| opaque_d(*e, d + 1)).collect()),
        TyI::Union(_) => agg(vec![Undef]),
        _ => Undef,
    }
}

/// Symbolic harness parameter.
pub fn symbolic(t: Ty, name: &str) -> Value {
    let atom = |w: u8| -> N {
        let tt = m().mk(Tm::Atom { name: name.into(), w });
        if w == 1 { m().cond_in(tt, &vec![(1, 1)]) } else { m().leaf(tt) }
    };
    match &*tyi(t) {
        TyI::Int { w, .. } if matches!(*w, 16 | 32 | 64 | 128) && !matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) | TyKind::RigidTy(RigidTy::Int(_))) => {
            let v: Vec<T> = (0..*w / 8).map(|i| m().mk(Tm::Atom { name: format!("{name}.b{i}").into(), w: 8 })).collect();
            let c = m().mk_cat(v);
            Scalar(m().leaf(c))
        }
        TyI::Int { w, .. } => Scalar(atom(*w)),
        TyI::Bool => Scalar(atom(1)),
        TyI::Char => Scalar(atom(32)),
        TyI::Ptr { to, fat: true } => match &*tyi(*to) {
            TyI::Slice(e) if size_of(*e) == 1 => {
                let (p, l) = new_region(name);
                Fat(p, l)
            }
            TyI::Str => {
                let (p, l) = new_region(name);
                Fat(p, l)
            }
            _ => Undef,
        },
        TyI::Agg(fs) => agg(fs.iter().enumerate().map(|(i, f)| symbolic(f.1, &format!("{name}.{i}"))).collect()),
        TyI::Array(e, n) => agg((0..*n).map(|i| symbolic(*e, &format!("{name}[{i}]"))).collect()),
        TyI::Enum { vars, .. } => {
            let tt = m().mk(Tm::Atom { name: format!("{name}.tag").into(), w: 8 });
            let last = vars.len() - 1;
            let mut dn = m().cn(last as u128);
            for i in (0..last).rev() {
                let c = m().cn(i as u128);
                let cond = m().cond_in(tt, &vec![(i as i128, i as i128)]);
                dn = m().ite(cond, c, dn);
            }
            Enum {
                d: dn,
                vs: Rc::new(
                    vars.iter()
                        .enumerate()
                        .map(|(v, fs)| Some(Rc::new(fs.iter().enumerate().map(|(i, f)| symbolic(f.1, &format!("{name}.{v}.{i}"))).collect::<Vec<_>>())))
                        .collect(),
                ),
            }
        }
        _ => Undef,
    }
}
pub fn new_region(name: &str) -> (N, N) {
    let id = m().regions.len() as u32;
    let lt = m().mk(Tm::Len(id));
    m().regions.push(crate::term::Region { name: name.into(), bytes: None, known: Default::default(), len: lt });
    let p = m().mk(Tm::Ptr { kind: 1, id, path: Rc::new([]), idx: 0, lim: NONE });
    (m().leaf(p), m().leaf(lt))
}
pub fn const_region(b: &[u8]) -> (N, N) {
    // share identical constants so that equal literals are identical terms
    let rc: Rc<[u8]> = b.into();
    let mg = m();
    let id = match mg.regions.iter().position(|r| r.bytes.as_deref() == Some(b)) {
        Some(i) => i as u32,
        None => {
            let l = mg.c(b.len() as u128);
            mg.regions.push(crate::term::Region { name: "const".into(), bytes: Some(rc), known: Default::default(), len: l });
            mg.regions.len() as u32 - 1
        }
    };
    let p = mg.mk(Tm::Ptr { kind: 1, id, path: Rc::new([]), idx: 0, lim: NONE });
    (mg.leaf(p), mg.cn(b.len() as u128))
}

/// ite on values
pub fn merge(c: N, a: &Value, b: &Value) -> Value {
    if c == TT {
        return a.clone();
    }
    if c == F {
        return b.clone();
    }
    match (a, b) {
        (Undef, x) | (x, Undef) => x.clone(),
        (Scalar(x), Scalar(y)) => Scalar(m().ite(c, *x, *y)),
        (Fat(x, l), Fat(y, k)) => Fat(m().ite(c, *x, *y), m().ite(c, *l, *k)),
        (Agg(x), Agg(y)) => {
            if Rc::ptr_eq(x, y) {
                return a.clone();
            }
            if x.len() != y.len() {
                return Undef;
            }
            agg(x.iter().zip(y.iter()).map(|(p, q)| merge(c, p, q)).collect())
        }
        (Enum { d, vs }, Enum { d: e, vs: ws }) => {
            let nd = m().ite(c, *d, *e);
            if Rc::ptr_eq(vs, ws) {
                return Enum { d: nd, vs: vs.clone() };
            }
            let n = vs.len().max(ws.len());
            let nv = (0..n)
                .map(|i| match (vs.get(i).cloned().flatten(), ws.get(i).cloned().flatten()) {
                    (Some(p), Some(q)) => {
                        if Rc::ptr_eq(&p, &q) {
                            Some(p)
                        } else {
                            Some(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| merge(c, x, y)).collect::<Vec<_>>()))
                        }
                    }
                    (Some(p), None) | (None, Some(p)) => Some(p),
                    _ => None,
                })
                .collect();
            Enum { d: nd, vs: Rc::new(nv) }
        }
        _ => Undef,
    }
}
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Agg(x), Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
        (Enum { d, vs }, Enum { d: e, vs: ws }) => {
            d == e
                && (Rc::ptr_eq(vs, ws)
                    || vs.iter().zip(ws.iter()).all(|(p, q)| match (p, q) {
                        (Some(p), Some(q)) => Rc::ptr_eq(p, q) || p.iter().zip(q.iter()).all(|(x, y)| same(x, y)),
                        (None, None) => true,
                        _ => false,
                    }))
        }
        _ => a == b,
    }
}
/// Apply f to all scalar nodes.
pub fn map_v(v: &Value, f: &mut dyn FnMut(N) -> N) -> Value {
    match v {
        Scalar(n) => Scalar(f(*n)),
        Fat(p, l) => {
            let p = f(*p);
            Fat(p, f(*l))
        }
        Agg(x) => agg(x.iter().map(|y| map_v(y, f)).collect()),
        Enum { d, vs } => {
            let d = f(*d);
            Enum { d, vs: Rc::new(vs.iter().map(|o| o.as_ref().map(|x| Rc::new(x.iter().map(|y| map_v(y, f)).collect::<Vec<_>>()))).collect()) }
        }
        Undef => Undef,
    }
}
pub fn for_v(v: &Value, f: &mut dyn FnMut(N)) {
    match v {
        Scalar(n) => f(*n),
        Fat(p, l) => {
            f(*p);
            f(*l)
        }
        Agg(x) => x.iter().for_each(|y| for_v(y, f)),
        Enum { d, vs } => {
            f(*d);
            vs.iter().flatten().for_each(|x| x.iter().for_each(|y| for_v(y, f)))
        }
        Undef => {}
    }
}

// ------------------------------------------------------------------------ constants
pub struct Consts {
    /// decoded constant objects (pointed to by reference constants)
    pub objs: Vec<(Ty, Value)>,
    pub allocs: HashMap<(usize, Ty), N>,
    pub fns: Vec<rustc_public::mir::mono::Instance>,
    pub vts: Vec<Ty>,
}
static mut CONSTS: *mut Consts = std::ptr::null_mut();
pub fn consts() -> &'static mut Consts {
    unsafe {
        if CONSTS.is_null() {
            CONSTS = Box::into_raw(Box::new(Consts { objs: vec![], allocs: HashMap::new(), fns: vec![], vts: vec![] }));
        }
        &mut *CONSTS
    }
}
pub fn reset_consts() {
    let c = consts();
    c.objs.clear();
    c.allocs.clear();
}
pub const CONST_BASE: u32 = 1 << 28;

pub fn const_obj(t: Ty, v: Value) -> u32 {
    let c = consts();
    for (i, (ct, cv)) in c.objs.iter().enumerate() {
        if *ct == t && same(cv, &v) {
            return CONST_BASE + i as u32;
        }
    }
    c.objs.push((t, v));
    CONST_BASE + c.objs.len() as u32 - 1
}
pub fn obj_ptr(id: u32, path: &[u32], idx: T) -> N {
    let p = m().mk(Tm::Ptr { kind: 0, id, path: path.into(), idx, lim: NONE });
    m().leaf(p)
}
pub fn dangling(v: u128) -> N {
    let i = m().c(v);
    let p = m().mk(Tm::Ptr { kind: 2, id: 0, path: Rc::new([]), idx: i, lim: NONE });
    m().leaf(p)
}
pub fn fnptr(i: rustc_public::mir::mono::Instance) -> N {
    let c = consts();
    let k = match c.fns.iter().position(|x| *x == i) {
        Some(k) => k,
        None => {
            c.fns.push(i);
            c.fns.len() - 1
        }
    };
    let t = m().mk(Tm::FnPtr(k as u32));
    m().leaf(t)
}
pub fn vtable(t: Ty) -> N {
    let c = consts();
    let k = match c.vts.iter().position(|x| *x == t) {
        Some(k) => k,
        None => {
            c.vts.push(t);
            c.vts.len() - 1
        }
    };
    let t = m().mk(Tm::Vt(k as u32));
    m().leaf(t)
}

pub fn byte_like(t: Ty) -> bool {
    match &*tyi(t) {
        TyI::Int { w: 8, .. } => true,
        TyI::Array(e, _) => byte_like(*e),
        TyI::Str => true,
        TyI::Slice(e) => byte_like(*e),
        TyI::Agg(fs) if fs.len() == 1 => byte_like(fs[0].1),
        _ => false,
    }
}

pub fn decode_alloc(a: &Allocation, off: usize, t: Ty) -> Value {
    let rd = |o: usize, n: usize| -> Option<u128> {
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = (v << 8) | (*a.bytes.get(o + i)?)? as u128;
        }
        Some(v)
    };
    match &*tyi(t) {
        TyI::Int { w, .. } | TyI::Float(w) => match rd(off, *w as usize / 8) {
            Some(v) => Scalar(m().cn(v)),
            None => Undef,
        },
        TyI::Bool => match rd(off, 1) {
            Some(v) => Scalar(m().cn(v & 1)),
            None => Undef,
        },
        TyI::Char => match rd(off, 4) {
            Some(v) => Scalar(m().cn(v)),
            None => Undef,
        },
        TyI::Ptr { to, fat } => {
            let (to, fat) = (*to, *fat);
            let prov = a.provenance.ptrs.iter().find(|p| p.0.bytes_() == off).map(|p| p.1);
            let addend = rd(off, 8).unwrap_or(0);
            let meta = if fat { rd(off + 8, 8).unwrap_or(0) as u64 } else { 0 };
            let Some(pr) = prov else {
                let p = dangling(addend);
                return if fat { Fat(p, m().cn(meta as u128)) } else { Scalar(p) };
            };
            match GlobalAlloc::from(pr.0) {
                GlobalAlloc::Function(i) => Scalar(fnptr(i)),
                g @ (GlobalAlloc::Memory(_) | GlobalAlloc::Static(_)) => {
                    let al = match g {
                        GlobalAlloc::Memory(al) => al,
                        GlobalAlloc::Static(s) => match s.eval_initializer() {
                            Ok(al) => al,
                            Err(_) => return Undef,
                        },
                        _ => unreachable!(),
                    };
                    if let TyI::Dyn = &*tyi(to) {
                        // &dyn Trait constant: the concrete type is in the vtable
                        let vp = a.provenance.ptrs.iter().find(|p| p.0.bytes_() == off + 8).map(|p| p.1);
                        if let Some(vp) = vp {
                            if let GlobalAlloc::VTable(ct, _) = GlobalAlloc::from(vp.0) {
                                let p = decode_pointee(&al, addend as usize, ct);
                                return Fat(p, vtable(ct));
                            }
                        }
                        return Undef;
                    }
                    if fat {
                        match &*tyi(to) {
                            TyI::Str => {
                                let b: Vec<u8> = (0..meta as usize).map(|i| a_byte(&al, addend as usize + i)).collect();
                                let (p, l) = const_region(&b);
                                Fat(p, l)
                            }
                            TyI::Slice(e) => {
                                if byte_like(*e) && size_of(*e) == 1 {
                                    let b: Vec<u8> = (0..meta as usize).map(|i| a_byte(&al, addend as usize + i)).collect();
                                    let (p, l) = const_region(&b);
                                    return Fat(p, l);
                                }
                                let es = size_of(*e);
                                let vs = (0..meta as usize).map(|i| decode_alloc(&al, addend as usize + i * es, *e)).collect();
                                let id = const_obj(t, agg(vs));
                                Fat(obj_ptr(id, &[], 0), m().cn(meta as u128))
                            }
                            _ => Undef,
                        }
                    } else {
                        Scalar(decode_pointee(&al, addend as usize, to))
                    }
                }
                GlobalAlloc::VTable(ct, _) => Scalar(vtable(ct)),
                _ => Undef,
            }
        }
        TyI::FnPtr => {
            let prov = a.provenance.ptrs.iter().find(|p| p.0.bytes_() == off).map(|p| p.1);
            if let Some(pr) = prov {
                if let GlobalAlloc::Function(i) = GlobalAlloc::from(pr.0) {
                    return Scalar(fnptr(i));
                }
            }
            Undef
        }
        TyI::Agg(fs) => agg(fs.iter().map(|(o, ft)| decode_alloc(a, off + o, *ft)).collect()),
        TyI::Array(e, n) => {
            let es = size_of(*e);
            agg((0..*n as usize).map(|i| decode_alloc(a, off + i * es, *e)).collect())
        }
        TyI::Enum { vars, discrs, tag } => {
            let v = match tag {
                TagI::None(i) => Some(*i),
                TagI::Direct { off: o, size } => rd(off + o, *size).and_then(|v| discrs.iter().position(|d| d & mask(*size as u8 * 8) == v)),
                TagI::Niche { off: o, size, untagged, lo, hi, start } => {
                    let has_prov = a.provenance.ptrs.iter().any(|p| p.0.bytes_() == off + o);
                    if has_prov {
                        Some(*untagged)
                    } else {
                        rd(off + o, *size).map(|v| {
                            let rel = v.wrapping_sub(*start) & mask(*size as u8 * 8);
                            if rel <= (*hi - *lo) as u128 { *lo + rel as usize } else { *untagged }
                        })
                    }
                }
            };
            match v {
                Some(i) if i < vars.len() => enumv(vars.len(), i, vars[i].iter().map(|(o, ft)| decode_alloc(a, off + o, *ft)).collect()),
                _ => Undef,
            }
        }
        TyI::Union(fs) => {
            // the largest field
            match fs.iter().max_by_key(|f| size_of(**f)) {
                Some(f) => agg(vec![decode_alloc(a, off, *f)]),
                None => agg(vec![Undef]),
            }
        }
        _ => Undef,
    }
}
fn a_byte(a: &Allocation, i: usize) -> u8 {
    a.bytes.get(i).copied().flatten().unwrap_or(0)
}
fn decode_pointee(al: &Allocation, off: usize, to: Ty) -> N {
    if byte_like(to) {
        let n = size_of(to);
        let b: Vec<u8> = al.bytes.iter().map(|b| b.unwrap_or(0)).collect();
        let _ = n;
        let (p, _) = const_region(&b[off.min(b.len())..]);
        return p;
    }
    let v = decode_alloc(al, off, to);
    let id = const_obj(to, v);
    obj_ptr(id, &[], NONE)
}
pub trait BytesExt {
    fn bytes_(&self) -> usize;
}
impl BytesExt for usize {
    fn bytes_(&self) -> usize {
        *self
    }
}
pub trait SizeExt {
    fn bytes(&self) -> usize;
}
impl SizeExt for rustc_public::target::MachineSize {
    fn bytes(&self) -> usize {
        self.bits() / 8
    }
}

pub fn zero_sized(t: Ty) -> Value {
    match &*tyi(t) {
        TyI::Agg(fs) => agg(fs.iter().map(|f| zero_sized(f.1)).collect()),
        TyI::Enum { vars, tag: TagI::None(i), .. } if !vars.is_empty() => enumv(vars.len(), *i, vars[*i].iter().map(|f| zero_sized(f.1)).collect()),
        TyI::Array(e, n) => agg((0..*n).map(|_| zero_sized(*e)).collect()),
        _ => Undef,
    }
}

// ------------------------------------------------------------------------ bytes <-> values
/// Decode a value of type `t` from region memory at pointer `p` + off.
pub fn decode_region(p: N, off: usize, t: Ty) -> Value {
    let ld = |o: usize, n: usize| -> N {
        let o = m().cn(o as u128);
        m().ap2(Op2::LoadAt(n as u8), p, o)
    };
    match &*tyi(t) {
        TyI::Int { w, .. } => Scalar(ld(off, *w as usize / 8)),
        TyI::Float(w) => Scalar(ld(off, *w as usize / 8)),
        TyI::Char => Scalar(ld(off, 4)),
        TyI::Bool => {
            let b = ld(off, 1);
            Scalar(m().to_bool(b))
        }
        TyI::Agg(fs) => agg(fs.iter().map(|(o, ft)| decode_region(p, off + o, *ft)).collect()),
        TyI::Array(e, n) => {
            let es = size_of(*e);
            agg((0..*n as usize).map(|i| decode_region(p, off + i * es, *e)).collect())
        }
        TyI::Enum { vars, discrs, tag } => match tag {
            TagI::None(i) if vars.len() == 1 => enumv(1, *i, vars[0].iter().map(|(o, ft)| decode_region(p, off + o, *ft)).collect()),
            TagI::Direct { off: o, size } => {
                let tg = ld(off + o, *size);
                let mut d = m().opaque_n(32);
                for (i, dv) in discrs.iter().enumerate() {
                    let c = m().cn(*dv & mask(*size as u8 * 8));
                    let e = m().ap2(Op2::Eq, tg, c);
                    let iv = m().cn(i as u128);
                    d = m().ite(e, iv, d);
                }
                Enum { d, vs: Rc::new(vars.iter().map(|fs| Some(Rc::new(fs.iter().map(|(o, ft)| decode_region(p, off + o, *ft)).collect::<Vec<_>>()))).collect()) }
            }
            _ => opaque(t),
        },
        TyI::Union(fs) => match fs.iter().max_by_key(|f| size_of(**f)) {
            Some(f) => agg(vec![decode_region(p, off, *f)]),
            None => agg(vec![Undef]),
        },
        _ => opaque(t),
    }
}

/// Scalars of a value with their byte offsets.
pub fn flatten(v: &Value, t: Ty, off: usize, out: &mut Vec<(usize, usize, N)>) -> bool {
    match (&*tyi(t), v) {
        (TyI::Int { w, .. } | TyI::Float(w), Scalar(n)) => {
            out.push((off, *w as usize / 8, *n));
            true
        }
        (TyI::Bool, Scalar(n)) => {
            out.push((off, 1, *n));
            true
        }
        (TyI::Char, Scalar(n)) => {
            out.push((off, 4, *n));
            true
        }
        (TyI::Ptr { fat: false, .. } | TyI::FnPtr, Scalar(n)) => {
            out.push((off, 8, *n));
            true
        }
        (TyI::Ptr { fat: true, .. }, Fat(p, l)) => {
            out.push((off, 8, *p));
            out.push((off + 8, 8, *l));
            true
        }
        (TyI::Agg(fs), Agg(vs)) => fs.len() == vs.len() && fs.iter().zip(vs.iter()).all(|((o, ft), x)| flatten(x, *ft, off + o, out)),
        (TyI::Array(e, n), Agg(vs)) => {
            let es = size_of(*e);
            vs.len() == *n as usize && vs.iter().enumerate().all(|(i, x)| flatten(x, *e, off + i * es, out))
        }
        (TyI::Union(fs), Agg(vs)) => {
            let mut s: Vec<&Ty> = fs.iter().collect();
            s.sort_by_key(|f| std::cmp::Reverse(size_of(**f)));
            for f in s {
                let mut tmp = vec![];
                if flatten(&vs[0], *f, off, &mut tmp) {
                    out.extend(tmp);
                    return true;
                }
            }
            false
        }
        (TyI::Enum { vars, discrs, tag }, Enum { d, vs }) => {
            let simple = vars.iter().all(|f| f.is_empty());
            match tag {
                TagI::Direct { off: o, size } if simple => {
                    let (discrs, size) = (discrs.clone(), *size);
                    let n = m().map_t(*d, &mut |m, t| match m.const_of_t(t) {
                        Some(i) => {
                            let v = discrs[i as usize] & mask(size as u8 * 8);
                            m.c(v)
                        }
                        None => m.opaque_t(8 * size as u8),
                    });
                    out.push((off + o, size, n));
                    true
                }
                TagI::None(i) => match &vs[*i] {
                    Some(x) => vars[*i].iter().zip(x.iter()).all(|((o, ft), y)| flatten(y, *ft, off + o, out)),
                    None => false,
                },
                // Option<NonZero>, Option<&T>: value of the untagged variant or the niche
                TagI::Niche { off: o, size, untagged, lo, hi, start } if lo == hi && vars[*lo].iter().all(|f| size_of(f.1) == 0) => {
                    let mut tmp = vec![];
                    match &vs[*untagged] {
                        Some(x) => {
                            if !vars[*untagged].iter().zip(x.iter()).all(|((o, ft), y)| flatten(y, *ft, off + o, &mut tmp)) {
                                return false;
                            }
                        }
                        None => tmp.push((off + o, *size, 0)),
                    }
                    let u = m().cn(*untagged as u128);
                    let c = m().ap2(Op2::Eq, *d, u);
                    for (to, ts, n) in tmp {
                        let n = if to == off + o && ts == *size {
                            let nv = m().cn(*start);
                            m().ite(c, n, nv)
                        } else {
                            n
                        };
                        out.push((to, ts, n));
                    }
                    true
                }
                _ => false,
            }
        }
        (TyI::Never, _) => true,
        _ => size_of(t) == 0,
    }
}
fn piece(fl: &[(usize, usize, N)], off: usize, size: usize) -> Option<N> {
    if let Some(x) = fl.iter().find(|x| x.0 == off && x.1 == size) {
        return Some(x.2);
    }
    // part of a bigger scalar
    if let Some(x) = fl.iter().find(|x| x.0 <= off && off + size <= x.0 + x.1) {
        let sh = m().cn(8 * (off - x.0) as u128);
        let s = m().ap2(Op2::Bin(Op::Shr, 8 * x.1 as u8), x.2, sh);
        let z = m().cn(0);
        return Some(m().ap2(Op2::Bin(Op::Trunc, 8 * size as u8), s, z));
    }
    // concatenation of smaller ones
    let mut o = off;
    let mut acc: Option<(N, usize)> = None;
    while o < off + size {
        let x = fl.iter().find(|x| x.0 == o && o + x.1 <= off + size)?;
        acc = Some(match acc {
            None => (x.2, x.1),
            Some((a, n)) => (m().ap2(Op2::CatHi(n as u8), a, x.2), n + x.1),
        });
        o += x.1;
    }
    acc.map(|x| x.0)
}
pub fn unflatten(fl: &[(usize, usize, N)], off: usize, t: Ty) -> Option<Value> {
    Some(match &*tyi(t) {
        TyI::Int { w, .. } | TyI::Float(w) => Scalar(piece(fl, off, *w as usize / 8)?),
        TyI::Bool => {
            let b = piece(fl, off, 1)?;
            Scalar(m().to_bool(b))
        }
        TyI::Char => Scalar(piece(fl, off, 4)?),
        TyI::Ptr { fat: false, .. } | TyI::FnPtr => Scalar(piece(fl, off, 8)?),
        TyI::Ptr { fat: true, .. } => Fat(piece(fl, off, 8)?, piece(fl, off + 8, 8)?),
        TyI::Agg(fs) => {
            let mut v = vec![];
            for (o, ft) in fs {
                v.push(unflatten(fl, off + o, *ft)?);
            }
            agg(v)
        }
        TyI::Array(e, n) => {
            let es = size_of(*e);
            let mut v = vec![];
            for i in 0..*n as usize {
                v.push(unflatten(fl, off + i * es, *e)?);
            }
            agg(v)
        }
        TyI::Union(fs) => {
            let f = fs.iter().max_by_key(|f| size_of(**f))?;
            agg(vec![unflatten(fl, off, *f)?])
        }
        TyI::Enum { vars, discrs, tag } => match tag {
            TagI::Direct { off: o, size } if vars.iter().all(|f| f.is_empty()) => {
                let tg = piece(fl, off + o, *size)?;
                let mut d = m().opaque_n(32);
                for (i, dv) in discrs.iter().enumerate() {
                    let c = m().cn(*dv & mask(*size as u8 * 8));
                    let e = m().ap2(Op2::Eq, tg, c);
                    let iv = m().cn(i as u128);
                    d = m().ite(e, iv, d);
                }
                Enum { d, vs: Rc::new(vars.iter().map(|_| Some(Rc::new(vec![]))).collect()) }
            }
            TagI::Niche { off: o, size, untagged, lo, hi, start } if lo == hi && vars[*lo].iter().all(|f| size_of(f.1) == 0) => {
                let tg = piece(fl, off + o, *size)?;
                let nv = m().cn(*start);
                let e = m().ap2(Op2::Eq, tg, nv);
                let (a, b) = (m().cn(*lo as u128), m().cn(*untagged as u128));
                let d = m().ite(e, a, b);
                let mut vs = vec![None; vars.len()];
                vs[*lo] = Some(Rc::new(vec![]));
                let mut f = vec![];
                for (fo, ft) in &vars[*untagged] {
                    f.push(unflatten(fl, off + fo, *ft)?);
                }
                vs[*untagged] = Some(Rc::new(f));
                Enum { d, vs: Rc::new(vs) }
            }
            _ => return None,
        },
        _ if size_of(t) == 0 => zero_sized(t),
        _ => return None,
    })
}
pub fn transmute(v: &Value, from: Ty, to: Ty) -> Value {
    if from == to {
        return v.clone();
    }
    let mut fl = vec![];
    if flatten(v, from, 0, &mut fl) {
        if let Some(r) = unflatten(&fl, 0, to) {
            return r;
        }
    }
    opaque(to)
}
pub fn adt_name(t: Ty) -> Option<String> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.name().to_string()),
        _ => None,
    }
}
