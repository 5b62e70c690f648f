//! Type and constant helpers on top of rustc_public.
use crate::lin::*;
use crate::num::*;
use crate::val::*;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
#[allow(unused_imports)]
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::rc::Rc;

pub type Res<T> = Result<T, String>;

pub fn rigid(t: Ty) -> Option<RigidTy> {
    match t.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
/// (min, max, bits, signed)
pub fn int_range(t: Ty) -> Option<(I, I, u32, bool)> {
    match rigid(t)? {
        RigidTy::Int(i) => {
            let b = i.num_bytes() as u32 * 8;
            Some((-I::pow2(b - 1), I::pow2(b - 1) - I::ONE, b, true))
        }
        RigidTy::Uint(u) => {
            let b = u.num_bytes() as u32 * 8;
            Some((I::ZERO, I::pow2(b) - I::ONE, b, false))
        }
        RigidTy::Char => Some((I::ZERO, I::new(0x10FFFF), 32, false)),
        _ => None,
    }
}
pub fn peel(t: Ty) -> Ty {
    match rigid(t) {
        Some(RigidTy::Ref(_, t, _)) => peel(t),
        Some(RigidTy::RawPtr(t, _)) => peel(t),
        _ => t,
    }
}
/// Remember the answer to a question about types: asking the compiler is slow.
#[macro_export]
macro_rules! memo {
    ($k:ty, $v:ty, $key:expr, $body:expr) => {{
        thread_local! { static M: std::cell::RefCell<HashMap<$k, $v>> = Default::default(); }
        let key: $k = $key;
        if let Some(v) = M.with(|m| m.borrow().get(&key).cloned()) {
            return v;
        }
        let v: $v = (|| $body)();
        M.with(|m| m.borrow_mut().insert(key, v.clone()));
        v
    }};
}
pub fn adt_name(t: Ty) -> Option<String> {
    memo!(Ty, Option<String>, t, match rigid(t)? {
        RigidTy::Adt(d, _) => Some(d.name().to_string()),
        _ => None,
    })
}
pub fn is_zst(t: Ty) -> bool {
    memo!(Ty, bool, t, t.layout().map_or(false, |l| l.shape().is_1zst()))
}
/// variant names with their field types
pub fn variants(t: Ty) -> Rc<Vec<(String, Vec<Ty>)>> {
    memo!(
        Ty,
        Rc<Vec<(String, Vec<Ty>)>>,
        t,
        Rc::new(match rigid(t) {
            Some(RigidTy::Adt(d, a)) => d.variants().iter().map(|v| (v.name().to_string(), v.fields().iter().map(|f| f.ty_with_args(&a)).collect())).collect(),
            _ => vec![],
        })
    )
}
pub fn last_seg(n: &str) -> &str {
    n.rsplit("::").next().unwrap_or(n)
}
pub fn adt_last(t: Ty) -> Option<String> {
    adt_name(t).map(|n| last_seg(&n).to_string())
}
pub fn type_args(a: &GenericArgs) -> Vec<Ty> {
    a.0.iter()
        .filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .collect()
}
/// sequence-like owner types that the engine models natively
pub fn seq_elem(t: Ty) -> Option<Ty> {
    memo!(Ty, Option<Ty>, t, seq_elem0(t))
}
fn seq_elem0(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Array(t, _) | RigidTy::Slice(t) => Some(t),
        RigidTy::Adt(d, a) => {
            let n = d.name();
            let n = norm(&n);
            match n.as_str() {
                "std::collections::VecDeque" | "alloc::collections::VecDeque" | "alloc::collections::vec_deque::VecDeque" | "std::vec::Vec" | "alloc::vec::Vec" | "std::collections::vec_deque::IntoIter" | "std::vec::IntoIter" | "std::array::IntoIter" => type_args(&a).first().copied(),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn is_range_elem(t: Ty) -> bool {
    adt_last(t).as_deref() == Some("BoundedRange")
}

/// Strip generic arguments and lifetimes from a definition path.
pub fn norm(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    fn close(b: &[char], mut i: usize) -> usize {
        // b[i] == '<'
        let mut d = 0;
        while i < b.len() {
            match b[i] {
                '<' => d += 1,
                '>' if i > 0 && b[i - 1] == '-' => {}
                '>' => {
                    d -= 1;
                    if d == 0 {
                        return i;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        b.len() - 1
    }
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' {
            let e = close(&b, i);
            let inner: String = b[i + 1..e].iter().collect();
            if i == 0 {
                // qualified self
                let ib: Vec<char> = inner.chars().collect();
                let mut d = 0i32;
                let mut cut = None;
                for k in 0..ib.len() {
                    match ib[k] {
                        '<' | '(' | '[' => d += 1,
                        '>' if k > 0 && ib[k - 1] == '-' => {}
                        '>' | ')' | ']' => d -= 1,
                        ' ' if d == 0 && inner_at(&ib, k, " as ") => {
                            cut = Some(k);
                            break;
                        }
                        _ => {}
                    }
                }
                match cut {
                    Some(k) => {
                        let l: String = ib[..k].iter().collect();
                        let r: String = ib[k + 4..].iter().collect();
                        out.push_str(&format!("<{} as {}>", norm(&l), norm(&r)));
                    }
                    None => out.push_str(&format!("<{}>", norm(&inner))),
                }
            } else if let Some(r) = inner.strip_prefix("impl ") {
                out.push_str(&norm(r));
            } else if out.ends_with("::") {
                out.truncate(out.len() - 2);
            }
            i = e + 1;
        } else if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            while i < b.len() && b[i] == ' ' {
                i += 1;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
fn inner_at(b: &[char], k: usize, pat: &str) -> bool {
    pat.chars().enumerate().all(|(i, c)| b.get(k + i) == Some(&c))
}

/// Value of a zero-sized type.
pub fn zst(t: Ty) -> Res<Val> {
    match rigid(t) {
        Some(RigidTy::Tuple(v)) => Ok(agg(v.into_iter().map(zst).collect::<Res<Vec<_>>>()?)),
        Some(RigidTy::Adt(d, a)) => {
            if d.kind() == AdtKind::Struct {
                let v = d.variants();
                Ok(agg(v[0].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect::<Res<Vec<_>>>()?))
            } else if d.kind() == AdtKind::Enum && d.num_variants() == 1 {
                let v = d.variants();
                Ok(Val::Enum(0, Rc::new(v[0].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect::<Res<Vec<_>>>()?)))
            } else if d.kind() == AdtKind::Enum {
                // e.g. Option<!>-like; the only inhabited variant has no fields
                let shape = t.layout().map_err(|e| format!("{e:?}"))?.shape();
                match shape.variants {
                    VariantsShape::Single { index } => Ok(Val::Enum(index.to_idx() as u32, Rc::new(vec![]))),
                    _ => Err("zst enum".into()),
                }
            } else {
                Err(format!("zst of {t}"))
            }
        }
        Some(RigidTy::Array(..)) => Ok(Val::Seq(Rc::new(Seq::empty(false)))),
        _ => Ok(unit()),
    }
}
trait ToIdx {
    fn to_idx(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_idx(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}
pub fn vidx(v: &VariantIdx) -> u32 {
    v.to_idx() as u32
}

pub fn decode_const(c: &MirConst, st: &mut State) -> Res<Val> {
    match c.kind() {
        ConstantKind::ZeroSized => zst(c.ty()),
        ConstantKind::Allocated(a) => decode(a, 0, c.ty(), st),
        ConstantKind::Ty(tc) => match tc.kind() {
            TyConstKind::Value(t, a) => decode(a, 0, *t, st),
            TyConstKind::ZSTValue(t) => zst(*t),
            o => Err(format!("constant {o:?}")),
        },
        o => Err(format!("constant {o:?}")),
    }
}
fn bits(a: &Allocation, off: usize, n: usize) -> Res<u128> {
    let mut v = 0u128;
    for i in 0..n {
        match a.bytes.get(off + i) {
            Some(Some(b)) => v |= (*b as u128) << (8 * i),
            _ => return Err("uninitialised constant".into()),
        }
    }
    Ok(v)
}
fn to_int(v: u128, bits: u32, signed: bool) -> I {
    if signed && bits == 128 {
        return I::new(v as i128);
    }
    if signed && (v >> (bits - 1)) & 1 == 1 { I::from_u128(v) - I::pow2(bits) } else { I::from_u128(v) }
}
pub fn decode(a: &Allocation, off: usize, t: Ty, st: &mut State) -> Res<Val> {
    let shape = t.layout().map_err(|e| format!("{e:?}"))?.shape();
    match rigid(t).ok_or("type")? {
        RigidTy::Bool => Ok(Val::Bool(bits(a, off, 1)? != 0)),
        RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Char => {
            let (_, _, b, s) = int_range(t).unwrap();
            Ok(Val::Int(Lin::cst(to_int(bits(a, off, b as usize / 8)?, b, s))))
        }
        RigidTy::Tuple(ts) => match shape.fields {
            FieldsShape::Arbitrary { offsets } => Ok(agg(ts.iter().zip(offsets).map(|(t, o)| decode(a, off + o.bytes(), *t, st)).collect::<Res<Vec<_>>>()?)),
            _ => zst(t),
        },
        RigidTy::Closure(..) | RigidTy::FnDef(..) | RigidTy::Never => Ok(unit()),
        RigidTy::Array(et, n) => {
            let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
            let es = et.layout().map_err(|e| format!("{e:?}"))?.shape().size.bytes();
            let mut s = Seq::empty(is_range_elem(et));
            for i in 0..n {
                let v = decode(a, off + es * i as usize, et, st)?;
                s.segs.push(Seg { end: Lin::int(i as i128 + 1), body: SegBody::One(fresh_eid(), v) });
            }
            Ok(Val::Seq(Rc::new(s)))
        }
        RigidTy::Adt(d, args) => match d.kind() {
            AdtKind::Struct => {
                let fs = d.variants()[0].fields();
                let offs = match shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets,
                    _ => return zst(t),
                };
                Ok(agg(fs.iter().zip(offsets_vec(offs)).map(|(f, o)| decode(a, off + o, f.ty_with_args(&args), st)).collect::<Res<Vec<_>>>()?))
            }
            AdtKind::Enum => {
                let (idx, offs): (u32, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => (
                        vidx(index),
                        match shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets_vec(offsets),
                            _ => vec![],
                        },
                    ),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value.clone(),
                            Scalar::Union { value } => value.clone(),
                        };
                        let (nb, isptr) = match prim {
                            Primitive::Int { length, .. } => (length.bits() / 8, false),
                            _ => (8, true),
                        };
                        let hasprov = isptr && a.provenance.ptrs.iter().any(|(o, _)| *o as usize == off + toff);
                        let raw = if hasprov { None } else { Some(bits(a, off + toff, nb)?) };
                        let k = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = raw.ok_or("tag")?;
                                let mut k = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if nb == 16 { u128::MAX } else { (1u128 << (8 * nb)) - 1 };
                                    if dv & mask == raw {
                                        k = Some(vidx(&v.idx()));
                                    }
                                }
                                k.ok_or("bad tag")?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match raw {
                                None => vidx(untagged_variant),
                                Some(r) => {
                                    let mask = if nb == 16 { u128::MAX } else { (1u128 << (8 * nb)) - 1 };
                                    let rel = r.wrapping_sub(*niche_start) & mask;
                                    let lo = vidx(niche_variants.start());
                                    let hi = vidx(niche_variants.end());
                                    if rel <= (hi - lo) as u128 { lo + rel as u32 } else { vidx(untagged_variant) }
                                }
                            },
                        };
                        (k, variants[k as usize].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return Err("empty enum".into()),
                };
                let v = &d.variants()[idx as usize];
                let fs = v.fields();
                if offs.len() < fs.len() && !fs.is_empty() {
                    return Err("enum layout".into());
                }
                Ok(Val::Enum(idx, Rc::new(fs.iter().zip(offs).map(|(f, o)| decode(a, off + o, f.ty_with_args(&args), st)).collect::<Res<Vec<_>>>()?)))
            }
            AdtKind::Union => Err("union constant".into()),
        },
        RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
            match rigid(inner) {
                Some(RigidTy::Str) => {
                    let p = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|x| x.1);
                    if let Some(p) = p {
                        if let GlobalAlloc::Memory(m) = GlobalAlloc::from(p.0) {
                            let (o, n) = (bits(a, off, 8)? as usize, bits(a, off + 8, 8)? as usize);
                            let b: Vec<u8> = m.bytes[o..o + n].iter().map(|x| x.unwrap_or(b'?')).collect();
                            return Ok(Val::Tok(String::from_utf8_lossy(&b).to_string().into()));
                        }
                    }
                    return Ok(Val::Tok("str".into()));
                }
                Some(RigidTy::Dynamic(..)) => return Ok(Val::Tok("dyn".into())),
                _ => {}
            }
            let p = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|x| x.1);
            let p = match p {
                Some(p) => p,
                None => {
                    // reference to a ZST
                    let v = zst(inner)?;
                    let id = fresh_aid();
                    st.allocs.insert(id, v);
                    return Ok(Val::Ptr(Rc::new(Ptr { base: id, path: vec![], meta: None })));
                }
            };
            let inner_off = bits(a, off, 8)? as usize;
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Memory(m) => {
                    if let Some(RigidTy::Slice(et)) = rigid(inner) {
                        let n = bits(a, off + 8, 8)?;
                        let es = et.layout().map_err(|e| format!("{e:?}"))?.shape().size.bytes();
                        let mut s = Seq::empty(is_range_elem(et));
                        for i in 0..n as usize {
                            let v = decode(&m, inner_off + es * i, et, st)?;
                            s.segs.push(Seg { end: Lin::int(i as i128 + 1), body: SegBody::One(fresh_eid(), v) });
                        }
                        let id = fresh_aid();
                        st.allocs.insert(id, Val::Seq(Rc::new(s)));
                        return Ok(Val::Ptr(Rc::new(Ptr { base: id, path: vec![], meta: Some((Lin::int(0), Lin::int(n as i128))) })));
                    }
                    let v = decode(&m, inner_off, inner, st)?;
                    let id = fresh_aid();
                    st.allocs.insert(id, v);
                    Ok(Val::Ptr(Rc::new(Ptr { base: id, path: vec![], meta: None })))
                }
                o => Err(format!("constant pointer {o:?}")),
            }
        }
        RigidTy::FnPtr(_) => {
            let p = a.provenance.ptrs.iter().find(|(o, _)| *o as usize == off).map(|x| x.1).ok_or("fn ptr")?;
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => Ok(Val::Fn(i)),
                _ => Err("fn ptr".into()),
            }
        }
        o => Err(format!("constant of type {o:?}")),
    }
}
fn offsets_vec(o: Vec<rustc_public::target::MachineSize>) -> Vec<usize> {
    o.into_iter().map(|x| x.bytes()).collect()
}

thread_local! {
    static DEFNAMES: std::cell::RefCell<HashMap<Instance, Rc<str>>> = std::cell::RefCell::new(HashMap::new());
}
pub fn def_norm(i: &Instance) -> Rc<str> {
    if let Some(s) = DEFNAMES.with(|m| m.borrow().get(i).cloned()) {
        return s;
    }
    let s: Rc<str> = norm(&i.def.name()).into();
    DEFNAMES.with(|m| m.borrow_mut().insert(*i, s.clone()));
    s
}
