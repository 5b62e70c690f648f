//! Summaries of the standard library: sequences, their iterators, intrinsics.
use crate::canon::*;
use crate::interp::*;
use crate::lin::*;
use crate::num::*;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
#[allow(unused_imports)]
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

pub fn none() -> Val {
    Val::Enum(0, Rc::new(vec![]))
}
pub fn some(v: Val) -> Val {
    Val::Enum(1, Rc::new(vec![v]))
}
pub fn ptr_val(p: Ptr) -> Val {
    Val::Ptr(Rc::new(p))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// VecDeque, Vec, slice, array
    Seq,
    /// borrowing iterator
    Iter,
    /// owning iterator
    Owned,
}
fn owner_kind(a: &str) -> Option<Kind> {
    let a = a.trim_start_matches("&mut ").trim_start_matches('&');
    let l = match a.rfind('[') {
        Some(i) => &a[i..],
        None => a,
    };
    if l.starts_with('[') && l.ends_with(']') {
        return Some(Kind::Seq);
    }
    match a {
        "std::collections::VecDeque" | "std::vec::Vec" | "std::collections::vec_deque::VecDeque" | "alloc::vec::Vec" => Some(Kind::Seq),
        "std::collections::vec_deque::Iter" | "std::collections::vec_deque::IterMut" | "std::slice::Iter" | "std::slice::IterMut" | "core::slice::Iter" | "core::slice::IterMut" => Some(Kind::Iter),
        "std::collections::vec_deque::IntoIter" | "std::vec::IntoIter" | "std::array::IntoIter" | "std::collections::vec_deque::Drain" | "std::vec::Drain" => Some(Kind::Owned),
        _ => None,
    }
}
/// (owner, trait, method)
fn split(n: &str) -> Option<(String, Option<String>, String)> {
    if let Some(r) = n.strip_prefix('<') {
        let mut d = 1;
        let mut end = None;
        for (i, c) in r.char_indices() {
            match c {
                '<' => d += 1,
                '>' => {
                    d -= 1;
                    if d == 0 {
                        end = Some(i);
                        break;
                    }
                }
                _ => {}
            }
        }
        let e = end?;
        let inner = &r[..e];
        let m = r[e + 1..].strip_prefix("::")?.to_string();
        match inner.find(" as ") {
            Some(k) => Some((inner[..k].to_string(), Some(inner[k + 4..].to_string()), m)),
            None => Some((inner.to_string(), None, m)),
        }
    } else {
        let k = n.rfind("::")?;
        Some((n[..k].to_string(), None, n[k + 2..].to_string()))
    }
}
/// model name -> trailing method generics
fn iter_model(m: &str) -> Option<usize> {
    Some(match m {
        "fold" | "rfold" | "find_map" => 2,
        "try_fold" | "try_rfold" => 3,
        "for_each" | "all" | "any" | "find" | "rfind" | "position" | "rposition" => 1,
        "nth" | "nth_back" | "count" | "last" | "advance_by" | "advance_back_by" => 0,
        _ => return None,
    })
}
fn seq_model(m: &str) -> Option<usize> {
    Some(match m {
        "retain" | "retain_mut" | "binary_search_by" | "partition_point" | "sort_by" | "sort_unstable_by" => 1,
        "sort_by_key" | "sort_unstable_by_key" | "binary_search_by_key" => 2,
        "contains" | "sort" | "sort_unstable" | "reverse" => 0,
        _ => return None,
    })
}

/// Does the closure body write to, or mutably borrow, what it captured?
fn mutates_env(b: &Body) -> bool {
    if !matches!(rigid(b.locals()[1].ty), Some(RigidTy::Ref(..))) {
        return true;
    }
    b.blocks.iter().any(|k| {
        k.statements.iter().any(|s| match &s.kind {
            StatementKind::Assign(p, r) => {
                p.local == 1
                    || match r {
                        Rvalue::Ref(_, BorrowKind::Mut { .. }, q) => q.local == 1,
                        Rvalue::AddressOf(m, q) => q.local == 1 && !matches!(m, RawPtrKind::Const),
                        Rvalue::Use(Operand::Move(q), ..) => q.local == 1,
                        _ => false,
                    }
            }
            _ => false,
        }) || match &k.terminator.kind {
            TerminatorKind::Call { destination, args, .. } => destination.local == 1 || args.iter().any(|a| matches!(a, Operand::Move(q) if q.local == 1)),
            _ => false,
        }
    })
}

/// containers that are only indexed: strings, and sequences of the harness type `Item`
pub fn is_buf(t: Ty) -> bool {
    let item = |e: Option<Ty>| e.and_then(adt_last).map_or(false, |n| n == "Item");
    match rigid(t) {
        Some(RigidTy::Str) => true,
        Some(RigidTy::Slice(e)) => item(Some(e)),
        Some(RigidTy::Adt(_, a)) => match adt_last(t).as_deref() {
            Some("String") | Some("CStr") | Some("CString") | Some("OsStr") | Some("OsString") => true,
            Some("Vec") => item(type_args(&a).first().cloned()),
            _ => false,
        },
        _ => false,
    }
}

impl Ctx {
    fn model(&mut self, name: &str, args: Vec<Ty>) -> Callee {
        match self.model_defs.get(name) {
            Some(d) => {
                let ga = GenericArgs(args.into_iter().map(GenericArgKind::Type).collect());
                match Instance::resolve(*d, &ga) {
                    Ok(i) => Callee::Model(i),
                    Err(e) => Callee::Unsup(format!("model {name}: {e:?}")),
                }
            }
            None => Callee::Unsup(format!("no model {name}")),
        }
    }
    fn sig(&mut self, i: &Instance) -> Option<Vec<Ty>> {
        let b = self.body(i)?;
        let n = b.body.arg_locals().len();
        Some(b.body.locals()[..=n].iter().map(|l| l.ty).collect())
    }
    pub fn std_callee(&mut self, n: &str, i: &Instance) -> Option<Callee> {
        let nat = |k: &str| Some(Callee::Native(k.into(), *i));
        if n.starts_with("rangetools::") {
            return None;
        }
        if n.starts_with("std::fmt::") || n.starts_with("core::fmt::") || n.starts_with("<std::fmt::") || n.ends_with("as std::fmt::Debug>::fmt") || n.ends_with("as std::fmt::Display>::fmt") {
            return nat("tok");
        }
        if matches!(last_seg(n), "index" | "index_mut" | "get" | "get_mut" | "deref" | "deref_mut" | "as_str" | "as_mut_str" | "as_bytes" | "as_slice" | "as_mut_slice" | "as_c_str" | "as_os_str" | "as_ref" | "borrow" | "len" | "is_empty") {
            if let Some(s) = self.sig(i) {
                let std_index = s.get(2).map_or(true, |t| matches!(adt_last(*t).as_deref(), Some("Range") | Some("RangeFrom") | Some("RangeTo") | Some("RangeFull") | Some("RangeInclusive") | Some("RangeToInclusive")));
                if s.len() > 1 && is_buf(peel1(s[1])) && std_index {
                    return nat(&format!("buf.{}", last_seg(n)));
                }
            }
        }
        if matches!(last_seg(n), "eq" | "ne") {
            if let Some(s) = self.sig(i) {
                if s.len() == 3 && s[1..].iter().all(|t| matches!(rigid(peel(*t)), Some(RigidTy::Str))) {
                    return nat(if last_seg(n) == "eq" { "str_eq" } else { "str_ne" });
                }
            }
        }
        match n {
            "std::mem::swap" | "core::mem::swap" => return nat("swap"),
            "std::mem::replace" | "core::mem::replace" => return nat("replace"),
            "std::mem::drop" | "core::mem::drop" | "std::mem::forget" | "std::ptr::drop_in_place" => return nat("unit"),
            "std::ptr::read" | "core::ptr::read" => return nat("ptr_read"),
            "std::ptr::write" | "core::ptr::write" => return nat("ptr_write"),
            "std::char::from_u32" | "core::char::from_u32" | "std::char::methods::char::from_u32" | "core::char::methods::char::from_u32" | "char::from_u32" | "std::char::convert::from_u32" | "core::char::convert::from_u32" => return nat("char_from_u32"),
            "<char as std::convert::TryFrom>::try_from" if self.sig(i).map_or(false, |s| s.len() == 2 && rigid(s[1]).map_or(false, |r| matches!(r, RigidTy::Uint(UintTy::U32)))) => return nat("char_try_from"),
            _ => {}
        }
        if last_seg(n) == "from_u32" && n.contains("char") {
            return nat("char_from_u32");
        }
        if self.cfg.fold && matches!(last_seg(n), "position" | "any" | "all" | "find") {
            if let Some(s) = self.sig(i) {
                if s.len() == 3 && adt_name(peel1(s[1])).map_or(false, |a| matches!(a.as_str(), "std::collections::vec_deque::Iter" | "std::slice::Iter" | "core::slice::Iter")) {
                    return nat(&format!("first.{}", last_seg(n)));
                }
            }
        }
        let (owner, tr, m) = split(n)?;
        let k = owner_kind(&owner)?;
        let m = m.as_str();
        if m.contains("{closure") || m.contains("::") {
            return None;
        }
        let ga = type_args(&i.args());
        let trailing = |k: usize| -> Vec<Ty> { ga[ga.len().saturating_sub(k)..].to_vec() };
        match k {
            Kind::Iter | Kind::Owned => match m {
                "next" | "next_back" | "len" | "size_hint" | "clone" | "is_empty" | "into_iter" | "__iterator_get_unchecked" => nat(&format!("{}.{m}", if k == Kind::Iter { "it" } else { "own" })),
                _ => {
                    if let Some(t) = iter_model(m) {
                        let s = self.sig(i)?;
                        let me = if matches!(m, "fold" | "rfold" | "for_each" | "count" | "last") { s[1] } else { peel1(s[1]) };
                        let mut a = vec![me];
                        a.extend(trailing(t));
                        return Some(self.model(&format!("m_{m}"), a));
                    }
                    if tr.as_deref() == Some("std::iter::Iterator") || tr.is_none() || tr.as_deref() == Some("std::iter::DoubleEndedIterator") {
                        return Some(Callee::Unsup(format!("std iterator method {n}")));
                    }
                    match m {
                        "eq" | "cmp" | "partial_cmp" => None,
                        _ => Some(Callee::Unsup(format!("std iterator method {n}"))),
                    }
                }
            },
            Kind::Seq => {
                if let Some(t) = seq_model(m) {
                    let s = self.sig(i)?;
                    let me = peel1(s[1]);
                    let mut a = vec![me, seq_elem(me)?];
                    a.extend(trailing(t));
                    return Some(self.model(&format!("m_{m}"), a));
                }
                match (tr.as_deref().map(last_seg), m) {
                    (Some("FromIterator"), "from_iter") => {
                        let s = self.sig(i)?;
                        return Some(self.model("m_from_iter", vec![s[0], seq_elem(s[0])?, s[1]]));
                    }
                    (Some("Extend"), "extend") => {
                        let s = self.sig(i)?;
                        let me = peel1(s[1]);
                        // by value or by reference items
                        let by_ref = ga.iter().any(|t| matches!(rigid(*t), Some(RigidTy::Ref(..)))) && owner_kind(&owner).is_some() && n.contains("Extend") && self.extends_refs(i);
                        return Some(self.model(if by_ref { "m_extend_ref" } else { "m_extend" }, vec![me, seq_elem(me)?, s[2]]));
                    }
                    (Some("PartialEq"), "eq") | (Some("PartialEq"), "ne") | (Some("SlicePartialEq"), "equal") => {
                        let s = self.sig(i)?;
                        let (a, b) = (peel(s[1]), peel(s[2]));
                        return Some(self.model(if m == "ne" { "m_ne" } else { "m_eq" }, vec![a, seq_elem(a)?, b, seq_elem(b)?]));
                    }
                    (Some("Hash"), "hash") => {
                        let s = self.sig(i)?;
                        let a = peel1(s[1]);
                        return Some(self.model("m_hash", vec![a, seq_elem(a)?, peel1(s[2])]));
                    }
                    (Some("Clone"), "clone") | (Some("Default"), "default") | (Some("Index"), "index") | (Some("IndexMut"), "index_mut") | (Some("IntoIterator"), "into_iter") | (Some("From"), "from") | (Some("Deref"), "deref") | (Some("DerefMut"), "deref_mut") | (Some("AsRef"), "as_ref") | (Some("Borrow"), "borrow") => return nat(&format!("seq.{m}")),
                    (Some("Drop"), _) => return nat("unit"),
                    _ => {}
                }
                match m {
                    "new" | "with_capacity" | "len" | "is_empty" | "push_back" | "push" | "push_front" | "pop_back" | "pop" | "pop_front" | "front" | "first" | "back" | "last" | "front_mut" | "first_mut" | "back_mut" | "last_mut" | "get" | "get_mut" | "insert" | "remove" | "iter" | "iter_mut" | "into_iter" | "clear" | "truncate" | "append" | "split_off" | "swap"
                    | "reserve" | "shrink_to_fit" | "make_contiguous" | "as_slice" | "as_mut_slice" | "drain" | "to_vec" | "into_boxed_slice" | "into_vec" | "swap_remove" | "swap_remove_back" | "get_unchecked" | "reserve_exact" | "extend_from_slice" => nat(&format!("seq.{m}")),
                    _ => Some(Callee::Unsup(format!("std sequence method {n}"))),
                }
            }
        }
    }
    fn extends_refs(&mut self, i: &Instance) -> bool {
        // `Extend<&'a T>` impls name their trait argument in the full path
        i.def.name().contains("Extend<&")
    }

    pub fn arg_ptr(&self, v: &Val) -> Res<Rc<Ptr>> {
        match v {
            Val::Ptr(p) => Ok(p.clone()),
            o => Err(format!("expected a pointer, found {o:?}")),
        }
    }
    fn arg_int(&self, v: &Val) -> Res<Lin> {
        match v {
            Val::Int(l) => Ok(l.clone()),
            o => Err(format!("expected an integer, found {o:?}")),
        }
    }
    /// pointer to the sequence without slice bounds, and the bounds
    fn arg_seq(&self, st: &State, v: &Val) -> Res<(Ptr, Lin, Lin)> {
        let p = self.arg_ptr(v)?;
        let mut q = p.as_ref().clone();
        // &&seq
        if p.meta.is_none() {
            if let Ok(Val::Ptr(r)) = st.read(&p) {
                q = r.as_ref().clone();
            }
        }
        let (lo, hi) = self.bounds(st, &q)?;
        q.meta = None;
        Ok((q, lo, hi))
    }
    pub fn elem_ptr(&mut self, st: State, sp: &Ptr, pos: &Lin) -> Res<Vec<(State, Val)>> {
        Ok(self
            .materialise(st, sp, pos)?
            .into_iter()
            .map(|(s, e)| {
                let mut q = sp.clone();
                q.path.push(Pe::E(e));
                (s, ptr_val(q))
            })
            .collect())
    }
    fn rets(v: Vec<(State, Val)>) -> Outs {
        v.into_iter().map(|(s, v)| (s, Out::Ret(v))).collect()
    }
    fn range_arg(&self, st: &State, v: &Val, ty: Ty, len: &Lin) -> Res<(Lin, Lin)> {
        let g = |v: &Val| self.arg_int(v);
        let n = adt_last(ty).ok_or("range argument")?;
        let v = match v {
            Val::Ptr(p) => st.read(p)?.clone(),
            o => o.clone(),
        };
        let f = match &v {
            Val::Agg(f) => f.clone(),
            o => return Err(format!("range argument {o:?}")),
        };
        Ok(match n.as_str() {
            "RangeFull" => (Lin::int(0), len.clone()),
            "Range" => (g(&f[0])?, g(&f[1])?),
            "RangeFrom" => (g(&f[0])?, len.clone()),
            "RangeTo" => (Lin::int(0), g(&f[0])?),
            "RangeToInclusive" => (Lin::int(0), g(&f[0])?.addc(I::ONE)),
            "RangeInclusive" => match &f[2] {
                Val::Bool(false) => (g(&f[0])?, g(&f[1])?.addc(I::ONE)),
                Val::Bool(true) => (g(&f[1])?.addc(I::ONE), g(&f[1])?.addc(I::ONE)),
                _ => return Err("range flag".into()),
            },
            _ => return Err(format!("range argument {n}")),
        })
    }

    pub fn native(&mut self, name: &str, inst: &Instance, args: Vec<Val>, mut st: State) -> Res<Outs> {
        let ret = |st: State, v: Val| -> Res<Outs> { Ok(vec![(st, Out::Ret(v))]) };
        let fork = |me: &Ctx, st: State, lo: &Lin, hi: &Lin| me.fork_le(st, &lo.sub(hi).addc(I::ONE)); // lo < hi ?
        match name {
            "tok" => {
                let out = inst.ty().kind().fn_sig().map(|s| s.skip_binder().output());
                if out.and_then(adt_last).as_deref() == Some("Result") {
                    return ret(st, Val::Enum(0, Rc::new(vec![unit()])));
                }
                return ret(st, Val::Tok("fmt".into()));
            }
            "unit" => return ret(st, unit()),
            "str_eq" | "str_ne" => {
                let mut t = vec![];
                for a in &args {
                    let mut v = a.clone();
                    while let Val::Ptr(p) = &v {
                        v = st.read(p)?.clone();
                    }
                    match v {
                        Val::Tok(s) if !matches!(&*s, "fmt" | "dyn" | "loc" | "str" | "buf") => t.push(s),
                        o => return Err(format!("comparison of strings that are not constants: {o:?}")),
                    }
                }
                return ret(st, Val::Bool((t[0] == t[1]) == (name == "str_eq")));
            }
            "swap" => {
                let (a, b) = (self.arg_ptr(&args[0])?, self.arg_ptr(&args[1])?);
                let (x, y) = (st.read(&a)?.clone(), st.read(&b)?.clone());
                st.write(&a, y)?;
                st.write(&b, x)?;
                return ret(st, unit());
            }
            "replace" => {
                let a = self.arg_ptr(&args[0])?;
                let x = st.read(&a)?.clone();
                st.write(&a, args[1].clone())?;
                return ret(st, x);
            }
            "ptr_read" => {
                let a = self.arg_ptr(&args[0])?;
                let x = st.read(&a)?.clone();
                return ret(st, x);
            }
            "ptr_write" => {
                let a = self.arg_ptr(&args[0])?;
                st.write(&a, args[1].clone())?;
                return ret(st, unit());
            }
            "char_from_u32" | "char_try_from" => {
                let l = self.arg_int(&args[0])?;
                let mut out = vec![];
                for (s, ok) in self.char_valid(st, &l) {
                    let v = match (name, ok) {
                        ("char_from_u32", true) => some(Val::Int(l.clone())),
                        ("char_from_u32", false) => none(),
                        (_, true) => Val::Enum(0, Rc::new(vec![Val::Int(l.clone())])),
                        (_, false) => Val::Enum(1, Rc::new(vec![agg(vec![unit()])])),
                    };
                    out.push((s, Out::Ret(v)));
                }
                return Ok(out);
            }
            _ => {}
        }
        let (kind, m) = name.split_once('.').ok_or("native")?;
        match kind {
            "it" => {
                // borrowing iterators: self is a pointer to Val::Iter (or the value for clone-by-value)
                if m == "into_iter" {
                    return ret(st, args[0].clone());
                }
                let p = self.arg_ptr(&args[0])?;
                let it = match st.read(&p)? {
                    Val::Iter(i) => i.clone(),
                    o => return Err(format!("expected an iterator, found {o:?}")),
                };
                match m {
                    "clone" => ret(st, Val::Iter(it)),
                    "len" => ret(st, Val::Int(it.hi.sub(&it.lo))),
                    "is_empty" => Ok(fork(self, st, &it.lo, &it.hi).into_iter().map(|(s, b)| (s, Out::Ret(Val::Bool(!b)))).collect()),
                    "size_hint" => {
                        let n = Val::Int(it.hi.sub(&it.lo));
                        ret(st, agg(vec![n.clone(), some(n)]))
                    }
                    "__iterator_get_unchecked" => {
                        let k = self.arg_int(&args[1])?;
                        Ok(Self::rets(self.elem_ptr(st, &it.seq, &it.lo.add(&k))?))
                    }
                    "next" | "next_back" => {
                        let mut out = vec![];
                        for (s, more) in fork(self, st, &it.lo, &it.hi) {
                            if !more {
                                out.push((s, Out::Ret(none())));
                                continue;
                            }
                            let mut n = it.as_ref().clone();
                            let pos = if m == "next" {
                                let q = n.lo.clone();
                                n.lo = n.lo.addc(I::ONE);
                                q
                            } else {
                                n.hi = n.hi.addc(I::new(-1));
                                n.hi.clone()
                            };
                            for (mut s, e) in self.elem_ptr(s, &it.seq, &pos)? {
                                s.write(&p, Val::Iter(Rc::new(n.clone())))?;
                                out.push((s, Out::Ret(some(e))));
                            }
                        }
                        Ok(out)
                    }
                    _ => Err(format!("native {name}")),
                }
            }
            "own" => {
                if m == "into_iter" {
                    return ret(st, args[0].clone());
                }
                let p = self.arg_ptr(&args[0])?;
                let len = st.seq(&p)?.len();
                match m {
                    "clone" => {
                        let v = refresh_eids(st.read(&p)?);
                        ret(st, v)
                    }
                    "len" => ret(st, Val::Int(len)),
                    "is_empty" => Ok(fork(self, st, &Lin::int(0), &len).into_iter().map(|(s, b)| (s, Out::Ret(Val::Bool(!b)))).collect()),
                    "size_hint" => ret(st, agg(vec![Val::Int(len.clone()), some(Val::Int(len))])),
                    "next" | "next_back" => self.pop(st, &p, m == "next"),
                    _ => Err(format!("native {name}")),
                }
            }
            "seq" => self.native_seq(m, inst, args, st),
            "buf" => {
                let mut p = self.arg_ptr(&args[0])?.as_ref().clone();
                if p.meta.is_none() {
                    if let Val::Ptr(q) = st.read(&p)? {
                        p = q.as_ref().clone();
                    }
                }
                let (lo, hi) = match &p.meta {
                    Some(m) => m.clone(),
                    None => match st.read(&p)? {
                        Val::Agg(f) if f.len() == 2 => (Lin::int(0), self.arg_int(&f[1])?),
                        o => return Err(format!("container {o:?}")),
                    },
                };
                let len = hi.sub(&lo);
                match m {
                    "len" => ret(st, Val::Int(len)),
                    "is_empty" => Ok(fork(self, st, &Lin::int(0), &len).into_iter().map(|(s, b)| (s, Out::Ret(Val::Bool(!b)))).collect()),
                    "index" | "index_mut" | "get" | "get_mut" => {
                        let idx = *self.sig(inst).ok_or("signature")?.get(2).ok_or("index type")?;
                        let (a, b) = self.range_arg(&st, &args[1], idx, &len)?;
                        let mut out = vec![];
                        let bad = |me: &mut Self, s: State| {
                            let o = if m.starts_with("get") { Out::Ret(none()) } else { me.panic("slice index out of range".into()) };
                            (s, o)
                        };
                        for (s, ordered) in self.fork_le(st, &a.sub(&b)) {
                            if !ordered {
                                out.push(bad(self, s));
                                continue;
                            }
                            for (s, inside) in self.fork_le(s, &b.sub(&len)) {
                                if !inside {
                                    out.push(bad(self, s));
                                    continue;
                                }
                                let v = ptr_val(Ptr { meta: Some((lo.add(&a), lo.add(&b))), ..p.clone() });
                                out.push((s, Out::Ret(if m.starts_with("get") { some(v) } else { v })));
                            }
                        }
                        Ok(out)
                    }
                    _ => ret(st, ptr_val(Ptr { meta: Some((lo, hi)), ..p })),
                }
            }
            "first" => {
                if let Some(o) = self.find_first(m, inst, &args, &st)? {
                    return Ok(o);
                }
                let s = self.sig(inst).ok_or("signature")?;
                let f = *type_args(&inst.args()).last().ok_or("closure type")?;
                match self.model(&format!("m_{m}"), vec![peel1(s[1]), f]) {
                    Callee::Model(i) => Ok(self.exec_fn(&i, args, st)),
                    Callee::Unsup(e) => Err(e),
                    _ => Err("model".into()),
                }
            }
            _ => Err(format!("native {name}")),
        }
    }
    /// Search a summarised sequence without iterating: in each segment either no element
    /// satisfies the predicate, or there is a first one that does.
    fn find_first(&mut self, m: &str, inst: &Instance, args: &[Val], st: &State) -> Res<Option<Outs>> {
        if !(self.cfg.fold && self.cfg.coarse) {
            return Ok(None);
        }
        let fty = *type_args(&inst.args()).last().ok_or("closure type")?;
        match rigid(fty) {
            Some(RigidTy::Closure(d, a)) => {
                let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?;
                let i2 = Instance::resolve_closure(d, &a, ClosureKind::Fn);
                let _ = i;
                let bi = match i2.ok().and_then(|i| self.body(&i)) {
                    Some(b) => b,
                    None => return Ok(None),
                };
                // only predicates that leave their environment alone
                if bi.body.arg_locals().len() != 2 || mutates_env(&bi.body) {
                    return Ok(None);
                }
            }
            Some(RigidTy::FnDef(..)) => {}
            _ => return Ok(None),
        }
        let p = self.arg_ptr(&args[0])?;
        let it = match st.read(&p)? {
            Val::Iter(i) => i.clone(),
            _ => return Ok(None),
        };
        let seq = match st.seq(&it.seq) {
            Ok(s) => s.clone(),
            Err(_) => return Ok(None),
        };
        if !seq.ranges || !st.is_eq(&it.hi, &seq.len()) {
            if self.cfg.verbose > 2 {
                eprintln!("find_first: {} hi {:?} len {:?}", seq.ranges, it.hi, seq.len());
            }
            return Ok(None);
        }
        if !(0..=seq.segs.len()).any(|i| st.is_eq(&seq.start(i), &it.lo)) {
            if self.cfg.verbose > 2 {
                eprintln!("find_first: lo {:?}", it.lo);
            }
            return Ok(None);
        }
        let want = m != "all";
        // the book-keeping lives in an allocation, so that it follows any renaming of symbols
        // [closure, iterator, position of the next segment, position under test]
        let (cid, bid) = (fresh_aid(), fresh_aid());
        let book = |it: &IterV, next: &Lin, at: &Lin, lo: &Lin| agg(vec![Val::Iter(Rc::new(it.clone())), Val::Int(next.clone()), Val::Int(at.clone()), Val::Int(lo.clone())]);
        let unbook = |s: &State| -> Res<(Rc<IterV>, Lin, Lin, Lin)> {
            match s.allocs.get(&bid) {
                Some(Val::Agg(v)) => match (&v[0], &v[1], &v[2], &v[3]) {
                    (Val::Iter(i), Val::Int(a), Val::Int(b), Val::Int(c)) => Ok((i.clone(), a.clone(), b.clone(), c.clone())),
                    _ => Err("book".into()),
                },
                _ => Err("book".into()),
            }
        };
        let mut st = st.clone();
        st.allocs.insert(cid, args[1].clone());
        st.allocs.insert(bid, book(&it, &it.lo, &it.lo, &it.lo));
        let nkeep = self.keep.len();
        self.keep.push(cid);
        self.keep.push(bid);
        self.keep.push(it.seq.base);
        self.keep.push(p.base);
        let r = (|| -> Res<Outs> {
            let mut out: Outs = vec![];
            let mut work = vec![st];
            let close = |mut s: State| {
                s.allocs.remove(&cid);
                s.allocs.remove(&bid);
                s
            };
            while let Some(st) = work.pop() {
                if self.stop {
                    return Ok(out);
                }
                let (it, next, _, _) = unbook(&st)?;
                let seq = st.seq(&it.seq)?.clone();
                let k = match (0..seq.segs.len()).find(|&i| st.is_eq(&seq.start(i), &next) && !st.is_eq(&seq.segs[i].end, &next)) {
                    Some(k) => k,
                    None => {
                        if !st.is_eq(&next, &it.hi) {
                            return Err("position lost while searching".into());
                        }
                        // nothing found
                        let mut s = st;
                        let mut n = it.as_ref().clone();
                        n.lo = n.hi.clone();
                        s.write(&p, Val::Iter(Rc::new(n)))?;
                        let v = if m == "position" || m == "find" { none() } else { Val::Bool(!want) };
                        out.push((close(s), Out::Ret(v)));
                        continue;
                    }
                };
                let (lo, hi) = (seq.start(k), seq.segs[k].end.clone());
                let star = match &seq.segs[k].body {
                    SegBody::Star(c, sh) => Some((*c, sh.clone())),
                    _ => None,
                };
                let mut s0 = st.clone();
                let single = st.is_eq(&lo.addc(I::ONE), &hi);
                let at = if single {
                    lo.clone()
                } else {
                    let x = Lin::sym(crate::store::fresh(SORT_INT));
                    if !(s0.le0(&lo.sub(&x)) && s0.le0(&x.sub(&hi).addc(I::ONE))) {
                        // the segment is empty
                        let mut s = st;
                        s.allocs.insert(bid, book(&it, &hi, &hi, &hi));
                        work.push(s);
                        continue;
                    }
                    x
                };
                s0.allocs.insert(bid, book(&it, &hi, &at, &lo));
                let mut hits = vec![];
                let mut refined: Vec<Shape> = vec![];
                let (mut any_miss, mut exact_miss) = (false, vec![]);
                for (mut s, e) in self.elem_ptr(s0, &it.seq, &at)? {
                    let arg = if m == "find" {
                        let id = fresh_aid();
                        s.allocs.insert(id, e);
                        ptr_val(Ptr { base: id, path: vec![], meta: None })
                    } else {
                        e
                    };
                    let me = ptr_val(Ptr { base: cid, path: vec![], meta: None });
                    for (s, o) in self.call_fn_trait(fty, "call_mut", vec![me, agg(vec![arg])], s)? {
                        match o {
                            Out::Ret(Val::Bool(b)) if b == want => hits.push(s),
                            Out::Ret(Val::Bool(_)) => {
                                any_miss = true;
                                let (it, _, at, _) = unbook(&s)?;
                                let q = s.seq(&it.seq)?.clone();
                                let j = (0..q.segs.len()).find(|&i| s.is_eq(&q.start(i), &at) && s.is_eq(&q.segs[i].end, &at.addc(I::ONE))).ok_or("element lost while searching")?;
                                match &q.segs[j].body {
                                    SegBody::One(_, v) => {
                                        let g: Vec<Sym> = s.globals.as_ref().clone();
                                        add_shape(&mut refined, range_shape(&s.store, v, self.probe, &self.lay, &g), &st.store);
                                    }
                                    SegBody::Star(_, sh) => sh.iter().for_each(|x| add_shape(&mut refined, x.clone(), &st.store)),
                                }
                                exact_miss.push(s);
                            }
                            Out::Ret(o) => return Err(format!("predicate returned {o:?}")),
                            o => out.push((close(s), o)),
                        }
                    }
                }
                for mut s in hits {
                    let (it, _, at, lo) = unbook(&s)?;
                    let q = s.seq(&it.seq)?.clone();
                    if let Some((c, _)) = &star {
                        if !single {
                            // elements of this segment before the hit do not satisfy the predicate
                            if let Some(j) = (1..q.segs.len()).find(|&i| s.is_eq(&q.start(i), &at)).map(|i| i - 1) {
                                if let SegBody::Star(_, _) = &q.segs[j].body {
                                    if s.is_eq(&q.start(j), &lo) {
                                        if !any_miss {
                                            let a = q.start(j);
                                            if !s.eq0(&at.sub(&a)) {
                                                continue;
                                            }
                                        } else {
                                            let (c, r) = (*c, Rc::new(refined.clone()));
                                            s.with_seq(&it.seq, |q| q.segs[j].body = SegBody::Star(c, r))?;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    s.exact = s.exact && star.is_none();
                    let mut n = it.as_ref().clone();
                    let idx = at.sub(&it.lo);
                    n.lo = at.addc(I::ONE);
                    s.write(&p, Val::Iter(Rc::new(n)))?;
                    let rs = match m {
                        "position" => vec![(s, some(Val::Int(idx)))],
                        "find" => self.elem_ptr(s, &it.seq, &at)?.into_iter().map(|(s, e)| (s, some(e))).collect(),
                        _ => vec![(s, Val::Bool(want))],
                    };
                    for (s, v) in rs {
                        out.push((close(s), Out::Ret(v)));
                    }
                }
                // no hit in this segment
                if star.is_none() {
                    work.extend(exact_miss);
                } else {
                    let mut s = st;
                    s.allocs.insert(bid, book(&it, &hi, &hi, &hi));
                    if any_miss {
                        let c = star.unwrap().0;
                        s.with_seq(&it.seq, |q| q.segs[k].body = SegBody::Star(c, Rc::new(refined)))?;
                        work.push(s);
                    } else if s.eq0(&lo.sub(&hi)) {
                        work.push(s);
                    }
                }
            }
            Ok(out)
        })();
        self.keep.truncate(nkeep);
        r.map(Some)
    }
    fn pop(&mut self, st: State, p: &Ptr, front: bool) -> Res<Outs> {
        let len = st.seq(p)?.len();
        let mut out = vec![];
        for (s, more) in self.fork_le(st, &Lin::int(1).sub(&len)) {
            if !more {
                out.push((s, Out::Ret(none())));
                continue;
            }
            let pos = if front { Lin::int(0) } else { len.addc(I::new(-1)) };
            for (s, v) in self.seq_remove(s, p, &pos)? {
                out.push((s, Out::Ret(some(v))));
            }
        }
        Ok(out)
    }
    fn native_seq(&mut self, m: &str, inst: &Instance, args: Vec<Val>, mut st: State) -> Res<Outs> {
        let ret = |st: State, v: Val| -> Res<Outs> { Ok(vec![(st, Out::Ret(v))]) };
        match m {
            "new" | "with_capacity" | "default" => {
                let s = self.sig(inst).ok_or("signature")?;
                let e = seq_elem(s[0]).ok_or("element type")?;
                if m == "default" && matches!(rigid(s[0]), Some(RigidTy::Array(..))) {
                    return Err("array default".into());
                }
                return ret(st, Val::Seq(Rc::new(Seq::empty(is_range_elem(e)))));
            }
            "reserve" | "shrink_to_fit" | "reserve_exact" => return ret(st, unit()),
            "from" => {
                return match &args[0] {
                    Val::Seq(_) => ret(st, args[0].clone()),
                    Val::Ptr(_) => {
                        let v = self.copy_slice(&st, &args[0])?;
                        ret(st, v)
                    }
                    o => Err(format!("sequence conversion from {o:?}")),
                }
            }
            "into_vec" | "into_boxed_slice" => {
                return match &args[0] {
                    Val::Seq(_) => ret(st, args[0].clone()),
                    o => Err(format!("into_vec of {o:?}")),
                }
            }
            "to_vec" => {
                let v = self.copy_slice(&st, &args[0])?;
                return ret(st, v);
            }
            "into_iter" => {
                if let Val::Seq(_) = &args[0] {
                    return ret(st, args[0].clone());
                }
            }
            _ => {}
        }
        let (sp, lo, hi) = self.arg_seq(&st, &args[0])?;
        let len = hi.sub(&lo);
        match m {
            "len" => ret(st, Val::Int(len)),
            "is_empty" => Ok(self.fork_le(st, &len).into_iter().map(|(s, b)| (s, Out::Ret(Val::Bool(b)))).collect()),
            "iter" | "iter_mut" | "into_iter" => ret(st, Val::Iter(Rc::new(IterV { seq: sp, lo, hi }))),
            "clone" => {
                let v = self.copy_slice(&st, &args[0])?;
                ret(st, v)
            }
            "deref" | "deref_mut" | "make_contiguous" | "as_slice" | "as_mut_slice" | "as_ref" | "borrow" => ret(st, ptr_val(Ptr { meta: Some((lo, hi)), ..sp })),
            "push_back" | "push" => {
                let mut out = vec![];
                for s in self.seq_insert(st, &sp, &hi, args[1].clone())? {
                    out.push((s, Out::Ret(unit())));
                }
                Ok(out)
            }
            "push_front" => {
                let mut out = vec![];
                for s in self.seq_insert(st, &sp, &lo, args[1].clone())? {
                    out.push((s, Out::Ret(unit())));
                }
                Ok(out)
            }
            "pop_front" => self.pop(st, &sp, true),
            "pop_back" | "pop" => self.pop(st, &sp, false),
            "front" | "first" | "front_mut" | "first_mut" | "back" | "last" | "back_mut" | "last_mut" => {
                let front = m.starts_with('f');
                let mut out = vec![];
                for (s, more) in self.fork_le(st, &Lin::int(1).sub(&len)) {
                    if !more {
                        out.push((s, Out::Ret(none())));
                    } else {
                        let pos = if front { lo.clone() } else { hi.addc(I::new(-1)) };
                        for (s, e) in self.elem_ptr(s, &sp, &pos)? {
                            out.push((s, Out::Ret(some(e))));
                        }
                    }
                }
                Ok(out)
            }
            "get" | "get_mut" | "index" | "index_mut" | "get_unchecked" => {
                if let Val::Int(k) = &args[1] {
                    let mut out = vec![];
                    for (s, ok) in self.fork_le(st, &k.sub(&len).addc(I::ONE)) {
                        if ok {
                            for (s, e) in self.elem_ptr(s, &sp, &lo.add(k))? {
                                out.push((s, Out::Ret(if m.starts_with("get") && m != "get_unchecked" { some(e) } else { e })));
                            }
                        } else if m == "get" || m == "get_mut" {
                            out.push((s, Out::Ret(none())));
                        } else {
                            let p = self.panic("index out of bounds".into());
                            out.push((s, p));
                        }
                    }
                    return Ok(out);
                }
                let s = self.sig(inst).ok_or("signature")?;
                let (a, b) = self.range_arg(&st, &args[1], s[2], &len)?;
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &a.sub(&b)) {
                    for (s, ok2) in self.fork_le(s, &b.sub(&len)) {
                        if ok && ok2 {
                            let v = ptr_val(Ptr { meta: Some((lo.add(&a), lo.add(&b))), ..sp.clone() });
                            out.push((s, Out::Ret(if m.starts_with("get") { some(v) } else { v })));
                        } else if m.starts_with("get") {
                            out.push((s, Out::Ret(none())));
                        } else {
                            let p = self.panic("slice index out of range".into());
                            out.push((s, p));
                        }
                    }
                }
                Ok(out)
            }
            "insert" => {
                let k = self.arg_int(&args[1])?;
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &k.sub(&len)) {
                    if ok {
                        for s in self.seq_insert(s, &sp, &k, args[2].clone())? {
                            out.push((s, Out::Ret(unit())));
                        }
                    } else {
                        let p = self.panic("index out of bounds in insert".into());
                        out.push((s, p));
                    }
                }
                Ok(out)
            }
            "remove" | "swap_remove" | "swap_remove_back" => {
                let k = self.arg_int(&args[1])?;
                let deque = def_norm(inst).contains("VecDeque");
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &k.sub(&len).addc(I::ONE)) {
                    if ok {
                        for (s, v) in self.seq_remove(s, &sp, &k)? {
                            if m == "remove" {
                                out.push((s, Out::Ret(if deque { some(v) } else { v })));
                                continue;
                            }
                            // the last element takes the hole
                            let l1 = s.seq(&sp)?.len();
                            for (s, more) in self.fork_le(s, &k.sub(&l1).addc(I::ONE)) {
                                let r = if deque { some(v.clone()) } else { v.clone() };
                                if more {
                                    for (s, w) in self.seq_remove(s, &sp, &l1.addc(I::new(-1)))? {
                                        for s in self.seq_insert(s, &sp, &k, w.clone())? {
                                            out.push((s, Out::Ret(r.clone())));
                                        }
                                    }
                                } else {
                                    out.push((s, Out::Ret(r)));
                                }
                            }
                        }
                    } else if deque {
                        out.push((s, Out::Ret(none())));
                    } else {
                        let p = self.panic("index out of bounds in remove".into());
                        out.push((s, p));
                    }
                }
                Ok(out)
            }
            "clear" => {
                st.with_seq(&sp, |q| q.segs.clear())?;
                ret(st, unit())
            }
            "truncate" => {
                let k = self.arg_int(&args[1])?;
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &k.sub(&len).addc(I::ONE)) {
                    if !ok {
                        out.push((s, Out::Ret(unit())));
                        continue;
                    }
                    for (mut s, i) in self.cut(s, &sp, &k)? {
                        s.with_seq(&sp, |q| q.segs.truncate(i))?;
                        out.push((s, Out::Ret(unit())));
                    }
                }
                Ok(out)
            }
            "split_off" => {
                let k = self.arg_int(&args[1])?;
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &k.sub(&len)) {
                    if !ok {
                        let p = self.panic("split_off index out of bounds".into());
                        out.push((s, p));
                        continue;
                    }
                    for (mut s, i) in self.cut(s, &sp, &k)? {
                        let v = s.with_seq(&sp, |q| {
                            let r = q.ranges;
                            let t: Vec<Seg> = q.segs.split_off(i).into_iter().map(|g| Seg { end: g.end.sub(&k), body: g.body }).collect();
                            Val::Seq(Rc::new(Seq { ranges: r, segs: t }))
                        })?;
                        out.push((s, Out::Ret(v)));
                    }
                }
                Ok(out)
            }
            "append" => {
                let (op, _, _) = self.arg_seq(&st, &args[1])?;
                let other = st.seq(&op)?.as_ref().clone();
                st.with_seq(&op, |q| q.segs.clear())?;
                st.with_seq(&sp, |q| {
                    for g in other.segs {
                        q.segs.push(Seg { end: g.end.add(&hi), body: g.body });
                    }
                })?;
                ret(st, unit())
            }
            "extend_from_slice" => {
                let v = self.copy_slice(&st, &args[1])?;
                if let Val::Seq(o) = v {
                    st.with_seq(&sp, |q| {
                        for g in &o.segs {
                            q.segs.push(Seg { end: g.end.add(&hi), body: g.body.clone() });
                        }
                    })?;
                }
                ret(st, unit())
            }
            "swap" => {
                let (a, b) = (self.arg_int(&args[1])?, self.arg_int(&args[2])?);
                let mut out = vec![];
                for (s, oka) in self.fork_le(st, &a.sub(&len).addc(I::ONE)) {
                    for (s, okb) in self.fork_le(s, &b.sub(&len).addc(I::ONE)) {
                        if !(oka && okb) {
                            let p = self.panic("swap index out of bounds".into());
                            out.push((s, p));
                            continue;
                        }
                        for (s, pa) in self.elem_ptr(s, &sp, &lo.add(&a))? {
                            for (mut s, pb) in self.elem_ptr(s, &sp, &lo.add(&b))? {
                                let (pa, pb) = (self.arg_ptr(&pa)?, self.arg_ptr(&pb)?);
                                let (x, y) = (s.read(&pa)?.clone(), s.read(&pb)?.clone());
                                s.write(&pa, y)?;
                                s.write(&pb, x)?;
                                out.push((s, Out::Ret(unit())));
                            }
                        }
                    }
                }
                Ok(out)
            }
            "drain" => {
                let s = self.sig(inst).ok_or("signature")?;
                let (a, b) = self.range_arg(&st, &args[1], s[2], &len)?;
                let mut out = vec![];
                for (s, ok) in self.fork_le(st, &a.sub(&b)) {
                    for (s, ok2) in self.fork_le(s, &b.sub(&len)) {
                        if !(ok && ok2) {
                            let p = self.panic("drain range out of bounds".into());
                            out.push((s, p));
                            continue;
                        }
                        for (s, _) in self.cut(s, &sp, &a)? {
                            for (mut s, _) in self.cut(s, &sp, &b)? {
                                // indices again: the second cut may have split before the first
                                let q = s.seq(&sp)?.clone();
                                let find = |x: &Lin| (0..=q.segs.len()).find(|i| s.is_eq(&q.start(*i), x));
                                let (i, j) = (find(&a).ok_or("cut")?, find(&b).ok_or("cut")?);
                                let d = b.sub(&a);
                                let mut segs = q.segs.clone();
                                let taken: Vec<Seg> = segs.drain(i..j.max(i)).map(|g| Seg { end: g.end.sub(&a), body: g.body }).collect();
                                for g in segs[i..].iter_mut() {
                                    g.end = g.end.sub(&d);
                                }
                                s.with_seq(&sp, |z| z.segs = segs)?;
                                out.push((s, Out::Ret(Val::Seq(Rc::new(Seq { ranges: q.ranges, segs: taken })))));
                            }
                        }
                    }
                }
                Ok(out)
            }
            _ => Err(format!("native sequence method {m}")),
        }
    }
    fn copy_slice(&mut self, st: &State, v: &Val) -> Res<Val> {
        let (sp, lo, hi) = self.arg_seq(st, v)?;
        let s = st.seq(&sp)?;
        if st.is_eq(&lo, &Lin::int(0)) && st.is_eq(&hi, &s.len()) {
            return Ok(refresh_eids(&Val::Seq(s.clone())));
        }
        Err("copy of a partial slice".into())
    }
    /// fork on whether l is a Unicode scalar value
    pub fn char_valid(&self, st: State, l: &Lin) -> Vec<(State, bool)> {
        let mut out = vec![];
        for (s, low) in self.fork_le(st, &l.addc(I::new(-0xD7FF))) {
            if low {
                for (s, neg) in self.fork_le(s, &l.addc(I::ONE)) {
                    out.push((s, !neg));
                }
                continue;
            }
            for (s, sur) in self.fork_le(s, &l.addc(I::new(-0xDFFF))) {
                if sur {
                    out.push((s, false));
                    continue;
                }
                for (s, ok) in self.fork_le(s, &l.addc(I::new(-0x10FFFF))) {
                    out.push((s, ok));
                }
            }
        }
        out
    }

    pub fn intrinsic(&mut self, name: &str, inst: &Instance, args: Vec<Val>, mut st: State) -> Res<Outs> {
        let ret = |st: State, v: Val| -> Res<Outs> { Ok(vec![(st, Out::Ret(v))]) };
        let ga = type_args(&inst.args());
        let t0 = ga.first().copied();
        let ty = || t0.ok_or_else(|| "intrinsic type".to_string());
        match name {
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "saturating_add" | "saturating_sub" => {
                let op = if name.contains("add") {
                    BinOp::Add
                } else if name.contains("sub") {
                    BinOp::Sub
                } else {
                    BinOp::Mul
                };
                let t = ty()?;
                let (mn, mx, _, _) = int_range(t).ok_or("intrinsic type")?;
                let mut out = vec![];
                for (s, v, o) in self.arith(st, op, &args[0], &args[1], t)? {
                    if name.starts_with("wrapping") {
                        out.push((s, Out::Ret(v)));
                    } else if name.starts_with("saturating") {
                        if !o {
                            out.push((s, Out::Ret(v)));
                            continue;
                        }
                        let exact = match (&args[0], &args[1]) {
                            (Val::Int(a), Val::Int(b)) => {
                                if op == BinOp::Add {
                                    a.add(b)
                                } else {
                                    a.sub(b)
                                }
                            }
                            _ => return Err("saturating".into()),
                        };
                        for (s, hi) in self.fork_le(s, &Lin::cst(mx + I::ONE).sub(&exact)) {
                            out.push((s, Out::Ret(Val::Int(Lin::cst(if hi { mx } else { mn })))));
                        }
                    } else {
                        out.push((s, Out::Ret(agg(vec![v, Val::Bool(o)]))));
                    }
                }
                Ok(out)
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" => {
                let op = match name {
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    "unchecked_shr" => BinOp::ShrUnchecked,
                    "unchecked_div" => BinOp::Div,
                    _ => BinOp::Rem,
                };
                let t = ty()?;
                Ok(Self::rets(self.binop(st, op, &args[0], &args[1], t)?))
            }
            "integer_min" | "integer_max" => {
                let (a, b) = match (&args[0], &args[1]) {
                    (Val::Int(a), Val::Int(b)) => (a.clone(), b.clone()),
                    _ => return Err("integer_min".into()),
                };
                let r = self.fork_le(st, &a.sub(&b));
                Ok(r.into_iter().map(|(s, le)| (s, Out::Ret(Val::Int(if le == (name == "integer_min") { a.clone() } else { b.clone() })))).collect())
            }
            "three_way_compare" => {
                let t = ty()?;
                Ok(Self::rets(self.binop(st, BinOp::Cmp, &args[0], &args[1], t)?))
            }
            "discriminant_value" => {
                let p = self.arg_ptr(&args[0])?;
                let v = discr_val(st.read(&p)?, ty()?)?;
                ret(st, v)
            }
            "likely" | "unlikely" | "black_box" => {
                let v = args[0].clone();
                ret(st, v)
            }
            "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "drop_in_place" => ret(st, unit()),
            "ub_checks" | "contract_checks" | "is_val_statically_known" | "overflow_checks" => ret(st, Val::Bool(name == "overflow_checks")),
            "needs_drop" => ret(st, Val::Bool(false)),
            "caller_location" => ret(st, Val::Tok("loc".into())),
            "unreachable" => {
                self.alarm(st, "undefined behaviour: unreachable_unchecked is reachable".into());
                Ok(vec![])
            }
            "abort" => {
                let p = self.panic("abort".into());
                Ok(vec![(st, p)])
            }
            "size_of" | "min_align_of" | "align_of" => {
                let sh = ty()?.layout().map_err(|e| format!("{e:?}"))?.shape();
                let n = if name == "size_of" { sh.size.bytes() as i128 } else { sh.abi_align as i128 };
                ret(st, int(n))
            }
            "read_via_copy" => {
                let p = self.arg_ptr(&args[0])?;
                let v = st.read(&p)?.clone();
                ret(st, v)
            }
            "write_via_move" => {
                let p = self.arg_ptr(&args[0])?;
                st.write(&p, args[1].clone())?;
                ret(st, unit())
            }
            "typed_swap_nonoverlapping" => {
                let (a, b) = (self.arg_ptr(&args[0])?, self.arg_ptr(&args[1])?);
                let (x, y) = (st.read(&a)?.clone(), st.read(&b)?.clone());
                st.write(&a, y)?;
                st.write(&b, x)?;
                ret(st, unit())
            }
            "transmute" | "transmute_unchecked" => {
                let (a, b) = (ga[0], ga[1]);
                Ok(Self::rets(self.cast_transmute(st, args[0].clone(), a, b)?))
            }
            "select_unpredictable" => match &args[0] {
                Val::Bool(b) => {
                    let v = args[if *b { 1 } else { 2 }].clone();
                    ret(st, v)
                }
                _ => Err("select".into()),
            },
            "const_eval_select" => {
                let tup = match &args[0] {
                    Val::Agg(v) => v.as_ref().clone(),
                    _ => return Err("const_eval_select".into()),
                };
                let f = ga[2];
                match rigid(f) {
                    Some(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve(d, &a).map_err(|e| format!("{e:?}"))?;
                        self.call_inst(i, tup, st)
                    }
                    _ => Err("const_eval_select target".into()),
                }
            }
            "ptr_metadata" => {
                let p = self.arg_ptr(&args[0])?;
                let v = match &p.meta {
                    Some((lo, hi)) => Val::Int(hi.sub(lo)),
                    None => unit(),
                };
                ret(st, v)
            }
            _ => Err(format!("intrinsic {name}")),
        }
    }
}
