//! The specification vocabulary of the harness (module `sv`): arbitrary inputs,
//! the probe point, obligations, and the set-theoretic meaning of ranges and sets.
use crate::canon::*;
use crate::interp::*;
use crate::lin::*;
use crate::natives::*;
use crate::num::*;
use crate::store::*;
use crate::memo;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
#[allow(unused_imports)]
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::rc::Rc;

/// One maximal interval (or summary of intervals) of a range or set value.
#[derive(Clone, Debug)]
pub enum Item {
    Full,
    /// (-inf, hi): excluded?, value
    Upper(bool, Lin),
    /// lo excluded?, lo, hi excluded?, hi
    Piece(bool, Lin, bool, Lin),
    Star(Rc<Vec<Shape>>, Lin, Lin),
    Lower(bool, Lin),
}
pub fn strict(b: bool) -> I {
    if b { I::ONE } else { I::ZERO }
}

impl Ctx {
    fn field(t: Ty, name: &str) -> Option<usize> {
        memo!((Ty, String), Option<usize>, (t, name.to_string()), match rigid(t)? {
            RigidTy::Adt(d, _) => d.variants().first()?.fields().iter().position(|f| f.name.to_string() == name),
            _ => None,
        })
    }
    fn field_ty(t: Ty, k: usize) -> Option<Ty> {
        variants(t).first().and_then(|v| v.1.get(k).copied())
    }
    /// the (possibly wrapped) Bound enum inside LowerBound / UpperBound
    fn bound_enum(t: Ty) -> Option<Ty> {
        match rigid(t)? {
            RigidTy::Adt(d, a) => match d.kind() {
                AdtKind::Enum => Some(t),
                AdtKind::Struct => Self::bound_enum(d.variants()[0].fields().first()?.ty_with_args(&a)),
                _ => None,
            },
            _ => None,
        }
    }
    fn excluded_idx(t: Ty) -> Option<u32> {
        memo!(Ty, Option<u32>, t, match rigid(Self::bound_enum(t)?)? {
            RigidTy::Adt(d, _) => d.variants().iter().position(|v| v.name().to_string() == "Excluded").map(|x| x as u32),
            _ => None,
        })
    }
    fn read_bound(v: &Val, t: Ty) -> Res<(bool, Lin)> {
        let k = Self::excluded_idx(t).ok_or("bound type")?;
        let (i, l) = bound_of(v).ok_or_else(|| format!("not a bound: {v:?}"))?;
        Ok((i == k, l))
    }
    pub fn learn(&mut self, t: Ty) -> Res<()> {
        if self.lay.known {
            return Ok(());
        }
        let (s, e) = (Self::field(t, "start").ok_or("BoundedRange has no field start")?, Self::field(t, "end").ok_or("BoundedRange has no field end")?);
        let x = Self::excluded_idx(Self::field_ty(t, s).ok_or("start")?).ok_or("Bound has no variant Excluded")?;
        self.lay = RangeLayout { start: s, end: e, excluded: x, included: 1 - x, known: true };
        Ok(())
    }
    pub fn items(&mut self, st: &State, v: &Val, t: Ty) -> Res<Vec<Item>> {
        let mut out = vec![];
        self.items_in(st, v, t, &mut out)?;
        out.sort_by_key(|i| match i {
            Item::Upper(..) => 0,
            Item::Lower(..) => 2,
            _ => 1,
        });
        Ok(out)
    }
    fn items_in(&mut self, st: &State, v: &Val, t: Ty, out: &mut Vec<Item>) -> Res<()> {
        if let (Val::Seq(s), Some(et)) = (v, seq_elem(t)) {
            for (i, g) in s.segs.iter().enumerate() {
                match &g.body {
                    SegBody::One(_, v) => self.items_in(st, v, et, out)?,
                    SegBody::Star(_, sh) => {
                        self.learn(et)?;
                        out.push(Item::Star(sh.clone(), s.start(i), g.end.clone()))
                    }
                }
            }
            return Ok(());
        }
        if let (Val::Ptr(p), Some(RigidTy::Ref(_, it, _))) = (v, rigid(t)) {
            let v = st.read(p)?.clone();
            return self.items_in(st, &v, it, out);
        }
        let n = adt_last(t).ok_or_else(|| format!("no set meaning for {t}"))?;
        let f = match v {
            Val::Agg(f) | Val::Enum(_, f) => f.clone(),
            o => return Err(format!("no set meaning for {o:?}")),
        };
        let leaf = |i: usize| first_leaf(&f[i]).ok_or("leaf");
        match n.as_str() {
            "EmptyRange" => {}
            "UnboundedRange" | "RangeFull" => out.push(Item::Full),
            "BoundedRange" => {
                self.learn(t)?;
                let (s, e) = (self.lay.start, self.lay.end);
                let (xl, lo) = Self::read_bound(&f[s], Self::field_ty(t, s).unwrap())?;
                let (xh, hi) = Self::read_bound(&f[e], Self::field_ty(t, e).unwrap())?;
                out.push(Item::Piece(xl, lo, xh, hi));
            }
            "LowerBoundedRange" => {
                let k = Self::field(t, "start").ok_or("no field start")?;
                let (x, l) = Self::read_bound(&f[k], Self::field_ty(t, k).unwrap())?;
                out.push(Item::Lower(x, l));
            }
            "UpperBoundedRange" => {
                let k = Self::field(t, "end").ok_or("no field end")?;
                let (x, l) = Self::read_bound(&f[k], Self::field_ty(t, k).unwrap())?;
                out.push(Item::Upper(x, l));
            }
            "Range" => out.push(Item::Piece(false, leaf(0)?, true, leaf(1)?)),
            "RangeInclusive" => match &f[2] {
                Val::Bool(x) => out.push(Item::Piece(false, leaf(0)?, *x, leaf(1)?)),
                o => return Err(format!("exhausted flag {o:?}")),
            },
            "RangeFrom" => out.push(Item::Lower(false, leaf(0)?)),
            "RangeTo" => out.push(Item::Upper(true, leaf(0)?)),
            "RangeToInclusive" => out.push(Item::Upper(false, leaf(0)?)),
            _ => match rigid(t) {
                Some(RigidTy::Adt(d, a)) => match (d.kind(), v) {
                    (AdtKind::Struct, Val::Agg(f)) => {
                        let _ = &a;
                        for (i, &ft) in variants(t)[0].1.iter().enumerate() {
                            if is_zst(ft) {
                                continue;
                            }
                            self.items_in(st, &f[i], ft, out)?;
                        }
                    }
                    (AdtKind::Enum, Val::Enum(k, f)) => {
                        let vs = variants(t);
                        let vd = &vs[*k as usize];
                        if vd.0 == "Full" && f.is_empty() {
                            out.push(Item::Full);
                        } else if f.is_empty() && vd.0 == "Empty" {
                        } else if !f.is_empty() {
                            for (i, &ft) in vd.1.iter().enumerate() {
                                self.items_in(st, &f[i], ft, out)?;
                            }
                        } else {
                            return Err(format!("no set meaning for {t}"));
                        }
                    }
                    _ => return Err(format!("no set meaning for {t}")),
                },
                _ => return Err(format!("no set meaning for {t}")),
            },
        }
        Ok(())
    }
    /// fork on a list of conjuncts l <= 0
    fn fork_all(&self, st: State, conj: &[Lin]) -> Vec<(State, bool)> {
        let mut cur = vec![st];
        let mut out = vec![];
        for l in conj {
            let mut next = vec![];
            for s in cur {
                for (s, b) in self.fork_le(s, l) {
                    if b {
                        next.push(s)
                    } else {
                        out.push((s, false))
                    }
                }
            }
            cur = next;
        }
        out.extend(cur.into_iter().map(|s| (s, true)));
        out
    }
    fn item_nonempty(it: &Item) -> Vec<Lin> {
        match it {
            Item::Piece(xl, lo, xh, hi) => vec![lo.sub(hi).addc(strict(*xl || *xh))],
            Item::Star(_, a, b) => vec![a.sub(b).addc(I::ONE)],
            _ => vec![],
        }
    }
    pub fn lo_ok(x: bool, lo: &Lin, t: &Lin) -> Lin {
        lo.sub(t).addc(strict(x))
    }
    pub fn hi_ok(x: bool, hi: &Lin, t: &Lin) -> Lin {
        t.sub(hi).addc(strict(x))
    }
    fn item_mem(it: &Item, t: &Lin) -> Vec<Lin> {
        match it {
            Item::Full => vec![],
            Item::Upper(x, h) => vec![Self::hi_ok(*x, h, t)],
            Item::Lower(x, l) => vec![Self::lo_ok(*x, l, t)],
            Item::Piece(xl, lo, xh, hi) => vec![Self::lo_ok(*xl, lo, t), Self::hi_ok(*xh, hi, t)],
            Item::Star(..) => vec![],
        }
    }
    /// classes of a star's shapes relative to the probe; None when some shape is not
    /// definitely a non-empty piece on one side
    pub fn star_class(&self, st: &State, sh: &[Shape]) -> Option<Class> {
        let mut c: Option<Class> = None;
        for s in sh {
            let mut store = st.store.clone();
            let mut feasible = true;
            for &(a, b, k) in &s.cons {
                if !store.add_diff(a, b, k) {
                    feasible = false;
                    break;
                }
            }
            if !feasible {
                continue;
            }
            let (xl, lo, xh, hi) = range_parts(&s.val, &self.lay)?;
            if !store.entails_le0(&lo.sub(&hi).addc(strict(xl || xh))) {
                return None;
            }
            let k = class_of(&store, self.probe, &s.val, true, &self.lay);
            match (k, c) {
                (Class::L, None) | (Class::R, None) | (Class::C, None) => c = Some(k),
                (a, Some(b)) if a == b => {}
                _ => return None,
            }
        }
        Some(c.unwrap_or(Class::L))
    }
    fn star_has_probe(&self, st: &State, sh: &[Shape]) -> bool {
        sh.iter().any(|s| {
            let mut store = st.store.clone();
            for &(a, b, k) in &s.cons {
                if !store.add_diff(a, b, k) {
                    return false;
                }
            }
            !matches!(class_of(&store, self.probe, &s.val, true, &self.lay), Class::L | Class::R | Class::E)
        })
    }
    pub fn mem(&mut self, st: State, items: &[Item], t: &Lin) -> Vec<(State, bool)> {
        let mut cur = vec![st];
        let mut out = vec![];
        for it in items {
            let mut next = vec![];
            for s in cur {
                if let Item::Star(sh, a, b) = it {
                    if s.store.entails_le0(&a.sub(b).addc(I::ONE)) && self.star_class(&s, sh) == Some(Class::C) {
                        out.push((s, true));
                        continue;
                    }
                    if self.star_has_probe(&s, sh) {
                        let mut s2 = s.clone();
                        if s2.le0(&a.sub(b).addc(I::ONE)) {
                            s2.exact = false;
                            out.push((s2, true));
                        }
                    }
                    next.push(s);
                    continue;
                }
                for (s, b) in self.fork_all(s, &Self::item_mem(it, t)) {
                    if b {
                        out.push((s, true))
                    } else {
                        next.push(s)
                    }
                }
            }
            cur = next;
        }
        out.extend(cur.into_iter().map(|s| (s, false)));
        out
    }
    /// 0: not well formed at t, 1: well formed and t outside, 2: well formed and t inside
    pub fn wf(&mut self, st: State, items: &[Item], t: &Lin) -> Vec<(State, u8)> {
        let mut out = vec![];
        // (state, phase, member)
        let mut cur: Vec<(State, u8, bool)> = vec![(st, 0, false)];
        if items.len() > 1 && items.iter().any(|i| matches!(i, Item::Full)) {
            return vec![(cur.pop().unwrap().0, 0)];
        }
        for (idx, it) in items.iter().enumerate() {
            let mut next = vec![];
            for (s, ph, mb) in cur {
                match it {
                    Item::Star(sh, a, b) => {
                        // no need to know whether it is empty
                        match self.star_class(&s, sh) {
                            Some(Class::L) if ph == 0 => {
                                next.push((s, 0, mb));
                                continue;
                            }
                            Some(Class::R) if ph == 2 || idx + 1 == items.len() => {
                                next.push((s, ph.max(1), mb));
                                continue;
                            }
                            _ => {}
                        }
                        for (s, some) in self.fork_le(s, &a.sub(b).addc(I::ONE)) {
                            if !some {
                                next.push((s, ph, mb));
                                continue;
                            }
                            match self.star_class(&s, sh) {
                                Some(Class::L) if ph == 0 => next.push((s, 0, mb)),
                                Some(Class::R) => next.push((s, 2, mb)),
                                Some(Class::C) if ph == 0 && s.store.entails_le0(&b.sub(a).addc(-I::ONE)) => next.push((s, 1, true)),
                                _ => out.push((s, 0)),
                            }
                        }
                    }
                    _ => {
                        for (s, ne) in self.fork_all(s, &Self::item_nonempty(it)) {
                            if !ne {
                                out.push((s, 0));
                                continue;
                            }
                            for (s, inside) in self.fork_all(s, &Self::item_mem(it, t)) {
                                if inside {
                                    if ph > 0 {
                                        out.push((s, 0));
                                    } else {
                                        next.push((s, 1, true));
                                    }
                                    continue;
                                }
                                // before or after
                                let before = match it {
                                    Item::Upper(..) => true,
                                    Item::Lower(..) => false,
                                    Item::Piece(_, _, xh, hi) => !s.store.entails_le0(&Self::hi_ok(*xh, hi, t)),
                                    _ => false,
                                };
                                if before {
                                    if ph > 0 {
                                        out.push((s, 0));
                                    } else {
                                        next.push((s, ph, mb));
                                    }
                                } else {
                                    next.push((s, 2, mb));
                                }
                            }
                        }
                    }
                }
            }
            cur = next;
        }
        out.extend(cur.into_iter().map(|(s, _, m)| (s, if m { 2 } else { 1 })));
        out
    }
    pub fn nonempty(&mut self, st: State, items: &[Item]) -> Vec<(State, bool)> {
        let mut cur = vec![st];
        let mut out = vec![];
        for it in items {
            let mut next = vec![];
            for s in cur {
                for (s, b) in self.fork_all(s, &Self::item_nonempty(it)) {
                    if b {
                        out.push((s, true))
                    } else {
                        next.push(s)
                    }
                }
            }
            cur = next;
        }
        out.extend(cur.into_iter().map(|s| (s, false)));
        out
    }
    pub fn meet(&mut self, st: State, a: &[Item], b: &[Item]) -> Vec<(State, u8)> {
        if a.iter().chain(b).any(|i| matches!(i, Item::Star(..))) {
            return vec![(st, 2)];
        }
        let mut cur = vec![st];
        let mut out = vec![];
        for x in a {
            for y in b {
                let (mut los, mut his) = (vec![], vec![]);
                for i in [x, y] {
                    match i {
                        Item::Upper(k, h) => his.push((*k, h)),
                        Item::Lower(k, l) => los.push((*k, l)),
                        Item::Piece(k, l, k2, h) => {
                            los.push((*k, l));
                            his.push((*k2, h));
                        }
                        _ => {}
                    }
                }
                let mut conj = vec![];
                for (xl, l) in &los {
                    for (xh, h) in &his {
                        conj.push(l.sub(h).addc(strict(*xl || *xh)));
                    }
                }
                let mut next = vec![];
                for s in cur {
                    for (s, ok) in self.fork_all(s, &conj) {
                        if ok {
                            out.push((s, 1))
                        } else {
                            next.push(s)
                        }
                    }
                }
                cur = next;
            }
        }
        out.extend(cur.into_iter().map(|s| (s, 0)));
        out
    }

    // ------------------------------------------------------------------ arbitrary values
    fn new_sym(&mut self, st: &mut State, sort: u32) -> Sym {
        let s = fresh(sort);
        if !self.cfg.fold {
            let mut g = st.globals.as_ref().clone();
            g.push(s);
            st.globals = Rc::new(g);
        }
        if sort == SORT_STEP {
            if let (Some(a), Some(b)) = (self.smin, self.smax) {
                st.le0(&Lin::sym(a).sub(&Lin::sym(s)));
                st.le0(&Lin::sym(s).sub(&Lin::sym(b)));
            }
        }
        s
    }
    fn is_set(t: Ty) -> bool {
        adt_last(t).map_or(false, |n| n.ends_with("Set"))
    }
    pub fn any_val(&mut self, mut st: State, t: Ty) -> Res<Vec<(State, Val)>> {
        if let Some((mn, mx, _, _)) = int_range(t) {
            if let Some(RigidTy::Char) = rigid(t) {
                let mut out = vec![];
                for (a, b) in [(0i128, 0xD7FFi128), (0xE000, 0x10FFFF)] {
                    let mut s = st.clone();
                    let x = self.new_sym(&mut s, SORT_INT);
                    s.le0(&Lin::int(a).sub(&Lin::sym(x)));
                    s.le0(&Lin::sym(x).addc(I::new(-b)));
                    out.push((s, Val::Int(Lin::sym(x))));
                }
                return Ok(out);
            }
            let x = self.new_sym(&mut st, SORT_INT);
            st.le0(&Lin::cst(mn).sub(&Lin::sym(x)));
            st.le0(&Lin::sym(x).addc(-mx));
            return Ok(vec![(st, Val::Int(Lin::sym(x)))]);
        }
        match rigid(t).ok_or("type")? {
            RigidTy::Bool => Ok(vec![(st.clone(), Val::Bool(false)), (st, Val::Bool(true))]),
            RigidTy::Tuple(ts) => self.any_fields(st, &ts).map(|v| v.into_iter().map(|(s, f)| (s, agg(f))).collect()),
            RigidTy::Adt(d, a) => {
                let n = adt_last(t).unwrap();
                match n.as_str() {
                    "Elem" => {
                        let x = self.new_sym(&mut st, SORT_ORD);
                        return Ok(vec![(st, agg(vec![Val::Int(Lin::sym(x))]))]);
                    }
                    "SElem" => {
                        let x = self.new_sym(&mut st, SORT_STEP);
                        return Ok(vec![(st, agg(vec![Val::Int(Lin::sym(x))]))]);
                    }
                    "RangeInclusive" => {
                        let et = type_args(&a)[0];
                        let mut out = vec![];
                        for (s, f) in self.any_fields(st.clone(), &[et, et])? {
                            out.push((s, agg(vec![f[0].clone(), f[1].clone(), Val::Bool(false)])));
                        }
                        for (s, f) in self.any_fields(st, &[et])? {
                            out.push((s, agg(vec![f[0].clone(), f[0].clone(), Val::Bool(true)])));
                        }
                        return Ok(out);
                    }
                    "PhantomData" => return Ok(vec![(st, zst(t)?)]),
                    _ => {}
                }
                if Self::is_set(t) {
                    return self.any_set(st, t);
                }
                match d.kind() {
                    AdtKind::Struct => {
                        Ok(self.any_fields(st, &variants(t)[0].1)?.into_iter().map(|(s, f)| (s, agg(f))).collect())
                    }
                    AdtKind::Enum => {
                        let mut out = vec![];
                        for (i, v) in variants(t).iter().enumerate() {
                            for (s, f) in self.any_fields(st.clone(), &v.1)? {
                                out.push((s, Val::Enum(i as u32, Rc::new(f))));
                            }
                        }
                        Ok(out)
                    }
                    _ => Err(format!("arbitrary {t}")),
                }
            }
            _ => Err(format!("arbitrary {t}")),
        }
    }
    fn any_fields(&mut self, st: State, ts: &[Ty]) -> Res<Vec<(State, Vec<Val>)>> {
        let mut cur = vec![(st, vec![])];
        for t in ts {
            let mut next = vec![];
            for (s, f) in cur {
                for (s, v) in self.any_val(s, *t)? {
                    let mut f: Vec<Val> = f.clone();
                    f.push(v);
                    next.push((s, f));
                }
            }
            cur = next;
        }
        Ok(cur)
    }
    /// the leaf type of a set's pieces
    fn piece_ty(t: Ty, depth: u32) -> Option<Ty> {
        memo!((Ty, u32), Option<Ty>, (t, depth), Self::piece_ty0(t, depth))
    }
    fn piece_ty0(t: Ty, depth: u32) -> Option<Ty> {
        if depth > 6 {
            return None;
        }
        if let Some(e) = seq_elem(t) {
            return if is_range_elem(e) { Some(e) } else { None };
        }
        match rigid(t)? {
            RigidTy::Adt(..) => variants(t).iter().flat_map(|v| v.1.iter()).find_map(|&f| Self::piece_ty(f, depth + 1)),
            _ => None,
        }
    }
    /// build a set value around the given pieces
    fn assemble(&mut self, t: Ty, seq: &Val, up: &Option<Val>, low: &Option<Val>) -> Res<Val> {
        if seq_elem(t).is_some() {
            return Ok(seq.clone());
        }
        match adt_last(t).as_deref() {
            Some("UpperBoundedRange") => return up.clone().ok_or("no upper end".into()),
            Some("LowerBoundedRange") => return low.clone().ok_or("no lower end".into()),
            _ => {}
        }
        match rigid(t) {
            Some(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
                let mut f = vec![];
                let _ = &a;
                for &ft in &variants(t)[0].1 {
                    if is_zst(ft) {
                        f.push(zst(ft)?);
                    } else {
                        f.push(self.assemble(ft, seq, up, low)?);
                    }
                }
                Ok(agg(f))
            }
            _ => Err(format!("cannot build {t}")),
        }
    }
    fn any_set(&mut self, mut st: State, t: Ty) -> Res<Vec<(State, Val)>> {
        let mut out = vec![];
        if let Some(RigidTy::Adt(d, a)) = rigid(t) {
            if d.kind() == AdtKind::Enum {
                let _ = &a;
                for (i, v) in variants(t).iter().enumerate() {
                    let fs = &v.1;
                    if fs.is_empty() {
                        let mut s = st.clone();
                        if self.cfg.fold || self.cfg.shape[s.set_inputs.min(2)] == 0 {
                            s.set_inputs += 1;
                            out.push((s, Val::Enum(i as u32, Rc::new(vec![]))));
                        }
                    } else if fs.len() == 1 {
                        for (s, x) in self.any_set(st.clone(), fs[0])? {
                            out.push((s, Val::Enum(i as u32, Rc::new(vec![x]))));
                        }
                    } else {
                        return Err(format!("arbitrary {t}"));
                    }
                }
                return Ok(out);
            }
        }
        let pt = Self::piece_ty(t, 0).ok_or_else(|| format!("no pieces in {t}"))?;
        self.learn(pt)?;
        let want = self.cfg.shape[st.set_inputs.min(2)];
        st.set_inputs += 1;
        self.set_inputs = self.set_inputs.max(st.set_inputs);
        let kinds = if self.cfg.fold { None } else { self.cfg.kinds };
        let (upt, lowt) = (self.end_ty(t, "UpperBoundedRange", 0), self.end_ty(t, "LowerBoundedRange", 0));
        // end points first
        let mut base: Vec<(State, Option<Val>, Option<Val>)> = vec![(st, None, None)];
        if let Some(ut) = upt {
            let mut n = vec![];
            for (s, _, l) in base {
                for (s, v) in self.any_val(s, ut)? {
                    n.push((s, Some(v), l.clone()));
                }
            }
            base = n;
        }
        if let Some(lt) = lowt {
            let mut n = vec![];
            for (s, u, _) in base {
                for (s, v) in self.any_val(s, lt)? {
                    n.push((s, u.clone(), Some(v)));
                }
            }
            base = n;
        }
        for (s, u, l) in base {
            let ui = match (&u, upt) {
                (Some(v), Some(t)) => self.items(&s, v, t)?.pop(),
                _ => None,
            };
            let li = match (&l, lowt) {
                (Some(v), Some(t)) => self.items(&s, v, t)?.pop(),
                _ => None,
            };
            if let Some((kl, kh)) = kinds {
                if matches!(&ui, Some(Item::Upper(x, _)) if *x != kh) || matches!(&li, Some(Item::Lower(x, _)) if *x != kl) {
                    continue;
                }
            }
            if self.cfg.fold {
                let probe = self.probe.ok_or("no probe")?;
                let t0 = Lin::sym(probe);
                // which part holds the probe: 0 none, 1 upper end, 2 middle, 3 lower end
                for c in 0..4 {
                    if (c == 1 && ui.is_none()) || (c == 3 && li.is_none()) {
                        continue;
                    }
                    let mut s = s.clone();
                    let mut ok = true;
                    if let Some(Item::Upper(x, h)) = &ui {
                        let inside = Self::hi_ok(*x, h, &t0);
                        ok = ok && if c == 1 { s.le0(&inside) } else { s.le0(&inside.neg().addc(I::ONE)) };
                    }
                    if let Some(Item::Lower(x, h)) = &li {
                        let inside = Self::lo_ok(*x, h, &t0);
                        ok = ok && if c == 3 { s.le0(&inside) } else { s.le0(&inside.neg().addc(I::ONE)) };
                    }
                    if !ok {
                        continue;
                    }
                    let mut alts: Vec<(State, Vec<Seg>)> = vec![(s, vec![])];
                    if c != 1 {
                        for (s, segs) in alts.iter_mut() {
                            self.star(s, segs, pt, Class::L)?;
                        }
                    }
                    if c == 2 && self.cfg.coarse {
                        for (s, segs) in alts.iter_mut() {
                            self.star(s, segs, pt, Class::C)?;
                        }
                    } else if c == 2 {
                        let mut n = vec![];
                        for (s, segs) in alts {
                            for (mut s, v) in self.any_val(s, pt)? {
                                let it = self.items(&s, &v, pt)?.pop().unwrap();
                                if Self::item_mem(&it, &t0).iter().chain(Self::item_nonempty(&it).iter()).all(|l| s.le0(l)) {
                                    let mut segs = segs.clone();
                                    let e = segs.last().map(|g| g.end.clone()).unwrap_or(Lin::int(0)).addc(I::ONE);
                                    segs.push(Seg { end: e, body: SegBody::One(fresh_eid(), v) });
                                    n.push((s, segs));
                                }
                            }
                        }
                        alts = n;
                    }
                    if c != 3 {
                        for (s, segs) in alts.iter_mut() {
                            self.star(s, segs, pt, Class::R)?;
                        }
                    }
                    for (mut s, segs) in alts {
                        if c == 0 || c == 2 {
                            s.exact = s.exact && false;
                        }
                        s.exact = false;
                        let seq = Val::Seq(Rc::new(Seq { ranges: true, segs }));
                        let v = self.assemble(t, &seq, &u, &l)?;
                        out.push((s, v));
                    }
                }
            } else {
                // explicit pieces, ascending and disjoint
                let maxp = want;
                let mut cur: Vec<(State, Vec<Val>, Option<(bool, Lin)>)> = vec![(
                    s,
                    vec![],
                    match &ui {
                        Some(Item::Upper(x, h)) => Some((*x, h.clone())),
                        _ => None,
                    },
                )];
                for k in 0..=maxp {
                    for (s, ps, last) in cur.iter().filter(|_| k == want) {
                        // close with the lower end
                        let mut s = s.clone();
                        let mut ok = true;
                        if let (Some((xh, h)), Some(Item::Lower(xl, lo))) = (last, &li) {
                            ok = s.le0(&h.sub(lo).addc(strict(!*xh && !*xl)));
                        }
                        if !ok {
                            continue;
                        }
                        let segs = ps.iter().enumerate().map(|(i, v)| Seg { end: Lin::int(i as i128 + 1), body: SegBody::One(fresh_eid(), v.clone()) }).collect();
                        let seq = Val::Seq(Rc::new(Seq { ranges: true, segs }));
                        let v = self.assemble(t, &seq, &u, &l)?;
                        out.push((s, v));
                    }
                    if k == maxp {
                        break;
                    }
                    let mut next = vec![];
                    for (s, ps, last) in cur {
                        for (mut s, v) in self.any_val(s, pt)? {
                            if let Some(Item::Piece(xl, lo, xh, hi)) = self.items(&s, &v, pt)?.pop() {
                                let mut ok = kinds.map_or(true, |q| q == (xl, xh)) && s.le0(&lo.sub(&hi).addc(strict(xl || xh)));
                                if let Some((x, h)) = &last {
                                    ok = ok && s.le0(&h.sub(&lo).addc(strict(!*x && !xl)));
                                }
                                if ok {
                                    let mut p = ps.clone();
                                    p.push(v);
                                    next.push((s, p, Some((xh, hi))));
                                }
                            }
                        }
                    }
                    cur = next;
                }
            }
        }
        Ok(out)
    }
    fn end_ty(&self, t: Ty, name: &str, depth: u32) -> Option<Ty> {
        memo!((Ty, String, u32), Option<Ty>, (t, name.to_string(), depth), self.end_ty0(t, name, depth))
    }
    fn end_ty0(&self, t: Ty, name: &str, depth: u32) -> Option<Ty> {
        if depth > 6 || seq_elem(t).is_some() {
            return None;
        }
        if adt_last(t).as_deref() == Some(name) {
            return Some(t);
        }
        match rigid(t)? {
            RigidTy::Adt(d, _) if d.kind() == AdtKind::Struct => variants(t)[0].1.iter().find_map(|&f| self.end_ty(f, name, depth + 1)),
            _ => None,
        }
    }
    fn star(&mut self, st: &mut State, segs: &mut Vec<Seg>, pt: Ty, class: Class) -> Res<()> {
        let t0 = Lin::sym(self.probe.ok_or("probe")?);
        let anchors: Vec<Sym> = st.globals.as_ref().clone();
        let mut rel = vec![];
        for &a in anchors.iter().chain([ZERO].iter()) {
            for &b in anchors.iter().chain([ZERO].iter()) {
                if a != b {
                    rel.push((a, b, st.store.diff(a, b)));
                }
            }
        }
        let key = (pt, class, self.cfg.coarse, rel.clone());
        if let Some(sh) = self.star_memo.get(&key).cloned() {
            return self.push_star(st, segs, class, sh);
        }
        // only what is known about the fixed points matters
        let mut scratch = State::new();
        for &(a, b, c) in &rel {
            if !c.is_inf() {
                scratch.store.add_diff(a, b, c);
            }
        }
        scratch.globals = st.globals.clone();
        let mut shapes = vec![];
        for (mut s, v) in self.any_val(scratch, pt)? {
            if let Some(Item::Piece(xl, lo, xh, hi)) = self.items(&s, &v, pt)?.pop() {
                let mut ok = s.le0(&lo.sub(&hi).addc(strict(xl || xh)));
                match class {
                    Class::L => ok = ok && s.le0(&Self::hi_ok(xh, &hi, &t0).neg().addc(I::ONE)),
                    Class::R => ok = ok && s.le0(&Self::lo_ok(xl, &lo, &t0).neg().addc(I::ONE)),
                    _ => ok = ok && s.le0(&Self::lo_ok(xl, &lo, &t0)) && s.le0(&Self::hi_ok(xh, &hi, &t0)),
                }
                if ok {
                    shapes.push(if self.cfg.coarse { range_shape(&s.store, &v, self.probe, &self.lay, &anchors) } else { shape_of(&s.store, &v, &anchors) });
                }
            }
        }
        let sh = Rc::new(shapes);
        self.star_memo.insert(key, sh.clone());
        self.push_star(st, segs, class, sh)
    }
    fn push_star(&mut self, st: &mut State, segs: &mut Vec<Seg>, class: Class, shapes: Rc<Vec<Shape>>) -> Res<()> {
        let n = fresh(SORT_INT);
        let start = segs.last().map(|g| g.end.clone()).unwrap_or(Lin::int(0));
        if class == Class::C {
            segs.push(Seg { end: start.addc(I::ONE), body: SegBody::Star(class, shapes) });
            return Ok(());
        }
        st.le0(&start.sub(&Lin::sym(n)));
        st.le0(&Lin::sym(n).sub(&start).addc(-I::pow2(40)));
        segs.push(Seg { end: Lin::sym(n), body: SegBody::Star(class, shapes) });
        Ok(())
    }

    pub fn spec(&mut self, name: &str, inst: &Instance, args: Vec<Val>, mut st: State) -> Res<Outs> {
        let ret = |st: State, v: Val| -> Res<Outs> { Ok(vec![(st, Out::Ret(v))]) };
        let ga = type_args(&inst.args());
        let rets = |v: Vec<(State, Val)>| -> Outs { v.into_iter().map(|(s, v)| (s, Out::Ret(v))).collect() };
        match name {
            "any" => {
                let t = ga[0];
                let mut out = vec![];
                for (mut s, v) in self.any_val(st, t)? {
                    if !self.cfg.fold {
                        s.note(format!("input {t}").into(), Some(v.clone()));
                        s.trace_ty(t);
                    }
                    out.push((s, Out::Ret(v)));
                }
                Ok(out)
            }
            "init_step" => {
                let (a, b) = match (self.smin, self.smax) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        let (a, b) = (fresh(SORT_STEP), fresh(SORT_STEP));
                        name_sym(a, "MIN".into());
                        name_sym(b, "MAX".into());
                        self.smin = Some(a);
                        self.smax = Some(b);
                        (a, b)
                    }
                };
                let mut g = st.globals.as_ref().clone();
                g.push(a);
                g.push(b);
                st.globals = Rc::new(g);
                st.le0(&Lin::sym(b).addc(-I::pow2(120)));
                st.le0(&Lin::cst(-I::pow2(120)).sub(&Lin::sym(a)));
                st.le0(&Lin::sym(a).sub(&Lin::sym(b)).addc(I::new(255)));
                ret(st, unit())
            }
            "smin" | "smax" => {
                let s = if name == "smin" { self.smin } else { self.smax }.ok_or("init_step first")?;
                ret(st, Val::Int(Lin::sym(s)))
            }
            // a fixed but unknown value of the Step domain
            "init_def" => {
                let (a, b) = (self.smin.ok_or("init_step first")?, self.smax.ok_or("init_step first")?);
                let d = *self.sdef.get_or_insert_with(|| fresh(SORT_STEP));
                let mut g = st.globals.as_ref().clone();
                g.push(d);
                st.globals = Rc::new(g);
                st.le0(&Lin::sym(a).sub(&Lin::sym(d)));
                st.le0(&Lin::sym(d).sub(&Lin::sym(b)));
                ret(st, unit())
            }
            "sdef" => {
                let s = self.sdef.ok_or("init_def first")?;
                ret(st, Val::Int(Lin::sym(s)))
            }
            // an indexable container of arbitrary length
            "any_buf" => {
                let n = self.new_sym(&mut st, SORT_INT);
                st.le0(&Lin::int(0).sub(&Lin::sym(n)));
                st.le0(&Lin::sym(n).addc(-(I::pow2(63) - I::ONE)));
                let id = fresh_aid();
                st.allocs.insert(id, agg(vec![Val::Tok("buf".into()), Val::Int(Lin::sym(n))]));
                let fat = matches!(rigid(ga[0]), Some(RigidTy::Str) | Some(RigidTy::Slice(_))) || matches!(adt_last(ga[0]).as_deref(), Some("CStr") | Some("OsStr"));
                if !self.cfg.fold {
                    st.note("container length".into(), Some(Val::Int(Lin::sym(n))));
                }
                ret(st, ptr_val(Ptr { base: id, path: vec![], meta: if fat { Some((Lin::int(0), Lin::sym(n))) } else { None } }))
            }
            "buf_len" => {
                let p = self.arg_ptr(&args[0])?;
                let l = match (&p.meta, st.allocs.get(&p.base)) {
                    (Some((a, b)), _) => b.sub(a),
                    (None, Some(Val::Agg(f))) => match &f[1] {
                        Val::Int(l) => l.clone(),
                        _ => return Err("container".into()),
                    },
                    _ => return Err("container".into()),
                };
                ret(st, Val::Int(l))
            }
            // the positions of container c that x consists of
            "win" => {
                let (c, x) = (self.arg_ptr(&args[0])?, self.arg_ptr(&args[1])?);
                if c.base != x.base {
                    return ret(st, none());
                }
                match &x.meta {
                    Some((a, b)) => {
                        let v = some(agg(vec![Val::Int(a.clone()), Val::Int(b.clone())]));
                        ret(st, v)
                    }
                    None => Err("window of an owned container".into()),
                }
            }
            // exact integers
            "z" => match &args[0] {
                Val::Int(l) => {
                    let v = agg(vec![Val::Int(l.clone())]);
                    ret(st, v)
                }
                o => Err(format!("z of {o:?}")),
            },
            "zadd" | "zsub" => {
                let (a, b) = (first_leaf(&args[0]).ok_or("z")?, first_leaf(&args[1]).ok_or("z")?);
                ret(st, agg(vec![Val::Int(if name == "zadd" { a.add(&b) } else { a.sub(&b) })]))
            }
            "zle" | "zeq" => {
                let (a, b) = (first_leaf(&args[0]).ok_or("z")?, first_leaf(&args[1]).ok_or("z")?);
                let r = self.tri(st, &a, &b);
                Ok(r.into_iter().map(|(s, c)| (s, Out::Ret(Val::Bool(if name == "zle" { c <= 0 } else { c == 0 })))).collect())
            }
            "probe" => {
                let t = ga[0];
                let v = self.any_val(st, t)?;
                let mut out = vec![];
                let mut sym = None;
                for (mut s, v) in v {
                    let l = first_leaf(&v).ok_or("probe type")?;
                    let (x, _) = l.as_offset().ok_or("probe")?;
                    if sym.is_some() && sym != Some(x) {
                        return Err("probe must be one symbol".into());
                    }
                    sym = Some(x);
                    if !s.globals.contains(&x) {
                        let mut g = s.globals.as_ref().clone();
                        g.push(x);
                        s.globals = Rc::new(g);
                    }
                    name_sym(x, "t".into());
                    if !self.cfg.fold {
                        s.note("point t".into(), Some(v.clone()));
                        s.trace_ty(t);
                    }
                    out.push((s, Out::Ret(v)));
                }
                self.probe = sym;
                Ok(out)
            }
            "check" => {
                self.checks += 1;
                let site = self.frames.last().map(|f| format!("{}#{}", f.bi.name, f.loc.0)).unwrap_or_default();
                self.check_sites.insert(site);
                match &args[0] {
                    Val::Bool(true) => {
                        self.checks_ok += 1;
                        ret(st, unit())
                    }
                    Val::Bool(false) => {
                        let msg = match &args[1] {
                            Val::Tok(t) => t.to_string(),
                            _ => "check".into(),
                        };
                        self.alarm(st, msg);
                        Ok(vec![])
                    }
                    o => Err(format!("check of {o:?}")),
                }
            }
            "assume" => match &args[0] {
                Val::Bool(true) => ret(st, unit()),
                Val::Bool(false) => Ok(vec![]),
                o => Err(format!("assume of {o:?}")),
            },
            "mem" | "wf" | "nonempty" | "meet" => {
                let p = self.arg_ptr(&args[0])?;
                let v = st.read(&p)?.clone();
                let items = self.items(&st, &v, ga[0])?;
                match name {
                    "nonempty" => Ok(rets(self.nonempty(st, &items).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect())),
                    "meet" => {
                        let p = self.arg_ptr(&args[1])?;
                        let v = st.read(&p)?.clone();
                        let other = self.items(&st, &v, ga[1])?;
                        if self.cfg.fold && (Self::is_set(ga[0]) || Self::is_set(ga[1])) {
                            return ret(st, int(2));
                        }
                        Ok(rets(self.meet(st, &items, &other).into_iter().map(|(s, b)| (s, int(b as i128))).collect()))
                    }
                    _ => {
                        let t = first_leaf(&args[1]).ok_or("point")?;
                        if name == "mem" {
                            Ok(rets(self.mem(st, &items, &t).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect()))
                        } else {
                            Ok(rets(self.wf(st, &items, &t).into_iter().map(|(s, b)| (s, int(b as i128))).collect()))
                        }
                    }
                }
            }
            "remember" => {
                self.remember = true;
                self.keep.push(crate::contract::MEMO);
                ret(st, unit())
            }
            "exhaustive" => ret(st, Val::Bool(self.cfg.fold)),
            "catch" => {
                // catch(f: F) -> Option<R>; ga = [R, F]
                let f = ga[1];
                let i = match rigid(f) {
                    Some(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?,
                    _ => return Err("catch takes a closure".into()),
                };
                let bi = self.body(&i).ok_or("closure body")?;
                let me = if matches!(rigid(bi.body.locals()[1].ty), Some(RigidTy::Ref(..))) {
                    let id = fresh_aid();
                    st.allocs.insert(id, args[0].clone());
                    ptr_val(Ptr { base: id, path: vec![], meta: None })
                } else {
                    args[0].clone()
                };
                let mut out = vec![];
                for (s, o) in self.exec_fn(&i, vec![me], st) {
                    match o {
                        Out::Ret(v) => out.push((s, Out::Ret(some(v)))),
                        Out::Panic(_) => out.push((s, Out::Ret(none()))),
                    }
                }
                Ok(out)
            }
            // sequence primitives for the models of std functions
            "seq_new" => {
                let e = seq_elem(ga[0]).ok_or("element type")?;
                ret(st, Val::Seq(Rc::new(Seq::empty(is_range_elem(e)))))
            }
            "seq_len" => self.native("seq.len", inst, args, st),
            "seq_at" | "seq_at_mut" => self.native("seq.index", inst, args, st),
            "seq_push" => self.native("seq.push_back", inst, args, st),
            "seq_insert" => self.native("seq.insert", inst, args, st),
            "seq_remove" => self.native("seq.remove", inst, args, st),
            _ => Err(format!("spec function {name}")),
        }
    }
}
