//! Summarisation of sequences relative to the probe, canonical forms of states,
//! entailment, exact joins and widening.
use crate::lin::*;
use crate::num::*;
use crate::store::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// Where things are inside a BoundedRange value (resolved from the type definitions).
#[derive(Clone, Debug, Default)]
pub struct RangeLayout {
    pub start: usize,
    pub end: usize,
    pub excluded: u32,
    pub included: u32,
    pub known: bool,
}
pub fn first_leaf(v: &Val) -> Option<Lin> {
    match v {
        Val::Int(l) => Some(l.clone()),
        Val::Agg(x) => x.first().and_then(first_leaf),
        _ => None,
    }
}
/// (excluded?, value)
pub fn bound_of(v: &Val) -> Option<(u32, Lin)> {
    match v {
        Val::Agg(x) => x.first().and_then(bound_of),
        Val::Enum(k, x) => first_leaf(x.first()?).map(|l| (*k, l)),
        _ => None,
    }
}
pub fn range_parts(v: &Val, lay: &RangeLayout) -> Option<(bool, Lin, bool, Lin)> {
    match v {
        Val::Agg(x) => {
            let (k1, lo) = bound_of(x.get(lay.start)?)?;
            let (k2, hi) = bound_of(x.get(lay.end)?)?;
            Some((k1 == lay.excluded, lo, k2 == lay.excluded, hi))
        }
        _ => None,
    }
}
fn cmp_const(b: bool) -> I {
    // strict when b
    if b { I::ONE } else { I::ZERO }
}
/// Class of an element value under a store (which may include a shape's constraints).
pub fn class_of(store: &Store, probe: Option<Sym>, v: &Val, ranges: bool, lay: &RangeLayout) -> Class {
    let t = match probe {
        Some(t) => Lin::sym(t),
        None => return Class::U,
    };
    if ranges {
        if let Some((el, lo, eh, hi)) = range_parts(v, lay) {
            // before: hi <= t (excl) or hi < t
            let before = store.entails_le0(&hi.sub(&t).addc(cmp_const(!eh)));
            let after = store.entails_le0(&t.sub(&lo).addc(cmp_const(!el)));
            if before && after {
                return Class::E;
            }
            if before {
                return Class::L;
            }
            if after {
                return Class::R;
            }
            if store.entails_le0(&lo.sub(&t).addc(cmp_const(el))) && store.entails_le0(&t.sub(&hi).addc(cmp_const(eh))) {
                return Class::C;
            }
        }
        return Class::U;
    }
    let mut n = 0;
    let (mut allb, mut alla, mut known) = (true, true, true);
    leaves(v, &mut |l| {
        if l.dominant_sort() == SORT_INT {
            return;
        }
        n += 1;
        let b = store.entails_le0(&l.sub(&t).addc(I::ONE));
        let a = store.entails_le0(&t.sub(l).addc(I::ONE));
        allb &= b;
        alla &= a;
        known &= a || b || (store.entails_le0(&t.sub(l)) || store.entails_le0(&l.sub(&t)));
    });
    if n == 0 {
        return Class::E;
    }
    if allb {
        Class::L
    } else if alla {
        Class::R
    } else if known {
        Class::C
    } else {
        Class::U
    }
}

/// locals of a shape are numbered in leaf order, so equal values have equal forms
pub fn zlocal(i: usize, so: u32) -> Sym {
    ((ZLOCAL + i as u32) << 2) | so
}
thread_local! {
    static COARSE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
pub fn set_coarse(b: bool) {
    COARSE.with(|c| c.set(b))
}
fn coarse() -> bool {
    COARSE.with(|c| c.get())
}
pub fn shape_of(store: &Store, val: &Val, anchors: &[Sym]) -> Shape {
    let mut ls: Vec<Lin> = vec![];
    leaves(val, &mut |l| ls.push(l.clone()));
    let locals: Vec<Sym> = ls.iter().enumerate().map(|(i, l)| zlocal(i, l.dominant_sort())).collect();
    let mut k = 0;
    let v = map_leaves(val, &mut |_| {
        k += 1;
        Lin::sym(locals[k - 1])
    });
    let mut cons = vec![];
    for i in 0..ls.len() {
        for j in 0..ls.len() {
            if i != j {
                let b = store.ub_cheap(&ls[i].sub(&ls[j]));
                if !b.is_inf() {
                    let b = clampo(locals[i], locals[j], b);
                    if !b.is_inf() {
                        cons.push((locals[i], locals[j], b));
                    }
                }
            }
        }
        let mut anc: Vec<Sym> = anchors.to_vec();
        anc.push(ZERO);
        for a in anc {
            if a != ZERO && (sort(a) == SORT_ORD) != (sort(locals[i]) == SORT_ORD) {
                continue;
            }
            if a == ZERO && sort(locals[i]) == SORT_ORD {
                continue;
            }
            let la = if a == ZERO { Lin::int(0) } else { Lin::sym(a) };
            let b = clampo(locals[i], a, store.ub_cheap(&ls[i].sub(&la)));
            if !b.is_inf() {
                cons.push((locals[i], a, b));
            }
            let b = clampo(a, locals[i], store.ub_cheap(&la.sub(&ls[i])));
            if !b.is_inf() {
                cons.push((a, locals[i], b));
            }
        }
    }
    cons.sort();
    Shape { val: v, locals, cons }
}
/// The weakest shape of a range element that keeps its bound kinds, its side of the
/// probe, its non-emptiness and the limits of the element type.
pub fn range_shape(store: &Store, val: &Val, probe: Option<Sym>, lay: &RangeLayout, anchors: &[Sym]) -> Shape {
    let sh = shape_of(store, val, anchors);
    let (xl, lo, xh, hi) = match range_parts(&sh.val, lay) {
        Some(x) => x,
        None => return sh,
    };
    let t = match probe {
        Some(t) => t,
        None => return sh,
    };
    let (l, h) = match (lo.as_offset(), hi.as_offset()) {
        (Some((l, _)), Some((h, _))) => (l, h),
        _ => return sh,
    };
    let (el, elo, eh, ehi) = range_parts(val, lay).unwrap();
    let tl = Lin::sym(t);
    let mut cons = vec![];
    let k = |b: bool| if b { I::new(-1) } else { I::ZERO };
    if store.entails_le0(&ehi.sub(&tl).addc(cmp_const(!eh))) {
        cons.push((h, t, k(!eh)));
    }
    if store.entails_le0(&tl.sub(&elo).addc(cmp_const(!el))) {
        cons.push((t, l, k(!el)));
    }
    if store.entails_le0(&elo.sub(&ehi).addc(cmp_const(xl || xh))) {
        cons.push((l, h, k(xl || xh)));
    }
    if store.entails_le0(&elo.sub(&tl).addc(cmp_const(el))) && store.entails_le0(&tl.sub(&ehi).addc(cmp_const(eh))) {
        cons.push((l, t, k(el)));
        cons.push((t, h, k(eh)));
    }
    let lin = |s: Sym| if s == ZERO { Lin::int(0) } else { Lin::sym(s) };
    for &(a, b, c) in &sh.cons {
        // limits of the element type and other fixed points
        let g = |s: Sym| s != t && s != l && s != h;
        if g(a) || g(b) {
            let _ = lin;
            cons.push((a, b, c));
        }
    }
    cons.sort();
    cons.dedup();
    Shape { val: sh.val, locals: sh.locals, cons }
}
/// shape a is at least as precise as b, in the context of the store
pub fn shape_le(a: &Shape, b: &Shape, store: &Store) -> bool {
    if a.locals != b.locals || a.val != b.val {
        return false;
    }
    let at = |x: Sym, y: Sym| a.cons.binary_search_by(|p| (p.0, p.1).cmp(&(x, y))).ok().map(|i| a.cons[i].2);
    let isl = |s: Sym| a.locals.contains(&s);
    for &(x, y, c) in &b.cons {
        if at(x, y).map_or(false, |v| v <= c) {
            continue;
        }
        if coarse() {
            return false;
        }
        // via the store
        let mut ok = false;
        if isl(x) && !isl(y) {
            ok = a.cons.iter().any(|&(p, q, d)| p == x && !isl(q) && clampo(x, y, d + store.diff(q, y)) <= c);
        } else if !isl(x) && isl(y) {
            ok = a.cons.iter().any(|&(p, q, d)| q == y && !isl(p) && clampo(x, y, d + store.diff(x, p)) <= c);
        }
        if !ok {
            return false;
        }
    }
    true
}
fn shape_store(sh: &Shape, store: &Store) -> Option<Store> {
    let mut s = store.clone();
    for &(a, b, c) in &sh.cons {
        if !s.add_diff(a, b, c) {
            return None;
        }
    }
    Some(s)
}
/// Join two shapes of the same form when the union is exactly representable.
fn shape_exact_join(a: &Shape, b: &Shape, store: &Store) -> Option<Shape> {
    if a.locals != b.locals || a.val != b.val {
        return None;
    }
    let sa = shape_store(a, store)?;
    let sb = shape_store(b, store)?;
    let j = sa.exact_join(&sb)?;
    let mut cons: Vec<(Sym, Sym, I)> = j.constraints().into_iter().filter(|(x, y, _)| a.locals.contains(x) || a.locals.contains(y)).collect();
    cons.sort();
    Some(Shape { val: a.val.clone(), locals: a.locals.clone(), cons })
}
pub fn add_shape(v: &mut Vec<Shape>, s: Shape, store: &Store) {
    if v.iter().any(|o| shape_le(&s, o, store)) {
        return;
    }
    v.retain(|o| !shape_le(o, &s, store));
    let mut s = s;
    loop {
        let mut hit = None;
        for (i, o) in v.iter().enumerate() {
            if let Some(j) = shape_exact_join(o, &s, store) {
                hit = Some((i, j));
                break;
            }
        }
        match hit {
            Some((i, j)) => {
                v.remove(i);
                s = j;
                v.retain(|o| !shape_le(o, &s, store));
            }
            None => break,
        }
    }
    v.push(s);
}

pub struct FoldCfg<'a> {
    pub probe: Option<Sym>,
    pub lay: &'a RangeLayout,
    pub enabled: bool,
    /// relate summarised elements to the probe and type extremes only
    pub coarse: bool,
}

impl State {
    pub fn pinned(&self, extra: &[&Val]) -> BTreeSet<Eid> {
        let mut s = BTreeSet::new();
        let mut f = |p: &Ptr| {
            for e in &p.path {
                if let Pe::E(i) = e {
                    s.insert(*i);
                }
            }
        };
        for v in self.allocs.values() {
            ptrs(v, &mut f);
        }
        for v in extra {
            ptrs(v, &mut f);
        }
        s
    }
    /// Summarise sequences; call after gc.
    pub fn fold(&mut self, cfg: &FoldCfg, extra: &[&Val]) {
        if !cfg.enabled {
            return;
        }
        if !self.allocs.values().any(has_seq) {
            return;
        }
        let pinned = self.pinned(extra);
        let mut scal: Vec<Lin> = vec![];
        fn scalars(v: &Val, out: &mut Vec<Lin>) {
            match v {
                Val::Seq(_) => {}
                Val::Agg(x) | Val::Enum(_, x) => x.iter().for_each(|y| scalars(y, out)),
                o => leaves(o, &mut |l| {
                    if l.dominant_sort() == SORT_INT {
                        out.push(l.clone())
                    }
                }),
            }
        }
        for v in self.allocs.values() {
            scalars(v, &mut scal);
        }
        for v in extra {
            scalars(v, &mut scal);
        }
        let anchors: Vec<Sym> = if cfg.coarse { self.globals.as_ref().clone() } else { self.live_syms().into_iter().filter(|s| *s != ZERO).collect() };
        let store = self.store.clone();
        let mut folded = false;
        let me = self.clone();
        let aids: Vec<Aid> = self.allocs.keys().cloned().collect();
        for a in aids {
            let v = &self.allocs[&a];
            if !has_seq(v) {
                continue;
            }
            let nv = map_seqs(v, &mut |s| {
                let r = fold_seq(s, &me, &store, cfg, &pinned, &scal, &anchors);
                if r.is_some() {
                    folded = true;
                }
                r
            });
            self.allocs.insert(a, nv);
        }
        if folded {
            self.exact = false;
        }
    }
}
fn fold_seq(s: &Seq, st: &State, store: &Store, cfg: &FoldCfg, pinned: &BTreeSet<Eid>, scal: &[Lin], anchors: &[Sym]) -> Option<Seq> {
    let mut out: Vec<(Seg, Class, bool)> = vec![];
    let mut changed = false;
    let mut start = Lin::int(0);
    for g in &s.segs {
        let (class, foldable) = match &g.body {
            SegBody::Star(c, _) => {
                if st.is_eq(&start, &g.end) {
                    changed = true;
                    continue; // empty; same boundary
                }
                (*c, true)
            }
            SegBody::One(e, v) => (class_of(store, cfg.probe, v, s.ranges, cfg.lay), !pinned.contains(e) && !has_seq(v) && !(s.ranges && scal.iter().any(|l| st.is_eq(l, &start)))),
        };
        let mut merged = false;
        if let Some((pg, pc, pf)) = out.last_mut() {
            let u_ok = class != Class::U || s.segs.len() > 8 || (matches!(pg.body, SegBody::Star(..)) && matches!(g.body, SegBody::Star(..)));
            let both = match (*pc, class) {
                (Class::E, Class::L) | (Class::E, Class::R) => Some(class),
                (Class::L, Class::E) | (Class::R, Class::E) => Some(*pc),
                (a, b) if a == b && a != Class::C => Some(a),
                _ => None,
            };
            if *pf && foldable && both.is_some() && u_ok && !scal.iter().any(|l| st.is_eq(l, &start)) {
                let class = both.unwrap();
                *pc = class;
                let mut shapes: Vec<Shape> = vec![];
                let mut add = |b: &SegBody| match b {
                    SegBody::Star(_, sh) => sh.iter().for_each(|x| add_shape(&mut shapes, x.clone(), store)),
                    SegBody::One(_, v) => add_shape(&mut shapes, if cfg.coarse && s.ranges { range_shape(store, v, cfg.probe, cfg.lay, anchors) } else { shape_of(store, v, anchors) }, store),
                };
                add(&pg.body);
                add(&g.body);
                *pg = Seg { end: g.end.clone(), body: SegBody::Star(class, Rc::new(shapes)) };
                merged = true;
                changed = true;
            }
        }
        if !merged {
            match &g.body {
                SegBody::One(_, v) if cfg.coarse && foldable && s.ranges && matches!(class, Class::L | Class::R | Class::E | Class::C) => {
                    let body = SegBody::Star(class, Rc::new(vec![range_shape(store, v, cfg.probe, cfg.lay, anchors)]));
                    out.push((Seg { end: g.end.clone(), body }, class, foldable));
                    changed = true;
                }
                _ => out.push((g.clone(), class, foldable)),
            }
        }
        start = g.end.clone();
    }
    if changed { Some(Seq { ranges: s.ranges, segs: out.into_iter().map(|x| x.0).collect() }) } else { None }
}

// ------------------------------------------------------------------ canonical forms
#[derive(Clone)]
pub struct Canon {
    pub toks: Vec<u64>,
    pub leaves: Vec<Lin>,
    pub stars: Vec<Rc<Vec<Shape>>>,
    pub aids: Vec<Aid>,
    eids: HashMap<Eid, u64>,
}
struct Walker<'a> {
    st: &'a State,
    c: Canon,
    aidx: BTreeMap<Aid, u64>,
}
impl<'a> Walker<'a> {
    fn aid(&mut self, a: Aid) -> u64 {
        if let Some(i) = self.aidx.get(&a) {
            return *i;
        }
        let i = self.c.aids.len() as u64;
        self.aidx.insert(a, i);
        self.c.aids.push(a);
        i
    }
    fn eid(&mut self, e: Eid) -> u64 {
        let n = self.c.eids.len() as u64;
        *self.c.eids.entry(e).or_insert(n)
    }
    fn leaf(&mut self, l: &Lin) {
        self.c.toks.push(1000 + l.dominant_sort() as u64);
        self.c.leaves.push(l.clone());
    }
    fn ptr(&mut self, p: &Ptr) {
        let a = self.aid(p.base);
        self.c.toks.push(a);
        self.c.toks.push(p.path.len() as u64);
        for e in &p.path {
            match e {
                Pe::F(i) => self.c.toks.push(*i as u64),
                Pe::E(e) => {
                    let k = self.eid(*e);
                    self.c.toks.push((1 << 32) + k)
                }
            }
        }
        if let Some((a, b)) = &p.meta {
            self.c.toks.push(77);
            self.leaf(a);
            self.leaf(b);
        }
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Bool(b) => self.c.toks.push(2 + *b as u64),
            Val::Int(l) => self.leaf(l),
            Val::Agg(x) => {
                self.c.toks.push(10);
                self.c.toks.push(x.len() as u64);
                x.iter().for_each(|y| self.val(y));
            }
            Val::Enum(k, x) => {
                self.c.toks.push(11);
                self.c.toks.push(*k as u64);
                self.c.toks.push(x.len() as u64);
                x.iter().for_each(|y| self.val(y));
            }
            Val::Ptr(p) => {
                self.c.toks.push(12);
                self.ptr(p);
            }
            Val::Iter(i) => {
                self.c.toks.push(13);
                self.ptr(&i.seq);
                self.leaf(&i.lo);
                self.leaf(&i.hi);
            }
            Val::View(w) => {
                self.c.toks.push(14);
                self.c.toks.push(w.id as u64);
                self.leaf(&w.lo);
                self.leaf(&w.hi);
            }
            Val::Seq(s) => {
                self.c.toks.push(15);
                self.c.toks.push(s.segs.len() as u64);
                for g in &s.segs {
                    self.leaf(&g.end);
                    match &g.body {
                        SegBody::One(e, v) => {
                            self.c.toks.push(16);
                            let k = self.eid(*e);
                            self.c.toks.push(k);
                            self.val(v);
                        }
                        SegBody::Star(c, sh) => {
                            self.c.toks.push(17);
                            self.c.toks.push(*c as u64);
                            self.c.stars.push(sh.clone());
                        }
                    }
                }
            }
            Val::Fn(i) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                i.hash(&mut h);
                self.c.toks.push(18);
                self.c.toks.push(h.finish());
            }
            Val::Tok(t) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut h);
                self.c.toks.push(19);
                self.c.toks.push(h.finish());
            }
            Val::Undef => self.c.toks.push(20),
        }
    }
    fn drain(&mut self, mut i: usize) {
        while i < self.c.aids.len() {
            let a = self.c.aids[i];
            self.c.toks.push(9000);
            match self.st.allocs.get(&a) {
                Some(v) => {
                    let v = v.clone();
                    self.val(&v)
                }
                None => self.c.toks.push(9001),
            }
            i += 1;
        }
    }
}
pub fn walk(st: &State, roots: &[Aid], vals: &[Val]) -> Canon {
    let mut w = Walker { st, c: Canon { toks: vec![], leaves: vec![], stars: vec![], aids: vec![], eids: HashMap::new() }, aidx: BTreeMap::new() };
    for v in vals {
        w.val(v);
    }
    for &r in roots {
        let k = w.aid(r);
        w.c.toks.push(8000 + k);
        if r < (1 << 24) && vals.is_empty() {
            w.c.toks.push(r as u64);
        }
    }
    w.drain(0);
    for &g in st.globals.iter() {
        w.leaf(&Lin::sym(g));
    }
    w.c
}
/// The relational content of a state over canonical leaf symbols.
#[derive(Clone)]
pub struct CState {
    pub store: Store,
    pub stars: Vec<Rc<Vec<Shape>>>,
    pub sorts: Vec<u32>,
    pub exact: bool,
}
pub fn zsym(i: usize, sort: u32) -> Sym {
    (((i + 2) as u32) << 2) | sort
}
const ZLOCAL: u32 = 1 << 22;
pub fn canonical(st: &State, c: &Canon) -> CState {
    let n = c.leaves.len();
    let sorts: Vec<u32> = c.leaves.iter().map(|l| l.dominant_sort()).collect();
    // constants take part in every sort; give them the int sort
    let syms: Vec<Sym> = std::iter::once(ZERO).chain((0..n).map(|i| zsym(i, sorts[i]))).collect();
    let offs: Vec<Option<(Sym, I)>> = c.leaves.iter().map(|l| l.as_offset()).collect();
    let mut m = vec![INF; (n + 1) * (n + 1)];
    for i in 0..=n {
        for j in 0..=n {
            let k = i * (n + 1) + j;
            if i == j {
                m[k] = I::ZERO;
                continue;
            }
            let b = match (if i == 0 { Some((ZERO, I::ZERO)) } else { offs[i - 1] }, if j == 0 { Some((ZERO, I::ZERO)) } else { offs[j - 1] }) {
                (Some((a, ca)), Some((b, cb))) => st.store.diff(a, b) + ca - cb,
                _ => {
                    let li = if i == 0 { Lin::int(0) } else { c.leaves[i - 1].clone() };
                    let lj = if j == 0 { Lin::int(0) } else { c.leaves[j - 1].clone() };
                    st.store.ub_cheap(&li.sub(&lj))
                }
            };
            m[k] = clampo(syms[i], syms[j], b);
        }
    }
    // extras in terms of leaves
    let mut extras = vec![];
    let mut back: HashMap<Sym, Lin> = HashMap::new();
    for i in 0..n {
        if let Some((s, k)) = offs[i] {
            if s != ZERO {
                back.entry(s).or_insert_with(|| Lin::sym(syms[i + 1]).addc(-k));
            }
        }
    }
    // a leaf such as hi - lo + 1 stands for the symbol of it that is no leaf itself
    let mut defs: Vec<Sym> = vec![];
    for i in 0..n {
        if offs[i].is_none() {
            let un: Vec<(Sym, I)> = c.leaves[i].t.iter().cloned().filter(|(s, _)| !back.contains_key(s)).collect();
            if un.len() == 1 && un[0].1.abs() == I::ONE {
                let (u, k) = un[0];
                // leaf = k u + rest  =>  u = k (leaf - rest)
                let rest = c.leaves[i].sub(&Lin::sym(u).scale(k)).subst(&mut |s| back.get(&s).cloned());
                back.insert(u, Lin::sym(syms[i + 1]).sub(&rest).scale(k));
                defs.push(u);
            }
        }
    }
    let tr = |l: &Lin| -> Option<Lin> {
        if l.t.iter().all(|(s, _)| back.contains_key(s)) { Some(l.subst(&mut |s| back.get(&s).cloned())) } else { None }
    };
    let mut exact = st.exact;
    for &u in &defs {
        for &s in back.keys().chain([ZERO].iter()) {
            for (a, b) in [(u, s), (s, u)] {
                let d = st.store.diff(a, b);
                if a == b || d.is_inf() || (s != ZERO && st.store.diff(a, ZERO) + st.store.diff(ZERO, b) == d) {
                    continue;
                }
                if let Some(l) = tr(&lin_diff(a, b, -d)) {
                    extras.push(l);
                }
            }
        }
    }
    for e in st.store.extras.iter() {
        match tr(e) {
            Some(l) => extras.push(l),
            None => exact = false,
        }
    }
    for i in 0..n {
        if offs[i].is_none() {
            match tr(&c.leaves[i]) {
                Some(l) => {
                    let d = Lin::sym(syms[i + 1]).sub(&l);
                    extras.push(d.clone());
                    extras.push(d.neg());
                }
                None => exact = false,
            }
        }
    }
    extras.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    extras.dedup();
    let store = Store::from_matrix(syms.clone(), m, extras);
    // shapes
    if coarse() {
        return CState { store, stars: c.stars.clone(), sorts, exact };
    }
    let stars = c
        .stars
        .iter()
        .map(|shs| {
            let mut out: Vec<Shape> = vec![];
            for sh in shs.iter() {
                let cs = canon_shape(sh, st, c, &syms);
                if !out.iter().any(|o| shape_le(&cs, o, &store)) {
                    out.push(cs);
                }
            }
            Rc::new(out)
        })
        .collect();
    CState { store, stars, sorts, exact }
}
fn canon_shape(sh: &Shape, st: &State, c: &Canon, syms: &[Sym]) -> Shape {
    let lm: HashMap<Sym, Sym> = sh.locals.iter().map(|&s| (s, s)).collect();
    let isl = |s: Sym| lm.contains_key(&s);
    let val = map_leaves(&sh.val, &mut |l| l.subst(&mut |s| lm.get(&s).map(|x| Lin::sym(*x))));
    let mut cons: HashMap<(Sym, Sym), I> = HashMap::new();
    let mut put = |a: Sym, b: Sym, v: I| {
        let v = clampo(a, b, v);
        if v.is_inf() {
            return;
        }
        let e = cons.entry((a, b)).or_insert(INF);
        if v < *e {
            *e = v;
        }
    };
    for &(a, b, k) in &sh.cons {
        match (isl(a), isl(b)) {
            (true, true) => put(lm[&a], lm[&b], k),
            (true, false) => {
                for (j, l) in c.leaves.iter().enumerate() {
                    if (sort(syms[j + 1]) == SORT_ORD) != (sort(a) == SORT_ORD) {
                        continue;
                    }
                    if let Some((s, off)) = l.as_offset() {
                        let d = st.store.diff(b, s);
                        if !d.is_inf() {
                            put(lm[&a], syms[j + 1], k + d - off);
                        }
                    }
                }
                if sort(a) != SORT_ORD {
                    let d = st.store.diff(b, ZERO);
                    if !d.is_inf() {
                        put(lm[&a], ZERO, k + d);
                    }
                }
            }
            (false, true) => {
                for (j, l) in c.leaves.iter().enumerate() {
                    if (sort(syms[j + 1]) == SORT_ORD) != (sort(b) == SORT_ORD) {
                        continue;
                    }
                    if let Some((s, off)) = l.as_offset() {
                        let d = st.store.diff(s, a);
                        if !d.is_inf() {
                            put(syms[j + 1], lm[&b], k + d + off);
                        }
                    }
                }
                if sort(b) != SORT_ORD {
                    let d = st.store.diff(ZERO, a);
                    if !d.is_inf() {
                        put(ZERO, lm[&b], k + d);
                    }
                }
            }
            _ => {}
        }
    }
    let mut cons: Vec<_> = cons.into_iter().map(|((a, b), v)| (a, b, v)).collect();
    cons.sort();
    let locals = sh.locals.iter().map(|s| lm[s]).collect();
    Shape { val, locals, cons }
}
impl CState {
    pub fn stars_le(&self, o: &CState) -> bool {
        self.stars.iter().zip(&o.stars).all(|(a, b)| Rc::ptr_eq(a, b) || a.iter().all(|x| b.iter().any(|y| shape_le(x, y, &self.store))))
    }
    pub fn le(&self, o: &CState) -> bool {
        self.store.le(&o.store) && self.stars_le(o)
    }
    fn union_stars(&self, o: &CState, store: &Store) -> Vec<Rc<Vec<Shape>>> {
        self.stars
            .iter()
            .zip(&o.stars)
            .map(|(a, b)| {
                if Rc::ptr_eq(a, b) {
                    return a.clone();
                }
                let mut v: Vec<Shape> = a.as_ref().clone();
                for x in b.iter() {
                    if !v.iter().any(|y| shape_le(x, y, store)) {
                        v.retain(|y| !shape_le(y, x, store));
                        v.push(x.clone());
                    }
                }
                Rc::new(v)
            })
            .collect()
    }
    pub fn exact_join(&self, o: &CState) -> Option<CState> {
        if !(self.stars_le(o) && o.stars_le(self)) {
            // one side may only differ in its shapes
            if self.store.le(&o.store) && o.store.le(&self.store) {
                return Some(CState { store: self.store.clone(), stars: self.union_stars(o, &self.store), sorts: self.sorts.clone(), exact: self.exact && o.exact });
            }
            return None;
        }
        let store = self.store.exact_join(&o.store)?;
        Some(CState { store, stars: self.stars.clone(), sorts: self.sorts.clone(), exact: self.exact && o.exact })
    }
    pub fn widen(&self, o: &CState) -> CState {
        let h = self.store.hull(&o.store);
        let w = self.store.widen(&h);
        CState { stars: self.union_stars(o, &w), store: w, sorts: self.sorts.clone(), exact: false }
    }
    pub fn hull(&self, o: &CState) -> CState {
        let h = self.store.hull(&o.store);
        CState { stars: self.union_stars(o, &h), store: h, sorts: self.sorts.clone(), exact: false }
    }
    /// sign pattern of element leaves relative to the probe
    pub fn signs(&self, probe_leaf: Option<usize>) -> Vec<u8> {
        let p = match probe_leaf {
            Some(p) => zsym(p, self.sorts[p]),
            None => return vec![],
        };
        let ints: Vec<usize> = (0..self.sorts.len()).filter(|i| self.sorts[*i] == SORT_INT).collect();
        let mut eqs: Vec<u8> = vec![];
        for (a, &i) in ints.iter().enumerate() {
            let z = zsym(i, SORT_INT);
            let same = |y: Sym| self.store.diff(z, y).is_zero() && self.store.diff(y, z).is_zero();
            let r = if same(ZERO) { 0 } else { 1 + (0..a).find(|b| same(zsym(ints[*b], SORT_INT))).unwrap_or(a) };
            eqs.push(r.min(255) as u8);
        }
        let code = |v: I| if v.is_inf() || v > I::ZERO { 0u8 } else if v.is_zero() { 1 } else { 2 };
        self.sorts
            .iter()
            .enumerate()
            .filter(|(_, s)| **s != SORT_INT)
            .map(|(i, s)| {
                let z = zsym(i, *s);
                code(self.store.diff(z, p)) * 3 + code(self.store.diff(p, z))
            })
            .chain(eqs)
            .collect()
    }
}
/// Rebuild a concrete-symbol state from a canonical one, following the walk of `tmpl`.
pub struct Rebuilt {
    pub leaves: Vec<Lin>,
    pub stars: Vec<Rc<Vec<Shape>>>,
    pub store: Store,
}
pub fn rebuild(cs: &CState, globals: &[Sym]) -> Rebuilt {
    let n = cs.sorts.len();
    let ng = globals.len();
    // representatives
    let mut rep: Vec<(Sym, I)> = vec![];
    let mut classes: Vec<(usize, Sym)> = vec![]; // canonical index, new symbol
    let closed = cs.store.reclosed();
    let order: Vec<usize> = (n - ng..n).chain(0..n - ng).collect();
    let mut fixed: Vec<(Sym, I)> = vec![];
    let mut res: Vec<Option<(Sym, I)>> = vec![None; n];
    for &i in &order {
        let z = zsym(i, cs.sorts[i]);
        // constant?
        let (hi, lo) = (closed.diff(z, ZERO), closed.diff(ZERO, z));
        if !hi.is_inf() && !lo.is_inf() && hi + lo == I::ZERO {
            res[i] = Some((ZERO, hi));
            if i >= n - ng {
                fixed.push((globals[i - (n - ng)], hi));
            }
            continue;
        }
        if i >= n - ng {
            let g = globals[i - (n - ng)];
            res[i] = Some((g, I::ZERO));
            classes.push((i, g));
            continue;
        }
        let mut found = None;
        for &(k, s) in &classes {
            let y = zsym(k, cs.sorts[k]);
            let (a, b) = (closed.diff(z, y), closed.diff(y, z));
            if !a.is_inf() && !b.is_inf() && a + b == I::ZERO {
                found = Some((s, a));
                break;
            }
        }
        match found {
            Some(x) => res[i] = Some(x),
            None => {
                let s = fresh(cs.sorts[i]);
                classes.push((i, s));
                res[i] = Some((s, I::ZERO));
            }
        }
    }
    for i in 0..n {
        rep.push(res[i].unwrap());
    }
    let mut store = Store::new();
    for &(i, s) in &classes {
        let zi = zsym(i, cs.sorts[i]);
        let b = closed.diff(zi, ZERO);
        if !b.is_inf() {
            store.add_diff(s, ZERO, b);
        }
        let b = closed.diff(ZERO, zi);
        if !b.is_inf() {
            store.add_diff(ZERO, s, b);
        }
        for &(j, r) in &classes {
            if i != j {
                let b = closed.diff(zi, zsym(j, cs.sorts[j]));
                if !b.is_inf() {
                    store.add_diff(s, r, b);
                }
            }
        }
    }
    for (g, c) in fixed {
        store.add_diff(g, ZERO, c);
        store.add_diff(ZERO, g, -c);
    }
    let lin_of = |i: usize| -> Lin {
        let (s, c) = rep[i];
        if s == ZERO { Lin::cst(c) } else { Lin::sym(s).addc(c) }
    };
    let zmap: HashMap<Sym, Lin> = (0..n).map(|i| (zsym(i, cs.sorts[i]), lin_of(i))).collect();
    for e in cs.store.extras.iter() {
        let l = e.subst(&mut |s| zmap.get(&s).cloned());
        store.assume_le0(&l);
    }
    let stars = if coarse() { cs.stars.clone() } else { cs
        .stars
        .iter()
        .map(|v| {
            Rc::new(
                v.iter()
                    .map(|sh| {
                        let lm: HashMap<Sym, Sym> = sh.locals.iter().map(|&s| (s, s)).collect();
                        let mut cons: HashMap<(Sym, Sym), I> = HashMap::new();
                        for &(a, b, c) in &sh.cons {
                            let tr = |s: Sym| -> (Sym, I) {
                                if let Some(x) = lm.get(&s) {
                                    return (*x, I::ZERO);
                                }
                                match zmap.get(&s) {
                                    Some(l) => l.as_offset().unwrap(),
                                    None => (s, I::ZERO),
                                }
                            };
                            let ((x, kx), (y, ky)) = (tr(a), tr(b));
                            // (x + kx) - (y + ky) <= c
                            let v = c - kx + ky;
                            let e = cons.entry((x, y)).or_insert(INF);
                            if v < *e {
                                *e = v;
                            }
                        }
                        let mut cons: Vec<_> = cons.into_iter().map(|((a, b), c)| (a, b, c)).collect();
                        cons.sort();
                        Shape { val: sh.val.clone(), locals: sh.locals.clone(), cons }
                    })
                    .collect::<Vec<_>>(),
            )
        })
        .collect() };
    Rebuilt { leaves: (0..n).map(lin_of).collect(), stars, store }
}
/// Replace leaves and stars of a value in walk order.
pub struct Refill<'a> {
    pub r: &'a Rebuilt,
    pub li: usize,
    pub si: usize,
}
impl<'a> Refill<'a> {
    fn lf(&mut self) -> Lin {
        self.li += 1;
        self.r.leaves[self.li - 1].clone()
    }
    pub fn val(&mut self, v: &Val) -> Val {
        match v {
            Val::Int(_) => Val::Int(self.lf()),
            Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| self.val(y)).collect())),
            Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(|y| self.val(y)).collect())),
            Val::Ptr(p) => Val::Ptr(Rc::new(self.ptr(p))),
            Val::Iter(i) => {
                let seq = self.ptr(&i.seq);
                let lo = self.lf();
                let hi = self.lf();
                Val::Iter(Rc::new(IterV { seq, lo, hi }))
            }
            Val::View(w) => {
                let lo = self.lf();
                let hi = self.lf();
                Val::View(Rc::new(View { id: w.id, lo, hi }))
            }
            Val::Seq(s) => {
                let segs = s
                    .segs
                    .iter()
                    .map(|g| {
                        let end = self.lf();
                        let body = match &g.body {
                            SegBody::One(e, v) => SegBody::One(*e, self.val(v)),
                            SegBody::Star(c, _) => {
                                self.si += 1;
                                SegBody::Star(*c, self.r.stars[self.si - 1].clone())
                            }
                        };
                        Seg { end, body }
                    })
                    .collect();
                Val::Seq(Rc::new(Seq { ranges: s.ranges, segs }))
            }
            o => o.clone(),
        }
    }
    fn ptr(&mut self, p: &Ptr) -> Ptr {
        let meta = if p.meta.is_some() {
            let a = self.lf();
            Some((a, self.lf()))
        } else {
            None
        };
        Ptr { base: p.base, path: p.path.clone(), meta }
    }
}
/// state with the same skeleton as `st` (walked as `c`) and the relations of `cs`
pub fn instantiate(st: &State, c: &Canon, cs: &CState) -> State {
    let r = rebuild(cs, &st.globals);
    let mut f = Refill { r: &r, li: 0, si: 0 };
    let mut out = st.clone();
    for a in &c.aids {
        if let Some(v) = st.allocs.get(a) {
            let nv = f.val(v);
            out.allocs.insert(*a, nv);
        }
    }
    out.store = r.store.clone();
    out.exact = cs.exact;
    out
}
