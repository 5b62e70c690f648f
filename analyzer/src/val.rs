//! Abstract values, memory and states.
use crate::lin::*;
use crate::num::*;
use crate::store::*;
use rustc_public::mir::mono::Instance;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::rc::Rc;

pub type Aid = u32;
pub type Eid = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pe {
    F(u32),
    E(Eid),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ptr {
    pub base: Aid,
    pub path: Vec<Pe>,
    /// slice pointers: positions [lo, hi) of the sequence pointed to
    pub meta: Option<(Lin, Lin)>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct IterV {
    pub seq: Ptr,
    pub lo: Lin,
    pub hi: Lin,
}
/// A view of an indexable container (for the indexing property).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct View {
    pub id: u32,
    pub lo: Lin,
    pub hi: Lin,
}
#[derive(Clone, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    Int(Lin),
    Agg(Rc<Vec<Val>>),
    Enum(u32, Rc<Vec<Val>>),
    Ptr(Rc<Ptr>),
    Seq(Rc<Seq>),
    Iter(Rc<IterV>),
    View(Rc<View>),
    Fn(Instance),
    Tok(Rc<str>),
    Undef,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Class {
    /// lies before the probe
    L,
    /// contains the probe
    C,
    /// lies after the probe
    R,
    /// both: an empty piece
    E,
    /// unrelated / unknown
    U,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Shape {
    pub val: Val,
    pub locals: Vec<Sym>,
    /// a - b <= c with at least one local
    pub cons: Vec<(Sym, Sym, I)>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SegBody {
    One(Eid, Val),
    Star(Class, Rc<Vec<Shape>>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seg {
    pub end: Lin,
    pub body: SegBody,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seq {
    /// true: elements are BoundedRange values
    pub ranges: bool,
    pub segs: Vec<Seg>,
}
impl Seq {
    pub fn empty(ranges: bool) -> Seq {
        Seq { ranges, segs: vec![] }
    }
    pub fn len(&self) -> Lin {
        self.segs.last().map(|s| s.end.clone()).unwrap_or_else(|| Lin::int(0))
    }
    pub fn start(&self, i: usize) -> Lin {
        if i == 0 { Lin::int(0) } else { self.segs[i - 1].end.clone() }
    }
}
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Bool(b) => write!(f, "{b}"),
            Val::Int(l) => write!(f, "{l:?}"),
            Val::Agg(v) => {
                write!(f, "{{")?;
                for (i, x) in v.iter().enumerate() {
                    write!(f, "{}{x:?}", if i > 0 { ", " } else { "" })?;
                }
                write!(f, "}}")
            }
            Val::Enum(k, v) => {
                write!(f, "#{k}")?;
                if !v.is_empty() {
                    write!(f, "(")?;
                    for (i, x) in v.iter().enumerate() {
                        write!(f, "{}{x:?}", if i > 0 { ", " } else { "" })?;
                    }
                    write!(f, ")")?;
                }
                Ok(())
            }
            Val::Ptr(p) => write!(f, "&{}{:?}{}", p.base, p.path, if p.meta.is_some() { "[..]" } else { "" }),
            Val::Seq(s) => {
                write!(f, "[")?;
                for s in &s.segs {
                    match &s.body {
                        SegBody::One(_, v) => write!(f, " {v:?}|{:?}", s.end)?,
                        SegBody::Star(c, sh) => write!(f, " {c:?}*{}|{:?}", sh.len(), s.end)?,
                    }
                }
                write!(f, "]")
            }
            Val::Iter(i) => write!(f, "iter({}{:?},{:?}..{:?})", i.seq.base, i.seq.path, i.lo, i.hi),
            Val::View(v) => write!(f, "view{}[{:?}..{:?}]", v.id, v.lo, v.hi),
            Val::Fn(i) => write!(f, "fn {}", i.name()),
            Val::Tok(t) => write!(f, "tok:{t}"),
            Val::Undef => write!(f, "undef"),
        }
    }
}
pub fn agg(v: Vec<Val>) -> Val {
    Val::Agg(Rc::new(v))
}
pub fn unit() -> Val {
    agg(vec![])
}
pub fn int(x: i128) -> Val {
    Val::Int(Lin::int(x))
}

/// Visit every linear expression of a value (not inside star shapes).
pub fn leaves<'a>(v: &'a Val, f: &mut dyn FnMut(&'a Lin)) {
    match v {
        Val::Int(l) => f(l),
        Val::Agg(x) | Val::Enum(_, x) => x.iter().for_each(|y| leaves(y, f)),
        Val::Ptr(p) => {
            if let Some((a, b)) = &p.meta {
                f(a);
                f(b);
            }
        }
        Val::Iter(i) => {
            if let Some((a, b)) = &i.seq.meta {
                f(a);
                f(b);
            }
            f(&i.lo);
            f(&i.hi);
        }
        Val::View(v) => {
            f(&v.lo);
            f(&v.hi);
        }
        Val::Seq(s) => {
            for g in &s.segs {
                f(&g.end);
                if let SegBody::One(_, v) = &g.body {
                    leaves(v, f)
                }
            }
        }
        _ => {}
    }
}
pub fn map_leaves(v: &Val, f: &mut dyn FnMut(&Lin) -> Lin) -> Val {
    match v {
        Val::Int(l) => Val::Int(f(l)),
        Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| map_leaves(y, f)).collect())),
        Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(|y| map_leaves(y, f)).collect())),
        Val::Ptr(p) => match &p.meta {
            Some((a, b)) => {
                let (a, b) = (f(a), f(b));
                Val::Ptr(Rc::new(Ptr { base: p.base, path: p.path.clone(), meta: Some((a, b)) }))
            }
            None => v.clone(),
        },
        Val::Iter(i) => {
            let meta = i.seq.meta.as_ref().map(|(a, b)| {
                let a = f(a);
                (a, f(b))
            });
            let lo = f(&i.lo);
            let hi = f(&i.hi);
            Val::Iter(Rc::new(IterV { seq: Ptr { base: i.seq.base, path: i.seq.path.clone(), meta }, lo, hi }))
        }
        Val::View(w) => {
            let lo = f(&w.lo);
            let hi = f(&w.hi);
            Val::View(Rc::new(View { id: w.id, lo, hi }))
        }
        Val::Seq(s) => {
            let segs = s
                .segs
                .iter()
                .map(|g| {
                    let end = f(&g.end);
                    let body = match &g.body {
                        SegBody::One(e, v) => SegBody::One(*e, map_leaves(v, f)),
                        b => b.clone(),
                    };
                    Seg { end, body }
                })
                .collect();
            Val::Seq(Rc::new(Seq { ranges: s.ranges, segs }))
        }
        _ => v.clone(),
    }
}
pub fn visit_seqs<'a>(v: &'a Val, f: &mut dyn FnMut(&'a Seq)) {
    match v {
        Val::Agg(x) | Val::Enum(_, x) => x.iter().for_each(|y| visit_seqs(y, f)),
        Val::Seq(s) => {
            f(s);
            for g in &s.segs {
                if let SegBody::One(_, v) = &g.body {
                    visit_seqs(v, f)
                }
            }
        }
        _ => {}
    }
}
pub fn has_seq(v: &Val) -> bool {
    match v {
        Val::Agg(x) | Val::Enum(_, x) => x.iter().any(has_seq),
        Val::Seq(_) => true,
        _ => false,
    }
}
/// rewrite every sequence (outermost first)
pub fn map_seqs(v: &Val, f: &mut dyn FnMut(&Seq) -> Option<Seq>) -> Val {
    if !has_seq(v) {
        return v.clone();
    }
    match v {
        Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| map_seqs(y, f)).collect())),
        Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(|y| map_seqs(y, f)).collect())),
        Val::Seq(s) => match f(s) {
            Some(n) => Val::Seq(Rc::new(n)),
            None => v.clone(),
        },
        _ => v.clone(),
    }
}
pub fn ptrs<'a>(v: &'a Val, f: &mut dyn FnMut(&'a Ptr)) {
    match v {
        Val::Agg(x) | Val::Enum(_, x) => x.iter().for_each(|y| ptrs(y, f)),
        Val::Ptr(p) => f(p),
        Val::Iter(i) => f(&i.seq),
        Val::Seq(s) => {
            for g in &s.segs {
                match &g.body {
                    SegBody::One(_, v) => ptrs(v, f),
                    SegBody::Star(_, sh) => sh.iter().for_each(|s| ptrs(&s.val, f)),
                }
            }
        }
        _ => {}
    }
}
pub fn map_ptrs(v: &Val, f: &mut dyn FnMut(&Ptr) -> Ptr) -> Val {
    match v {
        Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| map_ptrs(y, f)).collect())),
        Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(|y| map_ptrs(y, f)).collect())),
        Val::Ptr(p) => Val::Ptr(Rc::new(f(p))),
        Val::Iter(i) => Val::Iter(Rc::new(IterV { seq: f(&i.seq), lo: i.lo.clone(), hi: i.hi.clone() })),
        Val::Seq(s) => Val::Seq(Rc::new(Seq {
            ranges: s.ranges,
            segs: s
                .segs
                .iter()
                .map(|g| Seg {
                    end: g.end.clone(),
                    body: match &g.body {
                        SegBody::One(e, v) => SegBody::One(*e, map_ptrs(v, f)),
                        b => b.clone(),
                    },
                })
                .collect(),
        })),
        _ => v.clone(),
    }
}

#[derive(Debug)]
pub struct TraceNode {
    pub what: Rc<str>,
    pub val: Option<Val>,
    pub ty: Option<rustc_public::ty::Ty>,
    pub prev: Option<Rc<TraceNode>>,
}

#[derive(Clone)]
pub struct State {
    pub allocs: BTreeMap<Aid, Val>,
    pub store: Store,
    /// symbols that every canonical form keeps: the probe, type extremes, ...
    pub globals: Rc<Vec<Sym>>,
    /// input symbols, for reports
    pub exact: bool,
    pub trace: Option<Rc<TraceNode>>,
    /// how many arbitrary sets were introduced so far
    pub set_inputs: usize,
    pub unroll: u32,
}
impl State {
    pub fn new() -> State {
        State { allocs: BTreeMap::new(), store: Store::new(), globals: Rc::new(vec![]), exact: true, trace: None, unroll: 0, set_inputs: 0 }
    }
    pub fn note(&mut self, what: Rc<str>, val: Option<Val>) {
        self.trace = Some(Rc::new(TraceNode { what, val, ty: None, prev: self.trace.take() }));
    }
    /// record the type of the value noted last
    pub fn trace_ty(&mut self, t: rustc_public::ty::Ty) {
        if let Some(n) = self.trace.take() {
            self.trace = Some(Rc::new(TraceNode { what: n.what.clone(), val: n.val.clone(), ty: Some(t), prev: n.prev.clone() }));
        }
    }
    pub fn read(&self, p: &Ptr) -> Result<&Val, String> {
        let mut v = self.allocs.get(&p.base).ok_or_else(|| format!("dangling pointer to {}", p.base))?;
        for e in &p.path {
            v = match (e, v) {
                (Pe::F(i), Val::Agg(x)) | (Pe::F(i), Val::Enum(_, x)) => x.get(*i as usize).ok_or_else(|| format!("no field {i} in {v:?}"))?,
                (Pe::E(eid), Val::Seq(s)) => s
                    .segs
                    .iter()
                    .find_map(|g| match &g.body {
                        SegBody::One(e, v) if e == eid => Some(v),
                        _ => None,
                    })
                    .ok_or_else(|| "element pointer lost".to_string())?,
                _ => return Err(format!("bad projection {e:?} of {v:?}")),
            };
        }
        Ok(v)
    }
    pub fn write(&mut self, p: &Ptr, val: Val) -> Result<(), String> {
        let root = self.allocs.entry(p.base).or_insert(Val::Undef);
        write_path(root, &p.path, val)
    }
    pub fn with_seq<R>(&mut self, p: &Ptr, f: impl FnOnce(&mut Seq) -> R) -> Result<R, String> {
        let root = self.allocs.get_mut(&p.base).ok_or("dangling")?;
        let v = path_mut(root, &p.path)?;
        match v {
            Val::Seq(s) => Ok(f(Rc::make_mut(s))),
            o => Err(format!("expected a sequence, found {o:?}")),
        }
    }
    pub fn seq(&self, p: &Ptr) -> Result<&Rc<Seq>, String> {
        match self.read(p)? {
            Val::Seq(s) => Ok(s),
            o => Err(format!("expected a sequence, found {o:?}")),
        }
    }
    /// assume l <= 0
    pub fn le0(&mut self, l: &Lin) -> bool {
        self.store.assume_le0(l)
    }
    pub fn eq0(&mut self, l: &Lin) -> bool {
        self.store.assume_le0(l) && self.store.assume_le0(&l.neg())
    }
    pub fn is_eq(&self, a: &Lin, b: &Lin) -> bool {
        if a == b {
            return true;
        }
        let d = a.sub(b);
        if d.t.is_empty() {
            return d.c.is_zero();
        }
        self.store.entails_le0(&d) && self.store.entails_le0(&d.neg())
    }
}
pub fn path_mut<'a>(root: &'a mut Val, path: &[Pe]) -> Result<&'a mut Val, String> {
    let mut v = root;
    for e in path {
        v = match (e, v) {
            (Pe::F(i), Val::Agg(x)) | (Pe::F(i), Val::Enum(_, x)) => {
                let x = Rc::make_mut(x);
                x.get_mut(*i as usize).ok_or("no field")?
            }
            (Pe::E(eid), Val::Seq(s)) => Rc::make_mut(s)
                .segs
                .iter_mut()
                .find_map(|g| match &mut g.body {
                    SegBody::One(e, v) if e == eid => Some(v),
                    _ => None,
                })
                .ok_or("element pointer lost")?,
            (_, v) => return Err(format!("bad projection {e:?} of {v:?}")),
        };
    }
    Ok(v)
}
fn write_path(v: &mut Val, path: &[Pe], val: Val) -> Result<(), String> {
    match path.split_first() {
        None => {
            *v = val;
            Ok(())
        }
        Some((Pe::F(i), rest)) => {
            if let Val::Undef = v {
                *v = agg(vec![]);
            }
            match v {
                Val::Agg(x) | Val::Enum(_, x) => {
                    let x = Rc::make_mut(x);
                    while x.len() <= *i as usize {
                        x.push(Val::Undef);
                    }
                    write_path(&mut x[*i as usize], rest, val)
                }
                o => Err(format!("cannot write field {i} of {o:?}")),
            }
        }
        Some((Pe::E(eid), rest)) => match v {
            Val::Seq(s) => {
                let x = Rc::make_mut(s)
                    .segs
                    .iter_mut()
                    .find_map(|g| match &mut g.body {
                        SegBody::One(e, v) if e == eid => Some(v),
                        _ => None,
                    })
                    .ok_or("element pointer lost")?;
                write_path(x, rest, val)
            }
            o => Err(format!("cannot write element of {o:?}")),
        },
    }
}

// ------------------------------------------------------------------ ids
thread_local! {
    static NEXT_AID: std::cell::Cell<u32> = std::cell::Cell::new(1 << 24);
    static NEXT_EID: std::cell::Cell<u32> = std::cell::Cell::new(1);
}
pub fn reset_ids() {
    NEXT_AID.with(|c| c.set(1 << 24));
    NEXT_EID.with(|c| c.set(1));
}
/// heap-like allocation ids live above 2^24, frame locals below
pub fn fresh_aid() -> Aid {
    NEXT_AID.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}
pub fn fresh_eid() -> Eid {
    NEXT_EID.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}

// ------------------------------------------------------------------ garbage collection
impl State {
    /// keep only allocations reachable from the roots
    pub fn gc_allocs(&mut self, roots: &BTreeSet<Aid>) {
        let mut live: BTreeSet<Aid> = BTreeSet::new();
        let mut wl: Vec<Aid> = roots.iter().cloned().filter(|a| self.allocs.contains_key(a)).collect();
        while let Some(a) = wl.pop() {
            if !live.insert(a) {
                continue;
            }
            if let Some(v) = self.allocs.get(&a) {
                ptrs(v, &mut |p| {
                    if !live.contains(&p.base) {
                        wl.push(p.base)
                    }
                });
            }
        }
        if live.len() != self.allocs.len() {
            self.allocs.retain(|a, _| live.contains(a));
        }
    }
    pub fn live_syms(&self) -> BTreeSet<Sym> {
        let mut s: BTreeSet<Sym> = self.globals.iter().cloned().collect();
        for v in self.allocs.values() {
            leaves(v, &mut |l| s.extend(l.t.iter().map(|x| x.0)));
        }
        s
    }
    /// project dead symbols away, in the store and in star shapes
    pub fn gc_syms(&mut self, extra: &[&Val]) {
        let mut live = self.live_syms();
        for v in extra {
            leaves(v, &mut |l| live.extend(l.t.iter().map(|x| x.0)));
        }
        live.insert(ZERO);
        let store = self.store.clone();
        let fix = |sh: &Shape| -> Option<Shape> {
            let isl = |s: Sym| sh.locals.contains(&s);
            if sh.cons.iter().all(|(a, b, _)| (isl(*a) || live.contains(a)) && (isl(*b) || live.contains(b))) {
                return None;
            }
            Some(project_shape(sh, &store, &|s| live.contains(&s)))
        };
        let aids: Vec<Aid> = self.allocs.keys().cloned().collect();
        for a in aids {
            let v = &self.allocs[&a];
            if !has_seq(v) {
                continue;
            }
            let nv = map_seqs(v, &mut |s| Some(fix_seq(s, &fix)));
            self.allocs.insert(a, nv);
        }
        if !self.store.keep_only(&|s| live.contains(&s)) {
            self.exact = false;
        }
    }
}
fn fix_seq(s: &Seq, fix: &dyn Fn(&Shape) -> Option<Shape>) -> Seq {
    let segs = s
        .segs
        .iter()
        .map(|g| Seg {
            end: g.end.clone(),
            body: match &g.body {
                SegBody::Star(c, shs) => {
                    if shs.iter().any(|x| fix(x).is_some()) {
                        SegBody::Star(*c, Rc::new(shs.iter().map(|x| fix(x).unwrap_or_else(|| x.clone())).collect()))
                    } else {
                        g.body.clone()
                    }
                }
                SegBody::One(e, v) => SegBody::One(*e, map_seqs(v, &mut |s| Some(fix_seq(s, fix)))),
            },
        })
        .collect();
    Seq { ranges: s.ranges, segs }
}
/// Eliminate anchors that are not kept from a shape's constraints.
pub fn project_shape(sh: &Shape, store: &Store, keep: &dyn Fn(Sym) -> bool) -> Shape {
    let isl = |s: Sym| sh.locals.contains(&s);
    let mut m: HashMap<(Sym, Sym), I> = HashMap::new();
    let mut put = |a: Sym, b: Sym, c: I| {
        if a == b {
            return;
        }
        let e = m.entry((a, b)).or_insert(INF);
        if c < *e {
            *e = c;
        }
    };
    let anchors: Vec<Sym> = store.syms().iter().cloned().filter(|s| keep(*s)).collect();
    for &(a, b, c) in &sh.cons {
        match (isl(a), isl(b)) {
            (true, true) => put(a, b, c),
            (true, false) => {
                if keep(b) || b == ZERO {
                    put(a, b, c);
                } else {
                    for &k in &anchors {
                        let d = store.diff(b, k);
                        if !d.is_inf() {
                            put(a, k, clampo(a, k, c + d));
                        }
                    }
                    // through another local
                    for &(a2, b2, c2) in &sh.cons {
                        if isl(b2) && !isl(a2) {
                            let d = store.diff(b, a2);
                            if !d.is_inf() {
                                put(a, b2, clampo(a, b2, c + d + c2));
                            }
                        }
                    }
                }
            }
            (false, true) => {
                if keep(a) || a == ZERO {
                    put(a, b, c);
                } else {
                    for &k in &anchors {
                        let d = store.diff(k, a);
                        if !d.is_inf() {
                            put(k, b, clampo(k, b, c + d));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut cons: Vec<(Sym, Sym, I)> = m.into_iter().filter(|x| !x.1.is_inf()).map(|((a, b), c)| (a, b, c)).collect();
    cons.sort();
    Shape { val: sh.val.clone(), locals: sh.locals.clone(), cons }
}
pub fn clampo(a: Sym, b: Sym, v: I) -> I {
    if sort(a) == SORT_ORD && sort(b) == SORT_ORD {
        if v < I::new(-1) {
            return I::new(-1);
        }
        if v > I::ZERO {
            return INF;
        }
    }
    v
}
