//! Modular reasoning about the set operations of the library.
//!
//! A call of `intersection`, `union`, `complement` or `add_*` on sets is replaced by the
//! operation's pointwise meaning (the result is well formed as seen from the probe and
//! holds it iff the operands say so) once the body of exactly that monomorphic function has
//! been proved to have this meaning for every well-formed argument. A body that cannot be
//! proved is analysed in place at every call instead.
use crate::canon::*;
use crate::interp::*;
use crate::lin::*;
use crate::natives::*;
use crate::num::*;
use crate::spec::*;
use crate::store::*;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    And,
    Or,
    Not,
    /// `fn(&mut Set, x)`: the points of x are added
    Add,
    /// `fn(&mut Set)`: a well-formed set keeps its points
    Keep,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    None,
    Busy,
    /// with the side rules that hold (see `Ctx::rules`)
    Proved(Kind, u8),
    Failed,
}
#[derive(Default)]
pub struct Contracts {
    pub tab: HashMap<Instance, Status>,
    pub log: Vec<(String, bool, u64)>,
    pub uses: u64,
    pub why: String,
    /// summarised pieces keep their relation to the added range
    pub anchored: bool,
    /// functions being proved: contract and measure at entry
    pub stack: Vec<(Instance, Kind, Option<Lin>, Option<usize>)>,
}
/// calls made so far and their results, for `sv::remember`
pub const MEMO: Aid = Aid::MAX - 7;
/// equal values, up to the identity of stored elements
fn same_val(st: &State, a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => st.is_eq(x, y),
        (Val::Agg(x), Val::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_val(st, p, q)),
        (Val::Enum(i, x), Val::Enum(j, y)) => i == j && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_val(st, p, q)),
        (Val::Seq(x), Val::Seq(y)) => {
            x.segs.len() == y.segs.len()
                && x.segs.iter().zip(&y.segs).all(|(p, q)| {
                    match (&p.body, &q.body) {
                            (SegBody::One(_, v), SegBody::One(_, w)) => st.is_eq(&p.end, &q.end) && same_val(st, v, w),
                            // the same summary of the same sequence: copies share the symbol of its end
                            (SegBody::Star(c, v), SegBody::Star(d, w)) => c == d && v == w && p.end == q.end && p.end.as_offset().map_or(false, |o| o.0 != ZERO),
                            _ => false,
                        }
                })
        }
        (Val::Bool(x), Val::Bool(y)) => x == y,
        _ => false,
    }
}
/// the number of stored pieces
fn total_len(v: &Val) -> Option<Lin> {
    let mut n = 0;
    let mut l = Lin::int(0);
    visit_seqs(v, &mut |s| {
        n += 1;
        l = l.add(&s.len());
    });
    if n == 1 { Some(l) } else { None }
}
pub fn setish(t: Ty) -> bool {
    matches!(adt_last(t).as_deref(), Some("Range" | "RangeInclusive" | "RangeFrom" | "RangeTo" | "RangeToInclusive" | "RangeFull" | "EmptyRange" | "BoundedRange" | "LowerBoundedRange" | "UpperBoundedRange" | "UnboundedRange" | "BoundedSet" | "LowerBoundedSet" | "UpperBoundedSet" | "UnboundedSet"))
}
fn is_set(t: Ty) -> bool {
    adt_last(t).map_or(false, |n| n.ends_with("Set"))
}
fn mut_target(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Ref(_, i, rustc_public::mir::Mutability::Mut) => Some(i),
        _ => None,
    }
}
/// the element type of a set or range type
fn elem_ty(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Adt(_, a) => type_args(&a).first().cloned(),
        _ => None,
    }
}

/// Which pieces a result may have beside the probe: (operands concerned, side, the operands
/// may not hold the probe either). When none of those operands has a piece on that side, the
/// result has none.
type Rule = (&'static [usize], Class, bool);
impl Ctx {
    fn rules(kind: Kind) -> &'static [Rule] {
        match kind {
            Kind::And => &[(&[0], Class::R, true), (&[0], Class::L, true), (&[1], Class::R, true), (&[1], Class::L, true)],
            Kind::Or | Kind::Add => &[(&[0, 1], Class::R, false), (&[0, 1], Class::L, false)],
            Kind::Keep => &[(&[0], Class::R, false), (&[0], Class::L, false)],
            Kind::Not => &[],
        }
    }
    /// the states in which the value has no piece on `side` (nor at the probe, with `strict`)
    fn assume_absent(&mut self, st: State, v: &Val, ty: Ty, side: Class, strict_c: bool) -> Res<Vec<State>> {
        let t = Lin::sym(self.probe.ok_or("no probe")?);
        let items = self.items(&st, v, ty)?;
        let mut cur = vec![st];
        for it in &items {
            let mut next = vec![];
            for mut s in cur {
                match it {
                    Item::Star(sh, a, b) => {
                        let absent = match self.star_class(&s, sh) {
                            Some(Class::C) => strict_c,
                            Some(c) => c == side,
                            None => true,
                        };
                        if !absent || s.eq0(&b.sub(a)) {
                            next.push(s);
                        }
                    }
                    Item::Full => {
                        if !strict_c {
                            next.push(s)
                        }
                    }
                    _ => {
                        let (lo, hi) = Self::at_probe(it, &t);
                        // not on the side: before the probe (side R) or after it (side L), or at it
                        let mut opts: Vec<Lin> = vec![];
                        let not = |l: &Lin| l.neg().addc(I::ONE);
                        match (side, lo, hi) {
                            (Class::R, lo, hi) => {
                                if strict_c {
                                    opts.extend(hi.map(|h| not(&h)));
                                } else {
                                    match lo {
                                        Some(l) => opts.push(l),
                                        None => opts.push(Lin::int(0)),
                                    }
                                }
                            }
                            (_, lo, hi) => {
                                if strict_c {
                                    opts.extend(lo.map(|l| not(&l)));
                                } else {
                                    match hi {
                                        Some(h) => opts.push(h),
                                        None => opts.push(Lin::int(0)),
                                    }
                                }
                            }
                        }
                        if let Item::Piece(xl, lo, xh, hi) = it {
                            // or empty
                            opts.push(lo.sub(hi).addc(strict(*xl || *xh)).neg().addc(I::ONE));
                        }
                        for o in opts {
                            let mut s = s.clone();
                            if s.le0(&o) {
                                next.push(s);
                            }
                        }
                    }
                }
            }
            cur = next;
        }
        Ok(cur)
    }
    /// the value certainly has no piece on `side` (nor at the probe, with `strict`)
    fn absent(&mut self, st: &State, v: &Val, ty: Ty, side: Class, strict_c: bool) -> Res<bool> {
        let t = Lin::sym(self.probe.ok_or("no probe")?);
        for it in &self.items(st, v, ty)? {
            let ok = match it {
                Item::Star(sh, a, b) => {
                    let absent = match self.star_class(st, sh) {
                        Some(Class::C) => strict_c,
                        Some(c) => c == side,
                        None => true,
                    };
                    !absent || st.store.entails_le0(&b.sub(a))
                }
                Item::Full => !strict_c,
                _ => {
                    let (lo, hi) = Self::at_probe(it, &t);
                    let not = |l: &Lin| l.neg().addc(I::ONE);
                    let side_ok = match side {
                        Class::R => if strict_c { hi.map(|h| not(&h)) } else { Some(lo.unwrap_or(Lin::int(0))) },
                        _ => if strict_c { lo.map(|l| not(&l)) } else { Some(hi.unwrap_or(Lin::int(0))) },
                    };
                    let empty = if let Item::Piece(xl, lo, xh, hi) = it { Some(lo.sub(hi).addc(strict(*xl || *xh)).neg().addc(I::ONE)) } else { None };
                    side_ok.map_or(false, |l| st.store.entails_le0(&l)) || empty.map_or(false, |l| st.store.entails_le0(&l))
                }
            };
            if !ok {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// conditions under which the lower and the upper bound admit the probe
    fn at_probe(it: &Item, t: &Lin) -> (Option<Lin>, Option<Lin>) {
        match it {
            Item::Upper(x, h) => (None, Some(Self::hi_ok(*x, h, t))),
            Item::Lower(x, l) => (Some(Self::lo_ok(*x, l, t)), None),
            Item::Piece(xl, lo, xh, hi) => (Some(Self::lo_ok(*xl, lo, t)), Some(Self::hi_ok(*xh, hi, t))),
            _ => (None, None),
        }
    }
    fn contract_kind(&mut self, inst: &Instance) -> Option<(Kind, Vec<Ty>, Ty)> {
        let bi = self.body(inst)?;
        if !bi.repo {
            return None;
        }
        let n = def_norm(inst);
        let l = last_seg(&n).to_string();
        let kind = match l.as_str() {
            "intersection" => Kind::And,
            "union" => Kind::Or,
            "complement" => Kind::Not,
            _ => {
                // a private helper working on a set in place
                let a = bi.body.arg_locals();
                let unit = matches!(rigid(bi.body.locals()[0].ty), Some(RigidTy::Tuple(v)) if v.is_empty());
                match a.len() {
                    1 if unit => Kind::Keep,
                    2 if unit => Kind::Add,
                    _ => return None,
                }
            }
        };
        let args: Vec<Ty> = bi.body.arg_locals().iter().map(|l| l.ty).collect();
        let ret = bi.body.locals()[0].ty;
        let want = if matches!(kind, Kind::Not | Kind::Keep) { 1 } else { 2 };
        if args.len() != want {
            return None;
        }
        let mut vals = args.clone();
        if matches!(kind, Kind::Add | Kind::Keep) {
            vals[0] = mut_target(args[0])?;
            if !is_set(vals[0]) {
                return None;
            }
        } else if !setish(ret) {
            return None;
        }
        if !vals.iter().all(|t| setish(*t)) {
            return None;
        }
        if !vals.iter().any(|t| is_set(*t)) && !is_set(ret) {
            return None;
        }
        if !vals.iter().chain([ret].iter()).filter_map(|t| elem_ty(*t)).all(|t| adt_last(t).as_deref() == Some("Elem")) {
            return None;
        }
        Some((kind, vals, ret))
    }
    /// the meaning of the arguments at the probe: (state, in the domain of the contract?, bits)
    fn arg_bits(&mut self, st: State, kind: Kind, vals: &[Val], tys: &[Ty]) -> Res<Vec<(State, bool, Vec<bool>)>> {
        let t = Lin::sym(self.probe.ok_or("no probe")?);
        let mut cur = vec![(st, true, vec![])];
        for (i, (v, ty)) in vals.iter().zip(tys).enumerate() {
            let mut next = vec![];
            for (s, ok, bits) in cur {
                if !ok {
                    next.push((s, ok, bits));
                    continue;
                }
                let items = self.items(&s, v, *ty)?;
                if is_set(*ty) {
                    for (s, w) in self.wf(s, &items, &t) {
                        let mut b: Vec<bool> = bits.clone();
                        b.push(w == 2);
                        next.push((s, w != 0, b));
                    }
                } else {
                    let need = kind == Kind::Add && i > 0;
                    for (s, ne) in if need { self.nonempty(s, &items) } else { vec![(s, true)] } {
                        for (s, m) in self.mem(s, &items, &t) {
                            let mut b: Vec<bool> = bits.clone();
                            b.push(m);
                            next.push((s, ne, b));
                        }
                    }
                }
            }
            cur = next;
        }
        Ok(cur)
    }
    fn meaning(kind: Kind, b: &[bool]) -> bool {
        match kind {
            Kind::And => b[0] && b[1],
            Kind::Or | Kind::Add => b[0] || b[1],
            Kind::Not => !b[0],
            Kind::Keep => b[0],
        }
    }
    pub fn try_contract(&mut self, inst: &Instance, args: &[Val], st: &State) -> Option<Outs> {
        if !self.cfg.fold || !self.cfg.contracts || self.probe.is_none() || self.frames.is_empty() || self.sums.busy > 0 {
            return None;
        }
        let status = self.contracts.tab.get(inst).cloned();
        let mut inductive = false;
        let (kind, mask) = match status {
            Some(Status::Proved(k, m)) => (k, m),
            Some(Status::Busy) if self.contracts.stack.last().map_or(false, |x| x.0 == *inst) => {
                // a recursive call of the function being proved: its contract, on a smaller set
                inductive = true;
                let (_, k, _, r) = self.contracts.stack.last().unwrap();
                // the rule being proved may be assumed of the smaller call
                (*k, r.map_or(0, |i| 1 << i))
            }
            Some(_) => return None,
            None => {
                let (kind, tys, ret) = match self.contract_kind(inst) {
                    Some(x) => x,
                    None => {
                        self.contracts.tab.insert(*inst, Status::None);
                        return None;
                    }
                };
                self.contracts.tab.insert(*inst, Status::Busy);
                let rec = self.body(inst).map_or(false, |b| b.self_call);
                self.contracts.anchored = kind == Kind::Add && rec;
                let mut ok = self.prove_contract(inst, kind, &tys, ret, None);
                if !ok && kind == Kind::Add && !rec && !self.stop && !is_set(tys[1]) {
                    self.contracts.anchored = true;
                    ok = self.prove_contract(inst, kind, &tys, ret, None);
                }
                let anchored = self.contracts.anchored;
                let mut mask = 0;
                if ok {
                    for i in 0..Self::rules(kind).len() {
                        if self.stop {
                            break;
                        }
                        self.contracts.anchored = anchored;
                        if self.prove_contract(inst, kind, &tys, ret, Some(i)) {
                            mask |= 1 << i;
                            continue;
                        }
                        if kind == Kind::And && !self.stop && Self::rules(kind)[i].0.iter().any(|&o| !is_set(tys[o])) {
                            // summarised pieces keep their relation to the range
                            self.contracts.anchored = true;
                            if self.prove_contract(inst, kind, &tys, ret, Some(i)) {
                                mask |= 1 << i;
                            }
                        }
                    }
                }
                self.contracts.tab.insert(*inst, if ok { Status::Proved(kind, mask) } else { Status::Failed });
                if !ok {
                    return None;
                }
                (kind, mask)
            }
        };
        let (_, tys, ret) = self.contract_kind(inst)?;
        let mut vals: Vec<Val> = args.to_vec();
        let mut target = None;
        if matches!(kind, Kind::Add | Kind::Keep) {
            let p = self.arg_ptr(&args[0]).ok()?;
            vals[0] = st.read(&p).ok()?.clone();
            target = Some(p);
        }
        if inductive {
            let m = match (&self.contracts.stack.last().unwrap().2, total_len(&vals[0])) {
                (Some(m), Some(l)) => l.sub(m).addc(I::ONE),
                _ => return None,
            };
            if kind != Kind::Add || !st.store.entails_le0(&m) {
                if self.cfg.verbose > 1 {
                    eprintln!("   inductive use refused: {m:?} {:?}\n    {:?}", vals, st.store.constraints().iter().map(|(a, b, c)| format!("{}-{}<={c}", sym_name(*a), sym_name(*b))).collect::<Vec<_>>());
                }
                return None;
            }
        }
        let remember = self.remember && target.is_none() && self.contracts.stack.is_empty();
        if remember {
            // a pure function of its arguments: the same call has the same result
            if self.cfg.verbose > 2 {
                eprintln!("MEMO {:?}\n  for {:?}", st.allocs.get(&MEMO), args);
            }
            if let Some(Val::Agg(es)) = st.allocs.get(&MEMO) {
                for e in es.iter() {
                    if let Val::Agg(x) = e {
                        if matches!(&x[0], Val::Fn(i) if i == inst) && x.len() == args.len() + 2 && args.iter().zip(&x[1..]).all(|(a, b)| same_val(st, a, b)) {
                            return Some(vec![(st.clone(), Out::Ret(refresh_eids(&x[x.len() - 1])))]);
                        }
                    }
                }
            }
        }
        let branches = self.arg_bits(st.clone(), kind, &vals, &tys).ok()?;
        if kind == Kind::Keep && branches.iter().any(|b| !b.1) {
            return None;
        }
        self.contracts.uses += 1;
        if let Some(bi) = self.body(inst) {
            self.fns.insert(bi.name.clone());
        }
        let mut roots: BTreeSet<Aid> = self.keep.iter().cloned().collect();
        for f in self.frames.iter() {
            for &l in &f.live {
                roots.insert(f.base + l as u32);
            }
        }
        let mut out: Outs = vec![];
        let mut by: BTreeMap<(bool, u8), Vec<State>> = BTreeMap::new();
        for (mut s, ok, bits) in branches {
            if !ok {
                // outside the contract: analyse the body
                out.extend(self.exec_body(inst, args.to_vec(), s));
                continue;
            }
            s.exact = false;
            // sides on which the result has no pieces
            let mut sides = 0u8;
            for (i, (ops, side, sc)) in Self::rules(kind).iter().enumerate() {
                if mask & (1 << i) != 0 && ops.iter().all(|&o| self.absent(&s, &vals[o], tys[o], *side, *sc).unwrap_or(false)) {
                    sides |= if *side == Class::R { 1 } else { 2 };
                }
            }
            if let Some(p) = &target {
                // the old content is dead
                let _ = s.write(p, unit());
            }
            if remember {
                s.allocs.insert(MEMO - 1, agg(args.to_vec()));
            }
            by.entry((Self::meaning(kind, &bits), sides)).or_default().push(s);
        }
        for ((want, sides), states) in by {
            let mut roots = roots.clone();
            if let Some(p) = &target {
                roots.insert(p.base);
            }
            roots.insert(MEMO - 1);
            let states = if states.len() > 1 { self.batch(states, &roots) } else { states };
            for s in states {
                let rt = if target.is_some() { tys[0] } else { ret };
                let vs = match self.any_val(s, rt) {
                    Ok(v) => v,
                    Err(e) => {
                        self.unsupported(e);
                        continue;
                    }
                };
                let t = Lin::sym(self.probe.unwrap());
                let mut vs2 = vec![];
                for (s, v) in vs {
                    let mut cur = vec![s];
                    for (bit, side) in [(1, Class::R), (2, Class::L)] {
                        if sides & bit != 0 {
                            let mut n = vec![];
                            for s in cur {
                                n.extend(self.assume_absent(s, &v, rt, side, false).unwrap_or_default());
                            }
                            cur = n;
                        }
                    }
                    vs2.extend(cur.into_iter().map(|s| (s, v.clone())));
                }
                for (s, v) in vs2 {
                    let items = match self.items(&s, &v, rt) {
                        Ok(i) => i,
                        Err(e) => {
                            self.unsupported(e);
                            continue;
                        }
                    };
                    for (mut s, m) in self.mem(s, &items, &t) {
                        if m != want {
                            continue;
                        }
                        s.exact = false;
                        match &target {
                            Some(p) => {
                                if let Err(e) = s.write(p, v.clone()) {
                                    self.unsupported(e);
                                    continue;
                                }
                                out.push((s, Out::Ret(unit())));
                            }
                            None => {
                                if remember {
                                    let mut es = match s.allocs.get(&MEMO) {
                                        Some(Val::Agg(x)) => x.as_ref().clone(),
                                        _ => vec![],
                                    };
                                    let mut e = vec![Val::Fn(*inst)];
                                    if let Some(Val::Agg(a)) = s.allocs.remove(&(MEMO - 1)) {
                                        e.extend(a.iter().map(refresh_eids));
                                    }
                                    e.push(refresh_eids(&v));
                                    es.push(agg(e));
                                    s.allocs.insert(MEMO, agg(es));
                                }
                                out.push((s, Out::Ret(v.clone())))
                            }
                        }
                    }
                }
            }
        }
        Some(out)
    }
    fn prove_contract(&mut self, inst: &Instance, kind: Kind, tys: &[Ty], ret: Ty, rule: Option<usize>) -> bool {
        let t0 = std::time::Instant::now();
        let frames = std::mem::take(&mut self.frames);
        let alarms = std::mem::take(&mut self.alarms);
        let unsup = std::mem::take(&mut self.unsup);
        let (stop, soa) = (self.stop, std::mem::replace(&mut self.stop_on_any, true));
        let probe = self.probe.take();
        let nb = self.next_base;
        let keep = std::mem::take(&mut self.keep);
        let steps = self.steps;
        let cap = std::mem::replace(&mut self.cfg.max_steps, steps + self.cfg.contract_steps);
        self.contracts.why.clear();
        let r = self.prove_body(inst, kind, tys, ret, rule);
        let timeout = self.unsup.keys().any(|k| k.starts_with("time budget"));
        let ok = matches!(r, Ok(true)) && self.alarms.is_empty() && self.unsup.is_empty() && !self.stop;
        if !ok {
            self.contracts.why = format!("{} {:?} {:?} {:?}", std::mem::take(&mut self.contracts.why), r, self.alarms.first().map(|a| format!("{} @ {}", a.what, a.at)), self.unsup.keys().next());
        }
        self.frames = frames;
        self.keep = keep;
        self.alarms = alarms;
        self.unsup = unsup;
        self.stop = stop || timeout;
        if timeout && !stop {
            self.unsupported("time budget".into());
        }
        self.stop_on_any = soa;
        self.probe = probe;
        self.next_base = nb;
        self.cfg.max_steps = cap;
        self.max_steps_bump(steps);
        let name = self.body(inst).map(|b| b.name.to_string()).unwrap_or_default();
        if self.cfg.verbose > 1 {
            eprintln!("   contract {name} {rule:?}: {} {}ms {} steps {}", if ok { "proved" } else { "not proved" }, t0.elapsed().as_millis(), self.steps - steps, if ok { "" } else { &self.contracts.why });
        }
        if rule.is_none() {
            self.contracts.log.push((name, ok, t0.elapsed().as_millis() as u64));
        }
        ok
    }
    fn max_steps_bump(&mut self, before: u64) {
        // steps spent on contracts do not count against the caller
        self.cfg.max_steps += self.steps - before;
    }
    fn prove_body(&mut self, inst: &Instance, kind: Kind, tys: &[Ty], ret: Ty, rule: Option<usize>) -> Res<bool> {
        let mut st = State::new();
        let p = fresh(SORT_ORD);
        name_sym(p, "t".into());
        self.probe = Some(p);
        st.globals = Rc::new(vec![p]);
        let t = Lin::sym(p);
        // make the probe known to the store
        st.le0(&Lin::sym(p).sub(&Lin::sym(p)));
        let mut cur: Vec<(State, Vec<Val>)> = vec![(st, vec![])];
        for ty in tys {
            let mut next = vec![];
            for (s, v) in cur {
                for (s, x) in self.any_val(s, *ty)? {
                    let mut v = v.clone();
                    v.push(x);
                    next.push((s, v));
                }
            }
            cur = next;
        }
        if let Some(i) = rule {
            let (ops, side, sc) = Self::rules(kind)[i];
            let mut next = vec![];
            for (s, vals) in cur {
                let mut ss = vec![s];
                for &o in ops {
                    let mut n = vec![];
                    for s in ss {
                        n.extend(self.assume_absent(s, &vals[o], tys[o], side, sc)?);
                    }
                    ss = n;
                }
                next.extend(ss.into_iter().map(|s| (s, vals.clone())));
            }
            cur = next;
        }
        let mut n = 0;
        let anchored = self.contracts.anchored;
        for (s, vals) in cur {
            for (mut s, ok, bits) in self.arg_bits(s, kind, &vals, tys)? {
                if !ok {
                    continue;
                }
                let want = Self::meaning(kind, &bits);
                let mut args = vals.clone();
                let mut target = None;
                if matches!(kind, Kind::Add | Kind::Keep) {
                    let id = fresh_aid();
                    s.allocs.insert(id, vals[0].clone());
                    let p = Ptr { base: id, path: vec![], meta: None };
                    args[0] = ptr_val(p.clone());
                    target = Some(p);
                }
                let mut measure = None;
                let mut g = s.globals.as_ref().clone();
                if kind == Kind::Add && anchored {
                    // shapes keep their relation to the added range, and the entry length
                    leaves(&vals[1], &mut |l| {
                        if !is_set(tys[1]) {
                            if let Some((x, _)) = l.as_offset() {
                                if x != ZERO && !g.contains(&x) {
                                    g.push(x);
                                }
                            }
                        }
                    });
                    if let Some(l) = total_len(&vals[0]) {
                        let m = fresh(SORT_INT);
                        if s.eq0(&Lin::sym(m).sub(&l)) {
                            g.push(m);
                            measure = Some(Lin::sym(m));
                        }
                    }
                }
                if kind == Kind::And && anchored {
                    for (v, ty) in vals.iter().zip(tys) {
                        if !is_set(*ty) {
                            leaves(v, &mut |l| {
                                if let Some((x, _)) = l.as_offset() {
                                    if x != ZERO && !g.contains(&x) {
                                        g.push(x);
                                    }
                                }
                            });
                        }
                    }
                }
                s.globals = Rc::new(g);
                self.contracts.stack.push((*inst, kind, measure, rule));
                // the target outlives the frame
                self.keep = target.iter().map(|p| p.base).collect();
                let outs = self.exec_body(inst, args, s);
                self.keep.clear();
                self.contracts.stack.pop();
                if self.stop {
                    return Ok(false);
                }
                for (s, o) in outs {
                    let v = match (o, &target) {
                        (Out::Panic(p), _) => {
                            self.contracts.why = format!("{} {}", p.what, p.at);
                            if self.cfg.verbose > 1 {
                                eprintln!("   panics: {} bits {bits:?}\n     args {vals:?} {:?}\n    {:?}", p.what, s.allocs, s.store.constraints().iter().map(|(a, b, c)| format!("{}-{}<={c}", sym_name(*a), sym_name(*b))).collect::<Vec<_>>());
                            }
                            return Ok(false);
                        }
                        (Out::Ret(_), Some(p)) => s.read(p)?.clone(),
                        (Out::Ret(v), None) => v,
                    };
                    let rt = if target.is_some() { tys[0] } else { ret };
                    if let Some(i) = rule {
                        n += 1;
                        if !self.absent(&s, &v, rt, Self::rules(kind)[i].1, false)? {
                            return Ok(false);
                        }
                        continue;
                    }
                    let items = self.items(&s, &v, rt)?;
                    if is_set(rt) {
                        for (s2, w) in self.wf(s, &items, &t) {
                            if w == 0 || (w == 2) != want {
                                if self.cfg.verbose > 1 {
                                    eprintln!("   post fails: wf {w} want {want} bits {bits:?}\n     args {vals:?}\n     result {v:?}\n     {:?}", s2.store.constraints().iter().map(|(a, b, c)| format!("{}-{}<={c}", sym_name(*a), sym_name(*b))).collect::<Vec<_>>());
                                    for it in &items {
                                        if let Item::Star(sh, ..) = it {
                                            for x in sh.iter() {
                                                eprintln!("      shape {:?} {:?}", x.val, x.cons);
                                            }
                                        }
                                    }
                                }
                                return Ok(false);
                            }
                        }
                    } else {
                        for (_, m) in self.mem(s, &items, &t) {
                            if m != want {
                                return Ok(false);
                            }
                        }
                    }
                    n += 1;
                }
            }
        }
        Ok(n > 0 || rule.is_some())
    }
}
