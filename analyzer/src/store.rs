//! The relational constraint domain: closed difference-bound matrices (zones) over
//! symbols, plus a list of general linear inequalities decided by Fourier-Motzkin
//! elimination. For SORT_ORD symbols only the order relation is kept (bounds are
//! clamped to < and <=), so that nothing about discreteness is ever used.
use crate::lin::*;
use crate::num::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

thread_local! {
    static NEXT: RefCell<u32> = RefCell::new(1);
    static NAMES: RefCell<HashMap<Sym, String>> = RefCell::new(HashMap::new());
}
pub fn fresh(sort: u32) -> Sym {
    NEXT.with(|n| {
        let mut n = n.borrow_mut();
        *n += 1;
        (*n << 2) | sort
    })
}
pub fn reset_syms() {
    NEXT.with(|n| *n.borrow_mut() = 1);
    NAMES.with(|n| n.borrow_mut().clear());
}
pub fn name_sym(s: Sym, n: String) {
    NAMES.with(|m| {
        m.borrow_mut().insert(s, n);
    })
}
pub fn sym_name(s: Sym) -> String {
    NAMES.with(|m| m.borrow().get(&s).cloned()).unwrap_or_else(|| format!("{}{}", ["n", "x", "s", "?"][(s & 3) as usize], s >> 2))
}

#[derive(Clone, Debug)]
pub struct Store {
    d: Rc<Dbm>,
    pub extras: Rc<Vec<Lin>>,
}
#[derive(Clone, Debug)]
struct Dbm {
    syms: Vec<Sym>,
    m: Vec<I>,
}

#[inline]
fn clamp(a: Sym, b: Sym, v: I) -> I {
    if sort(a) == SORT_ORD && sort(b) == SORT_ORD {
        if v < I::new(-1) {
            return I::new(-1);
        }
        if v > I::ZERO {
            return INF;
        }
    }
    v
}

impl Dbm {
    fn idx(&self, s: Sym) -> Option<usize> {
        self.syms.binary_search(&s).ok()
    }
    #[inline]
    fn at(&self, i: usize, j: usize) -> I {
        self.m[i * self.syms.len() + j]
    }
    fn add_sym(&mut self, s: Sym) {
        let n = self.syms.len();
        let p = match self.syms.binary_search(&s) {
            Ok(_) => return,
            Err(p) => p,
        };
        let mut m = Vec::with_capacity((n + 1) * (n + 1));
        for i in 0..=n {
            for j in 0..=n {
                if i == p || j == p {
                    m.push(if i == j { I::ZERO } else { INF });
                } else {
                    let (oi, oj) = (if i > p { i - 1 } else { i }, if j > p { j - 1 } else { j });
                    m.push(self.m[oi * n + oj]);
                }
            }
        }
        self.syms.insert(p, s);
        self.m = m;
    }
    /// x - y <= c, keeps closure. false = infeasible
    fn add(&mut self, x: Sym, y: Sym, c: I) -> bool {
        if x == y {
            return c >= I::ZERO;
        }
        self.add_sym(x);
        self.add_sym(y);
        let (xi, yi) = (self.idx(x).unwrap(), self.idx(y).unwrap());
        let c = clamp(x, y, c);
        if self.at(xi, yi) <= c {
            return true;
        }
        let back = self.at(yi, xi);
        if !back.is_inf() && back + c < I::ZERO {
            return false;
        }
        let n = self.syms.len();
        let col: Vec<I> = (0..n).map(|i| self.at(i, xi)).collect();
        let row: Vec<I> = (0..n).map(|j| self.at(yi, j)).collect();
        for i in 0..n {
            if col[i].is_inf() {
                continue;
            }
            let a = col[i] + c;
            for j in 0..n {
                if row[j].is_inf() {
                    continue;
                }
                let v = a + row[j];
                let k = i * n + j;
                if v < self.m[k] {
                    if i == j {
                        if v < I::ZERO {
                            return false;
                        }
                        continue;
                    }
                    self.m[k] = clamp(self.syms[i], self.syms[j], v);
                }
            }
        }
        true
    }
}

impl Store {
    pub fn new() -> Store {
        Store { d: Rc::new(Dbm { syms: vec![ZERO], m: vec![I::ZERO] }), extras: Rc::new(vec![]) }
    }
    pub fn dim(&self) -> usize {
        self.d.syms.len()
    }
    pub fn syms(&self) -> &[Sym] {
        &self.d.syms
    }
    /// upper bound of x - y
    pub fn diff(&self, x: Sym, y: Sym) -> I {
        if x == y {
            return I::ZERO;
        }
        match (self.d.idx(x), self.d.idx(y)) {
            (Some(i), Some(j)) => self.d.at(i, j),
            _ => INF,
        }
    }
    /// cheap upper bound of a linear expression (differences only)
    pub fn ub_cheap(&self, l: &Lin) -> I {
        match l.as_diff() {
            Some((x, y, c)) => self.diff(x, y) + c,
            None => {
                // pair positive and negative unit terms greedily
                let mut acc = l.c;
                let mut pos: Vec<(Sym, I)> = l.t.iter().filter(|x| !x.1.is_neg()).cloned().collect();
                let mut neg: Vec<(Sym, I)> = l.t.iter().filter(|x| x.1.is_neg()).map(|x| (x.0, -x.1)).collect();
                while let Some((x, k)) = pos.pop() {
                    // best partner
                    let mut best: Option<(usize, I)> = None;
                    for (i, (y, kn)) in neg.iter().enumerate() {
                        if *kn == k {
                            let b = self.diff(x, *y);
                            if !b.is_inf() && best.map_or(true, |(_, bb)| b < bb) {
                                best = Some((i, b));
                            }
                        }
                    }
                    match best {
                        Some((i, b)) => {
                            acc = acc + b.mul(k);
                            neg.remove(i);
                        }
                        None => {
                            let b = self.diff(x, ZERO);
                            if b.is_inf() {
                                return INF;
                            }
                            acc = acc + b.mul(k);
                        }
                    }
                }
                for (y, k) in neg {
                    let b = self.diff(ZERO, y);
                    if b.is_inf() {
                        return INF;
                    }
                    acc = acc + b.mul(k);
                }
                acc
            }
        }
    }
    pub fn ub(&self, l: &Lin) -> I {
        let c = self.ub_cheap(l);
        if l.t.is_empty() || (l.as_diff().is_some() && !self.extras_touch(l)) {
            return c;
        }
        if self.extras.is_empty() && l.t.len() <= 1 {
            return c;
        }
        let v = fresh(SORT_INT);
        let mut cons = self.relevant(l);
        let lv = Lin::sym(v);
        cons.push(lv.sub(l));
        cons.push(l.sub(&lv));
        match fm_bound(cons, v) {
            FmRes::Infeasible => I::new(-1) - I::pow2(200),
            FmRes::Bound(b) => if b < c { b } else { c },
            FmRes::Unknown => c,
        }
    }
    fn extras_touch(&self, l: &Lin) -> bool {
        self.extras.iter().any(|e| e.t.iter().any(|(s, _)| l.t.iter().any(|(r, _)| r == s)))
    }
    /// constraints connected (through extras) to the symbols of l
    fn relevant(&self, l: &Lin) -> Vec<Lin> {
        let mut syms: BTreeSet<Sym> = l.t.iter().map(|x| x.0).collect();
        let mut used = vec![false; self.extras.len()];
        loop {
            let mut ch = false;
            for (i, e) in self.extras.iter().enumerate() {
                if !used[i] && (e.t.iter().any(|(s, _)| syms.contains(s) || syms.iter().any(|x| !self.diff(*x, *s).is_inf() || !self.diff(*s, *x).is_inf()))) {
                    used[i] = true;
                    ch = true;
                    syms.extend(e.t.iter().map(|x| x.0));
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons: Vec<Lin> = self.extras.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| e.clone()).collect();
        syms.insert(ZERO);
        let v: Vec<Sym> = syms.into_iter().collect();
        for &a in &v {
            for &b in &v {
                if a == b {
                    continue;
                }
                let d = self.diff(a, b);
                if d.is_inf() {
                    continue;
                }
                // skip bounds implied through ZERO
                if a != ZERO && b != ZERO && self.diff(a, ZERO) + self.diff(ZERO, b) == d {
                    continue;
                }
                cons.push(lin_diff(a, b, -d));
            }
        }
        cons
    }
    /// l <= 0 in every model?
    pub fn entails_le0(&self, l: &Lin) -> bool {
        if let Some(c) = l.is_const() {
            return c <= I::ZERO;
        }
        let u = self.ub_cheap(l);
        if !u.is_inf() && u <= I::ZERO {
            return true;
        }
        if l.as_diff().is_some() && !self.extras_touch(l) {
            return false;
        }
        if self.extras.is_empty() && l.t.len() <= 1 {
            return false;
        }
        let mut cons = self.relevant(l);
        cons.push(l.neg().addc(I::ONE));
        fm_infeasible(cons)
    }
    /// false if the store becomes infeasible
    pub fn assume_le0(&mut self, l: &Lin) -> bool {
        if let Some(c) = l.is_const() {
            return c <= I::ZERO;
        }
        // normalise by gcd
        let l = &normalise(l);
        if let Some((x, y, c)) = l.as_diff() {
            let v = -c;
            if self.diff(x, y) <= v {
                return true;
            }
            if !Rc::make_mut(&mut self.d).add(x, y, v) {
                return false;
            }
            if !self.extras.is_empty() && self.extras_touch(l) {
                return !fm_infeasible(self.relevant(l));
            }
            return true;
        }
        if self.entails_le0(l) {
            return true;
        }
        Rc::make_mut(&mut self.extras).push(l.clone());
        let r = self.relevant(l);
        if fm_infeasible(r) {
            return false;
        }
        true
    }
    pub fn add_diff(&mut self, x: Sym, y: Sym, c: I) -> bool {
        if self.diff(x, y) <= c {
            return true;
        }
        Rc::make_mut(&mut self.d).add(x, y, c)
    }
    /// project onto the live symbols; false when information may have been lost
    pub fn keep_only(&mut self, live: &dyn Fn(Sym) -> bool) -> bool {
        let mut lossless = true;
        let mut held: BTreeSet<Sym> = BTreeSet::new();
        if !self.extras.is_empty() {
            let dead: BTreeSet<Sym> = self.extras.iter().flat_map(|e| e.t.iter().map(|x| x.0)).filter(|s| *s != ZERO && !live(*s)).collect();
            for v in dead {
                let with = self.extras.iter().filter(|e| e.t.iter().any(|x| x.0 == v)).count();
                let zone = self.d.syms.iter().filter(|&&s| s != v && !(self.diff(v, s).is_inf() && self.diff(s, v).is_inf())).count();
                if with * (with + 2 * zone) > 40 && held.len() < 12 {
                    // elimination would be expensive: the symbol stays as an existential one
                    held.insert(v);
                } else if with > 0 {
                    lossless &= self.eliminate_extra(v);
                }
            }
        }
        let keep: Vec<usize> = (0..self.d.syms.len()).filter(|&i| self.d.syms[i] == ZERO || live(self.d.syms[i]) || held.contains(&self.d.syms[i])).collect();
        if keep.len() == self.d.syms.len() {
            return lossless;
        }
        let syms: Vec<Sym> = keep.iter().map(|&i| self.d.syms[i]).collect();
        let mut m = Vec::with_capacity(keep.len() * keep.len());
        for &i in &keep {
            for &j in &keep {
                m.push(self.d.at(i, j));
            }
        }
        self.d = Rc::new(Dbm { syms, m });
        lossless
    }
    fn eliminate_extra(&mut self, v: Sym) -> bool {
        let (with, without): (Vec<Lin>, Vec<Lin>) = self.extras.iter().cloned().partition(|e| e.t.iter().any(|x| x.0 == v));
        let coef = |e: &Lin| e.t.iter().find(|x| x.0 == v).map(|x| x.1).unwrap();
        let mut rows = with.clone();
        for &s in self.d.syms.iter() {
            if s == v {
                continue;
            }
            let d = self.diff(v, s);
            if !d.is_inf() {
                rows.push(lin_diff(v, s, -d));
            }
            let d = self.diff(s, v);
            if !d.is_inf() {
                rows.push(lin_diff(s, v, -d));
            }
        }
        self.extras = Rc::new(without);
        let mut produced = vec![];
        for (i, a) in with.iter().enumerate() {
            for (j, b) in rows.iter().enumerate() {
                if j <= i && j < with.len() {
                    continue;
                }
                let (ca, cb) = (coef(a), coef(b));
                if ca.is_neg() == cb.is_neg() {
                    continue;
                }
                let r = a.scale(cb.abs()).add(&b.scale(ca.abs()));
                if r.t.is_empty() {
                    continue;
                }
                produced.push(normalise(&r));
            }
        }
        let mut lossless = with.iter().all(|e| coef(e).abs() == I::ONE);
        for r in produced {
            if let Some((x, y, c)) = r.as_diff() {
                self.add_diff(x, y, -c);
            } else if !self.entails_le0(&r) {
                if self.extras.len() < 24 {
                    Rc::make_mut(&mut self.extras).push(r);
                } else {
                    lossless = false;
                }
            }
        }
        lossless
    }
    /// self is at least as precise as o (every model of self is one of o)
    pub fn le(&self, o: &Store) -> bool {
        for (i, &a) in o.d.syms.iter().enumerate() {
            for (j, &b) in o.d.syms.iter().enumerate() {
                let v = o.d.at(i, j);
                if i != j && !v.is_inf() && self.diff(a, b) > v {
                    return false;
                }
            }
        }
        o.extras.iter().all(|e| self.extras.contains(e) || self.entails_le0(e))
    }
    pub fn hull(&self, o: &Store) -> Store {
        let mut syms: Vec<Sym> = self.d.syms.iter().cloned().filter(|s| o.d.idx(*s).is_some()).collect();
        syms.sort();
        let n = syms.len();
        let mut m = Vec::with_capacity(n * n);
        for &a in &syms {
            for &b in &syms {
                let (x, y) = (self.diff(a, b), o.diff(a, b));
                m.push(if x > y { x } else { y });
            }
        }
        let extras = self.extras.iter().filter(|e| o.extras.contains(e) || o.entails_le0(e)).cloned().chain(o.extras.iter().filter(|e| !self.extras.contains(e) && self.entails_le0(e)).cloned()).collect();
        Store { d: Rc::new(Dbm { syms, m }), extras: Rc::new(extras) }
    }
    /// hull if it adds no model
    pub fn exact_join(&self, o: &Store) -> Option<Store> {
        if self.le(o) {
            return Some(o.clone());
        }
        if o.le(self) {
            return Some(self.clone());
        }
        let h = self.hull(o);
        if !self.extras.is_empty() || !o.extras.is_empty() {
            // only when the extras coincide
            if self.extras.len() != o.extras.len() || !self.extras.iter().all(|e| o.extras.contains(e)) {
                return None;
            }
        }
        // h \ self must lie in o
        let mut budget = 400;
        for (i, &a) in self.d.syms.iter().enumerate() {
            for (j, &b) in self.d.syms.iter().enumerate() {
                if i == j {
                    continue;
                }
                let v = self.d.at(i, j);
                if v.is_inf() || h.diff(a, b) <= v {
                    continue;
                }
                budget -= 1;
                if budget == 0 {
                    return None;
                }
                let mut g = h.clone();
                if g.add_diff(b, a, -v - I::ONE) && !g.le(o) {
                    return None;
                }
            }
        }
        Some(h)
    }
    /// classic zone widening with the thresholds -1, 0, 1
    pub fn widen(&self, newer: &Store) -> Store {
        let n = self.d.syms.len();
        let mut m = Vec::with_capacity(n * n);
        for &a in &self.d.syms {
            for &b in &self.d.syms {
                let (x, y) = (self.diff(a, b), newer.diff(a, b));
                if y <= x {
                    m.push(x);
                } else {
                    let mut v = INF;
                    for t in [-1i128, 0, 1] {
                        if y <= I::new(t) {
                            v = I::new(t);
                            break;
                        }
                    }
                    if v.is_inf() {
                        for p in [8u32, 31, 32, 63, 64, 127, 128] {
                            for k in [-2i128, -1, 0] {
                                let t = I::pow2(p) + I::new(k);
                                if y <= t && v.is_inf() {
                                    v = t;
                                }
                            }
                        }
                    }
                    m.push(v);
                }
            }
        }
        let extras: Vec<Lin> = self.extras.iter().filter(|e| newer.extras.contains(e) || newer.entails_le0(e)).cloned().collect();
        // not re-closed: closing would defeat widening; consumers re-close through `reclosed`
        Store { d: Rc::new(Dbm { syms: self.d.syms.clone(), m }), extras: Rc::new(extras) }
    }
    pub fn reclosed(&self) -> Store {
        let mut s = Store::new();
        for (i, &a) in self.d.syms.iter().enumerate() {
            for (j, &b) in self.d.syms.iter().enumerate() {
                let v = self.d.at(i, j);
                if i != j && !v.is_inf() {
                    s.add_diff(a, b, v);
                }
            }
        }
        s.extras = self.extras.clone();
        s
    }
    /// Build from a list of difference constraints (assumed feasible).
    pub fn constraints(&self) -> Vec<(Sym, Sym, I)> {
        let mut v = vec![];
        for (i, &a) in self.d.syms.iter().enumerate() {
            for (j, &b) in self.d.syms.iter().enumerate() {
                let c = self.d.at(i, j);
                if i != j && !c.is_inf() {
                    v.push((a, b, c));
                }
            }
        }
        v
    }
    /// A matrix built directly, indices 0 = ZERO.
    pub fn from_matrix(syms: Vec<Sym>, m: Vec<I>, extras: Vec<Lin>) -> Store {
        // symbols must be sorted
        let n = syms.len();
        let mut ord: Vec<usize> = (0..n).collect();
        ord.sort_by_key(|&i| syms[i]);
        let mut mm = Vec::with_capacity(n * n);
        for &i in &ord {
            for &j in &ord {
                mm.push(m[i * n + j]);
            }
        }
        Store { d: Rc::new(Dbm { syms: ord.iter().map(|&i| syms[i]).collect(), m: mm }), extras: Rc::new(extras) }
    }
    /// a concrete model, for reports only
    pub fn model(&self, want: &[Sym]) -> HashMap<Sym, I> {
        let mut s = self.clone();
        let mut out = HashMap::new();
        for &w in want {
            // keep close to zero when possible
            let mut cands = vec![I::ZERO];
            let hi = s.ub(&Lin::sym(w));
            let lo = s.ub(&Lin::sym(w).neg());
            if !hi.is_inf() {
                cands.push(hi);
                cands.push(hi - I::ONE);
            }
            if !lo.is_inf() {
                cands.push(-lo);
                cands.push(-lo + I::ONE);
            }
            for k in 1..200 {
                cands.push(I::new(k));
                cands.push(I::new(-k));
            }
            for c in cands {
                let mut t = s.clone();
                let l = Lin::sym(w).addc(-c);
                if t.assume_le0(&l) && t.assume_le0(&l.neg()) {
                    s = t;
                    out.insert(w, c);
                    break;
                }
            }
        }
        out
    }
    pub fn ptr_eq(&self, o: &Store) -> bool {
        Rc::ptr_eq(&self.d, &o.d) && Rc::ptr_eq(&self.extras, &o.extras)
    }
}

pub fn lin_diff(a: Sym, b: Sym, c: I) -> Lin {
    let mut l = Lin::cst(c);
    if a != ZERO {
        l = l.add(&Lin::sym(a));
    }
    if b != ZERO {
        l = l.sub(&Lin::sym(b));
    }
    l
}

fn normalise(l: &Lin) -> Lin {
    if l.t.is_empty() || l.t.iter().any(|x| x.1 == I::ONE || x.1 == I::new(-1)) {
        return l.clone();
    }
    let mut g = I::ZERO;
    for (_, k) in &l.t {
        g = g.gcd(*k);
    }
    if g <= I::ONE {
        return l.clone();
    }
    Lin {
        t: l.t.iter().map(|&(s, k)| (s, if k.is_neg() { -((-k).div_floor(g)) } else { k.div_floor(g) })).collect(),
        // ceil(c/g)
        c: -((-l.c).div_floor(g)),
    }
}

enum FmRes {
    Infeasible,
    Bound(I),
    Unknown,
}
fn fm_run(mut cons: Vec<Lin>, keep: Option<Sym>) -> Option<Vec<Lin>> {
    // returns remaining constraints (over keep only), None when gave up
    loop {
        // dedupe: same terms -> keep the strongest constant
        let mut best: HashMap<Vec<(Sym, I)>, I> = HashMap::new();
        for c in &cons {
            let c = normalise(c);
            if c.t.is_empty() {
                if c.c > I::ZERO {
                    return Some(vec![Lin::cst(I::ONE)]);
                }
                continue;
            }
            let e = best.entry(c.t.clone()).or_insert(c.c);
            if c.c > *e {
                *e = c.c;
            }
        }
        cons = best.into_iter().map(|(t, c)| Lin { t, c }).collect();
        cons.sort_by(|a, b| a.t.len().cmp(&b.t.len()).then_with(|| a.t.iter().map(|x| x.0).cmp(b.t.iter().map(|x| x.0))));
        let mut occ: HashMap<Sym, (usize, usize)> = HashMap::new();
        for c in &cons {
            for &(s, k) in &c.t {
                let e = occ.entry(s).or_insert((0, 0));
                if k.is_neg() { e.1 += 1 } else { e.0 += 1 }
            }
        }
        let var = occ.iter().filter(|(s, _)| Some(**s) != keep).min_by_key(|(s, (p, n))| ((p * n) as i64 - (p + n) as i64, **s)).map(|(s, _)| *s);
        let v = match var {
            None => return Some(cons),
            Some(v) => v,
        };
        let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
        for c in cons {
            match c.t.iter().find(|x| x.0 == v).map(|x| x.1) {
                None => rest.push(c),
                Some(k) if k.is_neg() => neg.push((-k, c)),
                Some(k) => pos.push((k, c)),
            }
        }
        if pos.len() * neg.len() + rest.len() > 1500 {
            return None;
        }
        for (kp, p) in &pos {
            for (kn, n) in &neg {
                let r = p.scale(*kn).add(&n.scale(*kp));
                if r.c.is_inf() || r.t.iter().any(|x| x.1.is_inf()) {
                    return None;
                }
                rest.push(r);
            }
        }
        cons = rest;
    }
}
pub fn fm_infeasible(cons: Vec<Lin>) -> bool {
    let cons: Vec<Lin> = cons.iter().map(normalise).collect();
    match crate::lp::feasible(&cons) {
        crate::lp::Lp::Infeasible => return true,
        crate::lp::Lp::Integral => return false,
        crate::lp::Lp::Unknown => {}
    }
    match fm_run(cons, None) {
        Some(c) => c.iter().any(|l| l.t.is_empty() && l.c > I::ZERO),
        None => false,
    }
}
fn fm_bound(cons: Vec<Lin>, v: Sym) -> FmRes {
    match fm_run(cons, Some(v)) {
        None => FmRes::Unknown,
        Some(c) => {
            let mut b = INF;
            for l in c {
                if l.t.is_empty() {
                    if l.c > I::ZERO {
                        return FmRes::Infeasible;
                    }
                } else if !l.t[0].1.is_neg() {
                    // k v + c <= 0
                    let u = (-l.c).div_floor(l.t[0].1);
                    if u < b {
                        b = u;
                    }
                }
            }
            FmRes::Bound(b)
        }
    }
}
