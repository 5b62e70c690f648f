use crate::types::*;
use crate::{each, pairs};

macro_rules! c01 {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c01__, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let want = mem(&a, t) && mem(&b, t);
            let r = Rangetools::intersection(a, b);
            check(mem(&r, t) == want, "a point is in the intersection iff it is in both operands");
        }
    };
}
pairs!(c01);

macro_rules! c02 {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c02__, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let want = mem(&a, t) || mem(&b, t);
            let r = Rangetools::union(a, b);
            check(mem(&r, t) == want, "a point is in the union iff it is in at least one operand");
        }
    };
}
pairs!(c02);

macro_rules! c03 {
    ($a:ident, $o:ty) => {
        pub fn ${concat(c03__, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let want = !mem(&a, t);
            let r: $o = Rangetools::complement(a);
            check(mem(&r, t) == want, "a point is in the complement iff it is not in the operand");
        }
        pub fn ${concat(c06__not_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let r: $o = Rangetools::complement(a);
            check(r.good(t), "the complement is a well-formed set");
        }
        pub fn ${concat(c19__notnot_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let want = mem(&a, t);
            let r: $o = Rangetools::complement(a);
            let q = compl(r);
            check(mem(&q, t) == want, "the complement of the complement has the points of the operand");
        }
    };
}
/// complement with the element type pinned
pub trait Compl {
    type O;
    fn compl(self) -> Self::O;
}
macro_rules! compl { ($($a:ident => $o:ident),*) => { $(
    impl Compl for $a { type O = $o; fn compl(self) -> $o { Rangetools::complement(self) } }
    c03!($a, $o);
)* } }
pub fn compl<A: Compl>(a: A) -> A::O {
    a.compl()
}
compl!(Rg => Ns, Ri => Ns, Rf => Ur, Rt => Lr, Rti => Lr, Ru => Er, Er => Nr, Br => Ns, Lr => Ur, Ur => Lr, Nr => Er, Bs => Ns, Ls => Us, Us => Ls, Ns => Bs);

// ---- C04 ----
macro_rules! c04_contains { ($($a:ident),*) => { $(
    pub fn ${concat(c04__contains_, $a)}() {
        let t: Elem = probe();
        let a: $a = any();
        let want = mem(&a, t);
        let got = a.contains(t);
        check(got == want, "contains answers whether the bounds admit the point");
        check(mem(&a, t) == want, "contains leaves the range unchanged");
    }
)* } }
c04_contains!(Er, Br, Lr, Ur, Nr, Bs, Ls, Us, Ns);
macro_rules! c04_views {
    ($a:ident) => {
        pub fn ${concat(c04__inner_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let want = mem(&a, t);
            let r = Rangetools::to_inner(a);
            check(mem(&r, t) == want, "to_inner keeps the points");
        }
        pub fn ${concat(c04__set_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let want = mem(&a, t);
            let r = Rangetools::to_set(a);
            check(mem(&r, t) == want, "to_set keeps the points");
        }
        pub fn ${concat(c06__set_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let r = Rangetools::to_set(a);
            check(r.good(t), "to_set gives a well-formed set");
        }
        pub fn ${concat(c05__empty_, $a)}() {
            let _: Elem = probe();
            let a: $a = any();
            let want = nonempty(&a);
            check(Rangetools::is_empty(&a) != want, "is_empty holds exactly when the bounds leave no room");
        }
    };
}
each!(c04_views);
macro_rules! c04_from { ($($a:ident => $b:ident),*) => { $(
    pub fn ${concat(c04__from_, $a, _, $b)}() {
        let t: Elem = probe();
        let a: $a = any();
        let want = mem(&a, t);
        let r: $b = From::from(a);
        check(mem(&r, t) == want, "the conversion keeps the points");
    }
    pub fn ${concat(c06__from_, $a, _, $b)}() {
        let t: Elem = probe();
        let a: $a = any();
        let r: $b = From::from(a);
        check(r.good(t), "the conversion gives a well-formed value");
    }
)* } }
c04_from!(Rg => Br, Ri => Br, Rf => Lr, Rt => Ur, Rti => Ur, Ru => Nr, Br => Bs, Lr => Ls, Ur => Us, Nr => Ns);
pub fn c04__from_Nr_Ru() {
    let a: Nr = any();
    let t: Elem = probe();
    let r: Ru = From::from(a);
    check(mem(&r, t), "the conversion keeps the points");
}
fn above(b: LowerBound<Elem>, t: Elem) -> bool {
    match b.to_bound() {
        Bound::Included(x) => x.0 <= t.0,
        Bound::Excluded(x) => x.0 < t.0,
    }
}
fn below(b: UpperBound<Elem>, t: Elem) -> bool {
    match b.to_bound() {
        Bound::Included(x) => t.0 <= x.0,
        Bound::Excluded(x) => t.0 < x.0,
    }
}
pub fn c04__new_Br() {
    let t: Elem = probe();
    let lo: LowerBound<Elem> = any();
    let hi: UpperBound<Elem> = any();
    let r: Br = BoundedRange::new(lo, hi);
    check(mem(&r, t) == (above(lo, t) && below(hi, t)), "a constructed range has the given bounds");
}
pub fn c04__new_Lr() {
    let t: Elem = probe();
    let lo: LowerBound<Elem> = any();
    let r: Lr = LowerBoundedRange::new(lo);
    check(mem(&r, t) == above(lo, t), "a constructed range has the given bound");
}
pub fn c04__new_Ur() {
    let t: Elem = probe();
    let hi: UpperBound<Elem> = any();
    let r: Ur = UpperBoundedRange::new(hi);
    check(mem(&r, t) == below(hi, t), "a constructed range has the given bound");
}
pub fn c04__new_other() {
    let t: Elem = probe();
    let e: Er = EmptyRange::new();
    check(!mem(&e, t), "an empty range contains nothing");
    let s: Bs = BoundedSet::empty();
    check(!mem(&s, t), "the empty set contains nothing");
    let n = UnboundedRange::new();
    check(mem(&n, t), "the unbounded range contains everything");
}
pub fn c04__default() {
    let t: Elem = probe();
    let e: Er = Default::default();
    check(!mem(&e, t), "an empty range contains nothing");
    let n: Nr = Default::default();
    check(mem(&n, t), "the unbounded range contains everything");
}
pub fn c04__new_Ns() {
    let t: Elem = probe();
    let u: Ur = any();
    let l: Lr = any();
    let want = mem(&u, t) || mem(&l, t);
    let r: Ns = UnboundedSet::new(u, l);
    check(mem(&r, t) == want, "a constructed set has the points of both ends");
}
pub fn c06__new_Ns() {
    let t: Elem = probe();
    let u: Ur = any();
    let l: Lr = any();
    let r: Ns = UnboundedSet::new(u, l);
    check(r.good(t), "a constructed set is well formed");
}
pub fn c06__new_Bs() {
    let t: Elem = probe();
    let r: Bs = BoundedSet::empty();
    check(r.good(t), "the empty set is well formed");
}

// ---- C05 ----
macro_rules! c05 {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c05__, $a, _, $b)}() {
            remember();
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let both = mem(&a, t) && mem(&b, t);
            let m = meet(&a, &b);
            let r = Rangetools::intersection(a.clone(), b.clone());
            let room = nonempty(&r);
            let d = Rangetools::disjoint(a.clone(), b.clone());
            check(!(d && both), "disjoint operands have no common point");
            check(d != room, "disjoint iff the intersection leaves no room for a value");
            check(m == 2 || d == (m == 0), "disjoint iff no admissible value lies in both");
            let i = Rangetools::intersects(a, b);
            check(i != d, "intersects is the opposite of disjoint");
        }
    };
}
pairs!(c05);

// ---- C06 ----
macro_rules! c06 {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c06__or_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let r = Rangetools::union(a, b);
            check(r.good(t), "the union is a well-formed set");
        }
        pub fn ${concat(c06__and_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let r = Rangetools::intersection(a, b);
            check(r.good(t), "the intersection is a well-formed set");
        }
    };
}
pairs!(c06);
