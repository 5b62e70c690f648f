//! C07: the order on bounds and the bound combinators.
use crate::types::*;
use std::cmp::Ordering::*;

type Lb = LowerBound<Elem>;
type Ub = UpperBound<Elem>;
/// (value, kind), read off without the library's help
fn parts(b: Bound<Elem>) -> (i128, bool) {
    match b {
        Bound::Included(x) => (x.0, true),
        Bound::Excluded(x) => (x.0, false),
    }
}
fn by_value(x: i128, y: i128) -> Ordering {
    if x < y {
        Less
    } else if x > y {
        Greater
    } else {
        Equal
    }
}
/// a lower bound admits more the smaller it is, and included admits more than excluded
fn lower_order(a: Lb, b: Lb) -> Ordering {
    let ((x, i), (y, j)) = (parts(a.to_bound()), parts(b.to_bound()));
    match by_value(x, y) {
        Equal if i == j => Equal,
        Equal => {
            if i {
                Less
            } else {
                Greater
            }
        }
        o => o,
    }
}
fn upper_order(a: Ub, b: Ub) -> Ordering {
    let ((x, i), (y, j)) = (parts(a.to_bound()), parts(b.to_bound()));
    match by_value(x, y) {
        Equal if i == j => Equal,
        Equal => {
            if i {
                Greater
            } else {
                Less
            }
        }
        o => o,
    }
}
fn admits_l(a: Lb, t: Elem) -> bool {
    match parts(a.to_bound()) {
        (x, true) => x <= t.0,
        (x, false) => x < t.0,
    }
}
fn admits_u(a: Ub, t: Elem) -> bool {
    match parts(a.to_bound()) {
        (x, true) => t.0 <= x,
        (x, false) => t.0 < x,
    }
}
macro_rules! order {
    ($name:ident, $t:ty, $spec:ident, $admits:ident, $rev:expr) => {
        pub fn ${concat(c07__cmp_, $name)}() {
            let a: $t = any();
            let b: $t = any();
            let want = $spec(a, b);
            check(Ord::cmp(&a, &b) == want, "cmp sorts bounds by the points they admit");
            check(PartialOrd::partial_cmp(&a, &b) == Some(want), "partial_cmp agrees with cmp");
        }
        pub fn ${concat(c07__ops_, $name)}() {
            let a: $t = any();
            let b: $t = any();
            let want = $spec(a, b);
            check((a < b) == (want == Less), "< agrees with cmp");
            check((a <= b) == (want != Greater), "<= agrees with cmp");
            check((a > b) == (want == Greater), "> agrees with cmp");
            check((a >= b) == (want != Less), ">= agrees with cmp");
            check((a == b) == (want == Equal), "equality agrees with cmp");
            check((a != b) == (want != Equal), "inequality agrees with cmp");
        }
        pub fn ${concat(c07__sel_, $name)}() {
            let a: $t = any();
            let b: $t = any();
            let want = $spec(a, b);
            let hi = Ord::max(a, b);
            let lo = Ord::min(a, b);
            check(parts(hi.to_bound()) == parts(if want == Greater { a } else { b }.to_bound()), "max selects the greater bound");
            check(parts(lo.to_bound()) == parts(if want == Greater { b } else { a }.to_bound()), "min selects the lesser bound");
        }
        pub fn ${concat(c07__admit_, $name)}() {
            let t: Elem = probe();
            let a: $t = any();
            let b: $t = any();
            let (at, bt) = ($admits(a, t), $admits(b, t));
            let (big, small) = if $rev { (at, bt) } else { (bt, at) };
            // a <= b: for lower bounds a admits all that b does, for upper bounds the reverse
            if Ord::cmp(&a, &b) != Greater {
                check(!small || big, "a bound that sorts first admits at least (lower) or at most (upper) what the other does");
            }
            if Ord::cmp(&a, &b) == Equal {
                check(small == big, "equal bounds admit the same points");
            }
        }
        pub fn ${concat(c07__total_, $name)}() {
            let a: $t = any();
            let b: $t = any();
            let c: $t = any();
            check(Ord::cmp(&a, &b) == Ord::cmp(&b, &a).reverse(), "antisymmetric");
            if Ord::cmp(&a, &b) != Greater && Ord::cmp(&b, &c) != Greater {
                check(Ord::cmp(&a, &c) != Greater, "transitive");
            }
            check(Ord::cmp(&a, &a) == Equal, "reflexive");
        }
        pub fn ${concat(c07__make_, $name)}() {
            let x: Elem = any();
            let b: Bound<Elem> = any();
            check(parts(<$t>::included(x).to_bound()) == (x.0, true), "included keeps the value");
            check(parts(<$t>::excluded(x).to_bound()) == (x.0, false), "excluded keeps the value");
            let c: $t = From::from(b);
            check(parts(c.to_bound()) == parts(b), "wrapping a bound keeps it");
        }
        pub fn ${concat(c07__map_, $name)}() {
            let a: $t = any();
            let y: Elem = any();
            let (x, i) = parts(a.to_bound());
            let mut seen = None;
            let m = a.map(|v| {
                seen = Some(v);
                y
            });
            check(matches!(seen, Some(v) if v.0 == x), "map applies the function to the value");
            check(parts(m.to_bound()) == (y.0, i), "map gives the function's value and keeps the kind");
        }
    };
}
order!(Lower, Lb, lower_order, admits_l, true);
order!(Upper, Ub, upper_order, admits_u, false);

pub fn c07__map_Bound() {
    let a: Bound<Elem> = any();
    let y: Elem = any();
    let (x, i) = parts(a);
    let mut seen = None;
    let m = a.map(|v| {
        seen = Some(v);
        y
    });
    check(matches!(seen, Some(v) if v.0 == x), "map applies the function to the value");
    check(parts(m) == (y.0, i), "map gives the function's value and keeps the kind");
}
pub fn c07__flipped() {
    let a: Bound<Elem> = any();
    let (x, i) = parts(a);
    let f = a.flipped();
    check(parts(f) == (x, !i), "flipping keeps the value and changes the kind");
    check(parts(f.flipped()) == (x, i), "flipping twice is the identity");
}
pub fn c07__eq_Bound() {
    let a: Bound<Elem> = any();
    let b: Bound<Elem> = any();
    check((a == b) == (parts(a) == parts(b)), "bounds are equal iff value and kind are");
}
