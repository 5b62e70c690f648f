//! C18: equality, hashing, cloning.
use crate::types::*;
use std::hash::{Hash, Hasher};

/// a hasher that only records what it is fed
pub struct Rec {
    n: usize,
    v: [i128; 24],
}
impl Rec {
    fn put(&mut self, x: i128) {
        if self.n < 24 {
            self.v[self.n] = x;
        }
        self.n += 1;
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(b.len() as i128);
    }
    fn write_u8(&mut self, x: u8) {
        self.put(x as i128);
    }
    fn write_u16(&mut self, x: u16) {
        self.put(x as i128);
    }
    fn write_u32(&mut self, x: u32) {
        self.put(x as i128);
    }
    fn write_u64(&mut self, x: u64) {
        self.put(x as i128);
    }
    fn write_usize(&mut self, x: usize) {
        self.put(x as i128);
    }
    fn write_i8(&mut self, x: i8) {
        self.put(x as i128);
    }
    fn write_i16(&mut self, x: i16) {
        self.put(x as i128);
    }
    fn write_i32(&mut self, x: i32) {
        self.put(x as i128);
    }
    fn write_i64(&mut self, x: i64) {
        self.put(x as i128);
    }
    fn write_isize(&mut self, x: isize) {
        self.put(x as i128);
    }
    fn write_i128(&mut self, x: i128) {
        self.put(x);
    }
}
fn rec<T: Hash>(x: &T) -> Rec {
    let mut h = Rec { n: 0, v: [0; 24] };
    x.hash(&mut h);
    h
}
fn same_rec(a: &Rec, b: &Rec) -> bool {
    if a.n != b.n || a.n > 24 {
        return false;
    }
    let mut i = 0;
    while i < a.n {
        if a.v[i] != b.v[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn same(a: &Bound<Elem>, b: &Bound<Elem>) -> bool {
    match (a, b) {
        (Bound::Included(x), Bound::Included(y)) | (Bound::Excluded(x), Bound::Excluded(y)) => x.0 == y.0,
        _ => false,
    }
}
/// the values are built from the same bounds and pieces
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
impl Same for Bound<Elem> {
    fn same(&self, o: &Self) -> bool {
        same(self, o)
    }
}
impl Same for LowerBound<Elem> {
    fn same(&self, o: &Self) -> bool {
        same(&self.to_bound(), &o.to_bound())
    }
}
impl Same for UpperBound<Elem> {
    fn same(&self, o: &Self) -> bool {
        same(&self.to_bound(), &o.to_bound())
    }
}
impl Same for Br {
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start) && self.end.same(&o.end)
    }
}
impl Same for Lr {
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start)
    }
}
impl Same for Ur {
    fn same(&self, o: &Self) -> bool {
        self.end.same(&o.end)
    }
}
impl Same for Er {
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Same for Nr {
    fn same(&self, _: &Self) -> bool {
        true
    }
}
type LB = LowerBound<Elem>;
type UB = UpperBound<Elem>;
type BB = Bound<Elem>;
macro_rules! c18 {
    ($t:ident) => {
        pub fn ${concat(c18__eq_, $t)}() {
            let a: $t = any();
            let b: $t = any();
            let same = a.same(&b);
            check((a == b) == same, "equal exactly when every bound has the same kind and value");
            check((a != b) == !same, "unequal exactly when not equal");
            if same {
                check(same_rec(&rec(&a), &rec(&b)), "equal values feed a hasher the same");
            }
        }
        pub fn ${concat(c18__clone_, $t)}() {
            let a: $t = any();
            let b = Clone::clone(&a);
            check(a.same(&b) && a == b, "a clone is equal");
        }
    };
}
c18!(BB);
c18!(LB);
c18!(UB);
c18!(Br);
c18!(Lr);
c18!(Ur);
c18!(Er);
c18!(Nr);

// ---- sets, from explicit pieces
fn after(a: UB, b: LB) -> bool {
    match (a.to_bound(), b.to_bound()) {
        (Bound::Included(x), Bound::Included(y)) => x.0 < y.0,
        (Bound::Included(x), Bound::Excluded(y)) | (Bound::Excluded(x), Bound::Included(y)) | (Bound::Excluded(x), Bound::Excluded(y)) => x.0 < y.0,
    }
}
fn solid(r: &Br) -> bool {
    match (r.start.to_bound(), r.end.to_bound()) {
        (Bound::Included(x), Bound::Included(y)) => x.0 <= y.0,
        (Bound::Included(x), Bound::Excluded(y)) | (Bound::Excluded(x), Bound::Included(y)) | (Bound::Excluded(x), Bound::Excluded(y)) => x.0 < y.0,
    }
}
pub fn piece() -> Br {
    let a: Br = any();
    assume(solid(&a));
    a
}
pub fn piece_after(p: &Br) -> Br {
    let b: Br = piece();
    assume(after(p.end, b.start));
    b
}
pub fn tail_after(p: &Br) -> Lr {
    let b: Lr = any();
    assume(after(p.end, b.start));
    b
}
pub fn head() -> Ur {
    any()
}
pub fn piece_from(p: UB) -> Br {
    let b: Br = piece();
    assume(after(p, b.start));
    b
}
pub fn tail_from(p: UB) -> Lr {
    let b: Lr = any();
    assume(after(p, b.start));
    b
}
macro_rules! set_eq {
    ($n:ident, $t:ident, |$a:ident, $b:ident| $same:expr, $mk:block => $parts:ty, $build:expr) => {
        fn ${concat($n, _mk)}() -> $parts $mk
        pub fn ${concat(c18__eq_, $n)}() {
            let $a: $parts = ${concat($n, _mk)}();
            let $b: $parts = ${concat($n, _mk)}();
            let same: bool = $same;
            let f = $build;
            let x: $t = f($a);
            let y: $t = f($b);
            check((x == y) == same, "sets are equal exactly when all pieces coincide");
            if same {
                check(same_rec(&rec(&x), &rec(&y)), "equal sets feed a hasher the same");
            }
        }
        pub fn ${concat(c18__clone_, $n)}() {
            let t: Elem = probe();
            let a: $parts = ${concat($n, _mk)}();
            let f = $build;
            let x: $t = f(a);
            let y = Clone::clone(&x);
            check(x == y, "a clone is equal");
            check(mem(&y, t) == mem(&x, t), "a clone has the same points");
        }
    };
}
set_eq!(Bs1, Bs, |a, b| a.same(&b), { piece() } => Br, |p: Br| Rangetools::to_set(p));
set_eq!(Bs2, Bs, |a, b| a.0.same(&b.0) && a.1.same(&b.1), { let p = piece(); let q = piece_after(&p); (p, q) } => (Br, Br), |p: (Br, Br)| Rangetools::union(p.0, p.1));
set_eq!(Ls0, Ls, |a, b| a.same(&b), { any() } => Lr, |p: Lr| Rangetools::to_set(p));
set_eq!(Ls1, Ls, |a, b| a.0.same(&b.0) && a.1.same(&b.1), { let p = piece(); let q = tail_after(&p); (p, q) } => (Br, Lr), |p: (Br, Lr)| Rangetools::union(p.0, p.1));
set_eq!(Us0, Us, |a, b| a.same(&b), { any() } => Ur, |p: Ur| Rangetools::to_set(p));
set_eq!(Us1, Us, |a, b| a.0.same(&b.0) && a.1.same(&b.1), { let p = head(); let q = piece_from(p.end); (p, q) } => (Ur, Br), |p: (Ur, Br)| Rangetools::union(p.0, p.1));
set_eq!(Ns0, Ns, |a, b| a.0.same(&b.0) && a.1.same(&b.1), { let p = head(); let q = tail_from(p.end); (p, q) } => (Ur, Lr), |p: (Ur, Lr)| Rangetools::union(p.0, p.1));
/// sets of different sizes differ
pub fn c18__eq_Bs_len() {
    let p = piece();
    let q = piece_after(&p);
    let x: Bs = Rangetools::to_set(p);
    let y: Bs = Rangetools::union(p, q);
    let e: Bs = BoundedSet::empty();
    check(x != y && !(x == y), "a set differs from one with a further piece");
    check(e != x && !(e == x), "the empty set differs from any other");
    check(e == BoundedSet::empty(), "the empty set equals itself");
}
