//! C15: indexing with the crate's ranges, for containers of any length.
use crate::types::*;
use std::ffi::{CStr, CString, OsString};
use std::ops::{Index, IndexMut};

pub struct Item(u8);

/// the positions [a, b) the equal standard range names, as exact integers
pub trait Positions {
    fn positions(&self, len: Z) -> (Z, Z);
}
fn lower(b: &LowerBound<usize>) -> Z {
    match b.to_bound() {
        Bound::Included(t) => z(t),
        Bound::Excluded(t) => zadd(z(t), z(1usize)),
    }
}
fn upper(b: &UpperBound<usize>) -> Z {
    match b.to_bound() {
        Bound::Included(t) => zadd(z(t), z(1usize)),
        Bound::Excluded(t) => z(t),
    }
}
impl Positions for BoundedRange<usize> {
    fn positions(&self, _: Z) -> (Z, Z) {
        (lower(&self.start), upper(&self.end))
    }
}
impl Positions for LowerBoundedRange<usize> {
    fn positions(&self, len: Z) -> (Z, Z) {
        (lower(&self.start), len)
    }
}
impl Positions for UpperBoundedRange<usize> {
    fn positions(&self, _: Z) -> (Z, Z) {
        (z(0usize), upper(&self.end))
    }
}
impl Positions for UnboundedRange {
    fn positions(&self, len: Z) -> (Z, Z) {
        (z(0usize), len)
    }
}
impl Positions for EmptyRange<usize> {
    fn positions(&self, _: Z) -> (Z, Z) {
        (z(0usize), z(0usize))
    }
}
fn judge(w: Option<Option<(usize, usize)>>, a: Z, b: Z, len: Z) {
    let fine = zle(a, b) && zle(b, len);
    match w {
        Some(Some((x, y))) => {
            check(fine, "indexing succeeds only when the equal standard range would");
            check(zeq(z(x), a) && zeq(z(y), b), "indexing selects exactly the positions of the range");
        }
        Some(None) => check(false, "indexing selects a part of the container"),
        None => check(!fine, "indexing panics only when the equal standard range would"),
    }
}
macro_rules! c15 {
    ($n:ident, $c:ty, $r:ty) => {
        pub fn ${concat(c15__at_, $n)}() {
            let c: &mut $c = any_buf();
            let r: $r = any();
            let len = z(buf_len(&*c));
            let (a, b) = r.positions(len);
            let w = match catch(|| Index::index(&*c, r)) {
                Some(x) => Some(win(&*c, x)),
                None => None,
            };
            judge(w, a, b, len);
        }
    };
    ($n:ident, $c:ty, $r:ty, mut) => {
        c15!($n, $c, $r);
        pub fn ${concat(c15__mut_, $n)}() {
            let c: &mut $c = any_buf();
            let r: $r = any();
            let len = z(buf_len(&*c));
            let (a, b) = r.positions(len);
            let w = match catch(|| {
                let x = IndexMut::index_mut(&mut *c, r);
                let x: *mut _ = x;
                x
            }) {
                Some(x) => Some(win(&*c, unsafe { &*x })),
                None => None,
            };
            judge(w, a, b, len);
        }
    };
}
c15!(Br_String, String, BoundedRange<usize>, mut);
c15!(Br_str, str, BoundedRange<usize>, mut);
c15!(Br_slice, [Item], BoundedRange<usize>, mut);
c15!(Br_Vec, Vec<Item>, BoundedRange<usize>, mut);
c15!(Lr_String, String, LowerBoundedRange<usize>, mut);
c15!(Lr_str, str, LowerBoundedRange<usize>, mut);
c15!(Lr_CStr, CStr, LowerBoundedRange<usize>);
c15!(Lr_slice, [Item], LowerBoundedRange<usize>, mut);
c15!(Lr_Vec, Vec<Item>, LowerBoundedRange<usize>, mut);
c15!(Ur_String, String, UpperBoundedRange<usize>, mut);
c15!(Ur_str, str, UpperBoundedRange<usize>, mut);
c15!(Ur_slice, [Item], UpperBoundedRange<usize>, mut);
c15!(Ur_Vec, Vec<Item>, UpperBoundedRange<usize>, mut);
c15!(Nr_String, String, UnboundedRange, mut);
c15!(Nr_str, str, UnboundedRange, mut);
c15!(Nr_CString, CString, UnboundedRange);
c15!(Nr_OsString, OsString, UnboundedRange, mut);
c15!(Nr_slice, [Item], UnboundedRange, mut);
c15!(Nr_Vec, Vec<Item>, UnboundedRange, mut);
c15!(Er_String, String, EmptyRange<usize>);
c15!(Er_str, str, EmptyRange<usize>);
c15!(Er_slice, [Item], EmptyRange<usize>);
c15!(Er_Vec, Vec<Item>, EmptyRange<usize>);
