pub use crate::sv::*;
pub use rangetools::{Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools, Step, UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet};
pub use std::cmp::Ordering;

/// A totally ordered element type about which nothing else is known.
#[derive(Clone, Copy, Debug, Default)]
pub struct Elem(pub i128);
impl PartialEq for Elem {
    fn eq(&self, o: &Elem) -> bool {
        self.0 == o.0
    }
}
impl Eq for Elem {}
impl PartialOrd for Elem {
    fn partial_cmp(&self, o: &Elem) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Elem {
    fn cmp(&self, o: &Elem) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Elem {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_i128(self.0)
    }
}

pub type Rg = std::ops::Range<Elem>;
pub type Ri = std::ops::RangeInclusive<Elem>;
pub type Rf = std::ops::RangeFrom<Elem>;
pub type Rt = std::ops::RangeTo<Elem>;
pub type Rti = std::ops::RangeToInclusive<Elem>;
pub type Ru = std::ops::RangeFull;
pub type Er = EmptyRange<Elem>;
pub type Br = BoundedRange<Elem>;
pub type Lr = LowerBoundedRange<Elem>;
pub type Ur = UpperBoundedRange<Elem>;
pub type Nr = UnboundedRange;
pub type Bs = BoundedSet<Elem>;
pub type Ls = LowerBoundedSet<Elem>;
pub type Us = UpperBoundedSet<Elem>;
pub type Ns = UnboundedSet<Elem>;

/// ranges may denote the empty set; sets must be well formed
pub trait Shape {
    fn good(&self, t: Elem) -> bool;
}
macro_rules! free { ($($t:ty),*) => { $(impl Shape for $t { fn good(&self, _: Elem) -> bool { true } })* } }
macro_rules! strict { ($($t:ty),*) => { $(impl Shape for $t { fn good(&self, t: Elem) -> bool { wf(self, t) != 0 } })* } }
free!(Rg, Ri, Rf, Rt, Rti, Ru, Er, Br, Lr, Ur, Nr);
strict!(Bs, Ls, Us, Ns);

#[macro_export]
macro_rules! each {
    ($m:ident) => { $m!(Rg); $m!(Ri); $m!(Rf); $m!(Rt); $m!(Rti); $m!(Ru); $m!(Er); $m!(Br); $m!(Lr); $m!(Ur); $m!(Nr); $m!(Bs); $m!(Ls); $m!(Us); $m!(Ns); };
}
#[macro_export]
macro_rules! row {
    ($m:ident, $a:ident) => { $m!($a, Rg); $m!($a, Ri); $m!($a, Rf); $m!($a, Rt); $m!($a, Rti); $m!($a, Ru); $m!($a, Er); $m!($a, Br); $m!($a, Lr); $m!($a, Ur); $m!($a, Nr); $m!($a, Bs); $m!($a, Ls); $m!($a, Us); $m!($a, Ns); };
}
#[macro_export]
macro_rules! pairs {
    ($m:ident) => { $crate::row!($m, Rg); $crate::row!($m, Ri); $crate::row!($m, Rf); $crate::row!($m, Rt); $crate::row!($m, Rti); $crate::row!($m, Ru); $crate::row!($m, Er); $crate::row!($m, Br); $crate::row!($m, Lr); $crate::row!($m, Ur); $crate::row!($m, Nr); $crate::row!($m, Bs); $crate::row!($m, Ls); $crate::row!($m, Us); $crate::row!($m, Ns); };
}

/// An element type with a successor function: the integers of an interval [smin, smax] about which
/// nothing is known (so also: u8, i128, a one-value type ...).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SElem(pub i128);
impl Step for SElem {
    fn steps_between(a: &SElem, b: &SElem) -> Option<usize> {
        if a.0 <= b.0 {
            let d = b.0 - a.0;
            if d <= usize::MAX as i128 {
                Some(d as usize)
            } else {
                None
            }
        } else {
            None
        }
    }
    fn forward_checked(a: SElem, n: usize) -> Option<SElem> {
        let x = a.0 + n as i128;
        if x <= smax() {
            Some(SElem(x))
        } else {
            None
        }
    }
    fn backward_checked(a: SElem, n: usize) -> Option<SElem> {
        let x = a.0 - n as i128;
        if x >= smin() {
            Some(SElem(x))
        } else {
            None
        }
    }
}
impl Default for SElem {
    fn default() -> SElem {
        SElem(sdef())
    }
}
