//! C14: conversions to the standard range types.
use crate::types::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

type SBr = BoundedRange<SElem>;
type SLr = LowerBoundedRange<SElem>;
type SUr = UpperBoundedRange<SElem>;
type SEr = EmptyRange<SElem>;

macro_rules! c14 {
    ($n:ident, $from:ty, $to:ty, $r:ident, $unrep:expr) => {
        pub fn $n() {
            init_step();
            init_def();
            let t: SElem = probe();
            let $r: $from = any();
            let want = mem(&$r, t);
            let unrep: bool = $unrep;
            match catch(|| <$to>::from($r)) {
                Some(x) => check(mem(&x, t) == want, "the converted range has exactly the same values"),
                None => check(unrep, "the conversion fails only when no such standard range exists"),
            }
        }
    };
}
fn max() -> SElem {
    SElem(smax())
}
fn min() -> SElem {
    SElem(smin())
}
c14!(c14__Br_Range, SBr, Range<SElem>, r, mem(&r, max()));
c14!(c14__Br_RangeInclusive, SBr, RangeInclusive<SElem>, r, false);
c14!(c14__Lr_RangeFrom, SLr, RangeFrom<SElem>, r, !mem(&r, max()));
c14!(c14__Ur_RangeTo, SUr, RangeTo<SElem>, r, mem(&r, max()));
c14!(c14__Ur_RangeToInclusive, SUr, RangeToInclusive<SElem>, r, !mem(&r, min()));
c14!(c14__Er_Range, SEr, Range<SElem>, r, false);
c14!(c14__Er_RangeInclusive, SEr, RangeInclusive<SElem>, r, false);
pub fn c14__Nr_RangeFull() {
    init_step();
    let t: SElem = probe();
    let r: UnboundedRange = any();
    let x: RangeFull = RangeFull::from(r);
    check(mem(&x, t) && mem(&r, t), "everything is contained");
}

macro_rules! c14_back {
    ($n:ident, $std:ty, $ours:ty) => {
        pub fn $n() {
            init_step();
            let t: SElem = probe();
            let r: $std = any();
            let want = mem(&r, t);
            let x = <$ours>::from(r);
            match catch(|| <$std>::from(x)) {
                Some(y) => check(mem(&y, t) == want, "a round trip keeps the values"),
                None => check(false, "every converted standard range converts back"),
            }
        }
    };
}
c14_back!(c14__Range_back, Range<SElem>, SBr);
c14_back!(c14__RangeInclusive_back, RangeInclusive<SElem>, SBr);
c14_back!(c14__RangeFrom_back, RangeFrom<SElem>, SLr);
c14_back!(c14__RangeTo_back, RangeTo<SElem>, SUr);
c14_back!(c14__RangeToInclusive_back, RangeToInclusive<SElem>, SUr);
