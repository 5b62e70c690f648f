//! C08: iteration of bounded ranges.
use crate::types::*;

type SBr = BoundedRange<SElem>;
use rangetools::BoundedSetIter;
use std::iter::ExactSizeIterator;

/// first and last value admitted by the bounds
fn span(r: &SBr) -> (i128, i128) {
    let lo = match r.start.to_bound() {
        Bound::Included(t) => t.0,
        Bound::Excluded(t) => t.0 + 1,
    };
    let hi = match r.end.to_bound() {
        Bound::Included(t) => t.0,
        Bound::Excluded(t) => t.0 - 1,
    };
    (lo, hi)
}

pub fn c08__mixed() {
    init_step();
    let r: SBr = any();
    let (mut lo, mut hi) = span(&r);
    let mut it = r.into_iter();
    loop {
        if any::<bool>() {
            match it.next() {
                Some(x) => {
                    check(lo <= hi && x.0 == lo, "next yields the smallest value not yet yielded");
                    lo += 1;
                }
                None => check(lo > hi, "next ends only when every value was yielded"),
            }
        } else {
            match it.next_back() {
                Some(x) => {
                    check(lo <= hi && x.0 == hi, "next_back yields the largest value not yet yielded");
                    hi -= 1;
                }
                None => check(lo > hi, "next_back ends only when every value was yielded"),
            }
        }
    }
}

// ---------------------------------------------------------------- sets
// The ghost state speaks about one universally quantified point t only:
// f: the front yielded a value >= t;  b: the back yielded a value <= t;  done: ended once.
// Holding for every t, the checks say: ascending from the front, descending from the back, never
// crossing, nothing skipped, nothing foreign, nothing twice, and the end is final.
#[derive(Clone, Copy)]
pub struct Ghost {
    f: bool,
    b: bool,
    done: bool,
}
pub fn ghost() -> Ghost {
    Ghost { f: false, b: false, done: false }
}
pub fn front(g: &mut Ghost, inside: bool, t: SElem, x: Option<SElem>) {
    match x {
        Some(x) => {
            check(!g.done, "nothing is yielded after the end");
            if x.0 < t.0 {
                check(!g.f, "values from the front ascend");
            } else if x.0 == t.0 {
                check(inside, "only contained values are yielded");
                check(!g.f && !g.b, "no value is yielded twice");
                g.f = true;
            } else {
                check(!g.b, "the front stays below what the back yielded");
                check(g.f || !inside, "no contained value is skipped");
                g.f = true;
            }
        }
        None => {
            check(!inside || g.f || g.b, "the end is reached only when every value was yielded");
            g.done = true;
        }
    }
}
pub fn back(g: &mut Ghost, inside: bool, t: SElem, x: Option<SElem>) {
    match x {
        Some(x) => {
            check(!g.done, "nothing is yielded after the end");
            if x.0 > t.0 {
                check(!g.b, "values from the back descend");
            } else if x.0 == t.0 {
                check(inside, "only contained values are yielded");
                check(!g.f && !g.b, "no value is yielded twice");
                g.b = true;
            } else {
                check(!g.f, "the back stays above what the front yielded");
                check(g.b || !inside, "no contained value is skipped");
                g.b = true;
            }
        }
        None => {
            check(!inside || g.f || g.b, "the end is reached only when every value was yielded");
            g.done = true;
        }
    }
}

pub fn c09__mixed_Bs() {
    init_step();
    let t: SElem = probe();
    let s: BoundedSet<SElem> = any();
    let inside = mem(&s, t);
    let mut it = s.into_iter();
    let mut g = ghost();
    loop {
        if any::<bool>() {
            let x = it.next();
            front(&mut g, inside, t, x);
        } else {
            let x = it.next_back();
            back(&mut g, inside, t, x);
        }
    }
}

// ---------------------------------------------------------------- no upper bound
/// A step that panics is only acceptable at the very end of the element type.
fn up(g: &mut Ghost, inside: bool, t: SElem, x: Option<Option<SElem>>) -> bool {
    match x {
        Some(x) => {
            check(x.is_some(), "there is always a next value");
            front(g, inside, t, x);
            true
        }
        None => {
            check(!inside || g.f, "overflow only after every value was yielded");
            false
        }
    }
}
macro_rules! c10 {
    ($n:ident, $t:ident) => {
        pub fn $n() {
            init_step();
            let t: SElem = probe();
            let s: $t<SElem> = any();
            let inside = mem(&s, t);
            let mut g = ghost();
            let mut it = match catch(|| s.into_iter()) {
                Some(it) => it,
                None => {
                    check(false, "every range can be iterated");
                    return;
                }
            };
            loop {
                let x = catch(|| it.next());
                if !up(&mut g, inside, t, x) {
                    return;
                }
            }
        }
    };
}
c10!(c10__next_Lr, LowerBoundedRange);
c10!(c10__next_Ls, LowerBoundedSet);

// ---------------------------------------------------------------- shortcuts
fn fits(n: i128) -> bool {
    n <= usize::MAX as i128
}
fn size(lo: i128, hi: i128) -> i128 {
    if lo <= hi {
        hi - lo + 1
    } else {
        0
    }
}
fn is(x: Option<SElem>, v: i128) -> bool {
    match x {
        Some(x) => x.0 == v,
        None => false,
    }
}
fn hint_ok(h: (usize, Option<usize>), n: i128) -> bool {
    if fits(n) {
        h.0 as i128 == n && match h.1 {
            Some(u) => u as i128 == n,
            None => false,
        }
    } else {
        h.1.is_none()
    }
}
/// a bounded range's iterator after any mixture of steps
macro_rules! c11 {
    ($n:ident, $it:ident, $lo:ident, $hi:ident, $body:block) => {
        pub fn $n() {
            init_step();
            let r: SBr = any();
            let (mut $lo, mut $hi) = span(&r);
            let mut $it = r.into_iter();
            loop {
                let k: u8 = any();
                if k == 0 {
                    if $it.next().is_some() {
                        $lo += 1;
                    }
                } else if k == 1 {
                    if $it.next_back().is_some() {
                        $hi -= 1;
                    }
                } else {
                    break;
                }
            }
            $body
        }
    };
}
c11!(c11__range_size, it, lo, hi, {
    check(hint_ok(it.size_hint(), size(lo, hi)), "size_hint is exact");
});
c11!(c11__range_len, it, lo, hi, {
    if fits(size(lo, hi)) {
        check(it.len() as i128 == size(lo, hi), "len is the number of values left");
    }
});
c11!(c11__range_count, it, lo, hi, {
    if fits(size(lo, hi)) {
        check(it.count() as i128 == size(lo, hi), "count is the number of values left");
    }
});
c11!(c11__range_last, it, lo, hi, {
    let x = it.last();
    check(if lo <= hi { is(x, hi) } else { x.is_none() }, "last is the largest value left");
});
c11!(c11__range_min, it, lo, hi, {
    let x = it.min();
    check(if lo <= hi { is(x, lo) } else { x.is_none() }, "min is the smallest value left");
});
c11!(c11__range_max, it, lo, hi, {
    let x = it.max();
    check(if lo <= hi { is(x, hi) } else { x.is_none() }, "max is the largest value left");
});
c11!(c11__range_nth, it, lo, hi, {
    let n: usize = any();
    let x = it.nth(n);
    if n as i128 <= hi - lo {
        check(is(x, lo + n as i128), "nth skips n values");
        lo = lo + n as i128 + 1;
    } else {
        check(x.is_none(), "nth past the end is None");
        lo = hi + 1;
    }
    if any() {
        let y = it.next();
        check(if lo <= hi { is(y, lo) } else { y.is_none() }, "nth leaves the iterator behind the value");
    } else {
        let y = it.next_back();
        check(if lo <= hi { is(y, hi) } else { y.is_none() }, "nth leaves the back alone");
    }
});
c11!(c11__range_nth_back, it, lo, hi, {
    let n: usize = any();
    let x = it.nth_back(n);
    if n as i128 <= hi - lo {
        check(is(x, hi - n as i128), "nth_back skips n values");
        hi = hi - n as i128 - 1;
    } else {
        check(x.is_none(), "nth_back past the end is None");
        hi = lo - 1;
    }
    if any() {
        let y = it.next();
        check(if lo <= hi { is(y, lo) } else { y.is_none() }, "nth_back leaves the front alone");
    } else {
        let y = it.next_back();
        check(if lo <= hi { is(y, hi) } else { y.is_none() }, "nth_back leaves the iterator before the value");
    }
});

// no upper bound: any number of next() calls, then one shortcut
fn start_of(r: &LowerBoundedRange<SElem>) -> i128 {
    match r.start.to_bound() {
        Bound::Included(t) => t.0,
        Bound::Excluded(t) => t.0 + 1,
    }
}
macro_rules! c11_lr {
    ($n:ident, $it:ident, $lo:ident, $body:block) => {
        pub fn $n() {
            init_step();
            let r: LowerBoundedRange<SElem> = any();
            let mut $lo = start_of(&r);
            let mut $it = r.into_iter();
            loop {
                if any() {
                    assume($lo <= smax());
                    $it.next();
                    $lo += 1;
                } else {
                    break;
                }
            }
            $body
        }
    };
}
c11_lr!(c11__from_min, it, lo, {
    assume(lo <= smax());
    check(is(it.min(), lo), "min is the next value");
});
c11_lr!(c11__from_nth, it, lo, {
    let n: usize = any();
    match catch(|| it.nth(n)) {
        Some(x) => {
            check(is(x, lo + n as i128), "nth skips n values");
            lo = lo + n as i128 + 1;
            if lo <= smax() {
                check(is(it.next(), lo), "nth leaves the iterator behind the value");
            }
        }
        None => check(lo + n as i128 > smax(), "nth overflows only when there is no such value"),
    }
});
c11_lr!(c11__from_size, it, lo, {
    check(it.size_hint().1.is_none(), "no upper bound is promised");
});

// ---------------------------------------------------------------- sets of a few explicit pieces
/// b lies strictly to the right of a as bounds go
fn before(a: &SBr, b: &SBr) -> bool {
    match (a.end.to_bound(), b.start.to_bound()) {
        (Bound::Included(x), Bound::Included(y)) => x.0 < y.0,
        (Bound::Included(x), Bound::Excluded(y)) | (Bound::Excluded(x), Bound::Included(y)) | (Bound::Excluded(x), Bound::Excluded(y)) => x.0 <= y.0,
    }
}
/// the pieces' first values and sizes, in ascending order
#[derive(Clone, Copy)]
pub struct Ps {
    k: u8,
    lo: [i128; 3],
    n: [i128; 3],
}
impl Ps {
    fn of(p: &[SBr]) -> Ps {
        let mut r = Ps { k: p.len() as u8, lo: [0; 3], n: [0; 3] };
        if p.len() > 0 {
            let (l, h) = span(&p[0]);
            r.lo[0] = l;
            r.n[0] = h - l + 1;
        }
        if p.len() > 1 {
            let (l, h) = span(&p[1]);
            r.lo[1] = l;
            r.n[1] = h - l + 1;
        }
        if p.len() > 2 {
            let (l, h) = span(&p[2]);
            r.lo[2] = l;
            r.n[2] = h - l + 1;
        }
        r
    }
    fn total(&self) -> i128 {
        self.n[0] + self.n[1] + self.n[2]
    }
    /// x is the i-th value of the set
    fn at(&self, i: i128, x: Option<SElem>) -> bool {
        if i < 0 {
            return x.is_none();
        }
        if i < self.n[0] {
            return is(x, self.lo[0] + i);
        }
        if i < self.n[0] + self.n[1] {
            return is(x, self.lo[1] + (i - self.n[0]));
        }
        if i < self.n[0] + self.n[1] + self.n[2] {
            return is(x, self.lo[2] + (i - self.n[0] - self.n[1]));
        }
        x.is_none()
    }
}
fn pieces0() -> (BoundedSet<SElem>, Ps) {
    (BoundedSet::empty(), Ps::of(&[]))
}
fn pieces1() -> (BoundedSet<SElem>, Ps) {
    let a: SBr = any();
    let (l, h) = span(&a);
    assume(l <= h);
    let g = Ps::of(&[a]);
    (Rangetools::to_set(a), g)
}
fn pieces2() -> (BoundedSet<SElem>, Ps) {
    let a: SBr = any();
    let b: SBr = any();
    assume(!a.is_empty() && !b.is_empty() && before(&a, &b));
    let g = Ps::of(&[a, b]);
    (Rangetools::union(a, b), g)
}
fn pieces3() -> (BoundedSet<SElem>, Ps) {
    let a: SBr = any();
    let b: SBr = any();
    let c: SBr = any();
    assume(!a.is_empty() && !b.is_empty() && before(&a, &b) && !c.is_empty() && before(&b, &c));
    let g = Ps::of(&[a, b, c]);
    (Rangetools::union(Rangetools::union(a, b), c), g)
}
macro_rules! c11_set {
    ($n:ident, $mk:ident) => {
        pub fn ${concat(c11__, $n, _size)}() {
            init_step();
            let (s, g) = $mk();
            let it = s.into_iter();
            check(hint_ok(it.size_hint(), g.total()), "size_hint is exact");
            if fits(g.total()) {
                check(it.len() as i128 == g.total(), "len is the number of values");
                check(it.count() as i128 == g.total(), "count is the number of values");
            }
        }
        pub fn ${concat(c11__, $n, _ends)}() {
            init_step();
            let (s, g) = $mk();
            let it = s.into_iter();
            check(g.at(0, it.clone().min()), "min is the smallest value");
            check(g.at(g.total() - 1, it.clone().max()), "max is the largest value");
            check(g.at(g.total() - 1, it.last()), "last is the largest value");
        }
        pub fn ${concat(c11__, $n, _nth)}() {
            init_step();
            let (s, g) = $mk();
            let mut it = s.into_iter();
            let n: usize = any();
            let i = n as i128;
            check(g.at(i, it.nth(n)), "nth skips n values");
            if any() {
                check(g.at(i + 1, it.next()), "nth leaves the iterator behind the value");
            } else {
                let x = it.next_back();
                check(if i + 1 < g.total() { g.at(g.total() - 1, x) } else { x.is_none() }, "nth leaves the back alone");
            }
        }
        pub fn ${concat(c11__, $n, _nth_back)}() {
            init_step();
            let (s, g) = $mk();
            let mut it = s.into_iter();
            let n: usize = any();
            let i = g.total() - 1 - n as i128;
            check(g.at(i, it.nth_back(n)), "nth_back skips n values");
            if any() {
                check(g.at(i - 1, it.next_back()), "nth_back leaves the iterator before the value");
            } else {
                let x = it.next();
                check(if i > 0 { g.at(0, x) } else { x.is_none() }, "nth_back leaves the front alone");
            }
        }
    };
}
c11_set!(set0, pieces0);
c11_set!(set1, pieces1);
c11_set!(set2, pieces2);
c11_set!(set3, pieces3);

// the same with values already taken from either end
macro_rules! c11_used {
    ($n:ident, $mk:ident) => {
        fn ${concat($n, _start)}() -> (BoundedSetIter<SElem>, Ps, i128, i128) {
            init_step();
            let (s, g) = $mk();
            let mut it = s.into_iter();
            // [f, e) are the indices of the values left
            let mut f = 0;
            let mut e = g.total();
            assume(e > 0);
            let k: u8 = any();
            if k == 0 {
                it.next();
                f = 1;
            } else if k == 1 {
                it.next_back();
                e = e - 1;
            } else {
                assume(e > 1);
                it.next();
                it.next_back();
                f = 1;
                e = e - 1;
            }
            (it, g, f, e)
        }
        pub fn ${concat(c11__, $n, _size)}() {
            let (it, _, f, e) = ${concat($n, _start)}();
            check(hint_ok(it.size_hint(), e - f), "size_hint is exact");
            if fits(e - f) {
                check(it.clone().len() as i128 == e - f, "len is the number of values left");
                check(it.count() as i128 == e - f, "count is the number of values left");
            }
        }
        pub fn ${concat(c11__, $n, _ends)}() {
            let (it, g, f, e) = ${concat($n, _start)}();
            if f < e {
                check(g.at(f, it.clone().min()), "min is the smallest value left");
                check(g.at(e - 1, it.clone().max()), "max is the largest value left");
                check(g.at(e - 1, it.last()), "last is the largest value left");
            } else {
                check(it.clone().min().is_none() && it.clone().max().is_none() && it.last().is_none(), "nothing is left");
            }
        }
        pub fn ${concat(c11__, $n, _nth)}() {
            let (mut it, g, f, e) = ${concat($n, _start)}();
            let n: usize = any();
            let x = it.nth(n);
            let i = f + n as i128;
            if i < e {
                check(g.at(i, x), "nth skips n values");
            } else {
                check(x.is_none(), "nth past the end is None");
            }
        }
        pub fn ${concat(c11__, $n, _nth_back)}() {
            let (mut it, g, f, e) = ${concat($n, _start)}();
            let n: usize = any();
            let x = it.nth_back(n);
            let i = e - 1 - n as i128;
            if i >= f {
                check(g.at(i, x), "nth_back skips n values");
            } else {
                check(x.is_none(), "nth_back past the end is None");
            }
        }
    };
}
c11_used!(used1, pieces1);
c11_used!(used2, pieces2);

// sets without upper bound: j explicit pieces and then everything from some value on
type SLs = LowerBoundedSet<SElem>;
fn tail_after(e: &SBr) -> LowerBoundedRange<SElem> {
    let r: LowerBoundedRange<SElem> = any();
    assume(match (e.end.to_bound(), r.start.to_bound()) {
        (Bound::Included(x), Bound::Included(y)) => x.0 < y.0,
        (Bound::Included(x), Bound::Excluded(y)) | (Bound::Excluded(x), Bound::Included(y)) | (Bound::Excluded(x), Bound::Excluded(y)) => x.0 <= y.0,
    });
    r
}
fn open0() -> (SLs, Ps, i128) {
    let r: LowerBoundedRange<SElem> = any();
    let l = start_of(&r);
    (Rangetools::to_set(r), Ps::of(&[]), l)
}
fn open1() -> (SLs, Ps, i128) {
    let a: SBr = any();
    let (l, h) = span(&a);
    assume(l <= h);
    let r = tail_after(&a);
    let g = Ps::of(&[a]);
    let l = start_of(&r);
    (Rangetools::union(a, r), g, l)
}
fn open2() -> (SLs, Ps, i128) {
    let a: SBr = any();
    let b: SBr = any();
    let (l, h) = span(&a);
    assume(l <= h);
    let (l, h) = span(&b);
    assume(l <= h);
    assume(before(&a, &b));
    let r = tail_after(&b);
    let g = Ps::of(&[a, b]);
    let l = start_of(&r);
    (Rangetools::union(Rangetools::union(a, b), r), g, l)
}
/// x is the i-th value of the pieces followed by l, l + 1, ...
fn at_open(g: &Ps, l: i128, i: i128, x: Option<SElem>) -> bool {
    if i < g.total() {
        g.at(i, x)
    } else {
        is(x, l + (i - g.total()))
    }
}
macro_rules! c11_open {
    ($n:ident, $mk:ident) => {
        pub fn ${concat(c11__, $n, _nth)}() {
            init_step();
            let (s, g, l) = $mk();
            let mut it = s.into_iter();
            let n: usize = any();
            let i = n as i128;
            match catch(|| it.nth(n)) {
                Some(x) => {
                    check(at_open(&g, l, i, x), "nth skips n values");
                    if let Some(y) = catch(|| it.next()) {
                        check(at_open(&g, l, i + 1, y), "nth leaves the iterator behind the value");
                    } else {
                        check(l + (i + 1 - g.total()) > smax(), "overflow only when there is no such value");
                    }
                }
                None => check(l + (i - g.total()) > smax(), "nth overflows only when there is no such value"),
            }
        }
        pub fn ${concat(c11__, $n, _min)}() {
            init_step();
            let (s, g, l) = $mk();
            assume(g.total() > 0 || l <= smax());
            let it = s.into_iter();
            check(it.size_hint().1.is_none(), "no upper bound is promised");
            check(at_open(&g, l, 0, it.min()), "min is the first value");
        }
    };
}
c11_open!(open0, open0);
c11_open!(open1, open1);
c11_open!(open2, open2);

pub fn c11__empty_range() {
    init_step();
    let r: EmptyRange<SElem> = EmptyRange::new();
    let mut it = r.into_iter();
    let k: u8 = any();
    check(it.size_hint() == (0, Some(0)), "an empty range has nothing to yield");
    if k == 0 {
        check(it.next().is_none(), "an empty range yields nothing");
    } else if k == 1 {
        check(it.next_back().is_none(), "an empty range yields nothing");
    } else {
        check(it.last().is_none(), "an empty range yields nothing");
    }
}
