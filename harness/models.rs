//! Models of library algorithms over sequences and iterators, in terms of
//! `next`/`next_back` and indexing. The analyzer substitutes them for the std versions.
use crate::sv::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::num::NonZero;
use std::ops::{FromResidual, Try};

pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn m_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B> + FromResidual<R::Residual>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn m_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B> + FromResidual<R::Residual>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn m_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn m_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn m_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn m_rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) {
            return Some(i);
        }
    }
    None
}
pub fn m_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        it.next()?;
        k -= 1;
    }
    it.next()
}
pub fn m_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        it.next_back()?;
        k -= 1;
    }
    it.next_back()
}
pub fn m_count<I: Iterator>(mut it: I) -> usize {
    let mut k = 0;
    while let Some(_) = it.next() {
        k += 1;
    }
    k
}
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn m_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), NonZero<usize>> {
    let mut k = n;
    while k > 0 {
        if it.next().is_none() {
            return Err(unsafe { NonZero::new_unchecked(k) });
        }
        k -= 1;
    }
    Ok(())
}
pub fn m_advance_back_by<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Result<(), NonZero<usize>> {
    let mut k = n;
    while k > 0 {
        if it.next_back().is_none() {
            return Err(unsafe { NonZero::new_unchecked(k) });
        }
        k -= 1;
    }
    Ok(())
}

pub fn m_retain<S, T, F: FnMut(&T) -> bool>(s: &mut S, mut f: F) {
    let mut i = 0;
    while i < seq_len(s) {
        if f(seq_at::<S, T>(s, i)) {
            i += 1;
        } else {
            let _gone: T = seq_remove::<S, T>(s, i);
        }
    }
}
pub fn m_retain_mut<S, T, F: FnMut(&mut T) -> bool>(s: &mut S, mut f: F) {
    let mut i = 0;
    while i < seq_len(s) {
        if f(seq_at_mut::<S, T>(s, i)) {
            i += 1;
        } else {
            let _gone: T = seq_remove::<S, T>(s, i);
        }
    }
}
/// partition point by scanning: the callers must have a partitioned sequence
pub fn m_partition_point<S, T, F: FnMut(&T) -> bool>(s: &S, mut f: F) -> usize {
    let n = seq_len(s);
    let mut i = 0;
    while i < n {
        if !f(seq_at::<S, T>(s, i)) {
            return i;
        }
        i += 1;
    }
    n
}
pub fn m_binary_search_by<S, T, F: FnMut(&T) -> Ordering>(s: &S, mut f: F) -> Result<usize, usize> {
    let n = seq_len(s);
    let mut i = 0;
    while i < n {
        match f(seq_at::<S, T>(s, i)) {
            Ordering::Less => i += 1,
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
        }
    }
    Err(n)
}
pub fn m_binary_search_by_key<S, T, B: Ord, F: FnMut(&T) -> B>(s: &S, b: &B, mut f: F) -> Result<usize, usize> {
    let n = seq_len(s);
    let mut i = 0;
    while i < n {
        match f(seq_at::<S, T>(s, i)).cmp(b) {
            Ordering::Less => i += 1,
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
        }
    }
    Err(n)
}
pub fn m_sort_by<S, T, F: FnMut(&T, &T) -> Ordering>(s: &mut S, mut f: F) {
    let mut i = 1;
    while i < seq_len(s) {
        let x: T = seq_remove::<S, T>(s, i);
        let mut j = 0;
        while j < i {
            if f(&x, seq_at::<S, T>(s, j)) == Ordering::Less {
                break;
            }
            j += 1;
        }
        seq_insert::<S, T>(s, j, x);
        i += 1;
    }
}
pub fn m_sort_unstable_by<S, T, F: FnMut(&T, &T) -> Ordering>(s: &mut S, f: F) {
    m_sort_by::<S, T, F>(s, f)
}
pub fn m_sort_by_key<S, T, K: Ord, F: FnMut(&T) -> K>(s: &mut S, mut f: F) {
    m_sort_by::<S, T, _>(s, |a, b| f(a).cmp(&f(b)))
}
pub fn m_sort_unstable_by_key<S, T, K: Ord, F: FnMut(&T) -> K>(s: &mut S, mut f: F) {
    m_sort_by::<S, T, _>(s, |a, b| f(a).cmp(&f(b)))
}
pub fn m_sort<S, T: Ord>(s: &mut S) {
    m_sort_by::<S, T, _>(s, |a, b| a.cmp(b))
}
pub fn m_sort_unstable<S, T: Ord>(s: &mut S) {
    m_sort_by::<S, T, _>(s, |a, b| a.cmp(b))
}
pub fn m_reverse<S, T>(s: &mut S) {
    let n = seq_len(s);
    let mut i = 0;
    while i < n {
        let x: T = seq_remove::<S, T>(s, i);
        seq_insert::<S, T>(s, 0, x);
        i += 1;
    }
}
pub fn m_contains<S, T: PartialEq>(s: &S, x: &T) -> bool {
    let n = seq_len(s);
    let mut i = 0;
    while i < n {
        if seq_at::<S, T>(s, i) == x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn m_from_iter<S, T, I: IntoIterator<Item = T>>(it: I) -> S {
    let mut s: S = seq_new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        seq_push::<S, T>(&mut s, x);
    }
    s
}
pub fn m_extend<S, T, I: IntoIterator<Item = T>>(s: &mut S, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        seq_push::<S, T>(s, x);
    }
}
pub fn m_extend_ref<'a, S, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(s: &mut S, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        seq_push::<S, T>(s, *x);
    }
}
pub fn m_eq<A, TA: PartialEq<TB>, B, TB>(a: &A, b: &B) -> bool {
    let n = seq_len(a);
    if n != seq_len(b) {
        return false;
    }
    let mut i = 0;
    while i < n {
        if seq_at::<A, TA>(a, i) != seq_at::<B, TB>(b, i) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn m_ne<A, TA: PartialEq<TB>, B, TB>(a: &A, b: &B) -> bool {
    !m_eq::<A, TA, B, TB>(a, b)
}
pub fn m_hash<S, T: Hash, H: Hasher>(s: &S, h: &mut H) {
    let n = seq_len(s);
    h.write_usize(n);
    let mut i = 0;
    while i < n {
        seq_at::<S, T>(s, i).hash(h);
        i += 1;
    }
}
