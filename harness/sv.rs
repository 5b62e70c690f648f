//! Specification vocabulary. Every body here is a placeholder: the analyzer gives these
//! functions their meaning (see ../analyzer/src/spec.rs); nothing here is ever executed.
#![allow(unused_variables, clippy::all)]

/// an arbitrary value of T (sets: an arbitrary well-formed set)
pub fn any<T>() -> T {
    loop {}
}
/// declares the extremes of the abstract Step domain
pub fn init_step() {
    loop {}
}
pub fn smin() -> i128 {
    loop {}
}
pub fn smax() -> i128 {
    loop {}
}
/// declares the default value of the abstract Step domain
pub fn init_def() {
    loop {}
}
pub fn sdef() -> i128 {
    loop {}
}
/// exact integers
#[derive(Clone, Copy)]
pub struct Z(i128);
pub fn z<T>(x: T) -> Z {
    loop {}
}
pub fn zadd(a: Z, b: Z) -> Z {
    loop {}
}
pub fn zsub(a: Z, b: Z) -> Z {
    loop {}
}
pub fn zle(a: Z, b: Z) -> bool {
    loop {}
}
pub fn zeq(a: Z, b: Z) -> bool {
    loop {}
}
/// an arbitrary element, the universally quantified point of the root
pub fn probe<T>() -> T {
    loop {}
}
/// an obligation
pub fn check(b: bool, what: &'static str) {
    loop {}
}
pub fn assume(b: bool) {
    loop {}
}
/// set-theoretic membership
pub fn mem<X, T>(x: &X, t: T) -> bool {
    loop {}
}
/// 0: not a sequence of non-empty, disjoint, ascending pieces as seen from t;
/// 1: well formed, t outside; 2: well formed, t inside
pub fn wf<X, T>(x: &X, t: T) -> i32 {
    loop {}
}
/// the value denotes a non-empty set of points
pub fn nonempty<X>(x: &X) -> bool {
    loop {}
}
/// 1: a common point exists, 0: none, 2: not known
pub fn meet<A, B>(a: &A, b: &B) -> i32 {
    loop {}
}
pub fn exhaustive() -> bool {
    loop {}
}
/// repeated calls of a pure operation on equal arguments give equal results from here on
pub fn remember() {
    loop {}
}
/// None when f panics
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    loop {}
}

pub fn seq_new<S>() -> S {
    loop {}
}
pub fn seq_len<S>(s: &S) -> usize {
    loop {}
}
pub fn seq_at<S, T>(s: &S, i: usize) -> &T {
    loop {}
}
pub fn seq_at_mut<S, T>(s: &mut S, i: usize) -> &mut T {
    loop {}
}
pub fn seq_push<S, T>(s: &mut S, t: T) {
    loop {}
}
pub fn seq_insert<S, T>(s: &mut S, i: usize, t: T) {
    loop {}
}
pub fn seq_remove<S, T>(s: &mut S, i: usize) -> T {
    loop {}
}

/// an indexable container of arbitrary length
pub fn any_buf<C: ?Sized>() -> &'static mut C {
    loop {}
}
pub fn buf_len<C: ?Sized>(c: &C) -> usize {
    loop {}
}
/// the positions of c that x consists of; None when x is not part of c
pub fn win<C: ?Sized, X: ?Sized>(c: &C, x: &X) -> Option<(usize, usize)> {
    loop {}
}
