//! Self-test of the analyzer, run with every check: `_bad` roots carry a wrong obligation and must
//! be reported as violations, the others must be proved.
use crate::types::*;

pub fn canary__and_bad() {
    let t: Elem = probe();
    let a: Br = any();
    let b: Br = any();
    let want = mem(&a, t);
    let r = Rangetools::intersection(a, b);
    check(mem(&r, t) == want, "wrong on purpose");
}
pub fn canary__and() {
    let t: Elem = probe();
    let a: Br = any();
    let b: Br = any();
    let want = mem(&a, t);
    let r = Rangetools::intersection(a, b);
    check(!mem(&r, t) || want, "the intersection is below its left operand");
}
pub fn canary__or_set_bad() {
    let t: Elem = probe();
    let a: Bs = any();
    let b: Br = any();
    let want = mem(&a, t);
    let r = Rangetools::union(a, b);
    check(mem(&r, t) == want, "wrong on purpose");
}
pub fn canary__panic_bad() {
    let x: Option<Elem> = any();
    x.unwrap();
}
