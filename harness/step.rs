//! C12, C13: stepping of the built-in element types, against exact integers.
use crate::types::*;

macro_rules! c12 {
    ($t:ident) => {
        pub fn ${concat(c12__forward_, $t)}() {
            let a: $t = any();
            let n: usize = any();
            let e = zadd(z(a), z(n));
            match <$t as Step>::forward_checked(a, n) {
                Some(r) => check(zeq(z(r), e), "forward_checked is the value n above"),
                None => check(!zle(e, z($t::MAX)), "forward_checked fails only when there is no such value"),
            }
            match catch(|| <$t as Step>::forward(a, n)) {
                Some(r) => check(zeq(z(r), e), "forward is the value n above"),
                None => check(!zle(e, z($t::MAX)), "forward fails only when there is no such value"),
            }
        }
        pub fn ${concat(c12__backward_, $t)}() {
            let a: $t = any();
            let n: usize = any();
            let e = zsub(z(a), z(n));
            match <$t as Step>::backward_checked(a, n) {
                Some(r) => check(zeq(z(r), e), "backward_checked is the value n below"),
                None => check(!zle(z($t::MIN), e), "backward_checked fails only when there is no such value"),
            }
            match catch(|| <$t as Step>::backward(a, n)) {
                Some(r) => check(zeq(z(r), e), "backward is the value n below"),
                None => check(!zle(z($t::MIN), e), "backward fails only when there is no such value"),
            }
        }
        pub fn ${concat(c12__between_, $t)}() {
            let a: $t = any();
            let b: $t = any();
            let d = zsub(z(b), z(a));
            match <$t as Step>::steps_between(&a, &b) {
                Some(n) => check(zeq(z(n), d), "steps_between is the exact difference"),
                None => check(!zle(z(0usize), d) || !zle(d, z(usize::MAX)), "steps_between fails only when reversed or too large"),
            }
        }
    };
}
c12!(u8);
c12!(u16);
c12!(u32);
c12!(u64);
c12!(usize);
c12!(u128);
c12!(i8);
c12!(i16);
c12!(i32);
c12!(i64);
c12!(isize);
c12!(i128);

/// the index of a char among all chars
fn idx(c: char) -> Z {
    let v = c as u32;
    if v < 0xD800 {
        z(v)
    } else {
        zsub(z(v), z(0x800u32))
    }
}
const LAST: u32 = 0x10FFFF - 0x800;
pub fn c13__forward() {
    let a: char = any();
    let n: usize = any();
    let e = zadd(idx(a), z(n));
    match <char as Step>::forward_checked(a, n) {
        Some(r) => {
            check((r as u32) < 0xD800 || (r as u32 >= 0xE000 && r as u32 <= 0x10FFFF), "the result is a scalar value");
            check(zeq(idx(r), e), "forward_checked is the char n above");
        }
        None => check(!zle(e, z(LAST)), "forward_checked fails only past the last char"),
    }
}
pub fn c13__backward() {
    let a: char = any();
    let n: usize = any();
    let e = zsub(idx(a), z(n));
    match <char as Step>::backward_checked(a, n) {
        Some(r) => {
            check((r as u32) < 0xD800 || (r as u32 >= 0xE000 && r as u32 <= 0x10FFFF), "the result is a scalar value");
            check(zeq(idx(r), e), "backward_checked is the char n below");
        }
        None => check(!zle(z(0usize), e), "backward_checked fails only before the first char"),
    }
}
pub fn c13__forward_panicking() {
    let a: char = any();
    let n: usize = any();
    let e = zadd(idx(a), z(n));
    match catch(|| <char as Step>::forward(a, n)) {
        Some(r) => check(zeq(idx(r), e), "forward is the char n above"),
        None => check(!zle(e, z(LAST)), "forward fails only past the last char"),
    }
}
pub fn c13__backward_panicking() {
    let a: char = any();
    let n: usize = any();
    let e = zsub(idx(a), z(n));
    match catch(|| <char as Step>::backward(a, n)) {
        Some(r) => check(zeq(idx(r), e), "backward is the char n below"),
        None => check(!zle(z(0usize), e), "backward fails only before the first char"),
    }
}
pub fn c13__between() {
    let a: char = any();
    let b: char = any();
    let d = zsub(idx(b), idx(a));
    match <char as Step>::steps_between(&a, &b) {
        Some(n) => check(zeq(z(n), d), "steps_between counts the chars between"),
        None => check(!zle(z(0usize), d), "steps_between fails only when reversed"),
    }
}
