//! C19: algebraic laws, in terms of the points contained.
use crate::algebra::compl;
use crate::types::*;
use crate::{each, pairs};

macro_rules! commute {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c19__comm_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let (c, d) = (a.clone(), b.clone());
            if any() {
                let x = Rangetools::union(a, b);
                let x = mem(&x, t);
                let y = Rangetools::union(d, c);
                check(x == mem(&y, t), "union commutes");
            } else {
                let x = Rangetools::intersection(a, b);
                let x = mem(&x, t);
                let y = Rangetools::intersection(d, c);
                check(x == mem(&y, t), "intersection commutes");
            }
        }
    };
}
pairs!(commute);

macro_rules! idem {
    ($a:ident) => {
        pub fn ${concat(c19__idem_, $a)}() {
            let t: Elem = probe();
            let a: $a = any();
            let want = mem(&a, t);
            let c = a.clone();
            if any() {
                let x = Rangetools::union(a, c);
                check(mem(&x, t) == want, "union is idempotent");
            } else {
                let x = Rangetools::intersection(a, c);
                check(mem(&x, t) == want, "intersection is idempotent");
            }
        }
    };
}
each!(idem);

macro_rules! two {
    ($a:ident, $b:ident) => {
        pub fn ${concat(c19__absorb_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let want = mem(&a, t);
            let c = a.clone();
            if any() {
                let x = Rangetools::union(a, b);
                let x = Rangetools::intersection(c, x);
                check(mem(&x, t) == want, "intersection absorbs union");
            } else {
                let x = Rangetools::intersection(a, b);
                let x = Rangetools::union(c, x);
                check(mem(&x, t) == want, "union absorbs intersection");
            }
        }
        pub fn ${concat(c19__nor_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let (c, d) = (a.clone(), b.clone());
            let x = compl(Rangetools::union(a, b));
            let x = mem(&x, t);
            let y = Rangetools::intersection(compl(c), compl(d));
            check(x == mem(&y, t), "De Morgan: not (a or b)");
        }
        pub fn ${concat(c19__nand_, $a, _, $b)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let (c, d) = (a.clone(), b.clone());
            let x = compl(Rangetools::intersection(a, b));
            let x = mem(&x, t);
            let y = Rangetools::union(compl(c), compl(d));
            check(x == mem(&y, t), "De Morgan: not (a and b)");
        }
    };
}
macro_rules! ours { ($m:ident) => { ours!($m, Er, Br, Lr, Ur, Nr, Bs, Ls, Us, Ns); };
    ($m:ident, $($a:ident),*) => { $( ours!(row $m, $a); )* };
    (row $m:ident, $a:ident) => { $m!($a, Er); $m!($a, Br); $m!($a, Lr); $m!($a, Ur); $m!($a, Nr); $m!($a, Bs); $m!($a, Ls); $m!($a, Us); $m!($a, Ns); };
}
ours!(two);

macro_rules! three {
    ($a:ident, $b:ident, $c:ident) => {
        pub fn ${concat(c19__assoc_, $a, _, $b, _, $c)}() {
            let t: Elem = probe();
            let a: $a = any();
            let b: $b = any();
            let c: $c = any();
            let (a2, b2, c2) = (a.clone(), b.clone(), c.clone());
            if any() {
                let x = Rangetools::union(Rangetools::union(a, b), c);
                let y = Rangetools::union(a2, Rangetools::union(b2, c2));
                check(mem(&x, t) == mem(&y, t), "union associates");
            } else {
                let x = Rangetools::intersection(Rangetools::intersection(a, b), c);
                let y = Rangetools::intersection(a2, Rangetools::intersection(b2, c2));
                check(mem(&x, t) == mem(&y, t), "intersection associates");
            }
        }
    };
}
macro_rules! triples { ($($a:ident),*) => { $( triples!(row $a, Br); triples!(row $a, Lr); triples!(row $a, Us); triples!(row $a, Bs); )* };
    (row $a:ident, $b:ident) => { three!($a, $b, Br); three!($a, $b, Lr); three!($a, $b, Us); three!($a, $b, Bs); }; }
triples!(Br, Lr, Us, Bs);
