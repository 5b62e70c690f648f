//! Rational feasibility of a conjunction of linear inequalities (emptiness of a convex
//! polyhedron) by the primal simplex method with Bland's rule, in exact integer arithmetic.
use crate::lin::*;
use crate::num::*;
use std::collections::HashMap;

#[derive(PartialEq, Eq, Debug)]
pub enum Lp {
    Infeasible,
    /// there is an integer point
    Integral,
    Unknown,
}
struct Row {
    den: i128,
    a: Vec<i128>,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
fn reduce(r: &mut Row) {
    let mut g = r.den.abs();
    for &x in &r.a {
        if g == 1 {
            break;
        }
        g = gcd(g, x);
    }
    if g > 1 {
        r.den /= g;
        r.a.iter_mut().for_each(|x| *x /= g);
    }
    if r.den < 0 {
        r.den = -r.den;
        r.a.iter_mut().for_each(|x| *x = -*x);
    }
}
/// every constraint reads l <= 0
pub fn feasible(cons: &[Lin]) -> Lp {
    let mut ix: HashMap<Sym, usize> = HashMap::new();
    let mut rows: Vec<Row> = vec![];
    let mut ub: Vec<I> = vec![];
    for c in cons {
        if c.t.is_empty() {
            if c.c > I::ZERO {
                return Lp::Infeasible;
            }
            continue;
        }
        for (s, _) in &c.t {
            let n = ix.len();
            ix.entry(*s).or_insert(n);
        }
    }
    let n = ix.len();
    if n > 60 || cons.len() > 400 {
        return Lp::Unknown;
    }
    for c in cons {
        if c.t.is_empty() {
            continue;
        }
        let mut a = vec![0i128; n];
        for (s, k) in &c.t {
            match k.to_i128() {
                Some(k) => a[ix[s]] = k,
                None => return Lp::Unknown,
            }
        }
        rows.push(Row { den: 1, a });
        ub.push(-c.c);
    }
    let m = rows.len();
    // variable ids: 0..n free, n..n+m slacks
    let mut basic: Vec<usize> = (n..n + m).collect();
    let mut nb: Vec<usize> = (0..n).collect();
    let mut nbv: Vec<I> = vec![I::ZERO; n];
    let value = |r: &Row, nbv: &[I]| -> I {
        let mut s = I::ZERO;
        for (j, &k) in r.a.iter().enumerate() {
            if k != 0 && !nbv[j].is_zero() {
                s = s + I::new(k).mul(nbv[j]);
            }
        }
        s
    };
    for _ in 0..2000 {
        let mut viol: Option<usize> = None;
        for i in 0..m {
            if basic[i] < n {
                continue;
            }
            if value(&rows[i], &nbv) > ub[basic[i] - n].mul(I::new(rows[i].den)) && viol.map_or(true, |v| basic[i] < basic[v]) {
                viol = Some(i);
            }
        }
        let r = match viol {
            None => {
                let int = (0..m).all(|i| basic[i] >= n || value(&rows[i], &nbv).rem_floor(I::new(rows[i].den)).is_zero());
                return if int { Lp::Integral } else { Lp::Unknown };
            }
            Some(r) => r,
        };
        let mut e: Option<usize> = None;
        for j in 0..n {
            let k = rows[r].a[j];
            // a nonbasic slack sits at its bound and can only decrease
            if k != 0 && (nb[j] < n || k > 0) && e.map_or(true, |x| nb[j] < nb[x]) {
                e = Some(j);
            }
        }
        let e = match e {
            None => return Lp::Infeasible,
            Some(e) => e,
        };
        // pivot
        let (den, ae) = (rows[r].den, rows[r].a[e]);
        let old: Vec<i128> = rows[r].a.clone();
        for i in 0..m {
            if i == r {
                continue;
            }
            let f = rows[i].a[e];
            if f == 0 {
                continue;
            }
            let mut bad = false;
            let mut na = vec![0i128; n];
            for j in 0..n {
                let v = if j == e { f.checked_mul(den) } else { rows[i].a[j].checked_mul(ae).and_then(|x| f.checked_mul(old[j]).and_then(|y| x.checked_sub(y))) };
                match v {
                    Some(v) => na[j] = v,
                    None => bad = true,
                }
            }
            let nd = rows[i].den.checked_mul(ae);
            if bad || nd.is_none() {
                return Lp::Unknown;
            }
            rows[i] = Row { den: nd.unwrap(), a: na };
            reduce(&mut rows[i]);
        }
        let mut na: Vec<i128> = old.iter().map(|x| -x).collect();
        na[e] = den;
        rows[r] = Row { den: ae, a: na };
        reduce(&mut rows[r]);
        let leaving = basic[r];
        basic[r] = nb[e];
        nb[e] = leaving;
        nbv[e] = ub[leaving - n];
    }
    Lp::Unknown
}
