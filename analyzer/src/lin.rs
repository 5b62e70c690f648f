//! Linear expressions over symbols.
use crate::num::I;
use std::fmt;

/// The two low bits of a symbol encode its sort.
pub type Sym = u32;
pub const ZERO: Sym = 0;
/// machine integer / mathematical integer
pub const SORT_INT: u32 = 0;
/// element of an arbitrary total order: only the order relation is meaningful
pub const SORT_ORD: u32 = 1;
/// element of an arbitrary discrete (stepping) order: differences are meaningful
pub const SORT_STEP: u32 = 2;
pub fn sort(s: Sym) -> u32 {
    s & 3
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Lin {
    /// sorted by symbol, non-zero coefficients
    pub t: Vec<(Sym, I)>,
    pub c: I,
}
impl Lin {
    pub fn cst(c: I) -> Lin {
        Lin { t: vec![], c }
    }
    pub fn int(c: i128) -> Lin {
        Lin::cst(I::new(c))
    }
    pub fn sym(s: Sym) -> Lin {
        Lin { t: vec![(s, I::ONE)], c: I::ZERO }
    }
    pub fn is_const(&self) -> Option<I> {
        if self.t.is_empty() { Some(self.c) } else { None }
    }
    pub fn addc(&self, c: I) -> Lin {
        Lin { t: self.t.clone(), c: self.c + c }
    }
    pub fn add_scaled(&self, o: &Lin, k: I) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.mul(k)));
                j += 1;
            } else {
                let c = self.t[i].1 + o.t[j].1.mul(k);
                if !c.is_zero() {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, c: self.c + o.c.mul(k) }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, I::ONE)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, I::new(-1))
    }
    pub fn neg(&self) -> Lin {
        Lin::int(0).sub(self)
    }
    pub fn scale(&self, k: I) -> Lin {
        Lin::int(0).add_scaled(self, k)
    }
    /// x + c
    pub fn as_offset(&self) -> Option<(Sym, I)> {
        match self.t.len() {
            0 => Some((ZERO, self.c)),
            1 if self.t[0].1 == I::ONE => Some((self.t[0].0, self.c)),
            _ => None,
        }
    }
    /// x - y + c, with ZERO for a missing side
    pub fn as_diff(&self) -> Option<(Sym, Sym, I)> {
        let m1 = I::new(-1);
        match self.t.len() {
            0 => Some((ZERO, ZERO, self.c)),
            1 if self.t[0].1 == I::ONE => Some((self.t[0].0, ZERO, self.c)),
            1 if self.t[0].1 == m1 => Some((ZERO, self.t[0].0, self.c)),
            2 if self.t[0].1 == I::ONE && self.t[1].1 == m1 => Some((self.t[0].0, self.t[1].0, self.c)),
            2 if self.t[0].1 == m1 && self.t[1].1 == I::ONE => Some((self.t[1].0, self.t[0].0, self.c)),
            _ => None,
        }
    }
    pub fn subst(&self, f: &mut dyn FnMut(Sym) -> Option<Lin>) -> Lin {
        let mut r = Lin::cst(self.c);
        for &(s, k) in &self.t {
            match f(s) {
                Some(l) => r = r.add_scaled(&l, k),
                None => r = r.add_scaled(&Lin::sym(s), k),
            }
        }
        r
    }
    pub fn dominant_sort(&self) -> u32 {
        self.t.iter().map(|&(s, _)| sort(s)).max().unwrap_or(SORT_INT)
    }
}
impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for &(s, k) in &self.t {
            let n = crate::store::sym_name(s);
            if k == I::ONE {
                write!(f, "{}{}", if first { "" } else { "+" }, n)?;
            } else if k == I::new(-1) {
                write!(f, "-{}", n)?;
            } else {
                write!(f, "{}{}*{}", if first || k.is_neg() { "" } else { "+" }, k, n)?;
            }
            first = false;
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c.is_zero() {
            Ok(())
        } else if self.c.is_neg() {
            write!(f, "{}", self.c)
        } else {
            write!(f, "+{}", self.c)
        }
    }
}
