//! 256-bit signed integers: bounds of the constraint store. Wide enough for the
//! differences of any two 128-bit values and small multiples of them.
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct I {
    hi: i128,
    lo: u128,
}

pub const INF: I = I { hi: i128::MAX, lo: u128::MAX };

impl I {
    pub const ZERO: I = I { hi: 0, lo: 0 };
    pub const ONE: I = I { hi: 0, lo: 1 };
    pub const fn new(x: i128) -> I {
        I { hi: if x < 0 { -1 } else { 0 }, lo: x as u128 }
    }
    pub const fn from_u128(x: u128) -> I {
        I { hi: 0, lo: x }
    }
    pub fn pow2(n: u32) -> I {
        if n < 128 { I { hi: 0, lo: 1u128 << n } } else { I { hi: 1i128 << (n - 128), lo: 0 } }
    }
    #[inline]
    pub fn is_inf(self) -> bool {
        self.hi == i128::MAX
    }
    pub fn is_zero(self) -> bool {
        self.hi == 0 && self.lo == 0
    }
    pub fn is_neg(self) -> bool {
        self.hi < 0
    }
    pub fn signum(self) -> i32 {
        if self.hi < 0 { -1 } else if self.is_zero() { 0 } else { 1 }
    }
    pub fn abs(self) -> I {
        if self.is_neg() { -self } else { self }
    }
    /// Multiplication; saturates to INF (never relied on beyond ~2^200).
    pub fn mul(self, o: I) -> I {
        let neg = self.is_neg() != o.is_neg();
        let (a, b) = (self.abs(), o.abs());
        let al = [a.lo as u64 as u128, a.lo >> 64, a.hi as u64 as u128, ((a.hi as u128) >> 64)];
        let bl = [b.lo as u64 as u128, b.lo >> 64, b.hi as u64 as u128, ((b.hi as u128) >> 64)];
        let mut r = [0u128; 8];
        for i in 0..4 {
            let mut carry = 0u128;
            for j in 0..4 {
                let cur = r[i + j] + al[i] * bl[j] + carry;
                r[i + j] = cur & 0xffff_ffff_ffff_ffff;
                carry = cur >> 64;
            }
            r[i + 4] += carry;
        }
        if r[4] | r[5] | r[6] | r[7] != 0 || r[3] >> 62 != 0 {
            return INF;
        }
        let v = I { hi: (r[2] | (r[3] << 64)) as i128, lo: r[0] | (r[1] << 64) };
        if neg { -v } else { v }
    }
    /// floor division by a positive divisor
    pub fn div_floor(self, d: I) -> I {
        assert!(d.signum() > 0);
        let neg = self.is_neg();
        let a = self.abs();
        let (mut q, mut r) = (I::ZERO, I::ZERO);
        for i in (0..256u32).rev() {
            r = r + r;
            let bit = if i >= 128 { ((a.hi >> (i - 128)) & 1) as u128 } else { (a.lo >> i) & 1 };
            if bit == 1 {
                r = r + I::ONE;
            }
            q = q + q;
            if r >= d {
                r = r - d;
                q = q + I::ONE;
            }
        }
        if neg {
            if r.is_zero() { -q } else { -q - I::ONE }
        } else {
            q
        }
    }
    pub fn rem_floor(self, d: I) -> I {
        self - self.div_floor(d).mul(d)
    }
    pub fn gcd(self, o: I) -> I {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let t = a.rem_floor(b);
            a = b;
            b = t;
        }
        a
    }
    pub fn to_i128(self) -> Option<i128> {
        if (self.hi == 0 && (self.lo >> 127) == 0) || (self.hi == -1 && (self.lo >> 127) == 1) {
            Some(self.lo as i128)
        } else {
            None
        }
    }
    pub fn low_u128(self) -> u128 {
        self.lo
    }
}
impl Add for I {
    type Output = I;
    #[inline]
    fn add(self, o: I) -> I {
        if self.is_inf() || o.is_inf() {
            return INF;
        }
        let (lo, c) = self.lo.overflowing_add(o.lo);
        I { hi: self.hi.wrapping_add(o.hi).wrapping_add(c as i128), lo }
    }
}
impl Neg for I {
    type Output = I;
    fn neg(self) -> I {
        let (lo, c) = (!self.lo).overflowing_add(1);
        I { hi: (!self.hi).wrapping_add(c as i128), lo }
    }
}
impl Sub for I {
    type Output = I;
    #[inline]
    fn sub(self, o: I) -> I {
        if self.is_inf() {
            return INF;
        }
        self + (-o)
    }
}
impl PartialOrd for I {
    #[inline]
    fn partial_cmp(&self, o: &I) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for I {
    #[inline]
    fn cmp(&self, o: &I) -> Ordering {
        self.hi.cmp(&o.hi).then(self.lo.cmp(&o.lo))
    }
}
impl fmt::Debug for I {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_inf() {
            return write!(f, "inf");
        }
        if let Some(x) = self.to_i128() {
            write!(f, "{x}")
        } else {
            // decimal by repeated division
            let mut a = self.abs();
            let ten = I::new(10);
            let mut s = vec![];
            while !a.is_zero() {
                s.push(b'0' + a.rem_floor(ten).lo as u8);
                a = a.div_floor(ten);
            }
            s.reverse();
            write!(f, "{}{}", if self.is_neg() { "-" } else { "" }, String::from_utf8(s).unwrap())
        }
    }
}
impl fmt::Display for I {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
