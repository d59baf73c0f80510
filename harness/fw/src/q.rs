//! Exact fractions on i128 (reference arithmetic).
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q { pub n: i128, pub d: i128 }

pub fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1) * if d < 0 { -1 } else { 1 };
        Q { n: n / g, d: d / g }
    }
    pub fn int(n: i128) -> Q { Q { n, d: 1 } }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn is_int(&self) -> bool { self.d == 1 }
    pub fn floor(&self) -> i128 { self.n.div_euclid(self.d) }
    pub fn frac(&self) -> Q { Q { n: self.n.rem_euclid(self.d), d: self.d } }
    pub fn abs(&self) -> Q { Q { n: self.n.abs(), d: self.d } }
    pub fn inv(&self) -> Q { Q::new(self.d, self.n) }
    pub fn big(&self) -> BigRational { BigRational::new(BigInt::from(self.n), BigInt::from(self.d)) }
    /// None if the value does not fit: callers treat that as "different from any reference value".
    pub fn from_big(x: &BigRational) -> Option<Q> {
        let (n, d) = (x.numer().to_i128()?, x.denom().to_i128()?);
        if d <= 0 || gcd(n, d) != 1 { return None; }
        Some(Q { n, d })
    }
    pub fn f64(&self) -> f64 { self.n as f64 / self.d as f64 }
}
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q { if self.d == 1 && o.d == 1 { Q::int(self.n + o.n) } else if let (Some(a), Some(b), Some(d)) = (self.n.checked_mul(o.d), o.n.checked_mul(self.d), self.d.checked_mul(o.d)) { Q::new(a + b, d) } else { let g = gcd(self.d, o.d); let h = Q::new(self.n * (o.d / g) + o.n * (self.d / g), g); let k = (self.d / g) * (o.d / g); let e = gcd(h.n, k); Q { n: h.n / e, d: h.d * (k / e) } } } }
impl Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { self + (-o) } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { if self.d == 1 && o.d == 1 { Q::int(self.n * o.n) } else if let (Some(n), Some(d)) = (self.n.checked_mul(o.n), self.d.checked_mul(o.d)) { Q::new(n, d) } else { let (g, h) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1)); Q::new((self.n / g) * (o.n / h), (self.d / h) * (o.d / g)) } } }
impl Div for Q { type Output = Q; fn div(self, o: Q) -> Q { assert!(o.n != 0); self * o.inv() } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q { n: -self.n, d: self.d } } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Q { fn cmp(&self, o: &Q) -> std::cmp::Ordering { if let (Some(a), Some(b)) = (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) { a.cmp(&b) } else { (*self - *o).n.cmp(&0) } } }
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) } } }
impl fmt::Display for Q { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) } }
