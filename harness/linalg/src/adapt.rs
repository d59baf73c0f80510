//! Binding of the reference matrices to the code under test, for each number type.
use fw::mat::M;
use fw::q::Q;
use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::linear_algebra::{LinearAlgebra, Scalar};
use rust_systre::arithmetic::matrices::Matrix;
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign, DivAssign};
use num_traits::{One, Zero};

pub trait Num: Sized + Clone + Debug + PartialEq + Zero + One + Scalar + 'static
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + Div<Output = Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
{
    const NAME: &'static str;
    const FIELD: bool;
    fn of(q: Q) -> Self;
    fn q(&self) -> Option<Q>;
}
macro_rules! int { ($t:ty) => { impl Num for $t { const NAME: &'static str = stringify!($t); const FIELD: bool = false;
    fn of(q: Q) -> Self { assert!(q.is_int()); q.n as $t } fn q(&self) -> Option<Q> { Some(Q::int(*self as i128)) } } } }
int!(i32);
int!(i64);
impl Num for BigRational { const NAME: &'static str = "rational"; const FIELD: bool = true;
    fn of(q: Q) -> Self { if q.is_int() { BigRational::from(BigInt::from(q.n)) } else { q.big() } } fn q(&self) -> Option<Q> { Q::from_big(self) } }
impl Num for BigInt { const NAME: &'static str = "big integer"; const FIELD: bool = false;
    fn of(q: Q) -> Self { assert!(q.is_int()); BigInt::from(q.n) } fn q(&self) -> Option<Q> { i128::try_from(self).ok().map(Q::int) } }
impl Num for f64 { const NAME: &'static str = "float"; const FIELD: bool = true;
    fn of(q: Q) -> Self { q.f64() } fn q(&self) -> Option<Q> { if *self == self.trunc() && self.abs() < 1e15 { Some(Q::int(*self as i128)) } else { let x = *self * 1048576.0; if x == x.trunc() && x.abs() < 1e15 { Some(Q::new(x as i128, 1048576)) } else { None } } } }

pub fn to<T: Num>(a: &M, ncols: usize) -> Matrix<T> { Matrix::new(ncols, &a.iter().flatten().map(|&q| T::of(q)).collect::<Vec<T>>()) }
/// Rows of the matrix; None if an entry is not representable. Checks that the entries fill the shape.
pub fn from<T: Num>(m: &Matrix<T>) -> Option<M> {
    let (r, c) = m.shape();
    let e: Option<Vec<Q>> = m.iter().map(|x| x.q()).collect();
    let e = e?;
    if e.len() != r * c { return None; }
    if r == 0 || c == 0 { return Some(vec![]); }
    Some(e.chunks(c).map(|x| x.to_vec()).collect())
}
pub fn la<T: Num>() where Matrix<T>: LinearAlgebra<T> {}
