//! Binding of the reference nets to the code under test.
use fw::net::{Net, Raw, V3, Aut};
use fw::q::Q;
use fw::Ctx;
use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::*;
use std::collections::HashMap;
use std::fmt::{Debug, Display};

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct W {}
pub type L2 = LabelVector2d<W>;
pub type L3 = LabelVector3d<W>;

/// A label type of the user's own, of any dimension.
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Lk<const D: usize>(pub [i32; D]);
pub type L1 = Lk<1>;
impl<const D: usize> Lk<D> { fn map(self, r: Self, f: fn(i32, i32) -> i32) -> Self { let mut a = self.0; for i in 0..D { a[i] = f(a[i], r.0[i]); } Lk(a) } }
impl<const D: usize> std::ops::Neg for Lk<D> { type Output = Self; fn neg(self) -> Self { Lk([0; D]).map(self, |a, b| a - b) } }
impl<const D: usize> std::ops::Add for Lk<D> { type Output = Self; fn add(self, r: Self) -> Self { self.map(r, |a, b| a + b) } }
impl<const D: usize> std::ops::Sub for Lk<D> { type Output = Self; fn sub(self, r: Self) -> Self { self.map(r, |a, b| a - b) } }
impl<const D: usize> LabelVector<W> for Lk<D> {
    fn dim() -> usize { D }
    fn zero() -> Self { Lk([0; D]) }
    fn is_zero(&self) -> bool { self.0 == [0; D] }
    fn is_negative(&self) -> bool { self.0 < [0; D] }
    fn is_positive(&self) -> bool { self.0 > [0; D] }
    fn to_vec(&self) -> Vec<i32> { self.0.to_vec() }
    fn from_vec(v: &[i32]) -> Self { let mut a = [0; D]; a.copy_from_slice(v); Lk(a) }
}
impl<const D: usize> Display for Lk<D> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }

pub trait Lab: LabelVector<W> + Display + Debug + 'static {
    fn lab(v: V3) -> Self;
    fn v3(&self) -> V3;
}
impl Lab for L2 {
    fn lab(v: V3) -> Self { L2::new(v[0] as i32, v[1] as i32) }
    fn v3(&self) -> V3 { let v = self.to_vec(); [v[0] as i64, v[1] as i64, 0] }
}
impl Lab for L3 {
    fn lab(v: V3) -> Self { L3::new(v[0] as i32, v[1] as i32, v[2] as i32) }
    fn v3(&self) -> V3 { let v = self.to_vec(); [v[0] as i64, v[1] as i64, v[2] as i64] }
}

impl Lab for L1 {
    fn lab(v: V3) -> Self { Lk([v[0] as i32]) }
    fn v3(&self) -> V3 { [self.0[0] as i64, 0, 0] }
}

pub type G<T> = Graph<T, W>;
pub type E<T> = Edge<T, W>;

pub fn edge<T: Lab>(r: &Raw) -> E<T> { Edge::new(r.0, r.1, T::lab(r.2)) }
pub fn graph<T: Lab>(raw: &[Raw]) -> G<T> { Graph::new(&raw.iter().map(edge).collect::<Vec<_>>()) }
pub fn unedge<T: Lab>(e: &E<T>) -> Raw { (e.head, e.tail, e.shift.v3()) }

/// The graph a returned value denotes, read off its public answers.
pub fn read<T: Lab>(g: &G<T>) -> Net { Net::new(T::dim(), &g.directed_edges().iter().map(unedge).collect::<Vec<_>>()) }

pub fn raw_dir(net: &Net, k: usize) -> Raw {
    let (h, t, s) = net.edges[k / 2];
    if k % 2 == 0 { (net.ids[h], net.ids[t], s) } else { (net.ids[t], net.ids[h], [-s[0], -s[1], -s[2]]) }
}
pub fn dir_edge<T: Lab>(net: &Net, k: usize) -> E<T> { edge(&raw_dir(net, k)) }

pub fn aut<T: Lab>(net: &Net, a: &Aut) -> Automorphism<T, W> {
    let d = net.d;
    let vm: HashMap<Vertex, Vertex> = a.v.iter().enumerate().map(|(i, &j)| (net.ids[i], net.ids[j])).collect();
    let em: HashMap<E<T>, E<T>> = a.e.iter().enumerate().map(|(i, &j)| (dir_edge::<T>(net, i), dir_edge::<T>(net, j))).collect();
    let m: Vec<BigRational> = (0..d).flat_map(|i| (0..d).map(move |j| (i, j))).map(|(i, j)| BigRational::from(BigInt::from(a.m[i][j]))).collect();
    Automorphism::new(vm, em, AffineMap::new(&Matrix::new(d, &m), &Vector::zero(d)))
}

/// Coordinates of a point or vector; None if some coordinate is not a reduced fraction of machine size.
pub fn qs<'a, I: IntoIterator<Item = &'a BigRational>>(it: I) -> Option<Vec<Q>> { it.into_iter().map(Q::from_big).collect() }

pub fn vecq<T: Lab>(v: &[Q]) -> Vector { let x: Vec<BigRational> = v[..T::dim()].iter().map(|q| q.big()).collect(); Vector::new(&x) }

/// Net check for all dimensions.
pub type Chk2 = fn(&Net, u64, &mut Ctx);
#[macro_export]
macro_rules! disp { ($f:ident) => { |n: &fw::net::Net, i: u64, c: &mut fw::Ctx| if n.d == 1 { $f::<$crate::adapt::L1>(n, i, c) } else if n.d == 2 { $f::<$crate::adapt::L2>(n, i, c) } else { $f::<$crate::adapt::L3>(n, i, c) } } }

pub fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> { v.sort(); v }
pub fn sets(v: &[Vec<u32>]) -> Vec<Vec<u32>> { sorted(v.iter().map(|x| sorted(x.clone())).collect()) }
pub fn sizes<X>(v: &[Vec<X>]) -> Vec<usize> { sorted(v.iter().map(|x| x.len()).collect()) }
