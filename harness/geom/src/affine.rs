//! C25-C27: affine maps, coordinate changes, generated operator lists.
use crate::adapt::*;
use fw::en;
use fw::mat::{self, M};
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::generate;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct In {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Other {}

/// The reference affine map.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct A { pub l: M, pub s: Vec<Q> }
impl A {
    pub fn dim(&self) -> usize { self.s.len() }
    pub fn id(d: usize) -> A { A { l: mat::ident(d), s: vec![Q::ZERO; d] } }
    pub fn mul(&self, o: &A) -> A { A { l: mat::mul(&self.l, &o.l), s: self.pt(&o.s) } }
    pub fn pt(&self, p: &[Q]) -> Vec<Q> { mat::mulv(&self.l, p).into_iter().zip(&self.s).map(|(x, &y)| x + y).collect() }
    pub fn vec(&self, p: &[Q]) -> Vec<Q> { mat::mulv(&self.l, p) }
    pub fn inv(&self) -> Option<A> { let l = mat::inverse(&self.l)?; let s = mat::mulv(&l, &self.s).into_iter().map(|x| -x).collect(); Some(A { l, s }) }
    pub fn frac(&self) -> A { A { l: self.l.clone(), s: self.s.iter().map(|x| x.frac()).collect() } }
}
pub fn vec_of<T: Num, C: Clone>(v: &[Q]) -> Vector<T, C> { Vector::new(&v.iter().map(|&x| T::of(x)).collect::<Vec<T>>()) }
pub fn pt_of<T: Num, C: Clone>(v: &[Q]) -> Point<T, C> { Point::new(&v.iter().map(|&x| T::of(x)).collect::<Vec<T>>()) }
pub fn map_of<T: Num, C: Clone>(a: &A) -> AffineMap<T, C> { AffineMap::new(&to::<T>(&a.l, a.dim()), &vec_of(&a.s)) }
pub fn of_vec<T: Num, C>(v: &Vector<T, C>) -> Option<Vec<Q>> { v.iter().map(|x| x.q()).collect() }
pub fn of_pt<T: Num, C>(v: &Point<T, C>) -> Option<Vec<Q>> { v.iter().map(|x| x.q()).collect() }
pub fn of_map<T: Num, C: Clone>(a: &AffineMap<T, C>) -> Option<A> { Some(A { l: from(&a.linear_matrix())?, s: of_vec(&a.shift())? }) }

/// Evaluates an expression of the code under test and compares it.
macro_rules! want { ($c:expr, $got:expr, $want:expr, $($m:tt)*) => { { $c.evals(1); match attempt(|| $got) {
    Ok(g) => { let w = $want; if g != w { $c.fail(format!("{}: got {:?}, expected {:?}", format!($($m)*), g, w)); return } }
    Err(p) => { $c.fail(format!("{} panicked: {}", format!($($m)*), p)); return } } } } }
pub(crate) use want;
macro_rules! refuse { ($c:expr, $got:expr, $($m:tt)*) => { { $c.evals(1); if attempt(|| { let _ = $got; }).is_ok() { $c.fail(format!("{} is accepted", format!($($m)*))); return } } } }

pub fn qv(v: &[(i128, i128)]) -> Vec<Q> { v.iter().map(|&(n, d)| Q::new(n, d)).collect() }
pub fn ints(lo: i128, hi: i128) -> Vec<Q> { (lo..=hi).map(Q::int).collect() }
fn words(al: &[Q], n: usize) -> Vec<Vec<Q>> { (0..(al.len() as u64).pow(n as u32)).map(|i| en::word(i, al.len() as u64, n).into_iter().map(|k| al[k]).collect()).collect() }
fn mats(al: &[Q], d: usize) -> Vec<M> { words(al, d * d).into_iter().map(|w| w.chunks(d).map(|r| r.to_vec()).collect()).collect() }
pub fn signed_perms(d: usize) -> Vec<M> {
    let mut v = vec![];
    for p in en::permutations(d) { for s in 0..1u32 << d { v.push((0..d).map(|i| (0..d).map(|j| if p[i] == j { Q::int(if s >> i & 1 == 1 { -1 } else { 1 }) } else { Q::ZERO }).collect()).collect()); } }
    v
}
fn qmat(r: &[&[i128]]) -> M { r.iter().map(|x| x.iter().map(|&y| Q::int(y)).collect()).collect() }
/// Rotations of the hexagonal lattice and some maps that are no isometries.
pub fn odd3() -> Vec<M> {
    vec![qmat(&[&[1, -1, 0], &[1, 0, 0], &[0, 0, 1]]), qmat(&[&[0, -1, 0], &[1, -1, 0], &[0, 0, -1]]), qmat(&[&[0, 1, 0], &[1, 0, 0], &[0, 0, -1]]), qmat(&[&[-1, 1, 0], &[0, 1, 0], &[0, 0, 1]]),
        qmat(&[&[1, 1, 0], &[0, 1, 2], &[0, 0, 1]]), qmat(&[&[2, 1, 0], &[1, 1, 0], &[3, -1, 1]]), qmat(&[&[1, 0, 0], &[0, 0, 0], &[0, 0, 1]]), qmat(&[&[2, 0, 1], &[0, -3, 0], &[1, 1, 1]]), qmat(&[&[0, 0, 0], &[0, 0, 0], &[0, 0, 0]]), qmat(&[&[1, 2, 3], &[4, 5, 6], &[7, 8, 9]])]
}

// ---- C25 --------------------------------------------------------------------------------------

macro_rules! pair_fn { ($name:ident, $t:ty) => {
    fn $name(a: &A, b: &A, c: &mut Ctx) {
        let d = a.dim();
        let (x, y): (AffineMap<$t, In>, AffineMap<$t, In>) = (map_of(a), map_of(b));
        let ab = a.mul(b);
        want!(c, of_map(&(&x * &y)), Some(ab.clone()), "{:?} after {:?}", a, b);
        want!(c, of_map(&(&x * y.clone())), Some(ab.clone()), "{:?} after owned {:?}", a, b);
        want!(c, of_map(&(x.clone() * &y)), Some(ab.clone()), "owned {:?} after {:?}", a, b);
        want!(c, of_map(&(x.clone() * y.clone())), Some(ab.clone()), "owned {:?} after owned {:?}", a, b);
        for k in 0..=d {
            let p: Vec<Q> = (0..d).map(|i| if k == d { Q::new(i as i128 * 2 - 3, 1 + <$t as Num>::FIELD as i128) } else if i == k { Q::int(3) } else { Q::int(-1) }).collect();
            let (pp, vv): (Point<$t, In>, Vector<$t, In>) = if <$t as Num>::FIELD || k < d { (pt_of(&p), vec_of(&p)) } else { continue };
            want!(c, of_pt(&(&x * &(&y * &pp))), Some(ab.pt(&p)), "{:?} after {:?} on the point {:?}", a, b, p);
            want!(c, &(&x * &y) * &pp, x.clone() * (y.clone() * pp.clone()), "composition of {:?} and {:?} on the point {:?}", a, b, p);
            want!(c, of_vec(&(&x * &(&y * &vv))), Some(ab.vec(&p)), "{:?} after {:?} on the vector {:?}", a, b, p);
            want!(c, &(&x * &y) * &vv, x.clone() * (y.clone() * vv.clone()), "composition of {:?} and {:?} on the vector {:?}", a, b, p);
        }
        c.nontrivial(&(<$t as Num>::NAME, a, b));
        c.sample(|| format!("{:?} after {:?}", a, b));
    }
} }
macro_rules! one_fn { ($name:ident, $t:ty) => {
    fn $name(a: &A, c: &mut Ctx) {
        let d = a.dim();
        let x: AffineMap<$t, In> = map_of(a);
        let id = AffineMap::<$t, In>::identity(d);
        want!(c, of_map(&id), Some(A::id(d)), "identity in dimension {}", d);
        want!(c, (id.is_identity(), x.is_identity()), (true, *a == A::id(d)), "identity test of {:?}", a);
        want!(c, (&id * &x, &x * &id), (x.clone(), x.clone()), "identity with {:?}", a);
        want!(c, (x.dim(), of_map(&x)), (d, Some(a.clone())), "parts of {:?}", a);
        want!(c, (of_map(&(&x * &x)), of_map(&(&(&x * &x) * &x))), (Some(a.mul(a)), Some(a.mul(a).mul(a))), "{:?} after itself, twice and three times", a);
        let m = to::<$t>(&a.l, d);
        want!(c, of_map(&AffineMap::<$t, In>::from(m)), Some(A { l: a.l.clone(), s: vec![Q::ZERO; d] }), "map from the matrix of {:?}", a);
        let det = mat::det(&a.l);
        let can = if <$t as Num>::FIELD { !det.is_zero() } else { det.abs() == Q::ONE };
        match attempt(|| x.inverse()) {
            Err(p) => return c.fail(format!("inverse of {:?} panicked: {}", a, p)),
            Ok(None) => { c.check(!can, &|| format!("no inverse of {:?}", a)); c.outcome("no inverse"); }
            Ok(Some(y)) => {
                if !c.check(can, &|| format!("inverse of the singular {:?}", a)) { return; }
                want!(c, of_map(&y), a.inv(), "inverse of {:?}", a);
                want!(c, ((&x * &y).is_identity(), (&y * &x).is_identity()), (true, true), "{:?} with its inverse", a);
                c.outcome("invertible");
                c.nontrivial(&(<$t as Num>::NAME, a));
            }
        }
    }
} }
macro_rules! vec_fn { ($name:ident, $t:ty) => {
    fn $name(u: &[Q], v: &[Q], c: &mut Ctx) {
        let d = u.len();
        let nm = <$t as Num>::NAME;
        let (x, y): (Vector<$t, In>, Vector<$t, In>) = (vec_of(u), vec_of(v));
        let (p, q): (Point<$t, In>, Point<$t, In>) = (pt_of(u), pt_of(v));
        let add: Vec<Q> = u.iter().zip(v).map(|(&a, &b)| a + b).collect();
        let sub: Vec<Q> = u.iter().zip(v).map(|(&a, &b)| a - b).collect();
        macro_rules! four { ($w:expr, $s:expr, $f:ident, $a:ident $op:tt $b:ident) => {
            want!(c, $f(&(&$a $op &$b)), Some($w.clone()), "{} & {} & with {:?}, {:?}", nm, $s, u, v); want!(c, $f(&(&$a $op $b.clone())), Some($w.clone()), "{} & {} owned with {:?}, {:?}", nm, $s, u, v);
            want!(c, $f(&($a.clone() $op &$b)), Some($w.clone()), "{} owned {} & with {:?}, {:?}", nm, $s, u, v); want!(c, $f(&($a.clone() $op $b.clone())), Some($w.clone()), "{} owned {} owned with {:?}, {:?}", nm, $s, u, v);
        } }
        macro_rules! asg { ($w:expr, $s:expr, $f:ident, $a:ident $op:tt $b:ident) => {
            want!(c, { let mut z = $a.clone(); z $op &$b; $f(&z) }, Some($w.clone()), "{} {} & with {:?}, {:?}", nm, $s, u, v); want!(c, { let mut z = $a.clone(); z $op $b.clone(); $f(&z) }, Some($w.clone()), "{} {} owned with {:?}, {:?}", nm, $s, u, v);
        } }
        four!(add, "+", of_vec, x + y); four!(sub, "-", of_vec, x - y); four!(add, "point +", of_pt, p + y); four!(sub, "point -", of_pt, p - y); four!(sub, "point - point", of_vec, p - q);
        asg!(add, "+=", of_vec, x += y); asg!(sub, "-=", of_vec, x -= y); asg!(add, "point +=", of_pt, p += y); asg!(sub, "point -=", of_pt, p -= y);
        want!(c, &q + &(&p - &q), p.clone(), "{} adding the difference of {:?} and {:?}", nm, u, v);
        // the very same object on both sides
        let (dbl, nil): (Vec<Q>, Vec<Q>) = (u.iter().map(|&a| a + a).collect(), vec![Q::ZERO; d]);
        want!(c, (of_vec(&(&x + &x)), of_vec(&(&x - &x)), of_vec(&(&p - &p))), (Some(dbl), Some(nil.clone()), Some(nil)), "{} {:?} with itself", nm, u);
        want!(c, { let z = &x; (z == z, { let z = &p; z == z }) }, (true, true), "{} {:?} equal to itself", nm, u);
        let neg: Vec<Q> = u.iter().map(|&a| -a).collect();
        want!(c, (of_vec(&-&x), of_vec(&-x.clone())), (Some(neg.clone()), Some(neg)), "{} negative of {:?}", nm, u);
        let s = v[0];
        let t = <$t as Num>::of(s);
        let mul: Vec<Q> = u.iter().map(|&a| a * s).collect();
        four!(mul, "* scalar", of_vec, x * t); asg!(mul, "*= scalar", of_vec, x *= t);
        if !s.is_zero() { let div: Vec<Q> = u.iter().map(|&a| if <$t as Num>::FIELD { a / s } else { Q::int(a.n / s.n) }).collect(); four!(div, "/ scalar", of_vec, x / t); asg!(div, "/= scalar", of_vec, x /= t); }
        want!(c, (of_vec(&x), of_vec(&y), of_pt(&p), of_pt(&q)), (Some(u.to_vec()), Some(v.to_vec()), Some(u.to_vec()), Some(v.to_vec())), "{} operands after use", nm);
        for k in 0..d { want!(c, (x[k].q(), p[k].q()), (Some(u[k]), Some(u[k])), "{} coordinate {} of {:?}", nm, k, u);
            let mut w = u.to_vec(); w[k] = v[k];
            want!(c, { let mut z = x.clone(); z[k] = <$t as Num>::of(v[k]); of_vec(&z) }, Some(w.clone()), "{} setting coordinate {} of {:?}", nm, k, u);
            want!(c, { let mut z = p.clone(); z[k] = <$t as Num>::of(v[k]); of_pt(&z) }, Some(w.clone()), "{} setting coordinate {} of point {:?}", nm, k, u);
            want!(c, of_vec(&Vector::<$t, In>::unit(d, k)), Some((0..d).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect()), "{} unit vector {} of {}", nm, k, d);
        }
        want!(c, (of_vec(&Vector::<$t, In>::zero(d)), of_pt(&Point::<$t, In>::origin(d)), x.dim(), p.dim()), (Some(vec![Q::ZERO; d]), Some(vec![Q::ZERO; d]), d, d), "{} zero in dimension {}", nm, d);
        want!(c, (x.iter().cloned().collect::<Vector<$t, In>>(), p.iter().cloned().collect::<Point<$t, In>>()), (x.clone(), p.clone()), "{} collecting {:?}", nm, u);
        want!(c, (x.clone().into_iter().collect::<Vec<_>>(), p.clone().into_iter().collect::<Vec<_>>()), (x.iter().cloned().collect::<Vec<_>>(), p.iter().cloned().collect::<Vec<_>>()), "{} taking {:?} apart", nm, u);
        want!(c, (x == y, p == q), (u == v, u == v), "{} equality of {:?} and {:?}", nm, u, v);
        c.nontrivial(&(nm, u, v));
    }
} }
pair_fn!(pair_i, i64); pair_fn!(pair_q, BigRational); one_fn!(one_i, i64); one_fn!(one_q, BigRational); vec_fn!(vec_i, i64); vec_fn!(vec_i32, i32); vec_fn!(vec_q, BigRational); pair_fn!(pair_f, f64); one_fn!(one_f, f64); vec_fn!(vec_f, f64);
/// Signed permutations, some scaled, and shifts, all powers of two: exact in floating point whatever the order of operations.
fn maps_float(d: usize) -> Vec<A> {
    let mut v = vec![];
    for (i, m) in signed_perms(d).into_iter().enumerate() { for k in 0..3usize {
        let l: M = m.iter().enumerate().map(|(r, row)| row.iter().map(|&x| x * [Q::ONE, Q::int(1 << (r + i) % 4), Q::new(1, 1 << (r * 2 + i) % 5)][k]).collect()).collect();
        v.push(A { l, s: (0..d).map(|r| [Q::ZERO, Q::new(1 - 2 * (r as i128 % 2), 2), Q::int(3 + r as i128)][(i + r + k) % 3]).collect() });
    } }
    v
}
fn integral(a: &A) -> bool { a.l.iter().flatten().chain(&a.s).all(|x| x.is_int()) }

pub fn maps(ls: Vec<M>, ss: &[Vec<Q>]) -> Vec<A> { ls.into_iter().flat_map(|l| ss.iter().map(move |s| A { l: l.clone(), s: s.clone() })).collect() }

/// Regular and singular maps in higher dimensions.
fn maps_large(d: usize) -> Vec<A> {
    let mut v = vec![];
    for k in 0..6i128 {
        let shear: M = (0..d).map(|i| (0..d).map(|j| Q::int(if i == j { 1 } else if j == (i + 1 + k as usize) % d && i < j { k - 2 } else { 0 })).collect()).collect();
        let turn: M = (0..d).map(|i| (0..d).map(|j| Q::int(if j == (i + 1 + k as usize) % d { if i % 2 == 0 { -1 } else { 1 } } else { 0 })).collect()).collect();
        let scale: M = (0..d).map(|i| (0..d).map(|j| if i == j { Q::new(i as i128 + 2, k + 1) } else if j > i { Q::new(k - 1, 2) } else { Q::ZERO }).collect()).collect();
        let flat: M = (0..d as i128).map(|i| (0..d as i128).map(|j| Q::int(i * k + j)).collect()).collect();
        let s: Vec<Vec<Q>> = vec![vec![Q::ZERO; d], (0..d as i128).map(|i| Q::int(i * k - 3)).collect(), (0..d as i128).map(|i| Q::new(i - k, i + 2)).collect()];
        for (n, l) in [mat::mul(&shear, &mat::transpose(&shear, d)), mat::mul(&shear, &turn), scale, flat].into_iter().enumerate() { v.push(A { l, s: s[(n + k as usize) % 3].clone() }) }
    }
    v
}
fn mixed_dims(i: u64, c: &mut Ctx) {
    let (d, e) = ((i / 4 % 4) as usize, (i % 4) as usize);
    if d == e || d == 0 || e == 0 { return; }
    let v = |k: usize| -> Vec<Q> { (0..k as i128).map(|x| Q::int(x + 2)).collect() };
    let (x, y): (Vector<i64, In>, Vector<i64, In>) = (vec_of(&v(d)), vec_of(&v(e)));
    let (p, q): (Point<i64, In>, Point<i64, In>) = (pt_of(&v(d)), pt_of(&v(e)));
    let (f, g): (AffineMap<i64, In>, AffineMap<i64, In>) = (AffineMap::identity(d), AffineMap::identity(e));
    refuse!(c, &x + &y, "sum of vectors of dimensions {} and {}", d, e);
    refuse!(c, &x - &y, "difference of vectors of dimensions {} and {}", d, e);
    refuse!(c, &p + &y, "sum of a point and a vector of dimensions {} and {}", d, e);
    refuse!(c, &p - &y, "difference of a point and a vector of dimensions {} and {}", d, e);
    refuse!(c, &p - &q, "difference of points of dimensions {} and {}", d, e);
    refuse!(c, &f * &g, "composition of maps of dimensions {} and {}", d, e);
    refuse!(c, &f * &p_or(&q), "map of dimension {} on a point of dimension {}", d, e);
    refuse!(c, &f * &y, "map of dimension {} on a vector of dimension {}", d, e);
    refuse!(c, AffineMap::new(&Matrix::<i64>::identity(d), &y), "map with a matrix of dimension {} and a shift of dimension {}", d, e);
    c.nontrivial(&(d, e));
}
fn p_or(p: &Point<i64, In>) -> Point<i64, In> { p.clone() }

fn c25(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let sh1 = words(&qv(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3)]), 1);
    let fr = qv(&[(0, 1), (1, 1), (-1, 1), (2, 1), (-3, 1), (1, 2), (-1, 3)]);
    let m1 = maps(mats(&fr, 1), &sh1);
    let sh2: Vec<Vec<Q>> = vec![qv(&[(0, 1), (0, 1)]), qv(&[(1, 1), (-2, 1)]), qv(&[(1, 2), (0, 1)]), qv(&[(-1, 3), (5, 2)])];
    let m2 = maps(mats(&ints(-1, 1), 2), &sh2[..t.pick(3, 4)]);
    let m2i = maps(mats(&ints(-2, 2), 2), &sh2[..2]);
    let sh3: Vec<Vec<Q>> = vec![qv(&[(0, 1), (0, 1), (0, 1)]), qv(&[(1, 1), (-2, 1), (3, 1)]), qv(&[(1, 2), (0, 1), (-1, 3)])];
    let mut l3 = signed_perms(3); l3.extend(odd3());
    let m3 = maps(l3, &sh3[..t.pick(2, 3)]);
    let f = |a: &A, b: &A, c: &mut Ctx| { pair_q(a, b, c); if !c.failed() && integral(a) && integral(b) { pair_i(a, b, c) } };
    for (nm, l) in [("line", m1.clone()), ("plane", m2.clone()), ("space", m3.clone())] {
        let n = l.len() as u64;
        let l = Arc::new(l);
        v.push(Space::new(&format!("pairs of maps, {}", nm), n * n, move |i, c| f(&l[(i / n) as usize], &l[(i % n) as usize], c)));
    }
    let n = m2i.len() as u64;
    let l = Arc::new(m2i.clone());
    if t == Tier::Thorough { v.push(Space::new("pairs of integer maps, plane", n * n, move |i, c| { let (a, b) = (&l[(i / n) as usize], &l[(i % n) as usize]); if integral(a) && integral(b) { pair_i(a, b, c) } })); }
    let mut single = m1; single.extend(m2); single.extend(m2i); single.extend(m3);
    single.extend(maps(mats(&ints(-1, t.pick(0, 1)), 3), &sh3[..2]));
    single.extend(maps(mats(&qv(&[(0, 1), (1, 1), (1, 2), (-2, 1)]), 2), &sh2));
    single.extend(maps(signed_perms(4), &[qv(&[(1, 2), (0, 1), (3, 1), (-1, 1)])]));
    v.push(Space::list("single maps", single, |a, c| { one_q(a, c); if !c.failed() && integral(a) { one_i(a, c) } }));
    for (d, al) in [(1usize, ints(-5, 5)), (2, ints(-2, t.pick(2, 3))), (3, ints(-1, 1))] {
        let w = Arc::new(words(&al, d)); let n = w.len() as u64;
        v.push(Space::new(&format!("pairs of vectors and points, dimension {}", d), n * n, move |i, c| { let (a, b) = (&w[(i / n) as usize], &w[(i % n) as usize]); vec_i(a, b, c); if !c.failed() { vec_q(a, b, c) } if !c.failed() && i % 3 == 0 { vec_i32(a, b, c) } }));
    }
    for d in 4..=7usize {
        let w: Vec<Vec<Q>> = (0..24u64).map(|i| (0..d).map(|k| Q::int(((i as i128 * 7 + 3) * (k as i128 + 2) + i as i128 / 5) % 11 - 5)).collect()).chain([vec![Q::ZERO; d], vec![Q::ONE; d]]).chain((0..d).map(|k| (0..d).map(|i| Q::int((i == k) as i128)).collect())).collect();
        let n = w.len() as u64; let w = Arc::new(w);
        v.push(Space::new(&format!("pairs of vectors and points, dimension {}", d), n * n, move |i, c| { let (a, b) = (&w[(i / n) as usize], &w[(i % n) as usize]); vec_i(a, b, c); if !c.failed() { vec_q(a, b, c) } if !c.failed() { vec_i32(a, b, c) } }));
        // scaled and sheared maps
        let ms = Arc::new(maps_large(d)); let n = ms.len() as u64;
        let m2 = ms.clone();
        v.push(Space::new(&format!("single maps, dimension {}", d), n, move |i, c| { let a = &m2[i as usize]; one_q(a, c); if !c.failed() && integral(a) { one_i(a, c) } }));
        v.push(Space::new(&format!("pairs of maps, dimension {}", d), n * n, move |i, c| { let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]); pair_q(a, b, c); if !c.failed() && integral(a) && integral(b) { pair_i(a, b, c) } }));
    }
    let w = Arc::new(words(&fr[..t.pick(6, 7)], 2)); let n = w.len() as u64;
    v.push(Space::new("pairs of rational vectors and points", n * n, move |i, c| { let (a, b) = (&w[(i / n) as usize], &w[(i % n) as usize]); vec_q(a, b, c) }));
    // floating point
    for d in 1..=3usize {
        let ms = maps_float(d); let ms = Arc::new(if d == 3 { ms.into_iter().step_by(t.pick(7, 1)).collect() } else { ms }); let n = ms.len() as u64;
        let m2 = ms.clone();
        v.push(Space::new(&format!("floating point maps, dimension {}", d), n, move |i, c| one_f(&m2[i as usize], c)));
        v.push(Space::new(&format!("pairs of floating point maps, dimension {}", d), n * n, move |i, c| pair_f(&ms[(i / n) as usize], &ms[(i % n) as usize], c)));
        let w = Arc::new(words(&qv(&[(0, 1), (1, 1), (-2, 1), (1, 4), (-4, 1)][..if d == 3 { 3 } else { 5 }]), d)); let n = w.len() as u64;
        v.push(Space::new(&format!("pairs of floating point vectors and points, dimension {}", d), n * n, move |i, c| vec_f(&w[(i / n) as usize], &w[(i % n) as usize], c)));
    }
    v.push(Space::new("operands of different dimension", 16, mixed_dims));
    v
}

// ---- C26 --------------------------------------------------------------------------------------

fn sp_ref(g: &M, u: &[Q], v: &[Q]) -> Q { mat::dot(&mat::mulv(&mat::transpose(g, g.len()), u), v) }
fn of_sp<T: Num, C>(s: &ScalarProduct<T, C>) -> Option<M> { let d = s.dim(); (0..d).map(|i| (0..d).map(|j| s[(i, j)].q()).collect()).collect() }

/// f : In -> Out, g : Out -> Other, both invertible; things to carry over from In.
macro_rules! chain_fn { ($name:ident, $t:ty) => {
    fn $name(f: &A, g: &A, a: &A, gram: &M, c: &mut Ctx) {
        let d = f.dim();
        let (fi, gi) = (f.inv().unwrap(), g.inv().unwrap());
        let cf: CoordinateMap<$t, In, Out> = match attempt(|| CoordinateMap::new(&map_of(f))) { Ok(x) => x, Err(p) => return c.fail(format!("coordinate change from {:?} panicked: {}", f, p)) };
        let cg: CoordinateMap<$t, Out, Other> = match attempt(|| CoordinateMap::new(&map_of(g))) { Ok(x) => x, Err(p) => return c.fail(format!("coordinate change from {:?} panicked: {}", g, p)) };
        let both: CoordinateMap<$t, In, Other> = &cg * &cf;
        let (s, _e) = (g.mul(f), ());
        want!(c, of_map(&both.forward()), Some(s.clone()), "composition of {:?} and {:?}", f, g);
        want!(c, of_map(&both.inverse().forward()), s.inv(), "inverse of the composition of {:?} and {:?}", f, g);
        want!(c, (of_map(&cf.forward()), of_map(&cf.inverse().forward())), (Some(f.clone()), Some(fi.clone())), "change {:?} and its inverse", f);
        want!(c, (cf.dim(), cf.determinant().q(), cf.is_identity()), (d, Some(mat::det(&f.l)), *f == A::id(d)), "attributes of {:?}", f);
        want!(c, ((&cf.inverse() * &cf).is_identity(), (&cf * &cf.inverse()).is_identity()), (true, true), "{:?} and back", f);
        let own: CoordinateMap<$t, In, In> = match attempt(|| CoordinateMap::new(&map_of(f))) { Ok(x) => x, Err(p) => return c.fail(format!("coordinate change from {:?} panicked: {}", f, p)) };
        want!(c, (of_map(&(&own * &own).forward()), of_map(&(&own * &own).inverse().forward())), (Some(f.mul(f)), f.mul(f).inv()), "change {:?} after itself", f);
        want!(c, of_map(&(&own * &map_of::<$t, In>(f))), Some(f.clone()), "{:?} carried over by itself", f);
        let x: AffineMap<$t, In> = map_of(a);
        let fa = f.mul(a).mul(&fi);
        want!(c, of_map(&(&cf * &x)), Some(fa.clone()), "{:?} carried over by {:?}", a, f);
        want!(c, of_map(&(cf.clone() * x.clone())), Some(fa.clone()), "{:?} carried over by owned {:?}", a, f);
        want!(c, of_map(&(&cf.inverse() * &(&cf * &x))), Some(a.clone()), "{:?} carried by {:?} and back", a, f);
        want!(c, of_map(&(&both * &x)), of_map(&(&cg * &(&cf * &x))), "{:?} carried over in two steps {:?}, {:?}", a, f, g);
        let sp: ScalarProduct<$t, In> = ScalarProduct::from(to::<$t>(gram, d));
        let sq = match attempt(|| &cf * &sp) { Ok(s) => s, Err(p) => return c.fail(format!("scalar product {:?} carried over by {:?} panicked: {}", gram, f, p)) };
        let gq = mat::mul(&mat::mul(&mat::transpose(&fi.l, d), gram), &fi.l);
        want!(c, of_sp(&sq), Some(gq), "scalar product {:?} carried over by {:?}", gram, f);
        want!(c, of_sp(&(&cf.inverse() * &sq)), Some(gram.clone()), "scalar product {:?} carried by {:?} and back", gram, f);
        want!(c, of_sp(&(&both * &sp)), of_sp(&(&cg * &sq)), "scalar product {:?} in two steps {:?}, {:?}", gram, f, g);
        for k in 0..=d {
            let p: Vec<Q> = (0..d).map(|i| if k == d { Q::int(i as i128 * 2 - 1) } else if i == k { Q::int(1) } else { Q::int(0) }).collect();
            let (pp, vv): (Point<$t, In>, Vector<$t, In>) = (pt_of(&p), vec_of(&p));
            want!(c, of_pt(&(&cf * &pp)), Some(f.pt(&p)), "point {:?} changed by {:?}", p, f);
            want!(c, of_vec(&(&cf * &vv)), Some(f.vec(&p)), "vector {:?} changed by {:?}", p, f);
            want!(c, (of_pt(&(cf.clone() * pp.clone())), of_vec(&(cf.clone() * vv.clone()))), (Some(f.pt(&p)), Some(f.vec(&p))), "{:?} changed by owned {:?}", p, f);
            want!(c, (&cf.inverse() * &(&cf * &pp), &cf.inverse() * &(&cf * &vv)), (pp.clone(), vv.clone()), "{:?} changed by {:?} and back", p, f);
            want!(c, (&both * &pp, &both * &vv), (&cg * &(&cf * &pp), &cg * &(&cf * &vv)), "{:?} changed in two steps {:?}, {:?}", p, f, g);
            want!(c, (&(&cf * &x) * &(&cf * &pp), &(&cf * &x) * &(&cf * &vv)), (&cf * &(&x * &pp), &cf * &(&x * &vv)), "{:?} and {:?} changed by {:?}", a, p, f);
            let w = Some(sp_ref(gram, &p, &p));
            want!(c, (sp.apply(&vv, &vv).q(), sq.apply(&(&cf * &vv), &(&cf * &vv)).q()), (w, w), "scalar product {:?} of {:?} with itself before and after {:?}", gram, p, f);
            for l in 0..d {
                let q: Vec<Q> = (0..d).map(|i| if i == l { Q::ONE } else { Q::int(2) }).collect();
                let ww: Vector<$t, In> = vec_of(&q);
                let w = Some(sp_ref(gram, &p, &q));
                want!(c, (sp.apply(&vv, &ww).q(), sp.apply(&ww, &vv).q(), sq.apply(&(&cf * &vv), &(&cf * &ww)).q()), (w, w, w), "scalar product {:?} of {:?} and {:?} before and after {:?}", gram, p, q, f);
            }
        }
        let _ = gi;
        c.nontrivial(&(<$t as Num>::NAME, f, g, a));
        c.sample(|| format!("{:?} carried over by {:?}", a, f));
    }
} }
chain_fn!(chain_q, BigRational); chain_fn!(chain_i, i64); chain_fn!(chain_f, f64);

fn bases(b: &M, c: &mut Ctx) {
    let d = b.len();
    let vs: Vec<Vector<BigRational, Out>> = b.iter().map(|r| vec_of(r)).collect();
    let ws: Vec<Vector<BigRational, In>> = b.iter().map(|r| vec_of(r)).collect();
    let f = match attempt(|| CoordinateMap::<BigRational, In, Out>::from_basis(&vs)) { Ok(f) => f, Err(p) => return c.fail(format!("change from basis {:?} panicked: {}", b, p)) };
    let t = match attempt(|| CoordinateMap::<BigRational, In, Out>::to_basis(&ws)) { Ok(f) => f, Err(p) => return c.fail(format!("change to basis {:?} panicked: {}", b, p)) };
    for k in 0..d {
        let e: Vec<Q> = (0..d).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect();
        want!(c, of_vec(&(&f * &vec_of::<BigRational, In>(&e))), Some(b[k].clone()), "unit vector {} changed from basis {:?}", k, b);
        want!(c, of_vec(&(&t * &ws[k])), Some(e.clone()), "basis vector {} changed to basis {:?}", k, b);
        want!(c, of_vec(&(&f.inverse() * &vs[k])), Some(e), "basis vector {} changed back from {:?}", k, b);
    }
    want!(c, (of_pt(&(&f * &Point::origin(d))), of_pt(&(&t * &Point::origin(d)))), (Some(vec![Q::ZERO; d]), Some(vec![Q::ZERO; d])), "origin with basis {:?}", b);
    want!(c, (CoordinateMap::<BigRational, In, Out>::identity(d).is_identity(), of_map(&CoordinateMap::<BigRational, In, Out>::from(to::<BigRational>(b, d)).forward())), (true, Some(A { l: b.clone(), s: vec![Q::ZERO; d] })), "change from matrix {:?}", b);
    want!(c, (f.determinant().q(), t.determinant().q()), (Some(mat::det(b)), Some(mat::det(b).inv())), "determinants of changes from and to {:?}", b);
    c.nontrivial(b);
}
fn positive(g: &M) -> bool {
    let d = g.len();
    (0..d).all(|i| (0..d).all(|j| g[i][j] == g[j][i])) && (1..=d).all(|k| mat::det(&g[..k].iter().map(|r| r[..k].to_vec()).collect::<M>()) > Q::ZERO)
}
fn scalar_product(g: &M, c: &mut Ctx) {
    let d = g.len();
    let want = positive(g);
    let int = g.iter().flatten().all(|x| x.is_int());
    let r = attempt(|| of_sp(&ScalarProduct::<BigRational, In>::from(to::<BigRational>(g, d))));
    if want { c.check(matches!(&r, Ok(Some(x)) if x == g), &|| format!("scalar product {:?} is not taken as it is: {:?}", g, r)); c.nontrivial(g); }
    else { c.check(r.is_err(), &|| format!("{:?} is accepted as a scalar product", g)); }
    if int { let r = attempt(|| of_sp(&ScalarProduct::<i64, In>::from(to::<i64>(g, d)))); c.evals(1); c.check(r.is_ok() == want, &|| format!("integer scalar product {:?}: {:?}", g, r)); }
    if d > 0 { let r = of_sp(&ScalarProduct::<BigRational, In>::default(d)); c.check(r.as_ref() == Some(&mat::ident(d)), &|| format!("default scalar product of dimension {} is {:?}", d, r)); }
    c.outcome(if want { "positive definite" } else { "not positive definite or not symmetric" });
}
pub fn grams(d: usize) -> Vec<M> {
    if d == 1 { return vec![qmat(&[&[1]]), qmat(&[&[3]])]; }
    if d == 2 { return vec![qmat(&[&[1, 0], &[0, 1]]), qmat(&[&[2, -1], &[-1, 2]]), qmat(&[&[2, 1], &[1, 3]]), qmat(&[&[1, 0], &[0, 7]]), vec![qv(&[(1, 1), (1, 2)]), qv(&[(1, 2), (1, 1)])], vec![qv(&[(5, 3), (-1, 2)]), qv(&[(-1, 2), (1, 4)])], qmat(&[&[5, 4], &[4, 5]])]; }
    vec![qmat(&[&[1, 0, 0], &[0, 1, 0], &[0, 0, 1]]), qmat(&[&[2, 1, 1], &[1, 2, 1], &[1, 1, 2]]), qmat(&[&[3, -1, -1], &[-1, 3, -1], &[-1, -1, 3]]), qmat(&[&[2, -1, 0], &[-1, 2, 0], &[0, 0, 5]]), qmat(&[&[1, 0, 0], &[0, 2, 0], &[0, 0, 4]]),
        vec![qv(&[(1, 1), (1, 2), (0, 1)]), qv(&[(1, 2), (3, 2), (-1, 3)]), qv(&[(0, 1), (-1, 3), (2, 3)])], qmat(&[&[4, 1, 2], &[1, 5, -2], &[2, -2, 6]])]
}

fn c26(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let sh2: Vec<Vec<Q>> = vec![qv(&[(0, 1), (0, 1)]), qv(&[(1, 2), (-1, 3)])];
    let regular = |l: Vec<A>| -> Vec<A> { l.into_iter().filter(|a| !mat::det(&a.l).is_zero()).collect() };
    let f2 = regular(maps(mats(&ints(-1, 1), 2), &sh2));
    let mut f2r = f2.clone(); f2r.extend(regular(maps(mats(&qv(&[(0, 1), (2, 1), (1, 2)]), 2), &sh2[1..])));
    let a2 = maps(vec![qmat(&[&[0, -1], &[1, 0]]), qmat(&[&[1, 2], &[0, -1]]), qmat(&[&[1, 1], &[1, 1]])], &[qv(&[(0, 1), (1, 1)])]);
    let g2 = grams(2);
    let (n, k) = (f2r.len() as u64, t.pick(12usize, 40).min(f2r.len()));
    let step = f2r.len() / k;
    let second: Vec<A> = f2r.iter().step_by(step).cloned().collect();
    let m = second.len() as u64;
    let (f, s, a, g) = (Arc::new(f2r), second, a2.clone(), g2.clone());
    v.push(Space::new("chains of changes, plane", n * m, move |i, c| { let j = (i / m) as usize; chain_q(&f[j], &s[(i % m) as usize], &a[(i % 3) as usize], &g[j % g.len()], c) }));
    let uni: Vec<A> = maps(mats(&ints(-2, 2), 2), &[qv(&[(0, 1), (0, 1)]), qv(&[(3, 1), (-1, 1)])]).into_iter().filter(|a| mat::det(&a.l).abs() == Q::ONE).collect();
    let gi: Vec<M> = g2.iter().filter(|g| g.iter().flatten().all(|x| x.is_int())).cloned().collect();
    let n = uni.len() as u64;
    let (u, a) = (Arc::new(uni), a2);
    v.push(Space::new("chains of unimodular changes, plane", n * 7, move |i, c| { let j = (i / 7) as usize; chain_i(&u[j], &u[(j * 5 + (i % 7) as usize * 11) % n as usize], &a[(i % 3) as usize], &gi[j % gi.len()], c) }));
    let mut l3 = signed_perms(3); l3.extend(odd3());
    let f3 = regular(maps(l3, &[qv(&[(0, 1), (1, 2), (-1, 3)])]));
    let a3 = maps(odd3()[..5].to_vec(), &[qv(&[(1, 2), (0, 1), (1, 1)])]);
    let (n, g, s) = (f3.len() as u64, grams(3), t.pick(7, 1));
    let f = Arc::new(f3);
    let m = n.div_ceil(s);
    v.push(Space::new("chains of changes, space", n * m, move |i, c| { let (j, l) = ((i / m) as usize, (i % m * s) as usize); chain_q(&f[j], &f[l], &a3[(i % 5) as usize], &g[(j + l) % g.len()], c) }));
    for d in 1..=3usize {
        let ms: Vec<A> = { let m = maps_float(d); if d == 3 { m.into_iter().step_by(t.pick(5, 1)).collect() } else { m } };
        let n = ms.len() as u64;
        let gs: Vec<M> = grams(d).into_iter().filter(|g| g.iter().flatten().all(|x| x.is_int())).collect();
        v.push(Space::new(&format!("chains of floating point changes, dimension {}", d), n * n, move |i, c| { let (j, l) = ((i / n) as usize, (i % n) as usize); chain_f(&ms[j], &ms[l], &ms[(j * 5 + l) % ms.len()], &gs[(j + l) % gs.len()], c) }));
    }
    let f1 = regular(maps(mats(&qv(&[(1, 1), (-1, 1), (2, 1), (1, 3), (-5, 2)]), 1), &[qv(&[(0, 1)]), qv(&[(1, 2)])]));
    let (n, f) = (f1.len() as u64, f1);
    v.push(Space::new("chains of changes, line", n * n, move |i, c| chain_q(&f[(i / n) as usize], &f[(i % n) as usize], &f[((i * 7 + 3) % n) as usize], &grams(1)[(i % 2) as usize], c)));
    for d in 4..=6usize {
        let ms = regular(maps_large(d));
        let n = ms.len() as u64;
        let gs: Vec<M> = (0..3i128).map(|k| (0..d).map(|i| (0..d).map(|j| Q::int(if i == j { k + 3 } else if i.abs_diff(j) == 1 { 1 - k } else { 0 })).collect()).collect()).collect();
        let all = Arc::new(maps_large(d));
        v.push(Space::new(&format!("chains of changes, dimension {}", d), n * n, move |i, c| { let (j, l) = ((i / n) as usize, (i % n) as usize); chain_q(&ms[j], &ms[l], &all[(j * 5 + l) % all.len()], &gs[(j + l) % 3], c) }));
    }
    let reg = |l: Vec<M>| -> Vec<M> { l.into_iter().filter(|a| !mat::det(a).is_zero()).collect() };
    let mut b = reg(mats(&ints(-2, 2), 2)); b.extend(reg(mats(&qv(&[(0, 1), (1, 2), (-2, 3), (1, 1)]), 2))); b.extend(reg(mats(&ints(-1, t.pick(0, 1)), 3))); b.extend(reg(odd3())); b.extend(reg(mats(&qv(&[(1, 2), (-3, 1)]), 1)));
    for d in 4..=6 { b.extend(reg(maps_large(d).into_iter().map(|a| a.l).collect())) }
    v.push(Space::list("bases", b, bases));
    let mut sp = mats(&ints(-t.pick(2, 3), 3), 2); sp.extend(mats(&ints(-3, 3), 1)); sp.extend(mats(&qv(&[(0, 1), (1, 1), (1, 2), (-2, 3), (5, 4)]), 2)); sp.extend(mats(&ints(0, 1), 3));
    for w in words(&ints(-2, 2), 6) { sp.push(vec![vec![w[0], w[1], w[2]], vec![w[1], w[3], w[4]], vec![w[2], w[4], w[5]]]); }
    for w in words(&ints(-1, t.pick(0, 1)), 3) { for u in words(&ints(-1, 1), 3) { sp.push(vec![vec![Q::int(3), w[0], w[1]], vec![u[0], Q::int(2), w[2]], vec![u[1], u[2], Q::int(2)]]); } }
    for d in 4..=7usize {
        // diagonal ones, and the same after a change of basis; one entry off
        for w in words(&ints(-1, 2), if d < 6 { d } else { 2 }) {
            let w: Vec<Q> = (0..d).map(|k| if d < 6 { w[k] } else if k + 2 >= d { w[k + 2 - d] } else { Q::int(1 + k as i128 % 2) }).collect();
            let diag: M = (0..d).map(|i| (0..d).map(|j| if i == j { w[i] } else { Q::ZERO }).collect()).collect();
            let sh: M = (0..d).map(|i| (0..d).map(|j| Q::int(if i == j { 1 } else if j > i { ((i + 2 * j) % 3) as i128 - 1 } else { 0 })).collect()).collect();
            let bent = mat::mul(&mat::mul(&mat::transpose(&sh, d), &diag), &sh);
            let turned = mat::mul(&mat::mul(&sh, &diag), &mat::transpose(&sh, d));
            if w.iter().all(|x| *x > Q::ZERO) { for i in 0..d { for j in 0..d { if i != j { let mut g = diag.clone(); g[i][j] = Q::ONE; sp.push(g.clone()); g[j][i] = Q::ONE; sp.push(g.clone()); g[j][i] = Q::int(2); g[i][j] = Q::int(2); sp.push(g) } } } }
            sp.push(diag); sp.push(bent); sp.push(turned);
        }
    }
    v.push(Space::list("candidates for scalar products", sp, scalar_product));
    v
}

// ---- C27 --------------------------------------------------------------------------------------

/// Integer operators: matrix entries, and shifts in units of 1/12.
type Op = (Vec<i64>, Vec<i64>);
fn mul_op(a: &Op, b: &Op, d: usize) -> Op {
    let mut m = vec![0; d * d];
    for i in 0..d { for j in 0..d { for k in 0..d { m[i * d + j] += a.0[i * d + k] * b.0[k * d + j]; } } }
    let s = (0..d).map(|i| (a.1[i] + (0..d).map(|k| a.0[i * d + k] * b.1[k]).sum::<i64>()).rem_euclid(12)).collect();
    (m, s)
}
fn closure(gens: &[Op], d: usize, cap: usize) -> Option<BTreeSet<Op>> {
    let id: Op = ((0..d * d).map(|k| (k / d == k % d) as i64).collect(), vec![0; d]);
    let mut seen = BTreeSet::new();
    seen.insert(id.clone());
    let mut todo = vec![id];
    while let Some(a) = todo.pop() { for g in gens { let b = mul_op(&a, g, d); if b.0.iter().any(|x| x.abs() > 1000) { return None; } if seen.insert(b.clone()) { if seen.len() > cap { return None; } todo.push(b); } } }
    Some(seen)
}
/// Integer matrices of finite order with entries -1, 0, 1.
fn finite_order(d: usize) -> Vec<Vec<i64>> {
    (0..3u64.pow((d * d) as u32)).map(|i| en::word(i, 3, d * d).into_iter().map(|x| x as i64 - 1).collect::<Vec<i64>>())
        .filter(|m| { let id: Vec<i64> = (0..d * d).map(|k| (k / d == k % d) as i64).collect(); let a: Op = (m.clone(), vec![0; d]); let mut p = a.clone();
            for _ in 0..6 { if p.0 == id { return true; } if p.0.iter().any(|x| x.abs() > 9) { return false; } p = mul_op(&p, &a, d); } false }).collect()
}
fn generated(gens: &[Op], d: usize, c: &mut Ctx) {
    let want = match closure(gens, d, 4000) { Some(w) => w, None => { c.outcome("infinite group left out"); return; } };
    let g: Vec<AffineMap<BigRational, In>> = gens.iter().map(|(m, s)| map_of(&A { l: m.chunks(d).map(|r| r.iter().map(|&x| Q::int(x as i128)).collect()).collect(), s: s.iter().map(|&x| Q::new(x as i128, 12)).collect() })).collect();
    let got = generate(&g);
    let mut seen = HashSet::new();
    for (k, op) in got.iter().enumerate() {
        let a = match of_map(op) { Some(a) => a, None => return c.fail(format!("generators {:?}: operator {} is not representable", gens, op)) };
        if k == 0 && !c.check(op.is_identity(), &|| format!("generators {:?}: the list starts with {:?}", gens, a)) { return; }
        let o: Op = (a.l.iter().flatten().map(|x| if x.is_int() { x.n as i64 } else { 999 }).collect(), a.s.iter().map(|x| { let y = *x * Q::int(12); if y.is_int() { y.n.rem_euclid(12) as i64 } else { -1 } }).collect());
        if !c.check(want.contains(&o), &|| format!("generators {:?} (shifts in twelfths): {:?} is not in the group", gens, a)) { return; }
        if !c.check(seen.insert(o.clone()), &|| format!("generators {:?} (shifts in twelfths): {:?} is listed twice modulo lattice translations", gens, a)) { return; }
    }
    c.check(seen.len() == want.len(), &|| format!("generators {:?} (shifts in twelfths): {} operators of {} listed", gens, seen.len(), want.len()));
    if want.len() > 2 { c.nontrivial(&gens); c.sample(|| format!("{:?}: {} operators", gens, want.len())); }
    c.outcome(&format!("dimension {}, order {}", d, want.len()));
}
fn mod_pair(u: &[Q], v: &[Q], c: &mut Ctx) {
    let (x, y): (Vector<BigRational, In>, Vector<BigRational, In>) = (vec_of(u), vec_of(v));
    let same = u.iter().zip(v).all(|(&a, &b)| (a - b).is_int());
    want!(c, x.mod_z() == y.mod_z(), same, "reductions of {:?} and {:?} being equal", u, v);
    let r = of_vec(&x.mod_z());
    if !c.check(r.as_ref().map_or(false, |r| r.iter().zip(u).all(|(&a, &b)| (a - b).is_int())), &|| format!("reduction of {:?} is {:?}", u, r)) { return; }
    let d = u.len();
    let l = if d > 1 { let mut l = mat::ident(d); l[0][d - 1] = Q::int(-1); l } else { mat::ident(d) };
    let (f, g): (AffineMap<BigRational, In>, AffineMap<BigRational, In>) = (map_of(&A { l: l.clone(), s: u.to_vec() }), map_of(&A { l: l.clone(), s: v.to_vec() }));
    want!(c, f.mod_z() == g.mod_z(), same, "reductions of operators with shifts {:?} and {:?} being equal", u, v);
    want!(c, from(&f.mod_z().linear_matrix()), Some(l), "linear part after reduction");
    if same && u != v { c.nontrivial(&(u, v)); }
    c.outcome(if same { "same coset" } else { "different cosets" });
}
fn c27(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let fr: Vec<Q> = { let mut s: Vec<Q> = (1..=t.pick(4i128, 6)).flat_map(|d| (-2 * d - 1..=2 * d + 1).map(move |n| Q::new(n, d))).collect(); s.sort(); s.dedup(); s };
    for (d, al) in [(1usize, fr.clone()), (2, qv(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (3, 2), (-1, 3), (2, 3), (-5, 3), (1, 3), (7, 3)])), (3, qv(&[(0, 1), (1, 2), (-1, 2), (-3, 1)]))] {
        let w = Arc::new(words(&al, d)); let n = w.len() as u64;
        v.push(Space::new(&format!("pairs of vectors, dimension {}", d), n * n, move |i, c| mod_pair(&w[(i / n) as usize], &w[(i % n) as usize], c)));
    }
    let fin = |d: usize| finite_order(d);
    let m1 = fin(1); let m2 = fin(2);
    let m3: Vec<Vec<i64>> = { let mut v: Vec<Vec<i64>> = signed_perms(3).into_iter().map(|m| m.into_iter().flatten().map(|x| x.n as i64).collect()).collect(); for m in &odd3()[..4] { v.push(m.iter().flatten().map(|x| x.n as i64).collect()) } v };
    let sh1: Vec<Vec<i64>> = [0i64, 6, -6, 4, -4, 8, 3, -9, 12, 18, -20, 1].iter().map(|&x| vec![x]).collect();
    let grid = |al: &[i64], d: usize| -> Vec<Vec<i64>> { (0..(al.len() as u64).pow(d as u32)).map(|i| en::word(i, al.len() as u64, d).into_iter().map(|k| al[k]).collect()).collect() };
    let ops = |m: &Vec<Vec<i64>>, s: &Vec<Vec<i64>>| -> Vec<Op> { m.iter().flat_map(|m| s.iter().map(move |s| (m.clone(), s.clone()))).collect() };
    let one = |name: &str, d: usize, l: Vec<Op>| Space::list(&format!("single generators, {}", name), l, move |o, c| generated(&[o.clone()], d, c));
    let two = |name: &str, d: usize, l: Vec<Op>, m: Vec<Op>| { let n = m.len() as u64; Space::new(&format!("pairs of generators, {}", name), l.len() as u64 * n, move |i, c| generated(&[l[(i / n) as usize].clone(), m[(i % n) as usize].clone()], d, c)) };
    let o1 = ops(&m1, &sh1);
    v.push(one("line", 1, o1.clone()));
    v.push(two("line", 1, o1.clone(), o1.clone()));
    v.push(one("plane", 2, ops(&m2, &grid(&[0, 6, -6, 4, -3, 18, -8], 2))));
    let o2 = ops(&m2, &vec![vec![0, 0], vec![-6, 0], vec![6, 6], vec![4, -4], vec![3, 15]]);
    v.push(two("plane", 2, o2.clone(), ops(&m2, &t.pick(vec![vec![0, 0], vec![6, -6]], vec![vec![0, 0], vec![0, -6], vec![-6, -18], vec![-4, 8]]))));
    v.push(one("space", 3, ops(&m3, &grid(&[0, 6, -6, t.pick(-3, 9)], 3))));
    let m3r: Vec<Vec<i64>> = m3.iter().step_by(t.pick(5, 1)).cloned().collect();
    v.push(two("space", 3, ops(&m3, &vec![vec![0, 0, 0], vec![6, 0, -6], vec![-3, 3, 9]][..t.pick(2, 3)].to_vec()), ops(&m3r, &vec![vec![0, 0, 0], vec![-6, 6, 0], vec![0, -18, 3]][..t.pick(2, 3)].to_vec())));
    // screws, glides and centerings together
    let mut tr: Vec<Vec<Op>> = vec![];
    let idm: Vec<i64> = vec![1, 0, 0, 0, 1, 0, 0, 0, 1];
    for (m, s) in [(vec![-1, 0, 0, 0, -1, 0, 0, 0, 1], vec![6, 0, 6]), (vec![0, -1, 0, 1, 0, 0, 0, 0, 1], vec![0, 6, 3]), (vec![0, 0, 1, 1, 0, 0, 0, 1, 0], vec![0, 0, 0]), (vec![-1, 0, 0, 0, -1, 0, 0, 0, -1], vec![3, -3, 9]), (vec![0, 1, 0, 1, 0, 0, 0, 0, -1], vec![0, 0, 4])] {
        for ce in [vec![6i64, 6, 0], vec![-6, 6, -6], vec![0, 6, 6], vec![8, 4, 4], vec![4, 8, -4], vec![-3, 3, 3], vec![12, 0, 0]] { for ce2 in [vec![0i64, 0, 0], vec![0, -6, 6], vec![6, 0, 6]] { for e in 0..2 {
            let mut g = vec![(m.clone(), s.clone()), (idm.clone(), ce.clone()), (idm.clone(), ce2.clone())];
            if e == 1 { g.push((vec![1, 0, 0, 0, -1, 0, 0, 0, 1], vec![0, 6, -6])) }
            tr.push(g);
        } } }
    }
    v.push(Space::list("several generators with centerings", tr, |g, c| generated(g, 3, c)));
    v.extend(large_groups(t));
    v.push(other_orders(t));
    v
}

fn flat(m: &M) -> Vec<i64> { m.iter().flatten().map(|x| x.n as i64).collect() }
/// Any rational shifts: compared with a closure computed on rationals.
fn generated_q(gens: &[A], max: usize, c: &mut Ctx) {
    let d = gens[0].dim();
    let mut want = vec![A::id(d)];
    let mut seen: HashSet<A> = want.iter().cloned().collect();
    let mut i = 0;
    while i < want.len() { for g in gens { let x = want[i].mul(g).frac(); if seen.insert(x.clone()) { want.push(x); if want.len() > max { c.outcome("group too large"); return } } } i += 1 }
    c.evals(1);
    let g: Vec<AffineMap<BigRational, In>> = gens.iter().map(map_of).collect();
    let got: Option<Vec<A>> = match attempt(|| generate(&g)) { Ok(x) => x.iter().map(of_map).collect(), Err(p) => return c.fail(format!("generators {:?}: panicked: {}", gens, p)) };
    let got = match got { Some(x) => x, None => return c.fail(format!("generators {:?}: an operator is not representable", gens)) };
    if !c.check(got.get(0) == Some(&A::id(d)), &|| format!("generators {:?}: the list starts with {:?}", gens, got.get(0))) { return; }
    let red: HashSet<A> = got.iter().map(|a| a.frac()).collect();
    if !c.check(red.len() == got.len(), &|| format!("generators {:?}: operators are listed twice modulo lattice translations", gens)) { return; }
    c.check(red == seen, &|| format!("generators {:?}: {} operators, expected {}; missing {:?}, extra {:?}", gens, red.len(), seen.len(), seen.difference(&red).next(), red.difference(&seen).next()));
    if seen.len() > 2 { c.nontrivial(&gens); c.sample(|| format!("{:?}: {} operators", gens, seen.len())); }
}
/// Translations of other orders than those of the shipped groups, with and without other operators.
fn other_orders(t: Tier) -> Space {
    let dens: Vec<i128> = t.pick(vec![2, 5, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 24, 25, 31, 32, 64, 100, 127, 256], (2..=80).chain([96, 97, 100, 127, 128, 211, 255, 256, 257, 300, 512]).collect());
    let nd = dens.len() as u64;
    Space::new("translations of other orders", nd * 3 * 6 * 4, move |i, c| {
        let w = en::digits(i, &[nd, 3, 6, 4]);
        let (q, d) = (dens[w[0] as usize], w[1] as usize + 1);
        if (d == 1 && (w[2] > 2 || w[3] > 2)) || (q > 32 && w[2] > 1) { return }
        let s: Vec<Q> = (0..d).map(|k| match w[3] { 0 => Q::new((k == 0) as i128, q), 1 => Q::new(1 - 2 * k as i128, q), 2 => Q::new([q + 1, q - 1, -2 * q + 2][k], q), _ => Q::new(1 + k as i128, q + k as i128) }).collect();
        let z = vec![Q::ZERO; d];
        let mut gens = vec![A { l: mat::ident(d), s: s.clone() }];
        match w[2] {
            1 => gens.push(A { l: mat::ident(d).iter().map(|r| r.iter().map(|&x| -x).collect()).collect(), s: s.clone() }),
            2 => { gens[0].l = mat::ident(d).iter().map(|r| r.iter().map(|&x| -x).collect()).collect(); gens.push(A { l: mat::ident(d), s: s.iter().map(|&x| x + x + Q::new(1, 3)).collect() }) }
            3 => gens.push(A { l: (0..d).map(|i| (0..d).map(|j| Q::int((j == (i + 1) % d) as i128)).collect()).collect(), s: z }),
            4 => { gens[0].l[0][0] = -Q::ONE; gens.push(A { l: mat::ident(d), s: z.iter().enumerate().map(|(k, _)| Q::new((k == 1) as i128, 2)).collect() }) }
            5 => { gens[0].l = (0..d).map(|i| (0..d).map(|j| Q::int(if i == 0 && j == 1 { -1 } else if i == 1 && j == 0 { 1 } else { (i == j && i > 1) as i128 })).collect()).collect(); }
            _ => {}
        }
        generated_q(&gens, t.pick(1200, 3000), c)
    })
}
/// Lists of many generators, large groups, higher dimensions.
fn large_groups(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let id = |d: usize| -> Vec<i64> { (0..d * d).map(|k| (k / d == k % d) as i64).collect() };
    // whole groups as generators, in several orders, given repeatedly and by other representatives
    let hyper = |d: usize| -> Vec<Vec<i64>> { signed_perms(d).iter().map(flat).collect() };
    let cents: Vec<Vec<Vec<i64>>> = vec![vec![], vec![vec![6, 6, 6]], vec![vec![6, 6, 0], vec![0, 6, 6]], vec![vec![6, 0, 0], vec![0, 6, 0], vec![0, 0, 6]], vec![vec![4, 8, 4]], vec![vec![3, 3, 3], vec![6, 0, 6]]];
    let starts: Vec<Vec<Vec<i64>>> = { let h = hyper(3); let r: Vec<Vec<i64>> = odd3().iter().map(flat).collect();
        let mut s: Vec<Vec<Vec<i64>>> = (0..48).step_by(t.pick(9, 1)).map(|k| vec![h[k].clone(), h[(7 * k + 11) % 48].clone()]).collect(); s.push(h[..16].to_vec()); s.push(h); s.push(r[..2].to_vec()); s.push(r[2..4].to_vec()); s.push(vec![r[0].clone()]); s };
    let (cents, starts) = (Arc::new(cents), Arc::new(starts));
    let (nc, ns) = (cents.len() as u64, starts.len() as u64);
    v.push(Space::new("groups of high order", nc * ns * 3, move |i, c| {
        let d = en::digits(i, &[nc, ns, 3]);
        let mut g: Vec<Op> = starts[d[1] as usize].iter().enumerate().map(|(k, m)| (m.clone(), vec![[0, 12, -24][k % 3], 0, if d[2] == 1 { 12 } else { 0 }])).collect();
        g.extend(cents[d[0] as usize].iter().map(|s| (id(3), s.clone())));
        if d[2] == 2 { g.reverse() }
        generated(&g, 3, c)
    }));
    let lists: Vec<(Vec<Op>, usize)> = {
        let mut l = vec![];
        for (gens, d) in [(vec![(vec![-1, 0, 0, 0, -1, 0, 0, 0, 1], vec![6i64, 0, 6]), (vec![1, 0, 0, 0, -1, 0, 0, 0, 1], vec![0, 6, -6])], 3usize), (vec![(vec![0, -1, 0, 1, 0, 0, 0, 0, 1], vec![0, 0, 3]), (id(3), vec![6, 6, 6])], 3), (vec![(vec![0, 0, 1, 1, 0, 0, 0, 1, 0], vec![0, 0, 0]), (vec![-1, 0, 0, 0, -1, 0, 0, 0, 1], vec![6, 0, 6]), (vec![0, 1, 0, 1, 0, 0, 0, 0, -1], vec![9, 3, 3])], 3), (vec![(vec![0, -1, 1, -1], vec![0, 0]), (vec![0, 1, 1, 0], vec![0, 0])], 2), (vec![(vec![0, -1, 1, 0], vec![0, 6]), (id(2), vec![6, 6])], 2), (vec![(vec![-1], vec![3])], 1), (vec![(id(1), vec![1])], 1)] {
            if let Some(w) = closure(&gens, d, 400) { let w: Vec<Op> = w.into_iter().collect(); for k in 1..=w.len().min(60) { for step in [1usize, 7, 11] { for e in 0..3 {
                let mut x: Vec<Op> = (0..k).map(|j| w[(j * step) % w.len()].clone()).collect();
                if e == 1 { for (j, o) in x.iter_mut().enumerate() { for (m, s) in o.1.iter_mut().enumerate() { *s += 12 * ((j + m) as i64 % 3 - 1) } } }
                if e == 2 { let y = x.clone(); x.extend(y.into_iter().rev()); }
                l.push((x, d));
            } } } }
        }
        l.into_iter().step_by(t.pick(4, 1)).collect()
    };
    v.push(Space::list("long lists of generators", lists, |(g, d), c| generated(g, *d, c)));
    // a translation of each denominator, alone and with an inversion
    for d in 1..=3usize { v.push(Space::new(&format!("translations by twelfths, dimension {}", d), 25u64.pow(d.min(2) as u32) * 2, move |i, c| {
        let w = en::word(i / 2, 25, d.min(2));
        let s: Vec<i64> = (0..d).map(|k| w[k % w.len()] as i64 - 12).collect();
        let mut g = vec![(id(d), s.clone())];
        if i % 2 == 1 { g.push((id(d).iter().map(|x| -x).collect(), s)) }
        generated(&g, d, c)
    })); }
    // higher dimensions
    for d in 4..=t.pick(4usize, 5) {
        let h = Arc::new(hyper(d)); let n = h.len() as u64;
        let step = t.pick(13, 31);
        let m = n / step;
        let hh = h.clone();
        v.push(Space::new(&format!("single generators, dimension {}", d), n, move |i, c| generated(&[(hh[i as usize].clone(), (0..d).map(|k| [6, 0, -6, 3, 4][(k + i as usize) % 5]).collect())], d, c)));
        v.push(Space::new(&format!("pairs of generators, dimension {}", d), m * m, move |i, c| { let (a, b) = (&h[(i / m * step) as usize], &h[(i % m * step + 3) as usize]); generated(&[(a.clone(), vec![0; d]), (b.clone(), (0..d).map(|k| if i % 2 == 0 { 0 } else { [12, 0, -12, 24][k % 4] }).collect())], d, c) }));
    }
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C25", level: "exploration", spaces: c25, assumptions: &["values small enough to be exact in the number type"],
        rule: "one case per pair of maps, single map or pair of vectors, in all owned and borrowed forms, for 64-bit integers and rationals; non-trivial if the operation is defined" },
    Check { id: "C26", level: "exploration", spaces: c26, assumptions: &["changes are invertible"],
        rule: "one case per chain of two changes with a map and a scalar product, per basis, and per candidate for a scalar product; non-trivial if legal" },
    Check { id: "C27", level: "exploration", spaces: c27, assumptions: &["generators have integer linear parts and generate a finite group modulo the lattice"],
        rule: "one case per list of generators (compared with a closure computed on integers) or pair of vectors; non-trivial if the group has more than two elements or the vectors are equivalent but different" },
];
