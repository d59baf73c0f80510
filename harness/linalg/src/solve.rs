//! C15-C20, C24: reduced bases, systems, inverses, rank, determinants, incremental bases.
use crate::adapt::*;
use fw::en;
use fw::mat::{self, Z, M};
use fw::q::{gcd, Q};
use fw::{Check, Ctx, Space, Tier};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::linear_algebra::{extend_basis, gcdx, LinearAlgebra};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use std::sync::Arc;

/// The i-th matrix with the given entries.
pub fn mat_at(i: u64, al: &[Q], r: usize, c: usize) -> M { en::word(i, al.len() as u64, r * c).chunks(c).map(|w| w.iter().map(|&k| al[k]).collect()).collect() }
pub fn ints(lo: i128, hi: i128) -> Vec<Q> { (lo..=hi).map(Q::int).collect() }
pub fn fracs() -> Vec<Q> { [(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3), (3, 1), (-5, 4)].iter().map(|&(n, d)| Q::new(n, d)).collect() }
pub fn zm(a: &M) -> Z { a.iter().map(|r| r.iter().map(|x| { assert!(x.is_int()); x.n }).collect()).collect() }
fn is_int(a: &M) -> bool { a.iter().flatten().all(|x| x.is_int()) }

/// Spaces of matrices: (name, entries, rows, columns).
type Shape = (&'static str, Vec<Q>, usize, usize);
fn count(s: &Shape) -> u64 { (s.1.len() as u64).pow((s.2 * s.3) as u32) }

fn shapes_int(t: Tier) -> Vec<Shape> {
    let b = |q, th| ints(-t.pick(q, th), t.pick(q, th));
    vec![
        ("1x1", b(20, 60), 1, 1), ("1x2", b(9, 20), 1, 2), ("1x3", b(5, 8), 1, 3), ("2x1", b(9, 20), 2, 1), ("3x1", b(5, 8), 3, 1), ("4x1", b(3, 5), 4, 1),
        ("2x2", b(5, 9), 2, 2), ("2x3", b(2, 3), 2, 3), ("3x2", b(2, 3), 3, 2), ("3x3", ints(-1, t.pick(1, 2)), 3, 3), ("2x4", ints(-1, 1), 2, 4), ("4x2", ints(-1, 1), 4, 2),
        ("3x4", t.pick(ints(0, 1), ints(-1, 1)), 3, 4), ("4x3", t.pick(ints(0, 1), ints(-1, 1)), 4, 3), ("4x4", ints(0, 1), 4, 4),
    ]
}
fn shapes_frac(t: Tier) -> Vec<Shape> {
    vec![("1x1 fractions", fracs(), 1, 1), ("1x3 fractions", fracs(), 1, 3), ("2x1 fractions", fracs(), 2, 1), ("2x2 fractions", fracs(), 2, 2),
        ("2x3 fractions", fracs()[..t.pick(5, 6)].to_vec(), 2, 3), ("3x2 fractions", fracs()[..t.pick(5, 6)].to_vec(), 3, 2), ("3x3 fractions", vec![Q::ZERO, Q::ONE, Q::new(-1, 2)], 3, 3)]
}
/// Rows that are combined in every way to larger matrices.
fn rows(n: usize, k: usize) -> Vec<Vec<Q>> {
    let pats: [[i128; 6]; 14] = [[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [1, 1, 1, 1, 1, 1], [2, -1, 0, 3, 1, -2], [0, 0, 2, -3, 1, 0], [-4, 6, 2, 0, -2, 8], [0, 0, 0, 1, -1, 2], [3, 0, -1, 0, 5, -7],
        [0, 5, 0, 0, 0, 4], [0, 0, 0, 0, 2, 3], [-1, 2, -3, 4, -5, 6], [7, 7, 0, 0, -7, 1], [0, 0, 0, 0, 0, 0], [12, -18, 30, 6, 24, -6]];
    pats[..k].iter().map(|p| p[..n].iter().map(|&x| Q::int(x)).collect()).collect()
}

fn spaces<F: Fn(&M, usize, &mut Ctx) + Send + Sync + 'static>(shapes: Vec<Shape>, tag: &str, f: F) -> Vec<Space> {
    let f = Arc::new(f);
    shapes.into_iter().map(|s| { let f = f.clone(); let n = count(&s);
        Space::new(&format!("{} {} from {} entries", tag, s.0, s.1.len()), n, move |i, c| { let m = mat_at(i, &s.1, s.2, s.3); f(&m, s.3, c) }) }).collect()
}
fn row_space<F: Fn(&M, usize, &mut Ctx) + Send + Sync + 'static>(name: &str, r: usize, n: usize, k: usize, f: F) -> Space {
    let rs = rows(n, k);
    Space::new(name, (k as u64).pow(r as u32), move |i, c| { let m: M = en::word(i, k as u64, r).into_iter().map(|j| rs[j].clone()).collect(); f(&m, n, c) })
}

/// All minors are zero or powers of two: elimination in binary floating point is then exact, in whatever order.
fn dyadic(a: &M, nc: usize) -> bool {
    let pow2 = |q: Q| q.is_zero() || (q.n.unsigned_abs().is_power_of_two() && (q.d as u128).is_power_of_two() && q.n.unsigned_abs() < 1 << 20 && q.d < 1 << 20);
    let nr = a.len();
    (1..=nr.min(nc)).all(|k| en::combos(nr, k).iter().all(|rs| en::combos(nc, k).iter().all(|cs| pow2(mat::det(&rs.iter().map(|&i| cs.iter().map(|&j| a[i][j]).collect()).collect())))))
}
fn shapes_float(t: Tier) -> Vec<Shape> {
    let h = Q::new(1, 2);
    vec![("1x2", ints(-4, 4), 1, 2), ("2x2", vec![Q::ZERO, Q::ONE, -Q::ONE, h, -h, Q::int(2), Q::int(-4), Q::int(3)], 2, 2), ("2x3", vec![Q::ZERO, Q::ONE, -Q::ONE, h, Q::int(-2)], 2, 3), ("3x2", vec![Q::ZERO, Q::ONE, -Q::ONE, h, Q::int(-2)], 3, 2),
        ("3x3", ints(-1, t.pick(1, 2)), 3, 3), ("4x4", ints(0, 1), 4, 4), ("3x4", t.pick(ints(0, 1), ints(-1, 1)), 3, 4), ("4x3", t.pick(ints(0, 1), ints(-1, 1)), 4, 3)]
}
fn shapes_large() -> Vec<Shape> {
    let l = |v: &[i128]| -> Vec<Q> { v.iter().map(|&x| Q::int(x)).collect() };
    vec![("1x3 large", l(&[0, 1, -1, 1 << 31, -(1 << 40), 999_999_999_989, 1_000_000_007]), 1, 3), ("2x2 large", l(&[0, 1, -1, 2, 1 << 30, -(1 << 29), 999_999_937, -735_134_400, 65_537]), 2, 2),
        ("2x3 large", l(&[0, 1, -1, 2520, -1681, 2047]), 2, 3), ("3x2 large", l(&[0, 1, -1, 2520, -1681, 2047]), 3, 2)]
}
/// Matrix entries far beyond machine integers: rows and columns of a small matrix multiplied by huge factors.
struct Huge { row: Vec<BigRational>, col: Vec<BigRational>, m: Matrix<BigRational> }
fn huge(a: &M, nc: usize, k: usize) -> Huge {
    let f: [BigRational; 5] = std::array::from_fn(|i| {
        let big = |b: u64, e: u32| num_traits::pow(BigInt::from(b), e as usize);
        match i { 0 => BigRational::new(big(3, 71), big(2, 83)), 1 => BigRational::from(big(10, 25) + 13), 2 => BigRational::new(BigInt::from(-1), big(7, 40)), 3 => BigRational::from(BigInt::from(1)), _ => BigRational::new(-(big(2, 127)), BigInt::from(9999991)) } });
    let row: Vec<BigRational> = (0..a.len()).map(|i| f[(i * 2 + k) % 5].clone()).collect();
    let col: Vec<BigRational> = (0..nc).map(|j| if k == 0 { f[3].clone() } else { f[(j + k) % 5].clone() }).collect();
    let e: Vec<BigRational> = (0..a.len()).flat_map(|i| { let (row, col) = (&row, &col); (0..nc).map(move |j| &row[i] * a[i][j].big() * &col[j]) }).collect();
    Huge { m: Matrix::new(nc, &e), row, col }
}
fn entry(m: &Matrix<BigRational>, i: usize, j: usize) -> BigRational { m[(i, j)].clone() }
fn shapes_huge(sq: bool, t: Tier) -> Vec<Shape> {
    let mut v = vec![("1x1", fracs(), 1, 1), ("2x2", ints(-2, 2), 2, 2), ("3x3", vec![Q::ZERO, Q::ONE, Q::int(-2)], 3, 3)];
    if !sq { v.push(("1x3", ints(-1, 2), 1, 3)); v.push(("2x3", ints(-1, 1), 2, 3)); v.push(("3x2", ints(-1, 1), 3, 2)); } else if t == Tier::Thorough { v.push(("4x4", ints(0, 1), 4, 4)); }
    v
}
fn reduced_huge(a: &M, nc: usize, c: &mut Ctx) {
    let want = mat::rref(a, nc);
    for k in 0..3 {
        let h = huge(a, nc, k);
        let got = h.m.reduced_basis();
        c.evals(1);
        let ok = (want.is_empty() && got.shape().0 == 0) || got.shape() == (want.len(), nc) && want.iter().enumerate().all(|(i, r)| {
            let p = r.iter().position(|x| !x.is_zero()).unwrap();
            (0..nc).all(|j| entry(&got, i, j) == r[j].big() * &h.col[j] / &h.col[p]) });
        if !c.check(ok, &|| format!("rational reduced basis of {:?} is {:?}", h.m, got)) { return; }
        if want.len() > 1 { c.nontrivial(&(a, k)); }
    }
    c.outcome(&format!("huge entries rank {}", want.len()));
}
fn solved_huge(a: &M, nc: usize, c: &mut Ctx) {
    for k in 0..3 {
        let h = huge(a, nc, k);
        // one right-hand side in the column space, one that need not be
        let n = a.len();
        let b: Vec<BigRational> = (0..n).flat_map(|i| { let h = &h; vec![(0..nc).fold(BigRational::zero(), |s, j| s + entry(&h.m, i, j) * BigRational::from(BigInt::from(j as i64 * 2 - 1))), if i == k % n { h.row[i].clone() } else { BigRational::zero() }] }).collect();
        for cols in [1usize, 2] {
            let bm = Matrix::new(cols, &(0..n).flat_map(|i| b[2 * i..2 * i + cols].to_vec()).collect::<Vec<_>>());
            let unit: M = (0..n).map(|i| vec![if i == k % n { Q::ONE } else { Q::ZERO }]).collect();
            let can = cols == 1 || mat::solvable_q(a, &unit, nc, 1);
            c.evals(1);
            match h.m.solve(&bm) {
                None => if !c.check(!can, &|| format!("no solution of {:?} X = {:?} reported", h.m, bm)) { return; },
                Some(x) => {
                    let ok = can && x.shape() == (nc, cols) && (0..n).all(|i| (0..cols).all(|l| (0..nc).fold(BigRational::zero(), |s, j| s + entry(&h.m, i, j) * entry(&x, j, l)) == entry(&bm, i, l)));
                    if !c.check(ok, &|| format!("{:?} X = {:?} solved by {:?}", h.m, bm, x)) { return; }
                    c.nontrivial(&(a, k, cols));
                }
            }
        }
    }
}
fn square_huge(a: &M, n: usize, c: &mut Ctx) {
    let d = mat::det(a);
    for k in 0..3 {
        let h = huge(a, n, k);
        let det = h.row.iter().chain(&h.col).fold(d.big(), |s, x| s * x);
        let got = h.m.determinant();
        c.evals(1);
        if !c.check(got == det, &|| format!("determinant of {:?} is {}, expected {}", h.m, got, det)) { return; }
        if !d.is_zero() { c.nontrivial(&(a, k)); }
    }
}
fn inverse_huge(a: &M, n: usize, c: &mut Ctx) {
    let want = mat::inverse(a);
    for k in 0..3 {
        let h = huge(a, n, k);
        c.evals(1);
        let ok = match (h.m.inverse(), &want) { (None, None) => true, (Some(x), Some(w)) => x.shape() == (n, n) && (0..n).all(|i| (0..n).all(|j| entry(&x, i, j) == w[i][j].big() / &h.col[i] / &h.row[j])), _ => false };
        if !c.check(ok, &|| format!("inverse of {:?} is {:?}", h.m, h.m.inverse())) { return; }
        if want.is_some() { c.nontrivial(&(a, k)); }
    }
}
fn null_huge(a: &M, nc: usize, c: &mut Ctx) {
    let want = mat::rank(a, nc);
    for k in 0..3 {
        let h = huge(a, nc, k);
        c.evals(1);
        let r = h.m.rank();
        if !c.check(r == want, &|| format!("rank of {:?} is {}, expected {}", h.m, r, want)) { return; }
        let ok = match h.m.null_space() { None => want == nc, Some(x) => want < nc && x.shape() == (nc, nc - want) && x.rank() == nc - want
            && (0..a.len()).all(|i| (0..nc - want).all(|l| (0..nc).fold(BigRational::zero(), |s, j| s + entry(&h.m, i, j) * entry(&x, j, l)).is_zero())) };
        if !c.check(ok, &|| format!("null space of {:?} is {:?}", h.m, h.m.null_space())) { return; }
        if want < nc { c.nontrivial(&(a, k)); }
    }
}

/// Structured matrices of any shape; those with `true` stay small under elimination.
pub fn structured(h: usize, w: usize) -> Vec<(bool, M)> {
    let f = |g: &dyn Fn(i128, i128) -> i128| -> M { (0..h as i128).map(|i| (0..w as i128).map(|j| Q::int(g(i, j))).collect()).collect() };
    let (n, m) = (h as i128, w as i128);
    let b = |x: bool| x as i128;
    vec![
        (true, f(&|i, j| b(i == j))), (true, f(&|i, j| b((i + 1) % n == j))), (true, f(&|i, j| -b(i + j + 1 == m) * (1 + i % 3))), (true, f(&|i, j| b((i * 3 + 1) % m == j))),
        (true, f(&|i, j| b(j >= i))), (true, f(&|i, j| b(j <= i) * (1 + (i + j) % 2))), (true, f(&|i, j| b(j == i) * 2 - b(j == i + 1) - b(i == j + 1))), (true, f(&|i, j| b(i == j) + b(i % 3 == j % 3 && j > i))),
        (true, f(&|i, j| if j == 0 { 0 } else { b(i / 2 == j / 2) * (1 + b(i == j)) })), (true, f(&|_, _| 0)), (true, f(&|i, j| b(i == n - 1 && j == m - 1) * 5)), (true, f(&|i, j| b(j % 2 == 1 && i == j / 2) * (i + 1))),
        (true, f(&|i, j| 1 + b(i == j))), (true, f(&|i, j| if i % 2 == 0 { b(i == j) } else { b(i - 1 == j) * 2 })), (true, f(&|i, j| b(i == j + 1) + b(j + 1 == m) * (i + 1))),
        (false, f(&|i, j| (i * j + i + 1) % 7 - 3)), (false, f(&|i, j| (i + 1) * (j + 2) % 11)), (false, f(&|i, j| (i * i + 3 * j * j + i * j) % 5 - 2)), (false, f(&|i, j| (i % 4 + 1) * (j - 2) + (i % 2) * (j * j % 3))),
        (false, f(&|i, j| (2 + i).pow((j % 5) as u32) % 101 - 50)), (false, f(&|i, j| (i * 37 + j * 101 + i * j * j * 13) % 23 - 11)), (false, f(&|i, j| if j < 2 { 0 } else { (i * 5 + j * 7) % 13 - 6 })), (false, f(&|i, j| if i < 3 { (i + j * 2) % 5 - 2 } else { (i % 3 + j * 2) % 5 - 2 })),
        (false, f(&|i, j| if i >= j { (i * 7 + j * 5) % 9 + 1 } else { 0 })), (false, f(&|i, j| b(i == j) * (i + 2) + b(j > i) * ((i + j) % 4 - 1))),
    ]
}
/// All shapes with a side between 5 and `top`, the other from 1.
fn big_shapes(top: usize, square: bool) -> Vec<(usize, usize)> {
    (1..=top).flat_map(|h| (1..=top).map(move |w| (h, w))).filter(|&(h, w)| h.max(w) >= 5 && (!square || h == w)).collect()
}
/// Sparse matrices of more rows and columns; `true` as above.
pub fn sparse(h: usize, w: usize) -> Vec<(bool, M)> {
    let f = |g: &dyn Fn(i128, i128) -> i128| -> M { (0..h as i128).map(|i| (0..w as i128).map(|j| Q::int(g(i, j))).collect()).collect() };
    let (n, m) = (h as i128, w as i128);
    let b = |x: bool| x as i128;
    let mut v = vec![
        (true, f(&|i, j| b(i == j))), (true, f(&|i, j| b((i + m / 3) % m == j))), (true, f(&|i, j| b(i + j + 1 == m) * (1 - 2 * (i % 2)))), (true, f(&|i, j| b(i % m == j))), (true, f(&|i, j| b(j % n == i))),
        (true, f(&|i, j| b(i == j) + b(i + 1 == j))), (true, f(&|i, j| b(i == j) - b(i == j + 1))), (true, f(&|i, j| b(i == j) + 2 * b(j == m - 1 && i < j))), (true, f(&|i, j| b(i == j) + 2 * b(i == n - 1 && j < i))),
        (true, f(&|i, j| if i / 2 == j / 2 { [1, 2, 3, 5][(i % 2 * 2 + j % 2) as usize] } else { 0 })), (true, f(&|i, j| b(i / 2 == j))), (true, f(&|i, j| b(j / 2 == i))), (true, f(&|i, j| b(j == i + m / 2))), (true, f(&|i, j| b(j == i + m - n))), (true, f(&|i, j| b(i == j + n - m))),
        (true, f(&|i, j| b(i == j) * (1 + b(i % 5 == 4)))), (true, f(&|i, j| b(i == j) * b(i % 7 != 6))), (true, f(&|i, j| b(i == n - 1 && j == m - 1) + b(i == 0 && j == m - 1))), (true, f(&|i, j| b(i == (j * 5 + 2) % m.max(n)))),
        (true, f(&|i, j| b(i == j) + b(i == j % n && j >= n))), (true, f(&|i, j| b(i == 0) + b(i == j) * b(i > 0))), (true, f(&|i, j| b(j == 0) + b(i == j) * b(i > 0))),
    ];
    if h.max(w) <= 16 { v.push((true, f(&|i, j| 2 * b(i == j) + b(i + 1 == j)))); v.push((true, f(&|i, j| 2 * b(i == j) + b(i == j + 1)))); v.push((true, f(&|i, j| 2 * b(i + j + 1 == m) - b(i + j + 2 == m)))); v.push((true, f(&|i, j| 2 * b(i == j) - b(i + 1 == j) - b(i == j + 1)))); }
    v
}
fn sparse_space<F: Fn(bool, &M, usize, &mut Ctx) + Send + Sync + 'static>(t: Tier, square: bool, f: F) -> Space {
    let mut sh: Vec<(usize, usize)> = [9usize, 12, 16, 17, 24, 33].iter().map(|&n| (n, n)).collect();
    if t == Tier::Thorough { sh.extend([10usize, 11, 13, 14, 15, 18, 20, 32, 40, 48].map(|n| (n, n))); }
    if !square { for (a, b) in t.pick(vec![(1usize, 40usize), (3, 33), (9, 20), (12, 24), (16, 17), (16, 33)], vec![(1, 40), (2, 65), (3, 33), (8, 9), (9, 20), (12, 13), (12, 24), (15, 16), (16, 17), (16, 33), (20, 40), (32, 33)]) { sh.push((a, b)); sh.push((b, a)); } }
    let list: Vec<(bool, M, usize)> = sh.into_iter().flat_map(|(h, w)| sparse(h, w).into_iter().map(move |(s, m)| (s, m, w))).collect();
    Space::list("sparse matrices with many rows or columns", list, move |x, c| f(x.0, &x.1, x.2, c))
}
fn structured_space<F: Fn(bool, &M, usize, &mut Ctx) + Send + Sync + 'static>(t: Tier, square: bool, f: F) -> Space {
    let list: Vec<(bool, M, usize)> = big_shapes(t.pick(if square { 10 } else { 8 }, if square { 14 } else { 11 }), square).into_iter().flat_map(|(h, w)| structured(h, w).into_iter().map(move |(s, m)| (s, m, w))).collect();
    Space::list("structured larger matrices", list, move |x, c| f(x.0, &x.1, x.2, c))
}

// ---- C15 --------------------------------------------------------------------------------------

fn reduced<T: Num>(a: &M, nc: usize, c: &mut Ctx) where Matrix<T>: LinearAlgebra<T> {
    let m: Matrix<T> = to(a, nc);
    let got = m.reduced_basis();
    let want: M = if T::FIELD { mat::rref(a, nc) } else { mat::qm(&mat::hnf(&zm(a), nc)) };
    let g = from(&got);
    if !c.check(g.as_ref() == Some(&want) && (want.is_empty() || got.shape() == (want.len(), nc)), &|| format!("{} reduced basis of {:?} is {:?}, expected {:?}", T::NAME, a, g, want)) { return; }
    if want.len() > 1 && want != *a { c.nontrivial(&(T::NAME, a)); c.sample(|| format!("{} {:?} -> {:?}", T::NAME, a, want)); }
    c.outcome(&format!("{} rank {}", T::NAME, want.len()));
    c.evals(1);
}
fn c15(t: Tier) -> Vec<Space> {
    let f = |a: &M, n: usize, c: &mut Ctx| { reduced::<i64>(a, n, c); if !c.failed() { reduced::<BigRational>(a, n, c) } };
    let mut v = spaces(shapes_int(t), "integer", f);
    v.extend(spaces(shapes_int(Tier::Quick), "32-bit integer", |a, n, c| reduced::<i32>(a, n, c)));
    v.extend(spaces(shapes_int(Tier::Quick), "big integer", |a, n, c| reduced::<BigInt>(a, n, c)));
    v.extend(spaces(shapes_frac(t), "rational", |a, n, c| reduced::<BigRational>(a, n, c)));
    v.extend(spaces(shapes_large(), "integer", f));
    v.extend(spaces(shapes_float(t), "float", |a, n, c| if dyadic(a, n) { reduced::<f64>(a, n, c) }));
    v.extend(spaces(shapes_huge(false, t), "huge rational", reduced_huge));
    v.push(row_space("chosen rows 7x4", 7, 4, t.pick(5, 7), f));
    v.push(row_space("chosen rows 3x4", 3, 4, 14, f));
    v.push(row_space("chosen rows 4x5", 4, 5, t.pick(10, 14), f));
    v.push(row_space("chosen rows 5x4", 5, 4, t.pick(7, 11), f));
    v.push(row_space("chosen rows 3x6", 3, 6, 14, f));
    let g = |s: bool, a: &M, n: usize, c: &mut Ctx| { if s { reduced::<i64>(a, n, c); reduced::<i32>(a, n, c); } reduced::<BigInt>(a, n, c); reduced::<BigRational>(a, n, c); };
    v.push(structured_space(t, false, g));
    v.push(sparse_space(t, false, g));
    v
}

// ---- C16, C17, C18 --------------------------------------------------------------------------------

fn solved<T: Num>(a: &M, b: &M, nca: usize, ncb: usize, c: &mut Ctx) where Matrix<T>: LinearAlgebra<T> {
    let can = if T::FIELD { mat::solvable_q(a, b, nca, ncb) } else { mat::solvable_z(&zm(a), &zm(b), nca, ncb) };
    let x = to::<T>(a, nca).solve(&to::<T>(b, ncb));
    c.evals(1);
    match x {
        None => { c.check(!can, &|| format!("{}: no solution of {:?} X = {:?} reported, but there is one", T::NAME, a, b)); }
        Some(x) => {
            let sh = x.shape();
            let y = from(&x);
            let ok = sh == (nca, ncb) && y.as_ref().map_or(false, |y| mat::mul(a, y) == *b);
            if !c.check(ok, &|| format!("{}: {:?} X = {:?} solved by {:?} ({})", T::NAME, a, b, y, if can { "wrong" } else { "there is none" })) { return; }
            c.nontrivial(&(T::NAME, a, b));
        }
    }
    c.outcome(&format!("{} {}", T::NAME, if can { "solvable" } else { "unsolvable" }));
}

fn c16(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // (rows, cols of A, entries of A, rhs columns, entries of B)
    let mut list: Vec<(usize, usize, Vec<Q>, usize, Vec<Q>)> = vec![
        (1, 1, ints(-6, 6), 1, ints(-13, 13)), (1, 1, ints(-3, 3), 3, ints(-3, 3)), (1, 2, ints(-4, 4), 1, ints(-6, 6)), (1, 3, ints(-3, 3), 2, ints(-2, 2)), (2, 1, ints(-4, 4), 1, ints(-6, 6)),
        (2, 2, ints(-3, 3), 1, ints(-3, 3)), (2, 2, ints(-1, 2), 2, ints(-2, 2)), (2, 3, ints(-1, 2), 1, ints(-2, 2)), (3, 2, ints(-1, 2), 1, ints(-1, 2)), (3, 3, t.pick(ints(0, 1), ints(-1, 1)), 1, ints(-1, 2)),
        (3, 3, t.pick(vec![Q::ZERO, Q::int(2)], vec![Q::ZERO, Q::int(2), Q::int(-3)]), 1, ints(-1, 2)), (3, 1, ints(-2, 2), 2, ints(-1, 1)),
        (2, 4, ints(0, 1), 1, ints(-2, 2)), (4, 2, ints(0, 1), 1, ints(-1, 1)), (3, 4, ints(0, 1), 1, ints(-1, 1)),
    ];
    if t == Tier::Thorough { list.push((2, 2, ints(-5, 5), 1, ints(-5, 5))); list.push((2, 3, ints(-2, 2), 1, ints(-3, 3))); list.push((3, 2, ints(-2, 2), 2, ints(-1, 1))); list.push((2, 2, ints(-2, 3), 2, ints(-2, 2))); }
    for (r, nc, ea, k, eb) in list {
        let (na, nb) = ((ea.len() as u64).pow((r * nc) as u32), (eb.len() as u64).pow((r * k) as u32));
        v.push(Space::new(&format!("{}x{} systems, {} right-hand sides, entries {:?} and {:?}", r, nc, k, ea, eb), na * nb, move |i, c| {
            let (a, b) = (mat_at(i / nb, &ea, r, nc), mat_at(i % nb, &eb, r, k));
            if i % 997 == 0 { c.sample(|| format!("{:?} X = {:?}", a, b)); }
            solved::<i64>(&a, &b, nc, k, c);
            if i % 3 == 0 && !c.failed() { solved::<i32>(&a, &b, nc, k, c); }
            if i % 3 == 1 && !c.failed() { solved::<BigInt>(&a, &b, nc, k, c); }
            if !c.failed() { solved::<BigRational>(&a, &b, nc, k, c); }
        }));
    }
    let fr = fracs();
    for (r, nc, k) in [(1usize, 2usize, 1usize), (2, 1, 1), (2, 2, 1), (1, 1, 2)] {
        let ea = fr[..t.pick(6, 7)].to_vec();
        let (na, nb) = ((ea.len() as u64).pow((r * nc) as u32), (ea.len() as u64).pow((r * k) as u32));
        v.push(Space::new(&format!("rational {}x{} systems, {} right-hand sides", r, nc, k), na * nb, move |i, c| solved::<BigRational>(&mat_at(i / nb, &ea, r, nc), &mat_at(i % nb, &ea, r, k), nc, k, c)));
    }
    v.extend(spaces(shapes_huge(false, t), "huge rational", solved_huge));
    let bs: Vec<Q> = vec![Q::ZERO, Q::ONE, Q::new(-1, 2), Q::int(3)];
    for s in shapes_float(t).into_iter().filter(|s| s.2 * s.3 < 9) {
        let bs = bs.clone();
        let nb = 4u64.pow(s.2 as u32);
        v.push(Space::new(&format!("float systems {}", s.0), count(&s) * nb, move |i, c| {
            let (a, b) = (mat_at(i / nb, &s.1, s.2, s.3), mat_at(i % nb, &bs, s.2, 1));
            let ab: M = a.iter().zip(&b).map(|(r, x)| r.iter().chain(x).cloned().collect()).collect();
            if dyadic(&ab, s.3 + 1) { solved::<f64>(&a, &b, s.3, 1, c) }
        }));
    }
    let al: Vec<Q> = [0, 1, -1, 210, -143, 256].iter().map(|&x| Q::int(x)).collect();
    v.push(Space::new("integer 2x2 systems with large entries", 6u64.pow(6), move |i, c| solved::<i64>(&mat_at(i / 36, &al, 2, 2), &mat_at(i % 36, &al, 2, 1), 2, 1, c)));
    // larger systems from chosen rows, consistent (B = A X) and perturbed
    let k = t.pick(7, 10);
    let rs = rows(5, k);
    v.push(Space::new("4x5 systems from chosen rows", (k as u64).pow(4), move |i, c| {
        let a: M = en::word(i, k as u64, 4).into_iter().map(|j| rs[j].clone()).collect();
        let x: M = (0..5).map(|p| vec![Q::int(p as i128 * 3 - 5), Q::int(if p == 2 { 1 } else { 0 })]).collect();
        let mut b = mat::mul(&a, &x);
        solved::<i64>(&a, &b, 5, 2, c); solved::<BigRational>(&a, &b, 5, 2, c);
        b[(i % 4) as usize][1] = b[(i % 4) as usize][1] + Q::ONE;
        solved::<i64>(&a, &b, 5, 2, c); solved::<BigRational>(&a, &b, 5, 2, c);
    }));
    let g = |s: bool, a: &M, n: usize, c: &mut Ctx| for k in [1usize, 3, 7] {
        let x: M = (0..n).map(|p| (0..k).map(|q| Q::int(((p * 3 + q * q) % 7) as i128 - 3)).collect()).collect();
        let mut b = mat::mul(a, &x);
        for e in 0..2 {
            if s { solved::<i64>(a, &b, n, k, c); }
            solved::<BigInt>(a, &b, n, k, c); solved::<BigRational>(a, &b, n, k, c);
            if c.failed() { return; }
            let r = (k + e) % a.len(); b[r][k - 1] = b[r][k - 1] + Q::ONE;
        }
        let b: M = (0..a.len()).map(|p| (0..k).map(|q| if p == q { Q::ONE } else { Q::ZERO }).collect()).collect();
        if s { solved::<i64>(a, &b, n, k, c); }
        solved::<BigInt>(a, &b, n, k, c); solved::<BigRational>(a, &b, n, k, c);
        if c.failed() { return; }
    };
    v.push(structured_space(t, false, g));
    v.push(sparse_space(t, false, g));
    v
}

fn inverted<T: Num>(a: &M, n: usize, c: &mut Ctx) where Matrix<T>: LinearAlgebra<T> {
    let d = mat::det(a);
    let can = if T::FIELD { !d.is_zero() } else { d.abs() == Q::ONE };
    let inv = to::<T>(a, n).inverse();
    c.evals(1);
    match inv {
        None => { c.check(!can, &|| format!("{}: no inverse of {:?} reported (determinant {})", T::NAME, a, d)); }
        Some(x) => {
            let y = from(&x);
            let id = mat::ident(n);
            if !c.check(can && x.shape() == (n, n) && y.as_ref().map_or(false, |y| mat::mul(a, y) == id && mat::mul(y, a) == id), &|| format!("{}: inverse of {:?} (determinant {}) is {:?}", T::NAME, a, d, y)) { return; }
            c.nontrivial(&(T::NAME, a));
            c.sample(|| format!("{}: {:?} -> {:?}", T::NAME, a, y));
        }
    }
    c.outcome(&format!("{} size {} {}", T::NAME, n, if can { "invertible" } else { "not invertible" }));
}
fn c17(t: Tier) -> Vec<Space> {
    let f = |a: &M, n: usize, c: &mut Ctx| { inverted::<i64>(a, n, c); if !c.failed() { inverted::<BigRational>(a, n, c) } };
    let sq: Vec<Shape> = vec![("1x1", ints(-20, 20), 1, 1), ("2x2", ints(-t.pick(6, 9), t.pick(6, 9)), 2, 2), ("3x3", ints(-1, t.pick(1, 2)), 3, 3), ("4x4", ints(0, 1), 4, 4)];
    let mut v = spaces(sq, "integer", f);
    v.extend(spaces(vec![("2x2", ints(-5, 5), 2, 2), ("3x3", ints(-1, 1), 3, 3)], "32-bit and big integers", |a, n, c| { inverted::<i32>(a, n, c); if !c.failed() { inverted::<BigInt>(a, n, c) } }));
    v.extend(spaces(vec![("1x1", fracs(), 1, 1), ("2x2", fracs(), 2, 2), ("3x3", vec![Q::ZERO, Q::ONE, Q::new(-1, 2)], 3, 3)], "rational", |a, n, c| inverted::<BigRational>(a, n, c)));
    v.extend(spaces(shapes_large().into_iter().filter(|s| s.2 == s.3).collect(), "integer", |a, n, c| if a.iter().flatten().all(|x| x.abs() < Q::int(70_000)) { inverted::<i64>(a, n, c) }));
    v.extend(spaces(shapes_float(t).into_iter().filter(|s| s.2 == s.3).collect(), "float", |a, n, c| if dyadic(a, n) { inverted::<f64>(a, n, c) }));
    v.extend(spaces(shapes_huge(true, t), "huge rational", inverse_huge));
    v.push(row_space("chosen rows 3x3", 3, 3, 14, f));
    v.push(row_space("chosen rows 4x4", 4, 4, t.pick(11, 14), f));
    v.push(row_space("chosen rows 5x5", 5, 5, t.pick(7, 9), f));
    let g = |s: bool, a: &M, n: usize, c: &mut Ctx| { if s { inverted::<i64>(a, n, c); inverted::<i32>(a, n, c); } inverted::<BigInt>(a, n, c); inverted::<BigRational>(a, n, c); };
    v.push(structured_space(t, true, g));
    v.push(sparse_space(t, true, g));
    v
}

fn rank_nullity<T: Num>(a: &M, nc: usize, c: &mut Ctx) where Matrix<T>: LinearAlgebra<T> {
    let m: Matrix<T> = to(a, nc);
    let want = mat::rank(a, nc);
    let got = m.rank();
    c.evals(1);
    if !c.check(got == want, &|| format!("{}: rank of {:?} is {}, expected {}", T::NAME, a, got, want)) { return; }
    match m.null_space() {
        None => { c.check(want == nc, &|| format!("{}: no null space of {:?} of rank {}", T::NAME, a, want)); }
        Some(x) => {
            let k = nc - want;
            let y = from(&x);
            let ok = k > 0 && x.shape() == (nc, k) && y.as_ref().map_or(false, |y| mat::mul(a, y).iter().flatten().all(|e| e.is_zero())
                && { let yt = mat::transpose(y, k); mat::rank(&yt, nc) == k && (T::FIELD || (is_int(&yt) && mat::content(&zm(&yt), nc) == 1)) });
            if !c.check(ok, &|| format!("{}: null space of {:?} (rank {}) is {:?} of shape {:?}", T::NAME, a, want, y, x.shape())) { return; }
            c.nontrivial(&(T::NAME, a));
            c.sample(|| format!("{}: {:?} -> {:?}", T::NAME, a, y));
        }
    }
    c.outcome(&format!("{} {} columns rank {}", T::NAME, nc, want));
}
fn c18(t: Tier) -> Vec<Space> {
    let f = |a: &M, n: usize, c: &mut Ctx| { rank_nullity::<i64>(a, n, c); if !c.failed() { rank_nullity::<BigRational>(a, n, c) } };
    let mut v = spaces(shapes_int(t), "integer", f);
    v.extend(spaces(shapes_int(Tier::Quick).into_iter().filter(|s| s.2 * s.3 < 9).collect(), "32-bit and big integers", |a, n, c| { rank_nullity::<i32>(a, n, c); if !c.failed() { rank_nullity::<BigInt>(a, n, c) } }));
    v.extend(spaces(shapes_frac(t), "rational", |a, n, c| rank_nullity::<BigRational>(a, n, c)));
    v.extend(spaces(shapes_float(t), "float", |a, n, c| if dyadic(a, n) { rank_nullity::<f64>(a, n, c) }));
    v.extend(spaces(shapes_huge(false, t), "huge rational", null_huge));
    v.push(row_space("chosen rows 6x3", 6, 3, t.pick(6, 8), f));
    v.push(row_space("chosen rows 2x6", 2, 6, 14, f));
    v.push(row_space("chosen rows 3x5", 3, 5, 14, f));
    v.push(row_space("chosen rows 4x4", 4, 4, t.pick(11, 14), f));
    v.push(row_space("chosen rows 5x3", 5, 3, t.pick(7, 10), f));
    let g = |s: bool, a: &M, n: usize, c: &mut Ctx| { if s { rank_nullity::<i64>(a, n, c); rank_nullity::<i32>(a, n, c); } rank_nullity::<BigInt>(a, n, c); rank_nullity::<BigRational>(a, n, c); };
    v.push(structured_space(t, false, g));
    v.push(sparse_space(t, false, g));
    v
}

// ---- C19 --------------------------------------------------------------------------------------

fn determinant<T: Num>(a: &M, n: usize, c: &mut Ctx) where Matrix<T>: LinearAlgebra<T> {
    let want = mat::det(a);
    let got = to::<T>(a, n).determinant().q();
    c.evals(1);
    if !c.check(got == Some(want), &|| format!("{}: determinant of {:?} is {:?}, expected {}", T::NAME, a, got, want)) { return; }
    if !want.is_zero() { c.nontrivial(&(T::NAME, a)); c.sample(|| format!("{}: {:?} -> {}", T::NAME, a, want)); }
    c.outcome(&format!("{} size {} {}", T::NAME, n, if want.is_zero() { "zero" } else if want > Q::ZERO { "positive" } else { "negative" }));
}
fn c19(t: Tier) -> Vec<Space> {
    let f = |a: &M, n: usize, c: &mut Ctx| { determinant::<i64>(a, n, c); if !c.failed() { determinant::<BigRational>(a, n, c) } };
    let mut v = spaces(vec![("1x1", ints(-20, 20), 1, 1), ("2x2", ints(-t.pick(6, 9), t.pick(6, 9)), 2, 2), ("3x3", ints(-1, t.pick(1, 2)), 3, 3), ("4x4", ints(0, 1), 4, 4)], "integer", f);
    v.extend(spaces(vec![("2x2", ints(-5, 5), 2, 2), ("3x3", ints(-1, 1), 3, 3), ("4x4", ints(0, 1), 4, 4)], "32-bit and big integers", |a, n, c| { determinant::<i32>(a, n, c); if !c.failed() { determinant::<BigInt>(a, n, c) } }));
    v.extend(spaces(vec![("1x1", fracs(), 1, 1), ("2x2", fracs(), 2, 2), ("3x3", vec![Q::ZERO, Q::ONE, Q::new(-1, 2)], 3, 3)], "rational", |a, n, c| determinant::<BigRational>(a, n, c)));
    v.extend(spaces(shapes_large().into_iter().filter(|s| s.2 == s.3).collect(), "integer", f));
    v.extend(spaces(shapes_float(t).into_iter().filter(|s| s.2 == s.3).collect(), "float", |a, n, c| if dyadic(a, n) { determinant::<f64>(a, n, c) }));
    v.extend(spaces(shapes_huge(true, t), "huge rational", square_huge));
    v.push(row_space("chosen rows 3x3", 3, 3, 14, f));
    v.push(row_space("chosen rows 4x4", 4, 4, t.pick(12, 14), f));
    v.push(row_space("chosen rows 5x5", 5, 5, t.pick(7, 10), f));
    v.push(row_space("chosen rows 6x6", 6, 6, t.pick(4, 6), f));
    // all signed permutation matrices times triangular ones, where elimination has to track signs
    for n in 4..=t.pick(5usize, 6) {
        let ps = en::permutations(n);
        let f = f.clone();
        v.push(Space::new(&format!("permuted triangular matrices of size {}", n), (ps.len() as u64) << n, move |i, c| {
            let p = &ps[(i >> n) as usize];
            let a: M = (0..n).map(|r| (0..n).map(|k| { let k2 = p[k]; Q::int(if k2 == r { if i >> r & 1 == 1 { -(r as i128 + 2) } else { r as i128 + 1 } } else if k2 > r { ((k2 * 3 + r) % 5) as i128 - 2 } else { 0 }) }).collect()).collect();
            f(&a, n, c);
        }));
    }
    let g = |s: bool, a: &M, n: usize, c: &mut Ctx| { if s { determinant::<i64>(a, n, c); determinant::<i32>(a, n, c); } determinant::<BigInt>(a, n, c); determinant::<BigRational>(a, n, c); };
    v.push(structured_space(t, true, g));
    v.push(sparse_space(t, true, g));
    v
}

// ---- C20 --------------------------------------------------------------------------------------

type I = Vec<Vec<i64>>;
/// Exact determinant test by fraction-free elimination.
fn bareiss(a: &I) -> BigInt {
    let n = a.len();
    let mut m: Vec<Vec<BigInt>> = a.iter().map(|r| r.iter().map(|&x| BigInt::from(x)).collect()).collect();
    let (mut prev, mut sign) = (BigInt::from(1), 1);
    for k in 0..n {
        if m[k][k].is_zero() { match (k + 1..n).find(|&i| !m[i][k].is_zero()) { Some(i) => { m.swap(i, k); sign = -sign; } None => return BigInt::zero() } }
        for i in k + 1..n { for j in k + 1..n { m[i][j] = (&m[i][j] * &m[k][k] - &m[i][k] * &m[k][j]) / &prev; } }
        prev = m[k][k].clone();
    }
    prev * sign
}
fn padic(a: &I, b: &I, c: &mut Ctx) {
    let det = bareiss(a);
    c.evals(1);
    match ms::solve(a, b) {
        None => { c.check(det.is_zero(), &|| format!("no solution of {:?} X = {:?}, determinant {}", a, b, det)); c.outcome("singular"); }
        Some(x) => {
            let (n, k) = (a.len(), b[0].len());
            if !c.check(!det.is_zero(), &|| format!("solution of the singular system {:?} X = {:?}: {:?}", a, b, x)) { return; }
            if !c.check(x.len() == n && x.iter().all(|r| r.len() == k), &|| format!("{:?} X = {:?}: result of wrong shape", a, b)) { return; }
            let mut frac = false;
            for i in 0..n { for j in 0..k {
                // clear denominators row by row: exact check of A X = B
                let s = (0..n).fold(BigRational::zero(), |s, l| s + BigRational::from(BigInt::from(a[i][l])) * &x[l][j]);
                if !c.check(s == BigRational::from(BigInt::from(b[i][j])), &|| format!("{:?} X = {:?}: X = {:?} is wrong", a, b, x.iter().map(|r| r.iter().map(|q| q.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>())) { return; }
                frac |= !x[i][j].is_integer();
            } }
            if frac { c.nontrivial(&(a, b)); c.sample(|| format!("{:?} X = {:?}: first entry {}", a, b, x[0][0])); }
            c.outcome(&format!("size {}: determinant of {} bits", n, det.abs().to_f64().map_or(0, |x| (x.log2() as i64 / 16) * 16)));
        }
    }
}
pub fn imat(i: u64, al: &[i64], r: usize, c: usize) -> I { en::word(i, al.len() as u64, r * c).chunks(c).map(|w| w.iter().map(|&k| al[k]).collect()).collect() }

fn c20(t: Tier) -> Vec<Space> {
    const P: i64 = 9999991;
    let mut v = vec![];
    let r = |a: i64, b: i64| (a..=b).collect::<Vec<i64>>();
    let mut list: Vec<(usize, Vec<i64>, usize, Vec<i64>)> = vec![
        (1, r(-30, 30), 1, r(-30, 30)), (2, r(-3, 3), 1, r(-3, 3)), (2, r(-1, 2), 2, vec![-2, 0, 1, 5]), (3, t.pick(r(0, 1), r(-1, 1)), 1, r(-1, 2)), (3, r(-1, 1), 1, vec![0, 1]),
        (1, vec![P, -P, 2 * P, P + 1, P - 1, 1, -1, 0, 3], 2, vec![0, P, -P, 1, -1, 7, 1000003]),
        (2, vec![0, 1, P, -P, P - 1, 2], 1, vec![0, 1, -P, 5]), (2, vec![0, 1, -1, 1000003, -999983, 9999973], 1, vec![1, 0, -1000003]),
    ];
    const TOP: i64 = i64::MAX;
    list.push((1, vec![1, 3, -7, P, 1 << 40, -(1 << 62), TOP, TOP - 24, -TOP], 2, vec![0, 1, -5, 40_000_000_000_000, -(1 << 50), TOP, -TOP, P * P]));
    list.push((2, vec![0, 1, -3, 1 << 50, TOP, -TOP], 1, vec![0, 2, -(1 << 60), TOP]));
    list.push((3, vec![1, 1 << 33, -TOP], 1, t.pick(vec![TOP], vec![0, 1, TOP])));
    if t == Tier::Thorough { list.push((3, vec![0, 1, -1, P], 1, vec![1, 0])); list.push((3, r(-2, 2), 1, vec![1])); }
    for (n, ea, k, eb) in list {
        let (na, nb) = ((ea.len() as u64).pow((n * n) as u32), (eb.len() as u64).pow((n * k) as u32));
        v.push(Space::new(&format!("{0}x{0} systems, {1} right-hand sides, {2}/{3} entries up to {4}", n, k, ea.len(), eb.len(), ea.iter().max().unwrap()), na * nb, move |i, c| padic(&imat(i / nb, &ea, n, n), &imat(i % nb, &eb, n, k), c)));
    }
    // structured larger systems: tridiagonal, dense with growing entries, Laplacians of circulant graphs
    let nmax = t.pick(12usize, 20);
    let mut big: Vec<(I, I)> = vec![];
    for n in 2..=nmax { for s in 1..=t.pick(8i64, 20) {
        let f = |g: &dyn Fn(i64, i64) -> i64| -> I { (0..n as i64).map(|i| (0..n as i64).map(|j| g(i, j)).collect()).collect() };
        let rhs: I = (0..n as i64).map(|i| vec![i * i - 7 * s, if i == 0 { 1 } else { 0 }, (i * 31 * s) % 1009 - 500]).collect();
        big.push((f(&|i, j| if i == j { 2 + s } else if (i - j).abs() == 1 { -1 } else { 0 }), rhs.clone()));
        big.push((f(&|i, j| (i * i * 37 + j * 101 * s + i * j * j * 13 + s) % 2003 - 1001), rhs.clone()));
        big.push((f(&|i, j| ((i * 71 + j * j * 29 + 5) * (s * 7919 + i * j)) % 1999993 - 999996), rhs.clone()));
        big.push((f(&|i, j| if i == 0 { (j == 0) as i64 } else if i == j { 2 * s + 2 } else { let d = (i - j).rem_euclid(n as i64); -((d <= s || n as i64 - d <= s) as i64) - (d == 1) as i64 }), rhs.clone()));
        big.push((f(&|i, j| if j <= i { 1 + (i - j) * s } else { 0 }), rhs));
    } }
    // determinants divisible by several of the primes a solver may start from
    let tops = [9999991i64, 9999973, 9999971, 9999943, 9999937, 9999931, 9999929, 9999907, 2147483647];
    for m in 0..1u32 << 6 { let d: Vec<i64> = (0..6).map(|k| if m >> k & 1 == 1 { tops[k] } else { k as i64 + 1 }).collect();
        let a: I = (0..6).map(|i| (0..6).map(|j| if i == j { d[i] } else if j > i { (i as i64 * 3 + j as i64) % 4 - 1 } else { 0 }).collect()).collect();
        big.push((a, (0..6).map(|i| vec![i as i64 * 5 - 3]).collect())); }
    v.push(Space::list("larger systems", big, |x, c| padic(&x.0, &x.1, c)));
    // solutions whose numerators and denominators run to thousands of bits
    let mut wide: Vec<(I, I)> = vec![];
    for n in t.pick(vec![10usize, 16, 24, 32, 40], vec![10, 13, 16, 20, 24, 28, 32, 36, 40, 48, 56, 64, 80]) { for s in 0..3i64 {
        let f = |g: &dyn Fn(i64, i64) -> i64| -> I { (0..n as i64).map(|i| (0..n as i64).map(|j| g(i, j)).collect()).collect() };
        for (top, rhs) in [(1_000_003i64, (0..n as i64).map(|i| vec![i + 1 + s]).collect::<I>()), (1 << 40, (0..n as i64).map(|i| vec![(i == 0) as i64]).collect()), ((1 << 62) - 57, (0..n as i64).map(|i| vec![(i * i - 40) * ((1 << 50) + s), 7 - i]).collect())] {
            wide.push((f(&|i, j| if i == j { top + i * 2 + s } else if j > i { 1 } else { 0 }), rhs.clone()));
            wide.push((f(&|i, j| if i == j { top - i } else if (i - j).abs() == 1 { 1 + s } else { 0 }), rhs.clone()));
            if n <= 24 || t == Tier::Thorough && n <= 40 { wide.push((f(&|i, j| ((i * i * 71 + j * 29 * (i + 3) + s + 5) * 7919) % top - if i == j { top / 2 } else { 0 }), rhs)); }
        }
    } }
    v.push(Space::list("systems with very long solutions", wide, |x, c| padic(&x.0, &x.1, c)));
    v
}

// ---- C24 --------------------------------------------------------------------------------------

/// All histories of at most `len` vectors out of an alphabet, walked as a tree; each prefix is a state.
fn grow<T: Num>(al: &[Vec<Q>], d: usize, len: usize, path: &mut Vec<usize>, basis: &Vec<Vec<T>>, c: &mut Ctx) {
    if path.len() == len { c.traces(1); return; }
    for k in 0..al.len() {
        path.push(k);
        let mut b = basis.clone();
        let v: Vec<T> = al[k].iter().map(|&q| T::of(q)).collect();
        extend_basis(&v, &mut b);
        c.transitions(1);
        let fed: M = path.iter().map(|&i| al[i].clone()).collect();
        let got: Option<M> = b.iter().map(|r| r.iter().map(|x| x.q()).collect::<Option<Vec<Q>>>()).collect();
        let hist = || format!("{}: after {:?} the basis is {:?}", T::NAME, fed, b);
        let g = match got { Some(g) => g, None => { c.fail(format!("{}: not representable", hist())); return; } };
        let piv: Vec<Option<usize>> = g.iter().map(|r| r.iter().position(|x| !x.is_zero())).collect();
        if !c.check(g.iter().all(|r| r.len() == d) && piv.iter().all(|p| p.is_some()) && piv.windows(2).all(|w| w[0] < w[1]), &|| format!("{}: not in echelon form", hist())) { return; }
        let same = if T::FIELD { mat::rref(&g, d) == mat::rref(&fed, d) } else { mat::hnf(&zm(&g), d) == mat::hnf(&zm(&fed), d) };
        if !c.check(same, &|| format!("{}: spans something else", hist())) { return; }
        if path.len() == d && g.len() == d {
            let prod = (0..d).fold(Q::ONE, |s, i| s * g[i][i]);
            let det = mat::det(&fed);
            if !c.check(prod == det, &|| format!("{}: product of pivots {}, determinant {}", hist(), prod, det)) { return; }
            c.nontrivial(&(T::NAME, &fed));
            c.sample(|| format!("{} determinant {}", hist(), det));
            c.outcome(if det > Q::ZERO { "positive determinant" } else { "negative determinant" });
        }
        c.state(&(T::NAME, &g));
        grow(al, d, len, path, &b, c);
        if c.failed() { return; }
        path.pop();
    }
}
fn history_space<T: Num>(name: &str, al: Vec<Vec<Q>>, d: usize, len: usize) -> Space {
    let n = al.len() as u64;
    // one case per pair of first vectors
    Space::new(&format!("{} histories, {}", T::NAME, name), n * n, move |i, c| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        // prefix of length one is checked when b == 0
        let mut basis: Vec<Vec<T>> = vec![];
        let one = vec![al[a].clone()];
        if b == 0 { grow::<T>(&one, d, 1, &mut vec![], &basis, c); }
        extend_basis(&al[a].iter().map(|&q| T::of(q)).collect::<Vec<T>>(), &mut basis);
        let sub: Vec<Vec<Q>> = al.clone();
        // second step restricted to b
        let mut path = vec![a];
        let restricted = |c: &mut Ctx, path: &mut Vec<usize>| {
            let mut bb = basis.clone();
            extend_basis(&sub[b].iter().map(|&q| T::of(q)).collect::<Vec<T>>(), &mut bb);
            let mut two = vec![sub[a].clone(), sub[b].clone()];
            // re-check the second step through the walker on a two-letter alphabet
            two.dedup();
            grow::<T>(&two, d, 2, &mut vec![], &vec![], c);
            path.push(b);
            grow::<T>(&sub, d, len, path, &bb, c);
        };
        restricted(c, &mut path);
    })
}
/// One long history, the basis looked at after every vector.
fn long<T: Num>(fed: &M, d: usize, c: &mut Ctx) {
    let mut b: Vec<Vec<T>> = vec![];
    let mut lat: M = vec![];
    for (k, v) in fed.iter().enumerate() {
        extend_basis(&v.iter().map(|&q| T::of(q)).collect::<Vec<T>>(), &mut b);
        c.transitions(1);
        lat.push(v.clone());
        lat = if T::FIELD { mat::rref(&lat, d) } else { mat::qm(&mat::hnf_big(&zm(&lat), d)) };
        let g: M = match b.iter().map(|r| r.iter().map(|x| x.q()).collect::<Option<Vec<Q>>>()).collect() { Some(g) => g,
            // big integers may outgrow the reference
            None if T::NAME == "big integer" => { c.outcome("ended beyond 128 bits"); return; }
            None => return c.fail(format!("{}: after {:?} the basis {:?} is not representable", T::NAME, &fed[..=k], b)) };
        let piv: Vec<Option<usize>> = g.iter().map(|r| r.iter().position(|x| !x.is_zero())).collect();
        if !c.check(g.iter().all(|r| r.len() == d) && piv.iter().all(|p| p.is_some()) && piv.windows(2).all(|w| w[0] < w[1]), &|| format!("{}: after {:?} the basis {:?} is not in echelon form", T::NAME, &fed[..=k], b)) { return; }
        let norm = if T::FIELD { mat::rref(&g, d) } else { mat::qm(&mat::hnf_big(&zm(&g), d)) };
        if !c.check(norm == lat, &|| format!("{}: after {:?} the basis {:?} spans something else", T::NAME, &fed[..=k], b)) { return; }
        if k + 1 == d && g.len() == d {
            let det = mat::det(&fed[..d].to_vec());
            if !c.check((0..d).fold(Q::ONE, |s, i| s * g[i][i]) == det, &|| format!("{}: after {:?} the product of pivots of {:?} is not the determinant {}", T::NAME, &fed[..d], b, det)) { return; }
            c.nontrivial(&(T::NAME, fed));
        }
        c.state(&(T::NAME, &g));
    }
    c.evals(1);
    c.traces(1);
    c.outcome(&format!("{} long histories", T::NAME));
}
/// Histories of 10 to 60 vectors: coarse lattices refined step by step, repeated and dependent vectors in between.
fn long_histories(t: Tier) -> Vec<(M, usize)> {
    let mut v = vec![];
    for d in 2..=t.pick(6usize, 8) { for s in 0..t.pick(24i128, 96) { for len in [10usize, 24, 60] {
        let e = |k: usize, x: i128| -> Vec<Q> { (0..d).map(|j| if j == k { Q::int(x) } else { Q::ZERO }).collect() };
        let mut fed: M = vec![];
        // a coarse lattice first, so that everything fed later stays below its determinant
        let top = [60i128, 64, 30, 36, 210, 1][s as usize % 6];
        for k in 0..d { let k = if s % 2 == 0 { k } else { d - 1 - k }; let mut x = e(k, if s % 4 < 2 { top } else { -top }); if s % 3 == 1 && k + 1 < d { x[k + 1] = Q::int(top / 2); } fed.push(x); }
        for i in 0..len as i128 { fed.push((0..d as i128).map(|j| Q::int(match s % 4 { 0 => ((i * 7 + j * 11 + s) % (top + 1)) * (top / (1 + i % 5)) % (2 * top + 1), 1 => if i % 3 == 0 { 0 } else { (i * j + s) % 5 * (top / 6) }, 2 => if j == i % d as i128 { top / (1 + i % 6) } else { 0 }, _ => ((i + j) * (s + 1) % 9 - 4) * (1 + (len as i128 - i) % 12) })).collect()); }
        v.push((fed, d));
    } } }
    v
}
fn gcds(a: i128, b: i128, c: &mut Ctx) {
    macro_rules! one { ($t:ty) => { if a.abs() <= <$t>::MAX as i128 / 4 && b.abs() <= <$t>::MAX as i128 / 4 {
        let (g, r, s, t, u) = gcdx(a as $t, b as $t);
        let (g, r, s, t, u) = (g as i128, r as i128, s as i128, t as i128, u as i128);
        c.evals(1);
        c.check(g.abs() == gcd(a, b) && r * a + s * b == g && t * a + u * b == 0 && (r * u - s * t).abs() == 1,
            &|| format!("gcdx({}, {}) = {:?} as {}", a, b, (g, r, s, t, u), stringify!($t)));
    } } }
    one!(i32); one!(i64);
    if gcd(a, b) > 1 { c.nontrivial(&(a, b)); }
}
fn c24(t: Tier) -> Vec<Space> {
    let bx = |d: usize, r: i64| -> Vec<Vec<Q>> { en::box_vectors(d, -r, r).into_iter().map(|v| v.into_iter().map(|x| Q::int(x as i128)).collect()).collect() };
    let pick = |d: usize, k: usize| rows(d, k);
    let fr: Vec<Vec<Q>> = { let f = fracs(); (0..36u64).map(|i| en::word(i, 6, 2).into_iter().map(|k| f[k]).collect()).collect() };
    let n = t.pick(80i128, 300);
    vec![
        history_space::<i64>("plane, box of radius 2", bx(2, 2), 2, t.pick(3, 4)),
        history_space::<i64>("plane, box of radius 4", bx(2, 4), 2, t.pick(2, 3)),
        history_space::<i32>("plane, box of radius 1", bx(2, 1), 2, t.pick(4, 5)),
        history_space::<BigInt>("plane, box of radius 1, big integers", bx(2, 1), 2, t.pick(4, 5)),
        history_space::<BigRational>("plane, box of radius 1", bx(2, 1), 2, t.pick(3, 4)),
        history_space::<BigRational>("plane, fractions", fr, 2, 3),
        history_space::<i64>("space, box of radius 1", bx(3, 1), 3, t.pick(3, 4)),
        history_space::<i32>("space, chosen vectors", pick(3, t.pick(9, 14)), 3, 4),
        history_space::<BigRational>("space, chosen vectors", pick(3, t.pick(8, 12)), 3, 4),
        history_space::<i64>("four dimensions, chosen vectors", pick(4, t.pick(8, 11)), 4, t.pick(5, 5)),
        history_space::<i64>("five dimensions, chosen vectors", pick(5, t.pick(6, 8)), 5, t.pick(5, 6)),
        Space::list("long histories", long_histories(t), |(fed, d), c| { if *d < 4 { long::<i64>(fed, *d, c); } long::<BigInt>(fed, *d, c); if fed.len() < 40 && *d < 6 { long::<BigRational>(fed, *d, c); } }),
        Space::new("extended gcd of all pairs", ((2 * n + 1) * (2 * n + 1)) as u64, move |i, c| gcds(i as i128 / (2 * n + 1) - n, i as i128 % (2 * n + 1) - n, c)),
        Space::list("extended gcd of large numbers", {
            let l: [i128; 12] = [0, 1, -1, 2, 46368, 75025, -28657, 500_000_003, 1 << 28, -(1 << 28) + 1, 1_000_000_007 * 998_244_353, 3 << 55];
            l.iter().flat_map(|&a| l.iter().map(move |&b| (a, b))).collect() }, |&(a, b), c| gcds(a, b, c)),
    ]
}

pub const CHECKS: &[Check] = &[
    Check { id: "C15", level: "exploration", spaces: c15, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "one case per matrix and number type; the expected value is the unique Hermite or reduced row echelon form; non-trivial if the rank is at least two and the basis is not the matrix itself" },
    Check { id: "C16", level: "exploration", spaces: c16, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "one case per system and number type; solvability decided by ranks (rational) or lattice membership (integers); non-trivial if solvable" },
    Check { id: "C17", level: "exploration", spaces: c17, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "one case per square matrix and number type; non-trivial if invertible" },
    Check { id: "C18", level: "exploration", spaces: c18, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "one case per matrix and number type; non-trivial if the null space is not zero" },
    Check { id: "C19", level: "exploration", spaces: c19, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "one case per square matrix and number type, compared with the permutation sum; non-trivial if not zero" },
    Check { id: "C20", level: "exploration", spaces: c20, assumptions: &[],
        rule: "one case per system, the solution being multiplied back exactly; non-trivial if some entry of the solution is not an integer" },
    Check { id: "C24", level: "model_checking", spaces: c24, assumptions: &["entries small enough not to overflow machine integers", "floating point numbers only where no rounding can occur"],
        rule: "all histories of vectors out of an alphabet, walked as a tree; states are bases reached, transitions extensions; non-trivial if d independent vectors were fed first" },
];
