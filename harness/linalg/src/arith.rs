//! C21-C23: modular helpers, matrix arithmetic, matrix construction.
use crate::adapt::*;
use crate::solve::{fracs, imat, ints, mat_at};
use fw::en;
use fw::mat::{self, M};
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use std::sync::Arc;

// ---- C21 --------------------------------------------------------------------------------------

type I = Vec<Vec<i64>>;
fn md(a: i128, p: i64) -> i64 { a.rem_euclid(p as i128) as i64 }
fn pw(a: i64, mut e: i64, p: i64) -> i64 { let (mut r, mut b) = (1i64, md(a as i128, p)); while e > 0 { if e & 1 == 1 { r = md(r as i128 * b as i128, p) } b = md(b as i128 * b as i128, p); e >>= 1; } r }

fn inverse_of(a: i64, p: i64, c: &mut Ctx) {
    let got = ms::modular_inverse(a, p);
    if md(a as i128, p) == 0 { c.check(got.is_none(), &|| format!("{} has no inverse modulo {}, got {:?}", a, p, got)); c.outcome("no inverse"); return; }
    // Fermat
    let want = pw(a, p - 2, p);
    c.check(got == Some(want), &|| format!("inverse of {} modulo {} is {:?}, expected {}", a, p, got, want));
    c.nontrivial(&(a, p)); c.outcome(if a < 0 { "negative argument" } else if a >= p { "argument above the prime" } else { "argument in range" });
    c.sample(|| format!("1/{} = {} mod {}", a, want, p));
}

/// Reduced echelon form modulo p with the zero rows at the bottom.
fn rref_mod(a: &I, p: i64) -> I {
    let mut m: I = a.iter().map(|r| r.iter().map(|&x| md(x as i128, p)).collect()).collect();
    let (nr, nc) = (m.len(), m[0].len());
    let mut r = 0;
    for j in 0..nc {
        let k = match (r..nr).find(|&i| m[i][j] != 0) { Some(k) => k, None => continue };
        m.swap(r, k);
        let f = pw(m[r][j], p - 2, p);
        for x in m[r].iter_mut() { *x = md(*x as i128 * f as i128, p) }
        for i in 0..nr { if i != r && m[i][j] != 0 { let f = m[i][j] as i128; for l in 0..nc { m[i][l] = md(m[i][l] as i128 - f * m[r][l] as i128, p) } } }
        r += 1;
    }
    m
}
fn echelon(a: &I, p: i64, c: &mut Ctx) {
    let want = rref_mod(a, p);
    let got = ms::modular_row_echelon_form(a, p);
    c.eq(&|| format!("echelon form of {:?} modulo {}", a, p), &got, &want);
    let rank = want.iter().filter(|r| r.iter().any(|&x| x != 0)).count();
    if rank > 1 || rank < a.len() { c.nontrivial(&(a, p)); c.sample(|| format!("{:?} mod {} -> {:?}", a, p, want)); }
    c.outcome(&format!("{}x{} rank {}", a.len(), a[0].len(), rank));
}
fn mprod(a: &I, b: &I, f: &dyn Fn(i128) -> i64) -> I { a.iter().map(|r| (0..b[0].len()).map(|j| f(r.iter().enumerate().map(|(k, &x)| x as i128 * b[k][j] as i128).sum())).collect()).collect() }
fn mprod_mod(a: &I, b: &I, p: i64) -> I { a.iter().map(|r| (0..b[0].len()).map(|j| md(r.iter().enumerate().map(|(k, &x)| (x as i128 * b[k][j] as i128).rem_euclid(p as i128)).sum(), p)).collect()).collect() }
fn inverse_mod(a: &I, p: i64, c: &mut Ctx) {
    let n = a.len();
    let e = rref_mod(a, p);
    let can = (0..n).all(|i| e[i][i] == 1);
    match ms::modular_matrix_inverse(a, p) {
        None => { c.check(!can, &|| format!("no inverse of {:?} modulo {} though there is one", a, p)); c.outcome("singular"); }
        Some(x) => {
            let id: I = (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect();
            let ok = can && x.len() == n && x.iter().all(|r| r.len() == n && r.iter().all(|y| (0..p).contains(y))) && mprod_mod(a, &x, p) == id && mprod_mod(&x, a, p) == id;
            c.check(ok, &|| format!("inverse of {:?} modulo {} given as {:?}", a, p, x));
            c.nontrivial(&(a, p)); c.outcome("invertible");
        }
    }
}
fn products(a: &I, b: &I, p: i64, c: &mut Ctx) {
    let size = |m: &I| m.iter().flatten().map(|x| x.unsigned_abs() as f64).fold(0.0, f64::max);
    if size(a) * size(b) * (b.len() as f64) < 9e18 {
        let want = mprod(a, b, &|s| s as i64);
        c.eq(&|| format!("{:?} * {:?}", a, b), &ms::integer_matrix_product(a, b), &want);
    }
    let got: I = ms::modular_matrix_product(a, b, p);
    let red: I = got.iter().map(|r| r.iter().map(|&x| md(x as i128, p)).collect()).collect();
    let wr: I = mprod_mod(a, b, p);
    c.check(red == wr && got.iter().flatten().all(|x| x.abs() < p), &|| format!("{:?} * {:?} modulo {} is {:?}, expected {:?}", a, b, p, got, wr));
    c.evals(1);
    c.nontrivial(&(a, b, p));
}
fn primes(n: i64) -> Vec<i64> { (2..=n).filter(|&k| (2..k).take_while(|d| d * d <= k).all(|d| k % d != 0)).collect() }

fn c21(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut args: Vec<(i64, i64)> = vec![];
    for p in primes(t.pick(400, 1500)) { for a in -3 * p - 1..=3 * p + 1 { args.push((a, p)) } }
    for p in [65537i64, 1000003, 9999973, 9999991, 2147483647, (1 << 61) - 1] { for k in -3i64..=3 { for d in -t.pick(60i64, 400)..=t.pick(60, 400) { args.push((k * p + d, p)); args.push((k * p + p / 2 + d, p)); } } }
    const TOP: i64 = 9223372036854775783; // the largest prime below 2^63
    for p in [3037000493i64, 3037000507, (1 << 61) - 1, TOP] { for d in 0..=t.pick(60, 400) { for a in [d, -d, p / 2 - d, p - 1 - d, -(p / 2) + d, -p + d, i64::MAX - d, i64::MIN + d] { args.push((a, p)) } } }
    v.push(Space::list("modular inverses", args, |&(a, p), c| inverse_of(a, p, c)));
    let r = |a: i64, b: i64| (a..=b).collect::<Vec<i64>>();
    let mut shapes: Vec<(i64, usize, usize, Vec<i64>)> = vec![];
    for p in [2i64, 3, 5, 7] { let al = r(-p, 2 * p); for (h, w) in [(1usize, 1usize), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] { shapes.push((p, h, w, al.clone())); }
        shapes.push((p, 2, 3, r(-1, p.min(3)))); shapes.push((p, 3, 2, r(-1, p.min(3)))); shapes.push((p, 3, 3, if p == 2 { r(0, 1) } else { t.pick(r(-1, 1), r(-1, 2)) })); shapes.push((p, 3, 4, r(0, 1))); shapes.push((p, 4, 3, r(0, 1))); shapes.push((p, 4, 4, r(0, 1))); shapes.push((p, 2, 4, t.pick(vec![0, 1, -2], r(-2, 1)))); }
    const P: i64 = 9999991;
    for p in [P, 2147483647] { shapes.push((p, 2, 2, vec![0, 1, -1, p, -p, p - 1, 1 - p, 5 * p + 3, 1000003])); shapes.push((p, 2, 3, vec![0, 1, -p, p - 1, 1000003])); shapes.push((p, 3, 2, vec![0, 1, -p, p - 1, 1000003])); shapes.push((p, 3, 3, vec![0, -p, p - 1])); }
    for p in [3037000507i64, (1 << 61) - 1, TOP] { shapes.push((p, 2, 2, vec![0, 1, -1, p, -p, p - 1, p / 2, i64::MIN, i64::MAX])); shapes.push((p, 2, 3, vec![0, 1, p - 1, p / 3, i64::MIN])); if p < TOP { shapes.push((p, 3, 3, vec![0, p - 1, p / 5])); } }
    for (p, h, w, al) in shapes {
        let n = (al.len() as u64).pow((h * w) as u32);
        v.push(Space::new(&format!("{}x{} matrices of {} entries modulo {}", h, w, al.len(), p), n, move |i, c| { let a = imat(i, &al, h, w); echelon(&a, p, c); if h == w && !c.failed() { inverse_mod(&a, p, c) } }));
    }
    // many rows: permuted triangular matrices, some with dependent or missing rows
    let mut big: Vec<(I, i64)> = vec![];
    for n in t.pick(vec![5usize, 6, 8, 9, 12, 16, 17, 24, 33], (5..=34).chain([40, 48, 65]).collect()) { for p in [2i64, 3, 7, 101, P, 2147483647, (1 << 61) - 1, TOP] { for s in 0..t.pick(12usize, 24) {
        let perm: Vec<usize> = (0..n).map(|i| match s % 4 { 0 => n - 1 - i, 1 => (i + n / 3 + 1) % n, 2 => if i % 2 == 0 && i + 1 < n { i + 1 } else if i % 2 == 1 { i - 1 } else { i }, _ => i }).collect();
        let val = |i: usize, j: usize| ((i * 31 + j * 17 + i * j * 7 + s * 13) as i64) % 1009 * (p / 1009).max(1);
        let full: I = (0..n).map(|i| { let r = perm[i]; (0..n).map(|j| if r == j { 1 + val(r, j) % (p - 1).max(1) } else if if s % 3 == 0 { j > r } else { j < r } { val(r, j) * if s >= 6 && (r + j) % 5 != 0 { 0 } else { 1 } } else { 0 }).collect() }).collect();
        big.push((full.clone(), p));
        // twice the same row, a missing row, a missing column
        let mut a = full.clone(); a[n - 1] = a[n / 2].clone(); big.push((a, p));
        big.push((full[..n - 2].to_vec(), p));
        big.push((full.iter().map(|r| r[1..n - 1].to_vec()).collect(), p));
    } } }
    v.push(Space::list("matrices with many rows", big, |(a, p), c| { echelon(a, *p, c); if a.len() == a[0].len() && !c.failed() { inverse_mod(a, *p, c) } }));
    let mut big: Vec<(I, I)> = vec![];
    for (h, k, w) in [(5usize, 7usize, 6usize), (1, 33, 1), (16, 17, 1), (9, 9, 9), (2, 65, 3), (20, 4, 20)] { for s in 0..8usize {
        let m = |h: usize, w: usize, s: usize| -> I { (0..h).map(|i| (0..w).map(|j| ((i * 31 + j * 17 + i * j * 7 + s * 13) as i64 % 201 - 100) * [1, 3, 9999, 20011][s % 4]).collect()).collect() };
        big.push((m(h, k, s), m(k, w, s / 2 + 1)));
    } }
    v.push(Space::list("products of larger matrices", big, |(a, b), c| for p in [2i64, 7, 9999991, 2147483647, (1 << 61) - 1, TOP] { products(a, b, p, c); if c.failed() { return; } }));
    for (h, k, w, al) in [(1usize, 1usize, 1usize, r(-20, 20)), (1, 2, 1, r(-5, 5)), (2, 1, 2, r(-4, 4)), (2, 2, 2, t.pick(r(-1, 1), r(-2, 2))), (1, 3, 2, r(-1, 1)), (2, 3, 1, r(-1, 1)), (2, 2, 1, vec![-9999990, -1, 0, 1, 9999990]), (1, 4, 1, vec![-7, 0, 1, 9999990]), (1, 2, 1, vec![-TOP, -(1 << 61), -1, 0, 3, 1 << 61, TOP - 1]), (2, 2, 1, vec![TOP - 1, -TOP, 5, 1 << 45])] {
        let nb = (al.len() as u64).pow((k * w) as u32);
        let na = (al.len() as u64).pow((h * k) as u32);
        v.push(Space::new(&format!("products {}x{} by {}x{} of {} entries", h, k, k, w, al.len()), na * nb, move |i, c| {
            let (a, b) = (imat(i / nb, &al, h, k), imat(i % nb, &al, k, w));
            let ps: &[i64] = if al.iter().any(|x| x.abs() > 1 << 40) { &[7, 9999991, (1 << 61) - 1, TOP] } else { &[2, 7, 9999991] };
            for &p in ps { products(&a, &b, p, c); if c.failed() { return; } }
        }));
    }
    v
}

// ---- C22 --------------------------------------------------------------------------------------

fn zip(a: &M, b: &M, f: &dyn Fn(Q, Q) -> Q) -> M { a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(&x, &y)| f(x, y)).collect()).collect() }
fn each(a: &M, f: &dyn Fn(Q) -> Q) -> M { a.iter().map(|r| r.iter().map(|&x| f(x)).collect()).collect() }
fn same<T: Num>(m: &Matrix<T>, w: &M) -> bool { m.shape() == (w.len(), w[0].len()) && from(m).as_ref() == Some(w) }

macro_rules! arith { ($name:ident, $t:ty) => {
    fn $name(a: &M, b: &M, c: &mut Ctx) {
        let (h, w) = (a.len(), a[0].len());
        let (h2, w2) = (b.len(), b[0].len());
        let x: Matrix<$t> = to(a, w);
        let y: Matrix<$t> = to(b, w2);
        let nm = <$t as Num>::NAME;
        macro_rules! agree { ($e:expr, $want:expr, $s:expr) => { { c.evals(1); match attempt(|| $e) {
            Ok(m) => if !same(&m, &$want) { return c.fail(format!("{}: {} with {:?} and {:?} is {:?}, expected {:?}", nm, $s, a, b, m, $want)) },
            Err(p) => return c.fail(format!("{}: {} with {:?} and {:?} panicked: {}", nm, $s, a, b, p)) } } } }
        macro_rules! refused { ($e:expr, $s:expr) => { { c.evals(1); if let Ok(m) = attempt(|| $e) { return c.fail(format!("{}: {} accepts incompatible {:?} and {:?}, giving {:?}", nm, $s, a, b, m)) } } } }
        macro_rules! forms { ($op:tt, $want:expr) => { { let w = $want; let s = stringify!($op);
            agree!(&x $op &y, w, format!("& {} &", s)); agree!(&x $op y.clone(), w, format!("& {} owned", s)); agree!(x.clone() $op &y, w, format!("owned {} &", s)); agree!(x.clone() $op y.clone(), w, format!("owned {} owned", s)); } } }
        macro_rules! bad { ($op:tt) => { { let s = stringify!($op); refused!(&x $op &y, s); refused!(&x $op y.clone(), s); refused!(x.clone() $op &y, s); refused!(x.clone() $op y.clone(), s); } } }
        if (h, w) == (h2, w2) {
            forms!(+, zip(a, b, &|x, y| x + y));
            forms!(-, zip(a, b, &|x, y| x - y));
            agree!({ let mut z = x.clone(); z += &y; z }, zip(a, b, &|x, y| x + y), "+= &");
            agree!({ let mut z = x.clone(); z += y.clone(); z }, zip(a, b, &|x, y| x + y), "+= owned");
            agree!({ let mut z = x.clone(); z -= &y; z }, zip(a, b, &|x, y| x - y), "-= &");
            agree!({ let mut z = x.clone(); z -= y.clone(); z }, zip(a, b, &|x, y| x - y), "-= owned");
        } else {
            bad!(+); bad!(-);
            refused!({ let mut z = x.clone(); z += &y; z }, "+="); refused!({ let mut z = x.clone(); z -= &y; z }, "-=");
            refused!({ let mut z = x.clone(); z += y.clone(); z }, "+="); refused!({ let mut z = x.clone(); z -= y.clone(); z }, "-=");
        }
        // the very same object on both sides
        agree!(&x + &x, each(a, &|x| x + x), "itself + itself"); agree!(&x - &x, each(a, &|x| x - x), "itself - itself");
        if h == w { agree!(&x * &x, mat::mul(a, a), "itself * itself"); }
        c.evals(1);
        if x != x.clone() || { let z = &x; z != z } { return c.fail(format!("{}: {:?} is not equal to itself", nm, a)) }
        if w == h2 { forms!(*, mat::mul(a, b)); c.nontrivial(&(nm, a, b)); c.outcome(&format!("{} {}x{} by {}x{}", nm, h, w, h2, w2)); c.sample(|| format!("{:?} and {:?}", a, b)); } else { bad!(*); c.outcome("no product"); }
        if !same(&x, a) || !same(&y, b) { c.fail(format!("{}: an operand among {:?}, {:?} changed to {:?}, {:?}", nm, a, b, x, y)) }
    }
} }
macro_rules! scalar { ($name:ident, $t:ty) => {
    fn $name(a: &M, s: Q, c: &mut Ctx) {
        let w = a[0].len();
        let x: Matrix<$t> = to(a, w);
        let y: $t = <$t as Num>::of(s);
        let nm = <$t as Num>::NAME;
        let field = <$t as Num>::FIELD;
        macro_rules! agree { ($e:expr, $want:expr, $s:expr) => { { c.evals(1); match attempt(|| $e) {
            Ok(m) => if !same(&m, &$want) { return c.fail(format!("{}: {} with {:?} and {:?} is {:?}, expected {:?}", nm, $s, a, s, m, $want)) },
            Err(p) => return c.fail(format!("{}: {} with {:?} and {:?} panicked: {}", nm, $s, a, s, p)) } } } }
        macro_rules! forms { ($op:tt, $asg:tt, $f:expr) => { { let w = each(a, &$f); let s = stringify!($op);
            agree!(&x $op &y, w, format!("& {} &scalar", s)); agree!(&x $op y.clone(), w, format!("& {} scalar", s)); agree!(x.clone() $op &y, w, format!("owned {} &scalar", s)); agree!(x.clone() $op y.clone(), w, format!("owned {} scalar", s));
            agree!({ let mut z = x.clone(); z $asg &y; z }, w, format!("{}= &scalar", s)); agree!({ let mut z = x.clone(); z $asg y.clone(); z }, w, format!("{}= scalar", s)); } } }
        forms!(+, +=, |x| x + s);
        forms!(-, -=, |x| x - s);
        forms!(*, *=, |x| x * s);
        if !s.is_zero() {
            // integer division rounds towards zero as for plain integers
            let f = |x: Q| if field { x / s } else { Q::int(x.n / s.n) };
            forms!(/, /=, f);
        }
        agree!(-&x, each(a, &|x| -x), "negative of &"); agree!(-x.clone(), each(a, &|x| -x), "negative");
        if !same(&x, a) || y != <$t as Num>::of(s) { c.fail(format!("{}: an operand among {:?}, {:?} changed", nm, a, s)) }
        c.nontrivial(&(nm, a, s));
    }
} }
arith!(ar32, i32); arith!(ar64, i64); arith!(arq, BigRational); arith!(arf, f64);
scalar!(sc32, i32); scalar!(sc64, i64); scalar!(scq, BigRational); scalar!(scf, f64);

fn c22(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let pairs = |v: &mut Vec<Space>, al: Vec<Q>, (h, w): (usize, usize), (h2, w2): (usize, usize), kinds: usize| {
        let (na, nb) = ((al.len() as u64).pow((h * w) as u32), (al.len() as u64).pow((h2 * w2) as u32));
        v.push(Space::new(&format!("pairs {}x{}, {}x{} from {} entries", h, w, h2, w2, al.len()), na * nb, move |i, c| {
            let (a, b) = (mat_at(i / nb, &al, h, w), mat_at(i % nb, &al, h2, w2));
            ar64(&a, &b, c); if kinds > 1 && !c.failed() { arq(&a, &b, c); if !c.failed() { ar32(&a, &b, c) } if !c.failed() { arf(&a, &b, c) } }
        }));
    };
    pairs(&mut v, ints(-6, 6), (1, 1), (1, 1), 4);
    pairs(&mut v, t.pick(ints(-1, 1), ints(-2, 2)), (2, 2), (2, 2), 4);
    pairs(&mut v, t.pick(ints(-1, 2), ints(-2, 2)), (2, 2), (2, 1), 4);
    for (x, y) in [((1, 2), (2, 1)), ((2, 1), (1, 2)), ((1, 3), (3, 1)), ((3, 1), (1, 3)), ((1, 2), (1, 2)), ((2, 1), (2, 1)), ((1, 3), (1, 3))] { pairs(&mut v, t.pick(ints(-1, 2), ints(-2, 2)), x, y, 4); }
    for (x, y) in [((2, 3), (3, 1)), ((2, 3), (3, 2)), ((3, 2), (2, 3)), ((1, 3), (3, 2)), ((3, 3), (3, 1)), ((2, 3), (2, 3)), ((3, 2), (3, 2))] { pairs(&mut v, if x.0 * x.1 + y.0 * y.1 > 11 { ints(0, 1) } else { ints(-1, t.pick(0, 1)) }, x, y, 4); }
    pairs(&mut v, ints(0, 1), (3, 3), (3, 3), 1);
    // every combination of small shapes, with all entries distinct
    let sh: Vec<(usize, usize)> = (1..=4).flat_map(|h| (1..=4).map(move |w| (h, w))).collect();
    let combos: Vec<((usize, usize), (usize, usize), i128)> = sh.iter().flat_map(|&a| sh.iter().flat_map(move |&b| (0..3).map(move |k| (a, b, k)))).collect();
    v.push(Space::list("all pairs of shapes up to 4x4", combos, |&(x, y, k), c| {
        let m = |(h, w): (usize, usize), s: i128| -> M { (0..h as i128).map(|i| (0..w as i128).map(|j| Q::int((i * 7 + j * 3 + s) * if (i + j + k) % 2 == 0 { 1 } else { -1 })).collect()).collect() };
        let (a, b) = (m(x, 2 + k), m(y, 11 - 5 * k));
        ar64(&a, &b, c); arq(&a, &b, c); ar32(&a, &b, c); arf(&a, &b, c);
    }));
    // larger shapes, matching and not quite
    let top = t.pick(10usize, 14);
    let dims: Vec<usize> = vec![1, 2, 5, 7, 8, 9, top];
    let mut combos: Vec<((usize, usize), (usize, usize), i128)> = vec![];
    for &h in &dims { for &k in &dims { for &w in &dims { combos.push(((h, k), (k, w), (h + w) as i128)); if w == h { combos.push(((h, k), (h, k), 1)); combos.push(((h, k), (h + 1, k), 1)); combos.push(((h, k), (h, k + 1), 2)); combos.push(((h, k), (k, h), 2)); } } } }
    for n in [17usize, 33] { combos.push(((n, 1), (1, n), 1)); combos.push(((1, n), (n, 1), 1)); combos.push(((n, n), (n, 1), 1)); combos.push(((1, n), (1, n), 1)); combos.push(((n, 2), (n, 2), 2)); combos.push(((1, n), (n + 1, 1), 1)); combos.push(((n, n), (n, n), 1)); }
    v.push(Space::list("larger shapes", combos, |&(x, y, k), c| {
        let m = |(h, w): (usize, usize), s: i128| -> M { (0..h as i128).map(|i| (0..w as i128).map(|j| Q::int((i * 37 + j * 3 + s) * if (i + j + k) % 2 == 0 { 1 } else { -1 })).collect()).collect() };
        let (a, b) = (m(x, 2 + k), m(y, 11 - 5 * k));
        ar64(&a, &b, c); arq(&a, &b, c); ar32(&a, &b, c); arf(&a, &b, c);
        for s in [-3i128, 1, 0, 4] { let s = Q::int(s); sc64(&a, s, c); sc32(&a, s, c); scq(&a, s, c); if s.n == 4 { scf(&a, s, c) } }
    }));
    let fr = fracs();
    let nf = fr.len() as u64;
    let f2 = fr.clone();
    v.push(Space::new("fractional 1x2 by 2x1", nf.pow(4), move |i, c| arq(&mat_at(i / nf / nf, &f2, 1, 2), &mat_at(i % (nf * nf), &f2, 2, 1), c)));
    let f2 = fr.clone();
    v.push(Space::new("fractional 2x1 sums", nf.pow(4), move |i, c| arq(&mat_at(i / nf / nf, &f2, 2, 1), &mat_at(i % (nf * nf), &f2, 2, 1), c)));
    for (h, w) in [(1usize, 1usize), (1, 2), (2, 1), (2, 2), (3, 2)] {
        let al = if h * w > 4 { ints(-1, 1) } else if h * w == 4 { ints(-2, 2) } else { ints(-9, 9) };
        let n = (al.len() as u64).pow((h * w) as u32);
        v.push(Space::new(&format!("scalars with {}x{} matrices", h, w), n, move |i, c| { let a = mat_at(i, &al, h, w); for s in -4i128..=4 { let s = Q::int(s); sc64(&a, s, c); sc32(&a, s, c); scq(&a, s, c); if [1, 2, 4].contains(&s.n.abs()) { scf(&a, s, c) } if c.failed() { return; } } }));
    }
    let f2 = Arc::new(fr);
    v.push(Space::new("fractional scalars", nf.pow(4), move |i, c| { let a = mat_at(i / nf, &f2[..], 1, 3); scq(&a, f2[(i % nf) as usize], c) }));
    v
}

// ---- C23 --------------------------------------------------------------------------------------

/// Matrix of the given shape whose entries name their place.
fn label(h: usize, w: usize) -> Vec<i64> { (0..h * w).map(|k| 1000 + 17 * k as i64).collect() }
fn at(w: usize, i: usize, j: usize) -> i64 { 1000 + 17 * (i * w + j) as i64 }
macro_rules! want { ($c:expr, $got:expr, $want:expr, $($m:tt)*) => { { $c.evals(1); match attempt(|| $got) {
    Ok(g) => { let w = $want; if g != w { return $c.fail(format!("{}: got {:?}, expected {:?}", format!($($m)*), g, w)) } }
    Err(p) => return $c.fail(format!("{} panicked: {}", format!($($m)*), p)) } } } }
macro_rules! refuse { ($c:expr, $got:expr, $($m:tt)*) => { { $c.evals(1); if let Ok(g) = attempt(|| $got) { return $c.fail(format!("{} is accepted: {:?}", format!($($m)*), g)) } } } }
fn mk(h: usize, w: usize, f: &dyn Fn(usize, usize) -> i64) -> Matrix<i64> { Matrix::new(w, &(0..h).flat_map(|i| (0..w).map(move |j| (i, j))).map(|(i, j)| f(i, j)).collect::<Vec<_>>()) }
/// Reads a matrix by shape and iteration only.
fn view(m: &Matrix<i64>) -> ((usize, usize), Vec<i64>) { (m.shape(), m.iter().cloned().collect()) }
fn vw(h: usize, w: usize, f: &dyn Fn(usize, usize) -> i64) -> ((usize, usize), Vec<i64>) { ((h, w), (0..h * w).map(|k| f(k / w, k % w)).collect()) }

fn layout(h: usize, w: usize, c: &mut Ctx) {
    let data = label(h, w);
    let m = Matrix::new(w, &data);
    let l = |i: usize, j: usize| at(w, i, j);
    want!(c, view(&m), ((h, w), data.clone()), "{}x{} matrix", h, w);
    want!(c, m.clone().into_iter().collect::<Vec<i64>>(), data.clone(), "{}x{} into_iter", h, w);
    for i in 0..h { for j in 0..w {
        want!(c, m[(i, j)], l(i, j), "{}x{} at ({}, {})", h, w, i, j);
        let mut n = m.clone();
        want!(c, { n[(i, j)] = -3; view(&n) }, vw(h, w, &|a, b| if (a, b) == (i, j) { -3 } else { l(a, b) }), "{}x{} set at ({}, {})", h, w, i, j);
    } }
    for i in 0..h + 3 { for j in 0..w + 3 { if i >= h || j >= w {
        refuse!(c, m[(i, j)], "{}x{} at ({}, {})", h, w, i, j);
        let mut n = m.clone();
        refuse!(c, { n[(i, j)] = 5; view(&n) }, "{}x{} set at ({}, {})", h, w, i, j);
    } } }
    for i in 0..h { want!(c, m.get_row(i), (0..w).map(|j| l(i, j)).collect::<Vec<_>>(), "{}x{} row {}", h, w, i); }
    for j in 0..w { want!(c, m.get_col(j), (0..h).map(|i| l(i, j)).collect::<Vec<_>>(), "{}x{} column {}", h, w, j); }
    for i in h..h + 3 { refuse!(c, m.get_row(i), "{}x{} row {}", h, w, i); }
    for j in w..w + 3 { refuse!(c, m.get_col(j), "{}x{} column {}", h, w, j); }
    want!(c, m.get_rows(), (0..h).map(|i| (0..w).map(|j| l(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>(), "{}x{} rows", h, w);
    want!(c, view(&m.transpose()), vw(w, h, &|i, j| l(j, i)), "{}x{} transposed", h, w);
    want!(c, m.transpose().transpose(), m.clone(), "{}x{} transposed twice", h, w);
    want!(c, view(&data.iter().cloned().collect::<Matrix<i64>>().reshape(w)), ((h, w), data.clone()), "collected from {} items and reshaped", h * w);
    want!(c, view(&Matrix::row(&data)), ((1, h * w), data.clone()), "row of {}", h * w);
    want!(c, view(&Matrix::col(&data)), ((h * w, 1), data.clone()), "column of {}", h * w);
    for k in 1..=h * w + 2 {
        if h * w % k == 0 {
            want!(c, view(&m.clone().reshape(k)), ((h * w / k, k), data.clone()), "{}x{} reshaped to {} columns", h, w, k);
            want!(c, view(&Matrix::new(k, &data)), ((h * w / k, k), data.clone()), "{} entries in {} columns", h * w, k);
        } else {
            refuse!(c, view(&m.clone().reshape(k)), "{}x{} reshaped to {} columns", h, w, k);
            refuse!(c, view(&Matrix::new(k, &data)), "{} entries in {} columns", h * w, k);
        }
    }
    // all slices, and all cuts put together again
    for a in 0..h { for b in a + 1..=h + 1 { for x in 0..w { for y in x + 1..=w + 1 {
        if b <= h && y <= w { want!(c, view(&m.submatrix(a..b, x..y)), vw(b - a, y - x, &|i, j| l(i + a, j + x)), "{}x{} cut to {}..{}, {}..{}", h, w, a, b, x, y); }
        else { refuse!(c, view(&m.submatrix(a..b, x..y)), "{}x{} cut to {}..{}, {}..{}", h, w, a, b, x, y); }
    } } } }
    let cuts = |n: usize| -> Vec<Vec<(usize, usize)>> { (0..1u32 << (n - 1)).map(|mk| { let mut r = vec![]; let mut s = 0; for k in 1..=n { if k == n || mk >> (k - 1) & 1 == 1 { r.push((s, k)); s = k; } } r }).collect() };
    for p in cuts(h) { want!(c, Matrix::vstack(&p.iter().map(|&(a, b)| m.submatrix(a..b, 0..w)).collect::<Vec<_>>()), m.clone(), "{}x{} cut into rows {:?} and stacked", h, w, p); }
    for p in cuts(w) { want!(c, Matrix::hstack(&p.iter().map(|&(a, b)| m.submatrix(0..h, a..b)).collect::<Vec<_>>()), m.clone(), "{}x{} cut into columns {:?} and stacked", h, w, p); }
    want!(c, view(&Matrix::<i64>::zero(h, w)), vw(h, w, &|_, _| 0), "zero {}x{}", h, w);
    c.nontrivial(&(h, w));
    c.sample(|| format!("{}x{} {:?}", h, w, data));
    c.outcome("layout");
}
/// The part of `layout` that does not enumerate all cuts.
fn shape_only(h: usize, w: usize, c: &mut Ctx) {
    let data = label(h, w);
    let m = Matrix::new(w, &data);
    let l = |i: usize, j: usize| at(w, i, j);
    want!(c, view(&m), ((h, w), data.clone()), "{}x{} matrix", h, w);
    for i in 0..h { for j in 0..w { want!(c, m[(i, j)], l(i, j), "{}x{} at ({}, {})", h, w, i, j); } }
    for i in 0..h { want!(c, m.get_row(i), (0..w).map(|j| l(i, j)).collect::<Vec<_>>(), "{}x{} row {}", h, w, i); }
    for j in 0..w { want!(c, m.get_col(j), (0..h).map(|i| l(i, j)).collect::<Vec<_>>(), "{}x{} column {}", h, w, j); }
    want!(c, view(&m.transpose()), vw(w, h, &|i, j| l(j, i)), "{}x{} transposed", h, w);
    for k in 1..=h * w + 1 { if h * w % k == 0 { want!(c, view(&m.clone().reshape(k)), ((h * w / k, k), data.clone()), "{}x{} reshaped to {} columns", h, w, k); } else { refuse!(c, view(&m.clone().reshape(k)), "{}x{} reshaped to {} columns", h, w, k); } }
    for a in 0..h { for x in 0..w { want!(c, view(&m.submatrix(a..h, x..w)), vw(h - a, w - x, &|i, j| l(i + a, j + x)), "{}x{} cut from {}, {}", h, w, a, x); } }
    want!(c, Matrix::vstack(&(0..h).map(|a| m.submatrix(a..a + 1, 0..w)).collect::<Vec<_>>()), m.clone(), "{}x{} rows stacked", h, w);
    want!(c, Matrix::hstack(&(0..w).map(|a| m.submatrix(0..h, a..a + 1)).collect::<Vec<_>>()), m.clone(), "{}x{} columns stacked", h, w);
    c.nontrivial(&(h, w));
    c.outcome("layout");
}
fn units(n: usize, c: &mut Ctx) {
    for k in 0..n { want!(c, view(&Matrix::<i64>::unit_vector(n, k)), vw(1, n, &|_, j| (j == k) as i64), "unit vector {} of {}", k, n);
        want!(c, Matrix::<BigRational>::unit_vector(n, k), to::<BigRational>(&vec![(0..n).map(|j| if j == k { Q::ONE } else { Q::ZERO }).collect()], n), "rational unit vector {} of {}", k, n); }
    for k in n..n + 3 { refuse!(c, view(&Matrix::<i64>::unit_vector(n, k)), "unit vector {} of {}", k, n); }
    want!(c, view(&Matrix::<i64>::identity(n)), vw(n, n, &|i, j| (i == j) as i64), "identity of size {}", n);
    want!(c, Matrix::<f64>::identity(n), to::<f64>(&mat::ident(n), n), "float identity of size {}", n);
    want!(c, Matrix::<i64>::identity(n).is_identity(), true, "identity test of size {}", n);
    // one entry changed, and shapes that are not square
    for k in 0..n * n { for x in [-1i64, 0, 1, 2] { let m = mk(n, n, &|i, j| if i * n + j == k { x } else { (i == j) as i64 });
        want!(c, m.is_identity(), x == ((k / n == k % n) as i64), "identity test of {:?}", m); } }
    for d in 1..=3 { want!(c, mk(n, n + d, &|i, j| (i == j) as i64).is_identity(), false, "identity test of {}x{}", n, n + d); want!(c, mk(n + d, n, &|i, j| (i == j) as i64).is_identity(), false, "identity test of {}x{}", n + d, n); }
    c.nontrivial(&n); c.outcome("units and identities");
}
fn stacks(shapes: &[(usize, usize)], c: &mut Ctx) {
    let parts: Vec<Matrix<i64>> = shapes.iter().enumerate().map(|(k, &(h, w))| mk(h, w, &|i, j| (k * 100 + i * 10 + j) as i64)).collect();
    let e = |k: usize, i: usize, j: usize| (k * 100 + i * 10 + j) as i64;
    let find = |x: usize, f: &dyn Fn(usize) -> usize| { let mut x = x; let mut k = 0; while x >= f(k) { x -= f(k); k += 1; } (k, x) };
    if shapes.iter().all(|s| s.0 == shapes[0].0) {
        let w: usize = shapes.iter().map(|s| s.1).sum();
        want!(c, view(&Matrix::hstack(&parts)), vw(shapes[0].0, w, &|i, j| { let (k, x) = find(j, &|k| shapes[k].1); e(k, i, x) }), "side by side {:?}", shapes);
        c.nontrivial(&shapes);
    } else { refuse!(c, view(&Matrix::hstack(&parts)), "side by side {:?}", shapes); }
    if shapes.iter().all(|s| s.1 == shapes[0].1) {
        let h: usize = shapes.iter().map(|s| s.0).sum();
        want!(c, view(&Matrix::vstack(&parts)), vw(h, shapes[0].1, &|i, j| { let (k, x) = find(i, &|k| shapes[k].0); e(k, x, j) }), "on top of each other {:?}", shapes);
        c.nontrivial(&shapes);
    } else { refuse!(c, view(&Matrix::vstack(&parts)), "on top of each other {:?}", shapes); }
    c.outcome(&format!("{} parts", shapes.len()));
}
fn c23(t: Tier) -> Vec<Space> {
    let n = t.pick(7u64, 9);
    let s = t.pick(3u64, 4);
    let mut v = vec![
        Space::new("all shapes", n * n, move |i, c| layout((i / n) as usize + 1, (i % n) as usize + 1, c)),
        Space::new("units and identities", n, |i, c| units(i as usize + 1, c)),
    ];
    v.push(Space::list("larger shapes", vec![(1usize, 12usize), (12, 1), (2, 11), (11, 2), (9, 5), (5, 9), (10, 10), (1, 33), (33, 1), (8, 16), (3, 17)], |&(h, w), c| if h.max(w) <= 12 { layout(h, w, c) } else { shape_only(h, w, c) }));
    v.push(Space::list("larger stacks", { let mut l: Vec<Vec<(usize, usize)>> = vec![]; for m in [5usize, 7, 8, 9, 16, 17, 40] { for s in 0..4usize { l.push((0..m).map(|k| (2, 1 + (k * s) % 3)).collect()); l.push((0..m).map(|k| (1 + (k + s) % 4, 3)).collect()); l.push((0..m).map(|k| if k + 1 == m { (2, 3) } else { (1 + (k + s) % 4, 2) }).collect()); l.push((0..m).map(|k| if k == m / 2 { (3, 1) } else { (2, 1 + s) }).collect()); } } l }, |x, c| stacks(x, c)));
    v.push(Space::list("larger units", vec![10usize, 12, 16, 17, 20], |&n, c| units(n, c)));
    for k in 1..=t.pick(4u32, 5) { if k == 5 && s == 4 { continue; } v.push(Space::new(&format!("stacks of {} parts", k), (s * s).pow(k), move |i, c| stacks(&en::word(i, s * s, k as usize).into_iter().map(|x| (x / s as usize + 1, x % s as usize + 1)).collect::<Vec<_>>(), c))); }
    let sq: Vec<(usize, i64)> = vec![(1, 6), (2, 2), (3, 1)];
    for (d, r) in sq { let al: Vec<i64> = (-r..=r).collect(); let m = (al.len() as u64).pow((d * d) as u32);
        v.push(Space::new(&format!("identity test of {}x{} matrices", d, d), m, move |i, c| { let a = imat(i, &al, d, d); let x = Matrix::new(d, &a.concat());
            let w = (0..d * d).all(|k| a[k / d][k % d] == (k / d == k % d) as i64);
            c.check(x.is_identity() == w, &|| format!("identity test of {:?} gives {}", a, !w)); if w { c.nontrivial(&a) } })); }
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C21", level: "exploration", spaces: c21, assumptions: &["moduli are primes below 2^63", "integer products fit 64 bits"],
        rule: "one case per argument and prime, compared with Fermat inverses, an independent elimination and the definition of products; non-trivial if an inverse exists, or the rank is neither zero nor one or is deficient" },
    Check { id: "C22", level: "exploration", spaces: c22, assumptions: &["values small enough to be exact in the number type"],
        rule: "one case per pair of operands, in every owned and borrowed form and for 32- and 64-bit integers, rationals and floats; non-trivial if a product exists" },
    Check { id: "C23", level: "exploration", spaces: c23, assumptions: &["matrices with at least one row and one column"],
        rule: "all shapes with entries naming their place, all slices, cuts, stacks and reshapes of them; non-trivial if the request is legal" },
];
