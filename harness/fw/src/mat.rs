//! Reference linear algebra, written from the definitions.
use crate::en::{combos, parity, permutations};
use crate::q::{gcd, Q};

pub type M = Vec<Vec<Q>>;
pub type Z = Vec<Vec<i128>>;

pub fn qm(a: &Z) -> M { a.iter().map(|r| r.iter().map(|&x| Q::int(x)).collect()).collect() }
pub fn ident(n: usize) -> M { (0..n).map(|i| (0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO }).collect()).collect() }
pub fn transpose(a: &M, ncols: usize) -> M { (0..ncols).map(|j| a.iter().map(|r| r[j]).collect()).collect() }
pub fn tz(a: &Z, ncols: usize) -> Z { (0..ncols).map(|j| a.iter().map(|r| r[j]).collect()).collect() }
pub fn mul(a: &M, b: &M) -> M {
    let n = if b.is_empty() { 0 } else { b[0].len() };
    a.iter().map(|r| (0..n).map(|j| r.iter().enumerate().fold(Q::ZERO, |s, (k, &x)| if x.is_zero() { s } else { s + x * b[k][j] })).collect()).collect()
}
pub fn mulv(a: &M, v: &[Q]) -> Vec<Q> { a.iter().map(|r| r.iter().zip(v).fold(Q::ZERO, |s, (&x, &y)| s + x * y)).collect() }
pub fn dot(u: &[Q], v: &[Q]) -> Q { u.iter().zip(v).fold(Q::ZERO, |s, (&x, &y)| s + x * y) }

/// Determinant by the permutation sum.
pub fn det(a: &M) -> Q {
    let n = a.len();
    if n > 7 { return det_elim(a); }
    thread_local! { static PERMS: std::cell::RefCell<Vec<Option<std::rc::Rc<Vec<(Vec<usize>, i128)>>>>> = std::cell::RefCell::new(vec![None; 9]); }
    let ps = PERMS.with(|c| { let mut c = c.borrow_mut(); if c[n].is_none() {
        c[n] = Some(std::rc::Rc::new(permutations(n).into_iter().map(|p| { let s = parity(&p); (p, s) }).collect())); } c[n].clone().unwrap() });
    let mut s = Q::ZERO;
    for (p, sg) in ps.iter() {
        let mut t = Q::int(*sg);
        for i in 0..n { if a[i][p[i]].is_zero() { t = Q::ZERO; break; } t = t * a[i][p[i]]; }
        s = s + t;
    }
    s
}
/// Determinant by elimination, for sizes where the permutation sum has too many terms.
fn det_elim(a: &M) -> Q {
    let n = a.len();
    let mut m: Vec<Vec<num_rational::BigRational>> = a.iter().map(|r| r.iter().map(|x| x.big()).collect()).collect();
    let zero = Q::ZERO.big();
    let mut d = Q::ONE.big();
    for c in 0..n {
        let Some(k) = (c..n).find(|&k| m[k][c] != zero) else { return Q::ZERO };
        if k != c { m.swap(k, c); d = -d; }
        d = &d * &m[c][c];
        let row = m[c].clone();
        for t in m[c + 1..].iter_mut() { if t[c] != zero { let f = &t[c] / &row[c]; for j in c..n { t[j] = &t[j] - &f * &row[j]; } } }
    }
    Q::from_big(&d).expect("reference: result too large")
}
pub fn detz(a: &Z) -> i128 { let d = det(&qm(a)); assert!(d.is_int()); d.n }

/// Reduced row echelon form (nonzero rows only).
pub fn rref(a: &M, ncols: usize) -> M {
    let mut a = a.clone();
    let mut r = 0;
    for c in 0..ncols {
        let p = match (r..a.len()).find(|&i| !a[i][c].is_zero()) { Some(p) => p, None => continue };
        a.swap(r, p);
        let f = a[r][c].inv();
        for x in a[r].iter_mut() { *x = *x * f; }
        for i in 0..a.len() { if i != r && !a[i][c].is_zero() { let f = a[i][c]; for j in 0..ncols { let t = a[r][j] * f; a[i][j] = a[i][j] - t; } } }
        r += 1;
    }
    a.truncate(r);
    a
}
/// The same with intermediate results of any size; the result must fit.
pub fn rref_big(a: &M, ncols: usize) -> M {
    let mut m: Vec<Vec<num_rational::BigRational>> = a.iter().map(|r| r.iter().map(|x| x.big()).collect()).collect();
    let zero = Q::ZERO.big();
    let mut r = 0;
    for c in 0..ncols {
        let Some(k) = (r..m.len()).find(|&k| m[k][c] != zero) else { continue };
        m.swap(r, k);
        let f = m[r][c].clone();
        for x in m[r].iter_mut() { *x = &*x / &f; }
        let row = m[r].clone();
        for (i, t) in m.iter_mut().enumerate() { if i != r && t[c] != zero { let f = t[c].clone(); for j in c..ncols { if row[j] != zero { t[j] = &t[j] - &f * &row[j]; } } } }
        r += 1;
    }
    m.truncate(r);
    m.iter().map(|t| t.iter().map(|x| Q::from_big(x).expect("reference: result too large")).collect()).collect()
}
pub fn rank(a: &M, ncols: usize) -> usize { rref(a, ncols).len() }

pub fn inverse(a: &M) -> Option<M> {
    let n = a.len();
    let aug: M = a.iter().enumerate().map(|(i, r)| { let mut r = r.clone(); r.extend((0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO })); r }).collect();
    let e = rref(&aug, 2 * n);
    if e.len() < n || (0..n).any(|i| e[i][i] != Q::ONE) { return None; }
    Some(e.iter().map(|r| r[n..].to_vec()).collect())
}

/// Hermite normal form of the row lattice: positive pivots, entries above in [0, pivot).
pub fn hnf(a: &Z, ncols: usize) -> Z {
    let mut a: Z = a.iter().filter(|r| r.iter().any(|&x| x != 0)).cloned().collect();
    let mut r = 0;
    for c in 0..ncols {
        loop {
            let mut nz: Vec<usize> = (r..a.len()).filter(|&i| a[i][c] != 0).collect();
            if nz.is_empty() { break; }
            nz.sort_by_key(|&i| a[i][c].abs());
            a.swap(r, nz[0]);
            if a[r][c] < 0 { for x in a[r].iter_mut() { *x = -*x; } }
            let mut done = true;
            for i in r + 1..a.len() {
                let f = a[i][c].div_euclid(a[r][c]);
                if f != 0 { for j in 0..ncols { let t = a[r][j] * f; a[i][j] -= t; } }
                if a[i][c] != 0 { done = false; }
            }
            if done {
                for i in 0..r { let f = a[i][c].div_euclid(a[r][c]); if f != 0 { for j in 0..ncols { let t = a[r][j] * f; a[i][j] -= t; } } }
                r += 1;
                break;
            }
        }
        if r == a.len() { break; }
    }
    a.truncate(r);
    a
}
/// The same with intermediate results of any size; the result must fit.
pub fn hnf_big(a: &Z, ncols: usize) -> Z {
    use num_bigint::BigInt;
    use num_traits::{Signed, Zero};
    let mut a: Vec<Vec<BigInt>> = a.iter().filter(|r| r.iter().any(|&x| x != 0)).map(|r| r.iter().map(|&x| BigInt::from(x)).collect()).collect();
    let mut r = 0;
    for c in 0..ncols {
        while r < a.len() {
            let mut nz: Vec<usize> = (r..a.len()).filter(|&i| !a[i][c].is_zero()).collect();
            if nz.is_empty() { break; }
            nz.sort_by_key(|&i| a[i][c].abs());
            a.swap(r, nz[0]);
            if a[r][c].is_negative() { for x in a[r].iter_mut() { *x = -x.clone(); } }
            let row = a[r].clone();
            let sub = |t: &mut Vec<BigInt>| { let f = { let (q, m) = (&t[c] / &row[c], &t[c] % &row[c]); if m.is_negative() { q - 1 } else { q } }; if !f.is_zero() { for j in 0..ncols { t[j] -= &f * &row[j]; } } };
            for t in a[r + 1..].iter_mut() { sub(t); }
            if a[r + 1..].iter().all(|t| t[c].is_zero()) { for t in a[..r].iter_mut() { sub(t); } r += 1; break; }
        }
    }
    a.truncate(r);
    a.iter().map(|t| t.iter().map(|x| i128::try_from(x).expect("reference: result too large")).collect()).collect()
}
/// Scaled HNF of a rational row lattice: (denominator, canonical integer basis), reduced.
pub fn qhnf(a: &M, ncols: usize) -> M {
    let mut l: i128 = 1;
    for r in a { for x in r { l = l / gcd(l, x.d) * x.d; } }
    let z: Z = a.iter().map(|r| r.iter().map(|x| x.n * (l / x.d)).collect()).collect();
    hnf(&z, ncols).iter().map(|r| r.iter().map(|&x| Q::new(x, l)).collect()).collect()
}
/// Is v in the row lattice with Hermite basis h?
pub fn in_lattice(h: &Z, v: &[i128]) -> bool {
    let mut v = v.to_vec();
    for r in h {
        let c = r.iter().position(|&x| x != 0).unwrap();
        if v[c] % r[c] != 0 { return false; }
        let f = v[c] / r[c];
        if f != 0 { for j in 0..v.len() { v[j] -= f * r[j]; } }
    }
    v.iter().all(|&x| x == 0)
}
/// gcd of all k x k minors of an integer matrix with k rows (0 if dependent).
pub fn content(a: &Z, ncols: usize) -> i128 {
    let k = a.len();
    if ncols > 9 {
        // the index of the lattice that the columns generate
        let t: Z = (0..ncols).map(|j| a.iter().map(|r| r[j]).collect()).collect();
        let h = hnf_big(&t, k);
        return if h.len() < k { 0 } else { (0..k).map(|i| h[i][i]).product() };
    }
    let mut g = 0;
    for c in combos(ncols, k) { let m: Z = a.iter().map(|r| c.iter().map(|&j| r[j]).collect()).collect(); g = gcd(g, detz(&m)); if g == 1 { break; } }
    g
}
/// Does A X = B have a rational solution?
pub fn solvable_q(a: &M, b: &M, nca: usize, ncb: usize) -> bool {
    let ab: M = a.iter().zip(b).map(|(r, s)| { let mut r = r.clone(); r.extend(s.iter().cloned()); r }).collect();
    rank(a, nca) == rank(&ab, nca + ncb)
}
/// Does A X = B have an integer solution?
pub fn solvable_z(a: &Z, b: &Z, nca: usize, ncb: usize) -> bool {
    let n = a.len();
    let h = hnf(&tz(a, nca), n);
    tz(b, ncb).iter().all(|c| in_lattice(&h, c))
}
