//! C33-C35: reduced bases, Dirichlet domains, rational lattices.
use crate::affine::{grams, ints, qv};
use fw::en;
use fw::mat::{self, M, Z};
use fw::q::{gcd, Q};
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use num_traits::Zero;
use rust_systre::spacegroups::lattices::{dirichlet_vectors, rational_lattice_basis, reduced_lattice_basis, shift_for_dirichlet_domain};
use std::sync::Arc;

type B = BigRational;
fn big(v: &[Q]) -> Vec<B> { v.iter().map(|x| x.big()).collect() }
fn bigs(m: &M) -> Vec<Vec<B>> { m.iter().map(|v| big(v)).collect() }
fn back(m: &[Vec<B>]) -> Option<M> { m.iter().map(|v| v.iter().map(Q::from_big).collect()).collect() }
fn dot_of(g: &M) -> impl Fn(&[B], &[B]) -> B {
    let g: Vec<Vec<B>> = bigs(g);
    move |u, v| { let mut s = B::zero(); for i in 0..u.len() { if u[i].is_zero() { continue; } for j in 0..v.len() { if !v[j].is_zero() && !g[i][j].is_zero() { s += &u[i] * &g[i][j] * &v[j]; } } } s }
}
fn scale(m: &M) -> (i128, Z) { let mut l = 1; for x in m.iter().flatten() { l = l / gcd(l, x.d) * x.d; } (l, m.iter().map(|r| r.iter().map(|x| x.n * (l / x.d)).collect()).collect()) }

/// A lattice with a metric, on integers: basis vectors over a denominator and a metric up to a positive factor.
struct Lat { d: usize, den: i128, b: Z, g: Z, gd: i128, h: Z }
impl Lat {
    fn new(b: &M, g: &M) -> Lat { let d = b.len(); let (den, b) = scale(b); let (gd, g) = scale(g); let h = mat::hnf(&b, d); Lat { d, den, b, g, gd, h } }
    fn dot(&self, u: &[i128], v: &[i128]) -> i128 { (0..self.d).map(|i| (0..self.d).map(|j| u[i] * self.g[i][j] * v[j]).sum::<i128>()).sum() }
    fn norm(&self, u: &[i128]) -> i128 { self.dot(u, u) }
    fn ints(&self, v: &[Q]) -> Option<Vec<i128>> { v.iter().map(|x| { let y = *x * Q::int(self.den); if y.is_int() { Some(y.n) } else { None } }).collect() }
    fn has(&self, v: &[i128]) -> bool { mat::in_lattice(&self.h, v) }
    /// All nonzero lattice vectors of norm up to r, by their coefficients, and coefficient parities.
    fn short(&self, b: &Z, r: i128) -> Vec<(i128, Vec<i128>, usize)> {
        let d = self.d;
        let gram: M = (0..d).map(|i| (0..d).map(|j| Q::int(self.dot(&b[i], &b[j]))).collect()).collect();
        let inv = mat::inverse(&gram).unwrap();
        let lim: Vec<i128> = (0..d).map(|i| { let q = Q::int(r) * inv[i][i]; let mut k = 0; while Q::int((k + 1) * (k + 1)) <= q { k += 1 } k }).collect();
        let n: i128 = lim.iter().map(|k| 2 * k + 1).product();
        let mut res = vec![];
        for mut i in 0..n {
            let c: Vec<i128> = lim.iter().map(|k| { let m = 2 * k + 1; let x = i % m - k; i /= m; x }).collect();
            if c.iter().all(|&x| x == 0) { continue; }
            let v: Vec<i128> = (0..d).map(|j| (0..d).map(|i| c[i] * b[i][j]).sum()).collect();
            let q = self.norm(&v);
            if q <= r { res.push((q, v, c.iter().enumerate().map(|(k, x)| (x.rem_euclid(2) as usize) << k).sum())); }
        }
        res.sort();
        res
    }
    /// One of each pair of opposite vectors that bound the Dirichlet domain. b: any reduced-ish basis.
    fn relevant(&self, b: &Z) -> Vec<Vec<i128>> {
        let d = self.d;
        let r = (1..1usize << d).map(|s| { // shortest signed sum of the chosen vectors
            (0..1usize << d).map(|e| { let v: Vec<i128> = (0..d).map(|j| (0..d).filter(|i| s >> i & 1 == 1).map(|i| if e >> i & 1 == 1 { -b[i][j] } else { b[i][j] }).sum()).collect(); self.norm(&v) }).min().unwrap()
        }).max().unwrap();
        let l = self.short(b, r);
        let mut res = vec![];
        for cl in 1..1usize << d {
            let mut it = l.iter().filter(|x| x.2 == cl);
            let m = it.next().unwrap();
            let ties: Vec<_> = l.iter().filter(|x| x.2 == cl && x.0 == m.0).collect();
            if ties.len() == 2 { res.push(ties[0].1.clone()) }
        }
        res
    }
    /// A basis that keeps enumerations small: greedy pairwise reduction.
    fn nice(&self) -> Z {
        let mut b = self.b.clone();
        loop {
            let mut ch = false;
            for i in 0..self.d { for j in 0..self.d { if i != j {
                let (n, q) = (self.dot(&b[i], &b[j]), self.norm(&b[j]));
                let t = (2 * n + q).div_euclid(2 * q);
                if t != 0 { let v: Vec<i128> = (0..self.d).map(|k| b[i][k] - t * b[j][k]).collect(); if self.norm(&v) < self.norm(&b[i]) { b[i] = v; ch = true } }
            } } }
            if !ch { return b; }
        }
    }
}

/// No tolerance, and one below any difference that occurs.
fn tolerances(i: u64) -> Vec<B> { if i % 3 == 0 { vec![B::zero(), Q::new(1, 10i128.pow(36)).big()] } else { vec![B::zero()] } }
fn reduced(b: &M, g: &M, eps: &B, c: &mut Ctx) {
    let d = b.len();
    let say = || format!("basis {:?} with metric {:?}{}", b, g, if eps.is_zero() { "" } else { " and a tiny tolerance" });
    let l = Lat::new(b, g);
    let nice = l.nice();
    let bb = bigs(b);
    let got = match attempt(|| reduced_lattice_basis(&bb, dot_of(g), eps)) { Err(p) => return c.fail(format!("{}: reduction panicked: {}", say(), p)), Ok(None) => return c.fail(format!("{}: no reduced basis", say())), Ok(Some(x)) => x };
    let r = match back(&got).and_then(|m| m.iter().map(|v| if v.len() == d { l.ints(v) } else { None }).collect::<Option<Z>>()) { Some(r) => r, None => return c.fail(format!("{}: reduced basis {:?} is not in the lattice", say(), got)) };
    let show = || format!("{}: reduced basis {:?}", say(), back(&got).unwrap());
    if !c.check(r.len() == d && mat::hnf(&r, d) == l.h, &|| format!("{} generates a different lattice", show())) { return; }
    let norms: Vec<i128> = r.iter().map(|v| l.norm(v)).collect();
    if !c.check(norms.windows(2).all(|w| w[0] <= w[1]), &|| format!("{} is not sorted by length", show())) { return; }
    if !c.check(r[1..].iter().all(|v| l.dot(&r[0], v) <= 0), &|| format!("{}: first vector has a positive product with another", show())) { return; }
    // successive minima
    let mut sel: M = vec![];
    let mut minima = vec![];
    for (n, v, _) in l.short(&nice, norms[d - 1]) { let mut t = sel.clone(); t.push(v.iter().map(|&x| Q::int(x)).collect()); if mat::rank(&t, d) == t.len() { sel = t; minima.push(n) } }
    if !c.check(minima == norms, &|| format!("{}: squared lengths {:?}, successive minima {:?}, both in units of 1/{}", show(), norms, minima, l.den * l.den * l.gd)) { return; }
    c.evals(1);
    let ds = match attempt(|| dirichlet_vectors(&bb, dot_of(g), eps)) { Err(p) => return c.fail(format!("{}: Dirichlet vectors panicked: {}", say(), p)), Ok(x) => x };
    let dv = match back(&ds).and_then(|m| m.iter().map(|v| if v.len() == d { l.ints(v) } else { None }).collect::<Option<Z>>()) { Some(r) => r, None => return c.fail(format!("{}: Dirichlet vectors {:?} are not in the lattice", say(), ds)) };
    for v in &dv { if !c.check(l.has(v) && v.iter().any(|&x| x != 0), &|| format!("{}: Dirichlet vector {:?} (over {}) is not a nonzero lattice vector", say(), v, l.den)) { return; } }
    let rel = l.relevant(&nice);
    for v in &rel { let neg: Vec<i128> = v.iter().map(|x| -x).collect();
        if !c.check(dv.contains(v) || dv.contains(&neg), &|| format!("{}: Dirichlet vectors {:?} do not contain {:?} (all over {}), which bounds the domain", say(), dv, v, l.den)) { return; } }
    c.outcome(&format!("dimension {}, {} faces", d, 2 * rel.len()));
    if l.b.iter().map(|v| l.norm(v)).sum::<i128>() > norms.iter().sum() { c.nontrivial(&(b, g)); c.sample(show); }
}

fn shifts(b: &M, g: &M, ps: &[Vec<Q>], eps: &B, c: &mut Ctx) {
    let d = b.len();
    let l = Lat::new(b, g);
    let bb = bigs(b);
    let say = || format!("basis {:?} with metric {:?}{}", b, g, if eps.is_zero() { "" } else { " and a tiny tolerance" });
    let vs = match attempt(|| dirichlet_vectors(&bb, dot_of(g), eps)) { Err(p) => return c.fail(format!("{}: Dirichlet vectors panicked: {}", say(), p)), Ok(x) => x };
    let rel: M = l.relevant(&l.nice()).iter().map(|v| v.iter().map(|&x| Q::new(x, l.den)).collect()).collect();
    let dq = |u: &[Q], v: &[Q]| mat::dot(&mat::mulv(g, u), v);
    for p in ps {
        c.evals(1);
        let pb = big(p);
        let s = match attempt(|| shift_for_dirichlet_domain(&pb, &vs, dot_of(g), eps)) { Err(e) => return c.fail(format!("{}: shift of {:?} panicked: {}", say(), p, e)), Ok(s) => s };
        let s: Option<Vec<Q>> = s.iter().map(Q::from_big).collect();
        let s = match s { Some(s) if s.len() == d => s, x => return c.fail(format!("{}: shift of {:?} is {:?}", say(), p, x)) };
        if !c.check(l.ints(&s).map_or(false, |v| l.has(&v)), &|| format!("{}: shift {:?} of {:?} is no lattice vector", say(), s, p)) { return; }
        let q: Vec<Q> = p.iter().zip(&s).map(|(&x, &y)| x + y).collect();
        let mut inside = true;
        for v in &rel {
            let t = dq(&q, v).abs() * Q::int(2);
            let n = dq(v, v);
            if !c.check(t <= n, &|| format!("{}: {:?} is moved to {:?}, which is closer to the lattice point {:?} or its opposite than to the origin", say(), p, q, v)) { return; }
            if t == n { inside = false }
        }
        c.outcome(if inside { "interior" } else { "boundary" });
        if s.iter().any(|x| !x.is_zero()) { c.nontrivial(&(b, g, p)); }
        if inside { for k in 0..d { // another representative of the same position
            let f = Q::int(2 - 3 * (k as i128 % 2));
            let p2: Vec<Q> = (0..d).map(|j| p[j] + f * b[k][j] - b[(k + 1) % d][j]).collect();
            c.evals(1);
            let s2 = match attempt(|| shift_for_dirichlet_domain(&big(&p2), &vs, dot_of(g), eps)) { Err(e) => return c.fail(format!("{}: shift of {:?} panicked: {}", say(), p2, e)), Ok(s) => s };
            let q2: Vec<Q> = p2.iter().zip(&s2).map(|(&x, y)| x + Q::from_big(y).unwrap()).collect();
            if !c.check(q2 == q, &|| format!("{}: equivalent positions {:?} and {:?} are moved to {:?} and {:?}", say(), p, p2, q, q2)) { return; }
        } }
    }
}

fn mats(al: &[Q], d: usize) -> Vec<M> { let b = al.len() as u64; (0..b.pow((d * d) as u32)).map(|i| en::word(i, b, d * d).chunks(d).map(|r| r.iter().map(|&k| al[k]).collect()).collect()).collect() }
fn regular(l: Vec<M>) -> Vec<M> { l.into_iter().filter(|b| !mat::det(b).is_zero()).collect() }
fn positive(g: &M) -> bool { (1..=g.len()).all(|k| mat::det(&g[..k].iter().map(|r| r[..k].to_vec()).collect::<M>()) > Q::ZERO) }
/// Positive definite metrics with diagonal entries up to hi and other entries from -lo to lo.
fn metrics(d: usize, hi: i128, lo: i128) -> Vec<M> {
    let (a, o) = (ints(1, hi), ints(-lo, lo));
    let p = d * (d - 1) / 2;
    let mut v = vec![];
    for i in 0..(a.len() as u64).pow(d as u32) { for j in 0..(o.len() as u64).pow(p as u32) {
        let (x, y) = (en::word(i, a.len() as u64, d), en::word(j, o.len() as u64, p));
        let mut g = vec![vec![Q::ZERO; d]; d];
        let mut k = 0;
        for r in 0..d { g[r][r] = a[x[r]]; for s in r + 1..d { g[r][s] = o[y[k]]; g[s][r] = o[y[k]]; k += 1 } }
        if positive(&g) { v.push(g) }
    } }
    v
}
fn cross(name: &str, b: Vec<M>, g: Vec<M>) -> Space { let n = g.len() as u64; Space::new(name, b.len() as u64 * n, move |i, c| for e in tolerances(i) { reduced(&b[(i / n) as usize], &g[(i % n) as usize], &e, c) }) }

/// Very small and very large values: factors for vectors and for metrics.
fn factors() -> Vec<(Q, Q)> {
    let p = |k: u32| 10i128.pow(k);
    vec![(Q::new(1, p(6)), Q::ONE), (Q::new(1, p(9)), Q::ONE), (Q::new(1, p(10)), Q::int(2)), (Q::new(1, 1 << 30), Q::ONE), (Q::ONE, Q::new(1, p(9))), (Q::ONE, Q::new(1, p(12))), (Q::new(1, p(5)), Q::new(1, p(7))), (Q::int(p(6)), Q::ONE), (Q::int(p(9)), Q::ONE), (Q::ONE, Q::int(p(10))), (Q::new(1, p(8)), Q::int(p(8))), (Q::new(p(4), 3), Q::new(7, p(11)))]
}
fn times(m: &M, f: Q) -> M { m.iter().map(|r| r.iter().map(|&x| x * f).collect()).collect() }
fn c33(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(cross("line", regular(mats(&qv(&[(1, 1), (-2, 1), (3, 7)]), 1)), grams(1)));
    v.push(cross("integer bases, plane", regular(mats(&ints(-t.pick(3, 4), t.pick(3, 4)), 2)), metrics(2, t.pick(3, 5), t.pick(2, 4))));
    v.push(cross("rational bases, plane", regular(mats(&qv(&[(0, 1), (1, 1), (1, 2), (-2, 3), (7, 4)]), 2)), grams(2)));
    let long: Vec<M> = (1..=t.pick(12, 30)).flat_map(|k| (1..=t.pick(12, 30)).flat_map(move |l| [vec![vec![Q::int(k), Q::int(l)], vec![Q::int(l + 1), Q::int(k + l)]], vec![vec![Q::int(k), Q::int(1)], vec![Q::int(k * l + 1), Q::int(-l)]]])).collect();
    v.push(cross("long bases, plane", regular(long), grams(2)));
    let b3 = regular(mats(&ints(-1, 1), 3));
    v.push(cross(if t == Tier::Quick { "every second basis with entries -1 to 1, space" } else { "integer bases, space" }, b3.iter().step_by(t.pick(2, 1)).cloned().collect(), grams(3)));
    v.push(cross("metrics, space", [mat::ident(3), b3[17].clone(), b3[b3.len() / 2].clone()].to_vec(), metrics(3, t.pick(3, 4), t.pick(1, 2))));
    let r3: Vec<M> = regular(mats(&qv(&[(0, 1), (1, 2), (-2, 1)]), 3)).into_iter().step_by(t.pick(11, 1)).collect();
    v.push(cross("rational bases, space", r3, grams(3)));
    // the same on other scales
    for (name, b, g) in [("line", regular(mats(&qv(&[(1, 1), (-2, 1), (3, 7)]), 1)), grams(1)), ("plane", regular(mats(&ints(-2, 2), 2)).into_iter().step_by(t.pick(5, 1)).collect(), grams(2)), ("space", b3.iter().step_by(t.pick(331, 31)).cloned().collect(), grams(3))] {
        let f = factors();
        let (nf, ng) = (f.len() as u64, g.len() as u64);
        v.push(Space::new(&format!("other scales, {}", name), b.len() as u64 * ng * nf, move |i, c| { let w = en::digits(i, &[nf, ng, b.len() as u64]); let f = f[w[0] as usize]; reduced(&times(&b[w[2] as usize], f.0), &times(&g[w[1] as usize], f.1), &B::zero(), c) }));
    }
    // far from reduced: products of shears
    let sh: Vec<M> = (0..t.pick(216u64, 1296)).map(|i| { let mut m = mat::ident(3); for (k, w) in en::word(i, 6, t.pick(3, 4)).into_iter().enumerate() { let (r, s) = [(0, 1), (1, 2), (2, 0), (1, 0), (0, 2), (2, 1)][w]; let f = Q::int(2 + k as i128); for j in 0..3 { let x = m[s][j] * f; m[r][j] = m[r][j] + x; } } m }).collect();
    v.push(cross("sheared bases, space", sh, grams(3)));
    // many rounds of reduction: all quotients of two or three, either sign
    let deep = |al: &[i128], n: usize| -> Vec<M> { let k = al.len() as u64; (0..k.pow(n as u32)).map(|i| { let (mut a, mut b) = ([1i128, 0], [0i128, 1]); for q in en::word(i, k, n) { let c = [a[0] + al[q] * b[0], a[1] + al[q] * b[1]]; a = b; b = c; } [a, b].iter().map(|v| v.iter().map(|&x| Q::int(x)).collect()).collect() }).collect() };
    v.push(cross("chains of quotients, plane", deep(&[2, -2, 3, 1], t.pick(5, 6)), grams(2)));
    v.push(cross("long chains of quotients, plane", (9..=t.pick(14usize, 18)).flat_map(|n| [deep(&[2], n), deep(&[3], n), deep(&[-2], n), deep(&[-3], n), deep(&[1], n)].concat()).collect(), grams(2)));
    // very long vectors
    let ks = [7i128, -19, 40, 101, -256, 1000, 32768, -99991, 1000000];
    let far: Vec<M> = ks.iter().flat_map(|&k| ks.iter().flat_map(move |&l| [[[1, 0], [k, 1]], [[k, 1], [-1, 0]], [[l, 1], [k * l - 1, k]], [[k, l], [k + 1, l + 1]], [[2 * k, 3], [2 * k * l, 3 * l + 1]]])).map(|m| m.iter().map(|r| r.iter().map(|&x| Q::int(x)).collect()).collect()).collect();
    v.push(cross("very long vectors, plane", regular(far).into_iter().filter(|b| mat::det(b).abs() <= Q::int(300)).collect(), grams(2)));
    let far: Vec<M> = ks.iter().take(t.pick(5, 6)).flat_map(|&k| ks.iter().take(4).flat_map(move |&l| [[[1, 0, 0], [k, 1, 0], [l, k, 1]], [[1, k, l], [0, 1, k], [0, 0, 1]], [[k, l, 1], [k + 1, l, 1], [k, l + 1, 1]]])).map(|m| m.iter().map(|r| r.iter().map(|&x| Q::int(x)).collect()).collect()).collect();
    v.push(cross("very long vectors, space", regular(far).into_iter().filter(|b| mat::det(b).abs() <= Q::int(100)).collect(), grams(3)));
    v
}

fn c34(t: Tier) -> Vec<Space> {
    let grid = |lo: i128, hi: i128, den: i128, d: usize| -> Vec<Vec<Q>> { let al: Vec<Q> = (lo..=hi).map(|x| Q::new(x, den)).collect(); let b = al.len() as u64; (0..b.pow(d as u32)).map(|i| en::word(i, b, d).into_iter().map(|k| al[k]).collect()).collect() };
    let mk = |name: &str, b: Vec<M>, g: Vec<M>, ps: Vec<Vec<Q>>| { let n = g.len() as u64; let ps = Arc::new(ps); Space::new(name, b.len() as u64 * n, move |i, c| for e in tolerances(i / 2) { shifts(&b[(i / n) as usize], &g[(i % n) as usize], &ps, &e, c) }) };
    let mut v = vec![];
    v.push(mk("line", regular(mats(&qv(&[(1, 1), (-2, 1), (3, 7)]), 1)), grams(1), grid(-20, 20, 4, 1)));
    v.push(mk("plane, quarters", regular(mats(&ints(-1, 1), 2)), metrics(2, t.pick(2, 3), 1), grid(-t.pick(7, 13), t.pick(9, 14), 4, 2)));
    v.push(mk("plane, sixths", vec![mat::ident(2), regular(mats(&ints(-3, 3), 2))[77].clone(), vec![qv(&[(1, 2), (1, 3)]), qv(&[(0, 1), (5, 4)])]], grams(2), grid(-t.pick(13, 25), t.pick(14, 26), 6, 2)));
    v.push(mk("larger bases, plane", regular(mats(&ints(-3, 3), 2)).into_iter().step_by(t.pick(13, 1)).collect(), grams(2), grid(-5, 5, 2, 2)));
    let b3 = regular(mats(&ints(-1, 1), 3));
    let bs: Vec<M> = b3.iter().step_by(t.pick(1597, 97)).cloned().collect();
    v.push(mk("space, halves", bs, grams(3), grid(-t.pick(4, 5), 5, 2, 3)));
    v.push(mk("space, quarters", vec![mat::ident(3)], grams(3), grid(-t.pick(3, 5), t.pick(6, 9), 4, 3)));
    v.push(mk("metrics, space", vec![mat::ident(3)], metrics(3, 2, 1), grid(-2, t.pick(2, 4), 3, 3)));
    // the same on other scales
    for (name, b, g, ps) in [("line", regular(mats(&qv(&[(1, 1), (-2, 1), (3, 7)]), 1)), grams(1), grid(-9, 10, 4, 1)), ("plane", regular(mats(&ints(-2, 2), 2)).into_iter().step_by(t.pick(23, 3)).collect(), grams(2), grid(-3, 4, 4, 2)), ("space", b3.iter().step_by(t.pick(2331, 331)).cloned().collect(), grams(3), grid(-2, 3, 3, 3))] {
        let f = factors();
        let (nf, ng) = (f.len() as u64, g.len() as u64);
        v.push(Space::new(&format!("other scales, {}", name), b.len() as u64 * ng * nf, move |i, c| { let w = en::digits(i, &[nf, ng, b.len() as u64]); let f = f[w[0] as usize]; shifts(&times(&b[w[2] as usize], f.0), &times(&g[w[1] as usize], f.1), &times(&ps, f.0), &B::zero(), c) }));
    }
    // far away
    let al = qv(&[(0, 1), (1, 3), (21, 2), (-57, 4), (1000, 7), (-99999, 10)]);
    let words = |d: usize| -> Vec<Vec<Q>> { (0..6u64.pow(d as u32)).map(|i| en::word(i, 6, d).into_iter().map(|k| al[k]).collect()).collect() };
    v.push(mk("far positions, line", regular(mats(&qv(&[(1, 1), (-2, 1), (3, 7)]), 1)), grams(1), words(1)));
    v.push(mk("far positions, plane", regular(mats(&ints(-2, 2), 2)).into_iter().step_by(t.pick(5, 1)).collect(), grams(2), words(2)));
    v.push(mk("far positions, space", b3.iter().step_by(t.pick(1997, 197)).cloned().collect(), grams(3), words(3)));
    v
}

fn rational(vs: &M, c: &mut Ctx) {
    let d = vs[0].len();
    let mut all = mat::ident(d);
    all.extend(vs.iter().cloned());
    let want = mat::qhnf(&all, d);
    let input = bigs(vs);
    let got = match attempt(|| rational_lattice_basis(&input)) { Ok(g) => g, Err(p) => return c.fail(format!("lattice with {:?} panicked: {}", vs, p)) };
    let m = match back(&got) { Some(m) if m.iter().all(|r| r.len() == d) => m, _ => return c.fail(format!("lattice with {:?}: {:?}", vs, got)) };
    c.check(m.len() == d && mat::qhnf(&m, d) == want, &|| format!("lattice with {:?}: basis {:?}, expected the lattice of {:?}", vs, m, want));
    let index = mat::det(&want).inv();
    if index > Q::ONE { c.nontrivial(vs); c.sample(|| format!("{:?}: {:?}", vs, m)); }
    c.outcome(&format!("dimension {}, index {}", d, index));
}
fn c35(t: Tier) -> Vec<Space> {
    let words = |al: &[Q], d: usize| -> Vec<Vec<Q>> { let b = al.len() as u64; (0..b.pow(d as u32)).map(|i| en::word(i, b, d).into_iter().map(|k| al[k]).collect()).collect() };
    let tup = |name: &str, l: Vec<Vec<Q>>, k: usize| { let n = l.len() as u64; Space::new(name, n.pow(k as u32), move |i, c| rational(&en::word(i, n, k).into_iter().map(|j| l[j].clone()).collect::<M>(), c)) };
    let mut v = vec![];
    let f1 = qv(&[(0, 1), (1, 1), (-2, 1), (1, 2), (-1, 2), (2, 3), (-5, 3), (3, 4), (-1, 6), (5, 12)]);
    for k in 1..=4 { v.push(tup(&format!("{} vectors, line", k), words(&f1, 1), k)); }
    v.push(tup("1 vector, plane", words(&(-t.pick(50, 80)..=t.pick(50, 80)).map(|x| Q::new(x, 24)).collect::<Vec<_>>(), 2), 1));
    let odd: Vec<Q> = (2..=t.pick(13i128, 25)).flat_map(|d| [Q::new(1, d), Q::new(-1, d), Q::new(d - 1, d), Q::new(2 * d + 1, d), Q::new(5 - 3 * d, d)]).collect();
    v.push(tup("1 vector, many denominators, plane", words(&odd, 2), 1));
    v.push(tup("2 vectors, plane", words(&qv(&[(0, 1), (1, 2), (-1, 2), (1, 3), (-4, 3), (3, 4), (-1, 5), (1, 1), (5, 6), (-2, 1), (3, 8), (2, 7), (-7, 12), (4, 9), (1, 4), (-1, 10)][..t.pick(12, 16)]), 2), 2));
    v.push(tup("3 vectors, plane", words(&qv(&[(0, 1), (1, 2), (-2, 3), (5, 4), (1, 3), (-1, 6), (1, 5)][..t.pick(5, 7)]), 2), 3));
    v.push(tup("4 vectors, plane", words(&qv(&[(0, 1), (1, 2), (-2, 3), (5, 4)]), 2), 4));
    v.push(tup("1 vector, space", words(&(-t.pick(14, 25)..=t.pick(14, 25)).map(|x| Q::new(x, 12)).collect::<Vec<_>>(), 3), 1));
    v.push(tup("2 vectors, space", words(&qv(&[(0, 1), (1, 2), (-1, 2), (1, 3), (-2, 3), (1, 1), (3, 4), (-1, 5), (1, 8)][..t.pick(7, 9)]), 3), 2));
    v.push(tup("3 vectors, space", words(&qv(&[(0, 1), (1, 2), (-1, 3), (-3, 4)][..t.pick(3, 4)]), 3), 3));
    v.push(tup("3 vectors of quarters, space", words(&qv(&[(0, 1), (1, 2), (-1, 4)]), 3), 3));
    // many vectors whose denominators have a small common multiple
    let many: Vec<M> = [12i128, 60, 360, 720, 2520, 5040].iter().flat_map(|&m| { let ds: Vec<i128> = (2..=m).filter(|d| m % d == 0).collect();
        (1..=3usize).flat_map(move |dim| { let ds = ds.clone(); (0..6usize).map(move |k| ds.iter().enumerate().filter(|(i, _)| k == 0 || i % (k + 1) != 0).map(|(i, &d)| (0..dim).map(|j| Q::new(if j == i % dim || k % 2 == 0 { 1 + (i * j) as i128 } else { 0 }, d)).collect()).collect::<M>()) }) }).filter(|l: &M| !l.is_empty()).collect();
    v.push(Space::list("many vectors with common denominators", many, |l, c| rational(l, c)));
    // denominators beyond machine words
    let big: Vec<Q> = [(0i128, 1i128), (1, 2), (1, (1 << 31) - 1), (-5, 1 << 31), (3, 1 << 33), (7, 3_486_784_401), (-2, 1_000_000_007), (11, 1_000_000_000_000)].iter().map(|&(n, d)| Q::new(n, d)).collect();
    v.push(tup("1 vector, large denominators, line", words(&big, 1), 1));
    v.push(tup("2 vectors, large denominators, line", words(&big, 1), 2));
    v.push(tup("1 vector, large denominators, plane", words(&big, 2), 1));
    v.push(tup("1 vector, large denominators, space", words(&[big[0], big[1], big[2], big[3]], 3), 1));
    v.push(tup("1 vector, four dimensions", words(&qv(&[(0, 1), (1, 1), (1, 2), (-1, 2), (1, 3), (-2, 3), (3, 4), (1, 6), (-1, 5)]), 4), 1));
    v.push(tup("2 vectors, four dimensions", words(&qv(&[(0, 1), (1, 2), (-1, 3), (3, 4)][..t.pick(3, 4)]), 4), 2));
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C33", level: "exploration", spaces: c33, assumptions: &["vectors are independent, as many as dimensions, and the product is positive definite", "exact rational coordinates and a tolerance of zero or below all differences that occur"],
        rule: "one case per basis and metric; compared with all lattice vectors up to the length in question, enumerated on integers; non-trivial if the basis was not reduced already" },
    Check { id: "C34", level: "exploration", spaces: c34, assumptions: &["the Dirichlet vectors of the lattice are those computed by the code (checked by C33)", "exact rational coordinates and a tolerance of zero or below all differences that occur"],
        rule: "one execution per basis, metric and position; judged against the vectors bounding the domain, found by enumeration; non-trivial if the shift is not zero" },
    Check { id: "C35", level: "exploration", spaces: c35, assumptions: &[],
        rule: "one case per list of vectors; canonical forms of the lattices are compared; non-trivial if the lattice is finer than the integer lattice" },
];
