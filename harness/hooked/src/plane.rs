//! C37, C38, C44: point groups, operator details, normalized cells.
use crate::adapt::*;
use crate::prim::finite;
use fw::en;
use fw::mat::{self, M};
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::finder::verif;
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use std::collections::BTreeSet;
use std::sync::Arc;

fn big(m: &M) -> Matrix<BigRational> { to::<BigRational>(m, m[0].len()) }
fn order(m: &M, max: usize) -> usize { let id = mat::ident(m.len()); let mut p = m.clone(); for k in 1..=max { if p == id { return k } p = mat::mul(&p, m) } 0 }
fn colv(m: &Matrix<BigRational>) -> Option<Vec<Q>> { let (_, c) = m.shape(); if c != 1 { return None } from(m).map(|r| r.into_iter().map(|x| x[0]).collect()) }

// ---- C38
fn det2(a: &[Q], b: &[Q]) -> Q { a[0] * b[1] - a[1] * b[0] }
/// Sense of rotation: positive if v, Mv (after the axis, in space) is right-handed for the vectors v outside of the axis.
fn sense(m: &M, axis: &Option<Vec<Q>>) -> Option<bool> {
    let d = m.len();
    for v in en::box_vectors(d, -1, 1) {
        let v: Vec<Q> = v.into_iter().map(|x| Q::int(x as i128)).collect();
        let w = mat::mulv(m, &v);
        let s = if d == 2 { det2(&v, &w) } else { mat::det(&vec![axis.clone()?, v, w]) };
        if !s.is_zero() { return Some(s.n > 0) }
    }
    None
}
fn details(m: &M, c: &mut Ctx) {
    let d = m.len();
    let say = |s: String| format!("{:?}: {}", m, s);
    let g = match attempt(|| verif::operator_details(big(m))) { Ok(g) => g, Err(p) => return c.fail(say(format!("panicked: {}", p))) };
    c.check(from(&g.matrix).as_ref() == Some(m) && g.dimension == d, &|| say("matrix and dimension are not kept".into()));
    let o = order(m, 6);
    c.check(g.order == o, &|| say(format!("order {}, expected {}", g.order, o)));
    let dt = mat::det(m);
    if !dt.is_zero() { c.check(g.is_orientation_preserving == (dt.n > 0), &|| say(format!("orientation preserving: {}, determinant {:?}", g.is_orientation_preserving, dt))); }
    // the fixed direction
    let neg = d % 2 == 1 && dt.n < 0;
    let r: M = (0..d).map(|i| (0..d).map(|j| { let e = if i == j { Q::ONE } else { Q::ZERO }; if neg { m[i][j] + e } else { m[i][j] - e } }).collect()).collect();
    let unique = mat::rank(&r, d) == d - 1;
    let axis: Option<Option<Vec<Q>>> = match &g.axis { None => Some(None), Some(v) => v.iter().map(|x| x.q()).collect::<Option<Vec<Q>>>().map(Some) };
    match &axis {
        Some(None) => { c.check(!unique, &|| say("no axis, but a unique direction is fixed".into())); }
        Some(Some(a)) => { c.check(unique && a.len() == d && a.iter().any(|x| !x.is_zero()) && mat::mulv(&r, a).iter().all(|x| x.is_zero()), &|| say(format!("axis {:?}", a)));
            c.check(a.iter().find(|x| !x.is_zero()).map_or(false, |x| x.n > 0), &|| say(format!("direction of the axis {:?}", a))); }
        None => return c.fail(say(format!("axis {:?}", g.axis))),
    }
    let axis = axis.unwrap();
    // finite order above two: the sense of rotation
    if o > 2 && (d == 2 || axis.is_some()) {
        let right = sense(m, &axis).unwrap();
        // in the plane turning from x to y is counterclockwise; in space the view is along the axis
        c.check(g.is_clockwise == (right == (d == 3)), &|| say(format!("clockwise: {}, about {:?}", g.is_clockwise, axis)));
        c.nontrivial(m);
        let inv = mat::inverse(m).unwrap();
        match attempt(|| verif::operator_details(big(&inv))) { Ok(h) => { c.check(h.is_clockwise != g.is_clockwise && h.order == g.order && h.axis == g.axis, &|| say("its inverse has other details than expected".into())); } Err(p) => c.fail(say(format!("inverse: panicked: {}", p))) }
        c.sample(|| say(format!("order {}, axis {:?}, clockwise {}", g.order, axis, g.is_clockwise)));
    }
    c.outcome(&format!("dimension {}, order {}, {}, {}", d, o, if dt.n > 0 { "proper" } else if dt.n < 0 { "improper" } else { "singular" }, if axis.is_some() { "axis" } else { "no axis" }));
}
fn mats(d: usize, r: i64) -> Space { let v = en::box_vectors(d * d, -r, r).len() as u64; let b = (2 * r + 1) as u64; Space::new(&format!("matrices with entries up to {}, dimension {}", r, d), v, move |i, c| { let w = en::word(i, b, d * d); let m: M = w.chunks(d).map(|x| x.iter().map(|&y| Q::int(y as i128 - r as i128)).collect()).collect(); details(&m, c) }) }
fn c38(t: Tier) -> Vec<Space> {
    let mut v = vec![mats(1, 20), mats(2, t.pick(6, 9)), mats(3, 1)];
    if t == Tier::Thorough { v.push(mats(3, 2)) }
    // the operators of finite order in other bases
    let fin = finite(3, 1);
    let one: Vec<M> = en::box_vectors(9, -1, 1).into_iter().map(|v| v.chunks(3).map(|x| x.iter().map(|&y| Q::int(y as i128)).collect()).collect::<M>()).filter(|m| mat::det(m).abs() == Q::ONE).collect();
    let (f, b): (Vec<M>, Vec<M>) = (fin.iter().step_by(t.pick(4, 1)).cloned().collect(), one.iter().step_by(t.pick(60, 4)).cloned().collect());
    let n = f.len() as u64;
    v.push(Space::new(&format!("{} operators of finite order in {} bases, space", n, b.len()), n * b.len() as u64, move |i, c| { let p = &b[(i / n) as usize]; let m = mat::mul(&mat::mul(&mat::inverse(p).unwrap(), &f[(i % n) as usize]), p); details(&m, c) }));
    let (f, r) = (finite(2, 2), t.pick(4, 8));
    let n = f.len() as u64;
    let b: Vec<M> = en::box_vectors(4, -r, r).into_iter().map(|v| v.chunks(2).map(|x| x.iter().map(|&y| Q::int(y as i128)).collect()).collect::<M>()).filter(|m| !mat::det(m).is_zero()).collect();
    v.push(Space::new("operators of finite order in rational bases, plane", n * b.len() as u64, move |i, c| { let p = &b[(i / n) as usize]; let m = mat::mul(&mat::mul(&mat::inverse(p).unwrap(), &f[(i % n) as usize]), p); details(&m, c) }));
    v
}

// ---- C37
fn group(gens: &[M]) -> Option<Vec<M>> {
    let mut v = vec![mat::ident(2)];
    let mut i = 0;
    while i < v.len() { for g in gens { let x = mat::mul(&v[i], g); if !v.contains(&x) { v.push(x); if v.len() > 12 { return None } } } i += 1 }
    Some(v)
}
fn classify(g: &[M], c: &mut Ctx) {
    let say = |s: String| format!("{:?}: {}", g, s);
    let ops: Vec<_> = g.iter().map(big).collect();
    let (cs, b) = match attempt(|| verif::crystal_system_and_basis_2d(&ops)) { Ok(x) => x, Err(p) => return c.fail(say(format!("panicked: {}", p))) };
    let n = g.iter().filter(|m| mat::det(m).n > 0).map(|m| order(m, 6)).max().unwrap();
    let mirrors: Vec<&M> = g.iter().filter(|m| mat::det(m).n < 0).collect();
    let want = match n { 3 | 6 => CrystalSystem::Hexagonal, 4 => CrystalSystem::Square, _ => if mirrors.is_empty() { CrystalSystem::Oblique } else { CrystalSystem::Rectangular } };
    c.check(cs == want, &|| say(format!("{:?}, expected {:?}", cs, want)));
    let b: Option<Vec<Vec<Q>>> = b.iter().map(colv).collect();
    let (x, y) = match b { Some(b) if b.len() == 2 && b.iter().all(|v| v.len() == 2) => (b[0].clone(), b[1].clone()), b => return c.fail(say(format!("basis {:?}", b))) };
    c.check(det2(&x, &y).n > 0, &|| say(format!("basis {:?}, {:?} is not right-handed", x, y)));
    let fixes = |m: &M| mat::mulv(m, &x) == x;
    c.check(mirrors.is_empty() || mirrors.iter().any(|m| fixes(m)), &|| say(format!("first basis vector {:?} is on no mirror", x)));
    let k = if n == 6 { 3 } else { n };
    if k > 2 { c.check(g.iter().any(|m| mat::det(m).n > 0 && order(m, 6) == k && mat::mulv(m, &x) == y), &|| say(format!("no rotation of order {} takes {:?} to {:?}", k, x, y))); }
    else if !mirrors.is_empty() { c.check(mirrors.iter().any(|m| mat::mulv(m, &y).iter().zip(&y).all(|(&a, &b)| a == -b) && fixes(m)), &|| say(format!("no mirror on {:?} negates {:?}", x, y))); }
    if g.len() > 1 { c.nontrivial(g); c.sample(|| say(format!("{:?} with {:?}, {:?}", cs, x, y))); }
    c.outcome(&format!("{} operators: {:?}", g.len(), want));
}
fn groups(r: i64) -> Vec<Vec<M>> {
    let f = finite(2, r);
    let n = f.len();
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for a in 0..n { for b in a..n { if let Some(g) = group(&[f[a].clone(), f[b].clone()]) { let mut k: Vec<Vec<i128>> = g.iter().map(|m| m.iter().flatten().map(|x| x.n).collect()).collect(); k.sort(); if seen.insert(k) { v.push(g) } } } }
    v
}
fn c37(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let all = groups(t.pick(5, 12));
    let small: Vec<Vec<M>> = all.iter().filter(|g| g.len() <= t.pick(4, 6)).cloned().collect();
    v.push(Space::list(&format!("{} small groups in every order", small.len()), small, |g, c| { for p in en::permutations(g.len()) { c.evals(1); classify(&p.iter().map(|&k| g[k].clone()).collect::<Vec<_>>(), c) } }));
    v.push(Space::list(&format!("{} groups, any two operators first", all.len()), all.clone(), |g, c| {
        let n = g.len();
        for a in 0..n { for b in 0..n { for rev in [false, true] {
            let mut rest: Vec<usize> = (0..n).filter(|&k| k != a && k != b).collect(); if rev { rest.reverse() }
            let mut o = vec![a]; if b != a { o.push(b) } o.extend(rest);
            c.evals(1); classify(&o.iter().map(|&k| g[k].clone()).collect::<Vec<_>>(), c);
        } } }
        // as in the operators of centered groups: repeated
        for times in [2, 3] {
            let x: Vec<M> = (0..times * n).map(|k| g[k % n].clone()).collect(); c.evals(1); classify(&x, c);
            let x: Vec<M> = (0..times * n).map(|k| g[k / times].clone()).collect(); c.evals(1); classify(&x, c);
            let x: Vec<M> = (0..times * n).map(|k| g[n - 1 - k / times].clone()).collect(); c.evals(1); classify(&x, c);
        }
    }));
    v
}

// ---- C44
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sys { Ob, Re, Sq, He }
fn normal(sys: Sys, basis: &M, c: &mut Ctx) {
    let say = |s: String| format!("{:?} lattice {:?}: {}", sys, basis, s);
    let cols: Vec<_> = basis.iter().map(|v| to::<BigRational>(&v.iter().map(|&x| vec![x]).collect::<M>(), 1)).collect();
    let cs = match sys { Sys::Ob => CrystalSystem::Oblique, Sys::Re => CrystalSystem::Rectangular, Sys::Sq => CrystalSystem::Square, Sys::He => CrystalSystem::Hexagonal };
    let (b, cen) = match attempt(|| verif::normalized_basis_2d(cs, &cols)) { Ok(x) => x, Err(p) => return c.fail(say(format!("panicked: {}", p))) };
    let b: M = match b.iter().map(colv).collect::<Option<M>>() { Some(b) if b.len() == 2 && b.iter().all(|v| v.len() == 2) => b, b => return c.fail(say(format!("cell {:?}", b))) };
    let mut l = b.clone();
    if cen == Centering::Centered2d { l.push((0..2).map(|k| (b[0][k] + b[1][k]) * Q::new(1, 2)).collect()) } else { c.check(cen == Centering::Primitive2d, &|| say(format!("centering {:?}", cen))); }
    c.check(mat::rank(&b, 2) == 2 && mat::qhnf(&l, 2) == mat::qhnf(basis, 2), &|| say(format!("cell {:?}, {:?} spans another lattice", b, cen)));
    let ok = match sys {
        Sys::Ob => cen == Centering::Primitive2d,
        Sys::Re => (0..2).all(|k| b[k].iter().filter(|x| !x.is_zero()).count() == 1) && b[0][0].is_zero() && b[1][1].is_zero(),
        Sys::Sq => cen == Centering::Primitive2d && b[1] == vec![-b[0][1], b[0][0]],
        Sys::He => cen == Centering::Primitive2d && b[1] == vec![-b[0][1], b[0][0] - b[0][1]],
    };
    c.check(ok, &|| say(format!("cell {:?}, {:?} has not the shape of its system", b, cen)));
    c.nontrivial(&(sys as u8, basis));
    c.sample(|| say(format!("cell {:?}, {:?}", b, cen)));
    c.outcome(&format!("{:?} {:?}", sys, cen));
}
fn c44(t: Tier) -> Vec<Space> {
    let r = t.pick(2, 4);
    let uni: Arc<Vec<M>> = Arc::new(en::box_vectors(4, -r, r).into_iter().map(|v| v.chunks(2).map(|x| x.iter().map(|&y| Q::int(y as i128)).collect()).collect::<M>()).filter(|m| mat::det(m).abs() == Q::ONE).collect());
    let q = |n, d| Q::new(n, d);
    let mut lats: Vec<(Sys, M)> = vec![];
    let ls = [q(1, 1), q(1, 2), q(1, 3), q(2, 1), q(3, 2), q(2, 3), q(5, 1), q(7, 4)];
    for &a in &ls { for &b in &ls { lats.push((Sys::Re, vec![vec![a, Q::ZERO], vec![Q::ZERO, b]])); lats.push((Sys::Re, vec![vec![a, b], vec![a, -b]])); } }
    for den in t.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 6, 7]) { for x in -6..=6 { for y in -6..=6 { if (x, y) == (0, 0) { continue }
        let (x, y) = (q(x, den), q(y, den));
        lats.push((Sys::Sq, vec![vec![x, y], vec![-y, x]]));
        lats.push((Sys::He, vec![vec![x, y], vec![-y, x - y]]));
        for (z, w) in [(1, 3), (-2, 1), (3, 0)] { let v = vec![q(z, 2), q(w, den + 1)]; if !det2(&v, &[x, y]).is_zero() { lats.push((Sys::Ob, vec![vec![x, y], v])) } }
    } } }
    let (n, l) = (uni.len() as u64, Arc::new(lats));
    vec![Space::new(&format!("{} lattices in {} bases each", l.len(), n), n * l.len() as u64, move |i, c| { let (s, b) = &l[(i / n) as usize]; normal(*s, &mat::mul(&uni[(i % n) as usize], b), c) })]
}
pub const CHECKS: &[Check] = &[
    Check { id: "C37", level: "exploration", spaces: c37, assumptions: &["the matrices form a group, possibly with repetitions"],
        rule: "one execution per group of integer matrices and listing, judged by the definition of the crystal systems and of their bases; non-trivial if the group is" },
    Check { id: "C38", level: "exploration", spaces: c38, assumptions: &["seen along its axis an operator is clockwise if it takes the vectors beside the axis to the right, in the plane if it turns from the second axis to the first"],
        rule: "one case per matrix, judged by direct computation of order, determinant, fixed space and sense of rotation; non-trivial if there is a sense of rotation" },
    Check { id: "C44", level: "exploration", spaces: c44, assumptions: &["rectangular, square and hexagonal lattices are given in coordinates for which their point group is the standard one"],
        rule: "one case per lattice basis; the cell reported is compared with the lattice and the shape of its system; all are non-trivial" },
];
