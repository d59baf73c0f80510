//! C31, C32: invariant metrics and fixed directions.
use crate::affine::{ints, odd3, qv, signed_perms, In, A};
use crate::adapt::*;
use fw::en;
use fw::mat::{self, M};
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::AffineMap;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::{gram_matrix_configuration_space, shift_space};
use std::sync::Arc;

fn upper(d: usize) -> Vec<(usize, usize)> { (0..d).flat_map(|i| (i..d).map(move |j| (i, j))).collect() }
fn sym(u: &[Q], d: usize) -> M { let mut g = vec![vec![Q::ZERO; d]; d]; for (k, &(i, j)) in upper(d).iter().enumerate() { g[i][j] = u[k]; g[j][i] = u[k]; } g }
fn change(s: &M, g: &M) -> Vec<Q> { let d = g.len(); let h = mat::mul(&mat::mul(&mat::transpose(s, d), g), s); upper(d).iter().map(|&(i, j)| h[i][j] - g[i][j]).collect() }
fn unit(n: usize, k: usize) -> Vec<Q> { (0..n).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect() }

/// `defect(x)` is zero exactly if x (of length n) is in the space wanted.
fn basis_ok(what: &str, ops: &[M], got: Result<Option<Matrix<BigRational>>, String>, n: usize, defect: &dyn Fn(&[Q]) -> Vec<Q>, c: &mut Ctx) {
    let say = |s: String| format!("{} of {:?}: {}", what, ops, s);
    let rows: M = (0..n).map(|k| defect(&unit(n, k))).collect();
    let m = rows[0].len();
    let dim = n - mat::rank(&rows, m);
    let g = match got { Err(p) => return c.fail(say(format!("panicked: {}", p))), Ok(None) => { c.check(dim == 0, &|| say(format!("reported absent, its dimension is {}", dim))); c.outcome("absent"); return; } Ok(Some(g)) => g };
    let (r, k) = g.shape();
    let e = match from(&g) { Some(e) => e, None => return c.fail(say(format!("{:?} is malformed", g))) };
    if !c.check(dim > 0 && r == n && k == dim, &|| say(format!("{} x {} matrix {:?} for dimension {} of {}", r, k, e, dim, n))) { return; }
    let cols = mat::transpose(&e, k);
    for v in &cols { let x = defect(v); if !c.check(x.iter().all(|x| x.is_zero()), &|| say(format!("{:?} is not invariant", v))) { return; } }
    c.check(mat::rank(&cols, n) == dim, &|| say(format!("columns of {:?} are dependent", e)));
    c.outcome(&format!("dimension {} of {}", dim, n));
    if dim < n { c.nontrivial(&(what, ops)); c.sample(|| say(format!("{:?}", e))); }
}
fn maps_of(ops: &[M]) -> Vec<AffineMap<BigRational, In>> {
    // the shift must not matter
    ops.iter().enumerate().map(|(k, m)| crate::affine::map_of(&A { l: m.clone(), s: (0..m.len()).map(|i| Q::new((k + i) as i128 % 3, 2)).collect() })).collect()
}
fn gram(ops: &[M], c: &mut Ctx) {
    let d = ops[0].len();
    let n = d * (d + 1) / 2;
    let a = maps_of(ops);
    basis_ok("Gram configuration space", ops, attempt(|| gram_matrix_configuration_space(&a)), n, &|u| ops.iter().flat_map(|s| change(s, &sym(u, d))).collect(), c)
}
fn shift(ops: &[M], c: &mut Ctx) {
    let d = ops[0].len();
    let a = maps_of(ops);
    basis_ok("shift space", ops, attempt(|| shift_space(&a)), d, &|u| ops.iter().flat_map(|s| mat::mulv(s, u).into_iter().zip(u).map(|(x, &y)| x - y).collect::<Vec<_>>()).collect(), c)
}

fn mats(al: &[Q], d: usize) -> Vec<M> { let b = al.len() as u64; (0..b.pow((d * d) as u32)).map(|i| en::word(i, b, d * d).chunks(d).map(|r| r.iter().map(|&k| al[k]).collect()).collect()).collect() }
pub fn finite3() -> Vec<M> {
    mats(&ints(-1, 1), 3).into_iter().filter(|m| { let mut p = m.clone(); for _ in 0..6 { if p == mat::ident(3) { return true; } p = mat::mul(&p, m); } false }).collect()
}

fn spaces(t: Tier, f: fn(&[M], &mut Ctx)) -> Vec<Space> {
    let mut v = vec![];
    let one = |name: &str, l: Vec<M>| Space::list(name, l, move |m, c| f(&[m.clone()], c));
    let tup = |name: &str, l: Vec<M>, k: usize| { let n = l.len() as u64; let l = Arc::new(l); Space::new(name, n.pow(k as u32), move |i, c| f(&en::word(i, n, k).into_iter().map(|j| l[j].clone()).collect::<Vec<M>>(), c)) };
    let m1 = mats(&qv(&[(1, 1), (-1, 1), (0, 1), (2, 1), (1, 2), (-3, 2)]), 1);
    for k in 1..=3 { v.push(tup(&format!("{} operators, line", k), m1.clone(), k)); }
    v.push(one("single operators, plane", mats(&ints(-t.pick(3, 4), t.pick(3, 4)), 2)));
    v.push(one("single rational operators, plane", mats(&qv(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (3, 5), (-4, 5), (4, 5)]), 2)));
    let m2 = mats(&ints(-1, 1), 2);
    v.push(tup("pairs of operators, plane", m2.clone(), 2));
    let s2: Vec<M> = if t == Tier::Quick { m2.iter().filter(|m| mat::det(m).abs() == Q::ONE).cloned().collect() } else { m2 };
    v.push(tup("triples of operators, plane", s2, 3));
    v.push(one("single operators, space", mats(&ints(-1, 1), 3)));
    let mut h = signed_perms(3); h.extend(odd3());
    v.push(tup("pairs of operators, space", h.clone(), 2));
    // rotations seen from skew bases
    let fin = finite3();
    let n = fin.len();
    let pick: Vec<M> = fin.iter().step_by(t.pick(7, 1)).cloned().collect();
    let (m, p) = (pick.len() as u64, pick);
    let step = t.pick(5usize, 1);
    let q: Vec<M> = fin.iter().step_by(step).cloned().collect();
    let k = q.len() as u64;
    v.push(Space::new(&format!("pairs of operators of finite order, space ({} of {} with {} of them)", m, n, k), m * k, move |i, c| f(&[p[(i / k) as usize].clone(), q[(i % k) as usize].clone()], c)));
    // groups of the same kind in every unimodular basis
    let gens: Vec<Vec<M>> = vec![vec![h[0].clone()], vec![odd3()[0].clone()], vec![odd3()[1].clone(), odd3()[2].clone()], vec![h[h.len() - 11].clone(), h[1].clone()], vec![h[10].clone(), h[20].clone(), h[7].clone()]];
    let g: Vec<M> = mats(&ints(-1, 1), 3).into_iter().filter(|m| mat::det(m).abs() == Q::ONE).collect();
    let g: Vec<M> = g.into_iter().step_by(t.pick(3, 1)).collect();
    let n = g.len() as u64;
    v.push(Space::new("groups in other lattice bases, space", n * gens.len() as u64, move |i, c| {
        let b = &g[(i % n) as usize];
        let bi = mat::inverse(b).unwrap();
        let l: Vec<M> = gens[(i / n) as usize].iter().map(|s| mat::mul(&mat::mul(&bi, s), b)).collect();
        f(&l, c)
    }));
    v.extend(long_lists(t, f));
    if t == Tier::Thorough { v.push(tup("triples of operators, space", h.into_iter().step_by(2).collect(), 3)); }
    v
}
/// Lists of many operators, with repetitions, and operators in higher dimensions.
fn long_lists(t: Tier, f: fn(&[M], &mut Ctx)) -> Vec<Space> {
    let mut v = vec![];
    let grp = |gens: &[M]| -> Vec<M> { let d = gens[0].len(); let mut g = vec![mat::ident(d)]; let mut i = 0; while i < g.len() { for s in gens { let x = mat::mul(&g[i], s); if !g.contains(&x) { g.push(x) } } i += 1 } g };
    let h = signed_perms(3);
    let o = odd3();
    let mut groups: Vec<Vec<M>> = vec![];
    for k in 0..48 { for j in (0..48).step_by(t.pick(7, 1)) { let g = grp(&[h[k].clone(), h[j].clone()]); if g.len() > 3 && !groups.contains(&g) { groups.push(g) } } }
    for k in [vec![o[0].clone()], vec![o[1].clone()], vec![o[2].clone(), o[3].clone()], vec![o[0].clone(), h[47].clone()]] { if k.iter().all(|m| (1..=6).any(|e| { let mut p = mat::ident(3); for _ in 0..e { p = mat::mul(&p, m) } p == mat::ident(3) })) { groups.push(k) } }
    let groups: Vec<Vec<M>> = groups.into_iter().step_by(t.pick(4, 1)).collect();
    let mut lists: Vec<Vec<M>> = vec![];
    for g in &groups {
        let n = g.len();
        lists.push(g.clone());
        lists.push(g.iter().rev().cloned().collect());
        lists.push(g.iter().chain(g).cloned().collect());
        // the same operator many times before another
        for m in [3usize, 8, 20] { for k in 0..n.min(6) { let mut l = vec![g[k].clone(); m]; l.push(g[n - 1 - k].clone()); lists.push(l) } }
        lists.push((0..n.max(16)).map(|k| g[(k * 5) % n].clone()).collect());
    }
    v.push(Space::list("lists of many operators, space", lists, move |l, c| f(l, c)));
    let l2: Vec<Vec<M>> = (1..=t.pick(40usize, 90)).flat_map(|n| { let g2 = signed_perms(2); (0..8usize).map(move |k| (0..n).map(|j| if j + 1 == n { g2[k].clone() } else { g2[[0, 7, k][j % 3]].clone() }).collect::<Vec<M>>()) }).collect();
    v.push(Space::list("lists of many operators, plane", l2, move |l, c| f(l, c)));
    for d in 4..=t.pick(5usize, 6) {
        let h = Arc::new(signed_perms(d)); let n = h.len() as u64;
        let m = n.min(t.pick(120, 900));
        let hh = h.clone();
        v.push(Space::new(&format!("single operators, dimension {}", d), m, move |i, c| f(&[hh[(i * 37 % n) as usize].clone()], c)));
        let k = t.pick(12u64, 40);
        v.push(Space::new(&format!("lists of operators, dimension {}", d), k * k, move |i, c| { let a = h[(i / k * (n / k)) as usize].clone(); let b = h[(i % k * (n / k) + 1) as usize].clone(); f(&(0..2 + (i % 5)).map(|j| if j % 2 == 0 { a.clone() } else { b.clone() }).collect::<Vec<M>>(), c) }));
        // unipotent and scaling operators
        v.push(Space::new(&format!("elementary operators, dimension {}", d), (d * d * 5) as u64, move |i, c| { let w = en::digits(i, &[d as u64, d as u64, 5]); let mut a = mat::ident(d); a[w[0] as usize][w[1] as usize] = Q::new([2, -1, 1, 3, 0][w[2] as usize], [1, 1, 2, 1, 1][w[2] as usize]); f(&[a], c) }));
    }
    v
}
fn c31(t: Tier) -> Vec<Space> { spaces(t, gram) }
fn c32(t: Tier) -> Vec<Space> { spaces(t, shift) }

pub const CHECKS: &[Check] = &[
    Check { id: "C31", level: "exploration", spaces: c31, assumptions: &["the set of operators is not empty"],
        rule: "one case per list of linear parts; the reported matrix is compared with the solution space of the invariance equations, computed directly; non-trivial if not every metric is invariant" },
    Check { id: "C32", level: "exploration", spaces: c32, assumptions: &["the set of operators is not empty"],
        rule: "one case per list of linear parts; the reported matrix is compared with the fixed space, computed directly; non-trivial if not everything is fixed" },
];
