//! C36: primitive settings.
use crate::adapt::*;
use crate::affine::{map_of, of_map, of_vec, signed_perms, In, Out, A};
use crate::table::{self, Text};
use fw::en;
use fw::mat::{self, M};
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::AffineMap;
use rust_systre::spacegroups::basics::PrimitiveSetting;
use std::collections::HashSet;
use std::sync::Arc;

fn unit(d: usize, k: usize) -> Vec<Q> { (0..d).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect() }
/// All products modulo lattice translations; None if there are more than `max`.
pub fn close(gens: &[A], d: usize, max: usize) -> Option<Vec<A>> {
    let mut v = vec![A::id(d)];
    let mut seen: HashSet<A> = v.iter().cloned().collect();
    let mut i = 0;
    while i < v.len() { for g in gens { let x = v[i].mul(g).frac(); if seen.insert(x.clone()) { v.push(x); if v.len() > max { return None } } } i += 1 }
    Some(v)
}
fn conj(t: &A, ti: &A, a: &A) -> A { t.mul(a).mul(ti).frac() }

/// The group `g`, listed as it is.
fn judge(g: &[A], c: &mut Ctx) {
    let d = g[0].dim();
    let say = |s: String| format!("group {:?}: {}", if g.len() > 16 { &g[..16] } else { g }, s);
    let ops: Vec<AffineMap<BigRational, In>> = g.iter().map(map_of).collect();
    let p: PrimitiveSetting<In, Out> = match attempt(|| PrimitiveSetting::verif_new(&ops)) { Ok(p) => p, Err(m) => return c.fail(say(format!("panicked: {}", m))) };
    let cell: Option<M> = p.verif_cell().iter().map(of_vec::<BigRational, In>).collect();
    let cell = match cell { Some(x) if x.len() == d && x.iter().all(|r| r.len() == d) => x, x => return c.fail(say(format!("cell {:?}", x))) };
    let mut lat: M = (0..d).map(|k| unit(d, k)).collect();
    let mut centered = 0;
    for a in g { if a.l == mat::ident(d) { lat.push(a.s.clone()); if a.s.iter().any(|x| !x.is_int()) { centered += 1 } } }
    c.check(mat::qhnf(&cell, d) == mat::qhnf(&lat, d), &|| say(format!("cell {:?} does not span the translation lattice {:?}", cell, mat::qhnf(&lat, d))));
    c.check(mat::det(&cell).n > 0, &|| say(format!("cell {:?} is left-handed", cell)));
    let (t, ti) = match (of_map(&p.verif_to_primitive().forward()), of_map(&p.verif_to_primitive().inverse().forward())) { (Some(a), Some(b)) => (a, b), _ => return c.fail(say("malformed coordinate change".into())) };
    c.check(t.mul(&ti) == A::id(d), &|| say(format!("coordinate change {:?} and inverse {:?}", t, ti)));
    c.check(t.s.iter().all(|x| x.is_zero()) && (0..d).all(|k| t.vec(&cell[k]) == unit(d, k)), &|| say(format!("coordinate change {:?} for cell {:?}", t, cell)));
    let ti = match t.inv() { Some(x) => x, None => return c.fail(say("singular coordinate change".into())) };
    let got: Option<Vec<A>> = p.verif_ops().iter().map(of_map).collect();
    let got = match got { Some(x) => x, None => return c.fail(say("malformed operators".into())) };
    let red: HashSet<A> = got.iter().map(|a| a.frac()).collect();
    c.check(red.len() == got.len(), &|| say(format!("operators listed twice: {:?}", got)));
    let want: HashSet<A> = g.iter().map(|a| conj(&t, &ti, a)).collect();
    c.check(red == want, &|| say(format!("{} operators, expected {}; missing {:?}, extra {:?}", red.len(), want.len(), want.difference(&red).next(), red.difference(&want).next())));
    if centered > 0 { c.nontrivial(g); c.sample(|| format!("{} operators with {} centerings: cell {:?}, {} operators left", g.len(), centered, cell, got.len())); }
    c.outcome(&format!("{} operators, {} in primitive setting", g.len(), got.len()));
}
/// The group in several listings.
fn listings(g: &[A], c: &mut Ctx) {
    judge(g, c);
    let mut h: Vec<A> = g.to_vec(); h.reverse();
    c.evals(1); judge(&h, c);
    let n = h.len();
    h.rotate_left(n / 2);
    // representatives beyond the unit cell, and all twice
    for (k, a) in h.iter_mut().enumerate() { for (j, s) in a.s.iter_mut().enumerate() { *s = *s + Q::int([0, -1, 2, 1][(k + 2 * j) % 4]) } }
    c.evals(1); judge(&h, c);
    h.extend(g.iter().cloned());
    c.evals(1); judge(&h, c);
}
fn grid(d: usize, vals: &[(i128, i128)]) -> Vec<Vec<Q>> { let b = vals.len() as u64; (0..b.pow(d as u32)).map(|i| en::word(i, b, d).into_iter().map(|k| Q::new(vals[k].0, vals[k].1)).collect()).collect() }
pub fn finite(d: usize, r: i64) -> Vec<M> {
    en::box_vectors(d * d, -r, r).into_iter().map(|v| v.chunks(d).map(|x| x.iter().map(|&y| Q::int(y as i128)).collect()).collect::<M>())
        .filter(|m| { let mut p = m.clone(); for _ in 0..6 { if p == mat::ident(d) { return true } p = mat::mul(&p, m) } false }).collect()
}
fn tr(s: &[Q]) -> A { A { l: mat::ident(s.len()), s: s.to_vec() } }

fn c36(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // lattices alone: sets of centering vectors
    for (d, vals, k) in [(1, vec![(0, 1), (1, 2), (1, 3), (2, 5), (1, 6), (-3, 4)], 3), (2, vec![(0, 1), (1, 2), (1, 3), (2, 3), (1, 4), (-1, 6)], 2), (3, vec![(0, 1), (1, 2), (1, 3), (2, 3), (3, 4)], 2)] {
        let g = Arc::new(grid(d, &vals));
        let n = g.len() as u64;
        v.push(Space::new(&format!("{} centering vectors of {}, dimension {}", k, n, d), n.pow(k as u32), move |i, c| {
            let gens: Vec<A> = en::word(i, n, k).into_iter().map(|j| tr(&g[j])).collect();
            if let Some(x) = close(&gens, d, 300) { judge(&x, c); let mut y = gens.clone(); y.push(A::id(d)); c.evals(1); judge(&y, c) }
        }));
    }
    // translations of other orders, alone, with an inversion, with a second one
    let dens: Vec<i128> = t.pick(vec![7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 48, 64, 97, 100, 128, 257], (7..=130).chain([256, 257, 360, 500, 512, 997, 1009]).collect());
    let nd = dens.len() as u64;
    v.push(Space::new("translations of higher orders", nd * 3 * 4 * 3, move |i, c| {
        let w = en::digits(i, &[nd, 3, 4, 3]);
        let (q, d) = (dens[w[0] as usize], w[1] as usize + 1);
        if w[2] > 1 && d == 1 || w[2] == 3 && q > 130 { return }
        let s: Vec<Q> = (0..d).map(|k| match w[3] { 0 => Q::new((k == 0) as i128, q), 1 => Q::new(1 + k as i128 * 2, q), _ => Q::new([1, q - 1, 2][k], q) }).collect();
        let mut gens = vec![tr(&s)];
        match w[2] { 1 => gens.push(A { l: mat::ident(d).iter().map(|r| r.iter().map(|&x| -x).collect()).collect(), s: s.clone() }),
            2 => gens.push(tr(&(0..d).map(|k| Q::new(((k + 1) % d == 0) as i128, 2)).collect::<Vec<Q>>())), 3 => gens.push(tr(&(0..d).map(|k| Q::new((k + 1 == d) as i128, 5)).collect::<Vec<Q>>())), _ => {} }
        if let Some(x) = close(&gens, d, 2100) { judge(&x, c) } else { c.outcome("group too large") }
    }));
    // plane: two operators with shifts and a centering vector
    let ops: Vec<M> = finite(2, 1);
    let (sh, ce) = (grid(2, &[(0, 1), (1, 2)]), grid(2, t.pick(&[(0, 1), (1, 2), (1, 3), (2, 3)], &[(0, 1), (1, 2), (1, 3), (2, 3), (1, 4)])));
    let gens: Arc<Vec<A>> = Arc::new(ops.iter().flat_map(|l| sh.iter().map(move |s| A { l: l.clone(), s: s.clone() })).collect());
    let (n, m) = (gens.len() as u64, ce.len() as u64);
    let g = gens.clone();
    let thin = t == Tier::Quick;
    v.push(Space::new(&format!("plane: {} of {} operators, one of {} centering vectors", if thin { "half the pairs" } else { "two" }, n, m), n * n * m, move |i, c| {
        let (a, b) = (i % n, i / n % n);
        if b < a || (thin && (a + b + i / n / n) % 2 == 1 && a != b) { return }
        if let Some(x) = close(&[g[a as usize].clone(), g[b as usize].clone(), tr(&ce[(i / n / n) as usize])], 2, 120) { if a == b { listings(&x, c) } else { judge(&x, c) } }
    }));
    // space
    let mut ops: Vec<M> = signed_perms(3);
    ops.extend([[1, -1, 0, 1, 0, 0, 0, 0, 1], [0, -1, 0, 1, -1, 0, 0, 0, -1], [0, 1, 0, 1, 0, 0, 0, 0, -1], [-1, 1, 0, 0, 1, 0, 0, 0, 1]].iter().map(|e: &[i128; 9]| e.chunks(3).map(|r| r.iter().map(|&x| Q::int(x)).collect()).collect::<M>()));
    let sh: Vec<Vec<Q>> = t.pick(vec![[0, 0, 0], [0, 0, 1], [1, 1, 0]], vec![[0, 0, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1]]).into_iter().map(|s| s.iter().map(|&x| Q::new(x, 2)).collect()).collect();
    let ce: Vec<Vec<Vec<Q>>> = [vec![], vec![[3, 3, 3]], vec![[3, 3, 0]], vec![[0, 3, 3]], vec![[3, 0, 3], [0, 3, 3]], vec![[4, 2, 2]], vec![[2, 4, 2]], vec![[2, 4, 0]], vec![[0, 0, 3]], vec![[0, 0, 2]]].into_iter().map(|l: Vec<[i128; 3]>| l.into_iter().map(|s| s.iter().map(|&x| Q::new(x, 6)).collect()).collect()).collect();
    let gens: Vec<A> = ops.iter().flat_map(|l| sh.iter().map(move |s| A { l: l.clone(), s: s.clone() })).collect();
    let (n, m) = (gens.len() as u64, ce.len() as u64);
    let step = t.pick(24, 1);
    v.push(Space::new(&format!("space: each of {} operators with every {}th, one of {} centerings", n, step, m), n * (n / step) * m, move |i, c| {
        let (a, b, k) = (i % n, (i / n % (n / step)) * step, (i / n / (n / step)) as usize);
        let mut g: Vec<A> = vec![gens[a as usize].clone(), gens[b as usize].clone()];
        g.extend(ce[k].iter().map(|s| tr(s)));
        if let Some(x) = close(&g, 3, 200) { if b == 0 { listings(&x, c) } else { judge(&x, c) } } else { c.outcome("group too large") }
    }));
    // four and five dimensions: an operator that exchanges or reverses axes, and one or two centering vectors
    for d in [4usize, 5] {
        let mut ce: Vec<Vec<Q>> = grid(d, &[(0, 1), (1, 2)]);
        ce.extend((0..d).flat_map(|k| [(0..d).map(|i| Q::new(((i + k) % 3) as i128, 3)).collect::<Vec<Q>>(), (0..d).map(|i| Q::new((i == k) as i128, 5)).collect(), (0..d).map(|i| Q::new((i >= k) as i128, 4)).collect()]));
        let one = |f: &dyn Fn(usize) -> (usize, i128)| -> M { (0..d).map(|i| (0..d).map(|j| Q::int(if f(i).0 == j { f(i).1 } else { 0 })).collect()).collect() };
        let ls: Vec<M> = vec![mat::ident(d), one(&|i| (i, -1)), one(&|i| (i, if i == 1 { -1 } else { 1 })), one(&|i| ([1, 0].get(i).copied().unwrap_or(i), 1)), one(&|i| ((i + 1) % d, 1))];
        let (n, m) = (ce.len() as u64, ls.len() as u64);
        let step = t.pick(if d == 4 { 3 } else { 17 }, if d == 4 { 1 } else { 3 });
        v.push(Space::new(&format!("dimension {}: one of {} operators, two of {} centering vectors", d, m, n), n * n * m / step, move |i, c| {
            let w = en::digits(i * step, &[n, n, m]);
            if w[1] < w[0] { return }
            let mut l = A { l: ls[w[2] as usize].clone(), s: vec![Q::ZERO; d] };
            if i % 2 == 1 { l.s[0] = Q::new(1, 2); }
            if let Some(x) = close(&[l, tr(&ce[w[0] as usize]), tr(&ce[w[1] as usize])], d, 300) { judge(&x, c) } else { c.outcome("group too large") }
        }));
    }
    // the shipped settings
    let ship = std::fs::read(format!("{}/src/data/sgtable.data", std::env::var("VERIF_REPO").unwrap_or("/repo".into()))).expect("shipped table");
    if let Text::Tables(t) = table::read(&ship) { v.push(Space::list("shipped settings", t.settings.values().cloned().collect(), |s, c| listings(&s.ops, c))); }
    v
}
pub const CHECKS: &[Check] = &[Check { id: "C36", level: "exploration", spaces: c36, assumptions: &["the operators form a group modulo lattice translations"],
    rule: "one case per group (some in several listings); the primitive setting is compared with the lattice and the operators computed separately; non-trivial if there are centering translations" }];
