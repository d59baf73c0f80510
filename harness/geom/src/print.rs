//! C45: printed forms.
use crate::adapt::*;
use crate::affine::{ints, map_of, pt_of, qv, signed_perms, vec_of, In, Out, A};
use fw::en;
use fw::mat::M;
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::{Edge, Graph, LabelVector, LabelVector2d, LabelVector3d};
use std::fmt::Display;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Net {}

/// The numbers of a text, line by line; lines without numbers at the end are dropped.
fn numbers(s: &str) -> Option<M> {
    let mut v: M = vec![];
    for l in s.split('\n') {
        let (b, mut i, mut r) = (l.as_bytes(), 0, vec![]);
        let dig = |k: usize| b.get(k).map_or(false, |x| x.is_ascii_digit());
        while i < b.len() {
            if !(dig(i) || b[i] == b'-' && dig(i + 1)) { i += 1; continue }
            let mut j = i + 1;
            while dig(j) || (matches!(b.get(j), Some(b'/') | Some(b'.')) && dig(j + 1)) { j += 1 }
            let t = &l[i..j];
            let int = |x: &str| x.parse::<i128>().ok();
            r.push(if let Some((n, d)) = t.split_once('/') { let d = int(d)?; if d == 0 { return None } Q::new(int(n)?, d) }
                else if let Some((n, f)) = t.split_once('.') { let d = 10i128.checked_pow(f.len() as u32)?; let w = Q::new(int(f)?, d); if n.starts_with('-') { Q::int(int(n)?) - w } else { Q::int(int(n)?) + w } }
                else { Q::int(int(t)?) });
            i = j;
        }
        v.push(r);
    }
    while v.last().map_or(false, |r| r.is_empty()) { v.pop(); }
    Some(v)
}
fn shows(what: &str, x: &dyn Display, want: &M, c: &mut Ctx) {
    c.evals(1);
    let s = match attempt(|| x.to_string()) { Ok(s) => s, Err(p) => return c.fail(format!("printing a {} with {:?} panicked: {}", what, want, p)) };
    if !c.check(numbers(&s).as_ref() == Some(want), &|| format!("{} with {:?} prints as {:?}", what, want, s)) { return }
    c.nontrivial(&(what, want));
    c.outcome(&format!("{} of {} lines", what, want.len()));
    c.sample(|| format!("{}: {:?}", what, s));
}
fn matrix<T: Num + Display>(rows: &M, nc: usize, c: &mut Ctx) { shows(&format!("{} matrix", T::NAME), &to::<T>(rows, nc), rows, c) }
fn column(v: &[Q]) -> M { v.iter().map(|&x| vec![x]).collect() }
fn vector<T: Num + Display>(v: &[Q], c: &mut Ctx) {
    shows(&format!("{} vector", T::NAME), &vec_of::<T, In>(v), &column(v), c);
    shows(&format!("{} point", T::NAME), &pt_of::<T, In>(v), &column(v), c);
}
fn affine(a: &A, c: &mut Ctx) {
    let want: M = a.l.iter().zip(&a.s).map(|(r, &s)| { let mut r = r.clone(); r.push(s); r }).collect();
    let m = map_of::<BigRational, In>(a);
    shows("rational affine map", &m, &want, c);
    if want.iter().flatten().all(|x| x.is_int()) { shows("i32 affine map", &map_of::<i32, In>(a), &want, c); }
    if a.inv().is_some() { shows("coordinate change", &CoordinateMap::<BigRational, In, Out>::new(&m), &want, c); }
}
fn product(g: &M, c: &mut Ctx) {
    if let Ok(p) = attempt(|| ScalarProduct::<BigRational, In>::from(to::<BigRational>(g, g.len()))) { shows("scalar product", &p, g, c); }
}
/// `x` in every place of a vector, a point, a matrix and a map; the text must read back as the same numbers.
fn floats(x: f64, c: &mut Ctx) {
    let fs = [x, -0.75, 3.0];
    for k in 0..3 {
        let mut w = fs; w.swap(0, k);
        let m = Matrix::new(3, &w);
        let objs: [(&str, String, usize); 4] = [("vector", Vector::<f64, In>::new(&w).to_string(), 1), ("point", Point::<f64, In>::new(&w).to_string(), 1), ("matrix", m.to_string(), 3),
            ("map", AffineMap::<f64, In>::new(&Matrix::new(1, &w[..1]), &Vector::new(&w[1..2])).to_string(), 2)];
        for (what, s, cols) in objs {
            c.evals(1);
            let got: Vec<Vec<f64>> = s.lines().map(|l| l.split(|ch: char| !(ch.is_ascii_digit() || "+-.eE".contains(ch))).filter_map(|t| t.parse().ok()).collect::<Vec<_>>()).filter(|r: &Vec<f64>| !r.is_empty()).collect();
            let want: Vec<Vec<f64>> = w[..if cols == 2 { 2 } else { 3 }].chunks(cols).map(|r| r.to_vec()).collect();
            c.check(got == want, &|| format!("f64 {} with {:?} prints as {:?}", what, want, s));
        }
    }
    c.nontrivial(&x.to_bits());
    c.outcome("f64 with many digits");
}
type E = (u32, u32, Vec<i32>);
fn edges(l: &[E], c: &mut Ctx) { if l[0].2.len() == 2 { edges_in::<LabelVector2d<Net>>(l, c) } else { edges_in::<LabelVector3d<Net>>(l, c) } }
fn edges_in<T: LabelVector<Net> + Display + Clone>(l: &[E], c: &mut Ctx) {
    let row = |h: u32, s: &[i32], t: u32| -> Vec<Q> { std::iter::once(h as i128).chain(s.iter().map(|&x| x as i128)).chain(std::iter::once(t as i128)).map(Q::int).collect() };
    for (h, t, s) in l {
        let v = T::from_vec(s);
        shows("shift", &v, &vec![s.iter().map(|&x| Q::int(x as i128)).collect()], c);
        shows("edge", &Edge::<T, Net>::new(*h, *t, v), &vec![row(*h, s, *t)], c);
    }
    let mut es: Vec<(u32, u32, Vec<i32>)> = l.to_vec();
    es.retain(|(_, _, s)| s.iter().all(|&x| x > i32::MIN));
    if es.is_empty() { return }
    let g = Graph::new(&es.iter().map(|(h, t, s)| Edge::<T, Net>::new(*h, *t, T::from_vec(s))).collect::<Vec<_>>());
    // the edges in either direction and any order
    let text = match attempt(|| g.to_string()) { Ok(s) => s, Err(p) => return c.fail(format!("printing the graph of {:?} panicked: {}", l, p)) };
    c.evals(1);
    let canon = |h: u32, t: u32, s: Vec<i32>| { let n: Vec<i32> = s.iter().map(|x| -x).collect(); (h, t, s).min((t, h, n)) };
    let got: Option<Vec<_>> = numbers(&text).map(|m| m.iter().map(|r| { if r.len() != es[0].2.len() + 2 { return None } let k = r.len() - 1;
        let int = |q: Q| if q.is_int() { Some(q.n) } else { None };
        Some(canon(int(r[0])? as u32, int(r[k])? as u32, r[1..k].iter().map(|&x| int(x).map(|y| y as i32)).collect::<Option<Vec<_>>>()?)) }).collect::<Vec<_>>());
    let mut got: Vec<_> = match got.map(|v| v.into_iter().collect::<Option<Vec<_>>>()) { Some(Some(v)) => v, _ => return c.fail(format!("graph of {:?} prints as {:?}", l, text)) };
    got.sort();
    let mut want: Vec<_> = es.iter().map(|(h, t, s)| canon(*h, *t, s.clone())).collect();
    want.sort();
    want.dedup();
    if !c.check(got == want, &|| format!("graph of {:?} prints as {:?}", l, text)) { return }
    c.nontrivial(&("graph", &want));
    c.outcome(&format!("graph of {} lines", want.len()));
}
fn c45(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let wide = qv(&[(0, 1), (1, 1), (-1, 1), (10, 1), (-37, 1), (2147483647, 1), (-2147483648, 1), (1, 2), (-7, 3), (120, 7), (-1, 1048576)]);
    let words = |al: &[Q], n: usize| -> Vec<Vec<Q>> { (0..(al.len() as u64).pow(n as u32)).map(|i| en::word(i, al.len() as u64, n).into_iter().map(|k| al[k]).collect()).collect() };
    for d in 1..=4usize {
        let l = words(&wide[..[11, 11, 11, t.pick(6, 9)][d - 1]], d);
        v.push(Space::list(&format!("vectors and points, dimension {}", d), l, |w, c| {
            vector::<BigRational>(w, c);
            if w.iter().all(|x| x.is_int()) { vector::<i32>(w, c); vector::<i64>(w, c); }
            if w.iter().all(|x| x.d & (x.d - 1) == 0) { vector::<f64>(w, c); }
        }));
    }
    // all shapes, entries telling their places apart
    v.push(Space::new("shapes", t.pick(25 * 25, 41 * 41) * 4, move |i, c| {
        let n = t.pick(25, 41);
        let (k, r, m) = (i % 4, (i / 4 % n) as usize, (i / 4 / n) as usize + 1);
        let rows: M = (0..r).map(|a| (0..m).map(|b| { let x = (a * 100 + b) as i128 * if (a + b) % 3 == 2 { -1 } else { 1 }; match k { 2 => Q::new(x, 1 + (a % 3) as i128), 3 => Q::new(x, 1 << (b % 4)), _ => Q::int(x) } }).collect()).collect();
        match k { 0 => matrix::<i32>(&rows, m, c), 1 => matrix::<i64>(&rows, m, c), 2 => matrix::<BigRational>(&rows, m, c), _ => matrix::<f64>(&rows, m, c) }
    }));
    // floating point numbers of all sizes, with as many digits as they need
    let mags: Vec<f64> = (-12..=12).map(|k| 2f64.powi(3 * k)).collect();
    let fr: Vec<f64> = (0..t.pick(64, 1024)).map(|k| k as f64 / 1024.0 * 0.987654321).collect();
    v.push(Space::new("floating point entries", (mags.len() * fr.len() * 2) as u64, move |i, c| {
        let i = i as usize;
        let x = mags[i / 2 % mags.len()] * (1.0 + fr[i / 2 / mags.len()]) * if i % 2 == 0 { 1.0 } else { -1.0 };
        floats(x, c)
    }));
    for (r, m, k) in [(1, 2, 9), (2, 2, t.pick(7, 9)), (2, 3, t.pick(5, 7)), (3, 2, t.pick(4, 7))] {
        let l = words(&wide[..k], r * m);
        v.push(Space::list(&format!("matrices, {} by {}", r, m), l, move |w, c| { let rows: M = w.chunks(m).map(|x| x.to_vec()).collect(); matrix::<BigRational>(&rows, m, c); if w.iter().all(|x| x.is_int()) { matrix::<i32>(&rows, m, c); } }));
    }
    let al = qv(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-5, 3)]);
    let maps = |ls: Vec<M>, d: usize, al: &[Q]| -> Vec<A> { let ss = words(al, d); ls.iter().flat_map(|l| ss.iter().map(move |s| A { l: l.clone(), s: s.clone() })).collect() };
    v.push(Space::list("affine maps, line", maps(wide.iter().map(|&x| vec![vec![x]]).collect(), 1, &wide), affine));
    v.push(Space::list("affine maps, plane", maps(words(&al, 4).into_iter().map(|w| w.chunks(2).map(|x| x.to_vec()).collect()).collect(), 2, &al[..t.pick(3, 5)]), affine));
    v.push(Space::list("affine maps, space", maps(signed_perms(3), 3, &al), affine));
    v.push(Space::list("affine maps with distinct entries", (1..=5usize).flat_map(|d| (0..5i128).map(move |k| A { l: (0..d).map(|i| (0..d).map(|j| Q::new((i * 10 + j) as i128 + 11 + k, 1 + k)).collect()).collect(), s: (0..d).map(|i| Q::new(-(i as i128) - 1, 7 + k)).collect() })).collect(), affine));
    let sp: Vec<M> = (1..=3usize).flat_map(|d| { let n = d * (d + 1) / 2; let al = ints(-2, 4); (0..7u64.pow(n as u32)).step_by(t.pick(if d == 3 { 13 } else { 1 }, 1)).map(move |i| { let w = en::word(i, 7, n); let mut m: M = vec![vec![Q::ZERO; d]; d]; let mut k = 0; for a in 0..d { for b in a..d { m[a][b] = al[w[k]]; m[b][a] = al[w[k]]; k += 1; } } m }) }).collect();
    v.push(Space::list("scalar products", sp, product));
    let ext = [0i32, 1, -1, 12, -345, i32::MAX, i32::MIN + 1, i32::MIN];
    for d in 2..=3usize {
        let ids = [1u32, 2, 10, 0, u32::MAX];
        let n = 8u64.pow(d as u32);
        v.push(Space::new(&format!("shifts and edges, dimension {}", d), n * 25, move |i, c| edges(&[(ids[(i / n % 5) as usize], ids[(i / n / 5) as usize], en::word(i % n, 8, d).into_iter().map(|k| ext[k]).collect())], c)));
        let small: Vec<E> = [(1u32, 1u32), (1, 2), (2, 1), (2, 30)].iter().flat_map(|&(h, t)| (0..3u64.pow(d as u32)).map(move |i| (h, t, en::word(i, 3, d).into_iter().map(|k| k as i32 - 1).collect()))).collect();
        let m = small.len() as u64;
        let k = if d == 2 { t.pick(2, 3) } else { 2 };
        v.push(Space::new(&format!("graphs of {} edges, dimension {}", k, d), m.pow(k as u32), move |i, c| edges(&en::word(i, m, k).into_iter().map(|j| small[j].clone()).collect::<Vec<_>>(), c)));
    }
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C45", level: "exploration", spaces: c45, assumptions: &["floating point entries are finite"],
        rule: "one case per object; the numbers in its printed form, line by line, are compared with its entries; every object is non-trivial" },
];
