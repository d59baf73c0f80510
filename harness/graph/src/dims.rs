//! Nets of four and five dimensions, with labels of the user's own, against a small reference of their own.
use crate::adapt::*;
use fw::mat;
use fw::q::Q;
use fw::{attempt, Ctx, Space, Tier};
use rust_systre::pgraphs::*;
use rust_systre::symmetries as sy;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type E_ = (usize, usize, Vec<i64>);
/// Vertices 0..n, distinct canonical edges.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Big { d: usize, n: usize, edges: Vec<E_> }
impl std::fmt::Debug for Big { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}d {:?}", self.d, self.edges) } }

fn neg(s: &[i64]) -> Vec<i64> { s.iter().map(|x| -x).collect() }
fn plus(a: &[i64], b: &[i64]) -> Vec<i64> { a.iter().zip(b).map(|(x, y)| x + y).collect() }
fn unit(d: usize, k: usize) -> Vec<i64> { (0..d).map(|i| (i == k) as i64).collect() }
fn canon(e: &E_) -> E_ { let r = (e.1, e.0, neg(&e.2)); if e.1 < e.0 || (e.0 == e.1 && e.2 < vec![0; e.2.len()]) { r } else { e.clone() } }

impl Big {
    fn new(d: usize, n: usize, raw: &[E_]) -> Big { Big { d, n, edges: raw.iter().map(canon).collect::<BTreeSet<_>>().into_iter().collect() } }
    fn dirs(&self) -> Vec<E_> { self.edges.iter().flat_map(|e| [e.clone(), (e.1, e.0, neg(&e.2))]).collect() }
    /// other cells for the vertices, another basis
    fn present(&self, k: usize) -> Big {
        let d = self.d;
        if k == 0 { return self.clone(); }
        let cell = |v: usize| -> Vec<i64> { (0..d).map(|i| ((v * 5 + i * 3 + k) % 4) as i64 - 1).collect() };
        // shears and a cyclic exchange of the axes
        let basis = |s: &[i64]| -> Vec<i64> { let mut s = s.to_vec(); if k % 2 == 1 { for i in 1..d { s[i] += s[i - 1] * (1 - (i + k) as i64 % 3); } s.rotate_left(1); s[0] = -s[0]; } s };
        let p = |v: usize| (v * if k % 3 == 2 { self.n - 1 } else { 1 } + k / 3) % self.n;
        Big::new(d, self.n, &self.edges.iter().map(|e| (p(e.0), p(e.1), basis(&plus(&plus(&e.2, &cell(e.0)), &neg(&cell(e.1)))))).collect::<Vec<_>>())
    }
    /// the cell doubled (or more) along one axis
    fn multiple(&self, axis: usize, k: i64) -> Big {
        let mut raw = vec![];
        for e in &self.edges { for j in 0..k { let x = j + e.2[axis]; let mut s = e.2.clone(); s[axis] = x.div_euclid(k);
            raw.push((e.0 * k as usize + j as usize, e.1 * k as usize + x.rem_euclid(k) as usize, s)); } }
        Big::new(self.d, self.n * k as usize, &raw)
    }
    /// two sheets; the edges of a set cross
    fn double(&self, cross: u64, rungs: bool) -> Big {
        let mut raw = vec![];
        for (i, e) in self.edges.iter().enumerate() { for l in 0..2 { let m = if cross >> i & 1 == 1 { 1 - l } else { l }; raw.push((e.0 + l * self.n, e.1 + m * self.n, e.2.clone())); } }
        if rungs { for v in 0..self.n { raw.push((v, v + self.n, vec![0; self.d])); } }
        Big::new(self.d, 2 * self.n, &raw)
    }
    fn positions(&self) -> Option<Vec<Vec<Q>>> {
        let (n, d) = (self.n, self.d);
        let rows: mat::M = (1..n).map(|v| { let mut r = vec![Q::ZERO; n - 1 + d];
            for (h, t, s) in self.dirs() { if h != v { continue; } r[v - 1] = r[v - 1] + Q::ONE; if t > 0 { r[t - 1] = r[t - 1] - Q::ONE; } for k in 0..d { r[n - 1 + k] = r[n - 1 + k] + Q::int(s[k] as i128); } }
            r }).collect();
        let e = mat::rref(&rows, n - 1 + d);
        if (1..n).any(|v| e.len() < v || e[v - 1][v - 1] != Q::ONE) { return None; }
        Some(std::iter::once(vec![Q::ZERO; d]).chain((1..n).map(|v| e[v - 1][n - 1..].to_vec())).collect())
    }
    fn vectors(&self, p: &[Vec<Q>]) -> Vec<Vec<Q>> { self.dirs().iter().map(|(h, t, s)| (0..self.d).map(|i| p[*t][i] + Q::int(s[i] as i128) - p[*h][i]).collect()).collect() }
    fn shells(&self, v: usize, k: usize) -> Vec<usize> {
        let dirs = self.dirs();
        let mut seen: HashSet<(usize, Vec<i64>)> = HashSet::from([(v, vec![0; self.d])]);
        let mut cur: Vec<_> = seen.iter().cloned().collect();
        (0..k).map(|_| { let mut next = vec![]; for (u, x) in &cur { for e in &dirs { if e.0 == *u { let y = (e.1, plus(x, &e.2)); if seen.insert(y.clone()) { next.push(y); } } } } cur = next; cur.len() }).collect()
    }
    /// (vertices, rank, index) of the component
    fn measures(&self, v: usize) -> (usize, usize, Option<i128>) {
        let mut pot: BTreeMap<usize, Vec<i64>> = BTreeMap::from([(v, vec![0; self.d])]);
        let mut todo = vec![v];
        while let Some(u) = todo.pop() { for e in self.dirs() { if e.0 == u && !pot.contains_key(&e.1) { let x = plus(&pot[&u], &e.2); pot.insert(e.1, x); todo.push(e.1); } } }
        let cyc: mat::Z = self.edges.iter().filter(|e| pot.contains_key(&e.0)).map(|e| plus(&plus(&pot[&e.0], &e.2), &neg(&pot[&e.1])).iter().map(|&x| x as i128).collect()).collect();
        let h = mat::hnf(&cyc, self.d);
        (pot.len(), h.len(), if h.len() == self.d { Some((0..self.d).map(|i| h[i][i]).product()) } else { None })
    }
    /// (linear part, vertex map, map of directed edges)
    fn auts(&self, ev: &[Vec<Q>]) -> Vec<(mat::M, Vec<usize>, Vec<usize>)> {
        let (d, dirs) = (self.d, self.dirs());
        let at: Vec<Vec<usize>> = (0..self.n).map(|v| (0..dirs.len()).filter(|&k| dirs[k].0 == v).collect()).collect();
        // a chain of independent edges: each starts at the first vertex or where the one before ended
        let mut seed: Vec<usize> = vec![];
        let mut links: Vec<bool> = vec![];
        for v in 0..self.n {
            seed.clear(); links.clear();
            for &k in &at[v] { let mut m: mat::M = seed.iter().map(|&x| ev[x].clone()).collect(); m.push(ev[k].clone()); if mat::rank(&m, d) == m.len() { seed.push(k); links.push(true); } }
            'more: while seed.len() < d && !seed.is_empty() {
                for &k in &at[dirs[seed[seed.len() - 1]].1] { let mut m: mat::M = seed.iter().map(|&x| ev[x].clone()).collect(); m.push(ev[k].clone());
                    if mat::rank(&m, d) == m.len() { seed.push(k); links.push(false); continue 'more; } }
                break;
            }
            if seed.len() == d { break; }
        }
        assert!(seed.len() == d, "reference: no seed in {:?}", self);
        let inv = mat::inverse(&mat::transpose(&seed.iter().map(|&k| ev[k].clone()).collect(), d)).unwrap();
        let look: HashMap<(usize, &Vec<Q>), usize> = (0..dirs.len()).map(|k| ((dirs[k].0, &ev[k]), k)).collect();
        let mut res = vec![];
        let mut todo: Vec<Vec<usize>> = (0..dirs.len()).map(|k| vec![k]).collect();
        while let Some(im) = todo.pop() {
            if im.len() < d { let from = if links[im.len()] { dirs[im[0]].0 } else { dirs[im[im.len() - 1]].1 };
                for &k in &at[from] { if !im.contains(&k) { let mut x = im.clone(); x.push(k); todo.push(x); } } continue; }
            let m = mat::mul(&mat::transpose(&im.iter().map(|&k| ev[k].clone()).collect(), d), &inv);
            if m.iter().flatten().any(|x| !x.is_int()) || mat::det(&m) * mat::det(&m) != Q::ONE { continue; }
            let (mut vm, mut em) = (vec![usize::MAX; self.n], vec![usize::MAX; dirs.len()]);
            let (v0, w0) = (dirs[seed[0]].0, dirs[im[0]].0);
            vm[v0] = w0;
            let mut st = vec![v0];
            let mut ok = true;
            'walk: while let Some(u) = st.pop() { if at[u].len() != at[vm[u]].len() { ok = false; break; }
                for &k in &at[u] { match look.get(&(vm[u], &mat::mulv(&m, &ev[k]))) {
                    Some(&i) => { em[k] = i; let (a, b) = (dirs[k].1, dirs[i].1); if vm[a] == usize::MAX { vm[a] = b; st.push(a); } else if vm[a] != b { ok = false; break 'walk; } }
                    None => { ok = false; break 'walk; } } } }
            if ok && vm.iter().collect::<HashSet<_>>().len() == self.n && em.iter().collect::<HashSet<_>>().len() == em.len() { res.push((m, vm, em)); }
        }
        res.sort_by(|a, b| (&a.0, &a.1, &a.2).cmp(&(&b.0, &b.1, &b.2))); res.dedup();
        res
    }
}
fn lab<const D: usize>(s: &[i64]) -> Lk<D> { let mut a = [0; D]; for i in 0..D { a[i] = s[i] as i32; } Lk(a) }
fn ed<const D: usize>(e: &E_) -> Edge<Lk<D>, W> { Edge::new(e.0 as u32 + 1, e.1 as u32 + 1, lab(&e.2)) }
fn un<const D: usize>(e: &Edge<Lk<D>, W>) -> E_ { (e.head as usize - 1, e.tail as usize - 1, e.shift.0.iter().map(|&x| x as i64).collect()) }
fn frac(p: &[Q]) -> Vec<Q> { p.iter().map(|x| x.frac()).collect() }
fn classes(n: usize, maps: &[Vec<usize>]) -> Vec<Vec<u32>> { sorted(fw::net::orbits(n, &maps.iter().collect::<Vec<_>>()).into_iter().map(|o| o.into_iter().map(|v| v as u32 + 1).collect()).collect()) }

fn check<const D: usize>(what: &str, b: &Big, c: &mut Ctx) {
    let g: Graph<Lk<D>, W> = Graph::new(&b.edges.iter().map(ed).collect::<Vec<_>>());
    let dirs = b.dirs();
    let vs: Vec<u32> = (1..=b.n as u32).collect();
    let meas: Vec<_> = (0..b.n).map(|v| b.measures(v)).collect();
    let conn = meas[0].0 == b.n && meas[0].2 == Some(1);
    match what {
        "C07" => {
            for v in 0..b.n { let (s, r, m) = graph_component_measures(&g, &vs[v]); let got = (s, r, m.map(|x| x as i128));
                c.check(got == meas[v], &|| format!("{:?}: measures at {} are {:?}, expected {:?}", b, v + 1, got, meas[v])); }
            c.check(g.is_connected() == conn, &|| format!("{:?}: is_connected gives {}", b, !conn));
            c.nontrivial(b); return;
        }
        "C08" => {
            for v in 0..b.n { let want = b.shells(v, 4); let got: Vec<usize> = g.coordination_sequence(&vs[v]).take(4).collect();
                c.check(got == want, &|| format!("{:?}: coordination sequence of {} is {:?}, expected {:?}", b, v + 1, got, want)); }
            c.nontrivial(b); return;
        }
        "C10" => {
            let got = sorted(g.directed_edges().iter().map(un).collect());
            c.check(got == sorted(dirs.clone()) && g.vertices() == vs, &|| format!("{:?}: directed edges {:?}", b, got));
            for v in 0..b.n { let got = sorted(g.incidences(&vs[v]).iter().map(un).collect()); let want = sorted(dirs.iter().filter(|e| e.0 == v).cloned().collect());
                c.check(got == want, &|| format!("{:?}: incidences at {} are {:?}", b, v + 1, got)); }
            for k in 0..3usize { let raw: Vec<_> = (0..dirs.len()).map(|i| &dirs[(i * (2 * k + 1) + k) % dirs.len()]).chain(dirs.iter().step_by(2)).map(|e| ed::<D>(e)).collect();
                let h: Graph<Lk<D>, W> = Graph::new(&raw);
                c.check(dirs.len() % (2 * k + 1) == 0 && k > 0 || h.to_string() == g.to_string() && h.directed_edges() == g.directed_edges(), &|| format!("{:?}: given as {:?} it is {}", b, raw, h)); }
            c.nontrivial(b); return;
        }
        "C12" => {
            let m = g.shift_normalized();
            let back = Big::new(D, b.n, &m.directed_edges().iter().map(un).collect::<Vec<_>>());
            let zero = |b: &Big| { let mut l: Vec<usize> = (0..b.n).collect(); for _ in 0..b.n { for e in &b.edges { if e.2.iter().all(|x| *x == 0) { let k = l[e.0].min(l[e.1]); l[e.0] = k; l[e.1] = k; } } } l.iter().collect::<HashSet<_>>().len() };
            let parts = meas.iter().zip(0..).filter(|(_, v)| *v == 0).count().max(1);
            if meas[0].0 == b.n { c.check(zero(&back) == parts, &|| format!("{:?}: becomes {:?}, in which the zero-shift edges do not connect all", b, back)); }
            // moving a vertex to another cell moves its position by a whole vector and keeps all edge vectors
            c.check(m.vertices() == vs && back.edges.len() == b.edges.len(), &|| format!("{:?}: becomes {:?}", b, back));
            if let (Some(p), Some(q)) = (b.positions(), back.positions()) {
                let key = |b: &Big, p: &[Vec<Q>]| sorted(b.dirs().into_iter().zip(b.vectors(p)).map(|(e, x)| (e.0, e.1, x)).collect::<Vec<_>>());
                c.check(key(b, &p) == key(&back, &q), &|| format!("{:?}: becomes {:?}, with other edges", b, back));
                c.check((0..b.n).all(|v| frac(&p[v]) == frac(&q[v])), &|| format!("{:?}: becomes {:?}, with other positions", b, back));
            }
            c.nontrivial(b); return;
        }
        _ => {}
    }
    let p = match b.positions() { Some(p) => p, None => return c.outcome("quotient not connected") };
    let ev = b.vectors(&p);
    let local = (0..dirs.len()).map(|k| (dirs[k].0, &ev[k])).collect::<HashSet<_>>().len() == dirs.len();
    let stable = p.iter().map(|x| frac(x)).collect::<HashSet<_>>().len() == b.n;
    if what == "C01" {
        let got: Vec<Option<Vec<Q>>> = vs.iter().map(|v| qs(g.position(v).iter())).collect();
        let off = |v: usize| got[v].as_ref().map(|x| (0..x.len()).map(|i| x[i] - p[v][i]).collect::<Vec<_>>());
        c.check(off(0).map_or(false, |x| x.len() == D) && (0..b.n).all(|v| off(v) == off(0)), &|| format!("{:?}: positions {:?}, expected {:?}", b, got, p));
        for k in 0..dirs.len() { let x = qs(g.edge_vector(&ed(&dirs[k])).iter()); c.check(x.as_ref() == Some(&ev[k]), &|| format!("{:?}: edge vector of {:?} is {:?}, expected {:?}", b, dirs[k], x, ev[k])); }
        for v in 0..b.n { let x = qs(g.position_normalized(&vs[v]).iter()); c.check(x.is_some() && x == got[v].as_ref().map(|y| frac(y)), &|| format!("{:?}: normalized position of {} is {:?}", b, v + 1, x)); }
        c.nontrivial(b); return;
    }
    if what == "C09" {
        let second = (0..b.n).map(|v| (frac(&p[v]), sorted(dirs.iter().zip(&ev).filter(|x| x.0.0 == v).map(|x| x.1.clone()).collect::<Vec<_>>()))).collect::<HashSet<_>>().len() < b.n;
        c.check((g.is_stable(), g.is_locally_stable(), g.has_second_order_collisions()) == (stable, local, second), &|| format!("{:?}: stable, locally stable, second order collisions are {:?}", b, (g.is_stable(), g.is_locally_stable(), g.has_second_order_collisions())));
        for v in 0..b.n { for x in ev.iter().collect::<BTreeSet<_>>() {
            let hits: Vec<&E_> = dirs.iter().zip(&ev).filter(|y| y.0.0 == v && y.1 == x).map(|y| y.0).collect();
            if hits.len() == 2 && hits[0] == hits[1] { continue; }
            let want = if hits.len() == 1 { Some(hits[0].clone()) } else { None };
            let got = g.edge_by_unique_delta(&vs[v], &x.iter().map(|q| q.big()).collect()).map(|e| un(&e));
            c.check(got == want, &|| format!("{:?}: edge at {} with vector {:?} is {:?}", b, v + 1, x, got)); } }
        c.nontrivial(b); return;
    }
    if !conn || !local { return c.outcome("skipped: not connected or not locally stable"); }
    let auts = b.auts(&ev);
    let tr: Vec<_> = auts.iter().filter(|a| a.0 == mat::ident(D)).collect();
    let shift = |a: &(mat::M, Vec<usize>, Vec<usize>)| -> Vec<Q> { (0..D).map(|i| (p[a.1[0]][i] - p[0][i]).frac()).collect() };
    let index = tr.iter().map(|a| shift(a)).collect::<HashSet<_>>().len();
    let vmaps: Vec<Vec<usize>> = auts.iter().map(|a| a.1.clone()).collect();
    c.outcome(&format!("dimension {} order {} index {} ladder maps {}", D, auts.len(), index, tr.len() / index));
    if auts.len() > 1 { c.nontrivial(b); c.sample(|| format!("{:?}: order {}", b, auts.len())); }
    match what {
        "C02" => {
            let vec = |m: &mat::M| -> Vec<num_rational::BigRational> { m.iter().flatten().map(|q| q.big()).collect() };
            let exp: Vec<Automorphism<Lk<D>, W>> = auts.iter().map(|a| Automorphism::new((0..b.n).map(|v| (vs[v], vs[a.1[v]])).collect(), (0..dirs.len()).map(|k| (ed(&dirs[k]), ed(&dirs[a.2[k]]))).collect(),
                AffineMap::new(&rust_systre::arithmetic::matrices::Matrix::new(D, &vec(&a.0)), &Vector::zero(D)))).collect();
            let got = g.symmetries();
            if !c.check(got.len() == exp.len(), &|| format!("{:?}: {} symmetries, but the group has order {}", b, got.len(), exp.len())) { return; }
            let mut used = vec![false; exp.len()];
            for a in &got { match (0..exp.len()).find(|&j| !used[j] && exp[j] == *a) { Some(j) => used[j] = true, None => return c.fail(format!("{:?}: a symmetry is not an automorphism, or listed twice", b)) } }
        }
        "C03" => {
            let (got, want) = (sets(&g.vertex_orbits()), classes(b.n, &vmaps));
            c.check(got == want, &|| format!("{:?}: vertex orbits {:?}, expected {:?}", b, got, want));
            let em: Vec<Vec<usize>> = auts.iter().map(|a| (0..b.edges.len()).map(|k| a.2[2 * k] / 2).collect()).collect();
            let want: Vec<Vec<E_>> = sorted(fw::net::orbits(b.edges.len(), &em.iter().collect::<Vec<_>>()).into_iter().map(|o| sorted(o.into_iter().map(|k| b.edges[k].clone()).collect())).collect());
            let got: Vec<Vec<E_>> = sorted(g.edge_orbits().iter().map(|o| sorted(o.iter().map(|e| canon(&un(e))).collect())).collect());
            c.check(got == want, &|| format!("{:?}: edge orbits {:?}, expected {:?}", b, got, want));
        }
        "C05" if stable => {
            let (got, want) = (sets(&sy::translational_orbits(&g)), classes(b.n, &tr.iter().map(|a| a.1.clone()).collect::<Vec<_>>()));
            c.check(got == want && sy::is_minimal(&g) == (index == 1), &|| format!("{:?}: translational orbits {:?}, expected {:?}", b, got, want));
        }
        "C04" if stable => match attempt(|| sy::minimal_image::<Lk<D>, Lk<D>, W, W>(&g)) {
            Err(e) => c.fail(format!("{:?}: minimal_image panics: {}", b, e)),
            Ok(None) => { c.check(index == 1, &|| format!("{:?}: no minimal image, although the index is {}", b, index)); }
            Ok(Some(m)) => {
                let x = Big::new(D, m.vertices().len(), &m.directed_edges().iter().map(un).collect::<Vec<_>>());
                if !c.check(index > 1 && x.n * index == b.n && x.edges.len() * index == b.edges.len() && m.vertices() == vs[..x.n], &|| format!("{:?}: minimal image {:?}, index {}", b, x, index)) { return; }
                let me = x.measures(0);
                if !c.check(me.0 == x.n && me.2 == Some(1), &|| format!("{:?}: minimal image {:?} is not connected", b, x)) { return; }
                let q = x.positions().unwrap();
                let xv = x.vectors(&q);
                let n = x.auts(&xv);
                // point operations survive, translations do not
                c.check(n.iter().filter(|a| a.0 == mat::ident(D)).count() == 1, &|| format!("{:?}: minimal image {:?} has translations", b, x));
                let seq = |b: &Big| sorted((0..b.n).map(|v| b.shells(v, 4)).collect::<Vec<_>>());
                let s: Vec<Vec<usize>> = sorted(seq(&x).into_iter().flat_map(|y| vec![y; index]).collect());
                c.check(s == seq(b), &|| format!("{:?}: minimal image {:?} has other coordination sequences", b, x));
                c.check(n.len() * index >= auts.len(), &|| format!("{:?}: minimal image {:?} has {} point symmetries", b, x, n.len()));
                c.check(sy::is_minimal(&m), &|| format!("{:?}: minimal image {:?} is not reported minimal", b, x));
            }
        },
        "C06" => {
            let rungs: Vec<Vec<usize>> = sorted(tr.iter().filter(|a| shift(a).iter().all(|x| x.is_zero()) && a.1[0] != 0).map(|a| a.1.clone()).collect());
            let list = sy::ladder_symmetries(&g);
            c.check(sy::is_ladder(&g) == !rungs.is_empty() && list.len() == rungs.len(), &|| format!("{:?}: is_ladder gives {}, {} ladder symmetries, expected {}", b, sy::is_ladder(&g), list.len(), rungs.len()));
        }
        _ => c.outcome("skipped: coinciding vertices"),
    }
}

fn family(t: Tier) -> Vec<Big> {
    let u = unit;
    let mut v: Vec<Big> = vec![];
    let d = 4;
    // one vertex: the axes and up to two (three) more loops
    let ex: Vec<Vec<i64>> = vec![vec![1, 1, 0, 0], vec![0, 1, -1, 0], vec![1, 1, 1, 1], vec![0, 0, 2, 1], vec![1, 0, 0, -1], vec![0, 2, 0, 0]];
    for i in 0..fw::en::nsubsets(ex.len(), 0, t.pick(2, 3)) {
        let mut raw: Vec<E_> = (0..d).map(|k| (0, 0, u(d, k))).collect();
        raw.extend(fw::en::subset(i, ex.len(), 0, t.pick(2, 3)).iter().map(|&k| (0, 0, ex[k].clone())));
        v.push(Big::new(d, 1, &raw));
    }
    // simplex nets (honeycomb and diamond carried on), alone and with loops
    let z = vec![0i64; d];
    let dia: Vec<E_> = std::iter::once((0, 1, z.clone())).chain((0..d).map(|k| (0, 1, u(d, k)))).collect();
    v.push(Big::new(d, 2, &dia));
    for x in &ex[..t.pick(3, 6)] { v.push(Big::new(d, 2, &[dia.clone(), vec![(0, 0, x.clone())]].concat())); v.push(Big::new(d, 2, &[dia.clone(), vec![(0, 0, x.clone()), (1, 1, x.clone())]].concat())); }
    // rings: no vertex has edges in all directions
    for n in 3..=t.pick(5usize, 7) { for way in 0..t.pick(2, 3) {
        let mut raw: Vec<E_> = (0..n).map(|i| (i, (i + 1) % n, if i + 1 == n { u(d, 0) } else { z.clone() })).collect();
        for k in 1..d { raw.push((k % n, (k + 1 + way) % n, u(d, k))); if way == 1 { raw.push((k % n, k % n, u(d, k))); } }
        v.push(Big::new(d, n, &raw));
    } }
    let base = v.clone();
    // products of two honeycombs, of a kagome layer and a square lattice
    let hcb = [(0usize, 1usize, 0i64, 0i64), (0, 1, 1, 0), (0, 1, 0, 1)];
    let mut raw: Vec<E_> = vec![];
    for j in 0..2 { for (a, b, x, y) in hcb { raw.push((2 * a + j, 2 * b + j, vec![x, y, 0, 0])); raw.push((2 * j + a, 2 * j + b, vec![0, 0, x, y])); } }
    v.push(Big::new(d, 4, &raw));
    let kgm = [(0usize, 1usize, 0i64, 0i64), (0, 1, 1, 0), (0, 2, 0, 0), (0, 2, 0, 1), (1, 2, 0, 0), (1, 2, -1, 1)];
    let mut raw: Vec<E_> = kgm.iter().map(|e| (e.0, e.1, vec![e.2, e.3, 0, 0])).collect();
    for a in 0..3 { for k in 2..4 { raw.push((a, a, u(d, k))); } }
    v.push(Big::new(d, 3, &raw));
    for (i, b) in base.iter().enumerate() {
        if b.n <= 2 { for axis in 0..d { if (axis + i) % t.pick(4, 1) == 0 { v.push(b.multiple(axis, 2)); if i % t.pick(5, 2) == 0 { v.push(b.multiple(axis, 3)); v.push(b.multiple(axis, 2).multiple((axis + 1) % d, 2)); } } } }
        if b.n <= 3 && b.edges.len() <= 6 { for x in 0..1u64 << b.edges.len() { if x.count_ones() as usize % t.pick(3, 1) == i % t.pick(3, 1) { v.push(b.double(x, x % 2 == 0)); if x % 3 == 1 { v.push(b.double(x, x % 2 == 1)); } } } }
    }
    let mut v: Vec<Big> = v.into_iter().enumerate().map(|(i, b)| if b.n > 1 || i % 2 == 1 { b.present(i % 7) } else { b }).collect();
    // not connected, or of lower rank
    v.push(Big::new(d, 2, &[dia.clone(), vec![]].concat()[1..4].to_vec()));
    v.push(Big::new(d, 1, &[(0, 0, vec![2, 0, 0, 0]), (0, 0, vec![0, 3, 0, 1]), (0, 0, u(d, 2)), (0, 0, vec![0, 0, 1, 5])]));
    v.push(Big::new(d, 2, &[(0, 0, u(d, 0)), (1, 1, u(d, 1))]));
    // five dimensions
    let d = 5;
    v.push(Big::new(d, 2, &std::iter::once((0, 1, vec![0; d])).chain((0..d).map(|k| (0, 1, u(d, k)))).collect::<Vec<_>>()));
    let mut raw: Vec<E_> = vec![(0, 1, vec![0; d]), (1, 2, vec![0; d]), (2, 0, u(d, 0))];
    for k in 1..d { raw.push((k % 3, (k + 1) % 3, u(d, k))); }
    v.push(Big::new(d, 3, &raw));
    v
}
/// The space for one of the properties.
pub fn space(what: &'static str, t: Tier) -> Space {
    let mut v = family(t);
    // whole groups of symmetries take long
    if what == "C02" || what == "C03" { let k = v.len() / t.pick(150, 300); v = v.into_iter().step_by(k.max(1)).collect(); }
    Space::list("four and five dimensions, with labels of the user's own", v, move |b, c| if b.d == 4 { check::<4>(what, b, c) } else { check::<5>(what, b, c) })
}
