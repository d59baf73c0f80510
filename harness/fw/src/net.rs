//! Reference model of periodic graphs ("nets"), written from the definitions and
//! independent of the code under test.
use crate::en;
use crate::mat;
use crate::q::{gcd, Q};
use std::collections::{BTreeSet, HashMap, HashSet};

pub type V3 = [i64; 3];
pub type Raw = (u32, u32, V3);
pub type Mat3 = [[i64; 3]; 3];

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Net {
    pub d: usize,
    /// ascending vertex numbers
    pub ids: Vec<u32>,
    /// undirected edges (head index, tail index, shift), canonical, sorted, distinct
    pub edges: Vec<(usize, usize, V3)>,
}

impl std::fmt::Debug for Net {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}d", self.d)?;
        for &(h, t, s) in &self.edges { write!(f, " {}-{}{:?}", self.ids[h], self.ids[t], &s[..self.d])?; }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Aut { pub m: Mat3, pub v: Vec<usize>, pub e: Vec<usize> }

pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn neg(a: V3) -> V3 { [-a[0], -a[1], -a[2]] }
pub fn is_neg(a: V3) -> bool { match a.iter().find(|x| **x != 0) { Some(x) => *x < 0, None => false } }
pub fn mv(m: &Mat3, v: V3) -> V3 { let f = |i: usize| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; [f(0), f(1), f(2)] }
pub fn mm(a: &Mat3, b: &Mat3) -> Mat3 { let mut r = [[0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { r[i][j] += a[i][k] * b[k][j]; } } } r }
pub fn det3(m: &Mat3) -> i64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
fn adj3(m: &Mat3) -> Mat3 {
    let c = |i: usize, j: usize| { let r: Vec<usize> = (0..3).filter(|&x| x != i).collect(); let s: Vec<usize> = (0..3).filter(|&x| x != j).collect();
        (m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]) * if (i + j) % 2 == 0 { 1 } else { -1 } };
    let mut a = [[0; 3]; 3];
    for i in 0..3 { for j in 0..3 { a[j][i] = c(i, j); } }
    a
}
pub const I3: Mat3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

impl Net {
    pub fn new(d: usize, raw: &[Raw]) -> Net {
        let ids: Vec<u32> = raw.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().into_iter().collect();
        let ix: HashMap<u32, usize> = ids.iter().enumerate().map(|(i, &v)| (v, i)).collect();
        let set: BTreeSet<(usize, usize, V3)> = raw.iter().map(|&(h, t, s)| canon((ix[&h], ix[&t], s))).collect();
        Net { d, ids, edges: set.into_iter().collect() }
    }
    pub fn raw(&self) -> Vec<Raw> { self.edges.iter().map(|&(h, t, s)| (self.ids[h], self.ids[t], s)).collect() }
    pub fn n(&self) -> usize { self.ids.len() }
    /// directed edges: edge k gives 2k (forward) and 2k+1 (reversed)
    pub fn dirs(&self) -> Vec<(usize, usize, V3)> { self.edges.iter().flat_map(|&(h, t, s)| [(h, t, s), (t, h, neg(s))]).collect() }
    /// per vertex: (directed edge index, tail, shift)
    pub fn adj(&self) -> Vec<Vec<(usize, usize, V3)>> {
        let mut a = vec![vec![]; self.n()];
        for (k, &(h, t, s)) in self.dirs().iter().enumerate() { a[h].push((k, t, s)); }
        a
    }
    /// (component label, potential) per vertex
    fn tree(&self) -> (Vec<usize>, Vec<V3>) {
        let adj = self.adj();
        let mut lab = vec![usize::MAX; self.n()];
        let mut pot = vec![[0; 3]; self.n()];
        let mut nc = 0;
        for v in 0..self.n() {
            if lab[v] != usize::MAX { continue; }
            lab[v] = nc;
            let mut st = vec![v];
            while let Some(u) = st.pop() { for &(_, w, s) in &adj[u] { if lab[w] == usize::MAX { lab[w] = nc; pot[w] = add(pot[u], s); st.push(w); } } }
            nc += 1;
        }
        (lab, pot)
    }
    pub fn quotient_connected(&self) -> bool { self.tree().0.iter().all(|&l| l == 0) }
    pub fn components(&self) -> Vec<usize> { self.tree().0 }
    pub fn measures(&self, v: usize) -> (usize, usize, Option<i128>) {
        let (lab, pot) = self.tree();
        let size = lab.iter().filter(|&&l| l == lab[v]).count();
        let cyc: mat::Z = self.edges.iter().filter(|e| lab[e.0] == lab[v])
            .map(|&(h, t, s)| sub(add(pot[h], s), pot[t])[..self.d].iter().map(|&x| x as i128).collect()).collect();
        let h = mat::hnf(&cyc, self.d);
        let r = h.len();
        (size, r, if r == self.d { Some((0..r).map(|i| h[i][i]).product()) } else { None })
    }
    pub fn connected(&self) -> bool { self.n() == 0 || { let m = self.measures(0); m.0 == self.n() && m.2 == Some(1) } }

    /// positions with vertex 0 at the origin; quotient must be connected
    pub fn positions(&self) -> Vec<Vec<Q>> {
        let n = self.n();
        let adj = self.adj();
        let mut rows: mat::M = vec![];
        for v in 1..n {
            let mut r = vec![Q::ZERO; n - 1 + self.d];
            for &(_, w, s) in &adj[v] {
                r[v - 1] = r[v - 1] + Q::ONE;
                if w > 0 { r[w - 1] = r[w - 1] - Q::ONE; }
                for k in 0..self.d { r[n - 1 + k] = r[n - 1 + k] + Q::int(s[k] as i128); }
            }
            rows.push(r);
        }
        let e = if n <= 10 { mat::rref(&rows, n - 1 + self.d) } else { mat::rref_big(&rows, n - 1 + self.d) };
        let mut p = vec![vec![Q::ZERO; self.d]];
        for v in 1..n { assert!(e[v - 1][v - 1] == Q::ONE); p.push(e[v - 1][n - 1..].to_vec()); }
        p
    }
    /// positions scaled to integers by a common denominator, and vectors of all directed edges
    pub fn scaled(&self) -> (i64, Vec<V3>, Vec<V3>) {
        let p = self.positions();
        let mut l: i128 = 1;
        for r in &p { for x in r { l = l / gcd(l, x.d) * x.d; } }
        let ps: Vec<V3> = p.iter().map(|r| { let mut v = [0i64; 3]; for k in 0..self.d { v[k] = (r[k].n * (l / r[k].d)) as i64; } v }).collect();
        let l = l as i64;
        let ev = self.dirs().iter().map(|&(h, t, s)| sub(add(ps[t], [s[0] * l, s[1] * l, s[2] * l]), ps[h])).collect();
        (l, ps, ev)
    }
    pub fn locally_stable(&self) -> bool {
        let (_, _, ev) = self.scaled();
        let mut seen = HashSet::new();
        self.dirs().iter().zip(&ev).all(|(e, v)| seen.insert((e.0, *v)))
    }
    pub fn stable(&self) -> bool {
        let (l, ps, _) = self.scaled();
        let mut seen = HashSet::new();
        ps.iter().all(|p| seen.insert([p[0].rem_euclid(l), p[1].rem_euclid(l), p[2].rem_euclid(l)]))
    }
    pub fn second_order_collisions(&self) -> bool {
        let (l, ps, ev) = self.scaled();
        let dirs = self.dirs();
        let mut seen = HashSet::new();
        !(0..self.n()).all(|v| {
            let p = ps[v];
            let mut ds: Vec<V3> = dirs.iter().zip(&ev).filter(|(e, _)| e.0 == v).map(|(_, x)| *x).collect();
            ds.sort();
            seen.insert(([p[0].rem_euclid(l), p[1].rem_euclid(l), p[2].rem_euclid(l)], ds))
        })
    }
    /// sizes of the shells 1..=k of the infinite net around (v, 0)
    pub fn shells(&self, v: usize, k: usize) -> Vec<usize> {
        let adj = self.adj();
        let mut seen: HashSet<(usize, V3)> = HashSet::from([(v, [0; 3])]);
        let mut cur = vec![(v, [0i64; 3])];
        let mut res = vec![];
        for _ in 0..k {
            let mut next = vec![];
            for (u, x) in cur { for &(_, w, s) in &adj[u] { let y = (w, add(x, s)); if seen.insert(y) { next.push(y); } } }
            res.push(next.len());
            cur = next;
        }
        res
    }

    pub fn auts(&self) -> Vec<Aut> { isomorphisms(self, self, false) }

    // ---- presentation changes -------------------------------------------------------------
    /// renames vertex i to ids[i]
    pub fn relabel(&self, ids: &[u32]) -> Net { Net::new(self.d, &self.edges.iter().map(|&(h, t, s)| (ids[h], ids[t], s)).collect::<Vec<_>>()) }
    /// shifts become m * shift (m unimodular)
    pub fn basis(&self, m: &Mat3) -> Net { Net::new(self.d, &self.raw().iter().map(|&(h, t, s)| (h, t, mv(m, s))).collect::<Vec<_>>()) }
    /// vertex i moves to the cell g[i]
    pub fn gauge(&self, g: &[V3]) -> Net {
        Net::new(self.d, &self.edges.iter().map(|&(h, t, s)| (self.ids[h], self.ids[t], sub(add(s, g[h]), g[t]))).collect::<Vec<_>>())
    }
    /// same net, lattice generated by the rows of the upper triangular matrix h
    pub fn supercell(&self, h: &Mat3) -> Net {
        let d = self.d;
        let idx: i64 = (0..d).map(|i| h[i][i]).product();
        let rep = |mut k: i64| { let mut r = [0; 3]; for i in 0..d { r[i] = k % h[i][i]; k /= h[i][i]; } r };
        let code = |r: V3| { let mut k = 0; for i in (0..d).rev() { k = k * h[i][i] + r[i]; } k };
        let mut raw = vec![];
        for &(a, b, s) in &self.edges { for k in 0..idx {
            let mut x = add(rep(k), s);
            let mut c = [0; 3];
            for i in 0..d { c[i] = x[i].div_euclid(h[i][i]); for j in 0..d { x[j] -= c[i] * h[i][j]; } }
            raw.push(((a as i64 * idx + k) as u32 + 1, (b as i64 * idx + code(x)) as u32 + 1, c));
        } }
        Net::new(d, &raw)
    }
    /// c sheets, edge k of sheet l leading to sheet perm[k][l], optional rungs between sheets 0 and 1
    pub fn sheets(&self, c: usize, perm: &[Vec<usize>], rungs: bool) -> Net {
        let n = self.n();
        let id = |v: usize, l: usize| (l * n + v + 1) as u32;
        let mut raw = vec![];
        for (k, &(h, t, s)) in self.edges.iter().enumerate() { for l in 0..c { raw.push((id(h, l), id(t, perm[k][l]), s)); } }
        if rungs { for v in 0..n { for l in 0..c - 1 { raw.push((id(v, l), id(v, l + 1), [0; 3])); } } }
        Net::new(self.d, &raw)
    }
}

pub fn canon((h, t, s): (usize, usize, V3)) -> (usize, usize, V3) { if t < h || (t == h && is_neg(s)) { (t, h, neg(s)) } else { (h, t, s) } }

/// All isomorphisms a -> b of connected, locally stable nets as triples of a unimodular matrix acting
/// on edge vectors and bijections of vertices and directed edges. With `first`, at most one.
pub fn isomorphisms(a: &Net, b: &Net, first: bool) -> Vec<Aut> {
    let d = a.d;
    if a.d != b.d || a.n() != b.n() || a.edges.len() != b.edges.len() { return vec![]; }
    let (la, _, ea) = a.scaled();
    let (lb, _, eb) = b.scaled();
    // common scale
    let l = (la as i128 / gcd(la as i128, lb as i128) * lb as i128) as i64;
    let sc = |e: &Vec<V3>, f: i64| -> Vec<V3> { e.iter().map(|v| [v[0] * f, v[1] * f, v[2] * f]).collect() };
    let (ea, eb) = (sc(&ea, l / la), sc(&eb, l / lb));
    let (da, db) = (a.dirs(), b.dirs());
    let (aa, ab) = (a.adj(), b.adj());
    let mut look: HashMap<(usize, V3), usize> = HashMap::new();
    for (k, e) in db.iter().enumerate() { if look.insert((e.0, eb[k]), k).is_some() { panic!("reference: net not locally stable"); } }

    // d independent seed edges, preferably at one vertex, else along a chain, else anywhere
    let indep = |s: &[usize]| { let m: mat::M = s.iter().map(|&k| ea[k][..d].iter().map(|&x| Q::int(x as i128)).collect()).collect(); mat::rank(&m, d) == s.len() };
    let mut seeds: Vec<(usize, u8)> = vec![];
    let mut best: Option<Vec<(usize, u8)>> = None;
    for v in 0..a.n() {
        seeds.clear();
        for &(k, _, _) in &aa[v] { let mut t: Vec<usize> = seeds.iter().map(|x| x.0).collect(); t.push(k);
            if seeds.len() < d && indep(&t) { seeds.push((k, if seeds.is_empty() { 0 } else { 1 })); } }
        if seeds.len() == d { best = Some(seeds.clone()); break; }
    }
    if best.is_none() {
        seeds.clear();
        while seeds.len() < d {
            let mut cands: Vec<(u8, usize)> = vec![];
            for k in 0..da.len() {
                let mut t: Vec<usize> = seeds.iter().map(|x| x.0).collect(); t.push(k);
                if !indep(&t) { continue; }
                let link = if seeds.is_empty() { 0 } else if da[k].0 == da[seeds[0].0].0 { 1 } else if da[k].0 == da[seeds[seeds.len() - 1].0].1 { 2 } else { 3 };
                cands.push((link, k));
            }
            cands.sort();
            match cands.first() { Some(&(lk, k)) => seeds.push((k, lk)), None => return vec![] }
        }
        best = Some(seeds);
    }
    let seeds = best.unwrap();
    let mut e = I3; // columns = seed vectors
    for (j, s) in seeds.iter().enumerate() { for i in 0..d { e[i][j] = ea[s.0][i]; } }
    for j in d..3 { for i in 0..3 { e[i][j] = (i == j) as i64; } }
    // the coordinates may be large
    let wide = |m: &Mat3| -> [[i128; 3]; 3] { let mut r = [[0; 3]; 3]; for i in 0..3 { for j in 0..3 { r[i][j] = m[i][j] as i128; } } r };
    let e = wide(&e);
    let cof = |i: usize, j: usize| { let (a, b, c, d) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3); e[a][c] * e[b][d] - e[a][d] * e[b][c] };
    let det: i128 = (0..3).map(|j| e[0][j] * cof(0, j)).sum();

    let mut adj = [[0i128; 3]; 3];
    for i in 0..3 { for j in 0..3 { adj[i][j] = cof(j, i); } }
    let mut res = vec![];
    let mut tried: HashSet<(Mat3, usize)> = HashSet::new();
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(im) = stack.pop() {
        if im.len() < d {
            let lk = seeds[im.len()].1;
            for k in 0..db.len() {
                let ok = match lk { 1 => db[k].0 == db[im[0]].0, 2 => db[k].0 == db[im[im.len() - 1]].1, _ => true };
                if ok && !im.contains(&k) { let mut x = im.clone(); x.push(k); stack.push(x); }
            }
            continue;
        }
        let mut f = [[0; 3]; 3];
        for j in 0..d { for i in 0..d { f[i][j] = eb[im[j]][i]; } }
        for j in d..3 { f[j][j] = 1; }
        let f = wide(&f);
        let mut m = [[0i64; 3]; 3];
        // f times the adjugate of e must be divisible by det
        let mut ok = true;
        for i in 0..3 { for j in 0..3 { let x: i128 = (0..3).map(|k| f[i][k] * adj[k][j]).sum(); if x % det == 0 && (x / det).abs() < 1 << 30 { m[i][j] = (x / det) as i64 } else { ok = false } } }
        if !ok || det3(&m).abs() != 1 { continue; }
        let (v0, w0) = (da[seeds[0].0].0, db[im[0]].0);
        if !tried.insert((m, w0)) { continue; }
        if let Some(x) = propagate(a, &m, v0, w0, &da, &db, &aa, &ab, &ea, &look) { res.push(x); if first { return res; } }
    }
    res
}

fn propagate(a: &Net, m: &Mat3, v0: usize, w0: usize, da: &[(usize, usize, V3)], db: &[(usize, usize, V3)],
    aa: &[Vec<(usize, usize, V3)>], ab: &[Vec<(usize, usize, V3)>], ea: &[V3], look: &HashMap<(usize, V3), usize>) -> Option<Aut> {
    let mut v = vec![usize::MAX; a.n()];
    let mut e = vec![usize::MAX; da.len()];
    let mut st = vec![v0];
    v[v0] = w0;
    while let Some(u) = st.pop() {
        if aa[u].len() != ab[v[u]].len() { return None; }
        for &(k, w, _) in &aa[u] {
            let img = *look.get(&(v[u], mv(m, ea[k])))?;
            e[k] = img;
            let t = db[img].1;
            if v[w] == usize::MAX { v[w] = t; st.push(w); } else if v[w] != t { return None; }
        }
    }
    if v.iter().collect::<HashSet<_>>().len() != v.len() || e.iter().collect::<HashSet<_>>().len() != e.len() { return None; }
    Some(Aut { m: *m, v, e })
}

pub fn isomorphic(a: &Net, b: &Net) -> bool { !isomorphisms(a, b, true).is_empty() }

/// All upper triangular Hermite matrices of determinant n (rows generate the sublattices of index n).
pub fn hermites(d: usize, n: i64) -> Vec<Mat3> {
    fn rec(d: usize, i: usize, n: i64, diag: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if i == d { if n == 1 { out.push(diag.clone()); } return; }
        for x in 1..=n { if n % x == 0 { diag.push(x); rec(d, i + 1, n / x, diag, out); diag.pop(); } }
    }
    let mut ds = vec![];
    rec(d, 0, n, &mut vec![], &mut ds);
    let mut res = vec![];
    for g in ds {
        let pos: Vec<(usize, usize)> = (0..d).flat_map(|i| (i + 1..d).map(move |j| (i, j))).collect();
        let rad: Vec<u64> = pos.iter().map(|&(_, j)| g[j] as u64).collect();
        for k in 0..en::product(&rad) {
            let dg = en::digits(k, &rad);
            let mut m = I3;
            for i in 0..d { m[i][i] = g[i]; }
            for (x, &(i, j)) in pos.iter().enumerate() { m[i][j] = dg[x] as i64; }
            res.push(m);
        }
    }
    res
}

/// Is `big` the same net as `small`, presented with a sublattice of index |big| / |small|?
pub fn is_supercell_of(big: &Net, small: &Net) -> bool {
    if big.n() % small.n() != 0 || big.edges.len() * small.n() != small.edges.len() * big.n() { return false; }
    let k = (big.n() / small.n()) as i64;
    hermites(small.d, k).iter().any(|h| isomorphic(big, &small.supercell(h)))
}

// ---- translations ---------------------------------------------------------------------------

pub struct Translations {
    /// automorphisms with identity linear part (identity included), with displacement of vertex 0 modulo 1 as exact fractions
    pub all: Vec<(Aut, Vec<Q>)>,
    /// index of the given lattice in the lattice of all displacements
    pub index: usize,
}
impl Net {
    pub fn translations(&self, auts: &[Aut]) -> Translations {
        let p = self.positions();
        let all: Vec<(Aut, Vec<Q>)> = auts.iter().filter(|a| a.m == I3).map(|a| {
            let t = (0..self.d).map(|k| (p[a.v[0]][k] - p[0][k]).frac()).collect(); (a.clone(), t) }).collect();
        let index = all.iter().map(|x| x.1.clone()).collect::<HashSet<_>>().len();
        Translations { all, index }
    }
    /// orbits of a set of vertex maps, as sorted lists of vertex indices sorted by first element
    pub fn orbits(&self, maps: &[&Vec<usize>]) -> Vec<Vec<usize>> { orbits(self.n(), maps) }
}
pub fn orbits(n: usize, maps: &[&Vec<usize>]) -> Vec<Vec<usize>> {
    let mut lab: Vec<usize> = (0..n).collect();
    loop {
        let mut ch = false;
        for m in maps { for v in 0..n { let (x, y) = (lab[v], lab[m[v]]); if x != y { let z = x.min(y); lab[v] = z; lab[m[v]] = z; ch = true; } } }
        if !ch { break; }
    }
    let mut cl: Vec<Vec<usize>> = vec![vec![]; n];
    for v in 0..n { cl[lab[v]].push(v); }
    cl.into_iter().filter(|c| !c.is_empty()).collect()
}

// ---- families of nets ---------------------------------------------------------------------------

pub fn r2(e: &[[i64; 4]]) -> Net { Net::new(2, &e.iter().map(|x| (x[0] as u32, x[1] as u32, [x[2], x[3], 0])).collect::<Vec<_>>()) }
pub fn r3(e: &[[i64; 5]]) -> Net { Net::new(3, &e.iter().map(|x| (x[0] as u32, x[1] as u32, [x[2], x[3], x[4]])).collect::<Vec<_>>()) }

/// Nets that are periodic in one direction.
pub fn named1() -> Vec<(&'static str, Net)> {
    let r = |e: &[[i64; 3]]| Net::new(1, &e.iter().map(|x| (x[0] as u32, x[1] as u32, [x[2], 0, 0])).collect::<Vec<_>>());
    vec![
        ("line", r(&[[1, 1, 1]])), ("line12", r(&[[1, 1, 1], [1, 1, 2]])), ("line23", r(&[[1, 1, 2], [1, 1, 3]])), ("line13", r(&[[1, 1, 1], [1, 1, 3]])),
        ("zigzag", r(&[[1, 2, 0], [1, 2, 1], [1, 1, 1]])), ("uneven", r(&[[1, 2, 0], [1, 2, 1], [1, 2, 3]])), ("both", r(&[[1, 2, 0], [1, 2, 1], [1, 1, 1], [2, 2, 1]])),
        ("ring3", r(&[[1, 2, 0], [2, 3, 0], [3, 1, 1], [1, 3, 0]])), ("ring4", r(&[[1, 2, 0], [2, 3, 0], [3, 4, 0], [4, 1, 1], [1, 3, 1]])), ("low", r(&[[1, 2, 0], [2, 1, 1], [1, 1, 2], [2, 3, 0], [3, 3, 1]])),
    ]
}
pub fn named2() -> Vec<(&'static str, Net)> { vec![
    ("sql", r2(&[[1, 1, 1, 0], [1, 1, 0, 1]])),
    ("hxl", r2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 1, 1]])),
    ("hcb", r2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1]])),
    ("kgm", r2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 3, 0, 0], [1, 3, 0, 1], [2, 3, 0, 0], [2, 3, -1, 1]])),
    ("fes", r2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 4, 0, 0], [4, 1, 0, 0], [1, 3, -1, 0], [2, 4, 0, -1]])),
    ("sql-skew", r2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 2, 1]])),
    ("low1", r2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1], [1, 1, 1, 1]])),
    ("low2", r2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 1, 0, 1], [2, 2, 1, 1]])),
    ("dec", r2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 2, 1, 1]])),
    ("edge-centred", r2(&[[1, 2, 0, 0], [2, 1, 1, 0], [1, 3, 0, 0], [3, 1, 0, 1]])),
    ("brick", r2(&[[1, 2, 0, 0], [2, 1, 1, 0], [1, 2, 0, 1]])),
    ("three", r2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 1, 1, 0], [1, 1, 0, 1], [2, 2, 0, 1], [3, 3, 0, 1]])),
    ("pendants", r2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 2, 1, 1], [1, 3, 0, 0], [1, 3, 1, -1]])),
    ("hcb-bridged", r2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 3, 0, 0], [3, 2, 0, 1]])),
    ("ring4", r2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 4, 0, 0], [4, 1, 0, 0], [1, 2, 1, 0], [3, 4, 0, 1]])),
    ("five", r2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 4, 0, 0], [4, 5, 0, 0], [5, 1, 1, 0], [1, 3, 0, 1], [2, 5, 0, -1]])),
] }
pub fn named3() -> Vec<(&'static str, Net)> { vec![
    ("pcu", r3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1]])),
    ("bcu", r3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1], [1, 1, 1, 1, 1]])),
    ("fcu", r3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1], [1, 1, 1, -1, 0], [1, 1, 0, 1, -1], [1, 1, 1, 0, -1]])),
    ("dia", r3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 2, 0, 0, 1]])),
    ("srs", r3(&[[1, 2, 0, 0, 0], [1, 3, 0, 0, 0], [1, 4, 0, 0, 0], [2, 3, 1, 0, 0], [3, 4, 0, 1, 0], [4, 2, 0, 0, 1]])),
    ("cds", r3(&[[1, 2, 0, 0, 0], [1, 2, 0, 0, 1], [1, 1, 1, 0, 0], [2, 2, 0, 1, 0]])),
    ("hex", r3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 1, 1, 0], [1, 1, 0, 0, 1]])),
    ("gra-like", r3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 1, 0, 0, 1], [2, 2, 0, 0, 1]])),
    ("ths-like", r3(&[[1, 2, 0, 0, 0], [1, 3, 0, 0, 0], [2, 4, 0, 0, 0], [1, 3, 1, 0, 0], [2, 4, 0, 1, 0], [3, 4, 0, 0, 1]])),
    ("low3", r3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 1, 0, 1, 0], [2, 2, 0, 1, 1], [1, 1, 0, 0, 1]])),
    ("tri", r3(&[[1, 2, 0, 0, 0], [2, 3, 0, 0, 0], [3, 1, 0, 0, 1], [1, 1, 1, 0, 0], [2, 2, 0, 1, 0], [3, 3, 1, 1, 0]])),
    ("skew3", r3(&[[1, 1, -1, 1, 1], [1, 1, 0, -1, 1], [1, 1, 0, 0, -1]])),
    ("nbo-like", r3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [2, 3, 0, 0, 0], [2, 3, 0, 1, 0], [3, 1, 0, 0, 0], [3, 1, 0, 0, 1]])),
    ("ring6", r3(&[[1, 2, 0, 0, 0], [2, 3, 0, 0, 0], [3, 4, 0, 0, 0], [4, 5, 0, 0, 0], [5, 6, 0, 0, 0], [6, 1, 0, 0, 0],
        [1, 2, 1, 0, 0], [2, 3, 0, 1, 0], [3, 4, 0, 0, 1], [4, 5, -1, 0, 0], [5, 6, 0, -1, 0], [6, 1, 0, 0, -1]])),
] }
pub fn named() -> Vec<(&'static str, Net)> { let mut v = named2(); v.extend(named3()); v }

pub fn half_vectors(d: usize, r: i64) -> Vec<V3> {
    en::box_vectors(d, -r, r).into_iter().map(|v| { let mut x = [0; 3]; x[..d].copy_from_slice(&v); x }).filter(|v| *v != [0; 3] && !is_neg(*v)).collect()
}
pub fn cube_vectors(d: usize, r: i64) -> Vec<V3> {
    let mut v: Vec<V3> = en::box_vectors(d, -r, r).into_iter().map(|v| { let mut x = [0; 3]; x[..d].copy_from_slice(&v); x }).collect();
    v.sort_by_key(|x| (x.iter().map(|a| a.abs()).sum::<i64>(), is_neg(*x), *x)); v
}

/// One vertex, lo..=hi loops out of the half box of radius r.
pub fn fam_one(d: usize, r: i64, lo: usize, hi: usize) -> Vec<Net> {
    let h = half_vectors(d, r);
    (0..en::nsubsets(h.len(), lo, hi)).map(|i| Net::new(d, &en::subset(i, h.len(), lo, hi).iter().map(|&k| (1, 1, h[k])).collect::<Vec<_>>())).collect()
}
/// Two vertices: an edge 1-2 with zero shift, up to kc further cross edges, up to kl loops at each vertex.
pub fn fam_two(d: usize, kc: usize, loops: &[V3], kl: usize) -> Vec<Net> {
    let c: Vec<V3> = cube_vectors(d, 1).into_iter().filter(|v| *v != [0; 3]).collect();
    let (nc, nl) = (en::nsubsets(c.len(), 0, kc), en::nsubsets(loops.len(), 0, kl));
    let mut res = vec![];
    for i in 0..nc { for a in 0..nl { for b in 0..nl {
        let mut raw = vec![(1u32, 2u32, [0; 3])];
        raw.extend(en::subset(i, c.len(), 0, kc).iter().map(|&k| (1, 2, c[k])));
        raw.extend(en::subset(a, loops.len(), 0, kl).iter().map(|&k| (1, 1, loops[k])));
        raw.extend(en::subset(b, loops.len(), 0, kl).iter().map(|&k| (2, 2, loops[k])));
        res.push(Net::new(d, &raw));
    } } }
    res
}
/// Three vertices: for each pair a subset of given shifts, at most one loop of a given list at each vertex.
pub fn fam_three(d: usize, s12: &[V3], s13: &[V3], s23: &[V3], loops: &[V3]) -> Vec<Net> {
    let nl = loops.len() as u64 + 1;
    let rad = [1 << s12.len(), 1 << s13.len(), 1 << s23.len(), nl, nl, nl];
    let mut res = vec![];
    for i in 0..en::product(&rad) {
        let g = en::digits(i, &rad);
        let mut raw: Vec<Raw> = vec![];
        for (x, (a, b, s)) in [(1u32, 2u32, s12), (1, 3, s13), (2, 3, s23)].into_iter().enumerate() {
            for k in 0..s.len() { if g[x] >> k & 1 == 1 { raw.push((a, b, s[k])); } }
        }
        for v in 0..3 { if g[3 + v] > 0 { raw.push((v as u32 + 1, v as u32 + 1, loops[g[3 + v] as usize - 1])); } }
        if raw.is_empty() { continue; }
        res.push(Net::new(d, &raw));
    }
    res
}
/// Supercells of the named nets by all sublattices of index lo..=hi.
pub fn fam_super(nets: &[(&'static str, Net)], lo: i64, hi: i64, maxv: usize) -> Vec<Net> {
    let mut res = vec![];
    for (_, n) in nets { for k in lo..=hi { if n.n() * k as usize > maxv { continue; } for h in hermites(n.d, k) { res.push(n.supercell(&h)); } } }
    res
}
/// Two sheets of each named net with all assignments of straight or crossed edges, with and without rungs.
pub fn fam_sheets2(nets: &[(&'static str, Net)], maxe: usize) -> Vec<Net> {
    let mut res = vec![];
    for (_, n) in nets { if n.edges.len() > maxe { continue; } for x in 0..1u64 << n.edges.len() { for rungs in [true, false] {
        let perm: Vec<Vec<usize>> = (0..n.edges.len()).map(|k| if x >> k & 1 == 1 { vec![1, 0] } else { vec![0, 1] }).collect();
        res.push(n.sheets(2, &perm, rungs));
    } } }
    res
}
/// c sheets with all permutation assignments, no rungs.
pub fn fam_sheets(nets: &[(&'static str, Net)], c: usize, maxe: usize) -> Vec<Net> {
    let ps = en::permutations(c);
    let mut res = vec![];
    for (_, n) in nets { if n.edges.len() > maxe { continue; } for x in 0..(ps.len() as u64).pow(n.edges.len() as u32) {
        let w = en::word(x, ps.len() as u64, n.edges.len());
        res.push(n.sheets(c, &w.iter().map(|&k| ps[k].clone()).collect::<Vec<_>>(), false));
    } }
    res
}

pub fn unimodulars(d: usize) -> Vec<Mat3> {
    // a fixed list: generators of GL(d, Z) and some products
    let mut g: Vec<Mat3> = vec![];
    if d == 1 {
        g.push([[-1, 0, 0], [0, 1, 0], [0, 0, 1]]);
    } else if d == 2 {
        g.push([[0, 1, 0], [1, 0, 0], [0, 0, 1]]); g.push([[1, 1, 0], [0, 1, 0], [0, 0, 1]]);
        g.push([[-1, 0, 0], [0, 1, 0], [0, 0, 1]]); g.push([[2, 1, 0], [1, 1, 0], [0, 0, 1]]);
        g.push([[1, 0, 0], [-3, 1, 0], [0, 0, 1]]); g.push([[0, -1, 0], [1, 1, 0], [0, 0, 1]]);
    } else {
        g.push([[0, 1, 0], [0, 0, 1], [1, 0, 0]]); g.push([[1, 1, 0], [0, 1, 0], [0, 0, 1]]);
        g.push([[-1, 0, 0], [0, 1, 0], [0, 0, 1]]); g.push([[1, 0, 0], [0, 1, 0], [1, -1, 1]]);
        g.push([[1, 2, 1], [0, 1, 1], [0, 0, 1]]); g.push([[1, 0, 2], [1, 1, 2], [0, 1, 1]]);
    }
    g
}
