//! The enumerated families of nets.
use fw::en;
use fw::net::*;
use fw::{Ctx, Space, Tier};

pub type F = fn(&Net, u64, &mut Ctx);

/// Turns a list of nets into a space; the case number is handed on.
pub fn space(name: &str, nets: Vec<Net>, f: F) -> Space {
    Space::new(name, nets.len() as u64, move |i, c| f(&nets[i as usize], i, c))
}

/// The k-th permutation of 1..=n.
pub fn lehmer(mut k: u64, n: usize) -> Vec<u32> {
    let mut rest: Vec<u32> = (1..=n as u32).collect();
    (0..n as u64).map(|i| { let m = n as u64 - i; let x = rest.remove((k % m) as usize); k /= m; x }).collect()
}
/// Every numbering of the vertices of each net with up to four, some numberings of larger ones.
pub fn renumbered(v: Vec<Net>, most: u64) -> Vec<Net> {
    let mut r = vec![];
    for n in v { let all: u64 = (1..=n.n() as u64).product();
        let step = (all / most).max(1) | 1;
        for k in 0..all.min(most) { r.push(n.relabel(&lehmer(k * step % all, n.n()))); } }
    r
}
pub fn id_scheme(k: u64, n: usize) -> Vec<u32> {
    match k % 7 {
        0 => (1..=n as u32).collect(),
        1 => (1..=n as u32).rev().collect(),
        2 => (0..n as u32).map(|i| (i * 7919 + 3) % 10007).collect(),
        3 => (0..n as u32).map(|i| if i % 2 == 0 { 4_000_000_000 - i } else { i / 2 }).collect(),
        4 => lehmer(k / 7 * 5 + 1, n),
        5 => lehmer(k.wrapping_mul(2654435761), n),
        _ => lehmer(k / 7, n).into_iter().map(|i| 3 * i - 1).collect(),
    }
}
/// Moves the vertices to other cells, changes the lattice basis and renames the vertices, depending on k.
pub fn scramble(n: &Net, k: u64) -> Net {
    if k % 3 == 0 { return n.clone(); }
    let g: Vec<V3> = (0..n.n() as u64).map(|i| { let mut v = [0; 3];
        for j in 0..n.d as u64 { v[j as usize] = ((i * 5 + j * 3 + k * 7 + i * j) % 5) as i64 - 2; } v }).collect();
    let us = unimodulars(n.d);
    let m = if k % 2 == 0 { I3 } else { us[(k / 6) as usize % us.len()] };
    n.gauge(&g).basis(&m).relabel(&id_scheme(k / 3, n.n()))
}
pub fn scrambled(v: Vec<Net>) -> Vec<Net> { v.into_iter().enumerate().map(|(i, n)| if n.n() == 0 { n } else { scramble(&n, i as u64) }).collect() }

const Z: V3 = [0; 3];

/// Small graphs, no condition imposed (connected or not, stable or not).
pub fn small(t: Tier) -> Vec<(&'static str, Vec<Net>)> {
    let l2 = half_vectors(2, 1);
    let ax3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    let ax3b = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 1]];
    vec![
        ("one vertex, plane", fam_one(2, 2, 1, t.pick(3, 4))),
        ("two vertices, plane", fam_two(2, t.pick(2, 3), &l2, t.pick(1, 2))),
        ("three vertices, plane", fam_three(2, &[Z, [1, 0, 0]], &[Z, [0, 1, 0]], &[Z, [1, -1, 0], [0, 1, 0]], &[[1, 0, 0], [0, 1, 0], [1, 1, 0]])),
        ("one vertex, space", fam_one(3, 1, t.pick(3, 2), t.pick(3, 5))),
        ("two vertices, space", fam_two(3, t.pick(2, 3), if t == Tier::Quick { &ax3 } else { &ax3b }, 1)),
        ("three vertices, space", fam_three(3, &[Z, [1, 0, 0]], &[Z, [0, 1, 0], [0, 1, 1]], &[Z, [0, 0, 1]], if t == Tier::Quick { &ax3[1..] } else { &ax3 })),
        ("periodic in one direction", line(t)),
    ]
}
/// Nets that are periodic in one direction, with labels of one coordinate.
pub fn line(t: Tier) -> Vec<Net> {
    let v = |x: i64| [x, 0, 0];
    let mut r = [fam_one(1, t.pick(5, 7), 1, t.pick(3, 4)), fam_two(1, 2, &half_vectors(1, 2), t.pick(1, 2)),
        fam_three(1, &[Z, v(1)], &[Z, v(1), v(-1)], &[Z, v(2)], &[v(1), v(2)][..t.pick(1, 2)]),
        fam_super(&named1(), 2, t.pick(6, 12), t.pick(12, 24)), fam_sheets2(&named1(), 6), fam_sheets(&named1(), 3, t.pick(3, 4))].concat();
    let s = fam_super(&named1(), 2, 3, 8);
    for n in &s { if n.edges.len() <= t.pick(6, 9) { r.extend(fam_sheets2(&[("", n.clone())], 9)); } }
    r.extend(renumbered(thin(s, 2), t.pick(6, 24)));
    r
}
pub fn supers(t: Tier) -> Vec<Net> {
    let mut v = fam_super(&named2(), 2, t.pick(4, 6), t.pick(12, 24));
    v.extend(fam_super(&named3(), 2, t.pick(2, 4), t.pick(8, 16)));
    v
}
pub fn sheets(t: Tier) -> Vec<Net> {
    let mut v = fam_sheets2(&named2(), t.pick(6, 7));
    v.extend(fam_sheets2(&named3(), t.pick(5, 6)));
    v
}
pub fn sheets3(t: Tier) -> Vec<Net> {
    let mut v = fam_sheets(&named2(), 3, t.pick(3, 4));
    v.extend(fam_sheets(&named3(), 3, t.pick(3, 4)));
    v
}
pub fn plain_named() -> Vec<Net> { named().into_iter().map(|x| x.1).collect() }

/// A map of a periodic vertex set: vertex, matrix, cell the vertex goes to.
#[derive(Clone)]
struct Motion { perm: Vec<usize>, m: Mat3, tr: Vec<V3> }
/// All images of the seed edges, if there are no more than `most`.
fn closure(d: usize, gens: &[Motion], seeds: &[(usize, usize, V3)], most: usize) -> Option<Net> {
    let mut all: Vec<(usize, usize, V3)> = vec![];
    let mut todo: Vec<(usize, usize, V3)> = seeds.to_vec();
    while let Some(e) = todo.pop() {
        let e = canon(e);
        if e.0 == e.1 && e.2 == Z { return None; }
        if all.contains(&e) { continue; }
        all.push(e);
        if all.len() > most { return None; }
        for g in gens { todo.push((g.perm[e.0], g.perm[e.1], sub(add(mv(&g.m, e.2), g.tr[e.1]), g.tr[e.0]))); }
    }
    let mut vs: Vec<usize> = all.iter().flat_map(|e| [e.0, e.1]).collect(); vs.sort(); vs.dedup();
    if vs.len() != gens[0].perm.len() { return None; }
    Some(Net::new(d, &all.iter().map(|&(a, b, s)| (a as u32 + 1, b as u32 + 1, s)).collect::<Vec<_>>()))
}
/// Nets made from one or two edges by a group of motions: rotations and mirrors, chiral ones among them, and screws.
pub fn orbital(t: Tier) -> Vec<Net> {
    let d2 = |a: i64, b: i64, c: i64, d: i64| -> Mat3 { [[a, b, 0], [c, d, 0], [0, 0, 1]] };
    let z = |m: Mat3, k: i64| -> Mat3 { let mut m = m; m[2][2] = k; m };
    let c3: Mat3 = [[0, 0, 1], [1, 0, 0], [0, 1, 0]];
    let minus: Mat3 = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]];
    let (r3, r4, r6, sw, mi) = (d2(0, -1, 1, -1), d2(0, -1, 1, 0), d2(1, -1, 1, 0), d2(0, 1, 1, 0), d2(1, 0, 0, -1));
    let two: Mat3 = [[1, 0, 0], [0, -1, 0], [0, 0, -1]];
    let groups: Vec<(usize, Vec<Mat3>)> = vec![
        (2, vec![r3]), (2, vec![r4]), (2, vec![r6]), (2, vec![d2(-1, 0, 0, -1)]), (2, vec![sw]), (2, vec![mi]), (2, vec![r3, sw]), (2, vec![r4, sw]), (2, vec![mi, d2(-1, 0, 0, 1)]),
        (3, vec![c3]), (3, vec![mm(&minus, &c3)]), (3, vec![z(r4, 1)]), (3, vec![z(r4, -1)]), (3, vec![z(r3, 1)]), (3, vec![z(r6, 1)]), (3, vec![z(r3, -1)]), (3, vec![c3, two]), (3, vec![two]), (3, vec![minus]), (3, vec![z(sw, -1), z(r4, 1)]), (3, vec![c3, mm(&minus, &z(sw, 1))]), (3, vec![c3, z(r4, 1)]),
    ];
    let mut v = vec![];
    let (most, cap) = (t.pick(15, 18), t.pick(24, 40));
    for (d, ms) in &groups {
        let mut acts: Vec<Vec<Motion>> = vec![];
        // vertices are the orbit of a vector
        for u in [[1i64, 0, 0], [1, 1, if *d == 3 { 1 } else { 0 }], [1, 3, if *d == 3 { 7 } else { 0 }], [0; 3]] {
            let mut o: Vec<V3> = vec![u];
            let mut i = 0; while i < o.len() { for m in ms { let x = mv(m, o[i]); if !o.contains(&x) { o.push(x); } } i += 1; }
            if o.len() > 8 { continue; }
            let at = |x: V3| o.iter().position(|y| *y == x).unwrap();
            let g: Vec<Motion> = ms.iter().map(|m| Motion { perm: o.iter().map(|&x| at(mv(m, x))).collect(), m: *m, tr: vec![Z; o.len()] }).collect();
            // with one more, fixed, vertex
            let h: Vec<Motion> = g.iter().map(|m| { let mut m = m.clone(); let k = m.perm.len(); m.perm.push(k); m.tr.push(Z); m }).collect();
            acts.push(g); if o.len() > 1 && o.len() < 7 { acts.push(h); }
        }
        // cyclic action on any number of vertices, with a screw or glide part
        if ms.len() == 1 { for k in 2..=t.pick(4usize, 6) { for tr in [Z, [1, 0, 0], if *d == 3 { [0, 0, 1] } else { [1, 1, 0] }] {
            acts.push(vec![Motion { perm: (0..k).map(|i| (i + 1) % k).collect(), m: ms[0], tr: (0..k).map(|i| if i + 1 == k { tr } else { Z }).collect() }]);
        } } }
        for gens in acts {
            let n = gens[0].perm.len();
            let cv = cube_vectors(*d, 1);
            let hv: Vec<V3> = half_vectors(*d, 1).into_iter().chain([[2, 1, 0], [1, -2, if *d == 3 { 1 } else { 0 }]]).collect();
            let mut seeds: Vec<Vec<(usize, usize, V3)>> = vec![];
            for (i, &a) in hv.iter().enumerate() { seeds.push(vec![(0, 0, a)]); for &b in &hv[i + 1..] { seeds.push(vec![(0, 0, a), (0, 0, b)]); if n > 1 { for j in 1..n { seeds.push(vec![(0, 0, a), (0, j, b)]); seeds.push(vec![(0, j, Z), (n - 1, n - 1, a)]); seeds.push(vec![(0, 0, a), (0, j, Z), (0, j, b)]); } } } }
            for j in 1..n { for &b in &cv { seeds.push(vec![(0, j, b)]); seeds.push(vec![(0, j, Z), (0, j, b)]); for k in 1..n { seeds.push(vec![(0, j, Z), (0, k, b)]); seeds.push(vec![(0, j, Z), (j, k, b), (0, n - 1, cv[(j + k) % cv.len()])]); } } }
            let nets: Vec<Net> = seeds.iter().filter_map(|s| closure(*d, &gens, s, most)).filter(|n| n.connected() && n.locally_stable()).collect();
            let step = (nets.len() + cap - 1) / cap;
            let mut seen: Vec<Vec<Raw>> = vec![];
            for n in nets.into_iter().step_by(step.max(1)) { let mut r = n.raw(); r.sort(); if !seen.contains(&r) { seen.push(r); v.push(n); } }
        }
    }
    v
}
/// Families for symmetry questions. The callers skip what is not connected or not locally stable.
pub fn symmetric(t: Tier) -> Vec<(&'static str, Vec<Net>)> {
    let mut v = small(t);
    v.push(("named nets and their supercells", { let mut x = plain_named(); x.extend(supers(t)); x }));
    v.push(("two-sheet covers of named nets", sheets(t)));
    v.push(("renumbered nets", { let mut x = plain_named(); x.extend(fam_super(&named2(), 2, 3, 4)); x.extend(fam_super(&named3(), 2, 2, 4)); renumbered(x, t.pick(24, 120)) }));
    v.push(("three-sheet covers of named nets", sheets3(t)));
    v.push(("orbits of edges under groups", orbital(t)));
    v
}
/// The net with a further loop at a vertex, which leaves the positions as they are.
pub fn marked(n: &Net, v: usize, s: V3) -> Net { let mut raw = n.raw(); raw.push((n.ids[v % n.n()], n.ids[v % n.n()], s)); Net::new(n.d, &raw) }
/// Supercells of high index, as they are and with one or two vertices marked by loops (which leaves no or few translations).
pub fn large(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    let mut add = |n: &Net, ks: &[i64], most: usize| for &k in ks {
        let hs = hermites(n.d, k);
        let step = (hs.len() + most - 1) / most;
        for (i, h) in hs.iter().enumerate().skip(k as usize % step).step_by(step) {
            let s = n.supercell(h);
            if i % 2 == 1 { v.push(marked(&s, i, [1, 1, 0])); }
            if i % 3 == 2 { v.push(marked(&marked(&s, i, [0, 1, 0]), i / 2 + s.n() / 2, [0, 1, 0])); }
            v.push(s);
        }
    };
    let m = t.pick(1, 3);
    let (a, b) = (named2(), named3());
    for (j, (_, n)) in a.iter().enumerate() { let top = t.pick(24, 40) / n.n() as i64; if top > 4 { add(n, &[top, top - 1, top - 1 - j as i64 % 3], 2 * m); } }
    for (j, (_, n)) in b.iter().enumerate() { let top = t.pick(16, 27) / n.n() as i64; if top > 2 { add(n, &[top, top - j as i64 % 2], 2 * m); } }
    v
}
/// Supercells with some hundred or more translations, one vertex or every other line of vertices marked or not.
pub fn huge(t: Tier) -> Vec<Net> {
    let (a, b) = (named2(), named3());
    let mut v = vec![];
    let diag = |x: i64, y: i64, z: i64| -> Mat3 { [[x, 0, 0], [0, y, 0], [0, 0, z]] };
    let mut add = |n: &Net, h: &Mat3, marks: &[usize]| { let s = n.supercell(h); for &m in marks { let mut x = s.clone();
        // every m-th vertex in lexicographic order is marked by a loop
        if m > 0 { for i in (0..s.n()).step_by(m) { x = marked(&x, i, [2, 2, if n.d == 3 { 2 } else { 0 }]); } } v.push(x); } };
    add(&b[0].1, &diag(3, 3, 3), &[0]);
    for (j, m) in t.pick(vec![(2usize, 6i64)], vec![(2, 7), (0, 10), (0, 11)]) { let h = diag(m, m, 1); add(&a[j].1, &h, &[0]); }
    add(&a[0].1, &diag(70, 1, 1), &[0, 35, 70]);
    add(&a[0].1, &diag(2, 36, 1), &[0, 36, 12]);
    add(&a[1].1, &diag(1, 96, 1), &[0, 48]);
    add(&b[0].1, &diag(66, 1, 1), &[0, 33]);
    if t == Tier::Thorough { add(&b[0].1, &diag(4, 4, 4), &[0, 8]); add(&b[3].1, &diag(3, 3, 3), &[0]); add(&a[0].1, &diag(130, 1, 1), &[0, 65]); add(&a[0].1, &diag(260, 1, 1), &[0, 130]); }
    // numbered so that the vertices next to the first one in its class come last
    let w: Vec<Net> = v.iter().map(|n| { let m = n.n() as u32; n.relabel(&(0..m).map(|i| if i == 0 { 1 } else if i * 2 == m { m } else if i * 2 < m { i + 1 } else { i }).collect::<Vec<_>>()) }).collect();
    [v, w].concat()
}
/// Supercells with many points of one translation orbit, numbered in various orders: the first few may all lie on a line or in a plane.
pub fn orders(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    let mut add = |n: &Net, k: i64, keep: usize, most: usize| {
        let hs: Vec<Mat3> = hermites(n.d, k);
        // those with the largest common factor first: their quotient needs the most generators
        let mut hs: Vec<Mat3> = hs; hs.sort_by_key(|h| { let mut g = 0; for r in h { for x in r { g = en_gcd(g.max(x.abs()), g.min(x.abs())); } } -g });
        for (i, h) in hs.iter().enumerate().filter(|(i, _)| *i < keep || i % (hs.len() / most + 1) == 0) {
            let s = n.supercell(h); let m = s.n();
            for w in 0..4usize {
                let p: Vec<u32> = match w { 0 => (1..=m as u32).collect(), 1 => (1..=m as u32).rev().collect(),
                    2 => { let q = (2..m).find(|q| en_gcd(*q as i64, m as i64) == 1 && q * q > m).unwrap_or(1); (0..m).map(|i| (i * q % m) as u32 + 1).collect() }
                    _ => lehmer((i as u64 * 2 + 1).wrapping_mul(2654435761), m) };
                v.push(s.relabel(&p));
            }
        }
    };
    let (a, b) = (named2(), named3());
    for j in [0, 1, 2] { for k in t.pick(vec![4i64, 8, 9, 12, 16], vec![4, 6, 8, 9, 12, 16, 18, 25, 27]) { if a[j].1.n() * k as usize <= t.pick(18, 36) { add(&a[j].1, k, 1, t.pick(3, 12)); } } }
    for j in 0..3 { for k in t.pick(vec![8i64], vec![4, 8, 12, 16, 27]) { if b[j].1.n() * k as usize <= t.pick(8, 27) { add(&b[j].1, k, 1, t.pick(6, 40)); } } }
    v
}
/// All of them, each in a scrambled presentation.
pub fn spaces(fams: Vec<(&'static str, Vec<Net>)>, f: F) -> Vec<Space> {
    fams.into_iter().map(|(n, v)| space(n, scrambled(v), f)).collect()
}
/// Every k-th net of a family.
pub fn thin(v: Vec<Net>, k: usize) -> Vec<Net> { v.into_iter().step_by(k).collect() }
pub fn thinned(f: Vec<(&'static str, Vec<Net>)>, max: usize) -> Vec<(&'static str, Vec<Net>)> {
    f.into_iter().map(|(n, v)| { let k = (v.len() + max - 1) / max; (n, if k > 1 { thin(v, k) } else { v }) }).collect()
}
/// A two-terminal series-parallel graph closed to a plane graph with exactly `t` spanning trees:
/// (t, f) grows by parallel (t + f, f) and series (t, t + f) steps; run backwards from (t, f).
pub fn with_trees(t: i64, f: i64, d: usize) -> Net {
    let (mut a, mut b) = (t, f);
    let mut steps = vec![];
    // base: one edge has t = 1, f = 1
    while a != 1 || b != 1 {
        if a > b { a -= b; steps.push(true); } else { b -= a; steps.push(false); }
        assert!(a > 0 && b > 0);
    }
    let mut raw: Vec<Raw> = vec![(1, 2, Z)];
    let (src, mut sink, mut next, mut k) = (1u32, 2u32, 3u32, 1i64);
    for par in steps.into_iter().rev() {
        if par { let mut s = Z; s[(k as usize) % d] = k; raw.push((src, sink, s)); k += 1; }
        else { raw.push((sink, next, Z)); sink = next; next += 1; }
    }
    Net::new(d, &raw)
}
pub fn chains(t: Tier) -> Vec<Net> {
    // rings with chords
    let mut v = vec![];
    for n in 3..=t.pick(12u32, 20) { for j in 2..n { for d in 2..=3usize {
        let mut raw: Vec<Raw> = (1..=n).map(|i| (i, i % n + 1, if i == n { [1, 0, 0] } else { Z })).collect();
        raw.push((1, j, [0, 1, 0])); raw.push((j, n, if d == 3 { [0, 0, 1] } else { [2, -3, 0] }));
        v.push(Net::new(d, &raw));
    } } }
    v
}
pub fn tree_counts(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    let primes = [9999991i64, 9999973, 2 * 9999991];
    for p in primes { for k in 0..t.pick(6, 40) {
        let f = ((p as f64) * 0.6180339887) as i64 + k;
        if en_gcd(p, f) == 1 { for d in 2..=3 { v.push(with_trees(p, f, d)); } }
    } }
    v
}
fn en_gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { en_gcd(b, a % b) } }
#[allow(dead_code)]
pub fn nwords(b: u64, n: usize) -> u64 { en::nwords(b, n) }
