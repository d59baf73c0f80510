//! C11, C42: histories of queries and updates.
use crate::adapt::*;
use crate::fams::*;
use fw::en;
use fw::net::*;
use fw::{Check, Ctx, Space, Tier};
use rust_systre::partitions::Partition;
use rust_systre::pgraphs::*;
use rust_systre::symmetries as sy;
use std::collections::HashMap;
use std::hash::Hash;

// ---- C11 --------------------------------------------------------------------------------------

enum Ans<T: Lab> { Text(String), Syms(Vec<Automorphism<T, W>>) }
fn same<T: Lab>(a: &Ans<T>, b: &Ans<T>) -> bool {
    match (a, b) {
        (Ans::Text(x), Ans::Text(y)) => x == y,
        // the order of the list is not specified
        (Ans::Syms(x), Ans::Syms(y)) => x.len() == y.len() && { let mut used = vec![false; y.len()];
            x.iter().all(|a| match (0..y.len()).find(|&j| !used[j] && y[j] == *a) { Some(j) => { used[j] = true; true } None => false }) },
        _ => false,
    }
}
fn show<T: Lab>(a: &Ans<T>) -> String { match a { Ans::Text(s) => s.clone(), Ans::Syms(s) => format!("{} symmetries", s.len()) } }

/// (number of queries that need no symmetry, total)
fn nops(n: &Net, adm: bool, stable: bool) -> usize { let base = 17; if !adm { base } else if stable || n.n() == 0 { base + 8 } else { base + 5 } }

fn ask<T: Lab>(n: &Net, g: &G<T>, op: usize) -> Ans<T> {
    let last = *n.ids.last().unwrap();
    let first = n.ids[0];
    let e = dir_edge::<T>(n, 0);
    let e2 = dir_edge::<T>(n, 2 * n.edges.len() - 1);
    let raws = |v: Vec<E<T>>| format!("{:?}", v.iter().map(unedge).collect::<Vec<_>>());
    Ans::Text(match op {
        0 => format!("{:?}", g.vertices()),
        1 => raws(g.directed_edges()),
        2 => raws(g.incidences(&first)),
        3 => raws(g.incidences(&last)),
        4 => format!("{}", g.position(&last)),
        5 => format!("{}", g.position(&first)),
        6 => format!("{}", g.position_normalized(&last)),
        7 => format!("{}", g.edge_vector(&e)),
        8 => format!("{:?}", g.edge_by_unique_delta(&e.head, &vecq::<T>(&vector(n, 0))).map(|x| unedge(&x))),
        9 => format!("{:?}", g.edge_by_unique_delta(&e2.head, &vecq::<T>(&vector(n, 2 * n.edges.len() - 1))).map(|x| unedge(&x))),
        10 => format!("{}", g.is_stable()),
        11 => format!("{}", g.is_locally_stable()),
        12 => format!("{}", g.has_second_order_collisions()),
        13 => format!("{:?}", g.coordination_sequence(&last).take(3).collect::<Vec<_>>()),
        14 => derived(&g.shift_normalized()),
        15 => format!("{} {:?}", g.is_connected(), graph_component_measures(g, &last)),
        16 => format!("{}", g),
        17 => return Ans::Syms(g.symmetries()),
        18 => format!("{:?}", sets(&g.vertex_orbits())),
        19 => format!("{:?}", sorted(g.edge_orbits().iter().map(|o| sorted(o.iter().map(|e| unedge(&e.canonical())).collect::<Vec<_>>())).collect::<Vec<_>>())),
        20 => format!("{}", sy::is_ladder(g)),
        21 => return Ans::Syms(sy::ladder_symmetries(g)),
        22 => format!("{:?}", sets(&sy::translational_orbits(g))),
        23 => format!("{}", sy::is_minimal(g)),
        _ => format!("{}", sy::minimal_image::<T, T, W, W>(g).map(|m| derived(&m)).unwrap_or("none".into())),
    })
}
/// What a graph made from another one says about itself.
fn derived<T: Lab>(g: &G<T>) -> String {
    let mut s = format!("{}", g);
    let (_, _, m) = graph_component_measures(g, &g.vertices()[0]);
    s += &format!(" multiplicity {:?}", m);
    let net = crate::adapt::read(g);
    if !net.quotient_connected() { return s; }
    for v in g.vertices() { s += &format!("; {} {} {} {:?}", v, g.position(&v), g.position_normalized(&v), g.incidences(&v).iter().map(unedge).collect::<Vec<_>>()); }
    for e in g.directed_edges() { s += &format!("; {} {}", g.edge_vector(&e), g.edge_vector(&-&e)); }
    s + &format!("; {} {} {}", g.is_stable(), g.is_locally_stable(), g.has_second_order_collisions())
}
fn vector(n: &Net, k: usize) -> Vec<fw::q::Q> {
    let p = n.positions();
    let (h, t, s) = n.dirs()[k];
    (0..n.d).map(|i| p[t][i] - p[h][i] + fw::q::Q::int(s[i] as i128)).collect()
}

fn history<T: Lab>(n: &Net, word: &[usize], fresh: &[Ans<T>], c: &mut Ctx) {
    let g = graph::<T>(&n.raw());
    let mut held: Vec<(usize, Ans<T>)> = vec![];
    // an iterator and an incidence list taken at the start must survive everything that follows
    let mut it = g.coordination_sequence(&n.ids[0]);
    let s0: Vec<usize> = n.shells(0, word.len() + 1);
    let mut asked = 0u64;
    for (k, &op) in word.iter().enumerate() {
        let a = ask(n, &g, op);
        c.transitions(1);
        if !c.check(same(&a, &fresh[op]), &|| format!("{:?}: after queries {:?} query {} answers {}, a fresh graph {}", n, &word[..k], op, show(&a), show(&fresh[op]))) { return; }
        held.push((op, a));
        asked |= 1 << op;
        c.state(&(n, asked));
        let x = it.next();
        if !c.check(x == Some(s0[k]), &|| format!("{:?}: running coordination sequence gives {:?} after queries {:?}", n, x, &word[..k + 1])) { return; }
    }
    for (op, a) in &held { if !c.check(same(a, &fresh[*op]), &|| format!("{:?}: answer to query {} changed later in {:?}: {}", n, op, word, show(a))) { return; } }
    c.traces(1);
}

fn histories<T: Lab>(n: &Net, len: usize, first: usize, c: &mut Ctx) {
    let adm = n.connected() && n.locally_stable();
    let k = nops(n, adm, n.stable());
    if first >= k { return; }
    // each answer from a graph that has answered nothing else
    let fresh: Vec<Ans<T>> = (0..k).map(|op| ask(n, &graph::<T>(&n.raw()), op)).collect();
    let total = (k as u64).pow(len as u32 - 1);
    for w in 0..total {
        let mut word = vec![first]; word.extend(en::word(w, k as u64, len - 1));
        history(n, &word, &fresh, c);
        if c.failed() { return; }
    }
    c.evals(total);
    for w in 0..total.min(4096) { c.nontrivial(&(n, first, w)); }
    c.outcome(&format!("{} queries, histories of length {}", k, len));
    c.sample(|| format!("{:?}: {} histories starting with query {}", n, total, first));
}

/// The queries about a vertex or an edge, one for each.
fn nparts(n: &Net) -> usize { 4 * n.n() + 2 * 2 * n.edges.len() }
fn part<T: Lab>(n: &Net, g: &G<T>, q: usize, ev: &[Vec<fw::q::Q>]) -> String {
    let k = n.n();
    if q < 4 * k { let v = &n.ids[q / 4];
        return match q % 4 { 0 => format!("{}", g.position(v)), 1 => format!("{}", g.position_normalized(v)),
            2 => format!("{:?}", g.incidences(v).iter().map(unedge).collect::<Vec<_>>()),
            _ => format!("{:?}", g.coordination_sequence(v).take(2).collect::<Vec<_>>()) }; }
    let r = q - 4 * k;
    if r % 2 == 0 { format!("{}", g.edge_vector(&dir_edge::<T>(n, r / 2))) }
    else { format!("{:?}", g.edge_by_unique_delta(&dir_edge::<T>(n, r / 2).head, &vecq::<T>(&ev[r / 2])).map(|x| unedge(&x))) }
}
/// All pairs of such queries, and all of them in several orders, twice over.
fn parts<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if n.n() == 0 || !n.quotient_connected() { c.outcome("quotient not connected"); return; }
    let m = nparts(n);
    let ev: Vec<Vec<fw::q::Q>> = (0..2 * n.edges.len()).map(|k| vector(n, k)).collect();
    let fresh: Vec<String> = (0..m).map(|q| part(n, &graph::<T>(&n.raw()), q, &ev)).collect();
    let mut words: Vec<Vec<usize>> = vec![];
    if m <= 60 { for a in 0..m { for b in 0..m { words.push(vec![a, b, a]); } } }
    for w in 0..6usize { let one: Vec<usize> = match w { 0 => (0..m).collect(), 1 => (0..m).rev().collect(),
        2 => { let s = (2..m).find(|s| gcd(*s, m) == 1 && s * s > m).unwrap_or(1); (0..m).map(|i| i * s % m).collect() }
        3 => (0..m).filter(|q| *q < 4 * n.n() && q % 4 < 2).collect(),
        4 => (0..m).filter(|q| *q >= 4 * n.n()).rev().collect(),
        _ => (0..m).step_by(2).chain((1..m).step_by(2).rev()).collect() };
        words.push(one.iter().chain(one.iter()).cloned().collect()); }
    for w in &words {
        let g = graph::<T>(&n.raw());
        let mut asked: Vec<u64> = vec![0; m / 64 + 1];
        for (k, &q) in w.iter().enumerate() {
            let a = part(n, &g, q, &ev);
            c.transitions(1);
            asked[q / 64] |= 1 << (q % 64);
            c.state(&(n, &asked));
            if !c.check(a == fresh[q], &|| format!("{:?}: after {} other queries query {} answers {}, a fresh graph {} (queries {:?})", n, k, q, a, fresh[q], &w[..k.min(20)])) { return; }
        }
        c.traces(1);
    }
    c.evals(words.len() as u64);
    c.nontrivial(&(n, "parts"));
    c.outcome(&format!("{} queries about parts", m / 20 * 20));
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
/// Two queries in turn, many times, followed by each other query.
fn alternating<T: Lab>(n: &Net, a: usize, step: usize, c: &mut Ctx) {
    let k = nops(n, n.connected() && n.locally_stable(), n.stable());
    if a >= k { return; }
    let fresh: Vec<Ans<T>> = (0..k).map(|op| ask(n, &graph::<T>(&n.raw()), op)).collect();
    for b in (a % step..k).step_by(step) {
        let mut word: Vec<usize> = (0..10).map(|i| if i % 2 == 0 { a } else { b }).collect();
        word.extend((0..k).map(|i| (i + b) % k));
        word.extend((0..k).map(|i| (a + k - i) % k));
        history(n, &word, &fresh, c);
        if c.failed() { return; }
        c.nontrivial(&(n, "turns", a, b));
    }
    c.evals(k as u64);
    c.outcome("long histories");
}

fn c11(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let nets: Vec<Net> = scrambled(vec![
        named2()[2].1.clone(), named2()[6].1.clone(), named3()[5].1.clone(), named2()[0].1.supercell(&[[2, 0, 0], [0, 1, 0], [0, 0, 1]]),
        named2()[0].1.sheets(2, &[vec![1, 0], vec![0, 1]], true), named2()[3].1.clone(), named2()[15].1.clone(),
        r2(&[[1, 1, 2, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 2, 1, 1], [2, 3, 0, 0]]), // a pendant vertex and a doubled lattice
        r2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 2, 0, 0], [1, 3, 0, 0]]), // coinciding vertices, not locally stable
    ]);
    let l = t.pick(3, 4);
    let short = t.pick(2, 3);
    let n1: Vec<(Net, usize, usize)> = nets.iter().enumerate().flat_map(|(i, n)| (0..25).map(move |f| (n.clone(), if (if t == Tier::Quick { i == 1 || i >= 7 } else { i < 4 || i >= 7 }) { l } else { short }, f))).collect();
    v.push(Space::list("all query histories", n1, |x, c| if x.0.d == 2 { histories::<L2>(&x.0, x.1, x.2, c) } else { histories::<L3>(&x.0, x.1, x.2, c) }));
    let mut more = plain_named(); more.extend(supers(Tier::Quick).into_iter().filter(|n| n.n() <= 4)); more.extend(sheets(Tier::Quick).into_iter().filter(|n| n.n() <= 4));
    if t == Tier::Quick { more = thin(more, 40); }
    let n2: Vec<(Net, usize)> = scrambled(more).into_iter().filter(|n| n.quotient_connected()).flat_map(|n| (0..25).map(move |f| (n.clone(), f))).collect();
    v.push(Space::list("all pairs of queries on further nets", n2, |x, c| if x.0.d == 2 { histories::<L2>(&x.0, 2, x.1, c) } else { histories::<L3>(&x.0, 2, x.1, c) }));
    let n3: Vec<(Net, usize)> = nets.iter().flat_map(|n| (0..25).map(move |f| (n.clone(), f))).collect();
    let step = t.pick(8, 1);
    v.push(Space::list("long histories of two queries in turn, then all", n3, move |x, c| if x.0.d == 2 { alternating::<L2>(&x.0, x.1, step, c) } else { alternating::<L3>(&x.0, x.1, step, c) }));
    v.push(space("queries about every vertex and edge", scrambled([plain_named(), thin(supers(t), t.pick(8, 1)), thin(sheets(t), t.pick(8, 1)), thin(large(t), t.pick(12, 1)), thin(orbital(t), t.pick(12, 2))].concat()), crate::disp!(parts)));
    v
}

// ---- C42 --------------------------------------------------------------------------------------

/// The reference partition: a label per element.
#[derive(Clone, Hash, PartialEq, Eq)]
struct Model(Vec<usize>);
impl Model {
    fn new(n: usize) -> Model { Model((0..n).collect()) }
    fn unite(&mut self, a: usize, b: usize) { let (x, y) = (self.0[a], self.0[b]); let m = x.min(y); for l in self.0.iter_mut() { if *l == x || *l == y { *l = m } } }
    fn classes(&self, list: &[usize]) -> Vec<Vec<usize>> {
        let mut res: Vec<Vec<usize>> = vec![];
        for &e in list { match res.iter_mut().find(|c| self.0[c[0]] == self.0[e]) { Some(c) => c.push(e), None => res.push(vec![e]) } }
        res
    }
}

fn audit<X: Clone + Eq + Hash + std::fmt::Debug>(p: &Partition<X>, m: &Model, el: &[X], hist: &dyn Fn() -> String, c: &mut Ctx) -> bool {
    let reps: Vec<X> = el.iter().map(|x| p.find(x)).collect();
    for i in 0..el.len() {
        // a representative represents itself and is an element of the class
        let r = el.iter().position(|x| *x == reps[i]);
        if !c.check(r.map_or(false, |r| m.0[r] == m.0[i]), &|| format!("after {}: representative of {:?} is {:?}", hist(), el[i], reps[i])) { return false; }
        for j in 0..i { if !c.check((reps[i] == reps[j]) == (m.0[i] == m.0[j]), &|| format!("after {}: {:?} and {:?} have representatives {:?} and {:?}", hist(), el[i], el[j], reps[i], reps[j])) { return false; } }
    }
    true
}
fn list_ok<X: Clone + Eq + Hash + std::fmt::Debug>(p: &Partition<X>, m: &Model, el: &[X], order: &[usize], hist: &dyn Fn() -> String, c: &mut Ctx) -> bool {
    let got = p.classes(&order.iter().map(|&i| el[i].clone()).collect::<Vec<_>>());
    let want: Vec<Vec<X>> = m.classes(order).iter().map(|k| k.iter().map(|&i| el[i].clone()).collect()).collect();
    c.check(got == want, &|| format!("after {}: classes of {:?} are {:?}, expected {:?}", hist(), order, got, want))
}

fn part_word<X: Clone + Eq + Hash + std::fmt::Debug>(el: &[X], word: &[usize], c: &mut Ctx) {
    let n = el.len();
    let mut p: Partition<X> = Partition::new();
    let mut m = Model::new(n);
    let mut last: HashMap<usize, X> = HashMap::new();
    let hist = || format!("{:?} over {} elements", word, n);
    c.state(&m);
    for &op in word {
        c.transitions(1);
        if op < n * n { let (a, b) = (op / n, op % n); p.unite(&el[a], &el[b]); m.unite(a, b); last.clear(); }
        else if op < n * n + n {
            let a = op - n * n;
            let r = p.find(&el[a]);
            // queries do not change the partition: representatives stay until the next union
            if let Some(x) = last.get(&a) { if !c.check(*x == r, &|| format!("after {}: representative of {:?} changed without a union", hist(), el[a])) { return; } }
            last.insert(a, r);
        } else {
            let order: Vec<usize> = if op == n * n + n { (0..n).collect() } else { (0..n).rev().filter(|x| x % 2 == 1).collect() };
            if !list_ok(&p, &m, el, &order, &hist, c) { return; }
        }
        c.state(&m);
    }
    if !list_ok(&p, &m, el, &(0..n).rev().collect::<Vec<_>>(), &hist, c) { return; }
    if !audit(&p, &m, el, &hist, c) { return; }
    if !list_ok(&p, &m, el, &(0..n).collect::<Vec<_>>(), &hist, c) { return; }
    if m != Model::new(n) { c.nontrivial(word); }
    c.traces(1);
}

/// Many elements: `find` of all and the classes are compared with the model every so often and at the end.
fn part_many<X: Clone + Eq + Hash + std::fmt::Debug>(el: &[X], pairs: &[(usize, usize)], every: usize, what: &str, c: &mut Ctx) {
    let n = el.len();
    let mut p: Partition<X> = Partition::new();
    let mut m = Model::new(n);
    let at: HashMap<&X, usize> = el.iter().enumerate().map(|(i, x)| (x, i)).collect();
    assert!(at.len() == n);
    for (k, &(a, b)) in pairs.iter().enumerate() {
        p.unite(&el[a], &el[b]); m.unite(a, b);
        c.transitions(1);
        let now = k + 1 == pairs.len() || (k + 1) % every == 0;
        if !now { continue; }
        c.state(&m);
        // the order in which representatives are asked for varies
        let mut rep: HashMap<usize, usize> = HashMap::new();
        for j in 0..n { let i = match k % 3 { 0 => j, 1 => n - 1 - j, _ => (j * 7 + k) % n };
            let r = match at.get(&p.find(&el[i])) { Some(&r) => r, None => return c.fail(format!("{}: representative of {:?} is no element", what, el[i])) };
            if !c.check(m.0[r] == m.0[i] && *rep.entry(m.0[i]).or_insert(r) == r, &|| format!("{}: after {} unions the representative of {:?} is {:?}", what, k + 1, el[i], el[r])) { return; } }
        let order: Vec<usize> = match k % 3 { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).filter(|x| x % 3 != 1).collect() };
        let got = p.classes(&order.iter().map(|&i| el[i].clone()).collect::<Vec<_>>());
        let mut want: Vec<Vec<X>> = vec![]; let mut pos: HashMap<usize, usize> = HashMap::new();
        for &e in &order { let l = want.len(); let q = *pos.entry(m.0[e]).or_insert(l); if q == l { want.push(vec![]); } want[q].push(el[e].clone()); }
        if !c.check(got == want, &|| format!("{}: after {} unions the classes are {:?}, expected {:?}", what, k + 1, got.iter().map(|x| x.len()).collect::<Vec<_>>(), want.iter().map(|x| x.len()).collect::<Vec<_>>())) { return; }
    }
    c.evals(1);
    c.nontrivial(&(what.to_string(), n));
    c.outcome(what.split(',').next().unwrap());
    c.traces(1);
}
fn patterns(n: usize) -> Vec<(String, Vec<(usize, usize)>)> {
    let mut v: Vec<(String, Vec<(usize, usize)>)> = vec![];
    for flip in [false, true] {
        let f = |x: Vec<(usize, usize)>| -> Vec<(usize, usize)> { if flip { x.into_iter().map(|(a, b)| (b, a)).collect() } else { x } };
        let nm = |s: &str| format!("{}, {} elements{}", s, n, if flip { ", arguments exchanged" } else { "" });
        for hub in [0, n / 2, n - 1] { v.push((nm("star"), f((0..n).filter(|&i| i != hub).map(|i| (hub, i)).collect()))); }
        v.push((nm("chain"), f((0..n - 1).map(|i| (i, i + 1)).collect())));
        v.push((nm("chain from the end"), f((0..n - 1).rev().map(|i| (i, i + 1)).collect())));
        v.push((nm("chain from the middle"), f((0..n - 1).map(|i| (i * (n / 2 + 1)) % n).filter(|&i| i + 1 < n).map(|i| (i, i + 1)).collect())));
        for pick in 0..4usize { let mut x = vec![]; let mut s = 1;
            while s < n { for b in (0..n).step_by(2 * s) { if b + s < n { let (l, r) = (b + s - 1, (b + 2 * s).min(n) - 1); x.push(([b, l][pick & 1], [b + s, r][pick >> 1])); } } s *= 2; }
            v.push((nm("halves"), f(x))); }
        // the largest blocks first
        let mut x = vec![]; let mut s = 1; while s < n { s *= 2; } while s > 0 { for b in (0..n).step_by(2 * s) { if b + s < n { x.push((b, b + s)); } } s /= 2; }
        v.push((nm("halves from the top"), f(x)));
        for k in [2usize, 3, 7, 16] { v.push((nm("residue classes"), f((k..n).map(|i| (i, i - k)).collect()))); v.push((nm("blocks"), f((0..n).filter(|i| i % k != 0).map(|i| (i, i / k * k)).collect()))); 
            v.push((nm("blocks joined"), f((0..n).filter(|i| i % k != 0).map(|i| (i - 1, i)).chain((k..n).step_by(k).map(|i| ((i * 5) % i, i))).collect()))); }
        for a in [1usize, 3, 5, 11] { v.push((nm("affine pairs"), f((0..n).map(|i| ((i * a + 1) % n, (i * i + a) % n)).collect()))); }
        v.push((nm("mirror pairs"), f((0..n / 2).map(|i| (i, n - 1 - i)).collect())));
    }
    v
}

fn c42(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // unions, finds and class listings over three elements
    let n3 = 3usize; let ops = (n3 * n3 + n3 + 2) as u64; let len = t.pick(4, 5);
    v.push(Space::new("all histories over three elements", en::nwords(ops, len), move |i, c| {
        let w = en::words(i, ops);
        part_word(&["x".to_string(), "".to_string(), "yy".to_string()], &w, c);
    }));
    // unions only, over five elements
    let n5 = 5usize; let len = t.pick(4usize, 5);
    v.push(Space::new("all sequences of unions over five elements", en::nwords(20, len), move |i, c| {
        let pairs: Vec<usize> = (0..25).filter(|k| k / 5 != k % 5).collect();
        let w: Vec<usize> = en::words(i, 20).into_iter().map(|k| pairs[k]).collect();
        part_word(&(0..n5 as u32).map(|x| x * 1000 + 7).collect::<Vec<_>>(), &w, c);
    }));
    // tournament: eight elements merged pairwise, every choice of arguments, then each find first
    v.push(Space::new("tournaments over eight elements", 1 << 15, move |i, c| {
        let b = |k: u32| (i >> k & 1) as usize;
        let mut pr: Vec<(usize, usize)> = (0..4).map(|k| if b(k as u32) == 0 { (2 * k, 2 * k + 1) } else { (2 * k + 1, 2 * k) }).collect();
        for k in 0..2usize { let x = (4 * k + b(4 + 2 * k as u32), 4 * k + 2 + b(5 + 2 * k as u32)); pr.push(if b(8 + k as u32) == 0 { x } else { (x.1, x.0) }); }
        let x = (b(10) * 2 + b(11), 4 + b(12) * 2 + b(13)); pr.push(if b(14) == 0 { x } else { (x.1, x.0) });
        for f in 0..8 {
            let mut w: Vec<usize> = pr.iter().map(|&(a, b)| a * 8 + b).collect();
            w.push(64 + f);
            part_word(&(0..8i64).collect::<Vec<_>>(), &w, c);
            if c.failed() { return; }
        }
        c.evals(7);
        c.outcome("tournament");
    }));
    // trees of sixteen elements built by uniting equal halves, each level by any pair of (first, last) elements, then a find and another union or find
    let fin = 16u64 * 3;
    v.push(Space::new("halves of sixteen elements", 8u64.pow(4) * fin, move |i, c| {
        let k = en::digits(i, &[8, 8, 8, 8, fin]);
        let n = 17usize;
        let mut w = vec![];
        for l in 0..4usize { let s = 1usize << l;
            for b in (0..16).step_by(2 * s) {
                let x = [b, b + s - 1][k[l] as usize & 1]; let y = [b + s, b + 2 * s - 1][k[l] as usize >> 1 & 1];
                w.push(if k[l] < 4 { x * n + y } else { y * n + x });
            } }
        let e = (k[4] / 3) as usize;
        w.push(n * n + e);
        match k[4] % 3 { 0 => w.push(e * n + 16), 1 => w.push(16 * n + e), _ => { w.push(n * n + (e + 7) % 16); w.push(((e + 5) % 16) * n + e); } }
        part_word(&(0..n as u64).map(|x| x * x).collect::<Vec<_>>(), &w, c);
        c.outcome("halves");
    }));
    // unions and finds mixed, over four elements
    let len = t.pick(3usize, 5);
    v.push(Space::new("all sequences of unions and finds over four elements", en::nwords(16, len), move |i, c| {
        let ops: Vec<usize> = (0..16).filter(|k| k / 4 != k % 4).chain(16..20).collect();
        let w: Vec<usize> = en::words(i, 16).into_iter().map(|k| ops[k]).collect();
        part_word(&["a", "b", "c", "d"], &w, c);
    }));
    // chains and stars, with elements of vector type
    let m = t.pick(7usize, 8);
    v.push(Space::list("chains in every order", en::permutations(m), move |p, c| {
        for flip in 0..2 { let n = m + 1;
            let w: Vec<usize> = p.iter().map(|&k| if flip == 0 { k * n + k + 1 } else { (k + 1) * n + k }).collect();
            part_word(&(0..n).map(|k| vec![k as i32, -(k as i32)]).collect::<Vec<_>>(), &w, c); }
        c.outcome("chain");
    }));
    let ns: Vec<usize> = t.pick(vec![9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513, 1000, 1025], (9..=130).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097]).collect());
    v.push(Space::list("many elements", ns, |&n, c| for (k, (what, pairs)) in patterns(n).iter().enumerate() {
        let every = if n > 300 { 101 + k } else { 1 + n / 9 };
        if k % 2 == 0 { part_many(&(0..n as u32).map(|x| x.wrapping_mul(2654435761)).collect::<Vec<_>>(), pairs, every, what, c); }
        else { part_many(&(0..n).map(|x| format!("{}", x * x)).collect::<Vec<_>>(), pairs, every, what, c); }
        if c.failed() { return; }
    }));
    // equal halves of very many elements, where the trees get deep: 2^k elements, each level by the pair of (first, last) elements given
    let ks: Vec<(usize, usize, bool)> = t.pick(vec![12usize, 14, 16, 17], (10..=20).collect()).into_iter().flat_map(|k| (0..5usize).flat_map(move |pick| [(k, pick, false), (k, pick, true)])).collect();
    v.push(Space::list("equal halves of very many elements", ks, |&(k, pick, keep), c| {
        let n = 1usize << k;
        let mut p: Partition<u32> = Partition::new();
        let el = |i: usize| (i as u32).wrapping_mul(2654435761);
        for l in 0..k { let s = 1 << l;
            for b in (0..n).step_by(2 * s) {
                // two blocks stay apart until the end
                if keep && l + 1 == k { continue; }
                let (x, y) = match pick { 0 => (b, b + s), 1 => (b + s - 1, b + s), 2 => (b + s, b), 3 => (b + 2 * s - 1, b + s - 1), _ => (b + (b / s * 7 + 3) % s, b + s + (b / s * 5 + 1) % s) };
                p.unite(&el(x), &el(y)); c.transitions(1);
            } }
        let top = p.find(&el(0)); let other = p.find(&el(n - 1));
        let idx: HashMap<u32, usize> = (0..n).map(|i| (el(i), i)).collect();
        let what = |i: usize| format!("after uniting {} elements in {} levels of halves (pair {}): representative of element {}", n, k, pick, i);
        for (r, half) in [(top, 0), (other, 1)] { if !c.check(idx.get(&r).map_or(false, |&i| !keep || i * 2 / n == half), &|| format!("representative {} of half {} is no element of it", r, half)) { return; } }
        if !c.check((top == other) == !keep, &|| what(n - 1)) { return; }
        for i in 0..n { let i = (i * 40503 + 1) % n; let r = p.find(&el(i)); if !c.check(r == if keep && i * 2 >= n { other } else { top }, &|| what(i)) { return; } }
        let list: Vec<u32> = (0..n).map(|i| el((i * 5 + 3) % n)).collect();
        let got: Vec<usize> = p.classes(&list).iter().map(|x| x.len()).collect();
        c.check(got == if keep { vec![n / 2, n / 2] } else { vec![n] }, &|| format!("classes of {} elements have sizes {:?}", n, got));
        c.evals(1); c.traces(1); c.nontrivial(&(k, pick, keep)); c.outcome("very many elements");
    }));
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C11", level: "model_checking", spaces: c11, assumptions: &["the model is a graph without memory: each query answered by a freshly built graph"],
        rule: "one history per word over the query alphabet (17 to 25 queries); states are (graph, set of queries asked); distinct histories counted up to 4096 per graph and first query" },
    Check { id: "C42", level: "model_checking", spaces: c42, assumptions: &["the lists whose classes are asked for have no repeated elements"],
        rule: "one history per word over unite, find and classes; states are set partitions of the elements; non-trivial if two elements get united" },
];
