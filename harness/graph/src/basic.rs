//! C01, C07, C08, C09, C10, C12, C14: placement, connectivity, shells, collisions, identity of graphs.
use crate::adapt::*;
use crate::disp;
use crate::fams::*;
use fw::en;
use fw::net::*;
use fw::q::Q;
use fw::{Check, Ctx, Space, Tier};
use rust_systre::pgraphs::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn qi(v: V3, d: usize) -> Vec<Q> { v[..d].iter().map(|&x| Q::int(x as i128)).collect() }
fn vsub(a: &[Q], b: &[Q]) -> Vec<Q> { a.iter().zip(b).map(|(&x, &y)| x - y).collect() }
fn vadd(a: &[Q], b: &[Q]) -> Vec<Q> { a.iter().zip(b).map(|(&x, &y)| x + y).collect() }

// ---- C01 --------------------------------------------------------------------------------------

fn placement<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if n.n() == 0 || !n.quotient_connected() { c.outcome("quotient not connected"); return; }
    let d = n.d;
    let g = graph::<T>(&n.raw());
    let mut p: Vec<Vec<Q>> = vec![];
    for v in &n.ids { match qs(g.position(v).iter()) {
        Some(x) if x.len() == d => p.push(x),
        _ => return c.fail(format!("{:?}: position of {} is not an exact {}-vector: {}", n, v, d, g.position(v))),
    } }
    let mut sum = vec![vec![Q::ZERO; d]; n.n()];
    let mut fractional = false;
    for (k, &(h, t, s)) in n.dirs().iter().enumerate() {
        let e = dir_edge::<T>(n, k);
        let want = vsub(&vadd(&p[t], &qi(s, d)), &p[h]);
        sum[h] = vadd(&sum[h], &want);
        let got = qs(g.edge_vector(&e).iter());
        if !c.check(got.as_ref() == Some(&want), &|| format!("{:?}: edge vector of {} is {:?}, expected {:?}", n, e, got, want)) { return; }
        let back = qs(g.edge_vector(&-&e).iter());
        let neg: Vec<Q> = want.iter().map(|&x| -x).collect();
        if !c.check(back.as_ref() == Some(&neg), &|| format!("{:?}: reversing {} gives {:?}, expected {:?}", n, e, back, neg)) { return; }
    }
    for v in 0..n.n() {
        if !c.check(sum[v].iter().all(|x| x.is_zero()), &|| format!("{:?}: vertex {} at {:?} is not at the average of its neighbours (excess {:?})", n, n.ids[v], p[v], sum[v])) { return; }
        let norm = qs(g.position_normalized(&n.ids[v]).iter());
        let want: Vec<Q> = p[v].iter().map(|x| x.frac()).collect();
        if !c.check(norm.as_ref() == Some(&want), &|| format!("{:?}: normalized position of {} is {:?}, expected {:?}", n, n.ids[v], norm, want)) { return; }
        fractional |= p[v].iter().any(|x| !x.is_int());
    }
    if fractional { c.nontrivial(n); c.sample(|| format!("{:?} at {:?}", n, p)); }
    c.outcome(if fractional { "fractional positions" } else { "integral positions" });
}

fn big_shifts(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    for (_, n) in named() { for f in t.pick(vec![1000i64, 1_000_003, 20_000_000], vec![1000, 65_537, 1_000_003, 20_000_000, 99_999_989]) { for k in 0..3i64 {
        let g: Vec<V3> = (0..n.n() as i64).map(|i| [(i * 31 + k) * f % 90_000_000, -((i * i + k) * f % 80_000_000), if n.d == 3 { (i + 2) * f % 70_000_000 } else { 0 }]).collect();
        v.push(n.gauge(&g));
    } } }
    // shifts near the ends of the 32-bit range: those at one vertex add up to more than fits there
    for (_, n) in named() { for k in 0..3usize { for a in t.pick(vec![1_070_000_000i64], vec![1_070_000_000, 1_073_741_000, 715_827_882]) {
        let g: Vec<V3> = (0..n.n()).map(|i| { let s = |q: usize| if (i >> q) % 2 == 0 { a } else { -a }; [s(k % 2), if k == 2 { s(1) } else { -s(0) }, if n.d == 3 { s(k) } else { 0 }] }).collect();
        v.push(n.gauge(&g));
    } } }
    v
}

fn c01(t: Tier) -> Vec<Space> {
    let f = disp!(placement);
    let mut v = spaces(small(t), f);
    v.push(space("named nets, supercells, covers", scrambled([plain_named(), supers(t), sheets(t), sheets3(t), orbital(t)].concat()), f));
    v.push(space("rings with chords", scrambled(chains(t)), f));
    v.push(space("large shifts", big_shifts(t), f));
    v.push(space("spanning tree counts divisible by chosen primes", tree_counts(t), f));
    let sq: Vec<Net> = t.pick(vec![16i64, 25], vec![16, 25, 36, 49, 64]).into_iter().flat_map(|k| hermites(2, k)).map(|h| named2()[2].1.supercell(&h)).collect();
    v.push(space("large supercells of the honeycomb", scrambled(sq), f));
    v.push(space("supercells of high index", scrambled(large(t)), f));
    v.push(space("very large supercells", scrambled(huge(t)), f));
    v.push(crate::dims::space("C01", t));
    v
}

// ---- C07 --------------------------------------------------------------------------------------

fn measures<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    let g = graph::<T>(&n.raw());
    for v in 0..n.n() {
        let (s, r, m) = graph_component_measures(&g, &n.ids[v]);
        let want = n.measures(v);
        let got = (s, r, m.map(|x| x as i128));
        if !c.check(got == want, &|| format!("{:?}: measures at {} are {:?}, expected {:?}", n, n.ids[v], got, want)) { return; }
        if v == 0 { c.outcome(&format!("dim {} rank {} multiplicity {:?}", n.d, want.1, want.2.map(|x| x.min(5)))); }
        if want.2 != Some(1) || want.0 != n.n() { c.nontrivial(n); c.sample(|| format!("{:?} at {}: {:?}", n, n.ids[v], want)); }
    }
    let (got, want) = (g.is_connected(), n.connected());
    c.check(got == want, &|| format!("{:?}: is_connected gives {}, expected {}", n, got, want));
}

fn c07(t: Tier) -> Vec<Space> {
    let f = disp!(measures);
    let mut v = spaces(small(t), f);
    // unions of two components and scaled lattices
    let mut u = vec![];
    for d in 2..=3 { let ones = fam_one(d, if d == 2 { 2 } else { 1 }, 1, d);
        for (i, a) in ones.iter().enumerate() { for (j, b) in ones.iter().enumerate() { if d == 3 && (i * 7 + j) % t.pick(29, 3) != 0 { continue; }
            let mut raw = a.raw(); raw.extend(b.raw().iter().map(|e| (e.0 + 4, e.1 + 4, e.2))); u.push(Net::new(d, &raw)); } } }
    v.push(space("disjoint unions of one-vertex nets", u, f));
    // coarse lattices
    let m = t.pick(24i64, 60);
    let mut u = vec![];
    for a in (1..=m).chain([255, 256, 300, 65536]) { for b in (1..=m).chain([256, 4099]) { u.push(Net::new(2, &[(1, 1, [a, 0, 0]), (1, 1, [a / 2, b, 0])])); u.push(Net::new(3, &[(1, 1, [a, 1, 0]), (1, 2, [0, b, 2]), (1, 2, [0, 0, 0]), (2, 2, [0, a % 3, 1 + b % 5])])); } }
    v.push(space("coarse lattices", u, f));
    // all triples (pairs) of lattice vectors as loops, order and sign matter for the incremental basis
    for (d, r) in [(2usize, t.pick(4i64, 7)), (3, t.pick(1, 2))] {
        let bx = half_vectors(d, r);
        let k = if d == 2 { t.pick(3, 3) } else { t.pick(4, 3) };
        let cnt = en::nsubsets(bx.len(), 0, k);
        v.push(Space::new(&format!("loops, {}-dimensional, radius {}", d, r), cnt, move |i, c| {
            let raw: Vec<Raw> = en::subset(i, bx.len(), 0, k).iter().map(|&x| (5, 5, bx[x])).collect();
            let n = Net::new(d, &raw);
            if d == 2 { measures::<L2>(&n, i, c) } else { measures::<L3>(&n, i, c) }
        }));
    }
    v.push(space("named nets, supercells, covers", scrambled([plain_named(), supers(t), sheets(t), sheets3(t), orbital(t)].concat()), f));
    v.push(space("rings with chords", scrambled(chains(t)), f));
    // coarse lattices: the same net with all cycle sums multiplied
    let coarse: Vec<Net> = named().into_iter().flat_map(|(_, n)| (2..5i64).map(move |k| {
        let raw: Vec<Raw> = n.raw().into_iter().map(|(h, t, s)| (h, t, [s[0] * k, s[1] * (k - 1), s[2] * (k + 1)])).collect(); Net::new(n.d, &raw) })).collect();
    v.push(space("nets with several interpenetrating copies", scrambled(coarse), f));
    v.push(space("supercells of high index", scrambled(large(t)), f));
    v.push(space("very large supercells", scrambled(huge(t)), f));
    v.push(space("many components", scrambled(scattered(t)), f));
    v.push(crate::dims::space("C07", t));
    v
}

/// Unions of m copies of nets with different lattices of cycle sums, numbered so that the copies alternate or follow each other.
fn scattered(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    for (j, (_, n)) in named().into_iter().enumerate() { for m in t.pick(vec![2u32, 3, 5, 9, 17], vec![2, 3, 4, 5, 7, 9, 12, 17, 33]) { if n.n() as u32 * m > t.pick(64, 140) { continue; }
        for way in 0..2u32 {
            let k = n.n() as u32;
            let mut raw: Vec<Raw> = vec![];
            for i in 0..m { let f = if i + 1 == m { 1 } else { 1 + ((i + j as u32) % 3) as i64 };
                for (a, b, s) in n.raw() { let id = |x: u32| if way == 0 { (x - 1) * m + i + 1 } else { i * k + x };
                    raw.push((id(a), id(b), [s[0] * f, s[1], if i % 4 == 1 { 0 } else { s[2] }])); } }
            v.push(Net::new(n.d, &raw));
        } } }
    v
}

// ---- C08 --------------------------------------------------------------------------------------

fn shells<T: Lab>(n: &Net, _: u64, c: &mut Ctx, len: usize) {
    let g = graph::<T>(&n.raw());
    for v in 0..n.n() {
        let want = n.shells(v, len);
        let got: Vec<usize> = g.coordination_sequence(&n.ids[v]).take(len).collect();
        if !c.check(got == want, &|| format!("{:?}: coordination sequence of {} is {:?}, expected {:?}", n, n.ids[v], got, want)) { return; }
        if want[1] != want[0] && want[0] > 0 { c.nontrivial(&(n, v)); c.sample(|| format!("{:?} at {}: {:?}", n, n.ids[v], want)); }
    }
    c.outcome(&format!("dimension {}", n.d));
}
fn shells_short<T: Lab>(n: &Net, i: u64, c: &mut Ctx) { shells::<T>(n, i, c, if n.d == 2 { 6 } else { 4 }) }
fn shells_far<T: Lab>(n: &Net, i: u64, c: &mut Ctx) { shells::<T>(n, i, c, if n.d == 2 { 45 } else { 16 }) }
fn shells_long<T: Lab>(n: &Net, i: u64, c: &mut Ctx) { shells::<T>(n, i, c, if n.d == 2 { 12 } else { 8 }) }

/// All interleavings of up to three iterators (two on one vertex, one on another), with queries in between.
fn interleave<T: Lab>(n: &Net, word: &[usize], c: &mut Ctx) {
    let g = graph::<T>(&n.raw());
    let vs = [n.ids[0], n.ids[0], n.ids[n.n() - 1]];
    let want: Vec<Vec<usize>> = [0, 0, n.n() - 1].iter().map(|&v| n.shells(v, word.len())).collect();
    let mut its: Vec<Option<CoordinationSequence<T, W>>> = vec![None, None, None];
    let mut pos = [0usize; 3];
    c.state(&(n, pos));
    for &op in word {
        c.transitions(1);
        if op < 3 {
            let it = its[op].get_or_insert_with(|| g.coordination_sequence(&vs[op]));
            let got = it.next();
            let w = want[op][pos[op]];
            pos[op] += 1;
            if !c.check(got == Some(w), &|| format!("{:?}: after {:?} iterator {} gives {:?}, expected {}", n, word, op, got, w)) { return; }
        } else { let _ = g.incidences(&vs[2]); let _ = g.directed_edges(); }
        c.state(&(n, pos));
    }
    c.traces(1);
}

fn c08(t: Tier) -> Vec<Space> {
    let mut v = spaces(small(t), disp!(shells_short));
    v.push(space("named nets, supercells, covers", scrambled([plain_named(), supers(t), sheets(t), sheets3(t), orbital(t)].concat()), disp!(shells_short)));
    v.push(space("named nets, long", plain_named(), disp!(shells_long)));
    v.push(space("named nets, very long", scrambled(plain_named()), disp!(shells_far)));
    v.push(space("rings with chords", scrambled(chains(t)), disp!(shells_long)));
    v.push(space("supercells of high index", scrambled(large(t)), disp!(shells_short)));
    v.push(space("very large supercells", scrambled(huge(t)), disp!(shells_short)));
    let nets: Vec<Net> = plain_named().into_iter().step_by(t.pick(3, 1)).collect();
    let len = t.pick(6, 8);
    let words = 4u64.pow(len);
    v.push(Space::new("interleaved iterators", nets.len() as u64 * words, move |i, c| {
        let n = &nets[(i / words) as usize];
        let w = en::word(i % words, 4, len as usize);
        c.nontrivial(&i);
        if n.d == 2 { interleave::<L2>(n, &w, c) } else { interleave::<L3>(n, &w, c) }
    }));
    v.push(crate::dims::space("C08", t));
    v
}

// ---- C09 --------------------------------------------------------------------------------------

fn stability<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if n.n() == 0 || !n.quotient_connected() { c.outcome("quotient not connected"); return; }
    let d = n.d;
    let g = graph::<T>(&n.raw());
    let p = n.positions();
    let dirs = n.dirs();
    let ev: Vec<Vec<Q>> = dirs.iter().map(|&(h, t, s)| vsub(&vadd(&p[t], &qi(s, d)), &p[h])).collect();
    let (s, l, o) = (n.stable(), n.locally_stable(), n.second_order_collisions());
    c.check(g.is_stable() == s, &|| format!("{:?}: is_stable gives {}, expected {}", n, !s, s));
    c.check(g.is_locally_stable() == l, &|| format!("{:?}: is_locally_stable gives {}, expected {}", n, !l, l));
    c.check(g.has_second_order_collisions() == o, &|| format!("{:?}: has_second_order_collisions gives {}, expected {}", n, !o, o));
    if !s { c.nontrivial(n); c.sample(|| format!("{:?}: stable {} locally {} second-order {}", n, s, l, o)); }
    c.outcome(&format!("stable {} locally stable {} second-order collisions {}", s, l, o));
    let mut deltas: Vec<Vec<Q>> = ev.clone();
    deltas.push(vec![Q::ZERO; d]);
    deltas.push(vec![Q::new(1, 7); d]);
    deltas.extend(ev.iter().take(3).map(|x| x.iter().map(|&y| y + y).collect::<Vec<Q>>()));
    deltas.sort(); deltas.dedup();
    if n.edges.len() > 24 { deltas.truncate(40); }
    for v in 0..n.n() { for x in &deltas {
        let hits: Vec<usize> = (0..dirs.len()).filter(|&k| dirs[k].0 == v && ev[k] == *x).collect();
        let want = if hits.len() == 1 { Some(raw_dir(n, hits[0])) } else { None };
        // a loop with zero shift has two ends with equal vectors, but is one edge
        let got = g.edge_by_unique_delta(&n.ids[v], &vecq::<T>(x)).map(|e| unedge(&e));
        if hits.len() == 2 && dirs[hits[0]] == dirs[hits[1]] { continue; }
        if !c.check(got == want, &|| format!("{:?}: edge at {} with vector {:?} is {:?}, expected {:?}", n, n.ids[v], x, got, want)) { return; }
    } }
}

/// Small multigraphs in which collisions are frequent: pendant paths, doubled cells.
fn colliding(t: Tier) -> Vec<Net> {
    let z = [0i64; 3];
    let mut v = vec![];
    for d in 2..=3usize {
        let base: Vec<Raw> = if d == 2 { vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0])] } else { vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (1, 1, [0, 0, 1])] };
        // all subsets of a set of extra edges on four further vertices
        let extra: Vec<Raw> = vec![(1, 2, z), (1, 2, [1, 0, 0]), (1, 3, z), (1, 3, [1, 0, 0]), (2, 3, z), (2, 4, z), (3, 4, [0, 1, 0]), (3, 5, z), (4, 5, z), (1, 2, [0, 1, 0]), (1, 1, z), (2, 2, z)];
        let k = t.pick(11, 12);
        for m in 1..1u32 << k { if d == 3 && m % t.pick(5, 1) != 0 { continue; }
            let mut raw = base.clone(); raw.extend((0..k).filter(|i| m >> i & 1 == 1).map(|i| extra[i]));
            let n = Net::new(d, &raw); if n.quotient_connected() { v.push(n); } }
    }
    v
}

fn c09(t: Tier) -> Vec<Space> {
    let f = disp!(stability);
    let mut v = spaces(small(t), f);
    v.push(space("named nets, supercells, covers", scrambled([plain_named(), supers(t), sheets(t), sheets3(t), orbital(t)].concat()), f));
    v.push(space("pendant parts and doubled vertices", scrambled(colliding(t)), f));
    v.push(space("supercells of high index", scrambled(large(t)), f));
    v.push(space("very large supercells", scrambled(huge(t)), f));
    // one pair or triple of coinciding vertices in a large net
    let mut u = vec![];
    for (i, n) in large(t).into_iter().enumerate() { if i % t.pick(3, 1) == 0 { for way in 0..4 {
        let mut raw = n.raw();
        let (a, top) = (n.ids[(i * 5 + way) % n.n()], *n.ids.last().unwrap());
        // pendant vertices sit where their neighbour does; two vertices on the same pair of edges coincide
        match way { 0 => raw.push((a, top + 1, [1, 0, 0])),
            1 => { raw.push((a, top + 1, [0; 3])); raw.push((top + 1, top + 2, [0, 1, 0])); }
            2 => { let e = raw[i % raw.len()]; for k in 1..=2 { raw.push((e.0, top + k, [0; 3])); raw.push((top + k, e.1, e.2)); } }
            _ => { let e = raw[i % raw.len()]; raw.push((e.0, top + 1, e.2)); raw.push((top + 1, e.1, [0; 3])); } }
        u.push(Net::new(n.d, &raw));
    } } }
    v.push(space("single collisions in large nets", scrambled(u), f));
    v.push(crate::dims::space("C09", t));
    v
}

// ---- C10 --------------------------------------------------------------------------------------

fn render<T: Lab>(g: &G<T>) -> String {
    let inc: Vec<String> = g.vertices().iter().map(|v| format!("{}:{:?}", v, g.incidences(v).iter().map(unedge).collect::<Vec<_>>())).collect();
    format!("{}|{:?}|{:?}|{:?}", g, g.vertices(), inc, g.directed_edges().iter().map(unedge).collect::<Vec<_>>())
}

fn edge_set<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    let d = n.d;
    let und = n.raw();
    let base = graph::<T>(&und);
    let txt = render(&base);
    // definition: vertices and incidences
    let vs: Vec<u32> = und.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().into_iter().collect();
    if !c.check(base.vertices() == vs, &|| format!("{:?}: vertices {:?}", n, base.vertices())) { return; }
    let mut inc: BTreeMap<u32, Vec<Raw>> = vs.iter().map(|&v| (v, vec![])).collect();
    for &(h, t, s) in &und { inc.get_mut(&h).unwrap().push((h, t, s)); inc.get_mut(&t).unwrap().push((t, h, neg(s))); }
    let all: Vec<Raw> = sorted(inc.values().flatten().cloned().collect());
    for v in &vs {
        let got = sorted(base.incidences(v).iter().map(unedge).collect());
        let want = sorted(inc[v].clone());
        if !c.check(got == want, &|| format!("{:?}: incidences at {} are {:?}, expected {:?}", n, v, got, want)) { return; }
    }
    let got = sorted(base.directed_edges().iter().map(unedge).collect());
    if !c.check(got == all, &|| format!("{:?}: directed edges {:?}, expected {:?}", n, got, all)) { return; }
    let lines: HashSet<String> = base.to_string().lines().map(|x| x.to_string()).collect();
    if !c.check(lines.len() == und.len() && base.to_string().lines().count() == und.len(), &|| format!("{:?}: printed form {:?}", n, base.to_string())) { return; }
    for r in &und {
        let e = edge::<T>(r);
        let b = -&e;
        if !c.check(unedge(&b) == (r.1, r.0, neg(r.2)), &|| format!("{:?}: reverse of {} is {}", n, e, b)) { return; }
        let (x, y) = (e.canonical(), b.canonical());
        if !c.check(x == y && (x == e || x == b) && x.canonical() == x, &|| format!("canonical forms of {} and its reverse are {} and {}", e, x, y)) { return; }
        if !c.check(lines.contains(&x.to_string()), &|| format!("{:?}: {} not printed in {:?}", n, x, base.to_string())) { return; }
    }
    // all directions, all orders (up to 4 edges), one repetition
    let m = und.len();
    let perms: Vec<Vec<usize>> = if m <= 4 { en::permutations(m) } else { vec![(0..m).collect(), (0..m).rev().collect(), (0..m).map(|i| (i + 2) % m).collect()] };
    let dirs: Vec<u64> = if m <= 9 { (0..1u64 << m).collect() } else { let all = (1u64 << m.min(63)) - 1; [0, all, 0x5555555555555555 & all, 1, 1 << (m.min(63) - 1), 0x123456789abcdef & all].to_vec() };
    let reps: Vec<usize> = if m <= 9 { (0..=m).collect() } else { vec![0, m / 2, m - 1, m] };
    for p in &perms { for &dir in &dirs { for &rep in &reps {
        let mut raw: Vec<Raw> = p.iter().map(|&i| { let e = und[i]; if dir >> (i % 63) & 1 == 1 { (e.1, e.0, neg(e.2)) } else { e } }).collect();
        if rep < m { let e = und[rep]; raw.insert((dir as usize) % (m + 1), if dir & 1 == 1 { e } else { (e.1, e.0, neg(e.2)) }); }
        let g = graph::<T>(&raw);
        c.evals(1);
        if !c.check(render(&g) == txt, &|| format!("{:?} given as {:?} differs: {} instead of {}", n, raw, render(&g), txt)) { return; }
    } } }
    // everything given twice and three times, in other directions and orders
    for k in 2..=3usize { for way in 0..3 {
        let raw: Vec<Raw> = (0..k * m).map(|i| { let (q, e) = (i / m.max(1), und[match way { 0 => i % m, 1 => i / k, _ => (i * 7 + i / m) % m }]); if (q + i * way) % 2 == 1 { (e.1, e.0, neg(e.2)) } else { e } }).collect();
        let set: BTreeSet<(usize, usize, V3)> = Net::new(d, &raw).edges.iter().cloned().collect();
        if Net::new(d, &raw).ids != n.ids || set.len() != m { continue; }
        let g = graph::<T>(&raw);
        c.evals(1);
        if !c.check(render(&g) == txt, &|| format!("{:?} given as {:?} differs: {} instead of {}", n, raw, render(&g), txt)) { return; }
    } }
    c.nontrivial(n);
    c.outcome(&format!("{} edges, dimension {}", m, d));
    c.sample(|| txt.clone());
}

fn c10(t: Tier) -> Vec<Space> {
    let z = [0i64; 3];
    let mut v = vec![];
    for d in 2..=3usize {
        let mut al: Vec<Raw> = vec![(1, 1, z), (1, 1, [0, 1, 0]), (1, 1, [1, -1, 0]), (1, 2, z), (1, 2, [1, 0, 0]), (1, 2, [-1, 0, 0]), (2, 2, [0, 1, 0]), (2, 2, [0, 0, 0]),
            (2, 7, [0, -1, 0]), (7, 7, [-2, 3, 0]), (1, 7, [5, 0, 0]), (4294967295, 2, [0, 2, 0]), (0, 1, [1, 1, 0]), (0, 4294967295, z)];
        if d == 3 { for e in al.iter_mut() { e.2[2] = ((e.0 as i64 + e.1 as i64) % 3) - 1; if e.2 == [0, 0, 0] && e.0 == e.1 { e.2 = [0, 0, 1]; } } }
        let k = t.pick(4, 5);
        let cnt = en::nsubsets(al.len(), 0, k);
        v.push(Space::new(&format!("edge sets of up to {} edges, dimension {}", k, d), cnt, move |i, c| {
            let n = Net::new(d, &en::subset(i, al.len(), 0, k).iter().map(|&x| al[x]).collect::<Vec<_>>());
            if d == 2 { edge_set::<L2>(&n, i, c) } else { edge_set::<L3>(&n, i, c) }
        }));
    }
    v.push(space("named nets", scrambled(plain_named().into_iter().filter(|n| n.edges.len() <= 7).collect()), disp!(edge_set)));
    v.push(space("periodic in one direction", scrambled(thin(line(t), t.pick(6, 2))), disp!(edge_set)));
    v.push(space("supercells of high index", scrambled(large(t)), disp!(edge_set)));
    v.push(space("very large supercells", scrambled(huge(t)), disp!(edge_set)));
    v.push(space("larger nets, covers", scrambled([plain_named(), thin(supers(t), t.pick(5, 2)), thin(sheets(t), t.pick(9, 3)), thin(orbital(t), t.pick(9, 4))].concat()), disp!(edge_set)));
    v.push(Space::list("canonical forms of all edges in a box", vec![2usize, 3], |&d, c| {
        for h in [0u32, 1, 2, 9, u32::MAX] { for t in [0u32, 1, 2, 9, u32::MAX] { for s in en::box_vectors(d, -2, 2) {
            let mut x = [0; 3]; x[..d].copy_from_slice(&s);
            c.evals(1);
            c.nontrivial(&(d, h, t, x));
            let r = (h, t, x);
            fn one<T: Lab>(r: Raw, c: &mut Ctx) {
                let e = edge::<T>(&r); let b = -&e;
                c.check(e.canonical() == b.canonical() && (e.canonical() == e || e.canonical() == b), &|| format!("canonical forms of {} and {}: {} and {}", e, b, e.canonical(), b.canonical()));
            }
            if d == 2 { one::<L2>(r, c) } else { one::<L3>(r, c) }
        } } }
    }));
    v.push(crate::dims::space("C10", t));
    v
}

// ---- C12 --------------------------------------------------------------------------------------

fn normalize<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    let g = graph::<T>(&n.raw());
    let r = g.shift_normalized();
    let m = read(&r);
    if !c.check(r.vertices() == n.ids && m.ids == n.ids, &|| format!("{:?}: vertices become {:?}", n, r.vertices())) { return; }
    if !c.check(m.edges.len() == n.edges.len(), &|| format!("{:?}: becomes {:?} with {} edges", n, m, m.edges.len())) { return; }
    // a gauge carrying n to m, vertex by vertex along a spanning tree of n
    let adj = n.adj();
    let lab = n.components();
    let mut order: Vec<(usize, Option<(usize, V3)>)> = vec![];
    let mut seen = vec![false; n.n()];
    for v in 0..n.n() { if !seen[v] { seen[v] = true; order.push((v, None)); let mut i = order.len() - 1;
        while i < order.len() { let u = order[i].0; for &(_, w, s) in &adj[u] { if !seen[w] { seen[w] = true; order.push((w, Some((u, s)))); } } i += 1; } } }
    let target: HashSet<(usize, usize, V3)> = m.edges.iter().cloned().collect();
    let mut gauge = vec![[0i64; 3]; n.n()];
    fn go(k: usize, order: &[(usize, Option<(usize, V3)>)], n: &Net, target: &HashSet<(usize, usize, V3)>, gauge: &mut Vec<V3>, done: &mut Vec<bool>) -> bool {
        if k == order.len() { return true; }
        let (v, par) = order[k];
        let cands: Vec<V3> = match par { None => vec![[0; 3]], Some((u, s)) => target.iter().flat_map(|&(a, b, x)| {
            let mut r = vec![]; if a == u && b == v { r.push(x); } if b == u && a == v { r.push(neg(x)); } r })
            .map(|x| sub(add(s, gauge[u]), x)).collect::<BTreeSet<_>>().into_iter().collect() };
        done[v] = true;
        for g in cands {
            gauge[v] = g;
            // shift' = s + gauge[head] - gauge[tail]
            let ok = n.edges.iter().filter(|e| (e.0 == v || e.1 == v) && done[e.0] && done[e.1])
                .all(|&(h, t, s)| target.contains(&canon((h, t, sub(add(s, gauge[h]), gauge[t])))));
            if ok && go(k + 1, order, n, target, gauge, done) { return true; }
        }
        done[v] = false;
        false
    }
    let mut done = vec![false; n.n()];
    let ok = go(0, &order, n, &target, &mut gauge, &mut done);
    if !c.check(ok, &|| format!("{:?}: {:?} does not arise by moving vertices to other cells", n, m)) { return; }
    // zero-shift spanning trees
    let zero = Net { d: m.d, ids: m.ids.clone(), edges: m.edges.iter().filter(|e| e.2 == [0; 3]).cloned().collect() };
    let (a, b) = (lab.iter().collect::<HashSet<_>>().len(), zero.components().iter().collect::<HashSet<_>>().len());
    c.check(a == b, &|| format!("{:?}: in {:?} the zero-shift edges leave {} components instead of {}", n, m, b, a));
    let moved = m != *n;
    if moved { c.nontrivial(n); c.sample(|| format!("{:?} -> {:?}", n, m)); }
    c.outcome(if moved { "changed" } else { "already normalized" });
    c.outcome(&format!("{} components", a));
}

fn c12(t: Tier) -> Vec<Space> {
    let f = disp!(normalize);
    let mut fams = small(t);
    let mut u = vec![];
    let pool: Vec<Net> = plain_named().into_iter().filter(|n| n.n() <= 4).collect();
    for a in &pool { for b in &pool { if a.d == b.d { for off in [1u32, 4, 5] {
        // interleaved numbering for off = 1
        let mut raw: Vec<Raw> = a.raw(); raw = raw.into_iter().map(|e| if off == 1 { (e.0 * 2, e.1 * 2, e.2) } else { e }).collect();
        raw.extend(b.raw().into_iter().map(|e| if off == 1 { (e.0 * 2 + 1, e.1 * 2 + 1, e.2) } else { (e.0 + off, e.1 + off, e.2) }));
        u.push(Net::new(a.d, &raw));
    } } } }
    fams.push(("unions of two named nets", u));
    fams.push(("named nets, supercells, covers", [plain_named(), supers(t), sheets(t), orbital(t)].concat()));
    fams.push(("rings with chords", chains(t)));
    fams.push(("supercells of high index", large(t)));
    fams.push(("very large supercells", huge(t)));
    fams.push(("many components", scattered(t)));
    // every gauge of some nets, so that normalization has something to do
    let mut gs = vec![];
    for n in plain_named().into_iter().filter(|n| n.n() >= 2 && n.n() <= t.pick(3, 4)) {
        let r = t.pick(1, if n.n() == 4 { 1 } else { 2 });
        let bx = en::box_vectors(n.d, -r, r);
        let b = bx.len() as u64;
        let tot = b.pow(n.n() as u32 - 1);
        let step = (tot / t.pick(400, 4000)).max(1);
        for i in (0..tot).step_by(step as usize) { let w = en::word(i, b, n.n() - 1);
            let mut g = vec![[0i64; 3]]; for k in w { let mut x = [0; 3]; x[..n.d].copy_from_slice(&bx[k]); g.push(x); }
            gs.push(n.gauge(&g)); }
    }
    let mut v = spaces(fams, f);
    v.push(space("regauged named nets", gs, f));
    v.push(crate::dims::space("C12", t));
    v
}

// ---- C14 --------------------------------------------------------------------------------------

fn labels<T: Lab>(a: &[V3], c: &mut Ctx, i: usize) {
    let d = T::dim();
    let x = a[i];
    let lx = T::lab(x);
    let xi: Vec<i32> = x[..d].iter().map(|&k| k as i32).collect();
    c.check(lx.to_vec() == xi && T::from_vec(&xi) == lx && T::dim() == xi.len(), &|| format!("{:?}: to_vec {:?}", xi, lx.to_vec()));
    let (z, p, ng) = (lx.is_zero(), lx.is_positive(), lx.is_negative());
    c.check(z as u8 + p as u8 + ng as u8 == 1, &|| format!("{:?}: zero {} positive {} negative {}", xi, z, p, ng));
    c.check(z == (x == [0; 3]) && (lx == T::zero()) == z, &|| format!("{:?}: is_zero {}", xi, z));
    let m = -lx;
    c.check(m.v3() == neg(x) && m.is_positive() == ng && m.is_negative() == p, &|| format!("{:?}: negated {:?} positive {} negative {}", xi, m.to_vec(), m.is_positive(), m.is_negative()));
    c.check(T::zero().to_vec() == vec![0; d], &|| "zero label".to_string());
    for &y in a {
        if (0..3).any(|k| x[k] + y[k] > i32::MAX as i64 || x[k] + y[k] < i32::MIN as i64 + 1 || x[k] - y[k] > i32::MAX as i64 || x[k] - y[k] < i32::MIN as i64 + 1) { continue; }
        let ly = T::lab(y);
        c.evals(1);
        c.nontrivial(&(d, x, y));
        c.check((lx + ly).v3() == add(x, y), &|| format!("{:?} + {:?} = {}", x, y, lx + ly));
        c.check((lx - ly).v3() == sub(x, y), &|| format!("{:?} - {:?} = {}", x, y, lx - ly));
        c.check((lx == ly) == (x == y), &|| format!("{:?} == {:?}", x, y));
        let (o, want) = (lx.cmp(&ly), x.cmp(&y));
        c.check(o == want && lx.partial_cmp(&ly) == Some(want) && (ly - lx).is_positive() == (o == std::cmp::Ordering::Less), &|| format!("{:?} compared with {:?}: {:?}", x, y, o));
        if p && ly.is_positive() { c.check((lx + ly).is_positive(), &|| format!("{:?} + {:?} is not positive", x, y)); }
        if c.failed() { return; }
    }
    if i % 50 == 0 { c.sample(|| format!("{:?} with {} partners", xi, a.len())); }
    c.outcome(if z { "zero" } else if p { "positive" } else { "negative" });
}

fn c14(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for d in 2..=3usize {
        let r = if d == 2 { t.pick(5, 8) } else { t.pick(2, 3) };
        let mut a: Vec<V3> = en::box_vectors(d, -r, r).into_iter().map(|v| { let mut x = [0; 3]; x[..d].copy_from_slice(&v); x }).collect();
        // extreme entries; the most negative one is left out, as it has no negative
        let ext = [0i64, 1, -1, i32::MAX as i64, -(i32::MAX as i64), i32::MAX as i64 - 1, 1 << 20];
        for w in 0..7u64.pow(d as u32) { let g = en::word(w, 7, d); let mut x = [0; 3]; for k in 0..d { x[k] = ext[g[k]]; } if !a.contains(&x) { a.push(x); } }
        let n = a.len() as u64;
        v.push(Space::new(&format!("pairs of labels, dimension {}", d), n, move |i, c| if d == 2 { labels::<L2>(&a, c, i as usize) } else { labels::<L3>(&a, c, i as usize) }));
    }
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C01", level: "exploration", spaces: c01, assumptions: &["positions are compared as fractions of at most 128 bits"],
        rule: "one case per graph of the enumerated families; non-trivial if some vertex has a fractional coordinate" },
    Check { id: "C07", level: "exploration", spaces: c07, assumptions: &[],
        rule: "one case per graph; non-trivial if some component is not the whole, connected net" },
    Check { id: "C08", level: "model_checking", spaces: c08, assumptions: &["sequences are compared up to 6 (12, 45) shells in the plane and 4 (8, 16) in space"],
        rule: "one case per graph (all start vertices) or per graph and interleaving of three iterators; states are (graph, iterator positions); non-trivial if the sequence is not constant from the start" },
    Check { id: "C09", level: "exploration", spaces: c09, assumptions: &[],
        rule: "one case per graph with connected quotient, all vertices and edge vectors looked up; non-trivial if the graph is not stable" },
    Check { id: "C10", level: "exploration", spaces: c10, assumptions: &[],
        rule: "one case per edge set, with all orders (up to four edges), directions and single repetitions" },
    Check { id: "C12", level: "exploration", spaces: c12, assumptions: &[],
        rule: "one case per graph; non-trivial if normalization changes it" },
    Check { id: "C14", level: "exploration", spaces: c14, assumptions: &["no overflow of 32-bit shifts"],
        rule: "one case per label, paired with all labels of the same list; each pair is distinct" },
];
