//! C02-C06, C43, C13: automorphisms, orbits, translations, minimal images, ladders, presentations.
use crate::adapt::*;
use crate::disp;
use crate::fams::*;
use fw::net::*;
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use rust_systre::pgraphs::*;
use rust_systre::symmetries as sy;
use std::collections::{BTreeSet, HashSet};

/// Connected and locally stable?
fn admissible(n: &Net, c: &mut Ctx) -> bool {
    if n.n() == 0 || !n.connected() { c.outcome("skipped: not connected"); return false; }
    if !n.locally_stable() { c.outcome("skipped: not locally stable"); return false; }
    true
}

// ---- C02 --------------------------------------------------------------------------------------

fn group<T: Lab>(n: &Net, i: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    let want = n.auts();
    let exp: Vec<Automorphism<T, W>> = want.iter().map(|a| aut(n, a)).collect();
    let g = graph::<T>(&n.raw());
    let lists = if i % 4 == 0 { vec![("symmetries of the graph", g.symmetries()), ("symmetries", sy::symmetries(&g))] } else { vec![("symmetries of the graph", g.symmetries())] };
    for (what, got) in &lists {
        if !c.check(got.len() == want.len(), &|| format!("{:?}: {} {}, but the group has order {}", n, got.len(), what, want.len())) { return; }
        let mut used = vec![false; exp.len()];
        for (k, a) in got.iter().enumerate() {
            match (0..exp.len()).find(|&j| !used[j] && exp[j] == *a) {
                Some(j) => used[j] = true,
                None => return c.fail(format!("{:?}: element {} of the {} is not an automorphism, or listed twice", n, k, what)),
            }
        }
    }
    let got = &lists[0].1;
    let id = Automorphism::identity(&g);
    c.check(got.iter().filter(|a| **a == id).count() == 1, &|| format!("{:?}: identity not listed exactly once", n));
    // products, as the code composes them
    if want.len() <= 16 || i % 16 == 0 {
        let m = want.len().min(24);
        for x in 0..m { for y in 0..m {
            let p = &exp[x] * &exp[y];
            let comp = fw::net::Aut { m: mm(&want[x].m, &want[y].m), v: want[y].v.iter().map(|&k| want[x].v[k]).collect(), e: want[y].e.iter().map(|&k| want[x].e[k]).collect() };
            let j = want.iter().position(|w| *w == comp).expect("reference group is closed");
            if !c.check(p == exp[j], &|| format!("{:?}: product of automorphisms {:?} and {:?} is wrong", n, want[x], want[y])) { return; }
        } }
    }
    c.outcome(&format!("dimension {} order {}", n.d, want.len()));
    if want.len() > 1 { c.nontrivial(n); c.sample(|| format!("{:?}: order {}", n, want.len())); }
}

/// The comparison used above must tell automorphisms apart by vertex map, edge map and transform alike.
fn distinguishes<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    let auts = n.auts();
    for a in &auts {
        let base = aut::<T>(n, a);
        let mut alt = a.clone();
        for b in &auts {
            if b.m != a.m { alt = Aut { m: b.m, ..a.clone() }; c.check(base != aut(n, &alt), &|| format!("{:?}: equal in spite of transforms", n)); }
            if b.v != a.v { alt = Aut { v: b.v.clone(), ..a.clone() }; c.check(base != aut(n, &alt), &|| format!("{:?}: equal in spite of vertex maps", n)); }
            if b.e != a.e { alt = Aut { e: b.e.clone(), ..a.clone() }; c.check(base != aut(n, &alt), &|| format!("{:?}: equal in spite of edge maps", n)); }
            c.evals(1);
        }
        let _ = &alt;
        c.check(base == aut(n, a), &|| format!("{:?}: not equal to itself", n));
    }
    c.nontrivial(&(n, "eq"));
}

fn c02(t: Tier) -> Vec<Space> {
    let mut v = spaces(symmetric(t), disp!(group));
    v.push(space("equality of automorphisms", plain_named().into_iter().filter(|n| n.edges.len() <= 4).collect(), disp!(distinguishes)));
    v.push(space("chains and unconnected seeds", scrambled(seed_nets(t)), disp!(group)));
    v.push(space("supercells of ladders", scrambled(thin(renumbered(ladder_supers(t), 6), t.pick(7, 1))), disp!(group)));
    v.push(space("supercells of high index", scrambled(large(t)), disp!(group)));
    v.push(space("nets with very many automorphisms", huge(t), disp!(group)));
    v.push(crate::dims::space("C02", t));
    v
}

/// Nets in which no vertex has enough independent edges, so that seeds are chains or scattered edges.
fn seed_nets(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    // subdivisions of small nets: every edge replaced by a path with 1 or 2 inner vertices
    for (_, n) in named() {
        if n.edges.len() > t.pick(4, 6) { continue; }
        for m in 0..3u64.pow(n.edges.len() as u32) {
            let w = fw::en::word(m, 3, n.edges.len());
            if w.iter().sum::<usize>() > t.pick(6, 8) || (m > 0 && w.iter().all(|&x| x == 0)) { continue; }
            let mut raw: Vec<Raw> = vec![];
            let mut next = n.n() as u32 + 1;
            for (k, (h, tl, s)) in n.raw().into_iter().enumerate() {
                let mut cur = h;
                for _ in 0..w[k] { raw.push((cur, next, [0; 3])); cur = next; next += 1; }
                raw.push((cur, tl, s));
            }
            v.push(Net::new(n.d, &raw));
        }
    }
    // nets in which every vertex has its edges in one or two directions only
    for k in 1..=t.pick(3i64, 5) { for l in 1..=3i64 {
        v.push(r3(&[[1, 1, 1, 0, 0], [1, 2, 0, 0, 0], [2, 2, k, 1, 0], [2, 3, 0, 0, 0], [3, 3, 0, l, 1]]));
        v.push(r2(&[[1, 1, 1, 0], [1, 2, 0, 0], [2, 2, k, 1], [2, 3, l, 0], [3, 3, 1, 0]]));
    } }
    // zigzag towers: collinear edges at each vertex
    for k in 2..=t.pick(4u32, 6) {
        let mut raw: Vec<Raw> = vec![];
        for j in 0..k { raw.push((j * 2 + 1, j * 2 + 1, if j % 2 == 0 { [1, 0, 0] } else { [0, 1, 0] })); raw.push((j * 2 + 1, j * 2 + 2, [0; 3])); raw.push((j * 2 + 2, (j + 1) % k * 2 + 1, if j + 1 == k { [0, 0, 1] } else { [0; 3] })); }
        v.push(Net::new(3, &raw));
    }
    v
}

// ---- C03 --------------------------------------------------------------------------------------

fn orbs<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    let auts = n.auts();
    let g = graph::<T>(&n.raw());
    let vo: Vec<Vec<u32>> = n.orbits(&auts.iter().map(|a| &a.v).collect::<Vec<_>>()).into_iter().map(|o| o.into_iter().map(|k| n.ids[k]).collect()).collect();
    let got = g.vertex_orbits();
    if !c.check(sets(&got) == sets(&vo), &|| format!("{:?}: vertex orbits {:?}, expected {:?}", n, got, vo)) { return; }
    let em: Vec<Vec<usize>> = auts.iter().map(|a| (0..n.edges.len()).map(|k| a.e[2 * k] / 2).collect()).collect();
    let eo: Vec<Vec<Raw>> = sorted(orbits(n.edges.len(), &em.iter().collect::<Vec<_>>()).into_iter().map(|o| sorted(o.into_iter().map(|k| raw_dir(n, 2 * k)).collect())).collect());
    let got = g.edge_orbits();
    let gs: Vec<Vec<Raw>> = sorted(got.iter().map(|o| sorted(o.iter().map(|e| unedge(&e.canonical())).collect::<Vec<_>>())).collect());
    if !c.check(gs == eo, &|| format!("{:?}: edge orbits {:?}, expected {:?}", n, gs, eo)) { return; }
    if vo.len() > 1 || eo.len() > 1 { c.nontrivial(n); c.sample(|| format!("{:?}: vertex orbits {:?}", n, vo)); }
    c.outcome(&format!("dimension {}: {} vertex orbits, {} edge orbits", n.d, vo.len(), eo.len()));
}
fn c03(t: Tier) -> Vec<Space> {
    let mut v = spaces(symmetric(t), disp!(orbs));
    v.push(space("chains and unconnected seeds", scrambled(seed_nets(t)), disp!(orbs)));
    v.push(space("supercells of ladders", scrambled(thin(renumbered(ladder_supers(t), 6), t.pick(7, 1))), disp!(orbs)));
    v.push(space("supercells of high index", scrambled(large(t)), disp!(orbs)));
    v.push(space("very large supercells", scrambled(huge(t)), disp!(orbs)));
    v.push(crate::dims::space("C03", t));
    v
}

// ---- C04, C05 -----------------------------------------------------------------------------------

fn translational<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    if !n.stable() { c.outcome("skipped: coinciding vertices"); return; }
    let tr = n.translations(&n.auts());
    let want: Vec<Vec<u32>> = n.orbits(&tr.all.iter().map(|a| &a.0.v).collect::<Vec<_>>()).into_iter().map(|o| o.into_iter().map(|k| n.ids[k]).collect()).collect();
    assert!(want.iter().all(|o| o.len() == tr.index), "reference: orbits of a group acting freely");
    let g = graph::<T>(&n.raw());
    let got = sy::translational_orbits(&g);
    if !c.check(sets(&got) == sets(&want), &|| format!("{:?}: translational orbits {:?}, expected {:?}", n, got, want)) { return; }
    let m = sy::is_minimal(&g);
    c.check(m == (tr.index == 1), &|| format!("{:?}: is_minimal gives {}, index is {}", n, m, tr.index));
    if tr.index > 1 { c.nontrivial(n); c.sample(|| format!("{:?}: {:?}", n, want)); }
    c.outcome(&format!("dimension {} index {}", n.d, tr.index));
}
fn trans_fams(t: Tier) -> Vec<(&'static str, Vec<Net>)> {
    let mut f = symmetric(t);
    f.push(("further supercells", {
        let mut v = fam_super(&named2()[..5], 5, t.pick(6, 9), t.pick(16, 30));
        v.extend(fam_super(&named3()[..4], 3, t.pick(4, 8), t.pick(8, 16)));
        v
    }));
    f.push(("supercells of high index", large(t)));
    f.push(("supercells numbered in various orders", orders(t)));
    f
}
fn c05(t: Tier) -> Vec<Space> {
    let mut v = spaces(trans_fams(t), disp!(translational));
    v.push(space("very large supercells", huge(t), disp!(translational)));
    v.push(crate::dims::space("C05", t));
    v
}

fn image<T: Lab>(n: &Net, c: &mut Ctx, index: usize, orbits: usize) -> Option<Net> {
    let g = graph::<T>(&n.raw());
    let r: Result<Option<G<T>>, String> = attempt(|| sy::minimal_image(&g));
    match r {
        Err(e) => { c.fail(format!("{:?}: minimal_image panics: {}", n, e)); None }
        Ok(None) => { c.check(index == 1, &|| format!("{:?}: no minimal image, although the index is {}", n, index)); None }
        Ok(Some(im)) => {
            let m = read(&im);
            if !c.check(index > 1, &|| format!("{:?}: minimal image {:?} of a minimal net", n, m)) { return None; }
            if !c.check(m.n() == orbits, &|| format!("{:?}: minimal image {:?} has {} vertices, expected {}", n, m, m.n(), orbits)) { return None; }
            if !c.check(m.edges.len() * index == n.edges.len(), &|| format!("{:?}: minimal image {:?} has {} edges, expected {}", n, m, m.edges.len(), n.edges.len() / index)) { return None; }
            if !c.check(m.connected(), &|| format!("{:?}: minimal image {:?} is not connected", n, m)) { return None; }
            if !c.check(m.locally_stable(), &|| format!("{:?}: minimal image {:?} is not locally stable", n, m)) { return None; }
            if !c.check(is_supercell_of(n, &m), &|| format!("{:?}: minimal image {:?} is a different net", n, m)) { return None; }
            let back: Option<G<T>> = sy::minimal_image(&im);
            c.check(back.is_none() && sy::is_minimal(&im), &|| format!("{:?}: minimal image {:?} is not reported minimal", n, m));
            Some(m)
        }
    }
}

fn minimal<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    if !n.stable() { c.outcome("skipped: coinciding vertices"); return; }
    let tr = n.translations(&n.auts());
    if let Some(m) = image::<T>(n, c, tr.index, n.n() / tr.index) {
        let t2 = m.translations(&m.auts());
        c.check(t2.index == 1, &|| format!("{:?}: minimal image {:?} still has {} translations", n, m, t2.index));
        c.nontrivial(n);
        c.sample(|| format!("{:?} -> {:?}", n, m));
    }
    c.outcome(&format!("dimension {} index {}", n.d, tr.index));
}
fn c04(t: Tier) -> Vec<Space> {
    let mut v = spaces(trans_fams(t), disp!(minimal));
    // those with marks, as the comparison of nets takes long when the index is large
    v.push(space("very large supercells", huge(t).into_iter().filter(|n| n.edges.len() * 2 % n.n() != 0).collect(), disp!(minimal)));
    v.push(crate::dims::space("C04", t));
    v
}

// ---- C06, C43 -----------------------------------------------------------------------------------

fn ladders<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    let tr = n.translations(&n.auts());
    // translations moving no position modulo the lattice, but every vertex
    let rungs: Vec<&Aut> = tr.all.iter().filter(|x| x.1.iter().all(|q| q.is_zero()) && x.0.v != (0..n.n()).collect::<Vec<_>>()).map(|x| &x.0).collect();
    for a in &rungs { assert!(a.v.iter().enumerate().all(|(i, &j)| i != j), "reference: {:?} has a ladder map with fixed points", n); }
    let g = graph::<T>(&n.raw());
    let (got, want) = (sy::is_ladder(&g), !rungs.is_empty());
    if !c.check(got == want, &|| format!("{:?}: is_ladder gives {}, expected {}", n, got, want)) { return; }
    let list = sy::ladder_symmetries(&g);
    let exp: Vec<Automorphism<T, W>> = rungs.iter().map(|a| aut(n, a)).collect();
    if !c.check(list.len() == exp.len(), &|| format!("{:?}: {} ladder symmetries, expected {}", n, list.len(), exp.len())) { return; }
    let mut used = vec![false; exp.len()];
    for a in &list { match (0..exp.len()).find(|&j| !used[j] && exp[j] == *a) { Some(j) => used[j] = true, None => return c.fail(format!("{:?}: wrong ladder symmetry", n)) } }
    if want { c.nontrivial(n); c.sample(|| format!("{:?}: {} ladder symmetries", n, exp.len())); }
    c.outcome(&format!("dimension {} stable {} ladder symmetries {}", n.d, n.stable(), exp.len()));
}
fn ladder_fams(t: Tier) -> Vec<(&'static str, Vec<Net>)> {
    let mut f = symmetric(t);
    let mut v = vec![];
    // covers of supercells, so that ladder maps and translations interact
    for (_, n) in named2().into_iter().take(t.pick(3, 6)) { for k in 2..=t.pick(2i64, 3) { for h in hermites(2, k) {
        let s = n.supercell(&h);
        if s.edges.len() > t.pick(7, 10) { continue; }
        for x in 0..1u64 << s.edges.len() { if x % t.pick(1, 1) != 0 { continue; }
            for rungs in [true, false] {
                let p: Vec<Vec<usize>> = (0..s.edges.len()).map(|e| if x >> e & 1 == 1 { vec![1, 0] } else { vec![0, 1] }).collect();
                v.push(s.sheets(2, &p, rungs));
            } }
    } } }
    f.push(("renumbered covers of supercells", renumbered(v.iter().filter(|n| n.n() <= t.pick(6, 8)).step_by(3).cloned().collect(), t.pick(12, 60))));
    f.push(("covers of supercells", v));
    // three sheets with a ring or path of rungs
    let mut v = vec![];
    for (_, n) in named2().into_iter().take(4) { if n.edges.len() > 3 { continue; } for ring in [false, true] {
        let ps = fw::en::permutations(3);
        for x in 0..6u64.pow(n.edges.len() as u32) {
            let w = fw::en::word(x, 6, n.edges.len());
            let mut raw = n.sheets(3, &w.iter().map(|&k| ps[k].clone()).collect::<Vec<_>>(), true).raw();
            if ring { for q in 0..n.n() { raw.push(((2 * n.n() + q + 1) as u32, (q + 1) as u32, [0; 3])); } }
            v.push(Net::new(n.d, &raw));
        }
    } }
    f.push(("three sheets with rungs", v));
    f.push(("supercells of ladders with up to five sheets", renumbered(ladder_supers(t), t.pick(3, 24))));
    f.push(("supercells of high index", thin(large(t), t.pick(3, 1))));
    f.push(("ladders of high index", thin(wide_ladders(t), t.pick(2, 1))));
    f
}
/// Cyclic covers with m sheets in which the sheets meet (ladders with m sheets), with at most k per net.
fn cyclic(n: &Net, m: usize, k: usize) -> Vec<Net> {
    let mut lab: Vec<usize> = (0..n.n()).collect();
    let free: Vec<usize> = (0..n.edges.len()).filter(|&e| { let (a, b) = (lab[n.edges[e].0], lab[n.edges[e].1]); if a == b { return true; } for l in lab.iter_mut() { if *l == a { *l = b } } false }).collect();
    let mut res = vec![];
    for x in 1..(m as u64).pow(free.len() as u32) {
        let w = fw::en::word(x, m as u64, free.len());
        let p: Vec<Vec<usize>> = (0..n.edges.len()).map(|e| { let s = free.iter().position(|&f| f == e).map_or(0, |i| w[i]); (0..m).map(|l| (l + s) % m).collect() }).collect();
        let c = n.sheets(m, &p, false);
        if c.connected() && c.locally_stable() && !c.stable() { res.push(c); if res.len() == k { break; } }
    }
    res
}
/// Supercells of ladders with two to five sheets, numbered in many ways: which translations come first depends on it.
fn ladder_supers(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    for (_, n) in named2().into_iter().chain(named3()) { if n.edges.len() > t.pick(4, 6) { continue; }
        for m in 2..=5usize { for c in cyclic(&n, m, t.pick(3, 12)) {
            for k in 1..=t.pick(if n.d == 2 { 4i64 } else { 2 }, if n.d == 2 { 6 } else { 4 }) { if c.n() * k as usize > t.pick(10, 16) { continue; }
                for h in hermites(n.d, k) { v.push(c.supercell(&h)); } }
        } } }
    v
}
/// Ladders with many sheets, and supercells of high index of ladders with few.
fn wide_ladders(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    for (i, (_, n)) in named2().into_iter().chain(named3()).enumerate() {
        let top = t.pick(24, 40) / n.n();
        for m in [top, top - top / 3, 7, 6] { if m >= 6 && m <= top { v.extend(cyclic(&n, m, t.pick(1, 3))); } }
        for m in 2..=3 { let k = (top / m) as i64; if k < 4 { continue; }
            for c in cyclic(&n, m, t.pick(1, 2)) { let hs = hermites(n.d, k - (i as i64 + m as i64) % 2); let step = (hs.len() / t.pick(2, 4)).max(1); for h in hs.iter().skip(i % step).step_by(step) { v.push(c.supercell(h)); } } }
    }
    v
}
fn huge_ladders(t: Tier) -> Vec<Net> {
    let mut v = vec![];
    let (a, b) = (named2(), named3());
    for m in t.pick(vec![66usize], vec![66, 130]) { v.extend(cyclic(&a[1].1, m, 1)); }
    for k in t.pick(vec![34i64], vec![34, 66]) { for c in cyclic(&a[1].1, 2, 1).into_iter().chain(if t == Tier::Thorough { cyclic(&b[2].1, 2, 1) } else { vec![] }) {
        v.push(c.supercell(&[[k, 0, 0], [0, 1, 0], [0, 0, 1]]));
        v.push(c.supercell(&[[1, 0, 0], [0, k, 0], [0, 0, 1]])); } }
    let w: Vec<Net> = v.iter().map(|n| n.relabel(&(1..=n.n() as u32).rev().collect::<Vec<_>>())).collect();
    // the vertex at the place of the first one comes last
    let x: Vec<Net> = v.iter().map(|n| { let p = n.positions(); let k = (1..n.n()).rev().find(|&k| (0..n.d).all(|i| (p[k][i] - p[0][i]).is_int())).unwrap_or(0);
        let mut ids: Vec<u32> = (1..=n.n() as u32).collect(); let l = ids.len() - 1; ids.swap(k, l); n.relabel(&ids) }).collect();
    [v, w, x].concat()
}
fn c06(t: Tier) -> Vec<Space> {
    let mut v = spaces(ladder_fams(t), disp!(ladders));
    v.push(space("very large ladders", huge_ladders(t), disp!(ladders)));
    v.push(crate::dims::space("C06", t));
    v
}

/// Does some subgroup of the translational automorphisms meet the ladder maps trivially and map onto all displacements?
fn split(tr: &Translations) -> Option<Vec<Vec<usize>>> {
    let all: Vec<Vec<usize>> = tr.all.iter().map(|x| x.0.v.clone()).collect();
    let disp: Vec<&Vec<Q>> = tr.all.iter().map(|x| &x.1).collect();
    let comp = |a: &Vec<usize>, b: &Vec<usize>| -> Vec<usize> { b.iter().map(|&k| a[k]).collect() };
    let idn: Vec<usize> = (0..all[0].len()).collect();
    let gen = |gs: &[usize]| -> Option<BTreeSet<Vec<usize>>> {
        let mut s: BTreeSet<Vec<usize>> = BTreeSet::from([idn.clone()]);
        let mut q = vec![idn.clone()];
        while let Some(x) = q.pop() { for &g in gs { let y = comp(&all[g], &x); if s.insert(y.clone()) { q.push(y); if s.len() > tr.index { return None; } } } }
        Some(s)
    };
    let cand: Vec<usize> = (0..all.len()).collect();
    let ok = |s: &BTreeSet<Vec<usize>>| s.len() == tr.index && s.iter().map(|v| disp[all.iter().position(|a| a == v).unwrap()]).collect::<HashSet<_>>().len() == tr.index;
    if tr.index == 1 { return Some(vec![idn]); }
    for &a in &cand { if let Some(s) = gen(&[a]) { if ok(&s) { return Some(s.into_iter().collect()); } } }
    for &a in &cand { for &b in &cand { if b > a { if let Some(s) = gen(&[a, b]) { if ok(&s) { return Some(s.into_iter().collect()); } } } } }
    None
}

fn ladder_classes<T: Lab>(n: &Net, _: u64, c: &mut Ctx) {
    if !admissible(n, c) { return; }
    if n.stable() { c.outcome("skipped: stable"); return; }
    let tr = n.translations(&n.auts());
    if tr.all.len() == tr.index { c.outcome("skipped: no ladder"); return; }
    if split(&tr).is_none() { c.outcome("skipped: extension does not split"); return; }
    let g = graph::<T>(&n.raw());
    let got = match attempt(|| sy::translational_orbits(&g)) { Ok(x) => x, Err(e) => return c.fail(format!("{:?}: translational_orbits panics: {}", n, e)) };
    let gs = sets(&got);
    if !c.check(gs.iter().all(|o| o.len() == tr.index) && gs.concat().len() == n.n(), &|| format!("{:?}: translational orbits {:?}, index {}", n, got, tr.index)) { return; }
    let (l, ps, _) = n.scaled();
    for o in &gs {
        let pos: HashSet<V3> = o.iter().map(|v| { let p = ps[n.ids.iter().position(|x| x == v).unwrap()]; [p[0].rem_euclid(l), p[1].rem_euclid(l), p[2].rem_euclid(l)] }).collect();
        if !c.check(pos.len() == o.len(), &|| format!("{:?}: orbit {:?} has two vertices at one position", n, o)) { return; }
    }
    // the orbits come from a group: the translational automorphisms mapping each orbit to itself act transitively on it
    let keep: Vec<&Vec<usize>> = tr.all.iter().map(|x| &x.0.v).filter(|v| gs.iter().all(|o| o.iter().all(|a| { let i = n.ids.iter().position(|x| x == a).unwrap(); o.contains(&n.ids[v[i]]) }))).collect();
    let ro: Vec<Vec<u32>> = n.orbits(&keep).into_iter().map(|o| o.into_iter().map(|k| n.ids[k]).collect()).collect();
    if !c.check(sets(&ro) == gs, &|| format!("{:?}: translational orbits {:?} are not those of a group of translational automorphisms", n, got)) { return; }
    image::<T>(n, c, tr.index, n.n() / tr.index);
    if tr.index > 1 { c.nontrivial(n); c.sample(|| format!("{:?}: {:?}", n, got)); }
    c.outcome(&format!("dimension {} index {} ladder maps {}", n.d, tr.index, tr.all.len() / tr.index));
}
fn c43(t: Tier) -> Vec<Space> { spaces(ladder_fams(t), disp!(ladder_classes)) }

// ---- C13 --------------------------------------------------------------------------------------

#[derive(PartialEq, Debug, Clone)]
struct Inv { conn: bool, stable: bool, local: bool, second: bool, seqs: Vec<Vec<usize>>, sym: Option<(usize, Vec<usize>, Vec<usize>, bool, Option<bool>, Option<Vec<usize>>)> }

fn invariants<T: Lab>(g: &G<T>, adm: bool, stable: bool) -> Inv {
    let mut seqs: Vec<Vec<usize>> = g.vertices().iter().map(|v| g.coordination_sequence(v).take(4).collect()).collect();
    seqs.sort();
    Inv { conn: g.is_connected(), stable: g.is_stable(), local: g.is_locally_stable(), second: g.has_second_order_collisions(), seqs,
        sym: if adm { Some((g.symmetries().len(), sizes(&g.vertex_orbits()), sizes(&g.edge_orbits()), sy::is_ladder(g),
            if stable { Some(sy::is_minimal(g)) } else { None }, if stable { Some(sizes(&sy::translational_orbits(g))) } else { None })) } else { None } }
}

fn presentation<T: Lab>(n: &Net, i: u64, c: &mut Ctx) {
    if n.n() == 0 || !n.quotient_connected() { c.outcome("quotient not connected"); return; }
    let d = n.d;
    let adm = n.connected() && n.locally_stable();
    let stable = n.stable();
    let g0 = graph::<T>(&n.raw());
    let base = invariants(&g0, adm, stable);
    let p0: Vec<Vec<Q>> = n.ids.iter().map(|v| qs(g0.position(v).iter()).unwrap_or_default()).collect();
    if adm { c.nontrivial(n); }
    c.outcome(&format!("dimension {} with symmetries {}", d, adm));
    let us = unimodulars(d);
    let cells: Vec<V3> = (0..n.n() as i64).map(|k| [(k * k) % 3 - 1, if d > 1 { k % 4 - 2 } else { 0 }, if d == 3 { (k * 2) % 3 } else { 0 }]).collect();
    let nz: Vec<V3> = vec![[0; 3]; n.n()];
    let ids = |k: u64| id_scheme(k, n.n());
    // (description, vertex names, matrix, cells)
    let mut vars: Vec<(String, Vec<u32>, Mat3, Vec<V3>)> = vec![];
    for k in 1..4 { vars.push((format!("renamed {}", k), ids(k), I3, nz.clone())); }
    if let Some(p) = fw::en::permutations(n.n().min(5)).into_iter().nth(1 + (i as usize) % 5) { if n.n() <= 5 { vars.push(("permuted".into(), p.iter().map(|&x| x as u32 + 1).collect(), I3, nz.clone())); } }
    for m in &us { vars.push(("new basis".into(), n.ids.clone(), *m, nz.clone())); }
    vars.push(("new cells".into(), n.ids.clone(), I3, cells.clone()));
    vars.push(("all changed".into(), ids(1 + i % 3), us[i as usize % us.len()], cells.clone()));
    for (what, names, m, cl) in vars {
        let x = n.gauge(&cl).basis(&m);
        // rename without losing the correspondence of vertices
        let raw: Vec<Raw> = x.edges.iter().map(|&(h, t, s)| (names[h], names[t], s)).collect();
        let g = graph::<T>(&raw);
        c.evals(1);
        let inv = invariants(&g, adm, stable);
        if !c.check(inv == base, &|| format!("{:?} {} as {:?}: {:?} instead of {:?}", n, what, raw, inv, base)) { return; }
        // positions: p' = M (p + cell) up to one translation
        let off = |v: usize| -> Option<Vec<Q>> {
            let q = qs(g.position(&names[v]).iter())?;
            Some((0..d).map(|r| q[r] - (0..d).fold(Q::ZERO, |s, k| s + Q::int(m[r][k] as i128) * (p0[v][k] + Q::int(cl[v][k] as i128)))).collect())
        };
        let o0 = off(0);
        for v in 0..n.n() { let o = off(v); if !c.check(o.is_some() && o == o0, &|| format!("{:?} {} as {:?}: position of vertex {} does not correspond", n, what, raw, names[v])) { return; } }
        if adm {
            let ren = |o: &Vec<Vec<u32>>| -> Vec<Vec<u32>> { o.iter().map(|c| c.iter().map(|v| names[n.ids.iter().position(|x| x == v).unwrap()]).collect()).collect() };
            let (a, b) = (sets(&ren(&g0.vertex_orbits())), sets(&g.vertex_orbits()));
            if !c.check(a == b, &|| format!("{:?} {} as {:?}: vertex orbits {:?}, expected {:?}", n, what, raw, b, a)) { return; }
            // edge orbits
            let img = |e: &Edge<T, W>| -> Raw { let r = unedge(e);
                let (h, t) = (n.ids.iter().position(|x| *x == r.0).unwrap(), n.ids.iter().position(|x| *x == r.1).unwrap());
                unedge(&edge::<T>(&(names[h], names[t], mv(&m, sub(add(r.2, cl[h]), cl[t])))).canonical()) };
            let a: Vec<Vec<Raw>> = sorted(g0.edge_orbits().iter().map(|o| sorted(o.iter().map(|e| img(e)).collect())).collect());
            let b: Vec<Vec<Raw>> = sorted(g.edge_orbits().iter().map(|o| sorted(o.iter().map(|e| unedge(&e.canonical())).collect())).collect());
            if !c.check(a == b, &|| format!("{:?} {} as {:?}: edge orbits {:?}, expected {:?}", n, what, raw, b, a)) { return; }
        }
    }
    // supercells
    if n.n() <= 3 { for k in 2..=3i64 { for h in hermites(d, k) {
        let s = n.supercell(&h);
        if s.n() > 8 { continue; }
        let g = graph::<T>(&s.raw());
        c.evals(1);
        c.check(g.is_connected() == base.conn, &|| format!("{:?}: connectivity differs in the supercell {:?}", n, h));
        if s.quotient_connected() { c.check(g.is_locally_stable() == base.local, &|| format!("{:?}: local stability differs in the supercell {:?}", n, h)); }
        for v in 0..n.n() { let want: Vec<usize> = g0.coordination_sequence(&n.ids[v]).take(4).collect();
            for j in 0..k as usize { let got: Vec<usize> = g.coordination_sequence(&((v * k as usize + j) as u32 + 1)).take(4).collect();
                if !c.check(got == want, &|| format!("{:?}: coordination sequence of {} becomes {:?} instead of {:?} in the supercell {:?}", n, n.ids[v], got, want, h)) { return; } } }
    } } }
    c.sample(|| format!("{:?}: {:?}", n, base));
}

fn c13(t: Tier) -> Vec<Space> {
    let l2 = half_vectors(2, 1);
    let fams = vec![
        ("one vertex, plane", fam_one(2, t.pick(1, 2), 2, t.pick(3, 3))),
        ("two vertices, plane", fam_two(2, t.pick(2, 2), &l2[..t.pick(2, 4)], 1)),
        ("three vertices, plane", fam_three(2, &[[0; 3], [1, 0, 0]], &[[0; 3], [0, 1, 0]], &[[1, -1, 0]], &[[1, 0, 0], [0, 1, 0]][..t.pick(1, 2)])),
        ("one vertex, space", fam_one(3, 1, 3, t.pick(3, 3)).into_iter().step_by(t.pick(4, 1)).collect()),
        ("two vertices, space", fam_two(3, 1 + t.pick(0, 1), &[[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1)),
        ("named nets", plain_named()),
        ("periodic in one direction", thin(line(t), t.pick(4, 1))),
        ("supercells of ladders", thin(ladder_supers(t), t.pick(23, 3))),
        ("orbits of edges under groups", thin(orbital(t), t.pick(9, 2))),
        ("supercells of high index", thin(large(t), t.pick(9, 2))),
        ("covers", { let mut v = fam_sheets2(&named2()[..t.pick(3, 8)], 4); v.extend(fam_super(&named2(), 2, t.pick(2, 3), 8)); v }),
    ];
    fams.into_iter().map(|(n, v)| space(n, v, disp!(presentation))).collect()
}

pub const CHECKS: &[Check] = &[
    Check { id: "C02", level: "exploration", spaces: c02, assumptions: &["the reference enumerates automorphisms from all images of d independent edges"],
        rule: "one case per graph of the enumerated families; skipped unless connected and locally stable; non-trivial if the group is" },
    Check { id: "C03", level: "exploration", spaces: c03, assumptions: &["the reference enumerates automorphisms from all images of d independent edges"],
        rule: "one case per graph; non-trivial if there is more than one vertex or edge orbit" },
    Check { id: "C04", level: "exploration", spaces: c04, assumptions: &["isomorphism of the nets is decided by comparing with all supercells of the image of the right index"],
        rule: "one case per graph; non-trivial if the net has a proper minimal image" },
    Check { id: "C05", level: "exploration", spaces: c05, assumptions: &[],
        rule: "one case per graph; non-trivial if the net has additional translations" },
    Check { id: "C06", level: "exploration", spaces: c06, assumptions: &[],
        rule: "one case per graph; non-trivial if the net is a ladder" },
    Check { id: "C13", level: "exploration", spaces: c13, assumptions: &["coordination sequences are compared up to four shells"],
        rule: "one case per graph, with 8 to 12 other presentations and all small supercells; non-trivial if symmetries are compared" },
    Check { id: "C43", level: "exploration", spaces: c43, assumptions: &["ladders whose translations do not split are left out"],
        rule: "one case per graph; non-trivial if the net is a ladder with additional translations" },
];
