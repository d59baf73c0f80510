//! C47: executions interpreted by Miri.  usage: sound GROUP FROM TO | sound GROUP count
//! Prints CASE before each case, BAD for a wrong answer, DONE at the end.
use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::geometry;
use rust_systre::io::parse_cgd_blocks::parse_blocks;
use rust_systre::io::parse_cgd_line::parse_cgd_line;
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use rust_systre::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::partitions::Partition;
use rust_systre::pgraphs::*;
use rust_systre::symmetries as sy;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Neg, Sub};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct W;
type L2 = LabelVector2d<W>;
type L3 = LabelVector3d<W>;
type Vector_<T> = geometry::Vector<T, W>;
type Point_<T> = geometry::Point<T, W>;
type AffineMap_<T> = geometry::AffineMap<T, W>;
type ScalarProduct_<T> = geometry::ScalarProduct<T, W>;
type G<T> = Graph<T, W>;

fn bad(what: String) { println!("BAD {}", what); }

// ---- graphs -------------------------------------------------------------------------------------

/// edges of small connected graphs; the first four plane
const NETS: &[(usize, &[[i32; 5]])] = &[
    (2, &[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0]]),
    (2, &[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0]]),
    (2, &[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 2, 0, 0, 0]]),
    (2, &[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 2, 0, 0, 0], [1, 3, 0, 0, 0]]),
    (3, &[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1]]),
    (3, &[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 2, 0, 0, 1]]),
    (2, &[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [2, 3, 0, 0, 0], [3, 1, 0, 1, 0]]),
    (3, &[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [2, 2, 0, 1, 0], [1, 1, 0, 0, 1]]),
];
const CHEAP: usize = 17;
const SOME: [usize; 11] = [0, 1, 2, 4, 7, 8, 9, 10, 12, 13, 14];
const ALL: usize = 25;

fn make<T: LabelVector<W>>(k: usize) -> G<T> {
    let es: Vec<Edge<T, W>> = NETS[k].1.iter().map(|e| Edge::new(e[0] as u32, e[1] as u32, T::from_vec(&e[2..2 + NETS[k].0]))).collect();
    Graph::new(&es)
}
fn ed<T: LabelVector<W>>(e: &Edge<T, W>) -> (u32, u32, Vec<i32>) { (e.head, e.tail, e.shift.to_vec()) }
fn eds<T: LabelVector<W>>(v: &[Edge<T, W>]) -> String { format!("{:?}", v.iter().map(ed).collect::<Vec<_>>()) }
fn pt(p: &Point) -> String { format!("{:?}", p.iter().map(|x| x.to_string()).collect::<Vec<_>>()) }
fn whole<T: LabelVector<W>>(g: &G<T>) -> String { let mut s = eds(&g.directed_edges()); for v in g.vertices() { s += &pt(&g.position(&v)) } s }
fn syms<T: LabelVector<W>>(v: Vec<Automorphism<T, W>>) -> String {
    let mut s: Vec<u64> = v.iter().map(|a| { let mut h = std::collections::hash_map::DefaultHasher::new(); a.hash(&mut h); h.finish() }).collect();
    s.sort();
    format!("{:?}", s)
}
fn groups(v: Vec<Vec<u32>>) -> String { format!("{:?}", v.into_iter().map(|c| c.into_iter().collect::<BTreeSet<_>>()).collect::<BTreeSet<_>>()) }

fn ask<T: LabelVector<W>>(k: usize, g: &G<T>, op: usize) -> String {
    let s = NETS[k].1;
    let e = Edge::<T, W>::new(s[0][0] as u32, s[0][1] as u32, T::from_vec(&s[0][2..2 + NETS[k].0]));
    let last = s.iter().flat_map(|e| [e[0], e[1]]).max().unwrap() as u32;
    match op {
        0 => format!("{:?}", g.vertices()),
        1 => eds(&g.directed_edges()),
        2 => eds(&g.incidences(&1)),
        3 => eds(&g.incidences(&last)),
        4 => pt(&g.position(&last)),
        5 => pt(&g.position(&1)),
        6 => pt(&g.position_normalized(&last)),
        7 => { let d = g.edge_vector(&e); format!("{:?}", d.iter().map(|x| x.to_string()).collect::<Vec<_>>()) }
        8 => { let d = g.edge_vector(&e); format!("{:?}", g.edge_by_unique_delta(&1, &d).map(|e| ed(&e))) }
        9 => { let z: Vector = (0..NETS[k].0).map(|_| BigRational::from(BigInt::from(7))).collect(); format!("{:?}", g.edge_by_unique_delta(&(last + 1), &z).map(|e| ed(&e))) }
        10 => g.is_stable().to_string(),
        11 => g.is_locally_stable().to_string(),
        12 => g.has_second_order_collisions().to_string(),
        13 => format!("{:?}", g.coordination_sequence(&last).take(2).collect::<Vec<_>>()),
        14 => whole(&g.shift_normalized()),
        15 => format!("{} {:?}", g.is_connected(), graph_component_measures(g, &last)),
        16 => format!("{:?}", graph_component_measures(g, &1)),
        17 => syms(g.symmetries()),
        18 => groups(g.vertex_orbits()),
        19 => format!("{:?}", g.edge_orbits().iter().map(|o| o.iter().map(|e| ed(&e.canonical())).collect::<BTreeSet<_>>()).collect::<BTreeSet<_>>()),
        20 => sy::is_ladder(g).to_string(),
        21 => syms(sy::ladder_symmetries(g)),
        22 => groups(sy::translational_orbits(g)),
        23 => sy::is_minimal(g).to_string(),
        _ => sy::minimal_image::<T, T, W, W>(g).map(|m| whole(&m)).unwrap_or("none".into()),
    }
}
fn history<T: LabelVector<W>>(k: usize, word: &[usize]) {
    let g = make::<T>(k);
    let mut it = g.coordination_sequence(&1);
    let mut n = vec![];
    let mut held = vec![];
    for &op in word { held.push((op, ask(k, &g, op))); n.extend(it.next()); }
    if word.len() > 2 { for (op, a) in held.iter().rev() { let b = ask(k, &g, *op); if *a != b { bad(format!("query {} first says {} and later {}", op, a, b)) } } }
    let h = make::<T>(k);
    if n != h.coordination_sequence(&1).take(word.len()).collect::<Vec<_>>() { bad(format!("shells {:?}", n)) }
}
fn hist(k: usize, word: &[usize]) { if NETS[k].0 == 2 { history::<L2>(k, word) } else { history::<L3>(k, word) } }

// ---- partitions ---------------------------------------------------------------------------------

fn name(i: usize) -> String { format!("element {}", i) }
fn partition_word(word: &[usize]) {
    let mut p: Partition<String> = Partition::new();
    let mut cl = [0usize, 1, 2];
    let mut held: Vec<String> = vec![];
    for &op in word {
        match op {
            0..=2 => { let r = p.find(&name(op)); if (0..3).all(|i| r != name(i) || cl[i] != cl[op]) { bad(format!("find {} is {}", op, r)) } held.push(r); }
            3 => { let all: Vec<String> = (0..3).map(name).collect(); let c = p.classes(&all); let k: BTreeSet<usize> = cl.iter().cloned().collect(); if c.len() != k.len() || c.iter().flatten().count() != 3 { bad(format!("classes {:?}", c)) } held.extend(c.into_iter().flatten()); }
            _ => { let (a, b) = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)][op - 4]; p.unite(&name(a), &name(b)); let (x, y) = (cl[a], cl[b]); for c in cl.iter_mut() { if *c == y { *c = x } } }
        }
    }
    for h in held { if !h.starts_with("element ") { bad(format!("an answer became {}", h)) } }
}

// ---- call-backs ---------------------------------------------------------------------------------

thread_local! {
    static ARMED: Cell<(u8, u32)> = Cell::new((0, 0));
    static CALL: std::cell::RefCell<Option<Rc<dyn Fn()>>> = std::cell::RefCell::new(None);
}
/// A call-back at the n-th use of the hook that is armed.
fn hook(h: u8) {
    let (k, n) = ARMED.with(|a| a.get());
    if k != h || n == 0 { return }
    ARMED.with(|a| a.set((k, n - 1)));
    if n == 1 { let f = CALL.with(|c| c.borrow().clone()); if let Some(f) = f { f() } }
}
fn arm(h: u8, n: u32, f: Rc<dyn Fn()>) { CALL.with(|c| *c.borrow_mut() = Some(f)); ARMED.with(|a| a.set((h, n))); }
fn disarm() -> bool { let (_, n) = ARMED.with(|a| a.replace((0, 0))); CALL.with(|c| *c.borrow_mut() = None); n == 0 }

struct El(u32, String);
fn el(i: u32) -> El { El(i, format!("element {}", i)) }
impl Clone for El { fn clone(&self) -> El { hook(1); El(self.0, self.1.clone()) } }
impl PartialEq for El { fn eq(&self, o: &El) -> bool { hook(2); self.0 == o.0 } }
impl Eq for El {}
impl Hash for El { fn hash<H: Hasher>(&self, h: &mut H) { hook(3); self.0.hash(h) } }

const REENTER: usize = 3 * 4 * 4 * 3 * 2;
fn reenter(case: usize) {
    let (hk, nth, outer, inner, state) = (case % 3, case / 3 % 4, case / 12 % 4, case / 48 % 3, case / 144);
    let mut p = Partition::new();
    for i in 0..3 { p.find(&el(i)); }
    if state == 1 { p.unite(&el(0), &el(1)); }
    let class = |i: u32| if i == 1 && state == 1 { 0 } else { i };
    let p = Rc::new(p);
    let q = p.clone();
    arm(hk as u8 + 1, nth as u32 + 1, Rc::new(move || match inner {
        0 => { let x = q.find(&el(2)); if x.0 != 2 || x.1 != "element 2" { bad(format!("inner find 2 is {} {}", x.0, x.1)) } }
        1 => for i in 0..40 { let x = q.find(&el(100 + i)); if x.0 != 100 + i { bad(format!("inner find {} is {}", 100 + i, x.0)) } },
        _ => { let c = q.classes(&[el(0), el(1), el(2), el(3)]); if c.len() != 4 - state { bad(format!("inner classes: {}", c.len())) } }
    }));
    let r = catch_unwind(AssertUnwindSafe(|| match outer {
        0 | 1 => { let i = [1, 7][outer]; let x = p.find(&el(i)); if x.1 != format!("element {}", x.0) || class(x.0) != class(i) { bad(format!("find {} is {} {}", i, x.0, x.1)) } }
        2 => { let c = p.classes(&[el(2), el(1), el(0)]); let s: BTreeSet<BTreeSet<u32>> = c.iter().map(|c| c.iter().map(|x| x.0).collect()).collect(); if s.len() != 3 - state || s.iter().map(|c| c.len()).sum::<usize>() != 3 { bad(format!("classes {:?}", s)) } }
        _ => { let c = p.classes(&[el(8), el(9), el(8)]); if c.len() != 2 { bad(format!("{} classes of new elements", c.len())) } }
    }));
    disarm();
    // whatever happened, what the partition says afterwards is right
    let after = catch_unwind(AssertUnwindSafe(|| [0, 1, 2, 7, 8, 9].iter().map(|i| p.find(&el(*i)).0).collect::<Vec<_>>()));
    match after {
        Ok(a) => for i in 0..6 { for j in 0..6 { if (a[i] == a[j]) != (class(i as u32) == class(j as u32)) { bad(format!("afterwards {:?}", a)) } } },
        Err(_) => {} // refused
    }
    let _ = r;
}

/// A label that calls back.
#[derive(Debug)]
struct Lb(i32, i32);
impl Clone for Lb { fn clone(&self) -> Lb { hook(1); Lb(self.0, self.1) } }
impl Copy for Lb {}
impl PartialEq for Lb { fn eq(&self, o: &Lb) -> bool { hook(2); (self.0, self.1) == (o.0, o.1) } }
impl Eq for Lb {}
impl Hash for Lb { fn hash<H: Hasher>(&self, h: &mut H) { hook(3); (self.0, self.1).hash(h) } }
impl PartialOrd for Lb { fn partial_cmp(&self, o: &Lb) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Lb { fn cmp(&self, o: &Lb) -> std::cmp::Ordering { hook(4); (self.0, self.1).cmp(&(o.0, o.1)) } }
impl Neg for Lb { type Output = Lb; fn neg(self) -> Lb { hook(5); Lb(-self.0, -self.1) } }
impl Add for Lb { type Output = Lb; fn add(self, o: Lb) -> Lb { hook(6); Lb(self.0 + o.0, self.1 + o.1) } }
impl Sub for Lb { type Output = Lb; fn sub(self, o: Lb) -> Lb { hook(6); Lb(self.0 - o.0, self.1 - o.1) } }
impl LabelVector<W> for Lb {
    fn dim() -> usize { 2 }
    fn zero() -> Lb { Lb(0, 0) }
    fn is_zero(&self) -> bool { hook(7); self.0 == 0 && self.1 == 0 }
    fn is_negative(&self) -> bool { hook(7); self.0 < 0 || self.0 == 0 && self.1 < 0 }
    fn is_positive(&self) -> bool { hook(7); self.0 > 0 || self.0 == 0 && self.1 > 0 }
    fn to_vec(&self) -> Vec<i32> { hook(8); vec![self.0, self.1] }
    fn from_vec(v: &[i32]) -> Lb { Lb(v[0], v[1]) }
}
const INNER: [usize; 4] = [9, 1, 4, 15];
const OUTER: [usize; 6] = [8, 1, 4, 12, 13, 14];
const HOOKS: usize = 8;
/// (cases with the call-back at the last use, on the first net; all)
const LABELS: [usize; 2] = [HOOKS * 2 * 6 * 2, HOOKS * 2 * 6 * 4 * 4];
fn labels(case: usize) {
    let (hk, warm, outer, inner, nth, k) = (case % HOOKS, case / 8 % 2, OUTER[case / 16 % 6], INNER[case / 96 % 4], case / 384 % 4, case / 1536);
    let prepare = || { let g = make::<Lb>(k); if warm == 1 { for op in [1, 4, 8] { ask(k, &g, op); } } Rc::new(g) };
    let h = prepare();
    arm(hk as u8 + 1, u32::MAX, Rc::new(|| ()));
    let want = ask(k, &h, outer);
    let used = u32::MAX - ARMED.with(|a| a.get()).1;
    disarm();
    let at = match nth { 0 => used, 1 => 1, 2 => used / 2, _ => used.saturating_sub(1) };
    if at == 0 { return }
    let g = prepare();
    let h = g.clone();
    arm(hk as u8 + 1, at, Rc::new(move || { let a = ask(k, &h, inner); if a.is_empty() { bad("no answer".into()) } }));
    let r = catch_unwind(AssertUnwindSafe(|| ask(k, &g, outer)));
    disarm();
    if let Ok(r) = r { if r != want { bad(format!("query {} with query {} called back says {} instead of {}", outer, inner, r, want)) } }
}

// ---- misuse -------------------------------------------------------------------------------------
// Only memory matters: what is refused elsewhere may be answered or refused here.

fn quietly<R, F: FnOnce() -> R>(f: F) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }
type M<T> = Matrix<T>;
fn mat(nr: usize, nc: usize) -> M<String> { if nr * nc == 0 { M::new(nc, &[]) } else { M::new(nc, &(0..nr * nc).map(name).collect::<Vec<_>>()) } }
fn num(nr: usize, nc: usize) -> M<BigInt> { if nr * nc == 0 { M::new(nc, &[]) } else { M::new(nc, &(0..nr * nc).map(|i| BigInt::from(i as i64 * 7 % 5 - 1)).collect::<Vec<_>>()) } }
const MATRIX: usize = 16 * 17;
fn matrices(case: usize) {
    let (nr, nc, op) = (case % 4, case / 4 % 4, case / 16);
    let m = mat(nr, nc);
    let ok = |t: &str| if !t.starts_with("element ") { bad(format!("an entry is {:?}", t)) };
    let all = |m: &M<String>| for t in m.iter() { ok(t) };
    match op {
        0 => for i in 0..5 { for j in 0..5 { quietly(|| ok(&m[(i, j)])); } },
        1 => for i in 0..5 { for j in 0..5 { let mut m = mat(nr, nc); quietly(|| m[(i, j)] = name(77)); all(&m); } },
        2 => for i in 0..5 { quietly(|| for t in m.get_row(i) { ok(&t) }); quietly(|| for t in m.get_col(i) { ok(&t) }); },
        3 => { quietly(|| for r in m.get_rows() { for t in r { ok(&t) } }); quietly(|| all(&m.transpose())); }
        4 => for a in 0..4 { for b in a..5 { quietly(|| all(&m.submatrix(a..b, 0..nc))); quietly(|| all(&m.submatrix(0..nr, a..b))); quietly(|| all(&m.submatrix(a..b, a..b))); } },
        5 => for k in 0..7 { quietly(|| all(&mat(nr, nc).reshape(k))); },
        6 => for k in 0..7 { let d: Vec<String> = (0..nr * nc + nr).map(name).collect(); quietly(|| { let m = M::new(k, &d); all(&m); m[(0, 0)].clone() }); },
        7 => for o in [mat(1, 2), mat(2, 1), mat(3, 3), mat(0, 2)] { quietly(|| all(&M::hstack(&[m.clone(), o.clone()]))); quietly(|| all(&M::vstack(&[m.clone(), o.clone()]))); },
        8 => { let mut it = m.into_iter(); let a = it.next(); let b = it.next_back(); drop(it); for t in a.iter().chain(&b) { ok(t) } }
        9 => { let (a, b) = (m.clone(), m.transpose()); if quietly(|| a == b) != Some(nr == nc && nr <= 1 || nr * nc == 0 && nr == nc) && nr * nc > 1 { bad("a matrix equals its transpose".into()) } all(&a); all(&b); }
        10 => { quietly(|| m.to_string()); let mut i = m.iter(); let n = i.by_ref().count(); if n != nr * nc { bad(format!("{} entries", n)) } }
        11 => for k in 0..4 { for l in 0..4 { quietly(|| (&num(nr, nc) * &num(k, l)).to_string()); } },
        12 => for k in 0..4 { for l in 0..4 { quietly(|| (num(nr, nc) + num(k, l)).to_string()); quietly(|| (num(nr, nc) - num(k, l)).to_string()); } },
        13 => { quietly(|| num(nr, nc).rank()); quietly(|| num(nr, nc).determinant()); quietly(|| num(nr, nc).inverse()); }
        14 => { quietly(|| num(nr, nc).null_space()); quietly(|| num(nr, nc).reduced_basis()); }
        15 => for k in 0..4 { quietly(|| num(nr, nc).solve(&num(k, 1))); },
        _ => { let mut b: Vec<Vec<BigInt>> = vec![]; for k in 0..4 { let v: Vec<BigInt> = (0..if k == 2 { nr } else { nc }).map(|i| BigInt::from((i * k) as i64 % 3)).collect(); quietly(|| extend_basis(&v, &mut b)); for r in &b { if r.len() > 4 { bad("a long row".into()) } } } }
    }
}
const VECTORS: usize = 4 * 6;
fn vectors(case: usize) {
    let (d, op) = (case % 4, case / 4);
    let d0: Vec<String> = (0..d).map(name).collect();
    let mut v = Vector_::<String>::new(&d0);
    let mut p = Point_::<String>::new(&d0);
    let ok = |t: &str| if !t.starts_with("element ") { bad(format!("an entry is {:?}", t)) };
    let big = |n: usize| Vector_::<BigInt>::new(&(0..n).map(BigInt::from).collect::<Vec<_>>());
    match op {
        0 => for i in 0..6 { quietly(|| ok(&v[i])); quietly(|| ok(&p[i])); },
        1 => for i in 0..6 { quietly(|| v[i] = name(70)); quietly(|| p[i] = name(71)); },
        2 => for n in 0..5 { quietly(|| (&big(d) + &big(n)).iter().count()); quietly(|| (&big(d) - &big(n)).iter().count()); },
        3 => for n in 0..5 { quietly(|| { let m = num(n, n); (&AffineMap_::<BigInt>::new(&m, &big(n)) * &big(d)).iter().count() }); quietly(|| AffineMap_::<BigInt>::new(&num(n, d), &big(d)).shift().iter().count()); },
        4 => for n in 0..5 { quietly(|| ScalarProduct_::<BigInt>::default(n).apply(&big(d), &big(d))); for i in 0..4 { quietly(|| ScalarProduct_::<BigInt>::default(d)[(n, i)].clone()); } },
        _ => for n in 0..5 { quietly(|| Vector_::<BigInt>::unit(d, n).iter().count()); quietly(|| Vector_::<BigInt>::zero(n).dim()); let mut it = Vector_::<String>::new(&d0).into_iter(); let a = it.next_back(); drop(it); for t in &a { ok(t) } },
    }
    let t: Vec<String> = v.iter().chain(p.iter()).cloned().collect();
    if t.len() != 2 * d { bad(format!("{} entries", t.len())) }
    for x in &t { ok(x) }
}
const SIGNS: [&str; 14] = ["x", "1", "/", "-", ",", ".", "e9", "\"", "#", " ", "\n", "\u{e9}", "\u{10ffff}", "99999999999999999999"];
const TEXTS: usize = 14 + 14 * 14;
/// anything handed to the parsers
fn texts(case: usize) {
    let s = if case < 14 { SIGNS[case].to_string() } else { format!("{}{}", SIGNS[(case - 14) % 14], SIGNS[(case - 14) / 14]) };
    let inside = |rest: &str, s: &str| if !s.ends_with(rest) { bad(format!("the rest {:?} of {:?}", rest, s)) };
    quietly(|| if let Ok((rest, _)) = parse_operator(&s) { inside(rest, &s) });
    quietly(|| if let Ok((rest, f)) = parse_cgd_line(&s) { inside(rest, &s); drop(f) });
    let text = format!("CRYSTAL\n{}\nEND\n", s);
    quietly(|| parse_blocks(text.as_bytes()).len());
    let mut raw = text.into_bytes();
    raw[8] ^= 0x80;
    quietly(|| parse_blocks(&raw[..]).len());
    quietly(|| parse_space_group_table(format!("alias P1 {}\nCmcm C2/m {}\n  {}\n  x,y,z\n", s, s, s).as_bytes()).is_some());
}
const UNKNOWN: usize = 12 * 3;
/// questions about what a graph does not have, then everything again
fn unknown(case: usize) {
    let k = [0, 2, 7][case / 12];
    fn go<T: LabelVector<W>>(k: usize, op: usize) {
        let g = make::<T>(k);
        let d = NETS[k].0;
        let far = Edge::<T, W>::new(1, 99, T::zero());
        let long: Vector = (0..d + 2).map(|i| BigRational::from(BigInt::from(i as i64))).collect();
        for warm in 0..2 {
            for v in [0, 99, u32::MAX] {
                match op {
                    0 => { quietly(|| g.incidences(&v)); }
                    1 => { quietly(|| pt(&g.position(&v))); }
                    2 => { quietly(|| pt(&g.position_normalized(&v))); }
                    3 => { quietly(|| g.edge_by_unique_delta(&v, &long).is_some()); }
                    4 => { quietly(|| g.coordination_sequence(&v).take(3).collect::<Vec<_>>()); }
                    5 => { quietly(|| graph_component_measures(&g, &v)); }
                    _ => {}
                }
            }
            match op {
                6 => { quietly(|| g.edge_vector(&far).iter().count()); }
                7 => { quietly(|| g.edge_by_unique_delta(&1, &long).is_some()); quietly(|| g.edge_by_unique_delta(&1, &Vector::new(&[])).is_some()); }
                8 => { let e = Edge::<T, W>::new(1, 1, T::from_vec(&vec![i32::MAX; d])); quietly(|| (-&e).canonical()); quietly(|| g.edge_vector(&e).iter().count()); }
                9 => { quietly(|| T::from_vec(&[1])); quietly(|| T::from_vec(&[])); quietly(|| T::from_vec(&[1, 2, 3, 4]).to_vec()); }
                10 => { let h: G<T> = Graph::new(&[]); for op in 0..CHEAP { quietly(|| ask(k, &h, op)); } }
                11 => { let h: G<T> = Graph::new(&[Edge::new(1, 1, T::zero()), Edge::new(5, 6, T::zero()), far.clone()]); for op in 0..CHEAP { quietly(|| ask(k, &h, op)); } }
                _ => {}
            }
            if warm == 0 { for op in [1, 4, 8] { ask(k, &g, op); } }
        }
        let h = make::<T>(k);
        if whole(&g) != whole(&h) { bad("the graph has changed".into()) }
    }
    if NETS[k].0 == 2 { go::<L2>(k, case % 12) } else { go::<L3>(k, case % 12) }
}

// ---- threads ------------------------------------------------------------------------------------

fn pair(i: usize) -> (usize, usize) { let mut b = 0; while (b + 1) * (b + 2) / 2 <= i { b += 1 } (i - b * (b + 1) / 2, b) }
#[cfg(feature = "graph")]
fn together(k: usize, a: usize, b: usize) {
    fn run<T: LabelVector<W>>(k: usize, a: usize, b: usize) where G<T>: Sync {
        let want = [ask(k, &make::<T>(k), a), ask(k, &make::<T>(k), b)];
        let g = make::<T>(k);
        let got = std::thread::scope(|s| { let x = s.spawn(|| ask(k, &g, a)); let y = s.spawn(|| ask(k, &g, b)); [x.join(), y.join()] });
        for (w, r) in want.iter().zip(got) { match r { Ok(r) => if r != *w { bad(format!("queries {} and {} together: {} instead of {}", a, b, r, w)) }, Err(_) => bad(format!("queries {} and {} together end in a panic", a, b)) } }
    }
    if NETS[k].0 == 2 { run::<L2>(k, a, b) } else { run::<L3>(k, a, b) }
}
#[cfg(feature = "sequence")]
fn sequences(k: usize, a: usize) {
    let g = make::<L2>(k);
    let it = g.coordination_sequence(&1);
    let n: Vec<usize> = std::thread::scope(|s| { let x = s.spawn(move || it.take(3).collect()); ask(k, &g, a); x.join().unwrap() });
    if n != make::<L2>(k).coordination_sequence(&1).take(3).collect::<Vec<_>>() { bad(format!("shells {:?}", n)) }
}
#[cfg(feature = "partition")]
fn partitions(case: usize) {
    let mut p: Partition<String> = Partition::new();
    for i in 0..4 { p.find(&name(i)); }
    p.unite(&name(0), &name(1)); p.unite(&name(2), &name(3)); p.unite(&name(0), &name(2));
    let go = |w: usize| match w { 0 => { p.find(&name(3)); } 1 => { p.find(&name(9)); } _ => { p.classes(&(0..6).map(name).collect::<Vec<_>>()); } };
    let ok = std::thread::scope(|s| { let x = s.spawn(|| go(case % 3)); let y = s.spawn(|| go(case / 3)); x.join().is_ok() && y.join().is_ok() });
    if !ok { bad("two threads asking end in a panic".into()) }
    if p.classes(&(0..6).map(name).collect::<Vec<_>>()).len() != 3 { bad("classes after two threads asked".into()) }
}

fn count(group: &str) -> usize {
    match group {
        "partition" => 10 + 100,
        "partition3" => 1000,
        "partition4" => 10000,
        "reenter" => REENTER,
        "labels" => LABELS[0],
        "labels-all" => LABELS[1],
        "matrices" => MATRIX,
        "vectors" => VECTORS,
        "texts" => TEXTS,
        "unknown" => UNKNOWN,
        "pairs" => SOME.len() * SOME.len(),
        "pairs-all" => 3 * CHEAP * CHEAP,
        "long" => 2 * CHEAP,
        "symmetric" => ALL - CHEAP,
        "symmetric-all" => 2 * (ALL - CHEAP),
        "threads-graph" => SOME.len() * (SOME.len() + 1) / 2,
        "threads-graph-space" => 10,
        "threads-sequence" => CHEAP,
        "outlive" => 4,
        "threads-partition" => 9,
        _ => 0,
    }
}
fn one(group: &str, i: usize) {
    match group {
        "partition" | "partition3" | "partition4" => { let (mut i, mut len) = (i, match group { "partition" => 1, "partition3" => 3, _ => 4 }); if len == 1 { while i >= 10usize.pow(len) { i -= 10usize.pow(len); len += 1 } } let w: Vec<usize> = (0..len).map(|k| i / 10usize.pow(k) % 10).collect(); partition_word(&w) }
        "reenter" => reenter(i),
        "matrices" => matrices(i),
        "vectors" => vectors(i),
        "texts" => texts(i),
        "unknown" => unknown(i),
        "labels" | "labels-all" => labels(i),
        "pairs" => hist(0, &[SOME[i % SOME.len()], SOME[i / SOME.len()]]),
        "pairs-all" => hist([0, 2, 1][i / (CHEAP * CHEAP)], &[i % CHEAP, i / CHEAP % CHEAP]),
        // all queries, beginning with each of them
        "long" => hist([1, 2][i / CHEAP], &(0..CHEAP).map(|j| (i % CHEAP + j) % CHEAP).collect::<Vec<_>>()),
        "symmetric" | "symmetric-all" => { let (op, k) = (CHEAP + i % (ALL - CHEAP), [0, 2, 1][i / (ALL - CHEAP)]); let g = make::<L2>(k); let a = ask(k, &g, op); let b = ask(k, &g, op); if a != b { bad(format!("query {} says {} and then {}", op, a, b)) } }
        #[cfg(feature = "graph")]
        "threads-graph" => { let (a, b) = pair(i); together(0, SOME[a], SOME[b]) },
        #[cfg(feature = "graph")]
        "threads-graph-space" => { let (a, b) = pair(i); together(4, [0, 1, 4, 8][a], [0, 1, 4, 8][b]) },
        #[cfg(feature = "outlive")]
        "outlive" => { let mut it = { let g = make::<L2>(i); g.coordination_sequence(&1) }; let _x = vec![7u8; 4000]; let n: Vec<usize> = (&mut it).take(3).collect(); let h = make::<L2>(i); if n != h.coordination_sequence(&1).take(3).collect::<Vec<_>>() { bad(format!("shells {:?}", n)) } }
        #[cfg(feature = "sequence")]
        "threads-sequence" => sequences(1, i),
        #[cfg(feature = "partition")]
        "threads-partition" => partitions(i),
        _ => bad(format!("unknown group {}", group)),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { println!("COUNT {}", a.get(1).map_or(0, |g| count(g))); return }
    for i in a[2].parse::<usize>().unwrap()..a[3].parse().unwrap() { println!("CASE {} {}", a[1], i); one(&a[1], i); }
    println!("DONE");
}
