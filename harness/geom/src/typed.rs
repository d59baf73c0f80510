//! C46: coordinate systems are never mixed.  All expressions of one operation on the types of the library, decided by
//! the compiler.
use fw::{Check, Ctx, Space, Tier};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

const PRE: &str = "#![allow(warnings)]
use rust_systre::arithmetic::geometry::*;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::{Graph, Edge, LabelVector2d, LabelVector3d, CoordinationSequence, Automorphism};
use rust_systre::spacegroups::basics::*;
use std::ops::*;
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)] pub struct A {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)] pub struct B {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)] pub struct C {}
type V<X> = Vector<i32, X>; type P<X> = Point<i32, X>; type M<X> = AffineMap<i32, X>; type S<X> = ScalarProduct<i32, X>; type K<X, Y> = CoordinateMap<i32, X, Y>;
";

/// what is known about an expression
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Accept, Refuse }

fn library() -> Option<(PathBuf, PathBuf)> {
    let deps = std::env::current_exe().ok()?.parent()?.join("deps");
    let lib = std::fs::read_dir(&deps).ok()?.filter_map(|e| e.ok()).filter(|e| { let n = e.file_name().to_string_lossy().to_string(); n.starts_with("librust_systre-") && n.ends_with(".rlib") })
        .max_by_key(|e| e.metadata().and_then(|m| m.modified()).ok())?.path();
    Some((deps, lib))
}

/// For each function (one line of source each) whether it is accepted by itself.
pub fn accepted(lines: &[String]) -> Result<Vec<bool>, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let (deps, lib) = library().ok_or("compiled library not found")?;
    let dir = std::env::temp_dir().join(format!("verif-typed-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
    let r = (|| {
        let mut ok = vec![true; lines.len()];
        for _ in 0..=lines.len() {
            let mut src = PRE.to_string();
            let first = src.matches('\n').count() + 1;
            let kept: Vec<usize> = (0..lines.len()).filter(|&i| ok[i]).collect();
            for &i in &kept { src += &lines[i]; src.push('\n'); }
            let f = dir.join("typed.rs");
            std::fs::write(&f, &src).map_err(|e| e.to_string())?;
            let o = Command::new("rustc").args(["--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=short", "--cap-lints", "allow", "--out-dir"]).arg(&dir)
                .arg("-L").arg(format!("dependency={}", deps.display())).arg("--extern").arg(format!("rust_systre={}", lib.display())).arg(&f)
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
            if o.status.success() { return Ok(ok) }
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let mut any = false;
            for l in err.lines() {
                let mut p = l.splitn(4, ':');
                if let (Some(n), Some(k), Some(_), Some(m)) = (p.next(), p.next(), p.next(), p.next()) {
                    if n.ends_with("typed.rs") && m.trim_start().starts_with("error") { if let Ok(k) = k.parse::<usize>() { if k >= first && k - first < kept.len() { ok[kept[k - first]] = false; any = true } else { return Err(format!("the compiler complains about the frame: {}", l)) } } }
                }
            }
            if !any { return Err(format!("the compiler failed: {}", err.chars().take(600).collect::<String>())) }
        }
        Err("no end".into())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn judge(exprs: &[(String, String, Want)], c: &mut Ctx) {
    let lines: Vec<String> = exprs.iter().map(|e| e.1.clone()).collect();
    let got = match accepted(&lines) { Ok(g) => g, Err(e) => panic!("{}", e) };
    for ((what, _, want), ok) in exprs.iter().zip(got) {
        c.evals(1);
        match want {
            Want::Accept => { c.check(ok, &|| format!("{} is refused", what)); }
            Want::Refuse => { if c.check(!ok, &|| format!("{} is accepted", what)) { c.nontrivial(what) } }
        }
        c.outcome(if ok { "accepted" } else { "refused" });
    }
    if let Some(e) = exprs.last() { c.sample(|| format!("{}: {:?}", e.0, e.2)) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { V(u8), P(u8), M(u8), S(u8), K(u8, u8), N }
fn cs(k: u8) -> char { (b'A' + k) as char }
impl T {
    fn name(self) -> String { match self { T::V(k) => format!("V<{}>", cs(k)), T::P(k) => format!("P<{}>", cs(k)), T::M(k) => format!("M<{}>", cs(k)), T::S(k) => format!("S<{}>", cs(k)), T::K(i, o) => format!("K<{}, {}>", cs(i), cs(o)), T::N => "i32".into() } }
    fn system(self) -> Option<u8> { match self { T::V(k) | T::P(k) | T::M(k) | T::S(k) => Some(k), _ => None } }
}
fn universe() -> Vec<T> { let mut v = vec![]; for k in 0..2 { v.extend([T::V(k), T::P(k), T::M(k), T::S(k)]); } for (i, o) in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 0), (2, 1)] { v.push(T::K(i, o)); } v.push(T::N); v }

const OPS: [&str; 9] = ["+", "-", "*", "/", "==", "+=", "-=", "*=", "/="];
/// The result of an operation that has one, by the definitions; Err if the operands do not belong together.
fn meaning(op: &str, l: T, r: T) -> Result<Option<T>, ()> {
    use T::*;
    match (op, l, r) {
        ("*", K(i, o), _) => match r { P(k) => if k == i { Ok(Some(P(o))) } else { Err(()) }, V(k) => if k == i { Ok(Some(V(o))) } else { Err(()) }, M(k) => if k == i { Ok(Some(M(o))) } else { Err(()) }, S(k) => if k == i { Ok(Some(S(o))) } else { Err(()) }, K(a, b) => if b == i { Ok(Some(K(a, o))) } else { Err(()) }, N => Ok(None) },
        ("==", K(..), K(..)) => if l == r { Ok(Some(N)) } else { Err(()) },
        (_, K(i, o), x) | (_, x, K(i, o)) => match x { N => Ok(None), K(a, b) => if [a, b].iter().any(|k| *k == i || *k == o) { Ok(None) } else { Err(()) }, _ => if x.system().map_or(false, |k| k == i || k == o) { Ok(None) } else { Err(()) } },
        _ => {
            if let (Some(a), Some(b)) = (l.system(), r.system()) { if a != b { return Err(()) } }
            match (op, l, r) {
                ("+" | "+=", P(_), P(_)) | ("-=", P(_), P(_)) => Err(()),
                ("+" | "-" | "+=" | "-=", V(_), V(_)) | ("+" | "-" | "+=" | "-=", P(_), V(_)) => Ok(Some(l)),
                ("-", P(k), P(_)) => Ok(Some(V(k))),
                ("*" | "/" | "*=" | "/=", V(_), N) => Ok(Some(l)),
                ("*", M(_), M(_) | P(_) | V(_)) => Ok(Some(r)),
                ("==", _, _) if l == r => Ok(Some(N)),
                ("==", _, _) if l != N && r != N => Err(()),
                _ => Ok(None),
            }
        }
    }
}

fn all(op: &str, l: T) -> Vec<(String, String, Want)> {
    let mut v = vec![];
    let assign = op.len() == 2 && op != "==";
    for r in universe() {
        for (a, b) in [("", ""), ("", "&"), ("&", ""), ("&", "&")] {
            if (assign || l == T::N) && a == "&" || op == "==" && a != b { continue }
            let k = v.len();
            let what = format!("{}{} {} {}{}", a, l.name(), op, b, r.name());
            let head = format!("pub fn f{}({}l: {}{}, r: {}{})", k, if assign { "mut " } else { "" }, a, l.name(), b, r.name());
            // coordinate changes are combined with operands held or borrowed alike
            let form = if let T::K(..) = l { a == b } else { true };
            match meaning(op, l, r) {
                Err(()) => v.push((what, if assign { format!("{} {{ l {} r; }}", head, op) } else { format!("{} {{ let _ = l {} r; }}", head, op) }, Want::Refuse)),
                Ok(None) => {}
                Ok(Some(o)) => {
                    if form { let o = if op == "==" { "bool".to_string() } else { o.name() }; v.push((format!("{} as {}", what, o), if assign { format!("{} {{ l {} r; }}", head, op) } else { format!("{} -> {} {{ l {} r }}", head, o, op) }, Want::Accept)); }
                    // no other type of result
                    if !assign && op != "==" { for x in universe() { if x != o && std::mem::discriminant(&x) == std::mem::discriminant(&o) { v.push((format!("{} as {}", what, x.name()), format!("pub fn f{}_(l: {}{}, r: {}{}) -> {} {{ l {} r }}", v.len(), a, l.name(), b, r.name(), x.name(), op), Want::Refuse)) } } }
                }
            }
        }
    }
    for (i, e) in v.iter_mut().enumerate() { let p = e.1.find('(').unwrap(); e.1 = format!("pub fn f{}{}", i, &e.1[p..]); }
    v
}

/// Functions, methods and constructors: accepted as given with X, Y = A, A (and for changes A, B), refused with the
/// systems exchanged in any other way.
const CALLS: [(&str, &str); 22] = [
    ("a scalar product of vectors", "(s: &S<X>, u: &V<Y>, v: &V<Z>) -> i32 { s.apply(u, v) }"),
    ("a map from its shift", "(m: &Matrix<i32>, s: &V<X>) -> M<Y> { let _: Z = A {}; AffineMap::new(m, s) }"),
    ("the shift of a map", "(m: &M<X>) -> V<Y> { let _: Z = A {}; m.shift() }"),
    ("the inverse of a map", "(m: &M<X>) -> Option<M<Y>> { let _: Z = A {}; m.inverse() }"),
    ("a reduced map", "(m: &M<X>) -> M<Y> { let _: Z = A {}; m.mod_z() }"),
    ("a reduced vector", "(m: &V<X>) -> V<Y> { let _: Z = A {}; m.mod_z() }"),
    ("a negated vector", "(m: &V<X>) -> V<Y> { let _: Z = A {}; -m }"),
    ("a generated group", "(m: &Vec<M<X>>) -> Vec<M<Y>> { let _: Z = A {}; generate(m) }"),
    ("a list of vectors", "(u: V<X>, v: V<Y>, w: V<Z>) { let _ = [u, v, w]; }"),
    ("a list of points", "(u: P<X>, v: P<Y>, w: P<Z>) { let _ = [u, v, w]; }"),
    ("an assignment of a vector", "(u: V<X>) -> V<Y> { let _: Z = A {}; u }"),
    ("an assignment of a point", "(u: P<X>) -> P<Y> { let _: Z = A {}; u }"),
    ("an assignment of a map", "(u: M<X>) -> M<Y> { let _: Z = A {}; u }"),
    ("an assignment of a scalar product", "(u: S<X>) -> S<Y> { let _: Z = A {}; u }"),
    ("the sum of shift labels in the plane", "(u: LabelVector2d<X>, v: LabelVector2d<Y>) -> LabelVector2d<Z> { u + v }"),
    ("the difference of shift labels in the plane", "(u: LabelVector2d<X>, v: LabelVector2d<Y>) -> LabelVector2d<Z> { u - v }"),
    ("the sum of shift labels in space", "(u: LabelVector3d<X>, v: LabelVector3d<Y>) -> LabelVector3d<Z> { u + v }"),
    ("the difference of shift labels in space", "(u: LabelVector3d<X>, v: LabelVector3d<Y>) -> LabelVector3d<Z> { u - v }"),
    ("the negative of a shift label", "(u: LabelVector3d<X>) -> LabelVector3d<Y> { let _: Z = A {}; -u }"),
    ("a graph from edges", "(e: &[Edge<LabelVector2d<X>, Y>]) -> Graph<LabelVector2d<Z>, X> { Graph::new(e) }"),
    ("an edge in canonical form", "(e: &Edge<LabelVector3d<X>, Y>) -> Edge<LabelVector3d<Z>, Y> { e.canonical() }"),
    ("symmetries of a graph", "(g: &Graph<LabelVector3d<X>, Y>) -> Vec<Automorphism<LabelVector3d<Z>, Y>> { g.symmetries() }"),
];
const CHANGES: [(&str, &str); 6] = [
    ("a change from its map", "(m: &M<X>) -> K<Y, B> { let _: Z = A {}; CoordinateMap::new(m) }"),
    ("the map of a change", "(m: &K<X, B>) -> M<Y> { let _: Z = A {}; m.forward() }"),
    ("the inverse of a change", "(m: &K<X, Z>) -> K<Z, Y> { m.inverse() }"),
    ("a change from a basis", "(v: &[V<X>]) -> K<B, Y> { let _: Z = A {}; CoordinateMap::from_basis(v) }"),
    ("a change to a basis", "(v: &[V<X>]) -> K<Y, B> { let _: Z = A {}; CoordinateMap::to_basis(v) }"),
    ("an assignment of a change", "(u: K<X, Z>) -> K<Y, Z> { u }"),
];

fn c46(_t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let u = universe();
    let n = u.len();
    v.push(Space::new("all binary operations on all pairs of types", (n * OPS.len()) as u64, move |i, c| { let e = all(OPS[i as usize / n], u[i as usize % n]); judge(&e, c) }));
    v.push(Space::new("functions with all choices of coordinate systems", (CALLS.len() + CHANGES.len()) as u64, |i, c| {
        let (name, f) = CALLS.iter().chain(&CHANGES).nth(i as usize).unwrap();
        let mut e = vec![];
        for k in 0..8usize {
            let pick = |b: usize| ["A", "B"][k >> b & 1];
            if f.contains("let _: Z") && k & 4 != 0 { continue }
            let free = f.contains(", Z>") && !f.contains("LabelVector");
            let ok = if free { k & 1 == k >> 1 & 1 } else if f.contains("let _: Z") { k & 1 == k >> 1 & 1 } else { k == 0 || k == 7 };
            let s = |t: &str| -> String { let mut o = String::new(); let b: Vec<char> = t.chars().collect(); for (j, ch) in b.iter().enumerate() { let word = |m: Option<&char>| m.map_or(false, |x| x.is_alphanumeric() || *x == '_'); let alone = !(j > 0 && word(b.get(j - 1))) && !word(b.get(j + 1)); match ch { 'X' if alone => o += pick(0), 'Y' if alone => o += pick(1), 'Z' if alone => o += pick(2), _ => o.push(*ch) } } o };
            e.push((format!("{} with systems {} {} {}", name, pick(0), pick(1), pick(2)), format!("pub fn f{}{}", k, s(f)), if ok { Want::Accept } else { Want::Refuse }));
        }
        judge(&e, c)
    }));
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C46", level: "exploration", spaces: c46, assumptions: &["the entries are i32; operations that have no meaning but mix no systems are left open"],
        rule: "one case per operation and left operand (all right operands, owned and borrowed) or function; non-trivial if the expression mixes coordinate systems and must be refused" },
];
