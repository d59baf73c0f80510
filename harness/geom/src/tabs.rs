//! C29, C30: space group tables.
use crate::affine::{of_map, qv, In, A};
use crate::table::{self, differ, modz, read, Tab, Text, CENTERINGS, SYSTEMS};
use fw::en;
use fw::fault::{Feed, Step};
use fw::mat;
use fw::q::Q;
use fw::{attempt, Check, Ctx, Space, Tier};
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::spacegroups::parse_table::{parse_space_group_table, Tables};
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub fn shipped() -> String { std::fs::read_to_string(format!("{}/src/data/sgtable.data", std::env::var("VERIF_REPO").unwrap_or("/repo".into()))).expect("shipped table") }
fn short(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); if s.len() < 400 { format!("{:?}", s) } else { let mut k = s.len() - 300; while !s.is_char_boundary(k) { k += 1 } format!("text of {} bytes ending in {:?}", b.len(), &s[k..]) } }

fn against(got: Option<Tables>, want: &Text, what: &dyn Fn() -> String, c: &mut Ctx) {
    match (got, want) {
        (_, Text::Open) => c.outcome("unspecified"),
        (None, Text::Refuse) => c.outcome("refused"),
        (Some(_), Text::Refuse) => c.fail(format!("{} is accepted, but has to be refused", what())),
        (None, Text::Tables(_)) => c.fail(format!("{} is refused, but denotes tables", what())),
        (Some(g), Text::Tables(w)) => {
            c.outcome("read");
            match table::tables(&g) { Err(e) => c.fail(format!("{}: {}", what(), e)), Ok(t) => { if let Some(d) = differ(&t, w) { c.fail(format!("{}: {}", what(), d)) } } }
        }
    }
}
fn text(b: &[u8], c: &mut Ctx) {
    let w = read(b);
    match attempt(|| parse_space_group_table(b)) { Ok(g) => against(g, &w, &|| format!("table {}", short(b)), c), Err(p) => return c.fail(format!("reading the table {} panicked: {}", short(b), p)) }
    if matches!(w, Text::Tables(ref t) if !t.settings.is_empty() || !t.lookup.is_empty()) { c.nontrivial(b); c.sample(|| short(b)); }
}

const KINDS: [&str; 40] = ["A x,y,z", "B y, x, z+1/3", "C x,y", "D -x+1/2,y", "A y,z,x", "C -x,y", "  x,y,z", " -x,-y,z+1/2", "  x,y", "   - x , y ", "  0,y,z", "alias Q A", "ALIAS  Q B", "lookup A cubic P x,y,z", "lookup C square p x,y", "Lookup B Hexagonal R y,x, z+1/3", "", "   ", "# c", "  # c",
    // malformed
    "alias Q", "alias", "alias Q A extra", "lookup B cubic", "lookup", "lookup B foo P x,y,z", "lookup B cubic X x,y,z", "lookup B cubic P x,x,z", "lookup B cubic P x,y,z junk", "lookup B cubic P", "E x,x,z", "E x,y,z,x", "E", "E x,y,z junk", "E 1/0x,y", "  x,y,z junk", "\tx,y,z", "  x,y+", "  1/0,y,z", "  x,z"];

fn excerpt() -> String { "# excerpt\n\nP1 x,y,z\n    x,y,z\nP2 x,y,z\n    x,y,z\n    -x,y,-z\nP112 z,x,y\n    x,y,z\n    -x,-y,z+1/2\n\nalias Q P112\nlookup P2 monoclinic P z,x-1/4,y\n".to_string() }

fn c29(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let seqs = |name: &str, kinds: Vec<&'static str>, n: usize| { let b = kinds.len() as u64; Space::new(&format!("{}: up to {} lines of {} kinds", name, n, b), en::nwords(b, n) * 2, move |i, c| {
        let mut s = en::words(i / 2, b).into_iter().map(|k| kinds[k]).collect::<Vec<_>>().join(["\n", "\r\n"][(i % 2) as usize]);
        if i % 3 == 0 { s.push('\n') }
        text(s.as_bytes(), c)
    }) };
    v.push(seqs("all kinds of lines", KINDS.to_vec(), 3));
    v.push(seqs("well-formed lines", KINDS[..t.pick(14, 16)].to_vec(), t.pick(4, 5)));
    if t == Tier::Thorough { v.push(seqs("all kinds of lines, deeper", KINDS.to_vec(), 4)); }
    // keywords with any fields
    let nf = t.pick(4, 6);
    v.push(Space::new(&format!("keywords with up to {} fields", nf), en::nwords(7, nf) * 12, move |i, c| {
        let f: Vec<&str> = en::words(i / 12, 7).into_iter().map(|k| ["x,y", "x,y,z", "square", "cubic", "p", "P", "G"][k]).collect();
        let l = format!("{} {}\n{}", ["alias", "Alias", "lookup", "LOOKUP", "G", "aliased"][(i / 2 % 6) as usize], f.join(" "), ["", "  x,y,z\n"][(i % 2) as usize]);
        text(l.as_bytes(), c)
    }));
    // damage to an excerpt
    let base = excerpt().into_bytes();
    let n = base.len() as u64;
    let b = base.clone();
    v.push(Space::new("truncations of an excerpt", n + 1, move |i, c| text(&b[..i as usize], c)));
    let marks: Vec<u8> = if t == Tier::Quick { b" \n\r\t,x/0#-aP+".to_vec() } else { (0..=255).collect() };
    let m = marks.len() as u64;
    let (b, ch) = (base.clone(), marks.clone());
    v.push(Space::new("one character of an excerpt replaced, inserted or removed", (n + 1) * m * 2 + n, move |i, c| {
        let mut s = b.clone();
        if i < n { s.remove(i as usize); } else { let d = en::digits(i - n, &[n + 1, m, 2]); let (p, x) = (d[0] as usize, ch[d[1] as usize]); if d[2] == 0 { s.insert(p, x) } else if p < s.len() { s[p] = x } else { return; } }
        text(&s, c)
    }));
    let b = base.clone();
    v.push(Space::new("bytes of an excerpt made invalid", n * 4, move |i, c| { let mut s = b.clone(); s[(i / 4) as usize] = [0xff, 0x80, 0xc3, 0xe2][(i % 4) as usize]; text(&s, c) }));
    // the shipped table
    let ship = Arc::new(shipped());
    let lines: Arc<Vec<usize>> = Arc::new(std::iter::once(0).chain(ship.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect());
    let (s, l) = (ship.clone(), lines.clone());
    let k = l.len() as u64;
    let w = t.pick(9, 25);
    v.push(Space::new(&format!("windows of {} lines of the shipped table", w), k, move |i, c| { let (a, e) = (l[i as usize], l[(i as usize + w).min(l.len() - 1)]); if a < e { text(s[a..e].as_bytes(), c) } }));
    let (s, l) = (ship.clone(), lines.clone());
    let step = t.pick(211, 11);
    v.push(Space::new(&format!("the shipped table truncated at or inside every {}th line", step), k / step * 2 + 1, move |i, c| { let a = l[(i / 2 * step) as usize] + 7 * (i % 2) as usize; let e = if i == k / step * 2 { s.len() } else { a.min(s.len()) }; if s.is_char_boundary(e) { text(s[..e].as_bytes(), c) } }));
    let s = ship.clone();
    v.push(Space::new("the shipped table with other line ends", 2, move |i, c| { let x = s.replace('\n', "\r\n"); text(if i == 0 { x.as_bytes() } else { x.trim_end().as_bytes() }, c) }));
    // delivery
    let b = base.clone();
    v.push(Space::new("excerpt in chunks and with errors", n * 3, move |i, c| {
        let (p, k) = ((i / 3) as usize, i % 3);
        let (mut f, want) = match k { 0 => (Feed::chunks(&b, p + 1), read(&b)), 1 => (Feed::new(&b, vec![Step::Give(p.max(1)), Step::Interrupted], Some(Step::Give(7))), read(&b)), _ => (Feed::new(&b, vec![Step::Give(p.max(1)), Step::Error(std::io::ErrorKind::Other)], None), Text::Refuse) };
        match attempt(|| parse_space_group_table(&mut f)) { Ok(g) => against(g, &want, &|| format!("excerpt with delivery {} at {}", ["in chunks", "interrupted", "failing"][k as usize], p), c), Err(e) => c.fail(format!("reading with delivery {} at {} panicked: {}", k, p, e)) }
        c.nontrivial(&i);
    }));
    v.extend(long_tables(t));
    // operator strings in each place
    let al = ["x", "y", "z", ",", "1", "/", "-", " ", "2"];
    let nn = t.pick(5, 6);
    v.push(Space::new(&format!("strings up to length {} as header, operator and lookup map", nn), en::nwords(9, nn) * 3, move |i, c| { let o: String = en::words(i / 3, 9).into_iter().map(|k| al[k]).collect(); text(match i % 3 { 0 => format!("G {}\n", o), 1 => format!("G x,y\n  {}\n", o), _ => format!("lookup G square p {}\n", o) }.as_bytes(), c) }));
    // conversions by themselves
    v.push(Space::new(&format!("conversion of strings up to length {}", nn + 1), en::nwords(9, nn + 1), move |i, c| {
        let o: String = en::words(i, 9).into_iter().map(|k| al[k]).collect();
        let r = match attempt(|| AffineMap::<BigRational, In>::from_string(&o).map(|m| of_map(&m))) { Ok(r) => r, Err(p) => return c.fail(format!("conversion of {:?} panicked: {}", o, p)) };
        let f = match attempt(|| CoordinateMap::<BigRational, In, crate::affine::Out>::from_string(&o).map(|m| of_map(&m.forward()))) { Ok(r) => r, Err(p) => return c.fail(format!("conversion of {:?} to a coordinate change panicked: {}", o, p)) };
        c.evals(1);
        match table::op(&o) { table::O::Open => {}, table::O::No => { c.check(r.is_none() && f.is_none(), &|| format!("{:?} is converted to {:?}, {:?}", o, r, f)); }
            table::O::Map(a) => { let w = Some(Some(a.clone())); c.check(r == w, &|| format!("{:?} is converted to {:?}, expected {:?}", o, r, w));
                let w = if mat::det(&a.l).is_zero() { None } else { w }; c.check(f == w, &|| format!("{:?} is converted to the coordinate change {:?}, expected {:?}", o, f, w)); c.nontrivial(&o); } }
    }));
    v
}

/// Tables with many settings, operators, aliases and lookup entries; long names, blanks and comments.
fn long_tables(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let sizes: Vec<usize> = (1..=20).chain([31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513]).chain(if t == Tier::Thorough { vec![767, 768, 769, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097] } else { vec![] }).collect();
    let n = sizes.len() as u64;
    let o = |k: usize| -> String { let (a, b) = (k % 12, k / 12 % 12); format!("{},{},{}", ["x", "-x", "y", "-y", "z", "x-y"][k / 144 % 6], ["y", "z", "-z"][k % 3], if a == 0 { format!("z+{}/12", b) } else { format!("x+{}/12", a + 12 * (k / 864)) }) };
    let s = sizes.clone();
    v.push(Space::new("tables with many entries of each kind", n * 9, move |i, c| {
        let (m, kind) = (s[(i / 9) as usize], i % 9);
        let mut x = String::from("G x,y,z\n  x,y,z\n");
        match kind {
            // operators of a single setting
            0 => for k in 0..m { x += &format!("  {}\n", o(k)) },
            // settings, each with an operator and the next canonical from time to time
            1 => for k in 0..m { x += &format!("S{} {}\n  {}\n", k, if k % 7 == 3 { "x,y,z".to_string() } else { format!("y+{}/8,x,z", k % 8) }, o(k)) },
            2 => for k in 0..m { x += &format!("alias N{} G{}\n", k, k % 5) },
            // later entries for a name replace earlier ones
            3 => for k in 0..m { x += &format!("alias N{} T{}\nS{} x+{},y,z\n  {}\n", k % 9, k, k % 11, k, o(k)) },
            4 => for k in 0..m { x += &format!("lookup L{} {} {} x+{},y,z\n", k, SYSTEMS[k % 10], CENTERINGS[k % 9], k) },
            5 => for k in 0..m { x += &format!("{}# {}\n{}", if k % 2 == 0 { "  " } else { "" }, k, if k % 3 == 0 { "\n" } else { "" }) },
            6 => { for k in 0..m { x += &format!("S{} x,y+{},z\n", k, k) } for k in 0..m { x += &format!("  {}\n", o(k)) } }
            7 => { x += &"\n".repeat(m); x += "  -x,-y,z\nalias A B\n"; }
            _ => for k in 0..m { x += &[format!("alias N{} G\n", k), format!("lookup L{} cubic P x,z,y+{}\n", k, k), format!("S{} z,x,y\n", k), format!("  {}\n", o(k)), "x# no comment at the start? y\n".replace("x#", "#")][k % 5] },
        }
        if kind < 7 { x += "  z,x,y\n"; }
        text(x.as_bytes(), c);
        // the last line matters
        if i % 4 == 0 { x += "  x,y\n"; text(x.as_bytes(), c); }
    }));
    // beyond 16-bit counters
    v.push(Space::list("huge tables", vec![0, 1, 2, 3, 4], |&k, c| {
        let m = 70_001usize;
        let mut x = String::from("G x,y,z\n  x,y,z\n");
        match k {
            0 => for k in 0..m { x += &format!("  x,y,z+{}/{}\n", k % 997, 1 + k % 89) },
            1 => for k in 0..m { x += if k % 2 == 0 { "# c\n" } else { "\n" } },
            2 => for k in 0..m { x += &format!("alias N{} G{}\n", k, k % 5) },
            3 => x += &format!("# {}\n", "y".repeat(20 * m)),
            _ => for k in 0..m / 4 { x += &format!("S{} x,y+{},z\n  z,x,y\n", k, k % 3) },
        }
        x += "T y,x,z\n  z,x,y\nalias A B\n";
        text(x.as_bytes(), c);
    }));
    let s = sizes.clone();
    v.push(Space::new("long names, blanks and comments", n * 8, move |i, c| {
        let (m, kind) = (s[(i / 8) as usize], i % 8);
        let name = |e: &str| format!("{}{}", "Ab-9_".chars().cycle().take(m).collect::<String>(), e);
        let b = " ".repeat(m);
        let x = match kind {
            0 => format!("{} x,y,z\n  x,y,z\n{} y,x,z\n  y,x,z\n", name("1"), name("2")),
            1 => format!("G x,y,z\nalias {} {}\nalias {} G\n", name("1"), name("2"), name("3")),
            2 => format!("lookup {} cubic P x,y,z\nlookup {} cubic P z,x,y\n", name("1"), name("2")),
            3 => format!("G{}x,y,z\n{}x,y,z\n  x{},y,{}z{}\n", b, b, b, b, b),
            4 => format!("G x,y,z{}\n#{}\n{}#{}\n{}\n  -x,y,z\n", b, name("x,y"), b, name(""), b),
            5 => format!("alias{}Q{}G{}\nlookup{}Q{}cubic{}P{}x,y,z{}\n", b, b, b, b, b, b, b, b),
            6 => format!("G x,y,z\n  {}x,y,z\n", "+x-x".repeat(m)),
            _ => format!("G x,y,z\n  x,y+{}1/2,z\n  x,y,z+{}/{}\n", "0".repeat(m.min(200)), m, m + 1),
        };
        text(x.as_bytes(), c);
        text(x.replace('\n', "\r\n").as_bytes(), c);
    }));
    v
}

// ---- C30 --------------------------------------------------------------------------------------

fn system(k: usize) -> CrystalSystem { use CrystalSystem::*; match k { 0 => Oblique, 1 => Rectangular, 2 => Square, 3 => Hexagonal, 4 => Cubic, 5 => Orthorhombic, 6 => Tetragonal, 7 => Trigonal, 8 => Monoclinic, _ => Triclinic } }
fn centering(k: usize) -> Centering { use Centering::*; match k { 0 => Primitive2d, 1 => Centered2d, 2 => Primitive, 3 => FaceCentered, 4 => BodyCentered, 5 => Rhombohedral, 6 => AFaceCentered, 7 => BFaceCentered, _ => CFaceCentered } }

fn coherent(s: &table::Setting, tab: &Tab, c: &mut Ctx) {
    let d = s.transform.dim();
    let say = |m: String| format!("setting {}: {}", s.name, m);
    let set: HashSet<A> = s.ops.iter().map(modz).collect();
    if !c.check(set.len() == s.ops.len(), &|| say(format!("{} operators, but only {} modulo the lattice", s.ops.len(), set.len()))) { return; }
    if !c.check(set.contains(&A::id(d)), &|| say("no identity".into())) { return; }
    for a in &s.ops {
        if !c.check(a.l.iter().flatten().all(|x| x.is_int()) && mat::det(&a.l).abs() == Q::ONE, &|| say(format!("{:?} does not preserve the lattice", a))) { return; }
        for b in &s.ops { let ab = modz(&a.mul(b)); if !set.contains(&ab) { return c.fail(say(format!("{:?} after {:?} is {:?}, which is not listed", a, b, ab))); } }
    }
    c.evals((s.ops.len() * s.ops.len()) as u64);
    let cs = match tab.settings.get(&s.canonical) { Some(x) => x, None => return c.fail(say(format!("its group {:?} is not listed", s.canonical))) };
    if !c.check(cs.transform == A::id(d), &|| say(format!("the transform of its group {} is {:?}", s.canonical, cs.transform))) { return; }
    // canonical operators together with the canonical lattice, seen from here
    // the listed change takes positions in the setting to positions in the canonical setting
    let (to, ti) = match s.transform.inv() { Some(i) => (i, s.transform.clone()), None => return c.fail(say("singular transform".into())) };
    let over = |a: &A| modz(&to.mul(a).mul(&ti));
    let trans: Vec<A> = (0..d).map(|k| { let mut e = A::id(d); e.s[k] = Q::ONE; over(&e) }).collect();
    let mut want: HashSet<A> = cs.ops.iter().map(over).collect();
    let mut todo: Vec<A> = want.iter().cloned().collect();
    while let Some(a) = todo.pop() { for t in &trans { let b = modz(&t.mul(&a)); if want.insert(b.clone()) { todo.push(b) } if want.len() > 1000 { return c.fail(say("the transform leads to too many operators".into())); } } }
    let missing = want.iter().find(|a| !set.contains(a));
    let extra = set.iter().find(|a| !want.contains(a));
    c.check(missing.is_none() && extra.is_none(), &|| say(format!("operators of {} carried over are missing (e.g. {:?}) or others are listed (e.g. {:?})", s.canonical, missing, extra)));
    // the new lattice must consist of symmetries of the group
    let canon: HashSet<A> = cs.ops.iter().map(modz).collect();
    for k in 0..d { let mut e = A::id(d); e.s[k] = Q::ONE; let b = modz(&ti.mul(&e).mul(&to)); c.check(canon.contains(&b), &|| say(format!("its lattice vector {} is no translation of {}", k + 1, s.canonical))); }
    if s.name != s.canonical { c.nontrivial(&s.name); c.sample(|| format!("{} from {} by {:?}: {} operators", s.name, s.canonical, s.transform, s.ops.len())); }
    c.outcome(&format!("{} operators", s.ops.len()));
}

/// The lookup entry carries the setting into a standard cell of its crystal system and centering.
fn standard(l: &table::Look, s: &table::Setting, c: &mut Ctx) {
    let d = s.transform.dim();
    let say = |m: String| format!("lookup entry for {} ({} {} {:?}): {}", l.name, l.system, l.centering, l.map, m);
    let inv = match l.map.inv() { Some(i) => i, None => return c.fail(say("is singular".into())) };
    if !c.check(mat::det(&l.map.l).n > 0, &|| say("is not right-handed".into())) { return; }
    let (h, a, b) = (Q::new(1, 2), Q::new(1, 3), Q::new(2, 3));
    let o = Q::ZERO;
    // lattice
    let want: HashSet<Vec<Q>> = std::iter::once(vec![o; d]).chain(match &l.centering[..] { "c" => vec![vec![h, h]], "A" => vec![vec![o, h, h]], "B" => vec![vec![h, o, h]], "C" => vec![vec![h, h, o]], "I" => vec![vec![h, h, h]], "F" => vec![vec![o, h, h], vec![h, o, h], vec![h, h, o]], "R" => vec![vec![b, a, a], vec![a, b, b]], _ => vec![] }).collect();
    let shown = |v: &[Q]| -> Vec<Q> { (0..d).map(|i| (0..d).fold(Q::ZERO, |t, k| t + l.map.l[i][k] * v[k])).collect() };
    let gens: Vec<Vec<Q>> = (0..d).map(|k| (0..d).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect::<Vec<Q>>()).chain(s.ops.iter().filter(|x| x.l == A::id(d).l).map(|x| x.s.clone())).map(|v| shown(&v)).collect();
    let modz = |v: &[Q], w: &[Q]| -> Vec<Q> { v.iter().zip(w).map(|(x, y)| (*x + *y).frac()).collect() };
    let mut lat: HashSet<Vec<Q>> = HashSet::from([vec![o; d]]);
    let mut todo = vec![vec![o; d]];
    while let Some(v) = todo.pop() { for w in &gens { let u = modz(&v, w); if lat.insert(u.clone()) { todo.push(u) } if lat.len() > 100 { return c.fail(say("too many translations".into())) } } }
    if !c.check(lat == want, &|| say(format!("translations {:?}", lat))) { return; }
    for k in 0..d { let v: Vec<Q> = (0..d).map(|i| inv.l[i][k]).collect(); c.check(s.ops.iter().any(|x| x.l == A::id(d).l && x.s.iter().zip(&v).all(|(x, y)| (*x - *y).is_int())), &|| say(format!("unit vector {} is no translation of the group", k + 1))); }
    // metrics of the crystal system are kept, and the group is of that system
    let ops: Vec<_> = s.ops.iter().map(|x| l.map.mul(x).mul(&inv).l).collect();
    let metrics: Vec<[i128; 6]> = match (&l.system[..], d) { // 11 22 33 12 13 23
        ("oblique", 2) => vec![[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0]], ("rectangular", 2) => vec![[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0]], ("square", 2) => vec![[1, 1, 0, 0, 0, 0]], ("hexagonal", 2) => vec![[2, 2, 0, -1, 0, 0]],
        ("triclinic", 3) => (0..6).map(|k| { let mut g = [0; 6]; g[k] = 1; g }).collect(), ("monoclinic", 3) => (0..4).map(|k| { let mut g = [0; 6]; g[k] = 1; g }).collect(), ("orthorhombic", 3) => (0..3).map(|k| { let mut g = [0; 6]; g[k] = 1; g }).collect(),
        ("tetragonal", 3) => vec![[1, 1, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0]], ("trigonal" | "hexagonal", 3) => vec![[2, 2, 0, -1, 0, 0], [0, 0, 1, 0, 0, 0]], ("cubic", 3) => vec![[1, 1, 1, 0, 0, 0]],
        _ => return c.fail(say("no such crystal system in this dimension".into())) };
    for g in &metrics {
        let at = |i: usize, j: usize| Q::int(match (i.min(j), i.max(j)) { (0, 0) => g[0], (1, 1) => g[1], (2, 2) => g[2], (0, 1) => g[3], (0, 2) => g[4], _ => g[5] });
        for x in &ops { for i in 0..d { for j in 0..d { let mut t = Q::ZERO; for k in 0..d { for m in 0..d { t = t + x[k][i] * at(k, m) * x[m][j] } } if t != at(i, j) { return c.fail(say(format!("linear part {:?} does not keep the metric {:?}", x, g))) } } } }
    }
    let mut proper: HashSet<Vec<Vec<Q>>> = HashSet::new();
    for x in &ops { let f = if mat::det(x).n < 0 && d == 3 { -Q::ONE } else { Q::ONE }; if mat::det(x).n > 0 || d == 3 { proper.insert(x.iter().map(|r| r.iter().map(|y| *y * f).collect()).collect()); } }
    let mirrors = d == 2 && ops.iter().any(|x| mat::det(x).n < 0);
    let order = |x: &Vec<Vec<Q>>| { let a = A { l: x.clone(), s: vec![o; d] }; let mut p = a.clone(); let mut n = 1; while p.l != A::id(d).l && n < 7 { p = p.mul(&a); n += 1 } n };
    let os: Vec<u32> = proper.iter().map(order).collect();
    let has = |n: u32| os.contains(&n);
    let sys = if d == 2 { if has(3) { "hexagonal" } else if has(4) { "square" } else if mirrors { "rectangular" } else { "oblique" } }
        else if os.iter().filter(|&&n| n == 3).count() == 8 { "cubic" } else if has(6) { "hexagonal" } else if has(3) { "trigonal" } else if has(4) { "tetragonal" } else { match os.len() { 1 => "triclinic", 2 => "monoclinic", _ => "orthorhombic" } };
    c.check(sys == l.system, &|| say(format!("the operators are {}", sys)));
}

fn row(coef: &[Q], cst: Q) -> String {
    let mut s = String::new();
    for (q, a) in coef.iter().zip(["x", "y", "z"]).chain(std::iter::once((&cst, ""))) { if !q.is_zero() { s.push(if q.n < 0 { '-' } else { '+' }); s.push_str(&q.abs().to_string()); s.push_str(a); } }
    if s.is_empty() { s.push('0') }
    s
}

fn c30(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ship = shipped();
    let got = parse_space_group_table(ship.as_bytes()).expect("the shipped table is refused");
    let tab = Arc::new(match table::tables(&got) { Ok(t) => t, Err(e) => { let e = e.clone(); v.push(Space::new("printing of the shipped table", 1, move |_, c| c.fail(e.clone()))); Tab::default() } });
    let (g, sh) = (tab.clone(), ship.clone());
    if v.is_empty() {
        v.push(Space::new("the shipped table as a whole", 1, move |_, c| { match read(sh.as_bytes()) { Text::Tables(w) => { if let Some(d) = differ(&g, &w) { c.fail(format!("shipped table: {}", d)) } } _ => c.fail("the shipped table is not well-formed") }
            c.check(g.settings.len() > 500 && !g.alias.is_empty() && !g.lookup.is_empty(), &|| format!("only {} settings, {} aliases, {} lookup entries", g.settings.len(), g.alias.len(), g.lookup.len())); c.nontrivial(&0); }));
        let all: Vec<table::Setting> = tab.settings.values().cloned().collect();
        let g = tab.clone();
        v.push(Space::list("settings", all, move |s, c| coherent(s, &g, c)));
        let g = tab.clone();
        v.push(Space::list("aliases", tab.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect(), move |(a, b), c| { c.check(g.settings.contains_key(b) || g.settings.keys().any(|k| k.strip_prefix(&b[..]).map_or(false, |r| r.starts_with(':'))), &|| format!("alias {} for {}, which is not listed", a, b)); c.nontrivial(a); }));
        let g = tab.clone();
        v.push(Space::list("lookup entries", tab.lookup.clone(), move |l, c| {
            match g.settings.get(&l.name) { None => c.fail(format!("lookup entry for {}, which is not listed", l.name)), Some(s) => { if c.check(s.transform.dim() == l.map.dim(), &|| format!("lookup entry for {} has dimension {}", l.name, l.map.dim())) { standard(l, s, c) } } }
            c.nontrivial(&(&l.name, &l.map));
        }));
        let groups: Vec<String> = tab.settings.values().filter(|s| s.transform.dim() > 1).map(|s| s.canonical.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let g = tab.clone();
        v.push(Space::list("groups in lookup entries", groups, move |n, c| {
            let k: Vec<_> = g.lookup.iter().filter(|l| g.settings.get(&l.name).map_or(false, |s| s.canonical == *n)).map(|l| &l.name).collect();
            c.check(k.len() == 1, &|| format!("group {} has lookup entries {:?}", n, k)); c.nontrivial(n);
        }));
        // selection
        let by = |sys: usize, cen: usize, tabs: &Tables, want: &[table::Look], c: &mut Ctx| {
            let got: Vec<(String, Option<A>)> = tabs.lookup_settings(system(sys), centering(cen)).iter().map(|(n, m)| (n.clone(), of_map(&m.forward()))).collect();
            let w: Vec<(String, Option<A>)> = want.iter().filter(|l| l.system == SYSTEMS[sys] && l.centering == CENTERINGS[cen]).map(|l| (l.name.clone(), Some(l.map.clone()))).collect();
            if !w.is_empty() { c.nontrivial(&(sys, cen, w.len())); }
            c.check(got == w, &|| format!("lookup of {} {}: {:?}, expected {:?}", SYSTEMS[sys], CENTERINGS[cen], got, w));
            // the inverse belongs to the map
            for (n, m) in tabs.lookup_settings(system(sys), centering(cen)) { c.check((&m * &m.inverse()).is_identity(), &|| format!("lookup map of {} and its inverse", n)); }
        };
        let (sh, g) = (Arc::new(got), tab.clone());
        v.push(Space::new("selections from the shipped table", 90, move |i, c| by((i / 9) as usize, (i % 9) as usize, &sh, &g.lookup, c)));
        v.push(Space::new("selections from tables with entries for two pairs", 90 * 90, move |i, c| {
            let (p, q) = ((i / 90) as usize, (i % 90) as usize);
            let l = |k: usize, n: &str, m: &str| format!("lookup {} {} {} {}\n", n, SYSTEMS[k / 9], CENTERINGS[k % 9], m);
            let s = [l(p, "A", "x,y,z"), l(q, "B", "y,x,z"), l(p, "C", "x,y+1/2"), l(q, "A", "z,x,y")].concat();
            let t = match parse_space_group_table(s.as_bytes()) { Some(t) => t, None => return c.fail(format!("{:?} is refused", s)) };
            let w = match read(s.as_bytes()) { Text::Tables(w) => w, _ => unreachable!() };
            by(p / 9, p % 9, &t, &w.lookup, c);
            by(q / 9, q % 9, &t, &w.lookup, c);
            by(p / 9, q % 9, &t, &w.lookup, c);
        }));
    }
    // names
    v.push(Space::new("names of crystal systems", 10, |i, c| { let n = SYSTEMS[i as usize]; let s = system(i as usize);
        c.eq(&|| "name".into(), &s.to_string(), &n.to_string());
        let cap: String = n[..1].to_uppercase() + &n[1..];
        for x in [n.to_string(), n.to_uppercase(), cap] { c.check(CrystalSystem::from_string(&x) == Some(system(i as usize)), &|| format!("crystal system {:?}", x)); }
        for k in 1..n.len() { c.check(CrystalSystem::from_string(&n[..k]).is_none(), &|| format!("crystal system {:?}", &n[..k])); c.check(CrystalSystem::from_string(&n[k..]).is_none() , &|| format!("crystal system {:?}", &n[k..])); }
        c.nontrivial(n); }));
    v.push(Space::new("names of centerings", 128, |i, c| { let x = (i as u8 as char).to_string(); let k = CENTERINGS.iter().position(|y| *y == x);
        c.check(Centering::from_string(&x) == k.map(centering), &|| format!("centering {:?}", x));
        for y in [format!("{}{}", x, x), format!(" {}", x), String::new()] { c.check(Centering::from_string(&y).is_none(), &|| format!("centering {:?}", y)); }
        if let Some(k) = k { c.eq(&|| "centering".into(), &centering(k).to_string(), &x); c.nontrivial(&x); } }));
    // printing
    let (co, cs) = (qv(&[(0, 1), (1, 1), (-1, 1), (2, 1), (-1, 2), (3, 2), (-3, 1), (2, 3)]), qv(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3), (3, 1), (-12, 1), (5, 4)]));
    for d in 1..=3usize {
        let (co, cs) = (co.clone(), cs.clone());
        let n = 8u64.pow(d as u32 + 1);
        v.push(Space::new(&format!("printed operators, dimension {}", d), n * d as u64, move |i, c| {
            let (r, j) = ((i / d as u64), (i % d as u64) as usize);
            let w = en::word(r, 8, d + 1);
            let coef: Vec<Q> = w[..d].iter().map(|&k| co[k]).collect();
            let cst = cs[w[d]];
            let mut a = A::id(d);
            a.l[j] = coef.clone(); a.s[j] = cst;
            if d > 1 { a.s[(j + 1) % d] = cs[(i % 7) as usize]; }
            let spec: Vec<String> = (0..d).map(|k| row(&a.l[k], a.s[k])).collect();
            let id = ["x", "x,y", "x,y,z"][d - 1];
            let regular = !mat::det(&a.l).is_zero();
            let mut s = format!("G {}\n  {}\n", id, spec.join(","));
            if regular { s += &format!("H {}\nlookup G cubic P {}\n", spec.join(","), spec.join(", ")) }
            let t = match parse_space_group_table(s.as_bytes()) { Some(t) => t, None => return c.fail(format!("{:?} is refused", s)) };
            let p = match table::tables(&t) { Ok(p) => p, Err(e) => return c.fail(format!("{:?}: {}", s, e)) };
            c.check(p.settings.get("G").map_or(false, |x| x.ops == [a.clone()]), &|| format!("operator {:?} is printed as {}", a, t.settings["G"]));
            if regular { c.check(p.settings.get("H").map_or(false, |x| x.transform == a) && p.lookup.len() == 1 && p.lookup[0].map == a, &|| format!("coordinate change {:?} is printed as {} and {}", a, t.settings["H"], t.lookup[0])); }
            c.nontrivial(&(&a, j));
            c.sample(|| s.clone());
        }));
    }
    let _ = (t, HashMap::<u8, u8>::new());
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C29", level: "exploration", spaces: c29, assumptions: &["meaning of alias lines with additional words is left open", "sums beyond 32 bits in operators are left open"],
        rule: "one case per text, compared with a separate reader on exact fractions through the printed tables; non-trivial if the text denotes settings or lookup entries" },
    Check { id: "C30", level: "exploration", spaces: c30, assumptions: &["the table shipped with the repository is the one in src/data"],
        rule: "one case per setting, alias, lookup entry, pair of crystal system and centering, name, and printed operator; non-trivial if a setting differs from its group's canonical one" },
];
