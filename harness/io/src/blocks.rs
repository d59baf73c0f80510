//! C40: blocks of crystal data files.
use crate::dbg::{self, V};
use crate::line::{self, F};
use fw::{attempt, en, Check, Ctx, Space, Tier};
use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines};

#[derive(Clone, Debug, PartialEq)]
pub struct E { pub kind: &'static str, pub key: Option<String>, pub fields: Vec<F>, pub notes: Vec<String>, pub line: usize, pub content: Option<String> }
impl PartialEq for F { fn eq(&self, o: &F) -> bool { match (self, o) { (F::Frac(a, b), F::Frac(c, d)) => a * d == b * c, (F::Int(a), F::Int(b)) => a == b, (F::Real(a), F::Real(b)) => a == b, (F::Key(a), F::Key(b)) | (F::Name(a), F::Name(b)) => a == b, _ => false } } }
#[derive(Clone, Debug, PartialEq)]
pub struct B { pub kind: String, pub from: usize, pub to: usize, pub entries: Vec<E> }

/// Lines of bytes; `None` in place of the line at which reading fails.
pub fn entries(lines: &[Option<Vec<u8>>]) -> Vec<E> {
    lines.iter().enumerate().map(|(i, l)| {
        let bad = E { kind: "Error", key: None, fields: vec![], notes: vec!["Error".into()], line: i, content: None };
        let s = match l.as_ref().and_then(|b| String::from_utf8(b.clone()).ok()) { Some(s) => s, None => return bad };
        let (rest, mut f) = line::read(&s);
        let mut e = E { kind: "Data", content: Some(s), ..bad };
        e.notes = if rest.is_empty() { vec![] } else { vec![format!("Error:unparsed line ending '{}'", rest)] };
        if f.is_empty() { e.kind = "Empty" } else { if let F::Key(k) = &f[0] { e.key = Some(k.to_lowercase()); f.remove(0); } e.fields = f }
        e
    }).collect()
}
pub fn blocks(ents: Vec<E>) -> Vec<B> {
    let mut out = vec![];
    let mut cur = B { kind: String::new(), from: 0, to: 0, entries: vec![] };
    let (mut inside, mut key) = (false, None::<String>);
    for mut e in ents {
        if e.kind == "Empty" && e.notes.is_empty() { continue }
        let mut close = false;
        if e.kind == "Data" {
            match e.key.clone() {
                None => { e.key = key.clone(); if !inside { e.notes.push("Error:data found before block start".into()) } }
                Some(k) if k == "end" => {
                    e.kind = "End"; close = true;
                    if !inside { cur.from = e.line; cur.kind = "--void--".into(); e.notes.push("Error:block has no type or content".into()) }
                    if !e.fields.is_empty() { e.notes.push("Warning:text after 'end' ignored".into()) }
                    cur.to = e.line;
                    inside = false; key = None;
                }
                Some(k) if !inside => { e.kind = "Begin"; inside = true; key = None; cur.from = e.line; cur.kind = k; if !e.fields.is_empty() { e.notes.push("Warning:text after block type ignored".into()) } }
                Some(k) => key = Some(k),
            }
        }
        cur.entries.push(e);
        if close { out.push(std::mem::replace(&mut cur, B { kind: String::new(), from: 0, to: 0, entries: vec![] })) }
    }
    if inside { let e = cur.entries.last_mut().unwrap(); cur.to = e.line; e.notes.push("Error:final block is missing an 'end' statement".into()); out.push(cur) }
    out
}

fn field(v: &V) -> Option<F> {
    let a = v.arg()?;
    Some(match (v.name(), a) {
        ("Fraction", V::Struct(..)) => F::Frac(a.get("numer")?.name().parse().ok()?, a.get("denom")?.name().parse().ok()?),
        ("Fraction", _) => return None,
        ("Int", _) => F::Int(a.name().parse().ok()?),
        ("Double", _) => F::Real(a.name().parse().ok()?),
        ("Key", V::Str(s)) => F::Key(s.clone()), ("Name", V::Str(s)) => F::Name(s.clone()),
        _ => return None,
    })
}
fn opt(v: &V) -> Option<Option<String>> { match v { V::Atom(n) if n == "None" => Some(None), V::Tuple(n, a) if n == "Some" => if let V::Str(s) = &a[0] { Some(Some(s.clone())) } else { None }, _ => None } }
pub fn entry(v: &V) -> Option<E> {
    let kind = ["Begin", "End", "Data", "Empty", "Error"].into_iter().find(|k| Some(*k) == v.get("entry_type").map(|x| x.name()))?;
    let notes = v.get("notes")?.list().iter().map(|n| Some(format!("{}:{}", n.name(), n.arg()?.name()))).collect::<Option<Vec<_>>>()?;
    Some(E { kind, key: opt(v.get("key")?)?, fields: v.get("fields")?.list().iter().map(field).collect::<Option<Vec<_>>>()?, notes, line: v.get("line_number")?.name().parse().ok()?, content: opt(v.get("content")?)? })
}
pub fn block(v: &V) -> Option<B> {
    Some(B { kind: v.get("block_type")?.name().into(), from: v.get("lineno_start")?.name().parse().ok()?, to: v.get("lineno_end")?.name().parse().ok()?, entries: v.get("entries")?.list().iter().map(entry).collect::<Option<Vec<_>>>()? })
}
pub fn same_entry(g: &E, w: &E) -> bool {
    let mut n = (g.notes.clone(), w.notes.clone());
    // the wording for unreadable lines is free
    if w.kind == "Error" { if g.notes.len() == w.notes.len() && g.notes[0].starts_with("Error:") { n.0[0] = "Error".into() } }
    n.0.sort(); n.1.sort();
    g.kind == w.kind && g.key == w.key && n.0 == n.1 && g.line == w.line && g.fields == w.fields && (w.kind == "Error" || g.content == w.content)
}
pub fn differ_entries(g: &[E], w: &[E]) -> Option<String> {
    if let Some(i) = (0..g.len().min(w.len())).find(|&i| !same_entry(&g[i], &w[i])) { return Some(format!("entry {}: {:?}, expected {:?}", i, g[i], w[i])) }
    if g.len() != w.len() { return Some(format!("{} entries, expected {}: {:?}", g.len(), w.len(), g.get(w.len()).or(w.get(g.len())))) }
    None
}
pub fn differ(g: &[B], w: &[B]) -> Option<String> {
    for (i, (a, b)) in g.iter().zip(w).enumerate() {
        if (&a.kind, a.from, a.to) != (&b.kind, b.from, b.to) { return Some(format!("block {} of type {:?} from line {} to {}, expected {:?} from {} to {}", i, a.kind, a.from, a.to, b.kind, b.from, b.to)) }
        if let Some(d) = differ_entries(&a.entries, &b.entries) { return Some(format!("block {}: {}", i, d)) }
    }
    if g.len() != w.len() { return Some(format!("{} blocks, expected {}", g.len(), w.len())) }
    None
}
pub fn got_lines<R: std::io::Read>(r: R) -> Result<Vec<E>, String> { let s = attempt(|| format!("{:?}", parse_lines(r))).map_err(|p| format!("parse_lines panicked: {}", p))?; dbg::read(&s).and_then(|v| v.list().iter().map(entry).collect()).ok_or_else(|| format!("cannot make sense of {}", s)) }
pub fn got_blocks<R: std::io::Read>(r: R) -> Result<Vec<B>, String> { let s = attempt(|| format!("{:?}", parse_blocks(r))).map_err(|p| format!("parse_blocks panicked: {}", p))?; dbg::read(&s).and_then(|v| v.list().iter().map(block).collect()).ok_or_else(|| format!("cannot make sense of {}", s)) }

pub fn judge(lines: &[&[u8]], tail: bool, c: &mut Ctx) {
    let mut b = lines.join(&b'\n');
    if tail && !lines.is_empty() { b.push(b'\n') }
    // an empty last line without a line end is no line
    let mut l: Vec<Option<Vec<u8>>> = lines.iter().map(|x| Some(x.to_vec())).collect();
    if !tail && lines.last().map_or(false, |x| x.is_empty()) { l.pop(); }
    let we = entries(&l);
    let text = || format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(2000)]));
    match got_lines(&b[..]) { Ok(g) => if let Some(d) = differ_entries(&g, &we) { c.fail(format!("lines of {}: {}", text(), d)) }, Err(e) => return c.fail(format!("{}: {}", text(), e)) }
    let wb = blocks(we);
    match got_blocks(&b[..]) { Ok(g) => if let Some(d) = differ(&g, &wb) { c.fail(format!("blocks of {}: {}", text(), d)) }, Err(e) => return c.fail(format!("{}: {}", text(), e)) }
    if wb.iter().any(|b| b.entries.len() > 1) { c.nontrivial(&b); c.sample(|| format!("{}: {:?}", text(), wb.iter().map(|b| (&b.kind, b.from, b.to, b.entries.len())).collect::<Vec<_>>())); }
    for b in &wb { for e in &b.entries { for n in &e.notes { c.outcome(n.split(" line ending").next().unwrap()) } } }
    c.outcome(&format!("{} blocks", wb.len()));
}
const KINDS: [&[u8]; 26] = [b"", b"CRYSTAL", b"end", b"3 x", b"Name 1 two", b"  # c", b"END 1", b"\"", b"Type 5 6", b"\xff\xfe", b"  END # c", b"end \"x", b"\"end\" 4", b"eNd 2 3 \"", b"ending", b"LOOP 7 8 # 9", b"\t", b" \"a b\" -1/2", b"Key \"un", b"name", b"12 \"x", b"-end 2", b"N\xc3\x84ME 1", b"end\"", b"\xc3\x84 end", b"end# x"];
fn seqs(name: &str, kinds: Vec<&'static [u8]>, n: usize) -> Space {
    let b = kinds.len() as u64;
    Space::new(&format!("{}: up to {} lines of {} kinds", name, n, b), en::nwords(b, n), move |i, c| {
        let l: Vec<&[u8]> = en::words(i, b).into_iter().map(|k| kinds[k]).collect();
        judge(&l, true, c);
        c.evals(1);
        judge(&l, false, c);
    })
}
/// Files of many blocks, blocks of many entries, and long stretches without a block.
fn long_files(t: Tier) -> Vec<Vec<Vec<u8>>> {
    let counts: Vec<usize> = t.pick(vec![5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000], (5..=140).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 3000]).collect());
    let entry = |k: usize, s: usize| -> Vec<u8> { match (k + s) % 7 { 0 => format!("Key{} {}", k % 13, k), 1 => format!("  {} {}/3", k, k), 2 => format!("Key{} \"a {}\" x", k, k), 3 => if k % 2 == 0 { String::new() } else { "# note".into() }, 4 => format!("  .{} -{}", k, k), 5 => format!("KEY{} 1 \"{}", k % 5, k), _ => format!("7 n{} # end", k) }.into_bytes() };
    let mut v = vec![];
    for &n in &counts { for s in 0..4usize {
        // one block of n entries, finished or not, with another one behind
        let mut l: Vec<Vec<u8>> = vec![format!("Crystal{}", s).into_bytes()];
        l.extend((0..n).map(|k| entry(k, s)));
        if s != 2 { l.push(if s == 1 { b"END # x".to_vec() } else { b"end".to_vec() }); }
        if s < 2 { l.extend([b"Net".to_vec(), b"1 2".to_vec(), b"End".to_vec()]); }
        v.push(l);
        // the same key or no key for all entries
        let mut l: Vec<Vec<u8>> = vec![b"A".to_vec()];
        l.extend((0..n).map(|k| match s { 0 => format!("{}", k), 1 => format!("Key {}", k), 2 => if k == 0 { "Key 0".into() } else { format!("{}", k) }, _ => format!("k{}", n - k) }.into_bytes()));
        l.push(b"end 5".to_vec());
        v.push(l);
        // n blocks of few entries, some without an end or a beginning
        let mut l: Vec<Vec<u8>> = vec![];
        for b in 0..n { if s != 1 || b % 5 != 3 { l.push(format!("{}{}", ["A", "Bc", "CRYSTAL"][b % 3], if b % 4 == 1 { " 3".to_string() } else { format!("{}", b % 11) }).into_bytes()); }
            l.extend((0..[0, 1, 2, 5][(b + s) % 4]).map(|k| entry(b * 3 + k, s)));
            if s != 2 || b % 6 != 2 { l.push([&b"end"[..], b"END", b" End "][b % 3].to_vec()); }
            if s == 3 { l.push(vec![]); } }
        v.push(l);
        // n lines without a block, then one
        let mut l: Vec<Vec<u8>> = (0..n).map(|k| match s { 0 => vec![], 1 => b"# c".to_vec(), 2 => format!("{}", k).into_bytes(), _ => b"end".to_vec() }).collect();
        l.extend([b"A 1".to_vec(), b"2 x".to_vec(), b"end".to_vec()]);
        v.push(l.clone());
        // the same behind a block, with an unreadable line in between
        l.insert(0, b"Q".to_vec()); l.insert(1, b"end".to_vec()); l.insert(n / 2 + 2, b"\xff".to_vec());
        v.push(l);
    } }
    v
}
/// Files beyond the sizes of 16-bit counters and common buffers.
fn huge_files(t: Tier) -> Vec<(usize, usize)> { (0..6).flat_map(|k| t.pick(vec![70_001], vec![33_000, 65_536, 140_003, 300_000]).into_iter().map(move |n| (n, k))).collect() }
fn huge(n: usize, k: usize) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = vec![b"Q 1".to_vec(), b"End".to_vec()];
    match k {
        0 => l.extend((0..n).map(|i| if i % 2 == 0 { b"# c".to_vec() } else { vec![] })),
        1 => { l.push(b"A".to_vec()); l.extend((0..n).map(|i| format!("{}", i).into_bytes())); l.push(b"end".to_vec()) }
        2 => for i in 0..n / 2 { l.push(format!("B{}", i).into_bytes()); l.push(b"end".to_vec()) },
        3 => { l.push(b"A".to_vec()); l.push(format!("k \"{}\" 7", "x y-".repeat(4 * n)).into_bytes()); l.push(b"end".to_vec()) }
        4 => { l.push(b"A".to_vec()); l.push(format!("k {}", "1 .5 ab ".repeat(n / 4)).into_bytes()); l.push(b"end".to_vec()) }
        _ => l.push(format!("# {}", "x".repeat(16 * n)).into_bytes()),
    }
    l.extend([b"A 1".to_vec(), b"2 x".to_vec(), b"end".to_vec()]);
    l
}
/// Files in which one short word opens a block, starts entries, and may end the block.
fn keyed(w: &str, c: &mut Ctx) {
    let up = w.to_uppercase();
    for (t, tail) in [
        (format!("{w} 1\n{w} 2\n 3\nK 4\n{up} 5\n6\nend\n7\n"), true),
        (format!("A\n1\n{w}\n2\nend\nB\nend"), false),
        (format!("{w}\nB\n {up} x\n\nend {w}\n{w}"), true),
        (format!("A\n{w}2 1\n2\nEnd\n"), true),
        (format!("A\n{w}-end 1\n2\nEND\n"), true),
    ] { let l: Vec<&[u8]> = t.split('\n').map(|x| x.as_bytes()).collect(); c.evals(1); judge(&l, tail, c); if c.failed() { return } }
}
fn keys(name: &str, pre: &'static str, alpha: &'static str, post: &'static str, n: usize) -> Space {
    let a: Vec<char> = alpha.chars().collect();
    let b = a.len() as u64;
    Space::new(&format!("words {:?} up to {} of {:?} {:?} in all roles, {}", pre, n, alpha, post, name), en::nwords(b, n), move |i, c| { let s: String = pre.chars().chain(en::words(i, b).into_iter().map(|k| a[k])).chain(post.chars()).collect(); keyed(&s, c) })
}
fn c40(t: Tier) -> Vec<Space> {
    vec![
        keys("near the end keyword", "", "endEND2_- .\"#ab1", "", t.pick(3, 4)),
        keys("letters of the end keyword", "", "endED", "", t.pick(5, 7)),
        keys("all letters", "", "abcdefghijklmnopqrstuvwxyz", "", t.pick(2, 3)),
        keys("behind end", "end", "abcdefghijklmnopqrstuvwxyz0123456789_-:.,;'/\\()[]+*=\u{e9}\u{17f}", "", t.pick(2, 2)),
        keys("before end", "", "abcdefghijklmnopqrstuvwxyz0123456789_-:.,;'/\\()[]+*=\u{e9}\u{17f}", "end", t.pick(2, 2)),
        Space::list("usual keywords in all roles", ["crystal", "CRYSTAL", "Name", "group", "space_group", "SpaceGroup", "cell", "atom", "node", "vertex", "edge", "center", "EDGE_CENTER", "id", "tiling", "maximal_symmetric", "periodic_graph", "systre_key", "endcrystal", "end_crystal", "blockend", "begin", "Loop", "end1", "ende", "en", "enD", "\u{212a}ey", "\u{130}d"].to_vec(), |w, c| keyed(w, c)),
        Space::list("huge files", huge_files(t), |&(n, k), c| { let l = huge(n, k); let l: Vec<&[u8]> = l.iter().map(|x| &x[..]).collect(); judge(&l, n % 2 == 1, c) }),
        seqs("all kinds of lines", KINDS.to_vec(), t.pick(3, 4)),
        seqs("common kinds of lines", KINDS[..10].to_vec(), t.pick(5, 6)),
        seqs("basic kinds of lines", KINDS[..6].to_vec(), t.pick(6, 8)),
        seqs("blocks only", vec![b"A", b"end", b"1", b"B 2"], t.pick(8, 10)),
        Space::list("long files", long_files(t), |l, c| { let l: Vec<&[u8]> = l.iter().map(|x| &x[..]).collect(); judge(&l, true, c); judge(&l, false, c); c.evals(1) }),
    ]
}
pub const CHECKS: &[Check] = &[Check { id: "C40", level: "exploration", spaces: c40, assumptions: &["entries and blocks are observed through their derived Debug output", "the last line of an unfinished block is its last line that is not blank", "lines outside of any block after the last block are left open, except that they belong to no block"],
    rule: "one case per sequence of lines, with and without a final line end, compared with a separate state machine; non-trivial if some block has several entries" }];
