//! C41: the same bytes delivered in different ways, and failing readers.
use crate::blocks::{blocks, differ, differ_entries, entries, got_blocks, got_lines};
use crate::table::{self, read, Text};
use fw::fault::{Feed, Step};
use fw::{attempt, en, Check, Ctx, Space, Tier};
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use std::io::ErrorKind;
use std::sync::Arc;

const CGD: [&[u8]; 9] = [b"A\n1 2\nEnd\n", b"A 1\r\n-1/2\r\nend", b"A\n\n\xff\n3\nEND\n", b"\n\nA\xc3\xa4\nb c", b"end\n5\nX\nk 1\n2", b"A\n\xc3", b"", b"\xe2\x82\xac x\r\n\"q\r\nA\n", b"A\nB\nC #x\n\n1e\nEND # y\nD"];
const TAB: [&[u8]; 7] = [b"A x,y\n  x,y\n", b"A x,y\r\n  -x,y\r\n", b"P x\n x\n -x+1/2", b"A x\nalias Q A", b"A x,y\n x,\xc3\xa4\n", b"# \xff\nA x\n", b"\n# c\nlookup A cubic P x,y,z\n"];

/// Lines before byte `p`; the unfinished last one counts only at the end of input.
fn cut(b: &[u8], p: usize, fail: bool) -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Vec<u8>> = b[..p].split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    let last = v.pop().unwrap();
    let crlf = |mut l: Vec<u8>| { if l.last() == Some(&b'\r') { l.pop(); } Some(l) };
    let mut r: Vec<_> = v.into_iter().map(crlf).collect();
    if fail { r.push(None) } else if !last.is_empty() { r.push(crlf(last)) }
    r
}
fn show(b: &[u8]) -> String { if b.len() < 80 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("text of {} bytes", b.len()) } }

/// Crystal data: `feed` delivers all of `b` without errors.
fn cgd(b: &[u8], feed: &dyn Fn() -> Feed, how: &dyn Fn() -> String, c: &mut Ctx) {
    let we = entries(&cut(b, b.len(), false));
    match got_lines(feed()) { Ok(g) => if let Some(d) = differ_entries(&g, &we) { c.fail(format!("lines of {}, {}: {}", show(b), how(), d)) }, Err(e) => return c.fail(format!("{}, {}: {}", show(b), how(), e)) }
    let wb = blocks(we);
    match got_blocks(feed()) { Ok(g) => if let Some(d) = differ(&g, &wb) { c.fail(format!("blocks of {}, {}: {}", show(b), how(), d)) }, Err(e) => return c.fail(format!("{}, {}: {}", show(b), how(), e)) }
    c.evals(1);
    c.nontrivial(&(b, how()));
    c.outcome(&format!("{} blocks", wb.len()));
}
fn tab(b: &[u8], feed: &dyn Fn() -> Feed, how: &dyn Fn() -> String, c: &mut Ctx) {
    let got = match attempt(|| parse_space_group_table(feed())) { Ok(g) => g, Err(p) => return c.fail(format!("table {}, {}: panicked: {}", show(b), how(), p)) };
    match (got, read(b)) {
        (None, Text::Refuse) => c.outcome("refused"),
        (Some(g), Text::Tables(w)) => { c.outcome("read"); match table::tables(&g) { Ok(t) => if let Some(d) = table::differ(&t, &w) { c.fail(format!("table {}, {}: {}", show(b), how(), d)) }, Err(e) => c.fail(format!("table {}, {}: {}", show(b), how(), e)) } }
        (_, Text::Open) => c.outcome("unspecified"),
        (g, _) => c.fail(format!("table {}, {}: {}", show(b), how(), if g.is_some() { "accepted, but has to be refused" } else { "refused, but well-formed" })),
    }
    c.nontrivial(&(b, how()));
}
/// A failing read after `p` bytes, once or for ever.
fn fail_cgd(b: &[u8], p: usize, kind: ErrorKind, forever: bool, chunk: usize, c: &mut Ctx) {
    let feed = || { let mut plan = vec![]; let mut k = 0; while k < p { let n = chunk.min(p - k); plan.push(Step::Give(n)); k += n } plan.push(Step::Error(kind)); Feed::new(b, plan, if forever { Some(Step::Error(kind)) } else { None }) };
    let how = || format!("failing {} after {} bytes with {:?}", if forever { "for ever" } else { "once" }, p, kind);
    let w = entries(&cut(b, p, true));
    match got_lines(feed()) {
        Ok(g) => {
            // after an error nothing is promised, except that no data is made up
            let head = &g[..g.len().min(w.len())];
            if let Some(d) = differ_entries(head, &w) { c.fail(format!("lines of {}, {}: {}", show(b), how(), d)) }
            if forever { c.check(g.iter().skip(w.len()).all(|e| e.kind == "Error"), &|| format!("lines of {}, {}: entries after the error: {:?}", show(b), how(), g.last())); }
        }
        Err(e) => return c.fail(format!("{}, {}: {}", show(b), how(), e)),
    }
    match got_blocks(feed()) {
        Ok(g) => {
            let wb = blocks(w);
            // finished blocks are kept, and the unfinished one up to the error
            let done = wb.iter().filter(|b| b.entries.last().map_or(false, |e| e.kind == "End")).count();
            if g.len() < wb.len() { return c.fail(format!("blocks of {}, {}: {} found, expected {}", show(b), how(), g.len(), wb.len())) }
            if let Some(d) = differ(&g[..done], &wb[..done]) { c.fail(format!("blocks of {}, {}: {}", show(b), how(), d)) }
            if let Some(u) = wb.get(done) {
                let v = &g[done];
                let n = u.entries.len();
                c.check((&v.kind, v.from) == (&u.kind, u.from) && v.entries.len() >= n, &|| format!("blocks of {}, {}: unfinished block {:?}, expected {:?}", show(b), how(), v, u));
                if v.entries.len() >= n { if let Some(d) = differ_entries(&v.entries[..n - 1], &u.entries[..n - 1]) { c.fail(format!("blocks of {}, {}: unfinished block, {}", show(b), how(), d)) }
                    let (x, y) = (&v.entries[n - 1], &u.entries[n - 1]);
                    c.check(x.kind == "Error" && x.line == y.line && !x.notes.is_empty(), &|| format!("blocks of {}, {}: {:?} in place of the error", show(b), how(), x));
                    if forever { c.check(v.entries.last().map_or(false, |e| e.notes.iter().any(|n| n.contains("missing an 'end'"))), &|| format!("blocks of {}, {}: missing end is not flagged", show(b), how())); } }
            }
            if forever { c.check(g.len() == wb.len(), &|| format!("blocks of {}, {}: {} found, expected {}", show(b), how(), g.len(), wb.len())); }
        }
        Err(e) => return c.fail(format!("{}, {}: {}", show(b), how(), e)),
    }
    c.evals(1);
    c.nontrivial(&(b, p, forever, chunk));
    c.outcome("failing reader");
    c.sample(how);
}
fn fail_tab(b: &[u8], p: usize, kind: ErrorKind, forever: bool, chunk: usize, c: &mut Ctx) {
    let mut plan = vec![]; let mut k = 0; while k < p { let n = chunk.min(p - k); plan.push(Step::Give(n)); k += n } plan.push(Step::Error(kind));
    match attempt(|| parse_space_group_table(Feed::new(b, plan, if forever { Some(Step::Error(kind)) } else { None }))) {
        Err(m) => c.fail(format!("table {}, failing after {} bytes: panicked: {}", show(b), p, m)),
        Ok(g) => { c.check(g.is_none(), &|| format!("table {} is accepted in spite of {:?} after {} bytes", show(b), kind, p)); }
    }
    c.nontrivial(&(b, p, forever, chunk));
    c.outcome("failing reader");
}
const ERRORS: [ErrorKind; 10] = [ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::NotFound];

/// A crystal data file and a table whose lines end around the size of common buffers.
fn long(edge: usize, off: i64, crlf: bool, table: bool) -> Vec<u8> {
    let e: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    let mut b = vec![];
    let goal = (edge as i64 + off) as usize;
    let head: &[u8] = if table { b"A x,y,z" } else { b"CRYSTAL" };
    b.extend(head); b.extend(e);
    let mid: &[u8] = if table { b"  x,y+1/2,z" } else { b"  ATOM 1 4 1/2 .25" };
    while b.len() + 3 * mid.len() < goal { b.extend(mid); b.extend(e); }
    // the last line before the edge ends exactly there, its comment holding characters of several bytes
    let pad: &[u8] = if table { b"  x,y,z+1/3" } else { b"  NODE 2 -3.5 \xe2\x82\xac" };
    b.extend(pad);
    if table { while b.len() < goal { b.push(b' ') } } else { b.push(b' '); while b.len() < goal { b.extend("ä".as_bytes()) } if b.len() > goal { b.pop(); b.pop(); b.push(b'_') } }
    b.extend(e);
    for _ in 0..4 { b.extend(mid); b.extend(e); }
    if !table { b.extend(b"END"); b.extend(e); b.extend("Ä x".as_bytes()); }
    b
}

fn c41(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let (cgds, tabs): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (CGD.iter().map(|b| b.to_vec()).collect(), TAB.iter().map(|b| b.to_vec()).collect());
    // all ways to cut a text into chunks
    let most = t.pick(14, 18);
    for (texts, is_tab) in [(&cgds, false), (&tabs, true)] {
        for b in texts {
            // of longer texts, cut only the last or first bytes freely
            for front in [true, false] {
                let n = b.len();
                let free = n.saturating_sub(1).min(most);
                if !front && free + 1 >= n { continue }
                let b = b.clone();
                v.push(Space::new(&format!("chunks of {} {}, {} {}", if is_tab { "table" } else { "data" }, show(&b), if front { "first" } else { "last" }, free), 1 << free, move |i, c| {
                    let cuts: Vec<usize> = (0..free).filter(|k| i >> k & 1 == 1).map(|k| if front { k + 1 } else { n - 1 - k }).collect();
                    let mut cuts = cuts; cuts.sort(); cuts.push(n);
                    let mut at = 0;
                    let plan: Vec<Step> = cuts.iter().map(|k| { let s = Step::Give(k - at); at = *k; s }).collect();
                    let how = || format!("cut at {:?}", cuts);
                    let feed = || Feed::new(&b, plan.clone(), None);
                    if is_tab { tab(&b, &feed, &how, c) } else { cgd(&b, &feed, &how, c) }
                }));
            }
        }
    }
    // interruptions: before each chunk of one byte none, one or several
    for (texts, is_tab) in [(&cgds, false), (&tabs, true)] {
        for b in texts {
            let (b, n) = (b.clone(), b.len() as u64 + 1);
            let pairs = n * n * 3;
            v.push(Space::new(&format!("interruptions of {} {}", if is_tab { "table" } else { "data" }, show(&b)), pairs, move |i, c| {
                let (p, q, k) = (i % n, i / n % n, (i / n / n) as usize);
                let plan: Vec<Step> = (0..n).flat_map(|j| { let m = (if j == p { k + 1 } else { 0 }) + (if j == q { 1 } else { 0 }); std::iter::repeat(Step::Interrupted).take(m).chain(std::iter::once(Step::Give(1))) }).collect();
                let how = || format!("interrupted at {} and {}", p, q);
                let feed = || Feed::new(&b, plan.clone(), None);
                if is_tab { tab(&b, &feed, &how, c) } else { cgd(&b, &feed, &how, c) }
            }));
        }
    }
    // errors at every position
    for (texts, is_tab) in [(cgds.clone(), false), (tabs.clone(), true)] {
        for b in texts {
            let n = b.len() as u64 + 1;
            v.push(Space::new(&format!("errors in {} {}", if is_tab { "table" } else { "data" }, show(&b)), n * 10 * 2 * 3, move |i, c| {
                let (p, k, f, ch) = ((i % n) as usize, ERRORS[(i / n % 10) as usize], i / n / 10 % 2 == 1, [1, 5, 1000][(i / n / 20) as usize]);
                if is_tab { fail_tab(&b, p, k, f, ch, c) } else { fail_cgd(&b, p, k, f, ch, c) }
            }));
        }
    }
    // invalid bytes at every position, line ends of either kind
    let alpha: Vec<&'static [u8]> = vec![b"\xff", b"\xc3", b"\xe2\x82", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xc3\xa4", b"\xf0\x9d\x94\xa0"];
    for (texts, is_tab) in [(cgds.clone(), false), (tabs.clone(), true)] {
        for b in texts {
            let n = b.len() as u64 + 1;
            let alpha = alpha.clone();
            v.push(Space::new(&format!("bytes put into {} {}", if is_tab { "table" } else { "data" }, show(&b)), n * 8 * 2, move |i, c| {
                let (p, x, ch) = ((i % n) as usize, alpha[(i / n % 8) as usize], [1, 1000][(i / n / 8) as usize]);
                let mut d = b[..p].to_vec(); d.extend(x); d.extend(&b[p..]);
                // a carriage return inside of a line is no concern of this property
                if d.iter().enumerate().any(|(k, y)| *y == b'\r' && d.get(k + 1) != Some(&b'\n')) { return }
                let (how, feed) = (|| format!("{} bytes at a time", ch), || Feed::chunks(&d, ch));
                if is_tab { tab(&d, &feed, &how, c) } else { cgd(&d, &feed, &how, c) }
            }));
        }
    }
    v.push(Space::new("line ends", en::nwords(6, t.pick(5, 6)), |i, c| {
        let l = ["", "A", "end", "1 2", "\"x", "B \u{e4}"];
        let w = en::words(i, 6);
        for m in 0..1u64 << w.len() {
            let mut b = vec![];
            for (j, k) in w.iter().enumerate() { b.extend(l[*k].as_bytes()); b.extend(if m >> j & 1 == 1 { &b"\r\n"[..] } else { &b"\n"[..] }) }
            let how = || "line ends of both kinds".to_string();
            cgd(&b, &|| Feed::chunks(&b, 1 + (m as usize % 3)), &how, c);
        }
    }));
    // texts longer than the buffers in use
    let (edges, span) = (t.pick(vec![8192], vec![1024, 4096, 8192, 16384, 65536]), t.pick(5i64, 40));
    for table in [false, true] { for &edge in &edges { for crlf in [false, true] {
        v.push(Space::new(&format!("lines ending around {} bytes, {}, {}", edge, if table { "table" } else { "data" }, if crlf { "CRLF" } else { "LF" }), (2 * span + 1) as u64 * 6, move |i, c| {
            let b = long(edge, (i / 6) as i64 - span, crlf, table);
            let n = [usize::MAX, 8192, 8191, 4096, 1000, 7][(i % 6) as usize];
            let how = || format!("{} bytes at a time", n);
            if table { tab(&b, &|| Feed::chunks(&b, n), &how, c) } else { cgd(&b, &|| Feed::chunks(&b, n), &how, c) }
            let ks = [ErrorKind::Other, ErrorKind::InvalidData];
            for p in [edge - 1, edge, edge + 1, edge + 2] { for k in ks { for f in [false, true] { if p <= b.len() { if table { fail_tab(&b, p, k, f, n, c) } else { fail_cgd(&b, p, k, f, n, c) } } } } }
        }));
    } } }
    // the shipped table
    let ship: Arc<Vec<u8>> = Arc::new(std::fs::read(format!("{}/src/data/sgtable.data", std::env::var("VERIF_REPO").unwrap_or("/repo".into()))).expect("shipped table"));
    let want = match read(&ship) { Text::Tables(t) => Arc::new(t), _ => panic!("shipped table") };
    let sizes: Vec<(usize, bool)> = t.pick(vec![1usize, 2, 3, 7, 64, 1000, 4096, 8191, 8192, 8193, 1 << 20], (1..200).chain(4000..4200).chain(8100..8300).collect()).into_iter().flat_map(|n| [(n, false), (n, true)]).collect();
    let s = ship.clone();
    v.push(Space::list("the shipped table in chunks", sizes, move |&(n, crlf), c| {
        let b: Vec<u8> = if crlf { s.iter().flat_map(|x| if *x == b'\n' { vec![b'\r', b'\n'] } else { vec![*x] }).collect() } else { s.to_vec() };
        let mut f = Feed::chunks(&b, n); f.limit = 1 << 24;
        match attempt(|| parse_space_group_table(f)) { Ok(Some(g)) => match table::tables(&g) { Ok(x) => if let Some(d) = table::differ(&x, &want) { c.fail(format!("shipped table, {} bytes at a time: {}", n, d)) }, Err(e) => c.fail(e) }, r => c.fail(format!("shipped table, {} bytes at a time: {:?}", n, r.map(|x| x.is_some()))) }
        c.nontrivial(&(n, crlf));
    }));
    let step = t.pick(1997, 41);
    v.push(Space::new("errors in the shipped table", ship.len() as u64 / step + 2, move |i, c| { let p = ((i * step) as usize).min(ship.len()); fail_tab(&ship, p, ERRORS[i as usize % 10], i % 2 == 0, [8192, 5000, 100][i as usize % 3], c) }));
    v
}
pub const CHECKS: &[Check] = &[Check { id: "C41", level: "fault_enumeration", spaces: c41, assumptions: &["what is read after a transient error is left open", "a carriage return that is not part of a line end is left open", "readers keep the contract of std::io::Read"],
    rule: "one case per text and behaviour of the reader (chunks, interruptions, errors, invalid bytes), compared with separate readers of the bytes; all are non-trivial" }];
