//! C39: lines of crystal data files.
use fw::{attempt, en, Check, Ctx, Space, Tier};
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};

#[derive(Clone, Debug)]
pub enum F { Frac(i64, i64), Int(i64), Real(f64), Key(String), Name(String) }
impl F {
    /// Numbers beyond all bounds are left open.
    pub fn open(&self) -> bool { matches!(self, F::Real(x) if !x.is_finite()) }
}
fn same(g: &Field, w: &F) -> bool {
    match (g, w) {
        (Field::Fraction(r), F::Frac(n, d)) => *r.denom() > 0 && *r.numer() as i64 * d == n * *r.denom() as i64,
        (Field::Int(a), F::Int(b)) => *a as i64 == *b,
        (Field::Double(a), F::Real(b)) => a == b,
        (Field::Key(a), F::Key(b)) | (Field::Name(a), F::Name(b)) => a == b,
        _ => false,
    }
}

fn blank(c: char) -> bool { c == ' ' || c == '\t' }
struct S { c: Vec<char>, i: usize }
impl S {
    fn at(&self, i: usize) -> char { self.c.get(i).copied().unwrap_or('\n') }
    fn run(&self, i: usize, f: &dyn Fn(char) -> bool) -> usize { let mut k = i; while k < self.c.len() && f(self.c[k]) { k += 1 } k }
    fn text(&self, a: usize, b: usize) -> String { self.c[a..b].iter().collect() }
    fn name(&self) -> usize { self.run(self.i, &|c| !blank(c) && c != '"' && c != '#') }
    fn digits(&self, i: usize) -> usize { self.run(i, &|c| c.is_ascii_digit()) }
    fn fraction(&self) -> Option<(F, usize)> {
        let a = if self.at(self.i) == '-' { self.i + 1 } else { self.i };
        let b = self.digits(a);
        if b == a || b - a > 9 || self.at(b) != '/' { return None }
        let e = self.digits(b + 1);
        if e == b + 1 || e - b - 1 > 9 { return None }
        let (n, d): (i64, i64) = (self.text(a, b).parse().unwrap(), self.text(b + 1, e).parse().unwrap());
        if d == 0 { None } else { Some((F::Frac(if a > self.i { -n } else { n }, d), e)) }
    }
    fn number(&self) -> Option<(F, usize)> {
        let sign = if "+-".contains(self.at(self.i)) { 1 } else { 0 };
        let a = self.i + sign;
        let b = self.digits(a);
        let mut e = b;
        if b > a { if self.at(b) == '.' { e = self.digits(b + 1) } }
        else if self.at(a) == '.' && self.digits(a + 1) > a + 1 { e = self.digits(a + 1) }
        else { return None }
        let m = e;
        let mut exp = String::new();
        if "eE".contains(self.at(e)) {
            let x = if "+-".contains(self.at(e + 1)) { e + 2 } else { e + 1 };
            let y = self.digits(x);
            if y > x { exp = self.text(e + 1, y); e = y }
        }
        let mant = self.text(a, m);
        let (ip, fp) = mant.split_once('.').unwrap_or((&mant, ""));
        // digits as one integer times a power of ten, then one correctly rounded conversion
        let x: i64 = exp.trim_start_matches('+').parse().unwrap_or(if exp.starts_with('-') { -99999 } else if exp.is_empty() { 0 } else { 99999 });
        let v: f64 = format!("{}{}e{}", if ip.is_empty() { "0" } else { ip }, fp, x - fp.len() as i64).parse().unwrap();
        let v = if self.at(self.i) == '-' { -v } else { v };
        let f = if v == v.trunc() && v >= i32::MIN as f64 && v <= i32::MAX as f64 { F::Int(v as i64) } else { F::Real(v) };
        Some((f, e))
    }
    fn field(&mut self) -> Option<F> {
        if let Some((f, e)) = self.fraction().or_else(|| self.number()) { self.i = e; return Some(f) }
        if self.at(self.i) == '"' {
            let b = self.run(self.i + 1, &|c| c != '"');
            if b < self.c.len() && b > self.i + 1 { let t = self.text(self.i + 1, b); self.i = b + 1; return Some(F::Name(t)) }
            return None
        }
        let e = self.name();
        if e == self.i { return None }
        let t = self.text(self.i, e); self.i = e; Some(F::Name(t))
    }
}
/// Unparsed rest and fields.
pub fn read(s: &str) -> (String, Vec<F>) {
    let mut p = S { c: s.chars().collect(), i: 0 };
    let skip = |p: &mut S| p.i = p.run(p.i, &blank);
    skip(&mut p);
    let mut v = vec![];
    let e = p.name();
    let mut more = true;
    if e > p.i && p.at(p.i).is_ascii_alphabetic() { v.push(F::Key(p.text(p.i, e))); p.i = e; more = blank(p.at(e)); skip(&mut p); }
    if more { while let Some(f) = p.field() { v.push(f); let b = p.i; skip(&mut p); if p.i == b { break } } }
    skip(&mut p);
    if p.at(p.i) == '#' { p.i = p.c.len() }
    (p.text(p.i, p.c.len()), v)
}

fn judge(s: &str, c: &mut Ctx) {
    let (rest, want) = read(s);
    let got = match attempt(|| parse_cgd_line(s).map(|(r, f)| (r.to_string(), f))) { Ok(Ok(x)) => x, Ok(Err(e)) => return c.fail(format!("line {:?} is refused: {}", s, e)), Err(p) => return c.fail(format!("line {:?}: panicked: {}", s, p)) };
    if want.iter().any(|f| f.open()) { return c.outcome("number out of range") }
    if !(got.0 == rest && got.1.len() == want.len() && got.1.iter().zip(&want).all(|(g, w)| same(g, w))) { c.fail(format!("line {:?}: read as {:?} rest {:?}, expected {:?} rest {:?}", s, got.1, got.0, want, rest)) }
    if !want.is_empty() { c.nontrivial(s); c.sample(|| format!("{:?}: {:?} rest {:?}", s, want, rest)); }
    c.outcome(if rest.is_empty() { "complete" } else { "with unparsed rest" });
}
fn strings(name: &str, pre: &'static str, alpha: &'static str, n: usize) -> Space {
    let a: Vec<char> = alpha.chars().collect();
    let b = a.len() as u64;
    Space::new(&format!("{}: {:?} followed by up to {} of {:?}", name, pre, n, alpha), en::nwords(b, n), move |i, c| { let s: String = pre.chars().chain(en::words(i, b).into_iter().map(|k| a[k])).collect(); judge(&s, c) })
}
const TOKENS: [&str; 44] = ["ATOM", "x", "end", "1", "-1", "+1", "0", "-0", "007", "1.5", "-.5", "+.25", "2.", ".", "-", "+", "1e3", "1e", "1E-", "1e+2", "1.5e-3x", "12abc", "1/2", "-3/6", "+1/2", "1/0", "1/-2", "-0/5", "1/2/3", "1.5/2", "/2", "\"a b\"", "\"#\"", "\"", "\"\"", "\"1\"", "a\"b\"", "inf", "-inf", "NaNo", "é", "Ġ", "ĉ1", "#c"];

fn c39(t: Tier) -> Vec<Space> {
    let mut v = vec![
        strings("all lines", "", " \t#\"019-+./eaĠ", t.pick(5, 6)),
        strings("all lines, fewer characters", "", " \"#1-./ea", t.pick(6, 8)),
        strings("numbers", "k ", "01279.-+eE/ ", t.pick(5, 6)),
        strings("names like numbers", "k ", "infayINFAY-+1 ", t.pick(4, 6)),
        strings("names like numbers, deeper", "1 ", "infatyNe", t.pick(6, 8)),
        strings("characters", "", " aé\u{109}\u{120}\u{122}\u{123}\u{2009}\u{a0}\u{1d520}\u{3000}_1\"#", t.pick(4, 5)),
    ];
    // every character once, in each role
    v.push(Space::new("every character", 0x3000, |i, c| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return };
        if ch == '\n' || ch == '\r' { return }
        for s in [format!("{}", ch), format!("a{}b 1", ch), format!("1 a{}b 1", ch), format!("1{}2", ch), format!("\"{}\" 3", ch), format!("k {} 5", ch), format!("k 1#{}", ch), format!("{}abc 1", ch)] { c.evals(1); judge(&s, c) }
    }));
    let n = TOKENS.len() as u64;
    let depth = t.pick(3, 4);
    for (sep, name) in [(" ", "one blank"), ("\t  ", "several blanks"), ("", "no blank")] {
        v.push(Space::new(&format!("tokens separated by {}", name), en::nwords(n, depth), move |i, c| { let s = en::words(i, n).into_iter().map(|k| TOKENS[k]).collect::<Vec<_>>().join(sep); judge(&s, c); if i < n * n + n + 1 { c.evals(2); judge(&format!("  {} # x \" 1", s), c); judge(&format!("\t{}# y", s), c) } }));
    }
    // lengths and limits of numbers
    let mut l: Vec<String> = vec![];
    for k in 1..=25 { for d in ["1", "9", "0", "2147483648"] { let w: String = d.chars().cycle().take(k).collect();
        for s in ["", "-", "+"] { for f in ["", ".", ".0", ".5", "/1", "/7", "/0", "e0", "e-2", "e2", "/1234567890", "/123456789"] { l.push(format!("k {}{}{} z", s, w, f)); l.push(format!("{}{}{}", s, w, f)); } l.push(format!("k {}5/{}", s, w)); l.push(format!("k {}.{}", s, w)); l.push(format!("k {}1e{} 2", s, w)); l.push(format!("k {}1e-{} 2", s, w)); } } }
    for b in [2147483647i64, 2147483648, 2147483649, 4294967296, 9007199254740993] { for s in ["", "-", "+"] { for f in ["", ".0", ".5", ".999999"] { l.push(format!("k {}{}{}", s, b, f)); } } }
    v.push(Space::list("lengths and limits of numbers", l, |s, c| judge(s, c)));
    // decimal numbers of every size
    let mants: Vec<&str> = vec!["1", "-1", "0", "-0.0", ".1", "9.99999999999999999", "4.9406564584124654", "2.4703282292062327", "2.4703282292062328", "2.2250738585072011", "2.2250738585072014", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "123456789012345678901234567890", "0.000000000000000000000000012345", "-5.", "+7.3", "9007199254740993", "0.3", "1.00000000000000011102230246251565", "1.00000000000000011102230246251566"];
    let exps = t.pick(345i64, 1100);
    v.push(Space::new(&format!("decimal numbers with exponents up to {}", exps), (2 * exps + 1) as u64, move |i, c| {
        let e = i as i64 - exps;
        for m in &mants { for f in [format!("e{}", e), format!("E{}", e), format!("e{:+}", e), format!("e{}{:04}", if e < 0 { "-" } else { "+" }, e.abs())] { for s in [format!("k {}{} z", m, f), format!("{}{}", m, f), format!("k {}{}# z", m, f)] { c.evals(1); judge(&s, c); if c.failed() { return } } } }
        // the same number in plain notation
        for m in ["1", "12345678901234567", "98765.4321", "0.5"] { let z = "0".repeat(e.unsigned_abs() as usize); for s in [format!("k {}{}. z", m.replace('.', ""), z), format!("k -0.{}{} 1", z, m.replace('.', "")), format!("k {}{}", z, m)] { c.evals(1); judge(&s, c); if c.failed() { return } } }
    }));
    // long names, strings, comments, blanks and digits
    let lens: Vec<usize> = t.pick(vec![7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4096, 8192, 8193, 65536], (5..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20]).collect());
    v.push(Space::list("long lines", lens, |&n, c| {
        for u in ["a", "aB", "ä", "x1", "é\u{1d520}", "e-", "_."] { let w: String = u.chars().cycle().take(n).collect();
            for s in [w.clone(), format!("{} 1 2", w), format!("k {} 2", w), format!("k 1 {}", w), format!("1 {} \"q\" {}", w, w), format!("k \"{}\" 3", w), format!("k \"{} {}\" 3", w, w), format!("k \"{}", w), format!("k 1 # {}", w), format!("k 1 #{} \" {}", w, w), format!("-{} 1", w), format!("k 1{} 2", w)] { c.evals(1); judge(&s, c); if c.failed() { return } } }
        for u in [" ", "\t", " \t"] { let w: String = u.chars().cycle().take(n).collect();
            for s in [w.clone(), format!("{}k 1", w), format!("k{}1", w), format!("k 1{}2", w), format!("k 1{}", w), format!("k 1{}#", w), format!("k \"{}\"{}1", w, w), format!("1{}1/2{}x", w, w)] { c.evals(1); judge(&s, c); if c.failed() { return } } }
        if n <= 1100 { for u in ["0", "1", "10", "9", "123456789"] { let w: String = u.chars().cycle().take(n).collect();
            for s in [format!("k {}", w), format!("k 0.{} 1", w), format!("k -{}.5", w), format!("k 1.{}e3 7", w), format!("k {}e-{}", w, n), format!("k .{}e2 z", w), format!("k 0{}/3", w), format!("k 5/{}", w), format!("k 1e-{} 2", w), format!("k 0e{} 2", w)] { c.evals(1); judge(&s, c); if c.failed() { return } } } }
    }));
    let counts: Vec<usize> = t.pick(vec![4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025], (4..=300).chain([500, 511, 512, 513, 1000, 1023, 1024, 1025, 5000]).collect());
    v.push(Space::list("many fields", counts, |&n, c| {
        for step in [1usize, 3, 5, 7, 9, 13] { for first in 0..TOKENS.len() { for sep in [" ", " \t"] {
            // tokens which end the line are put last
            let w: Vec<&str> = (0..n).map(|k| { let x = TOKENS[(first + k * step) % TOKENS.len()]; if k + 1 < n && (x.contains('#') || x == "\"" || x == "\"\"" || x == "." || x == "a\"b\"") { "7" } else { x } }).collect();
            c.evals(1); judge(&w.join(sep), c);
            if c.failed() { return }
        } } }
        for x in TOKENS { c.evals(1); judge(&vec![x; n].join(" "), c); judge(&format!("k {}", vec![x; n].join(" ")), c); }
    }));
    v
}

pub const CHECKS: &[Check] = &[Check { id: "C39", level: "exploration", spaces: c39, assumptions: &["the value of a decimal number is its correctly rounded double", "decimal numbers too large for a double are left open", "lines contain no line ends"],
    rule: "one case per line, compared with a separate tokenizer; non-trivial if the line has a field" }];
