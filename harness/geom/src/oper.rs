//! Reference reading of symmetry operators, and C28.
use fw::en;
use fw::q::{gcd, Q};
use fw::{attempt, Check, Ctx, Space, Tier};
use rust_systre::spacegroups::parse_operator::parse_operator;

#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub rows: Vec<Vec<Q>>, pub shift: Vec<Q> }
#[derive(Clone, Debug, PartialEq)]
pub enum Reading { /// map and length of the text used
    Map(Op, usize), Rejected, /// a sum does not fit into 32 bits: only required not to fail abnormally
    Overflow }

struct S<'a> { t: &'a [u8], over: bool }
impl<'a> S<'a> {
    fn at(&self, i: usize) -> u8 { *self.t.get(i).unwrap_or(&0) }
    fn sp(&self, mut i: usize) -> usize { while matches!(self.at(i), b' ' | b'\t') { i += 1 } i }
    /// at most nine digits
    fn int(&self, i: usize) -> Option<(i128, usize)> {
        let mut j = i;
        let mut n: i128 = 0;
        while self.at(j).is_ascii_digit() { if j - i < 12 { n = n * 10 + (self.at(j) - b'0') as i128; } j += 1 }
        if j > i && j - i <= 9 { Some((n, j)) } else { None }
    }
    fn frac(&self, i: usize) -> Option<(Q, usize)> {
        let (n, j) = self.int(i)?;
        let k = self.sp(j);
        if self.at(k) == b'/' { if let Some((d, l)) = self.int(self.sp(k + 1)) { if d != 0 { return Some((Q::new(n, d), l)); } } }
        Some((Q::int(n), j))
    }
    fn axis(&self, i: usize) -> Option<usize> { match self.at(i) { b'x' => Some(0), b'y' => Some(1), b'z' => Some(2), _ => None } }
    fn unsigned(&self, i: usize) -> Option<(Q, usize, usize)> {
        if let Some((q, j)) = self.frac(i) {
            if self.at(j) == b'*' { if let Some(a) = self.axis(j + 1) { return Some((q, a, j + 2)); } }
            let k = self.sp(j);
            if let Some(a) = self.axis(k) { return Some((q, a, k + 1)); }
            return Some((q, 3, j));
        }
        self.axis(i).map(|a| (Q::ONE, a, i + 1))
    }
    fn signed(&self, i: usize) -> Option<(Q, usize, usize)> {
        let f = match self.at(i) { b'+' => Q::ONE, b'-' => Q::int(-1), _ => return None };
        self.unsigned(self.sp(i + 1)).map(|(q, a, j)| (q * f, a, j))
    }
    fn coord(&mut self, i: usize) -> Option<([Q; 4], usize)> {
        let mut r = [Q::ZERO; 4];
        let (q, a, mut j) = self.signed(i).or_else(|| self.unsigned(i))?;
        r[a] = q;
        while let Some((q, a, k)) = self.signed(self.sp(j)) {
            let (x, y) = (r[a], q);
            let l = x.d / gcd(x.d, y.d) * y.d;
            let big = |z: i128| z < i32::MIN as i128 || z > i32::MAX as i128;
            if big(l) || big(l / x.d * x.n) || big(l / y.d * y.n) || big(l / x.d * x.n + l / y.d * y.n) { self.over = true }
            r[a] = x + y;
            j = k;
        }
        Some((r, j))
    }
}

/// The longest prefix that denotes an operator.
pub fn read(t: &str) -> Reading {
    let mut s = S { t: t.as_bytes(), over: false };
    let mut cs = vec![];
    let i = s.sp(0);
    let mut end = match s.coord(i) { Some((c, j)) => { cs.push(c); j } None => return Reading::Rejected };
    loop {
        let k = s.sp(end);
        if s.at(k) != b',' { break; }
        let k = s.sp(k + 1);
        match s.coord(k) { Some((c, j)) => { cs.push(c); end = j } None => break }
    }
    if s.over { return Reading::Overflow; }
    let n = cs.len();
    if n > 3 || cs.iter().any(|c| (n..3).any(|k| !c[k].is_zero())) { return Reading::Rejected; }
    let end = s.sp(end);
    Reading::Map(Op { rows: cs.iter().map(|c| c[..n].to_vec()).collect(), shift: cs.iter().map(|c| c[3]).collect() }, end)
}
/// Does an axis occur, with whatever coefficient, that the dimension does not have?
fn cancelled(t: &str, n: usize) -> bool { (n < 3 && t.contains('z')) || (n < 2 && t.contains('y')) }

fn judge(t: &str, c: &mut Ctx) {
    let got = match attempt(|| parse_operator(t).map(|(r, o)| (r.to_string(), o))) { Ok(g) => g, Err(p) => return c.fail(format!("parsing {:?} panicked: {}", t, p)) };
    match (read(t), got) {
        (Reading::Overflow, _) => c.outcome("sum beyond 32 bits"),
        (Reading::Rejected, g) => { c.check(g.is_err(), &|| format!("{:?} denotes no operator but is parsed as {:?}", t, g)); c.outcome("rejected"); }
        (Reading::Map(o, end), g) => {
            let rest = &t[end..];
            match g {
                // an axis beyond the dimension whose coefficients add up to zero may be refused
                Err(e) => { if cancelled(&t[..end], o.shift.len()) { c.outcome("superfluous axis refused") } else { c.fail(format!("{:?} denotes {:?} but is rejected: {}", t, o, e)) } }
                Ok((r, (rows, shift))) => {
                    let q = |x: &num_rational::Ratio<i32>| Q::new(*x.numer() as i128, *x.denom() as i128);
                    let g = Op { rows: rows.iter().map(|r| r.iter().map(q).collect()).collect(), shift: shift.iter().map(q).collect() };
                    if !c.check(g == o, &|| format!("{:?} is parsed as {:?}, expected {:?}", t, g, o)) { return; }
                    c.check(r == rest, &|| format!("{:?} leaves {:?} unparsed, expected {:?}", t, r, rest));
                    c.outcome(&format!("{} coordinates, {}", o.shift.len(), if rest.is_empty() { "complete" } else { "with remainder" }));
                    if rest.is_empty() { c.nontrivial(t); c.sample(|| format!("{:?}: {:?}", t, o)); }
                }
            }
        }
    }
}
fn strings(name: &str, al: &'static [&'static str], n: usize) -> Space {
    let b = al.len() as u64;
    Space::new(&format!("{} ({} symbols, length up to {})", name, b, n), en::nwords(b, n), move |i, c| judge(&en::words(i, b).into_iter().map(|k| al[k]).collect::<String>(), c))
}
fn c28(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(strings("strings over the notation", &["x", "y", "z", "1", "2", "0", "/", "+", "-", "*", " ", ","], t.pick(7, 8)));
    v.push(strings("strings over a part of the notation", &["x", "z", "3", "/", "+", "-", " ", ","], t.pick(8, 9)));
    v.push(strings("strings with foreign characters", &["x", "y", "1", "/", "-", "*", ",", " ", "\t", "\n", "\r", "a", "X", ".", "#", "(", "é", "\u{a0}", "½", "\0"], t.pick(5, 6)));
    // sentences
    let (signs, vals, joins, axes) = (["", "-", "+", "- ", "+\t", "--"], ["", "1", "2/3", "0", "12 / 8", "007", "4/0", "123456789", "1234567890", "3/1000000007"], ["", "*", " ", " *"], ["", "x", "y", "z"]);
    let mut terms = vec![];
    for s in signs { for q in vals { for j in joins { for a in axes { if q.is_empty() && !j.is_empty() { continue; } terms.push(format!("{}{}{}{}", s, q, j, a)); } } } }
    terms.sort(); terms.dedup();
    let seps = ["", " ", "  "];
    let n = terms.len() as u64;
    let tt = std::sync::Arc::new(terms);
    let x = tt.clone();
    v.push(Space::new(&format!("coordinates of two of {} terms", n), n * n * 3, move |i, c| { let d = en::digits(i, &[n, n, 3]); judge(&format!("{}{}{}", x[d[0] as usize], seps[d[2] as usize], x[d[1] as usize]), c) }));
    let short: Vec<String> = ["x", "-y", "+z", "2x", "1/2 y", "- 2/3*x", "3", "-1/2", "+ 5/6", "0", "-0x", "4z"].iter().map(|s| s.to_string()).collect();
    let m = short.len() as u64;
    let k = t.pick(4, 5);
    let sh = short.clone();
    v.push(Space::new(&format!("coordinates of up to {} of {} terms, alone and behind x,", k, m), 2 * en::nwords(m, k), move |i, c| {
        let mut s = if i % 2 == 1 { "x,".to_string() } else { String::new() };
        for (p, j) in en::words(i / 2, m).into_iter().enumerate() { if p > 0 && !sh[j].starts_with(['-', '+']) { s.push_str(" + "); } s.push_str(&sh[j]); }
        judge(&s, c)
    }));
    let coords = ["x", "y", "z", "-x", "-y+1/2", "z - 1/3", "x-y", "2/3+x", "0", "y-y", "1/2x - 3 / 4 y+z", "+ z", "x+x+1", "2 z+1", "w", "", "x x", "1*y-1", "1/4", "-1/2*z"];
    let seps = [",", ", ", " , ", "\t,", ",,", " ", ";"];
    let (n, q) = (coords.len() as u64, seps.len() as u64);
    v.push(Space::new("single coordinates in spaces", n * 9, move |i, c| { let d = en::digits(i, &[n, 3, 3]); let w = ["", " ", " \t "]; judge(&format!("{}{}{}", w[d[1] as usize], coords[d[0] as usize], w[d[2] as usize]), c) }));
    v.push(Space::new("pairs of coordinates", n * n * q * 2, move |i, c| { let d = en::digits(i, &[n, n, q, 2]); judge(&format!("{}{}{}{}", coords[d[0] as usize], seps[d[2] as usize], coords[d[1] as usize], ["", "  "][d[3] as usize]), c) }));
    v.push(Space::new("triplets of coordinates", n * n * n * q, move |i, c| { let d = en::digits(i, &[n, n, n, q]); let s = seps[d[3] as usize]; judge(&format!("{}{}{},{}", coords[d[0] as usize], s, coords[d[1] as usize], coords[d[2] as usize]), c) }));
    v.push(Space::new("quadruplets of coordinates", t.pick(8u64, 20).pow(4), move |i, c| { let w = en::word(i, t.pick(8, 20), 4); judge(&w.into_iter().map(|k| coords[k]).collect::<Vec<_>>().join(","), c) }));
    // long sums, blanks and lists
    let counts: Vec<usize> = t.pick(vec![5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 256, 257, 1000], (5..=130).chain([200, 255, 256, 257, 500, 512, 1000, 1024]).collect());
    let sh = short.clone();
    v.push(Space::list("long sums, blanks and lists", counts, move |&n, c| {
        for step in [1usize, 2, 3, 5, 7] { for first in 0..sh.len() {
            let w: Vec<String> = (0..n).map(|k| { let s = &sh[(first + k * step) % sh.len()]; if k > 0 && !s.starts_with(['-', '+']) { format!("+ {}", s) } else { s.clone() } }).collect();
            for s in [w.join(" "), format!("x,{}", w.join("")), format!("{},y-x,1/2 z", w.join(" ")), format!("-y, {} ,z", w.join("\t"))] { c.evals(1); judge(&s, c); if c.failed() { return } }
        } }
        for x in &sh { let y = if x.starts_with(['-', '+']) { x.clone() } else { format!("+{}", x) }; c.evals(1); judge(&y.repeat(n), c); judge(&format!("y,{},z", y.repeat(n)), c); judge(&format!("{} +", y.repeat(n)), c); }
        let b = [" ".repeat(n), "\t ".repeat(n)];
        for b in &b { for s in [format!("{}x,y", b), format!("x{},y", b), format!("x,{}y", b), format!("x{}+{}1/2,y", b, b), format!("1{}/{}2 x,y,z", b, b), format!("1/2{}x", b), format!("-{}y,x", b), format!("x,y{}", b), format!("x,y{}a", b), format!("x{}y", b)] { c.evals(1); judge(&s, c); if c.failed() { return } } }
        for u in ["x", "0", "x,y", "1/2", "z"] { c.evals(1); judge(&vec![u; n].join(","), c); judge(&format!("x,y,z,{}", vec![u; n].join(", ")), c); judge(&format!("x,y{}", format!(",{}w", u).repeat(n)), c); }
        for z in ["0".repeat(n), "0".repeat(n.min(8))] { for s in [format!("{}1x", z), format!("1/{}2+y,x", z), format!("{}/3,x", z), format!("x-{}", z)] { c.evals(1); judge(&s, c); if c.failed() { return } } }
    }));
    // large values
    let vals = ["999999999", "-999999999", "+147483650", "-147483650", "147483649", "1/999999999", "-1/999999998", "46341/46340", "-1/46341", "2147483647", "1/65536", "1/32768", "-2147483", "0/999999999", "000000001"];
    let n = vals.len() as u64;
    v.push(Space::new("sums of large values", (n + n * n + n * n * n + t.pick(0, n.pow(4))) * 2, move |i, c| {
        let mut w = en::words(i / 2 + 1, n);
        if w.is_empty() { w.push(0) }
        let mut s = String::new();
        for (k, j) in w.into_iter().enumerate() { if k > 0 && !vals[j].starts_with(['-', '+']) { s.push('+') } s.push_str(vals[j]); if i % 2 == 1 { s.push('x') } }
        judge(&s, c)
    }));
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C28", level: "exploration", spaces: c28, assumptions: &["integers in the notation have at most nine digits; sums beyond 32 bits may be refused"],
        rule: "one case per string, compared with a hand-written scanner on exact fractions; non-trivial if the whole string denotes an operator" },
];
