use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick { quick } else { thorough }
    }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

pub struct Ctx {
    evals: u64,
    transitions: u64,
    traces: u64,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_room: usize,
    fails: Vec<(String, String)>,
}

/// FNV-1a with a final mix: a fixed hash, so that counts are the same on every run.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv { fn default() -> Self { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9e3779b97f4a7c15);
    }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn finish(&self) -> u64 {
        let mut z = self.0; z ^= z >> 32; z = z.wrapping_mul(0xd6e8feb86659fd93); z ^= z >> 32; z
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv::default(); t.hash(&mut h); h.finish() }

impl Ctx {
    fn new() -> Self {
        Ctx { evals: 0, transitions: 0, traces: 0, nontrivial: HashSet::new(), states: HashSet::new(),
            outcomes: BTreeMap::new(), samples: vec![], sample_room: 2, fails: vec![] }
    }
    /// Additional executions inside one case (each case counts once by itself).
    pub fn evals(&mut self, n: u64) { self.evals += n; }
    /// Marks the case (or one execution in it) as non-trivial under a canonical key.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) { self.nontrivial.insert(hash64(key)); }
    pub fn state<T: Hash + ?Sized>(&mut self, key: &T) -> bool { self.states.insert(hash64(key)) }
    pub fn transitions(&mut self, n: u64) { self.transitions += n; }
    pub fn traces(&mut self, n: u64) { self.traces += n; }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) { *n += 1 } else if self.outcomes.len() < 200 { self.outcomes.insert(s.to_string(), 1); }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.sample_room > 0 { self.sample_room -= 1; let mut s = f(); if s.len() > 400 {
            let mut k = 400; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k) } self.samples.push(s); }
    }
    pub fn fail<S: Into<String>>(&mut self, msg: S) { self.fail_key("", msg) }
    /// `key` identifies the specific input, for the known-findings file.
    pub fn fail_key<S: Into<String>>(&mut self, key: &str, msg: S) {
        if self.fails.len() < 50 {
            let mut m: String = msg.into();
            if m.len() > 3000 { let mut k = 3000; while !m.is_char_boundary(k) { k -= 1 } m.truncate(k); m.push_str("..."); }
            self.fails.push((key.to_string(), m));
        }
    }
    pub fn failed(&self) -> bool { !self.fails.is_empty() }
    /// Fails with both values if they differ.
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &dyn Fn() -> String, got: &T, want: &T) -> bool {
        if got == want { true } else { self.fail(format!("{}: got {:?}, expected {:?}", what(), got, want)); false }
    }
    pub fn check(&mut self, ok: bool, what: &dyn Fn() -> String) -> bool {
        if !ok { self.fail(what()); } ok
    }
}

pub struct Space {
    pub name: String,
    pub len: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
}

impl Space {
    pub fn new<F: Fn(u64, &mut Ctx) + Send + Sync + 'static>(name: &str, len: u64, run: F) -> Space {
        Space { name: name.to_string(), len, run: Box::new(run) }
    }
    /// One case per element of a list.
    pub fn list<T: Send + Sync + 'static, F: Fn(&T, &mut Ctx) + Send + Sync + 'static>(name: &str, items: Vec<T>, run: F) -> Space {
        Space::new(name, items.len() as u64, move |i, c| run(&items[i as usize], c))
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs code under test; a panic is returned as its message.
pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take().unwrap_or_default()))
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

#[derive(Clone)]
struct Viol { space: usize, index: u64, key: String, msg: String }

struct Shared<'a> {
    spaces: &'a [Space],
    next: AtomicU64,
    chunks: Vec<(usize, u64, u64)>,
    stop: AtomicBool,
    fails: Mutex<Vec<Viol>>,
    known: Vec<(String, String)>,
    seq: Vec<AtomicU64>,
    busy: Vec<AtomicBool>,
    rec: std::fs::File,
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()) }

fn load_known(id: &str) -> Vec<(String, String)> {
    // lines: "finding: property=<id> key=<key> <description>"
    let mut res = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == id { if let Some(k) = k.strip_prefix("key=") { res.push((k.to_string(), d.to_string())); } }
            }
        }
    }
    res
}

fn run_case(sp: &Space, i: u64, ctx: &mut Ctx) {
    ctx.evals += 1;
    if let Err(m) = attempt(|| (sp.run)(i, ctx)) { ctx.fail(format!("panicked: {}", m)); }
}

fn limit_s() -> u64 { std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90) }

fn watchdog(sh: &Shared, done: &AtomicBool) {
    let n = sh.seq.len();
    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (u64::MAX, Instant::now())).collect();
    while !done.load(SeqCst) {
        std::thread::sleep(Duration::from_millis(100));
        for t in 0..n {
            let s = sh.seq[t].load(SeqCst);
            if s != last[t].0 || !sh.busy[t].load(SeqCst) { last[t] = (s, Instant::now()); }
            else if last[t].1.elapsed().as_secs() >= limit_s() { exit(97); }
        }
    }
}

fn work(sh: &Shared, t: usize, percase: bool) -> (Ctx, Vec<(u64, f64)>) {
    let mut ctx = Ctx::new();
    let mut per: Vec<(u64, f64)> = vec![(0, 0.0); sh.spaces.len()];
    let mut last_space = usize::MAX;
    loop {
        if sh.stop.load(SeqCst) { break; }
        let k = sh.next.fetch_add(1, SeqCst) as usize;
        if k >= sh.chunks.len() { break; }
        let (s, a, b) = sh.chunks[k];
        if s != last_space { ctx.sample_room = if t == 0 || a == 0 { 2 } else { 0 }; last_space = s; }
        let w = |a: u64, b: u64| { let mut buf = [0u8; 32];
            buf[0..8].copy_from_slice(&1u64.to_le_bytes()); buf[8..16].copy_from_slice(&(s as u64).to_le_bytes());
            buf[16..24].copy_from_slice(&a.to_le_bytes()); buf[24..32].copy_from_slice(&b.to_le_bytes());
            let _ = sh.rec.write_all_at(&buf, 32 * t as u64); };
        w(a, b);
        let t0 = Instant::now();
        let e0 = ctx.evals;
        for i in a..b {
            if percase { w(i, i + 1); }
            sh.seq[t].fetch_add(1, SeqCst);
            sh.busy[t].store(true, SeqCst);
            run_case(&sh.spaces[s], i, &mut ctx);
            sh.busy[t].store(false, SeqCst);
            if !ctx.fails.is_empty() {
                let mut unlisted = false;
                let mut g = sh.fails.lock().unwrap();
                for (key, msg) in ctx.fails.drain(..) {
                    if key.is_empty() || !sh.known.iter().any(|(k, _)| *k == key) { unlisted = true; }
                    g.push(Viol { space: s, index: i, key, msg });
                }
                if unlisted { sh.stop.store(true, SeqCst); break; }
            }
        }
        per[s].0 += ctx.evals - e0;
        per[s].1 += t0.elapsed().as_secs_f64();
        let _ = sh.rec.write_all_at(&[0u8; 32], 32 * t as u64);
    }
    (ctx, per)
}

fn worker(check: &Check, tier: Tier, recfile: &str, only: Option<(usize, u64, u64)>, out: &str) -> ! {
    install_hook();
    let t0 = Instant::now();
    let spaces = match attempt(|| (check.spaces)(tier)) {
        Ok(s) => s,
        Err(m) => { println!("cannot set up the spaces: {}", m); exit(96) }
    };
    let setup = t0.elapsed().as_secs_f64();
    let nthreads = if only.is_some() { 1 } else {
        std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
    };
    let mut chunks = vec![];
    if let Some(o) = only { chunks.push(o); } else {
        for (s, sp) in spaces.iter().enumerate() {
            let step = (sp.len / (nthreads as u64 * 24)).clamp(1, 2048);
            let mut a = 0;
            while a < sp.len { chunks.push((s, a, (a + step).min(sp.len))); a += step; }
        }
    }
    let rec = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(recfile).unwrap();
    let sh = Shared {
        spaces: &spaces, next: AtomicU64::new(0), chunks, stop: AtomicBool::new(false), fails: Mutex::new(vec![]),
        known: load_known(check.id), seq: (0..nthreads).map(|_| AtomicU64::new(0)).collect(),
        busy: (0..nthreads).map(|_| AtomicBool::new(false)).collect(), rec,
    };
    let done = Arc::new(AtomicBool::new(false));
    let mut results = vec![];
    std::thread::scope(|sc| {
        let d = done.clone();
        let shr = &sh;
        sc.spawn(move || watchdog(shr, &d));
        let hs: Vec<_> = (0..nthreads).map(|t| {
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || work(shr, t, only.is_some())).unwrap()
        }).collect();
        for h in hs { match h.join() { Ok(r) => results.push(r), Err(_) => exit(95) } }
        done.store(true, SeqCst);
    });

    let mut all = Ctx::new();
    let mut per: Vec<(u64, f64)> = vec![(0, 0.0); spaces.len()];
    for (c, p) in results {
        all.evals += c.evals; all.transitions += c.transitions; all.traces += c.traces;
        if all.nontrivial.len() < c.nontrivial.len() { let mut n = c.nontrivial; n.extend(all.nontrivial.drain()); all.nontrivial = n; }
        else { all.nontrivial.extend(c.nontrivial); }
        all.states.extend(c.states);
        for (k, v) in c.outcomes { *all.outcomes.entry(k).or_insert(0) += v; }
        all.samples.extend(c.samples);
        for (i, x) in p.iter().enumerate() { per[i].0 += x.0; per[i].1 += x.1; }
    }
    let mut fails = sh.fails.into_inner().unwrap();
    fails.sort_by_key(|v| (v.space, v.index));
    let stopped = sh.stop.load(SeqCst);

    let mut j = String::from("{");
    j += &format!("\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},", esc(check.id), esc(tier.name()),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0), esc(check.level));
    j += "\"coverage\":{";
    j += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", all.evals, all.nontrivial.len());
    if check.level == "model_checking" {
        j += &format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},", all.states.len(), all.transitions, all.traces);
    } else if all.transitions > 0 {
        j += &format!("\"states_visited\":{},\"transitions_taken\":{},", all.states.len(), all.transitions);
    }
    j += &format!("\"rule\":{},\"exhaustive\":{},", esc(check.rule), !stopped);
    j += "\"spaces\":[";
    for (i, sp) in spaces.iter().enumerate() {
        if i > 0 { j.push(','); }
        j += &format!("{{\"name\":{},\"cases\":{},\"executions\":{},\"cpu_s\":{:.2}}}", esc(&sp.name), sp.len, per[i].0, per[i].1);
    }
    j += "],\"outcomes\":{";
    j += &all.outcomes.iter().take(80).map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    all.samples.truncate(24);
    if all.samples.is_empty() { all.samples.push("(none recorded)".into()); }
    j += &all.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    j += "]},\"assumptions\":[";
    j += &check.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    j += "]";
    let mut o = format!("OK {}\nSETUP {:.2}\n", if stopped { "stopped" } else { "complete" }, setup);
    for v in fails.iter().take(200) {
        o += &format!("V\t{}\t{}\t{}\t{}\n", v.space, v.index, esc(&v.key), esc(&format!("[{}#{}] {}", spaces[v.space].name, v.index, v.msg)));
    }
    o += "EVIDENCE\n"; o += &j;
    std::fs::write(out, o).unwrap();
    exit(0)
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim_matches('"').chars();
    let inner = s.len() >= 2;
    if !inner { return s.to_string(); }
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'),
            Some('u') => { let h: String = (0..4).filter_map(|_| it.next()).collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?')); }
            Some(x) => o.push(x), None => {} } } else { o.push(c) }
    }
    o
}

struct Out { complete: bool, viols: Vec<(usize, u64, String, String)>, evidence: String }

fn parse_out(path: &str) -> Option<Out> {
    let mut s = String::new();
    std::fs::File::open(path).ok()?.read_to_string(&mut s).ok()?;
    let (head, ev) = s.split_once("EVIDENCE\n")?;
    let mut o = Out { complete: head.starts_with("OK complete"), viols: vec![], evidence: ev.to_string() };
    for l in head.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f[0] == "V" && f.len() == 5 { o.viols.push((f[1].parse().ok()?, f[2].parse().ok()?, unesc(f[3]), f[4].to_string())); }
    }
    Some(o)
}

fn spawn(id: &str, tier: Tier, rec: &str, out: &str, only: Option<(usize, u64, u64)>) -> Result<(), String> {
    let _ = std::fs::remove_file(out);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(id).arg(tier.name()).arg("--worker").arg(rec).arg(out);
    if let Some((s, a, b)) = only { c.arg(s.to_string()).arg(a.to_string()).arg(b.to_string()); }
    let st = c.status().map_err(|e| format!("cannot start worker: {}", e))?;
    if st.success() { return Ok(()); }
    Err(match (st.code(), st.signal()) {
        (Some(97), _) => format!("does not terminate within {} s", limit_s()),
        (Some(96), _) => "set-up of the spaces panicked".to_string(),
        (Some(95), _) => "worker thread failed outside a case".to_string(),
        (Some(c), _) => format!("process exited with code {}", c),
        (_, Some(s)) => format!("process killed by signal {} (abort, stack overflow or memory exhaustion)", s),
        _ => "process died".to_string(),
    })
}

fn inflight(rec: &str) -> Vec<(usize, u64, u64)> {
    let b = std::fs::read(rec).unwrap_or_default();
    let u = |x: &[u8]| u64::from_le_bytes(x.try_into().unwrap());
    let mut v: Vec<_> = b.chunks(32).filter(|c| c.len() == 32 && u(&c[0..8]) == 1)
        .map(|c| (u(&c[8..16]) as usize, u(&c[16..24]), u(&c[24..32]))).collect();
    v.sort(); v
}

pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "list" {
        for c in checks { println!("{}", c.id); }
        exit(0);
    }
    let check = match checks.iter().find(|c| c.id == args[1]) { Some(c) => c, None => { eprintln!("no check {}", args[1]); exit(2) } };
    let id = check.id;
    let tier = if args.get(2).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    if args.get(3).map(|s| s == "--worker").unwrap_or(false) {
        let only = if args.len() >= 9 { Some((args[6].parse().unwrap(), args[7].parse().unwrap(), args[8].parse().unwrap())) } else { None };
        worker(check, tier, &args[4], only, &args[5]);
    }
    let t0 = Instant::now();
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let pid = std::process::id();
    let rec = format!("{}/.{}-{}.rec", dir, id, pid);
    let out = format!("{}/.{}-{}.out", dir, id, pid);
    let cleanup = || { let _ = std::fs::remove_file(&rec); let _ = std::fs::remove_file(&out); };

    // replay of one recorded case: <bin> <ID> <tier> --replay <file>
    if args.get(3).map(|s| s == "--replay").unwrap_or(false) {
        let s = std::fs::read_to_string(&args[4]).unwrap_or_default();
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default();
        let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
        let (sp, ix): (usize, u64) = (get("space").parse().unwrap_or(0), get("index").parse().unwrap_or(0));
        let r = spawn(id, tier, &rec, &out, Some((sp, ix, ix + 1)));
        let code = match (r, parse_out(&out)) {
            (Err(m), _) => { println!("VIOLATION property={} replay={}\n{}", id, args[4], m); 1 }
            (Ok(()), Some(o)) if !o.viols.is_empty() => { println!("VIOLATION property={} replay={}\n{}", id, args[4], unesc(&o.viols[0].3)); 1 }
            (Ok(()), Some(_)) => { println!("no violation on replay"); 0 }
            _ => 2,
        };
        cleanup();
        exit(code);
    }

    let mut viols: Vec<(usize, u64, String, String)> = vec![];
    let mut evidence;
    let mut complete = true;
    match spawn(id, tier, &rec, &out, None) {
        Ok(()) => match parse_out(&out) {
            Some(o) => { viols = o.viols; evidence = o.evidence; complete = o.complete; }
            None => { eprintln!("no result from worker"); cleanup(); exit(2) }
        },
        Err(m) => {
            let fl = inflight(&rec);
            let mut why = m.clone();
            for (s, a, b) in &fl {
                // Re-run what was in flight in isolation: only a death that repeats counts.
                if let Err(m2) = spawn(id, tier, &rec, &out, Some((*s, *a, *b))) {
                    let at = inflight(&rec).first().copied().unwrap_or((*s, *a, *b));
                    viols.push((at.0, at.1, String::new(), esc(&format!("[space {} case {}] {}", at.0, at.1, m2))));
                    why = m2;
                    break;
                } else if let Some(o) = parse_out(&out) {
                    if !o.viols.is_empty() { viols.extend(o.viols); break; }
                }
            }
            if viols.is_empty() { eprintln!("{}: worker failed ({}), not reproduced in isolation on {:?}", id, why, fl); cleanup(); exit(2) }
            complete = false;
            evidence = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"rule\":{},\"samples\":[{}]}},\"assumptions\":[]",
                esc(id), esc(tier.name()), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0), esc(check.level), esc(check.rule), esc(&why));
        }
    }
    cleanup();
    let known = load_known(id);
    let (listed, fresh): (Vec<_>, Vec<_>) = viols.into_iter().partition(|v| !v.2.is_empty() && known.iter().any(|(k, _)| *k == v.2));
    evidence += &format!(",\"wall_s\":{:.2},\"violations\":{}}}", t0.elapsed().as_secs_f64(), fresh.len());
    if std::fs::write(format!("{}/evidence/{}.json", root(), id), &evidence).is_err() { eprintln!("cannot write evidence"); exit(2) }
    for (k, d) in &known {
        if listed.iter().any(|v| v.2 == *k) { println!("KNOWN-FINDING: property={} {} {}", id, k, d); }
    }
    if let Some((s, i, _, msg)) = fresh.first() {
        let path = format!("{}/{}-{}-{}.replay", dir, id, s, i);
        let _ = std::fs::write(&path, format!("property={}\ntier={}\nspace={}\nindex={}\nmessage={}\nreplay with: ./run.sh {} {} --replay {}\n", id, tier.name(), s, i, msg, id, tier.name(), path));
        println!("VIOLATION property={} replay={}", id, path);
        for v in fresh.iter().take(5) { println!("  {}", unesc(&v.3)); }
        exit(1);
    }
    if !complete { eprintln!("{}: exploration incomplete", id); exit(2) }
    println!("{} {}: held on everything explored ({:.1} s)", id, tier.name(), t0.elapsed().as_secs_f64());
    exit(0)
}
