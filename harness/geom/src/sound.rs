//! C47: memory safety.  Executions of the library interpreted by Miri, and what the compiler admits between threads.
use crate::typed::accepted;
use fw::{Check, Ctx, Space, Tier};
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Miri(&'static str), Native }

fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }
fn run(how: How, features: &str, borrows: bool, args: &[String]) -> Result<Output, String> {
    let mut c = Command::new("cargo");
    if let How::Miri(flags) = how {
        c.args(["+nightly", "miri"]).env("RUSTFLAGS", format!("-Awarnings {}", flags));
        c.env("MIRIFLAGS", format!("-Zmiri-ignore-leaks {}", if borrows { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows" }));
    } else { c.env("RUSTFLAGS", "-Awarnings"); }
    c.args(["run", "--release", "--offline", "-q", "--manifest-path"]).arg(root().join("harness/sound/Cargo.toml"));
    c.arg("--target-dir").arg(root().join("target").join(match how { How::Miri("") => "miri-plain", How::Miri(_) => "miri", How::Native => "sound" }));
    if !features.is_empty() { c.args(["--features", features]); }
    c.arg("--").args(args);
    c.env_remove("MIRI_BE_RUSTC").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())
}
fn counted(o: &Output) -> Option<u64> { String::from_utf8_lossy(&o.stdout).lines().find_map(|l| l.strip_prefix("COUNT ").and_then(|n| n.parse().ok())) }
/// How executions are watched: by the interpreter if it accepts the library, otherwise by their answers only.
fn how() -> How {
    static H: OnceLock<How> = OnceLock::new();
    *H.get_or_init(|| {
        for h in [How::Miri("-Znext-solver=no"), How::Miri("")] { if let Ok(o) = run(h, "", false, &["none".into()]) { if o.status.success() && counted(&o) == Some(0) { return h } } }
        How::Native
    })
}
fn count(group: &str, features: &str) -> u64 {
    let o = run(how(), features, false, &[group.into()]).expect("cargo runs");
    counted(&o).unwrap_or_else(|| panic!("{}", String::from_utf8_lossy(&o.stderr).chars().take(800).collect::<String>()))
}

fn execute(group: &str, features: &str, borrows: bool, from: u64, to: u64, c: &mut Ctx) {
    let mut from = from;
    while from < to {
        let mut h = how();
        let args = [group.to_string(), from.to_string(), to.to_string()];
        let mut o = run(h, features, borrows, &args).expect("cargo runs");
        let text = |o: &Output| (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        let (mut out, mut err) = text(&o);
        if !o.status.success() && err.contains("unsupported operation") { h = How::Native; o = run(h, features, borrows, &args).expect("cargo runs"); let (a, b) = text(&o); out = a; err = b; c.outcome("not interpreted"); }
        let mut case = from;
        for l in out.lines() {
            if let Some(k) = l.strip_prefix("CASE ").and_then(|l| l.rsplit(' ').next()).and_then(|k| k.parse().ok()) { case = k; c.evals(1); c.nontrivial(&(group, case)); }
            if let Some(b) = l.strip_prefix("BAD ") { c.fail_key(&format!("{} {}", group, case), format!("{} {}: {}", group, case, b)); }
        }
        if o.status.success() && out.contains("DONE") { c.outcome(if h == How::Native { "watched by answers" } else { "interpreted" }); break }
        if !out.contains("CASE ") { panic!("{}", err.chars().take(800).collect::<String>()) }
        // a call-back into an object that locks itself blocks for ever: refused
        if err.contains("deadlocked") && ["labels", "labels-all", "reenter"].contains(&group) { c.outcome("blocked"); from = case + 1; continue }
        // the execution of this case was stopped; go on with the next
        let why: Vec<&str> = err.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("--> ")).take(3).collect();
        c.fail_key(&format!("{} {}", group, case), format!("{} {}: {}", group, case, if why.is_empty() { format!("ended with {:?} {}", o.status, err.chars().take(300).collect::<String>()) } else { why.join(" ") }));
        from = case + 1;
        if c.failed() { break }
    }
}

/// what would have to be true for values to be used by several threads: (what, features, line, group)
const SHARED: [(&str, &str, &str, &str); 5] = [
    ("a plane graph asked from two threads", "graph", "fn s<T: Sync>() {} s::<Graph<LabelVector2d<A>, A>>();", "threads-graph"),
    ("a graph in space asked from two threads", "graph", "fn s<T: Sync>() {} s::<Graph<LabelVector3d<A>, A>>();", "threads-graph-space"),
    ("a partition asked from two threads", "partition", "fn s<T: Sync>() {} s::<rust_systre::partitions::Partition<String>>();", "threads-partition"),
    ("a coordination sequence moved to another thread", "sequence", "fn s<T: Send>() {} s::<CoordinationSequence<'static, LabelVector2d<A>, A>>();", "threads-sequence"),
    ("a coordination sequence outliving its graph", "outlive", "let mut it = { let g: Graph<LabelVector2d<A>, A> = Graph::new(&[]); let i = g.coordination_sequence(&1); i }; it.next();", "outlive"),
];
/// never sound, whatever the implementation: an element that belongs to one thread would be copied or compared in another
const NEVER: [(&str, &str); 4] = [
    ("a partition of shared pointers moved to another thread", "fn s<T: Send>() {} s::<rust_systre::partitions::Partition<std::rc::Rc<u8>>>();"),
    ("a partition of shared pointers asked from two threads", "fn s<T: Sync>() {} s::<rust_systre::partitions::Partition<std::rc::Rc<u8>>>();"),
    ("an answer outliving what it points to", "let r: std::rc::Rc<u8> = { let x = 1u8; let p: rust_systre::partitions::Partition<&u8> = rust_systre::partitions::Partition::new(); std::rc::Rc::new(*p.find(&&x)) }; let y: &'static u8 = { let x = 1u8; let p: rust_systre::partitions::Partition<&u8> = rust_systre::partitions::Partition::new(); p.find(&&x) };"),
    ("a matrix of shared pointers moved to another thread", "fn s<T: Send>() {} s::<Matrix<std::rc::Rc<u8>>>();"),
];

fn admitted(i: usize) -> bool {
    static A: OnceLock<Vec<bool>> = OnceLock::new();
    A.get_or_init(|| {
        let lines: Vec<String> = SHARED.iter().map(|x| x.2).chain(NEVER.iter().map(|x| x.1)).enumerate().map(|(i, l)| format!("pub fn f{}() {{ {} }}", i, l)).collect();
        // one at a time: errors about lifetimes come only after all others
        lines.iter().map(|l| accepted(&[l.clone()]).unwrap_or_else(|e| panic!("{}", e))[0]).collect()
    })[i]
}

fn c47(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // (group, borrow rules, cases per process)
    let groups: Vec<(&'static str, bool, u64)> = match t {
        Tier::Quick => vec![("symmetric", false, 1), ("unknown", false, 2), ("labels", false, 12), ("reenter", true, 24), ("matrices", false, 17), ("vectors", false, 3), ("texts", false, 15), ("partition", true, 30), ("pairs", false, 12)],
        Tier::Thorough => vec![("symmetric-all", false, 1), ("symmetric", true, 1), ("long", false, 1), ("labels-all", false, 40), ("unknown", false, 1), ("matrices", false, 16), ("vectors", true, 3), ("texts", true, 15), ("reenter", true, 24), ("partition", true, 30), ("partition3", true, 50), ("pairs-all", false, 30)],
    };
    let mut jobs = vec![];
    for (g, borrows, step) in groups {
        let n = count(g, "");
        let mut a = 0;
        while a < n { jobs.push((g, borrows, a, (a + step).min(n))); a += step; }
    }
    v.push(Space::list("executions under an interpreter that watches memory", jobs, |j, c| {
        execute(j.0, "", j.1, j.2, j.3, c);
        c.sample(|| format!("{} {}..{}", j.0, j.2, j.3));
    }));
    v.push(Space::new("use by several threads and beyond lifetimes", (SHARED.len() + NEVER.len()) as u64, move |i, c| {
        let i = i as usize;
        c.evals(1);
        let (what, never) = if i < SHARED.len() { (SHARED[i].0, false) } else { (NEVER[i - SHARED.len()].0, true) };
        let ok = admitted(i);
        if never && !c.check(!ok, &|| format!("the compiler admits {}", what)) { return }
        c.nontrivial(what);
        c.outcome(if ok { "admitted" } else { "refused" });
        c.sample(|| format!("{}: {}", what, if ok { "admitted" } else { "refused by the compiler" }));
    }));
    // what is admitted is executed
    let mut jobs = vec![];
    for i in 0..SHARED.len() {
        if !admitted(i) { continue }
        let n = count(SHARED[i].3, SHARED[i].1);
        let step = (n / t.pick(16, 32)).max(1);
        let mut a = 0;
        while a < n { jobs.push((i, a, (a + step).min(n))); a += step; }
    }
    if !jobs.is_empty() { v.push(Space::list("admitted uses executed", jobs, |j, c| execute(SHARED[j.0].3, SHARED[j.0].1, false, j.1, j.2, c))); }
    v
}

pub const CHECKS: &[Check] = &[
    Check { id: "C47", level: "exploration", spaces: c47, assumptions: &["the interpreter (Miri) reports use of freed or foreign memory, data races and invalid values of the executions it is given", "borrow rules (tree borrows) are watched in part of the executions", "leaks are left open"],
        rule: "one case per execution (history of queries, call-back, pair of queries from two threads) or use that the compiler has to decide; non-trivial: all" },
];
