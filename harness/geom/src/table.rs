//! Reference reading of space group tables.
use crate::affine::A;
use crate::oper::{self, Reading};
use fw::mat;
use fw::q::Q;
use rust_systre::spacegroups::parse_table::{Lookup, TableEntry, Tables};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Setting { pub name: String, pub canonical: String, pub transform: A, pub ops: Vec<A> }
#[derive(Clone, Debug, PartialEq)]
pub struct Look { pub name: String, pub system: String, pub centering: String, pub map: A }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tab { pub settings: BTreeMap<String, Setting>, pub alias: BTreeMap<String, String>, pub lookup: Vec<Look> }
pub enum Text { Tables(Tab), Refuse, /// not specified: must only not fail abnormally
    Open }

pub const SYSTEMS: [&str; 10] = ["oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"];
pub const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];

pub enum O { Map(A), No, Open }
pub fn op(s: &str) -> O {
    match oper::read(s) {
        Reading::Map(o, end) if end == s.len() => O::Map(A { l: o.rows, s: o.shift }),
        Reading::Overflow => O::Open,
        _ => O::No,
    }
}
fn change(s: &str) -> O { match op(s) { O::Map(a) if mat::det(&a.l).is_zero() => O::No, x => x } }

pub fn read(bytes: &[u8]) -> Text {
    let text = match std::str::from_utf8(bytes) { Ok(t) => t, Err(_) => return Text::Refuse };
    let mut t = Tab::default();
    let (mut canonical, mut current) = (String::new(), None::<String>);
    let mut open = false;
    macro_rules! map { ($e:expr) => { match $e { O::Map(a) => a, O::No => return Text::Refuse, O::Open => { open = true; return if open { Text::Open } else { Text::Refuse } } } } }
    for line in text.split('\n') {
        let w: Vec<&str> = line.split_whitespace().collect();
        let content = line.trim();
        if w.is_empty() || content.starts_with('#') { continue; }
        if line.starts_with(' ') {
            let a = map!(op(content));
            let s = match current.as_ref().and_then(|n| t.settings.get_mut(n)) { Some(s) => s, None => return Text::Refuse };
            if a.dim() != s.transform.dim() { return Text::Refuse; }
            s.ops.push(a);
        } else if w[0].to_lowercase() == "alias" {
            if w.len() < 3 { return Text::Refuse; }
            if w.len() > 3 { open = true }
            t.alias.insert(w[1].into(), w[2].into());
        } else if w[0].to_lowercase() == "lookup" {
            if w.len() < 5 { return Text::Refuse; }
            let system = w[2].to_lowercase();
            if !SYSTEMS.contains(&&system[..]) || !CENTERINGS.contains(&w[3]) { return Text::Refuse; }
            let map = map!(change(&w[4..].join(" ")));
            t.lookup.push(Look { name: w[1].into(), system, centering: w[3].into(), map });
        } else {
            let a = map!(change(&w[1..].join(" ")));
            let name = w[0].to_string();
            if a == A::id(a.dim()) { canonical = name.clone(); }
            current = Some(name.clone());
            t.settings.insert(name.clone(), Setting { name, canonical: canonical.clone(), transform: a, ops: vec![] });
        }
    }
    if open { Text::Open } else { Text::Tables(t) }
}

fn printed(s: &str) -> Result<A, String> { match op(s) { O::Map(a) => Ok(a), _ => Err(format!("printed operator {:?} does not parse back", s)) } }
fn after<'a>(l: Option<&'a str>, p: &str) -> Result<&'a str, String> { l.and_then(|l| l.strip_prefix(p)).ok_or_else(|| format!("no line {:?} in print, but {:?}", p, l)) }
/// A setting as printed.
pub fn setting(e: &TableEntry) -> Result<Setting, String> {
    let s = e.to_string();
    let mut it = s.lines();
    let name = after(it.next(), "Setting Name: ")?.to_string();
    let canonical = after(it.next(), "Group name: ")?.to_string();
    let transform = printed(after(it.next(), "Transform: ")?)?;
    after(it.next(), "Operators:")?;
    Ok(Setting { name, canonical, transform, ops: it.map(printed).collect::<Result<Vec<_>, _>>()? })
}
pub fn look(e: &Lookup) -> Result<Look, String> {
    let s = e.to_string();
    let mut it = s.lines();
    Ok(Look { name: after(it.next(), "Lookup name: ")?.to_string(), system: after(it.next(), "Crystal system: ")?.to_string(), centering: after(it.next(), "Centering: ")?.to_string(), map: printed(after(it.next(), "Transform: ")?)? })
}
pub fn tables(t: &Tables) -> Result<Tab, String> {
    let mut r = Tab::default();
    for (k, e) in &t.settings { r.settings.insert(k.clone(), setting(e)?); }
    for (k, v) in &t.alias { r.alias.insert(k.clone(), v.clone()); }
    for l in &t.lookup { r.lookup.push(look(l)?); }
    Ok(r)
}
/// First difference between tables.
pub fn differ(got: &Tab, want: &Tab) -> Option<String> {
    let keys = |t: &Tab| t.settings.keys().cloned().collect::<Vec<_>>();
    if keys(got) != keys(want) { return Some(format!("settings {:?}, expected {:?}", brief(keys(got)), brief(keys(want)))); }
    for (k, e) in &got.settings { if *e != want.settings[k] { return Some(format!("setting {}: {:?}, expected {:?}", k, e, want.settings[k])); } }
    if got.alias != want.alias { return Some(format!("aliases {:?}, expected {:?}", got.alias, want.alias)); }
    if got.lookup != want.lookup { return Some(format!("lookup entries {:?}, expected {:?}", got.lookup, want.lookup)); }
    None
}
fn brief(v: Vec<String>) -> String { if v.len() < 9 { format!("{:?}", v) } else { format!("{:?}... ({})", &v[..8], v.len()) } }
#[allow(dead_code)]
pub fn modz(a: &A) -> A { A { l: a.l.clone(), s: a.s.iter().map(|x: &Q| x.frac()).collect() } }
