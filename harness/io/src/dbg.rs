//! Reads values printed with derived `Debug`.
#[derive(Clone, Debug, PartialEq)]
pub enum V { Struct(String, Vec<(String, V)>), Tuple(String, Vec<V>), List(Vec<V>), Str(String), Atom(String) }
impl V {
    pub fn get(&self, f: &str) -> Option<&V> { if let V::Struct(_, v) = self { v.iter().find(|(k, _)| k == f).map(|x| &x.1) } else { None } }
    pub fn list(&self) -> &[V] { if let V::List(v) = self { v } else { &[] } }
    pub fn name(&self) -> &str { match self { V::Struct(n, _) | V::Tuple(n, _) | V::Atom(n) | V::Str(n) => n, _ => "" } }
    pub fn arg(&self) -> Option<&V> { if let V::Tuple(_, v) = self { v.first() } else { None } }
}
struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_whitespace() { self.i += 1 } }
    fn peek(&mut self) -> Option<char> { self.ws(); self.s.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn string(&mut self) -> Option<String> {
        let mut o = String::new();
        loop {
            let c = *self.s.get(self.i)?; self.i += 1;
            match c { '"' => return Some(o), '\\' => { let c = *self.s.get(self.i)?; self.i += 1; match c {
                    'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'), '0' => o.push('\0'),
                    'u' => { self.i += 1; let mut h = String::new(); while *self.s.get(self.i)? != '}' { h.push(self.s[self.i]); self.i += 1 } self.i += 1; o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?) }
                    c => o.push(c) } }
                c => o.push(c) }
        }
    }
    fn value(&mut self) -> Option<V> {
        match self.peek()? {
            '"' => { self.i += 1; self.string().map(V::Str) }
            '[' => { self.i += 1; let mut v = vec![]; loop { if self.eat(']') { return Some(V::List(v)) } v.push(self.value()?); self.eat(','); } }
            _ => {
                let mut n = String::new();
                while let Some(&c) = self.s.get(self.i) { if c.is_alphanumeric() || "_.+-:".contains(c) { n.push(c); self.i += 1 } else { break } }
                if n.is_empty() { return None }
                if self.eat('(') { let mut v = vec![]; loop { if self.eat(')') { return Some(V::Tuple(n, v)) } v.push(self.value()?); self.eat(','); } }
                if self.eat('{') { let mut v = vec![]; loop { if self.eat('}') { return Some(V::Struct(n, v)) }
                    let mut k = String::new(); self.ws();
                    while let Some(&c) = self.s.get(self.i) { if c.is_alphanumeric() || c == '_' { k.push(c); self.i += 1 } else { break } }
                    if !self.eat(':') { return None } v.push((k, self.value()?)); self.eat(','); } }
                Some(V::Atom(n))
            }
        }
    }
}
pub fn read(s: &str) -> Option<V> { let c: Vec<char> = s.chars().collect(); let mut p = P { s: &c, i: 0 }; let v = p.value()?; if p.peek().is_some() { None } else { Some(v) } }
