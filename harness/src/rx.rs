//! A small regular-expression engine: leftmost-first matching by backtracking,
//! over a subset of the syntax. Written for the reference model only.
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Re {
    Lit(char), Any { nl: bool }, Digit(bool), Word(bool), Space(bool), Set(bool, Vec<(char, char)>),
    Cat(Vec<Re>), Alt(Vec<Re>), Rep { r: Box<Re>, min: u32, max: Option<u32>, lazy: bool },
    Group(usize, Box<Re>), Start, End, WordB(bool),
}
#[derive(Debug, Clone)]
pub struct Rx { pub src: String, pub re: Re, pub names: Vec<Option<String>>, pub dep: Option<Rc<[regex::Regex; 3]>> }
thread_local! {
    /// The key of the listed defect of the regular expression crate (see `known_findings.txt`) that had a part in the last result, if any.
    pub static CRATE_DEFECT: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
pub type Caps = Vec<Option<(usize, usize)>>;

fn is_word(c: char) -> bool { c.is_alphanumeric() || c == '_' }
impl Re {
    fn one(&self, c: char) -> Option<bool> {
        Some(match self {
            Re::Lit(l) => *l == c,
            Re::Any { nl } => *nl || c != '\n',
            Re::Digit(p) => c.is_ascii_digit() == *p,
            Re::Word(p) => is_word(c) == *p,
            Re::Space(p) => c.is_whitespace() == *p,
            Re::Set(p, rs) => rs.iter().any(|(a, b)| *a <= c && c <= *b) == *p,
            _ => return None,
        })
    }
}
struct M<'a> { s: &'a [char], steps: u64 }
impl<'a> M<'a> {
    fn go(&mut self, re: &Re, i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        self.steps += 1;
        if self.steps > 2_000_000 { return false; }
        match re {
            Re::Cat(rs) => self.cat(rs, i, caps, k),
            Re::Alt(rs) => { for r in rs { let save = caps.clone(); if self.go(r, i, caps, k) { return true; } *caps = save; } false }
            Re::Group(n, r) => {
                let n = *n;
                let old = caps[n];
                if self.go(r, i, caps, &mut |m, j, c| { let o = c[n]; c[n] = Some((i, j)); if k(m, j, c) { return true; } c[n] = o; false }) { return true; }
                caps[n] = old;
                false
            }
            Re::Rep { r, min, max, lazy } => self.rep(r, *min, *max, *lazy, 0, i, caps, k),
            Re::Start => i == 0 && k(self, i, caps),
            Re::End => i == self.s.len() && k(self, i, caps),
            Re::WordB(p) => {
                let a = i > 0 && is_word(self.s[i - 1]);
                let b = i < self.s.len() && is_word(self.s[i]);
                ((a != b) == *p) && k(self, i, caps)
            }
            one => match self.s.get(i) { Some(&c) if one.one(c) == Some(true) => k(self, i + 1, caps), _ => false },
        }
    }
    fn cat(&mut self, rs: &[Re], i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        match rs.split_first() {
            None => k(self, i, caps),
            Some((r, rest)) => self.go(r, i, caps, &mut |m, j, c| m.cat(rest, j, c, k)),
        }
    }
    fn rep(&mut self, r: &Re, min: u32, max: Option<u32>, lazy: bool, n: u32, i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        let can_more = max.map_or(true, |m| n < m);
        if n < min { return self.go(r, i, caps, &mut |m, j, c| m.rep(r, min, max, lazy, n + 1, j, c, k)); }
        if lazy { let save = caps.clone(); if k(self, i, caps) { return true; } *caps = save; }
        if can_more {
            let save = caps.clone();
            if self.go(r, i, caps, &mut |m, j, c| j > i && m.rep(r, min, max, lazy, n + 1, j, c, k)) { return true; }
            *caps = save;
        }
        !lazy && k(self, i, caps)
    }
}
impl Rx {
    pub fn new(src: &str) -> Result<Rx, ()> {
        let cs: Vec<char> = src.chars().collect();
        let mut p = Ps { s: &cs, i: 0, names: vec![None] };
        let re = p.alt()?;
        if p.i < cs.len() { return Err(()); }
        for (i, n) in p.names.iter().enumerate() { if n.is_some() && p.names[i + 1..].contains(n) { return Err(()); } }
        // the second is the same expression, so written that the crate cannot search for literals instead; the third is
        // moreover run without the crate's automaton, by simulation only
        let plain = format!("(?:\\b|\\B)(?:{src})");
        let dep = match (regex::Regex::new(src), regex::Regex::new(&plain), regex::RegexBuilder::new(&plain).dfa_size_limit(0).build()) { (Ok(a), Ok(b), Ok(c)) => Some(Rc::new([a, b, c])), _ => None };
        Ok(Rx { src: src.to_string(), re, names: p.names, dep })
    }
    /// Notes whether the crate contradicts both the reference and itself.
    fn dep(&self, s: &[char], most: usize, own: &[Caps]) {
        let Some(d) = self.dep.as_ref() else { return };
        let text: String = s.iter().collect();
        let mut at = std::collections::HashMap::new();
        for (n, (i, _)) in text.char_indices().chain(std::iter::once((text.len(), ' '))).enumerate() { at.insert(i, n); }
        let groups = |r: &regex::Regex| -> bool { r.captures_iter(&text).take(most).map(|c| c.iter().map(|m| m.map(|m| (at[&m.start()], at[&m.end()]))).collect::<Caps>()).eq(own.iter().cloned()) };
        let whole = |r: &regex::Regex| -> bool { r.find_iter(&text).take(most).map(|m| Some((at[&m.start()], at[&m.end()]))).eq(own.iter().map(|c| c[0])) };
        let ok = |r: &regex::Regex| groups(r) && whole(r);
        if !ok(&d[0]) && ok(&d[2]) { CRATE_DEFECT.with(|c| c.set(if ok(&d[1]) { "regex-crate-literals" } else { "regex-crate-anchors" })) }
    }
    /// Leftmost-first match at or after character index `from`.
    pub fn captures_at(&self, s: &[char], from: usize) -> Option<Caps> {
        for i in from..=s.len() {
            let mut caps: Caps = vec![None; self.names.len()];
            let mut end = 0;
            let mut m = M { s, steps: 0 };
            let mut out: Option<Caps> = None;
            if m.go(&self.re, i, &mut caps, &mut |_, j, c| { end = j; out = Some(c.clone()); true }) {
                let mut c = out.unwrap();
                c[0] = Some((i, end));
                return Some(c);
            }
        }
        None
    }
    pub fn first(&self, s: &[char]) -> Option<Caps> {
        let own: Vec<Caps> = self.captures_at(s, 0).into_iter().collect();
        self.dep(s, 1, &own);
        own.into_iter().next()
    }
    pub fn all(&self, s: &[char]) -> Vec<Caps> {
        let own = self.own(s);
        self.dep(s, usize::MAX, &own);
        own
    }
    fn own(&self, s: &[char]) -> Vec<Caps> {
        let mut out: Vec<Caps> = vec![];
        let mut at = 0;
        let mut last: Option<usize> = None;
        while at <= s.len() {
            let Some(c) = self.captures_at(s, at) else { break };
            let (a, b) = c[0].unwrap();
            if a == b {
                at = b + 1;
                if last == Some(b) { continue; }
            } else { at = b }
            last = Some(b);
            out.push(c);
        }
        out
    }
    pub fn split(&self, s: &[char]) -> Vec<String> {
        let mut out = vec![];
        let mut at = 0;
        for c in self.all(s) { let (a, b) = c[0].unwrap(); out.push(s[at..a].iter().collect()); at = b; }
        out.push(s[at..].iter().collect());
        out
    }
}
pub fn from_re(re: Re, groups: usize) -> Rc<Rx> { Rc::new(Rx { src: String::new(), re, names: vec![None; groups + 1], dep: None }) }

struct Ps<'a> { s: &'a [char], i: usize, names: Vec<Option<String>> }
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, t: &str) -> bool { let t: Vec<char> = t.chars().collect(); if self.s[self.i..].starts_with(&t) { self.i += t.len(); true } else { false } }
    fn alt(&mut self) -> Result<Re, ()> {
        let mut v = vec![self.cat()?];
        while self.eat("|") { v.push(self.cat()?) }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Result<Re, ()> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let a = self.atom()?;
            v.push(self.post(a)?);
        }
        Ok(Re::Cat(v))
    }
    fn num(&mut self) -> Result<u32, ()> { let a = self.i; while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.i += 1 } self.s[a..self.i].iter().collect::<String>().parse().map_err(|_| ()) }
    fn post(&mut self, mut a: Re) -> Result<Re, ()> {
        loop {
            let (min, max) = match self.peek() {
                Some('*') => { self.i += 1; (0, None) }
                Some('+') => { self.i += 1; (1, None) }
                Some('?') => { self.i += 1; (0, Some(1)) }
                Some('{') => { self.i += 1; let m = self.num()?; let x = if self.eat(",") { if self.peek() == Some('}') { None } else { Some(self.num()?) } } else { Some(m) }; if !self.eat("}") || x.map_or(false, |x| x < m) { return Err(()); } (m, x) }
                _ => return Ok(a),
            };
            let lazy = self.eat("?");
            a = Re::Rep { r: Box::new(a), min, max, lazy };
        }
    }
    fn esc(&mut self) -> Result<Re, ()> {
        let c = self.peek().ok_or(())?;
        self.i += 1;
        Ok(match c { 'd' => Re::Digit(true), 'D' => Re::Digit(false), 'w' => Re::Word(true), 'W' => Re::Word(false), 's' => Re::Space(true), 'S' => Re::Space(false), 'b' => Re::WordB(true), 'B' => Re::WordB(false), 'n' => Re::Lit('\n'), 't' => Re::Lit('\t'), c if c.is_ascii_punctuation() => Re::Lit(c), _ => return Err(()) })
    }
    fn atom(&mut self) -> Result<Re, ()> {
        let c = self.peek().ok_or(())?;
        self.i += 1;
        Ok(match c {
            '.' => Re::Any { nl: false }, '^' => Re::Start, '$' => Re::End, '\\' => self.esc()?,
            '*' | '+' | '?' | '{' => return Err(()),
            '[' => {
                let neg = self.eat("^");
                let mut rs = vec![];
                loop {
                    let a = self.peek().ok_or(())?;
                    self.i += 1;
                    if a == ']' { if rs.is_empty() { return Err(()); } break; }
                    let a = if a == '\\' { match self.esc()? { Re::Lit(c) => c, Re::Digit(true) => { rs.push(('0', '9')); continue } _ => return Err(()) } } else { a };
                    if self.peek() == Some('-') && self.s.get(self.i + 1).map_or(false, |c| *c != ']') { let b = self.s[self.i + 1]; self.i += 2; if b < a { return Err(()); } rs.push((a, b)) } else { rs.push((a, a)) }
                }
                Re::Set(!neg, rs)
            }
            '(' => {
                if self.eat("?:") { let r = self.alt()?; if !self.eat(")") { return Err(()); } r }
                else {
                    let mut name = None;
                    if self.eat("?P<") { let a = self.i; while self.peek().map_or(false, |c| c != '>') { self.i += 1 } name = Some(self.s[a..self.i].iter().collect::<String>()); if !self.eat(">") || name.as_deref() == Some("") { return Err(()); } }
                    else if self.peek() == Some('?') { return Err(()); }
                    self.names.push(name);
                    let n = self.names.len() - 1;
                    let r = self.alt()?;
                    if !self.eat(")") { return Err(()); }
                    Re::Group(n, Box::new(r))
                }
            }
            c => Re::Lit(c),
        })
    }
}
