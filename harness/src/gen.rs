//! Random programs. Generation is guided by types so that most programs run,
//! with deliberate faults mixed in at a chosen rate.
use std::rc::Rc;
use crate::ast::*;
use crate::rng::Rng;
use crate::value::T;

/// What the generator knows about a value.
#[derive(Clone, Debug, PartialEq)]
pub enum G { Bool, Int, Str, Regex, Unit, Inline, Block, Html, Any, List(Box<G>), Tup(Vec<G>), Dict(Vec<(String, G)>), Opt(Box<G>), Func(Rc<FS>) }
/// What the generator knows about a function.
#[derive(Clone, Debug, PartialEq)]
pub struct FS { pub pos: Vec<(G, bool)>, pub spread: Option<G>, pub named: Vec<(String, G, bool, bool)>, pub kw: Option<G>, pub content: Option<G>, pub ret: G }

/// Shape of the programs wanted.
#[derive(Clone)]
pub struct Prof {
    /// faults per thousand expressions
    pub fault: u32,
    /// operations to prefer (operation name or its prefix)
    pub focus: &'static [&'static str],
    pub budget: i32,
    pub depth: i32,
    pub stmts: (i64, i64),
    /// dump values structurally
    pub repr: bool,
    /// text and markup between the value statements
    pub markup: u32,
    pub hostile: u32,
    /// percentage of strings made of characters that behave unusually
    pub rich: u32,
    /// names declared again in the same place, per hundred
    pub again: u32,
    /// types of the values to show
    pub types: fn(&mut Rng) -> Option<G>,
}
pub fn prof(focus: &'static [&'static str]) -> Prof { Prof { fault: 4, focus, budget: 70, depth: 4, stmts: (2, 6), repr: true, markup: 2, hostile: 12, rich: 3, again: 0, types: |_| None } }

pub struct Gen<'a> { pub r: &'a mut Rng, pub p: Prof, scope: Vec<Vec<(String, G)>>, budget: i32, uniq: usize, pvars: Vec<String>, taken: Vec<String> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx { Block, Inline, NoBr }

/// Characters whose case, width, whitespace or normalisation is unusual.
pub const RICH: &[&str] = &["ß", "İ", "ı", "ǅ", "ǆ", "Σ", "σ", "ς", "ΑΣ", "ŉ", "ﬁ", "ΐ", "Ⅷ", "ⓐ", "é", "e\u{301}", "\u{a0}", "\u{2003}", "\u{200b}", "\u{200d}", "\u{3000}", "\u{85}", "\u{2028}", "\u{feff}", "\t", "\n", "\u{b}", "\u{c}", " ", "  ", "日", "😀", "👩\u{200d}👩", "\u{10ffff}", "\u{1}", "\u{7f}", "K", "a", "b", "A", "Z", "1", ",", "ab", "-", "\u{2212}", "𝒜", "ᾳ", "ａ"];
pub fn rich(r: &mut Rng, max: usize) -> String { let n = r.below(max + 1); (0..n).map(|_| *r.pick(RICH)).collect() }
pub const STRS: &[&str] = &["", "\n", "a", "b", "ab", "abc", "x y", " ", "Hello", "é", "日本語", "ß", "İx", "ǅ", "-1", "42", " pad ", "a,b,,c", "<b>&amp;</b>", "\"q\" 'r'", "aXbXa", "l1\nl2", "\t", "None", "True", "div", "😀", "{$x}", "@f", "a\u{a0}b", "-->", "&lt;", "\u{2212}7", "007", "+5", "zz", "Z", "a-b", "ab ab", "ſ", "--", "(c)", "it's", "\\n", "&", "<", "#x", "``", "fi\u{fb01}", "é", "\u{0}", "\r\n"];
pub const IDS: &[&str] = &["x", "y", "z", "foo", "bar", "aa", "bb", "cc", "dd", "n", "m", "k1", "w", "Foo", "éx"];
/// Names which differ little from others, or mean something elsewhere.
const ODD_IDS: &[&str] = &["X", "Xx", "FOO", "fOO", "foo_", "foo__bar", "fo", "fooo", "x1", "x_1", "x10", "a1b2", "K1", "div", "span", "any", "inline", "block", "content", "value", "q", "e", "True1", "none1", "Nonex", "w_", "class_", "id_", "lang_uage", "a_name_which_is_much_longer_than_the_names_that_people_usually_choose_1", "a_name_which_is_much_longer_than_the_names_that_people_usually_choose_2"];
const KEYS: &[&str] = &["a", "b", "c", "len", "tag_name", "k", "x", "A", "a", "b", "c", "k", "B", "aa", "a_", "a1", "keys", "get", "class", "data_x", "k_with_a_very_long_name_indeed"];
pub const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "w", "naïve", "日本", "mot", "Zed", "ok"];
const EDGE: &[i64] = &[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, -(1 << 31), 1000000007, 4294967295];
const INL: &[&str] = &["b", "i", "em", "span", "code", "strong", "q", "kbd", "a", "foo", "sub"];
const BLK: &[&str] = &["div", "p", "ul", "ol", "section", "blockquote", "h1", "h3", "table", "dl", "article", "aside", "pre", "header", "figure", "li", "tr", "td", "details"];
const ATTRS: &[&str] = &["class", "id", "title", "data_x", "data_two_three_four", "href", "lang", "a", "style"];

fn opt(g: G) -> G { match g { G::Opt(_) | G::Unit => g, g => G::Opt(Box::new(g)) } }
pub fn has_func(g: &G) -> bool { match g { G::Func(_) => true, G::List(g) | G::Opt(g) => has_func(g), G::Tup(gs) => gs.iter().any(has_func), G::Dict(fs) => fs.iter().any(|f| has_func(&f.1)), _ => false } }
pub fn fits(have: &G, want: &G) -> bool {
    if have == want { return true; }
    match (have, want) {
        (G::Func(f), G::Func(w)) => f.content.is_some() == w.content.is_some() && f.pos.iter().all(|p| !p.1) && f.named.iter().all(|n| !n.2) && fits(&f.ret, &w.ret) && match (&w.content, &f.content) { (Some(a), Some(b)) => fits(a, b), _ => true } && w.pos.len() <= f.pos.len(),
        (G::Func(_), _) | (_, G::Func(_)) => false,
        (_, G::Any) => true,
        (G::Unit, G::Opt(_)) => true,
        (G::Opt(a), G::Opt(b)) => fits(a, b),
        (a, G::Opt(b)) => fits(a, b),
        (G::Str, G::Inline | G::Html) | (G::Inline | G::Block, G::Html) => true,
        (G::Int | G::Bool, G::Str) => false,
        (G::Tup(a), G::List(b)) => a.iter().all(|x| fits(x, b)),
        (G::List(a), G::List(b)) => fits(a, b),
        (G::Tup(a), G::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| fits(a, b)),
        (G::Dict(a), G::Dict(b)) => b.iter().all(|(k, g)| a.iter().any(|(k2, g2)| k == k2 && fits(g2, g))),
        _ => false,
    }
}
pub fn g_of(t: &T) -> G {
    match t { T::Unit => G::Unit, T::Any => G::Any, T::Html => G::Html, T::Block => G::Block, T::Inline => G::Inline, T::Bool => G::Bool, T::Int => G::Int, T::Str => G::Str, T::Regex => G::Regex,
        T::Function => G::Func(Rc::new(FS { pos: vec![], spread: None, named: vec![], kw: None, content: Some(G::Any), ret: G::Any })),
        T::List(t) => G::List(Box::new(g_of(t))), T::Dict(_) => G::Dict(vec![]), T::Opt(t) => opt(g_of(t)) }
}
fn t_of(g: &G) -> T {
    match g { G::Unit => T::Unit, G::Any => T::Any, G::Html => T::Html, G::Block => T::Block, G::Inline => T::Inline, G::Bool => T::Bool, G::Int => T::Int, G::Str => T::Str, G::Regex => T::Regex, G::Func(_) => T::Function,
        G::List(g) => t_of(g).list(), G::Tup(_) => T::Any.list(), G::Dict(_) => T::Any.dict(), G::Opt(g) => t_of(g).opt() }
}
fn cb(arg: G, ret: G) -> G { G::Func(Rc::new(FS { pos: vec![], spread: None, named: vec![], kw: None, content: Some(arg), ret })) }
const POSITIONAL: &[&str] = &["bool::and", "bool::or", "int::add", "str::ends_with", "str::starts_with", "regex::count", "regex::find", "regex::find_all", "regex::split", "regex::test", "function::bind"];
const CONTENT: &[&str] = &["bool::negate", "int::negate", "str::escape_html", "str::is_empty", "str::is_whitespace", "str::len", "str::lower", "str::split", "str::trim", "str::upper", "function::name", "html::escape_html", "html::is_empty", "html::is_whitespace",
    "list::all", "list::any", "list::contains", "list::enumerate", "list::filter", "list::find", "list::flat", "list::get", "list::is_empty", "list::join", "list::len", "list::map", "list::slice", "list::sorted"];
pub fn native_name(n: &str) -> Name { let mut p = n.split("::"); let b = p.next().unwrap(); dotted(b, &p.collect::<Vec<_>>()) }
pub fn let1(n: &str, v: E, child: E) -> E { e(EK::Let { implicit: false, vars: vec![(n.to_string(), v)], child: Box::new(child) }) }

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Prof) -> Gen<'a> { let b = p.budget; Gen { r, p, scope: vec![vec![]], budget: b, uniq: 0, pvars: vec![], taken: vec![] } }
    fn focus(&self, op: &str) -> u32 { if self.p.focus.iter().any(|f| op == *f || op.starts_with(f) && op[f.len()..].starts_with("::")) { 10 } else { 1 } }
    fn choose<'b>(&mut self, ops: &[(&'b str, u32)]) -> &'b str {
        let ws: Vec<u32> = ops.iter().map(|(o, w)| w * self.focus(o)).collect();
        ops[self.r.weighted(&ws)].0
    }
    /// A name for a pattern or a function, which may be one already in use in the same place.
    fn maybe_again(&mut self) -> String {
        if self.p.again > 0 && self.r.chance(self.p.again, 100) {
            let mut had: Vec<String> = self.scope.last().unwrap().iter().map(|p| p.0.clone()).chain(self.pvars.iter().cloned()).collect();
            had.retain(|n| !self.taken.contains(n));
            if !had.is_empty() { return self.r.pick(&had).clone(); }
        }
        self.fresh()
    }
    fn fresh(&mut self) -> String {
        for _ in 0..6 {
            let n = if self.r.chance(1, 9) { *self.r.pick(ODD_IDS) } else { *self.r.pick(&IDS[..IDS.len() - 1]) };
            if !self.scope.last().unwrap().iter().any(|p| p.0 == n) && !self.pvars.iter().any(|p| p == n) && !self.taken.iter().any(|p| p == n) { return n.to_string(); }
        }
        self.uniq += 1;
        format!("v{}", self.uniq)
    }
    fn declare(&mut self, n: &str, g: G) { self.scope.last_mut().unwrap().push((n.to_string(), g)) }
    fn str(&mut self) -> String {
        if self.p.rich > 0 && self.r.chance(self.p.rich, 100) { return rich(self.r, 5); }
        if self.r.chance(self.p.hostile, 100) { let n = self.r.below(5); return (0..n).map(|_| *self.r.pick(&['a', 'b', ' ', '<', '&', '"', '\'', '\\', '`', '$', '@', '{', '}', 'é', '\u{1f600}', '\n', '#', '-', '\u{a0}', '0', '>'])).collect(); }
        if self.r.chance(1, 2) { return self.r.pick(&["a", "b", "ab", "x", "abc", "ba", "c d", "7"]).to_string(); }
        self.r.pick(STRS).to_string()
    }
    fn int(&mut self) -> i64 { if self.r.chance(1, 14) { *self.r.pick(EDGE) } else { self.r.range(-3, 5) } }
    fn simple_g(&mut self, d: i32) -> G {
        match self.r.weighted(&[3, 5, 5, 3, 1, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 1 } else { 0 }, 1]) {
            0 => G::Bool, 1 => G::Int, 2 => G::Str, 3 => G::Inline, 4 => G::Block,
            5 => { if self.r.chance(1, 2) { G::List(Box::new(self.simple_g(d - 1))) } else { let n = self.r.below(4); G::Tup((0..n).map(|_| self.simple_g(d - 1)).collect()) } }
            6 => { let g = self.dict_g(d); g }
            7 => opt(self.simple_g(d - 1)),
            _ => G::Regex,
        }
    }
    fn dict_g(&mut self, d: i32) -> G {
        let n = self.r.below(4);
        let mut f: Vec<(String, G)> = vec![];
        for _ in 0..n { let k = self.r.pick(KEYS).to_string(); if !f.iter().any(|p| p.0 == k) { let g = self.simple_g(d - 1); f.push((k, g)) } }
        G::Dict(f)
    }
    pub fn any_g(&mut self, d: i32) -> G { if d > 0 && self.r.chance(1, 9) { let (a, b) = (self.simple_g(0), self.simple_g(1)); cb(a, b) } else { self.simple_g(d.min(2)) } }

    // ---- variables ----
    fn vars(&self) -> Vec<(String, G)> {
        let mut out: Vec<(String, G)> = vec![];
        for f in self.scope.iter().rev() { for (n, g) in f.iter().rev() { if !out.iter().any(|p| &p.0 == n) { out.push((n.clone(), g.clone())) } } }
        out
    }
    fn find_var(&mut self, want: &G) -> Option<Name> {
        let mut c: Vec<Name> = vec![];
        for (n, g) in self.vars() {
            if fits(&g, want) { c.push(name(&n)) }
            let step = |sel: Sel, co: bool| { let mut m = name(&n); m.path.push((co, sel)); m };
            match &g {
                G::Dict(fs) => for (k, g) in fs { if fits(g, want) { let co = self.r.chance(1, 8); c.push(step(Sel::Attr(k.clone()), co)) } if let G::Dict(f2) = g { for (k2, g2) in f2 { if fits(g2, want) { let mut m = step(Sel::Attr(k.clone()), false); m.path.push((false, Sel::Attr(k2.clone()))); c.push(m) } } } },
                G::Tup(gs) => for (i, g) in gs.iter().enumerate() { if fits(g, want) { let j = if self.r.chance(1, 3) { i as i64 - gs.len() as i64 } else { i as i64 }; let co = self.r.chance(1, 8); c.push(step(Sel::Idx(j), co)) } },
                _ => {}
            }
        }
        if c.is_empty() { return None; }
        let i = if self.r.chance(1, 2) { self.r.below(c.len().min(3)) } else { self.r.below(c.len()) };
        Some(c.swap_remove(i))
    }

    // ---- values ----
    pub fn val(&mut self, g: &G, d: i32) -> E {
        self.budget -= 1;
        if self.p.fault > 0 && self.r.chance(self.p.fault, 1000) { return self.fault(d); }
        let shallow = d <= 0 || self.budget <= 0;
        if self.r.chance(if shallow { 8 } else { 4 }, 12) { if let Some(n) = self.find_var(g) { return e(EK::Name(n)); } }
        if shallow { return self.leaf(g, d); }
        match self.r.weighted(&[3, 4, 8]) {
            0 => self.leaf(g, d),
            1 => self.generic(g, d),
            _ => self.op(g, d).unwrap_or_else(|| self.leaf(g, d)),
        }
    }
    fn leaf(&mut self, g: &G, d: i32) -> E {
        match g {
            G::Bool => e(EK::Bool(self.r.chance(1, 2))),
            G::Int => int(self.int()),
            G::Str => { let t = self.str(); if self.r.chance(1, 10) { e(EK::Bare(self.r.pick(&["bare", "Ab", "x1"]).to_string())) } else if t.is_empty() || self.r.chance(2, 3) { s(&t) } else { e(EK::Tmpl(vec![TPart::Lit(t)])) } }
            G::Regex => { let t = self.pattern(); call(dotted("regex", &["compile"]), vec![], s(&t)) }
            G::Unit => unit_e(),
            G::Inline => self.inline_leaf(d),
            G::Block => { let t = *self.r.pick(BLK); self.tag_e(t, d - 1) }
            G::Html => { if self.r.chance(1, 2) { self.leaf(&G::Inline, d) } else { self.leaf(&G::Block, d) } }
            G::Any => { let g = self.any_g(d); self.leaf(&g, d) }
            G::List(g) => {
                let n = self.r.weighted(&[2, 3, 4, 3, 1]);
                let mut v = vec![];
                for _ in 0..n { if d > 0 && self.r.chance(1, 10) { v.push((self.val(&G::List(g.clone()), d - 2), true)) } else { v.push((self.val(g, d - 2), false)) } }
                e(EK::List(v))
            }
            G::Tup(gs) => list(gs.iter().map(|g| self.val(g, d - 2)).collect()),
            G::Dict(fs) => {
                let mut args: Vec<Arg> = vec![];
                for (k, g) in fs { let v = self.val(g, d - 2); args.push(narg(k, v)) }
                if self.r.chance(1, 3) { self.r.shuffle(&mut args) }
                call(dotted("dict", &["new"]), args, unit_e())
            }
            G::Opt(g) => if self.r.chance(1, 3) { unit_e() } else { self.val(g, d - 1) },
            G::Func(fs) => self.lambda(fs, d),
        }
    }
    fn inline_leaf(&mut self, d: i32) -> E {
        match self.r.weighted(&[2, 2, if d > 0 { 3 } else { 0 }]) {
            0 => s(&self.str()),
            1 => {
                let t = *self.r.pick(INL); let x = self.tag_e(t, d - 1);
                // white space around it, which no pattern looks through
                if self.r.chance(1, 10) { let (a, b) = (self.r.below(2), self.r.below(3)); let mut v = vec![x]; if a > 0 { v.insert(0, s(" ")) } if b > 0 { v.push(s(if b > 1 { "\n" } else { " " })) } call(dotted("list", &["join"]), vec![], list(v)) } else { x }
            }
            _ => { let it = self.items(Ctx::Inline, d - 1, 1); if it.is_empty() { unit_e() } else { group(it) } }
        }
    }
    fn let_child(&mut self, x: E) -> E {
        match &x.k {
            EK::Unit => call(dotted("dict", &["new"]), vec![], unit_e()).pipe(|c| let_bound(c)),
            EK::Bool(b) => call(dotted("bool", &["negate"]), vec![], e(EK::Bool(!*b))),
            EK::Int(_) => call(dotted("int", &["add"]), vec![arg(x)], unit_e()),
            EK::Bare(_) | EK::Str(_) => call(dotted("str", &["from"]), vec![], x),
            _ => x,
        }
    }
    fn scoped<X>(&mut self, k: impl FnOnce(&mut Self) -> X) -> X { self.scope.push(vec![]); let pv = std::mem::take(&mut self.pvars); let tk = std::mem::take(&mut self.taken); let r = k(self); self.pvars = pv; self.taken = tk; self.scope.pop(); r }
    fn generic(&mut self, g: &G, d: i32) -> E {
        let ops: &[(&str, u32)] = &[("let", 4), ("match", 5), ("call", 4), ("implicit", 1), ("index", 2), ("list::get", 1), ("dict::get", 1), ("list::find", 1), ("function::call", 1), ("closure", 2), ("fold", 1)];
        match self.choose(ops) {
            "let" => self.let_e(g, d, false),
            "implicit" => self.let_e(g, d, true),
            "match" => self.match_e(g, d),
            "call" => {
                let fs: Vec<(String, Rc<FS>)> = self.vars().into_iter().filter_map(|(n, t)| match t { G::Func(f) if fits(&f.ret, g) => Some((n, f)), _ => None }).collect();
                if fs.is_empty() || self.r.chance(1, 4) { return self.call_new(g, d); }
                let (n, f) = fs[self.r.below(fs.len())].clone();
                self.call_fs(name(&n), &f, d)
            }
            "closure" => {
                // a function that captures a variable, called where the name means something else
                self.scoped(|s| {
                    let (cg, n) = (s.simple_g(1), s.fresh());
                    let v = s.val(&cg, d - 2);
                    s.declare(&n, cg.clone());
                    let f = s.fresh();
                    let fs = s.fs_simple(g);
                    let fv = s.lambda(&fs, d - 1);
                    s.declare(&f, G::Func(fs.clone()));
                    let inner = s.scoped(|s| {
                        let g2 = if s.r.chance(1, 2) { s.simple_g(1) } else { cg.clone() };
                        let v2 = s.val(&g2, d - 3);
                        s.declare(&n, g2);
                        let c = s.call_fs(name(&f), &fs, d - 2);
                        let1(&n, v2, c)
                    });
                    e(EK::Let { implicit: false, vars: vec![(n, v), (f, fv)], child: Box::new(inner) })
                })
            }
            "index" => self.scoped(|s| {
                let n = s.fresh();
                let dict = s.r.chance(1, 2);
                let (k, at) = (s.r.below(3) + 1, 0usize);
                let _ = at;
                let idx = s.r.below(k);
                let mut nm = name(&n);
                let v = if dict {
                    let mut keys: Vec<String> = vec![];
                    while keys.len() < k { let x = s.r.pick(KEYS).to_string(); if !keys.contains(&x) { keys.push(x) } }
                    nm.path.push((s.r.chance(1, 6), Sel::Attr(keys[idx].clone())));
                    let f = keys.into_iter().enumerate().map(|(i, key)| (key, if i == idx { g.clone() } else { s.simple_g(0) })).collect();
                    s.leaf(&G::Dict(f), d - 1)
                } else {
                    let j = if s.r.chance(1, 3) { idx as i64 - k as i64 } else { idx as i64 };
                    nm.path.push((s.r.chance(1, 6), Sel::Idx(j)));
                    let f = (0..k).map(|i| if i == idx { g.clone() } else { s.simple_g(0) }).collect();
                    s.leaf(&G::Tup(f), d - 1)
                };
                let1(&n, v, e(EK::Name(nm)))
            }),
            "list::get" => {
                let k = self.r.below(3) + 1; let idx = self.r.below(k);
                let f = (0..k).map(|i| if i == idx { g.clone() } else { self.simple_g(0) }).collect();
                let l = self.leaf(&G::Tup(f), d - 1);
                let j = if self.r.chance(1, 3) { idx as i64 - k as i64 } else { idx as i64 };
                self.native("list::get", vec![int(j)], vec![], l)
            }
            "dict::get" => { let k = self.r.pick(KEYS).to_string(); let f = vec![(k.clone(), g.clone())]; let dv = self.leaf(&G::Dict(f), d - 1); self.native("dict::get", vec![s(&k)], vec![], dv) }
            "list::find" => {
                // the first element always satisfies the predicate
                let v = self.val(g, d - 2);
                let n = self.fresh();
                let mut p = Params::default(); p.content = Some(Param::new(&n, T::Any));
                let f = e(EK::Fn(Rc::new(FnDef { name: None, params: p, body: Rc::new(e(EK::Bool(true))), sig_at: pos() })));
                self.native("list::find", vec![f], vec![], list(vec![v]))
            }
            "function::call" => self.scoped(|s| {
                let fs = s.fs_random(g, d);
                let f = s.fresh();
                let fv = s.lambda(&fs, d - 1);
                s.declare(&f, G::Func(fs.clone()));
                let made = s.call_fs(name(&f), &fs, d - 1);
                let EK::Call(c) = &made.k else { return let1(&f, fv, made) };
                let mut args = vec![arg(e(EK::Name(c.f.clone())))];
                args.extend(c.args.iter().cloned());
                let c2 = call(dotted("function", &["call"]), args, c.content.clone());
                let1(&f, fv, c2)
            }),
            _ => {
                // recursion over a list
                self.scoped(|s| {
                    let (f, xs, h, t) = (s.fresh(), "xs", "h", "t");
                    let eg = s.simple_g(0);
                    let v = s.val(&G::List(Box::new(eg.clone())), d - 2);
                    let base = s.val(g, d - 2);
                    let _ = eg;
                    let mut p = Params::default(); p.content = Some(Param::new(xs, T::Any.list()));
                    let pre = vec![P::Ignore];
                    let _ = h;
                    let rec = call(name(&f), vec![], var(t));
                    let body = e(EK::Match { value: Box::new(var(xs)), branches: vec![(P::Seq { list: true, pre: vec![], spread: None, post: vec![] }, base), (P::Seq { list: true, pre, spread: Some(Box::new(P::Var(t.into(), pos()))), post: vec![] }, rec)] });
                    let fd = Item::Fn(Rc::new(FnDef { name: Some(f.clone()), params: p, body: Rc::new(body), sig_at: pos() }));
                    // the function must be visible to itself, so it is declared by an item
                    let c = call(name(&f), vec![], v);
                    if has_func(g) { c } else { let u = s.uniq; s.uniq += 1; let _ = u; e(EK::Let { implicit: false, vars: vec![("_u".into(), group(vec![fd, txt("u")]))], child: Box::new(c) }) }
                })
            }
        }
    }
    fn let_e(&mut self, g: &G, d: i32, implicit: bool) -> E {
        self.scoped(|s| {
            let n = s.r.below(3) + 1;
            let mut vars = vec![];
            for _ in 0..n {
                let vg = s.any_g(d);
                let v = s.val(&vg, d - 2);
                let nm = s.fresh();
                s.declare(&nm, vg);
                vars.push((nm, v));
            }
            let c = s.val(g, d - 1);
            let c = s.let_child(c);
            e(EK::Let { implicit, vars, child: Box::new(c) })
        })
    }

    // ---- functions ----
    fn fs_simple(&mut self, ret: &G) -> Rc<FS> { let c = if self.r.chance(1, 2) { Some(self.simple_g(1)) } else { None }; Rc::new(FS { pos: vec![], spread: None, named: vec![], kw: None, content: c, ret: ret.clone() }) }
    fn ann(&mut self) -> G {
        match self.r.below(14) { 0..=2 => G::Int, 3..=5 => G::Str, 6 => G::Bool, 7 => G::Inline, 8 => G::Block, 9 => G::List(Box::new(G::Int)), 10 => G::List(Box::new(G::Str)), 11 => G::Any, 12 => G::Html, _ => G::Dict(vec![]) }
    }
    fn fs_random(&mut self, ret: &G, _d: i32) -> Rc<FS> {
        let np = self.r.weighted(&[4, 4, 3, 1]);
        let nn = self.r.weighted(&[5, 4, 2, 1]);
        let mut pos: Vec<(G, bool)> = vec![];
        for _ in 0..np { let req = pos.last().map_or(true, |p| p.1) && self.r.chance(2, 3); let g = self.ann(); pos.push((g, req)) }
        let mut named: Vec<(String, G, bool, bool)> = vec![];
        for _ in 0..nn {
            let n = self.fresh();
            if named.iter().any(|p| p.0 == n) { continue; }
            let g = self.ann();
            named.push((n, g, self.r.chance(1, 3), self.r.chance(1, 5)));
        }
        let spread = if self.r.chance(1, 4) { Some(self.ann()) } else { None };
        let kw = if self.r.chance(1, 4) { Some(self.ann()) } else { None };
        let content = if self.r.chance(3, 5) { Some(if self.r.chance(1, 4) { opt(self.ann()) } else { self.ann() }) } else { None };
        Rc::new(FS { pos, spread, named, kw, content, ret: ret.clone() })
    }
    /// Builds the definition of a function with the given shape.
    fn fndef(&mut self, name: Option<String>, fs: &FS, d: i32) -> FnDef {
        let mut ps = Params::default();
        let mut bound: Vec<(String, G)> = vec![];
        let pnames = ["_p", "_q", "_r", "_t"];
        let mk = |s: &mut Self, n: &str, g: &G, req: bool, implicit: bool| -> (Param, G) {
            let mut p = Param::new(n, t_of(g));
            p.implicit = implicit;
            let mut vg = g.clone();
            if !req {
                if !implicit && s.r.chance(1, 2) {
                    p.default = Some(s.val(g, d - 2));
                    if !p.ty.unit_ok() && s.r.chance(1, 4) { p.question = true; vg = opt(vg) }
                }
                else { p.question = !p.ty.unit_ok(); if p.question { vg = opt(vg) } else if implicit { } else { p.default = Some(s.val(g, d - 2)) } }
            }
            (p, vg)
        };
        for (i, (g, req)) in fs.pos.iter().enumerate() { let (p, vg) = mk(self, pnames[i], g, *req, false); bound.push((p.name.clone(), vg)); ps.pos.push(p) }
        if let Some(g) = &fs.spread { let p = Param::new("_s", t_of(g).list()); bound.push(("_s".into(), G::List(Box::new(g.clone())))); ps.spread = Some(p) }
        for (n, g, req, imp) in &fs.named { let (p, vg) = mk(self, n, g, *req, *imp); bound.push((p.name.clone(), vg)); ps.named.push(p) }
        ps.named.sort_by_key(|p| p.question || p.default.is_some());
        if let Some(g) = &fs.kw { let p = Param::new("kws", t_of(g).dict()); bound.push(("kws".into(), G::Dict(vec![]))); ps.named_spread = Some(p) }
        if let Some(g) = &fs.content {
            let n = { let mut n = self.fresh(); while bound.iter().any(|b| b.0 == n) { self.uniq += 1; n = format!("c{}", self.uniq) } n };
            let (t, q) = match g { G::Opt(g) if !t_of(g).unit_ok() => (t_of(g), true), g => (t_of(g), false) };
            let mut p = Param::new(&n, t); p.question = q;
            bound.push((n, g.clone()));
            ps.content = Some(p);
        }
        let body = self.scoped(|s| { s.scope.last_mut().unwrap().extend(bound); s.val(&fs.ret, d - 1) });
        FnDef { name, params: ps, body: Rc::new(body), sig_at: pos() }
    }
    fn lambda(&mut self, fs: &FS, d: i32) -> E {
        if d > 1 && self.r.chance(1, 4) {
            // a longer signature with some of it bound beforehand
            return self.scoped(|s| {
                let mut big = fs.clone();
                let k = s.r.below(2) + 1;
                let mut pre = vec![];
                for _ in 0..k { let g = s.ann(); pre.push((g, true)); }
                if big.pos.len() + k > 4 { pre.clear() }
                big.pos = pre.iter().cloned().chain(big.pos.iter().cloned()).collect();
                let n = s.fresh();
                if s.r.chance(1, 2) && !big.named.iter().any(|p| p.0 == n) { let g = s.ann(); big.named.push((n.clone(), g, true, false)) }
                let mut args: Vec<Arg> = pre.iter().map(|(g, _)| { let v = s.val(g, d - 2); arg(v) }).collect();
                for (m, g, _, _) in big.named.iter().skip(fs.named.len()) { let v = s.val(g, d - 2); args.push(narg(m, v)) }
                let f = e(EK::Fn(Rc::new(s.fndef(None, &big, d - 1))));
                s.bind_split(f, args)
            });
        }
        let n = if self.r.chance(1, 6) { Some(self.fresh()) } else { None };
        e(EK::Fn(Rc::new(self.fndef(n, fs, d))))
    }
    /// Binds arguments in one or two steps, by function or by method.
    fn bind_split(&mut self, f: E, mut args: Vec<Arg>) -> E {
        self.scoped(|s| {
            let n = s.fresh();
            let cut = s.r.below(args.len() + 1);
            let rest = args.split_off(cut);
            s.declare(&n, G::Unit);
            let step = |s: &mut Self, n: &str, a: Vec<Arg>| -> E {
                if s.r.chance(1, 2) { let mut v = vec![arg(var(n))]; v.extend(a); call(dotted("function", &["bind"]), v, unit_e()) } else { call(dotted(n, &["bind"]), a, unit_e()) }
            };
            let first = step(s, &n, args);
            if rest.is_empty() { return let1(&n, f, first); }
            let m = s.fresh();
            let second = step(s, &m, rest);
            e(EK::Let { implicit: false, vars: vec![(n, f), (m, first)], child: Box::new(second) })
        })
    }
    fn call_new(&mut self, g: &G, d: i32) -> E {
        self.scoped(|s| {
            let fs = s.fs_random(g, d);
            let f = s.fresh();
            let fv = s.lambda(&fs, d - 1);
            s.declare(&f, G::Func(fs.clone()));
            let c = s.call_fs(name(&f), &fs, d - 1);
            let1(&f, fv, c)
        })
    }
    fn call_fs(&mut self, f: Name, fs: &Rc<FS>, d: i32) -> E {
        let mut pos_args: Vec<E> = vec![];
        let all = self.r.chance(1, 2);
        for (g, req) in &fs.pos { if *req || all { let v = self.val(g, d - 1); pos_args.push(v) } else { break } }
        if pos_args.len() == fs.pos.len() { if let Some(g) = &fs.spread { for _ in 0..self.r.below(4) { let v = self.val(g, d - 2); pos_args.push(v) } } }
        let mut named: Vec<(String, E)> = vec![];
        let mut imp: Vec<(String, E)> = vec![];
        for (n, g, req, implicit) in &fs.named {
            if *implicit { if *req || self.r.chance(2, 3) { let v = self.val(g, d - 2); if self.r.chance(1, 2) { imp.push((n.clone(), v)) } else { named.push((n.clone(), v)) } } }
            else if *req || self.r.chance(1, 2) { let v = self.val(g, d - 2); named.push((n.clone(), v)) }
        }
        if let Some(g) = &fs.kw { for k in ["e1", "e2"] { if self.r.chance(1, 3) { let v = self.val(g, d - 2); named.push((k.into(), v)) } } }
        self.r.shuffle(&mut named);
        let mut args: Vec<Arg> = vec![];
        let at = if self.r.chance(1, 4) { self.r.below(pos_args.len() + 1) } else { pos_args.len() };
        let tail = pos_args.split_off(at);
        args.extend(pos_args.into_iter().map(arg));
        if !tail.is_empty() || self.r.chance(1, 30) { args.push(Arg { kind: ArgK::Spread, value: list(tail), at: pos() }) }
        let at = if self.r.chance(1, 4) { self.r.below(named.len() + 1) } else { named.len() };
        let tail = named.split_off(at);
        args.extend(named.into_iter().map(|(n, v)| narg(&n, v)));
        if !tail.is_empty() { args.push(Arg { kind: ArgK::NamedSpread, value: call(dotted("dict", &["new"]), tail.into_iter().map(|(n, v)| narg(&n, v)).collect(), unit_e()), at: pos() }) }
        let content = match &fs.content { Some(g) => self.val(g, d - 1), None => unit_e() };
        let mut c = call(f, args, content);
        if self.r.chance(1, 12) { if let EK::Call(cc) = c.k {
            // bind the arguments first, then call
            let unit = matches!(cc.content.k, EK::Unit);
            let (bc, cc2) = if self.r.chance(1, 3) && !unit { (cc.content.clone(), unit_e()) } else { (unit_e(), cc.content.clone()) };
            let mut v = vec![arg(e(EK::Name(cc.f.clone())))]; v.extend(cc.args.iter().cloned());
            let b = call(dotted("function", &["bind"]), v, bc);
            c = let1("bound", b, call(name("bound"), vec![], cc2));
        } }
        if imp.is_empty() { c } else { e(EK::Let { implicit: true, vars: imp, child: Box::new(c) }) }
    }
    /// A call of a built-in, as a function or as a method.
    fn native(&mut self, op: &str, mut pos_args: Vec<E>, named: Vec<Arg>, content: E) -> E {
        let m = op.split("::").nth(1).unwrap().to_string();
        let positional = POSITIONAL.contains(&op) && !pos_args.is_empty();
        if (positional || CONTENT.contains(&op)) && self.r.chance(1, 3) {
            let (recv, content) = if positional { (pos_args.remove(0), content) } else { (content, unit_e()) };
            let mut args: Vec<Arg> = pos_args.into_iter().map(arg).collect(); args.extend(named);
            if let EK::Name(n) = &recv.k { let mut n = n.clone(); n.path.push((false, Sel::Attr(m))); return call(n, args, content); }
            return let1("self", recv, call(dotted("self", &[&m]), args, content));
        }
        let mut args: Vec<Arg> = pos_args.into_iter().map(arg).collect(); args.extend(named);
        call(native_name(op), args, content)
    }
    fn pattern(&mut self) -> String {
        let n = self.r.below(3) + 1;
        let mut out = String::new();
        let grp = self.r.below(4);
        let mut k = 0;
        for _ in 0..n {
            let atom = match self.r.below(12) { 0 | 1 => "a".to_string(), 2 => "b".into(), 3 => ".".into(), 4 => "[ab]".into(), 5 => "[^a]".into(), 6 => "[a-c]".into(), 7 => "ab".into(), 8 => "a|b".into(), 9 => "x".into(), 10 => "é".into(), _ => "[0-9]".into() };
            let atom = match grp { 0 => if atom.len() > 1 && atom.as_bytes()[0] != b'[' { format!("(?:{atom})") } else { atom }, 1 => { k += 1; if self.r.chance(2, 3) { format!("({atom})") } else { format!("(?:{atom})") } } 2 => { k += 1; format!("(?P<g{k}>{atom})") } _ => format!("(?:{atom})") };
            let q = match self.r.below(9) { 0 => "*", 1 => "+", 2 => "?", 3 => "*?", 4 => "{2}", 5 => "{1,2}", _ => "" };
            out.push_str(&atom); out.push_str(q);
            if self.r.chance(1, 8) { out.push('|') }
        }
        match self.r.below(12) { 0 => format!("^{out}"), 1 => format!("{out}$"), _ => out }
    }

    // ---- operations ----
    fn op(&mut self, g: &G, d: i32) -> Option<E> {
        let d = d - 1;
        let b = |g: G| Box::new(g);
        Some(match g {
            G::Bool => match self.choose(&[("bool::and", 2), ("bool::or", 2), ("bool::negate", 2), ("bool::from", 2), ("str::starts_with", 2), ("str::ends_with", 2), ("str::is_empty", 1), ("str::is_whitespace", 1), ("regex::test", 2), ("list::all", 1), ("list::any", 1), ("list::contains", 2), ("list::is_empty", 1), ("html::is_empty", 1), ("html::is_whitespace", 1), ("dict::is_empty", 1)]) {
                o @ ("bool::and" | "bool::or") => { let (x, y) = (self.val(&G::Bool, d), self.val(&G::Bool, d)); self.native(o, vec![x, y], vec![], unit_e()) }
                "bool::negate" => { let x = self.val(&G::Bool, d); self.native("bool::negate", vec![], vec![], x) }
                "bool::from" => { let g = self.any_g(1); let x = self.val(&g, d); self.native("bool::from", vec![], vec![], x) }
                o @ ("str::starts_with" | "str::ends_with") => { let (x, y) = (self.val(&G::Str, d), self.val(&G::Str, d)); self.native(o, vec![x, y], vec![], unit_e()) }
                o @ ("str::is_empty" | "str::is_whitespace") => { let x = self.val(&G::Str, d); self.native(o, vec![], vec![], x) }
                "regex::test" => { let (x, y) = (self.val(&G::Regex, d), self.val(&G::Str, d)); self.native("regex::test", vec![x], vec![], y) }
                o @ ("list::all" | "list::any") => { let g = self.simple_g(0); let f = self.val(&cb(g.clone(), G::Bool), d); let l = self.val(&G::List(b(g)), d); self.native(o, vec![f], vec![], l) }
                "list::contains" => { let g = self.simple_g(1); let x = self.val(&g, d); let l = self.val(&G::List(b(g)), d); self.native("list::contains", vec![x], vec![], l) }
                "list::is_empty" => { let g = self.simple_g(0); let l = self.val(&G::List(b(g)), d); self.native("list::is_empty", vec![], vec![], l) }
                o @ ("html::is_empty" | "html::is_whitespace") => { let x = self.val(&G::Html, d); self.native(o, vec![], vec![], x) }
                _ => { let g = self.dict_g(0); let x = self.val(&g, d); self.native("dict::is_empty", vec![], vec![], x) }
            },
            G::Int => match self.choose(&[("int::add", 4), ("int::negate", 2), ("int::parse", 1), ("str::len", 2), ("list::len", 2), ("regex::count", 1), ("dict::len", 1)]) {
                "int::add" => { let n = self.r.below(4); let v = (0..n).map(|_| self.val(&G::Int, d)).collect(); self.native("int::add", v, vec![], unit_e()) }
                "int::negate" => { let x = self.val(&G::Int, d); self.native("int::negate", vec![], vec![], x) }
                "int::parse" => { let t = match self.r.below(10) { 0 => "9223372036854775808".to_string(), 1 => "-9223372036854775808".into(), 2 => format!("+{}", self.r.below(50)), 3 => "007".into(), 4 => self.r.pick(&["", "-", "1 ", "1_0", "٣", "--1", "0x1", "99999999999999999999"]).to_string(), _ => self.int().to_string() }; self.native("int::parse", vec![], vec![], s(&t)) }
                "str::len" => { let x = self.val(&G::Str, d); self.native("str::len", vec![], vec![], x) }
                "list::len" => { let g = self.simple_g(1); let x = self.val(&G::List(b(g)), d); self.native("list::len", vec![], vec![], x) }
                "regex::count" => { let (x, y) = (self.val(&G::Regex, d), self.val(&G::Str, d)); self.native("regex::count", vec![x], vec![], y) }
                _ => { let g = self.dict_g(0); let x = self.val(&g, d); self.native("dict::len", vec![], vec![], x) }
            },
            G::Str => match self.choose(&[("str::upper", 2), ("str::lower", 2), ("str::trim", 2), ("str::from", 1), ("str::escape_html", 1), ("html::escape_html", 1), ("template", 5), ("function::name", 1), ("html::tag_name", 1), ("typeof", 1), ("str::coerce", 1)]) {
                o @ ("str::upper" | "str::lower" | "str::trim" | "str::escape_html" | "str::from") => { let x = self.val(&G::Str, d); self.native(o, vec![], vec![], x) }
                "html::escape_html" => { let x = self.val(&G::Html, d); self.native("html::escape_html", vec![], vec![], x) }
                "template" => self.template(d),
                "function::name" => { let f = cb(G::Any, G::Any); let x = self.val(&f, d); self.native("function::name", vec![], vec![], x) }
                "html::tag_name" => { let t = if self.r.chance(1, 2) { *self.r.pick(INL) } else { *self.r.pick(BLK) }; let x = self.tag_e(t, d - 1); if self.r.chance(1, 3) { let1("self", x, e(EK::Name(dotted("self", &["tag_name"])))) } else { call(native_name("html::tag_name"), vec![], x) } }
                "typeof" => { let g = self.any_g(2); let x = self.val(&g, d); call(name("typeof"), vec![], x) }
                _ => { let g = self.r.pick(&[G::Int, G::Bool]).clone(); let x = self.val(&g, d); call(native_name("str::from"), vec![], x) }
            },
            G::List(el) | G::Opt(el) if matches!(g, G::List(_)) => {
                let mut ops = vec![("list::slice", 3), ("list::reversed", 2), ("list::filter", 2), ("list::map", 3), ("list::flat", 1), ("dict::values", 1), ("list::spread", 1)];
                if matches!(**el, G::Int | G::Str | G::Any) { ops.push(("list::sorted", 3)) } else { ops.push(("list::sorted", 1)) }
                if fits(&G::Str, el) { ops.extend([("str::split", 3), ("regex::split", 2), ("regex::find_all", 2), ("dict::keys", 1)]) }
                if **el == G::Any || **el == G::Html { ops.push(("list::html_nodes", 3)) }
                if **el == G::Any { ops.extend([("list::enumerate", 3), ("dict::items", 2), ("regex::find_all", 2)]) }
                let o = self.choose(&ops).to_string();
                match o.as_str() {
                    "list::slice" => { let l = self.val(g, d); let mut v = vec![int(self.int())]; if self.r.chance(2, 3) { v.push(if self.r.chance(1, 8) { unit_e() } else { int(self.int()) }) } self.native(&o, v, vec![], l) }
                    "list::reversed" => { let l = self.val(g, d); self.native(&o, vec![], vec![], l) }
                    "list::filter" => { if self.r.chance(1, 3) { let l = self.val(&G::List(b(opt((**el).clone()))), d); let a = if self.r.chance(1, 4) { vec![unit_e()] } else { vec![] }; self.native(&o, a, vec![], l) } else { let f = self.val(&cb((**el).clone(), G::Bool), d); let l = self.val(g, d); self.native(&o, vec![f], vec![], l) } }
                    "list::map" => { let a = self.simple_g(0); let f = self.val(&cb(a.clone(), (**el).clone()), d); let l = self.val(&G::List(b(a)), d); self.native(&o, vec![f], vec![], l) }
                    "list::flat" => { let l = self.val(&G::List(b(g.clone())), d); self.native(&o, vec![], vec![], l) }
                    "dict::values" => { let n = self.r.below(3); let f = KEYS[..n].iter().map(|k| (k.to_string(), (**el).clone())).collect(); let v = self.leaf(&G::Dict(f), d); self.native(&o, vec![], vec![], v) }
                    "list::spread" => { let (x, y, z) = (self.val(g, d), self.val(el, d), self.val(g, d)); e(EK::List(vec![(x, true), (y, false), (z, true)])) }
                    "list::sorted" => {
                        let mut named = vec![];
                        let direct = matches!(**el, G::Int | G::Str);
                        if !direct || self.r.chance(1, 3) { let kg = if self.r.chance(1, 2) { G::Int } else { G::Str }; let f = self.val(&cb((**el).clone(), kg), d); named.push(narg("key", f)) }
                        if self.r.chance(1, 2) { let x = self.val(&G::Bool, 0); named.push(narg("reversed", x)) }
                        let l = self.val(g, d);
                        self.native(&o, vec![], named, l)
                    }
                    "str::split" => { let sep = self.r.pick(&[",", "a", " ", "", "ab", "é", "X", "aa"]).to_string(); let x = self.val(&G::Str, d); self.native(&o, vec![s(&sep)], vec![], x) }
                    "regex::split" | "regex::find_all" => { let (x, y) = (self.val(&G::Regex, d), self.val(&G::Str, d)); self.native(&o, vec![x], vec![], y) }
                    "dict::keys" | "dict::items" => { let g = self.dict_g(1); let x = self.val(&g, d); self.native(&o, vec![], vec![], x) }
                    "list::html_nodes" => { let x = self.val(&G::Html, d); self.native(&o, vec![], vec![], x) }
                    _ => { let named = if self.r.chance(1, 2) { vec![narg("from", int(self.int()))] } else { vec![] }; let eg = self.simple_g(1); let l = self.val(&G::List(b(eg)), d); self.native("list::enumerate", vec![], named, l) }
                }
            }
            G::Opt(x) => match self.choose(&[("opt", 2), ("regex::find", 2), ("list::find", 2)]) {
                "regex::find" if fits(&G::Str, x) => { let (x, y) = (self.val(&G::Regex, d), self.val(&G::Str, d)); self.native("regex::find", vec![x], vec![], y) }
                "list::find" => { let f = self.val(&cb((**x).clone(), G::Bool), d); let l = self.val(&G::List(x.clone()), d); self.native("list::find", vec![f], vec![], l) }
                _ => self.val(x, d),
            },
            G::Any => { match self.choose(&[("any", 4), ("regex::find", 1), ("list::join", 1), ("function", 1)]) {
                "regex::find" => { let (x, y) = (self.val(&G::Regex, d), self.val(&G::Str, d)); self.native("regex::find", vec![x], vec![], y) }
                "list::join" => self.val(&G::Html, d),
                _ => { let g = self.any_g(2); self.val(&g, d) }
            } }
            G::Inline => match self.choose(&[("tag", 3), ("group", 3), ("std", 2), ("inline::from", 1), ("list::join", 2), ("str", 1)]) {
                "tag" => { let t = *self.r.pick(INL); self.tag_e(t, d) }
                "group" => { let it = self.items(Ctx::Inline, d, 1); if it.is_empty() { unit_e() } else { group(it) } }
                "inline::from" => { let g = self.r.pick(&[G::Int, G::Bool, G::Str, G::Inline, G::Regex]).clone(); let x = self.val(&g, d); call(native_name("inline::from"), vec![], x) }
                "list::join" => self.join(&G::Inline, d),
                "std" => self.std_inline(d),
                _ => self.val(&G::Str, d),
            },
            G::Block => match self.choose(&[("tag", 5), ("group", 2), ("std", 2), ("block::from", 1), ("list::join", 1)]) {
                "tag" => { let t = *self.r.pick(BLK); self.tag_e(t, d) }
                "group" => { let mut it = self.items(Ctx::Block, d, 1); let x = self.leaf(&G::Block, d); if !it.is_empty() { it.push(Item::Para(pos())) } it.push(self.as_item(x)); group(it) }
                "block::from" => { let g = if self.r.chance(1, 3) { self.simple_g(2) } else { self.r.pick(&[G::Int, G::Str, G::Inline, G::Block]).clone() }; let x = self.val(&g, d); call(native_name("block::from"), vec![], x) }
                "list::join" => self.join(&G::Block, d),
                _ => self.std_block(d),
            },
            G::Html => { let g = self.r.pick(&[G::Inline, G::Block, G::Str, G::Unit]).clone(); return Some(self.val(&g, d)); }
            G::Func(fs) => { if self.r.chance(1, 3) { if let Some(f) = self.native_cb(fs) { return Some(f); } } return None; }
            _ => return None,
        })
    }
    fn native_cb(&mut self, fs: &FS) -> Option<E> {
        if !fs.pos.is_empty() || !fs.named.is_empty() { return None; }
        let c = fs.content.as_ref()?;
        let opts: &[&str] = match (c, &fs.ret) { (G::Str, G::Str) => &["str::upper", "str::lower", "str::trim"], (G::Str, G::Int) => &["str::len"], (G::Str, G::Bool) => &["str::is_empty", "str::is_whitespace"], (G::Int, G::Int) => &["int::negate"], (G::Bool, G::Bool) => &["bool::negate"], (G::List(_) | G::Tup(_), G::Int) => &["list::len"], (G::List(_) | G::Tup(_), G::Bool) => &["list::is_empty"], (_, G::Bool) => &["bool::from"], (G::Int | G::Bool, G::Str) => &["str::from"], _ => return None };
        Some(e(EK::Name(native_name(self.r.pick(opts)))))
    }
    fn join(&mut self, g: &G, d: i32) -> E {
        let l = self.val(&G::List(Box::new(g.clone())), d);
        let sep = if self.r.chance(2, 3) { vec![self.val(g, d - 1)] } else { vec![] };
        self.native("list::join", sep, vec![], l)
    }
    fn template(&mut self, d: i32) -> E {
        let n = self.r.below(4) + 1;
        let mut parts: Vec<TPart> = vec![];
        let mut vars: Vec<(String, E)> = vec![];
        for _ in 0..n {
            match self.r.below(5) {
                0 => { if !matches!(parts.last(), Some(TPart::Ws)) && !parts.is_empty() { parts.push(TPart::Ws) } }
                1 | 2 => { let t = self.str(); if !t.is_empty() && !matches!(parts.last(), Some(TPart::Lit(_))) { parts.push(TPart::Lit(t)) } }
                _ => {
                    let g = self.r.pick(&[G::Str, G::Int, G::Bool, G::Opt(Box::new(G::Str))]).clone();
                    if let (true, Some(n)) = (self.r.chance(2, 3), self.find_var(&g)) { parts.push(TPart::Var(n)) }
                    else { let v = self.val(&g, d - 1); let nm = format!("t{}", vars.len()); vars.push((nm.clone(), v)); parts.push(TPart::Var(name(&nm))) }
                }
            }
        }
        while matches!(parts.last(), Some(TPart::Ws)) { parts.pop(); }
        let t = e(EK::Tmpl(parts));
        if vars.is_empty() { t } else { e(EK::Let { implicit: false, vars, child: Box::new(t) }) }
    }
    fn std_inline(&mut self, d: i32) -> E {
        match self.r.below(8) {
            0 => { let u = self.val(&G::Str, d); let c = self.val(&G::Inline, d); call(name("href"), vec![arg(u)], c) }
            1 => { let u = self.val(&G::Str, d); let args = if self.r.chance(1, 2) { let a = self.val(&G::Opt(Box::new(G::Str)), d); vec![narg("alt", a)] } else { vec![] }; call(name("image"), args, u) }
            2 => { let c = self.val(&G::Str, d); call(name(*self.r.clone().pick(&["kbd", "samp"])), vec![], c) }
            3 => { let t = *self.r.pick(INL); let h = self.tag_e(t, d - 1); self.modifier(h, d) }
            4 => { let c = self.val(&G::Inline, d); call(name("footnote"), vec![], c) }
            _ => { let f = *self.r.pick(&["b", "bold", "cite", "dfn", "emph", "i", "quote", "span", "sub", "sup", "strikethrough", "underline"]); let c = self.val(&G::Inline, d); call(name(f), vec![], c) }
        }
    }
    fn modifier(&mut self, h: E, d: i32) -> E {
        match self.r.below(3) {
            0 => { let c = self.val(&G::Str, d - 1); call(name("class"), vec![arg(c)], h) }
            1 => { let c = self.val(&G::Str, d - 1); call(name("style"), vec![arg(c)], h) }
            _ => { let mut args = vec![]; for k in ["role", "lang2", "data_y"] { if self.r.chance(1, 2) { let v = self.val(&G::Opt(Box::new(G::Str)), d - 1); args.push(narg(k, v)) } } call(name("attributes"), args, h) }
        }
    }
    fn std_block(&mut self, d: i32) -> E {
        match self.r.below(6) {
            0 => { let f = *self.r.pick(&["h1", "h2", "h3", "h4", "h5", "h6"]); let c = self.inline_nobr(d); call(name(f), vec![], c) }
            1 => { let args = if self.r.chance(1, 2) { let a = self.val(&G::Opt(Box::new(G::Str)), d); vec![narg("cite", a)] } else { vec![] }; let c = self.val(&G::Block, d); call(name("blockquote"), args, c) }
            2 => { let l = self.simple_g(0); let c = self.val(&G::List(Box::new(l)), d); call(name("numbered"), vec![], c) }
            3 => { let t = *self.r.pick(BLK); let h = self.tag_e(t, d - 1); self.modifier(h, d) }
            4 => { let t = self.tag_e("ul", d); call(name("numbered"), vec![], t) }
            _ => { let c = self.val(&G::Html, d); call(native_name("block::from"), vec![], c) }
        }
    }
    fn inline_nobr(&mut self, d: i32) -> E { let it = self.items(Ctx::NoBr, d - 1, 1); if it.is_empty() { s("h") } else { group(it) } }

    // ---- match ----
    fn match_e(&mut self, g: &G, d: i32) -> E {
        let sg = match self.r.below(8) { 0 | 1 => G::Tup((0..self.r.below(4)).map(|_| self.r.clone().pick(&[G::Int, G::Str, G::Bool, G::Inline]).clone()).collect()), 2 => self.dict_g(1), 3 => G::Str, 4 => G::Inline, 5 => G::Block, _ => self.any_g(2) };
        let known = self.r.chance(1, 3);
        let value = if known { self.leaf(&sg, d - 1) } else { self.val(&sg, d - 1) };
        let n = self.r.below(4) + 1;
        let mut branches = vec![];
        for i in 0..n {
            let last = i + 1 == n;
            let br = self.scoped(|s| {
                let pg = if s.r.chance(1, 6) { s.any_g(1) } else { sg.clone() };
                let mut binds = vec![];
                let p = if last && s.r.chance(9, 10) { if s.r.chance(1, 2) { P::Ignore } else { let v = s.maybe_again(); s.pvars.push(v.clone()); binds.push((v.clone(), sg.clone())); P::Var(v, pos()) } } else if known && s.r.chance(1, 2) { s.pat_lit(&value, &pg, &mut binds, 3) } else { s.pat(&pg, &mut binds, 3) };
                s.pvars.clear();
                let sc = s.scope.last_mut().unwrap(); sc.extend(binds);
                let h = s.val(g, d - 1);
                (p, h)
            });
            branches.push(br);
        }
        e(EK::Match { value: Box::new(value), branches })
    }
    /// A match whose branches show which one was taken and everything it bound.
    pub fn match_probe(&mut self) -> E {
        self.scoped(|s| {
            let d = 3;
            let sg = match s.r.below(10) { 0..=2 => { let n = s.r.below(5); G::Tup((0..n).map(|_| s.simple_g(1)).collect()) } 3 => s.dict_g(1), 4 => G::Str, 5 => G::Inline, 6 => G::Block, 7 => G::List(Box::new(s.simple_g(1))), _ => s.any_g(2) };
            let lit = s.leaf(&sg, d);
            let value = match &lit.k {
                // the same value reached by other routes
                EK::List(xs) if xs.iter().all(|x| !x.1) && s.r.chance(1, 2) => {
                    let n = xs.len() as i64;
                    let (a, b) = (s.r.below(3), s.r.below(3));
                    let mut v: Vec<(E, bool)> = (0..a).map(|i| (int(90 + i as i64), false)).collect();
                    v.extend(xs.iter().cloned());
                    v.extend((0..b).map(|i| (int(80 + i as i64), false)));
                    let mut args = vec![arg(int(a as i64))];
                    if b > 0 || s.r.chance(1, 2) { args.push(arg(int(a as i64 + n))) }
                    call(native_name("list::slice"), args, e(EK::List(v)))
                }
                EK::Call(_) | EK::Tag(_) | EK::Str(_) if s.r.chance(1, 4) => { let x = lit.clone(); let n = s.fresh(); let1(&n, x, var(&n)) }
                EK::Tag(_) | EK::Group(_) if s.r.chance(1, 3) => { let x = s.as_item(lit.clone()); group(vec![x]) }
                _ => lit.clone(),
            };
            let n = s.r.below(4) + 1;
            let mut branches = vec![];
            for i in 0..n {
                let (p, names) = s.scoped(|s| {
                    let pg = match s.r.below(8) { 0 => s.any_g(1), 1 => G::Any, _ => sg.clone() };
                    let mut binds = vec![];
                    let p = if s.r.chance(1, 2) { s.pat_lit(&lit, &pg, &mut binds, 3) } else { s.pat(&pg, &mut binds, 3) };
                    let p = if s.r.chance(1, 8) && !matches!(p, P::And(..) | P::Or(..)) { let v = s.maybe_again(); s.pvars.push(v.clone()); binds.push((v.clone(), G::Any)); P::And(Box::new(p), Box::new(P::Var(v, pos()))) } else { p };
                    s.pvars.clear();
                    (p, binds.into_iter().map(|b| b.0).collect::<Vec<_>>())
                });
                let mut out = vec![int(i as i64)];
                let mut seen: Vec<String> = vec![];
                for n in names { if !seen.contains(&n) { out.push(var(&n)); seen.push(n) } }
                branches.push((p, list(out)));
            }
            if s.r.chance(4, 5) { branches.push((P::Ignore, s_("none"))) }
            e(EK::Match { value: Box::new(value), branches })
        })
    }
    fn pvar(&mut self, g: &G, binds: &mut Vec<(String, G)>) -> P { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), g.clone())); P::Var(v, pos()) }
    fn lit_eq(&mut self, g: &G) -> E { match g { G::Bool => e(EK::Bool(self.r.chance(1, 2))), G::Int => int(self.r.range(-1, 3)), _ => { let t = self.r.pick(&["a", "b", "ab", "x"]).to_string(); s(&t) } } }
    /// A pattern for values of a type.
    fn pat(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P {
        let k = self.r.weighted(&[2, 4, 2, 2, if d > 0 { 2 } else { 0 }, if d > 0 { 3 } else { 0 }, 6]);
        match k {
            0 => P::Ignore,
            1 => self.pvar(g, binds),
            2 => { let t = if self.r.chance(3, 4) { t_of(g) } else { let g = self.simple_g(1); t_of(&g) }; let t = self.vary_t(t); if self.r.chance(1, 2) { let v = self.pvar(g, binds); P::And(Box::new(P::Typed(t)), Box::new(v)) } else { P::Typed(t) } }
            3 => { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str)); let to = P::TypeOf(v, pos()); if self.r.chance(1, 2) { let w = self.pvar(g, binds); P::And(Box::new(to), Box::new(w)) } else { to } }
            4 => { let a = self.pat_primary(g, binds, d - 1); let b = self.pat_primary(g, binds, d - 1); P::And(Box::new(a), Box::new(b)) }
            5 => {
                // the alternatives may bind the same names
                let before = self.pvars.clone();
                let nb = binds.len();
                let a = self.pat(g, binds, d - 1);
                let left: Vec<(String, G)> = binds.split_off(nb);
                let after = std::mem::replace(&mut self.pvars, before);
                let mut rb = vec![];
                let reuse = self.r.chance(2, 3);
                let mut b = self.pat_and(g, &mut rb, d - 1);
                if reuse { for ((l, _), (r, _)) in left.iter().zip(rb.iter_mut()) { if !rb_has(&b, l) { rename(&mut b, r, l); *r = l.clone(); } } }
                let mut all = after; for (n, _) in &rb { if !all.contains(n) { all.push(n.clone()) } }
                self.pvars = all;
                for (n, g) in left.iter().chain(rb.iter()) { if !binds.iter().any(|b| &b.0 == n) { let both = left.iter().find(|p| &p.0 == n).zip(rb.iter().find(|p| &p.0 == n)); binds.push((n.clone(), match both { Some((a, b)) if a.1 == b.1 => g.clone(), Some(_) => G::Any, None => opt(g.clone()) })) } }
                P::Or(Box::new(a), Box::new(b))
            }
            _ => self.pat_shape(g, binds, d),
        }
    }
    fn vary_t(&mut self, t: T) -> T { match self.r.below(8) { 0 => T::Any, 1 if !t.unit_ok() => t.opt(), 2 => T::Any.list(), _ => t } }
    fn pat_primary(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P { loop { let nb = binds.len(); let pv = self.pvars.clone(); let p = self.pat(g, binds, d); if !matches!(p, P::And(..) | P::Or(..)) { return p; } binds.truncate(nb); self.pvars = pv; } }
    fn pat_and(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P { loop { let nb = binds.len(); let pv = self.pvars.clone(); let p = self.pat(g, binds, d); if !matches!(p, P::Or(..)) { return p; } binds.truncate(nb); self.pvars = pv; } }
    fn pat_shape(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P {
        match g {
            // a comparison with something that fails
            G::Bool | G::Int | G::Str if self.p.fault > 0 && self.r.chance(self.p.fault, 250) => P::Eq(self.fault(1)),
            G::Bool | G::Int => P::Eq(self.lit_eq(g)),
            G::Str => if self.r.chance(1, 3) { P::Eq(self.lit_eq(g)) } else { self.pat_tmpl(binds) },
            G::Unit => P::None,
            G::Opt(x) => if self.r.chance(1, 3) { P::None } else { self.pat(x, binds, d) },
            G::Tup(gs) => {
                let n = gs.len();
                let spread = self.r.chance(1, 2);
                let a = if spread { self.r.below(n + 1) } else { n };
                let bn = if spread { self.r.below(n - a + 1) } else { 0 };
                let pre = gs[..a].iter().map(|g| self.pat(g, binds, d - 1)).collect();
                let sp = if spread { let mid = G::Tup(gs[a..n - bn].to_vec()); Some(Box::new(self.spread_pat(&mid, binds, d))) } else { None };
                let post = gs[n - bn..].iter().map(|g| self.pat(g, binds, d - 1)).collect();
                P::Seq { list: true, pre, spread: sp, post }
            }
            G::List(x) => {
                let spread = self.r.chance(2, 3);
                let (a, bn) = (self.r.below(3), if spread { self.r.below(3) } else { 0 });
                let pre = (0..a).map(|_| self.pat(x, binds, d - 1)).collect();
                let sp = if spread { Some(Box::new(self.spread_pat(g, binds, d))) } else { None };
                let post = (0..bn).map(|_| self.pat(x, binds, d - 1)).collect();
                P::Seq { list: true, pre, spread: sp, post }
            }
            G::Dict(fs) => {
                let mut attrs = vec![];
                let spread = self.r.chance(1, 2);
                for (k, g) in fs { if !spread || self.r.chance(2, 3) { let p = self.pat(g, binds, d - 1); attrs.push((k.clone(), p)) } }
                if self.r.chance(1, 3) { self.r.shuffle(&mut attrs) }
                let sp = if spread { let rest = G::Dict(vec![]); Some(Box::new(self.spread_pat(&rest, binds, d))) } else { None };
                P::Dict(attrs, sp)
            }
            G::Inline | G::Block | G::Html => {
                if self.r.chance(2, 3) { self.pat_tag(g, binds, d) } else { self.pat_html(binds, d) }
            }
            G::Any => { let g = self.simple_g(1); self.pat(&g, binds, d - 1) }
            _ => P::Typed(t_of(g)),
        }
    }
    fn spread_pat(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P { match self.r.below(8) { 0 | 1 => P::Ignore, 6 => { let t = self.r.pick(&[T::Any, T::Any.dict(), T::Any.list(), T::Int.dict(), T::Str.list(), T::Str, T::Html]).clone(); P::Typed(t) } 5 if d > 1 => { let p = self.pat_primary(g, binds, d - 1); if matches!(p, P::Tmpl(_)) { P::Ignore } else { p } } _ => self.pvar(g, binds) } }
    fn html_child(&mut self, binds: &mut Vec<(String, G)>, d: i32) -> P {
        match self.r.below(6) { 0 => P::Ignore, 1 if d > 0 => self.pat_tag(&G::Html, binds, d - 1), 2 => P::And(Box::new(P::Typed(T::Str)), Box::new(self.pvar(&G::Str, binds))), 3 => P::Typed(self.r.pick(&[T::Str, T::Inline, T::Block, T::Html]).clone()), _ => self.pvar(&G::Html, binds) }
    }
    fn pat_html(&mut self, binds: &mut Vec<(String, G)>, d: i32) -> P {
        let spread = self.r.chance(2, 3);
        let (a, b) = (self.r.below(3), if spread { self.r.below(2) } else { 0 });
        let pre: Vec<P> = (0..a).map(|_| self.html_child(binds, d - 1)).collect();
        let sp = if spread { Some(Box::new(if self.r.chance(1, 3) { P::Ignore } else { self.pvar(&G::Html, binds) })) } else { None };
        let post = (0..b).map(|_| self.html_child(binds, d - 1)).collect();
        if pre.is_empty() && sp.is_none() { return P::None; }
        P::Seq { list: false, pre, spread: sp, post }
    }
    fn pat_tag(&mut self, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P {
        let name = match self.r.below(5) { 0 => PName::Any, 1 | 2 => { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str)); PName::Var(v, pos()) } _ => PName::Lit(if *g == G::Inline { self.r.pick(INL).to_string() } else { self.r.pick(BLK).to_string() }) };
        let mut attrs: Vec<(String, P)> = vec![];
        if self.r.chance(1, 3) { let k = self.r.pick(ATTRS).to_string(); let p = match self.r.below(4) { 0 => P::None, 1 => P::Ignore, 2 => P::Eq(s("a")), _ => self.pvar(&G::Opt(Box::new(G::Str)), binds) }; attrs.push((k, p)) }
        let spread = if self.r.chance(3, 4) { Some(Box::new(if self.r.chance(1, 2) { P::Ignore } else { self.pvar(&G::Dict(vec![]), binds) })) } else { None };
        let content = match self.r.below(6) { 0 => P::Ignore, 1 => P::None, 2 if d > 0 => self.pat_html(binds, d - 1), 3 if d > 0 => self.pat_tag(&G::Html, binds, d - 1), _ => self.pvar(&G::Html, binds) };
        let content = if matches!(&name, PName::Lit(n) if crate::value::is_void(n)) { P::None } else { content };
        P::Tag { name, attrs, spread, content: Box::new(content) }
    }
    fn pat_tmpl(&mut self, binds: &mut Vec<(String, G)>) -> P {
        let n = self.r.below(4) + 1;
        let mut parts: Vec<PTPart> = vec![];
        for _ in 0..n {
            match self.r.below(5) {
                0 => if !parts.is_empty() && !matches!(parts.last(), Some(PTPart::Ws)) { parts.push(PTPart::Ws) },
                1 | 2 => if !matches!(parts.last(), Some(PTPart::Lit(_))) { let t = self.r.pick(&["a", "b", ",", "x", "é", "<b>", ".", "(", "*", "\\", "^"]).to_string(); parts.push(PTPart::Lit(t)) },
                _ => { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str)); parts.push(PTPart::Var(v, pos())) }
            }
        }
        while matches!(parts.last(), Some(PTPart::Ws)) { parts.pop(); }
        if parts.is_empty() { return P::Ignore; }
        if let [PTPart::Lit(t)] = &parts[..] { return P::Eq(s(t)); }
        P::Tmpl(parts)
    }
    /// A pattern shaped after the expression that builds the value.
    fn pat_lit(&mut self, x: &E, g: &G, binds: &mut Vec<(String, G)>, d: i32) -> P {
        if d <= 0 || self.r.chance(1, 5) { return if self.r.chance(1, 3) { P::Ignore } else { self.pvar(&G::Any, binds) }; }
        match &x.k {
            EK::Bool(_) | EK::Int(_) => P::Eq(e(x.k.clone())),
            EK::Str(t) => if t.is_empty() || self.r.chance(1, 2) { P::Eq(s(t)) } else {
                // cut the text somewhere and bind the rest
                let cs: Vec<char> = t.chars().collect();
                if cs.iter().any(|c| c.is_whitespace()) {
                    // one run of white space stands for any other
                    if !cs.first().unwrap().is_whitespace() && !cs.last().unwrap().is_whitespace() && self.r.chance(1, 2) {
                        let mut parts: Vec<PTPart> = vec![];
                        for w in cs.split(|c| c.is_whitespace()).filter(|w| !w.is_empty()) {
                            if !parts.is_empty() { parts.push(PTPart::Ws) }
                            if self.r.chance(1, 3) && !matches!(parts.last(), Some(PTPart::Var(..))) { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str)); parts.push(PTPart::Var(v, pos())) } else { parts.push(PTPart::Lit(w.iter().collect())) }
                        }
                        return P::Tmpl(parts);
                    }
                    return P::Eq(s(t));
                }
                let i = self.r.below(cs.len()); let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
                let mut parts = vec![]; if !a.is_empty() { parts.push(PTPart::Lit(a)) }
                let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str));
                if self.r.chance(1, 2) && b.chars().count() > 1 { let l: String = b.chars().skip(1).collect(); parts.push(PTPart::Var(v, pos())); parts.push(PTPart::Lit(l)) } else { parts.push(PTPart::Var(v, pos())) }
                P::Tmpl(parts)
            },
            EK::List(xs) if xs.iter().all(|x| !x.1) => {
                let n = xs.len();
                let spread = self.r.chance(1, 2);
                let a = if spread { self.r.below(n + 1) } else { n };
                let bn = if spread { self.r.below(n - a + 1) } else { 0 };
                let pre = xs[..a].iter().map(|x| self.pat_lit(&x.0, &G::Any, binds, d - 1)).collect();
                let sp = if spread { Some(Box::new(self.spread_pat(&G::List(Box::new(G::Any)), binds, 0))) } else { None };
                let post = xs[n - bn..].iter().map(|x| self.pat_lit(&x.0, &G::Any, binds, d - 1)).collect();
                P::Seq { list: true, pre, spread: sp, post }
            }
            EK::Call(c) if c.f.base == "dict" => {
                let spread = self.r.chance(1, 2);
                let mut attrs = vec![];
                for a in &c.args { if let ArgK::Named(n) = &a.kind { if !spread || self.r.chance(1, 2) { let p = self.pat_lit(&a.value, &G::Any, binds, d - 1); attrs.push((n.clone(), p)) } } }
                let sp = if spread { Some(Box::new(self.spread_pat(&G::Dict(vec![]), binds, 0))) } else { None };
                P::Dict(attrs, sp)
            }
            EK::Tag(t) => {
                let name = match &t.name { TName::Lit(n) if self.r.chance(2, 3) => PName::Lit(n.clone()), _ => { let v = self.maybe_again(); self.pvars.push(v.clone()); binds.push((v.clone(), G::Str)); PName::Var(v, pos()) } };
                let spread = self.r.chance(1, 2) || t.attrs.iter().any(|a| !matches!(&a.k, AttrK::Val(_, false, _) | AttrK::Bare(_)));
                let mut attrs = vec![];
                for a in &t.attrs { match &a.k { AttrK::Val(n, false, v) if !spread || self.r.chance(1, 2) => { let p = if self.r.chance(1, 2) { self.pvar(&G::Opt(Box::new(G::Str)), binds) } else if matches!(v.k, EK::Str(_)) { P::Eq(e(v.k.clone())) } else { P::Ignore }; attrs.push((n.clone(), p)) } AttrK::Bare(n) if !spread || self.r.chance(1, 2) => attrs.push((n.clone(), P::None)), _ => {} } }
                let sp = if spread { Some(Box::new(self.spread_pat(&G::Dict(vec![]), binds, 0))) } else { None };
                let content = if t.children.is_empty() { P::None } else if self.r.chance(1, 2) { self.pat_html(binds, 1) } else { self.pvar(&G::Html, binds) };
                let content = if matches!(&name, PName::Lit(n) if crate::value::is_void(n)) { P::None } else { content };
                P::Tag { name, attrs, spread: sp, content: Box::new(content) }
            }
            EK::Unit => P::None,
            _ => self.pat(g, binds, d - 1),
        }
    }

    // ---- markup ----
    fn attrs(&mut self, d: i32) -> Vec<AttrE> {
        let mut out: Vec<AttrE> = vec![];
        let mut used: Vec<&str> = vec![];
        for _ in 0..self.r.weighted(&[5, 3, 2, 1]) {
            let n = *self.r.pick(ATTRS);
            if used.contains(&n) { continue; }
            used.push(n);
            let k = match self.r.below(8) {
                0 => AttrK::Bare(n.into()),
                1 | 2 => AttrK::Val(n.into(), true, self.val(&G::Opt(Box::new(G::Str)), d - 1)),
                3 => { used.push("k1"); if used.iter().filter(|x| **x == "k1").count() > 1 { continue; } let f = vec![("k1".to_string(), G::Opt(Box::new(G::Str))), ("k2".to_string(), G::Str)]; AttrK::Spread(self.val(&G::Dict(f), d - 1)) }
                _ => AttrK::Val(n.into(), false, self.val(&G::Str, d - 1)),
            };
            out.push(AttrE { k, at: pos() });
        }
        out
    }
    pub fn tag_e(&mut self, n: &str, d: i32) -> E {
        self.budget -= 1;
        let attrs = self.attrs(d);
        let kids = if d < 0 || self.budget < -40 { vec![] } else { match n {
            "ul" | "ol" | "menu" => self.kids(&["li"], d), "table" => self.kids(&["tr", "tr", "caption", "tbody"], d), "tbody" | "thead" => self.kids(&["tr"], d), "tr" => self.kids(&["td", "th"], d), "dl" => self.kids(&["dt", "dd"], d), "hgroup" => self.kids(&["h1", "p"], d),
            "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => self.items(Ctx::NoBr, d - 1, 0),
            "div" | "li" | "blockquote" | "section" | "article" | "aside" | "header" | "footer" | "main" | "nav" | "figure" | "details" | "form" | "body" => self.items(Ctx::Block, d - 1, 0),
            n if crate::value::is_void(n) => vec![],
            _ => self.items(Ctx::Inline, d - 1, 0),
        } };
        let nm = if self.r.chance(1, 14) { TName::Lit(n.to_string()) } else { TName::Lit(n.to_string()) };
        let self_close = kids.is_empty() && !crate::value::is_void(n) && self.r.chance(1, 4);
        let t = TagE { name: nm, attrs, children: kids, self_close };
        if self.r.chance(1, 20) && !crate::value::is_void(n) { let mut t = t; t.name = TName::Var(name("tn")); return let1("tn", s(&if self.r.chance(1, 3) { n.to_uppercase() } else { n.to_string() }), e(EK::Tag(Box::new(t)))); }
        e(EK::Tag(Box::new(t)))
    }
    fn kids(&mut self, names: &[&'static str], d: i32) -> Vec<Item> {
        let mut out: Vec<Item> = vec![];
        for _ in 0..self.r.below(4) {
            let n = *self.r.pick(names);
            if !out.is_empty() && self.r.chance(1, 2) { out.push(if self.r.chance(1, 4) { Item::Para(pos()) } else { Item::Ws }) }
            if self.r.chance(1, 6) { let mut it = self.items(Ctx::Inline, d - 2, 1); it.retain(|i| !matches!(i, Item::Fn(_))); while matches!(it.last(), Some(Item::Ws | Item::Para(_))) { it.pop(); } clean(&mut it); out.extend(it); clean(&mut out); } else { let x = self.tag_e(n, d - 2); out.push(Item::Expr(x)) }
        }
        clean(&mut out);
        out
    }
    /// Turns an expression into something that may stand among text.
    pub fn as_item(&mut self, x: E) -> Item {
        Item::Expr(match &x.k {
            EK::List(_) | EK::Name(_) | EK::Call(_) | EK::Let { .. } | EK::Match { .. } | EK::Tag(_) => x,
            EK::Group(i) if !i.is_empty() => x,
            EK::Unit => let1("u", x, var("u")),
            EK::Str(_) | EK::Bare(_) | EK::Tmpl(_) | EK::Bool(_) | EK::Int(_) => if self.r.chance(1, 2) { let1("u", x, var("u")) } else { call(native_name("inline::from"), vec![], x) },
            _ => let1("u", x, var("u")),
        })
    }
    pub fn items(&mut self, ctx: Ctx, d: i32, min: usize) -> Vec<Item> {
        let n = self.r.below(4).max(min);
        let mut out: Vec<Item> = vec![];
        for _ in 0..n {
            self.budget -= 1;
            if self.budget < -60 && out.len() >= min { break; }
            if !out.is_empty() && self.r.chance(2, 3) { out.push(if ctx != Ctx::NoBr && self.r.chance(1, 4) { Item::Para(pos()) } else { Item::Ws }) }
            let k = self.r.weighted(&[5, if d > 0 { 3 } else { 1 }, if d > 0 { 3 } else { 0 }, if d > 1 { 1 } else { 0 }, if ctx == Ctx::Block && d > 0 { 4 } else { 0 }]);
            match k {
                0 => { let w = *self.r.pick(WORDS); out.push(txt(w)) }
                1 => { let t = *self.r.pick(INL); let x = self.tag_e(t, d - 1); out.push(Item::Expr(x)) }
                2 => { let g = self.r.pick(&[G::Inline, G::Str, G::Int, G::Opt(Box::new(G::Str)), G::Bool]).clone(); let x = self.val(&g, d - 1); let it = self.as_item(x); out.push(it) }
                3 => out.push(self.fn_item(d - 1)),
                _ => { let x = self.val(&G::Block, d - 1); let it = self.as_item(x); out.push(it) }
            }
        }
        clean(&mut out);
        out
    }
    pub fn fn_item(&mut self, d: i32) -> Item {
        let g = self.any_g(1);
        let fs = self.fs_random(&g, d);
        let n = { let tk: Vec<String> = fs.named.iter().map(|n| n.0.clone()).collect(); self.taken.extend(tk); let n = self.maybe_again(); self.taken.clear(); n };
        let f = self.fndef(Some(n.clone()), &fs, d);
        self.declare(&n, G::Func(fs));
        Item::Fn(Rc::new(f))
    }

    // ---- faults ----
    pub fn fault(&mut self, d: i32) -> E {
        let ops: &[(&str, u32)] = &[("undef", 3), ("undeffn", 1), ("raise", 3), ("oor", 2), ("wrong", 4), ("attr", 2), ("parse", 1), ("missing", 2), ("surplus", 2), ("unknown", 1), ("dup", 1), ("nomatch", 2), ("missingkey", 1), ("badtag", 1), ("infunc", 3), ("dupattr", 1), ("break", 1), ("warn", 2), ("intag", 2)];
        match self.choose(ops) {
            "undef" => var("undefd"),
            "undeffn" => call(name("undefd"), vec![], unit_e()),
            "raise" => { let t = self.str(); call(name("raise"), vec![], s(&t)) }
            "oor" => let1("o", list(vec![int(1)]), e(EK::Name(Name { base: "o".into(), path: vec![(self.r.chance(1, 3), Sel::Idx(*self.r.pick(&[1, 5, -2])))], at: pos() }))),
            "wrong" => { let g = self.any_g(2); self.leaf(&g, d.min(2)) }
            "attr" => let1("o", int(3), e(EK::Name(Name { base: "o".into(), path: vec![(self.r.chance(1, 3), Sel::Attr("nope".into()))], at: pos() }))),
            "parse" => call(native_name("int::parse"), vec![], s("1x")),
            "missing" => call(native_name("str::starts_with"), vec![arg(s("a"))], unit_e()),
            "surplus" => call(native_name("str::starts_with"), vec![arg(s("a")), arg(s("b")), arg(s("c"))], unit_e()),
            "unknown" => call(native_name("str::upper"), vec![narg("nope", int(1))], s("a")),
            "dup" => call(native_name("dict::new"), vec![narg("a", int(1)), Arg { kind: ArgK::NamedSpread, value: call(native_name("dict::new"), vec![narg("a", int(2))], unit_e()), at: pos() }], unit_e()),
            "nomatch" => e(EK::Match { value: Box::new(int(1)), branches: vec![(P::Eq(int(2)), int(3))] }),
            "missingkey" => call(native_name("dict::get"), vec![arg(s("zz"))], call(native_name("dict::new"), vec![narg("a", int(1))], unit_e())),
            "badtag" => let1("o", s(*self.r.pick(&["not a tag", "not a tag", "b-", "-b", "1b", "", "b ", " b", "b/", "<b>", "b:c", "a.b", "!", "!doc", "!doctype html", "b\n", "b=c", "/b", "b&amp;"])), e(EK::Tag(Box::new(TagE { name: TName::Var(name("o")), attrs: vec![], children: vec![txt("w")], self_close: false })))),
            "dupattr" => e(EK::Tag(Box::new(TagE { name: TName::Lit("b".into()), attrs: vec![AttrE { k: AttrK::Bare("a".into()), at: pos() }, AttrE { k: AttrK::Spread(call(native_name("dict::new"), vec![narg("a", s("q"))], unit_e())), at: pos() }], children: vec![], self_close: false }))),
            "break" => tag("p", vec![], vec![txt("one"), Item::Para(pos()), txt("two")]),
            "intag" => tag("span", vec![], vec![txt("one"), Item::Ws, Item::Expr(tag("div", vec![], vec![])), Item::Ws, Item::Expr(var("undefd"))]),
            "warn" => e(EK::Match { value: Box::new(list(vec![int(1), int(2)])), branches: vec![(P::Seq { list: true, pre: vec![P::Var("dupd".into(), pos()), P::Var("dupd".into(), pos())], spread: None, post: vec![] }, var("dupd"))] }),
            _ => {
                let inner = if d > 0 { self.fault(d - 1) } else { var("undefd") };
                let mut p = Params::default(); p.content = Some(Param::new("fx", T::Any));
                let nm = if self.r.chance(1, 2) { Some("failing".to_string()) } else { None };
                let f = e(EK::Fn(Rc::new(FnDef { name: nm, params: p, body: Rc::new(inner), sig_at: pos() })));
                if self.r.chance(1, 2) { let1("ff", f, call(name("ff"), vec![], int(1))) } else { call(native_name("list::map"), vec![arg(f)], list(vec![int(1), int(2)])) }
            }
        }
    }

    // ---- programs ----
    /// A value shown so that its type and structure can be told from the output.
    pub fn dump(&mut self, n: &str, g: &G) -> Vec<Item> {
        let mut kids = vec![Item::Expr(call(name("typeof"), vec![], var(n))), Item::Ws];
        if self.p.repr { kids.push(Item::Expr(call(name("repr"), vec![], var(n)))) }
        else if has_func(g) { kids.push(txt("f")) } else { kids.push(Item::Expr(var(n))) }
        vec![Item::Expr(tag("div", vec![], kids))]
    }
    pub fn stmt(&mut self) -> Vec<Item> {
        let d = self.p.depth;
        match self.r.weighted(&[8, 2, self.p.markup]) {
            0 => {
                // let with a chain of values and a dump of each
                let it = self.scoped(|s| {
                    let n = s.r.below(3) + 1;
                    let mut vars: Vec<(String, E)> = vec![];
                    for _ in 0..n { let g = match (s.p.types)(s.r) { Some(g) if s.r.chance(4, 5) => g, _ => s.any_g(2) }; let v = s.val(&g, d); let nm = s.fresh(); s.declare(&nm, g); vars.push((nm, v)); }
                    let mut kids = vec![];
                    let ds: Vec<(String, G)> = s.scope.last().unwrap().clone();
                    for (nm, g) in ds { if !vars.iter().any(|v| v.0 == nm) { continue; } kids.extend(s.dump(&nm, &g)); kids.push(Item::Ws) }
                    kids.pop();
                    if s.r.chance(1, 4) { kids.push(Item::Ws); kids.extend(s.items(Ctx::Block, d - 2, 1)); clean(&mut kids) }
                    e(EK::Let { implicit: s.r.chance(1, 12), vars, child: Box::new(group(kids)) })
                });
                vec![Item::Expr(it)]
            }
            1 => vec![self.fn_item(d)],
            _ => self.items(Ctx::Block, d, 1),
        }
    }
    pub fn program(&mut self) -> Vec<Item> {
        let mut out = vec![];
        if self.p.repr { out.push(Item::Fn(repr_fn())); out.push(Item::Ws); }
        let n = self.r.range(self.p.stmts.0, self.p.stmts.1);
        for _ in 0..n {
            self.budget = self.p.budget / n.max(1) as i32 + 8;
            out.extend(self.stmt());
            out.push(if self.r.chance(1, 2) { Item::Para(pos()) } else { Item::Ws });
        }
        clean(&mut out);
        out
    }
}
fn s_(t: &str) -> E { s(t) }
trait Pipe: Sized { fn pipe<X>(self, f: impl FnOnce(Self) -> X) -> X { f(self) } }
impl Pipe for E {}
fn let_bound(_: E) -> E { call(native_name("list::join"), vec![], list(vec![])) }
fn rb_has(p: &P, n: &str) -> bool { let mut v = vec![]; crate::interp::pat_vars(p, &mut v); v.iter().any(|x| x == n) }
fn rename(p: &mut P, from: &str, to: &str) {
    let f = |n: &mut String| if n == from { *n = to.to_string() };
    match p {
        P::Var(n, _) | P::TypeOf(n, _) => f(n),
        P::And(a, b) | P::Or(a, b) => { rename(a, from, to); rename(b, from, to) }
        P::Seq { pre, spread, post, .. } => { for p in pre.iter_mut().chain(post.iter_mut()) { rename(p, from, to) } if let Some(p) = spread { rename(p, from, to) } }
        P::Dict(ps, sp) => { for p in ps.iter_mut() { rename(&mut p.1, from, to) } if let Some(p) = sp { rename(p, from, to) } }
        P::Tag { name, attrs, spread, content } => { if let PName::Var(n, _) = name { f(n) } for p in attrs.iter_mut() { rename(&mut p.1, from, to) } if let Some(p) = spread { rename(p, from, to) } rename(content, from, to) }
        P::Tmpl(ps) => for p in ps { if let PTPart::Var(n, _) = p { f(n) } },
        _ => {}
    }
}
/// Whitespace never starts or ends a sequence and never stands twice in a row.
pub fn clean(v: &mut Vec<Item>) {
    let old = std::mem::take(v);
    for it in old {
        let ws = matches!(it, Item::Ws | Item::Para(_));
        if ws && (v.is_empty() || matches!(v.last(), Some(Item::Ws | Item::Para(_)))) { continue; }
        v.push(it);
    }
    while matches!(v.last(), Some(Item::Ws | Item::Para(_))) { v.pop(); }
}
/// `@fn repr`: shows any value unambiguously.
pub fn repr_fn() -> Rc<FnDef> {
    let v = |n: &str, t: T| P::And(Box::new(P::Typed(t)), Box::new(P::Var(n.into(), pos())));
    let kind = |k: &str, items: Vec<Item>| { let mut c = vec![txt(k)]; c.extend(items); tag("code", vec![], c) };
    let mut p = Params::default(); p.content = Some(Param::new("rv", T::Any));
    let joined = |x: E| Item::Expr(call(native_name("list::join"), vec![], call(native_name("list::map"), vec![arg(var("repr"))], x)));
    let body = e(EK::Match { value: Box::new(var("rv")), branches: vec![
        (P::None, kind("N", vec![])),
        (v("rs", T::Str), kind("S", vec![Item::Expr(tag("i", vec![], vec![Item::Expr(var("rs"))]))])),
        (v("ri", T::Int), kind("I", vec![Item::Expr(var("ri"))])),
        (v("rb", T::Bool), kind("B", vec![Item::Expr(var("rb"))])),
        (v("rl", T::Any.list()), kind("L", vec![joined(var("rl"))])),
        (v("rd", T::Any.dict()), kind("D", vec![joined(call(native_name("dict::items"), vec![], var("rd")))])),
        (v("rf", T::Function), kind("F", vec![Item::Expr(call(native_name("function::name"), vec![], var("rf")))])),
        (v("rr", T::Regex), kind("R", vec![Item::Expr(var("rr"))])),
        (v("rh", T::Inline), kind("H", vec![Item::Expr(tag("i", vec![], vec![Item::Expr(var("rh"))]))])),
        (v("rh", T::Html), kind("K", vec![Item::Expr(call(native_name("html::escape_html"), vec![], var("rh")))])),
    ] });
    Rc::new(FnDef { name: Some("repr".into()), params: p, body: Rc::new(body), sig_at: pos() })
}
