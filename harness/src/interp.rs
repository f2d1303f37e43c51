//! Reference interpreter: evaluates program trees to the HTML they denote and
//! the list of diagnostics they produce. It shares no code with the compiler.
use std::cell::RefCell;
use std::rc::Rc;
use crate::ast::*;
use crate::rx::{self, Re, Rx};
use crate::value::*;

pub struct Frame { pub parent: Option<Rc<Frame>>, pub vars: RefCell<Vec<(String, V)>>, pub implicit: RefCell<Vec<String>> }
impl Frame {
    fn new(parent: Option<Rc<Frame>>, vars: Vec<(String, V)>) -> Rc<Frame> { Rc::new(Frame { parent, vars: RefCell::new(vars), implicit: RefCell::new(vec![]) }) }
    fn own(&self, n: &str) -> Option<V> { self.vars.borrow().iter().find(|p| p.0 == n).map(|p| p.1.clone()) }
    fn get(&self, n: &str) -> Option<V> { self.own(n).or_else(|| self.parent.as_ref()?.get(n)) }
    fn get_implicit(&self, n: &str) -> Option<V> {
        if self.implicit.borrow().iter().any(|x| x == n) { if let Some(v) = self.own(n) { return Some(v); } }
        self.parent.as_ref()?.get_implicit(n)
    }
    fn set(&self, n: &str, v: V) -> bool {
        let mut vs = self.vars.borrow_mut();
        match vs.iter_mut().find(|p| p.0 == n) { Some(p) => { p.1 = v; true } None => { vs.push((n.to_string(), v)); false } }
    }
    fn unset(&self, n: &str) { self.vars.borrow_mut().retain(|p| p.0 != n); self.implicit.borrow_mut().retain(|x| x != n) }
}
type At = (u32, u32);
#[derive(Debug, Clone, PartialEq)]
pub struct Diag { pub at: At, pub cat: &'static str, pub trace: Option<Vec<(At, String)>> }
pub enum Er { Done, E(&'static str), Stop }
type R<X> = Result<X, Er>;
const TYPE: Er = Er::E("Type error");
const NAME: Er = Er::E("Name error");
const RUN: Er = Er::E("Runtime error");
const WARN: &str = "Warning";

struct Act { f: Rc<Frame>, call: Option<(String, At)> }
/// Files a program may load. Line numbers of the `k`th file start at `k * FILE`.
#[derive(Default)]
pub struct World { pub root: String, pub files: std::collections::BTreeMap<String, WFile>, pub dirs: std::collections::BTreeSet<String>, pub links: std::collections::BTreeMap<String, String>, pub order: Vec<String> }
pub enum WFile { Module(Rc<Vec<Item>>, String), Raw(String), Bad }
pub const FILE: u32 = 1_000_000;
impl World {
    /// The file or directory which a path denotes, as the operating system finds it.
    pub fn resolve(&self, from_dir: &str, path: &str) -> Option<String> {
        let (mut cur, rel): (Vec<String>, &str) = match path.strip_prefix(self.root.as_str()) { Some(r) if path.starts_with('/') => (vec![], r), _ if path.starts_with('/') => return None, _ => (from_dir.split('/').filter(|c| !c.is_empty()).map(String::from).collect(), path) };
        let join = |v: &[String]| format!("/{}", v.join("/"));
        let parts: Vec<&str> = rel.split('/').collect();
        for (i, c) in parts.iter().enumerate() {
            if !self.dirs.contains(&join(&cur)) { return None; }
            match *c {
                "" if i + 1 == parts.len() || i == 0 => {}
                "" | "." => {}
                ".." => { cur.pop()?; }
                c => {
                    cur.push(c.to_string());
                    if let Some(t) = self.links.get(&join(&cur)) { cur = t.split('/').filter(|c| !c.is_empty()).map(String::from).collect() }
                }
            }
        }
        let p = join(&cur);
        (self.files.contains_key(&p) || self.dirs.contains(&p)).then_some(p)
    }
    pub fn dir_of(p: &str) -> &str { &p[..p.rfind('/').unwrap_or(0)] }
}
enum Loaded { Busy, Failed, Ok(H, V) }

pub struct Interp { pub diags: Vec<Diag>, pub world: Option<Rc<World>>, loaded: std::collections::HashMap<String, Loaded>, stdf: Option<Rc<Frame>>, pub outs: Option<Vec<(String, H)>>, ids: std::collections::BTreeSet<String>, pub loads: Vec<(String, &'static str)>, stack: Vec<Act>, pub fuel: u64, pub stop: Option<String>, pub exports: Vec<(String, V)>, natives: Rc<Frame>, pub max_depth: usize, pub depth: usize, pub size: usize,
    /// counts of evaluated constructs, for coverage evidence
    pub seen: std::collections::BTreeMap<&'static str, u64> }

fn coerce(v: V, t: &T) -> R<V> { t.coerce(v).ok_or(TYPE) }
fn as_str(v: &V) -> Rc<str> { match v { V::Str(s) => s.clone(), _ => panic!("model: not a str") } }
fn as_int(v: &V) -> i64 { match v { V::Int(i) => *i, _ => panic!("model: not an int") } }
fn as_bool(v: &V) -> bool { match v { V::Bool(b) => *b, _ => panic!("model: not a bool") } }
fn as_list(v: &V) -> Rc<Vec<V>> { match v { V::List(l) => l.clone(), _ => panic!("model: not a list") } }
fn as_dict(v: &V) -> Rc<Vec<(String, V)>> { match v { V::Dict(l) => l.clone(), _ => panic!("model: not a dict") } }
fn as_fun(v: &V) -> Rc<Fun> { match v { V::Func(l) => l.clone(), _ => panic!("model: not a function") } }
fn as_rx(v: &V) -> Rc<Rx> { match v { V::Regex(l) => l.clone(), _ => panic!("model: not a regex") } }
fn as_html(v: &V) -> H { v.as_html().expect("model: not html") }
/// The path below the output directory which is asked for, if it is inside.
pub fn clean_path(p: &str) -> Option<String> {
    if p.starts_with('/') { return None; }
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop()?; } c => v.push(c) } }
    if v.is_empty() { None } else { Some(v.join("/")) }
}
pub fn valid_id(s: &str) -> bool { is_ident(s) }

pub fn parse_int(s: &str) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut x: i128 = 0;
    for b in d.bytes() { x = x * 10 + (b - b'0') as i128; if x > 1 << 64 { return None; } }
    i64::try_from(if neg { -x } else { x }).ok()
}
pub fn list_get(l: &[V], i: i64) -> Option<V> {
    let n = l.len() as i128;
    let i = i as i128;
    let j = if i < 0 { i + n } else { i };
    if j < 0 || j >= n { None } else { Some(l[j as usize].clone()) }
}
pub fn captures_value(r: &Rx, cs: &[char], c: &rx::Caps) -> V {
    let g = |o: &Option<(usize, usize)>| match o { None => unit(), Some((a, b)) => vs(&cs[*a..*b].iter().collect::<String>()) };
    if r.names.len() == 1 { g(&c[0]) }
    else if r.names[1].is_none() { vl(c.iter().map(g).collect()) }
    else { vd(r.names.iter().zip(c).skip(1).map(|(n, c)| (n.clone().unwrap(), g(c))).collect()) }
}
pub fn compile_rx(s: &str) -> Option<Rx> {
    let r = Rx::new(s).ok()?;
    let n = r.names.len() - 1;
    let named = r.names.iter().skip(1).filter(|x| x.is_some()).count();
    if named != 0 && named != n { return None; }
    if r.names.iter().flatten().any(|x| !is_ident(x)) { return None; }
    Some(r)
}

// ---- built-in functions ------------------------------------------------
fn np(n: &str, t: T) -> Param { Param::new(n, t) }
struct Sig { p: Params, d: Vec<Option<V>> }
fn sg() -> Sig { Sig { p: Params::default(), d: vec![] } }
impl Sig {
    fn pos(mut self, n: &str, t: T) -> Sig { self.p.pos.push(np(n, t)); self.d.push(None); self }
    fn opt(mut self, n: &str, t: T) -> Sig { self.p.pos.push(np(n, t)); self.d.push(Some(unit())); self }
    fn named(mut self, n: &str, t: T, d: V) -> Sig { self.p.named.push(np(n, t)); self.d.push(Some(d)); self }
    fn spread(mut self, t: T) -> Sig { self.p.spread = Some(np("#spread", t)); self }
    fn kw(mut self, t: T) -> Sig { self.p.named_spread = Some(np("#kw", t)); self }
    fn c(mut self, t: T) -> Sig { self.p.content = Some(np("#content", t)); self }
}
fn native(name: &'static str, id: &'static str, s: Sig) -> (String, V) {
    (name.to_string(), V::Func(Rc::new(Fun::Native { name, id, params: s.p, defaults: s.d })))
}
fn natives() -> Vec<(String, V)> {
    use T::*;
    let any_list = || Any.list();
    let d = |n: &str, v: Vec<(String, V)>| (n.to_string(), vd(v));
    let mut code = sg().named("code_block", Bool, V::Bool(false)).named("first_line_no", Int, V::Int(1)).c(Str);
    let mut lp = np("language", Str.opt()); lp.implicit = true;
    code.p.named.insert(0, lp); code.d.insert(0, Some(unit()));
    vec![
        d("bool", vec![native("and", "bool::and", sg().pos("a", Bool).pos("b", Bool)), native("from", "bool::from", sg().c(Any)), native("or", "bool::or", sg().pos("a", Bool).pos("b", Bool)), native("negate", "bool::negate", sg().c(Bool))]),
        d("int", vec![native("add", "int::add", sg().spread(Int.list())), native("negate", "int::negate", sg().c(Int)), native("parse", "int::parse", sg().c(Str))]),
        d("str", vec![native("ends_with", "str::ends_with", sg().pos("a", Str).pos("b", Str)), native("escape_html", "str::escape_html", sg().c(Str)), native("from", "str::from", sg().c(Str)), native("is_empty", "str::is_empty", sg().c(Str)), native("is_whitespace", "str::is_whitespace", sg().c(Str)),
            native("len", "str::len", sg().c(Str)), native("lower", "str::lower", sg().c(Str)), native("split", "str::split", sg().pos("a", Str).c(Str)), native("starts_with", "str::starts_with", sg().pos("a", Str).pos("b", Str)), native("trim", "str::trim", sg().c(Str)),
            native("unique_id", "str::unique_id", sg().named("max_length", Int, V::Int(128)).c(Str)), native("upper", "str::upper", sg().c(Str))]),
        d("regex", vec![native("compile", "regex::compile", sg().c(Str)), native("count", "regex::count", sg().pos("a", Regex).c(Str)), native("find", "regex::find", sg().pos("a", Regex).c(Str)), native("find_all", "regex::find_all", sg().pos("a", Regex).c(Str)), native("split", "regex::split", sg().pos("a", Regex).c(Str)), native("test", "regex::test", sg().pos("a", Regex).c(Str))]),
        d("function", vec![native("bind", "function::bind", sg().pos("a", Function).spread(any_list()).kw(Any.dict()).c(Any)), native("name", "function::name", sg().c(Function))]),
        d("html", vec![native("escape_html", "html::escape_html", sg().c(Html)), native("is_empty", "html::is_empty", sg().c(Html)), native("is_whitespace", "html::is_whitespace", sg().c(Html)), native("parse", "html::parse", sg().c(Str))]),
        d("list", vec![native("all", "list::all", sg().pos("a", Function).c(any_list())), native("any", "list::any", sg().pos("a", Function).c(any_list())), native("contains", "list::contains", sg().pos("a", Any).c(any_list())), native("enumerate", "list::enumerate", sg().named("from", Int, V::Int(0)).c(any_list())),
            native("filter", "list::filter", sg().opt("a", Function.opt()).c(any_list())), native("find", "list::find", sg().pos("a", Function).c(any_list())), native("flat", "list::flat", sg().c(any_list())), native("get", "list::get", sg().pos("a", Int).c(any_list())), native("html_nodes", "list::html_nodes", sg().c(Html)),
            native("is_empty", "list::is_empty", sg().c(any_list())), native("join", "list::join", sg().opt("a", Html).c(Html.list())), native("len", "list::len", sg().c(any_list())), native("map", "list::map", sg().pos("a", Function).c(any_list())), native("slice", "list::slice", sg().pos("a", Int).opt("b", Int.opt()).c(any_list())),
            native("sorted", "list::sorted", sg().named("key", Function.opt(), unit()).named("reversed", Bool, V::Bool(false)).c(any_list())), native("reversed", "list::reversed", sg().c(any_list()))]),
        d("dict", vec![native("get", "dict::get", sg().pos("a", Str).c(Any.dict())), native("is_empty", "dict::is_empty", sg().c(Any.dict())), native("items", "dict::items", sg().c(Any.dict())), native("keys", "dict::keys", sg().c(Any.dict())), native("len", "dict::len", sg().c(Any.dict())), native("new", "dict::new", sg().kw(Any.dict())), native("values", "dict::values", sg().c(Any.dict()))]),
        d("file", vec![native("list", "file::list", sg().c(Str)), native("read", "file::read", sg().c(Str)), native("write", "file::write", sg().pos("a", Str).c(Html))]),
        d("net", vec![native("fetch_raw", "net::fetch_raw", sg().c(Str)), native("fetch_html", "net::fetch_html", sg().c(Str))]),
        native("code", "code", code), native("import", "import", sg().c(Str)), native("include", "include", sg().c(Str)), native("raise", "raise", sg().c(Str)),
    ]
}
fn method(v: &V, attr: &str) -> Option<(&'static str, bool)> {
    // (group, binds positionally)
    let pos = |xs: &[&str]| xs.contains(&attr);
    Some(match v {
        V::Bool(_) => if pos(&["and", "or"]) { ("bool", true) } else if attr == "negate" { ("bool", false) } else { return None },
        V::Int(_) => if attr == "add" { ("int", true) } else if attr == "negate" { ("int", false) } else { return None },
        V::Str(_) => if pos(&["ends_with", "starts_with"]) { ("str", true) } else if pos(&["escape_html", "is_empty", "is_whitespace", "len", "lower", "split", "trim", "unique_id", "upper"]) { ("str", false) } else { return None },
        V::Regex(_) => if pos(&["count", "find", "find_all", "split", "test"]) { ("regex", true) } else { return None },
        V::Func(_) => if attr == "bind" { ("function", true) } else if attr == "name" { ("function", false) } else { return None },
        V::Html(_) => if pos(&["escape_html", "is_empty", "is_whitespace"]) { ("html", false) } else { return None },
        V::List(_) => if pos(&["all", "any", "contains", "enumerate", "filter", "find", "flat", "get", "is_empty", "join", "len", "map", "slice", "sorted"]) { ("list", false) } else { return None },
        V::Dict(_) => return None,
    })
}

// ---- standard library --------------------------------------------------
fn fnd(name: &str, params: Params, body: E) -> Rc<FnDef> { Rc::new(FnDef { name: Some(name.to_string()), params, body: Rc::new(body), sig_at: pos() }) }
fn content(t: T) -> Params { Params { content: Some(np("v", t)), ..Params::default() } }
fn cp(n: &str, t: T) -> Params { Params { content: Some(np(n, t)), ..Params::default() } }
fn opt_p(n: &str, t: T) -> Param { let mut p = np(n, t); p.question = true; p }
fn av(n: &str, v: E) -> AttrE { AttrE { k: AttrK::Val(n.into(), false, v), at: pos() } }
fn avq(n: &str, v: E) -> AttrE { AttrE { k: AttrK::Val(n.into(), true, v), at: pos() } }
fn asp(v: E) -> AttrE { AttrE { k: AttrK::Spread(v), at: pos() } }
fn x(v: E) -> Item { Item::Expr(v) }
fn pv(n: &str) -> P { P::Var(n.into(), pos()) }
fn tagv(n: &str, attrs: Vec<AttrE>, children: Vec<Item>) -> E { e(EK::Tag(Box::new(TagE { name: TName::Var(name(n)), attrs, children, self_close: false }))) }
fn tmpl(ps: Vec<TPart>) -> E { e(EK::Tmpl(ps)) }
fn l(t: &str) -> TPart { TPart::Lit(t.into()) }
fn tv(n: &str) -> TPart { TPart::Var(name(n)) }
fn ptag(n: PName, attrs: Vec<(&str, P)>, spread: Option<P>, c: P) -> P { P::Tag { name: n, attrs: attrs.into_iter().map(|(k, p)| (k.to_string(), p)).collect(), spread: spread.map(Box::new), content: Box::new(c) } }
fn raise(parts: Vec<TPart>) -> E { call(name("raise"), vec![], tmpl(parts)) }
fn mtch(v: E, branches: Vec<(P, E)>) -> E { e(EK::Match { value: Box::new(v), branches }) }
fn stdlib_defs() -> Vec<Rc<FnDef>> {
    use T::*;
    let typ = |t: &str| P::TypeOf(t.into(), pos());
    let mut out = vec![];
    let hdr = |v: &str, t: &str| x(mtch(var(v), vec![(P::None, unit_e()), (P::Ignore, tag(t, vec![], vec![x(var(v))]))]));
    let mut web_root = np("web_root", Str); web_root.default = Some(s("https://kaya3.github.io/papyri"));
    let page_params = Params { named: vec![np("title", Str), web_root, opt_p("head", Html), opt_p("header", Html), opt_p("footer", Html)], content: Some(np("content", Block)), ..Params::default() };
    let wv = mtch(var("web_root"), vec![(P::Tmpl(vec![PTPart::Var("w".into(), pos()), PTPart::Lit("/".into())]), var("w")), (P::Ignore, var("web_root"))]);
    let body = group(vec![
        x(tag("!DOCTYPE", vec![AttrE { k: AttrK::Bare("html".into()), at: pos() }], vec![])),
        x(tag("html", vec![], vec![
            x(tag("head", vec![], vec![
                x(tag("title", vec![], vec![x(var("title"))])),
                x(tag("meta", vec![av("charset", s("utf-8"))], vec![])),
                x(tag("link", vec![av("rel", s("stylesheet")), av("type", s("text/css")), av("href", tmpl(vec![tv("w"), l("/papyri.css")]))], vec![])),
                x(var("head")),
            ])),
            x(tag("body", vec![], vec![hdr("header", "header"), x(tag("article", vec![], vec![x(var("content"))])), hdr("footer", "footer"), x(tag("script", vec![av("type", s("text/javascript")), av("src", tmpl(vec![tv("w"), l("/papyri.js")]))], vec![]))])),
        ])),
    ]);
    out.push(fnd("page", page_params, group(vec![x(e(EK::Let { implicit: false, vars: vec![("w".into(), wv)], child: Box::new(body) }))])));
    out.push(fnd("typeof", cp("v", Any), mtch(var("v"), vec![(typ("t"), var("t"))])));
    let dict_p = Params { named_spread: Some(np("d", Str.opt().dict())), content: Some(np("v", Html)), ..Params::default() };
    let want_tag = || (typ("t"), raise(vec![l("expected tag, was "), tv("t")]));
    let all = |spread: Option<P>| ptag(PName::Var("t".into(), pos()), vec![], spread, pv("v"));
    out.push(fnd("attributes", dict_p, mtch(var("v"), vec![(all(Some(pv("a"))), tagv("t", vec![asp(var("a")), asp(var("d"))], vec![x(var("v"))])), want_tag()])));
    for (fname, attr, sep) in [("class", "class", " "), ("style", "style", "")] {
        let p = if fname == "class" { "_c" } else { "_s" };
        let ps = Params { pos: vec![np(p, Str)], content: Some(np("v", Html)), ..Params::default() };
        let mut parts = vec![tv("o")]; if !sep.is_empty() { parts.push(TPart::Ws) } parts.push(tv(p));
        let with = ptag(PName::Var("t".into(), pos()), vec![(attr, pv("o"))], Some(pv("a")), pv("v"));
        out.push(fnd(fname, ps, mtch(var("v"), vec![(with, tagv("t", vec![av(attr, tmpl(parts)), asp(var("a"))], vec![x(var("v"))])), (all(Some(pv("a"))), tagv("t", vec![av(attr, var(p)), asp(var("a"))], vec![x(var("v"))])), want_tag()])));
    }
    for (f, t, ty) in [("b", "b", Inline), ("bold", "strong", Inline), ("cite", "cite", Inline), ("dfn", "dfn", Inline), ("emph", "em", Inline), ("i", "i", Inline), ("kbd", "kbd", Str), ("quote", "q", Inline), ("samp", "samp", Str), ("span", "span", Inline), ("sub", "sub", Inline), ("sup", "sup", Inline), ("strikethrough", "s", Inline), ("underline", "u", Inline),
        ("h1", "h1", Inline), ("h2", "h2", Inline), ("h3", "h3", Inline), ("h4", "h4", Inline), ("h5", "h5", Inline), ("h6", "h6", Inline)] {
        out.push(fnd(f, content(ty), tag(t, vec![], vec![x(var("v"))])));
    }
    out.push(fnd("blockquote", Params { named: vec![opt_p("cite", Str)], content: Some(np("v", Block)), ..Params::default() }, tag("blockquote", vec![avq("cite", var("cite"))], vec![x(var("v"))])));
    out.push(fnd("href", Params { pos: vec![np("_url", Str)], content: Some(np("v", Inline)), ..Params::default() }, tag("a", vec![av("href", var("_url"))], vec![x(var("v"))])));
    out.push(fnd("image", Params { named: vec![opt_p("alt", Str)], content: Some(np("url", Str)), ..Params::default() }, tag("img", vec![av("src", var("url")), avq("alt", var("alt"))], vec![])));
    let mut lang = opt_p("language", Str); lang.implicit = true;
    let mut fl = np("first_line_no", Int); fl.default = Some(int(1));
    out.push(fnd("code_block", Params { named: vec![lang, fl], content: Some(np("v", Str)), ..Params::default() }, group(vec![x(tag("pre", vec![av("class", s("panel listing"))], vec![x(call(name("code"), vec![narg("language", var("language")), narg("code_block", e(EK::Bool(true))), narg("first_line_no", var("first_line_no"))], var("v")))]))])));
    out.push(fnd("numbered", content(Html), mtch(var("v"), vec![
        (ptag(PName::Lit("ul".into()), vec![], Some(pv("d")), pv("v")), tag("ol", vec![asp(var("d"))], vec![x(var("v"))])),
        (ptag(PName::Var("t".into(), pos()), vec![], Some(P::Ignore), P::Ignore), raise(vec![l("expected <ul> tag, was <"), tv("t"), l("> tag")])),
        (typ("t"), raise(vec![l("expected <ul> tag, was "), tv("t")])),
    ])));
    out.push(fnd("footnote", content(Inline), group(vec![txt("\u{2060}"), x(tag("a", vec![av("class", s("footnote-ref"))], vec![])), x(tag("span", vec![av("class", s("footnote panel"))], vec![x(var("v"))]))])));
    out
}

impl Interp {
    pub fn new() -> Interp {
        let nf = Frame::new(None, natives());
        let mut it = Interp { diags: vec![], world: None, loaded: Default::default(), stdf: None, outs: None, ids: Default::default(), loads: vec![], stack: vec![Act { f: nf.clone(), call: None }], fuel: 40_000, stop: None, exports: vec![], natives: nf.clone(), max_depth: 120, depth: 0, size: 0, seen: Default::default() };
        let std_mod = Frame::new(Some(nf.clone()), vec![]);
        it.stack.push(Act { f: std_mod.clone(), call: None });
        let mut ex = vec![];
        for d in stdlib_defs() {
            let f = V::Func(it.fundef(&d).ok().unwrap());
            std_mod.set(d.name.as_ref().unwrap(), f.clone());
            ex.push((d.name.clone().unwrap(), f));
        }
        let ext = |it: &mut Interp, group: &str, d: Rc<FnDef>| {
            let mut v: Vec<(String, V)> = match nf.own(group) { Some(V::Dict(x)) => x.to_vec(), _ => vec![] };
            v.push((d.name.clone().unwrap(), V::Func(it.fundef(&d).ok().unwrap())));
            (group.to_string(), vd(v))
        };
        let callp = Params { pos: vec![np("_f", T::Function)], spread: Some(np("_args", T::Any.list())), named_spread: Some(np("kwargs", T::Any.dict())), content: Some(np("content", T::Any)), ..Params::default() };
        let cbody = call(name("_f"), vec![Arg { kind: ArgK::Spread, value: var("_args"), at: pos() }, Arg { kind: ArgK::NamedSpread, value: var("kwargs"), at: pos() }], var("content"));
        let g = ext(&mut it, "function", fnd("call", callp, cbody)); ex.push(g);
        let g = ext(&mut it, "html", fnd("tag_name", cp("h", T::Html), e(EK::Name(dotted("h", &["tag_name"]))))); ex.push(g);
        let g = ext(&mut it, "inline", fnd("from", content(T::Inline), var("v"))); ex.push(g);
        let g = ext(&mut it, "block", fnd("from", content(T::Block), var("v"))); ex.push(g);
        let stdf = Frame::new(Some(nf), ex);
        it.stdf = Some(stdf.clone());
        it.stack = vec![Act { f: Frame::new(Some(stdf), vec![]), call: None }];
        it
    }
    pub fn names_defined(&self) -> Vec<String> {
        let mut out = vec![];
        let mut f = Some(self.stack[0].f.clone());
        while let Some(g) = f { out.extend(g.vars.borrow().iter().map(|p| p.0.clone())); f = g.parent.clone(); }
        out
    }
    fn see(&mut self, k: &'static str) { *self.seen.entry(k).or_insert(0) += 1 }
    fn frame(&self) -> Rc<Frame> { self.stack.last().unwrap().f.clone() }
    fn stopped<X>(&mut self, why: &str) -> R<X> { self.stop.get_or_insert(why.to_string()); Err(Er::Stop) }
    fn report(&mut self, er: Er, at: At) -> Er {
        if let Er::E(cat) = er {
            let trace = self.stack.iter().filter_map(|a| a.call.as_ref()).map(|(n, p)| (*p, n.clone())).collect();
            self.diags.push(Diag { at, cat, trace: Some(trace) });
            Er::Done
        } else { er }
    }
    fn warn(&mut self, at: At) { self.diags.push(Diag { at, cat: WARN, trace: None }) }
    fn set_var(&mut self, n: &str, v: V, implicit: bool, at: At) {
        let f = self.frame();
        if implicit { f.implicit.borrow_mut().push(n.to_string()) }
        if f.set(n, v) { self.warn(at) }
    }
    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 { return self.stopped("fuel"); }
        self.fuel -= 1;
        Ok(())
    }
    fn sized(&mut self, n: usize) -> R<()> { self.size += n; if self.size > 4_000_000 { return self.stopped("size"); } Ok(()) }
    fn in_frame<X>(&mut self, f: Rc<Frame>, call: Option<(String, At)>, k: impl FnOnce(&mut Self) -> X) -> X {
        self.stack.push(Act { f, call });
        let r = k(self);
        self.stack.pop();
        r
    }
    /// Evaluates a whole document.
    pub fn document(&mut self, items: &[Item]) -> Result<H, ()> { self.seq(items, K::Block("p")).map_err(|_| ()) }

    fn seq(&mut self, items: &[Item], k: K) -> R<H> {
        let mut b = Seq::new(k);
        for it in items {
            if let Err(er) = self.item(&mut b, it) {
                if matches!(er, Er::Stop) { return Err(Er::Stop); }
                self.report(er, item_at(it));
            }
        }
        match b.finish() {
            Ok(h) => Ok(h),
            Err(_) => { let at = items.first().map_or((0, 0), item_at); self.report(TYPE, at); Ok(H::empty()) }
        }
    }
    fn item(&mut self, b: &mut Seq, it: &Item) -> R<()> {
        match it {
            Item::Text(t, _) => b.push(H::text(t)).map_err(|_| TYPE),
            Item::Ws => b.push(H::text(" ")).map_err(|_| TYPE),
            Item::Para(_) => { self.see("para"); b.para_break().map_err(|_| TYPE) }
            Item::Expr(x) => { let v = self.eval(x, &T::Html)?; b.push(as_html(&v)).map_err(|_| TYPE) }
            Item::Fn(d) => { let f = V::Func(self.fundef(d)?); self.set_var(d.name.as_ref().unwrap(), f, false, d.sig_at.get()); Ok(()) }
            Item::Export(vars) => {
                for (n, x) in vars { let v = self.eval(x, &T::Any)?; self.export(n, v, x.at.get()); }
                Ok(())
            }
            Item::ExportFn(d) => {
                let f = V::Func(self.fundef(d)?);
                let n = d.name.as_ref().unwrap();
                self.export(n, f.clone(), d.sig_at.get());
                self.set_var(n, f, false, d.sig_at.get());
                Ok(())
            }
            Item::ExportLet(vars) => self.let_in(false, vars, None, &T::Unit, true).map(|_| ()),
        }
    }
    fn export(&mut self, n: &str, v: V, at: At) {
        self.see("export");
        match self.exports.iter_mut().find(|p| p.0 == n) { Some(p) => { p.1 = v; self.warn(at) } None => self.exports.push((n.to_string(), v)) }
    }
    fn let_in(&mut self, implicit: bool, vars: &[(String, E)], child: Option<&E>, hint: &T, export: bool) -> R<V> {
        self.see(if implicit { "implicit" } else { "let" });
        let f = Frame::new(Some(self.frame()), vec![]);
        self.in_frame(f, None, |s| {
            for (n, x) in vars {
                let v = s.eval(x, &T::Any)?;
                if export { s.export(n, v.clone(), x.at.get()) }
                s.set_var(n, v, implicit, x.at.get());
            }
            match child { Some(c) => s.eval(c, hint), None => Ok(unit()) }
        })
    }
    pub fn eval(&mut self, x: &E, hint: &T) -> R<V> {
        self.tick()?;
        if self.depth > self.max_depth { return self.stopped("depth"); }
        self.depth += 1;
        let r = self.eval1(x, hint);
        self.depth -= 1;
        r
    }
    fn eval1(&mut self, x: &E, hint: &T) -> R<V> {
        let v = match &x.k {
            EK::Unit => unit(),
            EK::Bool(b) => V::Bool(*b),
            EK::Int(i) => V::Int(*i),
            EK::Str(t) | EK::Bare(t) => vs(t),
            EK::Call(c) => return self.call(c, hint),
            EK::Fn(d) => {
                let f = self.fundef(d)?;
                if hint.is_html() { return Err(self.report(TYPE, x.at.get())); }
                V::Func(f)
            }
            EK::Let { implicit, vars, child } => return self.let_in(*implicit, vars, Some(child), hint, false),
            EK::Match { value, branches } => return self.matches(value, branches, hint, x.at.get()),
            EK::Name(n) => return self.name(n, hint),
            EK::Tmpl(parts) => {
                self.see("template");
                let mut out = String::new();
                for p in parts { match p {
                    TPart::Lit(t) => out.push_str(t),
                    TPart::Ws => out.push(' '),
                    TPart::Var(n) => { let v = self.name(n, &T::Str.opt())?; if let V::Str(t) = v { self.sized(t.len())?; out.push_str(&t) } }
                } }
                vs(&out)
            }
            EK::Group(items) => { self.see("group"); let h = self.seq(items, K::Allow("p"))?; V::from_html(h) }
            EK::Tag(t) => V::from_html(self.tag(t)?),
            EK::List(xs) => {
                self.see("list literal");
                let ch = hint.comp();
                let mut out = vec![];
                for (y, spread) in xs {
                    if *spread { let v = self.eval(y, &ch.clone().list())?; out.extend(as_list(&v).iter().cloned()) }
                    else { let v = self.eval(y, &ch)?; out.push(v) }
                }
                self.sized(out.len())?;
                vl(out)
            }
        };
        coerce(v, hint).map_err(|er| self.report(er, x.at.get()))
    }
    fn tag(&mut self, t: &TagE) -> R<H> {
        self.see("tag");
        let nm = match &t.name {
            TName::Lit(n) => n.clone(),
            TName::Var(n) => {
                self.see("computed tag");
                let v = self.name(n, &T::Str)?;
                let t = as_str(&v);
                if is_ident(&t) { t.to_ascii_lowercase() } else if t.eq_ignore_ascii_case("!doctype") { "!DOCTYPE".into() } else { return Err(self.report(NAME, n.at.get())); }
            }
        };
        let mut attrs: Vec<(String, Option<String>)> = vec![];
        let mut add = |s: &mut Self, k: &str, v: Option<String>, at: At| -> R<()> {
            if attrs.iter().any(|p| p.0 == k) { return Err(s.report(RUN, at)); }
            attrs.push((k.to_string(), v));
            Ok(())
        };
        for a in &t.attrs { match &a.k {
            AttrK::Bare(n) => add(self, n, None, a.at.get())?,
            AttrK::Val(n, q, y) => {
                let ty = if *q { T::Str.opt() } else { T::Str };
                let v = self.eval(y, &ty)?;
                if let V::Str(t) = v { add(self, n, Some(t.to_string()), a.at.get())? }
            }
            AttrK::Spread(y) => {
                let v = self.eval(y, &T::Str.opt().dict())?;
                for (k, v) in as_dict(&v).iter() { add(self, k, match v { V::Str(t) => Some(t.to_string()), _ => None }, a.at.get())? }
            }
        } }
        let c = self.seq(&t.children, kind_of(&nm))?;
        Ok(H::tag_attrs(&nm, attrs, c))
    }
    fn name(&mut self, n: &Name, hint: &T) -> R<V> {
        self.tick()?;
        let v = self.path(n, n.path.len()).and_then(|v| coerce(v, hint));
        v.map_err(|er| self.report(er, n.at.get()))
    }
    fn path(&mut self, n: &Name, k: usize) -> R<V> {
        if k == 0 { return self.frame().get(&n.base).ok_or(NAME); }
        // every step is evaluated and, where it fails, reported as a name of its own
        let sub = self.path(n, k - 1);
        let step = |s: &mut Self, er: Er| s.report(er, n.at.get());
        let (co, sel) = &n.path[k - 1];
        match sel {
            Sel::Attr(a) => {
                let subject = sub.map_err(|er| step(self, er))?;
                if subject.is_unit() && *co { return Ok(unit()); }
                if let V::Dict(d) = &subject { if let Some((_, v)) = d.iter().find(|p| &p.0 == a) { return Ok(v.clone()); } }
                if let V::Html(h) = &subject { if a == "tag_name" && h.0.len() == 1 { if let N::Tag(t) = &h.0[0] { return Ok(vs(&t.name)); } } }
                let Some((group, positional)) = method(&subject, a) else { return Err(NAME) };
                self.see("method");
                let V::Dict(g) = self.natives.own(group).unwrap() else { panic!() };
                let f = as_fun(&g.iter().find(|p| &p.0 == a).unwrap().1);
                let mut b = Bind { f: f.clone(), p: f.partial() };
                if positional { b.positional(subject)? } else { b.content(subject)? }
                b.check_count()?;
                Ok(V::Func(Rc::new(Fun::Bound(f, b.p))))
            }
            Sel::Idx(i) => {
                let t = if *co { T::Any.list().opt() } else { T::Any.list() };
                let subject = sub.and_then(|v| coerce(v, &t)).map_err(|er| step(self, er))?;
                if subject.is_unit() { return Ok(unit()); }
                list_get(&as_list(&subject), *i).ok_or(RUN)
            }
        }
    }
    fn fundef(&mut self, d: &FnDef) -> R<Rc<Fun>> {
        self.see("function definition");
        let mut defaults = vec![];
        let ps = &d.params;
        let env = self.frame();
        let all = ps.pos.iter().map(|p| (p, true)).chain(ps.spread.iter().map(|p| (p, false))).chain(ps.named.iter().map(|p| (p, true))).chain(ps.named_spread.iter().map(|p| (p, false))).chain(ps.content.iter().map(|p| (p, false)));
        for (p, keep) in all {
            let v = match &p.default { None => None, Some(x) => match self.eval(x, &p.full_ty()) { Ok(v) => Some(v), Err(Er::Stop) => return Err(Er::Stop), Err(_) => None } };
            if keep { defaults.push(v.or_else(|| p.question.then(unit))) }
        }
        Ok(Rc::new(Fun::User { name: d.name.clone().unwrap_or_else(|| "<anonymous>".into()), params: d.params.clone(), body: d.body.clone(), env, defaults }))
    }
    fn call(&mut self, c: &Call, hint: &T) -> R<V> {
        self.see("call");
        let co = c.f.path.iter().any(|p| p.0);
        let fv = self.name(&c.f, &if co { T::Function.opt() } else { T::Function })?;
        let V::Func(f) = fv else { return Ok(unit()) };
        let at = c.f.at.get();
        let b = self.bind_call(&f, c).map_err(|er| self.report(er, at))?;
        self.invoke(&f, b, hint, at)
    }
    fn bind_call(&mut self, f: &Rc<Fun>, c: &Call) -> R<Vec<(String, V)>> {
        let mut b = Bind { f: f.clone(), p: f.partial() };
        for a in &c.args { self.bind_arg(&mut b, a).map_err(|er| self.report(er, a.at.get()))?; }
        self.implicits(&mut b)?;
        let cp = f.params().content.clone();
        let bound = cp.as_ref().map_or(false, |p| b.p.map.iter().any(|q| q.0 == p.name));
        let hint = if bound { T::Any } else { cp.map_or(T::Unit, |p| p.full_ty()) };
        let v = self.eval(&c.content, &hint)?;
        b.content(v).map_err(|er| self.report(er, c.content.at.get()))?;
        b.build()
    }
    fn bind_arg(&mut self, b: &mut Bind, a: &Arg) -> R<()> {
        let f = b.f.clone();
        let ps = f.params();
        match &a.kind {
            ArgK::Pos => {
                let t = if let Some(p) = ps.pos.get(b.p.pos) { p.full_ty() } else if let Some(p) = &ps.spread { p.full_ty().comp() } else { T::Any };
                let v = self.eval(&a.value, &t)?;
                b.positional(v)
            }
            ArgK::Spread => {
                self.see("spread argument");
                let v = self.eval(&a.value, &T::Any.list())?;
                for v in as_list(&v).iter() { b.positional(v.clone())? }
                Ok(())
            }
            ArgK::Named(n) => {
                let t = if let Some(p) = ps.named.iter().find(|p| &p.name == n) { p.full_ty() } else if let Some(p) = &ps.named_spread { p.full_ty().comp() } else { T::Any };
                let v = self.eval(&a.value, &t)?;
                b.named(n, v)
            }
            ArgK::NamedSpread => {
                self.see("named spread argument");
                let v = self.eval(&a.value, &T::Any.dict())?;
                for (k, v) in as_dict(&v).iter() { b.named(k, v.clone())? }
                Ok(())
            }
        }
    }
    fn implicits(&mut self, b: &mut Bind) -> R<()> {
        let f = b.f.clone();
        for (i, p) in f.params().named.iter().enumerate() {
            if !p.implicit || b.p.map.iter().any(|q| q.0 == p.name) { continue; }
            self.see("implicit parameter");
            let v = match self.frame().get_implicit(&p.name) {
                Some(v) => coerce(v, &p.full_ty())?,
                None => match &f.defaults()[f.params().pos.len() + i] { Some(d) => d.clone(), None => return Err(RUN) },
            };
            b.p.map.push((p.name.clone(), v));
        }
        Ok(())
    }
    fn invoke(&mut self, f: &Rc<Fun>, b: Vec<(String, V)>, hint: &T, at: At) -> R<V> {
        self.tick()?;
        match &**f {
            Fun::Bound(g, _) => self.invoke(g, b, hint, at),
            Fun::User { body, env, .. } => {
                let fr = Frame::new(Some(env.clone()), b);
                let body = body.clone();
                self.in_frame(fr, Some((f.name(), at)), |s| s.eval(&body, hint))
            }
            Fun::Native { id, params, .. } => {
                self.seen.entry(id).and_modify(|c| *c += 1).or_insert(1);
                let get = |n: &str| b.iter().find(|p| p.0 == n).map(|p| p.1.clone());
                let a = params.pos.iter().map(|p| get(&p.name).unwrap()).collect::<Vec<_>>();
                let r = self.native(id, &a, &get, at).and_then(|v| coerce(v, hint));
                r.map_err(|er| self.report(er, at))
            }
        }
    }
    fn callback(&mut self, f: &Rc<Fun>, v: V, hint: &T, at: At) -> R<V> {
        let mut b = Bind { f: f.clone(), p: f.partial() };
        b.content(v)?;
        let b = b.build()?;
        self.invoke(f, b, hint, at)
    }
    fn native(&mut self, id: &'static str, a: &[V], get: &dyn Fn(&str) -> Option<V>, at: At) -> R<V> {
        let c = get("#content").unwrap_or_else(unit);
        Ok(match id {
            "bool::and" => V::Bool(as_bool(&a[0]) && as_bool(&a[1])),
            "bool::or" => V::Bool(as_bool(&a[0]) || as_bool(&a[1])),
            "bool::negate" => V::Bool(!as_bool(&c)),
            "bool::from" => V::Bool(match &c { V::Bool(b) => *b, V::Int(i) => *i != 0, V::Str(t) => !t.is_empty(), V::Html(h) => !h.is_empty(), V::List(v) => !v.is_empty(), V::Dict(v) => !v.is_empty(), _ => true }),
            "int::add" => { let sum: i128 = as_list(&get("#spread").unwrap()).iter().map(|v| as_int(v) as i128).sum(); V::Int(i64::try_from(sum).map_err(|_| RUN)?) }
            "int::negate" => V::Int(i64::try_from(-(as_int(&c) as i128)).map_err(|_| RUN)?),
            "int::parse" => V::Int(parse_int(&as_str(&c)).ok_or(RUN)?),
            "str::ends_with" => V::Bool({ let x: Vec<char> = as_str(&a[0]).chars().collect(); let y: Vec<char> = as_str(&a[1]).chars().collect(); x.len() >= y.len() && x[x.len() - y.len()..] == y[..] }),
            "str::starts_with" => V::Bool({ let x: Vec<char> = as_str(&a[0]).chars().collect(); let y: Vec<char> = as_str(&a[1]).chars().collect(); x.len() >= y.len() && x[..y.len()] == y[..] }),
            "str::escape_html" => vs(&H::text(&as_str(&c)).render()),
            "html::escape_html" => { let t = as_html(&c).render(); self.sized(t.len())?; vs(&t) }
            "str::from" => c,
            "str::is_empty" => V::Bool(as_str(&c).is_empty()),
            "str::is_whitespace" => V::Bool(as_str(&c).chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}'))),
            "str::len" => V::Int(as_str(&c).bytes().count() as i64),
            "str::lower" => { let t: String = as_str(&c).to_lowercase(); vs(&t) }
            "str::upper" => { let t: String = as_str(&c).chars().flat_map(|c| c.to_uppercase()).collect(); vs(&t) }
            "str::trim" => { let cs: Vec<char> = as_str(&c).chars().collect(); let i = cs.iter().position(|c| !c.is_whitespace()).unwrap_or(cs.len()); let j = cs.iter().rposition(|c| !c.is_whitespace()).map_or(i, |j| j + 1); vs(&cs[i..j].iter().collect::<String>()) }
            "str::split" => { let v = split(&as_str(&c), &as_str(&a[0])); self.sized(v.len())?; vl(v.iter().map(|t| vs(t)).collect()) }
            "str::unique_id" if self.world.is_some() => {
                let b = as_str(&c).to_string();
                if b.is_empty() || b.len() > 60 || !b.bytes().all(|c| c.is_ascii_lowercase()) { return self.stopped("unique_id"); }
                let id = if self.ids.contains(&b) { (2..).map(|n| format!("{b}_{n}")).find(|i| !self.ids.contains(i)).unwrap() } else { b };
                self.ids.insert(id.clone());
                vs(&id)
            }
            "str::unique_id" => return self.stopped("unique_id"),
            "regex::compile" => V::Regex(Rc::new(compile_rx(&as_str(&c)).ok_or(RUN)?)),
            "regex::count" | "regex::find" | "regex::find_all" | "regex::split" | "regex::test" => {
                let r = as_rx(&a[0]);
                let cs: Vec<char> = as_str(&c).chars().collect();
                match id {
                    "regex::count" => V::Int(r.all(&cs).len() as i64),
                    "regex::find" => r.first(&cs).map_or_else(unit, |m| captures_value(&r, &cs, &m)),
                    "regex::find_all" => vl(r.all(&cs).iter().map(|m| captures_value(&r, &cs, m)).collect()),
                    "regex::split" => vl(r.split(&cs).iter().map(|t| vs(t)).collect()),
                    _ => V::Bool(r.first(&cs).is_some()),
                }
            }
            "function::bind" => {
                let f = as_fun(&a[0]);
                let mut b = Bind { f: f.clone(), p: f.partial() };
                for v in as_list(&get("#spread").unwrap()).iter() { b.positional(v.clone())? }
                for (k, v) in as_dict(&get("#kw").unwrap()).iter() { b.named(k, v.clone())? }
                if !c.is_unit() { b.content(c)? }
                b.check_count()?;
                V::Func(Rc::new(Fun::Bound(f, b.p)))
            }
            "function::name" => vs(&as_fun(&c).name()),
            "html::is_empty" => V::Bool(as_html(&c).is_empty()),
            "html::is_whitespace" => V::Bool(as_html(&c).is_ws()),
            "list::all" => { let f = as_fun(&a[0]); let mut r = true; for v in as_list(&c).iter() { if !as_bool(&self.callback(&f, v.clone(), &T::Bool, at)?) { r = false; break; } } V::Bool(r) }
            "list::any" => { let f = as_fun(&a[0]); let mut r = false; for v in as_list(&c).iter() { if as_bool(&self.callback(&f, v.clone(), &T::Bool, at)?) { r = true; break; } } V::Bool(r) }
            "list::contains" => V::Bool(as_list(&c).iter().any(|v| v.eq(&a[0]))),
            "list::enumerate" => { let from = as_int(&get("from").unwrap()) as i128; let mut out = vec![]; for (i, v) in as_list(&c).iter().enumerate() { out.push(vl(vec![V::Int(i64::try_from(from + i as i128).map_err(|_| RUN)?), v.clone()])) } vl(out) }
            "list::filter" => match &a[0] { V::Func(f) => { let mut out = vec![]; for v in as_list(&c).iter() { if as_bool(&self.callback(f, v.clone(), &T::Bool, at)?) { out.push(v.clone()) } } vl(out) } _ => vl(as_list(&c).iter().filter(|v| !v.is_unit()).cloned().collect()) },
            "list::find" => { let f = as_fun(&a[0]); for v in as_list(&c).iter() { if as_bool(&self.callback(&f, v.clone(), &T::Bool, at)?) { return Ok(v.clone()); } } unit() }
            "list::flat" => { let mut out = vec![]; for v in as_list(&c).iter() { match v { V::List(l) => out.extend(l.iter().cloned()), v => out.push(v.clone()) } } vl(out) }
            "list::get" => list_get(&as_list(&c), as_int(&a[0])).ok_or(RUN)?,
            "list::html_nodes" => vl(as_html(&c).0.iter().map(V::from_node).collect()),
            "list::is_empty" => V::Bool(as_list(&c).is_empty()),
            "list::len" => V::Int(as_list(&c).len() as i64),
            "list::join" => { let sep = as_html(&a[0]); let mut out = H::empty(); for (i, v) in as_list(&c).iter().enumerate() { if i > 0 { out.append(&sep) } out.append(&as_html(v)) } self.sized(out.0.len())?; V::from_html(out) }
            "list::map" => { let f = as_fun(&a[0]); let mut out = vec![]; for v in as_list(&c).iter() { out.push(self.callback(&f, v.clone(), &T::Any, at)?) } vl(out) }
            "list::slice" => {
                let l = as_list(&c);
                let n = l.len() as i128;
                let fix = |i: i64| { let i = i as i128; (if i < 0 { i + n } else { i }).clamp(0, n) };
                let (i, j) = (fix(as_int(&a[0])), match &a[1] { V::Int(j) => fix(*j), _ => n });
                vl(if i < j { l[i as usize..j as usize].to_vec() } else { vec![] })
            }
            "list::sorted" => {
                let l = as_list(&c);
                let rev = as_bool(&get("reversed").unwrap());
                let key = get("key").unwrap();
                let mut keyed: Vec<(V, V)> = vec![];
                for v in l.iter() {
                    let k = match &key { V::Func(f) => self.callback(f, v.clone(), &T::Any, at)?, _ => v.clone() };
                    match (&k, keyed.first().map(|p| &p.0)) { (V::Int(_), None | Some(V::Int(_))) | (V::Str(_), None | Some(V::Str(_))) => {} _ => return Err(TYPE) }
                    keyed.push((k, v.clone()));
                }
                // insertion sort: stable, in key order
                let less = |a: &V, b: &V| match (a, b) { (V::Int(a), V::Int(b)) => a < b, (V::Str(a), V::Str(b)) => a.chars().lt(b.chars()), _ => false };
                let mut out: Vec<(V, V)> = vec![];
                for (k, v) in keyed {
                    let i = out.iter().rposition(|(k2, _)| !(if rev { less(k2, &k) } else { less(&k, k2) })).map_or(0, |i| i + 1);
                    out.insert(i, (k, v));
                }
                vl(out.into_iter().map(|p| p.1).collect())
            }
            "list::reversed" => vl(as_list(&c).iter().rev().cloned().collect()),
            "dict::get" => { let k = as_str(&a[0]); as_dict(&c).iter().find(|p| p.0 == *k).map(|p| p.1.clone()).ok_or(NAME)? }
            "dict::is_empty" => V::Bool(as_dict(&c).is_empty()),
            "dict::items" => vl(as_dict(&c).iter().map(|(k, v)| vl(vec![vs(k), v.clone()])).collect()),
            "dict::keys" => vl(as_dict(&c).iter().map(|(k, _)| vs(k)).collect()),
            "dict::len" => V::Int(as_dict(&c).len() as i64),
            "dict::new" => get("#kw").unwrap(),
            "dict::values" => vl(as_dict(&c).iter().map(|p| p.1.clone()).collect()),
            "import" if self.world.is_some() => self.load(at, &as_str(&c))?.1,
            "include" if self.world.is_some() => {
                let (h, ex) = self.load(at, &as_str(&c))?;
                for (n, v) in as_dict(&ex).iter() { self.set_var(n, v.clone(), false, at) }
                V::Html(h)
            }
            "file::read" if self.world.is_some() => {
                let (w, p) = self.located(at, &as_str(&c))?;
                match p.as_ref().and_then(|p| w.files.get(p)) { Some(WFile::Raw(t) | WFile::Module(_, t)) => vs(t), _ => return Err(RUN) }
            }
            "file::list" if self.world.is_some() => {
                let t = as_str(&c);
                let (w, p) = self.located(at, &t)?;
                let Some(p) = p else { self.diags.push(Diag { at, cat: "Module error", trace: None }); return Err(Er::Done) };
                if !w.dirs.contains(&p) { return self.stopped("list of a file"); }
                let mut found: Vec<Vec<&str>> = w.files.keys().filter_map(|f| f.strip_prefix(p.trim_end_matches('/'))?.strip_prefix('/')).filter(|f| f.to_ascii_lowercase().ends_with(".papyri")).map(|f| f.split('/').collect()).collect();
                found.sort();
                vl(found.iter().map(|f| { let f = f.join("/"); vs(&format!("{}/{}", t.trim_end_matches('/'), &f[..f.rfind('.').unwrap()])) }).collect())
            }
            "file::write" if self.world.is_some() => match &mut self.outs {
                None => return Err(RUN),
                Some(o) => { let p = clean_path(&as_str(&a[0])).ok_or(RUN)?; o.push((p, as_html(&c))); unit() }
            },
            "file::write" | "net::fetch_raw" | "net::fetch_html" | "raise" => return Err(RUN),
            other => return self.stopped(other),
        })
    }
    fn located(&mut self, at: At, path: &str) -> R<(Rc<World>, Option<String>)> {
        let w = self.world.clone().unwrap();
        if at == (0, 0) { return self.stopped("path within the standard library"); }
        let p = w.resolve(World::dir_of(&w.order[(at.0 / FILE) as usize]), path);
        Ok((w, p))
    }
    /// Loads a module: its output and exports.
    fn load(&mut self, at: At, path: &str) -> R<(H, V)> {
        const MODULE: Er = Er::E("Module error");
        let path = if path.ends_with(".papyri") { path.to_string() } else { format!("{path}.papyri") };
        let (w, p) = self.located(at, &path)?;
        let Some(p) = p else { self.loads.push((path, "missing")); return Err(MODULE) };
        match self.loaded.get(&p) {
            Some(Loaded::Ok(h, v)) => { self.loads.push((p, "again")); return Ok((h.clone(), v.clone())) }
            Some(Loaded::Busy) => { self.loads.push((p, "circular")); return Err(MODULE) }
            Some(Loaded::Failed) => { self.loads.push((p, "failed before")); return Err(MODULE) }
            None => {}
        }
        match w.files.get(&p) {
            Some(WFile::Module(items, _)) => {
                self.loads.push((p.clone(), "first"));
                self.loaded.insert(p.clone(), Loaded::Busy);
                let f = Frame::new(Some(self.stdf.clone().unwrap()), vec![]);
                let stack = std::mem::replace(&mut self.stack, vec![Act { f, call: None }]);
                let exports = std::mem::take(&mut self.exports);
                let outs = self.outs.take();
                let h = self.seq(items, K::Block("p"));
                self.outs = outs;
                let ex = vd(std::mem::replace(&mut self.exports, exports));
                self.stack = stack;
                let h = h?;
                self.loaded.insert(p, Loaded::Ok(h.clone(), ex.clone()));
                Ok((h, ex))
            }
            Some(WFile::Raw(_)) => self.stopped("module not written by the generator"),
            _ => { self.loads.push((p.clone(), "unreadable")); self.loaded.insert(p, Loaded::Failed); Err(MODULE) }
        }
    }
    /// Starts another document; what modules did remains only where it is the same for every document.
    pub fn next_document(&mut self) { self.diags.clear(); self.ids.clear(); self.exports.clear(); self.loaded.clear(); let f = Frame::new(self.stdf.clone(), vec![]); self.stack = vec![Act { f, call: None }] }
    fn matches(&mut self, value: &E, branches: &[(P, E)], hint: &T, at: At) -> R<V> {
        self.see("match");
        let v = self.eval(value, &T::Any)?;
        for (p, h) in branches {
            let f = Frame::new(Some(self.frame()), vec![]);
            let r = self.in_frame(f, None, |s| -> R<Option<V>> { if s.pat(p, v.clone())? { s.eval(h, hint).map(Some) } else { Ok(None) } })?;
            if let Some(v) = r { return Ok(v); }
        }
        Err(self.report(RUN, at))
    }
    fn bind(&mut self, n: &str, v: V, at: At) -> bool { if self.frame().set(n, v) { self.warn(at) } true }
    fn pat(&mut self, p: &P, v: V) -> R<bool> {
        self.tick()?;
        Ok(match p {
            P::Ignore => true,
            P::None => v.is_unit(),
            P::Var(n, at) => self.bind(n, v, at.get()),
            P::And(a, b) => self.pat(a, v.clone())? && self.pat(b, v)?,
            P::Or(a, b) => {
                self.see("or pattern");
                let mut ns = vec![];
                pat_vars(p, &mut ns);
                let mut r = self.pat(a, v.clone())?;
                if !r { let f = self.frame(); for n in &ns { f.unset(n) } r = self.pat(b, v)?; }
                if r { let f = self.frame(); for n in &ns { if f.own(n).is_none() { f.set(n, unit()); } } }
                r
            }
            P::Eq(x) => match self.eval(x, &T::Any) { Ok(w) => v.eq(&w), Err(Er::Stop) => return Err(Er::Stop), Err(_) => false },
            P::Typed(t) => { self.see("type pattern"); t.admits(&v) }
            P::TypeOf(n, at) => { let t = v.ty().show(); self.bind(n, vs(&t), at.get()) }
            P::Seq { list, pre, spread, post } => {
                self.see(if *list { "list pattern" } else { "html pattern" });
                let parts: Vec<V> = if *list { match &v { V::List(l) => l.to_vec(), _ => return Ok(false) } } else { match v.as_html() { Some(h) => h.0.iter().map(V::from_node).collect(), None => return Ok(false) } };
                let (n, a, b) = (parts.len(), pre.len(), post.len());
                if spread.is_none() && n != a || spread.is_some() && n < a + b { return Ok(false); }
                for (p, v) in pre.iter().zip(&parts) { if !self.pat(p, v.clone())? { return Ok(false); } }
                if let Some(sp) = spread {
                    let mid = &parts[a..n - b];
                    let mv = if *list { vl(mid.to_vec()) } else { V::from_html(H::concat(&mid.iter().map(as_html).collect::<Vec<_>>())) };
                    if !self.pat(sp, mv)? { return Ok(false); }
                    for (p, v) in post.iter().zip(&parts[n - b..]) { if !self.pat(p, v.clone())? { return Ok(false); } }
                }
                true
            }
            P::Dict(ps, spread) => { self.see("dict pattern"); match &v { V::Dict(d) => self.dict_pat(ps, spread.as_deref(), d)?, _ => false } }
            P::Tag { name, attrs, spread, content } => {
                self.see("tag pattern");
                let V::Html(h) = &v else { return Ok(false) };
                let [N::Tag(t)] = &h.0[..] else { return Ok(false) };
                if !match name { PName::Any => true, PName::Lit(n) => *n == t.name, PName::Var(n, at) => self.bind(n, vs(&t.name), at.get()) } { return Ok(false); }
                let d: Vec<(String, V)> = t.attrs.iter().map(|(k, v)| (k.clone(), v.as_ref().map_or_else(unit, |v| vs(v)))).collect();
                self.dict_pat(attrs, spread.as_deref(), &d)? && self.pat(content, V::from_html(t.content.clone()))?
            }
            P::Tmpl(parts) => {
                self.see("template pattern");
                let V::Str(t) = &v else { return Ok(false) };
                let mut cat = vec![Re::Start];
                let mut ns = vec![];
                for p in parts { match p {
                    PTPart::Lit(s) => cat.extend(s.chars().map(Re::Lit)),
                    PTPart::Ws => cat.push(Re::Rep { r: Box::new(Re::Space(true)), min: 1, max: None, lazy: false }),
                    PTPart::Var(n, at) => { ns.push((n, at.get())); cat.push(Re::Group(ns.len(), Box::new(Re::Rep { r: Box::new(Re::Any { nl: true }), min: 1, max: None, lazy: true }))) }
                } }
                cat.push(Re::End);
                let r = rx::from_re(Re::Cat(cat), ns.len());
                let cs: Vec<char> = t.chars().collect();
                match r.captures_at(&cs, 0) {
                    None => false,
                    Some(c) => { for (i, (n, at)) in ns.iter().enumerate() { let (a, b) = c[i + 1].unwrap(); self.bind(n, vs(&cs[a..b].iter().collect::<String>()), *at); } true }
                }
            }
        })
    }
    fn dict_pat(&mut self, ps: &[(String, P)], spread: Option<&P>, d: &[(String, V)]) -> R<bool> {
        if spread.is_none() && d.len() != ps.len() { return Ok(false); }
        for (k, p) in ps {
            let Some((_, v)) = d.iter().find(|q| &q.0 == k) else { return Ok(false) };
            if !self.pat(p, v.clone())? { return Ok(false); }
        }
        match spread {
            None | Some(P::Ignore) => Ok(true),
            Some(sp) => { let rest = d.iter().filter(|q| !ps.iter().any(|p| p.0 == q.0)).cloned().collect(); self.pat(sp, vd(rest)) }
        }
    }
}
fn item_at(it: &Item) -> At { match it { Item::Text(_, p) | Item::Para(p) => p.get(), Item::Expr(x) => expr_at(x), _ => (0, 0) } }
/// Where an expression starts.
pub fn expr_at(x: &E) -> At { x.at.get() }
pub fn split(t: &str, sep: &str) -> Vec<String> {
    if sep.is_empty() { let mut v = vec![String::new()]; v.extend(t.chars().map(|c| c.to_string())); v.push(String::new()); return v; }
    let (cs, ss): (Vec<char>, Vec<char>) = (t.chars().collect(), sep.chars().collect());
    let mut out = vec![];
    let (mut i, mut from) = (0, 0);
    while i + ss.len() <= cs.len() { if cs[i..i + ss.len()] == ss[..] { out.push(cs[from..i].iter().collect()); i += ss.len(); from = i } else { i += 1 } }
    out.push(cs[from..].iter().collect());
    out
}
pub fn pat_vars(p: &P, out: &mut Vec<String>) {
    match p {
        P::Var(n, _) | P::TypeOf(n, _) => out.push(n.clone()),
        P::And(a, b) | P::Or(a, b) => { pat_vars(a, out); pat_vars(b, out) }
        P::Seq { pre, spread, post, .. } => { pre.iter().for_each(|p| pat_vars(p, out)); if let Some(p) = spread { pat_vars(p, out) } post.iter().for_each(|p| pat_vars(p, out)) }
        P::Dict(ps, sp) => { ps.iter().for_each(|p| pat_vars(&p.1, out)); if let Some(p) = sp { pat_vars(p, out) } }
        P::Tag { name, attrs, spread, content } => { if let PName::Var(n, _) = name { out.push(n.clone()) } attrs.iter().for_each(|p| pat_vars(&p.1, out)); if let Some(p) = spread { pat_vars(p, out) } pat_vars(content, out) }
        P::Tmpl(ps) => for p in ps { if let PTPart::Var(n, _) = p { out.push(n.clone()) } },
        _ => {}
    }
}

struct Bind { f: Rc<Fun>, p: Partial }
impl Bind {
    fn positional(&mut self, v: V) -> R<()> {
        let ps = self.f.params();
        if let Some(p) = ps.pos.get(self.p.pos) { let v = coerce(v, &p.full_ty())?; self.p.map.push((p.name.clone(), v)) }
        else if let Some(p) = &ps.spread { let v = coerce(v, &p.full_ty().comp())?; self.p.spread_pos.push(v) }
        self.p.pos += 1;
        Ok(())
    }
    fn named(&mut self, n: &str, v: V) -> R<()> {
        let ps = self.f.params();
        let (t, m) = if let Some(p) = ps.named.iter().find(|p| p.name == n) { (p.full_ty(), &mut self.p.map) } else if let Some(p) = &ps.named_spread { (p.full_ty().comp(), &mut self.p.spread_named) } else { return Err(NAME) };
        let v = coerce(v, &t)?;
        if m.iter().any(|q| q.0 == n) { return Err(RUN); }
        m.push((n.to_string(), v));
        Ok(())
    }
    fn content(&mut self, v: V) -> R<()> {
        match &self.f.params().content {
            Some(p) if self.p.map.iter().any(|q| q.0 == p.name) => if v.is_unit() { Ok(()) } else { Err(TYPE) },
            Some(p) => { let v = coerce(v, &p.full_ty())?; self.p.map.push((p.name.clone(), v)); Ok(()) }
            None => coerce(v, &T::Unit).map(|_| ()),
        }
    }
    fn check_count(&self) -> R<()> { let ps = self.f.params(); if ps.spread.is_none() && self.p.pos > ps.pos.len() { Err(TYPE) } else { Ok(()) } }
    fn build(mut self) -> R<Vec<(String, V)>> {
        self.check_count()?;
        let f = self.f.clone();
        let ps = f.params();
        if let Some(p) = &ps.spread { let v = coerce(vl(std::mem::take(&mut self.p.spread_pos)), &p.full_ty())?; self.p.map.push((p.name.clone(), v)) }
        if let Some(p) = &ps.named_spread { let v = coerce(vd(std::mem::take(&mut self.p.spread_named)), &p.full_ty())?; self.p.map.push((p.name.clone(), v)) }
        for (i, p) in ps.pos.iter().enumerate().skip(self.p.pos) { match &f.defaults()[i] { Some(v) => self.p.map.push((p.name.clone(), v.clone())), None => return Err(TYPE) } }
        for (i, p) in ps.named.iter().enumerate() {
            if self.p.map.iter().any(|q| q.0 == p.name) { continue; }
            match &f.defaults()[ps.pos.len() + i] { Some(v) => self.p.map.push((p.name.clone(), v.clone())), None => return Err(RUN) }
        }
        Ok(self.p.map)
    }
}
