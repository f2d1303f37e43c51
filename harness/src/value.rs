//! Reference model of values, HTML, types and coercions, written from the
//! language's documented behaviour; it shares no code with the compiler.
use std::rc::Rc;
use crate::ast::*;
use crate::interp::Frame;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Text(String),
    Tag(Rc<TagN>),
}
#[derive(Clone, Debug)]
pub struct TagN { pub name: String, pub attrs: Vec<(String, Option<String>)>, pub content: H }
impl PartialEq for TagN {
    fn eq(&self, o: &TagN) -> bool {
        self.name == o.name && self.attrs.len() == o.attrs.len()
            && self.attrs.iter().all(|(k, v)| o.attrs.iter().any(|(k2, v2)| k == k2 && v == v2))
            && self.content == o.content
    }
}
/// HTML content in normal form: no empty text, no two adjacent texts.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct H(pub Vec<N>);

pub const VOID: &[&str] = &["!DOCTYPE","area","base","br","col","command","embed","hr","img","input","keygen","link","menuitem","meta","param","source","track","wbr"];
pub const BLOCK: &[&str] = &["!DOCTYPE","address","article","aside","base","blockquote","body","dd","details","div","dl","dt","fieldset","figcaption","figure","footer","form","h1","h2","h3","h4","h5","h6","head","header","hgroup","hr","html","iframe","li","link","main","menu","meta","nav","ol","p","pre","script","section","style","table","template","title","ul"];
/// Elements at whose start HTML parsers drop a newline.
pub fn eats_newline(n: &str) -> bool { matches!(n, "pre" | "textarea" | "listing") }
pub fn is_void(n: &str) -> bool { VOID.contains(&n) }
pub fn is_block_tag(n: &str) -> bool { BLOCK.contains(&n) }

impl H {
    pub fn empty() -> H { H(vec![]) }
    pub fn text(s: &str) -> H { if s.is_empty() { H(vec![]) } else { H(vec![N::Text(s.to_string())]) } }
    pub fn tag(name: &str, content: H) -> H { H::tag_attrs(name, vec![], content) }
    pub fn tag_attrs(name: &str, attrs: Vec<(String, Option<String>)>, content: H) -> H { H(vec![N::Tag(Rc::new(TagN { name: name.to_string(), attrs, content }))]) }
    pub fn append(&mut self, other: &H) {
        for n in &other.0 {
            match (self.0.last_mut(), n) {
                (Some(N::Text(t)), N::Text(s)) => t.push_str(s),
                (_, n) => self.0.push(n.clone()),
            }
        }
    }
    pub fn concat(hs: &[H]) -> H { let mut r = H::empty(); for h in hs { r.append(h); } r }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn is_ws(&self) -> bool { self.0.iter().all(|n| matches!(n, N::Text(t) if t.chars().all(|c| c.is_ascii_whitespace()))) }
    pub fn is_block(&self) -> bool { self.0.iter().any(N::is_block) }
    pub fn is_inline(&self) -> bool { !self.is_empty() && self.0.iter().all(|n| !n.is_block()) }
    pub fn render(&self) -> String { let mut s = String::new(); self.render_to(&mut s); s }
    fn render_to(&self, s: &mut String) {
        for n in &self.0 { match n {
            N::Text(t) => escape(t, false, s),
            N::Tag(t) => {
                s.push('<'); s.push_str(&t.name);
                for (k, v) in &t.attrs {
                    s.push(' '); s.push_str(&k.replace('_', "-"));
                    if let Some(v) = v { s.push_str("=\""); escape(v, true, s); s.push('"'); }
                }
                s.push('>');
                if eats_newline(&t.name) && matches!(t.content.0.first(), Some(N::Text(x)) if x.starts_with('\n')) { s.push('\n') }
                t.content.render_to(s);
                if !is_void(&t.name) { s.push_str("</"); s.push_str(&t.name); s.push('>'); }
                else if t.name == "!DOCTYPE" { s.push('\n'); }
            }
        } }
    }
    pub fn render_text(&self) -> String {
        let mut s = String::new();
        for n in &self.0 { match n {
            N::Text(t) => s.push_str(t),
            N::Tag(t) => {
                s.push_str(&t.content.render_text());
                match t.name.as_str() { "p" => s.push_str("\n\n"), "hr" => s.push_str("\n\u{2015}\n\n"), n if is_block_tag(n) => s.push('\n'), _ => {} }
            }
        } }
        s
    }
}
impl N {
    pub fn is_block(&self) -> bool {
        match self { N::Text(_) => false, N::Tag(t) => if t.name == "a" { t.content.is_block() } else { is_block_tag(&t.name) } }
    }
}
pub fn escape(t: &str, quotes: bool, s: &mut String) {
    for c in t.chars() { match c {
        '<' => s.push_str("&lt;"), '>' => s.push_str("&gt;"), '&' => s.push_str("&amp;"),
        '"' if quotes => s.push_str("&quot;"), '\'' if quotes => s.push_str("&apos;"),
        c => s.push(c),
    } }
}

#[derive(Clone)]
pub enum V { Bool(bool), Int(i64), Str(Rc<str>), List(Rc<Vec<V>>), Dict(Rc<Vec<(String, V)>>), Html(H), Func(Rc<Fun>), Regex(Rc<crate::rx::Rx>) }
pub enum Fun {
    User { name: String, params: Params, body: Rc<E>, env: Rc<Frame>, defaults: Vec<Option<V>> },
    Native { name: &'static str, id: &'static str, params: Params, defaults: Vec<Option<V>> },
    Bound(Rc<Fun>, Partial),
}
#[derive(Clone, Default)]
pub struct Partial { pub pos: usize, pub spread_pos: Vec<V>, pub spread_named: Vec<(String, V)>, pub map: Vec<(String, V)> }

pub fn unit() -> V { V::Html(H::empty()) }
pub fn vs(s: &str) -> V { V::Str(Rc::from(s)) }
pub fn vl(v: Vec<V>) -> V { V::List(Rc::new(v)) }
pub fn vd(v: Vec<(String, V)>) -> V { V::Dict(Rc::new(v)) }
impl V {
    pub fn is_unit(&self) -> bool { matches!(self, V::Html(h) if h.is_empty()) }
    pub fn from_html(h: H) -> V { if h.0.len() == 1 { if let N::Text(t) = &h.0[0] { return vs(t); } } V::Html(h) }
    pub fn from_node(n: &N) -> V { V::from_html(H(vec![n.clone()])) }
    pub fn as_html(&self) -> Option<H> { match self { V::Str(s) => Some(H::text(s)), V::Html(h) => Some(h.clone()), _ => None } }
    pub fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Html(a), V::Html(b)) => a == b,
            (V::Regex(a), V::Regex(b)) => a.src == b.src,
            (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.eq(y)),
            (V::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && v.eq(v2))),
            _ => false,
        }
    }
    pub fn ty(&self) -> T {
        match self {
            V::Bool(_) => T::Bool, V::Int(_) => T::Int, V::Str(_) => T::Str, V::Func(_) => T::Function, V::Regex(_) => T::Regex,
            V::Html(h) => if h.is_empty() { T::Unit } else if h.is_block() { T::Block } else { T::Inline },
            V::List(v) => T::List(Box::new(common(v.iter()))),
            V::Dict(v) => T::Dict(Box::new(common(v.iter().map(|p| &p.1)))),
        }
    }
}
fn common<'a>(it: impl Iterator<Item = &'a V>) -> T { it.map(V::ty).reduce(lub).unwrap_or(T::Unit) }
/// Join of two types: the strongest type both are subtypes of, as far as it can be written.
pub fn lub(a: T, b: T) -> T {
    if a == b { return a; }
    match (a, b) {
        (T::Any, _) | (_, T::Any) => T::Any,
        (T::Unit, t) | (t, T::Unit) => t.opt(),
        (T::Opt(a), T::Opt(b)) => lub(*a, *b).opt(),
        (T::Opt(a), b) | (b, T::Opt(a)) => lub(*a, b).opt(),
        (a, b) if a.is_html() && b.is_html() => T::Html,
        (T::List(a), T::List(b)) => T::List(Box::new(lub(*a, *b))),
        (T::Dict(a), T::Dict(b)) => T::Dict(Box::new(lub(*a, *b))),
        _ => T::Any,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum T { Unit, Any, Html, Block, Inline, Bool, Int, Str, Function, Regex, Dict(Box<T>), List(Box<T>), Opt(Box<T>) }
impl T {
    pub fn list(self) -> T { T::List(Box::new(self)) }
    pub fn dict(self) -> T { T::Dict(Box::new(self)) }
    pub fn opt(self) -> T { if self.unit_ok() { self } else { T::Opt(Box::new(self)) } }
    pub fn unit_ok(&self) -> bool { matches!(self, T::Any | T::Html | T::Block | T::Inline | T::Unit | T::Opt(_)) }
    pub fn is_html(&self) -> bool { matches!(self, T::Html | T::Block | T::Inline) }
    pub fn comp(&self) -> T { match self { T::Dict(t) | T::List(t) => (**t).clone(), T::Opt(t) => t.comp(), T::Block | T::Html => T::Html, _ => T::Any } }
    pub fn show(&self) -> String {
        match self { T::Unit => "none".into(), T::Any => "any".into(), T::Html => "html".into(), T::Block => "block".into(), T::Inline => "inline".into(), T::Bool => "bool".into(), T::Int => "int".into(), T::Str => "str".into(), T::Function => "function".into(), T::Regex => "regex".into(),
            T::Dict(t) => format!("{} dict", t.show()), T::List(t) => format!("{} list", t.show()), T::Opt(t) => format!("{}?", t.show()) }
    }
    /// Is the value of this type as it is?
    pub fn admits(&self, v: &V) -> bool {
        if v.is_unit() { return self.unit_ok(); }
        match (self, v) {
            (T::Any, _) | (T::Bool, V::Bool(_)) | (T::Int, V::Int(_)) | (T::Str, V::Str(_)) | (T::Function, V::Func(_)) | (T::Regex, V::Regex(_)) | (T::Html, V::Html(_) | V::Str(_)) | (T::Inline, V::Str(_)) => true,
            (T::Block, V::Html(h)) => h.is_block(),
            (T::Inline, V::Html(h)) => !h.is_block(),
            (T::Dict(t), V::Dict(vs)) => vs.iter().all(|(_, v)| t.admits(v)),
            (T::List(t), V::List(vs)) => vs.iter().all(|v| t.admits(v)),
            (T::Opt(t), v) => t.admits(v),
            _ => false,
        }
    }
    pub fn coerce(&self, v: V) -> Option<V> {
        let t = match self { T::Opt(t) => { if v.is_unit() { return Some(v); } &**t } t => t };
        Some(match (t, &v) {
            (T::Unit, _) => return v.is_unit().then_some(v),
            (T::Any, _) | (T::Bool, V::Bool(_)) | (T::Int, V::Int(_)) | (T::Str, V::Str(_)) | (T::Function, V::Func(_)) | (T::Regex, V::Regex(_)) | (T::Html, V::Html(_) | V::Str(_)) | (T::Inline, V::Str(_)) => v,
            (T::Str, V::Bool(b)) => vs(if *b { "True" } else { "False" }),
            (T::Str, V::Int(i)) => vs(&i.to_string()),
            (T::Dict(t), V::Dict(d)) => vd(d.iter().map(|(k, v)| t.coerce(v.clone()).map(|v| (k.clone(), v))).collect::<Option<Vec<_>>>()?),
            (T::List(t), V::List(l)) => vl(l.iter().map(|v| t.coerce(v.clone())).collect::<Option<Vec<_>>>()?),
            (_, V::Func(_)) => return None,
            (T::Inline, V::List(_) | V::Dict(_)) => return None,
            (T::Html, v) => V::from_html(to_html(v)),
            (T::Block, v) => { let h = to_html(v); if h.is_inline() { V::Html(H::tag("p", h)) } else { V::from_html(h) } }
            (T::Inline, v) => { let h = to_html(v); if h.is_block() { return None; } V::from_html(h) }
            _ => return None,
        })
    }
}
pub fn to_html(v: &V) -> H {
    match v {
        V::Bool(b) => H::text(if *b { "True" } else { "False" }),
        V::Int(i) => H::text(&i.to_string().replace('-', "\u{2212}")),
        V::Str(s) => H::text(s),
        V::Html(h) => h.clone(),
        V::List(l) => H::tag("ul", H::concat(&l.iter().map(|v| H::tag("li", to_html(v))).collect::<Vec<_>>())),
        V::Dict(d) => H::tag_attrs("table", vec![("class".into(), Some("tabular-data".into()))], H::concat(&d.iter().map(|(k, v)| H::tag("tr", H::concat(&[H::tag("th", H::text(k)), H::tag("td", to_html(v))]))).collect::<Vec<_>>())),
        V::Func(f) => H::tag("code", H::text(&format!("(@fn {})", f.name()))),
        V::Regex(r) => H::tag("code", H::text(&format!("(@regex {})", r.src))),
    }
}
impl Fun {
    pub fn name(&self) -> String { match self { Fun::User { name, .. } => name.clone(), Fun::Native { name, .. } => name.to_string(), Fun::Bound(f, _) => f.name() } }
    pub fn params(&self) -> &Params { match self { Fun::User { params, .. } | Fun::Native { params, .. } => params, Fun::Bound(f, _) => f.params() } }
    pub fn defaults(&self) -> &[Option<V>] { match self { Fun::User { defaults, .. } | Fun::Native { defaults, .. } => defaults, Fun::Bound(f, _) => f.defaults() } }
    pub fn partial(&self) -> Partial { match self { Fun::Bound(_, p) => p.clone(), _ => Partial::default() } }
}
/// Content rule of an element (or of a place without an element).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { OneOf(&'static [&'static str]), Block(&'static str), Allow(&'static str), Inline, InlineNoBr, Empty }
const HEAD: &[&str] = &["base","link","meta","noscript","script","style","template","title"];
pub fn kind_of(name: &str) -> K {
    match name {
        "article" | "aside" | "blockquote" | "footer" | "header" | "main" | "nav" | "section" => K::Block("p"),
        "a" | "address" | "body" | "details" | "div" | "fieldset" | "figcaption" | "figure" | "form" | "li" => K::Allow("p"),
        "dl" => K::OneOf(&["dd", "dt"]),
        "hgroup" => K::OneOf(&["p", "h1", "h2", "h3", "h4", "h5", "h6"]),
        "html" => K::OneOf(&["body", "head"]),
        "head" => K::OneOf(HEAD),
        "menu" | "ol" | "ul" => K::OneOf(&["li"]),
        "table" => K::OneOf(&["tr", "tbody", "tfoot", "thead", "caption", "colgroup"]),
        "tbody" | "tfoot" | "thead" => K::OneOf(&["tr"]),
        "tr" => K::OneOf(&["td", "th"]),
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "p" => K::InlineNoBr,
        n if is_void(n) => K::Empty,
        _ => K::Inline,
    }
}
/// Assembles a sequence under a content rule. `done` holds finished children, `run` an open wrapper.
pub struct Seq { kind: K, done: Vec<H>, run: Option<Box<Seq>> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SeqErr { Block, Break, NoContent }
impl Seq {
    pub fn new(kind: K) -> Seq { Seq { kind, done: vec![], run: None } }
    fn wrapper(&self) -> &'static str { match self.kind { K::OneOf(ns) => ns[0], K::Block(n) | K::Allow(n) => n, _ => "p" } }
    pub fn push(&mut self, h: H) -> Result<(), SeqErr> {
        if h.is_empty() { return Ok(()); }
        if matches!(self.kind, K::Inline | K::InlineNoBr) && h.is_block() { return Err(SeqErr::Block); }
        // content mixing nodes which may and may not be placed here directly is placed node by node
        let direct = |n: &N| match (self.kind, n) { (K::OneOf(ns), N::Tag(t)) => ns.contains(&t.name.as_str()), (K::OneOf(_), _) => false, (K::Block(_) | K::Allow(_), n) => n.is_block(), _ => true };
        if h.0.len() > 1 && h.0.iter().any(direct) && !h.0.iter().all(direct) { for n in h.0 { self.push(H(vec![n]))? } return Ok(()); }
        let fits = match self.kind {
            K::OneOf(ns) => h.0.iter().all(|n| matches!(n, N::Tag(t) if ns.contains(&t.name.as_str()))),
            K::Block(_) | K::Allow(_) => h.is_block(),
            _ => true,
        };
        if fits {
            self.close()?;
            if !(self.done.is_empty() && h.is_ws()) { self.done.push(h); }
            Ok(())
        } else if self.run.is_none() && h.is_ws() { Ok(()) }
        else {
            let w = self.wrapper();
            self.run.get_or_insert_with(|| Box::new(Seq::new(kind_of(w)))).push(h)
        }
    }
    fn close(&mut self) -> Result<(), SeqErr> {
        if let Some(r) = self.run.take() {
            let h = r.finish()?;
            if !h.is_empty() { let w = self.wrapper(); self.done.push(H::tag(w, h)); }
        }
        Ok(())
    }
    pub fn para_break(&mut self) -> Result<(), SeqErr> {
        match self.kind {
            K::Block(_) | K::OneOf(_) | K::Allow(_) => self.close(),
            K::Inline => { self.done.push(H::tag("br", H::empty())); Ok(()) }
            K::InlineNoBr => Err(SeqErr::Break),
            K::Empty => Ok(()),
        }
    }
    pub fn finish(mut self) -> Result<H, SeqErr> {
        if matches!(self.kind, K::Allow(_)) && self.done.is_empty() {
            return match self.run.take() { None => Ok(H::empty()), Some(r) => r.finish() };
        }
        self.close()?;
        while matches!(self.done.last(), Some(h) if h.is_ws()) { self.done.pop(); }
        let h = H::concat(&self.done);
        if self.kind == K::Empty && !h.is_empty() { return Err(SeqErr::NoContent); }
        Ok(h)
    }
}
