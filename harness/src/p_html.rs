//! Phases about markup: escaping, content rules, normal form, tags and
//! attributes. Most read the compiler's output back with a tokenizer of
//! their own, so the output is judged by what it denotes.
use crate::ast::*;
use crate::gen::*;
use crate::interp::Interp;
use crate::p_diff::{self, Mode};
use crate::p_more::size;
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::value::{self as v, H, N, T, K, TagN};
use std::rc::Rc;

/// A string literal denoting `t`.
pub fn lit(t: &str) -> String { let mut p = Printer::new(None); p.str_lit(t); p.out }

// ---- reading HTML back ----

/// Reads one character reference after '&' as a standard tokenizer would.
fn char_ref(cs: &[char], i: usize) -> Result<Option<(String, usize)>, String> {
    match cs.get(i) {
        Some('#') => {
            let hex = matches!(cs.get(i + 1), Some('x' | 'X'));
            let st = i + 1 + hex as usize;
            let mut j = st;
            while j < cs.len() && if hex { cs[j].is_ascii_hexdigit() } else { cs[j].is_ascii_digit() } { j += 1 }
            if j == st { return Ok(None); }
            if cs.get(j) != Some(&';') { return Err("character reference without semicolon".into()); }
            let n = u32::from_str_radix(&cs[st..j].iter().collect::<String>(), if hex { 16 } else { 10 }).ok().and_then(char::from_u32).ok_or("bad character reference")?;
            Ok(Some((n.to_string(), j + 1)))
        }
        Some(c) if c.is_ascii_alphabetic() => {
            let mut j = i;
            while j < cs.len() && cs[j].is_ascii_alphanumeric() { j += 1 }
            let n: String = cs[i..j].iter().collect();
            let t = match n.as_str() { "lt" => "<", "gt" => ">", "amp" => "&", "quot" => "\"", "apos" => "'", "nbsp" => "\u{a0}", _ => return Err(format!("ambiguous ampersand before {n:?}")) };
            if cs.get(j) != Some(&';') { return Err("character reference without semicolon".into()); }
            Ok(Some((t.to_string(), j + 1)))
        }
        _ => Ok(None),
    }
}
pub fn decode(t: &str) -> Result<String, String> {
    let cs: Vec<char> = t.chars().collect();
    let (mut i, mut o) = (0, String::new());
    while i < cs.len() {
        if cs[i] == '&' { if let Some((t, j)) = char_ref(&cs, i + 1)? { o.push_str(&t); i = j; continue; } }
        o.push(cs[i]); i += 1;
    }
    Ok(o)
}
struct Rd { cs: Vec<char>, i: usize }
impl Rd {
    fn ws(&mut self) { while self.i < self.cs.len() && self.cs[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn name(&mut self) -> String { let st = self.i; while self.i < self.cs.len() && !self.cs[self.i].is_ascii_whitespace() && !"/>=\"'<".contains(self.cs[self.i]) { self.i += 1 } self.cs[st..self.i].iter().collect() }
    fn near(&self) -> String { self.cs[self.i.saturating_sub(30)..(self.i + 30).min(self.cs.len())].iter().collect() }
    fn content(&mut self, parent: &str) -> Result<H, String> {
        let mut out = H::empty();
        loop {
            if self.i >= self.cs.len() { return if parent.is_empty() { Ok(out) } else { Err(format!("<{parent}> is not closed")) }; }
            let c = self.cs[self.i];
            if c != '<' {
                let mut t = String::new();
                while self.i < self.cs.len() && self.cs[self.i] != '<' {
                    if self.cs[self.i] == '&' { if let Some((x, j)) = char_ref(&self.cs, self.i + 1).map_err(|e| format!("{e} near {:?}", self.near()))? { t.push_str(&x); self.i = j; continue; } }
                    t.push(self.cs[self.i]); self.i += 1;
                }
                out.append(&H::text(&t));
                continue;
            }
            self.i += 1;
            if self.cs.get(self.i) == Some(&'/') {
                self.i += 1;
                let n = self.name();
                if self.cs.get(self.i) != Some(&'>') { return Err(format!("bad end tag near {:?}", self.near())); }
                self.i += 1;
                return if n == parent && !parent.is_empty() { Ok(out) } else { Err(format!("</{n}> closes <{parent}>")) };
            }
            let doctype = self.cs.get(self.i) == Some(&'!');
            if doctype { self.i += 1 } else if !self.cs.get(self.i).map_or(false, |c| c.is_ascii_alphabetic() || *c == '_') { return Err(format!("bare '<' near {:?}", self.near())); }
            let mut n = self.name();
            if doctype { if n != "DOCTYPE" { return Err(format!("markup declaration near {:?}", self.near())); } n = "!DOCTYPE".into(); }
            let mut attrs = vec![];
            loop {
                let w = self.i;
                self.ws();
                match self.cs.get(self.i) {
                    None => return Err("end of output within a tag".into()),
                    Some('>') => { self.i += 1; break }
                    _ => {}
                }
                if w == self.i { return Err(format!("no space before attribute near {:?}", self.near())); }
                let k = self.name();
                if k.is_empty() { return Err(format!("bad attribute near {:?}", self.near())); }
                if attrs.iter().any(|(a, _): &(String, Option<String>)| *a == k) { return Err(format!("attribute {k} twice on <{n}>")); }
                let val = if self.cs.get(self.i) == Some(&'=') {
                    self.i += 1;
                    let q = match self.cs.get(self.i) { Some(q @ ('"' | '\'')) => *q, _ => return Err(format!("unquoted attribute near {:?}", self.near())) };
                    let st = self.i + 1;
                    let Some(len) = self.cs[st..].iter().position(|c| *c == q) else { return Err("attribute value not closed".into()) };
                    self.i = st + len + 1;
                    Some(decode(&self.cs[st..st + len].iter().collect::<String>())?)
                } else { None };
                attrs.push((k, val));
            }
            if v::eats_newline(&n) && self.cs.get(self.i) == Some(&'\n') { self.i += 1 }
            let content = if v::is_void(&n) { H::empty() } else { self.content(&n)? };
            // white space after a doctype belongs to no element
            if doctype && self.cs.get(self.i) == Some(&'\n') { self.i += 1 }
            out.append(&H::tag_attrs(&n, attrs, content));
        }
    }
}
/// The tree denoted by rendered output, strictly: every tag closed, every attribute quoted.
pub fn read(html: &str) -> Result<H, String> { Rd { cs: html.chars().collect(), i: 0 }.content("") }
/// A model tree as it reads back: underscores in attribute names become hyphens.
pub fn norm(h: &H) -> H {
    let mut o = H::empty();
    for n in &h.0 { match n { N::Text(t) => o.append(&H::text(t)), N::Tag(t) => o.append(&H::tag_attrs(&t.name, t.attrs.iter().map(|(k, v)| (k.replace('_', "-"), v.clone())).collect(), norm(&t.content))) } }
    o
}
/// Attribute order counts here, as `==` on trees ignores it.
pub fn same(a: &H, b: &H) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(a, b)| match (a, b) { (N::Text(a), N::Text(b)) => a == b, (N::Tag(a), N::Tag(b)) => a.name == b.name && a.attrs == b.attrs && same(&a.content, &b.content), _ => false })
}
/// The text of a tree in plain-text form.
pub fn text_of(h: &H, s: &mut String) {
    for n in &h.0 { match n {
        N::Text(t) => s.push_str(t),
        N::Tag(t) => { text_of(&t.content, s); match t.name.as_str() { "p" => s.push_str("\n\n"), "hr" => s.push_str("\n\u{2015}\n\n"), n if v::is_block_tag(n) => s.push('\n'), _ => {} } }
    } }
}

// ---- C04: escaping ----

const EVIL: &[&str] = &["<", ">", "&", "\"", "'", "</b>", "</span>", "</div>", "<script>", "<b", "</", "<!--", "-->", "<!", "<?", "]]>", "&lt;", "&amp;", "&#60;", "&#x3c;", "&quot", "&nbsp;", "&lt", "=", "/", "/>", "\">", "'>", "` ", " onload=\"x\"", "$x", "@f", "{", "}", "\\", "#", " ", "\n", "\t", "x", "é", "日本", "😀", "\u{a0}", "\u{7f}", "\u{2028}", "a b", ";", "--", "&&", "&;", "&#;", "\u{feff}", "<a href=", "javascript:", "&#38;lt;", "%", "amp;", "\u{202e}", "&apos;", "´"];
pub fn evil(r: &mut Rng) -> String { let n = if r.chance(1, 20) { size(r, 40, 300) } else { 1 + r.below(5) }; (0..n).map(|_| *r.pick(EVIL)).collect() }
fn attr(n: &str, q: bool, x: E) -> AttrE { AttrE { k: AttrK::Val(n.into(), q, x), at: pos() } }
/// An expression whose value is the string, reached in some way.
fn carry(r: &mut Rng, t: &str, d: i32) -> E {
    let half = |r: &mut Rng| { let cs: Vec<char> = t.chars().collect(); let i = r.below(cs.len() + 1); (cs[..i].iter().collect::<String>(), cs[i..].iter().collect::<String>()) };
    match r.below(if d > 0 { 11 } else { 2 }) {
        0 | 1 => s(t),
        2 => let1("ev", carry(r, t, d - 1), var("ev")),
        3 => { let (a, b) = half(r); let1("ea", carry(r, &a, d - 1), let1("eb", carry(r, &b, d - 1), e(EK::Tmpl(vec![TPart::Var(name("ea")), TPart::Var(name("eb"))])))) }
        4 => { let (a, b) = half(r); let1("ea", s(&a), e(EK::Tmpl(vec![TPart::Var(name("ea")), TPart::Lit(b)]))) }
        5 => { let k = r.range(0, 2); let x = list(vec![s(t), s(t), s(t)]); let mut n = name("el"); n.path.push((false, Sel::Idx(k))); let1("el", x, e(EK::Name(n))) }
        6 => { let x = call(native_name("dict::new"), vec![narg("k", carry(r, t, d - 1))], unit_e()); let1("ed", x, e(EK::Name(dotted("ed", &["k"])))) }
        7 => { let mut p = Params::default(); p.content = Some(Param::new("ec", if r.chance(2, 3) { T::Str } else { T::Any })); let f = e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: p, body: std::rc::Rc::new(var("ec")), sig_at: pos() }))); let1("ef", f, call(name("ef"), vec![], carry(r, t, d - 1))) }
        8 => e(EK::Match { value: Box::new(carry(r, t, d - 1)), branches: vec![(P::Typed(T::Int), int(1)), (P::Var("em".into(), pos()), var("em"))] }),
        9 => { let x = call(native_name("str::split"), vec![arg(s("\u{1}\u{2}"))], s(t)); let mut n = name("el"); n.path.push((false, Sel::Idx(0))); let1("el", x, e(EK::Name(n))) }
        _ => call(native_name("str::from"), vec![], carry(r, t, d - 1)),
    }
}
fn item(r: &mut Rng, x: E) -> Item { let mut g = Gen::new(r, prof(&[])); g.as_item(x) }
fn evil_attrs(r: &mut Rng, d: i32) -> Vec<AttrE> {
    let mut names = vec!["class", "id", "title", "data_x", "href", "onclick", "z"];
    r.shuffle(&mut names);
    let k = size(r, 4, 8);
    (0..k).map(|i| { let t = evil(r); match r.below(8) {
        0 => AttrE { k: AttrK::Spread(call(native_name("dict::new"), vec![narg(names[i], carry(r, &t, d - 1))], unit_e())), at: pos() },
        1 => AttrE { k: AttrK::Bare(names[i].into()), at: pos() },
        2 => attr(names[i], true, if r.chance(1, 3) { unit_e() } else { carry(r, &t, d - 1) }),
        3 => attr(names[i], false, int(r.range(-3, 3))),
        _ => attr(names[i], r.chance(1, 5), carry(r, &t, d - 1)),
    } }).collect()
}
/// Inline content full of hostile strings.
fn evil_item(r: &mut Rng, d: i32) -> Item {
    let t = evil(r);
    let x = match r.below(if d > 0 { 16 } else { 3 }) {
        0 | 1 | 2 => carry(r, &t, d.min(2)),
        3 | 4 => { let at = evil_attrs(r, 2); let k = evil_items(r, d - 1); tag(*r.pick(&["b", "span", "i", "a", "foo", "code"]), at, k) }
        5 => { let u = evil(r); call(native_name("list::join"), vec![arg(carry(r, &u, 1))], list(vec![s(&t), tag("b", vec![], vec![]), carry(r, &t, 1)])) }
        6 => call(native_name("str::escape_html"), vec![], carry(r, &t, 1)),
        7 => { let k = evil_items(r, d - 1); call(native_name("html::escape_html"), vec![], tag("b", evil_attrs(r, 1), k)) }
        8 => { let n = *r.pick(&["kbd", "samp"]); call(name(n), vec![], carry(r, &t, 1)) }
        9 => { let k = evil_items(r, d - 1); call(name("href"), vec![arg(carry(r, &t, 1))], group(k)) }
        10 => { let u = evil(r); call(name("image"), vec![narg("alt", carry(r, &u, 1))], carry(r, &t, 1)) }
        11 => { let k = evil_items(r, d - 1); let n = *r.pick(&["class", "style"]); call(name(n), vec![arg(carry(r, &t, 1))], tag(*r.pick(&["b", "i"]), evil_attrs(r, 1), k)) }
        12 => { let k = evil_items(r, d - 1); call(name("attributes"), vec![narg("lang", carry(r, &t, 1))], tag("b", vec![], k)) }
        13 => { let k = evil_items(r, d - 1); call(name(*r.pick(&["emph", "quote", "footnote", "bold", "sup"])), vec![], group(k)) }
        14 => { let mut ts = vec![]; for c in t.chars() { if c.is_ascii_alphanumeric() { ts.push(txt(&c.to_string())) } else { ts.push(Item::Expr(let1("ch", s(&c.to_string()), var("ch")))) } } group(ts) }
        _ => { let k = evil_items(r, d - 1); group(k) }
    };
    item(r, x)
}
fn evil_items(r: &mut Rng, d: i32) -> Vec<Item> {
    let n = 1 + size(r, 3, 14);
    let mut o = vec![];
    for _ in 0..n { if !o.is_empty() && r.chance(1, 2) { o.push(Item::Ws) } o.push(evil_item(r, d)) }
    clean(&mut o);
    o
}
fn evil_block(r: &mut Rng, d: i32) -> Item {
    let x = match r.below(if d > 0 { 8 } else { 2 }) {
        0 | 1 => { let at = evil_attrs(r, 2); let k = evil_items(r, d); tag(*r.pick(&["p", "div", "h1", "pre", "li", "title", "pre", "listing", "textarea"]), at, k) }
        2 => { let n = 1 + r.below(3); let xs = (0..n).map(|_| { let t = evil(r); if r.chance(1, 3) { let k = evil_items(r, 1); group(k) } else { carry(r, &t, 1) } }).collect(); list(xs) }
        3 => { let (t, u) = (evil(r), evil(r)); let d = call(native_name("dict::new"), vec![narg("ka", carry(r, &t, 1)), narg("kb", carry(r, &u, 1))], unit_e()); let1("dd", d, var("dd")) }
        4 => { let t = evil(r); call(name("blockquote"), vec![narg("cite", carry(r, &t, 1))], { let b = evil_block(r, 0); group(vec![b]) }) }
        5 => { let f = call(native_name("regex::compile"), vec![], s(*r.pick(&["<b>", "&amp;", "[\"'<&]+", "a>b"]))); let1("rx", f, var("rx")) }
        6 => { let b1 = evil_block(r, d - 1); let b2 = evil_block(r, d - 1); tag("div", evil_attrs(r, 1), vec![b1, Item::Ws, b2]) }
        _ => { let k = evil_items(r, d); tag("ul", vec![], vec![Item::Expr(tag("li", evil_attrs(r, 1), k))]) }
    };
    item(r, x)
}
pub fn c04(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(401, idx);
    let mut items = vec![];
    for _ in 0..1 + size(&mut r, 3, 20) { if !items.is_empty() { items.push(Item::Para(pos())) } if r.chance(1, 2) { items.push(evil_block(&mut r, 3)) } else { items.extend(evil_items(&mut r, 3)) } }
    clean(&mut items);
    let src = print_items(&items, Some(&mut r));
    cx.nontrivial(&src);
    let mut it = Interp::new();
    let m = it.document(&items);
    if let Some(w) = &it.stop { cx.count(&format!("model gave up:{w}")); return Out::Skip("not modelled"); }
    let Ok(h) = m else { return Out::Skip("not modelled") };
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    let errs = it.diags.iter().filter(|d| d.cat != "Warning").count();
    if errs > 0 { cx.count("outcome:errors"); return if got.errors > 0 { Out::Skip("has errors") } else { bad("an error is missing", &src, format!("{:?}", it.diags), got.html) }; }
    if got.errors > 0 { return bad("hostile data is reported as an error", &src, h.render(), format!("{:?}", got.diags)); }
    cx.count("outcome:success");
    let want = norm(&h);
    let mut tally = |h: &H| { fn go(h: &H, a: &mut u64, t: &mut u64) { for n in &h.0 { match n { N::Text(_) => *t += 1, N::Tag(x) => { *a += x.attrs.len() as u64; go(&x.content, a, t) } } } } let (mut a, mut t) = (0, 0); go(h, &mut a, &mut t); cx.add("recovered:attributes", a); cx.add("recovered:texts", t) };
    match read(&got.html) {
        Err(e) => bad(format!("a tokenizer cannot read the output: {e}"), &src, h.render(), got.html),
        Ok(t) if !same(&t, &want) => bad("the output denotes other content than the document", &src, h.render(), got.html),
        Ok(t) => { tally(&t); Out::Ok }
    }
}
/// Explicit escaping, and computed tag names made of data.
pub fn c04_direct(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(402, idx);
    let t = evil(&mut r).trim().to_string();
    if t.is_empty() { return Out::Skip("empty"); }
    let l = lit(&t);
    let (kind, src) = match r.below(6) {
        0 => ("escape function", format!("@let(v={l}) {{<span>@str::escape_html $v</span>}}")),
        1 => ("escape method", format!("@let(v={l}) {{<span>@v::escape_html.</span>}}")),
        2 => ("escape html", format!("@let(v={l}) {{<span>@html::escape_html $v</span>}}")),
        3 => ("escape in attribute", format!("@let(v={l}) {{<span title=@str::escape_html $v/>}}")),
        4 => ("tag name", format!("@let(v={l}) {{<$v>t</>}}")),
        _ => ("attribute", format!("@let(v={l}) {{<span title=$v/>}}")),
    };
    cx.nontrivial(&src);
    cx.count(&format!("case:{kind}"));
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    if kind == "tag name" {
        let ok = is_ident(&t) || t.eq_ignore_ascii_case("!doctype");
        return match (ok, got.errors > 0) { (true, false) => Out::Ok, (false, true) if got.diags.iter().any(|d| d.cat == "Name error") => Out::Ok, _ => bad("computed tag name", &src, if ok { "a tag" } else { "a name error" }, format!("{}\n{:?}", got.html, got.diags)) };
    }
    if got.errors > 0 { return bad("hostile data is reported as an error", &src, "output", format!("{:?}", got.diags)); }
    let tree = match read(&got.html) { Ok(t) => t, Err(e) => return bad(format!("a tokenizer cannot read the output: {e}"), &src, "readable output", got.html) };
    let found = match tree.0.as_slice() { [N::Tag(p)] if p.name == "p" => match p.content.0.as_slice() { [N::Tag(sp)] if sp.name == "span" => if kind.contains("attribute") { sp.attrs.first().and_then(|a| a.1.clone()) } else { match sp.content.0.as_slice() { [N::Text(t)] => Some(t.clone()), _ => None } }, _ => None }, _ => None };
    let Some(found) = found else { return bad("unexpected structure", &src, "one span with the data", got.html) };
    if kind == "attribute" { return if found == t { Out::Ok } else { bad("the attribute's value differs from the data", &src, t, found) }; }
    // the escaped form is itself harmless markup that denotes the data
    if found.contains(['<', '>']) { return bad("the escaped text contains markup", &src, "no tags", found); }
    match decode(&found) { Ok(x) if x == t => Out::Ok, x => bad("the escaped text does not decode to the data", &src, t, format!("{found:?} decodes to {x:?}")) }
}

// ---- C06: content rules ----

const TAGS: &[&str] = &["p", "div", "span", "b", "i", "a", "ul", "ol", "menu", "li", "table", "tbody", "thead", "tfoot", "tr", "td", "th", "caption", "colgroup", "col", "dl", "dt", "dd", "h1", "h2", "h6", "hgroup", "blockquote", "section", "article", "aside", "header", "footer", "main", "nav", "address", "details", "summary", "fieldset", "figure", "figcaption", "form", "body", "html", "head", "title", "meta", "link", "base", "pre", "code", "br", "hr", "img", "input", "em", "q", "foo", "!DOCTYPE", "style", "script", "template", "noscript", "iframe", "button", "video", "source", "wbr", "label", "textarea", "listing", "select", "option", "optgroup", "legend", "canvas", "audio", "object", "area", "map", "track", "param", "embed", "picture", "ruby", "rt", "del", "ins", "sub", "sup", "small", "dialog", "search", "center", "h3", "h4", "h5", "keygen", "menuitem", "command"];
/// Random nesting, with a word of its own at every text.
fn nest(r: &mut Rng, d: i32, n: &mut u32) -> Vec<Item> {
    let k = size(r, if d > 2 { 4 } else { 3 }, 16) + (d > 3) as usize;
    let mut o: Vec<Item> = vec![];
    for _ in 0..k {
        if !o.is_empty() { match r.below(9) { 0..=3 => o.push(Item::Ws), 4 => o.push(Item::Para(pos())), _ => {} } }
        let word = |n: &mut u32| { *n += 1; format!("w{n}x") };
        match r.below(if d > 0 { 14 } else { 2 }) {
            0..=3 => o.push(txt(&word(n))),
            4 | 5 => { let w = word(n); o.push(Item::Expr(let1("st", s(&w), var("st")))) }
            6 => { let k = nest(r, d - 1, n); if !k.is_empty() { o.push(Item::Expr(group(k))) } }
            7 => { let m = r.below(3); let xs = (0..m).map(|_| { let k = nest(r, d - 2, n); group(k) }).collect(); o.push(Item::Expr(list(xs))) }
            8 => { let m = r.below(4); let xs: Vec<E> = (0..m).map(|_| { let k = nest(r, d - 2, n); group(k) }).collect(); o.push(Item::Expr(call(native_name("list::join"), vec![], list(xs)))) }
            9 => { let k = nest(r, d - 1, n); let g = group(k); o.push(Item::Expr(let1("nv", g, var("nv")))) }
            10 => { let f = *r.pick(&["block::from", "inline::from", "bold", "blockquote", "footnote"]); let k = nest(r, d - 1, n); o.push(Item::Expr(call(native_name(f), vec![], group(k)))) }
            _ => { let t = *r.pick(TAGS); let t = if r.chance(1, 3) { *r.pick(&["div", "p", "span", "li", "ul", "section", "a"]) } else { t }; let good = |t: &str| -> &[&str] { match t { "ul" | "ol" | "menu" => &["li"], "table" => &["tr", "tbody", "caption"], "tbody" | "thead" | "tfoot" => &["tr"], "tr" => &["td", "th"], "dl" => &["dt", "dd"], "html" => &["head", "body"], "head" => &["title", "meta"], "hgroup" => &["h1", "p"], _ => &[] } };
                let kids = if !good(t).is_empty() && r.chance(2, 3) { let m = r.below(3); let mut ks = vec![]; for _ in 0..m { let c = *r.pick(good(t)); let kk = if v::is_void(c) { vec![] } else { nest(r, d - 2, n) }; ks.push(Item::Expr(tag(c, vec![], kk))); if r.chance(1, 2) { ks.push(Item::Ws) } } clean(&mut ks); ks } else if v::is_void(t) { vec![] } else { nest(r, d - 1, n) };
                // a name given by a variable, in any case
                if r.chance(1, 10) {
                    let nm: String = match r.below(3) { 0 => t.to_string(), 1 => t.to_uppercase(), _ => t.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
                    let sc = kids.is_empty() && r.chance(1, 2);
                    o.push(Item::Expr(let1("tn", s(&nm), e(EK::Tag(Box::new(TagE { name: TName::Var(name("tn")), attrs: vec![], children: kids, self_close: sc }))))));
                } else { o.push(Item::Expr(tag(t, vec![], kids))) } }
        }
    }
    clean(&mut o);
    o
}
/// Does the tree satisfy the content rule of every element?
pub fn lawful(h: &H, kind: K, who: &str) -> Result<(), String> {
    for n in &h.0 {
        let nm = match n { N::Text(t) => format!("text {t:?}"), N::Tag(t) => format!("<{}>", t.name) };
        let ok = match kind {
            K::Block(_) => n.is_block(),
            K::OneOf(ns) => matches!(n, N::Tag(t) if ns.contains(&t.name.as_str())),
            K::Allow(_) => n.is_block() == h.0[0].is_block(),
            K::Inline | K::InlineNoBr => !n.is_block(),
            K::Empty => false,
        };
        if !ok { return Err(format!("{nm} directly in {who}")); }
        if let N::Tag(t) = n { lawful(&t.content, v::kind_of(&t.name), &format!("<{}>", t.name))? }
    }
    Ok(())
}
fn words(t: &str) -> Vec<String> { let mut o = vec![]; let cs: Vec<char> = t.chars().collect(); let mut i = 0; while i < cs.len() { if cs[i] == 'w' { let mut j = i + 1; while j < cs.len() && cs[j].is_ascii_digit() { j += 1 } if j > i + 1 && cs.get(j) == Some(&'x') { o.push(cs[i..=j].iter().collect()); i = j + 1; continue; } } i += 1 } o }
pub fn c06(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(601, idx);
    let mut n = 0;
    let d = 2 + size(&mut r, 4, 7) as i32;
    let items = nest(&mut r, d, &mut n);
    let src = print_items(&items, Some(&mut r));
    cx.nontrivial(&src);
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    if got.errors == 0 {
        cx.count("outcome:success");
        let tree = match read(&got.html) { Ok(t) => t, Err(e) => return bad(format!("a tokenizer cannot read the output: {e}"), &src, "well-formed output", got.html) };
        if let Err(e) = lawful(&tree, K::Block("p"), "the document") { return bad(format!("the output breaks the content rules: {e}"), &src, "lawful output", got.html); }
        let (a, b) = ((1..=n).map(|i| format!("w{i}x")).collect::<Vec<_>>(), words(&got.html));
        if a != b { return bad("words of the document are lost, repeated or moved", &src, format!("{a:?}"), format!("{b:?}\n{}", got.html)); }
        fn tally(cx: &mut Cx, h: &H, p: &str) { for n in &h.0 { match n { N::Tag(t) => { cx.count(&format!("child of {p}")); tally(cx, &t.content, &t.name) } N::Text(_) => cx.count(&format!("text in {p}")) } } }
        tally(cx, &tree, "document");
    } else { cx.count("outcome:errors") }
    p_diff::judge(cx, &items, &src, Mode::Coarse)
}

// ---- C07: normal form and equality ----

/// A few attributes which differ in little.
fn few_attrs(r: &mut Rng) -> Vec<AttrE> {
    let mut ns = vec!["title", "lang", "class"];
    r.shuffle(&mut ns);
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    ns.truncate(n);
    ns.into_iter().map(|n| match r.below(5) { 0 => AttrE { k: AttrK::Bare(n.into()), at: pos() }, 1 => attr(n, false, s("")), 2 => attr(n, false, s("u")), _ => attr(n, false, s("t")) }).collect()
}
/// The same content without attributes.
fn strip(h: &H) -> H { H(h.0.iter().map(|n| match n { N::Tag(t) => N::Tag(Rc::new(TagN { name: t.name.clone(), attrs: vec![], content: strip(&t.content) })), x => x.clone() }).collect()) }
/// Changes the attributes, or else the name, of some element.
fn retouch(r: &mut Rng, x: &mut E) {
    if let EK::Tag(t) = &mut x.k {
        if !t.children.is_empty() && r.chance(1, 2) { let i = r.below(t.children.len()); if let Item::Expr(y) = &mut t.children[i] { return retouch(r, y); } }
        if r.chance(1, 3) { r.shuffle(&mut t.attrs) } else if !t.attrs.is_empty() && r.chance(2, 3) {
            let i = r.below(t.attrs.len());
            let n = match &t.attrs[i].k { AttrK::Bare(n) | AttrK::Val(n, ..) => n.clone(), _ => return };
            t.attrs[i].k = match r.below(3) { 0 => AttrK::Bare(n), 1 => AttrK::Val(n, false, s("")), _ => AttrK::Val(n, false, s("t")) };
        } else if r.chance(2, 3) { t.attrs = few_attrs(r) } else if let TName::Lit(n) = &mut t.name { *n = match n.as_str() { "b" => "i", "i" => "b", "div" => "section", "p" => "div", x => x }.to_string() }
    }
}
/// Inline or block pieces as (expression, model).
fn piece(r: &mut Rng, block: bool, d: i32) -> E {
    match r.below(if d > 0 { 6 } else { 2 }) {
        _ if block => { let k = pieces(r, false, d - 1); let kids = k.into_iter().map(|x| item(r, x)).collect(); let a = if r.chance(1, 3) { few_attrs(r) } else { vec![] }; tag(*r.pick(&["p", "div", "pre"]), a, kids) }
        0..=2 => { let t = *r.pick(&["a", "b", "ab", "x", "é", "日", "a b", "<", "&"]); s(t) }
        3 => unit_e(),
        4 => { let a = if r.chance(1, 4) { few_attrs(r) } else { vec![] }; tag("br", a, vec![]) }
        _ => { let k = pieces(r, false, d - 1); let kids = k.into_iter().map(|x| item(r, x)).collect(); tag(*r.pick(&["b", "i", "a"]), few_attrs(r), kids) }
    }
}
fn pieces(r: &mut Rng, block: bool, d: i32) -> Vec<E> { let n = size(r, 5, if d > 1 { 20 } else { 8 }); (0..n).map(|_| piece(r, block, d)).collect() }
/// Joins pieces in an arbitrary grouping.
fn regroup(r: &mut Rng, xs: &[E], d: i32) -> E {
    if xs.is_empty() { return match r.below(3) { 0 => unit_e(), 1 => group(vec![]), _ => call(native_name("list::join"), vec![], list(vec![])) }; }
    if xs.len() == 1 && r.chance(1, 2) {
        // text may be split in two
        if let EK::Str(t) = &xs[0].k { let cs: Vec<char> = t.chars().collect(); if cs.len() > 1 && r.chance(1, 2) { let i = r.below(cs.len() + 1); let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect()); return call(native_name("list::join"), vec![], list(vec![s(&a), s(&b)])); } }
        return xs[0].clone();
    }
    if d <= 0 { return call(native_name("list::join"), vec![], list(xs.to_vec())); }
    match r.below(9) {
        // split in parts, each grouped in its own way
        0..=2 => {
            let mut parts = vec![]; let mut i = 0;
            while i < xs.len() { let j = i + r.below(xs.len() - i + 1); parts.push(regroup(r, &xs[i..j], d - 1)); i = j; if parts.len() > 6 { parts.push(regroup(r, &xs[i..], d - 1)); break } }
            if r.chance(1, 3) { parts.push(unit_e()) }
            call(native_name("list::join"), vec![], list(parts))
        }
        3 => { let i = r.below(xs.len() + 1); let (a, b) = (regroup(r, &xs[..i], d - 1), regroup(r, &xs[i..], d - 1)); let (a, b) = (item(r, a), item(r, b)); group(vec![a, b]) }
        4 => { let x = regroup(r, xs, d - 1); let1("gv", x, var("gv")) }
        5 => { let mut p = Params::default(); p.content = Some(Param::new("gc", if r.chance(1, 2) { T::Html } else { T::Any })); let f = e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: p, body: std::rc::Rc::new(var("gc")), sig_at: pos() }))); let x = regroup(r, xs, d - 1); let1("gf", f, call(name("gf"), vec![], x)) }
        6 => { let x = regroup(r, xs, d - 1); call(native_name("list::join"), vec![], call(native_name("list::html_nodes"), vec![], x)) }
        7 => { let x = regroup(r, xs, d - 1); let x = item(r, x); e(EK::Match { value: Box::new(tag("div", vec![], vec![x])), branches: vec![(P::Tag { name: PName::Any, attrs: vec![], spread: None, content: Box::new(P::Var("mc".into(), pos())) }, var("mc")), (P::Ignore, s("no match"))] }) }
        _ => { let its = xs.iter().map(|x| item(r, x.clone())).collect(); group(its) }
    }
}
pub fn c07(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(701, idx);
    let block = r.chance(1, 4);
    let xs = pieces(&mut r, block, 3);
    // nested contents are regrouped too, by building the other value from regrouped children
    let (a, b) = (regroup(&mut r, &xs, 3), regroup(&mut r, &xs, 3));
    // a third value, mostly different
    let mut ys = xs.clone();
    match r.below(7) { 5 | 6 => { if !ys.is_empty() { let i = r.below(ys.len()); retouch(&mut r, &mut ys[i]) } } 0 => ys.push(s("z")), 1 => { let i = r.below(ys.len() + 1); let p = piece(&mut r, block, 2); ys.insert(i, p) } 2 => { if !ys.is_empty() { let i = r.below(ys.len()); ys.remove(i); } } 3 => { let i = r.below(ys.len() + 1); ys.insert(i, tag(if block { "p" } else { "b" }, vec![], vec![])) } _ => r.shuffle(&mut ys) }
    let c = regroup(&mut r, &ys, 2);
    let mut it = Interp::new();
    let (Ok(ma), Ok(mb), Ok(mc)) = (it.eval(&a, &T::Html), it.eval(&b, &T::Html), it.eval(&c, &T::Html)) else { return Out::Skip("not modelled") };
    let (Some(ha), Some(hb), Some(hc)) = (ma.as_html(), mb.as_html(), mc.as_html()) else { return Out::Skip("not html") };
    if ha != hb { return Out::Skip("the two forms denote different content"); }
    let show = |n: &str| Item::Expr(tag("section", vec![], vec![Item::Expr(tag("div", vec![], vec![Item::Expr(var(n))]))]));
    let q = |a: &str, b: &str| Item::Expr(tag("pre", vec![], vec![Item::Expr(call(name("cmp"), vec![arg(var(a)), arg(var(b))], unit_e()))]));
    let body = vec![show("va"), show("vb"), q("va", "vb"), q("vb", "va"), q("va", "va"), q("va", "vc"), q("vc", "va")];
    let doc = let1("va", a, let1("vb", b, let1("vc", c, group(body))));
    let text = print_items(&[Item::Expr(doc)], Some(&mut r));
    let src = format!("@fn cmp($_a: any, $_b: any) . -> {{@str::from @list::contains($_a) [$_b] : @str::from @list::len @list::html_nodes $_a : @str::from @list::len @list::html_nodes $_b}}\n{text}");
    cx.nontrivial(&src);
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    if got.errors > 0 { return bad("unexpected errors", &src, "output", format!("{:?}", got.diags)); }
    let tree = match read(&got.html) { Ok(t) => t, Err(e) => return bad(format!("a tokenizer cannot read the output: {e}"), &src, "well-formed output", got.html) };
    let n = |i: usize| match tree.0.get(i) { Some(N::Tag(t)) => t.content.clone(), _ => H::empty() };
    if tree.0.len() != 7 { return bad("unexpected structure", &src, "7 elements", got.html); }
    if !same(&n(0), &n(1)) { return bad("equal content grouped differently is rendered differently", &src, n(0).render(), n(1).render()); }
    let val = |x: bool, a: &H, b: &H| format!("{} : {} : {}", if x { "True" } else { "False" }, a.0.len(), b.0.len());
    let eq = ha == hc;
    cx.count(if eq { "pair:same third" } else { "pair:different third" });
    cx.count(if block { "content:block" } else { "content:inline" });
    cx.add("values compared", 5);
    if !eq && strip(&ha) == strip(&hc) { cx.count("pair:attributes alone differ") }
    for (i, want, what) in [(2, val(true, &ha, &hb), "equal content grouped differently compares or counts differently"), (3, val(true, &hb, &ha), "equality is not symmetric"), (4, val(true, &ha, &ha), "a value is not equal to itself"), (5, val(eq, &ha, &hc), "comparison of different content"), (6, val(eq, &hc, &ha), "comparison of different content")] {
        let t = n(i).render();
        if t != want { return bad(what, &src, want, t); }
    }
    Out::Ok
}
/// Equality of arbitrary values through lists and patterns.
pub fn c07_values(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(702, idx);
    let xs: Vec<E> = (0..2).map(|_| p_diff::any(&mut r, 2)).collect();
    // whether functions are equal is not specified
    if format!("{xs:?}").contains("FnDef") { return Out::Skip("functions"); }
    let (a, b) = (xs[0].clone(), if r.chance(1, 3) { xs[0].clone() } else { xs[1].clone() });
    let q = |a: E, b: E| call(native_name("list::contains"), vec![arg(a)], list(vec![b]));
    let all = vec![q(var("va"), var("vb")), q(var("vb"), var("va")), q(var("va"), var("va")), q(list(vec![var("va")]), list(vec![var("vb")])), q(call(native_name("dict::new"), vec![narg("k", var("va"))], unit_e()), call(native_name("dict::new"), vec![narg("k", var("vb"))], unit_e()))];
    let x = let1("va", a, let1("vb", b, list(all)));
    p_diff::exprs(cx, &mut r, vec![x], Mode::Coarse)
}

// ---- C08: tag names and attributes ----

pub fn c08(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(801, idx);
    const AN: &[&str] = &["a", "b", "class", "id", "data_x", "data_long_name", "data_a_b_c_d", "x__y___z", "href", "x1", "aria_label", "title", "_u", "k_"];
    let k = size(&mut r, 6, 13);
    let mut used: Vec<(String, Option<String>)> = vec![];
    let (mut dup, mut typ) = (false, false);
    let (mut statics, mut sdup): (Vec<&str>, bool) = (vec![], false);
    let mut defs = String::new();
    let mut attrs = String::new();
    let mut names: Vec<&str> = AN.to_vec();
    r.shuffle(&mut names);
    let mut put = |used: &mut Vec<(String, Option<String>)>, n: &str, v: Option<String>| { if used.iter().any(|u| u.0 == n) { dup = true } else { used.push((n.to_string(), v)) } };
    for i in 0..k {
        let n = if r.chance(1, 9) && i > 0 { names[r.below(i)] } else { names[i % names.len()] };
        let up = |r: &mut Rng, n: &str| if r.chance(1, 6) { n.to_uppercase() } else { n.to_string() };
        let word = format!("v{i}{}", r.pick(&["", " w", "é", "\"", "<"]));
        let vn = format!("q{i}");
        match r.below(12) {
            0 => { let nn = n.to_string(); attrs += &format!(" {nn}"); put(&mut used, n, None) }
            1 => { let b = r.chance(1, 2); attrs += &format!(" {n}={}", if b { "True" } else { "False" }); put(&mut used, n, Some(if b { "True" } else { "False" }.into())) }
            2 => { let x = p_diff::iv(&mut r); attrs += &format!(" {n}={x}"); put(&mut used, n, Some(x.to_string())) }
            3 => { attrs += &format!(" {n}?=."); }
            4 => { attrs += &format!(" {n}?={}", lit(&word)); put(&mut used, n, Some(word)) }
            5 => { defs += &format!("{vn}=., "); attrs += &format!(" {n}?=${vn}"); }
            6 => { defs += &format!("{vn}={}, ", lit(&word)); attrs += &format!(" {n}=${vn}"); put(&mut used, n, Some(word)) }
            7 => { // spread of a dictionary
                let m = r.below(4);
                let mut ks: Vec<&str> = AN.to_vec(); r.shuffle(&mut ks);
                let mut d = String::from("@dict::new(");
                for j in 0..m { let kn = if r.chance(2, 3) { names[(i + 6 + j) % names.len()] } else { ks[j] }; if d.contains(&format!(" {kn}=")) { continue; }
                    match r.below(5) { 0 => { d += &format!(" {kn}=., "); put(&mut used, kn, None) } 1 => { d += &format!(" {kn}=7, "); put(&mut used, kn, Some("7".into())) } _ => { let w = format!("s{i}{j}"); d += &format!(" {kn}=`{w}`, "); put(&mut used, kn, Some(w)) } } }
                d += ").";
                let d = d.replace(", ).", ").");
                defs += &format!("{vn}={d}, "); attrs += &format!(" **${vn}");
            }
            8 if r.chance(1, 4) => { attrs += &format!(" {n}={}", r.pick(&["[1]", "{<b>x</b>}", "@dict::new().", ".", "[]"])); typ = true; }
            8 => continue,
            _ => { let n2 = up(&mut r, n); if n2 != n { continue; } attrs += &format!(" {n}={}", lit(&word)); put(&mut used, n, Some(word)) }
        }
        if attrs.split_whitespace().last().map_or(true, |a| !a.starts_with("**")) { if statics.contains(&n) { sdup = true } statics.push(n) }
    }
    let dup = dup || sdup;
    let (form, el) = match r.below(8) {
        0 => ("computed", { let n = *r.pick(&["b", "SPAN", "Foo", "q_x", "ß", "b c", "", "1a", "b>", "!doctype", "p<", "x-y", "_z", "é", "br", "i\n"]); n.to_string() }),
        1 => ("upper case", r.pick(&["B", "SpAn", "FOO", "I"]).to_string()),
        _ => ("literal", r.pick(&["b", "span", "i", "foo", "img", "br", "q_x"]).to_string()),
    };
    let src = if form == "computed" { format!("@let({defs}tn={}) {{<$tn{attrs} />}}", lit(&el)) } else if defs.is_empty() { format!("<{el}{attrs}{}", if v::is_void(&el) { ">".to_string() } else { r.pick(&[" />", "></>", "></b>"]).replace("</b>", &format!("</{}>", if r.chance(1, 2) { el.to_uppercase() } else { el.to_lowercase() })) }) } else { format!("@let({}) {{<{el}{attrs}{}}}", defs.trim_end_matches(", "), if v::is_void(&el) { ">" } else { " />" }) };
    cx.nontrivial(&src);
    cx.count(&format!("name:{form}"));
    let badname = form == "computed" && !is_ident(&el) && !el.eq_ignore_ascii_case("!doctype");
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    if dup || typ || badname {
        cx.count(if badname { "error:name" } else if dup { "error:duplicate" } else { "error:type" });
        return if got.errors > 0 { Out::Ok } else { bad("a faulty tag is accepted", &src, format!("an error (duplicate {dup}, type {typ}, name {badname})"), got.html) };
    }
    if got.errors > 0 { return bad("a valid tag is reported as an error", &src, format!("{used:?}"), format!("{:?}", got.diags)); }
    cx.add("attributes read back", used.len() as u64);
    let name = if el.eq_ignore_ascii_case("!doctype") { "!DOCTYPE".to_string() } else { el.to_lowercase() };
    let t = H::tag_attrs(&name, used.into_iter().map(|(k, v)| (k.replace('_', "-"), v)).collect(), H::empty());
    let want = if v::is_block_tag(&name) { t } else { H::tag("p", t) };
    match read(&got.html) { Ok(t) if same(&t, &want) => Out::Ok, Ok(_) => bad("the tag's name or attributes differ from those written", &src, want.render(), got.html), Err(e) => bad(format!("a tokenizer cannot read the output: {e}"), &src, want.render(), got.html) }
}

// ---- C25: plain text ----

/// The plain text of a document is the text of its HTML.
pub fn text_agrees(cx: &mut Cx, src: &str, got: &real::Real) -> Out {
    let tree = match read(&got.html) { Ok(t) => t, Err(e) => return bad(format!("a tokenizer cannot read the output: {e}"), src, "well-formed output", &got.html) };
    let mut t = String::new();
    text_of(&tree, &mut t);
    cx.add("characters of text compared", t.chars().count() as u64);
    if t != got.text { return bad("plain text differs from the text of the HTML output", src, t, &got.text); }
    Out::Ok
}
pub fn c25(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2501, idx);
    let items = match r.below(3) {
        0 => { let mut n = 0; let mut v = nest(&mut r, 4, &mut n); v.push(Item::Para(pos())); v.push(Item::Expr(tag(*r.pick(&["hr", "br", "h1", "pre", "li"]), vec![], vec![]))); clean(&mut v); v }
        1 => { let mut v = vec![evil_block(&mut r, 2), Item::Para(pos())]; v.extend(evil_items(&mut r, 2)); v.push(Item::Para(pos())); v.push(Item::Expr(tag("hr", vec![], vec![]))); clean(&mut v); v }
        _ => { let p = Prof { markup: 8, ..prof(&["tag", "group"]) }; let items = Gen::new(&mut r, p).program(); let mut it = Interp::new(); let _ = it.document(&items); if it.stop.is_some() { return Out::Skip("not modelled"); } items }
    };
    let src = print_items(&items, Some(&mut r));
    cx.nontrivial(&src);
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &src, "output or diagnostics", e) };
    if got.errors > 0 { return Out::Skip("has errors"); }
    cx.count("outcome:success");
    text_agrees(cx, &src, &got)
}
