//! Phases about unique ids, HTML parsing, code listings and the standard
//! library's helpers.
use crate::gen::*;
use crate::p_diff;
use crate::p_html::{lit, read, same, evil};
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::value::{self as v, H, N};

fn tagh(n: &str, c: H) -> H { H::tag(n, c) }
fn cls(h: &N, c: &str) -> bool { matches!(h, N::Tag(t) if t.attrs.iter().any(|(k, x)| k == "class" && x.as_deref() == Some(c))) }
pub fn plain(h: &H) -> String { h.0.iter().map(|n| match n { N::Text(t) => t.clone(), N::Tag(t) => plain(&t.content) }).collect() }
fn go(src: &str) -> Result<real::Real, Out> { real::compile(src).map_err(|e| bad("the compiler failed internally", src, "output or diagnostics", e)) }
macro_rules! tri { ($x:expr) => { match $x { Ok(x) => x, Err(o) => return o } } }
fn tree(src: &str, got: &real::Real) -> Result<H, Out> { read(&got.html).map_err(|e| bad(format!("a tokenizer cannot read the output: {e}"), src, "well-formed output", &got.html)) }

/// A size: usually below `usual`, now and then below `big`.
pub fn size(r: &mut Rng, usual: usize, big: usize) -> usize { if r.chance(1, 25) { r.below(big) } else { r.below(usual) } }

// ---- C18 ----

fn derived(t: &str, max: usize) -> Option<String> {
    if !t.is_ascii() { return None; }
    let mut o = String::new();
    if crate::ast::is_ident(t) { o.push_str(&t[..t.len().min(max)]) }
    else {
        for (i, c) in t.chars().enumerate() {
            if i == 0 { o.push(if c.is_ascii_alphabetic() { c } else { '_' }) }
            else if o.len() >= max { break }
            else if c.is_ascii_alphanumeric() { o.push(c) }
            else if !o.ends_with('_') { o.push('_') }
        }
        if o.is_empty() { o.push('_') }
    }
    Some(o.to_lowercase())
}
pub fn c18(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1801, idx);
    let r = &mut r;
    let n = match r.below(12) { 0 => 150 + r.below(200), 1 | 2 => 20 + r.below(60), _ => 2 + r.below(14) };
    // few different bases, so that requests collide
    let mut bases: Vec<String> = (0..1 + r.below(5)).map(|_| match r.below(10) {
        0 => evil(r), 1 => rich(r, 5), 2 => { let k = if r.chance(1, 4) { 120 + r.below(20) } else { 1 + r.below(140) }; "ab".repeat(k) } 3 => { let b = *r.pick(&["a", "ab", "x_", "_", "A"]); format!("{b}_{}", 1 + r.below(12)) } 4 => r.pick(&["Hello World", "hello world", "hello_world", "Hello  World!", "HELLO-WORLD"]).to_string(),
        5 => r.pick(&["", " ", "1", "42", "-", "__", "_2", "a_2", "a_2_2", "a_10", "a_9", "a_99"]).to_string(), 6 => r.pick(&["Ünïcode", "日本語", "ß", "straße", "é", "İ", "😀", "ﬁ", "Ⅷ", "Ж"]).to_string(), 7 => p_diff::string(r), _ => r.pick(&["a", "A", "b", "abc", "ABC", "section", "Section"]).to_string(),
    }).collect();
    let mut seen: Vec<String> = vec![];
    let fixed = if r.chance(1, 2) { Some(None) } else if r.chance(1, 2) { Some(Some(*r.pick(&[1i64, 2, 3, 4, 5, 8, 12, 256, 300]))) } else { None };
    let mut reqs: Vec<(String, Option<i64>)> = vec![];
    let mut body = String::new();
    let mut i = 0;
    while i < n {
        let mx = fixed.unwrap_or_else(|| if r.chance(1, 3) { None } else { Some(*r.pick(&[1i64, 2, 3, 4, 5, 6, 8, 10, 20, 127, 128, 129, 255, 256, 257, 260, 1000, 65536 + 7, (1 << 32) + 4, i64::MAX])) });
        // sometimes a request spells an id that was, or will be, generated
        let t = if r.chance(1, 5) && !reqs.is_empty() { let (b, m) = reqs[r.below(reqs.len())].clone(); let b = derived(&b, m.unwrap_or(128) as usize).unwrap_or(b); format!("{b}_{}", 2 + r.below(12)) } else { bases[r.below(bases.len())].clone() };
        if r.chance(1, 30) { bases.push(t.clone()) }
        let arg = |m: Option<i64>| m.map_or(String::new(), |m| format!("(max_length={m})"));
        match r.below(8) {
            0 => { body += &format!("@let(v={}) {{<li>@v::unique_id{}.</li>}}\n", lit(&t), arg(mx)); reqs.push((t, mx)) }
            1 => { let many = r.chance(1, 250); let mx = if many { Some(*r.pick(&[3i64, 4, 5, 6, 7, 8, 9])) } else { mx }; let k = if many { cx.count("id:thousand requests"); 1005 + r.below(100) } else { 1 + r.below(6) }; body += &format!("@list::join @list::map(@fn $t -> <li>@str::unique_id{} $t</li>) [{}]\n", arg(mx), vec![lit(&t); k].join(", ")); for _ in 0..k { reqs.push((t.clone(), mx)) } i += k - 1 }
            2 => { body += &format!("@let(f=@function::bind($str::unique_id{}) .) {{<li>@f {}</li>}}\n", mx.map_or(String::new(), |m| format!(", max_length={m}")), lit(&t)); reqs.push((t, mx)) }
            3 => { body += &format!("@fn g{i} . -> @str::unique_id{} {}\n<li>@g{i}.</li>\n", arg(mx), lit(&t)); reqs.push((t, mx)) }
            _ => { body += &format!("<li>@str::unique_id{} {}</li>\n", arg(mx), lit(&t)); reqs.push((t, mx)) }
        }
        i += 1;
    }
    seen.reserve(n);
    let src = format!("<ul>{body}</ul>");
    cx.nontrivial(&src);
    let got = tri!(go(&src));
    if got.errors > 0 { return bad("a request for a unique id fails", &src, "ids", format!("{:?}", got.diags)); }
    let t = tri!(tree(&src, &got));
    let mut ids: Vec<String> = vec![];
    if let [N::Tag(ul)] = t.0.as_slice() { for li in &ul.content.0 { if let N::Tag(li) = li { ids.push(plain(&li.content)) } } }
    if ids.len() != reqs.len() { return bad("unexpected structure", &src, format!("{} ids", reqs.len()), got.html); }
    let mut used = std::collections::HashSet::new();
    for ((b, m), id) in reqs.iter().zip(&ids) {
        let max = m.unwrap_or(128) as usize;
        let say = |what: &str, want: String| bad(what, &src, want, format!("request {b:?} with maximum {max} gave {id:?}; earlier ids: {used:?}"));
        let ok = { let mut c = id.chars(); matches!(c.next(), Some('a'..='z' | '_')) && c.all(|c| matches!(c, 'a'..='z' | '0'..='9' | '_')) };
        if !ok { return say("a unique id is not a valid lowercase identifier", "[a-z_][a-z0-9_]*".into()); }
        if used.contains(id) { return say("a unique id was given twice", "a new id".into()); }
        let base = derived(b, max);
        if let Some(d) = &base {
            if !used.contains(d) { if id != d { return say("the first id for a text is not the text's own", d.clone()); } cx.count("id:own") }
            else {
                cx.count("id:made unique");
                let made = id.rsplit_once('_').map_or(false, |(p, n)| d.starts_with(p) && !p.is_empty() && n.parse::<u32>().map_or(false, |n| n >= 2 && !n.to_string().is_empty()));
                if !made { return say("an id made unique is not derived from the text", format!("a prefix of {d:?}, '_' and a number")); }
            }
        } else { cx.count("id:from Unicode") }
        if id.len() > max {
            cx.count("id:longer than the maximum");
            // longer only if no shorter form is free
            let (p, k) = id.rsplit_once('_').unwrap_or((id, ""));
            let forced = !k.is_empty() && (p.len() == 1 || max < 3 || (1..p.len()).all(|j| p.len() - j + 1 + k.len() > max && used.contains(&format!("{}_{k}", &p[..j]))));
            if !forced { return say("a unique id is longer than the maximum without need", format!("at most {max} characters")); }
        }
        used.insert(id.clone());
    }
    cx.add("ids observed", ids.len() as u64);
    Out::Ok
}
/// Maximum lengths which make no sense are errors; ids last for one compilation.
pub fn c18_edges(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1802, idx);
    let b = match r.below(3) { 0 => evil(&mut r), 1 => rich(&mut r, 4), _ => "a".into() };
    if r.chance(1, 2) {
        let m = *r.pick(&[0i64, -1, -128, i64::MIN]);
        let src = format!("<b>@str::unique_id(max_length={m}) {}</b>", lit(&b));
        cx.nontrivial(&src); cx.count("edge:bad maximum");
        let got = tri!(go(&src));
        return if got.errors == 1 && got.diags[0].cat == "Runtime error" { Out::Ok } else { bad("a maximum length below one", &src, "one runtime error", format!("{:?} {}", got.diags, got.html)) };
    }
    // the same document twice in one batch has the same ids
    let src = format!("<ul>{}</ul>", (0..3).map(|_| format!("<li>@str::unique_id {}</li>", lit(&b))).collect::<String>());
    cx.nontrivial(&src); cx.count("edge:same document twice");
    let mut ctx = real::context();
    let a = tri!(real::guard(|| real::compile_in(&mut ctx, &src)).and_then(|x| x).map_err(|e| bad("the compiler failed internally", &src, "output", e)));
    let b = tri!(go(&src));
    if a.html != b.html { return bad("ids differ between compilations", &src, a.html, b.html); }
    Out::Ok
}

// ---- C24 ----

const CHARS: &[(&str, &str)] = &[("a", "a"), ("b", "b"), ("x y", "x y"), (" ", " "), ("\n", "\n"), ("é", "é"), ("é", "&eacute;"), ("日", "日"), ("😀", "😀"), ("😀", "&#x1F600;"), ("<", "&lt;"), ("<", "&#60;"), ("<", "&#x3c;"), (">", "&gt;"), (">", ">"), ("&", "&amp;"), ("&", "&#38;"), ("& ", "& "), ("\"", "\""), ("\"", "&quot;"), ("'", "'"), ("'", "&#39;"), ("\u{a0}", "&nbsp;"), ("\u{a0}", "\u{a0}"), ("©", "&copy;"), ("—", "&mdash;"), ("…", "&hellip;"), ("→", "&rarr;"), ("&lt;", "&amp;lt;"), ("&amp;", "&amp;amp;"), ("<b>", "&lt;b&gt;"), ("$x", "$x"), ("@f", "@f"), ("{", "{"), ("}", "}"), ("`", "`"), ("\\", "\\"), ("#", "#"), ("-->", "--&gt;"), ("\t", "\t"), ("=", "="), ("/", "/"), ("\u{2028}", "\u{2028}"), ("ﬁ", "ﬁ"), ("∉", "&notin;"), ("fj", "&fjlig;"), ("0", "0"), (";", ";")];
fn enc(r: &mut Rng, n: usize) -> (String, String) { let (mut a, mut b) = (String::new(), String::new()); for _ in 0..n { let (x, y) = *r.pick(CHARS); a += x; b += y } (a, b) }
fn html_attrs(r: &mut Rng, foreign: bool, out: &mut String) -> Vec<(String, Option<String>)> {
    let mut names = vec!["id", "class", "title", "data-x", "lang", "data-some-name", "href", "x1", "aria-label", "style", "xml:lang", "v-on:click.stop", "@click", "xlink:href", "xmlns:q", "data.x", ":b"];
    if foreign { names.extend(["xlink:title", "xml:space", "xmlns:xlink", "xlink:show", "xml:base", "viewbox", "gradientunits", "definitionurl", "xmlns"]) }
    r.shuffle(&mut names);
    let k = if r.chance(1, 2) { 0 } else { size(r, 4, 11) };
    let mut v = vec![];
    for n in names.into_iter().take(k) {
        out.push_str(*r.pick(&[" ", " ", "  ", "\n", " \t"]));
        if r.chance(1, 6) { out.push_str(&n.to_uppercase()) } else { out.push_str(n) }
        let l = size(r, 5, 200);
        let (a, b) = enc(r, l);
        let eq = *r.pick(&["=", "=", "=", " = ", "= "]);
        match r.below(6) {
            0 => { let w = *r.pick(&["v1", "12", "a-b", "x.y", "é"]); out.push_str(&format!("{eq}{w}")); v.push((n.to_string(), Some(w.to_string()))) }
            1 => { out.push_str(&format!("{eq}'{}'", b.replace('\'', "&#39;"))); v.push((n.to_string(), Some(a))) }
            2 => v.push((n.to_string(), Some(String::new()))),
            _ => { out.push_str(&format!("{eq}\"{}\"", b.replace('"', "&quot;"))); v.push((n.to_string(), Some(a))) }
        }
    }
    v
}
fn elem(r: &mut Rng, n: &str, out: &mut String, f: impl FnOnce(&mut Rng, &mut String) -> H) -> H { elem_in(r, false, n, out, f) }
fn elem_in(r: &mut Rng, foreign: bool, n: &str, out: &mut String, f: impl FnOnce(&mut Rng, &mut String) -> H) -> H {
    out.push('<');
    let cased = |r: &mut Rng| if r.chance(1, 7) { n.to_uppercase() } else { n.to_string() };
    let t = cased(r); out.push_str(&t);
    let at = html_attrs(r, foreign, out);
    if r.chance(1, 10) { out.push(' ') }
    if v::is_void(n) { if r.chance(1, 3) { out.push_str(" /") } out.push('>'); return H::tag_attrs(n, at, H::empty()); }
    out.push('>');
    let st = out.len();
    let c = f(r, out);
    // a newline at the start of these is not content, with or without one that is
    if v::eats_newline(n) && (out[st..].starts_with('\n') || r.chance(1, 5)) { out.insert(st, '\n') }
    let t = cased(r);
    out.push_str(&format!("</{t}{}>", if r.chance(1, 9) { " " } else { "" }));
    H::tag_attrs(n, at, c)
}
fn text24(r: &mut Rng, out: &mut String) -> H { let k = 1 + size(r, 4, 300); let (a, b) = enc(r, k); out.push_str(&b); if a.ends_with('&') || b.ends_with("& ") { out.push_str("<!---->") } H::text(&a) }
/// Text of an element whose contents are not parsed for character references: nothing in it needs escaping.
fn raw24(r: &mut Rng, out: &mut String) -> H { let t: String = (0..size(r, 5, 60)).map(|_| *r.pick(&["a", "b ", "{", "}", ":", ";", "=", "\n", "/", "é", "$x", "@f", "#", "\\", "(", ")", "// c\n", "0"])).collect(); out.push_str(&t); H::text(&t) }
fn cdata24(r: &mut Rng, out: &mut String) -> H { let t: String = (0..size(r, 5, 60)).map(|_| *r.pick(&["a", "<", ">", "&", "&amp;", "<b>", "]", "]]", "\n", "\"", "é"])).collect::<String>().replace("]]>", "]] >") + "x"; out.push_str(&format!("<![CDATA[{t}]]>")); H::text(&t) }
/// Contents of svg and math elements.
fn foreign24(r: &mut Rng, d: i32, math: bool, out: &mut String) -> H {
    let mut h = H::empty();
    for _ in 0..size(r, 3, 12) {
        let t = match r.below(if d > 0 { 6 } else { 3 }) {
            0 => { let t = text24(r, out); out.push_str("<!---->"); t }
            1 => cdata24(r, out),
            2 => {
                let n = if math { *r.pick(&["mi", "mo", "mn", "mtext"]) } else { *r.pick(&["path", "circle", "use", "lineargradient", "desc", "fegaussianblur"]) };
                if r.chance(1, 2) { let at = { out.push_str(&format!("<{n}")); html_attrs(r, true, out) }; out.push_str(" />"); H::tag_attrs(n, at, H::empty()) } else { elem_in(r, true, n, out, |r, out| text24(r, out)) }
            }
            _ => { let n = if math { *r.pick(&["mrow", "mfrac", "semantics"]) } else { *r.pick(&["g", "a", "defs", "text", "clippath", "symbol"]) }; elem_in(r, true, n, out, |r, out| foreign24(r, d - 1, math, out)) }
        };
        h.append(&t);
    }
    h
}
fn inline24(r: &mut Rng, d: i32, ctx: &mut Vec<&'static str>, out: &mut String) -> H {
    let mut h = H::empty();
    for _ in 0..size(r, 4, 14) {
        match r.below(if d > 0 { 15 } else { 5 }) {
            0..=4 => { let t = text24(r, out); h.append(&t) }
            5 => {
                let t = match r.below(8) {
                    0 => elem(r, "textarea", out, |r, out| { let k = size(r, 5, 60); let (a, b) = enc(r, k); let (a, b) = if r.chance(1, 2) { (format!("\n{a}"), format!("\n{b}")) } else { (a, b) }; out.push_str(&b); H::text(&a) }),
                    1 if !ctx.contains(&"noscript") => { ctx.push("noscript"); let t = elem(r, "noscript", out, |r, out| inline24(r, d - 1, ctx, out)); ctx.pop(); t }
                    2 => elem_in(r, true, "svg", out, |r, out| foreign24(r, d, false, out)),
                    3 => elem_in(r, true, "math", out, |r, out| foreign24(r, d, true, out)),
                    4 => elem(r, "template", out, |r, out| inline24(r, d - 1, &mut vec![], out)),
                    5 => { let n = *r.pick(&["script", "style", "iframe"]); elem(r, n, out, raw24) }
                    6 if !ctx.contains(&"select") => elem(r, "select", out, |r, out| { let mut h = H::empty(); for _ in 0..size(r, 3, 30) { let t = elem(r, "option", out, |r, out| text24(r, out)); h.append(&t); if r.chance(1, 4) { out.push('\n'); h.append(&H::text("\n")) } } h }),
                    _ if !ctx.contains(&"button") => { ctx.push("button"); let t = elem(r, "button", out, |r, out| inline24(r, d - 1, ctx, out)); ctx.pop(); t }
                    _ => continue,
                };
                h.append(&t)
            }
            6 | 7 => { let n = *r.pick(&["br", "img", "input", "wbr"]); let t = elem(r, n, out, |_, _| H::empty()); h.append(&t) }
            8 | 9 => { out.push_str(*r.pick(&["<!-- c -->", "<!---->", "<!-- <b> & -->", "<!-- a - b -->"])) }
            _ => { let n = *r.pick(&["b", "i", "em", "strong", "span", "code", "a", "q", "kbd", "sub", "sup", "foo", "x-y", "small", "u", "s", "label", "cite", "time", "abbr"]); if ctx.contains(&n) { continue } ctx.push(n); let t = elem(r, n, out, |r, out| inline24(r, d - 1, ctx, out)); ctx.pop(); h.append(&t) }
        }
    }
    h
}
fn block24(r: &mut Rng, d: i32, out: &mut String) -> H {
    let mut h = H::empty();
    for _ in 0..size(r, 4, 25) {
        let n = *r.pick(&["p", "p", "div", "section", "h1", "h3", "ul", "ol", "blockquote", "table", "hr", "dl", "article", "pre", "header", "footer", "nav", "figure", "details", "address", "main", "aside", "pre", "template", "noscript", "ins", "form", "fieldset"]);
        if n == "form" && out.to_lowercase().matches("<form").count() > out.to_lowercase().matches("</form").count() { continue }
        let kids = |r: &mut Rng, out: &mut String, c: &'static str| { let mut h = H::empty(); for _ in 0..size(r, 4, 40) { let t = elem(r, c, out, |r, out| if d > 1 && c != "dt" && r.chance(1, 4) { block24(r, d - 2, out) } else { inline24(r, d - 1, &mut vec![], out) }); h.append(&t); if r.chance(1, 4) { out.push('\n'); h.append(&H::text("\n")) } } h };
        let t = match n {
            "p" | "h1" | "h3" => elem(r, n, out, |r, out| inline24(r, d, &mut vec![], out)),
            "pre" => elem(r, n, out, |r, out| { let z = *r.pick(&["z", "", "\n", "\n\n", "\n z", " "]); out.push_str(z); let mut h = H::text(z); let i = inline24(r, d, &mut vec![], out); h.append(&i); h }),
            "ul" | "ol" => elem(r, n, out, |r, out| kids(r, out, "li")),
            "dl" if r.chance(1, 2) => elem(r, n, out, |r, out| kids(r, out, "dd")),
            "dl" => elem(r, n, out, |r, out| kids(r, out, "dt")),
            "hr" => elem(r, n, out, |_, _| H::empty()),
            "table" => elem(r, n, out, |r, out| { let mut h = H::empty(); if r.chance(1, 4) { let t = elem(r, "caption", out, |r, out| inline24(r, d - 1, &mut vec![], out)); h.append(&t) } if r.chance(1, 4) { let t = elem(r, "colgroup", out, |r, out| { let mut h = H::empty(); for _ in 0..r.below(4) { let t = elem(r, "col", out, |_, _| H::empty()); h.append(&t) } h }); h.append(&t) } if r.chance(1, 4) { let t = elem(r, "thead", out, |r, out| elem(r, "tr", out, |r, out| kids(r, out, "th"))); h.append(&t) } let t = elem(r, "tbody", out, |r, out| { let mut h = H::empty(); for _ in 0..size(r, 3, 12) { let t = elem(r, "tr", out, |r, out| kids(r, out, "td")); h.append(&t) } h }); h.append(&t); h }),
            _ if d > 0 && r.chance(2, 3) => elem(r, n, out, |r, out| block24(r, d - 1, out)),
            _ => elem(r, n, out, |r, out| inline24(r, d, &mut vec![], out)),
        };
        h.append(&t);
        match r.below(6) { 0 => { out.push('\n'); h.append(&H::text("\n")) } 1 => out.push_str("<!-- between -->"), 2 => { let t = text24(r, out); h.append(&t) } _ => {} }
    }
    h
}
/// A well-formed page and the tree it denotes.
fn page24(r: &mut Rng) -> (String, H) {
    let mut o = String::new();
    if r.chance(1, 8) { o.push_str("<!-- first -->") }
    o.push_str(*r.pick(&["<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE HTML>"]));
    if r.chance(1, 2) { o.push('\n') }
    let h = elem(r, "html", &mut o, |r, o| {
        let mut h = elem(r, "head", o, |r, o| {
            let mut h = H::empty();
            for _ in 0..r.below(4) { let t = match r.below(7) {
                3 => elem(r, "noscript", o, |r, o| { let mut h = H::empty(); for _ in 0..r.below(3) { let t = match r.below(3) { 0 => elem(r, "meta", o, |_, _| H::empty()), 1 => elem(r, "link", o, |_, _| H::empty()), _ => elem(r, "style", o, raw24) }; h.append(&t); if r.chance(1, 4) { o.push('\n'); h.append(&H::text("\n")) } } h }),
                4 => { let n = *r.pick(&["script", "style"]); elem(r, n, o, raw24) }
                5 => elem(r, "template", o, |r, o| block24(r, 2, o)),
                0 => elem(r, "meta", o, |_, _| H::empty()), 1 => elem(r, "link", o, |_, _| H::empty()), _ => elem(r, "title", o, |r, o| { let (a, b) = enc(r, 3); o.push_str(&b); o.push('.'); H::text(&format!("{a}.")) }) }; h.append(&t); if r.chance(1, 4) { o.push('\n'); h.append(&H::text("\n")) } }
            h
        });
        let d = size(r, 4, 9) as i32;
        let b = elem(r, "body", o, |r, o| block24(r, d, o));
        h.append(&b);
        h
    });
    if r.chance(1, 8) { o.push_str("<!-- last -->") }
    (o, h)
}
fn parse24(cx: &mut Cx, html: &str, how: usize) -> Result<(String, real::Real), Out> {
    let l = lit(html);
    let src = match how { 0 => format!("@html::parse {l}"), 1 => format!("@let(t={l}) {{@html::parse $t}}"), _ => format!("@let(d=@html::parse {l}) {{$d}}") };
    cx.nontrivial(&src);
    Ok((src.clone(), go(&src)?))
}
pub fn c24(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2401, idx);
    let (html, want) = page24(&mut r);
    let (src, got) = tri!(parse24(cx, &html, r.below(3)));
    if got.errors > 0 { return bad("well-formed HTML is rejected", &src, want.render(), format!("{:?}", got.diags)); }
    let t = tri!(tree(&src, &got));
    if !same(&t, &want) { return bad("parsed HTML differs from the text", &src, want.render(), got.html); }
    fn tally(cx: &mut Cx, h: &H) { for n in &h.0 { match n { N::Tag(t) => { cx.count("element"); cx.add("attribute", t.attrs.len() as u64); tally(cx, &t.content) } N::Text(t) => cx.add("character of text", t.chars().count() as u64) } } }
    tally(cx, &t);
    // rendered and parsed again it stays the same
    let (src2, again) = tri!(parse24(cx, &format!("<!DOCTYPE html>{}", got.html), 0));
    if again.errors > 0 || again.html != got.html { return bad("rendering and parsing again changes the content", &src2, got.html, format!("{}\n{:?}", again.html, again.diags)); }
    cx.count("fixed point");
    Out::Ok
}
/// The two known findings: contents which rendering does not give back.
pub fn c24_listed(cx: &mut Cx, idx: u64) -> Out {
    let (key, html, want) = match idx {
        0 => ("raw-text-escaped", "<!DOCTYPE html><html><head><script>a<b&&c</script></head><body></body></html>", "a<b&&c"),
        _ => ("attribute-underscore", "<!DOCTYPE html><html><head></head><body data_x=\"1\"></body></html>", "data_x"),
    };
    cx.count("listed finding tried");
    let (src, got) = tri!(parse24(cx, html, 0));
    if got.errors == 0 && got.html.contains(want) { return Out::Ok; }
    match bad("parsed HTML differs from the text", &src, html, format!("{} {:?}", got.html, got.diags)) { Out::Bad(b) if got.errors == 0 => Out::Bad(Bad { key: key.into(), ..b }), o => o }
}
pub fn c24_malformed(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2402, idx);
    let (html, _) = page24(&mut r);
    let low = html.to_lowercase();
    let Some(b) = low.rfind("</body") else { return Out::Skip("no body") };
    let ins = |x: &str| format!("{}{x}{}", &html[..b], &html[b..]);
    let (kind, bad_html) = match r.below(14) {
        0 => ("unclosed element", ins(*r.pick(&["<div>", "<b>x", "<span><i></i>", "<section><p>x</p>"]))),
        1 => ("stray end tag", ins(*r.pick(&["</div>", "</b>", "</span>x", "</section>", "</foo>"]))),
        2 => ("crossed tags", ins(*r.pick(&["<b>x<i>y</b>z</i>", "<div><span></div></span>", "<b><div>x</b></div>"]))),
        3 => ("no doctype", low.find("<html").map(|i| html[i..].to_string()).unwrap_or_default()),
        4 => ("bare angle bracket", ins(*r.pick(&["a < b", "<1>", "<>", "x <", "</ div>", "<?php ?>"]))),
        5 => ("unknown entity", ins(*r.pick(&["&bogus;", "&#xZZ;", "&#;", "&#0;", "&#xD800;", "&#x110000;"]))),
        6 => ("entity without semicolon", ins(*r.pick(&["&amp x", "&lt", "&copy 1", "&#65 x"]))),
        7 => ("end within a tag", { let i = html[..b].rfind('<').unwrap_or(0); format!("{}<div id=", &html[..i]) }),
        8 => ("end within the page", html[..b].to_string() + "<div>"),
        9 => ("end within a comment", ins("<!-- never closed ")),
        10 => ("bad attribute", ins(*r.pick(&["<p a\"b=c></p>", "<p a='1'b='2'></p>", "<p =x></p>", "<p a=></p>", "<p <b></p>"]))),
        11 => ("self-closing non-void", ins(*r.pick(&["<div/>", "<b/>", "<span />"]))),
        12 => ("end tag of a void element", ins(*r.pick(&["</br>", "</img>", "<hr></hr>"]))),
        _ => ("text outside the body", format!("{html}<p>x</p>")),
    };
    cx.count(&format!("malformed:{kind}"));
    let (src, got) = tri!(parse24(cx, &bad_html, r.below(3)));
    if got.errors == 1 && got.diags.iter().any(|d| d.cat == "Runtime error") { Out::Ok } else { bad(format!("malformed HTML ({kind})"), &src, "one runtime error", format!("{}\n{:?}", got.html, got.diags)) }
}

// ---- C26 ----

const LANGS: &[&str] = &["papyri", "none", "python", "rust", "js", "html", "c", "java", "css", "json", "bash", "ruby", "cpp", "xml", "sql", "go", "haskell", "yaml", "php", "md", "lua", "perl", "scala", "diff", "make", "tex"];
const SOUP: &[&str] = &["fn", "f", "(", ")", "{", "}", "[", "]", " ", "  ", "x", "=", "1", "\"", "'", "a b", "// c", "# c", "/*", "*/", "<b>", "</b>", "&amp;", "<!--", "-->", ";", ":", ",", ".", "->", "$x", "@let", "@fn", "@match", "True", "\\n", "0x1f", "é", "日本", "😀", "http://a.b/c?d=e&f", "https://x.y/(z)", "return", "class", "if", "def", "import", "`", "\\", "%", "\t", "<?", "?>", "==", "***", "- a", "+1", "::", "::x", "\\x41", "&", "'''", "\"\"\"", "<script>", "</script>", "<style>", "r\"", "${", "#{", "@f(", "|"];
/// Lines of code, the first without indentation and none blank at the ends.
fn code(r: &mut Rng, max_lines: usize) -> Vec<String> {
    let n = 1 + if max_lines > 1 { size(r, max_lines, 400) } else { 0 };
    let ind = *r.pick(&["", " ", "  ", "    ", "\t"]);
    let mut v: Vec<String> = (0..n).map(|_| { if r.chance(1, 8) { return String::new(); } let k = 1 + size(r, 8, 24); let d = size(r, 3, 12); let t: String = (0..k).map(|_| *r.pick(SOUP)).collect(); let t = t.trim().to_string(); if t.is_empty() { t } else { format!("{}{t}", ind.repeat(d)) } }).collect();
    v[0] = v[0].trim_start().to_string();
    if v[0].is_empty() { v[0] = "x = 1".into() }
    if v[n - 1].is_empty() { v[n - 1] = "}".into() }
    v
}
/// Checks the bracket tokens of a listing; `lines` are the trees of the lines.
fn brackets(lines: &[H], st: &mut Vec<(char, String)>, seen: &mut Vec<String>, cx: &mut Cx) -> Result<(), String> {
    fn walk(h: &H, out: &mut Vec<(String, String, String)>) { for n in &h.0 { if let N::Tag(t) = n { let g = |k: &str| t.attrs.iter().find(|a| a.0 == k).and_then(|a| a.1.clone()).unwrap_or_default(); out.push((g("class"), g("data-paren-no"), plain(&t.content))); walk(&t.content, out) } } }
    for l in lines {
        let mut toks = vec![];
        walk(l, &mut toks);
        for (c, no, t) in toks {
            let close = |c: char| match c { '(' => ')', '[' => ']', '{' => '}', _ => '?' };
            let one = t.chars().next().unwrap_or(' ');
            match c.as_str() {
                "lparen" => { if t.chars().count() != 1 || close(one) == '?' || no.is_empty() { return Err(format!("opening bracket {t:?} number {no:?}")); } if seen.contains(&no) { return Err(format!("bracket number {no} used twice")); } seen.push(no.clone()); st.push((close(one), no)); cx.count("bracket:opening") }
                "rparen" => match st.pop() { Some((w, n)) if w.to_string() == t && n == no => cx.count("bracket:paired"), o => return Err(format!("closing bracket {t:?} number {no:?} does not close {o:?}")) },
                "unmatched-paren" => { if st.last().map_or(false, |s| t.starts_with(s.0)) { return Err(format!("{t:?} is marked as unmatched, but closes {:?}", st.last())); } cx.count("bracket:unmatched") }
                _ if !no.is_empty() => return Err(format!("number {no} on {c:?}")),
                _ => {}
            }
        }
    }
    Ok(())
}
pub fn c26(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2601, idx);
    let r = &mut r;
    let lines = code(r, 9);
    let lang: Option<&str> = if r.chance(1, 6) { None } else if r.chance(1, 10) { Some(*r.pick(&["nolang", "Klingon", "x1"])) } else { Some(*r.pick(LANGS)) };
    listing(cx, r, lines, lang, None, None)
}
/// The kind shown for each character of a line which is not white space.
fn kinds(h: &H, within: &str, out: &mut Vec<String>) {
    for n in &h.0 {
        match n {
            N::Tag(t) => {
                let attr = |k: &str| t.attrs.iter().find(|a| a.0 == k).and_then(|a| a.1.clone());
                let c = attr("class").unwrap_or_default();
                let k = if t.name == "a" { format!("link to {}{}", attr("href").unwrap_or_default(), if c == "comment" { " in a comment" } else { "" }) } else { c };
                kinds(&t.content, &if within.is_empty() { k } else { format!("{within}/{k}") }, out)
            }
            n => for c in plain(&H(vec![n.clone()])).chars() { if !c.is_whitespace() { out.push(within.to_string()) } }
        }
    }
}
/// One token of Papyri code and the kind it has.
fn token26(r: &mut Rng) -> (String, &'static str) {
    let p = |r: &mut Rng, l: &[&str]| r.pick(l).to_string();
    match r.below(20) {
        0 | 1 => (p(r, &["word", "Foo", "_x1", "truE", "x2y", "fn", "let", "letx"]), ""),
        2 => (p(r, &["%", "^~", "é", "日本", "😀", ";", "+", "%%", "- ", "/ "]), ""),
        3 => (p(r, &["True", "False", "\\x41", "\\n", "\\u2014", "\\U0001F600", "\\$", "\\é", "&amp;", "&#65;", "&#x42;", "&eacute;"]), "keyword-literal"),
        4 => (p(r, &["0", "12", "-5", "-0", "007", "-0123456789", "99999999999999999999"]), "number"),
        5 => (p(r, &["$x", "$_a1", "$content", "$True", "$fn"]), "name"),
        6 | 7 => { let n = 1 + r.below(3); let q = "`".repeat(n); let body = p(r, &["s", "", " ", "a (b]", "'\"", "# no", "<!-- no -->", "\\", "é", "@f", "$x", "https://x.y/z", "see http://a.b/c?d=e&f#(g) there", "http://", "xhttp://q r"]); let body = if n > 2 && r.chance(1, 2) { format!("papyri\n{body}\n  x http://m.n \ny\n") } else if body.is_empty() && n != 3 { "e".into() } else if body.is_empty() { " ".into() } else { body }; (format!("{q}{body}{q}"), "string") }
        8 => (p(r, &["@f", "@_g", "@list", "@lets", "@fnx", "@importer", "@include"]), "decorator"),
        9 => (p(r, &["@let", "@match", "@export", "@implicit"]), "keyword"),
        10 => { let n = p(r, &["f", "name1", "_p"]); (format!("@fn {n}"), "def") }
        11 | 12 => (p(r, &["->", ",", "=", "*", "**", ":", "::", "?::", "?", ".", "...", ">", "/>", "</b>", "</>", "!", "|", "'", "\"", "_", "& "]), "op"),
        13 | 14 => { let n = p(r, &["b", "div", "h1", "True1"]); (format!("<{n}"), "tag") }
        15 => (p(r, &["<!-- c ( -->", "<!---->", "<!--> x -->", "<!-- a\n b -->", "<!-- `-->", "<!-- https://c.d/e, -->", "<!-- \nhttp://l.m\n-->"]), "comment"),
        16 => (p(r, &["# note [\n", "#\n", "# http://x.y/(a] b\n", "# ' ` <!--\n"]), "comment"),
        _ => (p(r, &["(", ")", "[", "]", "{", "}"]), "bracket"),
    }
}
/// Papyri code whose tokens are known: each is marked with its kind.
pub fn c26_tokens(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2604, idx);
    let r = &mut r;
    let mut text = String::new();
    let mut want: Vec<String> = vec![];
    let mut plain_end = true;
    let mut st: Vec<char> = vec![];
    for _ in 0..1 + size(r, 25, 200) {
        let (t, kind) = token26(r);
        // tokens which could run into each other are kept apart
        let safe = plain_end || r.chance(1, 3) && (matches!(kind, "bracket") || matches!(text.chars().last(), Some('(' | ')' | '[' | ']' | '{' | '}' | ',' | '%' | '~' | '\n')) || (kind == "" && !t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_') && text.ends_with(|c: char| c.is_ascii_alphanumeric())));
        if !safe || (!plain_end && r.chance(1, 2)) { text.push_str(if r.chance(1, 5) { if r.chance(1, 4) { "\n\n" } else { "\n" } } else { " " }) }
        plain_end = false;
        text.push_str(&t);
        let mut mark = |t: &str, k: &str| for c in t.chars() { if !c.is_whitespace() { want.push(k.to_string()) } };
        match kind {
            "def" => { mark("@fn", "keyword"); mark(&t[4..], "name-def") }
            "tag" => { mark("<", "op"); mark(&t[1..], "name") }
            "bracket" => { let c = t.chars().next().unwrap(); let k = match c { '(' => { st.push(')'); "lparen" } '[' => { st.push(']'); "lparen" } '{' => { st.push('}'); "lparen" } c if st.last() == Some(&c) => { st.pop(); "rparen" } _ => "unmatched-paren" }; mark(&t, k) }
            "comment" | "string" => for line in t.split('\n') {
                let mut rest = line;
                loop {
                    let at = rest.match_indices("http").map(|m| m.0).find(|&i| { let x = &rest[i + 4..]; let x = x.strip_prefix('s').unwrap_or(x); x.strip_prefix("://").is_some_and(|x| x.starts_with(|c: char| !c.is_whitespace() && !"'\"`".contains(c))) });
                    let Some(i) = at else { break };
                    let n = rest[i..].find(|c: char| c.is_whitespace() || "'\"`".contains(c)).unwrap_or(rest.len() - i);
                    let u = &rest[i..i + n];
                    mark(&rest[..i], kind); mark(u, &format!("link to {u}{}", if kind == "comment" { " in a comment" } else { "" }));
                    cx.count("token:link");
                    rest = &rest[i + n..];
                }
                mark(rest, kind)
            },
            k => mark(&t, k),
        }
        cx.count(&format!("token:{}", if kind.is_empty() { "plain" } else { kind }));
        if kind == "comment" && t.starts_with('#') { plain_end = true }
    }
    let text = text.trim_matches(|c: char| c == '\n' || c == ' ').to_string();
    let lines: Vec<String> = text.split('\n').map(String::from).collect();
    if lines.iter().any(|l| l.ends_with(|c: char| c.is_whitespace())) || lines.is_empty() || lines[0].trim().is_empty() { return Out::Skip("spaces at the end of a line"); }
    listing(cx, r, lines, Some("papyri"), None, Some(want))
}
fn listing(cx: &mut Cx, r: &mut Rng, lines: Vec<String>, lang: Option<&str>, marked: Option<Vec<(char, u32)>>, want_kinds: Option<Vec<String>>) -> Out {
    let unknown = matches!(lang, Some("nolang" | "Klingon" | "x1"));
    let indent = *r.pick(&["", "", "  ", "    ", "\t", " \t", "\u{3000}"]);
    let text: String = lines.iter().map(|l| if l.is_empty() && r.chance(1, 2) { "\n".to_string() } else { format!("{indent}{l}\n") }).collect();
    let text = if r.chance(1, 4) { text.trim_end().to_string() } else { text };
    let top = i64::MAX - r.below(8) as i64; let first = if r.chance(1, 3) { *r.pick(&[0i64, 2, 5, 10, 99, 1000, -3, 1 << 40, i64::MIN, top]) } else { 1 };
    let fno = if first != 1 { format!(", first_line_no={first}") } else { String::new() };
    // a first line which is a name is read as a language
    if crate::ast::is_ident(format!("{indent}{}", lines[0]).trim_end()) { return Out::Skip("first line names a language"); }
    let fence = { let mut run = 0; let mut m = 2; for c in text.chars() { if c == '`' { run += 1; m = m.max(run) } else { run = 0 } } "`".repeat(m + 1) };
    let l = lang.unwrap_or("none");
    let fenced = lang.is_some_and(|l| crate::ast::is_ident(l)) || lang.is_none();
    let form = r.below(6);
    let (form, src) = match form {
        0 if fenced && first == 1 && !text.is_empty() => ("fence", if lang.is_none() { format!("{fence}\n{}{fence}", if text.ends_with('\n') { text.clone() } else { format!("{text}\n") }) } else { format!("{fence}{l}\n{}{fence}", if text.ends_with('\n') { text.clone() } else { format!("{text}\n") }) }),
        1 => ("implicit", format!("@implicit(language={}) {{@code_block{} {}}}", lit(l), if fno.is_empty() { String::new() } else { format!("({})", &fno[2..]) }, lit(&text))),
        2 => ("code", format!("<div>@code(language={}, code_block=True{fno}) {}</div>", lit(l), lit(&text))),
        3 => ("variable", format!("@let(src={}) {{@code_block(language={}{fno}) $src}}", lit(&text), lit(l))),
        _ => ("code_block", format!("@code_block(language={}{fno}) {}", lit(l), lit(&text))),
    };
    cx.nontrivial(&src);
    cx.count(&format!("form:{form}"));
    cx.count(&format!("language:{l}"));
    let got = tri!(go(&src));
    // line numbers end where integers do
    let last = first as i128 + lines.len() as i128 - 1;
    if last > i64::MAX as i128 { cx.count("line numbers:too large"); return if got.diags.iter().any(|d| d.cat == "Runtime error") { Out::Ok } else { bad("line numbers too large for an integer", &src, "a runtime error", &got.html) }; }
    if last == i64::MAX as i128 && got.errors > 0 { return Out::Skip("the last line number is the largest integer"); }
    if got.errors > 0 { return bad("a code listing is reported as an error", &src, "a listing", format!("{:?}", got.diags)); }
    if got.warnings != unknown as u32 { return bad("warnings of a code listing", &src, format!("{} warnings", unknown as u32), format!("{:?}", got.diags)); }
    let t = tri!(tree(&src, &got));
    let shape = || bad("unexpected structure", &src, "one listing", &got.html);
    let [N::Tag(outer)] = t.0.as_slice() else { return shape() };
    let [N::Tag(codetag)] = outer.content.0.as_slice() else { return shape() };
    if codetag.name != "code" || outer.name != if form == "code" { "div" } else { "pre" } { return shape(); }
    let class = codetag.attrs.iter().find(|a| a.0 == "class").and_then(|a| a.1.clone());
    let want = if l == "none" || unknown { None } else { Some(format!("syntax-highlight lang-{l}")) };
    if class != want { return bad("the class of a listing", &src, format!("{want:?}"), format!("{class:?}")); }
    let mut trees = vec![];
    let kids = &codetag.content.0;
    if kids.len() != 2 * lines.len() { return bad("number of lines in a listing", &src, format!("{} lines", lines.len()), &got.html); }
    for (i, l) in lines.iter().enumerate() {
        let (N::Tag(span), N::Text(nl)) = (&kids[2 * i], &kids[2 * i + 1]) else { return shape() };
        let no = (first + i as i64).to_string();
        if nl != "\n" || span.name != "span" || span.attrs != vec![("class".to_string(), Some("line".to_string())), ("data-line-no".to_string(), Some(no.clone()))] { return bad(format!("line {i} of a listing is not marked as line {no}"), &src, no, &got.html); }
        let shown = plain(&span.content);
        // blank lines may keep or lose their own white space
        if shown != *l && !(l.is_empty() && shown.trim().is_empty()) { return bad(format!("line {i} of a listing differs from the source"), &src, l, shown); }
        trees.push(span.content.clone());
    }
    cx.add("lines compared", lines.len() as u64);
    if class.is_none() && trees.iter().any(|h| h.0.iter().any(|n| matches!(n, N::Tag(_)))) { return bad("a listing which is not highlighted has markup", &src, "text", &got.html); }
    let (mut st, mut seen) = (vec![], vec![]);
    if let Err(e) = brackets(&trees, &mut st, &mut seen, cx) { return bad(format!("brackets of a listing: {e}"), &src, "brackets paired by nesting", &got.html); }
    if let Some(w) = want_kinds {
        let mut found = vec![];
        for h in &trees { kinds(h, "", &mut found) }
        if found != w { let i = found.iter().zip(&w).position(|(a, b)| a != b); return bad(format!("the kinds of the tokens of Papyri code{}", i.map_or(String::new(), |i| { let c: String = lines.concat().chars().filter(|c| !c.is_whitespace()).skip(i).take(12).collect(); format!(": {c:?} is marked as {:?} and not {:?}", found[i], w[i]) })), &src, format!("{w:?}"), format!("{found:?}")); }
        cx.add("token characters compared", w.len() as u64);
    }
    if let Some(m) = marked {
        // every bracket of the code, in order, with its expected number
        fn walk(h: &H, out: &mut Vec<(char, u32)>) { for n in &h.0 { if let N::Tag(t) = n { if cls(n, "lparen") || cls(n, "rparen") || cls(n, "unmatched-paren") { let no = t.attrs.iter().find(|a| a.0 == "data-paren-no").and_then(|a| a.1.clone()).and_then(|x| x.parse().ok()).unwrap_or(0); for c in plain(&t.content).chars() { out.push((c, no)) } } else { walk(&t.content, out) } } } }
        let mut found = vec![];
        for h in &trees { walk(h, &mut found) }
        if found != m { return bad("bracket pairs of Papyri code", &src, format!("{m:?}"), format!("{found:?}")); }
        cx.add("bracket:expected", m.len() as u64);
    }
    Out::Ok
}
/// Papyri code whose brackets are known.
pub fn c26_papyri(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2602, idx);
    let r = &mut r;
    let mut lines = vec![String::new()];
    let mut br: Vec<char> = vec![];
    for _ in 0..3 + size(r, 30, 500) {
        let cur = lines.last_mut().unwrap();
        match r.below(14) {
            0..=5 => { let c = *r.pick(&['(', ')', '[', ']', '{', '}']); let c = if r.chance(1, 2) { // mostly balanced
                    let mut st = vec![]; for b in &br { match b { '(' => st.push(')'), '[' => st.push(']'), '{' => st.push('}'), b => if st.last() == Some(b) { st.pop(); } } } st.last().copied().unwrap_or(c) } else { c }; cur.push(c); br.push(c) }
            6 => cur.push_str(" $x "), 7 => cur.push_str(" @f "), 8 => cur.push_str(" word "), 9 => cur.push_str(" `s (]` "), 10 => cur.push_str(" 12, "), 11 => { cur.push_str(*r.pick(&["# note ( ] }", "# http://x.y/(a]"])); lines.push(String::new()) }
            12 => lines.push(String::new()), _ => cur.push_str(*r.pick(&[" <b> ", " <!-- ( [ --> ", " \\x41 ", " &amp; ", " -> ", " @fn ", " True "])),
        }
    }
    let mut lines: Vec<String> = lines.into_iter().map(|l| l.trim().to_string()).collect();
    while lines.last().is_some_and(|l| l.is_empty()) { lines.pop(); }
    let lead = lines.iter().position(|l| !l.is_empty()).unwrap_or(0);
    let lines: Vec<String> = lines.split_off(lead);
    if lines.is_empty() { return Out::Skip("empty"); }
    let (mut st, mut no, mut m): (Vec<(char, u32)>, u32, Vec<(char, u32)>) = (vec![], 0, vec![]);
    for b in br { match b { '(' | '[' | '{' => { no += 1; st.push((match b { '(' => ')', '[' => ']', _ => '}' }, no)); m.push((b, no)) } b => if st.last().is_some_and(|s| s.0 == b) { m.push((b, st.pop().unwrap().1)) } else { m.push((b, 0)) } } }
    listing(cx, r, lines, Some("papyri"), Some(m), None)
}
/// Inline code, and lines indented less than the first.
pub fn c26_inline(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2603, idx);
    let r = &mut r;
    if r.chance(1, 3) {
        let mut lines = code(r, 6);
        if crate::ast::is_ident(lines[0].trim()) { lines[0].push_str(" = 1") }
        let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
        let sp: &[&str] = *r.pick(&[&[" "] as &[&str], &[" ", "\t"], &["\t"], &[" ", "\t", "\u{a0}", "\u{3000}"]]);
        let common = if r.chance(1, 2) { Some((0..r.below(4)).map(|_| *r.pick(sp)).collect::<String>()) } else { None };
        let mut text: String = if r.chance(1, 5) { format!("{}{nl}", r.pick(sp).repeat(r.below(3))) } else { String::new() };
        for l in &lines {
            let mut ind = if r.chance(4, 5) { common.clone().unwrap_or_default() } else { String::new() };
            if common.is_none() || r.chance(1, 5) { for _ in 0..r.below(5) { ind += *r.pick(sp) } }
            text += &format!("{ind}{l}{}{nl}", if r.chance(1, 12) { *r.pick(sp) } else { "" });
        }
        let lang = *r.pick(LANGS);
        // the language is an argument or the first line, which may have spaces at its end
        let hint = r.chance(1, 3);
        // several lines in an inline listing are shown as one, with a warning
        let inline = !hint && r.chance(1, 6);
        let src = if inline { format!("@code(language={}) {}", lit(lang), lit(&text)) } else if hint { let other = if r.chance(1, 3) { format!("(language={})", lit(r.pick(LANGS))) } else { String::new() }; format!("@code_block{other} {}", lit(&format!("{lang}{}{nl}{text}", *r.pick(&["", "", " ", "\t ", "\u{a0}", "\u{3000}"])))) } else { format!("@code_block(language={}) {}", lit(lang), lit(&text)) };
        cx.nontrivial(&src); cx.count("form:ragged");
        if hint { cx.count("form:ragged with a hint") }
        let got = tri!(go(&src));
        if got.errors > 0 { return bad("a code listing is reported as an error", &src, "a listing", format!("{:?}", got.diags)); }
        let t = tri!(tree(&src, &got));
        let shown: Vec<String> = plain(&t).lines().map(|l| l.to_string()).collect();
        // the white space before the first line which is not blank is taken from every line
        let mut all = text.trim_end().lines().skip_while(|l| l.trim().is_empty()).peekable();
        let first = all.peek().map_or("", |l| *l);
        let ind = &first[..first.len() - first.trim_start().len()];
        let want: Vec<String> = all.map(|l| l.strip_prefix(ind).unwrap_or(l.trim_start()).to_string()).collect();
        if inline {
            cx.count("form:inline lines");
            let flat = |v: &[String]| v.concat().replace('\r', "");
            if flat(&shown) != flat(&want) { return bad("the code of an inline listing differs from the source", &src, format!("{want:?}"), format!("{shown:?}")); }
            if want.len() > 1 && got.warnings == 0 { return bad("several lines in an inline listing give no warning", &src, "a warning", &got.html) }
        } else if shown != want { return bad("the code of a listing differs from the source", &src, format!("{want:?}"), format!("{shown:?}")); }
        let class = if lang == "none" { String::new() } else { format!("syntax-highlight lang-{lang}") };
        fn found(h: &H) -> Option<String> { h.0.iter().find_map(|n| match n { N::Tag(t) if t.name == "code" => Some(t.attrs.iter().find(|a| a.0 == "class").and_then(|a| a.1.clone()).unwrap_or_default()), N::Tag(t) => found(&t.content), _ => None }) }
        return if found(&t).as_deref() == Some(class.as_str()) { Out::Ok } else { bad("the language of a listing", &src, format!("class {class:?}"), &got.html) };
    }
    let mut t = code(r, 1).remove(0);
    t = t.trim().to_string();
    if t.is_empty() || t.contains('\n') { return Out::Skip("empty"); }
    let lang = *r.pick(LANGS);
    let (form, src) = match r.below(4) {
        0 if !t.contains('`') => ("backticks", format!("<div>x `{t}` y</div>")),
        1 if !t.contains('`') => ("implicit backticks", format!("@implicit(language={}) {{<div>x `{t}` y</div>}}", lit(lang))),
        2 => ("code", format!("<div>x @code(language={}) {} y</div>", lit(lang), lit(&t))),
        _ => ("plain code", format!("<div>x @code {} y</div>", lit(&t))),
    };
    cx.nontrivial(&src); cx.count(&format!("form:inline {form}"));
    let got = tri!(go(&src));
    if got.errors + got.warnings > 0 { return bad("inline code is reported", &src, "no diagnostics", format!("{:?}", got.diags)); }
    let h = tri!(tree(&src, &got));
    let ok = match h.0.as_slice() { [N::Tag(d)] => match d.content.0.as_slice() { [N::Text(a), N::Tag(c), N::Text(b)] => a == "x " && b == " y" && c.name == "code" && plain(&c.content) == t && brackets(&[c.content.clone()], &mut vec![], &mut vec![], cx).is_ok() && (c.attrs.is_empty() == (lang == "none" || matches!(form, "backticks" | "plain code"))), _ => false }, _ => false };
    if ok { Out::Ok } else { bad("inline code differs from the source", &src, &t, &got.html) }
}

// ---- C27 ----

/// Inline content: source and tree.
fn inl(r: &mut Rng, d: i32) -> (String, H) {
    let n = 1 + if d > 1 { r.below(3) } else { size(r, 3, 30) };
    let (mut s, mut h) = (String::new(), H::empty());
    for i in 0..n {
        if i > 0 { s.push(' '); h.append(&H::text(" ")) }
        match r.below(if d > 0 { 5 } else { 2 }) {
            0 | 1 => { let w = *r.pick(WORDS); s += w; h.append(&H::text(w)) }
            2 => { let (a, b) = inl(r, d - 1); let t = *r.pick(&["b", "i", "foo"]); s += &format!("<{t}>{a}</{t}>"); h.append(&tagh(t, b)) }
            3 => { let t = evil(r).trim().to_string(); if t.is_empty() { s += "w"; h.append(&H::text("w")) } else { s += &format!("@let(v={}) {{$v}}", lit(&t)); h.append(&H::text(&t)) } }
            _ => { let (a, b) = helper(r, d - 1); s += &a; h.append(&b) }
        }
    }
    (s, h)
}
/// Block content.
fn blk(r: &mut Rng, d: i32) -> (String, H) {
    if r.chance(1, 3) { let (a, b) = inl(r, d - 1); return (a, tagh("p", b)); }
    let n = 1 + size(r, 2, 20);
    let (mut s, mut h) = (String::new(), H::empty());
    for i in 0..n { if i > 0 { s += "\n\n" } let (a, b) = inl(r, d - 1); match r.below(3) { 0 => { s += &a; h.append(&tagh("p", b)) } 1 => { s += &format!("<div>{a}</div>"); h.append(&tagh("div", b)) } _ => { let (x, k) = heading(r, d - 1); s += &x; h.append(&k) } } }
    (s, h)
}
fn heading(r: &mut Rng, d: i32) -> (String, H) { let t = *r.pick(&["h1", "h2", "h3", "h4", "h5", "h6"]); let (a, b) = inl(r, d); (format!("@{t}{}", braces(r, &a)), tagh(t, b)) }
fn braces(r: &mut Rng, a: &str) -> String { match r.below(3) { 0 => format!(" {{{a}}}"), 1 => format!("{{ {a} }}"), _ => format!("{{{a}}}") } }
const INLINE: &[(&str, &str)] = &[("b", "b"), ("bold", "strong"), ("cite", "cite"), ("dfn", "dfn"), ("emph", "em"), ("i", "i"), ("quote", "q"), ("span", "span"), ("sub", "sub"), ("sup", "sup"), ("strikethrough", "s"), ("underline", "u")];
fn word(r: &mut Rng) -> String { if r.chance(1, 3) { let t = evil(r); if t.trim().is_empty() { "w".into() } else { t } } else { r.pick(&["http://a.b/c?d=e&f=g", "x", "u v", "é", "a-b"]).to_string() } }
/// One use of an inline helper.
fn helper(r: &mut Rng, d: i32) -> (String, H) {
    match r.below(12) {
        0 | 1 | 2 => { let (f, t) = *r.pick(INLINE); let (a, b) = inl(r, d); (format!("@{f}{}", braces(r, &a)), tagh(t, b)) }
        3 => { let (f, t) = *r.pick(INLINE); let (a, b) = inl(r, d); (format!("@list::join @list::map(${f}) [{{{a}}}, `z`]"), { let mut h = tagh(t, b); h.append(&tagh(t, H::text("z"))); h }) }
        4 => { let u = word(r); let (a, b) = inl(r, d); (format!("@href({}){}", lit(&u), braces(r, &a)), H::tag_attrs("a", vec![("href".into(), Some(u))], b)) }
        5 => { let (u, t) = (word(r), word(r)); match r.below(3) { 0 => (format!("@image {}", lit(&u)), H::tag_attrs("img", vec![("src".into(), Some(u))], H::empty())), 1 => (format!("@image(alt=.) {}", lit(&u)), H::tag_attrs("img", vec![("src".into(), Some(u))], H::empty())), _ => (format!("@image(alt={}) {}", lit(&t), lit(&u)), H::tag_attrs("img", vec![("src".into(), Some(u)), ("alt".into(), Some(t))], H::empty())) } }
        6 => { let t = *r.pick(&["kbd", "samp"]); if r.chance(1, 3) { (format!("@{t} 42"), tagh(t, H::text("42"))) } else { let w = word(r); (format!("@{t} {}", lit(&w)), tagh(t, H::text(&w))) } }
        7 => { let (a, b) = inl(r, d); (format!("@footnote{}", braces(r, &a)), { let mut h = H::text("\u{2060}"); h.append(&H::tag_attrs("a", vec![("class".into(), Some("footnote-ref".into()))], H::empty())); h.append(&H::tag_attrs("span", vec![("class".into(), Some("footnote panel".into()))], b)); h }) }
        _ => { let t = *r.pick(&["b", "span", "i", "foo"]); modified(r, d, t) }
    }
}
/// attributes, class and style around an element with attributes of its own
fn modified(r: &mut Rng, d: i32, t: &str) -> (String, H) {
    let (a, b) = inl(r, d);
    let mut at: Vec<(String, Option<String>)> = vec![];
    let mut s = format!("<{t}");
    for n in ["class", "style", "id", "title", "data_x"] { match r.below(5) { 0 | 1 => { let w = word(r); s += &format!(" {n}={}", lit(&w)); at.push((n.replace('_', "-"), Some(w))) } 2 if !matches!(n, "class" | "style") => { s += &format!(" {n}"); at.push((n.replace('_', "-"), None)) } _ => {} } }
    s += &format!(">{a}</{t}>");
    for _ in 0..1 + r.below(2) {
        match r.below(3) {
            0 => { let w = word(r); s = format!("@class({}) {s}", lit(&w)); match at.iter_mut().find(|x| x.0 == "class") { Some(x) => { let o = x.1.clone().unwrap_or_default(); x.1 = Some(format!("{o} {w}")) } None => at.push(("class".into(), Some(w))) } }
            1 => { let w = word(r); s = format!("@style({}) {s}", lit(&w)); match at.iter_mut().find(|x| x.0 == "style") { Some(x) => { let o = x.1.clone().unwrap_or_default(); x.1 = Some(format!("{o}{w}")) } None => at.push(("style".into(), Some(w))) } }
            _ => { let mut xs = vec![]; for n in ["lang", "k", "m_n"] { if at.iter().any(|x| x.0 == n.replace('_', "-")) { continue } match r.below(4) { 0 => { let w = word(r); xs.push(format!("{n}={}", lit(&w))); at.push((n.replace('_', "-"), Some(w))) } 1 => { xs.push(format!("{n}=5")); at.push((n.replace('_', "-"), Some("5".into()))) } 2 => { xs.push(format!("{n}=.")); at.push((n.replace('_', "-"), None)) } _ => {} } } s = format!("@attributes({}) {s}", xs.join(", ")) }
        }
    }
    (s, H::tag_attrs(t, at, b))
}
fn top(h: H) -> H { if h.is_block() || h.is_empty() { h } else { tagh("p", h) } }
pub fn c27(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2701, idx);
    let r = &mut r;
    let (kind, src, want): (&str, String, H) = match r.below(14) {
        0..=4 => { let (a, b) = helper(r, 3); ("inline helper", a, tagh("p", b)) }
        5 => { let (a, b) = heading(r, 2); ("heading", a, b) }
        6 => { let (a, b) = blk(r, 3); if r.chance(1, 2) { let w = word(r); ("blockquote", format!("@blockquote(cite={}) {{{a}}}", lit(&w)), H::tag_attrs("blockquote", vec![("cite".into(), Some(w))], b)) } else { ("blockquote", format!("@blockquote {{{a}}}"), tagh("blockquote", b)) } }
        7 => { let t = *r.pick(&["div", "section", "p", "h2", "li"]); let t = if t == "section" { "div" } else { t }; let (a, b) = modified(r, 2, t); ("modified block", a, b) }
        8 => { // numbered
            let n = size(r, 4, 60);
            let xs: Vec<(String, H)> = (0..n).map(|_| inl(r, 1)).collect();
            let lis = H::concat(&xs.iter().map(|x| tagh("li", x.1.clone())).collect::<Vec<_>>());
            if r.chance(1, 2) { ("numbered list", format!("@numbered [{}]", xs.iter().map(|x| format!("{{{}}}", x.0)).collect::<Vec<_>>().join(", ")), tagh("ol", lis)) }
            else { let w = word(r); ("numbered ul", format!("@numbered <ul class={} id=`u`>{}</ul>", lit(&w), xs.iter().map(|x| format!("<li>{}</li>", x.0)).collect::<String>()), H::tag_attrs("ol", vec![("class".into(), Some(w)), ("id".into(), Some("u".into()))], lis)) }
        }
        9..=11 => page(r),
        12 => { let (a, b) = inl(r, 2); match r.below(4) { 0 => ("inline::from", format!("@inline::from {{{a}}}"), tagh("p", b)), 1 => ("block::from", format!("@block::from {{{a}}}"), tagh("p", b)), 2 => ("block::from list", format!("@block::from [{{{a}}}]"), tagh("ul", tagh("li", b))), _ => { let k = r.range(-5, 99); ("inline::from int", format!("@inline::from {k}"), tagh("p", H::text(&k.to_string().replace('-', "\u{2212}")))) } } }
        _ => { let (a, b) = inl(r, 1); match r.below(3) { 0 => { let (f, t) = *r.pick(INLINE); ("function::call", format!("@function::call(${f}) {{{a}}}"), tagh("p", tagh(t, b))) } 1 => { let u = word(r); ("function::call with arguments", format!("@function::call($href, {}) {{{a}}}", lit(&u)), tagh("p", H::tag_attrs("a", vec![("href".into(), Some(u))], b))) } _ => { let t = *r.pick(&["div", "b", "P", "q_x", "h1"]); ("tag_name", format!("@html::tag_name <{t}>{a}</{t}>"), tagh("p", H::text(&t.to_lowercase()))) } } }
    };
    cx.nontrivial(&src);
    cx.count(&format!("helper:{kind}"));
    let got = tri!(go(&src));
    if got.errors > 0 { return bad(format!("a helper ({kind}) reports an error for valid content"), &src, want.render(), format!("{:?}", got.diags)); }
    let t = tri!(tree(&src, &got));
    // the order of attributes is the helper's business
    if t != top(want.clone()) { return bad(format!("a helper ({kind}) yields other markup than promised"), &src, want.render(), got.html); }
    Out::Ok
}
fn page(r: &mut Rng) -> (&'static str, String, H) {
    let title = { let t = word(r); if r.chance(1, 2) { "T & <x>".into() } else { t } };
    let (body, bh) = blk(r, 3);
    let mut args = vec![format!("title={}", lit(&title))];
    let at = |k: &str, v: &str| (k.to_string(), Some(v.to_string()));
    let root = *r.pick(&["https://kaya3.github.io/papyri", "/w", "/w/", "", "../x y", "/w//", "http://a/?b=c&d"]);
    if root != "https://kaya3.github.io/papyri" { args.push(format!("web_root={}", lit(root))) }
    let w = root.strip_suffix('/').unwrap_or(root);
    let mut head = tagh("title", H::text(&title));
    head.append(&H::tag_attrs("meta", vec![at("charset", "utf-8")], H::empty()));
    head.append(&H::tag_attrs("link", vec![at("rel", "stylesheet"), at("type", "text/css"), at("href", &format!("{w}/papyri.css"))], H::empty()));
    match r.below(3) { 0 => { args.push("head={<meta name=`a` content=`b`>}".into()); head.append(&H::tag_attrs("meta", vec![at("name", "a"), at("content", "b")], H::empty())) } 1 => { args.push("head={<meta name=`a`><link rel=`x`>}".into()); head.append(&H::tag_attrs("meta", vec![at("name", "a")], H::empty())); head.append(&H::tag_attrs("link", vec![at("rel", "x")], H::empty())) } _ => if r.chance(1, 5) { args.push("head=.".into()) } }
    let mut b = H::empty();
    let (hs, hh) = blk(r, 2); let (fs, fh) = blk(r, 2);
    let (use_h, use_f) = (r.chance(1, 2), r.chance(1, 2));
    if use_h { args.push(format!("header={{{hs}}}")); b.append(&tagh("header", hh)) } else if r.chance(1, 5) { args.push("header=.".into()) }
    b.append(&tagh("article", bh));
    if use_f { args.push(format!("footer={{{fs}}}")); b.append(&tagh("footer", fh)) }
    b.append(&H::tag_attrs("script", vec![at("type", "text/javascript"), at("src", &format!("{w}/papyri.js"))], H::empty()));
    let (first, rest) = args.split_at(1);
    let mut a: Vec<String> = rest.to_vec(); r.shuffle(&mut a); a.insert(r.below(a.len() + 1), first[0].clone());
    let mut h = H::tag_attrs("!DOCTYPE", vec![("html".into(), None)], H::empty());
    h.append(&tagh("html", H::concat(&[tagh("head", head), tagh("body", b)])));
    ("page", if r.chance(1, 2) { format!("@page({}) {{{body}}}", a.join(", ")) } else { format!("@page({})... {body}", a.join(", ")) }, h)
}
/// Helpers given content of the wrong kind report an error.
pub fn c27_wrong(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2702, idx);
    let r = &mut r;
    let block = *r.pick(&["<div>x</div>", "{<p>x</p>}", "[1, 2]", "{x\n\ny}", "@dict::new(a=1)."]);
    let (kind, src): (&str, String) = match r.below(13) {
        0 => ("inline helper with block content", format!("@{} {block}", r.pick(INLINE).0)),
        1 => ("heading with block content", format!("@h{} {block}", 1 + r.below(6))),
        2 => ("kbd with markup", format!("@{} {}", r.pick(&["kbd", "samp"]), r.pick(&["<b>x</b>", "[1]", ".", "{a <b>x</b>}", "@dict::new()."]))),
        3 => ("modifier without a tag", format!("@{} {}", r.pick(&["class(`c`)", "style(`c`)", "attributes(a=`c`)"]), r.pick(&["word", "{<b>x</b> y}", "{<b>x</b><b>y</b>}", ".", "`s`", "5"]))),
        4 => ("attribute supplied twice", "@attributes(id=`2`) <b id=`1`>x</b>".into()),
        5 => ("numbered without a list", format!("@numbered {}", r.pick(&["word", "<b>x</b>", "<ol><li>x</li></ol>", "<div><ul></ul></div>", "{<ul><li>a</li></ul><ul></ul>}", "."]))),
        6 => ("href without url", r.pick(&["@href {x}", "@href(.) {x}", "@href([1]) {x}", "@href(`u`) <div>x</div>", "@href(`u`, `v`) {x}"]).to_string()),
        7 => ("image", r.pick(&["@image .", "@image <b>x</b>", "@image(alt=[1]) `u`", "@image(`u`) ."]).to_string()),
        8 => ("page without title", r.pick(&["@page {x}", "@page(title=.) {x}", "@page(title=[1]) {x}", "@page(titel=`x`) {x}", "@page(title=`t`, foot=`x`) {x}"]).to_string()),
        9 => ("unknown argument", format!("@{}(zzz=1) {{x}}", r.pick(INLINE).0)),
        10 => ("surplus argument", format!("@{}(1) {{x}}", r.pick(INLINE).0)),
        11 => ("inline::from block", format!("@inline::from {block}")),
        _ => ("tag_name of no tag", r.pick(&["@html::tag_name word", "@html::tag_name {<b>x</b> y}", "@html::tag_name ."]).to_string()),
    };
    let src = format!("{}{src}", r.pick(&["", "before ", "before\n\n"]));
    cx.nontrivial(&src);
    cx.count(&format!("wrong:{kind}"));
    let got = tri!(go(&src));
    if got.errors == 0 { return bad(format!("wrong use of a helper ({kind}) is accepted"), &src, "an error", got.html); }
    if !got.diags.iter().any(|d| matches!(d.cat.as_str(), "Type error" | "Runtime error" | "Name error")) { return bad("kind of error", &src, "a type, runtime or name error", format!("{:?}", got.diags)); }
    Out::Ok
}

// ---- C26: code in text is a call of @code or @code_block ----

/// Appends the same piece to a document with code in text and to one with the
/// calls it stands for.
fn fences(r: &mut Rng, d: i32, o: &mut (String, String), funcs: &mut Vec<usize>, cx: &mut Cx) {
    let both = |o: &mut (String, String), t: &str| { o.0 += t; o.1 += t };
    for _ in 0..1 + r.below(4) {
        match r.below(if d > 0 { 11 } else { 5 }) {
            0 => both(o, r.pick(&["word ", "é日 ", "a, b; ", "— ", "x\n", "\n\n"])),
            1 | 2 | 3 => {
                let n = 1 + r.below(5);
                let t: String = (0..n).map(|_| *r.pick(&["x", "foo", " ", "$y", "<b>", "\\n", "&amp;", "#", "{", "}", "'", "\"", "--", "é", "@f", "1", "(a)", "// c"])).collect();
                let t = format!("q{t}q");
                o.0 += &format!("`{t}`");
                o.1 += &format!("@as_inline @code `{t}`");
                both(o, r.pick(&[" ", ", ", "\n", " z "]));
                cx.count("code in text:inline");
            }
            4 => {
                let n = 1 + r.below(4);
                let nl = if r.chance(1, 2) { "\n" } else { "" };
                let t: String = (0..n).map(|_| *r.pick(&["x = 1", "foo ", "  bar", "\n", "\n    ", "`y`", "$z {", "<i>", "# c", "\\"])).collect();
                let t = format!("```{nl}q {t} q{nl}```");
                o.0 += &t;
                o.1 += &format!("@as_block @code_block {t}");
                both(o, r.pick(&[" ", "\n\n", " z "]));
                cx.count("code in text:block");
            }
            5 | 6 => { let t = *r.pick(&["b", "div", "div", "div", "section", "li", "td", "p"]); both(o, &format!("<{t}>")); fences(r, d - 1, o, funcs, cx); both(o, "</> ") }
            7 | 8 => {
                // another meaning within
                const BODIES: &[&str] = &["<b>$v</b>", "<kbd>$v</kbd>", "$v", "5", "[$v]", ".", "{a $v}", "<div>$v</div>", "@dict::new(a=$v).", "`s`", "<pre>$v</pre>", "@str::upper $v", "@fn $w -> $w", "True", "<p>$v</p>"];
                let which = *r.pick(&["code", "code", "code_block"]);
                let fine = ["<b>$v</b>", "<kbd>$v</kbd>", "$v", "{a $v}", "@str::upper $v", "`s`", "5", "."];
                let f = match r.below(40) { 0 => "5".to_string(), 1 => "$str::upper".into(), 2 => "@fn($x) $v -> $v".into(), 3 => "@fn $v: int -> $v".into(), 4 => "$code".into(), 5 => "$code_block".into(), _ => format!("@fn $v -> {}", if which == "code" && r.chance(5, 6) { *r.pick(&fine) } else { *r.pick(BODIES) }) };
                both(o, &format!("@let({which}={f}) {{"));
                fences(r, d - 1, o, funcs, cx);
                both(o, "} ");
                cx.count(&format!("another meaning:{which}"));
            }
            9 => {
                // what the code means is settled where the function is written
                let k = funcs.len();
                both(o, &format!("\n@fn shown{k} . -> {{"));
                fences(r, d - 1, o, &mut vec![], cx);
                both(o, "}\n");
                both(o, &format!("@let(code=@fn $v -> <s>$v</s>, code_block=@fn $v -> <s>$v</s>) {{@shown{k}.}} "));
                funcs.push(k);
                cx.count("code within a function");
            }
            _ => { both(o, "@bold {"); fences(r, d - 1, o, funcs, cx); both(o, "} ") }
        }
    }
}
pub fn c26_calls(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2607, idx);
    let r = &mut r;
    let head = "@fn as_inline $it: inline -> $it\n@fn as_block $it: block -> $it\n";
    let mut o = (head.to_string(), head.to_string());
    if r.chance(1, 6) { let f = *r.pick(&["@fn code $v -> <var>$v</var>\n", "@fn code_block $v -> <section>$v</section>\n", "@fn code($language=., $code_block=False, $first_line_no=1) $v: str -> <samp>$v</samp>\n"]); o.0 += f; o.1 += f }
    fences(r, 3, &mut o, &mut vec![], cx);
    cx.nontrivial(&o.0);
    let (a, b) = (tri!(go(&o.0)), tri!(go(&o.1)));
    if a.errors != b.errors { return bad("code in text is diagnosed otherwise than the call it stands for", &o.0, format!("{} errors: {:?}", b.errors, b.diags), format!("{} errors: {:?}", a.errors, a.diags)); }
    let cats = |g: &real::Real| { let mut c: Vec<String> = g.diags.iter().map(|d| d.cat.clone()).collect(); c.sort(); c };
    if cats(&a) != cats(&b) { return bad("code in text is diagnosed otherwise than the call it stands for", &o.0, format!("{:?}", b.diags), format!("{:?}", a.diags)); }
    if a.errors > 0 { cx.count("code in text:refused"); return Out::Ok; }
    cx.count("code in text:compared with calls");
    if a.html != b.html { return bad("code in text differs from the call it stands for", &o.0, b.html, a.html); }
    Out::Ok
}
