//! Phases about source text: survival, malformed source, plain text and typography,
//! string literals and templates.
use std::collections::BTreeMap;
use crate::ast::*;
use crate::gen::*;
use crate::p_diff::{self, Mode};
use crate::p_more::size;
use crate::real::{self, RDiag};
use crate::rng::Rng;
use crate::run::*;

// ---- survival ------------------------------------------------------------
pub const TOKENS: &[&str] = &[
    "#", "# c\n", "<!--", "-->", "<!-- c -->", " ", " ", " ", " ", "\n", "\n\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{0}",
    "\\", "\\n", "\\x41", "\\x4", "\\u00e9", "\\uD800", "\\U0001F600", "\\U00110000", "\\é", "\\\n", "\\x\u{e9}", "&amp;", "&lt", "&#65;", "&#x1F600;", "&#xFFFFFFFFFF;", "&#0;", "&bogus;", "&", "&#", "&;",
    "foo", "x", "True", "False", "_", "__", "none", "$x", "$_x", "$", "$x::len", "$x?::y", "$x::0", "$x::-1", "$str::len", "@", "@foo", "@x", "@str::len", "@list::map", "@export", "@fn", "@implicit", "@let", "@match", "@raise", "@code", "@code_block", "@import", "@include", "@html::parse",
    "0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "00", "`", "``", "```", "`a`", "`` ` ``", "```\na\n```", "````",
    "(", ")", "[", "]", "{", "}", "<", ">", "/>", "</", "</>", "</b>", "</p>", "<b", "<b>", "<p>", "<div>", "<br>", "<br/>", "<!DOCTYPE html>", "<!", "<$x>", "<ul>", "<li>", "<table>", "<h1>", "<html>", "<_>", "</ul>", "</div>",
    "->", "*", "**", "|", ":", "::", ",", ".", "...", "=", "!", "?", "?::", "'", "\"", "'$x'", "\"{$x}\"", "-", "--", "---", "<-", "<->", "!=", "<=", ">=", "+/-", "(c)", "~", "^", "%", ";", "+", "/",
    "é", "日本", "😀", "e\u{301}", "\u{200d}", "\u{feff}", "\u{2028}", "\u{a0}", "\u{10ffff}", "ß", "İ",
    "@fn f $v -> $v", "@fn f($x) . -> $x", "@let(x=1)", "@match $x {", "_ -> .", "$y -> $y", "(x=1)", "[1, 2]", "@f(1)", "@f.", "x=", "x?=", "**$x", "*$x", ": str", ": int?", ": @implicit", "@implicit(x=`y`)", "@export(x=1).", "@fn(",
];
/// Compiles hostile text; any outcome but a crash is fine, and both renderings and
/// the list of diagnostics must be printable.
pub fn survive(cx: &mut Cx, src: &str) -> Out {
    cx.nontrivial(src);
    match real::compile(src) {
        Err(e) => bad("the compiler failed internally", src, "output or diagnostics", e),
        Ok(r) => {
            cx.count(if r.errors > 0 { "outcome:errors" } else if r.warnings > 0 { "outcome:warnings" } else { "outcome:success" });
            for d in &r.diags { cx.count(&format!("diagnostic:{}", d.cat)) }
            let one = real::guard(|| papyri_lang::compile_str(src).map_err(|d| format!("{d:?}")));
            match one {
                Err(p) => bad("compile_str failed internally", src, "output or diagnostics", p),
                Ok(Ok(h)) => if r.diags.is_empty() && h == r.html { Out::Ok } else { bad("compile_str returned output for a program with diagnostics, or other output than the context", src, format!("{:?}\n{}", r.diags, r.html), h) },
                Ok(Err(d)) => if !r.diags.is_empty() && !d.is_empty() { Out::Ok } else { bad("compile_str reported failure without diagnostics", src, r.html, d) },
            }
        }
    }
}
pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let sub: Vec<&str> = (0..3 + r.below(14)).map(|_| *r.pick(TOKENS)).collect();
    let mut s = String::new();
    for _ in 0..n { s.push_str(if r.chance(2, 3) { *r.pick(&sub) } else { *r.pick(TOKENS) }); if r.chance(1, 4) { s.push(' ') } }
    s
}
pub fn c01_soup(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(101, idx);
    let max = if r.chance(1, 20) { 400 } else { 40 };
    let mut s = soup(&mut r, max);
    match r.below(12) {
        0 => s = format!("<div>{s}</div>"),
        1 => s = format!("@code_block(language=`papyri`) ``````\n{}``````", s.replace("``````", "`")),
        2 => s = format!("@match 1 {{ {s} -> ., _ -> . }}"),
        3 => s = format!("@fn f({s}) $c -> $c\n@f(x=1) y"),
        4 => s = format!("@let(x=[1, `a`]) {{{s}}}"),
        5 => s = format!("@html::parse ``````<!DOCTYPE html>{}``````", s.replace("``````", "`")),
        _ => {}
    }
    survive(cx, &s)
}
const HOSTILE: &[&str] = &["\u{0}", "\\", "`", "'", "\"", "}", "{", "]", "[", "(", ")", "<", ">", "</>", "&#", "#", "<!--", "@", "$", "...", "::", "\n\n", "é", "😀", "*", "**", "->", "|", ".", ",", "=", "9999999999999999999", "\\u", "?", "@match", "@fn", "@let", "@export", "@implicit"];
fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let o: Vec<char> = other.chars().collect();
    for _ in 0..1 + r.below(4) {
        let n = cs.len().max(1);
        let i = r.below(n + 1).min(cs.len());
        match r.below(8) {
            0 => { let k = (i + 1 + r.below(6)).min(cs.len()); cs.drain(i..k); }
            1 => { cs.truncate(i) }
            2 => { let k = (i + r.below(30)).min(cs.len()); let t: Vec<char> = cs[i..k].to_vec(); let j = r.below(cs.len() + 1); cs.splice(j..j, t); }
            3 | 4 => { let t: Vec<char> = r.pick(HOSTILE).chars().collect(); cs.splice(i..i, t); }
            5 if i < cs.len() => { let t: Vec<char> = r.pick(HOSTILE).chars().collect(); cs.splice(i..i + 1, t); }
            6 if !cs.is_empty() => { let j = r.below(cs.len()); let i = i.min(cs.len() - 1); cs.swap(i, j); }
            _ if !o.is_empty() => { let a = r.below(o.len()); let b = (a + r.below(60)).min(o.len()); let k = (i + r.below(20)).min(cs.len()); cs.splice(i..k, o[a..b].to_vec()); }
            _ => {}
        }
    }
    cs.into_iter().collect()
}
fn std_src() -> String { std::fs::read_to_string("/repo/src/std.papyri").unwrap_or_default() }
pub fn c01_mutants(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(102, idx);
    let base = |r: &mut Rng| if r.chance(1, 12) { std_src() } else { let p = Prof { fault: 10, repr: false, ..prof(&[]) }; let items = Gen::new(r, p).program(); print_items(&items, Some(r)) };
    let a = base(&mut r);
    let b = if r.chance(1, 3) { base(&mut r) } else { soup(&mut r, 30) };
    let s = mutate(&mut r, &a, &b);
    survive(cx, &s)
}
/// Every function of the library, as a path.
pub const FUNCS: &[&str] = &["bool::and", "bool::from", "bool::or", "bool::negate", "int::add", "int::negate", "int::parse", "str::ends_with", "str::escape_html", "str::from", "str::is_empty", "str::is_whitespace", "str::len", "str::lower", "str::split", "str::starts_with", "str::trim", "str::unique_id", "str::upper",
    "regex::compile", "regex::count", "regex::find", "regex::find_all", "regex::split", "regex::test", "function::bind", "function::name", "function::call", "html::escape_html", "html::is_empty", "html::is_whitespace", "html::parse", "html::tag_name", "inline::from", "block::from",
    "list::all", "list::any", "list::contains", "list::enumerate", "list::filter", "list::find", "list::flat", "list::get", "list::html_nodes", "list::is_empty", "list::join", "list::len", "list::map", "list::slice", "list::sorted", "list::reversed", "dict::get", "dict::is_empty", "dict::items", "dict::keys", "dict::len", "dict::new", "dict::values",
    "file::list", "file::read", "file::write", "net::fetch_raw", "net::fetch_html", "code", "import", "include", "raise", "page", "typeof", "attributes", "class", "style", "b", "blockquote", "bold", "cite", "dfn", "emph", "href", "i", "image", "kbd", "quote", "samp", "span", "sub", "sup", "strikethrough", "underline", "h1", "h2", "h3", "h4", "h5", "h6", "code_block", "numbered", "footnote"];
const NAMED: &[&str] = &["max_length", "key", "reversed", "from", "language", "code_block", "first_line_no", "title", "web_root", "head", "header", "footer", "cite", "alt", "class", "zz"];
fn extreme(r: &mut Rng, d: i32) -> String {
    const V: &[&str] = &["9223372036854775807", "-9223372036854775808", "-9223372036854775807", "0", "-1", "1", "2", "3", "128", "True", "False", ".", "''", "`a`", "`a b`", "`é日😀`", "` `", "`papyri`", "`rust`", "`none`", "`(`", "`(?P<a>x)(y)`", "`(?P<a>x)|(?P<b>y)`", "`(x)|(y)`", "`x*`", "`^|$`", "`\\b`", "`9223372036854775808`", "`-9223372036854775808`", "`/etc/passwd`", "`../x`", "`http://127.0.0.1:1/`", "`*`",
        "`<!DOCTYPE html><p>a`", "`<!DOCTYPE html>x<template><td>y</template>`", "`<b`", "`fn`", "$str::len", "$list::get", "$class", "$f", "[]", "[1, 2, 3]", "[`b`, `a`]", "[[1], [2]]", "[., 1]", "<b>x</b>", "<p>y</p>", "<ul><li>1</li></ul>", "<br>", "<table></table>", "<a><p>q</p></a>", "{}", "{ab}", "@regex::compile `a*`", "@regex::compile `(?P<x>a)|b`", "@dict::new(a=1, b=2).", "@dict::new.", "$list", "@fn $v -> $v", "@fn $v -> @raise `no`", "@fn $v -> .", "@fn($_a) $b -> [$_a, $b]", "'$f'"];
    match if d <= 0 { 9 } else { r.below(10) } {
        0 => { let n = r.below(4); format!("[{}]", (0..n).map(|_| extreme(r, d - 1)).collect::<Vec<_>>().join(", ")) }
        1 => fcall(r, d - 1),
        2 => format!("@dict::new(a={}, b={}).", extreme(r, d - 1), extreme(r, d - 1)),
        3 => { let s = rich(r, 6); if s.contains('\n') || s.contains('`') || s.is_empty() { "''".into() } else { format!("`{s}`") } }
        _ => r.pick(V).to_string(),
    }
}
fn fcall(r: &mut Rng, d: i32) -> String {
    let mut f = *r.pick(FUNCS);
    if matches!(f, "file::list" | "file::read" | "import" | "include") && r.chance(9, 10) { f = "code" }
    let mut args: Vec<String> = (0..*r.pick(&[0, 0, 1, 1, 1, 2, 2, 3])).map(|_| extreme(r, d - 1)).collect();
    if r.chance(1, 4) { let l = extreme(r, d - 1); args.push(format!("*{l}")) }
    if r.chance(1, 3) { for _ in 0..1 + r.below(2) { let n = *r.pick(NAMED); let v = extreme(r, d - 1); if !args.iter().any(|a| a.starts_with(&format!("{n}="))) { args.push(format!("{n}={v}")) } } }
    if r.chance(1, 12) { args.push("**$d".into()) }
    let c = extreme(r, d - 1);
    format!("@{f}({}) {c}", args.join(", "))
}
pub fn c01_natives(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(103, idx);
    let mut s = String::from("@fn f($_x?, $k?) $c -> [$_x, $k, $c]\n@let(d=@dict::new(key=$f, reversed=True).)...\n");
    for _ in 0..1 + r.below(4) { let c = fcall(&mut r, 3); s.push_str(&format!("<div>{c}</div>\n")); }
    survive(cx, &s)
}
/// Deep (but bounded) nesting and long inputs; the driver's watch catches blow-ups in time.
pub fn c01_sizes(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(104, idx);
    const NEST: &[(&str, &str)] = &[("{", "}"), ("<b>", "</b>"), ("<div>", "</>"), ("[", "]"), ("@bold {", "}"), ("@let(x=1) {", "}"), ("@match 1 {_ -> {", "}}"), ("<ul><li>", "</></>"), ("<q class='a'>", "</q>"), ("@f(", ")."), ("@fn f $x -> {", "}"), ("'", "'"), ("@list::map($f) [", "]"), ("<table><tr><td>", "</></></>")];
    const REP: &[&str] = &["word ", "-- ", "'a' \"b\" ", "&amp;", "\\x41", "... ", "\n\n", "<b>x</b>", "{y}", "$x", "@f.", "<br>", "`v` ", "~", "<-", "#c\n", "[1,2]", "(c)", "é", "``", "<!-- x -->", "( [ { ", ") ] } ", "</b>", "<b ", "@match ", "@f(", "'", "\"", "`", "\\", "&", "<p>z</p>", "@str::unique_id a", "@str::len `abc`", "@list::contains(1) [1,2,3]", "@class(`k`) <b>q</b>"];
    let s = match r.below(4) {
        0 => { let d = 1 + r.below(40); let k = if r.chance(1, 2) { Some(*r.pick(NEST)) } else { None }; let ps: Vec<(&str, &str)> = (0..d).map(|_| k.unwrap_or_else(|| *r.pick(NEST))).collect();
            let drop = r.below(d * 4); let mut s = String::new(); for p in &ps { s.push_str(p.0) } s.push('x'); for (i, p) in ps.iter().rev().enumerate() { if i != drop { s.push_str(p.1) } } s }
        1 => { let n = 1 + r.below(4000); let w = *r.pick(REP); w.repeat(n) }
        2 => { let n = 1 + r.below(1500); let ws: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(REP)).collect(); (0..n).map(|_| *r.pick(&ws)).collect() }
        _ => { let n = 1 + r.below(400); let w = *r.pick(REP); let fence = "`".repeat(3 + r.below(3)); let body: String = (0..n).map(|_| if r.chance(1, 8) { "\n" } else { w }).collect(); let lang = *r.pick(&["papyri", "rust", "html", "js", "python", "none", "zzz"]); format!("@code_block(language=`{lang}`) {fence}{}{fence}", body.replace('`', "'")) }
    };
    cx.count(&format!("size:{}", match s.len() { 0..=99 => "<100", 100..=999 => "<1000", 1000..=9999 => "<10000", _ => ">=10000" }));
    survive(cx, &s)
}

// ---- malformed source ----------------------------------------------------
/// Malformed pieces with the place of the fault marked. `E`: what follows may be swallowed; `T`: only at top level.
pub const MAL_ITEM: &[(&str, &str)] = &[
    ("T", "▲}"), ("T", "▲]"), ("T", "▲</b>"), ("T", "▲</>"), ("TE", "▲<b>text"), ("TE", "▲<div><i>t</i>"), ("E", "<b>{text▲</b>}"), ("E", "<b>[1, 2▲</b>]"), ("TE", "▲{text"), ("TE", "▲{te {xt}"), ("E", "▲<b>x</i>"), ("", "<b>x▲</i></b>"), ("E", "<b>x<i>y▲</b></i>"),
    ("", "▲\\xZ9"), ("", "▲\\u12"), ("", "▲\\U0011"), ("", "▲\\U00110000"), ("", "▲\\uD800"), ("", "a▲\\\nb"), ("", "▲&bogus;"), ("", "▲&amp word"), ("", "▲&#xZZ;"), ("", "▲&#;"), ("", "▲&#xD800;"), ("", "&;x▲&no;"),
    ("TE", "▲```abc"), ("TE", "▲`abc"), ("", "▲`a\nb`"), ("", "▲``a\nb``"), ("", "▲`ab``"), ("", "▲``ab```"), ("", "▲</ b>"), ("", "▲</1>"), ("", "▲</b x"),
    ("", "▲@fn $x -> $x"), ("", "@fn mf $x ▲$x"), ("", "@fn mf ▲-> x"), ("", "@fn mf(▲x) . -> y"), ("", "@fn mf($x) ▲-> y"), ("", "@fn mf $x -> ▲)"), ("", "@fn mf($x . -> y"),
    ("", "▲@let {x}"), ("", "▲@let() {x}"), ("", "@let(▲5) {x}"), ("", "@let(▲`s`) {x}"), ("", "@let(a=1, ▲*$l) {x}"), ("", "@let(a=1, ▲**$l) {x}"), ("", "@let(x=1) ▲5"), ("", "@let(x=1) ▲True"), ("", "@let(x=1) ▲word"), ("", "@let(x=1) ▲`s`"), ("", "▲@implicit {x}"), ("", "@implicit(▲5) {x}"), ("", "@let(x=1, ▲x=2) {$x}"), ("", "@implicit(x=1, ▲x=2) {$x}"),
    ("", "@match 1 ▲x"), ("", "@match ▲) {_ -> .}"), ("", "@match 1 {_ ▲.}"), ("", "@match 1 {_ -> ▲,}"),
    ("", "@span ▲@export(x=1)."), ("", "@export(▲5)."), ("", "@export(x=1) ▲y"), ("", "▲@export x"), ("", "▲@export ."), ("", "@export ▲@fn $x -> $x"),
    ("", "[1, ▲x=2]"), ("", "[▲**$d]"), ("", "[1 ▲2]"), ("", "[1, ▲,]"), ("E", "[1, 2▲}"), ("TE", "▲[1, 2"),
    ("", "@span(1 ▲2)."), ("", "@span(a=1, ▲2)."), ("", "@span(a=1, ▲a=2)."), ("", "@span(▲*a=1)."), ("", "@span(▲**a=1)."), ("", "@span(a=1, ▲*[2])."), ("TE", "@span▲(1, 2"), ("", "@span ▲)"), ("", "@span ▲,"), ("", "@span ▲="), ("", "@span ▲:"), ("", "@span ▲->"), ("T", "@span ▲]"), ("", "@span(▲=1)."), ("", "@span(1,▲,2)."), ("E", "@span(1 ▲].)"),
    ("", "<!▲foo>"), ("E", "<b ▲1>"), ("E", "<b x=▲>y</b>"), ("E", "<b x▲?>y</b>"), ("E", "<b ▲*$x>y</b>"), ("", "<b x=1 ▲x=2>y</b>"), ("", "<b x ▲x=2>y</b>"), ("", "<b x=1 ▲x>y</b>"), ("E", "<b ▲=1>y</b>"), ("E", "<b x=`1` ▲<i>y</i>"), ("E", "<b ▲</b>"), ("E", "<b▲@span .>x</b>"),
    ("", "@span(▲99999999999999999999)."), ("", "@span(▲-9223372036854775809)."), ("", "$str::▲99999999999999999999"), ("", "$str::▲$y"), ("", "$str?::▲."), ("", "$str::▲ len"), ("", "@str::▲@x ."),
    ("", "@span('a ▲{b')."), ("", "@span('a ▲}')."), ("", "@span('a▲\n\nb')."), ("", "@span('a ▲`b`')."), ("TE", "@span(▲'abc)."), ("TE", "@span▲\"abc def"), ("", "@span('▲\\xZZ')."), ("", "@span('▲&nope;')."), ("", "@span('a ▲{{b}')."), ("", "@span('a {b}▲}')."), ("", "@span(\"$x::▲$y\")."),
];
pub const MAL_SIG: &[&str] = &["$a, ▲$a", "$_a, ▲$_a", "$a, ▲$_b", "$a = 1, ▲$b", "$a?, ▲$b", "$_a = 1, ▲$_b", "$_a?, ▲$_b", "▲$_a: @implicit str", "▲*$_a: @implicit int list", "▲$a: @implicit str = `x`", "*$_a, ▲*$_b", "*$_a, ▲$_b", "**$a, ▲**$b", "**$a, ▲$b", "**$a, ▲$_b", "**$a, ▲*$_b", "▲**$a: @implicit int dict", "$_a, ▲*$_a", "▲**$_a", "▲*$a", "$a: ▲foo", "$a: ▲str foo", "$a: ▲list of", "$a ▲$b", "▲a", "$a: ▲5", "$a: ▲$b", "$a, ▲,", "$a = ▲", "$a▲::b", "$a: ▲@explicit str", "*▲a", "**▲5"];
pub const MAL_DEF: &[&str] = &["@fn mg ▲*$x -> .", "@fn mg $x = ▲1 -> .", "@fn mg($x) ▲$x -> .", "@fn mg ▲**$x -> .", "@fn mg . ▲.", "@fn mg ▲5 -> ."];
pub const MAL_PAT: &[&str] = &["▲foo", "▲*$x", "▲**$x", "▲...", "[*$a, *▲$b]", "[..., ▲...]", "[▲**$a]", "{*$a *▲$b}", "(▲_a=1)", "(..., a=▲1)", "(**$x, a=▲1)", "(a=1, a=▲2)", "(**$a, **▲$b)", "<b>_▲</i>", "<b>_ ▲}", "{▲5}", "{▲[_]}", "{▲True}", "{▲(a=1)}", "▲$x::y", "▲$x::0", "'▲$x::y z'", "'▲$x::0 z'", "_: ▲foo", "_: ▲str foo", "_: ▲$x::y", "<▲5>", "(▲5)", "(a ▲5)", "$x & ▲)", "$x | ▲)", "<b x=1 x=▲2></b>", "<$n>_▲</b>", "<_>_▲</b>", "[1 ▲2]", "[▲,]", "▲@foo", "▲)", "<b ▲5></b>", "<b _x=1", "[$a, ▲foo]", "<b>▲foo</b>", "<b x=▲foo></b>", "1 | ▲foo", "$x & ▲foo", "=▲)", "▲99999999999999999999", "'▲\\xZZ'", "'▲{a'",
    "{=▲[1]}", "{▲$y|1}", "{▲1|$y}", "{▲$a&[..., 1] $b}", "{*$a ▲True $b}", "{*$a $b ▲1|2}", "{$a ▲(b=1)&_}", "[*$a, 1, *▲$b]", "[*$a, 1, $c, ▲...]", "<b **$x **▲$y />", "<b **$x a=▲1 />", "<b ... a=▲1>_</b>", "<b ▲_a=1 />", "(a=1, **$x, ▲...)", "(..., ▲...)", "{... 'a' *▲$z}"];
pub const MAL_TYPE: &[&str] = &["▲foo", "▲string", "▲int lists", "▲str ?x", "▲5", "▲`str`", ""];

pub struct Mal { pub src: String, pub at: Option<(u32, u32)>, pub eats: bool, pub form: &'static str }
/// Places a malformed piece within an otherwise valid document.
pub fn malformed(r: &mut Rng, pre: &str, simple: bool) -> Mal {
    let (form, eats, top, body): (&str, bool, bool, String) = match r.below(8) {
        0 | 1 | 2 | 3 => { let (f, s) = *r.pick(MAL_ITEM); ("item", f.contains('E'), f.contains('T'), s.to_string()) }
        4 => { let s = *r.pick(MAL_SIG); ("signature", false, false, format!("@fn mg({s}) . -> .")) }
        5 => if r.chance(1, 3) { ("definition", false, false, r.pick(MAL_DEF).to_string()) } else { let t = *r.pick(MAL_TYPE); ("type", false, false, if r.chance(1, 2) { format!("@fn mg $x: {t} -> .") } else { format!("@match 1 {{_: {t} -> ., _ -> .}}") }) },
        _ => { let s = *r.pick(MAL_PAT); ("pattern", true, true, match r.below(3) { 0 => format!("@match [1] {{{s} -> ., _ -> .}}"), 1 => format!("@match [1] {{_ -> ., {s} -> .}}"), _ => format!("@match [1] {{\n1 -> .,\n  {s}\n -> .,\n _ -> .}}") }) }
    };
    const CTX: &[(&str, &str)] = &[("", ""), ("<div>", "</div>"), ("{", "}"), ("@fn zz $zc -> {", "}"), ("@match 1 {_ -> {", "}}"), ("<p>x <q>", "</q></p>"), ("@bold {", "}"), ("[{", "}, 2]"), ("@bold... ", ""), ("<ul><li>é ", "</li></ul>"), ("@let(zv=`é→`) {", "}")];
    // a definition or pattern swallowed by the place it stands in is diagnosed too, but elsewhere
    let (a, b) = if simple || top { CTX[0] } else { *r.pick(CTX) };
    let i = body.find('▲');
    let clean = body.replace('▲', "");
    let head = format!("{pre}{a}");
    let src = format!("{head}{clean}{b} tail\n\nmore words");
    let sure = top || matches!(form, "item") || a.is_empty();
    let at = i.filter(|_| sure).map(|i| lc(&format!("{head}{}", &body[..i])));
    Mal { src, at, eats, form }
}
pub fn lc(s: &str) -> (u32, u32) { let l = s.matches('\n').count() as u32 + 1; let c = s.rsplit('\n').next().unwrap_or("").chars().count() as u32 + 1; (l, c) }
fn preamble(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "Ünï <b>cødé</b> “→” 日本 ".into(),
        2 => "# cömment {[<\n<!-- \n 日本 --> é ".into(),
        3 => "l1\r\nl2\n\n<p>x\n</p>\n\t ".into(),
        _ => crate::p_cli::program(r, Prof { fault: 0, ..prof(&[]) }) + "\n\n",
    }
}
pub fn c03_table(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(301, idx);
    let pre = preamble(&mut r);
    let m = malformed(&mut r, &pre, false);
    cx.nontrivial(&m.src);
    cx.count(&format!("malformed:{}", m.form));
    let got = match real::compile(&m.src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", &m.src, "diagnostics", e) };
    if got.errors == 0 { return bad("malformed source was accepted without an error", &m.src, "at least one error", got.html); }
    if let Ok(Ok(h)) = real::guard(|| papyri_lang::compile_str(&m.src)) { return bad("compile_str returned output for malformed source", &m.src, "an error", h); }
    Out::Ok
}
pub fn c02_table(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(203, idx);
    let pre = preamble(&mut r);
    let m = malformed(&mut r, &pre, false);
    let Some(at) = m.at else { return Out::Skip("no single place at fault") };
    cx.nontrivial(&m.src);
    cx.count("syntax error position");
    let got = match real::compile(&m.src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", &m.src, "diagnostics", e) };
    if !got.diags.iter().any(|d| d.cat != "Warning" && (d.at.line, d.at.col) == at) { return bad("no error names the place of the fault", &m.src, format!("line {}, col {}", at.0, at.1), format!("{:?}", got.diags)); }
    // every diagnostic lies within the source
    let last = lc(&m.src);
    for d in &got.diags { if d.at.file == "<string>" && ((d.at.line, d.at.col) > last || d.at.line == 0 || d.at.col == 0) { return bad("a diagnostic lies outside the source", &m.src, format!("at most {last:?}"), format!("{d:?}")); } }
    Out::Ok
}
/// Faults beneath long chains of calls: every place of the traceback.
pub fn c02_chains(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(204, idx);
    let r = &mut r;
    let it = |r: &mut Rng, x: E| { let mut g = Gen::new(r, prof(&[])); g.as_item(x) };
    let fd = |n: Option<String>, x: &str, body: E| { let mut p = Params::default(); p.content = Some(Param::new(x, crate::value::T::Any)); FnDef { name: n, params: p, body: std::rc::Rc::new(body), sig_at: pos() } };
    let mut items: Vec<Item> = vec![];
    let chains = if r.chance(1, 12) { 2 + r.below(25) } else { 1 + r.below(2) };
    for c in 0..chains {
        let n = if chains > 3 { r.below(4) } else { crate::p_more::size(r, 6, 5).max(if r.chance(1, 3) { r.below(45) } else { 0 }) };
        let call_of = |r: &mut Rng, k: usize, x: E, d: usize| -> E {
            let f = format!("g{c}_{k}");
            let direct = call(name(&f), vec![], x.clone());
            match r.below(12) {
                0 => { let i = it(r, direct); tag("b", vec![], vec![txt("in"), Item::Ws, i]) }
                1 => { let i = it(r, direct); group(vec![txt("w"), Item::Ws, i]) }
                2 => call(native_name("list::map"), vec![arg(var(&f))], list(vec![x])),
                3 => { let lf = fd(if r.chance(1, 2) { Some(format!("loc{k}")) } else { None }, "lx", call(name(&f), vec![], var("lx"))); let1("lf", e(EK::Fn(std::rc::Rc::new(lf))), call(name("lf"), vec![], x)) }
                4 => let1("t", direct, var("t")),
                5 => e(EK::Match { value: Box::new(int(1)), branches: vec![(P::Ignore, direct)] }),
                6 => e(EK::Match { value: Box::new(direct), branches: vec![(P::Ignore, unit_e())] }),
                7 => list(vec![int(3), direct]),
                8 if d > 0 => call(native_name("dict::new"), vec![narg("k", direct)], unit_e()),
                9 => call(native_name("list::filter"), vec![arg(var(&f))], list(vec![x])),
                10 => e(EK::Tag(Box::new(TagE { name: TName::Lit("i".into()), attrs: vec![AttrE { k: AttrK::Val("title".into(), false, direct), at: pos() }], children: vec![], self_close: false }))),
                _ => direct,
            }
        };
        for k in 0..n {
            let body = if k == 0 {
                let mut g = Gen::new(r, prof(&[]));
                match g.r.below(4) { 0 => g.fault(2), 1 => call(native_name("int::parse"), vec![], s("1x")), 2 => var("undefd"), _ => call(name("raise"), vec![], s("deep")) }
            } else { call_of(r, k - 1, var("x"), 1) };
            items.push(Item::Fn(std::rc::Rc::new(fd(Some(format!("g{c}_{k}")), "x", body)))); items.push(if r.chance(1, 4) { Item::Para(pos()) } else { Item::Ws });
        }
        if n > 0 { let times = if chains > 3 { 1 } else { 1 + r.below(3) }; for _ in 0..times { let k = n - 1 - r.below(n.min(2)); let x = call_of(r, k, int(1), 0); items.push(it(r, x)); items.push(Item::Ws) } }
        cx.count(match n { 0..=2 => "chain:up to 2", 3..=15 => "chain:up to 15", _ => "chain:over 15" });
    }
    if chains > 10 { cx.count("chains:over 10") }
    clean(&mut items);
    let src = print_items(&items, Some(r));
    cx.nontrivial(&src);
    p_diff::judge(cx, &items, &src, Mode::Full)
}
/// A document of balanced constructs; returns its pieces, with the closing ones marked.
fn balanced(r: &mut Rng, d: i32, out: &mut Vec<(String, bool)>) {
    let w = |r: &mut Rng| r.pick(&["alpha", "beta", "gamma", "é日", "delta"]).to_string();
    let p = |out: &mut Vec<(String, bool)>, s: &str, c: bool| out.push((s.to_string(), c));
    fn prim(r: &mut Rng, d: i32, out: &mut Vec<(String, bool)>) {
        match if d <= 0 { r.below(3) } else { r.below(8) } {
            0 => out.push(("1".into(), false)),
            1 => { let q = *r.pick(&["'", "\""]); out.push((format!("{q}alpha é"), false)); out.push((q.into(), true)) }
            2 => { let n = 1 + r.below(3); let q = "`".repeat(n); out.push((format!("{q}beta"), false)); out.push((q, true)) }
            3 | 4 => { out.push(("[".into(), false)); for i in 0..r.below(3) { if i > 0 { out.push((", ".into(), false)) } prim(r, d - 1, out) } out.push(("]".into(), true)) }
            5 => { out.push(("{".into(), false)); balanced(r, d - 1, out); out.push(("}".into(), true)) }
            6 => { out.push(("@ff(".into(), false)); prim(r, d - 1, out); out.push((", k=".into(), false)); prim(r, d - 1, out); out.push((")".into(), true)); out.push((" .".into(), false)) }
            _ => { out.push(("@match ".into(), false)); prim(r, d - 1, out); out.push((" {[$a, *_".into(), false)); out.push(("]".into(), true)); out.push((" -> ".into(), false)); prim(r, d - 1, out); out.push((", _ -> {x".into(), false)); out.push(("}".into(), true)); out.push(("}".into(), true)) }
        }
    }
    for _ in 0..1 + r.below(3) {
        match if d <= 0 { 0 } else { r.below(9) } {
            0 | 1 => { let t = w(r); p(out, &t, false) }
            2 | 3 => {
                let t = *r.pick(&["b", "i", "div", "p", "ul"]);
                p(out, &format!("<{t}"), false);
                for a in &["class", "title"][..r.below(3)] { p(out, &format!(" {a}="), false); prim(r, d - 1, out) }
                p(out, ">", true);
                balanced(r, d - 1, out);
                p(out, &if r.chance(1, 2) { format!("</{t}>") } else { "</>".into() }, true);
            }
            4 => { p(out, "{", false); balanced(r, d - 1, out); p(out, "}", true) }
            5 => { p(out, "[", false); for i in 0..1 + r.below(2) { if i > 0 { p(out, ", ", false) } prim(r, d - 1, out) } p(out, "]", true) }
            6 => { p(out, "@ff(", false); prim(r, d - 1, out); p(out, ")", true); p(out, " {", false); balanced(r, d - 1, out); p(out, "}", true) }
            7 => { p(out, "@let(v=", false); prim(r, d - 1, out); p(out, ")", true); p(out, " {", false); balanced(r, d - 1, out); p(out, "}", true) }
            _ => { p(out, "@fn hh($q=", false); prim(r, d - 1, out); p(out, ")", true); p(out, " $c -> {", false); balanced(r, d - 1, out); p(out, "}", true) }
        }
        p(out, if r.chance(1, 6) { "\n\n" } else { " " }, false);
    }
}
pub fn c03_delimiters(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(302, idx);
    let mut ps = vec![("@fn ff($_a, $k?) $c -> $c\n".to_string(), false)];
    balanced(&mut r, 4, &mut ps);
    let join = |ps: &[(String, bool)]| ps.iter().map(|p| p.0.as_str()).collect::<String>();
    let whole = join(&ps);
    // the balanced document itself has no syntax error
    let ok = match real::compile(&whole) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", whole, "output or diagnostics", e) };
    if let Some(d) = ok.diags.iter().find(|d| d.cat == "Syntax error") { return bad("a well-formed document has a syntax error", whole, "no syntax error", d.msg.clone()); }
    let cl: Vec<usize> = ps.iter().enumerate().filter(|p| p.1 .1).map(|p| p.0).collect();
    if cl.is_empty() { return Out::Skip("nothing to unbalance"); }
    let i = *r.pick(&cl);
    let kind = match r.below(3) {
        0 => { ps.remove(i); "closer removed" }
        // text may follow any closer that ends an item; a second one is surplus
        1 => { let c = ps[i].0.clone(); if c == "}" || c == "]" || c.starts_with("</") { ps.insert(i, (c, true)); "closer doubled" } else { ps.remove(i); "closer removed" } }
        _ => { let c = ps[i].0.clone(); let near; let o = match c.as_str() { "}" => "]", "]" => "}", ")" => *r.pick(&["]", "}"]), c if c.starts_with("</") && c != "</>" => { let n = c[2..].trim_end_matches('>'); near = format!("</{}>", match r.below(6) { 0 => format!("{n}_"), 1 => format!("{n}1"), 2 => format!("{n}{n}"), 3 if n.len() > 1 => n[..n.len() - 1].to_string(), 4 => format!("_{n}"), _ => if n.eq_ignore_ascii_case("em") { "i".to_string() } else { "em".to_string() } }); &near } ">" => "}", _ => "" }; ps[i].0 = o.to_string(); if o.is_empty() { "closer removed" } else { "closer replaced" } }
    };
    let src = join(&ps);
    cx.nontrivial(&src);
    cx.count(&format!("delimiters:{kind}"));
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "diagnostics", e) };
    if !got.diags.iter().any(|d| d.cat == "Syntax error") { return bad(format!("unbalanced source was accepted ({kind})"), src, "a syntax error", format!("{:?} {}", got.diags, got.html)); }
    Out::Ok
}
// ---- rules about combinations --------------------------------------------
/// A parameter list, argument list, declaration, pattern or attribute list whose every fault is marked.
/// The rules are those of the manual: positional before named, required before optional, at most one
/// spread of a kind and nothing of that kind after it, no name twice, and what may not be combined.
fn combo(r: &mut Rng, depth: u32) -> (&'static str, String) {
    let val = |r: &mut Rng| (*r.pick(&["1", "`s`", "$vv", "word", "[1, 2]", ".", "{x}", "True", "-7", "'t u'"])).to_string();
    fn join(r: &mut Rng, ps: &[String], sep: &str) -> String {
        let mut out = String::new();
        for (i, p) in ps.iter().enumerate() { if i > 0 { let c = match r.below(4) { 0 => "\n  ", 1 => "  ", _ => " " }; out += sep; out += c; } out += p; }
        if !sep.is_empty() && !ps.is_empty() && r.chance(1, 6) { out += sep; }
        out
    }
    fn pat(r: &mut Rng, d: u32, html: bool, n: &mut u32) -> String {
        *n += 1;
        if d > 0 && r.chance(1, 3) { return list(r, d - 1, n).0; }
        match r.below(if html { 5 } else { 7 }) { 0 => "_".into(), 1 => format!("$q{n}"), 2 => "`s`".into(), 3 => "<b>_</b>".into(), 4 => ".".into(), 5 => "5".into(), _ => "True".into() }
    }
    /// A list, sequence or dictionary pattern and whether it can match HTML.
    fn list(r: &mut Rng, d: u32, n: &mut u32) -> (String, bool) {
        let k = r.below(5);
        let kind = r.below(4);
        let mut ps: Vec<String> = vec![];
        let mut spread = false;
        if kind < 2 {
            let html = kind == 1;
            for _ in 0..k {
                let s = r.below(5);
                let (pre, body, can) = if s == 0 { ("", "...".to_string(), true) } else {
                    let pre = if s == 1 { "*" } else if s == 2 && r.chance(1, 4) { "▲**" } else { "" };
                    if d > 0 && r.chance(1, 4) { let (b, c) = list(r, d - 1, n); (pre, b, c) } else { let h = html && !r.chance(1, 8); let b = pat(r, 0, h, n); let c = !matches!(b.as_str(), "5" | "True"); (pre, b, c) }
                };
                let is_spread = s == 0 || pre == "*";
                let bad = (is_spread && spread) || (html && !can);
                spread |= is_spread;
                ps.push(format!("{pre}{}{body}", if bad { "▲" } else { "" }));
            }
            return if html { (format!("{{{}}}", join(r, &ps, "")), true) } else { (format!("[{}]", join(r, &ps, ",")), false) };
        }
        let tag = kind == 3;
        let mut used: Vec<String> = vec![];
        for _ in 0..k {
            let s = r.below(6);
            if s < 2 {
                let bad = if spread { "▲" } else { "" };
                let p = if s == 0 { format!("{bad}...") } else { format!("**{bad}{}", pat(r, 0, false, n)) };
                spread = true;
                ps.push(p);
            } else {
                let name = (*r.pick(&["a", "b", "c", "d", "class", "_x"])).to_string();
                let u = if name.starts_with('_') { "▲" } else { "" };
                let bad = if spread || used.contains(&name) { "▲" } else { "" };
                if !spread && !used.contains(&name) { used.push(name.clone()); }
                ps.push(if tag && r.chance(1, 3) { format!("{}{name}", if bad.is_empty() { u } else { bad }) } else { let eq = if r.chance(1, 4) { " = " } else { "=" }; format!("{u}{name}{eq}{bad}{}", pat(r, d, false, n)) });
            }
        }
        if tag { let a = if ps.is_empty() { String::new() } else { format!(" {}", join(r, &ps, "")) }; let (name, close) = *r.pick(&[("b", "</b>"), ("b", "</>"), ("_", "</>"), ("$qt", "</>"), ("b", "▲</i>"), ("_", "▲</b>")]); (format!("<{name}{a}>_{close}"), true) } else { (format!("({})", join(r, &ps, ",")), false) }
    }
    match r.below(6) {
        0 | 1 => { // parameters
            #[derive(Clone)]
            struct P { name: &'static str, spread: u8, under: bool, q: bool, imp: bool, def: bool }
            let k = 1 + r.below(6);
            let mut ps: Vec<P> = (0..k).map(|_| {
                let spread = match r.below(8) { 0 => 1, 1 => 2, _ => 0 };
                let under = if spread == 1 { !r.chance(1, 12) } else if spread == 2 { r.chance(1, 12) } else { r.chance(1, 2) };
                let plain = spread == 0 || r.chance(1, 10);
                P { name: *r.pick(&["a", "b", "c", "d", "e", "f", "g", "h"]), spread, under, q: spread == 0 && r.chance(1, 5), imp: plain && (!under || r.chance(1, 5)) && r.chance(1, 8), def: plain && r.chance(1, 5) }
            }).collect();
            // mostly near a valid order: positional, its spread, named, its spread
            if r.chance(3, 4) {
                ps.sort_by_key(|p| { let pos = if p.spread > 0 { p.spread == 1 } else { p.under }; let req = p.spread == 0 && !p.q && !p.def; (!pos, p.spread > 0, !req) });
                if r.chance(1, 2) { let (i, j) = (r.below(k), r.below(k)); ps.swap(i, j); }
                if r.chance(2, 3) { for (i, p) in ps.iter_mut().enumerate() { p.name = ["a", "b", "c", "d", "e", "f", "g", "h"][i]; } }
            }
            let mut used: Vec<String> = vec![];
            let (mut named, mut opt, mut optn, mut sp, mut sn) = (false, false, false, false, false);
            let mut out = vec![];
            let text = |r: &mut Rng, p: &P, bad: bool, bad_def: bool| -> String {
                let ty = *r.pick(&["str", "int list", "any", "html", "none"]);
                let sp = |r: &mut Rng| if r.chance(1, 8) { " " } else { "" };
                let mut t = format!("{}{}${}{}", if bad { "▲" } else { "" }, ["", "*", "**"][p.spread as usize], if p.under { "_" } else { "" }, p.name);
                if p.q { t += sp(r); t += "?"; }
                if p.imp { t += ": @implicit "; t += ty; } else if r.chance(1, 3) { t += ": "; t += ty; }
                if p.def { t += " = "; if bad_def { t += "▲"; } t += *r.pick(&["1", "`s`", "[]", "."]); }
                t
            };
            for p in &ps {
                let full = format!("{}{}", if p.under { "_" } else { "" }, p.name);
                let pos = if p.spread > 0 { p.spread == 1 } else { p.under };
                let req = p.spread == 0 && !p.q && !p.def;
                let mut bad = used.contains(&full) || pos && named || req && (if pos { opt } else { optn }) || pos && p.imp || p.spread > 0 && p.imp || p.imp && p.def || (if pos { sp } else { sn });
                used.push(full);
                match (pos, p.spread > 0) {
                    (false, false) => { named = true; optn |= !req; }
                    (true, false) => opt |= !req,
                    (false, true) => { bad |= p.under; named = true; sn = true; }
                    (true, true) => { bad |= !p.under; sp = true; }
                }
                out.push(text(r, p, bad, p.spread > 0 && p.def));
            }
            let content = if r.chance(1, 2) { ".".to_string() } else {
                let p = P { name: *r.pick(&["x", "y", "a", "b"]), spread: if r.chance(1, 8) { 1 + r.below(2) as u8 } else { 0 }, under: r.chance(1, 4), q: false, imp: false, def: r.chance(1, 8) };
                let full = format!("{}{}", if p.under { "_" } else { "" }, p.name);
                let dup = used.contains(&full);
                let bad = dup || p.spread > 0;
                // one fault is reported for a content parameter, but a spread with a default is two
                text(r, &p, bad, p.def && (p.spread > 0 || !dup))
            };
            ("parameters", format!("@fn cf({}) {content} -> .", join(r, &out, ",")))
        }
        2 | 3 => { // arguments and declarations
            let form = r.below(5);
            let k = 1 + r.below(5);
            let decl = form >= 2;
            let mut used: Vec<String> = vec![];
            let mut named = false;
            let mut out = vec![];
            for i in 0..k {
                let s = if decl { if r.chance(1, 6) { r.below(3) } else { 9 } } else if r.chance(1, 2) && i > k / 2 { 9 } else { r.below(4) };
                let v = if s == 9 || s == 3 { val(r) } else { match s { 1 => "$vl".into(), 2 => "$vd".into(), _ => val(r) } };
                match s {
                    2 => { named = true; out.push(format!("{}**{v}", if decl { "▲" } else { "" })); }
                    0 | 1 => { out.push(format!("{}{}{v}", if named || decl { "▲" } else { "" }, if s == 1 { "*" } else { "" })); }
                    _ => {
                        let n = (*r.pick(&["a", "b", "c", "d", "e"])).to_string();
                        let wrong = r.chance(1, 16);
                        let eq = if r.chance(1, 4) { " = " } else { "=" };
                        out.push(format!("{}{n}{eq}{v}", if wrong { *r.pick(&["▲*", "▲**"]) } else if used.contains(&n) { "▲" } else { "" }));
                        used.push(n);
                        named = true;
                    }
                }
            }
            let a = join(r, &out, ",");
            match form { 0 => ("arguments", format!("@cf({a}).")), 1 => ("arguments", format!("@cf::x({a}) {{y}}")), 2 => ("declarations", format!("@let({a}) {{x}}")), 3 => ("declarations", format!("@implicit({a}) {{x}}")), _ => ("declarations", format!("@let(zz=1) -> @let({a}) {{x}}").replace(" -> ", " ")) }
        }
        4 => { // attributes
            let k = 1 + r.below(5);
            let mut used: Vec<String> = vec![];
            let mut out = vec![];
            for _ in 0..k {
                if r.chance(1, 5) { out.push("**$vd".to_string()); continue; }
                let n = (*r.pick(&["id", "class", "title", "lang", "a"])).to_string();
                let bad = if used.contains(&n) { "▲" } else { "" };
                out.push(match r.below(4) { 0 => format!("{bad}{n}"), 1 => format!("{bad}{n}?={}", val(r)), _ => format!("{bad}{n}={}", val(r)) });
                used.push(n);
            }
            ("attributes", if r.chance(1, 3) { format!("<img {}>", join(r, &out, "")) } else { format!("<q {}>x</q>", join(r, &out, "")) })
        }
        _ => { let mut n = 0; let (p, _) = list(r, depth, &mut n); let p2 = if r.chance(1, 3) { let op = *r.pick(&["|", "&"]); let (q, _) = list(r, depth, &mut n); format!("{p} {op} {q}") } else { p }; ("patterns", format!("@match [1] {{{p2} -> ., _ -> .}}")) }
    }
}
/// Accepted if and only if no rule is broken, and each broken rule is reported at its place.
pub fn combos(cx: &mut Cx, idx: u64, stream: u64) -> Out {
    let mut r = cx.rng(stream, idx);
    let r = &mut r;
    let pre = if r.chance(1, 3) { preamble(r) } else { String::new() };
    if real::compile(&pre).map_or(true, |g| g.diags.iter().any(|d| d.cat == "Syntax error")) { return Out::Skip("preamble"); }
    let (form, body) = combo(r, 2);
    const CTX: &[(&str, &str)] = &[("", ""), ("", ""), ("<div>", "</div>"), ("{", "}"), ("@fn zz $zc -> {", "}"), ("@match 1 {_ -> {", "}}"), ("<p>x <q>", "</q></p>"), ("@bold... ", "")];
    let (a, b) = *r.pick(CTX);
    let marked = format!("{pre}{a}{body}{b} tail\n\nmore");
    let mut want = vec![];
    let mut src = String::new();
    for c in marked.chars() { if c == '▲' { want.push(lc(&src)); } else { src.push(c); } }
    want.dedup();
    cx.nontrivial(&src);
    cx.count(&format!("{form}:{}", match want.len() { 0 => "valid", 1 => "one fault", _ => "several faults" }));
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "diagnostics", e) };
    let mut at: Vec<(u32, u32)> = got.diags.iter().filter(|d| d.cat == "Syntax error").map(|d| (d.at.line, d.at.col)).collect();
    at.sort(); at.dedup();
    if want.is_empty() && !at.is_empty() { return bad(format!("valid {form} were rejected"), src, "no syntax error", format!("{:?}", got.diags)); }
    if !want.is_empty() && at.is_empty() { return bad(format!("invalid {form} were accepted"), src, format!("syntax errors at {want:?}"), format!("{:?}", got.diags)); }
    want.sort(); want.dedup();
    // where they are is the matter of C02, that they are all reported that of C29
    if stream != 305 && at != want { return bad(format!("the faults of the {form} are not those reported"), src, format!("syntax errors at {want:?}"), format!("{:?}", got.diags)); }
    Out::Ok
}
/// Independent syntax errors, each in a paragraph of its own, are reported as they are alone.
pub fn c29_syntax(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2901, idx);
    let mut parts: Vec<String> = vec![];
    // as many as it takes, none of them left out
    let many = if r.chance(1, 60) { 20 + r.below(230) } else { 2 + r.below(4) };
    cx.count(if many > 64 { "faults:more than 64" } else { "faults:few" });
    for _ in 0..many {
        let m = loop { let m = malformed(&mut r, "", false); if !m.eats { break m; } };
        parts.push(m.src.strip_suffix("\n\nmore words").unwrap().to_string());
        if r.chance(1, 3) { parts.push(format!("<div>@undefined_{}.</div>", r.below(9))) }
        if r.chance(1, 4) { parts.push("plain <b>text</b> — ok".into()) }
        if r.chance(1, 5) { parts.push("@str::upper 5 @raise `boom` $nothing".into()) }
    }
    let src = parts.join("\n\n");
    cx.nontrivial(&src);
    let key = |d: &RDiag, off: u32| (d.cat.clone(), d.msg.clone(), d.at.line + off, d.at.col);
    let mut want: BTreeMap<(String, String, u32, u32), i32> = BTreeMap::new();
    let mut off = 0;
    for p in &parts {
        let got = match real::compile(&format!("{p}\n\nzz")) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", p.clone(), "diagnostics", e) };
        for d in &got.diags { *want.entry(key(d, off)).or_insert(0) += 1; cx.count(&format!("diagnostic:{}", d.cat)) }
        off += p.matches('\n').count() as u32 + 2;
    }
    let got = match real::compile(&format!("{src}\n\nzz")) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "diagnostics", e) };
    let n = got.diags.len();
    for d in &got.diags { *want.entry(key(d, 0)).or_insert(0) -= 1 }
    want.retain(|k, v| *v != 0 && !(k.0 == "Warning"));
    if !want.is_empty() { return bad("faults are not reported together as they are alone", src, format!("{want:?} (missing counted positive, surplus negative)"), format!("{:?}", got.diags)); }
    if (got.errors + got.warnings) as usize != n { return bad("counts differ from the diagnostics reported", src, format!("{n}"), format!("{} + {}", got.errors, got.warnings)); }
    Out::Ok
}

// ---- plain text and typography -------------------------------------------
const ENT: &[(&str, char)] = &[("amp", '&'), ("lt", '<'), ("gt", '>'), ("quot", '"'), ("nbsp", '\u{a0}'), ("copy", '©'), ("eacute", 'é'), ("hellip", '…'), ("mdash", '—'), ("#97", 'a'), ("#x1F600", '😀'), ("#xe9", 'é'), ("alpha", 'α'), ("rarr", '→'), ("#38", '&'), ("#60", '<'), ("Uuml", 'Ü')];
const SUBS: &[(&str, &str)] = &[("---", "—"), ("<->", "↔"), ("+/-", "±"), ("(c)", "©"), ("--", "–"), ("<-", "←"), ("->", "→"), ("!=", "≠"), ("<=", "≤"), (">=", "≥"), ("~", "\u{a0}"),
    ("-0", "\u{2212}0"), ("-1", "\u{2212}1"), ("-2", "\u{2212}2"), ("-3", "\u{2212}3"), ("-4", "\u{2212}4"), ("-5", "\u{2212}5"), ("-6", "\u{2212}6"), ("-7", "\u{2212}7"), ("-8", "\u{2212}8"), ("-9", "\u{2212}9")];
pub fn substitute(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    'a: while !rest.is_empty() {
        let mut best: Option<(&str, &str)> = None;
        for (f, t) in SUBS { if rest.starts_with(f) && best.map_or(true, |b| f.len() > b.0.len()) { best = Some((f, t)) } }
        if let Some((f, t)) = best { o.push_str(t); rest = &rest[f.len()..]; continue 'a; }
        let c = rest.chars().next().unwrap();
        o.push(c); rest = &rest[c.len_utf8()..];
    }
    o
}
/// What ordinary source text denotes, read from the documented rules. Gives up (`None`)
/// where the text is not plain text any more.
struct Scan { cs: Vec<char>, i: usize, left: bool }
const TAGS: &[&str] = &["b", "i", "span", "div", "h2", "p", "ul", "li", "section"];
impl Scan {
    fn at(&self, s: &str) -> bool { s.chars().enumerate().all(|(k, c)| self.cs.get(self.i + k) == Some(&c)) }
    fn ident(&self, k: usize) -> bool { self.cs.get(self.i + k).map_or(false, |c| c.is_ascii_alphabetic() || *c == '_') }
    fn word(&self, mut k: usize) -> String { let mut s = String::new(); while let Some(c) = self.cs.get(self.i + k) { if c.is_ascii_alphanumeric() || *c == '_' { s.push(*c); k += 1 } else { break } } s }
    /// Skips a comment; true if there was one.
    fn comment(&mut self) -> Option<bool> {
        if self.at("#") {
            while self.i < self.cs.len() && self.cs[self.i] != '\n' { self.i += 1 }
            let mut j = self.i; let mut n = 0;
            while j < self.cs.len() && self.cs[j].is_ascii_whitespace() { if self.cs[j] == '\n' { n += 1 } j += 1 }
            if n < 2 { self.i = j }
            return Some(true);
        }
        if self.at("<!--") {
            self.i += 4;
            while self.i < self.cs.len() && !self.at("-->") { self.i += 1 }
            self.i = (self.i + 3).min(self.cs.len());
            return Some(true);
        }
        Some(false)
    }
    /// Items up to a closing tag, brace or the end.
    fn items(&mut self, close: Option<&str>) -> Option<Vec<Item>> {
        let mut out: Vec<Item> = vec![];
        let mut run = String::new();
        fn end(run: &mut String, out: &mut Vec<Item>) { if !run.is_empty() { out.push(txt(&substitute(run))); run.clear() } }
        loop {
            if self.i >= self.cs.len() { if close.is_some() { return None; } break; }
            if self.comment()? { continue; }
            let c = self.cs[self.i];
            if c.is_ascii_whitespace() {
                end(&mut run, &mut out);
                let mut n = 0;
                while self.i < self.cs.len() && self.cs[self.i].is_ascii_whitespace() { if self.cs[self.i] == '\n' { n += 1 } self.i += 1 }
                self.left = true;
                match (out.last(), n >= 2) {
                    (Some(Item::Ws), true) => { out.pop(); out.push(Item::Para(pos())) }
                    (Some(Item::Ws | Item::Para(_)), _) => {}
                    (_, true) => out.push(Item::Para(pos())),
                    _ => out.push(Item::Ws),
                }
                continue;
            }
            let was_left = std::mem::replace(&mut self.left, false);
            match c {
                '\\' => {
                    end(&mut run, &mut out);
                    let d = *self.cs.get(self.i + 1)?;
                    let n = match d { 'x' => 2, 'u' => 4, 'U' => 8, '\n' => return None, _ => 0 };
                    let ch = if n > 0 {
                        let h: String = self.cs.get(self.i + 2..self.i + 2 + n)?.iter().collect();
                        if !h.chars().all(|c| c.is_ascii_hexdigit()) { return None; }
                        char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
                    } else { match d { 'n' => '\n', 't' => '\t', d => d } };
                    if ch == '\r' || ch == '\0' { return None; }
                    out.push(txt(&ch.to_string()));
                    self.i += 2 + n;
                }
                '&' if matches!(self.cs.get(self.i + 1), Some(c) if c.is_ascii_alphabetic() || *c == '#') => {
                    end(&mut run, &mut out);
                    let mut j = self.i + 1; let mut n = String::new();
                    loop { match self.cs.get(j) { None => return None, Some(';') => break, Some(c) if c.is_ascii_whitespace() => return None, Some(c) => n.push(*c) } j += 1 }
                    out.push(txt(&ENT.iter().find(|e| e.0 == n)?.1.to_string()));
                    self.i = j + 1;
                }
                '<' if self.at("</") => {
                    let w = self.word(2);
                    if self.cs.get(self.i + 2 + w.chars().count()) != Some(&'>') { return None; }
                    let open = close?;
                    if open == "{" || (!w.is_empty() && !w.eq_ignore_ascii_case(open)) { return None; }
                    self.i += 3 + w.chars().count();
                    break;
                }
                '<' if self.at("<!") || self.at("<#") || self.at("<<!--") || self.at("<$") => return None,
                '<' if self.ident(1) && !matches!(self.word(1).as_str(), "True" | "False" | "_") => {
                    end(&mut run, &mut out);
                    let w = self.word(1);
                    let lw = w.to_ascii_lowercase();
                    if self.cs.get(self.i + 1 + w.len()) != Some(&'>') || !(TAGS.contains(&lw.as_str()) || lw == "br") { return None; }
                    self.i += 2 + w.len();
                    self.left = true;
                    let ch = if lw == "br" { vec![] } else { self.items(Some(&lw))? };
                    out.push(Item::Expr(tag(&lw, vec![], ch)));
                    if lw != "br" { self.left = false }
                    // a closing tag is a token which turns quotes to the right
                }
                '<' => { end(&mut run, &mut out); run.push('<'); self.i += 1 }
                '{' => { end(&mut run, &mut out); self.i += 1; self.left = true; let ch = self.items(Some("{"))?; out.push(Item::Expr(group(ch))); self.left = false }
                '}' => { if close != Some("{") { return None; } self.i += 1; break }
                '[' | ']' | '`' => return None,
                '$' | '@' if self.ident(1) => return None,
                '.' if self.at("...") => { run.push('…'); self.i += 3 }
                '\'' => { run.push(if was_left { '‘' } else { '’' }); self.i += 1 }
                '"' => { run.push(if was_left { '“' } else { '”' }); self.i += 1 }
                '|' => { run.push('\u{2060}'); self.i += 1 }
                '-' if self.at("->") => { run.push_str("->"); self.i += 2 }
                '=' | '(' | '>' => { run.push(c); self.i += 1; self.left = true }
                '/' if self.at("/>") => { run.push_str("/>"); self.i += 2; self.left = true }
                '\0' => return None,
                c => { run.push(c); self.i += 1 }
            }
        }
        end(&mut run, &mut out);
        clean(&mut out);
        Some(out)
    }
}
const PLAIN: &[&str] = &["alpha", "Beta", "naïve", "日本", "x", "w1", "_u", "True", "42", "-7", "-", "--", "---", "----", "<-", "<->", "->", "-->", "!=", "<=", ">=", "+/-", "(c)", "(C)", "~", "...", "....", "..", ".", ",", ":", "::", ";", "!", "?", "?::", "*", "**", "=", "==", "(", ")", "/", "/>", ">", "< ", "<3", "&", "& ", "|", "$", "@", "$5", "%", "^", "+", "'", "\"", "'", "\"", "''", "\"'", "é", "e\u{301}", "😀", "\u{a0}", "\u{200d}", "\u{2028}", "\u{b}", "ß", "’", "—"];
const SPACE: &[&str] = &[" ", " ", " ", "  ", "\n", "\t", "\r\n", "\n\n", "\n \n", "\r\n\r\n", "\n\n\n", "\u{c}", " # c {[< ' \" é\n", "#c\n", "#\n\n", "# x\n\n y", "<!-- c -->", "<!-- -- > ' -->", " <!---->\n", "\n<!-- x -->\n", " <!--> y -->", "<!---> z -->"];
fn plain(r: &mut Rng, d: i32, out: &mut String) {
    for _ in 0..1 + r.below(if d == 3 { 14 } else { 6 }) {
        match r.below(20) {
            0..=9 => out.push_str(r.pick(PLAIN)),
            10..=13 => out.push_str(r.pick(SPACE)),
            14 => { let e = r.pick(ENT).0; out.push_str(&format!("&{e};")) }
            15 => { const ESC: &[&str] = &["\\x41", "\\xe9", "\\u2014", "\\U0001F600", "\\\\", "\\'", "\\\"", "\\#", "\\<", "\\{", "\\&", "\\~", "\\-", "\\é", "\\x2d", "\\x3c", "\\.", "\\|", "\\@", "\\$", "\\z"]; out.push_str(r.pick(ESC)) }
            16 if d > 0 => { let t = *r.pick(TAGS); let t2 = if r.chance(1, 5) { t.to_uppercase() } else { t.to_string() }; out.push_str(&format!("<{t2}>")); plain(r, d - 1, out); out.push_str(&if r.chance(1, 3) { "</>".to_string() } else { format!("</{t}>") }) }
            17 if d > 0 => { out.push('{'); plain(r, d - 1, out); out.push('}') }
            18 => if r.chance(1, 2) { out.push_str("<br>") },
            // a long run without a space
            19 if r.chance(1, 8) => for _ in 0..8 + r.below(60) { out.push_str(if r.chance(1, 2) { r.pick(PLAIN) } else { "word" }) },
            _ => { out.push_str(r.pick(PLAIN)); out.push_str(r.pick(SPACE)) }
        }
        if r.chance(1, 3) { out.push(' ') }
    }
}
pub fn plain_doc(r: &mut Rng) -> Option<(String, Vec<Item>)> {
    let mut src = String::new();
    plain(r, 3, &mut src);
    let items = Scan { cs: src.chars().collect(), i: 0, left: true }.items(None)?;
    Some((src, items))
}
pub fn c05(cx: &mut Cx, idx: u64, mode: Mode) -> Out {
    let mut r = cx.rng(501, idx);
    let Some((src, items)) = plain_doc(&mut r) else { return Out::Skip("not plain text") };
    cx.nontrivial(&src);
    for k in ["'", "\"", "--", "...", "&", "\\", "#", "<!--", "\n\n", "~", "->"] { if src.contains(k) { cx.count(&format!("feature:{}", match k { "\n\n" => "blank line", k => k })) } }
    p_diff::judge(cx, &items, &src, mode)
}
/// Every pair and triple of small pieces, exhaustively in turn.
pub fn c05_pairs(cx: &mut Cx, idx: u64) -> Out {
    let pieces: Vec<&str> = PLAIN.iter().chain(SPACE).copied().chain(["&amp;", "\\x2d", "<b>", "</b>", "{", "}"]).collect();
    let n = pieces.len() as u64;
    let a = pieces[(idx % n) as usize]; let b = pieces[(idx / n % n) as usize];
    let mut r = cx.rng(502, idx);
    let c = *r.pick(&pieces);
    for src in [format!("{a}{b}"), format!("{a}{b}{c}"), format!("x{a}{b}{c}y"), format!("{c} {a}{b} z"), format!("<b>{a}{c}</b>{b}"), format!("{c}<i>{a}</i>{b}")] {
        let Some(items) = (Scan { cs: src.chars().collect(), i: 0, left: true }).items(None) else { continue };
        cx.nontrivial(&src);
        match p_diff::judge(cx, &items, &src, Mode::Coarse) { Out::Ok | Out::Skip(_) => {} b => return b }
    }
    Out::Ok
}

/// HTML's named character references.
const NAMED_REFS: &str = include_str!("references.txt");
thread_local! { static REFS: Vec<(String, String)> = NAMED_REFS.lines().filter_map(|l| { let mut w = l.split(' '); Some((w.next()?.to_string(), w.map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect())) }).collect(); }
/// Every named reference, numeric references and escapes: the characters they denote, wherever they stand.
pub fn c05_references(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(503, idx);
    let r = &mut r;
    let scalar = |r: &mut Rng| -> char { loop {
        let n = match r.below(6) { 0 => r.below(0x80), 1 => 0x80 + r.below(0x780), 2 => 0x800 + r.below(0xd000), 3 => 0xe000 + r.below(0x2000), 4 => 0x10000 + r.below(0x100000), _ => *r.pick(&[0x20, 0x7f, 0xff, 0xfffe, 0x10ffff, 0xd7ff, 0xe000, 0x10000, 0x22, 0x26, 0x27, 0x3c]) };
        if let Some(c) = char::from_u32(n as u32) { if n > 0 { return c; } }
    } };
    let total = REFS.with(|t| t.len() as u64);
    let (kind, src, is) = match if idx < total { 0 } else { r.below(8) } {
        0 | 1 => { let (n, v) = REFS.with(|t| t[(if idx < total { idx } else { r.below(total as usize) as u64 }) as usize].clone()); ("named", format!("&{n};"), v) }
        2 => { let c = scalar(r); ("decimal", format!("&#{}{};", "0".repeat(r.below(4)), c as u32), c.to_string()) }
        3 => { let c = scalar(r); let z = "0".repeat(r.below(4)); ("hexadecimal", match r.below(3) { 0 => format!("&#x{z}{:x};", c as u32), 1 => format!("&#x{z}{:X};", c as u32), _ => format!("&#X{z}{:x};", c as u32) }, c.to_string()) }
        4 => { let c = loop { let c = scalar(r); if (c as u32) < 256 { break c; } }; ("escape", format!("\\x{:02X}", c as u32), c.to_string()) }
        5 => { let c = loop { let c = scalar(r); if (c as u32) < 0x10000 { break c; } }; ("escape", if r.chance(1, 2) { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) }, c.to_string()) }
        6 => { let c = scalar(r); ("escape", format!("\\U{:08x}", c as u32), c.to_string()) }
        _ => { let c = loop { let c = if r.chance(2, 3) { (0x21 + r.below(0x5e)) as u8 as char } else { scalar(r) }; if !"xuU\n\r".contains(c) { break c; } }; ("single escape", format!("\\{c}"), match c { 'n' => "\n".into(), 't' => "\t".into(), c => c.to_string() }) }
    };
    let (a, b) = (*r.pick(&["", "p", "é", "p ", "a-"]), *r.pick(&["", "q", "日", " q", "0", "f", ";", "-1"]));
    // what follows would be read as a digit of it or joined with it to a symbol
    let (a, b) = if kind == "single escape" && (a == "a-" || b == "-1") { ("", "q") } else { (a, b) };
    let joined = b.replace("-1", "\u{2212}1");
    cx.count(&format!("reference:{kind}"));
    let quote = |t: &str, v: &str| -> (String, Vec<Item>) { (format!("<b title='{t}'>x</b>"), shown(v)) };
    let mut cases = vec![quote(&format!("{a}{src}{b}"), &format!("{a}{is}{b}")), quote(&format!("{src}{src}"), &format!("{is}{is}"))];
    if !is.contains(char::is_whitespace) {
        cases.push((format!("<p>{a}{src}{b}</p>"), vec![Item::Expr(tag("p", vec![], vec![txt(&format!("{a}{is}{joined}"))]))]));
        cases.push((format!("<b>{src}</b>"), vec![Item::Expr(tag("b", vec![], vec![txt(&is)]))]));
    }
    if is != "p" { cases.push((format!("@match 'p{src}q' {{\"{src}$v\" -> z, \"p{src}$v\" -> <b title=$v>x</b>, _ -> n}}"), shown("q"))) }
    for (src, items) in cases {
        cx.nontrivial(&src);
        match p_diff::judge(cx, &items, &src, Mode::Coarse) { Out::Ok | Out::Skip(_) => {} b => return b }
    }
    Out::Ok
}

// ---- string literals and templates -----------------------------------------
fn lit_text(r: &mut Rng) -> String {
    const C: &[&str] = &["a", "b c", " ", "  ", "\n", "\n\n", "`", "``", "\\", "\\x41", "&amp;", "<b>", "</b>", "$x", "@f", "{", "}", "'", "\"", "--", "...", "#", "# c\n", "<!-- c -->", "~", "(c)", "é", "日本", "😀", "e\u{301}", "\t", "|", "->", "$", "[", "]", ">", "\u{2028}", "\r\n"];
    let n = r.below(7);
    (0..n).map(|_| *r.pick(C)).collect()
}
/// The value goes through an attribute, so nothing but HTML escaping happens to it.
fn shown(v: &str) -> Vec<Item> { vec![Item::Expr(tag("b", vec![AttrE { k: AttrK::Val("title".into(), false, s(v)), at: pos() }], vec![txt("x")]))] }
pub fn c28_verbatim(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2801, idx);
    let t = lit_text(&mut r);
    let t = t.trim_matches('`').replace('\r', "");
    if t.is_empty() { return Out::Skip("empty"); }
    let (mut run, mut max) = (0, 0);
    for c in t.chars() { if c == '`' { run += 1; max = max.max(run) } else { run = 0 } }
    // a run of backticks longer than the delimiter also ends the string
    let mut n = max + 1 + r.below(2);
    if t.contains('\n') { n = n.max(3) }
    let q = "`".repeat(n);
    let src = match r.below(3) { 0 => format!("<b title={q}{t}{q}>x</b>"), 1 => format!("@let(v={q}{t}{q}) {{<b title=$v>x</b>}}"), _ => format!("@fn g($v) . -> <b title=$v>x</b>\n@g(v={q}{t}{q}).") };
    cx.nontrivial(&src);
    cx.count(if t.contains('\n') { "verbatim:multiline" } else { "verbatim:simple" });
    let mut it = crate::interp::Interp::new();
    let Ok(want) = it.document(&shown(&t)) else { return Out::Skip("not modelled") };
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "output", e) };
    let want = want.render();
    if got.errors > 0 || got.html != want { return bad("a string literal does not denote its text", src, want, format!("{}{:?}", got.html, got.diags)); }
    // lengths and identity, as the language itself sees them
    let src = format!("@str::len {q}{t}{q} @str::from {q}{t}{q}");
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "output", e) };
    let mut want = crate::value::Seq::new(crate::value::K::Block("p"));
    let _ = want.push(crate::value::H::text(&t.len().to_string())); let _ = want.push(crate::value::H::text(" ")); let _ = want.push(crate::value::H::text(&t));
    let want = want.finish().map(|h| h.render()).unwrap_or_default();
    if got.errors > 0 || got.html != want { return bad("a string literal does not denote its text", src, want, format!("{}{:?}", got.html, got.diags)); }
    Out::Ok
}
/// The reading of a template's text; `None` where it would not be a single well-formed template.
fn read_template(t: &str, q: char, vars: &[(&str, Option<&str>)]) -> Option<Result<String, ()>> {
    let mut s = Scan { cs: t.chars().collect(), i: 0, left: true };
    #[derive(PartialEq)]
    enum Tk { Lit(String), Ws, Open, Close }
    let mut ts: Vec<Tk> = vec![];
    let mut err = false;
    while s.i < s.cs.len() {
        let start = s.i;
        if s.comment()? { if s.i >= s.cs.len() && t.chars().nth(start) == Some('#') && !t.ends_with('\n') || (t[..].chars().skip(start).collect::<String>().starts_with("<!--") && s.i >= s.cs.len() && !t.ends_with("-->")) { return None; } continue; }
        let c = s.cs[s.i];
        if c.is_ascii_whitespace() {
            let mut n = 0;
            while s.i < s.cs.len() && s.cs[s.i].is_ascii_whitespace() { if s.cs[s.i] == '\n' { n += 1 } s.i += 1 }
            if n >= 2 { return None; }
            if ts.last() != Some(&Tk::Ws) { ts.push(Tk::Ws) }
            continue;
        }
        match c {
            c if c == q => return None,
            '`' => return None,
            '\\' => {
                let d = *s.cs.get(s.i + 1)?;
                let n = match d { 'x' => 2, 'u' => 4, 'U' => 8, '\n' => return None, _ => 0 };
                let ch = if n > 0 { let h: String = s.cs.get(s.i + 2..s.i + 2 + n)?.iter().collect(); if !h.chars().all(|c| c.is_ascii_hexdigit()) { return None; } char::from_u32(u32::from_str_radix(&h, 16).ok()?)? } else { match d { 'n' => '\n', 't' => '\t', d => d } };
                if ch == '\0' || ch == '\r' { return None; }
                ts.push(Tk::Lit(ch.to_string())); s.i += 2 + n;
            }
            '&' if matches!(s.cs.get(s.i + 1), Some(c) if c.is_ascii_alphabetic() || *c == '#') => {
                let mut j = s.i + 1; let mut n = String::new();
                loop { match s.cs.get(j) { None => return None, Some(';') => break, Some(c) if c.is_ascii_whitespace() => return None, Some(c) => n.push(*c) } j += 1 }
                ts.push(Tk::Lit(ENT.iter().find(|e| e.0 == n)?.1.to_string())); s.i = j + 1;
            }
            '<' if s.at("</") => { let w = s.word(2); if s.cs.get(s.i + 2 + w.len()) != Some(&'>') { return None; } let k = 3 + w.len(); ts.push(Tk::Lit(s.cs[s.i..s.i + k].iter().collect())); s.i += k }
            '{' => { ts.push(Tk::Open); s.i += 1 }
            '}' => { ts.push(Tk::Close); s.i += 1 }
            '$' if s.ident(1) => {
                let w = s.word(1);
                s.i += 1 + w.len();
                if s.at("::") || s.at("?::") || s.at("<!--") || s.at("#") { return None; }
                match vars.iter().find(|v| v.0 == w)?.1 { Some(v) => ts.push(Tk::Lit(v.to_string())), None => { err = true; ts.push(Tk::Lit(String::new())) } }
            }
            c => { ts.push(Tk::Lit(c.to_string())); s.i += 1 }
        }
    }
    // a space just inside a brace is not part of the text; one outside stays
    let mut o: Vec<(String, bool)> = vec![]; let mut open: Vec<usize> = vec![]; let mut skip = false;
    for t in ts {
        match t {
            Tk::Lit(x) => { o.push((x, false)); skip = false }
            Tk::Ws => { if !skip { o.push((" ".into(), true)) } skip = false }
            Tk::Open => { open.push(o.len()); skip = true }
            Tk::Close => { let from = open.pop()?; if o.len() > from && o[o.len() - 1].1 { o.pop(); } skip = false }
        }
    }
    if !open.is_empty() { return None; }
    let o: Vec<String> = o.into_iter().map(|x| x.0).collect();
    Some(if err { Err(()) } else { Ok(o.concat()) })
}
pub fn c28_template(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2802, idx);
    const C: &[&str] = &["a", "b", "w", " ", " ", "\n ", "\t", "é", "日本", "😀", "<b>", "</b>", "</>", "<", ">", "@f", "@", "$", "--", "---", "->", "...", "~", "(c)", "-5", "[", "]", "(", ")", ",", ".", "=", "*", "|", "::", "?", "True", "42", "_", "&", "&amp;", "&lt;", "&#97;", "&eacute;", "\\x41", "\\u2014", "\\n", "\\t", "\\'", "\\\"", "\\\\", "\\{", "\\$", "\\#", "\\é", "<!-- c -->", "# c ' é\n", "{", "}", "{ ", " }", "$s", "$s", "$i", "$t", "$n", "{$s}", "{$i}", "{ $s }", "$e", "%", "/>", "'", "\"", "!"];
    let n = size(&mut r, 9, 40);
    let mut parts: Vec<&str> = (0..n).map(|_| *r.pick(C)).collect();
    // braces within braces
    if r.chance(1, 3) { for _ in 0..1 + r.below(5) { let a = r.below(parts.len() + 1); let b = a + r.below(parts.len() + 1 - a); parts.insert(b, r.pick(&["}", " }"])); parts.insert(a, r.pick(&["{", "{ "])) } }
    let mut t: String = parts.concat();
    if r.chance(1, 25) { t.push_str(*r.pick(&["$l", "$f", "$h", "$d"])) }
    let q = *r.pick(&['\'', '"']);
    let vars = [("s", Some("st <r>é")), ("i", Some("-12")), ("t", Some("True")), ("n", Some("")), ("e", Some("")), ("l", None), ("f", None), ("h", None), ("d", None)];
    let Some(want) = read_template(&t, q, &vars) else { return Out::Skip("not one template") };
    let at = *r.pick(&["<b title=%>x</b>", "@str::from %", "@let(v=%) {<b title=$v>x</b>}"]);
    // an attribute needs no separation, but a quote must not be glued to what precedes it
    let body = at.replace('%', &format!("{q}{t}{q}"));
    let src = format!("@let(s=`st <r>é`, i=-12, t=True, n=., e='', l=[1], f=$str::len, h=<b>q</b>, d=@dict::new(a=1).) {{{body}}}");
    cx.nontrivial(&src);
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "output", e) };
    let Ok(want) = want else {
        cx.count("template:no string form");
        return if got.errors > 0 { Out::Ok } else { bad("a value without string form was interpolated", src, "an error", got.html) };
    };
    cx.count("template:value");
    let items = if at.contains("str::from") { vec![Item::Expr(group(vec![txt(&want)]))] } else { shown(&want) };
    let mut it = crate::interp::Interp::new();
    let Ok(h) = it.document(&items) else { return Out::Skip("not modelled") };
    let want = h.render();
    if got.errors > 0 || got.html != want { return bad("a template does not denote its text", src, want, format!("{}{:?}", got.html, got.diags)); }
    Out::Ok
}
