//! C32: warnings say what is doubtful, where it is, once each, and change nothing.
use crate::p_front::lc;
use crate::real;
use crate::rng::Rng;
use crate::run::{bad, Cx, Out};
use papyri_lang::errors::ReportingLevel;

/// A doubtful piece with ▲ before each place, what its messages mention in order, and the same without the doubt.
/// `when`: false if the warning is given once when the source is read, true each time it is evaluated.
struct Piece { kind: &'static str, doubtful: String, plain: String, says: Vec<String>, each_time: bool, top: bool }

fn name(r: &mut Rng, used: &mut Vec<String>) -> String {
    let base = *r.pick(&["f", "g", "count", "x", "y", "na_me", "list_", "élan", "Zed", "a1", "implicit_x", "q"]);
    let base = if base == "élan" { "elan" } else { base };
    used.push(String::new());
    format!("{base}{}", used.len())
}
fn piece(r: &mut Rng, used: &mut Vec<String>, top: bool) -> Piece {
    let n = name(r, used);
    let m = name(r, used);
    let p = |kind, doubtful: String, plain: String, says: Vec<String>, each_time| Piece { kind, doubtful, plain, says, each_time, top: false };
    let opt = "type modifier '?' is redundant".to_string();
    let q = format!("'{n}'");
    match r.below(if top { 9 } else { 8 }) {
        0 | 1 => {
            let (t, rest) = *r.pick(&[("any", ""), ("none", ""), ("html", ""), ("block", ""), ("inline", ""), ("int?", ""), ("str list?", ""), ("any", " list"), ("none", " dict"), ("regex?", ""), ("html", " list list"), ("int list? dict?", "")]);
            let sp = *r.pick(&["", " "]);
            // `??` would be read as one
            let sp = if t.ends_with('?') { " " } else { sp };
            let (d, c) = (format!("{t}{sp}▲?{rest}"), format!("{t}{rest}"));
            let imp = if r.chance(1, 5) { "@implicit " } else { "" };
            let form: String = match r.below(8) {
                0 => format!("@fn {n}($_x: T) . -> <b>k</b>"),
                1 => format!("@fn {n}($x: {imp}T) $y -> <b>k</b>"),
                2 => format!("@fn {n} $x: T -> <b>k</b>"),
                3 => format!("@fn {n}($a: T, $b = 1) $y: int -> <b>k</b>"),
                4 => "@match 1 {$x: T -> k, _ -> l}".to_string(),
                5 => "@match [1, `s`] {[_: T, ...] -> k, _ -> l}".to_string(),
                6 => format!("@let({n} = @fn($x: T) . -> y) {{k}}"),
                _ => format!("@fn {n}(*$_a: T, **$b: int) . -> <b>k</b>"),
            };
            p("type", form.replace('T', &d), form.replace('T', &c), vec![opt], false)
        }
        2 => {
            // defined again in the same place
            let k = 1 + r.below(3);
            let (mut d, mut c, mut says) = (format!("@fn {n} $x -> <i>a</i> "), format!("@fn {m} $x -> <i>a</i> "), vec![]);
            let mut last = String::new();
            for i in 0..k {
                let sig = *r.pick(&["▲$x", "▲($_a?) $x", "▲($k = 1) $x", "▲(*$_r) $x"]);
                let body = *r.pick(&["<i>b</i>", "$x", "{c $x}", "[$x]"]);
                if !last.is_empty() { c += &last.replace(&format!("@fn {n}"), &format!("@fn {m}{}", "z".repeat(i))); d += &last; }
                last = format!("@fn {n}{}{sig} -> {body} ", if sig.contains('(') { "" } else { " " });
                says.push(q.clone());
            }
            let call = format!("{last}@{n} {{w}}");
            p("defined again", d + &call, c.replace('▲', "") + &call.replace('▲', ""), says, true)
        }
        3 | 4 => {
            let (a, b) = (format!("${n}"), format!("${m}"));
            let forms: &[(&str, &str, usize)] = &[
                ("[1, 2] {[A, ▲A] -> A}", "[1, 2] {[B, A] -> A}", 1), ("[., 2] {[A, ▲A] -> A}", "[., 2] {[B, A] -> A}", 1), ("[., .] {[A, ▲A] -> <b>A</b>}", "[., .] {[B, A] -> <b>A</b>}", 1), ("['', {}] {[A, ▲A] -> <b>A</b>}", "['', {}] {[B, A] -> <b>A</b>}", 1), ("'xy' {\"A▲A\" -> A}", "'xy' {\"BA\" -> A}", 1), ("[1, 2, 3] {[A, ▲A, ▲A] -> A}", "[1, 2, 3] {[_, _, A] -> A}", 2), ("3 {▲A: A -> A}", "3 {A: B -> A}", 1),
                ("'x,y' {\"A,▲A\" -> A}", "'x,y' {\"B,A\" -> A}", 1), ("<b class='c'>d</b> {<A class=▲A>▲A</> -> A}", "<b class='c'>d</b> {<_ class=_>A</> -> A}", 2),
                ("5 {A & ▲A -> A}", "5 {B & A -> A}", 1), ("[1, [2, 3]] {[A, [_, ▲A]] -> A}", "[1, [2, 3]] {[B, [_, A]] -> A}", 1), ("[1, 2, 3] {[A, *▲A] -> A}", "[1, 2, 3] {[B, *A] -> A}", 1),
                ("[1, 2] {[A, ▲A, ...] -> A}", "[1, 2] {[B, A, ...] -> A}", 1), ("[[1, 2], 3] {[*A, A: int, 9] -> x, [[A, ▲A], _] -> A}", "[[1, 2], 3] {[[B, A], _] -> A}", 1),
                ("7 {`s` & A & ▲A -> x, A -> A}", "7 {A -> A}", 0),
            ];
            let (d, c, k) = *r.pick(forms);
            // a pattern that fails part of the way has bound what stands before
            let d = if k == 0 { d.replace('▲', "") } else if d.contains("[*A, A: int, 9]") { d.replace("[*A, A: int, 9] -> x, ", "") } else { d.to_string() };
            p("pattern", format!("@match {}", d.replace('A', &a)), format!("@match {}", c.replace('A', &a).replace('B', &b)), vec![q; k], true)
        }
        5 => {
            // a parameter or variable defined again as a function
            let form = *r.pick(&["@fn O($N) $c -> {@fn N ▲$z -> <u>$z</u> @N {$c}} @O(N=1) {v}", "@let(N = .) <b>@fn N ▲$z -> <u>$z</u> @N {v}</b>", "@let(N = `s`) <b>@fn N ▲$z -> <u>$z</u> @N {v}</b>", "@match 1 {$N -> {@fn N ▲$z -> <u>$z</u> @N {v}}}", "@implicit(N = 1) <b>@fn N ▲$z -> <u>$z</u> @N {v}</b>"]);
            let o = name(r, used);
            let d = form.replace('O', &o).replace('N', &n);
            let plain = format!("<b>@fn {n} $z -> <u>$z</u> @{n} {{v}}</b>");
            let plain = if form.starts_with("@fn") { format!("@fn {o} . -> k @let({m} = 1) {{@fn {n} $z -> <u>$z</u> @{n} {{v}}}}") } else if form.starts_with("@match") { format!("@let({m} = 1) {{@fn {n} $z -> <u>$z</u> @{n} {{v}}}}") } else { plain };
            p("variable defined again", d, plain, vec![q], true)
        }
        6 => {
            let l = *r.pick(&["papyri", "python", "rust", "html", "none"]);
            let first = *r.pick(&[0i64, 2, -1, 1000, i64::MAX]);
            let (t, multi) = *r.pick(&[("`x = 1`", false), ("'word'", false), ("```\nline 1\nline 2\n```", true), ("'a\nb'", false)]);
            let number = !multi || r.chance(1, 2);
            let mut says = vec![];
            if number { says.push("enumerate".to_string()) }
            if multi { says.push("multiple lines".to_string()) }
            let fl = if number { format!(", first_line_no={first}") } else { String::new() };
            let mut pl = format!("@code(language=`{l}`) {t}");
            if multi { pl = String::new() }
            p("inline code", format!("{}@code(language=`{l}`{fl}) {t}", "▲".repeat(says.len())), pl, says, true)
        }
        7 => {
            let l = *r.pick(&["nolang", "Papyri", "rust ", "klingon", "py thon", "x-y", " ", "PAPYRI", ""]);
            let form = match r.below(if crate::ast::is_ident(l) { 4 } else { 3 }) { 0 => "▲@code(language=`L`) `x = 1`", 1 => "▲@code_block(language=`L`) `x = 1`", 2 => "@implicit(language=`L`) <div>▲@code_block `x = 1`</div>", _ => "<div>▲```L\nx = 1\n```</div>" };
            let plain = if form.starts_with("<div>") { "<div>@code_block(language=`none`) `x = 1`</div>".to_string() } else { form.replace('L', "none").replace('▲', "") };
            p("language", if l.is_empty() { form.replace("`L`", "''") } else { form.replace('L', l) }, plain, vec![format!("\"{l}\"")], true)
        }
        _ => {
            let (d, c, says): (String, String, Vec<String>) = match r.below(4) {
                0 => (format!("@export({n} = 1). @export({m} = 3, {n} = ▲2)."), format!("@export({m}w = 1). @export({m} = 3, {n} = 2)."), vec![q]),
                1 => (format!("@export({n} = 1). @export @fn {n} ▲$x -> y"), format!("@export({m} = 1). @export @fn {n} $x -> y"), vec![q]),
                2 => (format!("@export @fn {n} $x -> <b>y</b> @export @fn {n} ▲▲$x -> y @{n} {{z}}"), format!("@export @fn {m} $x -> <b>y</b> @export @fn {n} $x -> y @{n} {{z}}"), vec![format!("{q} already exported"), format!("{q} already declared")]),
                _ => (format!("@export({n} = [1]). @export @let({n} = ▲2) {{}}"), format!("@export({m} = [1]). @export @let({n} = 2) {{}}"), vec![q]),
            };
            Piece { kind: "export", doubtful: d, plain: c, says, each_time: true, top: true }
        }
    }
}
pub fn c32(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(3201, idx);
    let r = &mut r;
    let mut used = vec![];
    let (mut marked, mut plain) = (String::new(), String::new());
    // what the marks of each piece say, and whether it is said while reading
    let mut says: Vec<(String, bool, usize)> = vec![];
    let n = 1 + r.below(4);
    let mut comparable_all = true;
    let with_error = r.chance(1, 8);
    for _ in 0..n {
        let top = r.chance(1, 3);
        let mut pc = piece(r, &mut used, top);
        let doubt = r.chance(4, 5);
        let comparable = !pc.plain.is_empty();
        if !comparable { pc.plain = pc.doubtful.replace('▲', ""); }
        if !doubt { if !comparable { continue; } pc.doubtful = pc.plain.clone(); pc.says.clear(); }
        else { cx.count(&format!("kind:{}", pc.kind)); comparable_all &= comparable; }
        let w = name(r, &mut used);
        let (ctx, times): (String, usize) = if pc.top { ("#".into(), 1) } else { match r.below(11) {
            0 | 1 | 2 => ("#".into(), 1), 3 => ("<div>#</div>".into(), 1), 4 => ("<section>{#}</section>".into(), 1),
            5 => (format!("@fn {w} . -> {{#}} @{w}. @{w}. @{w}."), 3), 6 => (format!("@fn {w} . -> {{#}} w"), 0),
            7 => (format!("@fn {w}($k) $c -> <div>#</div> @list::map(@fn $z -> @{w}(k=1) $z) [1, 2]"), 2),
            8 => ("@match 1 {2 -> {#}, 1 -> {k}}".into(), 0), 9 => (format!("@let({w} = 1) <div>#</div>"), 1),
            _ => ("@match [1, 2] {[$w1, _] -> {#}}".into(), 1),
        } };
        let times = if pc.kind == "variable defined again" || pc.each_time { times } else { 1 };
        for s in &pc.says { says.push((s.clone(), !pc.each_time, times)); }
        let sep = *r.pick(&["\n\n", "\n", " ", " é→ ", "\n\n<hr>\n\n"]);
        marked += &ctx.replace('#', &pc.doubtful); marked += sep;
        plain += &ctx.replace('#', &pc.plain); plain += sep;
    }
    if with_error { marked += "@nosuch."; plain += "@nosuch."; }
    let mut at = vec![];
    let mut src = String::new();
    for c in marked.chars() { if c == '▲' { at.push(lc(&src)); } else { src.push(c); } }
    if at.len() != says.len() { return bad("the harness marked a piece wrongly", &src, format!("{says:?}"), format!("{at:?}")); }
    cx.nontrivial(&src);
    cx.count(&format!("warnings:{}", match says.len() { 0 => "none", 1 => "one", _ => "several" }));
    let got = match real::compile(&src) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", src, "warnings", e) };
    // the order: those given while reading by place, then those given while evaluating
    let mut want: Vec<((u32, u32), String)> = vec![];
    for (i, (s, _, times)) in says.iter().enumerate() { for _ in 0..*times { want.push((at[i], s.clone())); } }
    let mut have: Vec<((u32, u32), String)> = got.diags.iter().filter(|d| d.cat == "Warning").map(|d| { let l = d.trace.as_ref().and_then(|t| t.iter().rev().find(|l| l.file == "<string>")).unwrap_or(&d.at); let l = if d.at.file == "<string>" { &d.at } else { l }; ((l.line, l.col), d.msg.clone()) }).collect();
    if got.errors != with_error as u32 { return bad("doubtful source is in error", src, format!("{} errors", with_error as u32), format!("{:?}", got.diags)); }
    if have.len() != want.len() || got.warnings as usize != want.len() { return bad("number of warnings", src, format!("{want:?}"), format!("{} counted, {have:?}", got.warnings)); }
    want.sort(); have.sort();
    for (w, h) in want.iter().zip(&have) {
        if w.0 != h.0 { return bad("a warning at another place", src, format!("{want:?}"), format!("{have:?}")); }
    }
    // at each place the messages mention what they are about
    let mut rest = have.clone();
    for (p, s) in &want { match rest.iter().position(|h| h.0 == *p && h.1.contains(s.as_str())) { Some(i) => { rest.remove(i); } None => return bad("a warning does not say what is doubtful", src, format!("{p:?} {s}"), format!("{have:?}")) } }
    // the same without the doubt: the same output and no warning
    if comparable_all {
        let base = match real::compile(&plain) { Ok(g) => g, Err(e) => return bad("the compiler failed internally", plain, "output", e) };
        if base.warnings > 0 || base.errors != got.errors { return bad("source without doubtful parts is warned about", plain, "no warnings", format!("{:?}", base.diags)); }
        if base.html != got.html { return bad("what is warned about changed the output", src, base.html, got.html); }
        cx.count("compared:with the same source without the doubt");
    }
    // warnings left out: nothing else changes
    let mut ctx = papyri_lang::compiler::Context::new(ReportingLevel::Error, None, None);
    let quiet = match real::guard(|| real::compile_in(&mut ctx, &src)).and_then(|q| q) { Ok(q) => q, Err(e) => return bad("the compiler failed internally", src, "output", e) };
    if quiet.html != got.html || quiet.text != got.text || quiet.errors != got.errors { return bad("leaving out warnings changed the result", src, &got.html, quiet.html); }
    let errors: Vec<&str> = got.diags.iter().filter(|d| d.cat != "Warning").map(|d| d.msg.as_str()).collect();
    if quiet.diags.iter().map(|d| d.msg.as_str()).collect::<Vec<_>>() != errors { return bad("warnings are not left out, or errors are", src, format!("{errors:?}"), format!("{:?}", quiet.diags)); }
    // the simple interface has output only if nothing is reported
    match real::guard(|| papyri_lang::compile_str(&src)) {
        Err(e) => return bad("the compiler failed internally", src, "output", e),
        Ok(Ok(h)) => if !got.diags.is_empty() || h != got.html { return bad("compile_str hides what is reported", src, format!("{:?}", got.diags), h); },
        Ok(Err(_)) => if got.diags.is_empty() { return bad("compile_str refuses a source without faults", src, &got.html, "an error"); },
    }
    Out::Ok
}
