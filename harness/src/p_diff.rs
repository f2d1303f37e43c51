//! Phases which compare the compiler with the reference model on generated
//! programs, and on direct uses of single operations.
use crate::ast::*;
use crate::gen::*;
use crate::interp::Interp;
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::value::T;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// output, or the kinds of errors in order
    Coarse,
    /// output even around errors, and the kinds of diagnostics in order
    Partial,
    /// as `Partial`, with positions and tracebacks
    Full,
    /// plain text output
    Text,
}

/// Compiles a program and compares the result with the model's.
pub fn judge(cx: &mut Cx, items: &[Item], src: &str, mode: Mode) -> Out {
    let defect = || crate::rx::CRATE_DEFECT.with(|c| c.take());
    defect();
    match judged(cx, items, src, mode) {
        Out::Bad(b) => Out::Bad(match defect() { "" => b, k => Bad { key: k.into(), ..b } }),
        o => o,
    }
}
fn judged(cx: &mut Cx, items: &[Item], src: &str, mode: Mode) -> Out {
    let mut it = Interp::new();
    let m = it.document(items);
    if let Some(w) = &it.stop { cx.count(&format!("model gave up:{w}")); return Out::Skip("not modelled"); }
    let Ok(h) = m else { return Out::Skip("not modelled") };
    let got = match real::compile(src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", src, "output or diagnostics", e) };
    for (k, n) in &it.seen { cx.add(&format!("did:{k}"), *n) }
    if it.diags.is_empty() { cx.count("outcome:success") } else { cx.count("outcome:diagnostics") }
    for d in &it.diags { cx.count(&format!("diagnostic:{}", d.cat)) }
    let errs = it.diags.iter().any(|d| d.cat != "Warning");
    let html = h.render();
    if mode == Mode::Text {
        if errs { return Out::Skip("has errors"); }
        let t = h.render_text();
        return if got.text == t { Out::Ok } else { bad("plain text output differs from the text of the document", src, t, got.text) };
    }
    if (!errs || mode != Mode::Coarse) && got.html != html && !(mode == Mode::Coarse && got.errors > 0) { return bad("output differs from the reference", src, html, got.html); }
    match mode {
        Mode::Full => if let Err(e) = real::same_diags(&it.diags, &got.diags) { return bad("diagnostics differ from the reference", src, format!("{:?}", it.diags), e); },
        _ => {
            let a: Vec<&str> = it.diags.iter().map(|d| d.cat).collect();
            let b: Vec<&str> = got.diags.iter().map(|d| d.cat.as_str()).collect();
            if a != b { return bad("reported diagnostics differ from the reference", src, format!("{a:?}\n{html}"), format!("{:?}\n{}", got.diags.iter().map(|d| &d.msg).collect::<Vec<_>>(), got.html)); }
        }
    }
    let (ne, nw) = (got.diags.iter().filter(|d| d.cat != "Warning").count() as u32, got.diags.iter().filter(|d| d.cat == "Warning").count() as u32);
    if (ne, nw) != (got.errors, got.warnings) { return bad("counts of diagnostics differ from the diagnostics reported", src, format!("{ne} errors, {nw} warnings"), format!("{} errors, {} warnings", got.errors, got.warnings)); }
    Out::Ok
}
/// A random program in the given style.
pub fn random(cx: &mut Cx, idx: u64, stream: u64, p: Prof, mode: Mode) -> Out {
    let mut r = cx.rng(stream, idx);
    let items = Gen::new(&mut r, p).program();
    let src = print_items(&items, Some(&mut r));
    cx.nontrivial(&src);
    judge(cx, &items, &src, mode)
}
/// Each expression alone, shown with its type and structure.
pub fn exprs(cx: &mut Cx, r: &mut Rng, xs: Vec<E>, mode: Mode) -> Out {
    for x in xs {
        let items = vec![Item::Fn(repr_fn()), Item::Ws, Item::Expr(let1("res", x, tag("div", vec![], vec![Item::Expr(call(name("typeof"), vec![], var("res"))), Item::Ws, Item::Expr(call(name("repr"), vec![], var("res")))])))];
        let src = print_items(&items, Some(r));
        cx.nontrivial(&src);
        match judge(cx, &items, &src, mode) { Out::Ok | Out::Skip(_) => {} b => return b }
    }
    Out::Ok
}

const EDGE: &[i64] = &[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 62, -(1 << 62), 1 << 63 >> 1, 1 << 32, (1 << 32) - 1, -(1 << 31), 1 << 31, 1 << 53, 0, 1, -1, 2, 255, 256];
pub fn iv(r: &mut Rng) -> i64 { match r.below(6) { 0 | 1 => *r.pick(EDGE), 2 => r.next() as i64, 3 => (r.next() >> r.below(63)) as i64, _ => r.range(-6, 8) } }
fn nat(n: &str, a: Vec<E>, c: E) -> E { call(native_name(n), a.into_iter().map(arg).collect(), c) }
fn natn(n: &str, mut a: Vec<Arg>, named: Vec<(&str, E)>, c: E) -> E { a.extend(named.into_iter().map(|(k, v)| narg(k, v))); call(native_name(n), a, c) }
fn method(recv: E, m: &str, a: Vec<E>, c: E) -> E { let1("self", recv, call(dotted("self", &[m]), a.into_iter().map(arg).collect(), c)) }
/// Function form or method form of an operation on its content.
fn oc(r: &mut Rng, n: &str, a: Vec<E>, c: E) -> E { if r.chance(1, 3) { method(c, n.split("::").nth(1).unwrap(), a, unit_e()) } else { nat(n, a, c) } }
/// The same for operations on their first argument.
fn op(r: &mut Rng, n: &str, mut a: Vec<E>, c: E) -> E { if r.chance(1, 3) { let x = a.remove(0); method(x, n.split("::").nth(1).unwrap(), a, c) } else { nat(n, a, c) } }
fn lam(param: &str, t: T, body: E) -> E { let mut p = Params::default(); p.content = Some(Param::new(param, t)); e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: p, body: std::rc::Rc::new(body), sig_at: pos() }))) }
fn b(x: bool) -> E { e(EK::Bool(x)) }

pub fn string(r: &mut Rng) -> String {
    if r.chance(1, 60) { let k = 20 + r.below(400); let u = string(r); let mut t: String = (0..k).map(|_| *r.pick(&['a', 'b', ',', ' ', 'é', 'X'])).collect(); t.push_str(&u); return t; }
    match r.below(6) { 0 => STRS[r.below(STRS.len())].to_string(), 1 | 2 => rich(r, 6), 3 => { let k = r.below(8); (0..k).map(|_| *r.pick(&['a', 'b', ',', ' '])).collect() } 4 => { let k = r.below(5); (0..k).map(|_| char::from_u32(r.below(0x3000) as u32).filter(|c| *c != '\0' && *c != '\r').unwrap_or('x')).collect() } _ => r.pick(&["", "a", "ab", "aXbXa", "Hello", "x y", "\u{a0}x\u{2003}", " \t\n"]).to_string() }
}
/// A part of `t`, or something else.
fn part(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    match r.below(6) {
        0 => string(r),
        1 => t.to_string() + "a",
        k => { let (mut i, mut j) = (r.below(cs.len() + 1), r.below(cs.len() + 1)); if i > j { std::mem::swap(&mut i, &mut j) } if k == 2 { i = 0 } if k == 3 { j = cs.len() } cs[i..j].iter().collect() }
    }
}

pub fn c09(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(901, idx);
    let r = &mut r;
    let num = |r: &mut Rng| -> String {
        let base = match r.below(8) { 0 => "9223372036854775807".into(), 1 => "9223372036854775808".into(), 2 => "-9223372036854775808".into(), 3 => "-9223372036854775809".into(), 4 => format!("{}{}", iv(r), r.below(10)), 5 => r.pick(&["", "-", "+", "1_0", "0x1", "1.0", "1e3", "٣", "--1", "+-1", "∞", "−1", "1 1"]).to_string(), _ => iv(r).to_string() };
        match r.below(10) { 0 => format!(" {base}"), 1 => format!("{base} "), 2 => format!("+{base}"), 3 => format!("000{base}"), 4 => format!("-{base}"), _ => base }
    };
    let xs = (0..5).map(|_| match r.below(14) {
        0 | 1 => { let n = if r.chance(1, 15) { 10 + r.below(30) } else { r.below(5) }; let a = (0..n).map(|_| int(iv(r))).collect(); nat("int::add", a, unit_e()) }
        2 => { let x = int(iv(r)); oc(r, "int::negate", vec![], x) }
        3 => { let x = iv(r); let y = x.checked_neg().unwrap_or(5).wrapping_add(r.range(-1, 1)); let z = int(r.range(-1, 1)); nat("int::add", vec![int(x), int(y), z], unit_e()) }
        4 | 5 => { let t = num(r); nat("int::parse", vec![], s(&t)) }
        6 => { let n = r.below(4); let l = list((0..n).map(|_| int(iv(r))).collect()); let f = iv(r); let f = if r.chance(1, 2) { i64::MAX - r.below(4) as i64 } else { f }; natn("list::enumerate", vec![], vec![("from", int(f))], l) }
        7 => { let n = r.below(5); let l = list((0..n).map(|k| int(k as i64)).collect()); let i = int(iv(r)); oc(r, "list::get", vec![i], l) }
        8 => { let n = r.below(5); let l = list((0..n).map(|k| int(k as i64)).collect()); let i = iv(r); let mut nm = name("o"); nm.path.push((r.chance(1, 3), Sel::Idx(i))); let1("o", l, e(EK::Name(nm))) }
        9 => { let (x, y) = (r.chance(1, 2), r.chance(1, 2)); let o = *r.pick(&["bool::and", "bool::or"]); op(r, o, vec![b(x), b(y)], unit_e()) }
        10 => { let x = r.chance(1, 2); oc(r, "bool::negate", vec![], b(x)) }
        11 if r.chance(1, 4) => { let w = *r.pick(&[" ", "\n", "", "\t ", "x"]); let x = group(vec![Item::Expr(var("fw")), Item::Expr(var("fw"))]); let1("fw", s(w), nat("bool::from", vec![], x)) }
        11 | 12 => { let x = any(r, 2); nat("bool::from", vec![], x) }
        _ => int(iv(r)),
    }).collect();
    exprs(cx, r, xs, Mode::Coarse)
}
/// Integer literals as written, where the model is plain arithmetic on the digits.
pub fn c09_literals(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(902, idx);
    let neg = r.chance(1, 2);
    let digits: String = match r.below(5) { 0 => (1 + r.next() % 3 + 9223372036854775805).to_string(), 1 => { let n = 1 + r.below(24); (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() } 2 => format!("{}9223372036854775807", "0".repeat(r.below(5))), 3 => iv(&mut r).unsigned_abs().to_string(), _ => r.below(1000).to_string() };
    let v: Option<i64> = { let d = digits.trim_start_matches('0'); if d.len() > 19 { None } else { let mut m: i128 = 0; for c in d.bytes() { m = m * 10 + (c - b'0') as i128 } if neg { m = -m } i64::try_from(m).ok() } };
    let lit = format!("{}{digits}", if neg { "-" } else { "" });
    let src = match r.below(4) {
        0 => format!("@let(v={lit}) {{@inline::from $v}}"),
        1 => format!("@list::join @list::map(@fn $x -> @inline::from $x) [{lit}]"),
        2 => format!("@match {lit} {{ {lit} -> {{yes}}, _ -> {{no}} }} @let(v={lit}) {{@inline::from $v}}"),
        _ => format!("@fn f($_x = {lit}) . -> @inline::from $_x\n@f()."),
    };
    cx.nontrivial(&src);
    cx.count(if v.is_some() { "literal:in range" } else { "literal:out of range" });
    let got = match real::compile(&src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", src, "output or diagnostics", e) };
    match v {
        Some(i) => { let want = i.to_string().replace('-', "\u{2212}"); let w2 = if src.starts_with("@match") { format!("<p>yes {want}</p>") } else { format!("<p>{want}</p>") }; if got.errors == 0 && got.html == w2 { Out::Ok } else { bad("integer literal has the wrong value", src, w2, format!("{} {:?}", got.html, got.diags)) } }
        None => if got.errors > 0 { Out::Ok } else { bad("integer literal out of range accepted", src, "an error", got.html) },
    }
}
/// Some value of any kind.
pub fn any(r: &mut Rng, d: i32) -> E {
    match r.below(if d > 0 { 15 } else { 9 }) {
        0 => b(r.chance(1, 2)),
        1 | 2 => int(r.range(-2, 3)),
        3 | 4 => s(&string(r)),
        5 => unit_e(),
        6 => tag(*r.pick(&["b", "span"]), vec![], vec![txt("w")]),
        7 => tag(*r.pick(&["div", "p", "ul", "table"]), vec![], vec![]),
        8 => call(dotted("regex", &["compile"]), vec![], s(*r.pick(&["a", "(b)?", "a*"]))),
        // values of types which are nearly the same
        9 if r.chance(1, 3) => {
            let few: Vec<E> = (0..2).map(|_| match r.below(7) { 0 | 1 => unit_e(), 2 => int(3), 3 => s("s"), 4 => tag("b", vec![], vec![txt("w")]), 5 => tag("p", vec![], vec![]), _ => b(true) }).collect();
            let n = 1 + r.below(3);
            let dicts = r.chance(1, 4);
            list((0..n).map(|_| { let m = r.below(3); let one: Vec<E> = (0..m).map(|_| if r.chance(1, 4) { unit_e() } else { r.pick(&few).clone() }).collect(); if dicts { call(native_name("dict::new"), one.into_iter().zip(["a", "b"]).map(|(x, k)| narg(k, x)).collect(), unit_e()) } else { list(one) } }).collect())
        }
        9 | 10 => { let n = r.below(4); let same = r.chance(1, 2); let first = any(r, d - 1); let mut v = vec![]; for i in 0..n { v.push(if same { first.clone() } else if i == 0 { first.clone() } else { any(r, d - 1) }) } list(v) }
        11 => { let n = r.below(3); let a = (0..n).map(|i| narg(["a", "b", "c"][i], any(r, d - 1))).collect(); call(native_name("dict::new"), a, unit_e()) }
        12 => group(vec![txt("t"), Item::Ws, Item::Expr(tag("i", vec![], vec![txt("u")]))]),
        13 => lam("fx", T::Any, int(1)),
        _ => group(vec![Item::Expr(tag("p", vec![], vec![txt("x")])), Item::Para(pos()), txt("y")]),
    }
}
pub fn c10(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1001, idx);
    let r = &mut r;
    let xs = (0..4).flat_map(|_| {
        let t = string(r);
        let q = part(r, &t);
        match r.below(10) {
            0 => vec![oc(r, "str::len", vec![], s(&t))],
            1 => vec![oc(r, "str::upper", vec![], s(&t)), oc(r, "str::lower", vec![], s(&t))],
            2 | 3 => { let pad = |r: &mut Rng| -> String { let n = r.below(3); (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{200b}', '\u{feff}', '\u{b}', '\u{c}'])).collect() }; let t = format!("{}{t}{}", pad(r), pad(r)); vec![oc(r, "str::trim", vec![], s(&t))] }
            4 | 5 => { let sp = oc(r, "str::split", vec![s(&q)], s(&t)); let join = let1("parts", sp.clone(), call(native_name("list::join"), vec![arg(s(&q))], var("parts"))); vec![sp, join] }
            6 => { let o = *r.pick(&["str::starts_with", "str::ends_with"]); vec![op(r, o, vec![s(&t), s(&q)], unit_e()), op(r, o, vec![s(&q), s(&t)], unit_e())] }
            7 => vec![oc(r, "str::is_empty", vec![], s(&t)), oc(r, "str::is_whitespace", vec![], s(&t)), oc(r, "str::is_whitespace", vec![], s(&q))],
            8 => { let x = any(r, 1); vec![nat("str::from", vec![], x)] }
            _ => { let o = *r.pick(&["str::len", "str::upper", "str::lower", "str::trim", "str::is_empty"]); let x = any(r, 1); vec![nat(o, vec![], x)] }
        }
    }).collect();
    exprs(cx, r, xs, Mode::Coarse)
}
/// Uses of a list that another operation made.
fn consume(r: &mut Rng, x: E) -> E {
    let pv = |n: &str| P::Var(n.into(), pos());
    let use_ = match r.below(9) {
        0 | 1 => {
            let (a, z) = (r.below(3), r.below(3));
            let pre: Vec<P> = (0..a).map(|i| pv(["p0", "p1"].get(i).copied().unwrap_or("p2"))).collect();
            let post: Vec<P> = (0..z).map(|i| pv(["q0", "q1"].get(i).copied().unwrap_or("q2"))).collect();
            let names: Vec<E> = pre.iter().chain(&post).map(|p| if let P::Var(n, _) = p { var(n) } else { unit_e() }).chain([var("mid")]).collect();
            e(EK::Match { value: Box::new(var("made")), branches: vec![(P::Seq { list: true, pre, spread: Some(Box::new(pv("mid"))), post }, list(names)), (pv("other"), var("other"))] })
        }
        2 => { let mut n = name("made"); n.path.push((r.chance(1, 3), Sel::Idx(r.range(-3, 3)))); e(EK::Name(n)) }
        3 => e(EK::List(vec![(int(1), false), (var("made"), true), (var("made"), true)])),
        4 => { let mut p = Params::default(); p.spread = Some(Param::new("_s", T::Any.list())); let f = e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: p, body: std::rc::Rc::new(var("_s")), sig_at: pos() }))); let1("ff", f, call(name("ff"), vec![Arg { kind: ArgK::Spread, value: var("made"), at: pos() }], unit_e())) }
        5 => { let o = *r.pick(&["list::len", "list::reversed", "list::is_empty", "list::flat", "list::join", "list::sorted", "list::enumerate"]); oc(r, o, vec![], var("made")) }
        6 => { let mut a = vec![int(r.range(-4, 4))]; if r.chance(1, 2) { a.push(int(r.range(-4, 5))) } oc(r, "list::slice", a, var("made")) }
        7 => { let i = int(r.range(-3, 3)); oc(r, "list::get", vec![i], var("made")) }
        _ => list(vec![var("made"), oc(r, "list::contains", vec![int(1)], list(vec![var("made"), int(1)])), oc(r, "list::contains", vec![var("made")], list(vec![int(1), var("made")]))]),
    };
    let1("made", x, use_)
}
pub fn c11(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1101, idx);
    let r = &mut r;
    let xs = (0..4).map(|_| {
        let n = r.below(8);
        let strs = r.chance(1, 3);
        let long = r.chance(1, 10);
        let n = if long { n + *r.pick(&[12, 25, 25, 60, 130]) } else { n };
        let l: Vec<E> = (0..n).map(|_| if strs { s(*r.pick(&["a", "b", "ab", "B", "", "é", "aa", "ba"])) } else { int(r.range(-3, 4)) }).collect();
        let at = r.range(-(n as i64) - 2, n as i64 + 2);
        let to = r.range(-(n as i64) - 2, n as i64 + 2);
        // pairs which compare equal by their key but can be told apart
        let pairs = |r: &mut Rng, n: usize| { let text = r.chance(1, 2); list((0..n).map(|i| list(vec![if text { s(*r.pick(&["a", "b", ""])) } else { int(r.range(0, 2)) }, s(&format!("p{i}"))])).collect()) };
        let first = || { let mut nm = name("fx"); nm.path.push((false, Sel::Idx(0))); e(EK::Name(nm)) };
        let el = if strs { T::Str } else { T::Int };
        let pick = if n > 0 { l[r.below(n)].clone() } else { int(0) };
        // callback which counts, compares or fails on some elements
        let pred = |r: &mut Rng, eq: &E, el: &T| -> E {
            let (y, no) = (r.chance(2, 3), r.chance(1, 6));
            let rest = if no { call(name("raise"), vec![], s("stop")) } else { b(!y) };
            lam("fx", el.clone(), e(EK::Match { value: Box::new(var("fx")), branches: vec![(P::Eq(eq.clone()), b(y)), (P::Ignore, rest)] }))
        };
        let x = match r.below(16) {
            0 => { let c = list(l); oc(r, "list::get", vec![int(at)], c) }
            1 | 2 => { let c = list(l); let mut a = vec![int(at)]; if r.chance(3, 4) { a.push(int(to)) } oc(r, "list::slice", a, c) }
            // slices of slices share their storage
            3 => { let c = list(l); let a = nat("list::slice", vec![int(at)], c); let bnd = nat("list::slice", vec![int(r.range(-3, 3)), int(r.range(-4, 5))], var("sl")); let1("sl", a, list(vec![bnd, var("sl"), nat("list::reversed", vec![], var("sl")), nat("list::len", vec![], var("sl"))])) }
            4 => { let rev = r.chance(1, 2); let c = list(l); natn("list::sorted", vec![], if rev || r.chance(1, 2) { vec![("reversed", b(rev))] } else { vec![] }, c) }
            5 | 6 => { let m = n + 3; let c = pairs(r, m); let rev = r.chance(1, 2); let k = lam("fx", T::Any, first()); natn("list::sorted", vec![], if rev || r.chance(1, 3) { vec![("key", k), ("reversed", b(rev))] } else { vec![("key", k)] }, c) }
            7 => { let mut l = l; if r.chance(1, 2) && !l.is_empty() { let i = r.below(l.len()); l[i] = any(r, 1) } let c = list(l); if r.chance(1, 2) { oc(r, "list::sorted", vec![], c) } else { let k = lam("fx", T::Any, if r.chance(1, 2) { int(0) } else { var("fx") }); natn("list::sorted", vec![], vec![("key", k)], c) } }
            8 if r.chance(1, 3) => { let o = *r.pick(&["list::all", "list::any", "list::find", "list::filter"]); let l: Vec<E> = (0..n % 8 + 1).map(|_| if r.chance(1, 3) { unit_e() } else { any(r, 1) }).collect(); let pick = if r.chance(2, 3) { l[r.below(l.len())].clone() } else { any(r, 1) }; let p = if r.chance(1, 5) { lam("fx", T::Any, b(true)) } else { pred(r, &pick, &T::Any) }; let c = list(l); oc(r, o, vec![p], c) }
            8 if r.chance(1, 4) => { let c = list((0..n % 8 + 1).map(|_| match r.below(9) { 0 | 1 => unit_e(), 2 => b(false), 3 => int(0), 4 => s(""), 5 => list(vec![]), 6 => s(*r.pick(&[" ", "\n"])), 7 => b(true), _ => any(r, 1) }).collect()); oc(r, "list::filter", vec![], c) }
            8 => { let o = *r.pick(&["list::all", "list::any", "list::find", "list::filter"]); let p = pred(r, &pick, &el); let c = list(l); oc(r, o, vec![p], c) }
            9 => { let f = match r.below(3) { 0 => lam("fx", T::Any, list(vec![var("fx"), var("fx")])), 1 => lam("fx", T::Any, group(vec![txt("m"), Item::Expr(var("fx"))])), _ => pred(r, &pick, &el) }; let c = list(l); oc(r, "list::map", vec![f], c) }
            10 => { let k = if long { 30 } else { r.below(4) }; let c = list((0..k).map(|_| { let m = r.below(4); list((0..m).map(|_| any(r, 0)).collect()) }).collect()); oc(r, "list::flat", vec![], c) }
            11 => { let sep = match r.below(9) { 0 => vec![], 5 => vec![s(" ")], 6 => vec![s(*r.pick(&["\n", " ", "  ", "\u{a0}", " \t", "-", "<"]))], 7 => vec![group(vec![txt("y"), Item::Ws, txt("z")])], 8 => vec![any(r, 1)], 1 => vec![s(", ")], 2 => vec![tag("br", vec![], vec![])], 3 => vec![s("")], _ => vec![tag("b", vec![], vec![txt("x")])] }; let k = if long { 12 + r.below(40) } else { r.below(5) }; let c = list((0..k).map(|_| any(r, 1)).collect()); oc(r, "list::join", sep, c) }
            12 if r.chance(1, 3) => { let mut k = 0; let its: Vec<Item> = (0..1 + r.below(7)).map(|_| { k += 1; match r.below(5) { 0 if k % 2 == 0 => Item::Ws, 1 => txt("t"), 2 => Item::Expr(tag("b", vec![], vec![])), 3 => Item::Expr(var("s")), _ => Item::Expr(tag("i", vec![], vec![txt("n")])) } }).collect(); let mut its = its; while matches!(its.last(), Some(Item::Ws)) { its.pop(); } its.insert(0, Item::Expr(tag("u", vec![], vec![]))); its.push(txt("e")); let x = let1("s", s(*r.pick(&[" ", "\n", "", "w", " v "])), group(its)); oc(r, "list::html_nodes", vec![], x) }
            12 => { let c = list(l); if r.chance(1, 2) { natn("list::enumerate", vec![], vec![("from", int(at))], c) } else { oc(r, "list::enumerate", vec![], c) } }
            13 => { let mut l = l; let x = if r.chance(1, 2) { pick } else { any(r, 2) }; if r.chance(1, 3) { l.push(x.clone()) } if r.chance(1, 3) { l.push(any(r, 2)) } r.shuffle(&mut l); let c = list(l); oc(r, "list::contains", vec![x], c) }
            14 => { let c = list(l); let o = *r.pick(&["list::reversed", "list::len", "list::is_empty"]); oc(r, o, vec![], c) }
            _ => { let k = r.below(4) + 1; let mut v = vec![]; for _ in 0..k { if r.chance(1, 2) { let m = r.below(4); v.push((list((0..m).map(|_| any(r, 0)).collect()), true)) } else { v.push((any(r, 1), false)) } } e(EK::List(v)) }
        };
        if r.chance(1, 3) { consume(r, x) } else { x }
    }).collect();
    exprs(cx, r, xs, Mode::Coarse)
}
pub fn c12(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1201, idx);
    let r = &mut r;
    const K: &[&str] = &["a", "b", "c", "d", "e1", "k_2", "A", "aB", "x", "y", "z", "len", "keys", "length_of_name"];
    fn dict(r: &mut Rng, max: usize, dups: bool) -> (E, Vec<String>) {
        let n = r.below(max + 1);
        let wide = max > 10 && r.chance(1, 3);
        let n = if wide { n + 20 + r.below(60) } else { n };
        let mut keys: Vec<String> = vec![];
        for _ in 0..n { let k = if wide { format!("k{}", r.below(150)) } else { r.pick(K).to_string() }; if dups || !keys.contains(&k) { keys.push(k) } }
        let mut args: Vec<Arg> = keys.iter().map(|k| narg(k, any(r, 1))).collect();
        // named arguments must not repeat statically
        if dups { let mut seen = vec![]; args.retain(|a| match &a.kind { ArgK::Named(n) => { if seen.contains(n) { false } else { seen.push(n.clone()); true } } _ => true }) }
        // pack some of them into spreads
        let mut out = vec![];
        let mut i = 0;
        while i < args.len() {
            if r.chance(1, 4) { let j = (i + 1 + r.below(3)).min(args.len()); let inner: Vec<Arg> = args[i..j].to_vec(); out.push(Arg { kind: ArgK::NamedSpread, value: call(native_name("dict::new"), inner, unit_e()), at: pos() }); i = j } else { out.push(args[i].clone()); i += 1 }
        }
        if dups && !keys.is_empty() && r.chance(1, 2) { let k = keys[r.below(keys.len())].clone(); out.push(Arg { kind: ArgK::NamedSpread, value: call(native_name("dict::new"), vec![narg(&k, int(9))], unit_e()), at: pos() }) }
        (call(native_name("dict::new"), out, unit_e()), keys)
    }
    /// A value nested `d` deep, and a path which leads to its inside and often further.
    fn nested(r: &mut Rng, d: usize, path: &mut Vec<(bool, Sel)>) -> E {
        let co = r.chance(1, 3);
        if d == 0 {
            for _ in 0..r.below(4) { path.push((r.chance(1, 2), if r.chance(2, 3) { Sel::Attr(r.pick(K).to_string()) } else { Sel::Idx(r.range(-2, 2)) })) }
            return match r.below(4) { 0 => any(r, 1), 1 => s("x"), _ => unit_e() };
        }
        if r.chance(2, 3) {
            let k = r.pick(K).to_string();
            path.push((co, Sel::Attr(k.clone())));
            let mut args = vec![narg(&k, nested(r, d - 1, path))];
            for _ in 0..r.below(3) { let k2 = r.pick(K); if !args.iter().any(|a| a.kind == ArgK::Named(k2.to_string())) { let i = r.below(args.len() + 1); args.insert(i, narg(k2, any(r, 0))) } }
            call(native_name("dict::new"), args, unit_e())
        } else {
            let n = 1 + r.below(4); let i = r.below(n);
            path.push((co, Sel::Idx(if r.chance(1, 3) { i as i64 - n as i64 } else { i as i64 })));
            list((0..n).map(|j| if i == j { nested(r, d - 1, path) } else { any(r, 0) }).collect())
        }
    }
    let xs = (0..4).map(|_| {
        if r.chance(1, 6) { let d = r.below(4); let mut nm = name("o"); let x = nested(r, d, &mut nm.path); return let1("o", x, e(EK::Name(nm))); }
        let dups = r.chance(1, 8);
        let big = r.chance(1, 8);
        let (d, keys) = dict(r, if big { 14 } else { 5 }, dups);
        let key = if keys.is_empty() || r.chance(1, 4) { r.pick(K).to_string() } else { keys[r.below(keys.len())].clone() };
        match r.below(9) {
            0 => d,
            1 => oc(r, *["dict::keys", "dict::values", "dict::items", "dict::len", "dict::is_empty"].get(idx as usize % 5).unwrap(), vec![], d),
            2 => { let o = *r.pick(&["dict::keys", "dict::values", "dict::items", "dict::len"]); oc(r, o, vec![], d) }
            3 => { let key = if r.chance(1, 4) { match r.below(5) { 0 => format!(" {key}"), 1 => format!("{key} "), 2 => key.to_uppercase(), 3 => String::new(), _ => format!("{key}{}", r.pick(K)) } } else { key }; nat("dict::get", vec![s(&key)], d) }
            4 => { let mut nm = name("o"); nm.path.push((r.chance(1, 4), Sel::Attr(key))); let1("o", d, e(EK::Name(nm))) }
            5 => { // equality does not depend on order
                let EK::Call(c) = &d.k else { unreachable!() };
                let mut c2 = (**c).clone(); r.shuffle(&mut c2.args);
                if r.chance(1, 3) && !c2.args.is_empty() { let i = r.below(c2.args.len()); if r.chance(1, 2) { c2.args.remove(i); } else if !matches!(c2.args[i].kind, ArgK::NamedSpread) { c2.args[i].value = any(r, 1) } }
                let d2 = e(EK::Call(Box::new(c2)));
                let1("d1", d, let1("d2", d2, list(vec![call(native_name("list::contains"), vec![arg(var("d1"))], list(vec![var("d2")])), call(native_name("list::contains"), vec![arg(var("d2"))], list(vec![var("d1")])), call(native_name("dict::keys"), vec![], var("d2"))])))
            }
            6 => { // passing a dictionary on and collecting it again changes nothing
                let mut p = Params::default(); p.named_spread = Some(Param::new("kw", T::Any.dict())); let f = e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: p, body: std::rc::Rc::new(var("kw")), sig_at: pos() })));
                let1("d1", d, let1("f", f, list(vec![call(name("f"), vec![Arg { kind: ArgK::NamedSpread, value: var("d1"), at: pos() }], unit_e()), var("d1")])))
            }
            7 => { let (d2, _) = dict(r, 3, false); let spread = |x: E| Arg { kind: ArgK::NamedSpread, value: x, at: pos() }; call(native_name("dict::new"), vec![spread(d), spread(d2)], unit_e()) }
            _ => { let ps = keys.iter().filter(|_| r.chance(2, 3)).map(|k| (k.clone(), P::Var(format!("p_{k}"), pos()))).collect::<Vec<_>>(); let vs: Vec<E> = ps.iter().map(|p| var(&format!("p_{}", p.0))).collect(); let (mut ps, mut vs) = (ps, vs); let mut seen = vec![]; let mut keep = vec![]; for p in &ps { keep.push(!seen.contains(&p.0)); seen.push(p.0.clone()) } let mut it = keep.iter(); ps.retain(|_| *it.next().unwrap()); let mut it = keep.iter(); vs.retain(|_| *it.next().unwrap());
                let sp = if r.chance(1, 2) { vs.push(var("rest")); Some(Box::new(P::Var("rest".into(), pos()))) } else { None };
                if ps.is_empty() && sp.is_none() { return d; }
                e(EK::Match { value: Box::new(d), branches: vec![(P::Dict(ps, sp), list(vs)), (P::Ignore, s("no"))] }) }
        }
    }).collect();
    exprs(cx, r, xs, Mode::Coarse)
}
pub fn rx_pattern(r: &mut Rng) -> String {
    match r.below(14) {
        0 => return r.pick(&["(", ")", "[", "a**", "*", "+a", "(?P<n>a)(?P<n>b)", "(?P<1>a)", "a{2,1}", "\\", "(?<", "[z-a]", "(?P<len>a)(b)", "(a)(?P<x>b)", "(?P<é>a)", "(?P<a.b>x)", "(?P<_a>x)", "(?P<a1>x)", "(?P<a.>x)", "(?P<a[0]>x)", "(?P<ab]>x)", "(?P<a..b>x)", "(?P<a>x)(?P<b.>y)", "a{", "x{1"]).to_string(),
        1 => return r.pick(&["", "a|", "|a", "()", "(a|)", "(?:a|ab)(?:c|bcd)?", "^", "$", "^$", "^a", "a$", ".", ".*", "a*?", "\\.", "[^a]", "[a-cx]"]).to_string(),
        _ => {}
    }
    let n = if r.chance(1, 15) { 4 + r.below(9) } else { r.below(3) + 1 };
    let grp = r.below(4);
    let mut out = String::new();
    for i in 0..n {
        let atom = *r.pick(&["a", "b", ".", "[ab]", "[^a]", "ab", "a|b", "é", "x", "[0-9]", "a|ab", "ba", "\u{1f600}", " ", "a "]);
        // groups which can match nothing, and are not repeated themselves
        if (grp == 1 || grp == 2) && r.chance(1, 8) {
            let q = r.pick(&["*", "?", "*?", "??"]);
            let a = format!("(?:{atom}){q}");
            out.push_str(&if grp == 1 { format!("({a})") } else { format!("(?P<g{i}>{a})") });
            if r.chance(1, 10) { out.push('|') }
            continue;
        }
        let atom = match grp { 0 => format!("(?:{atom})"), 1 => if r.chance(2, 3) { format!("({atom})") } else { format!("(?:{atom})") }, 2 => if r.chance(2, 3) { format!("(?P<g{i}>{atom})") } else { format!("(?:{atom})") }, _ => format!("(?:{atom})") };
        out.push_str(&atom);
        out.push_str(r.pick(&["", "", "", "*", "+", "?", "*?", "??", "{2}", "{1,2}"]));
        if r.chance(1, 10) { out.push('|') }
    }
    match r.below(12) { 0 => format!("^(?:{out})"), 1 => format!("(?:{out})$"), _ => out }
}
pub fn c13(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1301, idx);
    let r = &mut r;
    let p = rx_pattern(r);
    let t: String = { let n = if r.chance(1, 12) { 20 + r.below(80) } else { r.below(9) }; (0..n).map(|_| *r.pick(&["a", "a", "b", "ab", "é", "x", "1", "\u{1f600}", "\n", "c"])).collect() };
    let rx = call(dotted("regex", &["compile"]), vec![], s(&p));
    let mut xs = vec![rx.clone()];
    for o in ["regex::test", "regex::count", "regex::find", "regex::find_all", "regex::split"] { xs.push(op(r, o, vec![rx.clone()], s(&t))) }
    // equality of compiled patterns
    let p2 = match r.below(8) { 0 | 1 | 2 => p.clone(), 3 => format!("^{p}"), 4 => format!("{p}$"), 5 => format!("(?:{p})"), 6 => p.chars().skip(1).collect(), _ => rx_pattern(r) };
    xs.push(call(native_name("list::contains"), vec![arg(rx)], list(vec![call(dotted("regex", &["compile"]), vec![], s(&p2))])));
    exprs(cx, r, xs, Mode::Coarse)
}
fn ty(r: &mut Rng, d: i32) -> T {
    match r.below(if d > 0 { 15 } else { 10 }) { 0 => T::Any, 1 => T::Html, 2 => T::Block, 3 => T::Inline, 4 => T::Bool, 5 => T::Int, 6 => T::Str, 7 => T::Function, 8 => T::Regex, 9 => T::Str, 10 | 11 => ty(r, d - 1).list(), 12 | 13 => ty(r, d - 1).dict(), _ => ty(r, d - 1).opt() }
}
/// The listed findings.
pub fn c13_listed(cx: &mut Cx, idx: u64) -> Out {
    let (p, t) = [("(?:a|ab)[ab]", "cababca"), ("^[^a]*?|x", "bcx}")][idx as usize % 2];
    exprs(cx, &mut cx.rng(1302, 0), vec![nat("regex::split", vec![call(dotted("regex", &["compile"]), vec![], s(p))], s(t))], Mode::Coarse)
}
/// Containers of containers of the same shape with different leaves and units among them.
fn nested(r: &mut Rng, d: i32) -> E {
    if d <= 0 { return match r.below(8) { 0 | 1 => int(1), 2 | 3 => s("v"), 4 => b(true), 5 => unit_e(), 6 => tag("b", vec![], vec![txt("x")]), _ => tag("p", vec![], vec![]) }; }
    let n = r.below(4);
    list((0..n).map(|_| match r.below(7) { 0 | 1 => unit_e(), 2 if d > 1 => nested(r, d - 2), _ => nested(r, d - 1) }).collect())
}
/// Every value against every type: as a parameter, as a pattern, and by its own reported type.
pub fn c14(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1401, idx);
    let r = &mut r;
    let mut xs = vec![];
    for _ in 0..3 {
        let deep = r.chance(1, 3);
        let v = if deep { let d = 1 + r.below(4) as i32; nested(r, d) } else { any(r, 2) };
        let t = if deep && r.chance(1, 2) { let d = r.below(4); let mut t = r.pick(&[T::Int, T::Str, T::Any, T::Inline, T::Html, T::Bool, T::Block]).clone(); for _ in 0..d { if r.chance(1, 3) && !matches!(t, T::Any | T::Html | T::Inline | T::Block | T::Opt(_)) { t = t.opt() } t = t.list() } t } else { ty(r, 2) };
        // the parameter must be coerced in whichever way it is given
        let shape = r.below(6);
        let mut ps = Params::default();
        let (pn, c) = match shape {
            0 | 1 => { ps.content = Some(Param::new("cx", t.clone())); ("cx", call(name("f"), vec![], v.clone())) }
            2 => { ps.pos = vec![Param::new("_x", t.clone())]; ("_x", call(name("f"), vec![arg(v.clone())], unit_e())) }
            3 => { ps.named = vec![Param::new("nx", t.clone())]; ("nx", call(name("f"), vec![narg("nx", v.clone())], unit_e())) }
            4 => { ps.spread = Some(Param::new("_xs", t.clone().list())); let v2 = any(r, 1); ("_xs", call(name("f"), vec![arg(v.clone()), Arg { kind: ArgK::Spread, value: list(vec![v2]), at: pos() }], unit_e())) }
            _ => { ps.named_spread = Some(Param::new("kw", t.clone().dict())); ("kw", call(name("f"), vec![narg("q", v.clone())], unit_e())) }
        };
        let body = list(vec![call(name("typeof"), vec![], var(pn)), var(pn)]);
        let f = e(EK::Fn(std::rc::Rc::new(FnDef { name: None, params: ps, body: std::rc::Rc::new(body), sig_at: pos() })));
        xs.push(let1("f", f, c));
        xs.push(e(EK::Match { value: Box::new(v.clone()), branches: vec![(P::Typed(t.clone()), b(true)), (P::Ignore, b(false))] }));
        xs.push(e(EK::Match { value: Box::new(v.clone()), branches: vec![(P::TypeOf("tn".into(), pos()), list(vec![var("tn"), call(name("typeof"), vec![], v.clone())]))] }));
        // the reported type admits the value
        let mut it = Interp::new();
        if let Ok(val) = it.eval(&v, &T::Any) { if it.stop.is_none() { let own = val.ty(); if own != T::Unit { xs.push(e(EK::Match { value: Box::new(v.clone()), branches: vec![(P::Typed(own), s("admitted")), (P::Ignore, s("not admitted"))] })) } } }
        let o = *r.pick(&["block::from", "inline::from", "str::from", "bool::from"]);
        xs.push(nat(o, vec![], v));
    }
    exprs(cx, r, xs, Mode::Coarse)
}
