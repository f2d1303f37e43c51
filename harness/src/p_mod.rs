//! Phases over several source files: modules, and what they see of each other.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use crate::ast::*;
use crate::gen::*;
use crate::interp::{Interp, WFile, World, FILE};
use crate::p_diff::any;
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::value::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum X { Val, Fun, Late, Id, Whole, Let, Writer }
const XS: &[X] = &[X::Val, X::Fun, X::Late, X::Id, X::Whole, X::Let, X::Writer];
fn xname(x: X, k: usize) -> String { format!("{}{k}", match x { X::Val => "a", X::Fun => "f", X::Late => "g", X::Id => "i", X::Whole => "r", X::Let => "l", X::Writer => "w" }) }
fn letters(k: usize) -> String { ["ida", "idb", "idc"][k % 3].to_string() }

pub struct Built { pub world: Rc<World>, pub main: String, pub cyclic_main: bool }
fn comps(p: &str) -> Vec<&str> { p.split('/').filter(|c| !c.is_empty()).collect() }
/// A way of writing the path of `to` in a file of directory `dir`.
fn spell(r: &mut Rng, w: &World, dir: &str, to: &str) -> String {
    if r.chance(1, 25) { return format!("{}{to}", w.root); }
    let (d, t) = (comps(dir), comps(to));
    let mut common = d.iter().zip(&t).take_while(|(a, b)| a == b).count().min(t.len() - 1);
    if common > 0 && r.chance(1, 6) { common -= 1 }
    let mut out: Vec<String> = vec!["..".to_string(); d.len() - common];
    let mut at: Vec<&str> = d[..common].to_vec();
    for (i, c) in t[common..].iter().enumerate() {
        // a step into some directory and back
        if r.chance(1, 10) { let here = format!("/{}", at.join("/")); let here = here.trim_end_matches('/'); let subs: Vec<&String> = w.dirs.iter().filter(|x| x.len() > 1 && World::dir_of(x) == here).collect(); if !subs.is_empty() { let x = *r.pick(&subs); out.push(x[x.rfind('/').unwrap() + 1..].to_string()); out.push("..".into()) } }
        if r.chance(1, 12) { out.push(".".into()) }
        let target = format!("/{}", t[..common + i + 1].join("/"));
        let here = format!("/{}", at.join("/"));
        let here = here.trim_end_matches('/').to_string();
        let via: Vec<&String> = w.links.iter().filter(|(l, x)| **x == target && World::dir_of(l) == here).map(|p| p.0).collect();
        if !via.is_empty() && r.chance(1, 2) { let l = *r.pick(&via); out.push(l[l.rfind('/').unwrap() + 1..].to_string()) } else { out.push(c.to_string()) }
        at.push(c);
    }
    if out.len() > 1 && r.chance(1, 15) { let k = r.below(out.len() - 1) + 1; out.insert(k, String::new()) }
    let p = out.join("/");
    match p.strip_suffix(".papyri") { Some(q) if r.chance(2, 3) && !q.ends_with(".papyri") => q.to_string(), _ => p }
}
fn usage(r: &mut Rng, x: X, n: Name, k: usize) -> E {
    match x {
        X::Val | X::Let => call(name("repr"), vec![], e(EK::Name(n))),
        X::Fun => { let t = *r.pick(WORDS); call(n, vec![], s(t)) }
        X::Late => call(n, vec![], unit_e()),
        X::Id => e(EK::Name(n)),
        X::Whole => call(dotted("dict", &["len"]), vec![], e(EK::Name(n))),
        X::Writer => call(n, vec![], s(&format!("by{k}.html"))),
    }
}
fn at_name(base: &[&str]) -> Name { dotted(base[0], &base[1..]) }

/// Builds a tree of modules; `shape` 0 has no cycles and no faults.
pub fn build(r: &mut Rng, root: &str, shape: u32) -> Built {
    let mut w = World { root: root.to_string(), ..World::default() };
    w.dirs.insert("/".into());
    let big = r.chance(1, 20);
    for _ in 0..r.below(if big { 14 } else { 5 }) { let ds: Vec<&String> = w.dirs.iter().collect(); let d = (*r.pick(&ds)).trim_end_matches('/').to_string(); let n = *r.pick(&["a", "b", "lib", "x y", "d.papyri", "é", "..c", "-"]); w.dirs.insert(format!("{d}/{n}")); }
    let n = if big { 10 + r.below(24) } else { 2 + r.below(6) };
    let dirs: Vec<String> = w.dirs.iter().cloned().collect();
    let mut paths = vec![];
    for k in 0..n {
        let d = r.pick(&dirs).trim_end_matches('/').to_string();
        let f = match r.below(10) { 6 => format!("m{k}papyri.papyri"), 7 => format!("{k}.papyri.papyri"), 8 => format!("m{k}.PAPYRI.papyri"), 0 => format!("m{k}.lib.papyri"), 1 => format!("M {k}.papyri"), 2 => format!("é{k}.papyri"), _ => format!("m{k}.papyri") };
        paths.push(format!("{d}/{f}"));
    }
    // links to directories
    for k in 0..r.below(3) { let t = r.pick(&dirs).clone(); let d = r.pick(&dirs).trim_end_matches('/').to_string(); let l = format!("{d}/ln{k}"); if t != "/" && !w.dirs.contains(&l) { w.links.insert(l, t); } }
    let mut extra: Vec<String> = vec![];
    if shape > 0 { for k in 0..r.below(3) { let d = r.pick(&dirs).trim_end_matches('/').to_string(); let p = format!("{d}/bad{k}.papyri"); w.files.insert(p.clone(), WFile::Bad); extra.push(p) } }
    let raws: Vec<String> = (0..r.below(3)).map(|k| { let d = r.pick(&dirs).trim_end_matches('/').to_string(); let p = format!("{d}/t{k}.txt"); let t = rich(r, 9).replace(['\0', '\r'], "?"); let t = if k == 2 { format!("\u{feff}{t}\r\n\0\r{t} \r\n") } else { t }; w.files.insert(p.clone(), WFile::Raw(t)); p }).collect();
    let exports: Vec<Vec<X>> = (0..n).map(|k| if k == 0 { vec![] } else { XS.iter().copied().filter(|_| r.chance(1, 2)).collect() }).collect();
    let mut edges: Vec<(usize, usize)> = vec![];
    let mut mods: Vec<Vec<Item>> = vec![];
    for k in 0..n {
        let dir = World::dir_of(&paths[k]).to_string();
        let mut lib: Vec<usize> = (0..n).filter(|j| *j > k || (shape == 2 && r.chance(1, 4))).collect();
        r.shuffle(&mut lib);
        lib.truncate(if k == 0 { 4 } else if !big { 3 } else if r.chance(1, 6) { 2 } else { 1 });
        let mut st: Vec<Item> = vec![Item::Fn(repr_fn())];
        let mut out: Vec<Item> = vec![];
        let mut included: BTreeSet<usize> = BTreeSet::new();
        let reach = |r: &mut Rng, w: &World, edges: &mut Vec<(usize, usize)>, t: usize| -> E {
            edges.push((k, t));
            s(&spell(r, w, &dir, &paths[t]))
        };
        let import = |c: E| call(name("import"), vec![], c);
        if k > 0 && r.chance(1, 2) { out.push(Item::Expr(tag("i", vec![], vec![txt("private")]))) }
        for &t in &lib {
            for _ in 0..1 + r.below(2) {
                let ex: &Vec<X> = &exports[t].iter().copied().filter(|x| *x != X::Writer || k == 0 || shape > 0).collect();
                let p = reach(r, &w, &mut edges, t);
                match r.below(9) {
                    0..=2 => { // import under a name
                        let mut items = vec![];
                        for &x in ex { if r.chance(2, 3) { items.push(Item::Expr(usage(r, x, at_name(&["m", &xname(x, t)]), k))); items.push(Item::Ws) } }
                        if shape > 0 && r.chance(1, 8) { items.push(Item::Expr(e(EK::Name(dotted("m", &[*r.pick(&["private", "repr", "nothing"])]))))); items.push(Item::Ws) }
                        items.push(txt("end"));
                        out.push(Item::Expr(let1("m", import(p), tag("div", vec![], items))));
                    }
                    3 | 4 => {
                        if included.contains(&t) && shape == 0 { continue; }
                        out.push(Item::Expr(call(name("include"), vec![], p)));
                        if included.insert(t) { for &x in ex { if r.chance(2, 3) { out.push(Item::Ws); out.push(Item::Expr(tag("div", vec![], vec![Item::Expr(usage(r, x, name(&xname(x, t)), k))]))) } } }
                    }
                    5 => { // one entry, by pattern
                        let x = *r.pick(&XS[..if k == 0 || shape > 0 { 7 } else { 6 }]);
                        let m = e(EK::Match { value: Box::new(import(p)), branches: vec![(P::Dict(vec![(xname(x, t), P::Var("q".into(), pos()))], Some(Box::new(P::Ignore))), tag("div", vec![], vec![Item::Expr(usage(r, x, name("q"), k))])), (P::Ignore, tag("div", vec![], vec![txt("no such entry")]))] });
                        out.push(Item::Expr(m));
                    }
                    6 => { // several at once
                        let t2 = *r.pick(&lib);
                        let q = reach(r, &w, &mut edges, t2);
                        let ms = call(dotted("list", &["map"]), vec![arg(var("import"))], list(vec![p, q]));
                        out.push(Item::Expr(let1("ms", ms, tag("div", vec![], vec![Item::Expr(call(name("repr"), vec![], call(dotted("list", &["map"]), vec![arg(e(EK::Name(dotted("dict", &["keys"]))))], var("ms"))))]))));
                    }
                    7 => { // included in a scope of its own
                        let mut items = vec![];
                        for &x in ex { items.push(Item::Expr(usage(r, x, name(&xname(x, t)), k))); items.push(Item::Ws) }
                        items.push(txt("scope"));
                        let inner = vec![Item::Expr(call(name("include"), vec![], p)), Item::Ws, Item::Expr(tag("div", vec![], items))];
                        out.push(Item::Expr(let1("dummy", int(1), tag("section", vec![], inner))));
                    }
                    _ => { // two routes to the same module give equal exports
                        let q = reach(r, &w, &mut edges, t);
                        let d = call(name("import"), vec![], p);
                        let d2 = call(name("import"), vec![], q);
                        let keys = |x| call(dotted("dict", &["keys"]), vec![], x);
                        let m = e(EK::Match { value: Box::new(keys(d)), branches: vec![(P::Var("one".into(), pos()), let1("two", keys(d2), tag("div", vec![], vec![Item::Expr(call(name("repr"), vec![], list(vec![var("one"), var("two")])))])))] });
                        out.push(Item::Expr(m));
                    }
                }
                out.push(Item::Ws);
            }
        }
        // files which are not modules
        if !raws.is_empty() && r.chance(1, 3) { let raw = raws[r.below(raws.len())].clone(); let p = spell(r, &w, &dir, &raw); let read = call(dotted("file", &["read"]), vec![], s(&p)); out.push(Item::Expr(tag("pre", vec![], vec![Item::Expr(if matches!(w.files.get(&raw), Some(WFile::Raw(t)) if t.contains('\r')) { call(dotted("str", &["len"]), vec![], read) } else { read })]))); out.push(Item::Ws) }
        if r.chance(1, 5) && w.links.is_empty() {
            let d = r.pick(&dirs).clone();
            let p = if d == "/" { let mut v = vec![".."; comps(&dir).len()]; v.push("."); v.join("/") } else { let mut p = spell(r, &w, &dir, &d); if r.chance(1, 3) { for _ in 0..1 + r.below(3) { p.push('/') } } p };
            out.push(Item::Expr(tag("div", vec![], vec![Item::Expr(call(name("repr"), vec![], call(dotted("file", &["list"]), vec![], s(&p))))])));
            out.push(Item::Ws);
        }
        if shape > 0 && r.chance(1, 4) {
            let f = *r.pick(&["import", "include"]);
            let bads: Vec<&String> = extra.iter().collect();
            let p = match r.below(5) { 0 | 1 if !bads.is_empty() => { let b = (*r.pick(&bads)).clone(); spell(r, &w, &dir, &b) } 0 | 1 => "missing".into(), 2 => "nodir/../m1".into(), 3 => String::new(), _ => { let d = r.pick(&dirs).clone(); if d.ends_with(".papyri") { spell(r, &w, &dir, &d) } else { "../../../../../../nowhere".into() } } };
            for _ in 0..1 + r.below(2) { out.push(Item::Expr(tag("div", vec![], vec![Item::Expr(call(name(f), vec![], s(&p)))]))); out.push(Item::Ws) }
        }
        if shape > 0 && r.chance(1, 10) { out.push(Item::Expr(tag("div", vec![], vec![Item::Expr(call(dotted("file", &["write"]), vec![arg(s(&format!("own{k}.html")))], tag("p", vec![], vec![txt("written")])))]))); out.push(Item::Ws) }
        // what the module gives to others
        let v1 = |_r: &mut Rng, n: &str, c: Option<&str>, body: E| { let mut p = Params::default(); p.content = c.map(|c| Param::new(c, T::Any)); Rc::new(FnDef { name: Some(n.to_string()), params: p, body: Rc::new(body), sig_at: pos() }) };
        for &x in &exports[k] {
            let nm = xname(x, k);
            let it = match x {
                X::Val => Item::Export(vec![(nm, any(r, 1))]),
                X::Fun => { let d = v1(r, &nm, Some("v"), tag("em", vec![], vec![txt(&format!("m{k}")), Item::Ws, Item::Expr(call(name("helper"), vec![], var("v")))])); st.push(Item::Fn(v1(r, "helper", Some("v"), tag("b", vec![], vec![Item::Expr(var("v"))])))); Item::ExportFn(d) }
                X::Late => { let t = *r.pick(&lib.iter().copied().chain([k]).collect::<Vec<_>>()); let t = if t <= k && shape < 2 { if k + 1 < n { k + 1 } else { st.push(Item::ExportFn(v1(r, &nm, None, tag("u", vec![], vec![txt("leaf")])))); continue } } else { t }; let p = reach(r, &w, &mut edges, t); let body = let1("m", import(p), tag("u", vec![], vec![Item::Expr(call(dotted("dict", &["len"]), vec![], var("m")))])); Item::ExportFn(v1(r, &nm, None, body)) }
                X::Id => Item::Export(vec![(nm, call(dotted("str", &["unique_id"]), vec![], s(&letters(k))))]),
                X::Whole => { let later: Vec<usize> = lib.iter().copied().filter(|t| *t > k || shape == 2).collect(); if later.is_empty() { Item::Export(vec![(nm, call(dotted("dict", &["new"]), vec![], unit_e()))]) } else { let t = *r.pick(&later); let p = reach(r, &w, &mut edges, t); Item::Export(vec![(nm, import(p))]) } }
                X::Let => Item::ExportLet(vec![(nm, any(r, 1))]),
                X::Writer => { let mut p = Params::default(); p.content = Some(Param::new("v", T::Str)); let body = call(dotted("file", &["write"]), vec![arg(var("v"))], tag("p", vec![], vec![txt(&format!("m{k}"))])); Item::ExportFn(Rc::new(FnDef { name: Some(nm), params: p, body: Rc::new(body), sig_at: pos() })) }
            };
            // given again: the later one counts
            let again = if shape > 0 && r.chance(1, 12) { match x {
                X::Val => Some(Item::Export(vec![(xname(x, k), any(r, 1))])),
                X::Let => Some(Item::ExportLet(vec![(xname(x, k), any(r, 1))])),
                X::Fun => Some(Item::ExportFn(v1(r, &xname(x, k), Some("w"), tag("u", vec![], vec![txt("again"), Item::Ws, Item::Expr(var("w"))])))),
                _ => None,
            } } else { None };
            if r.chance(1, 3) { st.push(it); st.extend(again) } else { out.push(it); out.push(Item::Ws); if let Some(a) = again { out.push(a); out.push(Item::Ws) } }
        }
        let mut all = vec![];
        for it in st { all.push(it); all.push(Item::Ws) }
        if r.chance(1, 4) { all.push(Item::Expr(tag("p", vec![], vec![txt(&format!("start {k}"))]))); all.push(Item::Ws) }
        all.extend(out);
        all.push(Item::Expr(tag("p", vec![], vec![txt(&format!("end of {k}"))])));
        mods.push(all);
    }
    w.order = paths.clone();
    for (k, items) in mods.into_iter().enumerate() {
        let t = print_from(&items, k as u32 * FILE + 1, Some(r));
        w.files.insert(paths[k].clone(), WFile::Module(Rc::new(items), t));
    }
    // is the main document reached from itself?
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo = vec![0];
    while let Some(a) = todo.pop() { for &(x, y) in &edges { if x == a && seen.insert(y) { todo.push(y) } } }
    Built { world: Rc::new(w), main: paths[0].clone(), cyclic_main: seen.contains(&0) }
}
/// Puts the files on disk.
pub fn place(w: &World, root: &Path) -> std::io::Result<()> {
    let at = |p: &str| root.join(p.trim_start_matches('/'));
    for d in &w.dirs { std::fs::create_dir_all(at(d))? }
    for (p, f) in &w.files { match f { WFile::Module(_, t) | WFile::Raw(t) => std::fs::write(at(p), t)?, WFile::Bad => std::fs::write(at(p), b"a \xff\xfe b")? } }
    for (l, t) in &w.links { std::os::unix::fs::symlink(at(t), at(l))? }
    Ok(())
}
pub fn show(w: &World) -> String { w.files.iter().map(|(p, f)| format!("=== {p}\n{}\n", match f { WFile::Module(_, t) | WFile::Raw(t) => t.clone(), WFile::Bad => "(not UTF-8)".into() })).chain(w.links.iter().map(|(l, t)| format!("=== {l} -> {t}\n"))).collect() }
pub fn fresh(cx: &Cx, what: &str, idx: u64) -> PathBuf { let d = cx.scratch.join(format!("{what}{idx}")); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); std::fs::canonicalize(&d).unwrap() }

/// Positions of diagnostics as the model numbers them.
fn located(w: &World, root: &Path, d: &mut real::RDiag, memo: &mut BTreeMap<String, Option<u32>>) {
    let mut fix = |l: &mut real::Loc| {
        let k = memo.entry(l.file.clone()).or_insert_with(|| { let c = std::fs::canonicalize(&l.file).ok()?; let p = format!("/{}", c.strip_prefix(root).ok()?.to_str()?); w.order.iter().position(|x| *x == p).map(|k| k as u32) });
        if let Some(k) = k { l.line += *k * FILE; l.file = "<string>".into() }
    };
    fix(&mut d.at);
    if let Some(t) = &mut d.trace { for l in t { fix(l) } }
}
pub fn c19(cx: &mut Cx, idx: u64, shape: u32) -> Out {
    let mut r = cx.rng(1900 + shape as u64, idx);
    let dir = fresh(cx, "c19-", idx);
    let b = build(&mut r, dir.to_str().unwrap(), shape);
    let w = b.world.clone();
    let text = format!("main: {}\n{}", b.main, show(&w));
    cx.nontrivial(&text.replace(w.root.as_str(), "ROOT"));
    if let Err(e) = place(&w, &dir) { let _ = std::fs::remove_dir_all(&dir); panic!("scratch: {e}") }
    let out = judge(cx, &b, &dir, &text);
    let _ = std::fs::remove_dir_all(&dir);
    out
}
fn judge(cx: &mut Cx, b: &Built, dir: &Path, text: &str) -> Out {
    let w = &b.world;
    let mut it = Interp::new();
    it.world = Some(w.clone());
    it.outs = Some(vec![]);
    let Some(WFile::Module(items, _)) = w.files.get(&b.main) else { panic!() };
    let m = it.document(items);
    if let Some(why) = &it.stop { cx.count(&format!("model gave up:{why}")); return Out::Skip("not modelled"); }
    let Ok(h) = m else { return Out::Skip("not modelled") };
    for (_, what) in &it.loads { cx.count(&format!("load:{what}")) }
    for (k, n) in &it.seen { if matches!(*k, "file::read" | "file::list" | "file::write" | "str::unique_id" | "import" | "include" | "export") { cx.add(&format!("did:{k}"), *n) } }
    cx.count(if it.diags.is_empty() { "outcome:success" } else { "outcome:diagnostics" });
    if std::env::var("PVH_SHOW").is_ok() && !it.diags.is_empty() { eprintln!("{text}\n{:?}\n-----", it.diags) }
    real::dump(text);
    let got = real::guard(|| -> Result<_, String> {
        let mut ctx = papyri_lang::compiler::Context::new(papyri_lang::errors::ReportingLevel::Warning, Some(Path::new("out")), None);
        let res = ctx.load_uncached(&dir.join(b.main.trim_start_matches('/'))).map_err(|_| "the main document was not loaded".to_string())?;
        let outs: Vec<_> = ctx.out_files.as_mut().map_or(vec![], |o| o.take_iter().collect());
        let mut files = vec![];
        for (p, h) in outs { files.push((p.to_string_lossy().to_string(), real::render(&ctx, &h, true)?)) }
        Ok((real::finish(&ctx, &res.out)?, files))
    });
    let (mut got, files) = match got { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => return bad("the compiler failed internally", text, "output or diagnostics", e) };
    let mut memo = BTreeMap::new();
    for d in &mut got.diags { located(w, dir, d, &mut memo) }
    if b.cyclic_main && it.loads.iter().any(|l| l.1 == "circular") {
        // how often the main document is compiled as a module is not specified
        cx.count("cycle through the main document");
        return if got.diags.iter().any(|d| d.cat == "Module error") { Out::Ok } else { bad("a circular import is not reported", text, "a module error", format!("{:?}\n{}", got.diags, got.html)) };
    }
    if let Err(e) = real::same_diags(&it.diags, &got.diags) { return bad("diagnostics of a set of modules differ from the reference", text, format!("{:?}\n(line = {FILE} × file + line; files {:?})", it.diags, w.order), format!("{e}\n{}", got.html)); }
    let html = h.render();
    if got.html != html { return bad("output of a set of modules differs from the reference", text, html, got.html); }
    let want: Vec<(String, String)> = it.outs.clone().unwrap_or_default().into_iter().map(|(p, h)| (format!("out/{p}"), h.render())).collect();
    if files != want { return bad("files written by a set of modules differ from the reference", text, format!("{want:?}"), format!("{files:?}")); }
    cx.add("files written", want.len() as u64);
    Out::Ok
}
