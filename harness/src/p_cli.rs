//! Phases which run the command line program as an unprivileged user in a
//! scratch directory and watch its output, exit status and every file.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant, SystemTime};
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use crate::ast::*;
use crate::gen::*;
use crate::interp::{Interp, WFile};
use crate::p_html::lit;
use crate::p_mod::{self, fresh};
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::value::H;

pub const NOBODY: u32 = 65534;
#[derive(Debug, Clone)]
pub struct Ran { pub code: Option<i32>, pub signal: Option<i32>, pub out: String, pub err: String }

/// The program under test, where everybody may run it.
fn binary(cx: &Cx) -> PathBuf {
    let p = PathBuf::from(std::env::var("PVH_PAPYRI").unwrap_or_else(|_| "/verif/harness/target/repo/debug/papyri".into()));
    let ok = Command::new(&p).arg("--version").uid(NOBODY).gid(NOBODY).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_or(false, |s| s.success());
    if ok { return p; }
    let q = cx.scratch.join("papyri");
    std::fs::copy(&p, &q).expect("copy of the program");
    q
}
thread_local! { static BIN: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) }; }
pub fn program_file(cx: &Cx) -> PathBuf { BIN.with(|b| b.borrow_mut().get_or_insert_with(|| binary(cx)).clone()) }
pub fn papyri(cx: &Cx, cwd: &Path, args: &[String], input: Option<&[u8]>, env: &[(&str, &str)], filter: bool) -> Result<Ran, String> {
    let mut c = Command::new(program_file(cx));
    c.args(args).current_dir(cwd).env_clear().env("PATH", "/usr/bin:/bin").uid(NOBODY).gid(NOBODY).stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env { c.env(k, v); }
    if filter { unsafe { c.pre_exec(|| crate::syscalls::no_network().map_err(std::io::Error::from_raw_os_error)) }; }
    let mut ch = c.spawn().map_err(|e| format!("cannot start the program: {e}"))?;
    let mut si = ch.stdin.take();
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    std::thread::scope(|s| {
        let w = input.map(|b| { let mut si = si.take().unwrap(); s.spawn(move || { let _ = si.write_all(b); }) });
        let o = s.spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); String::from_utf8_lossy(&v).to_string() });
        let e = s.spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); String::from_utf8_lossy(&v).to_string() });
        let t = Instant::now();
        let mut nap = 200;
        let st = loop { match ch.try_wait() { Ok(Some(st)) => break Some(st), Ok(None) if t.elapsed() > Duration::from_secs(40) => { let _ = ch.kill(); let _ = ch.wait(); break None } _ => { std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 2).min(5000) } } };
        if let Some(w) = w { let _ = w.join(); }
        let (out, err) = (o.join().unwrap_or_default(), e.join().unwrap_or_default());
        match st { Some(st) => Ok(Ran { code: st.code(), signal: st.signal(), out, err }), None => Err("the program did not end within 40 s".into()) }
    })
}
/// Everything below a directory.
#[derive(Debug, Clone, PartialEq)]
pub enum Ent { File(Vec<u8>), Dir, Link(PathBuf) }
pub fn snapshot(d: &Path) -> BTreeMap<String, Ent> {
    fn go(d: &Path, pre: &str, out: &mut BTreeMap<String, Ent>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = format!("{pre}{}", e.file_name().to_string_lossy());
            match e.file_type() {
                Ok(t) if t.is_symlink() => { out.insert(p, Ent::Link(std::fs::read_link(e.path()).unwrap_or_default())); }
                Ok(t) if t.is_dir() => { out.insert(p.clone(), Ent::Dir); go(&e.path(), &format!("{p}/"), out) }
                _ => { out.insert(p, Ent::File(std::fs::read(e.path()).unwrap_or_default())); }
            }
        }
    }
    let mut out = BTreeMap::new();
    go(d, "", &mut out);
    out
}
/// Files whose content differs, appeared or vanished; new directories do not count.
pub fn changes(a: &BTreeMap<String, Ent>, b: &BTreeMap<String, Ent>) -> BTreeMap<String, Option<String>> {
    let mut out = BTreeMap::new();
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if x == y || (x.is_none() && y == Some(&Ent::Dir)) { continue; }
        out.insert(k.clone(), match y { Some(Ent::File(v)) => Some(String::from_utf8_lossy(v).to_string()), Some(o) => Some(format!("({o:?})")), None => None });
    }
    out
}
pub fn give(d: &Path) {
    let c = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(d.as_os_str())).unwrap();
    unsafe { libc::lchown(c.as_ptr(), NOBODY, NOBODY); }
    if std::fs::symlink_metadata(d).map_or(false, |m| m.is_dir()) { for e in std::fs::read_dir(d).into_iter().flatten().flatten() { give(&e.path()) } }
}
fn lines(t: &str) -> Vec<String> { t.lines().filter(|l| !l.trim().is_empty()).map(String::from).collect() }

/// What one document does when compiled alone through the library.
#[derive(Debug, Clone, Default)]
pub struct Alone { pub failed_to_load: bool, pub html: String, pub text: String, pub empty: bool, pub errors: u32, pub warnings: u32, pub diags: Vec<String>, pub named: Vec<String>, pub summary: String, pub outs: Vec<(PathBuf, String, String)> }
pub fn take(ctx: &mut Context, out: &papyri_lang::compiler::HTML) -> Result<Alone, String> {
    let mut a = Alone { empty: out.is_empty(), ..Alone::default() };
    a.html = real::render(ctx, out, true)?; a.text = real::render(ctx, out, false)?;
    a.errors = ctx.diagnostics.num_errors; a.warnings = ctx.diagnostics.num_warnings;
    let d = format!("{:?}", ctx.diagnostics);
    a.diags = lines(&d);
    let cwd = std::env::current_dir().unwrap_or_default();
    a.named = a.diags.iter().map(|l| plain(l, &cwd)).collect();
    a.summary = a.diags.pop().unwrap_or_default();
    a.named.pop();
    let outs: Vec<_> = ctx.out_files.as_mut().map_or(vec![], |o| o.take_iter().collect());
    for (p, h) in outs { a.outs.push((p, real::render(ctx, &h, true)?, real::render(ctx, &h, false)?)) }
    Ok(a)
}
/// A diagnostic line with every named file resolved: a module is named as it was first asked for.
fn plain(l: &str, cwd: &Path) -> String {
    let real = |f: &str| -> String {
        let p = cwd.join(f);
        if let Ok(q) = std::fs::canonicalize(&p) { return q.display().to_string(); }
        let name = p.file_name().map(|n| n.to_os_string());
        match (p.parent().and_then(|d| std::fs::canonicalize(d).ok()), name) { (Some(d), Some(n)) => d.join(n).display().to_string(), _ => clean(&p).display().to_string() }
    };
    if let Some((f, rest)) = l.strip_prefix("    File \"").and_then(|x| x.split_once("\", line ")) { return format!("    File \"{}\", line {rest}", real(f)); }
    if l.starts_with("Module error: ") { if let Some((m, f)) = l.strip_suffix('"').and_then(|x| x.split_once(" in \"")) { return format!("{m} in \"{}\"", real(f)); } }
    l.to_string()
}
fn level(ignore: bool) -> ReportingLevel { if ignore { ReportingLevel::Error } else { ReportingLevel::Warning } }
/// Compiles one file alone in a new context. The working directory must be the program's.
pub fn alone(path: &Path, out: Option<&Path>, ignore: bool) -> Result<Alone, String> {
    real::guard(|| {
        let mut ctx = Context::new(level(ignore), out, None);
        match ctx.load_uncached(path) { Ok(r) => take(&mut ctx, &r.out), Err(_) => Ok(Alone { failed_to_load: true, ..Alone::default() }) }
    }).and_then(|r| r)
}
/// Runs `f` with another working directory.
pub fn within<X>(d: &Path, f: impl FnOnce() -> X) -> X {
    let old = std::env::current_dir().unwrap_or_else(|_| "/".into());
    std::env::set_current_dir(d).expect("scratch directory");
    let r = real::guard(f);
    let _ = std::env::set_current_dir(old);
    match r { Ok(x) => x, Err(e) => panic!("{e}") }
}

// ---- C21 ----

fn doc(r: &mut Rng, k: usize, kind: &str, out: bool) -> String {
    let w = *r.pick(WORDS);
    match kind {
        "good" => match r.below(4) { 0 => format!("{w} & co {k}"), 1 => format!("<h1>{w}</h1><p>a *b* {k}</p>\n\nmore &lt; text"), 2 => format!("@let(x=`{w} <{k}>`) {{$x}}"), _ => format!("@bold {{doc {k}}} `code {k}` -- end") },
        "empty" => r.pick(&["", "# nothing\n", "<!-- nothing -->", "@let(x=1).", "\n\n  \n", "@fn f $x -> $x"]).to_string(),
        "warning" => format!("@fn f $x -> $x\n{}@f {{w{k}}}", "@fn f $x -> <b>$x</>\n".repeat(many(r))),
        "error" => match r.below(5) { 0 => format!("text {k} $undefined{k} more"), 1 => format!("<p>{w}"), 2 => format!("before {k} @raise `stop {k}` after"), 3 => format!("<b><div>{k}</div></b>"), _ => "@let(x=1) {@int::add(`a`).} ]".into() },
        "mixed" => format!("@fn f $x -> $x\n{}{}", "@fn f $x -> $x\n".repeat(many(r)), format!("$nope{k}\n").repeat(many(r))),
        "writer" if out && r.chance(1, 4) => format!("@file::write(`gen{k}/page.html`) <p>superseded {k}</p>{}", r.pick(&[format!("@file::write(`gen{k}/./page.html`) <p>gen {k}</p>"), format!("@file::write(`side{k}.html`) {{x}} @file::write(`gen{k}/page.html`) {{gen {k}}}\n\ntext"), format!("@let(l=[1, 2]) {{@list::map(@fn $x -> @file::write(`gen{k}/page.html`) {{superseded no more than $x}}) $l}} @file::write(`gen{k}/../gen{k}/page.html`) {{last}}")])),
        "writer" if out => format!("@file::write(`gen{k}/page.html`) <p>gen {k}</p>{}", r.pick(&["", " text", " $undefined", "\n\n@file::write(`other.html`) {x}"])),
        "import" => format!("@let(l=@import `shared`) {{$l::v {k}}}"),
        _ => program(r, Prof { fault: 3, budget: 30, ..prof(&["tag"]) }),
    }
}
/// A random program which is known to end.
pub fn program(r: &mut Rng, p: Prof) -> String {
    for _ in 0..20 {
        let items = Gen::new(r, p.clone()).program();
        let src = print_items(&items, Some(r));
        let mut it = Interp::new();
        let _ = it.document(&items);
        if it.stop.is_none() { return src; }
    }
    "no program".into()
}
struct Opts { unchanged: bool, silent: bool, ignore: bool, text: bool, out: Option<String> }
pub fn c21(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2101, idx);
    let r = &mut r;
    let root = fresh(cx, "c21-", idx);
    let work = root.join("work");
    let res = c21_in(cx, r, &root, &work);
    let _ = std::fs::remove_dir_all(&root);
    res
}
fn arg_list(r: &mut Rng, o: &Opts, paths: &[String]) -> Vec<String> {
    let mut a: Vec<Vec<String>> = vec![];
    let mut flag = |r: &mut Rng, s: &str, l: &str| a.push(vec![if r.chance(1, 2) { s.to_string() } else { l.to_string() }]);
    if o.unchanged { flag(r, "-u", "--skip-unchanged") }
    if o.silent { flag(r, "-s", "--silent") }
    if o.ignore { flag(r, "--ignore-warnings", "--ignore-warnings") }
    if o.text { flag(r, "-t", "--text") }
    if let Some(d) = &o.out { a.push(vec![if r.chance(1, 2) { "-o".to_string() } else { "--out".to_string() }, d.clone()]) }
    r.shuffle(&mut a);
    let at = if r.chance(1, 4) { r.below(a.len() + 1) } else { a.len() };
    a.insert(at, paths.to_vec());
    a.concat()
}
fn c21_in(cx: &mut Cx, r: &mut Rng, root: &Path, work: &Path) -> Out {
    let o = Opts { unchanged: r.chance(1, 3), silent: r.chance(1, 3), ignore: r.chance(1, 4), text: r.chance(1, 4), out: if r.chance(1, 2) { Some(match r.below(6) { 0 => "out".to_string(), 1 => "./build/html".into(), 2 => root.join("elsewhere").display().to_string(), 3 => "../sibling".into(), 4 => ".".into(), _ => "out dir/é".into() }) } else { None } };
    let dirs = ["", "", "sub/", "sub/deep/", "x y/", r.pick(&["v1.lib.d/", "sub/1/2/3/4/5/6/7/8/9/", "sub/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/", "x.html/", "..dots/", ".hidden/", "a.papyri.d/", "UP/", "0/"])];
    let ext = if o.text { "txt" } else { "html" };
    std::fs::create_dir_all(work).unwrap();
    let base = SystemTime::now() - Duration::from_secs(5000);
    let put = |p: &Path, t: &[u8], at: Option<SystemTime>| { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); let mut f = std::fs::File::create(p).unwrap(); f.write_all(t).unwrap(); if let Some(at) = at { f.set_modified(at).unwrap() } };
    put(&work.join("shared.papyri"), b"@export(v=`shared`).", Some(base));
    for d in &dirs[2..] { put(&work.join(d).join("shared.papyri"), b"@export(v=`shared too`).", Some(base)) }
    let kinds = ["good", "good", "empty", "warning", "error", "mixed", "writer", "import", "random", "library", "upper", "unreadable"];
    let mut docs: Vec<(String, &str)> = vec![];
    let n = if r.chance(1, 20) { 10 + r.below(30) } else { 1 + r.below(6) };
    for k in 0..n {
        let m = if r.chance(1, 12) { 12 } else { 11 };
        let kind = *r.pick(&kinds[..m]);
        let d = *r.pick(&dirs);
        let name = format!("{d}{}", match kind { "library" => r.pick(&[format!("d{k}.lib.papyri"), format!("d{k}.LIB.papyri")]).clone(), "upper" => format!("d{k}.PaPyRi"), _ => r.pick(&[format!("d{k}.papyri"), format!("d {k}.papyri"), format!("d.{k}.papyri"), format!("d.lib.{k}.papyri"), format!("d.papyri.{k}.papyri"), format!("lib{k}.papyri"), format!("d{k}lib.papyri"), format!("é{k}.papyri")]).clone() });
        let text = match kind { "library" => b"$undefined".to_vec(), "unreadable" => b"\xff\xfe".to_vec(), "upper" => doc(r, k, "good", false).into_bytes(), _ => doc(r, k, kind, o.out.is_some()).into_bytes() };
        put(&work.join(&name), &text, Some(base));
        docs.push((name, kind));
    }
    for p in ["notes.txt", "sub/readme.md", "x.papyri.bak", ".papyri"] { if r.chance(1, 3) { put(&work.join(p), b"not a source file $undefined", None) } }
    // sources asked for
    let mut paths: Vec<String> = vec![];
    if r.chance(3, 4) {
        for _ in 0..1 + r.below(4) {
            let d = docs[r.below(docs.len())].0.clone();
            paths.push(match r.below(14) { 0 => ".".into(), 1 => "sub".into(), 2 => "*.papyri".into(), 3 => "sub/*.papyri".into(), 4 => "**/*.papyri".into(), 5 => format!("./{d}"), 6 => "x y/".into(), 7 => "notes.txt".into(), 8 => "sub/../sub/deep".into(), 9 if r.chance(1, 3) => "missing.papyri".into(), 9 => "[d]*.papyri".into(), _ => d });
        }
    }
    // the files the arguments stand for
    let all: Vec<String> = { let s = snapshot(work); s.iter().filter(|(_, e)| matches!(e, Ent::File(_))).map(|p| p.0.clone()).collect() };
    let is_src = |p: &str| { let f = p.rsplit('/').next().unwrap(); f.len() > 7 && f.to_ascii_lowercase().ends_with(".papyri") };
    let mut wanted: BTreeSet<PathBuf> = BTreeSet::new();
    let mut not_source: Vec<String> = vec![];
    for p in if paths.is_empty() { vec![".".to_string()] } else { paths.clone() } {
        let under = |d: &str| -> Vec<&String> { all.iter().filter(|f| is_src(f) && f.starts_with(d)).collect() };
        match p.as_str() {
            "." => for f in under("") { wanted.insert(Path::new(".").join(f)); },
            "sub" => for f in under("sub/") { wanted.insert(f.into()); },
            "x y/" => for f in under("x y/") { wanted.insert(f.into()); },
            "sub/../sub/deep" => for f in under("sub/deep/") { wanted.insert(Path::new("sub/../sub/deep").join(&f[9..])); },
            "*.papyri" | "[d]*.papyri" => for f in under("") { if !f.contains('/') && f.ends_with(".papyri") && f != ".papyri" && (p.starts_with('*') || f.starts_with('d')) { wanted.insert(f.into()); } },
            "sub/*.papyri" => for f in under("sub/") { if !f[4..].contains('/') && f.ends_with(".papyri") { wanted.insert(f.into()); } },
            "**/*.papyri" => for f in under("") { if f.ends_with(".papyri") { wanted.insert(f.into()); } },
            "notes.txt" => not_source.push(p.clone()),
            // a directory may not exist
            _ => { wanted.insert(PathBuf::from(&p)); }
        }
        if matches!(p.as_str(), "sub" | "x y/" | "sub/../sub/deep") && !work.join(&p).is_dir() { return Out::Skip("no such directory"); }
    }
    // where the output of a source belongs
    let target = |src: &Path| -> PathBuf {
        let clean: PathBuf = { let mut v: Vec<Component> = vec![]; for c in src.components() { match c { Component::CurDir => {} Component::ParentDir => { v.pop(); } c => v.push(c) } } v.iter().collect() };
        let mut p = match &o.out { Some(d) => Path::new(d).join(clean), None => src.to_path_buf() };
        p.set_extension(ext);
        p
    };
    // output of earlier runs
    for (d, _) in &docs {
        if !r.chance(1, 3) { continue; }
        let p = work.join(target(Path::new(d)));
        if r.chance(1, 25) { std::fs::create_dir_all(&p).unwrap(); continue; }
        if p.is_dir() { continue; }
        let dt = *r.pick(&[Duration::from_secs(10), Duration::from_secs(10), Duration::from_nanos(1), Duration::from_micros(1), Duration::from_millis(1), Duration::from_millis(20), Duration::from_millis(400), Duration::from_millis(999), Duration::from_secs(1), Duration::from_millis(1500), Duration::from_secs(4000)]);
        let age = [base - dt, base, base + dt][r.below(3)];
        // shorter or longer than what replaces it
        let long = if r.chance(1, 2) { 1 } else { 300 };
        put(&p, format!("OLD {d}\n").repeat(long).as_bytes(), Some(age));
    }
    give(root);
    let before = snapshot(root);
    let mtime = |p: &Path| std::fs::metadata(work.join(p)).and_then(|m| m.modified()).ok();
    // the model
    let mut exp: BTreeMap<PathBuf, String> = BTreeMap::new();
    let (mut out, mut err): (Vec<String>, Vec<String>) = (vec![], not_source.iter().map(|p| format!("File \"{p}\" is not a Papyri source file")).collect());
    let (mut ok, mut failed, mut skipped, mut written) = (0, 0, 0, 0);
    let mut aborted: Option<String> = None;
    let mut fresh_out: HashMap<PathBuf, ()> = HashMap::new();
    let show_args = format!("options {:?} {} documents {docs:?} sources {wanted:?}", paths, match &o.out { Some(d) => format!("--out {d:?}"), None => String::new() });
    let outcome = within(work, || -> Result<(), String> {
        for src in &wanted {
            let name = src.display().to_string();
            let t = target(src);
            if name.to_ascii_lowercase().ends_with(".lib.papyri") { out.push(format!("{name} (library, skipping)")); skipped += 1; cx.count("document:library"); continue; }
            if o.unchanged {
                let same = fresh_out.contains_key(&clean(&t)) || matches!((mtime(src), mtime(&t)), (Some(a), Some(b)) if a <= b);
                if same { out.push(format!("{name} (unchanged, skipping)")); skipped += 1; cx.count("document:unchanged"); continue; }
            }
            let a = alone(src, o.out.as_deref().map(Path::new), o.ignore)?;
            if a.failed_to_load { aborted = Some(name.clone()); cx.count("document:cannot be loaded"); return Ok(()); }
            err.extend(a.diags.iter().cloned());
            let mut write: Vec<(PathBuf, String)> = a.outs.iter().map(|(p, h, x)| (p.clone(), if o.text { x.clone() } else { h.clone() })).collect();
            if !a.empty { write.push((t.clone(), if o.text { a.text.clone() } else { a.html.clone() })) }
            if a.errors + a.warnings > 0 { err.push(format!("{name} ({})", a.summary)); cx.count(if a.errors > 0 { "document:failed" } else { "document:warnings" }) } else if write.is_empty() { out.push(format!("{name} (no output, skipping)")); cx.count("document:no output") } else { out.push(format!("{name} (OK)")); cx.count("document:written") }
            if a.errors > 0 { failed += 1; continue; }
            if write.is_empty() { skipped += 1; continue; }
            ok += 1; written += write.len();
            for (p, text) in write {
                if work.join(&p).is_dir() { aborted = Some(p.display().to_string()); cx.count("document:cannot be written"); return Ok(()); }
                out.push(format!("    => {}", p.display()));
                fresh_out.insert(clean(&p), ());
                exp.insert(clean(&work.join(&p)), text);
            }
        }
        Ok(())
    });
    if let Err(e) = outcome { return bad("the compiler failed internally", &show_args, "output or diagnostics", e); }
    let summary = format!("{written} file{} written; {ok} OK, {failed} failed, {skipped} skipped", if written == 1 { "" } else { "s" });
    let fail = failed > 0 || aborted.is_some();
    if aborted.is_none() { if failed > 0 { err.push(summary.clone()) } else { out.push(summary.clone()) } }
    if o.silent { out.clear() }
    // the run
    let args = arg_list(r, &o, &paths);
    let input = format!("papyri {args:?} in a directory with\n{}", before.iter().filter_map(|(p, e)| match e { Ent::File(t) => Some(format!("=== {p}\n{}\n", if t.starts_with(b"OLD ") { format!("({} bytes of earlier output)", t.len()).into() } else { String::from_utf8_lossy(t) })), _ => None }).collect::<String>());
    cx.nontrivial(&input.replace(&root.display().to_string(), "ROOT"));
    for (k, b) in [("-u", o.unchanged), ("-s", o.silent), ("--ignore-warnings", o.ignore), ("-t", o.text), ("--out", o.out.is_some()), ("no sources given", paths.is_empty())] { if b { cx.count(&format!("option:{k}")) } }
    let ran = match papyri(cx, work, &args, None, &[], false) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    cx.count(&format!("exit:{:?}", ran.code));
    if ran.code != Some(fail as i32) { return bad("exit status", &input, format!("{}\n{out:?}\n{err:?}", fail as i32), format!("{ran:?}")); }
    let after = snapshot(root);
    let diff = changes(&before, &after);
    let want: BTreeMap<String, Option<String>> = exp.iter().map(|(p, t)| (p.strip_prefix(root).unwrap().display().to_string(), Some(t.clone()))).filter(|(p, t)| before.get(p) != Some(&Ent::File(t.clone().unwrap().into_bytes()))).collect();
    if diff != want { return bad("files changed by the run differ from those of the documents which compiled", &input, format!("{want:?}"), format!("{diff:?}\n{ran:?}")); }
    cx.add("files compared", want.len() as u64);
    // of several requests for one file, the last is right
    if aborted.is_none() { if let Some((p, t)) = after.iter().find_map(|(p, e)| match e { Ent::File(t) if !p.to_lowercase().ends_with(".papyri") && String::from_utf8_lossy(t).contains("superseded") => Some((p, t)), _ => None }) { return bad("a file has what an earlier request for it gave", &input, "the contents given last", format!("{p}: {}", String::from_utf8_lossy(t))); } }
    if exp.len() < written { cx.count("one file written more than once") }
    let (go, ge) = (lines(&ran.out), lines(&ran.err));
    if let Some(what) = aborted {
        // how a document which cannot be read or written is described is not specified
        if !ge.last().is_some_and(|l| l.contains(&what)) { return bad("a document that cannot be read or written is not named", &input, what, format!("{ge:?}")); }
        return Out::Ok;
    }
    if ge != err { return bad("diagnostics and failures reported by the run", &input, err.join("\n"), ge.join("\n")); }
    if go != out { return bad("what the run says it did", &input, out.join("\n"), go.join("\n")); }
    Out::Ok
}
fn many(r: &mut Rng) -> usize { match r.below(12) { 0..=5 => 1, 6..=9 => 2 + r.below(4), 10 => 6 + r.below(20), _ => 90 + r.below(200) } }
pub fn clean(p: &Path) -> PathBuf { let mut v = PathBuf::new(); for c in p.components() { match c { Component::CurDir => {} Component::ParentDir => { v.pop(); } c => v.push(c) } } v }

/// Standard input, and requests for something else.
pub fn c21_stdin(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2102, idx);
    let r = &mut r;
    let dir = fresh(cx, "c21s-", idx);
    let res = stdin_in(cx, r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
fn stdin_in(cx: &mut Cx, r: &mut Rng, dir: &Path) -> Out {
    let kind = *r.pick(&["good", "empty", "warning", "error", "mixed", "random", "random", "import", "bytes"]);
    let text: Vec<u8> = if kind == "bytes" { let k = r.below(6); (0..k).map(|_| r.below(256) as u8).collect() } else { doc(r, 1, kind, false).into_bytes() };
    std::fs::write(dir.join("shared.papyri"), "@export(v=`shared`).").unwrap();
    std::fs::write(dir.join("doc.papyri"), &text).unwrap();
    give(dir);
    let before = snapshot(dir);
    let (t, ig) = (r.chance(1, 3), r.chance(1, 3));
    let mut args = vec![if r.chance(1, 2) { "-i".to_string() } else { "--stdin".into() }];
    if t { args.push(if r.chance(1, 2) { "-t".into() } else { "--text".into() }) }
    if ig { args.push("--ignore-warnings".into()) }
    if r.chance(1, 5) { args.push("-s".into()) }
    let wrong = r.below(12);
    match wrong { 0 => args.push("doc.papyri".into()), 1 => args.extend(["--out".into(), "out".into()]), 2 => args = vec!["--version".into()], _ => {} }
    r.shuffle(&mut args[..if wrong < 3 { 1 } else { 0 }]);
    let input = format!("papyri {args:?} with standard input {:?}", String::from_utf8_lossy(&text));
    cx.nontrivial(&input);
    let ran = match papyri(cx, dir, &args, Some(&text), &[], false) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    if snapshot(dir) != before { return bad("a run without output files changed files", &input, "no change", format!("{:?}", changes(&before, &snapshot(dir)))); }
    let said = |want: Option<i32>| if ran.code == want { None } else { Some(bad("exit status", &input, format!("{want:?}"), format!("{ran:?}"))) };
    match wrong {
        0 | 1 => { cx.count("stdin:conflicting options"); if let Some(b) = said(Some(1)) { return b; } return if ran.out.is_empty() && ran.err.contains(if wrong == 0 { "--stdin" } else { "--out" }) { Out::Ok } else { bad("conflicting options", &input, "an error naming the option", format!("{ran:?}")) }; }
        2 => { cx.count("stdin:version"); if let Some(b) = said(Some(0)) { return b; } let v = include_str!("/repo/Cargo.toml").lines().find_map(|l| l.strip_prefix("version = ")).unwrap().trim_matches('"'); return if ran.out.trim_end() == format!("Papyri compiler version {v}") && ran.err.is_empty() { Out::Ok } else { bad("version", &input, v, format!("{ran:?}")) }; }
        _ => {}
    }
    let Ok(src) = String::from_utf8(text.clone()) else { cx.count("stdin:not UTF-8"); if let Some(b) = said(Some(1)) { return b; } return if ran.out.is_empty() { Out::Ok } else { bad("input which is not UTF-8", &input, "no output", format!("{ran:?}")) }; };
    // the same text in a file
    let f = match within(dir, || alone(Path::new("doc.papyri"), None, ig)) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &input, "output or diagnostics", e) };
    let _ = src;
    cx.count(&format!("stdin:{}", if f.errors > 0 { "failed" } else if f.warnings > 0 { "warnings" } else { "good" }));
    if let Some(b) = said(Some((f.errors > 0) as i32)) { return b; }
    let want = if f.errors > 0 { String::new() } else if t { f.text.clone() } else { f.html.clone() };
    if ran.out != want { return bad("output for standard input differs from the output for the same file", &input, want, &ran.out); }
    let mut err: Vec<String> = f.diags.iter().map(|l| l.replace("File \"doc.papyri\"", "File \"<stdin>\"")).collect();
    if f.errors > 0 { err.push(f.summary.clone()) }
    if lines(&ran.err) != err { return bad("diagnostics for standard input differ from those for the same file", &input, err.join("\n"), &ran.err); }
    Out::Ok
}

// ---- C20 ----

/// A path a document might ask for.
fn wanted_path(r: &mut Rng, root: &Path) -> String {
    let seg = |r: &mut Rng| r.pick(&["a", "b", "out", "..", "..", ".", "", "...", "c.html", " ", "é", "x y", "-rf", "a\\b", "..a", "a..", "work", "doc.html", "*", "~", "$HOME", "%2e%2e", "CON", "a:b", "`", "\u{202e}x"]).to_string();
    match r.below(10) {
        0 => format!("{}/{}", root.display(), r.pick(&["escaped.html", "work/escaped.html", "work/out/inside.html", "other/escaped.html", "work/outside/x", "work/out-evil/x", "work/out"])),
        1 => format!("{}escaped{}.html", "../".repeat(1 + r.below(5)), r.below(3)),
        2 => format!("a/{}escaped.html", "../".repeat(1 + r.below(4))),
        3 if r.chance(1, 4) => r.pick(&["kept.html", "./kept.html", "a/../kept.html"]).to_string(),
        3 => r.pick(&["/tmp/pvh-escaped.html", "//tmp/pvh-escaped.html", "/", "", ".", "..", "./", "../", "a/..", "./../out/x.html", "../out/y.html", "../out", "../out2/x.html", "../outer/x", "../work/out/z.html", "a/../../out/w.html"]).to_string(),
        _ => { let k = 1 + if r.chance(1, 25) { r.below(40) } else { r.below(5) }; (0..k).map(|_| seg(r)).collect::<Vec<_>>().join("/") }
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Fate { Inside(PathBuf), Outside, Either(PathBuf) }
/// Where a request leads: `out` is the output directory as given, `abs` what it denotes.
fn fate(out: &str, abs: &Path, want: &str) -> Fate {
    let p = clean(&abs.join(want));
    if p == *abs || !p.starts_with(abs) { return Fate::Outside; }
    // a request which leaves the directory and comes back, or is absolute where the option is not, may be refused
    let own = clean(Path::new(&format!("/{out}"))).components().count() as i64 - 1;
    let ups = Path::new(out).components().filter(|c| matches!(c, Component::ParentDir)).count();
    let (mut level, mut low) = (0i64, 0i64);
    for c in Path::new(want).components() { match c { Component::ParentDir => level -= 1, Component::Normal(_) => level += 1, _ => {} } low = low.min(level) }
    let relative_out = !Path::new(out).is_absolute();
    if (Path::new(want).is_absolute() && relative_out) || (relative_out && low < 0 && (-low > own || ups > 0)) { Fate::Either(p) } else { Fate::Inside(p) }
}
pub fn c20(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2001, idx);
    let root = fresh(cx, "c20-", idx);
    let res = c20_in(cx, &mut r, &root);
    let _ = std::fs::remove_dir_all(&root);
    res
}
fn c20_in(cx: &mut Cx, r: &mut Rng, root: &Path) -> Out {
    let work = root.join("work");
    for d in ["work/out", "work/out-evil", "work/outside", "other", "work/sub", "work/a"] { std::fs::create_dir_all(root.join(d)).unwrap() }
    for f in ["escaped.html", "work/escaped.html", "other/escaped.html", "work/precious.html", "work/out/kept.html", "work/a/escaped.html"] { std::fs::write(root.join(f), format!("ORIGINAL {f}\n").repeat(40)).unwrap() }
    let out = match r.below(14) { 0 => "out/".to_string(), 1 => "./out".into(), 2 => "out/.".into(), 3 => "sub/../out".into(), 4 => "../work/out".into(), 5 => root.join("work/out").display().to_string(), 6 => format!("{}/work/sub/../out", root.display()), 7 => ".".into(), 8 => "..".into(), 9 => "deep/er/out".into(), 10 => "out//x".into(), 11 => "./".into(), _ => "out".into() };
    let abs = clean(&work.join(&out));
    let n = if r.chance(1, 20) { 5 + r.below(15) } else { 1 + r.below(3) };
    let mut src = String::new();
    let mut fates: Vec<(String, Fate, String)> = vec![];
    let mut taken: Vec<PathBuf> = vec![];
    let where_doc = *r.pick(&["doc.papyri", "sub/doc.papyri", "./doc.papyri", "sub/../doc.papyri"]);
    let own = abs.join(clean(Path::new(where_doc)).with_extension("html"));
    for k in 0..n {
        let p = wanted_path(r, root);
        let f = fate(&out, &abs, &p);
        if let Fate::Inside(q) | Fate::Either(q) = &f {
            // files which stand in each other's way are another matter
            if taken.iter().any(|t| t.starts_with(q) || q.starts_with(t)) || own.starts_with(q) || q.starts_with(&own) { continue; }
            if root.join("work").starts_with(q) || std::fs::symlink_metadata(q).is_ok_and(|m| m.is_dir()) || q.ancestors().skip(1).any(|a| a.is_file()) { continue; }
            if q.components().any(|c| matches!(c, Component::Normal(x) if x.len() > 200)) { continue; }
            taken.push(q.clone());
        }
        let (body, html) = match r.below(4) { 0 => (format!("<p>content {k}</p>"), H::tag("p", H::text(&format!("content {k}")))), 1 => { let t = rich(r, 5).replace(['\0', '\r'], "?"); if t.trim().is_empty() { ("{plain}".to_string(), H::text("plain")) } else { (format!("@let(t={}) <pre>$t</pre>", lit(&t)), H::tag("pre", H::text(&t))) } } 2 => (format!("text{k}"), H::text(&format!("text{k}"))), _ => ("@bold {x} ".into(), H::tag("strong", H::text("x"))) };
        let body = if body.starts_with("text") { format!("{{{body}}}") } else { body };
        let how = match r.below(3) { 0 => format!("@let(p={}) {{@file::write($p) {body}}}", lit(&p)), 1 => format!("@fn w{k} $h -> @file::write({}) $h\n@w{k} {body}", lit(&p)), _ => format!("@file::write({}) {body}", lit(&p)) };
        src.push_str(&how); src.push('\n');
        fates.push((p, f, html.render()));
    }
    if fates.is_empty() { return Out::Skip("no request"); }
    let text = r.chance(1, 2);
    if text { src.push_str("\n\n<p>own output</p>") }
    std::fs::write(work.join(where_doc), &src).unwrap();
    give(root);
    let before = snapshot(root);
    let args: Vec<String> = match r.below(3) { 0 => vec!["-o".into(), out.clone(), where_doc.into()], 1 => vec![where_doc.into(), "--out".into(), out.clone()], _ => vec!["--out".into(), out.clone(), where_doc.into()] };
    let input = format!("papyri {args:?} in {}\n=== {where_doc}\n{src}", work.display());
    cx.nontrivial(&input.replace(&root.display().to_string(), "ROOT"));
    let guard = Path::new("/tmp/pvh-escaped.html");
    let had = guard.exists();
    let ran = match papyri(cx, &work, &args, None, &[], false) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let after = snapshot(root);
    if !had && guard.exists() { let _ = std::fs::remove_file(guard); return bad("a file was written outside the output directory", &input, "nothing outside the output directory", "/tmp/pvh-escaped.html"); }
    let diff: BTreeMap<PathBuf, Option<String>> = changes(&before, &after).into_iter().map(|(p, t)| (root.join(p), t)).collect();
    let dirs_outside: Vec<&String> = after.iter().filter(|(p, e)| **e == Ent::Dir && !before.contains_key(*p) && !root.join(p).starts_with(&abs) && !abs.starts_with(root.join(p))).map(|p| p.0).collect();
    if let Some(p) = diff.keys().find(|p| !p.starts_with(&abs)) { return bad("a file outside the output directory was written", &input, format!("changes below {} only", abs.display()), format!("{}: {:?}\n{ran:?}", p.display(), diff[p])); }
    if !dirs_outside.is_empty() { return bad("a directory was made outside the output directory", &input, "none", format!("{dirs_outside:?}")); }
    for (_, f, _) in &fates { cx.count(match f { Fate::Inside(_) => "request:inside", Fate::Outside => "request:outside", Fate::Either(_) => "request:may be refused" }) }
    cx.count(&format!("output directory:{}", if Path::new(&out).is_absolute() { "absolute" } else { &out }));
    let outside: Vec<&str> = fates.iter().filter(|f| f.1 == Fate::Outside).map(|f| f.0.as_str()).collect();
    let must_fail = !outside.is_empty();
    let may_fail = must_fail || fates.iter().any(|f| matches!(f.1, Fate::Either(_)));
    if ran.code == Some(1) && may_fail {
        if !diff.is_empty() { return bad("a document with a request outside the output directory left files", &input, "nothing written", format!("{diff:?}")); }
        if let Some(p) = outside.iter().find(|p| !ran.err.contains(**p)) { return bad("a request outside the output directory is not reported", &input, p.to_string(), &ran.err); }
        let count = ran.err.matches("not within output directory").count();
        let (lo, hi) = (outside.len(), fates.iter().filter(|f| !matches!(f.1, Fate::Inside(_))).count());
        if count < lo || count > hi { return bad("number of refused requests", &input, format!("{lo}..={hi}"), &ran.err); }
        return Out::Ok;
    }
    if must_fail || ran.code != Some(0) { return bad(if must_fail { "a request outside the output directory was accepted" } else { "requests inside the output directory were not honoured" }, &input, format!("{fates:?}"), format!("{ran:?}\n{diff:?}")); }
    let mut want: BTreeMap<PathBuf, Option<String>> = fates.iter().map(|(_, f, h)| match f { Fate::Inside(p) | Fate::Either(p) => (p.clone(), Some(h.clone())), _ => unreachable!() }).collect();
    if text { want.insert(own, Some("<p>own output</p>".into())); }
    if diff != want { return bad("files written differ from the requests", &input, format!("{want:?}"), format!("{diff:?}\n{ran:?}")); }
    cx.add("files compared", want.len() as u64);
    Out::Ok
}
/// Sources within and without the working directory.
pub fn c20_sources(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2003, idx);
    let root = fresh(cx, "c20s-", idx);
    let res = sources_in(cx, &mut r, &root);
    let _ = std::fs::remove_dir_all(&root);
    res
}
fn sources_in(cx: &mut Cx, r: &mut Rng, root: &Path) -> Out {
    let work = root.join("work");
    let docs = ["work/1/2/3/4/5/6/7/8/d.papyri", "work/d.papyri", "work/sub/d.papyri", "work/..d/e.papyri", "work2/d.papyri", "other/d.papyri", "other/deep/e.papyri", "wor/d.papyri"];
    for d in docs { let p = root.join(d); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, format!("text of {d}")).unwrap(); if r.chance(1, 3) { std::fs::write(p.with_extension("html"), "OLD").unwrap() } }
    let top = root.display().to_string();
    let mut args: Vec<String> = vec![];
    let mut srcs: BTreeSet<PathBuf> = BTreeSet::new();
    for _ in 0..1 + r.below(3) {
        let d = *r.pick(&docs);
        let a = match r.below(12) {
            0 => top.clone() + "/" + d,
            1 => format!("./sub/../../{d}"),
            2 => format!("{top}/work/../{d}"),
            3 => "..".to_string(),
            4 => format!("../{}", d.split('/').next().unwrap()),
            5 => "../*/d.papyri".into(),
            6 => format!("{top}/*/d.papyri"),
            7 | 8 if d.starts_with("work/") => d[5..].into(),
            9 => format!("sub/../../{d}"),
            10 => format!("../../{}/{d}", root.file_name().unwrap().to_string_lossy()),
            _ => format!("../{d}"),
        };
        let found: Vec<&str> = if a.ends_with("*/d.papyri") { docs.iter().filter(|d| d.matches('/').count() == 1 && d.ends_with("/d.papyri")).copied().collect() } else { let c = clean(&work.join(&a)); docs.iter().filter(|d| root.join(d).starts_with(&c)).copied().collect() };
        srcs.extend(found.iter().map(|d| root.join(d)));
        args.push(a);
    }
    let out = if r.chance(3, 4) { Some(match r.below(8) { 0 => "../work2/out".to_string(), 1 => top.clone() + "/o", 2 => "deep/er".into(), 3 => ".".into(), 4 => "..".into(), 5 => "./out/".into(), _ => "out".into() }) } else { None };
    if let Some(o) = &out { let at = r.below(args.len() + 1); args.splice(at..at, ["--out".to_string(), o.clone()]); }
    let ext = if r.chance(1, 4) { args.push("-t".into()); "txt" } else { "html" };
    let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut refused: Vec<&PathBuf> = vec![];
    for s in &srcs {
        let name = s.strip_prefix(root).unwrap().display().to_string();
        let text = if ext == "txt" { format!("text of {name}\n\n") } else { format!("<p>text of {name}</p>") };
        match (&out, s.strip_prefix(&work)) { (None, _) => { want.insert(s.with_extension(ext), text); } (Some(o), Ok(p)) => { want.insert(clean(&work.join(o)).join(p).with_extension(ext), text); } (Some(_), Err(_)) => refused.push(s) }
    }
    give(root);
    let before = snapshot(root);
    let input = format!("papyri {args:?} in work, below ROOT: {docs:?}").replace(&top, "ROOT");
    cx.nontrivial(&input);
    let ran = match papyri(cx, &work, &args, None, &[], false) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let diff: BTreeMap<PathBuf, Option<String>> = changes(&before, &snapshot(root)).into_iter().map(|(p, t)| (root.join(p), t)).collect();
    cx.count(if !refused.is_empty() { "sources:outside, with an output directory" } else if out.is_some() { "sources:inside, with an output directory" } else { "sources:without an output directory" });
    if let Some(o) = &out { let abs = clean(&work.join(o)); if let Some(p) = diff.keys().find(|p| !p.starts_with(&abs)) { return bad("a file outside the output directory was written", &input, format!("changes below {o} only"), format!("{}: {ran:?}", p.display())); } }
    if let Some((p, t)) = diff.iter().find(|(p, t)| want.get(*p) != t.as_ref()) { return bad("a file written by the run is not the output of a source", &input, format!("{want:?}"), format!("{}: {t:?}\n{ran:?}", p.display())); }
    if ran.code != Some(!refused.is_empty() as i32) { return bad("exit status", &input, format!("{}", !refused.is_empty() as i32), format!("{ran:?}")); }
    if refused.is_empty() {
        for (p, t) in &want { if std::fs::read(p).ok().as_deref() != Some(t.as_bytes()) { return bad("the output of a source was not written", &input, format!("{}: {t}", p.display()), format!("{ran:?}")); } }
        cx.add("files compared", want.len() as u64);
    } else if ran.err.trim().is_empty() { return bad("a source without a place in the output directory is not reported", &input, "a message", format!("{ran:?}")); }
    Out::Ok
}
/// The path resolution itself, through the library.
pub fn c20_paths(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2002, idx);
    let r = &mut r;
    for _ in 0..40 {
        let seg = |r: &mut Rng| *r.pick(&["a", "b", "c", "..", "..", ".", "", "o", "oo", "..a", "a."]);
        let k = r.below(5);
        let out = format!("{}{}", if r.chance(1, 2) { "/" } else { "" }, (0..k).map(|_| seg(r)).collect::<Vec<_>>().join("/"));
        let m = 1 + r.below(6);
        let want = match r.below(6) { 0 if out.starts_with('/') => format!("{out}/{}", (0..m).map(|_| seg(r)).collect::<Vec<_>>().join("/")), 1 => format!("/{}", (0..m).map(|_| seg(r)).collect::<Vec<_>>().join("/")), 2 => { let mut v = vec![".."; k + r.below(2)]; v.extend(Path::new(&out).components().filter_map(|c| match c { Component::Normal(x) => x.to_str(), _ => None })); v.push("x"); v.join("/") } _ => (0..m).map(|_| seg(r)).collect::<Vec<_>>().join("/") };
        // a relative directory is placed deep below a root of unknown names
        let cwd = "/q1/q2/q3/q4/q5/q6/q7/q8/q9";
        let abs = clean(&Path::new(cwd).join(&out));
        let f = fate(&out, &abs, &want);
        let input = format!("output directory {out:?}, request {want:?}");
        cx.nontrivial(&input);
        let got = real::guard(|| { let mut o = papyri_lang::utils::OutFiles::new(Path::new(&out)); let ok = o.try_push(&want, 7); let v: Vec<(PathBuf, i32)> = o.take_iter().collect(); (ok, v) });
        let (ok, v) = match got { Ok(x) => x, Err(e) => return bad("path resolution failed internally", input, "an answer", e) };
        if ok != (v.len() == 1) { return bad("an accepted request is not collected", input, format!("{ok}"), format!("{v:?}")); }
        let place = v.first().map(|p| clean(&Path::new(cwd).join(&p.0)));
        let good = match &f { Fate::Inside(p) => place.as_ref() == Some(p), Fate::Outside => place.is_none(), Fate::Either(p) => place.is_none() || place.as_ref() == Some(p) };
        cx.count(match f { Fate::Inside(_) => "path:inside", Fate::Outside => "path:outside", Fate::Either(_) => "path:may be refused" });
        if !good { return bad("a requested path is resolved wrongly", input, format!("{f:?}"), format!("{place:?}")); }
    }
    Out::Ok
}

// ---- C22 ----

/// One shared context compiles many documents in some order; each must come out as it does alone.
pub fn c22(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2201, idx);
    let r = &mut r;
    let dir = fresh(cx, "c22-", idx);
    let res = c22_in(cx, r, &dir, false);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
/// Several contexts at once, in threads of their own or by turns in one thread.
pub fn c22_threads(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2203, idx);
    let r = &mut r;
    let dir = fresh(cx, "c22t-", idx);
    let res = c22_in(cx, r, &dir, true);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
/// Each list of documents, compiled by a thread of its own with one context; the threads start together.
fn c22_parallel(lists: &[Vec<PathBuf>], out: &Path) -> Result<Vec<Vec<Alone>>, String> {
    let gate = std::sync::Barrier::new(lists.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = lists.iter().map(|l| {
            let gate = &gate;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                gate.wait();
                real::guard(|| -> Result<Vec<Alone>, String> {
                    let mut ctx = Context::new(ReportingLevel::Warning, Some(out), None);
                    l.iter().map(|p| { ctx.reset(); match ctx.load_uncached(p) { Ok(res) => take(&mut ctx, &res.out), Err(_) => Ok(Alone { failed_to_load: true, ..Alone::default() }) } }).collect()
                }).and_then(|x| x)
            }).expect("a thread")
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread ended".into()))).collect()
    })
}
/// The same with one thread: the contexts take turns.
fn c22_turns(lists: &[Vec<PathBuf>], out: &Path) -> Result<Vec<Vec<Alone>>, String> {
    real::guard(|| -> Result<Vec<Vec<Alone>>, String> {
        let mut ctxs: Vec<Context> = lists.iter().map(|_| Context::new(ReportingLevel::Warning, Some(out), None)).collect();
        let mut res: Vec<Vec<Alone>> = vec![vec![]; lists.len()];
        for k in 0..lists.iter().map(|l| l.len()).max().unwrap_or(0) {
            // all have compiled before the first is asked for its output
            let mut outs = vec![];
            for (i, l) in lists.iter().enumerate() { if let Some(p) = l.get(k) { ctxs[i].reset(); outs.push((i, ctxs[i].load_uncached(p).ok())) } }
            for (i, o) in outs { let a = match o { Some(o) => take(&mut ctxs[i], &o.out)?, None => Alone { failed_to_load: true, ..Alone::default() } }; res[i].push(a) }
        }
        Ok(res)
    }).and_then(|x| x)
}
fn extra_docs(r: &mut Rng, dir: &Path) -> Vec<String> {
    let mut out = vec![];
    for k in 0..if r.chance(1, 25) { 10 + r.below(15) } else { 2 + r.below(4) } {
        let t = match r.below(9) {
            0 => "@let(a=@str::unique_id `x`, b=@str::unique_id `x`) {$a $b}".to_string(),
            1 => "$undefined @str::unique_id `x`".into(),
            2 => "<p>@file::write(`o.html`) <b>o</b></p> $bad".into(),
            3 => format!("@file::write(`o{k}.html`) <b>o</b>"),
            4 => "@fn f $x -> $x\n@fn f $x -> $x\n@f {w} @str::unique_id `x`".into(),
            5 => "@implicit(language=`papyri`) {`code @x` @code_block `(a\n[b`}".into(),
            6 => format!("@export(e{k}=1). @fn bold $x -> <u>$x</u> @bold {{x}}"),
            _ => { let hostile = r.chance(1, 3); program(r, Prof { fault: if hostile { 60 } else { 3 }, budget: 40, ..prof(&["tag"]) }) + "\n\n@str::unique_id `x` @str::unique_id `é y`" }
        };
        let n = format!("extra{k}.papyri");
        std::fs::write(dir.join(&n), t).unwrap();
        out.push(format!("/{n}"));
    }
    out
}
fn eq(a: &Alone, b: &Alone) -> Option<&'static str> {
    if a.failed_to_load != b.failed_to_load { Some("whether the document loads") } else if a.html != b.html { Some("output") } else if a.text != b.text { Some("text output") } else if a.named != b.named || a.summary != b.summary { Some("diagnostics") } else if a.outs != b.outs { Some("files written") } else { None }
}
fn c22_in(cx: &mut Cx, r: &mut Rng, dir: &Path, parallel: bool) -> Out {
    let shape = r.below(3) as u32;
    let b = p_mod::build(r, dir.to_str().unwrap(), shape);
    let w = b.world.clone();
    p_mod::place(&w, dir).unwrap();
    let mut docs: Vec<String> = w.order.clone();
    docs.extend(extra_docs(r, dir));
    if r.chance(1, 4) { docs.extend(w.files.iter().filter(|f| matches!(f.1, WFile::Bad)).map(|f| f.0.clone())) }
    let text = format!("documents {docs:?}\n{}{}", p_mod::show(&w), docs.iter().filter(|d| d.starts_with("/extra")).map(|d| format!("=== {d}\n{}\n", std::fs::read_to_string(dir.join(&d[1..])).unwrap_or_default())).collect::<String>());
    cx.nontrivial(&text.replace(w.root.as_str(), "ROOT"));
    real::dump(&text);
    let at = |d: &str| dir.join(d.trim_start_matches('/'));
    let out = Path::new("out");
    let mut base: HashMap<String, Alone> = HashMap::new();
    for d in &docs {
        match alone(&at(d), Some(out), false) { Ok(a) => { cx.count(if a.errors > 0 { "alone:failed" } else { "alone:succeeded" }); base.insert(d.clone(), a); } Err(e) => return bad("the compiler failed internally", &text, "output or diagnostics", e) }
    }
    if parallel {
        for threads in [true, false] {
            let lists: Vec<Vec<String>> = (0..2 + r.below(3)).map(|_| (0..1 + r.below(docs.len() + 1)).map(|_| docs[r.below(docs.len())].clone()).collect()).collect();
            let paths: Vec<Vec<PathBuf>> = lists.iter().map(|l| l.iter().map(|d| at(d)).collect()).collect();
            let res = match if threads { c22_parallel(&paths, out) } else { c22_turns(&paths, out) } { Ok(x) => x, Err(e) => return bad("the compiler failed internally with several contexts", &text, "output or diagnostics", e) };
            for (l, got) in lists.iter().zip(&res) {
                if l.len() != got.len() { return bad("documents are missing", &text, format!("{l:?}"), format!("{got:?}")); }
                for (d, a) in l.iter().zip(got) {
                    cx.count(if threads { "documents compiled in threads" } else { "documents compiled by turns" });
                    if let Some(what) = eq(&base[d], a) { return bad(format!("{d} with several contexts {lists:?} ({}): {what} differ from those of the document alone", if threads { "threads" } else { "by turns" }), &text, format!("{:?}", base[d]), format!("{a:?}")); }
                }
            }
        }
        return Out::Ok;
    }
    // twice the same
    let d = docs[r.below(docs.len())].clone();
    match alone(&at(&d), Some(out), false) { Ok(a) => if let Some(what) = eq(&base[&d], &a) { return bad(format!("compiling {d} twice gives different {what}"), &text, format!("{:?}", base[&d]), format!("{a:?}")); }, Err(e) => return bad("the compiler failed internally", &text, "output or diagnostics", e) }
    for _ in 0..2 {
        let n = docs.len() + r.below(4);
        let order: Vec<String> = (0..n).map(|_| docs[r.below(docs.len())].clone()).collect();
        let res = real::guard(|| -> Result<Option<Out>, String> {
            let mut ctx = Context::new(ReportingLevel::Warning, Some(out), None);
            for (k, d) in order.iter().enumerate() {
                ctx.reset();
                let a = match ctx.load_uncached(&at(d)) { Ok(res) => take(&mut ctx, &res.out)?, Err(_) => Alone { failed_to_load: true, ..Alone::default() } };
                if let Some(what) = eq(&base[d], &a) {
                    let kept: Vec<&String> = order[..=k].iter().collect();
                    return Ok(Some(bad(format!("{d} after {:?}: {what} differ from those of the document alone", &kept[..k]), &text, format!("{:?}", base[d]), format!("{a:?}"))));
                }
            }
            Ok(None)
        });
        match res { Ok(Ok(None)) => {} Ok(Ok(Some(b))) => return b, Ok(Err(e)) | Err(e) => return bad("the compiler failed internally in a batch", &text, "output or diagnostics", e) }
        cx.add("documents compiled in batches", n as u64);
        cx.add("successions of two documents", (n - 1) as u64);
    }
    Out::Ok
}
/// The command line program, on a batch and on each document alone.
pub fn c22_cli(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2202, idx);
    let r = &mut r;
    let dir = fresh(cx, "c22c-", idx);
    let res = c22_cli_in(cx, r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
fn c22_cli_in(cx: &mut Cx, r: &mut Rng, dir: &Path) -> Out {
    let shape = r.below(3) as u32;
    let src = dir.join("src");
    std::fs::create_dir_all(&src).unwrap();
    let src = std::fs::canonicalize(src).unwrap();
    let b = p_mod::build(r, src.to_str().unwrap(), shape);
    let w = b.world.clone();
    if w.files.values().any(|f| matches!(f, WFile::Bad)) { return Out::Skip("a document which cannot be read"); }
    p_mod::place(&w, &src).unwrap();
    let mut docs: Vec<String> = w.order.clone();
    docs.extend(extra_docs(r, &src));
    let docs: Vec<String> = docs.into_iter().map(|d| d[1..].to_string()).map(|d| if d.starts_with('-') { format!("./{d}") } else { d }).collect();
    let text = format!("documents {docs:?}\n{}", snapshot(&src).iter().filter_map(|(p, e)| match e { Ent::File(t) => Some(format!("=== {p}\n{}\n", String::from_utf8_lossy(t))), _ => None }).collect::<String>());
    cx.nontrivial(&text.replace(w.root.as_str(), "ROOT"));
    give(dir);
    for o in ["one", "all", "again"] { std::fs::create_dir_all(dir.join(o)).unwrap(); }
    give(dir);
    let opts = |o: &str, docs: &[String]| -> Vec<String> { let mut v = vec!["-o".to_string(), dir.join(o).display().to_string()]; v.extend(docs.iter().cloned()); v };
    // two documents may write the same file: the later one is right; so each alone goes to a directory of its own
    let mut files: BTreeMap<String, Vec<Ent>> = BTreeMap::new();
    let (mut errs, mut fails) = (HashMap::new(), 0);
    for (k, d) in docs.iter().enumerate() {
        let o = format!("one/{k}");
        std::fs::create_dir_all(dir.join(&o)).unwrap();
        give(&dir.join(&o));
        let ran = match papyri(cx, &src, &opts(&o, &[d.clone()]), None, &[], false) { Ok(x) => x, Err(e) => return bad(e, &text, "an end", "none") };
        if !matches!(ran.code, Some(0 | 1)) { return bad("the program failed", &text, "an exit status of 0 or 1", format!("{ran:?}")); }
        fails += (ran.code == Some(1)) as u32;
        let mut e = lines(&ran.err);
        if ran.code == Some(1) { e.pop(); }
        errs.insert(d.clone(), e.iter().map(|l| plain(l, &src)).collect::<Vec<_>>());
        for (p, e) in snapshot(&dir.join(&o)) { if matches!(e, Ent::File(_)) { files.entry(p).or_default().push(e) } }
    }
    let mut order = docs.clone();
    let mut runs = vec![];
    for o in ["all", "again"] {
        r.shuffle(&mut order);
        let ran = match papyri(cx, &src, &opts(o, &order), None, &[], false) { Ok(x) => x, Err(e) => return bad(e, &text, "an end", "none") };
        let got: BTreeMap<String, Ent> = snapshot(&dir.join(o)).into_iter().filter(|e| matches!(e.1, Ent::File(_))).collect();
        if ran.code != Some((fails > 0) as i32) { return bad("exit status of a batch", &text, format!("{}", (fails > 0) as i32), format!("{ran:?}")); }
        let keys = |m: &BTreeMap<String, Ent>| m.keys().cloned().collect::<Vec<_>>();
        if keys(&got) != files.keys().cloned().collect::<Vec<_>>() { return bad("files written by a batch differ from those of its documents", &text, format!("{:?}", files.keys()), format!("{:?}\n{ran:?}", keys(&got))); }
        for (p, e) in &got { if !files[p].contains(e) { return bad(format!("{p} in a batch differs from the document alone"), &text, format!("{:?}", files[p]), format!("{e:?}")); } }
        // the diagnostics of the documents, one after the other
        let mut rest = lines(&ran.err);
        if ran.code == Some(1) { rest.pop(); }
        let mut sorted: Vec<PathBuf> = docs.iter().map(PathBuf::from).collect();
        sorted.sort();
        let want: Vec<String> = sorted.iter().flat_map(|d| errs[&d.display().to_string()].clone()).collect();
        let rest: Vec<String> = rest.iter().map(|l| plain(l, &src)).collect();
        if rest != want { return bad("diagnostics of a batch differ from those of its documents", &text, want.join("\n"), rest.join("\n")); }
        runs.push(got);
        cx.add("files compared", files.len() as u64);
    }
    if runs[0] != runs[1] { return bad("two runs of a batch differ", &text, format!("{:?}", runs[0]), format!("{:?}", runs[1])); }
    cx.count("batches");
    Out::Ok
}
