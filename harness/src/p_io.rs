//! C23: no file and no network access. The kernel reports every call for a
//! file or a socket made by the thread which compiles, and a listening socket
//! counts whoever connects.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use crate::gen::*;
use crate::p_cli::{self, papyri, program};
use crate::p_html::lit;
use crate::p_mod::fresh;
use crate::real;
use crate::rng::Rng;
use crate::run::*;
use crate::syscalls;

const MARK: &str = "m4rk3r-c0ntent";

/// A server on the loopback interface which counts connections and serves fixed pages.
pub struct Server { pub port: u16, pub seen: Arc<AtomicU64>, pub pages: Arc<Mutex<HashMap<String, Vec<u8>>>>, pub asked: Arc<Mutex<Vec<String>>> }
impl Server {
    pub fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("a loopback socket");
        let s = Server { port: l.local_addr().unwrap().port(), seen: Arc::default(), pages: Arc::default(), asked: Arc::default() };
        let (seen, pages, asked) = (s.seen.clone(), s.pages.clone(), s.asked.clone());
        std::thread::spawn(move || for c in l.incoming() {
            let Ok(mut c) = c else { continue };
            seen.fetch_add(1, SeqCst);
            let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(10)));
            let mut req = vec![];
            let mut b = [0; 4096];
            while !req.windows(4).any(|w| w == b"\r\n\r\n") { match c.read(&mut b) { Ok(n) if n > 0 => req.extend(&b[..n]), _ => break } }
            let req = String::from_utf8_lossy(&req).to_string();
            let path = req.split(' ').nth(1).unwrap_or("").to_string();
            asked.lock().unwrap().push(path.clone());
            if path == "/closed" { continue; }
            if path == "/short" { let _ = c.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc"); continue; }
            let page = pages.lock().unwrap().get(&path).cloned().unwrap_or_else(|| MARK.into());
            let _ = c.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: text/html; charset=utf-8\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", page.len()).as_bytes());
            let _ = c.write_all(&page);
        });
        s
    }
}
thread_local! { static SERVER: std::cell::OnceCell<Server> = const { std::cell::OnceCell::new() }; }
fn server<X>(f: impl FnOnce(&Server) -> X) -> X { SERVER.with(|s| f(s.get_or_init(Server::start))) }

/// One request in some syntactic surroundings.
pub struct Req { pub src: String, pub op: &'static str, pub path: String, pub exists: bool }
fn wrap(r: &mut Rng, op: &str, path: &str, k: usize, form: usize) -> String {
    let (l, m) = (lit(path), lit("other"));
    let call = |arg: &str| if op == "file::write" { if r_even(k) { format!("@file::write({arg}) <b>w</b>") } else { format!("@file::write({arg}) `w`") } } else { format!("@{op} {arg}") };
    let var = op.replace('@', "");
    let one = if op == "file::write" { "<i>v</i>".to_string() } else { l.clone() };
    let _ = r;
    match form {
        0 => call(&l),
        1 => format!("@let(x={}) {{$x}}", call(&l)),
        2 => format!("@fn g{k} . -> {}\n@g{k} .", call(&l)),
        3 => format!("@fn g{k} $p -> {}\n@g{k} {l}", call("$p")),
        4 if op != "file::write" => format!("@list::map(${var}) [{l}]"),
        5 if op != "file::write" => format!("@function::call(${var}) {l}"),
        6 => format!("@let(f=${var}) {{@f{} {one}}}", if op == "file::write" { format!("({l})") } else { String::new() }),
        7 if op.contains("::") => { let (d, f) = op.split_once("::").unwrap(); format!("@match ${d} {{({f}=$r, **$q) -> @r{} {one}, _ -> no}}", if op == "file::write" { format!("({l})") } else { String::new() }) }
        8 if op != "file::write" => format!("@list::sorted(key=${var}) [{l}, {m}]"),
        9 if op != "file::write" => format!("@list::filter(${var}) [{l}]"),
        10 => format!("@match 1 {{1 -> {}, _ -> no}}", call(&l)),
        11 => if op == "file::write" { format!("@let(b=@function::bind($file::write, {l}).) {{@b <b>x</b>}}") } else { format!("@let(b=@function::bind(${var}).) {{@b {l}}}") },
        12 => format!("<p>{}</p>", call(&l)),
        13 => format!("@let(f=@fn($k?={}) . -> $k) {{@f .}}", call(&l)),
        14 => format!("@dict::new(a={}) .", call(&l)),
        15 => format!("@export(e{k}={}).", call(&l)),
        16 => format!("<ul><li>@bold {{a {} b}}</li></ul>", call(&l)),
        17 => format!("@let(h=$html::parse, f=@fn $p -> {}) {{@f {l}}}", call("$p")),
        18 => format!("@implicit(language={}) {{y}}", call(&l)),
        _ => format!("text before {} and after", call(&l)),
    }
}
fn r_even(k: usize) -> bool { k % 2 == 0 }
const OPS: &[&str] = &["import", "include", "file::read", "file::list", "file::write", "net::fetch_raw", "net::fetch_html"];
const NAMES: &[&str] = &["request:@import", "request:@include", "request:@file::read", "request:@file::list", "request:@file::write", "request:@net::fetch_raw", "request:@net::fetch_html"];

fn place(dir: &Path) {
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    for n in ["mark.papyri", "sub/mark.papyri", "mark", "mark.txt", "<string>", "<string>.papyri", "é 日.papyri", "page.html"] {
        let t = if n.ends_with(".papyri") { format!("@export(v=`{MARK}`). {MARK}") } else { format!("<!DOCTYPE html><html><head></head><body>{MARK}</body></html>") };
        std::fs::write(dir.join(n), t).unwrap();
    }
}
/// A path or address and whether there is something at it.
fn target(r: &mut Rng, op: &str, dir: &Path, port: u16) -> (String, bool) {
    let d = dir.display();
    if op.starts_with("net") {
        return match r.below(9) { 0 => (format!("http://localhost:{port}/{}", r.below(9)), true), 1 => (format!("http://[::1]:{port}/"), false), 2 => (format!("https://127.0.0.1:{port}/"), true), 3 => (format!("file://{d}/mark"), true), 4 => (format!("{d}/mark"), true), 5 => ("".into(), false), 6 => (format!("http://user:pw@127.0.0.1:{port}/a?b#c"), true), 7 => ("data:text/plain,abc".into(), false), _ => (format!("http://127.0.0.1:{port}/page{}", r.below(100)), true) };
    }
    let base = match op { "file::list" => ["sub", ".", "sub/", "./sub", "../c23"][r.below(5)], "file::write" => ["out.html", "mark", "sub/new.html", "./x/y.html"][r.below(4)], "file::read" => ["mark", "mark.txt", "sub/../mark", "<string>", "é 日.papyri", "sub/mark.papyri"][r.below(6)], _ => ["mark", "mark.papyri", "sub/mark", "./sub/../mark", "é 日", "<string>", "sub//mark.papyri"][r.below(7)] };
    match r.below(10) {
        0..=2 => (base.to_string(), base != "../c23"),
        3..=4 => (format!("{d}/{base}"), base != "../c23"),
        5 => (["nothing", "missing.papyri", "sub/none", "../none", "no dir/x", "", " "][r.below(7)].to_string(), false),
        6 => (format!("{d}/none{}", r.below(100)), false),
        7 => (["/etc/hostname", "/", "/proc/self/status", "/dev/null", "..", "/root", "//etc/passwd", "/proc/self/environ"][r.below(8)].to_string(), true),
        8 => (["~/x", "\u{0}", "a\u{0}b", "CON", "<stdlib>", "std.papyri", "C:\\x", "sub\\mark", "file:///etc/hostname"][r.below(9)].to_string(), false),
        _ => (format!("{}{d}/mark", "../".repeat(1 + r.below(40))), false),
    }
}
struct One { ok: Result<String, String>, errors: u32, warnings: u32, calls: u64, last: i64 }
/// Compiles each source through the embedding function in a thread whose calls for files and sockets are refused and counted.
fn watched(srcs: Vec<String>) -> Result<Vec<One>, String> {
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || -> Result<Vec<One>, String> {
        // anything set up lazily and once is set up before
        let _ = real::guard(|| papyri_lang::compile_str("@code_block(language=`papyri`) `x` @str::replace(/a/, `b`) `c` $nope"));
        syscalls::watch_thread().map_err(|e| format!("no filter: {e}"))?;
        // the filter is there: this call must be refused
        let n = syscalls::CAUGHT.load(SeqCst);
        let r = std::fs::metadata("/");
        if r.is_ok() || syscalls::CAUGHT.load(SeqCst) == n { return Err("the filter does not work".into()); }
        let mut out = vec![];
        for s in srcs {
            let n = syscalls::CAUGHT.load(SeqCst);
            let res = real::guard(|| match papyri_lang::compile_str(&s) { Ok(t) => (Ok(t), 0, 0), Err(d) => { let (e, w) = (d.num_errors, d.num_warnings); (Err(format!("{d:?}")), e, w) } });
            let calls = syscalls::CAUGHT.load(SeqCst) - n;
            let last = syscalls::LAST.load(SeqCst);
            match res { Ok((ok, errors, warnings)) => out.push(One { ok, errors, warnings, calls, last }), Err(e) => return Err(format!("PANIC {e}\n{s}")) }
        }
        Ok(out)
    }).map_err(|e| e.to_string())?;
    h.join().unwrap_or_else(|_| Err("the thread panicked".into()))
}
pub fn c23(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2301, idx);
    let r = &mut r;
    let dir = fresh(cx, "c23-", idx);
    let dir = { let d = dir.join("c23"); std::fs::create_dir_all(&d).unwrap(); std::fs::canonicalize(d).unwrap() };
    place(&dir);
    let before = p_cli::snapshot(&dir);
    let (port, seen) = server(|s| (s.port, s.seen.load(SeqCst)));
    let mut progs: Vec<(String, Vec<Req>)> = vec![];
    for _ in 0..6 {
        let n = 1 + r.below(5);
        let mut reqs: Vec<Req> = vec![];
        let mut src = String::new();
        for k in 0..n {
            let i = r.below(OPS.len());
            let (path, exists) = target(r, OPS[i], &dir, port);
            let form = r.below(20);
            let text = wrap(r, OPS[i], &path, k, form);
            cx.count(NAMES[i]);
            cx.count(if exists { "path:existing" } else { "path:missing" });
            cx.count(&format!("form:{form}"));
            if r.chance(1, 3) { src.push_str(r.pick(&["plain text", "<p>a *b*</p>", "@bold {x}", "@let(a=@str::unique_id `x`) {$a}", "```papyri\n@f\n```", "<!-- c -->", "@html::parse `<!DOCTYPE html><p>x`", "@str::upper `é`"])); src.push_str("\n\n") }
            src.push_str(&text);
            src.push_str("\n\n");
            reqs.push(Req { src: text, op: OPS[i], path, exists });
        }
        cx.nontrivial(&src.replace(&dir.display().to_string(), "DIR").replace(&port.to_string(), "PORT"));
        progs.push((src, reqs));
    }
    let srcs: Vec<String> = progs.iter().map(|p| p.0.clone()).collect();
    real::dump(&srcs.join("\n-----\n"));
    let res = p_cli::within(&dir, || watched(srcs.clone()));
    let all = srcs.join("\n-----\n");
    let res = match res { Ok(x) => x, Err(e) if e.starts_with("PANIC") => return bad("the compiler failed internally", all, "diagnostics", e), Err(_) => return Out::Skip("no system call filter") };
    cx.count("filter: works");
    for (one, (src, reqs)) in res.iter().zip(&progs) {
        cx.count("calls watched");
        if one.calls != 0 { return bad("compiling a string made a system call for a file or a socket", src, "none", format!("{} calls, the last with number {}", one.calls, one.last)); }
        let d = match &one.ok { Err(d) => d, Ok(t) => return bad("a program with requests for files or the network compiled", src, "an error for every request", t) };
        if d.contains(MARK) { return bad("the content of a file is shown", src, "errors", d); }
        // one error for each request, at one of its lines
        let n = d.matches("Runtime error: ").count();
        if one.errors as usize != reqs.len() || n != reqs.len() { return bad("not exactly one run-time error for each request for a file or the network", src, format!("{} errors", reqs.len()), d); }
        // what an error says depends on the operation and its path, not on what is there
        let mut msgs = d.lines().filter(|l| l.starts_with("Runtime error: "));
        for q in reqs {
            if q.path.len() < 4 || q.path.contains(|c: char| c.is_control()) { msgs.next(); continue; }
            let m = msgs.next().unwrap_or("").replace(&format!("{:?}", q.path), "PATH").replace(&q.path, "PATH");
            let known = cx.counts.keys().find(|k| k.starts_with(&format!("message:{}:", q.op))).cloned();
            let k = format!("message:{}: {m}", q.op);
            if known.as_ref().is_some_and(|o| *o != k) { return bad("the error depends on what is at the path", src, known.unwrap(), k); }
            cx.count(&k);
        }
    }
    let after = p_cli::snapshot(&dir);
    let now = server(|s| s.seen.load(SeqCst));
    let _ = std::fs::remove_dir_all(dir.parent().unwrap());
    if before != after { return bad("compiling a string changed files", all, "no change", format!("{:?}", p_cli::changes(&before, &after))); }
    if now != seen { return bad("compiling a string connected to the network", all, "no connection", format!("{} connections", now - seen)); }
    cx.count("no connection");
    Out::Ok
}
/// Programs without any request make no such call either, and come out as with file access enabled.
pub fn c23_quiet(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2302, idx);
    let r = &mut r;
    let mut srcs = vec![];
    for _ in 0..4 {
        let hot = r.chance(1, 3);
        let s = match r.below(5) {
            0 => crate::p_front::soup(r, 60),
            1 => { let langs = ["papyri", "python", "rust", "none", "html", "nolang"]; format!("@code_block(language=`{}`, first_line_no={}) `{}`\n\n```{}\nfn main() {{\n}}\n```", r.pick(&langs), r.range(1, 90), "let x = \"a\" // b\n  y".replace('`', ""), r.pick(&langs)) }
            _ => program(r, Prof { fault: if hot { 60 } else { 3 }, budget: 60, ..prof(&["tag"]) }),
        };
        cx.nontrivial(&s);
        srcs.push(s);
    }
    let all = srcs.join("\n-----\n");
    real::dump(&all);
    let res = match watched(srcs.clone()) { Ok(x) => x, Err(e) if e.starts_with("PANIC") => return bad("the compiler failed internally", all, "output or diagnostics", e), Err(_) => return Out::Skip("no system call filter") };
    for (one, src) in res.iter().zip(&srcs) {
        cx.count("calls watched");
        if one.calls != 0 { return bad("compiling a string made a system call for a file or a socket", src, "none", format!("{} calls, the last with number {}", one.calls, one.last)); }
        let real = match real::compile(src) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", src, "output or diagnostics", e) };
        let same = match &one.ok { Ok(t) => real.errors + real.warnings == 0 && *t == real.html, Err(_) => (one.errors, one.warnings) == (real.errors, real.warnings) };
        if !same { return bad("the embedding function and a compilation context disagree", src, format!("{real:?}"), format!("{:?}", one.ok)); }
        cx.count(if one.ok.is_ok() { "embedded:succeeded" } else { "embedded:failed" });
    }
    Out::Ok
}
/// The program does not contact the network unless asked to: making an Internet socket ends it.
pub fn c23_cli(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2303, idx);
    let r = &mut r;
    let root = fresh(cx, "c23n-", idx);
    let dir = root.join("work");
    std::fs::create_dir_all(&dir).unwrap();
    place(&dir);
    let (port, seen) = server(|s| (s.port, s.seen.load(SeqCst)));
    let n = 1 + r.below(4);
    let mut src = String::new();
    for k in 0..n {
        let op = if r.chance(1, 2) { "net::fetch_raw" } else { "net::fetch_html" };
        let (path, _) = target(r, op, &dir, port);
        let f = r.below(20);
        src.push_str(&wrap(r, op, &path, k, f));
        src.push_str("\n\n");
    }
    let module = r.chance(1, 4);
    std::fs::write(dir.join("doc.papyri"), if module { "@include `inner`" } else { &src }).unwrap();
    if module { std::fs::write(dir.join("inner.papyri"), &src).unwrap(); }
    p_cli::give(&root);
    let stdin = !module && r.chance(1, 3);
    let mut args: Vec<String> = vec![];
    if stdin { args.push("-i".into()) } else { if r.chance(1, 2) { args.extend(["-o".to_string(), "out".into()]) } args.push("doc.papyri".into()) }
    if r.chance(1, 4) { args.insert(0, ["-t", "-s", "--ignore-warnings"][r.below(3)].into()) }
    let input = format!("papyri {args:?} on\n{src}");
    cx.nontrivial(&input.replace(&port.to_string(), "PORT").replace(&root.display().to_string(), "ROOT"));
    let url = format!("http://127.0.0.1:{port}");
    let env: Vec<(&str, &str)> = if r.chance(1, 3) { vec![("http_proxy", &url), ("HTTP_PROXY", &url), ("ALL_PROXY", &url)] } else { vec![] };
    let ran = match papyri(cx, &dir, &args, stdin.then_some(src.as_bytes()), &env, true) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let _ = std::fs::remove_dir_all(&root);
    let now = server(|s| s.seen.load(SeqCst));
    if ran.signal.is_some() || ran.code != Some(1) { return bad("a program run without --allow-http reached for the network or accepted a request", &input, "exit status 1", format!("{ran:?}")); }
    if now != seen { return bad("a connection was made without --allow-http", &input, "none", format!("{ran:?}")); }
    if ran.err.matches("network access is not enabled").count() != n && ran.err.matches("Runtime error: ").count() != n { return bad("not exactly one run-time error for each request", &input, n.to_string(), ran.err); }
    if ran.err.contains(MARK) || ran.out.contains(MARK) { return bad("fetched content is shown", &input, "errors", format!("{ran:?}")); }
    cx.count("no connection");
    cx.add("requests without --allow-http", n as u64);
    Out::Ok
}
/// With --allow-http what is fetched is what the server sent, and nothing else is asked for.
pub fn c23_http(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(2304, idx);
    let r = &mut r;
    let root = fresh(cx, "c23h-", idx);
    let dir: PathBuf = root.join("work");
    std::fs::create_dir_all(&dir).unwrap();
    let port = server(|s| { s.asked.lock().unwrap().clear(); s.pages.lock().unwrap().clear(); s.port });
    let (mut src, mut local, mut asked) = (String::new(), String::new(), vec![]);
    let mut fails = 0;
    for k in 0..r.below(4) {
        let path = format!("/p{k}");
        let url = format!("http://127.0.0.1:{port}{path}");
        let text = match r.below(4) { 0 => crate::p_html::evil(r), 1 => r.pick(WORDS).to_string(), 2 => "".into(), _ => format!("<!DOCTYPE html>\n<html><head><title>t {k}</title></head><body><p class=\"a\">x &amp; é <b>y</b></p></body></html>") };
        let text: String = text.chars().filter(|c| !matches!(c, '\0' | '\r' | '\u{feff}')).collect();
        server(|s| s.pages.lock().unwrap().insert(path.clone(), text.clone().into_bytes()));
        match r.below(6) {
            0 => { src.push_str(&format!("@net::fetch_raw {}\n\n", lit(&format!("http://127.0.0.1:{port}/closed")))); fails += 1; asked.push("/closed".to_string()); }
            1 => { src.push_str(&format!("@net::fetch_raw {}\n\n", lit(*r.pick(&["", "nothing", "ftp://127.0.0.1/", "http://", "http://127.0.0.1:1/x"])))); fails += 1; }
            2 | 3 => { src.push_str(&format!("<pre>@net::fetch_html {}</pre>\n\n", lit(&url))); local.push_str(&format!("<pre>@html::parse {}</pre>\n\n", lit(&text))); asked.push(path) }
            _ => { src.push_str(&format!("<pre>@net::fetch_raw {}</pre>\n\n", lit(&url))); local.push_str(&format!("<pre>@match {} {{$x -> $x}}</pre>\n\n", lit(&text))); asked.push(path) }
        }
    }
    std::fs::write(dir.join("doc.papyri"), &src).unwrap();
    p_cli::give(&root);
    let input = format!("papyri --allow-http on\n{src}");
    cx.nontrivial(&input.replace(&port.to_string(), "PORT"));
    let ran = match papyri(cx, &dir, &["--allow-http".into(), "-i".into()], Some(src.as_bytes()), &[], false) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let _ = std::fs::remove_dir_all(&root);
    let got: Vec<String> = server(|s| s.asked.lock().unwrap().clone());
    let (mut a, mut b) = (got.clone(), asked.clone());
    // a client may repeat a request whose connection was closed
    a.dedup(); b.dedup();
    a.retain(|p| p != "/closed"); b.retain(|p| p != "/closed");
    if a != b { return bad("what was asked of the server", &input, format!("{asked:?}"), format!("{got:?}")); }
    if fails > 0 {
        if ran.code != Some(1) || ran.err.matches("Runtime error: ").count() < fails { return bad("a failed fetch is not reported", &input, format!("{fails} run-time errors"), format!("{ran:?}")); }
        cx.add("failed fetches", fails as u64);
        return Out::Ok;
    }
    // the same texts compiled without the network
    let own = match real::compile(&local) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &local, "output or diagnostics", e) };
    if (ran.code == Some(0)) != (own.errors == 0) { return bad("fetching and parsing differ in success", format!("{input}\n=== locally\n{local}"), format!("{own:?}"), format!("{ran:?}")); }
    if own.errors == 0 && ran.out.trim_end_matches('\n') != own.html.trim_end_matches('\n') { return bad("what was fetched is not what the server sent", format!("{input}\n=== locally\n{local}"), own.html, ran.out); }
    cx.add("fetched", asked.len() as u64);
    Out::Ok
}
