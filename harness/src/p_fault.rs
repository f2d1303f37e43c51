//! Phases which run the command line program where something cannot be read
//! or written: full devices, size limits, missing permissions, broken inputs.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime};
use crate::p_cli::*;
use crate::p_mod::fresh;
use crate::rng::Rng;
use crate::run::*;

/// Text of about `n` bytes, sized around the buffers of the program.
fn sized(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 1 + r.below(40), 1 => 1 + r.below(900), 2 => 8192 * (1 + r.below(3)) + r.below(9) - 4, 3 => 1024 * (1 + r.below(5)) + r.below(5) - 2, 4 => 1 + r.below(9000), _ => 1 + r.below(60_000) };
    let mut t = String::new();
    while t.len() < n { t.push_str(["word ", "text ", "a &amp; b ", "<b>bold</b> ", "é ", "more\nlines ", "x\n\n"][r.below(7)]) }
    t.trim().to_string() + "."
}
fn text_of(r: &mut Rng, k: usize, out: bool) -> (&'static str, String) {
    match r.below(9) {
        0 => ("empty", "# nothing\n".into()),
        1 => ("failing", format!("{} $undefined{k}", sized(r))),
        2 => ("warning", format!("@fn f $x -> $x\n@fn f $x -> <b>$x</>\n@f {{w{k}}} {}", sized(r))),
        3 | 4 if out => ("writer", format!("@file::write(`gen{k}/page.html`) {{{}}}\n@file::write(`other {k}.txt`) {{<p>{}</p>}}\n{}", sized(r).replace("\n\n", " "), sized(r).replace("\n\n", " "), if r.chance(1, 3) { String::new() } else { sized(r) })),
        _ => ("good", sized(r)),
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Stream { Pipe, Full, Closed, Limit }
struct Spec<'a> { args: &'a [String], input: Option<&'a [u8]>, limit: Option<u64>, stdout: Stream, dir_as_stdin: bool }
fn launch(cx: &Cx, cwd: &Path, s: &Spec) -> Result<Ran, String> {
    let mut c = Command::new(program_file(cx));
    c.args(s.args).current_dir(cwd).env_clear().env("PATH", "/usr/bin:/bin").uid(NOBODY).gid(NOBODY).stderr(Stdio::piped());
    c.stdin(if s.dir_as_stdin { Stdio::from(std::fs::File::open(cwd).unwrap()) } else if s.input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut held = None;
    c.stdout(match s.stdout {
        Stream::Pipe => Stdio::piped(),
        Stream::Full => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        Stream::Limit => { let p = cwd.join("stdout"); held = Some(p.clone()); Stdio::from(std::fs::File::create(p).unwrap()) }
        // nobody reads the other end
        Stream::Closed => { let mut fd = [0; 2]; unsafe { assert_eq!(libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC), 0); libc::close(fd[0]); <Stdio as From<std::os::fd::OwnedFd>>::from(std::os::fd::FromRawFd::from_raw_fd(fd[1])) } }
    });
    if let Some(n) = s.limit {
        unsafe { c.pre_exec(move || {
            // a write past the limit fails instead of ending the program
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 { return Err(std::io::Error::last_os_error()); }
            Ok(())
        }) };
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot start the program: {e}"))?;
    drop(c);
    let mut si = ch.stdin.take();
    let (so, mut se) = (ch.stdout.take(), ch.stderr.take().unwrap());
    let (out, err) = std::thread::scope(|t| {
        let w = s.input.map(|b| { let mut si = si.take().unwrap(); t.spawn(move || { let _ = si.write_all(b); }) });
        let o = t.spawn(move || { let mut v = vec![]; if let Some(mut so) = so { let _ = so.read_to_end(&mut v); } v });
        let mut e = vec![];
        let _ = se.read_to_end(&mut e);
        if let Some(w) = w { let _ = w.join(); }
        (o.join().unwrap_or_default(), e)
    });
    let st = ch.wait().map_err(|e| e.to_string())?;
    let out = match held { Some(p) => { let t = std::fs::read(&p).unwrap_or_default(); let _ = std::fs::remove_file(p); t } None => out };
    Ok(Ran { code: st.code(), signal: st.signal(), out: String::from_utf8_lossy(&out).into(), err: String::from_utf8_lossy(&err).into() })
}

pub fn c30(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(3001, idx);
    let root = fresh(cx, "c30-", idx);
    let work = root.join("work");
    let res = files(cx, &mut r, &root, &work);
    let _ = std::fs::remove_dir_all(&root);
    res
}
#[derive(Debug, Clone, PartialEq)]
enum Fault { None, Full(PathBuf), Limit(u64), Dir(PathBuf), ParentFile(PathBuf), ReadOnly(PathBuf), Sealed(PathBuf), Unreadable(PathBuf), Garbage(PathBuf), Missing(PathBuf), Dangling(PathBuf), SourceDir(PathBuf) }
fn files(cx: &mut Cx, r: &mut Rng, _root: &Path, work: &Path) -> Out {
    let out = if r.chance(1, 2) { Some(if r.chance(1, 2) { "out" } else { "build/deep" }) } else { None };
    let (text, silent) = (r.chance(1, 4), r.chance(1, 5));
    let ext = if text { "txt" } else { "html" };
    let base = SystemTime::now() - Duration::from_secs(5000);
    std::fs::create_dir_all(work).unwrap();
    let mut docs: Vec<(String, &str)> = vec![];
    for k in 0..1 + r.below(5) {
        let (kind, t) = text_of(r, k, out.is_some());
        let p = format!("{}d{k}.papyri", r.pick(&["", "", "sub/", "sub/deep/"]));
        let f = work.join(&p);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        let mut f = std::fs::File::create(f).unwrap();
        f.write_all(t.as_bytes()).unwrap();
        f.set_modified(base).unwrap();
        docs.push((p, kind));
    }
    let named = r.chance(1, 2);
    let srcs: BTreeSet<PathBuf> = docs.iter().map(|d| if named { PathBuf::from(&d.0) } else { Path::new(".").join(&d.0) }).collect();
    let target = |s: &Path| { let mut p = match out { Some(d) => Path::new(d).join(clean(s)), None => s.to_path_buf() }; p.set_extension(ext); p };
    // what each document means, before anything is broken
    struct Doc { src: PathBuf, failed: bool, noted: bool, outs: Vec<(PathBuf, String)> }
    let mut model: Vec<Doc> = vec![];
    let res = within(work, || -> Result<(), String> {
        for s in &srcs {
            let a = alone(s, out.map(Path::new), false)?;
            let mut outs: Vec<(PathBuf, String)> = a.outs.iter().map(|(p, h, x)| (p.clone(), if text { x.clone() } else { h.clone() })).collect();
            if !a.empty { outs.push((target(s), if text { a.text.clone() } else { a.html.clone() })) }
            if a.errors > 0 { outs.clear() }
            model.push(Doc { src: s.clone(), failed: a.errors > 0, noted: a.errors + a.warnings > 0, outs });
        }
        Ok(())
    });
    if let Err(e) = res { return bad("the compiler failed internally", format!("{docs:?}"), "output or diagnostics", e); }
    // output of earlier runs, older than the sources
    for d in &model { for (p, _) in &d.outs { if r.chance(1, 3) { let f = work.join(p); std::fs::create_dir_all(f.parent().unwrap()).unwrap(); let mut f = std::fs::File::create(f).unwrap(); f.write_all(b"OLD\n").unwrap(); f.set_modified(base - Duration::from_secs(100)).unwrap(); } } }
    // the fault
    let all_outs: Vec<(PathBuf, usize)> = model.iter().flat_map(|d| d.outs.iter().map(|o| (o.0.clone(), o.1.len()))).collect();
    let any_src = r.pick(&model).src.clone();
    let some_out = if all_outs.is_empty() { None } else { Some(r.pick(&all_outs).clone()) };
    let fault = match (r.below(15), some_out) {
        (0, _) => Fault::None,
        (1..=3, Some((p, _))) => Fault::Full(p),
        (4..=6, Some((_, n))) => Fault::Limit(match r.below(5) { 0 => 0, 1 => n as u64, 2 => (n as u64).saturating_sub(1), 3 => (r.below(n + 1)) as u64, _ => (n as u64 / 8192) * 8192 }),
        (7, Some((p, _))) => Fault::Dir(p),
        (8, Some((p, _))) if out.is_some() => Fault::ParentFile(p),
        (9, Some((p, _))) => Fault::ReadOnly(p),
        (10, Some((p, _))) => Fault::Sealed(p),
        (11, _) => Fault::Unreadable(any_src),
        (12, _) => Fault::Garbage(any_src),
        (13, _) => if named { Fault::Missing(any_src) } else { Fault::SourceDir(any_src) },
        _ => if named { Fault::Dangling(any_src) } else { Fault::Unreadable(any_src) },
    };
    cx.count(&format!("fault:{}", format!("{fault:?}").split('(').next().unwrap()));
    if let Some(d) = out { std::fs::create_dir_all(work.join(d)).unwrap(); }
    give(work);
    let mut hidden: Option<(PathBuf, PathBuf)> = None;
    let rm = |p: &Path| { if std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir()) { let _ = std::fs::remove_dir_all(p); } else { let _ = std::fs::remove_file(p); } };
    let keep = |p: &Path| std::fs::read(p).ok();
    // the text that was there, to be put back afterwards
    let mut was: Option<(PathBuf, Vec<u8>)> = None;
    let chmod = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    match &fault {
        Fault::None | Fault::Limit(_) => {}
        Fault::Full(p) => { let p = work.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); rm(&p); symlink("/dev/full", &p).unwrap(); give(p.parent().unwrap()) }
        Fault::Dir(p) => { let p = work.join(p); rm(&p); std::fs::create_dir_all(&p).unwrap(); give(p.parent().unwrap()) }
        Fault::ParentFile(p) => { let d = work.join(p.parent().unwrap()); if d == work.join(out.unwrap()) || d == *work { return Out::Skip("the output directory itself"); } rm(&d); std::fs::create_dir_all(d.parent().unwrap()).unwrap(); std::fs::write(&d, "in the way").unwrap() }
        Fault::ReadOnly(p) => { let p = work.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, "OLD\n").unwrap(); std::fs::File::open(&p).unwrap().set_modified(base - Duration::from_secs(100)).unwrap(); give(p.parent().unwrap()); chmod(&p, 0o444) }
        Fault::Sealed(p) => { let p = work.join(p); let d = p.parent().unwrap(); std::fs::create_dir_all(d).unwrap(); rm(&p); give(d); chmod(d, 0o555) }
        Fault::Unreadable(s) => chmod(&work.join(s), 0),
        Fault::Garbage(s) => { let p = work.join(s); was = keep(&p).map(|t| (p.clone(), t)); let mut t = keep(&p).unwrap(); let at = r.below(t.len() + 1); t.splice(at..at, [0xC3, 0x28, 0xFF]); std::fs::write(&p, t).unwrap() }
        Fault::Missing(s) => { let p = work.join(s); let q = work.join("hidden"); std::fs::rename(&p, &q).unwrap(); hidden = Some((q, p)) }
        Fault::Dangling(s) => { let p = work.join(s); let q = work.join("hidden"); std::fs::rename(&p, &q).unwrap(); symlink("nowhere", &p).unwrap(); hidden = Some((q, p)) }
        Fault::SourceDir(s) => { let d = work.join(s); let d = d.parent().unwrap(); if clean(d) == *work { return Out::Skip("no subdirectory"); } chmod(d, 0) }
    }
    give(work);
    // directories made for the output of one document may be the sources of another
    let sealed: Option<PathBuf> = if let Fault::Sealed(p) = &fault { Some(clean(&work.join(p)).parent().unwrap().to_path_buf()) } else { None };
    let stuck = |p: &Path, len: usize| -> bool {
        let abs = clean(&work.join(p));
        match &fault {
            Fault::Full(q) | Fault::Dir(q) | Fault::ReadOnly(q) => *q == p,
            Fault::Limit(n) => len as u64 > *n,
            Fault::ParentFile(q) => abs.starts_with(clean(&work.join(q)).parent().unwrap()),
            // files which are there can still be written
            Fault::Sealed(_) => { let d = sealed.as_ref().unwrap(); let mut first = abs.clone(); while first.parent() != Some(d) { if !first.pop() { return false; } } !first.exists() }
            _ => false,
        }
    };
    let lost = |s: &Path| match &fault {
        Fault::Unreadable(q) | Fault::Garbage(q) | Fault::Missing(q) | Fault::Dangling(q) => q == s,
        Fault::SourceDir(q) => clean(&work.join(s)).starts_with(clean(&work.join(q)).parent().unwrap()),
        _ => false,
    };
    let unwalked = matches!(fault, Fault::SourceDir(_));
    // what must fail, and what must not
    let mut blocked: Vec<String> = vec![];
    let mut exp: BTreeMap<PathBuf, &str> = BTreeMap::new();
    let mut must: BTreeSet<PathBuf> = BTreeSet::new();
    let (mut ok, mut failed, mut skipped, mut written) = (0, 0, 0, 0);
    let mut noted = vec![];
    for d in &model {
        if lost(&d.src) { blocked.push(if let Fault::SourceDir(q) = &fault { q.parent().unwrap().display().to_string() } else { d.src.display().to_string() }); continue; }
        if d.noted && blocked.is_empty() { noted.push(d.src.display().to_string()) }
        if d.failed { failed += 1; continue; }
        if d.outs.is_empty() { skipped += 1; continue; }
        ok += 1;
        for (p, t) in &d.outs {
            exp.insert(clean(&work.join(p)), t);
            if stuck(p, t.len()) { blocked.push(p.display().to_string()) } else if blocked.is_empty() || unwalked { must.insert(clean(&work.join(p))); }
            written += 1;
        }
    }
    let before = snapshot(work);
    let mut args: Vec<String> = vec![];
    if let Some(d) = out { args.extend(["--out".into(), d.into()]) }
    if text { args.push("-t".into()) }
    if silent { args.push("-s".into()) }
    // these would seem up to date
    if r.chance(1, 3) && !matches!(fault, Fault::Full(_) | Fault::Dir(_)) { args.push("-u".into()) }
    if named { args.extend(srcs.iter().map(|s| s.display().to_string())) } else if r.chance(1, 2) { args.push(".".into()) }
    let sizes: Vec<_> = model.iter().flat_map(|d| d.outs.iter().map(|o| (o.0.display().to_string(), o.1.len()))).collect();
    let input = format!("papyri {args:?}; fault {fault:?}; outputs and their sizes {sizes:?}; sources\n{}", before.iter().filter_map(|(p, e)| match e { Ent::File(t) if p.ends_with(".papyri") => Some(format!("=== {p}\n{}\n", String::from_utf8_lossy(&t[..t.len().min(400)]))), _ => None }).collect::<String>());
    cx.nontrivial(&format!("{args:?}{fault:?}{sizes:?}"));
    let limit = if let Fault::Limit(n) = fault { Some(n) } else { None };
    let ran = match launch(cx, work, &Spec { args: &args, input: None, limit, stdout: Stream::Pipe, dir_as_stdin: false }) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let after = snapshot(work);
    let shown = format!("exit {:?} signal {:?}\nstdout:\n{}\nstderr:\n{}", ran.code, ran.signal, ran.out, ran.err);
    if ran.signal.is_some() || ran.code == Some(101) { return bad("the program crashed", &input, "an error message", shown); }
    let bites = !blocked.is_empty();
    cx.count(if bites { "outcome:something could not be done" } else if failed > 0 { "outcome:only faulty documents" } else { "outcome:everything possible" });
    // a part of the tree which cannot be searched is reported, as is an argument which is no source
    let want = ((bites && !unwalked) || failed > 0) as i32;
    if ran.code == Some(0) && want != 0 { return bad("success is reported though something could not be read or written", &input, format!("exit 1, for {blocked:?}"), shown); }
    if ran.code != Some(want) { return bad("exit status", &input, want.to_string(), shown); }
    if bites && !blocked.iter().any(|b| ran.err.contains(b.trim_start_matches("./"))) { return bad("what could not be read or written is not named", &input, format!("one of {blocked:?}"), shown); }
    for n in &noted { if !ran.err.contains(n.as_str()) { return bad("the failure of a document is not reported", &input, n, shown); } }
    // every file is as it was, or complete, or removed
    for (p, e) in &after {
        if before.get(p) == Some(e) || *e == Ent::Dir { continue; }
        let abs = work.join(p);
        match (exp.get(&abs), e) { (Some(t), Ent::File(v)) if v == t.as_bytes() => { cx.count("files complete"); } _ => return bad(format!("{p} is neither as it was nor complete"), &input, format!("{} bytes", exp.get(&abs).map_or(0, |t| t.len())), format!("{}\n{shown}", if let Ent::File(v) = e { format!("{} bytes", v.len()) } else { format!("{e:?}") })) }
    }
    for (p, _) in &before { if !after.contains_key(p) { if !exp.contains_key(&work.join(p)) { return bad(format!("{p} was removed"), &input, "kept", shown); } cx.count("files removed"); } }
    for p in &must { if std::fs::read(p).ok().as_deref() != exp.get(p).map(|t| t.as_bytes()) { return bad(format!("{} was not written", p.display()), &input, "its output", shown); } }
    // what it claims
    let mut claims = 0;
    for l in ran.out.lines() {
        if let Some(p) = l.strip_prefix("    => ") {
            claims += 1;
            let abs = clean(&work.join(p));
            let complete = std::fs::symlink_metadata(&abs).is_ok_and(|m| m.is_file()) && exp.get(&abs).is_some_and(|t| std::fs::read(&abs).ok().as_deref() == Some(t.as_bytes()));
            if !complete { return bad(format!("{p} is said to be written"), &input, "a file with the output", shown); }
        }
    }
    cx.add("claims of written files", claims);
    if !bites {
        let summary = format!("{written} file{} written; {ok} OK, {failed} failed, {skipped} skipped", if written == 1 { "" } else { "s" });
        if !(silent && failed == 0) && !ran.out.contains(&summary) && !ran.err.contains(&summary) { return bad("summary", &input, summary, shown); }
    }
    // once the fault is gone, a run which skips what is up to date completes the rest
    if r.chance(2, 3) {
        match &fault {
            Fault::None | Fault::Limit(_) => {}
            Fault::Full(p) | Fault::Dir(p) => rm(&work.join(p)),
            Fault::ParentFile(p) => { let d = work.join(p.parent().unwrap()); if d.is_file() { rm(&d) } }
            Fault::ReadOnly(p) => chmod(&work.join(p), 0o644),
            Fault::Sealed(_) => chmod(sealed.as_ref().unwrap(), 0o755),
            Fault::Unreadable(s) => chmod(&work.join(s), 0o644),
            Fault::Garbage(_) => { let (p, t) = was.clone().unwrap(); std::fs::write(&p, t).unwrap(); std::fs::File::open(&p).unwrap().set_modified(base).unwrap() }
            Fault::Missing(_) | Fault::Dangling(_) => { let (q, p) = hidden.clone().unwrap(); rm(&p); std::fs::rename(q, p).unwrap() }
            Fault::SourceDir(s) => chmod(work.join(s).parent().unwrap(), 0o755),
        }
        let mut args: Vec<String> = args.iter().filter(|a| *a != "-u").cloned().collect();
        args.insert(0, "-u".into());
        let ran = match launch(cx, work, &Spec { args: &args, input: None, limit: None, stdout: Stream::Pipe, dir_as_stdin: false }) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
        let shown2 = format!("first run: {shown}\nsecond run: exit {:?} signal {:?}\nstdout:\n{}\nstderr:\n{}", ran.code, ran.signal, ran.out, ran.err);
        let any_failed = model.iter().any(|d| d.failed);
        if ran.code != Some(any_failed as i32) { return bad("exit status of a second run", &input, (any_failed as i32).to_string(), shown2); }
        for d in &model { for (p, t) in &d.outs {
            if std::fs::read(work.join(p)).ok().as_deref() != Some(t.as_bytes()) { return bad(format!("{} is not complete after a second run without the fault", p.display()), &input, format!("{} bytes", t.len()), shown2); }
        } }
        cx.count("second runs");
    }
    Out::Ok
}

/// Standard input to standard output.
pub fn c30_stdin(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(3002, idx);
    let dir = fresh(cx, "c30s-", idx);
    let res = streams(cx, &mut r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    res
}
fn streams(cx: &mut Cx, r: &mut Rng, dir: &Path) -> Out {
    let (_, t) = text_of(r, 0, false);
    std::fs::write(dir.join("doc.papyri"), &t).unwrap();
    give(dir);
    let text = r.chance(1, 3);
    let a = match within(dir, || alone(Path::new("doc.papyri"), None, false)) { Ok(x) => x, Err(e) => return bad("the compiler failed internally", &t, "output or diagnostics", e) };
    let want = if a.errors > 0 { "" } else if text { &a.text } else { &a.html };
    let n = want.len();
    let stdout = *r.pick(&[Stream::Pipe, Stream::Full, Stream::Full, Stream::Closed, Stream::Limit, Stream::Limit]);
    let limit = (stdout == Stream::Limit).then(|| match r.below(4) { 0 => 0, 1 => n as u64, 2 => (n as u64).saturating_sub(1), _ => r.below(n + 1) as u64 });
    let bad_input = r.chance(1, 8);
    let mut args = vec!["--stdin".to_string()];
    if text { args.push("-t".into()) }
    let input = format!("papyri {args:?}; standard output {stdout:?} {limit:?}, {n} bytes of output; standard input {}", if bad_input { "a directory".into() } else { t.chars().take(800).collect::<String>() });
    cx.nontrivial(&input);
    cx.count(&format!("stream:{stdout:?}"));
    let ran = match launch(cx, dir, &Spec { args: &args, input: if bad_input { None } else { Some(t.as_bytes()) }, limit, stdout, dir_as_stdin: bad_input }) { Ok(x) => x, Err(e) => return bad(e, &input, "an end", "none") };
    let shown = format!("exit {:?} signal {:?}, {} bytes of output\nstderr:\n{}", ran.code, ran.signal, ran.out.len(), ran.err);
    if ran.signal.is_some() || ran.code == Some(101) { return bad("the program crashed", &input, "an error message", shown); }
    let lost = bad_input || (n > 0 && match stdout { Stream::Pipe => false, Stream::Full | Stream::Closed => true, Stream::Limit => n as u64 > limit.unwrap() });
    let fails = lost || a.errors > 0;
    cx.count(if bad_input { "stream:input cannot be read" } else if lost { "stream:output lost" } else { "stream:output complete" });
    if ran.code == Some(0) && fails { return bad("success is reported though something could not be read or written", &input, "exit 1", shown); }
    if ran.code != Some(fails as i32) { return bad("exit status", &input, (fails as i32).to_string(), shown); }
    if fails && ran.err.trim().is_empty() { return bad("the failure is not reported", &input, "a message", shown); }
    if !fails && matches!(stdout, Stream::Pipe | Stream::Limit) && ran.out != want { return bad("output", &input, want, &ran.out); }
    Out::Ok
}
