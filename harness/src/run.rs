//! Check driver: worker processes run cases against the compiler under test,
//! the driver watches them for crashes and hangs and writes the evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use serde_json::{json, Value as J};

#[derive(Debug, Clone, Default)]
pub struct Bad { pub what: String, pub input: String, pub expected: String, pub actual: String, pub key: String }
pub enum Out { Ok, Skip(&'static str), Bad(Bad) }
pub fn bad(what: impl Into<String>, input: impl Into<String>, expected: impl Into<String>, actual: impl Into<String>) -> Out { Out::Bad(Bad { what: what.into(), input: input.into(), expected: expected.into(), actual: actual.into(), key: String::new() }) }

/// What a case records about what it observed.
pub struct Cx { pub seed: u64, pub worker: u64, pub scratch: std::path::PathBuf, pub counts: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub phase: &'static str, pub shrink: bool }
impl Cx {
    pub fn new(seed: u64, worker: u64) -> Cx { Cx { seed, worker, scratch: std::env::temp_dir().join(format!("pvh-{}-{worker}", std::process::id())), counts: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], phase: "", shrink: false } }
    pub fn rng(&self, stream: u64, idx: u64) -> crate::rng::Rng { crate::rng::Rng::new(self.seed, stream, idx) }
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n }
    /// Marks the case as non-trivial and distinct by its input.
    pub fn nontrivial(&mut self, input: &str) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        input.hash(&mut h);
        self.distinct.insert(h.finish());
        if self.samples.len() < 2 { self.samples.push(input.chars().take(1200).collect()) }
    }
}
pub struct Phase { pub name: &'static str, pub quick: u64, pub thorough: u64, pub run: Box<dyn Fn(&mut Cx, u64) -> Out> }
pub fn phase(name: &'static str, quick: u64, thorough: u64, run: impl Fn(&mut Cx, u64) -> Out + 'static) -> Phase { Phase { name, quick, thorough, run: Box::new(run) } }

fn cases(p: &Phase, tier: &str) -> u64 {
    let n = if tier == "thorough" { p.thorough } else { p.quick * 4 };
    match std::env::var("PVH_PERCENT").ok().and_then(|s| s.parse::<u64>().ok()) { Some(c) => (n * c / 100).max(8), None => n }
}
fn total(ps: &[Phase], tier: &str) -> u64 { ps.iter().map(|p| cases(p, tier)).sum() }
/// Cases of the phases are interleaved, so that a run cut short has done some of each.
fn locate(ps: &[Phase], tier: &str) -> Vec<(usize, u64)> {
    let ns: Vec<u64> = ps.iter().map(|p| cases(p, tier)).collect();
    let mut out: Vec<(f64, usize, u64)> = vec![];
    for (k, n) in ns.iter().enumerate() { for i in 0..*n { out.push(((i as f64 + 0.5) / *n as f64, k, i)) } }
    out.sort_by(|a, b| a.partial_cmp(b).unwrap());
    out.into_iter().map(|(_, k, i)| (k, i)).collect()
}
fn run_case(cx: &mut Cx, ps: &[Phase], loc: (usize, u64)) -> Out {
    let p = &ps[loc.0];
    cx.phase = p.name;
    let r = crate::real::guard(|| (p.run)(cx, loc.1));
    r.unwrap_or_else(|e| {
        // a panic outside the guarded calls of the code under test is a fault of the harness
        eprintln!("HARNESS PANIC {} #{}: {e}", p.name, loc.1);
        Out::Skip("harness panic")
    })
}
fn jline(tag: &str, j: J) { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "\x01{tag} {j}"); let _ = o.flush(); }
fn bad_json(p: &Phase, loc: (usize, u64), idx: u64, b: &Bad, seed: u64, tier: &str, id: &str) -> J { json!({"property": id, "phase": p.name, "case": loc.1, "index": idx, "seed": seed, "tier": tier, "what": b.what, "key": b.key, "input": b.input, "expected": b.expected, "actual": b.actual}) }

pub fn worker(id: &str, ps: Vec<Phase>, tier: &str, seed: u64, w: u64, n: u64, from: u64) {
    let locs = locate(&ps, tier);
    let mut cx = Cx::new(seed, w);
    let _ = std::fs::create_dir_all(&cx.scratch);
    let mut done: BTreeMap<&str, u64> = BTreeMap::new();
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    for (i, loc) in locs.iter().enumerate() {
        let i = i as u64;
        if i % n != w || i < from { continue; }
        { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "\x01S {i}"); let _ = o.flush(); }
        match run_case(&mut cx, &ps, *loc) {
            Out::Ok => *done.entry(ps[loc.0].name).or_insert(0) += 1,
            Out::Skip(why) => *skips.entry(format!("{}: {why}", ps[loc.0].name)).or_insert(0) += 1,
            Out::Bad(b) => jline("B", bad_json(&ps[loc.0], *loc, i, &b, seed, tier, id)),
        }
        if (i / n) % 256 == 255 {
            flush(&mut cx, &mut done, &mut skips);
            // functions and their scopes may refer to each other, and then are never freed
            if resident() > 800 << 20 { let _ = std::fs::remove_dir_all(&cx.scratch); jline("R", json!({})); return; }
        }
    }
    flush(&mut cx, &mut done, &mut skips);
    let _ = std::fs::remove_dir_all(&cx.scratch);
    jline("E", json!({}));
}
fn resident() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).map_or(0, |p| p * 4096) }
fn flush(cx: &mut Cx, done: &mut BTreeMap<&str, u64>, skips: &mut BTreeMap<String, u64>) {
    let h: Vec<u64> = cx.distinct.drain().collect();
    jline("C", json!({"counts": cx.counts, "done": done, "skips": skips, "hashes": h, "samples": cx.samples}));
    cx.counts.clear(); done.clear(); skips.clear();
}
pub fn one(id: &str, ps: Vec<Phase>, tier: &str, seed: u64, idx: u64) {
    let loc = locate(&ps, tier)[idx as usize];
    let mut cx = Cx::new(seed, 99);
    cx.shrink = true;
    let _ = std::fs::create_dir_all(&cx.scratch);
    let r = run_case(&mut cx, &ps, loc);
    let _ = std::fs::remove_dir_all(&cx.scratch);
    match r {
        Out::Ok => jline("O", json!({"ok": true})),
        Out::Skip(w) => jline("O", json!({"skip": w})),
        Out::Bad(b) => jline("B", bad_json(&ps[loc.0], loc, idx, &b, seed, tier, id)),
    }
}

struct W { child: Child, cpu_pid: u32, at: Option<u64>, since: Instant, ended: bool, from: u64 }
fn spawn(id: &str, tier: &str, seed: u64, w: u64, n: u64, from: u64, tx: &mpsc::Sender<(usize, u32, Option<String>)>) -> W {
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["worker", id, tier, &seed.to_string(), &w.to_string(), &n.to_string(), &from.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("cannot start worker");
    let out = child.stdout.take().unwrap();
    let pid = child.id();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut buf = vec![];
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) { Ok(n) if n > 0 => {} _ => break }
            let l = String::from_utf8_lossy(&buf).trim_end().to_string();
            if let Some(i) = l.rfind('\x01') { let _ = tx.send((w as usize, pid, Some(l[i + 1..].to_string()))); }
        }
        let _ = tx.send((w as usize, pid, None));
    });
    W { cpu_pid: child.id(), child, at: None, since: Instant::now(), ended: false, from }
}
fn dump_path() -> String { format!("{}/pvh-dump-{}", std::env::temp_dir().display(), std::process::id()) }
/// Runs one case alone, limited in CPU time.
fn confirm(id: &str, tier: &str, seed: u64, idx: u64, cpu: u64) -> Result<Option<J>, String> {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new("bash").args(["-c", "ulimit -t $1; ulimit -c 0; shift; exec \"$@\"", "x", &cpu.to_string()]).arg(exe).args(["one", id, tier, &seed.to_string(), &idx.to_string()]).env("PVH_DUMP", dump_path()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let out = child.stdout.take().unwrap();
    let err = child.stderr.take().unwrap();
    let he = std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut std::io::Read::take(err, 100_000), &mut v); String::from_utf8_lossy(&v).to_string() });
    let h = std::thread::spawn(move || { let mut v = vec![]; let mut o = out; let _ = std::io::Read::read_to_end(&mut o, &mut v); String::from_utf8_lossy(&v).to_string() });
    let t = Instant::now();
    let st = loop { if let Ok(Some(s)) = child.try_wait() { break Some(s); } if t.elapsed() > Duration::from_secs(cpu * 6 + 60) { let _ = child.kill(); let _ = child.wait(); break None; } std::thread::sleep(Duration::from_millis(20)) };
    let s = h.join().unwrap_or_default();
    let overflow = he.join().unwrap_or_default().contains("has overflowed its stack");
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => Err("inconclusive: no CPU time".into()),
        // recursion without bound is outside the property, and only C01 compiles programs not known to end; a program needs a function definition to recurse
        Some(st) if id == "C01" && !st.success() && overflow && std::fs::read_to_string(dump_path()).unwrap_or_default().contains("@fn") => Err("recursion: unbounded".into()),
        Some(st) if st.success() => { for l in s.lines() { if let Some(i) = l.rfind("\x01B ") { return Ok(Some(serde_json::from_str(&l[i + 3..]).map_err(|e| e.to_string())?)); } } Ok(None) }
        Some(st) => match st.signal() {
            Some(24) | Some(9) => Err(format!("hang: no result after {cpu} s of CPU time")),
            Some(sig) => Err(format!("crash: ended by signal {sig}")),
            None => Err(format!("crash: exit status {:?}", st.code())),
        },
    }
}

pub struct Info { pub rule: &'static str, pub assumptions: &'static [&'static str], pub need: &'static [&'static str] }
pub fn check(id: &str, ps: Vec<Phase>, info: Info, tier: &str, seed: u64, cap: u64) -> i32 {
    let t0 = Instant::now();
    let verif = std::env::var("PVH_VERIF").unwrap_or_else(|_| "/verif".into());
    let n = std::env::var("PVH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64).min(total(&ps, tier).max(1));
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..n).map(|w| spawn(id, tier, seed, w, n, 0, &tx)).collect();
    let mut bads: Vec<J> = vec![];
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut skips): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut incon: Vec<String> = vec![];
    let mut capped = false;
    let (mut crashes, mut suspects) = (0, 0);
    let most = if std::env::var_os("PVH_FIRST").is_some() { 0 } else { 40 };
    let fresh = |bs: &[J]| bs.iter().filter(|b| b["key"] == "").count();
    let mut pids: Vec<u32> = ws.iter().map(|w| w.cpu_pid).collect();
    let restart = |w: usize, from: u64, ws: &mut Vec<W>| { let d = std::env::temp_dir().join(format!("pvh-{}-{w}", ws[w].cpu_pid)); let _ = std::fs::remove_dir_all(d); ws[w] = spawn(id, tier, seed, w as u64, n, from, &tx) };
    let adds = |m: &mut BTreeMap<String, u64>, j: &J| if let Some(o) = j.as_object() { for (k, v) in o { *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0) } };
    let crash_bad = |idx: u64, why: &str| -> J { let loc = locate(&ps, tier)[idx as usize]; let mut b = Bad::default(); b.input = std::fs::read_to_string(dump_path()).unwrap_or_default(); b.what = format!("the compiler did not survive the case: {why}"); b.actual = why.to_string(); b.expected = "output or diagnostics".into(); bad_json(&ps[loc.0], loc, idx, &b, seed, tier, id) };
    while ws.iter().any(|w| !w.ended) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, pid, _)) if ws[w].cpu_pid != pid => {}
            Ok((w, _, Some(l))) => {
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match tag {
                    "S" => { ws[w].at = rest.parse().ok(); ws[w].since = Instant::now() }
                    "B" => if let Ok(j) = serde_json::from_str::<J>(rest) { bads.push(j) },
                    "C" => if let Ok(j) = serde_json::from_str::<J>(rest) {
                        adds(&mut counts, &j["counts"]); adds(&mut done, &j["done"]); adds(&mut skips, &j["skips"]);
                        for h in j["hashes"].as_array().into_iter().flatten() { hashes.insert(h.as_u64().unwrap_or(0)); }
                        if samples.len() < 3 { for s in j["samples"].as_array().into_iter().flatten() { if samples.len() < 3 { samples.push(s.as_str().unwrap_or("").into()) } } }
                    },
                    "E" => ws[w].ended = true,
                    "R" => { let _ = ws[w].child.wait(); let i = ws[w].at.unwrap_or(0); restart(w, i + 1, &mut ws) }
                    _ => {}
                }
            }
            Ok((w, _, None)) => {
                let _ = ws[w].child.wait();
                if !ws[w].ended {
                    match ws[w].at {
                        None => { incon.push(format!("worker {w} ended before its first case")); ws[w].ended = true }
                        Some(i) => {
                            crashes += 1;
                            match confirm(id, tier, seed, i, 60) {
                                Ok(Some(j)) => bads.push(j),
                                Ok(None) => incon.push(format!("case {i}: worker died, but the case alone passed")),
                                Err(e) if e.starts_with("inconclusive") => incon.push(format!("case {i}: {e}")),
                                Err(e) if e.starts_with("recursion") => { crashes -= 1; *skips.entry("unbounded recursion".into()).or_insert(0) += 1 }
                                Err(e) => bads.push(crash_bad(i, &e)),
                            }
                            if crashes > 30 { ws[w].ended = true } else { restart(w, i + 1, &mut ws) }
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..ws.len() {
            if ws[w].ended || ws[w].at.is_none() || ws[w].since.elapsed() < Duration::from_secs(45) { continue; }
            let i = ws[w].at.unwrap();
            let _ = ws[w].child.kill(); let _ = ws[w].child.wait();
            suspects += 1;
            match confirm(id, tier, seed, i, 60) {
                Ok(Some(j)) => bads.push(j),
                Ok(None) => incon.push(format!("case {i}: slow, but finished alone")),
                Err(e) if e.starts_with("inconclusive") => incon.push(format!("case {i}: {e}")),
                Err(e) if e.starts_with("recursion") => { suspects -= 1; *skips.entry("unbounded recursion".into()).or_insert(0) += 1 }
                Err(e) => bads.push(crash_bad(i, &e)),
            }
            if suspects > 4 { ws[w].ended = true } else { restart(w, i + 1, &mut ws) }
        }
        if t0.elapsed() > Duration::from_secs(cap) || fresh(&bads) > most {
            capped = fresh(&bads) <= most;
            for w in ws.iter_mut() { if !w.ended { let _ = w.child.kill(); let _ = w.child.wait(); w.ended = true } }
        }
    }
    pids.extend(ws.iter().map(|w| w.cpu_pid));
    drop(ws);
    // what killed workers left behind
    for p in pids { for w in 0..n { let d = std::env::temp_dir().join(format!("pvh-{p}-{w}")); if d.is_dir() { let _ = std::fs::remove_dir_all(d); } } }
    let _ = std::fs::remove_file(dump_path());
    // known findings
    let known = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let known: Vec<(&str, &str, &str)> = known.lines().filter_map(|l| { let r = l.strip_prefix("finding: property=")?; let (p, r) = r.split_once(" key=")?; let (k, d) = r.split_once(' ')?; Some((p, k, d)) }).collect();
    let (mut new, mut old, mut incon_known) = (vec![], HashSet::new(), 0);
    for b in bads { match known.iter().find(|k| Some(k.1) == b["key"].as_str() && !k.1.is_empty()) { Some(k) => { if k.0 == id { old.insert(*k); } else { incon_known += 1 } } None => new.push(b) } }
    if incon_known > 0 { *skips.entry("a listed finding of another property".into()).or_insert(0) += incon_known }
    for (_, _, d) in &old { println!("KNOWN-FINDING: property={id} {d}") }
    let ran: u64 = done.values().sum();
    for (k, v) in &skips { if k.ends_with("harness panic") { incon.push(format!("{v} {k}")) } }
    let missing: Vec<&str> = info.need.iter().filter(|k| !counts.iter().any(|(c, v)| *v > 0 && (c == *k || c.starts_with(&format!("{k}:"))))).copied().collect();
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": new.len(), "assumptions": info.assumptions,
        "coverage": {"evaluations": ran + new.len() as u64, "distinct_nontrivial": hashes.len(), "rule": info.rule, "samples": samples, "phases": done, "skipped": skips, "observed": counts, "stopped_by_time_cap": capped, "inconclusive": incon, "known_findings_seen": old.len(), "expected_events_missing": missing}});
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
    println!("{id}: {ran} cases held, {} distinct non-trivial, {} violations, {} inconclusive, {:.1} s{}", hashes.len(), new.len(), incon.len(), t0.elapsed().as_secs_f64(), if capped { " (time cap)" } else { "" });
    for i in incon.iter().take(5) { println!("inconclusive: {i}") }
    if !new.is_empty() {
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        new.sort_by_key(|b| b["input"].as_str().map_or(0, |s| if s.is_empty() { 1 << 30 } else { s.len() }));
        for (k, b) in new.iter().take(3).enumerate() {
            let path = format!("{dir}/{id}-{k}.json");
            let _ = std::fs::write(&path, serde_json::to_string_pretty(b).unwrap());
            println!("VIOLATION property={id} replay={path}");
            let short = |k: &str| b[k].as_str().unwrap_or("").chars().take(600).collect::<String>();
            println!("  phase {} case {}: {}\n  expected: {}\n  actual:   {}", b["phase"], b["case"], short("what"), short("expected"), short("actual"));
        }
        return 1;
    }
    if !missing.is_empty() && !capped { println!("events never observed: {missing:?}"); return 2; }
    if ran == 0 || incon.len() as u64 * 20 > ran + 20 { println!("too little was observed"); return 2; }
    0
}
