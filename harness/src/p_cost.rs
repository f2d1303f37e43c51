//! Watches what compiling costs as documents grow: the CPU time of documents
//! made of the same pieces, many and many times more of them.
use crate::p_cli::{give, papyri};
use crate::p_mod::fresh;
use crate::real;
use std::alloc::{GlobalAlloc, Layout, System};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use crate::rng::Rng;
use crate::run::*;

/// Pieces of running content; `#` stands for the number of the piece.
const PIECES: &[&str] = &[
    "word ", "some longer words here ", "para\n\n", "line\n", "<b>x</b> ", "<div>x</div>\n", "<p>x</p>\n", "<br> ", "it's \"ok\" ", "a -- b --- c ", "-> <= (c) ~ ", "&amp; &lt; ", "\\x41\\n ", "é日本😀 ",
    "# comment\n", "<!-- comment --> ", "`code` ", "@f {x} ", "@g(1, k=2) {x} ", "@bold {x} ", "@href(`u`) {x} ", "@class(`c`) <i>x</i> ", "@attributes(a=`1`) <i class=`c`>x</i> ", "@quote {@emph {x}} ", "$v ", "$s ", "$h ", "$l::len ", "$s::upper ", "$d::a ",
    "@match $v {1 -> a, 2 -> b, _ -> c} ", "@match $h {<$t class=$c **$a>$x</> -> $t, _ -> n} ", "@match $s {'a$x' -> $x, _ -> n} ", "@match $l {[1, *$r] -> $r::len, _ -> n} ", "@let(q=1) {$q} ", "@let(q#=[#, 2]) {$q#} ", "@implicit(im=`a`) {@k {x}} ", "@fn g# $x -> $x\n@g# {x} ", "@fn r $x -> $x\n", "<div id=x# k=1 title=$s>x</div>\n", "<a href=\"u$s\" b?=$n>x</a> ", "<$t#>x</> ",
    "@str::unique_id `a` ", "@str::unique_id `a#` ", "@str::unique_id(max_len=4) `abcdef` ", "@str::unique_id `é ü #` ", "@str::len `abc` ", "@str::upper `abc` ", "@str::split(`,`) `a,b` ", "@str::from 5 ", "@int::parse `12` ", "@int::add(1, 2) ", "@list::len [1, 2] ", "@list::map(@fn $y -> <i>$y</i>) [1, 2] ", "@list::sorted [2, 1] ", "@dict::new(a=#, b=$v)::a ", "@regex::test($re) `ab` ", "@regex::find_all($re) `ab` ", "@html::escape `<a>` ", "@typeof $v ",
    "[1, 2, 3]\n", "[`x#`, {y}]\n", "{group} ", "{a {b {c}}} ", "'t $v {u}' ", "\"t $s\" ", "```rust\nlet x = #;\n```\n", "```papyri\n@f(x) {<b>a</b>} $y\n```\n", "```\nplain [#] text\n```\n", "$nope# ", "$nope ", "@raise `no` ", "@f(1) {x} ", "@int::add(`a`) ", "] ", "&nope; ", "\\xZZ ", "</q> ", "<p><div>x</div></p>\n", "@list::get(9) [1] ", "@footnote {x} ", "<table><tr><td>x</td></tr></table>\n", "@code_block `x\ny`\n", "$l ", "@k {x} ", "@export(e#=$v). ", "@p::call(1) {x} ", "@function::call($f) {x} ", "<ul><li>x</li></ul>\n", "@numbered [1, 2]\n", "@style(`c:d`) <i>x</i> ",
    "``` a\n", "```` b\n", "`c\n", "``d` ", "<!- ", "<!-", "'e\n", "\"f ", "& ", "&a", "&#1", "\\x4", "@match $v {(2 | $y) -> $y, _ -> n} ", "@match $l {([9, $y] | [$y, *$z]) -> $y, _ -> n} ", "@fn h#($_a, $b: int = 2) $c -> {$_a $b $c}\n", "@let(f=@f) {x} ", "@export(m#=[1, {x}]).\n", "@slice(`a#`).", "@f(@f {x}) {y} ", "@if(True) {x} ", "@repeat(3) {x} ", "@comment {x} ",
];
/// Constructs with one long part: before, the repeated part, after.
const LONG: &[(&str, &str, &str)] = &[
    ("@let(x=[", "#, ", "]) {<ul><li>$x::len</li></ul>}"), ("@let(x=[", "`a#`, ", "]) {$x}"), ("@let(x=[", "<b>q</b>, ", "]) {$x}"), ("@list::sorted [", "`k#`, ", "]"), ("@list::sorted(reversed=True) [", "#, ", "]"), ("@list::map(@fn $y -> <i>$y</i>) [", "#, ", "]"), ("@list::filter(@fn $y -> True) [", "#, ", "]"), ("@list::all(@fn $y -> True) [", "#, ", "]"), ("@list::find(@fn $y -> False) [", "#, ", "]"), ("@list::join(`,`) [", "`a#`, ", "]"), ("@list::join(<br>) [", "<b>x</b>, ", "]"), ("@list::reversed [", "#, ", "]"), ("@list::enumerate [", "`a`, ", "]"), ("@list::contains(`zz`) [", "`a#`, ", "]"), ("@list::slice(2) [", "`a#`, ", "]"), ("@list::flat [", "[1, #], ", "]"), ("@list::sorted(key=@str::len) [", "`a#`, ", "]"), ("@int::add(", "#, ", ")."), ("@bool::and(", "True, ", ")."),
    ("@let(s=`", "ab ", "`) {$s <b title=$s>$s</b>}"), ("@str::upper `", "aé ", "`"), ("@str::lower `", "ABÉ ", "`"), ("@str::trim `", "  ", "x`"), ("@str::split(`,`) `", "a,", "b`"), ("@str::is_whitespace '", " ", "'"), ("@str::len '", "a{b} ", "'"), ("@html::escape `", "<&\"'", "`"), ("@str::unique_id `", "ab é-", "`"), ("@regex::find_all(@regex::compile `a.`) `", "ab", "`"), ("@regex::split(@regex::compile `,`) `", "a,", "`"), ("@regex::count(@regex::compile `a`) `", "ab", "`"), ("@regex::test(@regex::compile `z`) `", "ab", "`"), ("'", "a $v {b} \\n &amp; ", "'"), ("@match '", "ab", "' {'$x,$y' -> a, '${x}b' -> b, _ -> c}"),
    ("@let(d=@dict::new(", "k#=#, ", ").) {@dict::len $d}"), ("@dict::keys(", "k#=#, ", ")."), ("@let(d=@dict::new(", "k#=`a`, ", ").) {<i **$d>x</i>}"), ("@let(d=@dict::new(", "k#=`a`, ", ").) {@w(**$d) {x}}"), ("@let(d=@dict::new(", "k#=`a`, ", ").) {@match $d {{k1=$a, **$r} -> $a, _ -> n}}"), ("@let(d=@dict::new(", "k#=`a`, ", ").) {@dict::values $d}"), ("@let(d=@dict::new(", "k#=`a`, ", ").) {@dict::items $d}"), ("@export @dict::new(", "k#=`a`, ", ")."), ("@export(", "k#=#, ", ")."),
    ("<div ", "k#=1 ", ">x</div>"), ("<div ", "k#=`v` ", "/>"), ("@let(", "y#=#, ", ") {x $y1}"), ("@match $v {", "`z#` -> a, ", "_ -> b}"), ("@match $v {", "[#, $a] -> $a, ", "_ -> b}"), ("@match $v {(", "`z#` | ", "1) -> a, _ -> b}"), ("@let(x=[", "1, ", "]) {@match $x {[$a, *$r, $b] -> $a, _ -> n}}"), ("@let(x=[", "1, ", "]) {@z(*$x) {c}}"), ("@z(", "#, ", ") {c}"), ("@w(", "k#=#, ", ") {c}"), ("<b>", "x ", "</b>"), ("<p>", "x <i>y</i> ", "</p>"), ("<div>", "<p>x</p>\n", "</div>"), ("<ul>", "<li>x</li>\n", "</ul>"), ("{", "x @f {y} ", "}"), ("@f {", "x $v ", "}"), ("@bold {", "x <i>y</i> ", "}"), ("@page(`t`) {", "<p>x</p>\n", "}"), ("@class(`c`) <div>", "<p>x</p>\n", "</div>"), ("@match <div>", "<p>x</p>\n", "</div> {<$t>$x</> -> <$t>$x $x</>, _ -> n}"),
    ("```rust\n", "let x = vec![#];\n", "```"), ("```\n", "a [b] (c)\n", "```"), ("```papyri\n", "@f(x) {<b>a</b>} $y\n", "```"), ("```papyri\n", "{[(\n", "```"), ("```papyri\n", ")]}\n", "```"), ("```papyri\n", "# see http://x.org/#\n", "```"), ("```papyri\n    a\n", "    b\n  c\n", "```"), ("@code(language=`papyri`) `", "@f(x) ", "`"), ("```python\n", "def f(x): return [x, '#']\n", "```"), ("<pre>", "a\nb ", "</pre>"),
    ("@html::parse ```<!DOCTYPE html><html><head></head><body>", "<p>a <b>b</b></p>\n", "</body></html>```"), ("@html::parse ```<!DOCTYPE html><html><head></head><body><p>", "a &amp; b ", "</p></body></html>```"), ("@html::parse ```<!DOCTYPE html><html><head></head><body><table>", "<tr><td>x</td></tr>", "</table></body></html>```"),
    ("", "``` a\n", ""), ("", "```` b\n", ""), ("", "`c\n", ""), ("", "a`", ""), ("", "a``", ""), ("", "<!- ", ""), ("", "a&", ""), ("'", "a\\", "'"), ("'", "{$v}", "'"), ("\"", "a\n", "\""), ("", "$v::", "x"), ("", "b#>", ""), ("", "</b>", ""), ("", "}", ""), ("@f(", ")", ""), ("", "]", ""), ("", "->", ""), ("@fn f(", "$a#: list list int, ", ") $c -> $c"), ("@fn f($a: list", " list", " int) $c -> $c"), ("@let(x=", "1 ", ") {y}"), ("@match $v {", "->, ", "}"), ("<div ", "=", ">"), ("<div class=`", "a b ", "`>x</div>"), ("<", "a", ">x</>"), ("$", "a", ""), ("@implicit(", "i#=#, ", ") {@f {x}}"), ("@partial(", "#, ", ") @z"), ("@regex::compile `", "(a|b)*", "`"), ("@regex::compile `(?:", "ab#|", "c)`"), ("@str::from '", "a&amp;\\x41", "'"), ("@str::parse_int `", "1", "`"), ("@int::parse `", "0", "5`"), ("", "9", ""), ("@let(x=@regex::compile `a*`) {@regex::find_all($x) `", "b", "`}"), ("@regex::replace_all(@regex::compile `a`, `bb`) `", "ab", "`"), ("@regex::find_all(@regex::compile `a|b`) `", "ab", "`"),
    ("", "\n", "x"), ("", " ", "x"), ("", "-", ""), ("", "<", ""), ("", ".", ""), ("", "'", ""), ("", "\\", "\\"), ("", "&", ""), ("", "é", ""), ("", "0", ""), ("", "_", ""), ("# ", "c", "\n"), ("<!-- ", "- ", "-->"), ("", "@", ""), ("", "$", ""), ("", "=*|,:?", ""), ("@", "a::", "b"), ("$v", "?::a", ""), ("@fn f(", "$a#: int = 1, ", ") $c -> $c"), ("@fn f(", "$_a#, ", ") $c -> $c"),
];
/// How many families the two lists give.
pub fn families() -> usize { LONG.len() + PIECES.len() }
const BEFORE: &str = "@fn f $x -> <b>$x</b>\n@fn g($_a, $k=1) $x -> {$_a $k $x}\n@fn k($im: @implicit str = `none`) $x -> {$im $x}\n@fn w(**$kw) $x -> $x\n@fn z(*$_xs) $x -> $x\n@let(v=1, s=`abc`, h=<b class=`c`>x</b>, l=[1, 2, 3], n=., re=@regex::compile `a.`, d=@dict::new(a=1).) {\n";
const AFTER: &str = "\n}\n";
struct Fam { top: bool, pre: String, unit: String, post: String }
impl Fam {
    fn text(&self, n: usize) -> String {
        let mut t = String::new();
        if !self.top { t.push_str(BEFORE) }
        t.push_str(&self.pre);
        let parts: Vec<&str> = self.unit.split('#').collect();
        // a number follows the mark, anything else is a comment
        for k in 0..n { for (j, p) in parts.iter().enumerate() { if j > 0 { t.push_str(&k.to_string()) } t.push_str(p) } }
        t.push_str(&self.post);
        if !self.top { t.push_str(AFTER) }
        t
    }
}
fn clock() -> f64 { let mut t: libc::timespec = unsafe { std::mem::zeroed() }; unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) }; t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9 }
/// The allocator of the system, which can be asked how much was in use at most.
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn took(n: i64) { if ON.load(Relaxed) { let l = LIVE.fetch_add(n, Relaxed) + n; if n > 0 { PEAK.fetch_max(l, Relaxed); } } }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { took(l.size() as i64); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { took(-(l.size() as i64)); unsafe { System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { took(l.size() as i64); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { took(n as i64 - l.size() as i64); unsafe { System.realloc(p, l, n) } }
}
/// CPU seconds of compiling, rendering and describing a source text, and the
/// most memory in use meanwhile.
fn cost(src: &str) -> Result<(f64, f64), String> {
    let mut ctx = real::context();
    real::dump(src);
    real::guard(|| {
        LIVE.store(0, Relaxed); PEAK.store(0, Relaxed); ON.store(true, Relaxed);
        let t = clock();
        let r = ctx.compile_synthetic("<string>", src);
        let mut out = vec![];
        let _ = ctx.render(&r.out, true, &mut out);
        let _ = ctx.render(&r.out, false, &mut out);
        let d = format!("{:?}", ctx.diagnostics);
        let e = clock() - t;
        std::hint::black_box((out, d));
        (e, PEAK.load(Relaxed) as f64)
    }).map_err(|e| { ON.store(false, Relaxed); e }).map(|x| { ON.store(false, Relaxed); x })
}
/// Cost in proportion gives 1, cost with the square of the length gives `STEPS`.
const STEPS: [usize; 2] = [16, 64];
const LIMIT: f64 = 6.0;
const ROOM: f64 = 4.0;
const MANY: f64 = 4.0;
fn judge(cx: &mut Cx, f: &Fam) -> Out {
    let shown = |n: usize| { let t = f.text(n); format!("{n} times {:?} (source of {} bytes that begins {:?})", f.unit, t.len(), t.chars().take(300).collect::<String>()) };
    cx.nontrivial(&format!("{}|{}|{}", f.pre, f.unit, f.post));
    let wrong = |e: String, n: usize| bad("the compiler failed internally", shown(n), "output or diagnostics", e);
    // a size which can be measured; no more than 65536 distinct names, since the
    // hash function of the name tables spreads longer runs of similar names badly
    let most = if f.unit.contains('#') { 65536 / STEPS[1] } else { usize::MAX };
    let mut n = 8;
    loop {
        match cost(&f.text(n)) { Err(e) => return wrong(e, n), Ok((t, _)) if t > 0.008 || n * f.unit.len() > 30_000 || n >= most => break, _ => n *= 2 }
    }
    let mut small = f64::MAX;
    let a = f.text(n);
    let mut room = 0.0;
    for steps in STEPS {
        let (b, mut big) = (f.text(n * steps), f64::MAX);
        for round in 0.. {
            for _ in 0..3 { small = small.min(match cost(&a) { Ok((t, m)) => { room = m; t } Err(e) => return wrong(e, n) }) }
            let (t, m) = match cost(&b) { Ok(x) => x, Err(e) => return wrong(e, n * steps) };
            let more = m / room / steps as f64;
            if more > ROOM { return bad("compiling takes more memory than in proportion to the document", shown(n * steps), format!("less than {:.0} bytes, which is {ROOM} times {steps} times the {room} bytes for {n} repetitions", room * ROOM * steps as f64), format!("{m} bytes")) }
            if round == 0 && steps == STEPS[1] { cx.count(&format!("growth of memory relative to size:{}", if more < 0.5 { "below 0.5" } else if more < 1.0 { "0.5 to 1" } else if more < 1.5 { "1 to 1.5" } else if more < 2.0 { "1.5 to 2" } else if more < 3.0 { "2 to 3" } else { "3 to the limit" })); }
            big = big.min(t);
            let ratio = big / small.max(0.0005) / steps as f64;
            if ratio < LIMIT {
                if steps == STEPS[1] {
                    cx.count("families measured");
                    if ratio > 2.0 && std::env::var("PVH_COST").is_ok() { eprintln!("{ratio:.2} {big:.3}s {small:.4}s n={n} {:?} {:?}", f.pre, f.unit); }
                    cx.add("bytes of the largest documents", b.len() as u64);
                    cx.count(&format!("growth relative to size:{}", if ratio < 0.5 { "below 0.5" } else if ratio < 1.0 { "0.5 to 1" } else if ratio < 1.5 { "1 to 1.5" } else if ratio < 2.0 { "1.5 to 2" } else if ratio < 3.0 { "2 to 3" } else { "3 to the limit" }));
                }
                break;
            }
            if round == 3 || t > 8.0 {
                return bad("compiling takes more than in proportion to the document", shown(n * steps), format!("less than {:.2} s, which is {LIMIT} times {steps} times the {small:.4} s for {n} repetitions", small.max(0.0005) * LIMIT * steps as f64), format!("{big:.2} s"));
            }
        }
    }
    Out::Ok
}
pub fn c31_long(cx: &mut Cx, idx: u64) -> Out {
    let k = idx as usize % families();
    let top = |u: &str| u.contains("@export");
    let f = if k < LONG.len() { let (a, b, c) = LONG[k]; Fam { top: top(a), pre: a.into(), unit: b.into(), post: c.into() } } else { let u = PIECES[k - LONG.len()]; Fam { top: top(u), pre: String::new(), unit: u.into(), post: String::new() } };
    judge(cx, &f)
}
pub fn c31_mixed(cx: &mut Cx, idx: u64) -> Out {
    let mut r: Rng = cx.rng(3102, idx);
    let k = 2 + r.below(4);
    let unit: String = (0..k).map(|_| *r.pick(PIECES)).filter(|p| !p.contains("@export")).collect();
    if unit.is_empty() { return Out::Skip("nothing"); }
    let (pre, post) = *r.pick(&[("", ""), ("", ""), ("<div>", "</div>"), ("<p>", "</p>"), ("@f {", "}"), ("{", "}"), ("@page(`t`) {", "}"), ("<table><tr><td>", "</td></tr></table>"), ("@match 1 {_ -> {", "}}")]);
    judge(cx, &Fam { top: false, pre: pre.into(), unit, post: post.into() })
}

/// Documents, modules and files in growing number, for one run of the program.
const KINDS: &[&str] = &["documents", "documents that import one module", "documents that import each other's modules", "documents in folders", "documents with faults", "documents with ids", "documents unchanged", "modules imported", "modules included", "a module imported often", "a chain of includes of one level", "files listed", "files written", "files read", "faulty modules"];
fn lay(d: &Path, kind: &str, n: usize) -> Vec<String> {
    let put = |p: String, t: String| { let p = d.join(p); if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); } std::fs::write(p, t).unwrap() };
    let all = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    put("lib.lib.papyri".into(), "@export @fn f $x -> <b>$x</b>\n".into());
    let body = "some text with <b>tags</b> and \"quotes\"\n\n";
    let page = match kind {
        "documents" | "documents unchanged" => { for k in 0..n { put(format!("d{k}.papyri"), format!("page {k} {body}")) } None }
        "documents that import one module" => { for k in 0..n { put(format!("d{k}.papyri"), format!("@include `lib.lib`. @f {{page {k}}} {body}")) } None }
        "documents that import each other's modules" => { for k in 0..n { put(format!("m{k}.lib.papyri"), format!("@export(v={k}).")); put(format!("d{k}.papyri"), format!("@let(a=@import `m{k}.lib`, b=@import `m{}.lib`) {{$a::v $b::v}} {body}", (k + 1) % n)) } None }
        "documents in folders" => { for k in 0..n { put(format!("f{}/g{}/d{k}.papyri", k % 7, k % 31), format!("page {k} {body}")) } None }
        "documents with faults" => { for k in 0..n { put(format!("d{k}.papyri"), format!("page {k} $nope {body} ]")) } None }
        "documents with ids" => { for k in 0..n { put(format!("d{k}.papyri"), format!("@str::unique_id `a` @str::unique_id `a` {k} {body}")) } None }
        "modules imported" => { for k in 0..n { put(format!("m{k}.lib.papyri"), format!("@export(v={k}).")) } Some(all(&|k| format!("@let(m=@import `m{k}.lib`) {{$m::v}}\n"))) }
        "modules included" => { for k in 0..n { put(format!("m{k}.lib.papyri"), format!("@export(v{k}={k}). text {body}")) } Some(all(&|k| format!("@include `m{k}.lib`.\n$v{k} "))) }
        "a module imported often" => Some(all(&|k| format!("@let(m=@import `lib.lib`) {{@m::f {{{k}}}}}\n"))),
        "a chain of includes of one level" => { for k in 0..n { put(format!("m{k}.lib.papyri"), "@include `lib.lib`. @f {x}\n".into()) } Some(all(&|k| format!("@include `m{k}.lib`.\n"))) }
        "files listed" => { for k in 0..n { put(format!("l/n{}/m{k}.lib.papyri", k % 9), String::new()) } Some("@list::map(@fn $x -> <li>$x</li>) @file::list `l`\n".into()) }
        "files written" => Some(all(&|k| format!("@file::write(`w/p{k}.html`) <p>page {k}</p>\n"))),
        "files read" => { for k in 0..n { put(format!("t{k}.txt"), format!("text {k}")) } Some(all(&|k| format!("@file::read `t{k}.txt` "))) }
        _ => { for k in 0..n { put(format!("m{k}.lib.papyri"), format!("$nope @export(v={k}).")) } Some(all(&|k| format!("@let(m=@import `m{k}.lib`) {{$m::v}}\n"))) }
    };
    if let Some(t) = page { put("page.papyri".into(), format!("{t}{body}")) }
    give(d);
    let mut args = vec!["**/*.papyri".to_string()];
    if kind == "files written" { args = vec!["-o".into(), "out".into(), "page.papyri".into()] }
    if kind == "documents unchanged" { args.insert(0, "-u".into()) }
    args
}
fn spent() -> f64 { let mut u: libc::rusage = unsafe { std::mem::zeroed() }; unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut u) }; let s = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 * 1e-6; s(u.ru_utime) + s(u.ru_stime) }
pub fn c31_files(cx: &mut Cx, idx: u64) -> Out {
    let kind = KINDS[idx as usize % KINDS.len()];
    cx.nontrivial(kind);
    let (n, steps) = (150, 16);
    let mut t = vec![];
    for (k, n) in [(0, n), (1, n * steps)] {
        let dir = fresh(cx, "c31-", idx * 2 + k);
        let args = lay(&dir, kind, n);
        let mut best = f64::MAX;
        let mut gone = None;
        for _ in 0..if k == 0 { 3 } else { 1 + (best > 4.0) as usize } {
            if kind == "documents unchanged" { if let Err(e) = papyri(cx, &dir, &args[1..], None, &[], false) { gone = Some(e); break } }
            let a = spent();
            match papyri(cx, &dir, &args, None, &[], false) {
                Ok(r) if r.signal.is_some() || !matches!(r.code, Some(0 | 1)) => { gone = Some(format!("ended with {:?} {:?}: {}", r.code, r.signal, r.err.chars().take(300).collect::<String>())); break }
                Ok(_) => best = best.min(spent() - a),
                Err(e) => { gone = Some(e); break }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if let Some(e) = gone { return bad("a run with many files did not end well", format!("{n} {kind}, {args:?}"), "exit status 0 or 1", e) }
        t.push(best);
    }
    let ratio = t[1] / t[0].max(0.01) / steps as f64;
    cx.count("runs with many files measured");
    cx.count(&format!("growth with files relative to their number:{}", if ratio < 0.5 { "below 0.5" } else if ratio < 1.0 { "0.5 to 1" } else if ratio < 2.0 { "1 to 2" } else { "2 to the limit" }));
    if std::env::var("PVH_COST").is_ok() { eprintln!("{ratio:.2} {t:?} {kind}"); }
    if ratio < MANY { Out::Ok } else { bad("a run takes more than in proportion to the files", format!("{} {kind}", n * steps), format!("less than {:.2} s, which is {MANY} times {steps} times the {:.3} s for {n}", t[0].max(0.01) * MANY * steps as f64, t[0]), format!("{:.2} s", t[1])) }
}
