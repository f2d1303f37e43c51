//! Runs the compiler under test and reads its diagnostics back.
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use std::cell::RefCell;
use crate::interp::Diag;

#[derive(Debug, Clone, PartialEq)]
pub struct Loc { pub file: String, pub line: u32, pub col: u32, pub func: Option<String> }
#[derive(Debug, Clone)]
pub struct RDiag { pub msg: String, pub cat: String, pub at: Loc, pub trace: Option<Vec<Loc>> }
#[derive(Debug, Clone)]
pub struct Real { pub html: String, pub text: String, pub diags: Vec<RDiag>, pub errors: u32, pub warnings: u32 }

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}
/// Runs `f`; a panic is returned as its message.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
pub fn context() -> Context { Context::new(ReportingLevel::Warning, None, None) }
pub fn compile(src: &str) -> Result<Real, String> { guard(|| compile_in(&mut context(), src)).and_then(|r| r) }
/// Where asked, notes the source about to be compiled, for the report of a crash.
pub fn dump(src: &str) { if let Ok(p) = std::env::var("PVH_DUMP") { let _ = std::fs::write(p, src); } }
pub fn compile_in(ctx: &mut Context, src: &str) -> Result<Real, String> {
    dump(src);
    let r = ctx.compile_synthetic("<string>", src);
    finish(ctx, &r.out)
}
pub fn render(ctx: &Context, out: &papyri_lang::compiler::HTML, as_html: bool) -> Result<String, String> {
    let mut v = vec![];
    ctx.render(out, as_html, &mut v).map_err(|e| format!("render failed: {e}"))?;
    String::from_utf8(v).map_err(|e| format!("rendered output is not UTF-8: {e}"))
}
pub fn finish(ctx: &Context, out: &papyri_lang::compiler::HTML) -> Result<Real, String> {
    let html = render(ctx, out, true)?;
    let text = render(ctx, out, false)?;
    Ok(Real { html, text, diags: diags(ctx)?, errors: ctx.diagnostics.num_errors, warnings: ctx.diagnostics.num_warnings })
}
fn loc(line: &str) -> Option<Loc> {
    let r = line.strip_prefix("    File \"")?;
    let i = r.rfind("\", line ")?;
    let (file, r) = (&r[..i], &r[i + 8..]);
    let (l, r) = r.split_once(", col ")?;
    let (c, func) = match r.split_once(", in ") { Some((c, f)) => (c, Some(f.to_string())), None => (r, None) };
    Some(Loc { file: file.to_string(), line: l.parse().ok()?, col: c.parse().ok()?, func })
}
pub fn diags(ctx: &Context) -> Result<Vec<RDiag>, String> {
    let msgs = RefCell::new(vec![]);
    ctx.diagnostics.has_any(|e| { msgs.borrow_mut().push(e.to_string()); false });
    let all = guard(|| format!("{:?}", ctx.diagnostics)).map_err(|p| format!("printing diagnostics panicked: {p}"))?;
    parse_diags(&all, &msgs.into_inner())
}
pub fn parse_diags(all: &str, msgs: &[String]) -> Result<Vec<RDiag>, String> {
    let mut rest = all;
    let mut out = vec![];
    fn line<'a>(rest: &mut &'a str) -> &'a str { let i = rest.find('\n').map_or(rest.len(), |i| i); let l = &rest[..i]; *rest = &rest[(i + 1).min(rest.len())..]; l }
    for m in msgs {
        let bad = |rest: &str| format!("unreadable diagnostic {m:?} in {rest:?}");
        let cat = m.split(':').next().unwrap_or("").to_string();
        let whole = format!("{m}\n");
        if rest.starts_with("Traceback (most recent call last):\n") && !m.starts_with("Traceback") {
            line(&mut rest);
            let mut ls = vec![];
            while !rest.starts_with(&whole) || rest.starts_with("    File \"") { let r0 = rest; if rest.is_empty() { return Err(bad(r0)); } ls.push(loc(line(&mut rest)).ok_or_else(|| bad(r0))?) }
            rest = &rest[whole.len()..];
            let at = ls.pop().ok_or_else(|| bad(rest))?;
            out.push(RDiag { msg: m.clone(), cat, at, trace: Some(ls) });
        } else if rest.starts_with(&whole) {
            rest = &rest[whole.len()..];
            let at = loc(line(&mut rest)).ok_or_else(|| bad(rest))?;
            out.push(RDiag { msg: m.clone(), cat, at, trace: None });
        } else { return Err(bad(rest)); }
    }
    Ok(out)
}
/// Compares reported diagnostics with the expected ones, in order.
pub fn same_diags(exp: &[Diag], got: &[RDiag]) -> Result<(), String> {
    let okpos = |e: (u32, u32), l: &Loc| if e == (0, 0) { true } else { l.file == "<string>" && (l.line, l.col) == e };
    for i in 0..exp.len().max(got.len()) {
        let (e, g) = match (exp.get(i), got.get(i)) { (Some(e), Some(g)) => (e, g), (Some(e), None) => return Err(format!("missing diagnostic #{i}: expected {e:?}")), (None, Some(g)) => return Err(format!("surplus diagnostic #{i}: {g:?}")), _ => unreachable!() };
        let ok = e.cat == g.cat && okpos(e.at, &g.at) && match (&e.trace, &g.trace) {
            (None, t) => t.is_none(),
            (Some(_), None) => false,
            (Some(t), Some(u)) => t.len() == u.len() && (0..=t.len()).all(|k| {
                let f = if k == 0 { None } else { Some(format!("@{}", t[k - 1].1)) };
                let l = if k == t.len() { &g.at } else { &u[k] };
                (k == t.len() || okpos(t[k].0, l)) && f == l.func
            }),
        };
        if !ok { return Err(format!("diagnostic #{i}: expected {e:?}\n  reported {g:?}")); }
    }
    Ok(())
}
