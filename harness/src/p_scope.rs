//! Direct phases for pattern matching, argument binding and scoping: programs
//! made of little else, with few names, so that the cases collide.
use std::rc::Rc;
use crate::ast::*;
use crate::gen::*;
use crate::p_diff::{self, any, Mode};
use crate::rng::Rng;
use crate::run::*;
use crate::value::T;

pub fn c15(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1501, idx);
    let xs = (0..4).map(|_| Gen::new(&mut r, Prof { fault: 0, ..prof(&["tag"]) }).match_probe()).collect();
    p_diff::exprs(cx, &mut r, xs, Mode::Coarse)
}

const PN: &[&str] = &["_a", "_b", "_c", "_d", "_e", "_f", "_g", "_h", "_i"];
const NN: &[&str] = &["m", "n", "o", "p", "q", "u", "v", "w", "x1", "x2"];
fn small_t(r: &mut Rng) -> T { match r.below(12) { 0..=3 => T::Any, 4 | 5 => T::Int, 6 | 7 => T::Str, 8 => T::Bool, 9 => T::Inline, 10 => T::Int.list(), _ => T::Html } }
fn val_for(r: &mut Rng, t: &T) -> E {
    if r.chance(1, 14) { return any(r, 1); }
    match t { T::Int => int(r.range(0, 9)), T::Str => s(*r.pick(&["s", "t", ""])), T::Bool => e(EK::Bool(r.chance(1, 2))), T::Inline | T::Html => tag("b", vec![], vec![]), T::List(_) => list(vec![int(r.range(0, 9))]), T::Opt(t) => if r.chance(1, 3) { unit_e() } else { val_for(r, t) }, _ => match r.below(4) { 0 => int(r.range(0, 9)), 1 => s("v"), 2 => unit_e(), _ => list(vec![]) } }
}
fn param(r: &mut Rng, n: &str, opt: bool, implicit: bool) -> Param {
    let mut p = Param::new(n, small_t(r));
    p.implicit = implicit;
    if opt { if !implicit && r.chance(1, 2) || p.ty.unit_ok() { if implicit { } else { p.default = Some(val_for(r, &p.ty.clone())) } } else { p.question = true } }
    // optional, and with a default of its own
    if p.default.is_some() && !p.ty.unit_ok() && r.chance(1, 3) { p.question = true }
    p
}
/// One function, called in some way with arguments that mostly fit.
fn binding(r: &mut Rng) -> E {
    let mut ps = Params::default();
    let wide = r.chance(1, 12);
    let np = r.below(if wide { 10 } else { 4 });
    let mut req = true;
    for n in &PN[..np] { if req && r.chance(1, if wide { 8 } else { 3 }) { req = false } ps.pos.push(param(r, n, !req, false)) }
    if r.chance(1, 4) { let mut p = Param::new("_s", small_t(r).list()); p.question = r.chance(1, 6); ps.spread = Some(p) }
    let nn = r.below(if wide { 11 } else { 4 });
    for n in &NN[..nn] { let implicit = r.chance(1, 4); let o = r.chance(1, 2); let p = param(r, n, o, implicit); ps.named.push(p) }
    ps.named.sort_by_key(|p| p.question || p.default.is_some());
    if r.chance(1, 4) { let mut p = Param::new("kw", if r.chance(1, 2) { T::Any } else { small_t(r) }.dict()); p.question = r.chance(1, 6); ps.named_spread = Some(p) }
    if r.chance(1, 2) { let mut p = Param::new("cc", small_t(r)); if r.chance(1, 3) && !p.ty.unit_ok() { p.question = true } ps.content = Some(p) }
    let mut out: Vec<E> = vec![];
    for p in ps.pos.iter().chain(&ps.spread).chain(&ps.named).chain(&ps.named_spread).chain(&ps.content) { out.push(var(&p.name)) }
    // arguments
    let mut pos_args: Vec<E> = vec![];
    let want = match r.below(8) { 0 => r.below(5), 1 => 0, _ => ps.pos.iter().filter(|p| !p.question && p.default.is_none()).count() + r.below(2) };
    for k in 0..want { let t = ps.pos.get(k).map(|p| p.full_ty()).unwrap_or_else(|| ps.spread.as_ref().map_or(T::Any, |p| p.ty.comp())); let v = val_for(r, &t); pos_args.push(v) }
    if ps.spread.is_some() { for _ in 0..r.below(if wide { 20 } else { 3 }) { let t = ps.spread.as_ref().unwrap().ty.comp(); let v = val_for(r, &t); pos_args.push(v) } }
    let mut named: Vec<(String, E)> = vec![];
    let mut imp: Vec<(String, E)> = vec![];
    for p in &ps.named {
        let need = !p.question && p.default.is_none();
        if p.implicit && r.chance(2, 3) { let t = p.full_ty(); let v = val_for(r, &t); imp.push((p.name.clone(), v)) }
        if need && !p.implicit && !r.chance(1, 20) || r.chance(1, 3) { let t = p.full_ty(); let v = val_for(r, &t); named.push((p.name.clone(), v)) }
        if r.chance(1, 30) { let v = val_for(r, &T::Any); named.push((p.name.clone(), v)) }
    }
    if ps.named_spread.is_some() || r.chance(1, 25) { for k in ["e1", "e2", "_a", "cc", "kw", "e1"] { if r.chance(1, 5) { let t = ps.named_spread.as_ref().map_or(T::Any, |p| p.ty.comp()); let v = val_for(r, &t); named.push((k.into(), v)) } } }
    r.shuffle(&mut named);
    let content = match &ps.content { Some(p) => if r.chance(1, 12) { unit_e() } else { let t = p.full_ty(); val_for(r, &t) }, None => if r.chance(1, 15) { any(r, 1) } else { unit_e() } };
    // a name may not be written twice in one call: later ones come by spread
    let pack = |r: &mut Rng, pos_args: Vec<E>, named: Vec<(String, E)>| -> Vec<Arg> {
        let mut args: Vec<Arg> = vec![];
        let at = if r.chance(1, 4) { r.below(pos_args.len() + 1) } else { pos_args.len() };
        let mut rest = vec![];
        for (i, v) in pos_args.into_iter().enumerate() { if i < at { args.push(arg(v)) } else { rest.push(v) } }
        if !rest.is_empty() || r.chance(1, 20) { if r.chance(1, 3) { let k = r.below(rest.len() + 1); let t = rest.split_off(k); args.push(Arg { kind: ArgK::Spread, value: list(rest), at: pos() }); args.extend(t.into_iter().map(arg)) } else { args.push(Arg { kind: ArgK::Spread, value: list(rest), at: pos() }) } }
        let mut seen: Vec<String> = vec![];
        let mut dict: Vec<Arg> = vec![];
        let mut third: Vec<Arg> = vec![];
        for (n, v) in named {
            if !seen.contains(&n) && r.chance(3, 4) { seen.push(n.clone()); args.push(narg(&n, v)) }
            else if dict.iter().any(|a| a.kind == ArgK::Named(n.clone())) { third.push(narg(&n, v)) }
            else { dict.push(narg(&n, v)) }
        }
        for d in [dict, third] { if !d.is_empty() { args.push(Arg { kind: ArgK::NamedSpread, value: call(native_name("dict::new"), d, unit_e()), at: pos() }) } }
        // now and then a spread of what is neither a list nor a dictionary
        if r.chance(1, 40) {
            let value = match r.below(5) { 0 => e(EK::Bare("word".into())), 1 => s("ab"), 2 => e(EK::Int(r.range(0, 3))), 3 => unit_e(), _ => any(r, 1) };
            if r.chance(1, 2) { args.push(Arg { kind: ArgK::NamedSpread, value, at: pos() }) } else { let k = args.iter().take_while(|a| matches!(a.kind, ArgK::Pos | ArgK::Spread)).count(); args.insert(k, Arg { kind: ArgK::Spread, value, at: pos() }) }
        }
        args
    };
    let def = e(EK::Fn(Rc::new(FnDef { name: if r.chance(1, 3) { Some("self_f".into()) } else { None }, params: ps, body: Rc::new(list(out)), sig_at: pos() })));
    // in one call, or bound in steps
    let steps = if r.chance(1, 2) { 0 } else { 1 + r.below(if wide { 7 } else { 3 }) };
    let mut vars: Vec<(String, E)> = vec![("f0".into(), def)];
    let mut content = Some(content);
    for k in 0..steps {
        let i = r.below(pos_args.len() + 1);
        let p1 = pos_args.drain(..i).collect();
        let j = r.below(named.len() + 1);
        let n1 = named.drain(..j).collect();
        let args = pack(r, p1, n1);
        let c = if r.chance(1, 8) { content.take().unwrap_or_else(unit_e) } else { unit_e() };
        let b = if r.chance(1, 2) { let mut v = vec![arg(var(&format!("f{k}")))]; v.extend(args); call(native_name("function::bind"), v, c) } else { call(dotted(&format!("f{k}"), &["bind"]), args, c) };
        vars.push((format!("f{}", k + 1), b));
    }
    let target = format!("f{steps}");
    let args = pack(r, pos_args, named);
    let content = match content { Some(c) => c, None => if r.chance(1, 6) { any(r, 1) } else { unit_e() } };
    let mk = |r: &mut Rng| -> E { if r.chance(1, 8) { let mut v = vec![arg(var(&target))]; v.extend(args.iter().cloned()); call(native_name("function::call"), v, content.clone()) } else { call(name(&target), args.clone(), content.clone()) } };
    // called twice: nothing of the first call may stick to the function
    let body = if r.chance(1, 4) { list(vec![mk(r), mk(r)]) } else { mk(r) };
    let body = if imp.is_empty() { body } else { e(EK::Let { implicit: true, vars: imp, child: Box::new(body) }) };
    e(EK::Let { implicit: false, vars, child: Box::new(body) })
}
pub fn c16(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1601, idx);
    let xs = (0..4).map(|_| binding(&mut r)).collect();
    p_diff::exprs(cx, &mut r, xs, Mode::Coarse)
}

const VN: &[&str] = &["x", "y"];
const FN: &[&str] = &["f", "g"];
struct Sc { vars: Vec<&'static str>, fns: Vec<&'static str>, n: i64 }
fn scope_e(r: &mut Rng, c: &mut Sc, d: i32) -> E {
    let lit = |c: &mut Sc| { c.n += 1; int(c.n) };
    if d <= 0 { return if r.chance(3, 4) { let n = if c.vars.is_empty() || r.chance(1, 20) { *r.pick(VN) } else { *r.pick(&c.vars) }; var(n) } else { lit(c) }; }
    fn within<X>(c: &mut Sc, k: impl FnOnce(&mut Sc) -> X) -> X { let (a, b) = (c.vars.clone(), c.fns.clone()); let x = k(c); c.vars = a; c.fns = b; x }
    let decl = |c: &mut Sc, n: &'static str| if !c.vars.contains(&n) { c.vars.push(n) };
    match r.below(12) {
        0 => lit(c),
        1 | 2 | 3 => within(c, |c| {
            let implicit = r.chance(1, 2);
            let mut vars: Vec<(String, E)> = vec![];
            for _ in 0..1 + r.below(2) {
                let n = *r.pick(VN);
                if vars.iter().any(|v| v.0 == n) { continue; }
                let v = scope_e(r, c, d - 2);
                vars.push((n.to_string(), v));
                decl(c, n);
            }
            let k = scope_e(r, c, d - 1);
            let k = if matches!(k.k, EK::Int(_)) { list(vec![k]) } else { k };
            e(EK::Let { implicit, vars, child: Box::new(k) })
        }),
        4 | 5 => within(c, |c| {
            // a function held in a variable
            let n = *r.pick(FN);
            let f = scope_fn(r, c, d - 1, None);
            if !c.fns.contains(&n) { c.fns.push(n) }
            let k = scope_e(r, c, d - 1);
            let k = if matches!(k.k, EK::Int(_)) { list(vec![k]) } else { k };
            let1(n, e(EK::Fn(Rc::new(f))), k)
        }),
        6 | 7 if !c.fns.is_empty() || r.chance(1, 20) => {
            let n = if c.fns.is_empty() { "f" } else { *r.pick(&c.fns) };
            let mut args = vec![];
            for v in VN { if r.chance(1, 6) { let x = scope_e(r, c, d - 2); args.push(narg(v, x)) } }
            call(name(n), args, if r.chance(1, 2) { unit_e() } else { scope_e(r, c, d - 2) })
        }
        8 => {
            let v = scope_e(r, c, d - 2);
            let p = match r.below(3) { 0 => P::Typed(T::Int), 1 => P::Typed(T::Any.list()), _ => P::Eq(int(c.n)) };
            let b1 = within(c, |c| { let n = *r.pick(VN); decl(c, n); (P::And(Box::new(P::Var(n.into(), pos())), Box::new(p)), scope_e(r, c, d - 1)) });
            let b2 = within(c, |c| { let n = *r.pick(VN); decl(c, n); (P::Var(n.into(), pos()), scope_e(r, c, d - 1)) });
            e(EK::Match { value: Box::new(v), branches: vec![b1, b2] })
        }
        9 => {
            let f = scope_fn(r, c, d - 1, Some("w"));
            let n = r.below(3); let l = (0..n).map(|_| scope_e(r, c, d - 2)).collect();
            call(native_name("list::map"), vec![arg(e(EK::Fn(Rc::new(f))))], list(l))
        }
        _ => { let n = 2 + r.below(2); list((0..n).map(|_| scope_e(r, c, d - 1)).collect()) }
    }
}
fn scope_fn(r: &mut Rng, c: &mut Sc, d: i32, content: Option<&str>) -> FnDef {
    let mut ps = Params::default();
    let (a, b) = (c.vars.clone(), c.fns.clone());
    for v in VN {
        match r.below(6) {
            0 => { let mut p = Param::new(v, T::Any); p.default = Some(scope_e(r, c, d - 2)); ps.named.push(p) }
            1 | 2 => { let mut p = Param::new(v, T::Any); p.implicit = true; match r.below(8) { 0..=2 => { p.ty = T::Int; p.question = true } 3 => { p.ty = small_t(r); p.question = !p.ty.unit_ok() && r.chance(2, 3) } _ => {} } ps.named.push(p) }
            _ => {}
        }
    }
    ps.named.sort_by_key(|p| p.question || p.default.is_some());
    for p in &ps.named { if let Some(n) = VN.iter().find(|n| **n == p.name) { if !c.vars.contains(n) { c.vars.push(n) } } }
    ps.content = match content { Some(n) => Some(Param::new(n, T::Any)), None if r.chance(1, 2) => { let n = VN.iter().find(|n| !ps.named.iter().any(|p| p.name == **n)).copied(); match n { Some(n) if r.chance(1, 2) => { if !c.vars.contains(&n) { c.vars.push(n) } Some(Param::new(n, T::Any)) } _ => Some(Param::new("w", T::Any)) } } None => Some(Param::new("w", T::Any)) };
    let body = scope_e(r, c, d);
    c.vars = a; c.fns = b;
    let body = if ps.content.as_ref().map_or(false, |p| p.name == "w") && r.chance(1, 2) { list(vec![var("w"), body]) } else { body };
    FnDef { name: None, params: ps, body: Rc::new(body), sig_at: pos() }
}
pub fn c17(cx: &mut Cx, idx: u64) -> Out {
    let mut r = cx.rng(1701, idx);
    let mut items = vec![Item::Fn(repr_fn()), Item::Ws];
    let mut c = Sc { vars: vec![], fns: vec![], n: 10 };
    let show = |x: E| Item::Expr(tag("div", vec![], vec![Item::Expr(call(name("repr"), vec![], x))]));
    for k in 0..2 + r.below(3) {
        if r.chance(1, 4) {
            // a function declared in the document itself; the name is new, so nothing is redeclared
            let n: &'static str = ["h0", "h1", "h2", "h3", "h4"][k];
            let mut f = scope_fn(&mut r, &mut c, 3, None);
            f.name = Some(n.into());
            c.fns.push(n);
            items.push(Item::Fn(Rc::new(f)));
        } else {
            let start = r.chance(3, 4);
            if start { c.vars = VN.to_vec() }
            let mut x = scope_e(&mut r, &mut c, 5);
            c.vars.clear();
            if start { if matches!(x.k, EK::Int(_)) { x = list(vec![x]) } let i = r.chance(1, 3); x = e(EK::Let { implicit: i, vars: vec![("x".into(), int(1)), ("y".into(), int(2))], child: Box::new(x) }) }
            if r.chance(1, 6) {
                // declared within a group, whose functions stay visible after it
                let mut f = scope_fn(&mut r, &mut c, 2, None);
                let n: &'static str = ["q0", "q1", "q2", "q3", "q4"][k];
                f.name = Some(n.into());
                x = list(vec![group(vec![Item::Fn(Rc::new(f)), Item::Expr(call(name("repr"), vec![], x))]), call(name(n), vec![], unit_e())]);
                c.fns.push(n);
            }
            items.push(show(x));
        }
        items.push(Item::Ws);
    }
    clean(&mut items);
    let src = print_items(&items, Some(&mut r));
    cx.nontrivial(&src);
    p_diff::judge(cx, &items, &src, Mode::Coarse)
}
