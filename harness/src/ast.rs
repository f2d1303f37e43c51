//! Programs as trees, and a printer that turns them into source text while
//! recording where every node starts (line, column in characters).
use std::cell::Cell;
use std::rc::Rc;
use crate::rng::Rng;
use crate::value::T;

pub type Pos = Cell<(u32, u32)>;
#[derive(Debug, Clone)]
pub struct E { pub k: EK, pub at: Pos }
pub fn e(k: EK) -> E { E { k, at: Cell::new((0, 0)) } }
#[derive(Debug, Clone)]
pub enum EK {
    Unit, Bool(bool), Int(i64), Str(String), Bare(String),
    List(Vec<(E, bool)>),
    Tmpl(Vec<TPart>),
    Name(Name),
    Call(Box<Call>),
    Fn(Rc<FnDef>),
    Let { implicit: bool, vars: Vec<(String, E)>, child: Box<E> },
    Match { value: Box<E>, branches: Vec<(P, E)> },
    Group(Vec<Item>),
    Tag(Box<TagE>),
}
#[derive(Debug, Clone)]
pub struct Call { pub f: Name, pub args: Vec<Arg>, pub content: E }
#[derive(Debug, Clone)]
pub struct Name { pub base: String, pub path: Vec<(bool, Sel)>, pub at: Pos }
#[derive(Debug, Clone)]
pub enum Sel { Attr(String), Idx(i64) }
#[derive(Debug, Clone)]
pub struct Arg { pub kind: ArgK, pub value: E, pub at: Pos }
#[derive(Debug, Clone, PartialEq)]
pub enum ArgK { Pos, Spread, Named(String), NamedSpread }
#[derive(Debug, Clone)]
pub enum TPart { Lit(String), Var(Name), Ws }
#[derive(Debug, Clone)]
pub struct FnDef { pub name: Option<String>, pub params: Params, pub body: Rc<E>, pub sig_at: Pos }
#[derive(Debug, Clone, Default)]
pub struct Params { pub pos: Vec<Param>, pub spread: Option<Param>, pub named: Vec<Param>, pub named_spread: Option<Param>, pub content: Option<Param> }
#[derive(Debug, Clone)]
pub struct Param { pub name: String, pub ty: T, pub question: bool, pub implicit: bool, pub default: Option<E>, pub at: Pos }
impl Param {
    pub fn new(name: &str, ty: T) -> Param { Param { name: name.to_string(), ty, question: false, implicit: false, default: None, at: Cell::new((0, 0)) } }
    pub fn full_ty(&self) -> T { if self.question { self.ty.clone().opt() } else { self.ty.clone() } }
}
#[derive(Debug, Clone)]
pub enum Item { Text(String, Pos), Ws, Para(Pos), Expr(E), Fn(Rc<FnDef>), Export(Vec<(String, E)>), ExportFn(Rc<FnDef>), ExportLet(Vec<(String, E)>) }
pub fn txt(s: &str) -> Item { Item::Text(s.to_string(), Cell::new((0, 0))) }
#[derive(Debug, Clone)]
pub struct TagE { pub name: TName, pub attrs: Vec<AttrE>, pub children: Vec<Item>, pub self_close: bool }
#[derive(Debug, Clone)]
pub enum TName { Lit(String), Var(Name) }
#[derive(Debug, Clone)]
pub struct AttrE { pub k: AttrK, pub at: Pos }
#[derive(Debug, Clone)]
pub enum AttrK { Val(String, bool, E), Bare(String), Spread(E) }
#[derive(Debug, Clone)]
pub enum P {
    Ignore, None, Var(String, Pos), And(Box<P>, Box<P>), Or(Box<P>, Box<P>), Eq(E), Typed(T), TypeOf(String, Pos),
    Seq { list: bool, pre: Vec<P>, spread: Option<Box<P>>, post: Vec<P> },
    Dict(Vec<(String, P)>, Option<Box<P>>),
    Tag { name: PName, attrs: Vec<(String, P)>, spread: Option<Box<P>>, content: Box<P> },
    Tmpl(Vec<PTPart>),
}
#[derive(Debug, Clone)]
pub enum PName { Any, Lit(String), Var(String, Pos) }
#[derive(Debug, Clone)]
pub enum PTPart { Lit(String), Var(String, Pos), Ws }

pub fn pos() -> Pos { Cell::new((0, 0)) }
pub fn name(n: &str) -> Name { Name { base: n.to_string(), path: vec![], at: pos() } }
pub fn dotted(n: &str, path: &[&str]) -> Name { Name { base: n.to_string(), path: path.iter().map(|s| (false, Sel::Attr(s.to_string()))).collect(), at: pos() } }
pub fn var(n: &str) -> E { e(EK::Name(name(n))) }
pub fn s(x: &str) -> E { e(EK::Str(x.to_string())) }
pub fn int(x: i64) -> E { e(EK::Int(x)) }
pub fn call(f: Name, args: Vec<Arg>, content: E) -> E { e(EK::Call(Box::new(Call { f, args, content }))) }
pub fn arg(value: E) -> Arg { Arg { kind: ArgK::Pos, value, at: pos() } }
pub fn narg(n: &str, value: E) -> Arg { Arg { kind: ArgK::Named(n.to_string()), value, at: pos() } }
pub fn list(xs: Vec<E>) -> E { e(EK::List(xs.into_iter().map(|x| (x, false)).collect())) }
pub fn group(items: Vec<Item>) -> E { e(EK::Group(items)) }
pub fn unit_e() -> E { e(EK::Unit) }
pub fn tag(n: &str, attrs: Vec<AttrE>, children: Vec<Item>) -> E { e(EK::Tag(Box::new(TagE { name: TName::Lit(n.to_string()), attrs, children, self_close: false }))) }

pub struct Printer<'a> { pub out: String, line: u32, col: u32, rng: Option<&'a mut Rng> }
fn is_id(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
pub fn is_ident(s: &str) -> bool { let mut c = s.chars(); matches!(c.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && c.all(is_id) }

impl<'a> Printer<'a> {
    /// With a generator, layout (spaces, line breaks, comments, alternative spellings) varies.
    pub fn new(rng: Option<&'a mut Rng>) -> Printer<'a> { Printer { out: String::new(), line: 1, col: 1, rng } }
    fn p(&mut self, s: &str) {
        for c in s.chars() { if c == '\n' { self.line += 1; self.col = 1 } else { self.col += 1 } }
        self.out.push_str(s);
    }
    fn here(&self) -> (u32, u32) { (self.line, self.col) }
    fn last(&self) -> char { self.out.chars().last().unwrap_or(' ') }
    fn r(&mut self, num: u32, den: u32) -> bool { match &mut self.rng { Some(r) => r.chance(num, den), None => false } }
    /// A mandatory whitespace run without a paragraph break.
    fn ws(&mut self) {
        let k = match &mut self.rng { Some(r) => r.below(25), None => 0 };
        let t = match k { 0..=13 => " ", 14 => "  ", 15..=17 => "\n", 18 | 19 => "\n  ", 20 => "\t", 21 => " # cömment → $x {\n", 22 => " <!-- ünï <b> --> ", 23 => " <!--> ü --> ", _ => " \n\t" };
        self.p(t);
    }
    /// An optional whitespace run.
    fn sp(&mut self) { if self.r(1, 8) { self.ws() } }
    fn comma(&mut self) { if self.r(1, 12) { self.ws() } self.p(",") }
    fn sp1(&mut self) { if self.rng.is_none() || self.r(3, 4) { self.ws() } }
    /// Ends the previous token if the next character could merge with it.
    fn sep_before(&mut self, next: char) {
        let l = self.last();
        let merge = (is_id(l) && (is_id(next) || next == ':' || next == '?')) || (l == '.' && next == '.') || (l == ':' && next == ':') || (l == '-' && (next == '-' || next == '>' || next.is_ascii_digit()))
            || (l == '*' && next == '*') || (l == '`' && next == '`') || (l == '/' && next == '>') || (l == '$' || l == '@' || l == '\\' || l == '&');
        if merge { self.p("<!---->") }
    }
    fn name(&mut self, sigil: &str, n: &Name) {
        n.at.set(self.here());
        self.p(sigil); self.p(&n.base);
        for (co, sel) in &n.path {
            self.p(if *co { "?::" } else { "::" });
            match sel { Sel::Attr(a) => self.p(a), Sel::Idx(i) => { let t = i.to_string(); self.p(&t) } }
        }
    }
    pub fn str_lit(&mut self, t: &str) {
        if !t.is_empty() && !t.starts_with('`') && !t.ends_with('`') && !self.r(1, 6) {
            let mut run = 0; let mut max = 0;
            for c in t.chars() { if c == '`' { run += 1; max = max.max(run) } else { run = 0 } }
            let mut d = max + 1;
            if t.contains('\n') { d = d.max(3) }
            let q = "`".repeat(d);
            self.p(&q); self.p(t); self.p(&q);
        } else { self.tmpl(&[TPart::Lit(t.to_string())]) }
    }
    fn tmpl_lit(&mut self, t: &str) {
        for c in t.chars() {
            let plain = c.is_ascii_alphanumeric() || (!c.is_ascii() && !c.is_whitespace() && !c.is_control());
            if plain && !self.r(1, 30) { let l = self.last(); if is_id(c) && (l == '&' || l == '$' || l == '@') { self.p("\\c"); } let mut b = [0; 4]; let s = c.encode_utf8(&mut b).to_string(); self.p(&s); }
            else { let u = c as u32; let t = if u < 256 { format!("\\x{u:02x}") } else if u < 65536 { format!("\\u{u:04X}") } else { format!("\\U{u:08x}") }; self.p(&t); }
        }
    }
    /// Something between two parts of a template that adds nothing to it.
    fn tmpl_noise(&mut self) {
        if self.r(1, 24) { let t = if self.r(1, 3) { "{}" } else if self.r(1, 2) { "{ }" } else if self.r(1, 2) { "<!-- ' -->" } else { "{{ \n}}" }; self.p(t) }
    }
    fn tmpl(&mut self, parts: &[TPart]) {
        let q = if self.r(1, 2) { "'" } else { "\"" };
        self.p(q);
        for (i, part) in parts.iter().enumerate() {
            self.tmpl_noise();
            match part {
                TPart::Lit(t) => self.tmpl_lit(t),
                TPart::Ws => { let t = if self.r(1, 3) { "\n " } else { " " }; self.p(t) }
                TPart::Var(n) => {
                    let next_lit = matches!(parts.get(i + 1), Some(TPart::Lit(_)));
                    if next_lit || self.r(1, 4) { let t = if self.r(1, 6) { "{ " } else { "{" }; self.p(t); self.name("$", n); let t = if self.r(1, 6) { " }" } else { "}" }; self.p(t) } else { self.name("$", n) }
                }
            }
        }
        self.tmpl_noise();
        self.p(q);
    }
    fn ty(&mut self, t: &T) {
        match t {
            T::Opt(t) => { self.ty(t); self.sp(); self.p("?") }
            T::List(t) => if **t == T::Any && self.r(1, 2) { self.p("list") } else { self.ty(t); self.p(" list") },
            T::Dict(t) => if **t == T::Any && self.r(1, 2) { self.p("dict") } else { self.ty(t); self.p(" dict") },
            t => self.p(&t.show()),
        }
    }
    fn param(&mut self, prefix: &str, p: &Param, simple: bool) {
        p.at.set(self.here());
        self.p(prefix); if !prefix.is_empty() { self.sp() } self.p("$"); self.p(&p.name);
        if p.question { self.sp(); self.p("?") }
        if p.implicit || p.ty != T::Any { self.sp() }
        if p.implicit { self.p(": @implicit "); self.ty(&p.ty) }
        else if p.ty != T::Any || (!simple && self.r(1, 4)) { self.p(":"); self.sp1(); self.ty(&p.ty) }
        if let Some(d) = &p.default { self.p(" ="); self.sp1(); self.expr(d, false) }
    }
    fn fndef(&mut self, d: &FnDef) {
        self.p("@fn");
        if let Some(n) = &d.name { self.p(" "); self.p(n) }
        let ps = &d.params;
        let n = ps.pos.len() + ps.named.len() + ps.spread.is_some() as usize + ps.named_spread.is_some() as usize;
        let mut set = false;
        if n > 0 {
            if d.name.is_none() { self.sp1() } else { self.sp() }
            d.sig_at.set(self.here()); set = true;
            self.p("(");
            let all: Vec<(&str, &Param)> = ps.pos.iter().map(|p| ("", p)).chain(ps.spread.iter().map(|p| ("*", p))).chain(ps.named.iter().map(|p| ("", p))).chain(ps.named_spread.iter().map(|p| ("**", p))).collect();
            for (i, (pre, p)) in all.iter().enumerate() {
                if i > 0 { self.comma(); self.sp1() } else { self.sp() }
                self.param(pre, p, false);
            }
            if self.r(1, 6) { self.comma() }
            self.sp();
            self.p(")");
        }
        self.sp1();
        if !set { if self.last() != ' ' && self.last() != '\n' { self.p(" ") } d.sig_at.set(self.here()) }
        match &ps.content { None => self.p("."), Some(c) => self.param("", c, true) }
        self.p(" ->"); self.sp1();
        self.expr(&d.body, false);
    }
    fn args(&mut self, args: &[Arg]) {
        self.sp();
        self.p("(");
        for (i, a) in args.iter().enumerate() {
            if i > 0 { self.comma(); self.sp1() } else { self.sp() }
            let at = self.here();
            match &a.kind {
                ArgK::Pos => { self.expr(&a.value, false); a.at.set(a.value.at.get()); continue }
                ArgK::Spread => { self.p("*"); self.sp() }
                ArgK::Named(n) => { self.p(n); self.sp(); self.p("="); self.sp() }
                ArgK::NamedSpread => { self.p("**"); self.sp() }
            }
            a.at.set(at);
            self.expr(&a.value, false);
        }
        if !args.is_empty() && self.r(1, 8) { self.comma() }
        self.sp();
        self.p(")");
    }
    fn named(&mut self, vars: &[(String, E)]) {
        self.p("(");
        for (i, (n, v)) in vars.iter().enumerate() {
            if i > 0 { self.comma(); self.sp1() }
            self.p(n); self.sp(); self.p("="); self.sp();
            self.expr(v, false);
        }
        self.p(")");
    }
    /// `tail`: the expression ends its enclosing braces or tag, so a group may be written as an ellipsis group.
    pub fn expr(&mut self, x: &E, tail: bool) {
        let first = match &x.k { EK::Bare(_) | EK::Bool(_) => 'a', EK::Int(i) => if *i < 0 { '-' } else { '0' }, EK::Unit => '.', EK::Str(_) => '`', _ => '{' };
        self.sep_before(first);
        x.at.set(self.here());
        match &x.k {
            EK::Unit => self.p("."),
            EK::Bool(b) => self.p(if *b { "True" } else { "False" }),
            EK::Int(i) => { let t = if self.r(1, 16) { format!("{}{}{}", if *i < 0 || (*i == 0 && self.r(1, 2)) { "-" } else { "" }, "0".repeat(if self.r(1, 2) { 1 } else { 2 }), i.unsigned_abs()) } else { i.to_string() }; self.p(&t) }
            EK::Bare(t) => self.p(t),
            EK::Str(t) => self.str_lit(t),
            EK::List(xs) => {
                self.p("[");
                for (i, (x, spread)) in xs.iter().enumerate() {
                    if i > 0 { self.comma(); self.sp1() } else { self.sp() }
                    if *spread { self.p("*"); self.sp() }
                    self.expr(x, false);
                }
                if !xs.is_empty() && self.r(1, 8) { self.comma() }
                self.sp();
                self.p("]");
            }
            EK::Tmpl(ps) => self.tmpl(ps),
            EK::Name(n) => self.name("$", n),
            EK::Call(c) => {
                self.name("@", &c.f);
                if !c.args.is_empty() || self.r(1, 10) { self.args(&c.args) }
                self.content(&c.content, tail);
            }
            EK::Fn(d) => self.fndef(d),
            EK::Let { implicit, vars, child } => {
                self.p(if *implicit { "@implicit" } else { "@let" });
                self.named(vars);
                self.content(child, tail);
            }
            EK::Match { value, branches } => {
                self.p("@match"); self.ws();
                self.expr(value, false);
                self.ws(); self.p("{"); self.sp();
                for (i, (p, h)) in branches.iter().enumerate() {
                    if i > 0 { self.comma(); self.ws() }
                    self.pat(p);
                    self.p(" ->"); self.sp1();
                    self.expr(h, false);
                }
                self.sp();
                self.p("}");
            }
            EK::Group(items) => { self.p("{"); self.sp(); self.items(items); self.sp(); self.p("}") }
            EK::Tag(t) => self.tag(t, x),
        }
    }
    fn content(&mut self, c: &E, tail: bool) {
        if let (true, EK::Group(items)) = (tail, &c.k) {
            if !items.is_empty() && self.r(1, 2) {
                self.sep_before('.');
                c.at.set(self.here());
                self.p("...");
                self.sp1();
                self.items(items);
                return;
            }
        }
        let l = self.last();
        let bare = matches!(&c.k, EK::Bare(_) | EK::Bool(_) | EK::Int(_)) || (matches!(&c.k, EK::Unit) && l == '.');
        if bare || self.r(2, 3) || self.rng.is_none() { self.ws() }
        self.expr(c, tail);
    }
    fn tag(&mut self, t: &TagE, _x: &E) {
        self.p("<");
        match &t.name { TName::Lit(n) => { let n = if self.r(1, 8) && n != "!DOCTYPE" { n.to_uppercase() } else { n.clone() }; self.p(&n) } TName::Var(n) => self.name("$", n) }
        for a in &t.attrs {
            self.ws();
            match &a.k {
                AttrK::Bare(n) => { a.at.set(self.here()); self.p(n) }
                AttrK::Val(n, q, v) => { a.at.set(self.here()); self.p(n); self.sp(); if *q { self.p("?"); self.sp() } self.p("="); self.sp(); self.expr(v, false) }
                AttrK::Spread(v) => { self.p("**"); self.sp(); self.expr(v, false); a.at.set(v.at.get()) }
            }
        }
        if t.self_close { let sp = self.last() == '/' || self.last() == '.' || self.r(1, 3); self.p(if sp { " />" } else { "/>" }); return; }
        if self.r(1, 12) { self.ws() }
        self.p(">");
        if let TName::Lit(n) = &t.name { if crate::value::is_void(n) { return; } }
        self.sp();
        self.items(&t.children);
        self.sp();
        match &t.name { TName::Lit(n) if !self.r(1, 2) => { let n = if self.r(1, 6) { n.to_uppercase() } else { n.clone() }; let c = format!("</{n}>"); self.p(&c) } _ => self.p("</>") }
    }
    pub fn items(&mut self, items: &[Item]) {
        let n = items.len();
        for (i, it) in items.iter().enumerate() {
            match it {
                Item::Text(t, at) => { let f = t.chars().next().unwrap_or(' '); self.sep_before(f); at.set(self.here()); self.p(t) }
                Item::Ws => self.ws(),
                Item::Para(at) => { at.set(self.here()); let t = match &mut self.rng { Some(r) => *r.pick(&["\n\n", "\n  \n", "\n\n\n  "]), None => "\n\n" }; self.p(t) }
                Item::Expr(x) => self.expr(x, i + 1 == n),
                Item::Fn(d) => { self.fndef(d) }
                Item::Export(vars) => { self.p("@export"); self.named(vars); self.p(".") }
                Item::ExportFn(d) => { self.p("@export"); self.ws(); self.fndef(d) }
                Item::ExportLet(vars) => { self.p("@export"); self.ws(); self.p("@let"); self.named(vars); self.p("."); }
            }
        }
    }
    fn pat(&mut self, p: &P) {
        match p {
            P::Ignore => self.p("_"),
            P::None => { let t = if self.r(1, 5) { "{}" } else { "." }; self.p(t) }
            P::Var(v, at) => { at.set(self.here()); self.p("$"); self.p(v) }
            P::And(a, b) => {
                if let (P::Typed(t), P::Var(v, at)) = (&**a, &**b) {
                    at.set(self.here()); self.p("$"); self.p(v); self.p(":"); self.sp1(); self.ty(t);
                } else if let (P::TypeOf(t, tat), P::Var(v, at)) = (&**a, &**b) {
                    at.set(self.here()); self.p("$"); self.p(v); self.p(":"); self.sp1(); tat.set(self.here()); self.p("$"); self.p(t);
                } else { self.pat(a); self.p(" &"); self.sp1(); self.pat(b) }
            }
            P::Or(a, b) => { self.pat(a); self.p(" |"); self.sp1(); self.pat(b) }
            P::Eq(x) => {
                match &x.k {
                    EK::Bool(_) | EK::Int(_) => if self.r(1, 4) { self.p("=") },
                    EK::Str(t) if !t.is_empty() && !t.starts_with('`') && !t.ends_with('`') => if self.r(1, 4) { self.p("=") },
                    _ => self.p("="),
                }
                self.expr(x, false)
            }
            P::Typed(t) => { self.p("_:"); self.sp1(); self.ty(t) }
            P::TypeOf(v, at) => { self.p("_:"); self.sp1(); at.set(self.here()); self.p("$"); self.p(v) }
            P::Seq { list, pre, spread, post } => {
                self.p(if *list { "[" } else { "{" });
                let mut first = true;
                let mut sep = |s: &mut Self| { if !first { if *list { s.p(","); s.sp1() } else { s.ws() } } first = false; };
                for p in pre { sep(self); self.pat(p) }
                if let Some(p) = spread { sep(self); if matches!(**p, P::Ignore) && self.r(1, 2) { self.p("...") } else { self.p("*"); self.sp(); self.pat(p) } }
                for p in post { sep(self); self.pat(p) }
                self.p(if *list { "]" } else { "}" });
            }
            P::Dict(attrs, spread) => {
                self.p("(");
                let mut first = true;
                for (n, p) in attrs { if !first { self.comma(); self.sp1() } first = false; self.p(n); self.sp(); self.p("="); self.sp(); self.pat(p) }
                if let Some(p) = spread { if !first { self.comma(); self.sp1() } if matches!(**p, P::Ignore) && self.r(1, 2) { self.p("...") } else { self.p("**"); self.sp(); self.pat(p) } }
                self.p(")");
            }
            P::Tag { name, attrs, spread, content } => {
                self.p("<");
                match name { PName::Any => self.p("_"), PName::Lit(n) => { let n = if self.r(1, 8) { n.to_uppercase() } else { n.clone() }; self.p(&n) } PName::Var(v, at) => { at.set(self.here()); self.p("$"); self.p(v) } }
                for (n, p) in attrs { self.ws(); self.p(n); if matches!(p, P::None) && self.r(1, 2) { } else { self.sp(); self.p("="); self.sp(); self.pat(p) } }
                if let Some(p) = spread { self.ws(); if matches!(**p, P::Ignore) && self.r(1, 2) { self.p("...") } else { self.p("**"); self.sp(); self.pat(p) } }
                let void = matches!(name, PName::Lit(n) if crate::value::is_void(n));
                if matches!(**content, P::None) && !void && self.r(1, 3) { self.p(" />"); return; }
                self.p(">");
                if void { return; }
                self.sp();
                if !(matches!(**content, P::None) && self.r(1, 2)) { self.pat(content); self.sp(); }
                match name { PName::Lit(n) if !self.r(1, 2) => { let c = format!("</{n}>"); self.p(&c) } _ => self.p("</>") }
            }
            P::Tmpl(parts) => {
                let q = if self.r(1, 2) { "'" } else { "\"" };
                self.p(q);
                for (i, part) in parts.iter().enumerate() {
                    self.tmpl_noise();
                    match part {
                        PTPart::Lit(t) => self.tmpl_lit(t),
                        PTPart::Ws => self.p(" "),
                        PTPart::Var(v, at) => {
                            let brace = matches!(parts.get(i + 1), Some(PTPart::Lit(_)));
                            if brace { self.p("{") }
                            at.set(self.here()); self.p("$"); self.p(v);
                            if brace { self.p("}") }
                        }
                    }
                }
                self.tmpl_noise();
                self.p(q);
            }
        }
    }
}
/// As `print_items`, with lines numbered from `first`.
pub fn print_from(items: &[Item], first: u32, rng: Option<&mut Rng>) -> String { let mut p = Printer::new(rng); p.line = first; p.items(items); p.out }
pub fn print_items(items: &[Item], rng: Option<&mut Rng>) -> String { let mut p = Printer::new(rng); p.items(items); p.out }
