//! The phases of each property's check.
use crate::gen::*;
use crate::p_diff::{self as d, Mode};
use crate::p_scope as sc;
use crate::p_front as f;
use crate::p_html as h;
use crate::p_more as m;
use crate::p_mod as md;
use crate::p_cli as cl;
use crate::p_io as io;
use crate::p_fault as fa;
use crate::p_cost as co;
use crate::run::*;

fn p(focus: &'static [&'static str], types: fn(&mut crate::rng::Rng) -> Option<G>) -> Prof { Prof { types, ..prof(focus) } }
fn rnd(name: &'static str, stream: u64, quick: u64, thorough: u64, prof: Prof, mode: Mode) -> Phase { phase(name, quick, thorough, move |cx, i| d::random(cx, i, stream, prof.clone(), mode)) }
const A_MODEL: &str = "the reference model (an interpreter written from the documentation) is right where it agrees with the compiler under test on the unchanged tree";
const A_DEPTH: &str = "nesting depth and recursion depth of the generated programs are bounded";

pub fn build(id: &str) -> Option<(Vec<Phase>, Info)> {
    fn b(g: G) -> Box<G> { Box::new(g) }
    let info = |rule: &'static str, need: &'static [&'static str]| Info { rule, assumptions: &[A_MODEL, A_DEPTH], need };
    Some(match id {
        "C09" => (vec![
            phase("direct", 9000, 400_000, d::c09), phase("literals", 6000, 200_000, d::c09_literals),
            rnd("programs", 9, 4000, 200_000, p(&["bool", "int", "list::enumerate", "list::get", "index"], |r| Some(match r.below(4) { 0 => G::Bool, 1 | 2 => G::Int, _ => G::List(b(G::Any)) })), Mode::Coarse),
        ], info("distinct programs using integer or boolean operations", &["did:bool::and", "did:bool::or", "did:bool::negate", "did:bool::from", "did:int::add", "did:int::negate", "did:int::parse", "did:list::enumerate", "did:list::get", "literal:in range", "literal:out of range", "diagnostic"])),
        "C10" => (vec![
            phase("direct", 9000, 400_000, d::c10),
            rnd("programs", 10, 4000, 200_000, Prof { rich: 40, ..p(&["str", "template"], |r| Some(match r.below(5) { 0 => G::Bool, 1 => G::Int, 2 | 3 => G::Str, _ => G::List(b(G::Str)) })) }, Mode::Coarse),
        ], info("distinct programs using string functions", &["did:str::len", "did:str::upper", "did:str::lower", "did:str::trim", "did:str::split", "did:str::starts_with", "did:str::ends_with", "did:str::is_empty", "did:str::is_whitespace", "did:str::from"])),
        "C11" => (vec![
            phase("direct", 9000, 400_000, d::c11),
            rnd("programs", 11, 5000, 200_000, p(&["list"], |r| Some(match r.below(5) { 0 => G::List(b(G::Int)), 1 => G::List(b(G::Str)), 2 => G::List(b(G::Any)), 3 => G::Html, _ => G::Bool })), Mode::Coarse),
        ], info("distinct programs using list operations", &["did:list::get", "did:list::slice", "did:list::sorted", "did:list::map", "did:list::filter", "did:list::find", "did:list::all", "did:list::any", "did:list::flat", "did:list::join", "did:list::enumerate", "did:list::contains", "did:list::reversed", "did:list::len", "did:list::is_empty", "diagnostic"])),
        "C12" => (vec![
            phase("direct", 9000, 400_000, d::c12),
            rnd("programs", 12, 4000, 200_000, p(&["dict", "call"], |r| Some(match r.below(4) { 0 => G::Dict(vec![("a".into(), G::Int), ("b".into(), G::Str)]), 1 => G::List(b(G::Any)), 2 => G::Dict(vec![]), _ => G::Int })), Mode::Coarse),
        ], info("distinct programs building or reading dictionaries", &["did:dict::new", "did:dict::keys", "did:dict::values", "did:dict::items", "did:dict::len", "did:dict::get", "did:dict::is_empty", "did:named spread argument", "diagnostic"])),
        "C13" => (vec![
            phase("direct", 7000, 300_000, d::c13), phase("listed findings", 2, 2, d::c13_listed),
            rnd("programs", 13, 4000, 200_000, p(&["regex"], |r| Some(match r.below(4) { 0 => G::Bool, 1 => G::Int, 2 => G::List(b(G::Str)), _ => G::Any })), Mode::Coarse),
        ], info("distinct programs using regular expressions", &["did:regex::compile", "did:regex::test", "did:regex::count", "did:regex::find", "did:regex::find_all", "did:regex::split", "diagnostic"])),
        "C14" => (vec![
            phase("direct", 4000, 200_000, d::c14),
            rnd("programs", 14, 5000, 200_000, Prof { fault: 15, ..p(&["call", "typeof", "block::from", "inline::from", "wrong"], |_| None) }, Mode::Coarse),
        ], info("distinct programs passing values to typed parameters or type patterns", &["did:type pattern", "diagnostic:Type error"])),
        "C15" => (vec![
            phase("direct", 9000, 400_000, sc::c15),
            rnd("programs", 15, 11_000, 400_000, p(&["match"], |_| None), Mode::Coarse),
        ], info("distinct programs with pattern matching", &["did:match", "did:or pattern", "did:tag pattern", "did:dict pattern", "did:template pattern", "did:type pattern", "diagnostic"])),
        "C16" => (vec![
            phase("direct", 9000, 400_000, sc::c16),
            rnd("programs", 16, 11_000, 400_000, Prof { fault: 10, ..p(&["call", "function", "closure", "missing", "surplus", "unknown", "dup"], |_| None) }, Mode::Coarse),
        ], info("distinct programs with calls of user-defined functions", &["did:call", "did:function definition", "did:function::bind", "did:spread argument", "did:named spread argument", "did:implicit parameter", "diagnostic"])),
        "C17" => (vec![
            phase("direct", 15_000, 600_000, sc::c17),
            rnd("programs", 17, 11_000, 400_000, p(&["closure", "implicit", "let", "call", "fold"], |_| None), Mode::Coarse),
        ], info("distinct programs with nested scopes", &["did:call", "did:function definition", "did:implicit parameter", "did:match"])),
        "C28" => (vec![
            phase("verbatim strings", 10_000, 400_000, f::c28_verbatim), phase("templates", 20_000, 800_000, f::c28_template),
            rnd("programs", 28, 10_000, 400_000, Prof { rich: 15, hostile: 35, ..p(&["template", "str"], |_| Some(G::Str)) }, Mode::Coarse),
        ], info("distinct programs with string literals and templates", &["did:template", "verbatim:simple", "verbatim:multiline", "template:value", "template:no string form"])),
        "C01" => (vec![
            phase("token soup", 25_000, 1_500_000, f::c01_soup), phase("mutated programs", 20_000, 1_200_000, f::c01_mutants), phase("library functions", 25_000, 1_500_000, f::c01_natives), phase("sizes", 1500, 60_000, f::c01_sizes),
        ], Info { rule: "distinct hostile source texts compiled", assumptions: &[A_DEPTH, "a case not finished after 45 s, and not after 60 s of CPU time when repeated alone, hangs"], need: &["outcome:errors", "outcome:success", "outcome:warnings", "diagnostic:Runtime error", "diagnostic:Name error", "diagnostic:Type error", "diagnostic:Syntax error", "size:>=10000"] }),
        "C32" => (vec![
            phase("pieces", 20_000, 1_000_000, crate::p_warn::c32),
            rnd("programs", 32, 9000, 400_000, Prof { again: 45, ..p(&["match", "let", "call", "closure"], |_| None) }, Mode::Full),
        ], info("distinct sources with doubtful constructs", &["diagnostic:Warning", "kind:type", "kind:defined again", "kind:pattern", "kind:variable defined again", "kind:inline code", "kind:language", "kind:export", "warnings:none", "warnings:several", "compared:with the same source without the doubt"])),
        "C03" => (vec![
            phase("malformed pieces", 25_000, 1_000_000, f::c03_table), phase("delimiters", 20_000, 1_000_000, f::c03_delimiters), phase("combinations", 20_000, 1_000_000, |cx, i| f::combos(cx, i, 305)),
        ], Info { rule: "distinct malformed source texts", assumptions: &[A_DEPTH, "the malformed pieces are malformed according to the grammar"], need: &["malformed:item", "malformed:signature", "malformed:definition", "malformed:type", "malformed:pattern", "parameters:valid", "parameters:one fault", "arguments:valid", "declarations:valid", "attributes:valid", "patterns:valid", "patterns:one fault", "delimiters:closer removed", "delimiters:closer doubled", "delimiters:closer replaced"] }),
        "C05" => (vec![
            phase("plain text", 40_000, 2_000_000, |cx, i| f::c05(cx, i, Mode::Coarse)), phase("pairs", 7569, 60_000, f::c05_pairs), phase("references", 3000, 200_000, f::c05_references),
        ], info("distinct source texts of plain text and simple tags", &["feature:'", "feature:\"", "feature:--", "feature:...", "feature:&", "feature:#", "feature:<!--", "feature:blank line", "reference:named", "reference:decimal", "reference:hexadecimal", "reference:escape", "reference:single escape"])),
        "C02" => (vec![
            phase("malformed pieces", 12_000, 500_000, f::c02_table), phase("combinations", 10_000, 500_000, |cx, i| f::combos(cx, i, 205)),
            phase("chains of calls", 4000, 200_000, f::c02_chains),
            rnd("faulty programs", 2, 9000, 400_000, Prof { fault: 45, ..p(&[], |_| None) }, Mode::Full),
            rnd("faults in functions", 202, 4000, 200_000, Prof { fault: 60, ..p(&["infunc", "call", "list::map", "closure"], |_| None) }, Mode::Full),
        ], info("distinct programs with diagnostics", &["chain:over 15", "chains:over 10", "diagnostic:Type error", "diagnostic:Name error", "diagnostic:Runtime error", "diagnostic:Warning"])),
        "C29" => (vec![
            phase("syntax errors", 6000, 300_000, f::c29_syntax), phase("combinations", 8000, 400_000, |cx, i| f::combos(cx, i, 2905)),
            rnd("faulty programs", 29, 12_000, 400_000, Prof { fault: 50, stmts: (4, 8), markup: 4, ..p(&[], |_| None) }, Mode::Partial),
        ], info("distinct programs with several faults", &["diagnostic:Type error", "diagnostic:Name error", "diagnostic:Runtime error", "diagnostic:Warning", "outcome:success"])),
        "C04" => (vec![
            phase("documents", 20_000, 1_000_000, h::c04), phase("single values", 15_000, 600_000, h::c04_direct),
        ], info("distinct documents carrying hostile strings", &["outcome:success", "recovered:attributes", "recovered:texts", "case:escape function", "case:escape method", "case:escape html", "case:escape in attribute", "case:tag name", "case:attribute"])),
        "C07" => (vec![
            phase("grouping", 20_000, 1_000_000, h::c07), phase("values", 10_000, 400_000, h::c07_values),
        ], info("distinct programs comparing equal and different content", &["pair:same third", "pair:different third", "pair:attributes alone differ", "content:block", "content:inline"])),
        "C06" => (vec![
            phase("nestings", 25_000, 1_000_000, h::c06),
            rnd("programs", 6, 8000, 300_000, Prof { markup: 14, ..p(&["tag", "group", "list::join", "block::from"], |r| Some(match r.below(3) { 0 => G::Inline, 1 => G::Block, _ => G::Html })) }, Mode::Coarse),
        ], info("distinct documents with markup", &["did:tag", "did:group", "did:para"])),
        "C08" => (vec![
            phase("tags", 30_000, 1_000_000, h::c08),
            rnd("programs", 8, 8000, 300_000, Prof { markup: 8, ..p(&["tag", "dupattr", "badtag"], |r| Some(if r.chance(1, 2) { G::Inline } else { G::Block })) }, Mode::Coarse),
        ], info("distinct documents with tags and attributes", &["did:tag", "did:computed tag"])),
        "C25" => (vec![
            phase("text of the markup", 15_000, 600_000, h::c25),
            phase("plain text", 10_000, 400_000, |cx, i| f::c05(cx, i, Mode::Text)),
            rnd("programs", 25, 8000, 300_000, Prof { markup: 12, ..p(&["tag", "group"], |_| None) }, Mode::Text),
        ], info("distinct documents rendered as plain text", &["did:tag", "did:para"])),
        "C18" => (vec![
            phase("requests", 12_000, 500_000, m::c18), phase("edges", 3000, 60_000, m::c18_edges),
        ], info("distinct documents requesting unique ids", &["id:own", "id:made unique", "id:from Unicode", "id:longer than the maximum", "edge:bad maximum", "edge:same document twice"])),
        "C19" => (vec![
            phase("module trees", 3000, 250_000, |cx, i| md::c19(cx, i, 0)), phase("faulty modules", 2000, 150_000, |cx, i| md::c19(cx, i, 1)), phase("cycles", 2000, 150_000, |cx, i| md::c19(cx, i, 2)),
        ], info("distinct sets of source files", &["load:first", "load:again", "load:circular", "load:missing", "load:unreadable", "load:failed before", "files written"])),
        "C20" => (vec![
            phase("requests", 1500, 100_000, cl::c20), phase("paths", 4000, 200_000, cl::c20_paths), phase("sources", 500, 30_000, cl::c20_sources),
        ], info("distinct runs and requests", &["request:inside", "request:outside", "path:inside", "path:outside", "sources:outside, with an output directory", "sources:inside, with an output directory", "sources:without an output directory", "files compared"])),
        "C21" => (vec![
            phase("runs", 1500, 120_000, cl::c21), phase("standard input", 600, 40_000, cl::c21_stdin),
        ], info("distinct runs of the program", &["document:library", "document:unchanged", "document:failed", "document:warnings", "document:written", "document:no output", "option:-u", "option:-s", "option:-t", "option:--out", "option:--ignore-warnings", "stdin:good", "stdin:failed", "stdin:conflicting options", "files compared"])),
        "C22" => (vec![
            phase("shared context", 750, 60_000, cl::c22), phase("several contexts", 400, 30_000, cl::c22_threads), phase("batches", 250, 15_000, cl::c22_cli),
        ], info("distinct sets of documents", &["documents compiled in batches", "documents compiled in threads", "documents compiled by turns", "alone:failed", "alone:succeeded", "batches"])),
        "C23" => (vec![
            phase("requests", 1500, 100_000, io::c23), phase("ordinary programs", 1500, 50_000, io::c23_quiet), phase("command line without the network", 300, 20_000, io::c23_cli), phase("command line with the network", 250, 10_000, io::c23_http),
        ], info("distinct programs", &["request:@import", "request:@include", "request:@file::read", "request:@file::list", "request:@file::write", "request:@net::fetch_raw", "request:@net::fetch_html", "path:existing", "path:missing", "calls watched", "filter: works", "fetched", "no connection"])),
        "C24" => (vec![
            phase("well-formed pages", 15_000, 600_000, m::c24), phase("malformed pages", 10_000, 400_000, m::c24_malformed), phase("listed findings", 2, 2, m::c24_listed),
        ], info("distinct HTML texts parsed", &["element", "attribute", "fixed point", "malformed:unclosed element", "malformed:stray end tag", "malformed:no doctype", "malformed:unknown entity"])),
        "C26" => (vec![
            phase("listings", 12_000, 500_000, m::c26), phase("Papyri listings", 12_000, 500_000, m::c26_papyri), phase("tokens of Papyri listings", 8_000, 400_000, m::c26_tokens), phase("inline and ragged code", 8_000, 300_000, m::c26_inline), phase("code in text and calls", 5_000, 250_000, m::c26_calls),
        ], info("distinct code listings", &["form:fence", "form:code", "form:code_block", "form:implicit", "form:inline backticks", "form:ragged", "code in text:inline", "code in text:block", "code in text:refused", "code in text:compared with calls", "another meaning", "code within a function", "bracket:paired", "bracket:unmatched", "language:papyri", "language:none", "language:nolang", "token:string", "token:link", "token:def", "token:tag", "token characters compared"])),
        "C27" => (vec![
            phase("helpers", 20_000, 800_000, m::c27), phase("wrong content", 4000, 100_000, m::c27_wrong),
            rnd("programs", 27, 8000, 300_000, Prof { markup: 4, ..p(&["std"], |r| Some(match r.below(3) { 0 => G::Inline, 1 => G::Block, _ => G::Html })) }, Mode::Coarse),
        ], info("distinct programs using the standard library", &["did:call"])),
        "C30" => (vec![
            phase("files", 900, 60_000, fa::c30), phase("standard output", 500, 30_000, fa::c30_stdin),
        ], info("distinct runs in which something may not be readable or writable", &["fault:None", "fault:Full", "fault:Limit", "fault:Dir", "fault:ParentFile", "fault:ReadOnly", "fault:Sealed", "fault:Unreadable", "fault:Garbage", "fault:Missing", "fault:Dangling", "fault:SourceDir", "outcome:something could not be done", "outcome:everything possible", "files complete", "claims of written files", "second runs", "stream:output lost", "stream:output complete", "stream:input cannot be read"])),
        "C31" => (vec![
            phase("one long part", co::families().div_ceil(4) as u64, 2 * co::families() as u64, co::c31_long), phase("mixtures", 40, 6000, co::c31_mixed), phase("many files", 4, 60, co::c31_files),
        ], info("distinct families of documents", &["families measured", "growth relative to size", "growth of memory relative to size", "growth with files relative to their number"])),
        _ => return None,
    })
}
pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32"];
