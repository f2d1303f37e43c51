//! pvh: runtime monitors for the Papyri compiler.
#![allow(dead_code)]
mod rng; mod value; mod ast; mod rx; mod interp; mod gen; mod real; mod run; mod p_diff; mod p_scope; mod p_front; mod p_html; mod p_more; mod p_mod; mod p_cli; mod p_io; mod p_fault; mod p_cost; mod p_warn; mod syscalls; mod props;

#[global_allocator]
static ALLOC: p_cost::Counting = p_cost::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // one arena: fewer looks of the allocator at the system, see syscalls.rs
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1); }
    let code = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { real::hook(); go(&a) }).unwrap().join().unwrap_or(101);
    std::process::exit(code);
}
fn go(a: &[String]) -> i32 {
    let g = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| g(i).parse::<u64>().unwrap_or(0);
    let id = g(2);
    let Some((ps, info)) = props::build(&id) else { if g(1) == "src" { return 2 } eprintln!("no check for {id}"); return 2 };
    match g(1).as_str() {
        "check" => {
            let env = |k: &str| std::env::var(k).ok();
            let tier = env("VERIF_TIER").filter(|t| t == "thorough").unwrap_or("quick".into());
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            let cap = env("PVH_CAP").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 420 });
            run::check(&id, ps, info, &tier, seed, cap)
        }
        "worker" => { run::worker(&id, ps, &g(3), n(4), n(5), n(6), n(7)); 0 }
        "one" => { run::one(&id, ps, &g(3), n(4), n(5)); 0 }
        // repeats the case of a replay file
        "replay" => {
            let Ok(j) = std::fs::read_to_string(g(3)).map_err(|_| ()).and_then(|t| serde_json::from_str::<serde_json::Value>(&t).map_err(|_| ())) else { return 2 };
            run::one(&id, ps, j["tier"].as_str().unwrap_or("quick"), j["seed"].as_u64().unwrap_or(1), j["index"].as_u64().unwrap_or(0)); 0
        }
        _ => 2,
    }
}
