mod alloc;
mod cli;
mod dbg;
mod engine;
mod model;
mod props;
mod sio;
mod src;

use engine::{Env, Tier};
use std::path::PathBuf;
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    std::process::exit(real_main());
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
    let worker = std::env::var_os("VH_WORKER").is_some();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let mut tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
    let mut prop_id = None;
    let mut only_group = None;
    let mut raw: Option<(String, PathBuf)> = None;
    let mut scale = 1.0;
    let mut budget = None;
    let mut i = 0;
    let mut replay = None;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--group" => {
                i += 1;
                only_group = Some(args[i].clone());
            }
            "--scale" => {
                i += 1;
                scale = args[i].parse().unwrap_or(1.0);
            }
            "--budget" => {
                i += 1;
                budget = args[i].parse().ok();
            }
            "--raw" => {
                raw = Some((args[i + 1].clone(), PathBuf::from(&args[i + 2])));
                i += 2;
            }
            "replay" => {
                i += 1;
                replay = Some(PathBuf::from(&args[i]));
            }
            x => prop_id = Some(x.to_string()),
        }
        i += 1;
    }
    if let Some(r) = replay {
        return do_replay(&r);
    }
    let Some(id) = prop_id else {
        for p in props::all() {
            println!("{} {}", p.id, p.groups.iter().map(|g| g.name()).collect::<Vec<_>>().join(" "));
        }
        return 0;
    };
    let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    if prop.id == "C22" && !cfg!(rekordcrate_verif) {
        eprintln!("C22 cannot be decided: the harness was built without the hooks");
        return 2;
    }
    if let Some((g, f)) = raw {
        let b = std::fs::read(f).unwrap_or_default();
        let c = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        return engine::run_raw(&prop, &g, c, false);
    }
    let scratch = match std::env::var_os("VH_SCRATCH") {
        Some(s) if worker => PathBuf::from(s),
        _ => std::env::temp_dir().join(format!("vh-{}-{}", prop.id, std::process::id())),
    };
    let budget = budget.unwrap_or(if tier == Tier::Quick { 150 } else { 600 });
    let env = Env { verif, seed, tier, scratch, budget: Duration::from_secs(budget), only_group, scale };
    if worker {
        return engine::run_worker(&prop, &env);
    }
    if let Err(e) = std::fs::create_dir_all(&env.scratch) {
        eprintln!("scratch: {e}");
        return 2;
    }
    let rc = engine::supervise(&prop, &env, &args);
    let _ = std::fs::remove_dir_all(&env.scratch);
    rc
}

fn do_replay(path: &std::path::Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let field = |k: &str| -> Option<String> {
        let t = text.split(&format!("\"{k}\":\"")).nth(1)?;
        Some(t.split('"').next()?.to_string())
    };
    let Some(prop) = field("property").and_then(|id| props::all().into_iter().find(|p| p.id == id)) else {
        eprintln!("unknown property");
        return 2;
    };
    if let Some(k) = field("known") {
        let Some(k) = prop.known.iter().find(|x| x.key == k) else { return 2 };
        engine::install_hook();
        let f = engine::no_panic(k.still_fails).unwrap_or(true);
        println!("{}", if f { "still fails" } else { "no longer fails" });
        return i32::from(f);
    }
    let Some(group) = field("group") else { return 2 };
    let choices: Vec<u64> = text
        .rsplit("\"choices\":[")
        .next()
        .and_then(|t| t.split(']').next())
        .unwrap_or("")
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    if let Some(s) = std::env::var_os("VH_SCRATCH") {
        let _ = std::fs::create_dir_all(s);
    }
    engine::run_raw(&prop, &group, choices, true)
}
