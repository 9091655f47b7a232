#![allow(dead_code)]
//! `mcu-harness check <ID>` runs one property's search;
//! `mcu-harness replay <file>` re-runs one recorded failing input.
mod codec;
mod contrasts;
mod engine;
mod gen;
mod props;
mod refm;
mod roles;
mod schemes;

use engine::{Ctx, Failure, Mode};
use std::sync::atomic::{AtomicBool, Ordering};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| d.to_string())
}

fn describe(id: &str, f: &Failure) {
    let short = |s: &str| if s.len() > 1500 { format!("{}...", s.chars().take(1500).collect::<String>()) } else { s.to_string() };
    println!("property {id}, search {}: {}", f.sub, short(&f.message));
    println!("  input: {}", short(&f.debug));
}

/// Writes the replay file and returns its path.
fn save(root: &str, id: &str, f: &Failure) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.replay");
    let body = format!(
        "property: {}\nsearch: {}\nvalue: {}\nmessage: {}\ndebug: {}\n",
        id,
        f.sub,
        f.value,
        f.message.replace('\n', " "),
        f.debug.replace('\n', " ").chars().take(4000).collect::<String>()
    );
    if std::fs::write(&path, body).is_err() {
        eprintln!("cannot write {path}");
    }
    path
}

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

fn main() {
    engine::quiet_panics();
    // The quantizers copy tables of 280 kB in their innermost loops: keep
    // those blocks in the heap instead of mapping and unmapping each one.
    unsafe {
        mallopt(-3, 1 << 30); // M_MMAP_THRESHOLD
        mallopt(-1, 1 << 30); // M_TRIM_THRESHOLD
    }
    let args: Vec<String> = std::env::args().collect();
    let root = env("VERIF_ROOT", "/verif");
    let limit: u64 = env("VERIF_WATCHDOG_S", "0").parse().unwrap_or(0);
    let case_limit: u64 = env("VERIF_CASE_LIMIT_S", "150").parse().unwrap_or(150);
    if limit > 0 {
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            eprintln!("watchdog: no answer within {limit} s");
            std::process::exit(2);
        });
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("literals") => print!("{}", gen::snapshot()),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        // The search runs in a child process, so that a crash of the code under
        // test (stack overflow, abort) is reported as what it is.
        Some("check") => {
            use std::os::unix::process::ExitStatusExt;
            let id = args.get(2).cloned().unwrap_or_default();
            let exe = std::env::current_exe().expect("current_exe");
            let status = std::process::Command::new(exe).arg("search").args(&args[2..]).status().expect("cannot start the search");
            match (status.code(), status.signal()) {
                (Some(c), _) => std::process::exit(c),
                (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
                    let path = save(
                        &root,
                        &id,
                        &Failure {
                            sub: "*".into(),
                            value: args.get(3).cloned().unwrap_or("quick".into()),
                            debug: format!("seed {}", env("VERIF_SEED", "1")),
                            message: format!("the code under test ended the process with signal {s}"),
                        },
                    );
                    println!("property {id}: the code under test ended the process with signal {s}");
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
                (_, s) => {
                    eprintln!("the search was ended by signal {s:?}");
                    std::process::exit(2);
                }
            }
        }
        Some("search") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let Some(p) = props::ALL.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
            let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let ctx = Ctx::new(p.id, seed, thorough, Mode::Search);
            let (r, id) = (root.clone(), p.id);
            engine::watch(case_limit, move |sub, value| {
                let f = Failure { sub, value: value.clone(), debug: value, message: format!("no answer within {case_limit} s") };
                let path = save(&r, id, &f);
                describe(id, &f);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            });
            (p.run)(&ctx);
            engine::write_evidence(&ctx, &format!("{root}/evidence"), p.rule, p.assumptions);
            for k in ctx.known.lock().unwrap().iter() {
                println!("KNOWN-FINDING: property={} {}", p.id, k);
            }
            let failure = ctx.failure.lock().unwrap().clone();
            if let Some(f) = failure {
                let path = save(&root, p.id, &f);
                describe(p.id, &f);
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1);
            }
            println!(
                "property {} held: {} cases, {} distinct non-trivial, {:.1} s",
                p.id,
                ctx.evals.load(Ordering::Relaxed),
                ctx.sweep_distinct.load(Ordering::Relaxed) + ctx.distinct.lock().unwrap().len() as u64,
                ctx.started.elapsed().as_secs_f64()
            );
        }
        Some("replay") => {
            let path = args.get(2).cloned().unwrap_or_default();
            let text = std::fs::read_to_string(&path).unwrap_or_else(|e| {
                eprintln!("{path}: {e}");
                std::process::exit(2)
            });
            let field = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default()
            };
            let id = field("property:");
            let Some(p) = props::ALL.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if field("search:") == "*" {
                // The whole search crashed: run it again.
                let exe = std::env::current_exe().expect("current_exe");
                let seed = field("debug:").replace("seed ", "");
                let st = std::process::Command::new(exe).args(["check", &id, &field("value:")]).env("VERIF_SEED", seed).status().expect("cannot start");
                std::process::exit(st.code().unwrap_or(2));
            }
            let (r, pid) = (path.clone(), p.id);
            engine::watch(case_limit, move |_, _| {
                println!("property {pid}: no answer within {case_limit} s");
                println!("VIOLATION property={pid} replay={r}");
                std::process::exit(1);
            });
            let mode = Mode::Replay { sub: field("search:"), value: field("value:"), hit: AtomicBool::new(false) };
            let ctx = Ctx::new(p.id, 1, false, mode);
            (p.run)(&ctx);
            if let Mode::Replay { hit, sub, .. } = &ctx.mode {
                if !hit.load(Ordering::SeqCst) {
                    eprintln!("no search named {sub} in {id}");
                    std::process::exit(2);
                }
            }
            let failure = ctx.failure.lock().unwrap().clone();
            match failure {
                Some(f) => {
                    describe(p.id, &f);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    std::process::exit(1);
                }
                None => println!("property {id} holds on {path}"),
            }
        }
        _ => {
            eprintln!("usage: mcu-harness check <ID> [quick|thorough] | replay <file> | list");
            std::process::exit(2);
        }
    }
}
