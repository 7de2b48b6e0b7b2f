mod collide;
mod collide_data;
mod comps;
mod groups;
mod guard;
mod ledger;
#[macro_use]
mod world;
mod runner;
mod suites;

use runner::*;
use std::collections::HashMap;

#[cfg(not(any(miri, feature = "asan")))]
#[global_allocator]
static GLOBAL: guard::Guard = guard::Guard;

fn args() -> (String, HashMap<String, String>) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        m.insert(k, v);
    }
    (cmd, m)
}

macro_rules! dispatch {
    ($name:expr, $f:ident ( $($a:expr),* )) => {
        suites::with_suite!($name, $f, ($($a),*))
    };
}

fn main() {
    install_panic_hook();
    world::tables();
    let (cmd, a) = args();
    let get = |k: &str| a.get(k).cloned().unwrap_or_default();
    let num = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let suite = get("suite");
    match cmd.as_str() {
        "list" => {
            for s in suites::NAMES {
                println!("{s}");
            }
        }
        "worker" => {
            let rep: WorkerReport = dispatch!(
                suite.as_str(),
                work(tier, num("seed", 1), num("shard", 0), num("cases", 1) as usize, num("deadline", 100_000))
            );
            let s = serde_json::to_string(&rep).unwrap();
            std::fs::write(get("out"), s).unwrap();
            std::process::exit(if rep.failure.is_some() {
                1
            } else if rep.inconclusive.is_some() {
                2
            } else {
                0
            });
        }
        "draw" => {
            let v: Vec<serde_json::Value> = dispatch!(
                suite.as_str(),
                draw(tier, num("seed", 1), num("shard", 0), num("cases", 1) as usize)
            );
            println!("{}", serde_json::to_string(&v).unwrap());
        }
        "replay" => {
            let s = std::fs::read_to_string(get("file")).expect("replay file");
            let r: Replay = serde_json::from_str(&s).expect("replay format");
            let name = r.suite.clone();
            let res: Result<Option<String>, String> = dispatch!(name.as_str(), replay(&r));
            match res {
                Ok(None) => println!("PASS {}", name),
                Ok(Some(e)) => {
                    println!("FAIL {name}: {e}");
                    std::process::exit(1);
                }
                Err(e) => {
                    println!("INCONCLUSIVE {name}: {e}");
                    std::process::exit(2);
                }
            }
        }
        "direct" => {
            let s = std::fs::read_to_string(get("file")).expect("case file");
            let v: Vec<serde_json::Value> = serde_json::from_str(&s).expect("case list");
            let res: Result<WorkerReport, String> = dispatch!(suite.as_str(), run_direct(&v, num("deadline", 100_000)));
            match res {
                Ok(r) => {
                    println!("{}", serde_json::to_string(&r).unwrap());
                    if r.failure.is_some() {
                        std::process::exit(1);
                    }
                }
                Err(e) => {
                    println!("BAD {e}");
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: harness list|worker|draw|replay|direct ...");
            std::process::exit(2);
        }
    }
}
