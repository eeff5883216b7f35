mod engine;
mod obs;
mod props;
mod template;

use engine::*;
use std::path::PathBuf;

fn root() -> PathBuf {
    // <root>/mc/target/release/mc
    std::env::var("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")))
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(0) {
        "check" => {
            let id = arg(1).to_string();
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".to_string());
            let tier = if tier == "thorough" { tier } else { "quick".to_string() };
            match props::families(&id, &tier) {
                Some((families, assumptions)) => supervise(
                    Meta {
                        id,
                        tier,
                        root: root().canonicalize().expect("root"),
                        assumptions,
                    },
                    families,
                ),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        "worker" => match props::families(arg(1), arg(2)) {
            Some((families, _)) => worker(
                families,
                known_findings(&root(), arg(1)),
                arg(3).parse().expect("k"),
                arg(4).parse().expect("n"),
                &PathBuf::from(arg(5)),
            ),
            None => 2,
        },
        "one" => match props::families(arg(1), arg(2)) {
            Some((families, _)) => one(families, arg(3), arg(4).parse().expect("index")),
            None => 2,
        },
        "replay" => {
            let text = std::fs::read_to_string(arg(1)).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            match props::families(&s("property"), &s("tier")) {
                Some((families, _)) => {
                    one(families, &s("family"), v["index"].as_u64().unwrap_or(0))
                }
                None => 2,
            }
        }
        "sizes" => {
            for id in props::ids() {
                for tier in ["quick", "thorough"] {
                    if let Some((families, _)) = props::families(id, tier) {
                        let total: u64 = families.iter().map(|f| f.count).sum();
                        println!("{id} {tier}: {} families, {total} cases", families.len());
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | one ID TIER FAMILY INDEX | replay FILE | sizes");
            2
        }
    };
    std::process::exit(code);
}
