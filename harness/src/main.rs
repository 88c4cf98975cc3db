//! Executes the contracts of each property against the real code: an exhaustive small scope,
//! then seeded random cases. Used to find the failing input behind a failed proof obligation,
//! and as the labelled bounded stand-in for what is not proved.
mod props;
mod util;

use serde_json::{json, Value};
use std::time::Duration;
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let props = props::all();
    quiet_panics();
    match args.get(1).map(|a| a.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay json");
            let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property");
            match run(p.check, &v["case"]) {
                Ok(_) => println!("held"),
                Err(e) => {
                    println!("failed: {}", e);
                    props::editor::clean_up();
                    std::process::exit(1);
                }
            }
        }
        Some("check") => {
            let id = &args[2];
            let p: &'static Prop = props.iter().find(|p| p.id == id).expect("property");
            let secs = |o: &str, d: f64| Duration::from_secs_f64(opt(o).map_or(d, |v| v.parse().expect("seconds")));
            let report = explore(
                p,
                Budget {
                    small: secs("--small", 15.0),
                    random: secs("--random", 15.0),
                    seed: opt("--seed").map_or(1, |v| v.parse().expect("seed")),
                    journal: opt("--journal"),
                    hang: secs("--hang", 20.0),
                },
            );
            let mut out = json!({
                "property": p.id,
                "evaluations": report.stats.evaluations,
                "exhaustive_cases": report.stats.exhaustive,
                "exhaustive_complete": report.small_complete,
                "distinct_nontrivial": report.stats.nontrivial.len(),
                "rule": p.rule,
                "samples": report.stats.samples,
                "wall_s": report.wall,
                "hooks": cfg!(feature = "hooks"),
                "held": true,
            });
            let mut code = 0;
            if let Verdict::Failed { case, why, shrunk } = report.verdict {
                out["held"] = json!(false);
                out["case"] = case;
                out["why"] = json!(why);
                out["shrunk"] = json!(shrunk);
                code = 1;
            }
            std::fs::write(opt("--out").expect("--out"), out.to_string()).expect("write report");
            props::editor::clean_up();
            std::process::exit(code);
        }
        _ => panic!("usage: harness list | check ID --out FILE [--seed N] | replay FILE"),
    }
}
