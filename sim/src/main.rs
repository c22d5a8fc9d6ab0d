mod core;
mod props;
use crate::core::engine::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("FQSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let find = |id: &str| -> &'static dyn Property {
        props::all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        Some("c14-table") => props::c14::table_main(&a[2]),
        Some("c14-dc") => props::c14::dc_main(&a[2]),
        Some("worker") => worker(find(&a[2]), a[3] == "thorough", a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), &PathBuf::from(&a[8]), &root),
        Some("exec-plan") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            let prelude: Vec<Plan> = v.get("prelude").map(|x| serde_json::from_value(x.clone()).unwrap()).unwrap_or_default();
            let v = if v.get("plan").is_some() { v["plan"].clone() } else { v };
            exec_plan(find(&a[2]), &prelude, &serde_json::from_value(v).unwrap(), &root, a.get(4).is_some())
        }
        Some("gen") => {
            // print the plan of one run
            let p = find(&a[2]);
            let mut r = crate::core::prng::Prng::new(run_seed(a[3].parse().unwrap(), p.id(), a[4].parse().unwrap()));
            println!("{}", serde_json::to_string(&p.generate(&mut r, a[4].parse().unwrap(), false)).unwrap());
            0
        }
        Some("replay") => {
            let f = PathBuf::from(&a[2]);
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
            replay(find(v["property"].as_str().unwrap()), &f, &root)
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
            let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
            let workers = std::env::var("FQSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            coordinate(find(&a[2]), thorough, seed, &root, workers, std::env::var("FQSIM_QUIET").is_ok())
        }
        _ => {
            eprintln!("usage: fqsim run ID quick|thorough | replay FILE | exec-plan ID FILE [v] | gen ID SEED IDX | list");
            2
        }
    };
    std::process::exit(code);
}
