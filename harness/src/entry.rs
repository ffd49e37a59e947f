use crate::core::*;
use std::path::PathBuf;

fn prop(props: &[&'static Prop], id: &str) -> &'static Prop {
    props.iter().find(|p| p.id == id).copied().unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
fn envf(k: &str, d: f64) -> f64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

/// the command line of a harness that holds these properties
pub fn main(props: &[&'static Prop]) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
        }
        Some("run") => {
            let thorough = a[3] == "thorough";
            let args = RunArgs {
                thorough,
                seed: a[4].parse().unwrap_or(1),
                verif: PathBuf::from(&a[5]),
                wall_cap: envf("CGARV_CAP", if thorough { 3000.0 } else { 240.0 }),
                case_cpu: envf("CGARV_CASE_CPU", 40.0),
                shards: envf("CGARV_SHARDS", 8.0) as u64,
                scale: envf("CGARV_SCALE", 1.0),
            };
            std::process::exit(run_parent(prop(props, &a[2]), &args, "exploration"));
        }
        Some("shard") => {
            install_panic_hook();
            let skip = a[11]
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| {
                    let (w, i) = s.split_once(':').unwrap();
                    (w.parse().unwrap(), i.parse().unwrap())
                })
                .collect();
            let args = ShardArgs {
                thorough: a[3] == "thorough",
                seed: a[4].parse().unwrap(),
                shard: a[5].parse().unwrap(),
                nshards: a[6].parse().unwrap(),
                wall_cap: a[7].parse().unwrap(),
                progress: PathBuf::from(&a[8]),
                result: PathBuf::from(&a[9]),
                start: a[10].parse().unwrap(),
                skip,
                scale: a[12].parse().unwrap(),
            };
            run_shard(prop(props, &a[2]), &args);
        }
        Some("case") => {
            install_panic_hook();
            std::process::exit(run_case(prop(props, &a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a.get(6).map(|s| s == "thorough").unwrap_or(false)));
        }
        _ => {
            eprintln!("usage: cgarv run <property> <quick|thorough> <seed> <verif dir> | case <property> <workload> <index> <seed> [tier] | list");
            std::process::exit(2);
        }
    }
}
