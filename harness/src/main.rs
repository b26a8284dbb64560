mod api;
mod dict;
mod fw;
mod gen_;
mod p_codec;
mod p_conc;
mod p_names;
mod p_plugin;
mod p_registry;
mod p_robust;
mod p_tools;
mod p_types;
mod rng;
mod schema;
mod xmlp;
mod p_reject;
mod p_valid;
mod plug;
mod p_res;
mod supervise;

use fw::*;
use serde_json::Value;
use std::path::{Path, PathBuf};
use std::time::Duration;

type PropFn = fn(&Run);
pub fn props() -> Vec<(&'static str, PropFn)> {
    vec![
        ("C01", p_codec::c01 as PropFn),
        ("C02", p_codec::c02),
        ("C03", p_codec::c03),
        ("C04", p_codec::c04),
        ("C05", p_codec::c05),
        ("C06", p_codec::c06),
        ("C07", p_codec::c07),
        ("C08", p_reject::c08),
        ("C09", p_reject::c09),
        ("C10", p_valid::c10),
        ("C11", p_valid::c11),
        ("C12", p_valid::c12),
        ("C13", p_valid::c13),
        ("C14", p_valid::c14),
        ("C15", p_registry::c15),
        ("C16", p_registry::c16),
        ("C17", p_robust::c17),
        ("C18", p_plugin::c18),
        ("C19", p_plugin::c19),
        ("C20", p_plugin::c20),
        ("C21", p_plugin::c21),
        ("C22", p_plugin::c22),
        ("C23", p_plugin::c23),
        ("C24", p_plugin::c24),
        ("C25", p_conc::c25),
        ("C26", p_types::c26),
        ("C27", p_types::c27),
        ("C28", p_types::c28),
        ("C29", p_types::c29),
        ("C30", p_types::c30),
        ("C31", p_types::c31),
        ("C32", p_res::c32),
        ("C33", p_names::c33),
        ("C34", p_tools::c34),
        ("C35", p_tools::c35),
        ("C36", p_reject::c36),
        ("C37", p_plugin::c37),
    ]
}

#[global_allocator]
static ALLOC: p_res::Counting = p_res::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let repo = opt("--repo").unwrap_or_else(|| "/repo".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(supervise::check(&a)),
        Some("ops") => p_conc::child(),
        Some("literals") => println!("{}", serde_json::to_string(&dict::all_literals(&Path::new(&repo).join("src"))).unwrap()),
        Some("run") => {
            let prop = a[2].clone();
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = PathBuf::from(opt("--out").unwrap());
            std::fs::create_dir_all(&out).unwrap();
            let only = opt("--stream").map(|s| (s, opt("--case").unwrap().parse().unwrap()));
            let budget = Duration::from_secs(opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(240));
            let known: Vec<Value> = opt("--known")
                .and_then(|p| std::fs::read_to_string(p).ok())
                .and_then(|t| serde_json::from_str::<Value>(&t).ok())
                .and_then(|v| v["findings"].as_array().cloned())
                .unwrap_or_default()
                .into_iter()
                .filter(|k| k["property"] == prop.as_str() && k["status"] == "known")
                .collect();
            install_panic_hook();
            let s: &'static schema::Schema = Box::leak(Box::new(schema::Schema::load()));
            let d: &'static dict::Dict = Box::leak(Box::new(dict::Dict::load(&Path::new(&repo).join("src"))));
            let _ = gen_::LONG.set(d.sizes(1 << 20).into_iter().filter(|n| *n >= 64).collect());
            let f = props().into_iter().find(|p| p.0 == prop).expect("property").1;
            let run = Run::new(&prop, tier, seed, out.clone(), only, known, budget, s, d);
            f(&run);
            let wall = run.started.elapsed().as_secs_f64();
            let (viol, total, known_hit, inc) = {
                let st = run.st.lock().unwrap();
                (st.violations.clone(), st.viol_total, st.known_hit.clone(), st.inconclusive.clone())
            };
            let ev = evidence(&run, wall, total);
            let vs: Vec<Value> = viol.iter().map(|(s, d)| serde_json::json!({"signature": s, "detail": d})).collect();
            let res = serde_json::json!({"evidence": ev, "violations": vs, "violations_total": total, "known_hit": known_hit, "inconclusive": inc});
            std::fs::write(out.join("result.json"), serde_json::to_string_pretty(&res).unwrap()).unwrap();
        }
        _ => {
            eprintln!("usage: mxmon check|run PROP ...");
            std::process::exit(2);
        }
    }
}
