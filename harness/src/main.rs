#![allow(dead_code)]

mod engine;
mod gen;
mod props;
mod refs;

use engine::*;
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!("usage: kverif check <ID> [law] | replay <file> | list");
    std::process::exit(2)
}

/// How often a property's laws are multiplied: cheap properties get more cases for the same time.
fn weight(id: &str) -> f64 {
    match id {
        "C17" | "C28" | "C30" => 20.0,
        "C19" => 15.0,
        "C10" | "C15" => 10.0,
        "C09" | "C16" | "C18" | "C31" | "C32" | "C33" => 5.0,
        "C05" | "C11" | "C23" | "C26" => 4.0,
        "C03" | "C21" => 3.0,
        "C01" | "C02" | "C04" | "C06" | "C12" | "C14" | "C20" | "C22" | "C24" => 2.0,
        "C07" | "C08" | "C13" | "C25" => 1.5,
        _ => 1.0,
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
                for l in (p.laws)() {
                    println!("    {} (quick {}, thorough {}): {}", l.name, l.quick, l.thorough, l.rule);
                }
            }
        }
        Some("draw") => {
            #[allow(unused_mut)]
            let mut lines: Vec<String> = Vec::new();
            match args.get(1).map(|s| s.as_str()) {
                #[cfg(feature = "metrics")]
                Some("metrics") => lines = props::metrics::draw(),
                #[cfg(feature = "py")]
                Some("py") => lines = props::py::draw().unwrap_or_default(),
                _ => usage(),
            }
            for l in lines {
                println!("draw {l}");
            }
        }
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_else(|| usage());
            let Some(p) = all.iter().find(|p| p.id == id) else {
                eprintln!("no property {id}");
                std::process::exit(2)
            };
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            let scale: f64 = std::env::var("KVERIF_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0);
            let scale = scale * weight(&id);
            let start = Instant::now();
            let (budget, shrink) = match tier {
                Tier::Quick => (200, 40),
                Tier::Thorough => (2400, 300),
            };
            let cfg = RunCfg {
                property: id.clone(),
                tier,
                seed,
                deadline: start + Duration::from_secs(budget),
                shrink_for: Duration::from_secs(shrink),
            };
            let laws = (p.laws)();
            let out = run_all(&laws, &cfg, args.get(2).map(|s| s.as_str()), scale);
            let mut seen = Vec::new();
            let mut violations = 0;
            let mut reports: Vec<_> = out.reports.iter().collect();
            reports.sort_by_key(|(i, _)| *i);
            for (_, r) in reports {
                if let Some(f) = &r.failure {
                    violations += 1;
                    if !seen.contains(&f.law) {
                        seen.push(f.law.clone());
                        report_failure(&id, f);
                    }
                }
            }
            let wall = start.elapsed().as_secs_f64();
            let assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
            write_evidence(&id, &cfg, &laws, &out, violations, &assumptions, wall);
            let n: u64 = out.reports.iter().map(|(_, r)| r.evaluations).sum();
            let mut slow: Vec<(f64, &str)> = (0..laws.len())
                .map(|i| {
                    (
                        out.reports.iter().filter(|(j, _)| *j == i).map(|(_, r)| r.secs).sum(),
                        laws[i].name,
                    )
                })
                .collect();
            slow.sort_by(|a, b| b.0.total_cmp(&a.0));
            let slow: Vec<String> = slow.iter().take(4).map(|(s, n)| format!("{n} {s:.1}s")).collect();
            println!("{id}: {n} cases in {wall:.1} s, {violations} violations (cpu: {})", slow.join(", "));
            std::process::exit(if violations > 0 { 1 } else { 0 });
        }
        Some("replay") => {
            let f = args.get(1).cloned().unwrap_or_else(|| usage());
            let text = std::fs::read_to_string(&f).expect("read replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("parse replay file");
            let id = v["property"].as_str().unwrap_or("");
            let law = v["law"].as_str().unwrap_or("");
            let Some(p) = all.iter().find(|p| p.id == id) else { usage() };
            let laws = (p.laws)();
            let Some(l) = laws.iter().find(|l| l.name == law) else { usage() };
            match (l.replay)(&v["case"].to_string()) {
                Ok(_) => println!("{id}/{law}: holds on this case"),
                Err(m) => {
                    println!("{id}/{law}: {m}");
                    println!("VIOLATION property={id} replay={f}");
                    std::process::exit(1);
                }
            }
        }
        _ => usage(),
    }
}
