mod chain;
mod exh;
mod model;
mod curve;
mod explore;
mod ops;
mod props;
mod rates;
mod vm;
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone)]
pub struct Ctx {
    pub ex: Arc<vm::Code>,
    pub farm: Arc<vm::Code>,
    pub thorough: bool,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let tier = arg("--tier").unwrap_or_else(|| "quick".into());
    let wasm = arg("--wasm").expect("--wasm DIR");
    let out = arg("--out").unwrap_or_else(|| "/verif".into());
    std::panic::set_hook(Box::new(|_| {}));
    let code = std::panic::catch_unwind(|| run(&prop, &tier, &wasm, &out)).unwrap_or_else(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.starts_with("SETUP_FAILED") || m.starts_with("VIEW_FAILED") {
            // the contract refuses the ordinary calls every scenario starts with
            violation(&prop, &out, "setup", &json!([]), &m, &[]);
            return 1;
        }
        eprintln!("ENGINE ERROR: {}", m);
        3
    });
    std::process::exit(code);
}

fn violation(prop: &str, out: &str, scenario: &str, steps: &Value, msg: &str, text: &[String]) {
    let dir = format!("{}/replays", out);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.json", dir, prop, scenario.replace(|c: char| !c.is_alphanumeric() && c != '-', "_"));
    let _ = std::fs::write(
        &p,
        serde_json::to_string_pretty(&json!({"property": prop, "scenario": scenario, "steps": steps, "failure": msg, "trace": text}))
            .unwrap(),
    );
    for l in text {
        println!("  {}", l);
    }
    println!("  {}", msg);
    println!("VIOLATION property={} replay={}", prop, p);
}

fn run(prop: &str, tier: &str, wasm: &str, out: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let thorough = tier == "thorough";
    let cx = Ctx {
        ex: Arc::new(vm::Code::load(chain::EX, &format!("{}/ref_exchange.wasm", wasm))),
        farm: Arc::new(vm::Code::load(chain::FARM, &format!("{}/ref_farming.wasm", wasm))),
        thorough,
    };
    let known: Vec<(String, String)> = std::fs::read_to_string(format!("{}/known-findings.txt", out))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // "finding: property=<id> key=<key> <text>"
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let rest = rest.strip_prefix("key=")?;
            let (k, text) = rest.split_once(' ')?;
            Some((k.to_string(), text.to_string()))
        })
        .collect();
    let only = arg("--scenario");
    let def = match props::ALL.iter().find(|p| p.0 == prop) {
        Some(d) => d,
        None => {
            eprintln!("unknown property {}", prop);
            return 3;
        }
    };
    if let Some(f) = arg("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let steps: Vec<explore::Step> = v["steps"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| explore::Step {
                op: s["op"].as_str().unwrap().into(),
                choices: s["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect(),
            })
            .collect();
        for mk in (def.1)(&cx) {
            if mk.0 == v["scenario"] {
                let sc = (mk.1)();
                let (txt, f) = explore::replay(&sc, &steps);
                for l in txt {
                    println!("{}", l);
                }
                println!("{:?}", f);
                return f.is_some() as i32;
            }
        }
        eprintln!("no such scenario");
        return 3;
    }
    let lim_wall: f64 = arg("--cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 });
    let mut reps: Vec<explore::Report> = vec![];
    let mut code = 0;
    for (name, mk) in (def.1)(&cx) {
        if only.as_ref().map_or(false, |o| *o != name) {
            continue;
        }
        let sc = mk();
        assert_eq!(sc.name, name);
        let left = (lim_wall - t0.elapsed().as_secs_f64()).max(1.0);
        let lim = explore::Limits { wall: left, states: 6_000_000, known: known.iter().map(|k| k.0.clone()).collect() };
        let rep = explore::explore(&sc, &lim);
        println!(
            "{} {}: {} states, {} transitions ({} refused), depth {}, {} outcomes, {:.1}s{}",
            prop,
            name,
            rep.states,
            rep.transitions,
            rep.refused,
            rep.depth,
            rep.outcomes.len(),
            rep.wall,
            rep.capped.as_ref().map(|c| format!(" CAPPED: {}", c)).unwrap_or_default()
        );
        if std::env::var("MC_OUTCOMES").is_ok() {
            for (k, v) in &rep.outcomes {
                println!("      {:6} {:7.0}us {}", v, rep.times.get(k).unwrap_or(&0.0) / *v as f64 * 1e6, k);
            }
        }
        if std::env::var("MC_VACUOUS").is_ok() {
            // operations that never once did what they ask for
            for o in &sc.ops {
                let l = format!("{} ", o.label);
                if !rep.outcomes.keys().any(|k| k.starts_with(&l) && !k[l.len()..].contains(|c| c == '-' || c == 'f')) {
                    println!("      never: {} {:?}", o.label, rep.outcomes.keys().filter(|k| k.starts_with(&l)).map(|k| &k[l.len()..]).collect::<Vec<_>>());
                }
            }
        }
        let v = rep.violation.is_some();
        if let Some((st, f, txt)) = &rep.violation {
            let steps: Vec<Value> = st.iter().map(|s| json!({"op": s.op, "choices": s.choices})).collect();
            violation(prop, out, &name, &json!(steps), &format!("{}: {}", f.key, f.msg), txt);
            code = 1;
        }
        reps.push(rep);
        if v {
            break;
        }
    }
    for (k, text) in &known {
        if reps.iter().any(|r| r.known.contains_key(k)) {
            println!("KNOWN-FINDING: property={} {} ({})", prop, text, k);
        }
    }
    let mut samples: Vec<Value> = vec![];
    for r in &reps {
        for s in r.samples.iter().take(3) {
            samples.push(json!({"scenario": r.scenario, "trace": s}));
        }
    }
    let mut outcomes: Vec<Value> = vec![];
    for r in &reps {
        let m: serde_json::Map<String, Value> = r.outcomes.iter().take(60).map(|(k, v)| (k.clone(), json!(v))).collect();
        outcomes.push(json!({"scenario": r.scenario, "outcomes": m}));
    }
    let ev = json!({
        "property": prop, "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": reps.iter().map(|r| r.states).sum::<u64>(),
            "transitions": reps.iter().map(|r| r.transitions).sum::<u64>(),
            "traces_validated_against_impl": reps.iter().map(|r| r.replayed).sum::<u64>(),
            "samples": samples,
            "exhaustive": reps.iter().all(|r| r.exhaustive),
            "refused_transitions": reps.iter().map(|r| r.refused).sum::<u64>(),
            "distinct_outcomes": reps.iter().map(|r| r.outcomes.len()).sum::<usize>(),
            "scenarios": reps.iter().map(|r| r.json()).collect::<Vec<_>>(),
            "outcomes": outcomes,
            "note": "Every transition is an execution of the contract binary built from /repo's working tree; traces_validated_against_impl counts the complete traces that were replayed from the initial state a second time and reached the same state."
        },
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": code,
        "known_findings": known.iter().filter(|k| reps.iter().any(|r| r.known.contains_key(&k.0))).map(|k| k.0.clone()).collect::<Vec<_>>(),
        "assumptions": def.2,
    });
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", out));
        std::fs::write(format!("{}/evidence/{}.json", out, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    code
}
