mod api;
mod cyc;
mod demo;
mod engine;
mod evm;
mod gold;
mod grid;
mod mon;
mod plan;
mod reduce;
mod scen;
mod sim;
mod world;
use engine::*;
use std::time::{Duration, Instant};

fn known(prop: &str) -> Vec<String> {
    let p = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt").into());
    let t = std::fs::read_to_string(p).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={prop} ")))
        .map(|s| s.to_string())
        .collect()
}
fn deviations(r: &RunReport) -> Vec<String> {
    r.choices.iter().filter(|c| c.1 > 0).map(|c| format!("{} -> alternative {}", c.4, c.1)).collect()
}
/// The deviations in the form that `mc demo` takes.
fn demo_args(r: &RunReport) -> Vec<String> {
    let mut v = vec![];
    for (i, c) in r.choices.iter().enumerate().filter(|(_, c)| c.1 > 0) {
        let nth = r.choices[..=i].iter().filter(|d| d.4.contains(&c.4)).count();
        v.extend([c.4.clone(), nth.to_string(), c.1.to_string()]);
    }
    v
}
fn main() {
    minter_canister::link();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied().unwrap_or("") {
        // mc show <scenario> [mask] [choices,...]: one execution, verbosely
        "show" => {
            let mut job = Job::default();
            if let Some(p) = a.get(4) {
                job.prefix = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            }
            show(plan::scenario(a[2]), job, a.get(3).map_or(31, |m| m.parse().unwrap()))
        }
        // mc try <scenario> <k> <mask> [prop]: explore against all properties
        "try" => {
            let sc = plan::scenario(a[2]);
            let (k, mask) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let props: Vec<String> = a.get(5).map(|p| p.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
            let _ = mon::WANT.set(props.clone());
            let mut st = Stats { complete: true, ..Default::default() };
            let t = Instant::now();
            let all = props.is_empty();
            let mut e = Explorer { sc: &sc, k, mask, props, deadline: None, all, known: vec![], known_hits: Default::default(), each: None };
            let r = e.run(&mut st);
            println!("exec {} reruns {} steps {} states {} choice {} traps {} {:?} in {:?}", st.executions, st.reruns, st.steps, st.states.len(), st.choice_points, st.traps, st.counters, t.elapsed());
            match r {
                Err(e) => println!("ERR {e}"),
                Ok(f) => {
                    for x in f {
                        println!("{} | {:?} | {:?}", x.text, x.report.choices.iter().filter(|c| c.1 > 0).map(|c| (c.4.clone(), c.1)).collect::<Vec<_>>(), x.job.prefix)
                    }
                }
            }
        }
        // mc golden: records the stored form of events (only ever run on the pinned version)
        // mc demo <scenario> [<label text> <nth> <alternative>]...: the facts at the end of one history
        "demo" => std::process::exit(demo::run(&a[2..])),
        "golden" => gold::record(),
        "check" if a[2] == "C07" => std::process::exit(check_stored(a[3])),
        "check" => std::process::exit(check(a[2], a[3])),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(a[2]).unwrap()).unwrap();
            let job: Job = serde_json::from_value(v["job"].clone()).unwrap();
            show(plan::scenario(v["scenario"].as_str().unwrap()), job, v["mask"].as_u64().unwrap() as u32)
        }
        "plan" => {
            for p in plan::PROPS {
                for i in plan::plan(p, a.get(2).copied().unwrap_or("quick")) {
                    println!("{p} {} k={} mask={}", i.name, i.k, i.mask);
                }
            }
        }
        x => panic!("unknown command {x}"),
    }
}
/// Runs one execution verbosely, in a child so that traps can be re-run.
fn show(sc: scen::Scenario, mut job: Job, mask: u32) -> ! {
    loop {
        match engine::one(&sc, &job, mask) {
            Ok(Ok(_)) => break,
            Ok(Err((k, m))) => {
                job.traps.insert(k, m);
            }
            Err(e) => {
                println!("ERR {e}");
                std::process::exit(2)
            }
        }
    }
    sim::OUT_FD.store(1, std::sync::atomic::Ordering::SeqCst);
    engine::run_child(sc, job, mask, true, None)
}
fn check_stored(tier: &str) -> i32 {
    let start = Instant::now();
    let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
    let o = gold::check(tier != "quick");
    let wall = start.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = serde_json::json!({
        "property": "C07", "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": o.events, "transitions": o.events + o.encoded, "traces_validated_against_impl": o.runs, "executions": 2 * o.runs,
            "recorded_logs_loaded": o.runs, "stored_events_read_back": o.events, "events_written_again_and_compared": o.encoded, "logs_no_longer_reproduced": o.diverged,
            "exhaustive": o.error.is_none() && o.violation.is_none(),
            "bounds": "every event shape (kind of event and presence of each optional field) that the pinned version writes in any listed scenario",
            "samples": o.samples,
        },
        "wall_s": wall, "violations": o.violation.is_some() as u32,
        "assumptions": ["golden/events.json was written by the pinned version"],
    });
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{root}/evidence"));
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/C07.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("C07 {tier}: {} logs, {} stored events read, {} written again, {} runs differ, in {wall:.1} s", o.runs, o.events, o.encoded, o.diverged);
    if let Some((t, doc)) = o.violation {
        let _ = std::fs::create_dir_all(format!("{root}/build/replay"));
        let path = format!("{root}/build/replay/C07.json");
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{t}");
        println!("VIOLATION property=C07 replay={}", std::path::Path::new(&path).canonicalize().map(|p| p.display().to_string()).unwrap_or_default());
        return 1;
    }
    if let Some(e) = o.error {
        eprintln!("error: {e}");
        return 2;
    }
    0
}
fn check(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let budget: u64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 480 } else { 3000 });
    let deadline = start + Duration::from_secs(budget);
    let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
    // A configuration that does not take effect shows as a violation of the property it is about.
    let also: &[&str] = if prop == "S07" { &["W03", "W04", "W08", "W09", "W11", "D02", "D03", "D05", "C03"] } else { &[] };
    let _ = mon::WANT.set(also.iter().copied().chain([prop]).map(String::from).collect());
    let items = plan::plan(prop, tier);
    if items.is_empty() {
        eprintln!("no plan for {prop}");
        return 2;
    }
    let (mut exec, mut reruns, mut steps, mut states, mut choice, mut traps) = (0u64, 0u64, 0u64, std::collections::BTreeSet::new(), 0u64, 0u64);
    let mut counters = std::collections::BTreeMap::<String, u64>::new();
    let mut complete = true;
    let mut list = vec![];
    let mut samples = vec![];
    let mut hits = std::collections::BTreeMap::<String, u64>::new();
    let mut viol: Option<(Found, plan::Item)> = None;
    let mut err = None;
    let mut plain = std::collections::BTreeMap::<&str, std::collections::BTreeSet<String>>::new();
    let mut soft = std::collections::BTreeMap::<(String, String), (Found, plan::Item)>::new();
    for i in &items {
        let sc = plan::scenario(&i.name);
        let mut st = Stats { complete: true, ..Default::default() };
        let mut e = Explorer { sc: &sc, k: i.k, mask: i.mask, props: also.iter().copied().chain([prop]).map(String::from).collect(), deadline: Some(deadline), all: false, known: known(prop), known_hits: Default::default(), each: None };
        let r = e.run(&mut st);
        for (k, n) in e.known_hits {
            *hits.entry(k).or_default() += n;
        }
        exec += st.executions;
        reruns += st.reruns;
        steps += st.steps;
        states.extend(st.states.iter().copied());
        choice += st.choice_points;
        traps += st.traps;
        complete &= st.complete;
        for (k, n) in &st.counters {
            *counters.entry(k.clone()).or_default() += n;
        }
        list.push(serde_json::json!({"scenario": i.name, "max_deviations": i.k, "choice_kinds": i.mask, "executions": st.executions, "complete": st.complete}));
        if samples.len() < 12 {
            samples.extend(st.samples.into_iter().take(2));
        }
        match r {
            Err(x) => {
                err = Some(x);
                break;
            }
            Ok(mut f) => {
                for (k, v) in st.plain {
                    plain.entry(k).or_default().extend(v);
                }
                for (k, v) in st.soft {
                    soft.entry(k).or_insert((v, i.clone()));
                }
                if !f.is_empty() {
                    viol = Some((f.remove(0), i.clone()));
                    break;
                }
            }
        }
    }
    if prop == "D07" && viol.is_none() && err.is_none() {
        let (n, bad) = reduce::all();
        counters.insert("combinations of provider answers reduced".into(), n);
        if let Some(text) = bad {
            let i = items[0].clone();
            viol = Some((Found { job: Job::default(), text: format!("D07: {text}"), report: Default::default() }, i));
        }
    }
    if viol.is_none() {
        // What goes wrong after an upgrade or a trap and never without one.
        viol = soft.into_iter().find(|((w, p), _)| w == prop && !plain.get(w.as_str()).map_or(false, |s| s.contains(p))).map(|x| x.1);
    }
    let viol = viol.map(|(f, i)| {
        let dir = format!("{root}/build/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}.json");
        let path = std::path::Path::new(&path);
        let doc = serde_json::json!({"property": prop, "scenario": i.name, "mask": i.mask, "job": f.job, "violation": f.text, "deviations": deviations(&f.report), "traps": f.report.trapped, "demo": demo_args(&f.report)});
        let _ = std::fs::write(path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{} in scenario {}", f.text, i.name);
        for d in deviations(&f.report) {
            println!("  {d}");
        }
        path.canonicalize().map(|p| p.display().to_string()).unwrap_or_default()
    });
    for (k, n) in &hits {
        println!("KNOWN-FINDING: property={prop} {k} ({n} executions)");
    }
    let wall = start.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    // C01 and C06: what the enumeration of the functions themselves (`pure`) covered
    let part: Option<Option<serde_json::Value>> =
        std::env::var("VERIF_PART").ok().map(|p| std::fs::read_to_string(p).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()).map(|v| v["coverage"].clone()));
    let missing = matches!(part, Some(None));
    if missing {
        println!("{prop}: the functions can not be enumerated on this tree, as they have other signatures; judged in histories only");
    }
    let mut ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states.len(), "transitions": steps, "traces_validated_against_impl": exec,
            "executions": exec, "schedules": exec, "re_executions_after_traps": reruns, "choice_points": choice, "traps_injected_or_observed": traps,
            "exhaustive": complete && err.is_none() && viol.is_none() && !missing,
            "bounds": "every execution of each listed scenario that deviates from the default schedule in at most max_deviations places; operation choices inside a scenario are enumerated fully",
            "scenarios": list, "checks_made": counters, "samples": samples,
        },
        "wall_s": wall, "violations": viol.is_some() as u32,
        "assumptions": [
            "the Internet Computer host, ledgers, RPC canister and EVM chain are simulated as described in DESIGN.md",
            "executions are the real canister code compiled natively; no abstraction of the minter is involved",
        ],
    });
    if let Some(Some(p)) = part {
        ev["coverage"]["enumeration_of_the_functions"] = p;
    }
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{root}/evidence"));
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop} {tier}: {exec} executions, {} states, {steps} transitions, {} in {wall:.1} s", states.len(), if complete { "complete" } else { "cut by the time budget" });
    if let Some(p) = viol {
        println!("VIOLATION property={prop} replay={p}");
        return 1;
    }
    if let Some(e) = err {
        eprintln!("error: {e}");
        return 2;
    }
    0
}
