//! C07: the stored form of events. `golden/events.json` holds event logs written by the pinned version of the
//! minter (bytes in stable memory) together with what the minter then said about them.
use crate::api::*;
use crate::engine::{self, Job, RunReport};
use crate::scen::Scenario;
use crate::sim::{self, Sim};
use candid::Encode;
use ic_stable_structures::{
    log::Log as StableLog,
    memory_manager::{MemoryId, MemoryManager},
    storable::{Bound, Storable},
    DefaultMemoryImpl,
};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

/// Whether executions report their stored events.
pub static DUMP: AtomicBool = AtomicBool::new(false);

#[derive(Clone)]
struct Raw(Vec<u8>);
impl Storable for Raw {
    fn to_bytes(&self) -> Cow<[u8]> {
        Cow::Borrowed(&self.0)
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Raw(b.into_owned())
    }
    const BOUND: Bound = Bound::Unbounded;
}
/// What the minter stored and how it presents it.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Dump {
    pub events: Vec<(String, String)>,
    pub info: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Run {
    scenario: String,
    mask: u32,
    job: Job,
    events: Vec<usize>,
    info: String,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Golden {
    table: Vec<(String, String)>,
    runs: Vec<Run>,
}
pub fn dump(s: &mut Sim) -> Dump {
    let raw: Vec<Vec<u8>> = {
        let m = MemoryManager::init(DefaultMemoryImpl::default());
        let log: StableLog<Raw, _, _> = StableLog::init(m.get(MemoryId::new(0)), m.get(MemoryId::new(1))).unwrap();
        log.iter().map(|r| r.0).collect()
    };
    let mut texts = vec![];
    loop {
        let r: Option<GetEventsResult> = s.query("get_events", Encode!(&GetEventsArg { start: texts.len() as u64, length: 100 }).unwrap());
        match r {
            Some(r) if !r.events.is_empty() => texts.extend(r.events.iter().map(|e| format!("{e:?}"))),
            _ => break,
        }
    }
    let info = s.info().map(|i| format!("{i:?}")).unwrap_or_default();
    let n = raw.len().max(texts.len());
    let g = |i: usize| (raw.get(i).map(hex::encode).unwrap_or_default(), texts.get(i).cloned().unwrap_or_default());
    Dump { events: (0..n).map(g).collect(), info }
}
fn skeleton(t: &str) -> String {
    let mut out = String::new();
    let mut q = false;
    let mut digits = 0;
    for c in t.chars() {
        // Numbers are stored differently according to their size.
        digits = if c.is_ascii_digit() || c == '_' { digits + 1 } else { 0 };
        if !q && digits == 25 {
            out.push('#');
        }
        match c {
            '"' => q = !q,
            _ if q => {}
            c if c.is_alphabetic() || "{}()[".contains(c) => out.push(c),
            _ => {}
        }
    }
    out
}
fn path() -> String {
    std::env::var("VERIF_GOLDEN").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../golden/events.json").into())
}
/// The full report of one execution, repeating it as often as messages trap.
fn settle(sc: &Scenario, job: &Job, mask: u32) -> Option<(Job, RunReport)> {
    let mut job = job.clone();
    for _ in 0..60 {
        match engine::one(sc, &job, mask) {
            Ok(Ok(r)) => return Some((job, r)),
            Ok(Err((k, m))) => {
                job.traps.insert(k, m);
            }
            Err(_) => return None,
        }
    }
    None
}
pub fn record() {
    DUMP.store(true, SeqCst);
    let mut g = Golden::default();
    let mut ids: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut shapes: BTreeSet<String> = BTreeSet::new();
    let mut plan: Vec<(String, u32, u32)> = vec![];
    for n in ["dep3", "dep_big", "dep_fee", "dep_fee_low", "raw2", "mix", "bump2", "bump_e", "bump_f", "fail_mix", "burnfail", "burnfail_n", "wfee", "registry", "up", "huge", "addr"] {
        plan.push((n.into(), 0, 31));
    }
    for i in 0..30 {
        plan.push((format!("net:{i}"), 0, 31));
    }
    for i in 0..22 {
        plan.push((format!("raw:{i}"), 0, 31));
    }
    plan.push(("upg:1".into(), 0, 31));
    plan.push(("init:1".into(), 0, 31));
    for n in ["dep", "fail_n", "fail_e", "burnfail"] {
        plan.push((n.into(), 1, 4));
    }
    for (name, k, mask) in plan {
        let sc = crate::plan::scenario(&name);
        let mut st = engine::Stats { complete: true, ..Default::default() };
        let mut jobs: Vec<Job> = vec![];
        let mut e = engine::Explorer { sc: &sc, k, mask, props: vec![], deadline: None, all: true, known: vec![], known_hits: Default::default(), each: None };
        e.each = Some(Box::new(|j: &Job, _: &RunReport| jobs.push(j.clone())));
        e.run(&mut st).unwrap();
        drop(e);
        for j in jobs {
            let Some((j, r)) = settle(&sc, &j, mask) else { continue };
            let Some(d) = r.dump else { continue };
            let new: Vec<String> = d.events.iter().map(|e| skeleton(&e.1)).filter(|x| !shapes.contains(x)).collect();
            if new.is_empty() {
                continue;
            }
            shapes.extend(new);
            let events = d
                .events
                .iter()
                .map(|e| {
                    *ids.entry(e.clone()).or_insert_with(|| {
                        g.table.push(e.clone());
                        g.table.len() - 1
                    })
                })
                .collect();
            g.runs.push(Run { scenario: name.clone(), mask, job: j, events, info: d.info });
        }
    }
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for (_, t) in &g.table {
        let k = t.split("payload: ").nth(1).unwrap_or("?").split([' ', '(', '{']).next().unwrap().to_string();
        *kinds.entry(k).or_default() += 1;
    }
    println!("{} runs, {} events, {} shapes: {kinds:?}", g.runs.len(), g.table.len(), shapes.len());
    std::fs::create_dir_all(std::path::Path::new(&path()).parent().unwrap()).unwrap();
    std::fs::write(path(), serde_json::to_string(&g).unwrap().replace("],[", "],\n[").replace("},{", "},\n{")).unwrap();
}
/// Loads a recorded log into stable memory, starts the current code on it, and returns what it says.
fn load(events: &[Vec<u8>], now: u64, net: Scenario) -> ! {
    let events = events.to_vec();
    sim::install_hooks();
    sim::arm_cpu_limit(60);
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            {
                let m = MemoryManager::init(DefaultMemoryImpl::default());
                let log: StableLog<Raw, _, _> = StableLog::init(m.get(MemoryId::new(0)), m.get(MemoryId::new(1))).unwrap();
                for e in &events {
                    log.append(&Raw(e.clone())).unwrap();
                }
            }
            let mut s = Sim::new(net, vec![], BTreeMap::new(), 0);
            s.w.now = now;
            s.load_upgraded();
            let d = dump(&mut s);
            let rep = RunReport { dump: Some(d), ..Default::default() };
            sim::raw_write(format!("R {}\n", serde_json::to_string(&rep).unwrap()).as_bytes());
            sim::exit_now(0)
        })
        .unwrap();
    let _ = th.join();
    sim::exit_now(6)
}
pub struct Outcome {
    pub violation: Option<(String, serde_json::Value)>,
    pub error: Option<String>,
    pub runs: u64,
    pub events: u64,
    pub encoded: u64,
    pub diverged: u64,
    pub samples: Vec<String>,
}
pub fn check(_deep: bool) -> Outcome {
    DUMP.store(true, SeqCst);
    let mut o = Outcome { violation: None, error: None, runs: 0, events: 0, encoded: 0, diverged: 0, samples: vec![] };
    let g: Golden = match std::fs::read_to_string(path()).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(g) => g,
        Err(e) => {
            o.error = Some(format!("golden/events.json: {e}"));
            return o;
        }
    };
    o.samples = g.table.iter().step_by(g.table.len() / 8 + 1).map(|(b, t)| format!("{t} stored as {b}")).collect();
    let bytes: BTreeMap<&str, &str> = g.table.iter().map(|(b, t)| (t.as_str(), b.as_str())).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: std::sync::Mutex<Vec<(usize, Result<(u64, u64, u64), String>)>> = Default::default();
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= g.runs.len() {
                    return;
                }
                let r = one_run(&g, &g.runs[i], &bytes);
                res.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (i, r) in v {
        o.runs += 1;
        match r {
            Ok((a, b, c)) => {
                o.events += a;
                o.encoded += b;
                o.diverged += c;
            }
            Err(e) if o.violation.is_none() => {
                let run = &g.runs[i];
                o.violation = Some((
                    format!("{e} (log recorded in scenario {})", run.scenario),
                    serde_json::json!({"property": "C07", "scenario": run.scenario, "mask": run.mask, "job": run.job, "violation": e, "golden_run": i}),
                ));
            }
            Err(_) => {}
        }
    }
    o
}
fn one_run(g: &Golden, run: &Run, bytes: &BTreeMap<&str, &str>) -> Result<(u64, u64, u64), String> {
    let sc = crate::plan::scenario(&run.scenario);
    let want: Vec<(String, String)> = run.events.iter().map(|i| g.table[*i].clone()).collect();
    let raw: Vec<Vec<u8>> = want.iter().map(|e| hex::decode(&e.0).unwrap()).collect();
    // Old logs are read.
    let net = sc.clone();
    let out = engine::fork_line(|| load(&raw, crate::world::T0 + 100_000_000_000_000, net.clone()));
    if let Some(r) = out.strip_prefix("R ") {
        let rep: RunReport = serde_json::from_str(r).map_err(|e| e.to_string())?;
        let d = rep.dump.unwrap_or_default();
        for (i, w) in want.iter().enumerate() {
            match d.events.get(i) {
                None => return Err(format!("stored event {i} is gone after loading: {}", w.1)),
                Some(e) if e.1 != w.1 => return Err(format!("stored event {i} is read as {} instead of {}", e.1, w.1)),
                Some(e) if e.0 != w.0 => return Err(format!("stored event {i} is rewritten")),
                _ => {}
            }
        }
        if d.events.len() != want.len() {
            return Err(format!("loading a log of {} events makes it {}", want.len(), d.events.len()));
        }
    } else if let Some(t) = out.strip_prefix("T ") {
        return Err(format!("a log of {} events written by an earlier version cannot be loaded: {t}", want.len()));
    } else {
        return Err(format!("loading an old log died: {out}"));
    }
    // The same events are still written in the same form.
    let (mut n, mut div) = (0, 0);
    match settle(&sc, &Job { prefix: run.job.prefix.clone(), traps: BTreeMap::new(), devs: 0 }, run.mask) {
        Some((_, r)) => {
            for (b, t) in r.dump.unwrap_or_default().events {
                if let Some(old) = bytes.get(t.as_str()) {
                    n += 1;
                    if *old != b {
                        return Err(format!("{t} is now stored as {b}, it was {old}"));
                    }
                }
            }
        }
        None => div += 1,
    }
    Ok((want.len() as u64, n, div))
}
