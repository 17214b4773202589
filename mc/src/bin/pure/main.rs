//! Exhaustive enumeration of the minter's self-contained data types against independent oracles:
//! every value, pair or operation sequence of a bounded domain is run through the real code.
//! Each property is a feature of its own, so that one whose functions changed their signatures does not silence the others.
#![allow(dead_code, unused_macros, unused_variables)]
use sha3::{Digest, Keccak256};
use std::time::Instant;

type Out = Result<Cov, String>;
#[derive(Default)]
struct Cov {
    states: u64,
    transitions: u64,
    samples: Vec<String>,
    bounds: String,
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// Runs real code that may panic.
fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}
fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
fn eip55(b: &[u8; 20]) -> String {
    let h = hex::encode(b);
    let k = keccak(h.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in h.chars().enumerate() {
        let n = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 };
        s.push(if n >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c10")]
mod c10;
#[cfg(any(feature = "c02", feature = "c04", feature = "c06"))]
mod amounts;
const BUILT: &[&str] = &[
    #[cfg(feature = "c01")]
    "C01",
    #[cfg(feature = "c02")]
    "C02",
    #[cfg(feature = "c04")]
    "C04",
    #[cfg(feature = "c05")]
    "C05",
    #[cfg(feature = "c06")]
    "C06",
    #[cfg(feature = "c10")]
    "C10",
];
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier) = (a[1].as_str(), a[2].as_str());
    let deep = tier != "quick";
    if !BUILT.contains(&prop) {
        eprintln!("{prop} does not build against this tree");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let t = Instant::now();
    let f = || match prop {
        #[cfg(feature = "c01")]
        "C01" => c01::c01(deep),
        #[cfg(feature = "c02")]
        "C02" => c02::c02(deep),
        #[cfg(feature = "c04")]
        "C04" => c04::c04(deep),
        #[cfg(feature = "c05")]
        "C05" => c05::c05(deep),
        #[cfg(feature = "c06")]
        "C06" => c06::c06(deep),
        #[cfg(feature = "c10")]
        "C10" => c10::c10(deep),
        _ => panic!("unknown property {prop}"),
    };
    let r = catch(f).and_then(|x| x);
    let wall = t.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
    let (c, viol) = match r {
        Ok(c) => (c, None),
        Err(e) => (Cov::default(), Some(e)),
    };
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.transitions,
            "exhaustive": viol.is_none(), "bounds": c.bounds, "samples": c.samples,
        },
        "wall_s": wall, "violations": viol.is_some() as u32,
        "assumptions": ["the oracle in mc/src/bin/pure.rs is right", "values outside the enumerated domain behave like those inside"],
    });
    let dir = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{root}/evidence"));
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop} {tier}: {} states, {} transitions in {wall:.1} s", c.states, c.transitions);
    if let Some(v) = viol {
        let dir = format!("{root}/build/replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{prop}.json");
        let _ = std::fs::write(&p, serde_json::json!({"property": prop, "violation": v, "replay": format!("./check.sh {prop} {tier}")}).to_string());
        println!("{v}");
        let p = std::path::Path::new(&p).canonicalize().map(|p| p.display().to_string()).unwrap_or(p);
        println!("VIOLATION property={prop} replay={p}");
        std::process::exit(1);
    }
}
