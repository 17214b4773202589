#![allow(unused_imports)]
use std::collections::BTreeSet;
use crate::*;
use evm_minter::logs::{Log, LogEntry, Priority, Sort};
// ---------------------------------------------------------------- C10
pub fn entry(t: u64, msg: &str, counter: u64) -> LogEntry {
    LogEntry { timestamp: t, priority: Priority::Info, file: "src/x.rs".into(), line: 7, message: msg.into(), counter }
}
pub fn c10(deep: bool) -> Out {
    let mut c = Cov::default();
    let pieces = ["", "a", "\"quoted\"\n", "é\u{1f600}", &"x".repeat(60)];
    let n = if deep { 6 } else { 5 };
    let total = pieces.len().pow(n as u32);
    for len in 0..=n {
        for code in 0..pieces.len().pow(len as u32) {
            let mut log = Log { entries: vec![] };
            let mut x = code;
            for i in 0..len {
                log.entries.push(entry((code / (i + 1)) as u64 % 3, pieces[x % pieces.len()], i as u64));
                x /= pieces.len();
            }
            let text = |k: usize| serde_json::to_string(&Log { entries: log.entries[..k].to_vec() }).unwrap();
            let sizes: Vec<usize> = (0..=len).map(|k| text(k).len()).collect();
            c.states += 1;
            let mut limits: BTreeSet<usize> = BTreeSet::new();
            for s in &sizes {
                for d in [-1i64, 0, 1] {
                    limits.insert((*s as i64 + d) as usize);
                }
            }
            limits.insert(usize::MAX);
            for lim in limits {
                if lim < sizes[0] {
                    continue;
                }
                c.transitions += 1;
                let out = catch(|| log.serialize_logs(lim)).map_err(|m| format!("serializing {len} entries within {lim} bytes: {m}"))?;
                ensure!(out.len() <= lim, "{} bytes of log served within a limit of {lim}", out.len());
                let k = sizes.iter().rposition(|s| *s <= lim).unwrap();
                ensure!(out == text(k), "a limit of {lim} bytes leaves {out:?} of {len} entries, {k} would fit");
            }
            for order in [Sort::Ascending, Sort::Descending] {
                let mut l = log.clone();
                l.sort_logs(order);
                let mut want = log.entries.clone();
                want.sort_by(|a, b| if matches!(order, Sort::Ascending) { a.timestamp.cmp(&b.timestamp) } else { b.timestamp.cmp(&a.timestamp) });
                ensure!(serde_json::to_string(&l.entries).unwrap() == serde_json::to_string(&want).unwrap(), "{order:?} order");
            }
        }
    }
    // The buffers keep the latest entries of each priority.
    use ic_canister_log::Sink;
    let sinks = [(&evm_minter::logs::INFO, Priority::Info), (&evm_minter::logs::DEBUG, Priority::Debug), (&evm_minter::logs::TRACE_HTTP, Priority::TraceHttp)];
    let mut sent = 0u64;
    for round in 0..3 {
        for (i, (s, _)) in sinks.iter().enumerate() {
            for k in 0..[3usize, 996, 2][round] + i {
                s.append(ic_canister_log::LogEntry { timestamp: sent, message: format!("{round}/{i}/{k}"), file: "f", line: 1, counter: sent });
                sent += 1;
            }
        }
        for (i, (_, p)) in sinks.iter().enumerate() {
            let mut l = Log::default();
            l.push_logs(*p);
            let all: Vec<String> = (0..=round).flat_map(|r| (0..[3usize, 996, 2][r] + i).map(move |k| format!("{r}/{i}/{k}"))).collect();
            let want = &all[all.len().saturating_sub(1000)..];
            let got: Vec<String> = l.entries.iter().map(|e| e.message.clone()).collect();
            c.transitions += 1;
            ensure!(got == want, "the {p:?} buffer holds {} entries ({:?}..), expected {} ({:?}..)", got.len(), got.first(), want.len(), want.first());
        }
        let mut l = Log::default();
        l.push_all();
        let per: Vec<usize> = sinks.iter().map(|(_, p)| { let mut x = Log::default(); x.push_logs(*p); x.entries.len() }).collect();
        ensure!(l.entries.len() == per.iter().sum::<usize>(), "all buffers together serve {} entries", l.entries.len());
    }
    c.bounds = format!("all {total} logs of up to {n} entries over five message shapes, at every size limit next to a prefix size; buffers filled past their capacity");
    Ok(c)
}
