//! One particular history, and the plain facts at its end (used to demonstrate a defect; decides nothing).
use crate::engine::{self, Job};
use crate::sim::*;
use crate::world::*;
use candid::{Encode, Principal};
use icrc_ledger_types::icrc1::account::Account;
use std::collections::BTreeSet;
use std::sync::Mutex;

/// At the n-th choice (from 1) whose label contains the text, take this alternative.
pub static FORCE: Mutex<Vec<(String, usize, usize, usize)>> = Mutex::new(vec![]);
pub static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn forced(label: &str, n: usize) -> Option<usize> {
    let mut pick = None;
    for (t, nth, alt, seen) in FORCE.lock().unwrap().iter_mut() {
        if label.contains(t.as_str()) {
            *seen += 1;
            if seen == nth && *alt < n {
                pick = Some(*alt);
            }
        }
    }
    pick
}
fn who(p: &Principal) -> String {
    if *p == minter_id() {
        return "minter".into();
    }
    for i in 0..=255 {
        if *p == user(i) {
            return format!("user{i}");
        }
    }
    p.to_text()
}
fn acc(a: &Account) -> String {
    match a.subaccount {
        None => who(&a.owner),
        Some(s) if s == fees_subaccount() => format!("{}/fees", who(&a.owner)),
        Some(s) => format!("{}/{:02x}", who(&a.owner), s[31]),
    }
}
fn ledger_name(p: &Principal) -> String {
    if *p == native_ledger() {
        return "native".into();
    }
    (0..3).find(|i| *p == erc20_ledger(*i)).map(|i| format!("token{i}")).unwrap_or(p.to_text())
}
/// What the status query answered over time.
static SEEN: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
pub fn watch(s: &mut Sim) {
    if !ON.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    for id in s.mon.wds.keys().copied().collect::<Vec<_>>() {
        let st = s.query_raw("retrieve_witdrawal_status", Encode!(&id).unwrap()).and_then(|b| candid::decode_one::<crate::api::RetrieveWithdrawalStatus>(&b).ok());
        let x = format!("{st:?}");
        let mut seen = SEEN.lock().unwrap();
        if seen.iter().filter(|e| e.0 == id).last().map(|e| &e.1) != Some(&x) {
            seen.push((id, x));
        }
    }
}
pub fn facts(s: &mut Sim) -> Vec<String> {
    let mut v = vec![];
    for (l, x) in &s.w.ledgers {
        for b in &x.blocks {
            v.push(match b.kind {
                LKind::Mint => format!("{}: mint {} to {}", ledger_name(l), b.amount, acc(&b.to)),
                LKind::Burn => format!("{}: burn {} from {}", ledger_name(l), b.amount, acc(&b.from)),
                LKind::Transfer => format!("{}: transfer {} from {} to {}", ledger_name(l), b.amount, acc(&b.from), acc(&b.to)),
            });
        }
        for (a, b) in &x.balances {
            v.push(format!("{}: balance of {} is {b}", ledger_name(l), acc(a)));
        }
        v.push(format!("{}: supply {}", ledger_name(l), x.supply()));
    }
    let mut seen = BTreeSet::new();
    for (raw, t) in &s.w.raw_sent {
        if seen.insert(raw.clone()) {
            v.push(match t {
                Ok(t) => format!(
                    "transaction nonce {} chain {} to {} value {} gas {} max fee {} priority {} data {} by minter {}",
                    t.nonce,
                    t.chain_id,
                    hex_addr(&t.to),
                    t.value,
                    t.gas,
                    t.max_fee,
                    t.prio,
                    hex::encode(&t.data),
                    t.sender == Some(s.w.minter_addr()) && t.low_s
                ),
                Err(e) => format!("bad transaction: {e}"),
            });
        }
    }
    v.push(format!("{} different transactions sent", seen.len()));
    for m in &s.w.mined {
        v.push(format!("mined nonce {} to {} ok {}", m.tx.nonce, hex_addr(&m.tx.to), m.ok));
    }
    for q in &s.w.log_queries {
        let o = match &q.outcome {
            Some(LogOutcome::Agreed(l)) => format!("{} logs", l.len()),
            x => format!("{x:?}"),
        };
        v.push(format!("log query {}..={}: {o}", q.from, q.to));
    }
    for o in &s.ops {
        v.push(format!("request {:?} by {}: {}", o.act, who(&o.caller), crate::mon::reply_text(o)));
    }
    for (w, t) in &s.trapped {
        v.push(format!("trap in {w}: {t}"));
    }
    for id in s.mon.wds.keys().copied().collect::<Vec<_>>() {
        let st = s.query_raw("retrieve_witdrawal_status", Encode!(&id).unwrap()).and_then(|b| candid::decode_one::<crate::api::RetrieveWithdrawalStatus>(&b).ok());
        v.push(format!("status of {id}: {st:?}"));
    }
    for (i, e) in s.mon.events.iter().enumerate() {
        v.push(format!("event {i}: {:?}", e.payload));
    }
    if let Some(i) = s.info() {
        v.push(format!("reported native balance {}", i.native_balance.clone().unwrap_or_default().0));
        for b in i.erc20_balances.iter().flatten() {
            v.push(format!("reported token balance {} of {}", b.balance.0, b.erc20_contract_address));
        }
        v.push(format!("minter info: {i:?}"));
    }
    v.append(&mut SEEN.lock().unwrap().iter().map(|(id, x)| format!("seen status of {id}: {x}")).collect());
    v.push(format!("chain holdings of the minter: {}", s.w.native_balance));
    v.push(format!("{} steps", s.steps));
    v
}
pub fn run(args: &[&str]) -> i32 {
    let sc = crate::plan::scenario(args[0]);
    ON.store(true, std::sync::atomic::Ordering::SeqCst);
    for a in args[1..].chunks(3) {
        FORCE.lock().unwrap().push((a[0].to_string(), a[1].parse().unwrap(), a[2].parse().unwrap(), 0));
    }
    let mut job = Job::default();
    for _ in 0..200 {
        match engine::one(&sc, &job, 31) {
            Ok(Ok(r)) => {
                let all = std::env::var("MC_LABELS").is_ok();
                for c in r.choices.iter().filter(|c| all || c.1 > 0) {
                    println!("chosen: {} -> {}", c.4, c.1);
                }
                for f in r.facts {
                    println!("{f}");
                }
                return 0;
            }
            Ok(Err((k, m))) => {
                job.traps.insert(k, m);
            }
            Err(e) => {
                println!("ERR {e}");
                return 2;
            }
        }
    }
    println!("traps without end");
    2
}
