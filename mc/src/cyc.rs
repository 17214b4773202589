//! Cycle accounting of calls to the RPC canister (C09): answers of the kind "too few cycles", and what must follow.
use crate::mon::viol;
use crate::sim::*;
use crate::world::*;
use candid::Encode;
use evm_rpc_types as er;

pub const RETRIES: u32 = 10;
#[derive(Clone, Debug)]
pub struct Chain {
    pub method: String,
    pub args: Vec<u8>,
    pub cycles: u128,
    pub retries: u32,
}
#[derive(Default)]
pub struct Cyc {
    /// Calls outstanding, by context, with the number of times they have been retried.
    open: Vec<(u64, Chain)>,
    /// The answer now being delivered was "too few cycles" (with what was asked for), or something else.
    now: Option<(u64, Chain, Option<u128>)>,
    sticky: Option<(String, u32)>,
}
fn is_rpc(r: &Req) -> bool {
    matches!(r, Req::GetLogs { .. } | Req::GetBlock { .. } | Req::Receipt { .. } | Req::FeeHistory { .. } | Req::SendRaw { .. } | Req::TxCount { .. })
}
pub fn on_issue(s: &mut Sim, ctx: u64, req: &Req, cycles: u128) {
    if !is_rpc(req) {
        return;
    }
    let Some((method, args)) = s.cur_call.clone() else { return };
    let mut retries = 0;
    if let Some((c, ch, want)) = s.cyc.now.clone() {
        if c == ctx && ch.method == method && ch.args == args {
            s.cyc.now = None;
            match want {
                None => viol!(s, "C09", "{method} is repeated although its answer was not about cycles"),
                Some(e) => {
                    retries = ch.retries + 1;
                    if retries > RETRIES {
                        viol!(s, "C09", "{method} is retried {retries} times");
                    }
                    let least = ch.cycles.saturating_mul(2).max(e);
                    if cycles < least {
                        viol!(s, "C09", "{method} is retried with {cycles} cycles after {} were too few and {e} were asked for", ch.cycles);
                    }
                    s.mon.count("retries judged");
                }
            }
        }
    }
    s.cyc.open.push((ctx, Chain { method, args, cycles, retries }));
}
pub fn choose_answer(s: &mut Sim, p: &Pending, pat: String) -> String {
    if !is_rpc(&p.req) || pat != "o" || !s.ch.on {
        return pat;
    }
    let chained = s.cyc.open.iter().any(|(c, ch)| *c == p.ctx && ch.method == p.call.method && ch.args == p.call.args && ch.retries > 0);
    if let Some((k, n)) = s.cyc.sticky.clone() {
        if chained && n > 0 {
            s.cyc.sticky = Some((k.clone(), n - 1));
            return k;
        }
        s.cyc.sticky = None;
    }
    if chained {
        return pat;
    }
    const MENU: [(&str, u32); 12] =
        [("o", 0), ("c1", 1), ("c5", 1), ("ch", 1), ("cz", 1), ("cm", 1), ("ci", 1), ("cj", 1), ("c1", 9), ("c1", 10), ("c1", 14), ("ci", 12)];
    let i = s.ch.choose(Kind::Fault, MENU.len(), || format!("cycles of {}", p.label));
    let (k, n) = MENU[i];
    if n > 1 {
        s.cyc.sticky = Some((k.into(), n - 1));
    }
    k.into()
}
pub fn answer(s: &mut Sim, p: &Pending, pat: &str) -> Option<Answer> {
    if !is_rpc(&p.req) {
        return None;
    }
    let i = s.cyc.open.iter().position(|(c, ch)| *c == p.ctx && ch.method == p.call.method && ch.args == p.call.args)?;
    let (ctx, ch) = s.cyc.open.remove(i);
    let got = ch.cycles;
    let few = |e: u128| er::RpcError::ProviderError(er::ProviderError::TooFewCycles { expected: e, received: got });
    let other = er::RpcError::ProviderError(er::ProviderError::NoPermission);
    let want = match pat {
        "c1" => Some(got.saturating_add(1)),
        "c5" => Some(got.saturating_mul(5)),
        "ch" => Some(got / 2),
        "cz" => Some(0),
        "cm" => Some(u128::MAX / 4),
        "ci" | "cj" => Some(got.saturating_mul(7)),
        _ => None,
    };
    let svc = match &p.req {
        Req::GetLogs { svc, .. } | Req::GetBlock { svc, .. } | Req::Receipt { svc, .. } | Req::FeeHistory { svc, .. } | Req::SendRaw { svc, .. } | Req::TxCount { svc, .. } => svc.clone(),
        _ => vec![],
    };
    s.cyc.now = Some((ctx, ch, want));
    want?;
    if let Req::GetLogs { q, .. } = &p.req {
        s.w.log_queries[*q].outcome = Some(LogOutcome::NotAgreed);
    }
    // An error has no payload: any result type decodes it.
    type R = er::MultiRpcResult<er::Nat256>;
    let r: R = match pat {
        "ci" | "cj" if svc.len() > 1 => {
            let mut v: Vec<er::RpcResult<er::Nat256>> = vec![Err(few(got.saturating_mul(3))), Err(few(want.unwrap()))];
            if svc.len() > 2 {
                v.insert(if pat == "ci" { 0 } else { 2 }, Err(other));
            }
            if pat == "cj" {
                v.swap(0, 1);
            }
            er::MultiRpcResult::Inconsistent(svc.into_iter().zip(v).collect())
        }
        _ => er::MultiRpcResult::Consistent(Err(few(want.unwrap()))),
    };
    Some(Answer::Ok(match &p.req {
        Req::TxCount { .. } => Encode!(&r).unwrap(),
        Req::GetLogs { .. } => Encode!(&conv::<Vec<er::LogEntry>>(r)).unwrap(),
        Req::GetBlock { .. } => Encode!(&conv::<er::Block>(r)).unwrap(),
        Req::Receipt { .. } => Encode!(&conv::<Option<er::TransactionReceipt>>(r)).unwrap(),
        Req::FeeHistory { .. } => Encode!(&conv::<er::FeeHistory>(r)).unwrap(),
        _ => Encode!(&conv::<er::SendRawTransactionStatus>(r)).unwrap(),
    }))
}
fn conv<T>(r: er::MultiRpcResult<er::Nat256>) -> er::MultiRpcResult<T> {
    match r {
        er::MultiRpcResult::Consistent(x) => er::MultiRpcResult::Consistent(x.map(|_| unreachable!())),
        er::MultiRpcResult::Inconsistent(v) => er::MultiRpcResult::Inconsistent(v.into_iter().map(|(s, x)| (s, x.map(|_| unreachable!()))).collect()),
    }
}
pub fn on_delivered(s: &mut Sim, _p: &Pending, pat: &str) {
    if let Some((_, ch, Some(_))) = s.cyc.now.take() {
        if ch.retries < RETRIES && !s.trapped.iter().any(|(_, t)| t == "injected") {
            viol!(s, "C09", "{} is not retried after {} retries although {} cycles were too few ({pat})", ch.method, ch.retries, ch.cycles);
        }
    }
}
