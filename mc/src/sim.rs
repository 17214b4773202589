//! One execution: runs the real canister code message by message in a simulated world, taking every
//! nondeterministic decision through the chooser.
use crate::api::*;
use crate::mon::Mon;
use crate::scen::{Act, Scenario};
use crate::world::*;
use candid::{CandidType, Encode, Principal};
use evm_rpc_types as er;
use ic0::{with_host, OutCall, Reply};
use icrc_ledger_types::icrc1::account::Account;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};

// ---------------------------------------------------------------- trap reporting
pub static IN_CANISTER: AtomicBool = AtomicBool::new(false);
pub static MSG_IDX: AtomicU64 = AtomicU64::new(0);
pub static OUT_FD: AtomicI32 = AtomicI32::new(-1);

pub fn raw_write(s: &[u8]) {
    let fd = OUT_FD.load(SeqCst);
    let mut off = 0;
    while off < s.len() {
        let n = unsafe { libc::write(fd, s[off..].as_ptr() as *const _, s.len() - off) };
        if n <= 0 {
            // nobody listens any more
            if let Some(s) = tree::shared() {
                s.stop.store(true, SeqCst);
            }
            break;
        }
        off += n as usize;
    }
}
pub fn exit_now(code: i32) -> ! {
    tree::leave();
    unsafe { libc::_exit(code) }
}
fn report_trap(msg: &str) -> ! {
    let m: String = msg.chars().map(|c| if c == '\n' { ' ' } else { c }).take(600).collect();
    let mut l = format!("T {} ", MSG_IDX.load(SeqCst)).into_bytes();
    tree::write_picks(&mut l);
    l.extend(m.as_bytes());
    l.push(b'\n');
    tree::send(&l);
    exit_now(0)
}
fn on_trap(msg: &str) -> ! {
    report_trap(msg)
}
extern "C" fn on_signal(sig: libc::c_int) {
    if IN_CANISTER.load(SeqCst) {
        // The canister used up its instructions or its stack; the process ends here.
        report_trap(if sig == libc::SIGVTALRM { "L" } else { "S" });
    }
    unsafe { libc::_exit(4) }
}
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_CANISTER.load(SeqCst) {
            report_trap(&format!("{m} at {loc}"));
        }
        tree::send(format!("H harness panic: {} at {}\n", m.replace('\n', " "), loc).as_bytes());
        eprintln!("harness panic: {m} at {loc}");
        if std::env::var("MC_TRACE").is_ok() {
            std::fs::write("/tmp/mc.trace", std::backtrace::Backtrace::force_capture().to_string()).ok();
        }
        exit_now(3);
    }));
    unsafe {
        for s in [libc::SIGVTALRM, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
pub fn arm_cpu_limit(secs: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        setitimer(1, &t, std::ptr::null_mut());
    }
}

/// Forking at choices: a process that meets a choice forks one process for every alternative it may take.
pub mod tree {
    use super::*;
    use std::sync::atomic::{AtomicPtr, AtomicU16, AtomicU32, AtomicUsize};
    #[repr(C)]
    pub struct Shared {
        pub lock: libc::sem_t,
        pub tokens: libc::sem_t,
        pub stop: AtomicBool,
        pub incomplete: AtomicBool,
        pub started: AtomicU64,
        pub gone: AtomicU64,
    }
    pub static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
    pub static JOB: AtomicU64 = AtomicU64::new(0);
    pub static TOKEN: AtomicBool = AtomicBool::new(false);
    static DEVS: AtomicU32 = AtomicU32::new(0);
    static LEN: AtomicUsize = AtomicUsize::new(0);
    const MAX: usize = 8192;
    static PICKS: [AtomicU16; MAX] = [const { AtomicU16::new(0) }; MAX];
    pub fn shared() -> Option<&'static Shared> {
        unsafe { SHARED.load(SeqCst).as_ref() }
    }
    pub fn create(tokens: u32) -> &'static Shared {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let p = p as *mut Shared;
            libc::sem_init(std::ptr::addr_of_mut!((*p).lock), 1, 1);
            libc::sem_init(std::ptr::addr_of_mut!((*p).tokens), 1, tokens);
            &*p
        }
    }
    pub fn picked(pos: usize, pick: usize, devs: u32) {
        assert!(pos < MAX, "too many choices");
        PICKS[pos].store(pick as u16, SeqCst);
        LEN.store(pos + 1, SeqCst);
        DEVS.store(devs, SeqCst);
    }
    /// The job, deviations and choices up to now (only when exploring a tree).
    pub fn write_picks(l: &mut Vec<u8>) {
        if shared().is_none() {
            return;
        }
        let v: Vec<String> = PICKS[..LEN.load(SeqCst)].iter().map(|p| p.load(SeqCst).to_string()).collect();
        l.extend(format!("{} {} {} ", JOB.load(SeqCst), DEVS.load(SeqCst), if v.is_empty() { "-".into() } else { v.join(",") }).bytes());
    }
    /// A whole line to the explorer.
    pub fn send(line: &[u8]) {
        match shared() {
            None => raw_write(line),
            Some(s) => unsafe {
                while libc::sem_wait(&s.lock as *const _ as *mut _) != 0 {}
                raw_write(line);
                libc::sem_post(&s.lock as *const _ as *mut _);
            },
        }
    }
    pub fn leave() {
        if let Some(s) = shared() {
            s.gone.fetch_add(1, SeqCst);
            if TOKEN.swap(false, SeqCst) {
                unsafe { libc::sem_post(&s.tokens as *const _ as *mut _) };
            }
        }
    }
    fn reap() {
        unsafe { while libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) > 0 {} }
    }
    /// Forks a process for each alternative; in those, returns which one it is for.
    pub fn branch(n: usize) -> Option<usize> {
        let s = shared()?;
        for alt in 1..n {
            if s.stop.load(SeqCst) {
                exit_now(0);
            }
            reap();
            let token = unsafe { libc::sem_trywait(&s.tokens as *const _ as *mut _) } == 0;
            s.started.fetch_add(1, SeqCst);
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                TOKEN.store(token, SeqCst);
                return Some(alt);
            }
            if !token {
                unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
            }
        }
        None
    }
}

// ---------------------------------------------------------------- canister entry points
macro_rules! entries {
    ($($name:ident = $link:literal),* $(,)?) => {
        extern "Rust" { $( #[link_name = $link] fn $name(); )* }
        fn entry(name: &str) -> Option<unsafe fn()> {
            match name {
                $( $link => Some($name as unsafe fn()), )*
                _ => None,
            }
        }
    };
}
entries! {
    e_init = "canister_init",
    e_pre = "canister_pre_upgrade",
    e_post = "canister_post_upgrade",
    u_addr = "canister_update.minter_address",
    u_scrape = "canister_update.request_scraping_logs",
    u_wn = "canister_update.withdraw_native_token",
    u_ret = "canister_update.retrieve_witdrawal_status",
    u_we = "canister_update.withdraw_erc20",
    u_add = "canister_update.add_erc20_token",
    u_chk = "canister_update.check_new_deposits",
    q_sc = "canister_query.smart_contract_address",
    q_price = "canister_query.eip_1559_transaction_price",
    q_info = "canister_query.get_minter_info",
    q_ws = "canister_query.withdrawal_status",
    q_ev = "canister_query.get_events",
}

// ---------------------------------------------------------------- chooser
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Sched = 1,
    Fault = 2,
    Trap = 4,
    Upgrade = 8,
    Mine = 16,
    /// Free: enumerated without counting as a deviation.
    Op = 32,
}
#[derive(Clone, Debug)]
pub struct Choice {
    pub n: usize,
    pub pick: usize,
    pub kind: Kind,
    pub msg: u64,
    pub label: String,
}
#[derive(Default)]
pub struct Chooser {
    pub prefix: Vec<usize>,
    pub rec: Vec<Choice>,
    pub on: bool,
    pub mask: u32,
    /// Alternatives from this position on are explored in processes forked off this one.
    pub tree: Option<usize>,
    pub k: u32,
    pub devs: u32,
    /// This process was forked off since the last step.
    pub fresh: bool,
    pub base: usize,
}
impl Chooser {
    pub fn choose(&mut self, kind: Kind, n: usize, label: impl FnOnce() -> String) -> usize {
        if !self.on || n <= 1 || (kind != Kind::Op && self.mask & (kind as u32) == 0) {
            return 0;
        }
        let pos = self.rec.len();
        let mut pick = self.prefix.get(pos).copied().unwrap_or(0);
        let label = label();
        if crate::demo::ON.load(SeqCst) {
            pick = crate::demo::forced(&label, n).unwrap_or(pick);
        }
        assert!(pick < n, "replay diverged: choice {pos} has {n} alternatives, asked for {pick}");
        if self.tree.map_or(false, |from| pos >= from) && (kind == Kind::Op || self.devs < self.k) {
            if let Some(alt) = tree::branch(n) {
                pick = alt;
                self.devs += (kind != Kind::Op) as u32;
                self.fresh = true;
                self.base = pos + 1;
                arm_cpu_limit(60);
            }
        }
        tree::picked(pos, pick, self.devs);
        self.rec.push(Choice { n, pick, kind, msg: MSG_IDX.load(SeqCst), label });
        pick
    }
}

// ---------------------------------------------------------------- the simulation
pub struct Pending {
    pub ctx: u64,
    pub call: OutCall,
    pub req: Req,
    pub label: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CtxKind {
    Init,
    Timer,
    Op(usize),
}
pub struct Ctx {
    pub kind: CtxKind,
    pub caller: Principal,
    pub outstanding: usize,
    pub reply: Option<Reply>,
    pub trapped: bool,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub act: Act,
    pub caller: Principal,
    pub issued: u64,
    pub reply: Option<Reply>,
    pub trapped: bool,
    pub events_before: usize,
    /// Ledger operations done on behalf of this request: (ledger, request, applied block or None).
    pub ledger_ops: Vec<(Principal, LedgerOp)>,
    pub calls: Vec<String>,
    pub info_before: Option<MinterInfo>,
    pub last_scrape_before: Option<u64>,
    /// Another request of the same user was in progress when this one arrived.
    pub busy: bool,
    pub full: bool,
    pub price_before: Option<Eip1559TransactionPrice>,
}
#[derive(Clone, Debug)]
pub struct LedgerOp {
    pub from: Account,
    pub to: Account,
    pub amount: Big,
    pub memo: Option<Vec<u8>>,
    pub block: Option<u64>,
    pub pat: String,
    pub burn: bool,
}
pub struct Sim {
    pub sc: Scenario,
    pub w: World,
    pub ch: Chooser,
    pub mon: Mon,
    pub pending: Vec<Pending>,
    pub ctxs: BTreeMap<u64, Ctx>,
    next_ctx: u64,
    pub ops: Vec<Op>,
    pub script: VecDeque<Act>,
    pub wait_until: u64,
    pub traps: BTreeMap<u64, String>,
    /// Messages that trapped in this execution: (description, was it a ledger transfer callback).
    pub trapped: Vec<(String, String)>,
    pub outage: bool,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub steps: u64,
    pub steps_before: u64,
    pub states: BTreeSet<u64>,
    pub activity: u64,
    last_offer: u64,
    upgrades_left: u32,
    pub settling: bool,
    pub last_scrape_start: Option<u64>,
    pub max_steps: u64,
    pub query_traps: Vec<String>,
    pub retry: Option<crate::mon::RetryModel>,
    installed: bool,
    pub minted_latest_calls: u64,
    /// Method and arguments of the call being issued.
    pub init_as_upgrade: bool,
    pub cur_call: Option<(String, Vec<u8>)>,
    pub cyc: crate::cyc::Cyc,
}

fn nm(p: &Principal) -> String {
    if *p == native_ledger() {
        return "native ledger".into();
    }
    for i in 0..3 {
        if *p == erc20_ledger(i) {
            return format!("ledger {i}");
        }
    }
    p.to_text()
}
pub fn req_label(r: &Req, w: &World) -> String {
    match r {
        Req::GetLogs { q, .. } => format!("getLogs {}..={}", w.log_queries[*q].from, w.log_queries[*q].to),
        Req::GetBlock { tag, .. } => format!("getBlock {tag:?}"),
        Req::Receipt { hash, .. } => format!("receipt {}", &hash[..10]),
        Req::FeeHistory { .. } => "feeHistory".into(),
        Req::SendRaw { raw, .. } => match &w.raw_sent[*raw].1 {
            Ok(t) => format!("sendRaw nonce {} prio {}", t.nonce, t.prio),
            Err(e) => format!("sendRaw undecodable: {e}"),
        },
        Req::TxCount { args, .. } => format!("txCount {:?}", args.block),
        Req::Transfer { ledger, args } => format!("transfer {} on {} to {}", args.amount, nm(ledger), args.to.owner),
        Req::TransferFrom { ledger, args } => {
            format!("transfer_from {} on {} from {}", args.amount, nm(ledger), args.from.owner)
        }
        Req::Sign { .. } => "sign".into(),
        Req::PubKey => "public key".into(),
        Req::Lsm => "orchestrator".into(),
        Req::Other => "other".into(),
    }
}

impl Sim {
    pub fn new(sc: Scenario, prefix: Vec<usize>, traps: BTreeMap<u64, String>, mask: u32) -> Sim {
        let w = World::new(sc.init.evm_network);
        let mon = Mon::new(&sc);
        Sim {
            w,
            ch: Chooser { prefix, mask, ..Default::default() },
            steps_before: 0,
            mon,
            pending: vec![],
            ctxs: BTreeMap::new(),
            next_ctx: 0,
            ops: vec![],
            script: sc.script.iter().cloned().collect(),
            wait_until: 0,
            traps,
            trapped: vec![],
            outage: false,
            trace: vec![],
            verbose: false,
            steps: 0,
            states: BTreeSet::new(),
            activity: 0,
            last_offer: u64::MAX,
            upgrades_left: sc.max_upgrades,
            settling: false,
            last_scrape_start: None,
            max_steps: 8000,
            query_traps: vec![],
            retry: None,
            installed: false,
            minted_latest_calls: 0,
            init_as_upgrade: false,
            cur_call: None,
            cyc: Default::default(),
            sc,
        }
    }
    pub fn note(&mut self, s: String) {
        if self.verbose {
            eprintln!("[{:>5}s m{:<4}] {s}", (self.w.now - T0) / 1_000_000_000, MSG_IDX.load(SeqCst));
        }
        self.trace.push(s);
    }

    // ------------------------------------------------------------ message execution
    /// Runs `f` as one message. Returns false if the message traps (in which case nothing happened).
    fn message(&mut self, what: &str, ctx: u64, setup: ic0::Msg, f: impl FnOnce()) -> bool {
        let k = MSG_IDX.fetch_add(1, SeqCst) + 1;
        if let Some(t) = self.traps.get(&k).cloned() {
            self.note(format!("TRAP in {what}: {t}"));
            self.trapped.push((what.to_string(), t));
            return false;
        }
        let now = self.w.now;
        with_host(|h| {
            h.now_ns = now;
            h.msg = setup;
            h.outbox.clear();
            h.building = None;
            h.on_trap = Some(on_trap);
        });
        IN_CANISTER.store(true, SeqCst);
        f();
        IN_CANISTER.store(false, SeqCst);
        let (out, reply) = with_host(|h| (std::mem::take(&mut h.outbox), h.msg.reply.take()));
        for c in out {
            let callee = Principal::from_slice(&c.callee);
            let req = self.w.issue(callee, &c.method, &c.args);
            let label = req_label(&req, &self.w);
            self.note(format!("    -> {label}"));
            if let Req::GetBlock { .. } = req {
                self.last_scrape_start = Some(self.w.now);
            }
            if let Some(x) = self.ctxs.get_mut(&ctx) {
                x.outstanding += 1;
                if let CtxKind::Op(o) = x.kind {
                    self.ops[o].calls.push(label.clone());
                }
            }
            if self.sc.cycles {
                self.cur_call = Some((c.method.clone(), c.args.clone()));
            }
            crate::mon::on_issue(self, ctx, &req, c.cycles);
            self.pending.push(Pending { ctx, call: c, req, label });
            self.activity += 1;
        }
        if let Some(r) = reply {
            self.activity += 1;
            if let Some(x) = self.ctxs.get_mut(&ctx) {
                x.reply = Some(r);
            }
        }
        true
    }
    fn new_ctx(&mut self, kind: CtxKind, caller: Principal) -> u64 {
        let id = self.next_ctx;
        self.next_ctx += 1;
        self.ctxs.insert(id, Ctx { kind, caller, outstanding: 0, reply: None, trapped: false });
        id
    }
    /// Finishes a call context if nothing is left to wait for.
    fn settle_ctx(&mut self, id: u64) {
        let Some(x) = self.ctxs.get(&id) else { return };
        if let CtxKind::Op(o) = x.kind {
            if self.ops[o].reply.is_none() {
                if let Some(r) = x.reply.clone() {
                    self.ops[o].reply = Some(r);
                    crate::mon::on_reply(self, o);
                } else if x.outstanding == 0 {
                    self.ops[o].reply = Some(Reply::Reject(if x.trapped { "trapped".into() } else { "did not reply".into() }));
                    self.ops[o].trapped = self.ctxs[&id].trapped;
                    crate::mon::on_reply(self, o);
                }
            }
        }
        if self.ctxs[&id].outstanding == 0 {
            let x = self.ctxs.remove(&id).unwrap();
            if let CtxKind::Op(o) = x.kind {
                self.ops[o].trapped |= x.trapped;
                crate::mon::on_op_end(self, o);
            }
        }
    }
    pub fn op_running(&self, caller: &Principal) -> bool {
        self.ctxs.values().any(|x| match x.kind {
            CtxKind::Op(o) => x.caller == *caller && matches!(self.ops[o].act, Act::WithdrawNative { .. } | Act::WithdrawErc20 { .. }),
            _ => false,
        })
    }
    pub fn ingress(&mut self, act: Act, caller: Principal, method: &str, arg: Vec<u8>) -> usize {
        let busy = self.op_running(&caller);
        // Requests are refused while 100 others are in progress or waiting.
        let running = self.ctxs.values().filter(|x| matches!(x.kind, CtxKind::Op(o) if matches!(self.ops[o].act, Act::WithdrawNative { .. } | Act::WithdrawErc20 { .. }))).count();
        let full = running >= 100 || self.mon.wds.values().filter(|w| w.txs.is_empty()).count() >= 100;
        let info = self.info();
        let price = self.price_for(&act);
        let o = self.ops.len();
        self.ops.push(Op {
            act,
            caller,
            issued: self.w.now,
            reply: None,
            trapped: false,
            events_before: self.mon.events.len(),
            ledger_ops: vec![],
            calls: vec![],
            info_before: info,
            last_scrape_before: self.last_scrape_start,
            busy,
            full,
            price_before: price,
        });
        let id = self.new_ctx(CtxKind::Op(o), caller);
        let full = format!("canister_update.{method}");
        self.note(format!("ingress {method} by {caller}"));
        let e = entry(&full).unwrap_or_else(|| panic!("no entry point {full}"));
        let m = ic0::Msg { caller: caller.as_slice().to_vec(), method: method.into(), arg, ..Default::default() };
        self.activity += 1;
        if !self.message(&format!("ingress {method}"), id, m, || unsafe { e() }) {
            let x = self.ctxs.get_mut(&id).unwrap();
            x.trapped = true;
        }
        self.settle_ctx(id);
        o
    }
    fn price_for(&mut self, act: &Act) -> Option<Eip1559TransactionPrice> {
        let _ = act;
        None
    }
    pub fn query_raw(&mut self, method: &str, arg: Vec<u8>) -> Option<Vec<u8>> {
        self.query_as(user(8), method, arg)
    }
    pub fn query_as(&mut self, caller: Principal, method: &str, arg: Vec<u8>) -> Option<Vec<u8>> {
        if !self.installed {
            return None;
        }
        let k = MSG_IDX.fetch_add(1, SeqCst) + 1;
        if let Some(t) = self.traps.get(&k).cloned() {
            self.query_traps.push(format!("{method}: {t}"));
            return None;
        }
        let e = entry(&format!("canister_query.{method}"))
            .or_else(|| entry(&format!("canister_update.{method}")))
            .unwrap_or_else(|| panic!("no entry point {method}"));
        let now = self.w.now;
        with_host(|h| {
            h.now_ns = now;
            h.msg = ic0::Msg { caller: caller.as_slice().to_vec(), method: method.into(), arg, ..Default::default() };
            h.outbox.clear();
            h.on_trap = Some(on_trap);
        });
        IN_CANISTER.store(true, SeqCst);
        unsafe { e() };
        IN_CANISTER.store(false, SeqCst);
        with_host(|h| match h.msg.reply.take() {
            Some(Reply::Reply(b)) => Some(b),
            _ => None,
        })
    }
    pub fn query<T: CandidType + for<'a> candid::Deserialize<'a>>(&mut self, method: &str, arg: Vec<u8>) -> Option<T> {
        let b = self.query_raw(method, arg)?;
        Some(candid::decode_one(&b).unwrap_or_else(|e| panic!("cannot decode the answer of {method}: {e}")))
    }
    pub fn info(&mut self) -> Option<MinterInfo> {
        self.query("get_minter_info", Encode!().unwrap())
    }

    fn deliver(&mut self, i: usize) {
        let p = self.pending.remove(i);
        self.w.now += 1_000_000_000;
        let key = World::sticky_key(&p.req).to_string();
        let dead = match &p.req {
            Req::Transfer { ledger, .. } => self.w.dead.get(ledger).copied(),
            _ => None,
        };
        let pat = match self.w.sticky.get_mut(&key) {
            _ if dead.is_some() => dead.unwrap().to_string(),
            Some((pat, n)) if *n > 0 && self.ch.on => {
                *n -= 1;
                pat.clone()
            }
            _ => {
                let menu = self.w.menu(&p.req);
                let lab = p.label.clone();
                let allowed: Vec<String> = menu
                    .iter()
                    .enumerate()
                    .filter(|(i, m)| *i == 0 || self.sc.fault_ok(&p.req, m))
                    .map(|(_, m)| m.clone())
                    .collect();
                let c = self.ch.choose(Kind::Fault, allowed.len(), || format!("answer to {lab}: {allowed:?}"));
                let pat = allowed[c].clone();
                if pat == "E" {
                    self.w.sticky.insert(key, (pat.clone(), 4));
                } else if pat == "U" {
                    self.w.sticky.insert(key, (pat.clone(), 3));
                }
                pat
            }
        };
        // The fate of a transaction is decided when the network first sees it.
        let mut fate = None;
        if let Req::SendRaw { raw, .. } = &p.req {
            if let Ok(t) = &self.w.raw_sent[*raw].1 {
                let n = u64::try_from(t.nonce.clone()).unwrap_or(u64::MAX);
                if !self.w.fates.contains_key(&n) && pat.contains(['o', 'L']) && self.sc.fate.is_some() {
                    fate = self.sc.fate.map(|f| if self.settling { f.released() } else { f });
                } else if !self.w.fates.contains_key(&n) && pat.contains(['o', 'L']) {
                    let c = self.ch.choose(Kind::Mine, 4, || format!("fate of nonce {n}: ok/fail/withheld/withheld+fail"));
                    fate = Some([Fate::Ok, Fate::Fail, Fate::Withheld, Fate::WithheldFail][c]);
                }
            }
        }
        let pat = crate::mon::override_answer(self, &p, pat);
        let before: BTreeMap<Principal, usize> = self.w.ledgers.iter().map(|(k, l)| (*k, l.blocks.len())).collect();
        let ans = match crate::mon::custom_answer(self, &p, &pat) {
            Some(a) => a,
            None => self.w.answer(&p.req, &pat, fate),
        };
        self.note(format!("deliver {} [{pat}{}]", p.label, fate.map(|f| format!(" {f:?}")).unwrap_or_default()));
        let kind = self.ctxs.get(&p.ctx).map(|x| x.kind.clone());
        let lop = match &p.req {
            Req::Transfer { ledger, args } => Some((
                *ledger,
                LedgerOp {
                    from: Account { owner: minter_id(), subaccount: args.from_subaccount },
                    to: args.to,
                    amount: args.amount.0.clone(),
                    memo: args.memo.as_ref().map(|m| m.0.to_vec()),
                    block: None,
                    pat: pat.clone(),
                    burn: args.to == minting(),
                },
            )),
            Req::TransferFrom { ledger, args } => Some((
                *ledger,
                LedgerOp {
                    from: args.from,
                    to: args.to,
                    amount: args.amount.0.clone(),
                    memo: args.memo.as_ref().map(|m| m.0.to_vec()),
                    block: None,
                    pat: pat.clone(),
                    burn: args.to == minting(),
                },
            )),
            _ => None,
        };
        if let Some((l, mut lo)) = lop {
            if self.w.ledgers[&l].blocks.len() > before[&l] {
                lo.block = Some(before[&l] as u64);
            }
            if let Some(CtxKind::Op(o)) = kind {
                self.ops[o].ledger_ops.push((l, lo));
            }
        }
        let lab = p.label.clone();
        let inj = self.ch.choose(Kind::Trap, 2, || format!("trap in callback of {lab}"));
        let caller = self.ctxs.get(&p.ctx).map(|x| x.caller).unwrap_or(minter_id());
        let replied = self.ctxs.get(&p.ctx).map_or(false, |x| x.reply.is_some());
        let mut m = ic0::Msg { caller: caller.as_slice().to_vec(), already_replied: replied, ..Default::default() };
        match ans {
            Answer::Ok(b) => m.arg = b,
            Answer::Reject(c, s) => {
                m.reject_code = c;
                m.reject_msg = s;
            }
        }
        if inj == 1 {
            self.traps.insert(MSG_IDX.load(SeqCst) + 1, "injected".into());
        }
        if let Some(x) = self.ctxs.get_mut(&p.ctx) {
            x.outstanding -= 1;
        }
        let f: extern "C" fn(isize) = unsafe { std::mem::transmute(p.call.reply_fun) };
        let env = p.call.reply_env;
        self.activity += 1;
        if !self.message(&format!("callback of {}", p.label), p.ctx, m, || f(env)) {
            if let Some(x) = self.ctxs.get_mut(&p.ctx) {
                x.trapped = true;
            }
            if p.call.cleanup_fun != -1 {
                let f: extern "C" fn(isize) = unsafe { std::mem::transmute(p.call.cleanup_fun) };
                let env = p.call.cleanup_env;
                let m = ic0::Msg { caller: caller.as_slice().to_vec(), already_replied: true, ..Default::default() };
                self.message(&format!("cleanup of {}", p.label), p.ctx, m, || f(env));
            }
        }
        crate::mon::on_delivered(self, &p, &pat);
        self.settle_ctx(p.ctx);
    }
    fn fire(&mut self, id: u64, due: u64, interval: bool) {
        if due > self.w.now {
            self.w.now = due;
        }
        with_host(|h| h.now_ns = self.w.now);
        let ctx = self.new_ctx(CtxKind::Timer, minter_id());
        if !interval {
            let inj = self.ch.choose(Kind::Trap, 2, || "trap in one-shot timer".to_string());
            if inj == 1 {
                self.traps.insert(MSG_IDX.load(SeqCst) + 1, "injected".into());
            }
        }
        let m = ic0::Msg { caller: minter_id().as_slice().to_vec(), ..Default::default() };
        let armed = ic_cdk_timers::sim::armed().len();
        let act = self.activity;
        if self.verbose {
            self.note(format!("timer {id}{}", if interval { " (interval)" } else { "" }));
        }
        if !self.message("timer", ctx, m, || ic_cdk_timers::sim::fire(id)) {
            ic_cdk_timers::sim::fire_trapped(id);
            self.activity += 1;
        }
        let _ = (armed, act);
        self.settle_ctx(ctx);
    }
    pub fn advance(&mut self, to: u64) {
        if to > self.w.now {
            self.w.now = to;
        }
    }

    // ------------------------------------------------------------ upgrades
    /// Replaces the canister's code: a fresh thread (fresh heap state) over the same stable memory.
    fn upgrade(mut self, arg: Option<UpgradeArg>, as_init: bool) -> ! {
        self.upgrades_left = self.upgrades_left.saturating_sub(1);
        crate::mon::before_upgrade(&mut self);
        let k = MSG_IDX.load(SeqCst);
        let o = self.ops.len();
        self.ops.push(Op {
            act: if as_init { Act::UpgradeAsInit } else { Act::Upgrade(arg.clone()) },
            caller: minter_id(),
            issued: self.w.now,
            reply: None,
            trapped: false,
            events_before: self.mon.events.len(),
            ledger_ops: vec![],
            calls: vec![],
            info_before: None,
            last_scrape_before: None,
            busy: false,
            full: false,
            price_before: None,
        });
        if let Some(t) = self.traps.get(&(k + 1)).or(self.traps.get(&(k + 2))).cloned() {
            self.note(format!("upgrade with {arg:?} refused: {t}"));
            MSG_IDX.fetch_add(2, SeqCst);
            self.ops[o].reply = Some(Reply::Reject(t.clone()));
            self.trapped.push(("upgrade".into(), t));
            crate::mon::after_upgrade(&mut self, o, false);
            self.run_loop()
        }
        self.note(format!("upgrade with {arg:?}"));
        let m = ic0::Msg { method: "pre_upgrade".into(), ..Default::default() };
        self.message("pre_upgrade", u64::MAX, m.clone(), || unsafe { entry("canister_pre_upgrade").unwrap()() });
        let host = with_host(std::mem::take);
        let th = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                with_host(|h| *h = host);
                let a: Option<MinterArg> = if as_init { Some(MinterArg::InitArg(self.sc.init.clone())) } else { arg.map(MinterArg::UpgradeArg) };
                let m = ic0::Msg { method: "post_upgrade".into(), arg: Encode!(&a).unwrap(), ..Default::default() };
                let c = self.new_ctx(CtxKind::Init, minter_id());
                self.message("post_upgrade", c, m, || unsafe { entry("canister_post_upgrade").unwrap()() });
                self.settle_ctx(c);
                self.ops[o].reply = Some(Reply::Reply(vec![]));
                self.last_scrape_start = None;
                self.activity += 1;
                crate::mon::after_upgrade(&mut self, o, true);
                self.run_loop()
            })
            .unwrap();
        let _ = th.join();
        exit_now(5)
    }

    // ------------------------------------------------------------ main loop
    pub fn install(&mut self) -> bool {
        let mut as_upgrade = false;
        if self.sc.init_grid > 0 {
            as_upgrade = crate::grid::init(self);
        }
        crate::scen::prepare(self);
        let a = if as_upgrade { MinterArg::UpgradeArg(UpgradeArg::default()) } else { MinterArg::InitArg(self.sc.init.clone()) };
        let m = ic0::Msg { method: "init".into(), arg: Encode!(&a).unwrap(), ..Default::default() };
        let c = self.new_ctx(CtxKind::Init, minter_id());
        let ok = self.message("init", c, m, || unsafe { entry("canister_init").unwrap()() });
        self.settle_ctx(c);
        self.installed = ok;
        ok
    }
    /// Starts the current code on a stable memory left behind by an earlier version.
    pub fn load_upgraded(&mut self) {
        let a: Option<MinterArg> = None;
        let m = ic0::Msg { method: "post_upgrade".into(), arg: Encode!(&a).unwrap(), ..Default::default() };
        let c = self.new_ctx(CtxKind::Init, minter_id());
        self.message("post_upgrade", c, m, || unsafe { entry("canister_post_upgrade").unwrap()() });
        self.installed = true;
    }
    pub fn run(mut self) -> ! {
        let ok = self.install();
        crate::mon::after_install(&mut self, ok);
        if !ok || self.sc.init_grid > 0 {
            self.finish()
        }
        crate::mon::after_step(&mut self);
        let toks = self.sc.tokens.clone();
        for t in toks {
            self.act(Act::AddToken { i: t, chain: None, caller: None });
        }
        // Let the start-up work finish without interference.
        self.wait_until = self.w.now + self.sc.warmup * 1_000_000_000;
        while self.w.now < self.wait_until || !self.pending.is_empty() {
            self.step_default();
        }
        crate::scen::after_warmup(&mut self);
        self.ch.on = true;
        self.run_loop()
    }
    fn tick(&mut self) {
        while let Some((n, idx)) = self.w.minable() {
            let c = self.ch.choose(Kind::Mine, idx.len(), || format!("which transaction of nonce {n} is mined"));
            self.w.mine(n, idx[c]);
            let m = self.w.mined.last().unwrap();
            let s = format!("mined nonce {n} ok={} block {}", m.ok, m.block);
            self.note(s);
            self.activity += 1;
            crate::mon::on_mined(self);
        }
    }
    fn due(&self) -> Vec<(u64, u64, bool)> {
        let mut v = ic_cdk_timers::sim::armed();
        v.sort_by_key(|t| (t.1, t.0));
        v
    }
    /// Whether a call was answered with a fault.
    pub fn faulted(&self) -> bool {
        self.ch.rec.iter().any(|c| c.kind == Kind::Fault && c.pick > 0) || self.outage
    }
    /// Whether the explorer made a message trap.
    pub fn injected(&self) -> bool {
        self.trapped.iter().any(|(_, t)| t == "injected")
    }
    fn stepped(&mut self) {
        if self.ch.fresh {
            // what came before is reported by the process this one was forked from
            self.ch.fresh = false;
            self.states.clear();
            self.steps_before = self.steps;
        }
        self.steps += 1;
        crate::mon::after_step(self);
        crate::demo::watch(self);
        self.hash_state();
        if self.steps > self.max_steps {
            crate::mon::at_end(self);
            let s = std::mem::replace(self, Sim::new(self.sc.clone(), vec![], BTreeMap::new(), 0));
            s.finish()
        }
    }
    fn step_default(&mut self) {
        self.tick();
        if !self.pending.is_empty() {
            self.deliver(0);
            return self.stepped();
        }
        let t = self.due();
        match t.first() {
            Some(x) if x.1 <= self.w.now => {
                self.fire(x.0, x.1, x.2);
                self.stepped()
            }
            Some(x) if x.1 < self.wait_until => self.advance(x.1),
            _ => self.advance(self.wait_until),
        }
    }
    fn run_loop(mut self) -> ! {
        loop {
            if self.settling {
                if self.w.now >= self.wait_until && (self.pending.is_empty() || self.w.now >= self.wait_until + 1_800_000_000_000) {
                    if crate::mon::settled(&mut self) {
                        crate::mon::at_end(&mut self);
                        self.finish()
                    }
                    self.wait_until = self.w.now + 300_000_000_000;
                }
                self.step_default();
                continue;
            }
            self.tick();
            // A minter that is never idle must not hold up the script.
            let overdue = self.w.now >= self.wait_until + 900_000_000_000;
            if !self.pending.is_empty() && !overdue {
                // deliver | another reply | a timer fires meanwhile | the next request arrives meanwhile
                if let Some(Act::Any(v)) = self.script.front().cloned() {
                    let c = self.ch.choose(Kind::Op, v.len(), || format!("operation: {v:?}"));
                    self.script[0] = v[c].clone();
                    continue;
                }
                let timers = self.due();
                let np = self.pending.len();
                let ns = match self.script.front() {
                    Some(Act::Wait(_)) | Some(Act::Upgrade(_)) | Some(Act::UpgradeAsInit) | Some(Act::UpgradeGrid(_)) | None => 0,
                    _ => 1,
                };
                let n = np + ns + timers.len();
                let labs = (self.pending.iter().map(|p| p.label.clone()).collect::<Vec<_>>(), timers.len());
                let c = self.ch.choose(Kind::Sched, n, || format!("next: reply {:?}, {} request, {} timers", labs.0, ns, labs.1));
                if c < np {
                    self.deliver(c);
                } else if c < np + ns {
                    let a = self.script.pop_front().unwrap();
                    self.wait_until = self.wait_until.max(self.w.now);
                    self.act(a);
                } else {
                    let t = timers[c - np - ns];
                    self.fire(t.0, t.1, t.2);
                }
                self.stepped();
                continue;
            }
            if self.pending.is_empty() && self.upgrades_left > 0 && self.activity != self.last_offer && self.sc.offer_upgrade {
                self.last_offer = self.activity;
                let c = self.ch.choose(Kind::Upgrade, 3, || "upgrade here".to_string());
                if c > 0 {
                    self.upgrade((c == 2).then(UpgradeArg::default), false)
                }
            }
            let t = self.due();
            if let Some(x) = t.first() {
                if x.1 <= self.w.now && !overdue {
                    self.fire(x.0, x.1, x.2);
                    self.stepped();
                    continue;
                }
            }
            if self.w.now < self.wait_until {
                match t.first() {
                    Some(x) if x.1 < self.wait_until => self.advance(x.1),
                    _ => self.advance(self.wait_until),
                }
                continue;
            }
            if let Some(Act::UpgradeGrid(n)) = self.script.front().cloned() {
                let a = crate::grid::upgrade(&mut self, n);
                self.script[0] = a;
                continue;
            }
            if let Some(Act::Any(v)) = self.script.front().cloned() {
                let c = self.ch.choose(Kind::Op, v.len(), || format!("operation: {v:?}"));
                self.script[0] = v[c].clone();
                continue;
            }
            match self.script.pop_front() {
                Some(Act::Wait(s)) => self.wait_until = self.w.now + s * 1_000_000_000,
                // The platform stops the canister first: replies are still delivered, nothing else runs.
                Some(a @ (Act::Upgrade(_) | Act::UpgradeAsInit | Act::UpgradeGrid(_))) if !self.pending.is_empty() => {
                    self.script.push_front(a);
                    self.deliver(0);
                    self.stepped();
                }
                Some(Act::Upgrade(a)) => self.upgrade(a, false),
                Some(Act::UpgradeAsInit) => self.upgrade(None, true),
                Some(a) => {
                    self.wait_until = self.wait_until.max(self.w.now);
                    self.act(a);
                    self.stepped();
                }
                None => {
                    self.ch.on = false;
                    self.settling = true;
                    self.w.sticky.clear();
                    for f in self.w.fates.values_mut() {
                        *f = f.released();
                    }
                    self.wait_until = self.w.now + self.sc.settle_min * 60_000_000_000;
                    crate::mon::settle_begins(&mut self);
                }
            }
        }
    }
    fn act(&mut self, a: Act) {
        crate::scen::perform(self, a)
    }
    fn hash_state(&mut self) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.mon.event_hash.hash(&mut h);
        for l in self.w.ledgers.values() {
            l.blocks.len().hash(&mut h);
            for (a, b) in &l.balances {
                a.hash(&mut h);
                b.hash(&mut h);
            }
        }
        self.w.chain_nonce.hash(&mut h);
        self.w.native_balance.hash(&mut h);
        for (n, v) in &self.w.mempool {
            n.hash(&mut h);
            for t in v {
                t.0.hash.hash(&mut h);
            }
        }
        for p in &self.pending {
            p.label.hash(&mut h);
        }
        for t in self.due() {
            (t.1.saturating_sub(self.w.now)).hash(&mut h);
            t.2.hash(&mut h);
        }
        self.w.log_queries.len().hash(&mut h);
        self.states.insert(h.finish());
    }
    pub fn finish(mut self) -> ! {
        let demo = crate::demo::ON.load(SeqCst);
        let mut rep = crate::engine::RunReport {
            choices: self.ch.rec.iter().map(|c| (c.n as u16, c.pick as u16, c.kind as u8, c.msg, if c.pick > 0 || demo { c.label.clone() } else { String::new() })).collect(),
            violations: std::mem::take(&mut self.mon.violations),
            steps: self.steps - self.steps_before,
            base: self.ch.base,
            devs: self.ch.devs,
            traps: self.traps.clone(),
            states: self.states.iter().copied().collect(),
            trapped: self.trapped.clone(),
            info: self.mon.info_lines(),
            soft: std::mem::take(&mut self.mon.soft),
            upgraded: self.mon.counters.contains_key("upgrades judged"),
            injected: self.injected() || self.faulted(),
            dump: None,
            facts: vec![],
        };
        if crate::demo::ON.load(SeqCst) {
            rep.facts = crate::demo::facts(&mut self);
        }
        if crate::gold::DUMP.load(SeqCst) && self.installed {
            rep.dump = Some(crate::gold::dump(&mut self));
        }
        let mut s = String::from("R ");
        s.push_str(&serde_json::to_string(&rep).unwrap());
        s.push('\n');
        tree::send(s.as_bytes());
        exit_now(0)
    }
}
pub fn tag_of(t: Tag) -> er::BlockTag {
    match t {
        Tag::Latest => er::BlockTag::Latest,
        Tag::Safe => er::BlockTag::Safe,
        Tag::Finalized => er::BlockTag::Finalized,
    }
}

extern "C" { fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32; }
