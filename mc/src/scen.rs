//! Scenarios: what users and operators do. Everything else is chosen by the explorer.
use crate::api::*;
use crate::evm;
use crate::sim::Sim;
use crate::world::*;
use candid::{Encode, Nat, Principal};
use evm_rpc_types as er;
use icrc_ledger_types::icrc1::account::Account;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Deposit { token: Option<usize>, user: usize, sub: u8, amount: u128 },
    /// A deposit log that must not be credited, or only recorded as invalid.
    Raw(Raw),
    WithdrawNative { user: usize, amount: u128, to: String },
    WithdrawErc20 { user: usize, token: usize, amount: u128, to: String },
    AnonWithdraw { erc20: bool },
    AddToken { i: usize, chain: Option<u64>, caller: Option<usize> },
    /// Registers token address `i` with ledger `l`.
    AddTokenAs { i: usize, l: usize },
    Scrape { block: i64 },
    ScrapeAbs { nat: String },
    CheckDeposits { caller: usize },
    MinterAddress,
    Status { id: u64 },
    Upgrade(Option<UpgradeArg>),
    /// An upgrade that is given an installation argument.
    UpgradeAsInit,
    /// An upgrade with one, two, ... of the field values in the grid.
    UpgradeGrid(usize),
    Wait(u64),
    Fee { base: u128, reward: u128 },
    Rewards(Vec<u128>),
    Approve { user: usize, ledger: usize, amount: u128 },
    /// The block at the current head is too large to be answered.
    Oversize { ahead: u64 },
    /// Only transactions with at least this tip are mined.
    Tip(u128),
    /// Transactions that were held back until now may be mined.
    Release,
    /// The chain head is moved.
    Jump(i64),
    SetBalance { user: usize, ledger: usize, amount: u128 },
    /// Users 100.. all make a native withdrawal request at the same moment.
    Crowd { n: usize, amount: u128 },
    Nop,
    /// One of these, enumerated exhaustively.
    Any(Vec<Act>),
    DepositTo { token: Option<usize>, owner: Principal, sub: Option<[u8; 32]>, amount: Big },
    /// A service answers this way from now on, until it is restored.
    Outage(&'static str, &'static str),
    /// A ledger (9: the native one) that takes no transfers from now on, for ever.
    Dead(usize, &'static str),
    Restore,
    /// All arrive before any reply.
    Together(Vec<Act>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub name: &'static str,
    pub kind: RawKind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RawKind {
    Removed,
    TopicsShort,
    TopicsLong,
    NoTopics,
    DataShort,
    DataLong,
    DataEmpty,
    FromHigh,
    PrincipalEmpty,
    PrincipalLong,
    PrincipalAnon,
    PrincipalPad,
    PrincipalMgmt,
    NoLogIndex,
    NoTxHash,
    NoBlockNumber,
    NoBlockHash,
    NoTxIndex,
    OtherSignature,
    OtherContract,
    UnknownToken,
    TokenHigh,
}
pub const RAWS: [RawKind; 22] = [
    RawKind::Removed,
    RawKind::TopicsShort,
    RawKind::TopicsLong,
    RawKind::NoTopics,
    RawKind::DataShort,
    RawKind::DataLong,
    RawKind::DataEmpty,
    RawKind::FromHigh,
    RawKind::PrincipalEmpty,
    RawKind::PrincipalLong,
    RawKind::PrincipalAnon,
    RawKind::PrincipalPad,
    RawKind::PrincipalMgmt,
    RawKind::NoLogIndex,
    RawKind::NoTxHash,
    RawKind::NoBlockNumber,
    RawKind::NoBlockHash,
    RawKind::NoTxIndex,
    RawKind::OtherSignature,
    RawKind::OtherContract,
    RawKind::UnknownToken,
    RawKind::TokenHigh,
];
impl RawKind {
    /// Whether a log of this kind, once served, has to be recorded as an invalid deposit.
    pub fn recorded(self) -> bool {
        use RawKind::*;
        matches!(
            self,
            Removed | TopicsShort | PrincipalMgmt | TopicsLong | DataShort | DataLong | DataEmpty | FromHigh | PrincipalEmpty | PrincipalLong | PrincipalAnon | PrincipalPad
        )
    }
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub init: InitArg,
    pub tokens: Vec<usize>,
    /// Deposits made before installation: (user, token, amount).
    pub funding: Vec<(usize, Option<usize>, u128)>,
    pub script: Vec<Act>,
    pub warmup: u64,
    pub settle_min: u64,
    pub offer_upgrade: bool,
    pub max_upgrades: u32,
    /// Restricts answer faults to these calls (empty: all).
    pub fault_on: Vec<&'static str>,
    pub fault_pats: Vec<&'static str>,
    pub mask: u32,
    pub cycles: bool,
    pub approve: bool,
    /// Liveness is only required without this.
    pub no_liveness: bool,
    pub approve_crowd: bool,
    /// How many fields of the installation argument are varied.
    pub init_grid: usize,
    /// What becomes of every transaction (otherwise explored).
    pub fate: Option<Fate>,
}
pub fn ether(n: u128) -> u128 {
    n * 1_000_000_000_000_000_000
}
pub const MIN_WITHDRAWAL: u128 = 10_000_000_000_000_000;
pub fn base_init() -> InitArg {
    InitArg {
        evm_network: EvmNetwork::BSC,
        ecdsa_key_name: "key_1".into(),
        helper_contract_address: Some(hex_addr(&helper_addr())),
        native_ledger_id: native_ledger(),
        native_index_id: pid(21),
        native_symbol: "icBNB".into(),
        block_height: Tag::Latest,
        native_minimum_withdrawal_amount: Nat::from(MIN_WITHDRAWAL),
        native_ledger_transfer_fee: Nat::from(10_000_000_000_000u64),
        next_transaction_nonce: Nat::from(0u8),
        last_scraped_block_number: Nat::from(H0 - 300),
        min_max_priority_fee_per_gas: Nat::from(1_500_000_000u64),
        ledger_suite_manager_id: lsm_id(),
        deposit_native_fee: Nat::from(0u8),
        withdrawal_native_fee: Nat::from(0u8),
    }
}
impl Scenario {
    pub fn new(name: &str, script: Vec<Act>) -> Scenario {
        Scenario {
            name: name.into(),
            init: base_init(),
            init_grid: 0,
            approve_crowd: true,
            tokens: vec![],
            funding: vec![],
            script,
            warmup: 5,
            settle_min: 24,
            offer_upgrade: true,
            max_upgrades: 1,
            fault_on: vec![],
            fault_pats: vec![],
            mask: 31,
            cycles: false,
            approve: true,
            no_liveness: false,
            fate: None,
        }
    }
    pub fn net(mut self, n: EvmNetwork, t: Tag) -> Self {
        self.init.evm_network = n;
        self.init.block_height = t;
        self
    }
    pub fn tokens(mut self, t: &[usize]) -> Self {
        self.tokens = t.to_vec();
        self
    }
    pub fn fund(mut self, f: &[(usize, Option<usize>, u128)]) -> Self {
        self.funding = f.to_vec();
        self
    }
    pub fn fees(mut self, dep: u128, wd: u128) -> Self {
        self.init.deposit_native_fee = Nat::from(dep);
        self.init.withdrawal_native_fee = Nat::from(wd);
        self
    }
    pub fn faults(mut self, on: &[&'static str]) -> Self {
        self.fault_on = on.to_vec();
        self
    }
    pub fn fate(mut self, f: Fate) -> Self {
        self.fate = Some(f);
        self
    }
    pub fn upgrades(mut self, n: u32) -> Self {
        self.offer_upgrade = n > 0;
        self.max_upgrades = n;
        self
    }
    pub fn settle(mut self, minutes: u64) -> Self {
        self.settle_min = minutes;
        self
    }
    pub fn with(mut self, f: impl FnOnce(&mut Scenario)) -> Self {
        f(&mut self);
        self
    }
    pub fn pats(mut self, p: &[&'static str]) -> Self {
        self.fault_pats = p.to_vec();
        self
    }
    pub fn mask(mut self, m: u32) -> Self {
        self.mask = m;
        self
    }
    pub fn fault_ok(&self, r: &Req, pat: &str) -> bool {
        let m = match r {
            Req::GetLogs { .. } => "logs",
            Req::GetBlock { .. } => "block",
            Req::Receipt { .. } => "receipt",
            Req::FeeHistory { .. } => "fee",
            Req::SendRaw { .. } => "send",
            Req::TxCount { .. } => "count",
            Req::Transfer { .. } => "transfer",
            Req::TransferFrom { .. } => "transfer_from",
            Req::Sign { .. } => "sign",
            Req::PubKey => "pubkey",
            Req::Lsm => "lsm",
            Req::Other => "other",
        };
        (self.fault_on.is_empty() || self.fault_on.contains(&m)) && (self.fault_pats.is_empty() || self.fault_pats.contains(&pat))
    }
    pub fn deposit_fee(&self) -> Option<Big> {
        Some(self.init.deposit_native_fee.0.clone()).filter(|x| *x != Big::default())
    }
    pub fn withdrawal_fee(&self) -> Option<Big> {
        Some(self.init.withdrawal_native_fee.0.clone()).filter(|x| *x != Big::default())
    }
}

pub fn prepare(s: &mut Sim) {
    let init = s.sc.init.clone();
    s.w.first_nonce = u64::try_from(init.next_transaction_nonce.0.clone()).unwrap_or(0);
    s.w.chain_nonce = s.w.first_nonce;
    s.w.tag_expected = init.block_height;
    for (i, (u, t, a)) in s.sc.funding.clone().into_iter().enumerate() {
        let to = Account { owner: user(u), subaccount: None };
        s.w.deposit(t, big(a), to, H0 - 200 + i as u64);
    }
}
pub fn after_warmup(s: &mut Sim) {
    if s.sc.approve {
        for l in s.w.ledgers.values_mut() {
            for u in (0..9).chain(100..if s.sc.approve_crowd { 210 } else { 100 }) {
                l.allowances.insert((user(u).into(), minting()), big(u128::MAX));
            }
        }
    }
}
pub fn sub(n: u8) -> Option<[u8; 32]> {
    if n == 0 {
        None
    } else {
        let mut s = [n; 32];
        s[0] = 0;
        Some(s)
    }
}
/// Callers: users, and from 900 on everyone else the minter knows.
/// The ids of the chains, as everybody knows them.
pub fn chain_id(n: EvmNetwork) -> u64 {
    match n {
        EvmNetwork::Ethereum => 1,
        EvmNetwork::Sepolia => 11_155_111,
        EvmNetwork::ArbitrumOne => 42_161,
        EvmNetwork::BSC => 56,
        EvmNetwork::BSCTestnet => 97,
        EvmNetwork::Polygon => 137,
        EvmNetwork::Optimism => 10,
        EvmNetwork::Base => 8_453,
        EvmNetwork::Avalanche => 43_114,
        EvmNetwork::Fantom => 250,
    }
}
pub fn caller_of(i: usize) -> Principal {
    match i {
        900 => minter_id(),
        901 => native_ledger(),
        902 => erc20_ledger(0),
        903 => evm_rpc_id(),
        904 => Principal::anonymous(),
        905 => Principal::management_canister(),
        906 => lsm_id(),
        907 => pid(21),
        908 => pid(0),
        i => user(i),
    }
}
pub fn perform(s: &mut Sim, a: Act) {
    match a.clone() {
        Act::Deposit { token, user: u, sub: sb, amount } => {
            let b = s.w.log_block();
            let i = s.w.deposit(token, big(amount), Account { owner: user(u), subaccount: sub(sb) }, b);
            s.note(format!("deposit {i}: {amount} of {token:?} for user {u} in block {b}"));
            s.activity += 1;
        }
        Act::DepositTo { token, owner, sub, amount } => {
            let b = s.w.log_block();
            let i = s.w.deposit(token, amount.clone(), Account { owner, subaccount: sub }, b);
            s.note(format!("deposit {i}: {amount} of {token:?} for {owner}/{sub:?} in block {b}"));
            s.activity += 1;
        }
        Act::Raw(r) => {
            let b = s.w.log_block();
            let n = s.w.logs.len();
            s.w.raw_log(b, |e| mutate_log(r.kind, e));
            s.mon.raws.push((n, r.kind));
            s.note(format!("bad log {:?} in block {b}", r.kind));
        }
        Act::WithdrawNative { user: u, amount, to } => {
            let arg = WithdrawalArg { amount: Nat::from(amount), recipient: to };
            s.ingress(a, user(u), "withdraw_native_token", Encode!(&arg).unwrap());
        }
        Act::WithdrawErc20 { user: u, token, amount, to } => {
            let arg = WithdrawErc20Arg { amount: Nat::from(amount), erc20_ledger_id: erc20_ledger(token), recipient: to };
            s.ingress(a, user(u), "withdraw_erc20", Encode!(&arg).unwrap());
        }
        Act::AnonWithdraw { erc20 } => {
            if erc20 {
                let arg = WithdrawErc20Arg { amount: Nat::from(5_000_000u64), erc20_ledger_id: erc20_ledger(0), recipient: hex_addr(&recipient(9)) };
                s.ingress(a, Principal::anonymous(), "withdraw_erc20", Encode!(&arg).unwrap());
            } else {
                let arg = WithdrawalArg { amount: Nat::from(ether(1)), recipient: hex_addr(&recipient(9)) };
                s.ingress(a, Principal::anonymous(), "withdraw_native_token", Encode!(&arg).unwrap());
            }
        }
        Act::AddToken { i, chain, caller } => {
            let arg = AddErc20Token {
                chain_id: Nat::from(chain.unwrap_or(s.sc.init.evm_network.chain_id())),
                address: hex_addr(&token_addr(i)),
                erc20_token_symbol: format!("icT{i}"),
                erc20_ledger_id: erc20_ledger(i),
            };
            let c = caller.map(caller_of).unwrap_or(lsm_id());
            s.ingress(a, c, "add_erc20_token", Encode!(&arg).unwrap());
        }
        Act::AddTokenAs { i, l } => {
            let arg = AddErc20Token {
                chain_id: Nat::from(s.sc.init.evm_network.chain_id()),
                address: hex_addr(&token_addr(i)),
                erc20_token_symbol: format!("icX{i}"),
                erc20_ledger_id: erc20_ledger(l),
            };
            s.ingress(a, lsm_id(), "add_erc20_token", Encode!(&arg).unwrap());
        }
        Act::Scrape { block } => {
            let last = s.info().and_then(|i| i.last_observed_block_number).map(|n| u64::try_from(n.0).unwrap()).unwrap_or(0);
            let n = Nat::from((last as i64 + block) as u64);
            s.ingress(a, user(3), "request_scraping_logs", Encode!(&n).unwrap());
        }
        Act::ScrapeAbs { nat } => {
            let n = Nat(nat.parse().unwrap());
            s.ingress(a, user(3), "request_scraping_logs", Encode!(&n).unwrap());
        }
        Act::CheckDeposits { caller } => {
            s.ingress(a, caller_of(caller), "check_new_deposits", Encode!().unwrap());
        }
        Act::MinterAddress => {
            s.ingress(a, user(3), "minter_address", Encode!().unwrap());
        }
        Act::Status { id } => {
            s.ingress(a, user(3), "retrieve_witdrawal_status", Encode!(&id).unwrap());
        }
        Act::Fee { base, reward } => {
            s.w.base_fee = big(base);
            s.w.rewards = vec![big(reward + 2), big(reward - 2), big(reward), big(reward + 1), big(reward - 1)];
            s.note(format!("base fee {base}, reward {reward}"));
        }
        Act::Tip(t) => s.w.min_tip = big(t),
        Act::Rewards(v) => s.w.rewards = v.into_iter().map(big).collect(),
        Act::Approve { user: u, ledger, amount } => {
            let l = if ledger == 9 { native_ledger() } else { erc20_ledger(ledger) };
            s.w.ledgers.get_mut(&l).unwrap().allowances.insert((user(u).into(), minting()), big(amount));
        }
        Act::Oversize { ahead } => {
            let b = s.w.head() + ahead;
            s.w.oversized_blocks.insert(b);
        }
        Act::Release => {
            s.sc.fate = s.sc.fate.map(|f| f.released());
            for f in s.w.fates.values_mut() {
                *f = f.released();
            }
        }
        Act::Outage(key, pat) => {
            s.outage = true;
            s.w.sticky.insert(key.into(), (pat.into(), u32::MAX));
        }
        Act::Dead(l, pat) => {
            s.outage = true;
            s.w.dead.insert(if l == 9 { native_ledger() } else { erc20_ledger(l) }, pat);
        }
        Act::Restore => s.w.sticky.clear(),
        Act::Jump(n) => s.w.head_offset += n,
        Act::SetBalance { user: u, ledger, amount } => {
            let l = if ledger == 9 { native_ledger() } else { erc20_ledger(ledger) };
            let l = s.w.ledgers.get_mut(&l).unwrap();
            let have = l.bal(&user(u).into());
            if have > big(amount) {
                let rest = have - big(amount);
                l.balances.insert(user(u).into(), big(amount));
                *l.balances.entry(user(7).into()).or_default() += rest;
            }
        }
        Act::Together(v) => {
            for a in v {
                perform(s, a);
            }
        }
        Act::Crowd { n, amount } => {
            for u in 100..100 + n {
                let l = s.w.ledgers.get_mut(&native_ledger()).unwrap();
                let have = l.bal(&user(0).into());
                let give = big(amount).min(have.clone());
                l.balances.insert(user(0).into(), have - &give);
                l.balances.insert(user(u).into(), give);
            }
            for u in 100..100 + n {
                perform(s, Act::WithdrawNative { user: u, amount, to: hex_addr(&recipient(u)) });
            }
        }
        Act::Upgrade(_) | Act::UpgradeAsInit | Act::UpgradeGrid(_) | Act::Wait(_) | Act::Nop | Act::Any(_) => {}
    }
}
pub fn mutate_log(k: RawKind, e: &mut er::LogEntry) {
    let data: Vec<u8> = e.data.as_ref().to_vec();
    let topic = |f: &dyn Fn(&mut [u8; 32])| {
        let mut t = [0u8; 32];
        f(&mut t);
        er::Hex32::from(t)
    };
    match k {
        RawKind::Removed => e.removed = true,
        RawKind::TopicsShort => {
            e.topics.pop();
        }
        RawKind::TopicsLong => {
            let t = e.topics[3].clone();
            e.topics.push(t);
        }
        RawKind::NoTopics => e.topics.clear(),
        RawKind::DataShort => e.data = er::Hex::from(data[..32].to_vec()),
        RawKind::DataLong => {
            let mut d = data;
            d.extend([0u8; 32]);
            e.data = er::Hex::from(d)
        }
        RawKind::DataEmpty => e.data = er::Hex::from(vec![]),
        RawKind::FromHigh => {
            let mut d = data;
            d[3] = 1;
            e.data = er::Hex::from(d)
        }
        RawKind::PrincipalEmpty => e.topics[3] = topic(&|_| {}),
        RawKind::PrincipalLong => {
            e.topics[3] = topic(&|t| {
                *t = [7; 32];
                t[0] = 30;
            })
        }
        RawKind::PrincipalAnon => {
            e.topics[3] = topic(&|t| {
                t[0] = 1;
                t[1] = 4;
            })
        }
        RawKind::PrincipalPad => {
            e.topics[3] = topic(&|t| {
                t[0] = 5;
                t[1..6].copy_from_slice(&[1, 2, 3, 4, 5]);
                t[31] = 1;
            })
        }
        RawKind::PrincipalMgmt => {
            e.topics[3] = topic(&|t| t[31] = 1);
        }
        RawKind::NoLogIndex => e.log_index = None,
        RawKind::NoTxHash => e.transaction_hash = None,
        RawKind::NoBlockNumber => e.block_number = None,
        RawKind::NoBlockHash => e.block_hash = None,
        RawKind::NoTxIndex => e.transaction_index = None,
        RawKind::OtherSignature => e.topics[0] = er::Hex32::from(evm::keccak(b"Transfer(address,address,uint256)")),
        RawKind::OtherContract => e.address = er::Hex20::from([0x66; 20]),
        RawKind::UnknownToken => {
            e.topics[1] = topic(&|t| t[12..].copy_from_slice(&token_addr(2)));
        }
        RawKind::TokenHigh => {
            e.topics[1] = topic(&|t| t[2] = 9);
        }
    }
}
