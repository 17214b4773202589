//! The world around the minter: EVM chain, RPC canister, ledgers, threshold ECDSA and orchestrator.
//! It answers calls and records the facts that the monitors judge the minter by.
use crate::api::*;
use crate::evm;
use candid::{CandidType, Decode, Encode, Nat, Principal};
use evm_rpc_types as er;
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use num_bigint::BigUint;
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet};

pub type Big = BigUint;
pub fn big(n: u128) -> Big {
    BigUint::from(n)
}
pub const GWEI: u128 = 1_000_000_000;
pub const T0: u64 = 1_700_000_000_000_000_000;
pub const H0: u64 = 10_000;
pub const BLOCK_NS: u64 = 12_000_000_000;
pub const DEPOSIT_TOPIC: &str = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275";

pub fn pid(n: u8) -> Principal {
    Principal::from_slice(&[0, 0, 0, 0, 0, 0, 0, n, 1, 1])
}
pub fn minter_id() -> Principal {
    pid(7)
}
pub fn native_ledger() -> Principal {
    pid(20)
}
pub fn erc20_ledger(i: usize) -> Principal {
    pid(30 + i as u8)
}
pub fn lsm_id() -> Principal {
    pid(40)
}
pub fn evm_rpc_id() -> Principal {
    Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap()
}
/// Users: 0 has the longest possible principal, the others short ones.
pub fn user(i: usize) -> Principal {
    if i == 0 {
        let mut v = vec![0x11; 28];
        v.push(2);
        Principal::from_slice(&v)
    } else {
        Principal::from_slice(&[0, 0, 0, 0, 0, 0x10, 0, i as u8, 1, 1])
    }
}
pub fn recipient(i: usize) -> [u8; 20] {
    let mut a = [0xc0 | (i as u8 & 15); 20];
    a[0] = 0xde;
    a[19] = i as u8;
    a
}
pub fn token_addr(i: usize) -> [u8; 20] {
    let mut a = [0xa0; 20];
    a[1] = 0xbc;
    a[19] = i as u8;
    a
}
pub fn helper_addr() -> [u8; 20] {
    let mut a = [0x5e; 20];
    a[3] = 0x0f;
    a
}
pub fn hex_addr(a: &[u8; 20]) -> String {
    format!("0x{}", hex::encode(a))
}
pub fn fees_subaccount() -> [u8; 32] {
    let mut s = [0u8; 32];
    s[30] = 0x0f;
    s[31] = 0xee;
    s
}
pub fn nat(b: &Big) -> Nat {
    Nat(b.clone())
}
pub fn n256(b: &Big) -> er::Nat256 {
    er::Nat256::try_from(Nat(b.clone())).unwrap()
}
pub fn minting() -> Account {
    Account { owner: minter_id(), subaccount: None }
}

// ---------------------------------------------------------------- ledgers
#[derive(Clone, Debug, PartialEq)]
pub enum LKind {
    Mint,
    Burn,
    Transfer,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LBlock {
    pub kind: LKind,
    pub from: Account,
    pub to: Account,
    pub amount: Big,
    pub memo: Option<Vec<u8>>,
    pub at: u64,
}
#[derive(Clone, Default)]
pub struct Ledger {
    pub fee: Big,
    pub balances: BTreeMap<Account, Big>,
    /// (from, spender) -> amount
    pub allowances: BTreeMap<(Account, Account), Big>,
    pub blocks: Vec<LBlock>,
}
impl Ledger {
    pub fn bal(&self, a: &Account) -> Big {
        self.balances.get(a).cloned().unwrap_or_default()
    }
    pub fn supply(&self) -> Big {
        self.balances.values().sum()
    }
    fn credit(&mut self, a: &Account, x: &Big) {
        *self.balances.entry(*a).or_default() += x;
    }
    fn debit(&mut self, a: &Account, x: &Big) -> bool {
        let b = self.bal(a);
        if b < *x {
            return false;
        }
        self.balances.insert(*a, b - x);
        true
    }
    fn push(&mut self, kind: LKind, from: Account, to: Account, amount: Big, memo: Option<Vec<u8>>, at: u64) -> Nat {
        self.blocks.push(LBlock { kind, from, to, amount, memo, at });
        Nat::from(self.blocks.len() as u64 - 1)
    }
    pub fn transfer(&mut self, caller: Principal, a: &TransferArg, at: u64) -> Result<Nat, TransferError> {
        let from = Account { owner: caller, subaccount: a.from_subaccount };
        let memo = a.memo.as_ref().map(|m| m.0.to_vec());
        let amount = a.amount.0.clone();
        if from == minting() {
            if let Some(f) = &a.fee {
                if f.0 != Big::default() {
                    return Err(TransferError::BadFee { expected_fee: Nat::from(0u8) });
                }
            }
            self.credit(&a.to, &amount);
            return Ok(self.push(LKind::Mint, from, a.to, amount, memo, at));
        }
        let burn = a.to == minting();
        let fee = if burn { Big::default() } else { self.fee.clone() };
        if let Some(f) = &a.fee {
            if f.0 != fee {
                return Err(TransferError::BadFee { expected_fee: Nat(fee) });
            }
        }
        if burn && amount < self.fee {
            return Err(TransferError::BadBurn { min_burn_amount: Nat(self.fee.clone()) });
        }
        if !self.debit(&from, &(&amount + &fee)) {
            return Err(TransferError::InsufficientFunds { balance: Nat(self.bal(&from)) });
        }
        if !burn {
            self.credit(&a.to, &amount);
        }
        Ok(self.push(if burn { LKind::Burn } else { LKind::Transfer }, from, a.to, amount, memo, at))
    }
    pub fn transfer_from(&mut self, caller: Principal, a: &TransferFromArgs, at: u64) -> Result<Nat, TransferFromError> {
        let spender = Account { owner: caller, subaccount: a.spender_subaccount };
        let memo = a.memo.as_ref().map(|m| m.0.to_vec());
        let amount = a.amount.0.clone();
        let burn = a.to == minting();
        let fee = if burn { Big::default() } else { self.fee.clone() };
        if let Some(f) = &a.fee {
            if f.0 != fee {
                return Err(TransferFromError::BadFee { expected_fee: Nat(fee) });
            }
        }
        if burn && amount < self.fee {
            return Err(TransferFromError::BadBurn { min_burn_amount: Nat(self.fee.clone()) });
        }
        let total = &amount + &fee;
        let key = (a.from, spender);
        if a.from != spender {
            let al = self.allowances.get(&key).cloned().unwrap_or_default();
            if al < total {
                return Err(TransferFromError::InsufficientAllowance { allowance: Nat(al) });
            }
        }
        if !self.debit(&a.from, &total) {
            return Err(TransferFromError::InsufficientFunds { balance: Nat(self.bal(&a.from)) });
        }
        if a.from != spender {
            *self.allowances.get_mut(&key).unwrap() -= &total;
        }
        if !burn {
            self.credit(&a.to, &amount);
        }
        Ok(self.push(if burn { LKind::Burn } else { LKind::Transfer }, a.from, a.to, amount, memo, at))
    }
}

// ---------------------------------------------------------------- chain
#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub block: u64,
    pub tx: [u8; 32],
    pub index: u64,
    pub entry: er::LogEntry,
    /// Only served when the log query covers the block and matches the filter.
    pub deposit: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Deposit {
    /// Index of the supported token, or `None` for the native coin.
    pub token: Option<usize>,
    pub amount: Big,
    pub to: Account,
    pub from: [u8; 20],
    pub block: u64,
    pub tx: [u8; 32],
    pub index: u64,
    /// A transfer of a token nobody registered (never to be credited).
    pub unsupported: bool,
}
#[derive(Clone, Debug)]
pub struct Mined {
    pub tx: evm::Tx,
    pub block: u64,
    pub ok: bool,
    pub gas_used: Big,
    pub price: Big,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Ok,
    Fail,
    Withheld,
    WithheldFail,
}
impl Fate {
    /// What becomes of a withheld transaction in the end.
    pub fn released(self) -> Fate {
        match self {
            Fate::Withheld => Fate::Ok,
            Fate::WithheldFail => Fate::Fail,
            x => x,
        }
    }
}
#[derive(Clone, Debug)]
pub struct LogQuery {
    pub from: u64,
    pub to: u64,
    pub issued: u64,
    /// None while outstanding.
    pub outcome: Option<LogOutcome>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum LogOutcome {
    Agreed(Vec<er::LogEntry>),
    TooLarge,
    NotAgreed,
}

pub struct World {
    pub net: EvmNetwork,
    pub rpc_id: Principal,
    pub now: u64,
    pub ledgers: BTreeMap<Principal, Ledger>,
    // chain
    pub base_fee: Big,
    /// Blocks are full: what pays a lower tip is left out.
    pub min_tip: Big,
    /// Announcements of a native ledger suite.
    pub announced: Vec<(Principal, Option<NativeSuite>)>,
    /// The orchestrator did not accept one.
    pub lsm_refused: bool,
    pub rewards: Vec<Big>,
    pub logs: Vec<Log>,
    pub deposits: Vec<Deposit>,
    pub first_nonce: u64,
    pub chain_nonce: u64,
    pub mempool: BTreeMap<u64, Vec<(evm::Tx, u64)>>,
    pub fates: BTreeMap<u64, Fate>,
    pub mined: Vec<Mined>,
    pub native_balance: Big,
    pub erc20_balance: BTreeMap<usize, Big>,
    pub oversized_blocks: BTreeSet<u64>,
    pub head_offset: i64,
    pub top: u64,
    // facts
    pub log_queries: Vec<LogQuery>,
    pub reported_head: Option<u64>,
    pub told_latest: Option<u64>,
    pub agreed_receipts: Vec<(String, er::TransactionReceipt)>,
    pub raw_sent: Vec<(Vec<u8>, Result<evm::Tx, String>)>,
    pub sign_requests: Vec<[u8; 32]>,
    pub facts_bad: Vec<(&'static str, String)>,
    pub sticky: BTreeMap<String, (String, u32)>,
    /// Ledgers that take no transfers any more.
    pub dead: BTreeMap<Principal, &'static str>,
    pub tag_expected: Tag,
    pub tokens: Vec<usize>,
    pub helper: [u8; 20],
    pub fee_history_reports: Vec<(u64, Vec<Big>, Big)>,
    pub frozen_head: Option<u64>,
}

pub fn blk_hash(n: u64) -> [u8; 32] {
    evm::keccak(format!("block{n}").as_bytes())
}
fn h256() -> er::Hex256 {
    er::Hex256::from([0u8; 256])
}

impl World {
    pub fn new(net: EvmNetwork) -> World {
        let mut ledgers = BTreeMap::new();
        ledgers.insert(native_ledger(), Ledger { fee: big(10_000_000_000_000), ..Default::default() });
        for i in 0..3 {
            ledgers.insert(erc20_ledger(i), Ledger { fee: big([10_000, 1, 10_002][i as usize % 3]), ..Default::default() });
        }
        World {
            net,
            rpc_id: evm_rpc_id(),
            now: T0,
            ledgers,
            base_fee: big(10 * GWEI),
            min_tip: Big::default(),
            announced: vec![],
            lsm_refused: false,
            rewards: vec![big(3 * GWEI), big(2 * GWEI), big(GWEI), big(5 * GWEI), big(4 * GWEI)],
            logs: vec![],
            deposits: vec![],
            first_nonce: 0,
            chain_nonce: 0,
            mempool: BTreeMap::new(),
            fates: BTreeMap::new(),
            mined: vec![],
            native_balance: Big::default(),
            erc20_balance: BTreeMap::new(),
            oversized_blocks: BTreeSet::new(),
            head_offset: 0,
            top: 0,
            log_queries: vec![],
            reported_head: None,
            told_latest: None,
            agreed_receipts: vec![],
            raw_sent: vec![],
            sign_requests: vec![],
            facts_bad: vec![],
            sticky: BTreeMap::new(),
            dead: BTreeMap::new(),
            tag_expected: Tag::Latest,
            tokens: vec![],
            helper: helper_addr(),
            fee_history_reports: vec![],
            frozen_head: None,
        }
    }
    pub fn bad(&mut self, p: &'static str, t: String) {
        self.facts_bad.push((p, t));
    }
    pub fn head(&self) -> u64 {
        self.frozen_head.unwrap_or(((H0 + (self.now - T0) / BLOCK_NS) as i64 + self.head_offset) as u64)
    }
    /// The block a log made now is in: blocks once reported as confirmed do not get new logs, even if
    /// the provider's answers go back.
    pub fn log_block(&self) -> u64 {
        let h = self.head();
        if h <= self.top {
            self.top + 1
        } else {
            h
        }
    }
    pub fn tagged(&self, t: &er::BlockTag) -> Option<u64> {
        match t {
            er::BlockTag::Latest => Some(self.head()),
            er::BlockTag::Safe => Some(self.head() - 5),
            er::BlockTag::Finalized => Some(self.head() - 10),
            _ => None,
        }
    }
    pub fn minter_addr(&self) -> [u8; 20] {
        evm::address_of(evm::signing_key().verifying_key())
    }

    // ------------------------------------------------------------ deposits
    pub fn principal_topic(p: &Principal) -> [u8; 32] {
        let mut t = [0u8; 32];
        let s = p.as_slice();
        t[0] = s.len() as u8;
        t[1..1 + s.len()].copy_from_slice(s);
        t
    }
    pub fn deposit_entry(
        helper: &[u8; 20],
        token: &[u8; 20],
        amount: &Big,
        to: &Account,
        from: &[u8; 20],
        block: u64,
        tx: [u8; 32],
        index: u64,
    ) -> er::LogEntry {
        let mut tk = [0u8; 32];
        tk[12..].copy_from_slice(token);
        let mut am = [0u8; 32];
        let b = amount.to_bytes_be();
        am[32 - b.len()..].copy_from_slice(&b);
        let mut data = vec![0u8; 12];
        data.extend(from);
        data.extend(to.subaccount.unwrap_or([0; 32]));
        er::LogEntry {
            address: er::Hex20::from(*helper),
            topics: vec![
                er::Hex32::from(<[u8; 32]>::try_from(hex::decode(DEPOSIT_TOPIC).unwrap()).unwrap()),
                er::Hex32::from(tk),
                er::Hex32::from(am),
                er::Hex32::from(Self::principal_topic(&to.owner)),
            ],
            data: er::Hex::from(data),
            block_number: Some(block.into()),
            transaction_hash: Some(er::Hex32::from(tx)),
            transaction_index: Some(3u8.into()),
            block_hash: Some(er::Hex32::from(blk_hash(block))),
            log_index: Some(index.into()),
            removed: false,
        }
    }
    /// A user really pays into the helper contract.
    pub fn deposit(&mut self, token: Option<usize>, amount: Big, to: Account, block: u64) -> usize {
        let i = self.deposits.len();
        self.deposit_at(token, amount, to, block, evm::keccak(format!("deposit{}", i / 2).as_bytes()), i as u64 + 3)
    }
    pub fn deposit_at(&mut self, token: Option<usize>, amount: Big, to: Account, block: u64, tx: [u8; 32], index: u64) -> usize {
        let i = self.deposits.len();
        let mut from = [0x77; 20];
        from[19] = i as u8;
        let taddr = token.map(token_addr).unwrap_or([0; 20]);
        let entry = Self::deposit_entry(&self.helper, &taddr, &amount, &to, &from, block, tx, index);
        let unsupported = false;
        match token {
            None => self.native_balance += &amount,
            Some(t) => *self.erc20_balance.entry(t).or_default() += &amount,
        }
        self.deposits.push(Deposit { token, amount, to, from, block, tx, index, unsupported });
        self.logs.push(Log { block, tx, index, entry, deposit: Some(i) });
        i
    }
    pub fn raw_log(&mut self, block: u64, f: impl FnOnce(&mut er::LogEntry)) {
        let i = self.logs.len() as u64;
        let tx = evm::keccak(format!("raw{i}").as_bytes());
        let mut e = Self::deposit_entry(
            &self.helper,
            &[0; 20],
            &big(123_000_000_000_000_000 + i as u128),
            &Account { owner: user(1), subaccount: None },
            &[0x78; 20],
            block,
            tx,
            100 + i,
        );
        f(&mut e);
        self.logs.push(Log { block, tx, index: 100 + i, entry: e, deposit: None });
    }

    // ------------------------------------------------------------ mining
    /// Nonces whose transactions can be mined now, with more than one candidate.
    pub fn minable(&self) -> Option<(u64, Vec<usize>)> {
        let n = self.chain_nonce;
        if matches!(self.fates.get(&n), Some(Fate::Withheld | Fate::WithheldFail)) {
            return None;
        }
        let head = self.head();
        let v = self.mempool.get(&n)?;
        let mut idx: Vec<usize> = (0..v.len())
            .filter(|i| v[*i].1 < head && v[*i].0.max_fee >= self.base_fee && self.affordable(&v[*i].0))
            .filter(|i| v[*i].0.prio.clone().min(&v[*i].0.max_fee - &self.base_fee) >= self.min_tip)
            .collect();
        if idx.is_empty() {
            return None;
        }
        idx.sort_by(|a, b| v[*b].0.prio.cmp(&v[*a].0.prio));
        Some((n, idx))
    }
    fn affordable(&self, t: &evm::Tx) -> bool {
        &t.value + t.max_cost() <= self.native_balance
    }
    pub fn mine(&mut self, nonce: u64, i: usize) {
        let head = self.head();
        let (tx, _) = self.mempool.get(&nonce).unwrap()[i].clone();
        self.mempool.remove(&nonce);
        self.chain_nonce += 1;
        let mut ok = !matches!(self.fates.get(&nonce), Some(Fate::Fail | Fate::WithheldFail));
        let erc20 = !tx.data.is_empty();
        let gas_used = if erc20 { big(51_234).min(tx.gas.clone()) } else { big(21_000).min(tx.gas.clone()) };
        if tx.gas < big(if erc20 { 51_234 } else { 21_000 }) {
            ok = false;
        }
        let price = (&self.base_fee + &tx.prio).min(tx.max_fee.clone());
        self.native_balance -= &gas_used * &price;
        if ok {
            if erc20 {
                let t = (0..3).find(|i| token_addr(*i) == tx.to);
                let amount = if tx.data.len() == 68 { Big::from_bytes_be(&tx.data[36..]) } else { Big::default() };
                match t {
                    Some(t) if self.erc20_balance.get(&t).cloned().unwrap_or_default() >= amount => {
                        *self.erc20_balance.get_mut(&t).unwrap() -= &amount;
                    }
                    _ => ok = false,
                }
            }
            if ok {
                self.native_balance -= &tx.value;
            }
        }
        self.mined.push(Mined { tx, block: head, ok, gas_used, price });
    }
    fn count_at(&self, block: u64) -> u64 {
        self.first_nonce + self.mined.iter().filter(|m| m.block <= block).count() as u64
    }
    pub fn receipt_of(&self, hash: &[u8; 32], block: u64) -> Option<er::TransactionReceipt> {
        let m = self.mined.iter().find(|m| m.tx.hash == *hash && m.block <= block)?;
        Some(er::TransactionReceipt {
            block_hash: er::Hex32::from(blk_hash(m.block)),
            block_number: m.block.into(),
            effective_gas_price: n256(&m.price),
            gas_used: n256(&m.gas_used),
            status: Some((m.ok as u8).into()),
            transaction_hash: er::Hex32::from(m.tx.hash),
            contract_address: None,
            from: er::Hex20::from(self.minter_addr()),
            logs: vec![],
            logs_bloom: h256(),
            to: Some(er::Hex20::from(m.tx.to)),
            transaction_index: 1u8.into(),
            tx_type: er::HexByte::from(2u8),
        })
    }
}

// ---------------------------------------------------------------- answers
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Ok(Vec<u8>),
    Reject(i32, String),
}
/// What an outstanding call asks for, decoded when it is issued.
#[derive(Clone, Debug)]
pub enum Req {
    GetLogs { svc: Vec<er::RpcService>, q: usize, args: er::GetLogsArgs },
    GetBlock { svc: Vec<er::RpcService>, tag: er::BlockTag },
    Receipt { svc: Vec<er::RpcService>, hash: String },
    FeeHistory { svc: Vec<er::RpcService>, args: er::FeeHistoryArgs },
    SendRaw { svc: Vec<er::RpcService>, raw: usize },
    TxCount { svc: Vec<er::RpcService>, args: er::GetTransactionCountArgs },
    Transfer { ledger: Principal, args: TransferArg },
    TransferFrom { ledger: Principal, args: TransferFromArgs },
    Sign { hash: [u8; 32] },
    PubKey,
    Lsm,
    Other,
}
/// What the orchestrator is told about a new minter.
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct NativeSuite {
    pub symbol: String,
    pub ledger: Principal,
    pub ledger_wasm_hash: String,
    pub index: Principal,
    pub index_wasm_hash: String,
    pub archives: Vec<Principal>,
    pub chain_id: Nat,
}
#[derive(CandidType, Deserialize)]
struct PubKeyReply {
    #[serde(with = "serde_bytes")]
    public_key: Vec<u8>,
    #[serde(with = "serde_bytes")]
    chain_code: Vec<u8>,
}
#[derive(CandidType, Deserialize)]
struct SignArg {
    message_hash: serde_bytes::ByteBuf,
}
#[derive(CandidType, Deserialize)]
struct SignReply {
    #[serde(with = "serde_bytes")]
    signature: Vec<u8>,
}
#[derive(CandidType)]
enum OkNull {
    Ok,
    Err(Refusal),
}
#[derive(CandidType, Deserialize)]
enum Refusal {
    TokenAlreadyManaged,
}

fn services(s: &er::RpcServices) -> Vec<er::RpcService> {
    use er::RpcServices::*;
    match s {
        Custom { services, .. } => services.iter().map(|a| er::RpcService::Custom(a.clone())).collect(),
        EthMainnet(v) => v.iter().flatten().map(|x| er::RpcService::EthMainnet(*x)).collect(),
        EthSepolia(v) => v.iter().flatten().map(|x| er::RpcService::EthSepolia(*x)).collect(),
        ArbitrumOne(v) => v.iter().flatten().map(|x| er::RpcService::ArbitrumOne(*x)).collect(),
        BaseMainnet(v) => v.iter().flatten().map(|x| er::RpcService::BaseMainnet(*x)).collect(),
        OptimismMainnet(v) => v.iter().flatten().map(|x| er::RpcService::OptimismMainnet(*x)).collect(),
    }
}
pub fn num_of(t: &Option<er::BlockTag>) -> Option<u64> {
    match t {
        Some(er::BlockTag::Number(n)) => u64::try_from(n.as_ref().0.clone()).ok(),
        _ => None,
    }
}
fn err_for(i: usize) -> er::RpcError {
    er::RpcError::JsonRpcError(er::JsonRpcError { code: -32000 - i as i64, message: format!("provider {i} unavailable") })
}
pub fn too_large() -> er::RpcError {
    er::RpcError::HttpOutcallError(er::HttpOutcallError::IcError {
        code: ic_code_sysfatal(),
        message: "Http body exceeds size limit of 2000000 bytes.".into(),
    })
}
fn ic_code_sysfatal() -> ic_cdk::api::call::RejectionCode {
    ic_cdk::api::call::RejectionCode::SysFatal
}
pub fn multi<T: CandidType + Clone + PartialEq>(
    svc: &[er::RpcService],
    v: Vec<Result<T, er::RpcError>>,
) -> (er::MultiRpcResult<T>, Option<T>) {
    let oks: Vec<&T> = v.iter().filter_map(|r| r.as_ref().ok()).collect();
    let agreed = if !oks.is_empty()
        && oks.iter().all(|x| **x == *oks[0])
        && (oks.len() >= 2 || v.len() == 1)
    {
        Some(oks[0].clone())
    } else {
        None
    };
    let res = if v.iter().all(|r| *r == v[0]) {
        er::MultiRpcResult::Consistent(v[0].clone())
    } else {
        er::MultiRpcResult::Inconsistent(svc.iter().cloned().zip(v).collect())
    };
    (res, agreed)
}

impl World {
    /// Decodes an outgoing call and records what it reveals.
    pub fn issue(&mut self, callee: Principal, method: &str, args: &[u8]) -> Req {
        macro_rules! dec {
            ($t:ty) => {
                match Decode!(args, er::RpcServices, Option<er::RpcConfig>, $t) {
                    Ok((s, _, a)) => (services(&s), a),
                    Err(e) => panic!("undecodable {method} request: {e}"),
                }
            };
        }
        if callee == self.rpc_id {
            match method {
                "eth_getLogs" => {
                    let (svc, args) = dec!(er::GetLogsArgs);
                    let (f, t) = (num_of(&args.from_block), num_of(&args.to_block));
                    if f.is_none() || t.is_none() {
                        self.bad("D05", format!("log query with open block range {:?}..{:?}", args.from_block, args.to_block));
                    }
                    let (f, t) = (f.unwrap_or(0), t.unwrap_or(u64::MAX));
                    if t >= f && t - f + 1 > 1000 {
                        self.bad("D04", format!("log query for {} blocks ({f}..={t})", t - f + 1));
                    }
                    let limit = self.reported_head.map(|h| h.saturating_sub(self.net.depth()));
                    if limit.map_or(true, |l| t > l) {
                        self.bad("D05", format!("log query up to block {t}, but only blocks up to {limit:?} are final"));
                    }
                    self.log_queries.push(LogQuery { from: f, to: t, issued: self.now, outcome: None });
                    Req::GetLogs { svc, q: self.log_queries.len() - 1, args }
                }
                "eth_getBlockByNumber" => {
                    let (svc, tag) = dec!(er::BlockTag);
                    Req::GetBlock { svc, tag }
                }
                "eth_getTransactionReceipt" => {
                    let (svc, hash) = dec!(er::Hex32);
                    Req::Receipt { svc, hash: hash.to_string() }
                }
                "eth_feeHistory" => {
                    let (svc, args) = dec!(er::FeeHistoryArgs);
                    Req::FeeHistory { svc, args }
                }
                "eth_sendRawTransaction" => {
                    let (svc, raw) = dec!(er::Hex);
                    let raw: Vec<u8> = raw.into();
                    let tx = evm::decode_tx(&raw);
                    self.raw_sent.push((raw, tx));
                    Req::SendRaw { svc, raw: self.raw_sent.len() - 1 }
                }
                "eth_getTransactionCount" => {
                    let (svc, args) = dec!(er::GetTransactionCountArgs);
                    Req::TxCount { svc, args }
                }
                _ => Req::Other,
            }
        } else if self.ledgers.contains_key(&callee) {
            match method {
                "icrc1_transfer" => Req::Transfer { ledger: callee, args: Decode!(args, TransferArg).unwrap() },
                "icrc2_transfer_from" => Req::TransferFrom { ledger: callee, args: Decode!(args, TransferFromArgs).unwrap() },
                _ => Req::Other,
            }
        } else if callee == Principal::management_canister() {
            match method {
                "sign_with_ecdsa" => {
                    let h: [u8; 32] = Decode!(args, SignArg).unwrap().message_hash.to_vec().try_into().unwrap();
                    self.sign_requests.push(h);
                    Req::Sign { hash: h }
                }
                "ecdsa_public_key" => Req::PubKey,
                _ => Req::Other,
            }
        } else if method == "add_native_ls" {
            self.announced.push((callee, Decode!(args, NativeSuite).ok()));
            Req::Lsm
        } else {
            Req::Other
        }
    }

    /// The answers that may be given to this call; the first is the normal one.
    pub fn menu(&self, r: &Req) -> Vec<String> {
        let p3 = |svc: &Vec<er::RpcService>, three: &[&str], two: &[&str]| -> Vec<String> {
            match svc.len() {
                1 => vec!["o", "e"],
                2 => two.to_vec(),
                _ => three.to_vec(),
            }
            .into_iter()
            .map(|s| s.to_string())
            .collect()
        };
        let v = |a: &[&str]| a.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        match r {
            Req::GetLogs { svc, q, .. } => {
                let lq = &self.log_queries[*q];
                if self.oversized(lq) {
                    return v(&["t", "x"]);
                }
                p3(svc, &["o", "x", "ooe", "oee", "eee", "oof", "foo", "oom", "moo", "t", "oot"], &["o", "x", "oe", "ee", "of", "fo", "om", "mo", "t", "ot"])
            }
            Req::GetBlock { .. } => v(&["o", "e", "x", "s", "E"]),
            Req::Receipt { svc, .. } => {
                p3(svc, &["o", "x", "ooe", "oee", "eee", "oof", "foo", "oon", "noo", "n", "nne"], &["o", "x", "oe", "ee", "of", "on", "n"])
            }
            Req::FeeHistory { .. } => v(&["o", "e", "x", "z", "E"]),
            Req::SendRaw { svc, .. } => p3(svc, &["o", "x", "eee", "oee", "eeo", "L", "h", "i", "ohe", "hhe", "E"], &["o", "x", "ee", "oe", "eo", "L", "h", "i", "E"]),
            Req::TxCount { args, .. } => match args.block {
                er::BlockTag::Latest => v(&["o", "e", "x", "s", "E"]),
                _ => v(&["o", "e", "x", "s", "E"]),
            },
            Req::Transfer { .. } => v(&["o", "u", "x", "g", "U"]),
            Req::TransferFrom { .. } => v(&["o", "u", "x", "g"]),
            Req::Sign { .. } => v(&["o", "x"]),
            Req::PubKey => v(&["o", "x"]),
            Req::Lsm => v(&["o", "x", "r"]),
            Req::Other => v(&["x"]),
        }
    }
    fn oversized(&self, q: &LogQuery) -> bool {
        self.oversized_blocks.range(q.from..=q.to.max(q.from)).next().is_some()
    }
    pub fn sticky_key(r: &Req) -> &'static str {
        match r {
            Req::GetBlock { .. } => "block",
            Req::FeeHistory { .. } => "fee",
            Req::SendRaw { .. } => "send",
            Req::TxCount { .. } => "count",
            Req::Transfer { .. } => "transfer",
            Req::TransferFrom { .. } => "transfer_from",
            Req::GetLogs { .. } => "logs",
            Req::Receipt { .. } => "receipt",
            Req::Sign { .. } => "sign",
            _ => "",
        }
    }

    fn logs_for(&self, a: &er::GetLogsArgs, q: &LogQuery) -> Vec<er::LogEntry> {
        let addrs: Vec<String> = a.addresses.iter().map(|x| x.to_string().to_lowercase()).collect();
        let mut v: Vec<&Log> = self
            .logs
            .iter()
            .filter(|l| l.block >= q.from && l.block <= q.to && l.block <= self.head())
            .filter(|l| addrs.is_empty() || addrs.contains(&l.entry.address.to_string().to_lowercase()))
            .filter(|l| match &a.topics {
                None => true,
                Some(ts) => ts.iter().enumerate().all(|(i, alts)| {
                    alts.is_empty() || l.entry.topics.get(i).map_or(false, |t| alts.contains(t))
                }),
            })
            .collect();
        v.sort_by_key(|l| (l.block, l.index));
        v.into_iter().map(|l| l.entry.clone()).collect()
    }
    fn fake_log(&self, q: &LogQuery) -> er::LogEntry {
        Self::deposit_entry(
            &self.helper,
            &[0; 20],
            &big(987_654_321_000_000_000),
            &Account { owner: user(9), subaccount: None },
            &[0x99; 20],
            q.to,
            [0xfa; 32],
            66,
        )
    }

    /// Answers a call with the chosen pattern, applying its effects.
    pub fn answer(&mut self, r: &Req, pat: &str, fate: Option<Fate>) -> Answer {
        let c0 = pat.as_bytes().first().copied().unwrap_or(b'o');
        if c0 == b'x' {
            if let Req::GetLogs { q, .. } = r {
                self.log_queries[*q].outcome = Some(LogOutcome::NotAgreed);
            }
            return Answer::Reject(2, "IC0503: temporarily unavailable".into());
        }
        let pats = |n: usize| -> Vec<u8> {
            let b = pat.as_bytes();
            (0..n).map(|i| if b.len() == 1 { b[0] } else { b[i.min(b.len() - 1)] }).collect()
        };
        match r {
            Req::GetLogs { svc, q, args } => {
                let lq = self.log_queries[*q].clone();
                let base = self.logs_for(args, &lq);
                let v: Vec<Result<Vec<er::LogEntry>, er::RpcError>> = pats(svc.len())
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match p {
                        b'e' => Err(err_for(i)),
                        b't' => Err(too_large()),
                        b'f' => {
                            let mut b = base.clone();
                            b.push(self.fake_log(&lq));
                            Ok(b)
                        }
                        b'm' => {
                            let mut b = base.clone();
                            b.pop();
                            Ok(b)
                        }
                        _ => Ok(base.clone()),
                    })
                    .collect();
                let all_large = v.iter().all(|r| *r == Err(too_large()));
                let (res, agreed) = multi(svc, v);
                self.log_queries[*q].outcome = Some(match agreed {
                    Some(l) => LogOutcome::Agreed(l),
                    None if all_large => LogOutcome::TooLarge,
                    None => LogOutcome::NotAgreed,
                });
                Answer::Ok(Encode!(&res).unwrap())
            }
            Req::GetBlock { svc, tag } => {
                let mut n = self.tagged(tag).unwrap_or(0);
                self.top = self.top.max(n);
                let want = match self.tag_expected {
                    Tag::Latest => er::BlockTag::Latest,
                    Tag::Safe => er::BlockTag::Safe,
                    Tag::Finalized => er::BlockTag::Finalized,
                };
                if *tag != want {
                    self.bad("D05", format!("asked for block tag {tag:?}, configured is {want:?}"));
                }
                if pat == "s" {
                    n -= 30;
                }
                let blk = er::Block {
                    base_fee_per_gas: Some(n256(&self.base_fee)),
                    number: n.into(),
                    difficulty: None,
                    extra_data: er::Hex::from(vec![]),
                    gas_limit: 30_000_000u64.into(),
                    gas_used: 1u8.into(),
                    hash: er::Hex32::from(blk_hash(n)),
                    logs_bloom: h256(),
                    miner: er::Hex20::from([1; 20]),
                    mix_hash: er::Hex32::from([0; 32]),
                    nonce: 0u8.into(),
                    parent_hash: er::Hex32::from(blk_hash(n - 1)),
                    receipts_root: er::Hex32::from([0; 32]),
                    sha3_uncles: er::Hex32::from([0; 32]),
                    size: 100u8.into(),
                    state_root: er::Hex32::from([0; 32]),
                    timestamp: (self.now / 1_000_000_000).into(),
                    total_difficulty: None,
                    transactions: vec![],
                    transactions_root: None,
                    uncles: vec![],
                };
                let v = pats(svc.len()).iter().enumerate().map(|(i, p)| if *p == b'e' || *p == b'E' { Err(err_for(i)) } else { Ok(blk.clone()) }).collect();
                let (res, agreed) = multi(svc, v);
                if agreed.is_some() {
                    self.reported_head = Some(n);
                }
                Answer::Ok(Encode!(&res).unwrap())
            }
            Req::Receipt { svc, hash } => {
                let hb: [u8; 32] = hex::decode(&hash[2..]).unwrap().try_into().unwrap();
                let rc = self.receipt_of(&hb, self.head());
                let v: Vec<Result<Option<er::TransactionReceipt>, er::RpcError>> = pats(svc.len())
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match p {
                        b'e' => Err(err_for(i)),
                        b'n' => Ok(None),
                        b'f' => Ok(rc.clone().map(|mut r| {
                            r.status = Some(if r.status == Some(1u8.into()) { 0u8 } else { 1u8 }.into());
                            r
                        })),
                        _ => Ok(rc.clone()),
                    })
                    .collect();
                let (res, agreed) = multi(svc, v);
                if let Some(Some(r)) = agreed {
                    self.agreed_receipts.push((hash.clone(), r));
                }
                Answer::Ok(Encode!(&res).unwrap())
            }
            Req::FeeHistory { svc, args } => {
                let n = self.rewards.len() as u64;
                let mut h = er::FeeHistory {
                    oldest_block: (self.head() - n + 1).into(),
                    base_fee_per_gas: (0..=n)
                        .map(|i| if i == n { n256(&self.base_fee) } else { n256(&(&self.base_fee + big(n as u128 - i as u128))) })
                        .collect(),
                    gas_used_ratio: vec![0.5; n as usize],
                    reward: self.rewards.iter().map(|r| vec![n256(r)]).collect(),
                };
                if let Some(p) = &args.reward_percentiles {
                    if p.is_empty() {
                        h.reward = vec![];
                    }
                }
                if pat == "z" {
                    h.reward = vec![];
                }
                let v = pats(svc.len()).iter().enumerate().map(|(i, p)| if *p == b'e' || *p == b'E' { Err(err_for(i)) } else { Ok(h.clone()) }).collect();
                let (res, agreed) = multi(svc, v);
                if agreed.is_some() {
                    let rw: Vec<Big> = if pat == "z" { vec![] } else { self.rewards.clone() };
                    self.fee_history_reports.push((self.now, rw, self.base_fee.clone()));
                }
                Answer::Ok(Encode!(&res).unwrap())
            }
            Req::SendRaw { svc, raw } => {
                let (_, tx) = self.raw_sent[*raw].clone();
                let status = match &tx {
                    Err(_) => None,
                    Ok(t) => {
                        let nonce = u64::try_from(t.nonce.clone()).unwrap_or(u64::MAX);
                        if nonce < self.chain_nonce {
                            Some(er::SendRawTransactionStatus::NonceTooLow)
                        } else if &t.value + t.max_cost() > self.native_balance {
                            Some(er::SendRawTransactionStatus::InsufficientFunds)
                        } else {
                            Some(er::SendRawTransactionStatus::Ok(Some(er::Hex32::from(t.hash))))
                        }
                    }
                };
                let ps = pats(svc.len());
                let reaches = ps.iter().any(|p| *p == b'o' || *p == b'L');
                if let (true, Some(er::SendRawTransactionStatus::Ok(_)), Ok(t)) = (reaches, &status, &tx) {
                    let nonce = u64::try_from(t.nonce.clone()).unwrap();
                    if let Some(f) = fate {
                        self.fates.entry(nonce).or_insert(f);
                    }
                    let head = self.head();
                    let e = self.mempool.entry(nonce).or_default();
                    if !e.iter().any(|(x, _)| x.hash == t.hash) {
                        e.push((t.clone(), head));
                    }
                }
                let v: Vec<Result<er::SendRawTransactionStatus, er::RpcError>> = ps
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match p {
                        b'h' => Ok(er::SendRawTransactionStatus::NonceTooHigh),
                        b'i' => Ok(er::SendRawTransactionStatus::InsufficientFunds),
                        b'o' => status.clone().ok_or_else(|| err_for(i)),
                        _ => Err(err_for(i)),
                    })
                    .collect();
                Answer::Ok(Encode!(&multi(svc, v).0).unwrap())
            }
            Req::TxCount { svc, args } => {
                if args.address.as_ref() != self.minter_addr() {
                    self.bad("W08", format!("asked the transaction count of a foreign address {}", args.address));
                }
                let mut n = match self.tagged(&args.block) {
                    Some(b) => self.count_at(b),
                    None => 0,
                };
                if pat == "s" {
                    n = n.saturating_sub(1).max(self.first_nonce);
                }
                let ok = c0 != b'e' && c0 != b'E';
                if ok && args.block == er::BlockTag::Latest {
                    self.told_latest = Some(n);
                }
                let v: Vec<Result<er::Nat256, er::RpcError>> =
                    (0..svc.len()).map(|i| if ok { Ok(n.into()) } else { Err(err_for(i)) }).collect();
                Answer::Ok(Encode!(&multi(svc, v).0).unwrap())
            }
            Req::Transfer { ledger, args } => {
                let at = self.now;
                let too_long = args.memo.as_ref().map_or(false, |m| m.0.len() > 80);
                if too_long {
                    self.bad("C06", format!("memo of {} bytes", args.memo.as_ref().unwrap().0.len()));
                    return Answer::Reject(4, "the memo field is too large".into());
                }
                let r: Result<Nat, TransferError> = match c0 {
                    b'u' | b'U' => Err(TransferError::TemporarilyUnavailable),
                    b'g' => Err(TransferError::GenericError { error_code: Nat::from(1u8), message: "generic".into() }),
                    _ => self.ledgers.get_mut(ledger).unwrap().transfer(minter_id(), args, at),
                };
                Answer::Ok(Encode!(&r).unwrap())
            }
            Req::TransferFrom { ledger, args } => {
                let at = self.now;
                let too_long = args.memo.as_ref().map_or(false, |m| m.0.len() > 80);
                if too_long {
                    self.bad("C06", format!("memo of {} bytes", args.memo.as_ref().unwrap().0.len()));
                    return Answer::Reject(4, "the memo field is too large".into());
                }
                let r: Result<Nat, TransferFromError> = match c0 {
                    b'u' => Err(TransferFromError::TemporarilyUnavailable),
                    b'g' => Err(TransferFromError::GenericError { error_code: Nat::from(1u8), message: "generic".into() }),
                    _ => self.ledgers.get_mut(ledger).unwrap().transfer_from(minter_id(), args, at),
                };
                Answer::Ok(Encode!(&r).unwrap())
            }
            Req::Sign { hash } => {
                let (sig, _) = evm::signing_key().sign_prehash_recoverable(hash).unwrap();
                Answer::Ok(Encode!(&SignReply { signature: sig.to_bytes().to_vec() }).unwrap())
            }
            Req::PubKey => {
                let k = evm::signing_key();
                let p = k.verifying_key().to_encoded_point(true).as_bytes().to_vec();
                Answer::Ok(Encode!(&PubKeyReply { public_key: p, chain_code: vec![9; 32] }).unwrap())
            }
            Req::Lsm if c0 == b'r' => Answer::Ok(Encode!(&OkNull::Err(Refusal::TokenAlreadyManaged)).unwrap()),
            Req::Lsm => Answer::Ok(Encode!(&OkNull::Ok).unwrap()),
            Req::Other => Answer::Reject(3, "no such method".into()),
        }
    }
}
