//! The minter's public interface as an outside client sees it: candid types written down independently of
//! the implementation, and the memo formats documented for the ledgers.
#![allow(dead_code)]
use candid::{CandidType, Deserialize, Nat, Principal};
use serde_bytes::ByteBuf;

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, Copy)]
pub enum EvmNetwork {
    Ethereum,
    Sepolia,
    ArbitrumOne,
    BSC,
    BSCTestnet,
    Polygon,
    Optimism,
    Base,
    Avalanche,
    Fantom,
}
pub const NETWORKS: [EvmNetwork; 10] = [
    EvmNetwork::Ethereum,
    EvmNetwork::Sepolia,
    EvmNetwork::ArbitrumOne,
    EvmNetwork::BSC,
    EvmNetwork::BSCTestnet,
    EvmNetwork::Polygon,
    EvmNetwork::Optimism,
    EvmNetwork::Base,
    EvmNetwork::Avalanche,
    EvmNetwork::Fantom,
];
impl EvmNetwork {
    pub fn chain_id(&self) -> u64 {
        match self {
            EvmNetwork::Ethereum => 1,
            EvmNetwork::Sepolia => 11155111,
            EvmNetwork::ArbitrumOne => 42161,
            EvmNetwork::BSC => 56,
            EvmNetwork::BSCTestnet => 97,
            EvmNetwork::Polygon => 137,
            EvmNetwork::Optimism => 10,
            EvmNetwork::Base => 8453,
            EvmNetwork::Avalanche => 43114,
            EvmNetwork::Fantom => 250,
        }
    }
    /// Confirmations required below the block reported for the configured tag.
    pub fn depth(&self) -> u64 {
        match self {
            EvmNetwork::BSC => 20,
            EvmNetwork::ArbitrumOne
            | EvmNetwork::Base
            | EvmNetwork::Optimism
            | EvmNetwork::Avalanche
            | EvmNetwork::Fantom => 12,
            _ => 0,
        }
    }
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, Copy)]
pub enum Tag {
    Latest,
    Safe,
    Finalized,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct InitArg {
    pub evm_network: EvmNetwork,
    pub ecdsa_key_name: String,
    pub helper_contract_address: Option<String>,
    pub native_ledger_id: Principal,
    pub native_index_id: Principal,
    pub native_symbol: String,
    pub block_height: Tag,
    pub native_minimum_withdrawal_amount: Nat,
    pub native_ledger_transfer_fee: Nat,
    pub next_transaction_nonce: Nat,
    pub last_scraped_block_number: Nat,
    pub min_max_priority_fee_per_gas: Nat,
    pub ledger_suite_manager_id: Principal,
    pub deposit_native_fee: Nat,
    pub withdrawal_native_fee: Nat,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct UpgradeArg {
    pub next_transaction_nonce: Option<Nat>,
    pub native_minimum_withdrawal_amount: Option<Nat>,
    pub helper_contract_address: Option<String>,
    pub block_height: Option<Tag>,
    pub last_scraped_block_number: Option<Nat>,
    pub evm_rpc_id: Option<Principal>,
    pub native_ledger_transfer_fee: Option<Nat>,
    pub min_max_priority_fee_per_gas: Option<Nat>,
    pub deposit_native_fee: Option<Nat>,
    pub withdrawal_native_fee: Option<Nat>,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum MinterArg {
    InitArg(InitArg),
    UpgradeArg(UpgradeArg),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct WithdrawalArg {
    pub amount: Nat,
    pub recipient: String,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct RetrieveNativeRequest {
    pub block_index: Nat,
}
#[derive(CandidType, Deserialize, Debug, PartialEq, Clone)]
pub enum WithdrawalError {
    AmountTooLow { min_withdrawal_amount: Nat },
    InsufficientFunds { balance: Nat },
    InsufficientAllowance { allowance: Nat },
    TemporarilyUnavailable(String),
    InvalidDestination(String),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct WithdrawErc20Arg {
    pub amount: Nat,
    pub erc20_ledger_id: Principal,
    pub recipient: String,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct RetrieveErc20Request {
    pub native_block_index: Nat,
    pub erc20_block_index: Nat,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Erc20Token {
    pub erc20_token_symbol: String,
    pub erc20_contract_address: String,
    pub ledger_canister_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum LedgerError {
    InsufficientFunds { balance: Nat, failed_burn_amount: Nat, token_symbol: String, ledger_id: Principal },
    AmountTooLow { minimum_burn_amount: Nat, failed_burn_amount: Nat, token_symbol: String, ledger_id: Principal },
    InsufficientAllowance { allowance: Nat, failed_burn_amount: Nat, token_symbol: String, ledger_id: Principal },
    TemporarilyUnavailable(String),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum FeeError {
    InsufficientFunds { balance: Nat, failed_transfer_amount: Nat, token_symbol: String, ledger_id: Principal },
    AmountTooLow { minimum_transfer_amount: Nat, failed_transfer_amount: Nat, token_symbol: String, ledger_id: Principal },
    InsufficientAllowance { allowance: Nat, failed_transfer_amount: Nat, token_symbol: String, ledger_id: Principal },
    TemporarilyUnavailable(String),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum WithdrawErc20Error {
    TokenNotSupported { supported_tokens: Vec<Erc20Token> },
    NativeLedgerError { error: LedgerError },
    NativeFeeTransferError { error: FeeError },
    Erc20LedgerError { native_block_index: Nat, error: LedgerError },
    TemporarilyUnavailable(String),
    InvalidDestination(String),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct AddErc20Token {
    pub chain_id: Nat,
    pub address: String,
    pub erc20_token_symbol: String,
    pub erc20_ledger_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum RequestScrapingError {
    CalledTooManyTimes,
    InvalidBlockNumber,
    BlockAlreadyObserved,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Transaction {
    pub transaction_hash: String,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum TxFinalizedStatus {
    Success { transaction_hash: String, effective_transaction_fee: Option<Nat> },
    PendingReimbursement(Transaction),
    Reimbursed { transaction_hash: String, reimbursed_amount: Nat, reimbursed_in_block: Nat },
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum RetrieveWithdrawalStatus {
    NotFound,
    Pending,
    TxCreated,
    TxSent(Transaction),
    TxFinalized(TxFinalizedStatus),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawalStatus {
    Pending,
    TxCreated,
    TxSent(Transaction),
    TxFinalized(TxFinalizedStatus),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub owner: Principal,
    pub subaccount: Option<[u8; 32]>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum WithdrawalSearchParameter {
    ByWithdrawalId(u64),
    ByRecipient(String),
    BySenderAccount(Acct),
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct WithdrawalDetail {
    pub withdrawal_id: u64,
    pub recipient_address: String,
    pub from: Principal,
    pub from_subaccount: Option<[u8; 32]>,
    pub token_symbol: String,
    pub withdrawal_amount: Nat,
    pub max_transaction_fee: Option<Nat>,
    pub status: WithdrawalStatus,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct GasFeeEstimate {
    pub max_fee_per_gas: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub timestamp: u64,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Erc20Balance {
    pub erc20_contract_address: String,
    pub balance: Nat,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct MinterInfo {
    pub minter_address: Option<String>,
    pub helper_smart_contract_address: Option<String>,
    pub supported_erc20_tokens: Option<Vec<Erc20Token>>,
    pub minimum_withdrawal_amount: Option<Nat>,
    pub deposit_native_fee: Option<Nat>,
    pub withdrawal_native_fee: Option<Nat>,
    pub block_height: Option<Tag>,
    pub last_observed_block_number: Option<Nat>,
    pub native_balance: Option<Nat>,
    pub last_gas_fee_estimate: Option<GasFeeEstimate>,
    pub erc20_balances: Option<Vec<Erc20Balance>>,
    pub last_scraped_block_number: Option<Nat>,
    pub native_twin_token_ledger_id: Option<Principal>,
    pub swap_canister_id: Option<Principal>,
    pub ledger_suite_manager_id: Option<Principal>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Eip1559TransactionPriceArg {
    pub erc20_ledger_id: Principal,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Eip1559TransactionPrice {
    pub gas_limit: Nat,
    pub max_fee_per_gas: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub max_transaction_fee: Nat,
    pub timestamp: Option<u64>,
}
#[derive(CandidType, Deserialize, Debug, Clone)]
pub struct GetEventsArg {
    pub start: u64,
    pub length: u64,
}
#[derive(CandidType, Deserialize, Debug, Clone)]
pub struct GetEventsResult {
    pub events: Vec<Event>,
    pub total_event_count: u64,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub struct Event {
    pub timestamp: u64,
    pub payload: EventPayload,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub struct EventSource {
    pub transaction_hash: String,
    pub log_index: Nat,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum ReimbursementIndex {
    Native { ledger_burn_index: Nat },
    Erc20 { native_ledger_burn_index: Nat, ledger_id: Principal, erc20_ledger_burn_index: Nat },
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub struct AccessListItem {
    pub address: String,
    pub storage_keys: Vec<ByteBuf>,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub struct UnsignedTransaction {
    pub chain_id: Nat,
    pub nonce: Nat,
    pub max_priority_fee_per_gas: Nat,
    pub max_fee_per_gas: Nat,
    pub gas_limit: Nat,
    pub destination: String,
    pub value: Nat,
    pub data: ByteBuf,
    pub access_list: Vec<AccessListItem>,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum TransactionStatus {
    Success,
    Failure,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub struct TransactionReceipt {
    pub block_hash: String,
    pub block_number: Nat,
    pub effective_gas_price: Nat,
    pub gas_used: Nat,
    pub status: TransactionStatus,
    pub transaction_hash: String,
}
#[derive(CandidType, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum EventPayload {
    Init(InitArg),
    Upgrade(UpgradeArg),
    AcceptedDeposit {
        transaction_hash: String,
        block_number: Nat,
        log_index: Nat,
        from_address: String,
        value: Nat,
        principal: Principal,
        subaccount: Option<[u8; 32]>,
    },
    AcceptedErc20Deposit {
        transaction_hash: String,
        block_number: Nat,
        log_index: Nat,
        from_address: String,
        value: Nat,
        principal: Principal,
        erc20_contract_address: String,
        subaccount: Option<[u8; 32]>,
    },
    InvalidDeposit { event_source: EventSource, reason: String },
    MintedNative { event_source: EventSource, mint_block_index: Nat },
    SyncedToBlock { block_number: Nat },
    AcceptedNativeWithdrawalRequest {
        withdrawal_amount: Nat,
        destination: String,
        ledger_burn_index: Nat,
        from: Principal,
        from_subaccount: Option<[u8; 32]>,
        created_at: Option<u64>,
    },
    CreatedTransaction { withdrawal_id: Nat, transaction: UnsignedTransaction },
    SignedTransaction { withdrawal_id: Nat, raw_transaction: String },
    ReplacedTransaction { withdrawal_id: Nat, transaction: UnsignedTransaction },
    FinalizedTransaction { withdrawal_id: Nat, transaction_receipt: TransactionReceipt },
    ReimbursedNativeWithdrawal {
        reimbursed_in_block: Nat,
        withdrawal_id: Nat,
        reimbursed_amount: Nat,
        transaction_hash: Option<String>,
    },
    ReimbursedErc20Withdrawal {
        withdrawal_id: Nat,
        burn_in_block: Nat,
        reimbursed_in_block: Nat,
        ledger_id: Principal,
        reimbursed_amount: Nat,
        transaction_hash: Option<String>,
    },
    SkippedBlock { block_number: Nat },
    AddedErc20Token { chain_id: Nat, address: String, erc20_token_symbol: String, erc20_ledger_id: Principal },
    AcceptedErc20WithdrawalRequest {
        max_transaction_fee: Nat,
        withdrawal_amount: Nat,
        erc20_contract_address: String,
        destination: String,
        native_ledger_burn_index: Nat,
        erc20_ledger_id: Principal,
        erc20_ledger_burn_index: Nat,
        from: Principal,
        from_subaccount: Option<[u8; 32]>,
        created_at: u64,
    },
    FailedErc20WithdrawalRequest {
        withdrawal_id: Nat,
        reimbursed_amount: Nat,
        to: Principal,
        to_subaccount: Option<[u8; 32]>,
    },
    MintedErc20 {
        event_source: EventSource,
        mint_block_index: Nat,
        erc20_token_symbol: String,
        erc20_contract_address: String,
    },
    QuarantinedDeposit { event_source: EventSource },
    QuarantinedReimbursement { index: ReimbursementIndex },
}

/// Memo of a ledger transaction, decoded independently from its CBOR form.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Memo {
    MintConvert { from: [u8; 20], tx: [u8; 32], log_index: num_bigint::BigUint },
    ReimburseTx { id: u64, tx: [u8; 32] },
    ReimburseWithdrawal { id: u64 },
}
pub fn decode_mint_memo(b: &[u8]) -> Option<Memo> {
    let mut d = minicbor::Decoder::new(b);
    if d.array().ok()?? != 2 {
        return None;
    }
    let k = d.u32().ok()?;
    let n = d.array().ok()??;
    let m = match (k, n) {
        (0, 3) => Memo::MintConvert {
            from: d.bytes().ok()?.try_into().ok()?,
            tx: d.bytes().ok()?.try_into().ok()?,
            log_index: {
                use minicbor::data::{Tag, Type};
                match d.datatype().ok()? {
                    Type::Tag => {
                        if d.tag().ok()? != Tag::PosBignum {
                            return None;
                        }
                        num_bigint::BigUint::from_bytes_be(d.bytes().ok()?)
                    }
                    _ => d.u64().ok()?.into(),
                }
            },
        },
        (1, 2) => Memo::ReimburseTx { id: d.u64().ok()?, tx: d.bytes().ok()?.try_into().ok()? },
        (2, 1) => Memo::ReimburseWithdrawal { id: d.u64().ok()? },
        _ => return None,
    };
    if d.position() == b.len() {
        Some(m)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BurnMemo {
    Convert { to: [u8; 20] },
    GasFee { symbol: String, amount: num_bigint::BigUint, to: [u8; 20] },
    Erc20Convert { id: u64, to: [u8; 20] },
}
pub fn cbor_big(d: &mut minicbor::Decoder) -> Option<num_bigint::BigUint> {
    use minicbor::data::{Tag, Type};
    match d.datatype().ok()? {
        Type::Tag => {
            if d.tag().ok()? != Tag::PosBignum {
                return None;
            }
            Some(num_bigint::BigUint::from_bytes_be(d.bytes().ok()?))
        }
        _ => Some(d.u64().ok()?.into()),
    }
}
pub fn decode_burn_memo(b: &[u8]) -> Option<BurnMemo> {
    let mut d = minicbor::Decoder::new(b);
    if d.array().ok()?? != 2 {
        return None;
    }
    let k = d.u32().ok()?;
    let n = d.array().ok()??;
    let m = match (k, n) {
        (0, 1) => BurnMemo::Convert { to: d.bytes().ok()?.try_into().ok()? },
        (1, 3) => BurnMemo::GasFee { symbol: d.str().ok()?.to_string(), amount: cbor_big(&mut d)?, to: d.bytes().ok()?.try_into().ok()? },
        (2, 2) => BurnMemo::Erc20Convert { id: d.u64().ok()?, to: d.bytes().ok()?.try_into().ok()? },
        _ => return None,
    };
    if d.position() == b.len() {
        Some(m)
    } else {
        None
    }
}
