#![allow(unused_imports)]
use std::collections::BTreeSet;
use crate::*;
use crate::amounts::*;
use evm_minter::deposit_logs::{ReceivedDepositEvent, ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::erc20::ERC20TokenSymbol;
use evm_minter::eth_types::Address;
use evm_minter::memo::{BurnMemo, MintMemo};
use evm_minter::numeric::{BlockNumber, Erc20Value, LedgerBurnIndex, LogIndex, Wei};
use evm_minter::rpc_declrations::Hash;
use evm_minter::state::transactions::ReimbursementRequest;
use icrc_ledger_types::icrc1::transfer::Memo;
use std::collections::BTreeMap;
// ---------------------------------------------------------------- C06
pub fn c06(deep: bool) -> Out {
    let mut c = Cov::default();
    let g = grid(if deep { 2 } else { 8 });
    let addrs: Vec<Address> = [[0u8; 20], [1; 20], [0xff; 20], [0x18; 20]].into_iter().chain((0..20).map(|i| { let mut b = [0u8; 20]; b[i] = 0x80; b })).map(Address::new).collect();
    let hashes: Vec<Hash> = [[0u8; 32], [1; 32], [0xff; 32]].into_iter().chain((0..32).map(|i| { let mut b = [0u8; 32]; b[i] = 0x42; b })).map(Hash).collect();
    let ids: Vec<u64> = (0..64).map(|k| 1u64 << k).chain((0..64).map(|k| (1u64 << k) - 1)).chain([0, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, u64::MAX]).collect::<BTreeSet<_>>().into_iter().collect();
    let mut mint: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut add = |set: &mut BTreeMap<Vec<u8>, String>, bytes: Vec<u8>, what: String| -> Result<(), String> {
        c.states += 1;
        ensure!(bytes.len() <= 80, "the memo of {what} has {} bytes", bytes.len());
        if let Some(o) = set.insert(bytes, what.clone()) {
            ensure!(o == what, "{o} and {what} have the same memo");
        }
        Ok(())
    };
    let chk_mint = |m: MintMemo| -> Result<(Vec<u8>, String), String> {
        let what = format!("{m:?}");
        let b: Vec<u8> = Memo::from(clone_mint(&m)).0.to_vec();
        let d: MintMemo = minicbor::decode(&b).map_err(|e| format!("the memo of {what} does not decode: {e}"))?;
        ensure!(d == m, "the memo of {what} decodes to {d:?}");
        Ok((b, what))
    };
    for a in &addrs {
        for h in &hashes {
            for i in &g {
                let (b, w) = chk_mint(MintMemo::Convert { from_address: *a, tx_hash: *h, log_index: amt(i).unwrap().change_units::<evm_minter::numeric::EthLogIndexTag>() })?;
                // Only realistic log indices need fit beside an address and a hash.
                if i.bits() <= 64 || b.len() <= 80 {
                    add(&mut mint, b, w)?;
                }
            }
        }
    }
    for i in &ids {
        for h in &hashes {
            let (b, w) = chk_mint(MintMemo::ReimburseTransaction { withdrawal_id: *i, tx_hash: *h })?;
            add(&mut mint, b, w)?;
        }
        let (b, w) = chk_mint(MintMemo::ReimburseWithdrawal { withdrawal_id: *i })?;
        add(&mut mint, b, w)?;
    }
    // what a reimbursement or a deposit is described by
    let mut described = 0u64;
    for i in &ids {
        for h in hashes.iter().map(|h| Some(*h)).chain([None]) {
            let r = ReimbursementRequest {
                ledger_burn_index: LedgerBurnIndex::new(*i),
                reimbursed_amount: Erc20Value::from(*i).change_units(),
                to: candid::Principal::anonymous(),
                to_subaccount: None,
                transaction_hash: h,
            };
            let want = match h {
                Some(tx_hash) => MintMemo::ReimburseTransaction { withdrawal_id: *i, tx_hash },
                None => MintMemo::ReimburseWithdrawal { withdrawal_id: *i },
            };
            let (a, b) = (Memo::from(r.clone()), Memo::from(MintMemo::from(r)));
            ensure!(a.0 == chk_mint(clone_mint(&want))?.0 && b == a, "the reimbursement of burn {i} and transaction {h:?} has memo {}, expected {want:?}", hex::encode(&a.0));
            described += 1;
        }
    }
    for i in &ids {
        for h in &hashes {
            for a in &addrs {
                let log_index = LogIndex::from(*i);
                let n = ReceivedNativeEvent {
                    transaction_hash: *h,
                    block_number: BlockNumber::from(7_u8),
                    log_index,
                    from_address: *a,
                    value: Wei::from(5_u8),
                    principal: candid::Principal::anonymous(),
                    subaccount: None,
                };
                let e = ReceivedErc20Event {
                    transaction_hash: *h,
                    block_number: BlockNumber::from(7_u8),
                    log_index,
                    from_address: *a,
                    value: Erc20Value::from(5_u8),
                    principal: candid::Principal::anonymous(),
                    erc20_contract_address: Address::new([9; 20]),
                    subaccount: None,
                };
                let want = chk_mint(MintMemo::Convert { from_address: *a, tx_hash: *h, log_index })?.0;
                for d in [ReceivedDepositEvent::from(n), ReceivedDepositEvent::from(e)] {
                    let m = Memo::from(&d);
                    ensure!(m.0 == want, "the deposit {d:?} has memo {}", hex::encode(&m.0));
                    described += 1;
                }
            }
        }
    }
    let mut burn: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let chk_burn = |m: BurnMemo| -> Result<(Vec<u8>, String), String> {
        let what = format!("{m:?}");
        let b: Vec<u8> = Memo::from(m.clone()).0.to_vec();
        let d: BurnMemo = minicbor::decode(&b).map_err(|e| format!("the memo of {what} does not decode: {e}"))?;
        ensure!(d == m, "the memo of {what} decodes to {d:?}");
        Ok((b, what))
    };
    let syms: Vec<ERC20TokenSymbol> = (0..=20).map(|n| "ckSepoliaUSDCxyzABCD"[..n].to_string()).chain(["icUSDC".into(), "A".repeat(20)]).map(|s| s.parse::<ERC20TokenSymbol>()).collect::<Result<_, _>>()?;
    for n in 21..30 {
        ensure!("A".repeat(n).parse::<ERC20TokenSymbol>().is_err(), "a token symbol of {n} characters is accepted");
    }
    ensure!("ickÉ".parse::<ERC20TokenSymbol>().is_err(), "a token symbol that is not ASCII is accepted");
    for a in &addrs {
        let (b, w) = chk_burn(BurnMemo::Convert { to_address: *a })?;
        add(&mut burn, b, w)?;
        for i in &ids {
            let (b, w) = chk_burn(BurnMemo::Erc20Convert { erc20_withdrawal_id: *i, to_address: *a })?;
            add(&mut burn, b, w)?;
        }
        for s in &syms {
            for x in &g {
                let v: Erc20Value = amt(x).unwrap().change_units();
                let (b, w) = chk_burn(BurnMemo::Erc20GasFee { erc20_token_symbol: s.clone(), erc20_withdrawal_amount: v, to_address: *a })?;
                add(&mut burn, b, w)?;
            }
        }
    }
    let _ = LogIndex::ZERO;
    c.states += described;
    c.transitions = c.states * 2;
    c.bounds = "all combinations of boundary addresses, hashes, block indices, amounts and token symbols of 0 to 20 characters".into();
    c.samples.push(format!("longest burn memo: {} bytes", burn.keys().map(|k| k.len()).max().unwrap_or(0)));
    Ok(c)
}
pub fn clone_mint(m: &MintMemo) -> MintMemo {
    match m {
        MintMemo::Convert { from_address, tx_hash, log_index } => MintMemo::Convert { from_address: *from_address, tx_hash: tx_hash.clone(), log_index: *log_index },
        MintMemo::ReimburseTransaction { withdrawal_id, tx_hash } => MintMemo::ReimburseTransaction { withdrawal_id: *withdrawal_id, tx_hash: tx_hash.clone() },
        MintMemo::ReimburseWithdrawal { withdrawal_id } => MintMemo::ReimburseWithdrawal { withdrawal_id: *withdrawal_id },
    }
}
