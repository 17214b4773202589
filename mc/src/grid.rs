//! The grids of installation and upgrade arguments.
use crate::api::*;
use crate::evm;
use crate::scen::*;
use crate::sim::*;
use crate::world::*;
use candid::{Nat, Principal};

type Set<T> = (usize, String, Box<dyn Fn(&mut T)>);
fn max() -> Nat {
    Nat((Big::from(1u8) << 256u32) - 1u8)
}
fn over() -> Nat {
    Nat(Big::from(1u8) << 256u32)
}
fn n(x: u128) -> Nat {
    Nat::from(x)
}
const FEE: u128 = 10_000_000_000_000;
fn addrs() -> Vec<String> {
    let a = {
        let mut a = [0xab; 20];
        a[19] = 0x1c;
        a
    };
    let low = hex_addr(&a);
    vec![
        evm::checksum_address(&a),
        low.clone(),
        hex_addr(&[0; 20]),
        low[..41].to_string(),
        format!("{low}0"),
        low[2..].to_string(),
        format!("{}g", &low[..41]),
        format!("0X{}", &low[2..]),
        String::new(),
        "0x".into(),
        format!("{low} "),
        hex_addr(&{
            let mut z = [0; 20];
            z[19] = 1;
            z
        }),
    ]
}
fn init_values() -> Vec<Set<InitArg>> {
    let mut v: Vec<Set<InitArg>> = vec![];
    macro_rules! add {
        ($f:expr, $field:ident, $vals:expr) => {
            for x in $vals {
                v.push(($f, format!("{} = {x:?}", stringify!($field)), Box::new(move |a: &mut InitArg| a.$field = x.clone())));
            }
        };
    }
    add!(0, ecdsa_key_name, ["", " ", "\t\n ", "dfx_test_key", " k"].map(String::from));
    add!(1, helper_contract_address, addrs().into_iter().map(Some).chain([None]));
    add!(2, native_ledger_id, [Principal::anonymous(), pid(77)]);
    add!(3, native_minimum_withdrawal_amount, [n(0), n(1), n(FEE - 1), n(FEE), n(FEE + 1), max(), over()]);
    add!(4, native_ledger_transfer_fee, [n(0), n(1), n(MIN_WITHDRAWAL - 1), n(MIN_WITHDRAWAL), n(MIN_WITHDRAWAL + 1), max(), over()]);
    add!(5, next_transaction_nonce, [n(1), n(u64::MAX as u128 + 1), max(), over()]);
    add!(6, last_scraped_block_number, [n(0), n(u64::MAX as u128), Nat(max().0 - 1u8), max(), over()]);
    add!(7, min_max_priority_fee_per_gas, [n(0), n(1), max(), over()]);
    add!(8, deposit_native_fee, [n(1), n(7_000_000), max(), over()]);
    add!(9, withdrawal_native_fee, [n(1), n(7_000_000), max(), over()]);
    add!(10, block_height, [Tag::Safe, Tag::Finalized]);
    add!(11, evm_network, [EvmNetwork::Ethereum, EvmNetwork::Sepolia]);
    add!(12, ledger_suite_manager_id, [pid(78)]);
    v
}
fn upgrade_values(s: &mut Sim) -> Vec<Set<UpgradeArg>> {
    let last = s.info().and_then(|i| i.last_scraped_block_number).map(|n| n.0).unwrap_or_default();
    let nonce = Big::from(s.mon.next_nonce);
    let mut v: Vec<Set<UpgradeArg>> = vec![];
    macro_rules! add {
        ($f:expr, $field:ident, $vals:expr) => {
            for x in $vals {
                v.push(($f, format!("{} = {x:?}", stringify!($field)), Box::new(move |a: &mut UpgradeArg| a.$field = Some(x.clone()))));
            }
        };
    }
    add!(0, next_transaction_nonce, [Nat(nonce.clone()), Nat(nonce + 3u8), over()]);
    add!(1, native_minimum_withdrawal_amount, [n(0), n(FEE - 1), n(FEE), n(3 * MIN_WITHDRAWAL), n(2_500_000_000_000_000_000), over()]);
    add!(2, helper_contract_address, addrs());
    add!(3, block_height, [Tag::Latest, Tag::Safe, Tag::Finalized]);
    add!(4, last_scraped_block_number, [Nat(last.clone()), Nat(last + 7u8), over()]);
    add!(5, evm_rpc_id, [pid(79), evm_rpc_id()]);
    add!(6, native_ledger_transfer_fee, [n(0), n(2 * FEE), n(MIN_WITHDRAWAL), n(MIN_WITHDRAWAL + 1), over()]);
    add!(7, min_max_priority_fee_per_gas, [n(0), n(3_500_000_000), over()]);
    add!(8, deposit_native_fee, [n(0), n(4_000_000_000_000_000), over()]);
    add!(9, withdrawal_native_fee, [n(0), n(2_000_000_000_000_000), over()]);
    v
}
/// Chooses up to `n` values of distinct fields, each set once.
fn pick<T>(s: &mut Sim, vals: &[Set<T>], n: usize, what: &str, apply: &mut dyn FnMut(&Set<T>)) {
    let mut from = 0;
    for _ in 0..n {
        let rest: Vec<&Set<T>> = vals.iter().filter(|x| x.0 >= from).collect();
        let c = s.ch.choose(Kind::Op, rest.len() + 1, || format!("{what} argument"));
        if c == 0 {
            return;
        }
        let x = rest[c - 1];
        s.note(format!("{what} with {}", x.1));
        apply(x);
        from = x.0 + 1;
    }
}
/// Varies the installation argument; says whether an upgrade argument is passed instead.
pub fn init(s: &mut Sim) -> bool {
    let vals = init_values();
    let mut a = s.sc.init.clone();
    s.ch.on = true;
    pick(s, &vals, s.sc.init_grid, "install", &mut |x| x.2(&mut a));
    s.init_as_upgrade = a == s.sc.init && s.ch.choose(Kind::Op, 2, || "install with an upgrade argument".to_string()) == 1;
    s.ch.on = false;
    s.mon = crate::mon::Mon::new(&Scenario { init: a.clone(), ..s.sc.clone() });
    s.w = World::new(a.evm_network);
    s.sc.init = a;
    s.init_as_upgrade
}
pub fn upgrade(s: &mut Sim, n: usize) -> Act {
    let vals = upgrade_values(s);
    let mut a = UpgradeArg::default();
    pick(s, &vals, n, "upgrade", &mut |x| x.2(&mut a));
    if a == UpgradeArg::default() {
        match s.ch.choose(Kind::Op, 3, || "kind of upgrade".to_string()) {
            1 => return Act::UpgradeAsInit,
            2 => return Act::Upgrade(None),
            _ => {}
        }
    }
    Act::Upgrade(Some(a))
}
