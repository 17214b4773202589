#![allow(unused_imports)]
use crate::*;
use crate::amounts::*;
use evm_minter::checked_amount::CheckedAmountOf;
use evm_minter::numeric::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::BTreeMap;
pub fn c02(deep: bool) -> Out {
    let mut c = Cov::default();
    let g = grid(if deep { 1 } else { 2 });
    let max = (BigUint::one() << 256usize) - BigUint::one();
    let opt = |b: BigUint| if b <= max { Some(b) } else { None };
    for x in &g {
        let a = amt(x).unwrap();
        c.states += 1;
        ensure!(big(&a) == *x, "bytes of {x} do not round-trip");
        let one = BigUint::one();
        let dec = if x.is_zero() { None } else { Some(x - &one) };
        ensure!(a.checked_increment().map(|v| big(&v)) == opt(x + &one), "{x} + 1");
        ensure!(a.checked_decrement().map(|v| big(&v)) == dec, "{x} - 1");
        ensure!(big(&a.div_by_two()) == x >> 1usize, "{x} / 2");
        ensure!(a.to_string_inner() == x.to_string(), "{x} is written {}", a.to_string_inner());
        let plain = |s: String| s.replace('_', "");
        ensure!(plain(a.to_string()) == x.to_string() && plain(format!("{a:?}")) == x.to_string(), "{x} is written {a} / {a:?}");
        ensure!(format!("{a:x}") == format!("{x:x}") && format!("{a:X}") == format!("{x:X}"), "{x} in hex is {a:x}");
        ensure!(Amt::from_str_hex(&format!("0x{x:x}")).ok().map(|v| big(&v)) == Some(x.clone()), "hex of {x} does not parse back");
        let n: candid::Nat = a.into();
        ensure!(n.0 == *x, "{x} becomes the ledger number {n}");
        ensure!(Amt::try_from(n).ok() == Some(a), "the ledger number {x} does not convert back");
        let n: evm_rpc_types::Nat256 = a.into();
        ensure!(n.as_ref().0 == *x, "{x} becomes the RPC number {:?}", n);
        ensure!(Amt::from(n) == a, "the RPC number {x} does not convert back");
        let e = minicbor::to_vec(a).map_err(|e| e.to_string())?;
        let d: Amt = minicbor::decode(&e).map_err(|e| format!("stored {x} does not decode: {e}"))?;
        ensure!(d == a, "stored {x} decodes to {d}");
        let j = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        let d: Amt = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?;
        ensure!(d == a, "JSON {j} decodes to {d}");
        let r = rlp::encode(&a).to_vec();
        let body = if x.is_zero() { vec![] } else { x.to_bytes_be() };
        let want = if body.len() == 1 && body[0] < 0x80 { body.clone() } else { [vec![0x80 + body.len() as u8], body].concat() };
        ensure!(r == want, "RLP of {x} is {}", hex::encode(r));
        if let Ok(s) = u128::try_from(x.clone()) {
            ensure!(Amt::new(s) == a && Amt::from(s) == a && Amt::from_words(0, s) == a, "construction of {x}");
            if let Ok(s) = u64::try_from(s) {
                ensure!(Amt::from(s) == a, "construction of {x} from u64");
            }
        }
        let (hi, lo) = (x >> 128usize, x & ((BigUint::one() << 128usize) - BigUint::one()));
        ensure!(Amt::from_words(u128::try_from(hi).unwrap(), u128::try_from(lo).unwrap()) == a, "{x} from words");
        ensure!(big(&a.change_units::<()>().change_units::<Tag>()) == *x, "unit change of {x}");
    }
    for k in [256usize, 257, 300, 512] {
        for d in 0..2u32 {
            let x = (BigUint::one() << k) + BigUint::from(d);
            ensure!(Amt::try_from(candid::Nat(x.clone())).is_err(), "{x} is accepted as an amount");
        }
    }
    for x in &g {
        for y in &g {
            let (a, b) = (amt(x).unwrap(), amt(y).unwrap());
            let bi = b.into_inner();
            c.transitions += 1;
            ensure!(a.checked_add(b).map(|v| big(&v)) == opt(x + y), "{x} + {y}");
            ensure!(a.checked_sub(b).map(|v| big(&v)) == if x >= y { Some(x - y) } else { None }, "{x} - {y}");
            ensure!(a.checked_mul(bi).map(|v| big(&v)) == opt(x * y), "{x} * {y}");
            let (fl, ce) = if y.is_zero() { (None, None) } else { (Some(x / y), Some((x + y - BigUint::one()) / y)) };
            ensure!(a.checked_div_floor(bi).map(|v| big(&v)) == fl, "{x} / {y} rounded down");
            ensure!(a.checked_div_ceil(bi).map(|v| big(&v)) == ce, "{x} / {y} rounded up");
            ensure!((a == b) == (x == y) && a.cmp(&b) == x.cmp(y) && a.partial_cmp(&b) == x.partial_cmp(y), "comparison of {x} and {y}");
            let cost = WeiPerGas::from_be_bytes(a.to_be_bytes()).transaction_cost(GasAmount::from_be_bytes(b.to_be_bytes()));
            ensure!(cost.map(|v| big(&v.change_units())) == opt(x * y), "cost of {y} gas at {x}");
            let per = Wei::from_be_bytes(a.to_be_bytes()).into_wei_per_gas(GasAmount::from_be_bytes(b.to_be_bytes()));
            ensure!(per.map(|v| big(&v.change_units())) == if y.is_zero() { None } else { Some(x / y) }, "price of {x} over {y} gas");
        }
    }
    c.bounds = format!("all pairs of {} boundary values (powers of two and ten and their neighbours, small numbers, fractions of the maximum)", g.len());
    c.samples.push(format!("{} .. {}", g[0], g[g.len() - 1]));
    Ok(c)
}
