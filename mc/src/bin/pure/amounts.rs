#![allow(unused_imports)]
use std::collections::BTreeSet;
use super::*;
use evm_minter::checked_amount::CheckedAmountOf;
use num_bigint::BigUint;
use num_traits::{One, Zero};
pub enum Tag {}
pub type Amt = CheckedAmountOf<Tag>;
// ---------------------------------------------------------------- C02
pub fn big(a: &Amt) -> BigUint {
    BigUint::from_bytes_be(&a.to_be_bytes())
}
pub fn amt(b: &BigUint) -> Option<Amt> {
    let v = b.to_bytes_be();
    if v.len() > 32 {
        return None;
    }
    let mut x = [0u8; 32];
    x[32 - v.len()..].copy_from_slice(&v);
    Some(Amt::from_be_bytes(x))
}
pub fn grid(step: usize) -> Vec<BigUint> {
    let mut v = BTreeSet::new();
    for i in 0u32..20 {
        v.insert(BigUint::from(i));
    }
    let max = (BigUint::one() << 256usize) - BigUint::one();
    for k in (0..=256usize).step_by(step).chain([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]) {
        let p = BigUint::one() << k;
        for d in 0..3u32 {
            v.insert(&p + BigUint::from(d));
            if p >= BigUint::from(d) {
                v.insert(&p - BigUint::from(d));
            }
        }
    }
    for e in 0..78u32 {
        v.insert(BigUint::from(10u32).pow(e));
        v.insert(BigUint::from(10u32).pow(e) * BigUint::from(3u32));
    }
    let third = &max / BigUint::from(3u32);
    v.insert(third.clone());
    v.insert(&third + BigUint::one());
    v.insert(&max / BigUint::from(7u32));
    v.into_iter().filter(|x| *x <= max).collect()
}
