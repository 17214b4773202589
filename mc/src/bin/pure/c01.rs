#![allow(unused_imports)]
use crate::*;
use evm_minter::eth_types::Address;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
pub fn addr_oracle(s: &str) -> Option<[u8; 20]> {
    let b = s.as_bytes();
    if b.len() != 42 || &b[..2] != b"0x" || !b[2..].iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    hex::decode(&s[2..]).ok()?.try_into().ok()
}
// ---------------------------------------------------------------- C01
pub fn c01(deep: bool) -> Out {
    let mut c = Cov::default();
    let judge = |s: &str, c: &mut Cov| -> Result<(), String> {
        c.transitions += 1;
        let want = addr_oracle(s);
        let got = catch(|| Address::from_str(s).ok().map(|a| a.into_bytes())).map_err(|e| format!("parsing {s:?}: {e}"))?;
        ensure!(got == want, "{s:?} parses to {got:?}, expected {want:?}");
        let dest = catch(|| evm_minter::address::validate_address_as_destination(s).ok().map(|a| a.into_bytes())).map_err(|e| format!("validating {s:?}: {e}"))?;
        let wantd = want.filter(|b| *b != [0; 20]);
        ensure!(dest == wantd, "destination {s:?} gives {dest:?}, expected {wantd:?}");
        Ok(())
    };
    let mut bases: Vec<[u8; 20]> = vec![[0; 20], [0xff; 20], [0x80; 20], [1; 20]];
    for i in 0..20 {
        let mut b = [0u8; 20];
        b[i] = 1;
        bases.push(b);
        b[i] = 0xa0;
        bases.push(b);
    }
    for i in 0..if deep { 400u32 } else { 60 } {
        bases.push(keccak(&i.to_be_bytes())[..20].try_into().unwrap());
    }
    // EIP-55 test vectors.
    for v in ["0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed", "0xfB6916095ca1df60bB79Ce92cE3Ea74c37c5d359", "0xdbF03B407c01E7cD3CBea99509d93f8DDDC8C6FB", "0xD1220A0cf47c7B9Be7A2E6BA89F429762e7b9aDb"] {
        let b = addr_oracle(v).unwrap();
        ensure!(Address::new(b).to_string() == v, "{v} is printed as {}", Address::new(b));
        bases.push(b);
    }
    let mut seen = BTreeSet::new();
    for b in &bases {
        for i in 0..20 {
            for v in if deep { (0..=255u8).collect::<Vec<_>>() } else { vec![0, 1, 9, 0x0a, 0x0f, 0x10, 0x7f, 0x80, 0x9f, 0xa0, 0xab, 0xff] } {
                let mut a = *b;
                a[i] = v;
                if !seen.insert(a) {
                    continue;
                }
                let x = Address::new(a);
                let s = x.to_string();
                ensure!(s == eip55(&a), "{} is printed as {s}, expected {}", hex::encode(a), eip55(&a));
                ensure!(Address::from_str(&s) == Ok(x), "{s} does not parse back");
                let lo = format!("{x:x}");
                let up = format!("{x:X}");
                ensure!(lo == format!("0x{}", hex::encode(a)) && up == format!("0x{}", hex::encode_upper(a)), "hex forms {lo} {up}");
                judge(&lo, &mut c)?;
                judge(&up, &mut c)?;
                judge(&s, &mut c)?;
                ensure!(x.is_native_token() == (a == [0; 20]), "{s} native token {}", x.is_native_token());
                let w: [u8; 32] = (&x).into();
                ensure!(w[..12] == [0; 12] && w[12..] == a, "32-byte form of {s} is {}", hex::encode(w));
                ensure!(Address::try_from(&w) == Ok(x), "32-byte form of {s} does not decode");
                for j in 0..12 {
                    let mut w = w;
                    w[j] = 1;
                    ensure!(Address::try_from(&w).is_err(), "32-byte word {} is taken for an address", hex::encode(w));
                }
                c.states += 1;
            }
        }
    }
    for b in bases.iter().take(if deep { 60 } else { 12 }) {
        let s = eip55(b);
        for pos in 0..42 {
            for ch in (0..128u8).map(|x| x as char).chain(['\u{e9}', '\u{ff10}', '\u{1f600}']) {
                let mut v: Vec<char> = s.chars().collect();
                v[pos] = ch;
                judge(&v.iter().collect::<String>(), &mut c)?;
            }
            // insertions and deletions
            for ch in ['0', 'f', 'F', 'g', ' ', 'x', '\n', '\u{e9}'] {
                let mut v: Vec<char> = s.chars().collect();
                v.insert(pos, ch);
                judge(&v.iter().collect::<String>(), &mut c)?;
            }
            let mut v: Vec<char> = s.chars().collect();
            v.remove(pos);
            judge(&v.iter().collect::<String>(), &mut c)?;
        }
        for n in 0..=42 {
            judge(&s[..n], &mut c)?;
        }
        for x in ["0X", "00", "x0", "", " 0x", "0x0x", "+0x", "0x ", "\\x"] {
            judge(&format!("{x}{}", &s[2..]), &mut c)?;
        }
        for x in ["0", "00", " ", "\n", "\0", "0x"] {
            judge(&format!("{s}{x}"), &mut c)?;
        }
    }
    // From public keys.
    for i in 1..if deep { 300u64 } else { 60 } {
        let sk = k256::SecretKey::from_slice(&keccak(&i.to_be_bytes())).unwrap();
        use k256::elliptic_curve::sec1::ToEncodedPoint;
        let p = sk.public_key().to_encoded_point(false);
        let want = &keccak(&p.as_bytes()[1..])[12..];
        let pk = ic_crypto_secp256k1::PublicKey::deserialize_sec1(sk.public_key().to_encoded_point(true).as_bytes()).map_err(|_| "bad key")?;
        let a = evm_minter::address::ecdsa_public_key_to_address(&pk);
        ensure!(a.as_ref() == want, "address of key {i} is {a}, expected 0x{}", hex::encode(want));
        c.transitions += 1;
    }
    c.bounds = "all single-byte variations of the base addresses, all single-character substitutions, insertions, deletions and truncations of their texts".into();
    c.samples.push(eip55(&bases[50]));
    Ok(c)
}
