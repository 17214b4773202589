//! Independent Ethereum primitives: keccak, strict RLP, EIP-1559 decoding and sender recovery, EIP-55.
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use num_bigint::BigUint;
use sha3::{Digest, Keccak256};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
pub fn checksum_address(a: &[u8; 20]) -> String {
    let lower = hex::encode(a);
    let h = keccak(lower.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in lower.chars().enumerate() {
        let nib = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
        s.push(if nib >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
pub fn address_of(k: &VerifyingKey) -> [u8; 20] {
    let p = k.to_encoded_point(false);
    keccak(&p.as_bytes()[1..])[12..].try_into().unwrap()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Rlp {
    Str(Vec<u8>),
    List(Vec<Rlp>),
}
fn rlp_item(b: &[u8]) -> Result<(Rlp, usize), String> {
    let f = *b.first().ok_or("empty rlp")?;
    let long = |off: u8| -> Result<(usize, usize), String> {
        let n = (f - off) as usize;
        let lb = b.get(1..1 + n).ok_or("short length")?;
        if lb[0] == 0 {
            return Err("length with leading zero".into());
        }
        let len = lb.iter().fold(0usize, |a, x| (a << 8) | *x as usize);
        if len < 56 {
            return Err("long form for a short item".into());
        }
        Ok((1 + n, len))
    };
    match f {
        0..=0x7f => Ok((Rlp::Str(vec![f]), 1)),
        0x80..=0xbf => {
            let (h, len) = if f <= 0xb7 { (1, (f - 0x80) as usize) } else { long(0xb7)? };
            let s = b.get(h..h + len).ok_or("short string")?;
            if len == 1 && s[0] < 0x80 {
                return Err("single byte encoded as a string".into());
            }
            Ok((Rlp::Str(s.to_vec()), h + len))
        }
        _ => {
            let (h, len) = if f <= 0xf7 { (1, (f - 0xc0) as usize) } else { long(0xf7)? };
            let mut s = b.get(h..h + len).ok_or("short list")?;
            let mut v = vec![];
            while !s.is_empty() {
                let (i, n) = rlp_item(s)?;
                v.push(i);
                s = &s[n..];
            }
            Ok((Rlp::List(v), h + len))
        }
    }
}
pub fn rlp_decode(b: &[u8]) -> Result<Rlp, String> {
    let (i, n) = rlp_item(b)?;
    if n != b.len() {
        return Err("trailing bytes".into());
    }
    Ok(i)
}
pub fn rlp_encode(r: &Rlp) -> Vec<u8> {
    fn head(base: u8, len: usize) -> Vec<u8> {
        if len < 56 {
            vec![base + len as u8]
        } else {
            let lb: Vec<u8> = len.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
            let mut v = vec![base + 55 + lb.len() as u8];
            v.extend(lb);
            v
        }
    }
    match r {
        Rlp::Str(s) if s.len() == 1 && s[0] < 0x80 => s.clone(),
        Rlp::Str(s) => {
            let mut v = head(0x80, s.len());
            v.extend(s);
            v
        }
        Rlp::List(l) => {
            let body: Vec<u8> = l.iter().flat_map(rlp_encode).collect();
            let mut v = head(0xc0, body.len());
            v.extend(body);
            v
        }
    }
}
pub fn int(b: &BigUint) -> Rlp {
    if *b == BigUint::from(0u8) {
        Rlp::Str(vec![])
    } else {
        Rlp::Str(b.to_bytes_be())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Tx {
    pub chain_id: BigUint,
    pub nonce: BigUint,
    pub prio: BigUint,
    pub max_fee: BigUint,
    pub gas: BigUint,
    pub to: [u8; 20],
    pub value: BigUint,
    pub data: Vec<u8>,
    pub access_list_empty: bool,
    pub odd: bool,
    pub r: BigUint,
    pub s: BigUint,
    pub hash: [u8; 32],
    pub sighash: [u8; 32],
    pub sender: Option<[u8; 20]>,
    pub low_s: bool,
}
impl Tx {
    pub fn max_cost(&self) -> BigUint {
        &self.gas * &self.max_fee
    }
}
pub fn unsigned_sighash(
    chain_id: &BigUint,
    nonce: &BigUint,
    prio: &BigUint,
    max_fee: &BigUint,
    gas: &BigUint,
    to: &[u8; 20],
    value: &BigUint,
    data: &[u8],
) -> [u8; 32] {
    let l = Rlp::List(vec![
        int(chain_id),
        int(nonce),
        int(prio),
        int(max_fee),
        int(gas),
        Rlp::Str(to.to_vec()),
        int(value),
        Rlp::Str(data.to_vec()),
        Rlp::List(vec![]),
    ]);
    let mut b = vec![2u8];
    b.extend(rlp_encode(&l));
    keccak(&b)
}
/// Decodes a raw EIP-1559 transaction strictly: any non-canonical encoding is an error.
pub fn decode_tx(raw: &[u8]) -> Result<Tx, String> {
    if raw.first() != Some(&2) {
        return Err("not an EIP-1559 transaction".into());
    }
    let l = match rlp_decode(&raw[1..])? {
        Rlp::List(l) if l.len() == 12 => l,
        _ => return Err("expected a list of 12 fields".into()),
    };
    let num = |i: usize| -> Result<BigUint, String> {
        match &l[i] {
            Rlp::Str(s) if s.len() > 32 => Err(format!("field {i} is longer than 32 bytes")),
            Rlp::Str(s) if s.first() == Some(&0) => Err(format!("field {i} has a leading zero")),
            Rlp::Str(s) => Ok(BigUint::from_bytes_be(s)),
            _ => Err(format!("field {i} is not a number")),
        }
    };
    let to: [u8; 20] = match &l[5] {
        Rlp::Str(s) => s.as_slice().try_into().map_err(|_| "bad destination length")?,
        _ => return Err("bad destination".into()),
    };
    let data = match &l[7] {
        Rlp::Str(s) => s.clone(),
        _ => return Err("bad data".into()),
    };
    let access_list_empty = l[8] == Rlp::List(vec![]);
    let yp = num(9)?;
    let odd = if yp == BigUint::from(0u8) {
        false
    } else if yp == BigUint::from(1u8) {
        true
    } else {
        return Err("bad parity".into());
    };
    let (r, s) = (num(10)?, num(11)?);
    let mut b = vec![2u8];
    b.extend(rlp_encode(&Rlp::List(l[..9].to_vec())));
    let sighash = keccak(&b);
    let mut sig = [0u8; 64];
    let (rb, sb) = (r.to_bytes_be(), s.to_bytes_be());
    sig[32 - rb.len()..32].copy_from_slice(&rb);
    sig[64 - sb.len()..].copy_from_slice(&sb);
    let mut low_s = false;
    let sender = Signature::from_slice(&sig).ok().and_then(|sg| {
        low_s = sg.normalize_s().is_none();
        VerifyingKey::recover_from_prehash(&sighash, &sg, RecoveryId::new(odd, false))
            .ok()
            .map(|k| address_of(&k))
    });
    Ok(Tx {
        chain_id: num(0)?,
        nonce: num(1)?,
        prio: num(2)?,
        max_fee: num(3)?,
        gas: num(4)?,
        to,
        value: num(6)?,
        data,
        access_list_empty,
        odd,
        r,
        s,
        hash: keccak(raw),
        sighash,
        sender,
        low_s,
    })
}
pub fn signing_key() -> SigningKey {
    static K: std::sync::OnceLock<SigningKey> = std::sync::OnceLock::new();
    K.get_or_init(|| SigningKey::from_slice(&[0x42; 32]).unwrap()).clone()
}
/// The single-argument transfer call of an ERC-20 contract.
pub fn erc20_transfer_data(to: &[u8; 20], amount: &BigUint) -> Vec<u8> {
    let mut d = vec![0xa9, 0x05, 0x9c, 0xbb];
    d.extend([0u8; 12]);
    d.extend(to);
    let b = amount.to_bytes_be();
    let mut w = [0u8; 32];
    w[32 - b.len()..].copy_from_slice(&b);
    d.extend(w);
    d
}
