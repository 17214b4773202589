#![allow(unused_imports)]
use crate::*;
use crate::amounts::*;
use evm_minter::numeric::{BlockNumber, BlockRangeInclusive};
use num_bigint::BigUint;
use num_traits::{One, Zero};
// ---------------------------------------------------------------- C04
pub fn c04(deep: bool) -> Out {
    let mut c = Cov::default();
    let n: u64 = if deep { 160 } else { 100 };
    let max = (BigUint::one() << 256usize) - BigUint::one();
    let offs = [BigUint::zero(), BigUint::one(), BigUint::from(u64::MAX - 3), (BigUint::one() << 128usize) - BigUint::from(2u32), &max - BigUint::from(n)];
    let bn = |b: &BigUint| -> BlockNumber { amt(b).unwrap().change_units() };
    let rg = |r: BlockRangeInclusive| -> (BigUint, BigUint) {
        let (s, e) = r.into_inner();
        (big(&s.change_units()), big(&e.change_units()))
    };
    let one = BigUint::one();
    for off in &offs {
        for len in 0..=n {
            // len = 0: empty range (start after end)
            let (s, e) = if len == 0 { (off + &one, off.clone()) } else { (off.clone(), off + BigUint::from(len - 1)) };
            let range = BlockRangeInclusive::new(bn(&s), bn(&e));
            c.states += 1;
            let halves = catch(|| range.clone().partition_into_halves()).map_err(|m| format!("halving {s}..={e}: {m}"))?;
            if len > 0 {
                let (l, r) = (halves.0.map(rg), halves.1.map(rg));
                let parts: Vec<_> = l.iter().chain(r.iter()).cloned().collect();
                exact(&parts, &s, &e).map_err(|m| format!("halving {s}..={e}: {m}"))?;
                if len > 1 {
                    ensure!(parts.len() == 2, "{s}..={e} is not halved");
                    let z: Vec<BigUint> = parts.iter().map(|p| &p.1 - &p.0).collect();
                    ensure!(z[0] >= z[1] && &z[0] - &z[1] <= one, "{s}..={e} is halved unevenly: {parts:?}");
                } else {
                    ensure!(parts.len() == 1 && r.is_none(), "a single block is split: {parts:?}");
                }
                for m in 0..=len + 1 {
                    let mid = off + BigUint::from(m);
                    if mid > max {
                        continue;
                    }
                    c.transitions += 1;
                    let (a, b) = range.clone().partition_at_checked(bn(&mid));
                    let (a, b) = (a.map(rg), b.map(rg));
                    let want = if mid <= s { (None, Some((s.clone(), e.clone()))) } else if mid > e { (Some((s.clone(), e.clone())), None) } else { (Some((s.clone(), &mid - &one)), Some((mid.clone(), e.clone()))) };
                    ensure!((a.clone(), b.clone()) == want, "{s}..={e} split at {mid} gives {a:?} {b:?}");
                }
            }
            for k in (1..=n as u16 + 2).chain([500, 999, 1000, u16::MAX]) {
                c.transitions += 1;
                let ch = catch(|| range.clone().into_chunks(k).take(n as usize + 5).map(rg).collect::<Vec<_>>()).map_err(|m| format!("chunks of {k} of {s}..={e}: {m}"))?;
                if len == 0 {
                    ensure!(ch.is_empty(), "the empty range {s}..={e} has chunks {ch:?}");
                } else {
                    exact(&ch, &s, &e).map_err(|m| format!("chunks of {k} of {s}..={e}: {m}"))?;
                    for (i, p) in ch.iter().enumerate() {
                        let z = &p.1 - &p.0 + &one;
                        ensure!(z <= BigUint::from(k), "chunk {p:?} of {s}..={e} is longer than {k}");
                        let clipped = &p.0 + BigUint::from(k) > max;
                        ensure!(i + 1 == ch.len() || clipped || z == BigUint::from(k), "chunk {p:?} of {s}..={e} is shorter than {k}");
                    }
                }
            }
        }
    }
    // Joining spans both.
    for a in 0..12u32 {
        for b in a..12 {
            for x in 0..12u32 {
                for y in x..12 {
                    let j = BlockRangeInclusive::from(a..=b).join_with(BlockRangeInclusive::from(x..=y));
                    c.transitions += 1;
                    ensure!(rg(j) == (BigUint::from(a.min(x)), BigUint::from(b.max(y))), "joining {a}..={b} and {x}..={y}");
                }
            }
        }
    }
    c.bounds = format!("all ranges of up to {n} blocks at five offsets including both ends of the number space, all split points, all chunk sizes up to {}", n + 2);
    c.samples.push(format!("{:?}", BlockRangeInclusive::from(1..=7u32).into_chunks(3).collect::<Vec<_>>()));
    Ok(c)
}
pub fn exact(parts: &[(BigUint, BigUint)], s: &BigUint, e: &BigUint) -> Result<(), String> {
    ensure!(!parts.is_empty(), "nothing is left");
    ensure!(parts[0].0 == *s && parts[parts.len() - 1].1 == *e, "{parts:?} has other ends");
    for p in parts {
        ensure!(p.0 <= p.1, "empty part {p:?}");
    }
    for w in parts.windows(2) {
        ensure!(&w[0].1 + BigUint::one() == w[1].0, "{:?} and {:?} are not adjacent", w[0], w[1]);
    }
    Ok(())
}
