#![allow(unused_imports)]
use crate::*;
use evm_minter::map::{DedupMultiKeyMap, MultiKeyMap, OccupiedKey};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
// ---------------------------------------------------------------- C05
pub type Model = BTreeMap<u8, (u8, u8)>;
pub fn c05(deep: bool) -> Out {
    let n: u8 = 4;
    let vals: u8 = if deep { 3 } else { 2 };
    let mut c = Cov::default();
    let mut seen: BTreeSet<Vec<(u8, u8, u8)>> = BTreeSet::new();
    let mut q: VecDeque<(Model, MultiKeyMap<u8, u8, u8>, DedupMultiKeyMap<u8, u8, u8>)> = VecDeque::new();
    q.push_back((Model::new(), MultiKeyMap::new(), DedupMultiKeyMap::new()));
    fn same(m: &Model, r: &MultiKeyMap<u8, u8, u8>, n: u8) -> Result<(), String> {
        let want: Vec<(u8, u8, u8)> = m.iter().map(|(k, (a, v))| (*k, *a, *v)).collect();
        let got: Vec<(u8, u8, u8)> = r.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
        ensure!(want == got, "entries {got:?}, expected {want:?}");
        ensure!(r.is_empty() == m.is_empty(), "is_empty");
        ensure!(r.keys().copied().collect::<Vec<_>>() == m.keys().copied().collect::<Vec<_>>(), "keys");
        let mut al: Vec<u8> = m.values().map(|x| x.0).collect();
        al.sort();
        ensure!(r.alt_keys().copied().collect::<Vec<_>>() == al, "alternate keys");
        for k in 0..=n {
            let e = m.get(&k);
            ensure!(r.get(&k).copied() == e.map(|x| x.1) && r.contains(&k) == e.is_some(), "lookup of key {k}");
            ensure!(r.get_entry(&k).map(|(a, v)| (*a, *v)) == e.copied(), "entry of key {k}");
            let a = m.values().find(|x| x.0 == k);
            ensure!(r.get_alt(&k).copied() == a.map(|x| x.1) && r.contains_alt(&k) == a.is_some(), "lookup of alternate key {k}");
        }
        let again: MultiKeyMap<u8, u8, u8> = want.iter().copied().collect();
        ensure!(again == *r, "collecting the entries gives another map");
        Ok(())
    }
    fn same_dedup(m: &Model, r: &DedupMultiKeyMap<u8, u8, u8>, n: u8) -> Result<(), String> {
        let want: Vec<(u8, u8, u8)> = m.iter().map(|(k, (a, v))| (*k, *a, *v)).collect();
        ensure!(r.iter().map(|(k, a, v)| (*k, *a, *v)).collect::<Vec<_>>() == want, "entries of the deduplicating map");
        let mut al: Vec<u8> = m.values().map(|x| x.0).collect();
        al.sort();
        ensure!(r.alt_keys().copied().collect::<Vec<_>>() == al, "alternate keys of the deduplicating map");
        for k in 0..=n {
            let e = m.get(&k);
            ensure!(r.get(&k).copied() == e.map(|x| x.1), "dedup lookup of key {k}");
            ensure!(r.get_entry(&k).map(|(a, v)| (*a, *v)) == e.copied(), "dedup entry of key {k}");
            let a = m.iter().find(|x| x.1 .0 == k);
            ensure!(r.get_alt(&k).copied() == a.map(|x| x.1 .1) && r.contains_alt(&k) == a.is_some(), "dedup lookup of alternate key {k}");
            ensure!(r.get_entry_alt(&k).map(|(x, v)| (*x, *v)) == a.map(|x| (*x.0, x.1 .1)), "dedup entry of alternate key {k}");
        }
        Ok(())
    }
    while let Some((m, r, d)) = q.pop_front() {
        let key: Vec<(u8, u8, u8)> = m.iter().map(|(k, (a, v))| (*k, *a, *v)).collect();
        if !seen.insert(key.clone()) {
            continue;
        }
        c.states += 1;
        same(&m, &r, n).map_err(|e| format!("{e} in {key:?}"))?;
        let inserts_only: bool = same_dedup(&m, &d, n).map_err(|e| format!("{e} in {key:?}")).map(|_| true)?;
        for k in 0..n {
            for a in 0..n {
                for v in 0..vals {
                    c.transitions += 1;
                    let (mut m2, mut r2, mut d2) = (m.clone(), r.clone(), d.clone());
                    let got = r2.try_insert(k, a, v);
                    let gotd = d2.try_insert(k, a, v);
                    let dup_a = m.values().any(|x| x.0 == a);
                    let dup_k = m.contains_key(&k);
                    for (which, got) in [("", got), ("dedup ", gotd)] {
                        match got {
                            Ok(()) => ensure!(!dup_a && !dup_k, "{which}inserting ({k},{a}) into {key:?} is accepted"),
                            Err(e) => {
                                ensure!(dup_a || dup_k, "{which}inserting ({k},{a}) into {key:?} is refused");
                                ensure!(e.value == v, "refused insertion returns another value");
                                ensure!(
                                    match e.occupied_key {
                                        OccupiedKey::Key(x) => dup_k && x == k,
                                        OccupiedKey::AltKey(x) => dup_a && x == a,
                                    },
                                    "refused insertion of ({k},{a}) into {key:?} blames another key"
                                );
                            }
                        }
                    }
                    if !dup_a && !dup_k {
                        m2.insert(k, (a, v));
                    }
                    same(&m2, &r2, n).map_err(|e| format!("{e} after inserting ({k},{a},{v}) into {key:?}"))?;
                    if inserts_only {
                        same_dedup(&m2, &d2, n).map_err(|e| format!("{e} after inserting ({k},{a},{v}) into {key:?}"))?;
                    }
                    if !dup_a && !dup_k {
                        q.push_back((m2, r2, d2));
                    }
                }
            }
        }
        // The other operations of the plain map, from every state.
        for k in 0..=n {
            c.transitions += 2;
            let (mut m2, mut r2) = (m.clone(), r.clone());
            let want = m2.remove(&k).map(|(a, v)| (k, a, v));
            ensure!(r2.remove_entry(&k) == want, "removing {k} from {key:?}");
            same(&m2, &r2, n).map_err(|e| format!("{e} after removing {k} from {key:?}"))?;
            let (mut m2, mut r2) = (m.clone(), r.clone());
            match (m2.get_mut(&k), r2.get_mut(&k)) {
                (Some(x), Some(y)) => {
                    x.1 = 77;
                    *y = 77;
                }
                (None, None) => {}
                _ => return Err(format!("mutable lookup of {k} in {key:?}")),
            }
            same(&m2, &r2, n).map_err(|e| format!("{e} after changing {k} in {key:?}"))?;
        }
        for set in 0..1u32 << n {
            c.transitions += 1;
            let (mut m2, mut r2) = (m.clone(), r.clone());
            let out = r2.drain(|k| set >> k & 1 == 1);
            let want: Vec<(u8, u8, u8)> = key.iter().copied().filter(|x| set >> x.0 & 1 == 1).collect();
            m2.retain(|k, _| set >> k & 1 == 0);
            ensure!(out == want, "draining {set:b} from {key:?} gives {out:?}");
            same(&m2, &r2, n).map_err(|e| format!("{e} after draining {set:b} from {key:?}"))?;
        }
    }
    c.bounds = format!("all reachable contents over {n} keys, {n} alternate keys and {vals} values (fixpoint), every operation from each");
    c.samples.push(format!("{:?}", seen.iter().last()));
    Ok(c)
}
