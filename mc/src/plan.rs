//! Which scenarios, with which bounds, decide which property.
use crate::api::*;
use crate::scen::*;
use crate::world::*;
use candid::{Nat, Principal};

pub const SCHED: u32 = 1;
pub const FAULT: u32 = 2;
pub const TRAP: u32 = 4;
pub const UPG: u32 = 8;
pub const MINE: u32 = 16;
pub const ALL: u32 = 31;

fn to(i: u8) -> String {
    hex_addr(&recipient(i as usize))
}
fn dep(user: usize, amount: u128) -> Act {
    Act::Deposit { token: None, user, sub: 0, amount }
}
fn dep_t(token: usize, user: usize, sub: u8, amount: u128) -> Act {
    Act::Deposit { token: Some(token), user, sub, amount }
}
fn wn(user: usize, amount: u128, r: u8) -> Act {
    Act::WithdrawNative { user, amount, to: to(r) }
}
fn we(user: usize, amount: u128, r: u8) -> Act {
    Act::WithdrawErc20 { user, token: 0, amount, to: to(r) }
}
const TENTH: u128 = 100_000_000_000_000_000;
const FUND: [(usize, Option<usize>, u128); 4] = [
    (0, None, 10_000_000_000_000_000_003),
    (0, Some(0), 9_000_000),
    (1, None, 7_000_000_000_000_000_005),
    (1, Some(0), 8_000_000),
];
fn wd(name: &str, script: Vec<Act>) -> Scenario {
    Scenario::new(name, script).tokens(&[0]).fund(&FUND)
}

pub fn scenario(name: &str) -> Scenario {
    use Act::*;
    let (base, arg) = name.split_once(':').unwrap_or((name, ""));
    let num = || arg.parse::<usize>().unwrap_or_else(|_| panic!("bad scenario {name}"));
    let sc = match base {
        // ---------------------------------------------------------- deposits
        "dep" => Scenario::new(name, vec![dep(1, ether(2) + 7), dep_t(0, 2, 5, 5_000_007), Wait(640), dep(2, 77), Wait(600)]).tokens(&[0]),
        "dep3" => Scenario::new(
            name,
            vec![
                Deposit { token: None, user: 1, sub: 3, amount: ether(2) },
                dep(1, ether(2)),
                dep_t(0, 2, 0, 5_000_007),
                dep_t(1, 2, 9, 5_000_007),
                Wait(620),
            ],
        )
        .tokens(&[0, 1]),
        "huge" => wd(
            name,
            vec![dep(2, u128::MAX), dep_t(0, 3, 0, u128::MAX - 1), Wait(640), wn(2, u128::MAX / 2, 1), wn(3, ether(1), 4), Wait(10), we(3, u128::MAX - 5_000_000, 2), Wait(300)],
        )
        .with(|s| s.approve = true)
        .fund(&[(0, None, 10_000_000_000_000_000_003), (3, None, 7_000_000_000_000_000_005)]),
        "dep_fee" => Scenario::new(name, vec![dep(1, ether(2) + 7), dep_t(0, 2, 5, 5_000_007), Wait(640)]).tokens(&[0]).fees(3_000_000_000_000_000, 0),
        "dep_fee_low" => Scenario::new(name, vec![dep(1, 2_999_999_999_999_999), dep(2, 3_000_000_000_000_000), dep_t(0, 2, 5, 5_000_007), dep(3, ether(1)), Wait(640)])
            .tokens(&[0])
            .fees(3_000_000_000_000_000, 0),
        "dep_req" => Scenario::new(name, vec![dep(1, ether(2)), Wait(100), Scrape { block: 25 }, Wait(5), dep_t(0, 2, 0, 5_000_007), Scrape { block: 12 }, Wait(70), Scrape { block: 12 }, Wait(20)]).tokens(&[0]),
        "dep_big" => Scenario::new(name, vec![dep(1, ether(2)), Wait(12), Oversize { ahead: 0 }, dep(2, 5), Wait(12), dep_t(0, 3, 0, 9), Wait(660)]).tokens(&[0]),
        "dep_big2" => Scenario::new(name, vec![Oversize { ahead: 0 }, Oversize { ahead: 1 }, dep(1, ether(2)), Wait(24), dep_t(0, 3, 0, 9), Oversize { ahead: 3 }, Wait(660)]).tokens(&[0]),
        "dep_far" => Scenario::new(name, vec![dep(1, ether(2)), Wait(660)])
            .tokens(&[0])
            .with(|s| {
                s.init.last_scraped_block_number = Nat::from(H0 - 2600);
                s.warmup = 0;
            })
            .fund(&[(0, None, 5), (1, Some(0), 6)]),
        "dep_back" => Scenario::new(name, vec![dep(1, ether(2)), Wait(620), Jump(-40), Wait(600), dep(2, 9), Jump(15), Wait(600), Jump(3000), dep(3, 11), Wait(660)]).tokens(&[0]),
        // one service answers nothing for a while, with or without an upgrade meanwhile
        "out" | "out_w" | "out_f" => {
            let up = || Any(vec![Nop, Upgrade(None), Upgrade(Some(UpgradeArg::default()))]);
            let out = || {
                let mut v = vec![Nop];
                v.extend(["block", "fee", "send", "count", "transfer", "transfer_from", "receipt", "sign"].map(|k| Outage(k, "x")));
                v.extend([Outage("send", "i"), Outage("transfer", "u"), Outage("send", "eee"), Outage("count", "s"), Outage("block", "s"), Outage("receipt", "n")]);
                Any(v)
            };
            let f = match base {
                "out" => Fate::Ok,
                "out_w" => Fate::Withheld,
                _ => Fate::WithheldFail,
            };
            let fees = if base == "out" { vec![] } else { vec![Fee { base: 13_000_000_000, reward: 3_500_000_000 }] };
            let mut v = vec![Wait(30), wn(0, ether(1), 1), Wait(if base == "out" { 20 } else { 45 }), out(), we(1, 700_000, 2), wn(1, TENTH, 3)];
            v.extend(fees);
            // the transactions are mined after or during the outage
            v.extend(match arg {
                "" => [Wait(90), up(), Wait(40), Restore, wn(0, TENTH, 5), Wait(40), Release, Wait(130)],
                _ => [Wait(50), Release, Wait(30), up(), Wait(130), Restore, wn(0, TENTH, 5), Wait(130)],
            });
            wd(name, v).fate(f).upgrades(0)
        }
        // one ledger never works again: the others go on
        "dead" => Scenario::new(
            name,
            vec![
                dep(1, ether(2)),
                dep_t(0, 2, 5, 5_000_007),
                dep_t(1, 3, 6, 6_000_007),
                dep(2, ether(1)),
                Any([9, 0, 1].into_iter().flat_map(|l| ["x", "u", "g"].map(|p| Dead(l, p))).collect()),
                Wait(640),
                dep(3, 77),
                dep_t(0, 1, 0, 78),
                dep_t(1, 1, 0, 79),
                Wait(660),
            ],
        )
        .tokens(&[0, 1])
        .fees(if arg.is_empty() { 0 } else { 3_000_000_000_000_000 }, 0),
        "dead_w" => Scenario::new(
            name,
            vec![
                Wait(40),
                wn(0, ether(1), 1),
                we(1, 700_000, 2),
                WithdrawErc20 { user: 2, token: 1, amount: 5_000, to: to(3) },
                wn(3, ether(1), 4),
                Any([9, 0, 1].into_iter().flat_map(|l| ["x", "u", "g"].map(|p| Dead(l, p))).collect()),
                Wait(200),
            ],
        )
        .tokens(&[0, 1])
        .fund(&[(0, None, ether(20)), (1, None, ether(20)), (1, Some(0), 9_000_000), (2, None, ether(20)), (2, Some(1), 9_000_000), (3, None, ether(20))])
        .fate(Fate::Fail),
        "out_d" => Scenario::new(
            name,
            vec![
                dep(1, ether(2)),
                dep_t(0, 2, 5, 5_000_007),
                Any(vec![Nop, Outage("block", "x"), Outage("block", "s"), Outage("logs", "x"), Outage("logs", "eee"), Outage("transfer", "x"), Outage("transfer", "u"), Outage("transfer", "g")]),
                Wait(640),
                Any(vec![Nop, Upgrade(None), Upgrade(Some(UpgradeArg::default()))]),
                dep(3, 77),
                Wait(620),
                Any(vec![Nop, Restore, Outage("transfer", "u"), Outage("logs", "x")]),
                dep(1, 78),
                Wait(620),
            ],
        )
        .tokens(&[0])
        .fees(if arg.is_empty() { 0 } else { 3_000_000_000_000_000 }, 0)
        .upgrades(0),
        // an operator sets back the scraped height: the logs are reported again
        "dep_again" => {
            let back = |n: u64| Upgrade(Some(UpgradeArg { last_scraped_block_number: Some(Nat::from(H0 - n)), ..UpgradeArg::default() }));
            Scenario::new(name, vec![dep(1, ether(2)), dep_t(0, 2, 5, 5_000_007), Wait(640), Any(vec![back(60), back(300)]), Wait(30), dep(3, 11), Wait(1240)])
                .tokens(&[0])
                .with(|s| s.no_liveness = true)
                .upgrades(0)
        }
        // every network and block tag
        "net" => {
            let i = num();
            let n = NETWORKS[i / 3];
            let t = [Tag::Latest, Tag::Safe, Tag::Finalized][i % 3];
            Scenario::new(name, vec![dep(1, ether(2)), dep_t(0, 2, 1, 77), Wait(620), wn(0, ether(1), 1), we(0, 700_000, 2), Wait(120)])
                .tokens(&[0])
                .fund(&FUND)
                .net(n, t)
        }
        // what a new minter tells the orchestrator
        "suite" => {
            let i = num();
            Scenario::new(name, vec![dep(1, ether(2)), Wait(620), wn(0, ether(1), 1), Wait(120)])
                .fund(&FUND)
                .net(NETWORKS[i], [Tag::Latest, Tag::Safe, Tag::Finalized][i % 3])
                .with(|s| {
                    s.init.native_symbol = ["icBNB", "x", "icETH.long-symbol", "ic MATIC"][i % 4].into();
                    s.init.native_index_id = crate::scen::caller_of(900 + i % 4);
                    if i % 2 == 1 {
                        s.init.ledger_suite_manager_id = crate::scen::caller_of(908);
                    }
                })
        }
        // fees rise and stay high: what was sent before has to be replaced to be mined
        "stay_n" => wd(name, vec![Wait(30), wn(0, ether(1), 1), wn(1, ether(2), 2), Wait(50), Fee { base: 30_000_000_000, reward: 3_000_000_000 }, Release, Wait(130)]).fate(Fate::Withheld),
        "stay_t" => wd(
            name,
            vec![Wait(30), we(0, 700_000, 2), wn(1, ether(1), 1), Wait(50), Fee { base: 9_000_000_000, reward: 3_200_000_000 }, Tip(3_200_000_000), Release, Wait(130)],
        )
        .fate(Fate::Withheld),
        // the first payment can not follow the fees, until they fall again
        "stay_p" => wd(
            name,
            vec![
                Wait(30),
                wn(0, MIN_WITHDRAWAL, 1),
                wn(1, ether(1), 2),
                Wait(50),
                Fee { base: 400_000_000_000, reward: 3_200_000_000 },
                Release,
                Wait(130),
                Fee { base: 12_000_000_000, reward: 3_000_000_000 },
                Wait(130),
            ],
        )
        .fate(Fate::Withheld),
        "raw" => Scenario::new(
            name,
            vec![dep(1, ether(2)), Raw(crate::scen::Raw { name: "raw", kind: RAWS[num()] }), dep_t(0, 2, 0, 71), Wait(24), dep(3, 7), Wait(640)],
        )
        .tokens(&[0]),
        // every shape of account and amount a deposit can name
        "fields" => {
            let mut v: Vec<Act> = vec![];
            let to = |token, owner, sub, amount| DepositTo { token, owner, sub, amount };
            let mut subs: Vec<[u8; 32]> = vec![];
            for i in 0..32 {
                let mut s = [0; 32];
                s[i] = 1 + i as u8;
                subs.push(s);
                let mut s = [0xff; 32];
                s[i] = 0;
                subs.push(s);
            }
            subs.push([0xff; 32]);
            for h in [0, 8, 16, 24] {
                let mut s = [0; 32];
                s[h..h + 8].copy_from_slice(&[7; 8]);
                subs.push(s);
            }
            v.push(Together(subs.iter().enumerate().map(|(i, s)| to(if i % 2 == 0 { None } else { Some(0) }, user(i % 4), Some(*s), big(1000 + i as u128))).collect()));
            v.push(Together(subs.iter().enumerate().map(|(i, s)| to(if i % 2 == 1 { None } else { Some(0) }, user(i % 4), Some(*s), big(1000 + i as u128))).collect()));
            let mut owners: Vec<Principal> = vec![];
            for n in 1..=29usize {
                owners.push(Principal::from_slice(&(0..n).map(|i| 0x50 + i as u8).collect::<Vec<_>>()));
                owners.push(Principal::from_slice(&vec![0; n]));
                let mut z = vec![0; n];
                z[0] = 0x80;
                owners.push(Principal::from_slice(&z));
            }
            v.push(Together(owners.iter().enumerate().map(|(i, o)| to(if i % 2 == 0 { None } else { Some(0) }, *o, None, big(5000 + i as u128))).collect()));
            v.push(Together(owners.iter().enumerate().map(|(i, o)| to(if i % 2 == 1 { None } else { Some(0) }, *o, Some(subs[i % subs.len()]), big(5000 + i as u128))).collect()));
            let mut am: Vec<Act> = vec![];
            for k in 0..32u32 {
                am.push(to(Some(0), user(1), None, Big::from(1u8) << (8 * k)));
                am.push(to(Some(0), user(2), None, (Big::from(1u8) << (8 * k)) - 1u8 + (k == 0) as u8));
            }
            v.push(Together(am));
            v.push(to(Some(0), user(1), None, (Big::from(1u8) << 256u32) - 1u8));
            Scenario::new(name, vec![Any(v), Wait(12), dep(1, 5), Wait(640)]).tokens(&[0]).upgrades(0)
        }
        // pairs of bad logs in one answer
        "raw2" => Scenario::new(
            name,
            vec![
                Any(RAWS.iter().map(|k| Raw(crate::scen::Raw { name: "raw", kind: *k })).collect()),
                dep(1, ether(2)),
                Any(RAWS.iter().map(|k| Raw(crate::scen::Raw { name: "raw", kind: *k })).collect()),
                dep_t(0, 2, 0, 71),
                Wait(640),
            ],
        )
        .tokens(&[0])
        .upgrades(0),
        "req_seq" => {
            let ops = || Any(vec![Nop, Scrape { block: 0 }, Scrape { block: 1 }, Scrape { block: 30 }, Wait(29), Wait(59), Wait(60), Wait(61), Scrape { block: -5 }]);
            Scenario::new(name, vec![dep(1, ether(2)), Wait(300), ops(), ops(), ops(), dep(2, 5), ops(), Wait(10)]).tokens(&[0]).upgrades(0)
        }
        "req_abs" => Scenario::new(
            name,
            vec![
                Any(vec![
                    ScrapeAbs { nat: "0".into() },
                    ScrapeAbs { nat: "18446744073709551615".into() },
                    ScrapeAbs { nat: "18446744073709551616".into() },
                    ScrapeAbs { nat: "115792089237316195423570985008687907853269984665640564039457584007913129639935".into() },
                    ScrapeAbs { nat: "115792089237316195423570985008687907853269984665640564039457584007913129639936".into() },
                ]),
                Wait(70),
                ScrapeAbs { nat: "20000".into() },
                Wait(10),
            ],
        ),
        // ---------------------------------------------------------- withdrawals
        "wn" => wd(name, vec![Wait(30), wn(0, ether(1), 1), Wait(190)]),
        "we" => wd(name, vec![Wait(30), we(0, 700_000, 2), Wait(190)]),
        "mix" => wd(name, vec![Wait(40), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(190)]),
        "same" => wd(name, vec![Wait(40), wn(0, ether(1), 1), we(0, 700_000, 2), wn(0, TENTH, 3), Wait(90)]),
        // one user asks twice before the first request is answered
        "dup" => wd(
            name,
            vec![
                Wait(40),
                Any(vec![
                    Together(vec![wn(0, ether(1), 1), we(0, 700_000, 2)]),
                    Together(vec![we(0, 700_000, 2), wn(0, ether(1), 1)]),
                    Together(vec![wn(0, ether(1), 1), wn(0, TENTH, 2)]),
                    Together(vec![we(0, 700_000, 1), we(0, 700_001, 2)]),
                    Together(vec![wn(0, ether(1), 1), we(1, 700_000, 2)]),
                ]),
                Wait(20),
                wn(0, TENTH, 3),
                we(1, 700_002, 4),
                Wait(90),
            ],
        )
        .upgrades(0),
        "late" => wd(name, vec![Wait(40), wn(0, ether(1), 1), Wait(45), we(1, 700_000, 2), Wait(130)]),
        "many" => wd(
            name,
            vec![Wait(40), wn(0, TENTH, 1), wn(1, TENTH, 2), we(0, 700_001, 3), wn(1, TENTH, 4), we(1, 700_002, 5), wn(0, TENTH, 6), wn(1, TENTH, 7), Wait(120)],
        )
        .upgrades(1),
        "fail_n" => wd(name, vec![Wait(30), wn(0, ether(1), 1), Wait(260)]).fate(Fate::Fail),
        "fail_e" => wd(name, vec![Wait(30), we(0, 700_000, 2), Wait(260)]).fate(Fate::Fail),
        "fail_mix" => wd(name, vec![Wait(30), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(260)]).fate(Fate::Fail),
        "cyc" => wd(name, vec![Wait(30), dep(1, ether(2)), Scrape { block: 30 }, we(0, 700_000, 2), wn(1, ether(1), 1), Wait(200)]).with(|s| s.cycles = true).upgrades(0),
        "bump_n" => wd(name, vec![Wait(30), wn(0, ether(1), 1), Wait(60), Fee { base: 30_000_000_000, reward: 4_000_000_000 }, Wait(130), Fee { base: 12_000_000_000, reward: 3_000_000_000 }, Release, Wait(70)]).fate(Fate::Withheld),
        "bump_e" => wd(name, vec![Wait(30), we(0, 700_000, 2), Wait(60), Fee { base: 13_000_000_000, reward: 3_200_000_000 }, Wait(130), Release, Wait(70)]).fate(Fate::Withheld),
        "bump_x" => wd(name, vec![Wait(30), we(0, 700_000, 2), wn(1, ether(1), 1), Wait(60), Fee { base: 300_000_000_000, reward: 4_000_000_000 }, Wait(190), Fee { base: 10_000_000_000, reward: 3_000_000_000 }])
            .fate(Fate::Withheld),
        "bump2" => wd(
            name,
            vec![Wait(30), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(50), Fee { base: 12_000_000_000, reward: 3_500_000_000 }, Wait(70), Fee { base: 14_000_000_000, reward: 3_600_000_000 }, Wait(70), Release, Wait(70)],
        )
        .fate(Fate::Withheld),
        "bump_f" => wd(name, vec![Wait(30), wn(0, ether(1), 1), Wait(60), Fee { base: 21_000_000_000, reward: 4_000_000_000 }, Wait(100), Release, Wait(130)]).fate(Fate::WithheldFail),
        // a market fee between the last one and 110% of it, and prices that ten does not divide
        "bump_odd" => wd(
            name,
            vec![
                Fee { base: 10_000_000_001, reward: 3_000_000_007 },
                Wait(30),
                wn(0, ether(1), 1),
                we(1, 700_000, 2),
                Wait(50),
                Any(vec![
                    Fee { base: 10_000_000_001, reward: 3_200_000_001 },
                    Fee { base: 10_000_000_001, reward: 3_300_000_007 },
                    Fee { base: 10_000_000_001, reward: 3_300_000_008 },
                    Fee { base: 10_000_000_001, reward: 3_300_000_009 },
                    Fee { base: 10_500_000_000, reward: 3_000_000_007 },
                    Fee { base: 10_500_000_000, reward: 3_000_000_008 },
                    Fee { base: 9_999_999_999, reward: 3_300_000_009 },
                    Fee { base: 9_000_000_003, reward: 4_000_000_001 },
                ]),
                Wait(130),
            ],
        )
        .fate(Fate::Withheld),
        // more requests than a round takes on that can not afford their transaction, and one behind them that can
        "poor5" => wd(
            name,
            vec![
                Wait(61),
                Fee { base: 500_000_000_000, reward: 4_000_000_000 },
                wn(0, MIN_WITHDRAWAL, 1),
                wn(1, MIN_WITHDRAWAL, 2),
                Wait(1),
                wn(0, MIN_WITHDRAWAL, 3),
                wn(1, MIN_WITHDRAWAL, 4),
                Wait(1),
                wn(0, MIN_WITHDRAWAL, 5),
                Wait(1),
                wn(1, ether(1), 6),
                wn(0, ether(1), 7),
                Wait(100),
            ],
        )
        .with(|s| s.settle_min = 5),
        // fees rise so far that a small withdrawal cannot pay for its transaction any more
        "dear" => wd(
            name,
            vec![Wait(30), Fee { base: 500_000_000_000, reward: 4_000_000_000 }, wn(0, MIN_WITHDRAWAL, 1), wn(1, ether(1), 2), Wait(120), Fee { base: 10_000_000_000, reward: 3_000_000_000 }, Wait(200)],
        ),
        "wfee" => wd(name, vec![Wait(40), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(90)]).fees(0, 2_000_000_000_000_000),
        "wfee_both" => wd(name, vec![Wait(40), wn(0, ether(1), 1), dep(2, ether(1)), Wait(660)]).fees(3_000_000_000_000_000, 2_000_000_000_000_000),
        "wfee_poor" => wd(
            name,
            vec![
                Wait(40),
                SetBalance { user: 0, ledger: 9, amount: TENTH },
                SetBalance { user: 1, ledger: 0, amount: 5 },
                wn(0, ether(1), 1),
                Wait(10),
                we(1, 700_000, 2),
                Wait(150),
            ],
        )
        .fees(0, 2_000_000_000_000_000),
        // amounts around the withdrawal fee
        "wfee_low" => wd(
            name,
            vec![
                Wait(40),
                Any(vec![wn(0, 9_999_999_999_999_999, 1), wn(0, MIN_WITHDRAWAL, 1), wn(0, 14_999_999_999_999_999, 1), wn(0, 15_000_000_000_000_000, 1), wn(0, 15_000_000_000_000_001, 1), wn(0, 15_100_000_000_000_000, 1)]),
                Wait(150),
                wn(0, ether(1), 2),
                Wait(90),
            ],
        )
        .fees(0, 15_000_000_000_000_000),
        "burnfail" => wd(
            name,
            vec![
                Wait(40),
                Any(vec![
                    SetBalance { user: 0, ledger: 0, amount: 5 },
                    SetBalance { user: 0, ledger: 9, amount: 5 },
                    Approve { user: 0, ledger: 0, amount: 5 },
                    Approve { user: 0, ledger: 9, amount: 5 },
                    Approve { user: 0, ledger: 0, amount: 0 },
                    Nop,
                ]),
                we(0, 700_000, 2),
                Wait(130),
                we(0, 700_000, 3),
                Wait(60),
            ],
        ),
        "burnfail_n" => wd(
            name,
            vec![Wait(40), Any(vec![SetBalance { user: 0, ledger: 9, amount: 5 }, Approve { user: 0, ledger: 9, amount: 5 }, Approve { user: 0, ledger: 9, amount: 0 }, Nop]), wn(0, ether(1), 2), Wait(10), wn(1, ether(1), 3), Wait(60)],
        ),
        // requests that have to be refused
        "invalid" => {
            let g = to(1);
            let mut v: Vec<Act> = vec![];
            let bads = [
                String::new(),
                "0x".into(),
                g[2..].to_string(),
                g[..41].to_string(),
                format!("{g}0"),
                format!("0X{}", &g[2..]),
                format!("0x{}g", &g[2..41]),
                format!(" {g}"),
                format!("{g} "),
                "0x0000000000000000000000000000000000000000".into(),
                format!("0x+{}", &g[3..]),
            ];
            for b in bads {
                v.push(WithdrawNative { user: 0, amount: ether(1), to: b.clone() });
                v.push(WithdrawErc20 { user: 0, token: 0, amount: 700_000, to: b });
            }
            for a in [0, 1, MIN_WITHDRAWAL - 1] {
                v.push(wn(0, a, 2));
            }
            v.push(WithdrawErc20 { user: 0, token: 1, amount: 700_000, to: g.clone() });
            v.push(WithdrawErc20 { user: 0, token: 2, amount: 700_000, to: g.clone() });
            v.push(AnonWithdraw { erc20: false });
            v.push(AnonWithdraw { erc20: true });
            v.push(wn(0, ether(1000), 4));
            v.push(we(0, 1_000_000_000, 5));
            v.push(wn(5, ether(1), 6));
            v.push(we(5, 7, 6));
            v.push(we(0, 0, 7));
            wd(name, vec![Wait(40), Any(v), Wait(20), wn(0, MIN_WITHDRAWAL, 9), Wait(80)])
        }
        // address spellings that have to be accepted
        "addr" => {
            let a = [
                "0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed",
                "0xfB6916095ca1df60bB79Ce92cE3Ea74c37c5d359",
                "0xdbf03b407c01e7cd3cbea99509d93f8dddc8c6fb",
                "0xD1220A0CF47C7B9BE7A2E6BA89F429762E7B9ADB",
                "0x0000000000000000000000000000000000000001",
                "0xffffffffffffffffffffffffffffffffffffffff",
                "0x8000000000000000000000000000000000000000",
                "0xdBF03B407c01E7cd3cbea99509d93f8dddc8c6fb",
            ];
            wd(
                name,
                vec![
                    Wait(40),
                    Any(a.iter().flat_map(|x| vec![WithdrawNative { user: 0, amount: ether(1), to: x.to_string() }, WithdrawErc20 { user: 0, token: 0, amount: 700_000, to: x.to_string() }]).collect()),
                    Wait(160),
                ],
            )
        }
        // amounts at byte boundaries
        "amt" => {
            let a = [1u128, 127, 128, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296];
            let mut v: Vec<Act> = a.iter().map(|x| WithdrawErc20 { user: 0, token: 1, amount: *x, to: to(1) }).collect();
            for x in [MIN_WITHDRAWAL, MIN_WITHDRAWAL + 1, ether(1), 1 << 63, (1 << 63) - 1, (1 << 56) + 483_000_000_000_000] {
                v.push(wn(0, x, 1));
            }
            Scenario::new(name, vec![Wait(40), Any(v), Wait(160)]).tokens(&[0, 1]).fund(&[(0, None, ether(20)), (0, Some(1), 1 << 40)])
        }
        "nonce" => {
            let n = [0u64, 1, 127, 128, 255, 256, 65_535, 65_536, 4_294_967_295][num()];
            wd(name, vec![Wait(40), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(150)]).with(|s| s.init.next_transaction_nonce = Nat::from(n))
        }
        "fees" => {
            // market data for the estimate
            let f = |b: u128, r: Vec<u128>| -> Vec<Act> { vec![Fee { base: b, reward: 3_000_000_000 }, Rewards(r)] };
            let g = 1_000_000_000u128;
            let cases = [
                f(10 * g, vec![g, 2 * g, 3 * g, 4 * g, 5 * g]),
                f(10 * g, vec![5 * g, 4 * g, 3 * g, 2 * g, g]),
                f(10 * g, vec![3 * g, 9 * g, 2 * g, 9 * g, 9 * g]),
                f(10 * g, vec![0, 0, 0, 0, 0]),
                f(10 * g, vec![g, g, g + g / 2, 9 * g, 9 * g]),
                f(10 * g, vec![2 * g, 7 * g]),
                f(10 * g, vec![7 * g]),
                f(1, vec![0, 1, 2, 3, 4]),
                f(0, vec![0, 1, 2, 3, 4]),
                f(700 * g + 1, vec![100 * g, 200 * g, 300 * g, 1, 2]),
                f(10 * g, vec![4 * g, 4 * g, 6 * g, 6 * g]),
            ];
            let c = cases[num()].clone();
            let mut v = c;
            v.push(Wait(40));
            v.push(we(0, 700_000, 2));
            v.push(wn(1, ether(1), 1));
            v.push(Wait(120));
            wd(name, v)
        }
        // caching of the estimate: requests at chosen times after a fee change
        "cache" => wd(
            name,
            vec![
                Wait(40),
                we(0, 700_000, 2),
                Fee { base: 11_000_000_000, reward: 5_000_000_000 },
                Any(vec![Wait(0), Wait(20), Wait(27), Wait(28), Wait(29), Wait(30), Wait(31), Wait(33)]),
                we(1, 700_000, 3),
                Fee { base: 12_000_000_000, reward: 5_000_000_000 },
                Any(vec![Wait(1), Wait(25), Wait(26), Wait(27), Wait(28), Wait(29), Wait(30), Wait(31)]),
                we(0, 700_000, 4),
                Wait(100),
                Fee { base: 13_000_000_000, reward: 6_000_000_000 },
                Any(vec![Wait(0), Wait(31), Wait(45)]),
                Together(vec![we(0, 700_000, 5), we(1, 700_000, 6)]),
                Wait(100),
            ],
        ),
        // ---------------------------------------------------------- administration
        "registry" => {
            let ops = || {
                Any(vec![
                    AddToken { i: 1, chain: None, caller: None },
                    AddToken { i: 0, chain: None, caller: None },
                    AddTokenAs { i: 1, l: 0 },
                    AddTokenAs { i: 0, l: 1 },
                    AddToken { i: 1, chain: Some(1), caller: None },
                    AddToken { i: 1, chain: None, caller: Some(3) },
                ])
            };
            Scenario::new(name, vec![Wait(20), ops(), ops(), dep_t(0, 1, 0, 7_000), dep_t(1, 2, 0, 8_000), Wait(640)]).tokens(&[0]).upgrades(0)
        }
        "registry3" => {
            let mut v = vec![];
            for i in 0..3 {
                for l in 0..3 {
                    v.push(AddTokenAs { i, l });
                }
            }
            Scenario::new(name, vec![Wait(20), Any(v.clone()), Any(v.clone()), Any(v), Wait(20)]).upgrades(0)
        }
        "regwork" => Scenario::new(
            name,
            vec![Wait(20), dep_t(1, 1, 0, 7_000), AddToken { i: 1, chain: None, caller: None }, dep_t(1, 2, 4, 8_000), dep(2, ether(1)), Wait(640), WithdrawErc20 { user: 2, token: 1, amount: 3_000, to: to(4) }, wn(2, ether(1), 3), Wait(90)],
        )
        .tokens(&[0])
        .with(|s| s.approve = true)
        .fund(&[(2, None, ether(1)), (2, Some(1), 9_000)]),
        "priv" => {
            let mut v = vec![];
            for c in [0, 1, 3, 900, 901, 902, 903, 904, 905, 907, 908] {
                v.push(AddToken { i: 1, chain: None, caller: Some(c) });
                v.push(CheckDeposits { caller: c });
            }
            v.push(CheckDeposits { caller: 906 });
            v.push(AnonWithdraw { erc20: false });
            v.push(AnonWithdraw { erc20: true });
            wd(name, vec![Wait(40), dep_t(1, 1, 0, 7_000), Any(v.clone()), Wait(70), Any(v), Wait(70)])
        }
        // 100 requests at once may be in progress (here they all fail, as nothing is approved), and 100 may wait
        "crowd" => wd(name, vec![
            Wait(40),
            Any([98, 99, 100, 101].into_iter().map(|n| Together(vec![Crowd { n, amount: 10 * MIN_WITHDRAWAL }, wn(1, ether(1), 1), we(2, 700_000, 2)])).collect()),
            Wait(30),
            wn(1, ether(1), 3),
            we(2, 700_000, 4),
            Wait(90),
        ])
            .fund(&[(0, None, 2000 * MIN_WITHDRAWAL), (1, None, ether(2)), (2, None, ether(2)), (2, Some(0), 5_000_000)])
            .with(|s| s.approve_crowd = false)
            .upgrades(0),
        "queue" => wd(name, vec![Wait(61), Crowd { n: 99, amount: 10 * MIN_WITHDRAWAL }, Wait(5), wn(1, ether(1), 1), Wait(5), wn(2, ether(1), 2), Wait(200)])
            .fund(&[(0, None, 2000 * MIN_WITHDRAWAL), (1, None, ether(2)), (2, None, ether(2))])
            .with(|s| s.settle_min = 60)
            .upgrades(0),
        // 99 accepted requests that wait for lower fees, and one more
        "full" => wd(
            name,
            vec![
                Wait(61),
                Fee { base: 500_000_000_000, reward: 4_000_000_000 },
                Crowd { n: 99, amount: MIN_WITHDRAWAL },
                Wait(120),
                wn(1, MIN_WITHDRAWAL, 1),
                Wait(10),
                wn(2, ether(1), 2),
                Wait(10),
                Fee { base: 10_000_000_000, reward: 3_000_000_000 },
                Wait(130),
                wn(2, ether(1), 2),
                Wait(60),
            ],
        )
        .fund(&[(0, None, 200 * MIN_WITHDRAWAL), (1, None, ether(2)), (2, None, ether(2))])
        .with(|s| s.settle_min = 60)
        .upgrades(0),
        "up" => {
            let u = || Any(vec![Nop, Upgrade(None), Upgrade(Some(UpgradeArg::default()))]);
            wd(name, vec![dep(2, ether(1)), u(), Wait(620), u(), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(20), u(), Wait(120), u(), dep(2, 9), Wait(620)]).upgrades(0)
        }
        "upfail" => wd(name, vec![Wait(40), wn(0, ether(1), 1), we(1, 700_000, 2), Wait(200)]).fate(Fate::Fail).upgrades(2),
        // upgrades that set up to n fields
        "upg" | "upg_fee" => wd(
            name,
            vec![Wait(30), wn(0, ether(1), 1), dep(2, ether(1)), Wait(640), UpgradeGrid(num()), Wait(20), dep(3, ether(1)), wn(1, ether(1), 2), Wait(20), we(0, 700_000, 3), wn(1, ether(3), 4), Wait(300)],
        )
        .fees(if base == "upg" { 0 } else { 3_000_000_000_000_000 }, if base == "upg" { 0 } else { 1_000_000_000_000_000 })
        .upgrades(0),
        // installations that differ from the usual one in up to n fields
        "init" => {
            let mut s = Scenario::new(name, vec![]).upgrades(0);
            s.init_grid = num();
            s
        }
        "smoke" => wd(name, vec![dep(1, ether(2) + 7), dep_t(0, 2, 5, 5_000_007), Wait(700), wn(0, ether(1), 1), we(0, 700_000, 2), Wait(200)]),
        _ => panic!("unknown scenario {name}"),
    };
    sc
}
#[derive(Clone)]
pub struct Item {
    pub name: String,
    pub k: u32,
    pub mask: u32,
}
fn it(name: &str, k: u32, mask: u32) -> Item {
    Item { name: name.into(), k, mask }
}
fn nets(k: u32, mask: u32) -> Vec<Item> {
    (0..NETWORKS.len() * 3).map(|i| it(&format!("net:{i}"), k, mask)).collect()
}
fn raws(k: u32, mask: u32) -> Vec<Item> {
    (0..RAWS.len()).map(|i| it(&format!("raw:{i}"), k, mask)).collect()
}
pub const PROPS: [&str; 33] = [
    "D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "W09", "W10", "W11", "W12", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "C01", "C06", "C03", "C08", "C09",
];
/// Every deposit history.
fn deposits(v: &mut Vec<Item>, deep: bool) {
    for n in ["dep", "dep3", "dep_fee", "dep_fee_low", "dep_req"] {
        v.push(it(n, 2, ALL));
    }
    for n in ["dep_big", "dep_far", "dep_back", "regwork"] {
        v.push(it(n, 1, ALL));
    }
    v.push(it("dep_big2", 1, FAULT));
    for n in ["out_d", "out_d:1", "dead", "dead:1", "huge", "fields"] {
        v.push(it(n, if deep && n.starts_with("out") { 1 } else { 0 }, ALL));
    }
}
/// Every withdrawal history.
fn withdrawals(v: &mut Vec<Item>, deep: bool) {
    for n in ["wn", "we", "mix", "late", "same", "bump_n", "bump_e", "bump2", "bump_f", "stay_n", "stay_t", "fail_n", "fail_e", "fail_mix", "burnfail", "wfee", "wfee_poor", "wfee_both", "smoke"] {
        v.push(it(n, 1, ALL));
    }
    for n in ["bump_x", "stay_p", "dear", "dup", "burnfail_n"] {
        v.push(it(n, 1, if deep { ALL } else { FAULT }));
    }
    for n in ["out", "out_w", "out_f", "out_w:1", "out_f:1", "dead_w", "many", "poor5", "huge", "amt"] {
        v.push(it(n, if deep && n.starts_with("out") { 1 } else { 0 }, ALL));
    }
}
/// Without what another item covers.
pub fn plan(prop: &str, tier: &str) -> Vec<Item> {
    let v = wanted(prop, tier);
    let covers = |a: &Item, b: &Item| a.name == b.name && a.k >= b.k && (a.mask & b.mask == b.mask || b.k == 0);
    let mut out: Vec<Item> = vec![];
    for (i, x) in v.iter().enumerate() {
        if !v.iter().enumerate().any(|(j, y)| i != j && covers(y, x) && (!covers(x, y) || j < i)) {
            out.push(x.clone());
        }
    }
    out
}
fn wanted(prop: &str, tier: &str) -> Vec<Item> {
    let deep = tier != "quick";
    let k = if deep { 2 } else { 1 };
    let mut v: Vec<Item> = vec![];
    if ["D01", "D02", "D03", "D04", "D05", "S01", "S02", "S03", "S04"].contains(&prop) {
        deposits(&mut v, deep);
    }
    if ["W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "W09", "W10", "W11", "W12", "S01", "S02", "S03", "S04"].contains(&prop) {
        withdrawals(&mut v, deep);
    }
    match prop {
        "D01" | "D02" => {
            v.push(it("dep", 1, ALL));
            v.push(it("dep3", 1, ALL));
            v.push(it("dep_fee", 1, ALL));
            v.push(it("dep_req", 1, ALL));
            v.push(it("dep_back", 0, ALL));
            v.push(it("huge", 0, ALL));
            v.push(it("dep_big", 1, FAULT));
            v.push(it("wfee_both", 1, FAULT));
            v.push(it("fields", 0, ALL));
            if prop == "D01" {
                v.push(it("dep_again", 1, FAULT | TRAP | SCHED));
            }
            v.push(it("fail_mix", 1, FAULT | TRAP | UPG));
            v.push(it("dep", k, FAULT | TRAP));
            if deep {
                v.push(it("dep3", 2, ALL));
                v.push(it("dep_req", 2, ALL));
            }
        }
        "D03" => {
            v.push(it("dep", 1, ALL));
            v.push(it("dep_fee", 1, FAULT | TRAP));
            v.push(it("dep_fee_low", 1, FAULT | TRAP));
            v.push(it("dep_req", 1, ALL));
            v.push(it("dep_big", 1, ALL));
            v.push(it("dep_big2", 1, FAULT));
            v.push(it("dep_far", 1, ALL));
            v.push(it("dep_back", 1, FAULT));
            v.push(it("regwork", 0, ALL));
            if deep {
                v.push(it("dep", 2, ALL));
                v.push(it("dep_req", 2, FAULT | TRAP | SCHED));
                v.push(it("dep_far", 2, FAULT | TRAP));
            }
        }
        "D04" => {
            v.push(it("dep", 1, ALL));
            v.push(it("dep_far", 2, ALL));
            v.push(it("dep_big", 1, ALL));
            v.push(it("dep_big2", 1, ALL));
            v.push(it("dep_back", 1, FAULT | TRAP));
            v.push(it("dep_req", 1, ALL));
            if deep {
                v.push(it("dep_far", 2, ALL));
                v.push(it("dep_big2", 2, FAULT | TRAP));
            }
        }
        "D05" => {
            v.extend(nets(0, ALL));
            v.push(it("dep_back", 1, FAULT | TRAP));
            v.push(it("dep_req", 1, ALL));
            v.push(it("dep_far", 1, FAULT));
            if deep {
                v.extend(nets(1, FAULT | TRAP | UPG));
                v.push(it("dep_back", 2, FAULT));
            }
        }
        "C01" => {
            v.push(it("addr", 0, ALL));
            v.push(it("invalid", 0, ALL));
            v.push(it("init:1", 0, ALL));
            v.push(it("registry", 0, ALL));
            v.push(it("mix", if deep { 1 } else { 0 }, ALL));
        }
        "C06" => {
            for n in ["dep", "dep_fee", "fail_n", "fail_e", "fail_mix", "burnfail", "burnfail_n", "wfee", "bump_f", "mix"] {
                v.push(it(n, 1, if deep { ALL } else { FAULT | TRAP }));
            }
            v.push(it("dead_w", 0, ALL));
            v.push(it("amt", 0, ALL));
            v.push(it("huge", 0, ALL));
        }
        "D06" | "C08" => {
            v.extend(raws(0, ALL));
            v.push(it("fields", 0, ALL));
            v.push(it("raw2", 0, ALL));
            v.push(it("dep3", 0, ALL));
            if deep {
                v.extend(raws(1, ALL));
            }
        }
        "D07" => {
            v.push(it("dep", 1, FAULT));
            v.push(it("dep3", 1, FAULT));
            v.push(it("mix", 1, FAULT));
            v.push(it("fail_mix", 1, FAULT));
            for n in 0..NETWORKS.len() {
                v.push(it(&format!("net:{}", n * 3), 1, FAULT));
            }
            if deep {
                v.push(it("dep", 2, FAULT));
                v.push(it("mix", 2, FAULT));
                v.push(it("fail_mix", 2, FAULT));
            }
        }
        "D08" => {
            v.push(it("req_abs", 0, ALL));
            v.push(it("req_seq", 0, ALL));
            v.push(it("dep_req", 1, ALL));
            if deep {
                v.push(it("dep_req", 2, SCHED | FAULT | TRAP));
                v.push(it("req_seq", 1, SCHED));
            }
        }
        "W01" | "W02" | "W03" => {
            v.push(it("mix", 1, ALL));
            v.push(it("late", 1, SCHED | TRAP | UPG));
            v.push(it("same", 1, SCHED));
            v.push(it("many", 0, ALL));
            v.push(it("bump2", 1, FAULT | TRAP | UPG | MINE));
            v.push(it("bump_x", 1, FAULT));
            v.push(it("wfee", 1, FAULT));
            v.push(it("amt", 0, ALL));
            v.push(it("burnfail", 0, ALL));
            v.push(it("dear", 0, ALL));
            v.push(it("huge", 0, ALL));
            if deep {
                v.push(it("mix", 2, FAULT | TRAP | UPG | MINE));
                v.push(it("bump2", 2, FAULT | TRAP | UPG | MINE));
                v.push(it("many", 1, ALL));
                v.push(it("late", 2, SCHED | TRAP | UPG));
            }
        }
        "W04" => {
            v.push(it("mix", 1, FAULT | MINE | UPG));
            v.push(it("amt", 0, ALL));
            v.push(it("addr", 0, ALL));
            for i in 0..9 {
                v.push(it(&format!("nonce:{i}"), 0, ALL));
            }
            v.extend(nets(0, ALL));
            v.push(it("bump2", 1, FAULT));
            for i in 0..11 {
                v.push(it(&format!("fees:{i}"), 0, ALL));
            }
            if deep {
                v.push(it("many", 1, ALL));
                v.push(it("bump2", 2, FAULT));
            }
        }
        "W05" => {
            v.push(it("bump_n", 1, ALL));
            v.push(it("bump_e", 1, FAULT | MINE | UPG | TRAP));
            v.push(it("bump_x", 1, FAULT));
            v.push(it("bump2", 1, ALL));
            v.push(it("bump_f", 1, ALL));
            v.push(it("bump_odd", 0, ALL));
            if deep {
                v.push(it("bump_n", 2, FAULT | TRAP | MINE));
                v.push(it("bump2", 2, FAULT | TRAP | MINE));
                v.push(it("bump_x", 2, FAULT | MINE));
            }
        }
        "W06" => {
            v.push(it("fail_n", 1, ALL));
            v.push(it("fail_e", 1, ALL));
            v.push(it("fail_mix", 1, ALL));
            v.push(it("mix", 1, MINE | FAULT));
            v.push(it("bump_f", 1, ALL));
            v.push(it("fail_n", 2, TRAP | UPG));
            if deep {
                v.push(it("fail_mix", 2, FAULT | TRAP | UPG));
                v.push(it("mix", 2, MINE | FAULT));
            }
        }
        "W07" => {
            v.push(it("burnfail", 1, FAULT | TRAP | UPG));
            v.push(it("we", 1, ALL));
            v.push(it("wfee_poor", 1, FAULT));
            v.push(it("wfee", 1, FAULT));
            if deep {
                v.push(it("we", 2, FAULT | TRAP | UPG));
                v.push(it("burnfail", 2, FAULT | TRAP));
            }
        }
        "W08" => {
            v.push(it("queue", 0, ALL));
            v.push(it("mix", 1, ALL));
            v.push(it("late", 1, ALL));
            v.push(it("many", 0, ALL));
            v.push(it("bump_n", 1, FAULT | TRAP | UPG));
            v.push(it("bump_x", 1, FAULT));
            v.push(it("dear", 1, FAULT));
            v.push(it("poor5", 0, ALL));
            v.push(it("fail_mix", 1, FAULT));
            if deep {
                v.push(it("mix", 2, ALL));
                v.push(it("bump2", 2, FAULT | TRAP | UPG));
            }
        }
        "W09" => {
            v.push(it("wfee", 1, ALL));
            v.push(it("wfee_poor", 1, FAULT | TRAP));
            v.push(it("wfee_low", 0, ALL));
            v.push(it("wfee_both", 1, FAULT));
            if deep {
                v.push(it("wfee", 2, FAULT | TRAP));
                v.push(it("wfee_poor", 2, FAULT | TRAP));
            }
        }
        "W10" => {
            v.push(it("mix", 1, ALL));
            v.push(it("same", 0, ALL));
            v.push(it("many", 0, ALL));
            v.push(it("fail_mix", 1, FAULT | TRAP | UPG));
            v.push(it("bump2", 1, FAULT | UPG | MINE));
            v.push(it("burnfail", 0, ALL));
            if deep {
                v.push(it("mix", 2, FAULT | MINE | UPG));
                v.push(it("fail_mix", 2, FAULT | UPG));
            }
        }
        "W11" => {
            v.push(it("invalid", 0, ALL));
            v.push(it("burnfail", 0, ALL));
            v.push(it("burnfail_n", 0, ALL));
            v.push(it("we", 1, FAULT | TRAP));
            v.push(it("wfee_poor", 0, ALL));
            v.push(it("wfee_low", 0, ALL));
            if deep {
                v.push(it("invalid", 1, FAULT));
                v.push(it("mix", 2, FAULT));
            }
        }
        "W12" => {
            v.push(it("crowd", 0, ALL));
            v.push(it("full", 0, ALL));
            v.push(it("queue", 0, ALL));
            v.push(it("same", 1, ALL));
            v.push(it("mix", 1, SCHED | TRAP | FAULT));
            v.push(it("dup", 1, SCHED | TRAP | FAULT));
            v.push(it("burnfail", 1, FAULT | TRAP));
            v.push(it("wfee", 1, FAULT | TRAP | SCHED));
            if deep {
                v.push(it("same", 2, SCHED | TRAP | FAULT));
            }
        }
        "S01" => {
            v.push(it("smoke", 1, ALL));
            v.push(it("dep_fee", 1, FAULT));
            v.push(it("fail_mix", 1, FAULT | TRAP | UPG));
            v.push(it("bump2", 1, MINE | FAULT));
            v.push(it("wfee_both", 1, FAULT));
            v.push(it("many", 0, ALL));
            v.push(it("burnfail", 0, ALL));
            if deep {
                v.push(it("smoke", 2, FAULT | TRAP | UPG | MINE));
                v.push(it("fail_mix", 2, FAULT | TRAP | UPG));
            }
        }
        "S02" => {
            v.push(it("up", 0, ALL));
            v.push(it("smoke", 1, UPG));
            v.push(it("fail_mix", 1, UPG));
            v.push(it("bump2", 1, UPG));
            v.push(it("burnfail", 1, UPG));
            v.push(it("dep_big", 1, UPG));
            v.push(it("upfail", 2, UPG));
            v.push(it("fail_n", 2, UPG | TRAP));
            v.push(it("fail_e", 2, UPG | TRAP));
            v.push(it("dep_fee", 2, UPG | TRAP));
            v.push(it("we", 2, UPG | TRAP));
            v.push(it("regwork", 1, UPG));
            v.push(it("wfee_both", 1, UPG));
            if deep {
                v.push(it("mix", 2, UPG | FAULT | TRAP));
                v.push(it("fail_mix", 2, UPG | FAULT | TRAP));
                v.push(it("dep", 2, UPG | FAULT | TRAP));
            }
        }
        "S03" => {
            v.push(it("smoke", 1, ALL));
            v.push(it("many", 0, ALL));
            v.push(it("fail_mix", 1, UPG | TRAP));
            v.push(it("full", 0, ALL));
            v.push(it("bump2", 1, UPG | FAULT));
            v.push(it("burnfail", 0, ALL));
            v.push(it("dep_big", 0, ALL));
            if deep {
                v.push(it("smoke", 2, UPG | TRAP | FAULT));
            }
        }
        "S04" => {
            v.push(it("dep", 1, SCHED | TRAP | FAULT));
            v.push(it("mix", 1, SCHED | TRAP | FAULT));
            v.push(it("fail_mix", 1, SCHED | TRAP));
            v.push(it("dep_req", 1, SCHED | TRAP));
            v.push(it("late", 1, SCHED | TRAP));
            if deep {
                v.push(it("dep", 2, SCHED | TRAP));
                v.push(it("mix", 2, SCHED | TRAP));
                v.push(it("fail_mix", 2, SCHED | TRAP));
            }
        }
        "S05" => {
            v.push(it("registry", 0, ALL));
            v.push(it("registry3", 0, ALL));
            v.push(it("regwork", 1, FAULT | UPG | TRAP));
            if deep {
                v.push(it("regwork", 2, ALL));
                v.push(it("registry", 1, ALL));
            }
        }
        "S06" => {
            v.push(it("priv", 0, ALL));
            v.push(it("registry", 0, ALL));
            if deep {
                v.push(it("priv", 1, ALL));
            }
        }
        "S07" => {
            v.push(it(if deep { "init:4" } else { "init:3" }, 0, ALL));
            v.push(it(if deep { "upg:3" } else { "upg:2" }, 0, ALL));
            v.push(it(if deep { "upg_fee:3" } else { "upg_fee:2" }, 0, ALL));
        }
        "S08" => {
            for i in 0..NETWORKS.len() {
                v.push(it(&format!("suite:{i}"), if i < 2 || deep { k } else { 0 }, ALL));
                if i >= 2 && !deep {
                    v.push(it(&format!("suite:{i}"), 1, UPG | SCHED));
                }
            }
            v.push(it("smoke", 1, FAULT | UPG));
            v.push(it("up", 0, ALL));
        }
        "C09" => {
            v.push(it("cyc", k, FAULT));
        }
        "C03" => {
            for i in 0..11 {
                v.push(it(&format!("fees:{i}"), if deep { 1 } else { 0 }, ALL));
            }
            v.push(it("cache", 0, ALL));
            v.push(it("mix", 1, FAULT));
            v.push(it("bump_n", 1, FAULT));
            if deep {
                v.push(it("mix", 2, FAULT));
            }
        }
        _ => {}
    }
    v
}
