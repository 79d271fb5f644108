//! More behaviour spaces: full books, batches, logs, identifiers, accounts, protocol, encodings, views.
use crate::svm::Slot;
use super::*;
use crate::spec;

fn px_of(side: Side, base: u64, k: i64) -> u64 {
    // k levels away from the best price, worse for positive k
    if side == Ask { (base as i64 + k) as u64 } else { (base as i64 - k) as u64 }
}

// ------------------------------------------------------------------------------------------------
// full books

pub fn fam_full(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let top = 5000u64;
    let w = 100i64; // the worst level is 100 ticks away
    for side in SIDES {
        // (a) ties at the worst price; own, foreign and expired orders there; (b) the worst order is one's own
        for (k, last) in [("ties", vec![(1, 0u8), (2, 0), (0, 0)]), ("other", vec![(0, 0), (2, 1), (1, 0)]), ("expired", vec![(1, 0), (2, 1)]), ("lone", vec![(2, 0)])] {
            if !t && k == "lone" && side == Bid {
                continue;
            }
            let c = Cfg { fee_bps: 100, ..rich() };
            let mut s = open(&c);
            s.extend([dep(0, 2_000_000, 40), dep(2, 20_000, 30), pl(1, o(side.opp(), px_of(side, top, -2), 3).post()), pl(2, o(side.opp(), px_of(side, top, -3), 3).post())]);
            let n = 510 - last.len() as u64;
            for i in 0..n {
                // levels of five orders each, all better than the worst level
                s.push(pl(1, o(side, px_of(side, top, (i / 6) as i64), 1 + i % 2).post()));
            }
            for (who, e) in &last {
                s.push(pl(*who, o(side, px_of(side, top, w), 3).freeb(*who == 0).tif(if *e == 1 { Some(10) } else { None }, None).post()));
            }
            s.push(pl(2, o(side, px_of(side, top, w - 5), 2).post()));
            v.push(
                Scen::new(&format!("full-{}-{:?}", k, side), c.clone())
                    .setup(s)
                    .acts(if t { 3 } else { 2 }, move |a, _, _| {
                        let at = |k| px_of(side, top, k);
                        let mut v = vec![
                            pl(0, o(side, at(w - 1), 2).free().post()),
                            pl(2, o(side, at(w), 2).post()),
                            pl(1, o(side, at(w + 1), 2).post()),
                            pl(0, o(side, at(3), 1).lim()),
                            ix(0, Op::CancelAll { ff: true }),
                            clock(a, 1, 0),
                            pl(0, o(side.opp(), at(0), 2).ioc()),
                        ];
                        let x = a.book(side).last().unwrap();
                        v.push(ix(x.who, Op::Reduce { side, px: x.px, id: x.id, size: 1, ff: true }));
                        v
                    })
                    .probes(move |_, _, d| {
                        let mut v = vec![];
                        let at = |k| px_of(side, top, k);
                        for who in [0, 2] {
                            for k in [-1, 0, 40, w - 6, w - 5, w - 4, w - 1, w, w + 1, w + 50] {
                                v.push(pl(who, o(side, at(k), 2).post()));
                                v.push(pl(who, o(side, at(k), 2).free().post()));
                                if d == 0 || k >= w - 1 {
                                    v.push(pl(who, o(side, at(k), 2).amend().silent().post()));
                                    v.push(pl(who, o(side, at(k), 1).lim()));
                                    v.push(pl(who, o(side, at(k), 2).free().lim()));
                                }
                            }
                        }
                        // crossing limit orders with a remainder, amended post-only orders
                        for k in [-4, -3, -2, -1] {
                            for n in [1, 2, 3, 5, 6, 7, 9] {
                                v.push(pl(0, o(side, at(k), n).lim()));
                            }
                            for st in [St::Abort, St::CancelProvide, St::DecrementTake] {
                                // one's own order on the other side is met on the way
                                v.push(pl(2, o(side, at(k), 6).st(st).lim()));
                                v.push(pl(2, o(side, at(k), 4).st(st).lim()));
                            }
                            v.push(pl(0, o(side, at(k), 3).free().lim()));
                            v.push(pl(0, o(side, at(k), 3).ml(Some(1)).lim()));
                            v.push(pl(0, o(side, at(k), 2).amend().post()));
                            v.push(pl(0, o(side, at(k), 2).post()));
                        }
                        // batches that need several evictions, or cannot get them
                        let mk = |l: &[i64]| l.iter().map(|k| (at(*k), 2, GTC)).collect::<Vec<_>>();
                        for l in [&[w][..], &[w - 1, w], &[w - 2, w - 1, w], &[w - 1, w + 1], &[0, w - 6, w - 1, w - 1], &[w - 1, w - 2, w - 3, w - 4, w - 5, w - 6]] {
                            for beh in 0..4 {
                                for ff in [false, true] {
                                    if d > 0 && (beh == 2 || (ff && beh == 1)) {
                                        continue;
                                    }
                                    let (b, k) = if side == Bid { (mk(l), vec![]) } else { (vec![], mk(l)) };
                                    v.push(ix(0, multi(b, k, beh, ff)));
                                }
                            }
                        }
                        // the other side still has room
                        v.push(pl(0, o(side.opp(), px_of(side, top, -1), 1).post()));
                        v.push(pl(0, o(side.opp(), px_of(side, top, -200), 1).post()));
                        for n in [1, 2, 7] {
                            v.push(pl(0, o(side.opp(), at(0), n).ioc()));
                        }
                        v
                    }),
            );
        }
        // a free-funds order paid for by the eviction of one's own worst order
        let c = Cfg { fee_bps: 0, ..rich() };
        let mut s = open(&c);
        for i in 0..511u64 {
            s.push(pl(1, o(side, px_of(side, top, (i / 6) as i64), 1).post()));
        }
        let worst = px_of(side, top, w);
        s.push(if side == Bid { dep(0, worst * 2 * 3, 0) } else { dep(0, 0, 3) });
        s.push(pl(0, o(side, worst, 3).free().post()));
        v.push(
            Scen::new(&format!("full-own-funds-{:?}", side), c.clone())
                .setup(s)
                .acts(1, move |_, _, _| vec![if side == Bid { dep(0, 2, 0) } else { dep(0, 0, 1) }, ix(0, Op::Withdraw { q: None, b: None })])
                .probes(move |_, _, _| {
                    let mut v = vec![];
                    for n in 1..=5 {
                        for k in [0, w - 2, w - 1, w, w + 1] {
                            let b = o(side, px_of(side, top, k), n);
                            for x in [b, b.silent()] {
                                v.push(pl(0, x.free().post()));
                                v.push(pl(0, x.free().lim()));
                                v.push(pl(0, x.post()));
                                v.push(pl(0, x.amend().free().post()));
                            }
                            let l = vec![(px_of(side, top, k), n, GTC), (px_of(side, top, k + 1), 1, GTC)];
                            for beh in 0..4 {
                                for ff in [false, true] {
                                    let (x, y) = if side == Bid { (l.clone(), vec![]) } else { (vec![], l.clone()) };
                                    v.push(ix(0, multi(x, y, beh, ff)));
                                }
                            }
                        }
                    }
                    v
                }),
        );
    }
    // both sides full
    let c = Cfg { fee_bps: 100, ..rich() };
    let mut s = open(&c);
    s.push(dep(0, 50_000, 500));
    for i in 0..512u64 {
        s.push(pl(1 + (i % 2) as Pid, o(Ask, 1001 + i / 4, 1).post()));
        s.push(pl(1 + (i % 2) as Pid, o(Bid, 999 - i / 4, 1).post()));
    }
    v.push(
        Scen::new("full-both", c.clone())
            .setup(s)
            .acts(if t { 3 } else { 2 }, |_, _, _| {
                vec![
                    pl(0, o(Ask, 1000, 2).post()),
                    pl(0, o(Bid, 1000, 2).post()),
                    pl(0, o(Bid, 1002, 5).lim()),
                    pl(0, o(Ask, 990, 50).free().lim()),
                    pl(1, o(Ask, 1100, 50).post()),
                    pl(2, o(Bid, 900, 50).post()),
                    ix(0, Op::CancelAll { ff: true }),
                ]
            })
            .probes(|_, _, _| {
                let mut v = vec![];
                for (b, a) in [(871, 1129), (872, 1128), (873, 1127), (999, 1001)] {
                    for beh in 0..4 {
                        v.push(ix(0, multi(vec![(b, 1, GTC), (b + 1, 1, GTC)], vec![(a, 1, GTC), (a - 1, 1, GTC)], beh, true)));
                    }
                    v.push(pl(0, o(Ask, a, 1).free().post()));
                    v.push(pl(0, o(Bid, b, 1).free().post()));
                }
                v
            }),
    );
    v
}

// ------------------------------------------------------------------------------------------------
// batches

pub fn fam_multi(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let tifs = [GTC, Tif { lvs: Some(10), lvts: None }, Tif { lvs: None, lvts: Some(999) }];
    // funds: 0 plenty, 1 wallet only just enough for some orders, 2 a little free, 3 free and wallet at the edge
    for (k, wb, wq, q, b) in [("rich", 1_000_000u64, 1_000_000u64, 500u64, 100u64), ("tight", 35, 303, 0, 0), ("free", 35, 353, 60, 3), ("edge", 45, 303, 24, 2)] {
        let c = Cfg { fee_bps: 100, traders: 2, wbase: wb, wquote: wq, ..Cfg::default() };
        // trader 1 needs money of its own: its wallet is the same size, so keep its orders small
        let mut s = open(&c);
        s.push(dep(0, q, b));
        if k == "rich" {
            s.extend([pl(1, o(Ask, 12, 1).post()), pl(1, o(Bid, 7, 1).post())]);
        }
        let rich = k == "rich";
        v.push(
            Scen::new(&format!("multi-{}", k), c.clone())
                .setup(s)
                .acts(if t { 2 } else { 1 }, move |a, _, _| {
                    if rich {
                        vec![
                            pl(1, o(Ask, 11, 1).tif(Some(a.slot), None).post()),
                            clock(a, 1, 0),
                            pl(0, o(Ask, 11, 2).post()),
                            pl(0, o(Bid, 8, 2).free().post()),
                            pl(1, o(Ask, 10, 2).post()),
                            ix(0, Op::Withdraw { q: None, b: None }),
                        ]
                    } else {
                        vec![pl(1, o(Ask, 11, 2).post()), pl(1, o(Bid, 8, 1).post()), pl(0, o(Bid, 7, 1).free().post()), ix(0, Op::Withdraw { q: None, b: None })]
                    }
                })
                .probes(move |a, _, d| {
                    let now = Tif { lvs: Some(a.slot), lvts: Some(a.ts as u64) };
                    let past = Tif { lvs: Some(a.slot - 1), lvts: None };
                    let cb: Vec<(u64, u64, Tif)> = if rich {
                        vec![(10, 2, GTC), (9, 1, GTC), (9, 2, now), (9, 1, past), (8, 2, GTC), (12, 1, GTC)]
                    } else {
                        vec![(10, 1, GTC), (9, 1, GTC), (9, 2, GTC), (9, 1, now), (8, 2, GTC), (11, 1, past)]
                    };
                    let ca: Vec<(u64, u64, Tif)> = if rich {
                        vec![(10, 1, GTC), (11, 1, GTC), (11, 2, now), (11, 2, past), (12, 3, GTC), (8, 1, GTC), (13, 1, GTC)]
                    } else {
                        vec![(9, 1, GTC), (12, 1, GTC), (12, 2, GTC), (12, 1, now), (13, 1, GTC), (10, 1, past)]
                    };
                    let lists = |c: &Vec<(u64, u64, Tif)>, n: usize| {
                        let mut out: Vec<Vec<(u64, u64, Tif)>> = vec![vec![]];
                        let mut cur = out.clone();
                        for _ in 0..n {
                            let mut nx = vec![];
                            for l in &cur {
                                for x in c {
                                    let mut y = l.clone();
                                    y.push(*x);
                                    nx.push(y);
                                }
                            }
                            out.extend(nx.clone());
                            cur = nx;
                        }
                        out
                    };
                    let mut v = vec![];
                    let mut push = |b: &Vec<(u64, u64, Tif)>, k: &Vec<(u64, u64, Tif)>| {
                        for beh in 0..4 {
                            for ff in [false, true] {
                                v.push(ix(0, multi(b.clone(), k.clone(), beh, ff)));
                            }
                        }
                    };
                    let deep = t || d == 0;
                    for b in lists(&cb, if deep { 3 } else { 2 }) {
                        push(&b, &vec![]);
                    }
                    for k in lists(&ca, if deep { 3 } else { 2 }) {
                        if !k.is_empty() {
                            push(&vec![], &k);
                        }
                    }
                    for b in lists(&cb, if t { 2 } else { 1 }) {
                        for k in lists(&ca, if t && d == 0 { 2 } else { 1 }) {
                            if !b.is_empty() && !k.is_empty() {
                                push(&b, &k);
                            }
                        }
                    }
                    v.push(ix(1, multi(vec![(9, 1, GTC)], vec![(13, 1, GTC)], 0, false)));
                    let _ = tifs;
                    v
                }),
        );
    }
    // long lists, sizes that overflow, degenerate entries, malformed modes
    let c = Cfg { fee_bps: 0, traders: 2, ..rich() };
    v.push(
        Scen::new("multi-odd", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 30_000, 3_000), pl(1, o(Ask, 200, 1).post()), pl(1, o(Bid, 100, 1).post())])
            .acts(1, |_, _, _| vec![ix(0, multi(vec![(150, 1, GTC), (149, 1, GTC), (150, 1, GTC)], vec![(151, 1, GTC), (160, 1, GTC)], 1, true))])
            .probes(|_, _, _| {
                let mut v = vec![];
                for beh in 0..6 {
                    for ff in [false, true] {
                        for n in [5u64, 16, 17, 18, 33] {
                            let b: Vec<_> = (0..n).map(|i| (150 - (i * 7) % n, 1 + i % 3, if i % 4 == 1 { Tif { lvs: Some(20), lvts: None } } else { GTC })).collect();
                            let a: Vec<_> = (0..n).map(|i| (152 + (i * 5) % n, 1 + i % 2, GTC)).collect();
                            v.push(ix(0, multi(b.clone(), vec![], beh, ff)));
                            v.push(ix(0, multi(vec![], a.clone(), beh, ff)));
                            v.push(ix(0, multi(b, a, beh, ff)));
                        }
                        // many orders at few prices with differing lifetimes: the order of equals shows
                        for n in [21u64, 24, 64] {
                            for m in [1u64, 2, 5] {
                                let t = |i: u64| Tif { lvs: if i % 3 == 0 { None } else { Some(100 + i) }, lvts: if i % 3 == 1 { None } else { Some(5000 + i) } };
                                let b: Vec<_> = (0..n).map(|i| (140 + i * 7 % m, 1 + i % 5, t(i))).collect();
                                let a: Vec<_> = (0..n).map(|i| (160 + i * 7 % m, 1 + i % 5, t(i))).collect();
                                v.push(ix(0, multi(b.clone(), vec![], beh, ff)));
                                v.push(ix(0, multi(vec![], a.clone(), beh, ff)));
                            }
                        }
                        for x in [0u64, 1, u64::MAX, u64::MAX >> 1] {
                            for y in [0u64, 1, 149, u64::MAX] {
                                v.push(ix(0, multi(vec![(y, x, GTC)], vec![], beh, ff)));
                                v.push(ix(0, multi(vec![], vec![(y, x, GTC)], beh, ff)));
                                v.push(ix(0, multi(vec![(y, x, GTC), (y, x, GTC)], vec![], beh, ff)));
                                v.push(ix(0, multi(vec![], vec![(y, x, GTC), (y, x, GTC)], beh, ff)));
                                v.push(ix(0, multi(vec![(120, 1, GTC), (y, x, GTC)], vec![(190, 1, GTC)], beh, ff)));
                            }
                        }
                        v.push(ix(0, multi(vec![(150, 1, GTC)], vec![(150, 1, GTC)], beh, ff)));
                        v.push(ix(0, multi(vec![(151, 1, GTC)], vec![(150, 1, GTC)], beh, ff)));
                        v.push(ix(0, multi(vec![(120, 1, GTC), (210, 1, GTC)], vec![(211, 1, GTC)], beh, ff)));
                        v.push(ix(0, multi(vec![(120, 1, GTC)], vec![(121, 1, GTC), (90, 1, GTC)], beh, ff)));
                        for cid in [None, Some(0), Some(u128::MAX)] {
                            if let Op::Multi(mut m, f) = multi(vec![(120, 1, GTC)], vec![(160, 2, GTC)], beh, ff) {
                                m.cid = cid;
                                v.push(ix(0, Op::Multi(m, f)));
                            }
                        }
                    }
                }
                v
            }),
    );
    // a market that is not active, seats that are not approved
    v.push(
        Scen::new("multi-gates", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 300, 30), dep(1, 300, 30)])
            .acts(3, |_, u, _| {
                let mut v = vec![pl(1, o(Ask, 11, 1).post()), pl(0, o(Bid, 9, 1).post())];
                for to in 1..=4 {
                    v.push(ix(u.auth, Op::Status { to, receiver: None }));
                }
                for status in 0..3 {
                    v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status }));
                }
                v
            })
            .probes(|_, _, _| {
                let mut v = vec![];
                for who in [0, 1] {
                    for beh in 0..4 {
                        for ff in [false, true] {
                            v.push(ix(who, multi(vec![(10, 1, GTC)], vec![(12, 1, GTC)], beh, ff)));
                            v.push(ix(who, multi(vec![(11, 1, GTC)], vec![], beh, ff)));
                            v.push(ix(who, multi(vec![], vec![(9, 1, GTC)], beh, ff)));
                        }
                    }
                }
                v
            }),
    );
    v
}

// ------------------------------------------------------------------------------------------------
// the event log

pub fn fam_events(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let n: u64 = if t { 160 } else { 72 };
    let c = Cfg { fee_bps: 100, ..rich() };
    for side in SIDES {
        for (k, own, exp) in [("live", 0u64, 0u64), ("mixed", 7, 5), ("expiring", 0, 2)] {
            let mut s = open(&c);
            s.push(dep(0, 500_000, 5_000));
            for i in 0..n {
                let who = if own > 0 && i % own == own - 1 { 0 } else { 1 + (i % 2) as Pid };
                let tif = if exp > 0 && i % exp == exp - 1 { (Some(10), None) } else { (None, None) };
                s.push(pl(who, o(side, px_of(side, 500, (i / 3) as i64), 1 + i % 2).tif(tif.0, tif.1).cid(i as u128).post()));
            }
            v.push(
                Scen::new(&format!("events-{}-{:?}", k, side), c.clone())
                    .setup(s)
                    .acts(1, |a, _, _| vec![clock(a, 1, 0)])
                    .probes(move |a, _, _| {
                        let mut v = vec![];
                        let far = if side == Ask { 5000 } else { 1 };
                        let lots: u64 = a.book(side).iter().map(|o| o.lots).sum();
                        for x in 1..=lots + 2 {
                            let st = [St::CancelProvide, St::DecrementTake][(x % 2) as usize];
                            v.push(pl(0, o(side.opp(), far, x).st(st).ioc()));
                            v.push(pl(0, o(side.opp(), far, x).st(St::CancelProvide).free().ioc()));
                        }
                        let m = a.book(side).len() as u64;
                        for x in 0..=m + 1 {
                            v.push(pl(0, o(side.opp(), far, 10_000).ml(Some(x)).st(St::CancelProvide).ioc()));
                        }
                        for x in 0..=(m / 3) as i64 + 1 {
                            // sweep levels and rest the remainder, with and without an expiry
                            let p = px_of(side, 500, x);
                            v.push(pl(0, o(side.opp(), p, 300).st(St::CancelProvide).lim()));
                            v.push(pl(0, o(side.opp(), p, 300).st(St::CancelProvide).tif(Some(99), Some(5000)).free().lim()));
                            v.push(pl(0, o(side.opp(), p, 300).amend().post()));
                        }
                        v
                    }),
            );
        }
    }
    // more events, orders and matches than a byte can count
    let m: u64 = 300;
    for side in SIDES {
        let mut s = open(&c);
        s.push(dep(0, 500_000, 5_000));
        for i in 0..m {
            s.push(pl(1 + (i % 10 == 4) as Pid, o(side, px_of(side, 500, (i / 3) as i64), 1).cid(i as u128).post()));
        }
        v.push(
            Scen::new(&format!("events-many-{:?}", side), c.clone())
                .setup(s)
                .acts(1, |_, _, _| vec![])
                .probes(move |a, u, _| {
                    let mut v = vec![];
                    let far = if side == Ask { 5000 } else { 1 };
                    for x in (250..260).chain([m - 1, m, m + 1]) {
                        v.push(pl(0, o(side.opp(), far, x).ioc()));
                        v.push(pl(0, o(side.opp(), far, x).free().ioc()));
                        v.push(pl(0, o(side.opp(), far, 10_000).ml(Some(x)).ioc()));
                        v.push(pl(0, o(side.opp(), px_of(side, 500, (x / 3) as i64), 1_000).lim()));
                    }
                    for w in [1, 2] {
                        for ff in [false, true] {
                            v.push(ix(w, Op::CancelAll { ff }));
                            v.push(ix(w, Op::CancelUpTo { p: UpTo { side, search: Some(257), ..NOCUT }, ff }));
                        }
                    }
                    let e = |side: Side| (0..m).map(|i| (px_of(side, if side == Ask { 700 } else { 300 }, i as i64 / 2), 1 + i % 2, GTC)).collect::<Vec<_>>();
                    for ff in [false, true] {
                        for beh in 0..4 {
                            v.push(ix(0, multi(e(Bid), vec![], beh, ff)));
                            v.push(ix(0, multi(vec![], e(Ask), beh, ff)));
                        }
                        // every order of trader 2, and some of the others
                        for k in [200, 255, 256, 257] {
                            for w in [1, 2] {
                                v.push(ix(w, Op::CancelIds { v: ids(a).iter().take(k).map(|x| (x.0, x.1, x.2)).collect(), ff }));
                            }
                        }
                    }
                    let _ = u;
                    v
                }),
        );
    }
    // batches of events that fill the log instruction to the last byte, or miss it by one: fills, cancelled own orders and expired
    // orders (67, 35 and 59 bytes) mixed in every proportion that the clock (k orders expired) and three takers give
    for side in SIDES {
        let own = [2u16, 1, 1, 2, 2, 1, 2, 1, 2, 1, 1, 2, 1, 1, 2, 2, 1, 1, 2, 1, 2, 1, 1, 1, 1, 2, 1, 2, 1, 2, 2, 2, 1, 2, 2, 1, 1, 2, 1, 1];
        let mut s = open(&c);
        for (i, who) in own.iter().enumerate() {
            s.push(pl(*who, o(side, px_of(side, 500, (i / 3) as i64), 1).tif(Some(10 + i as u64), None).post()));
        }
        v.push(
            Scen::new(&format!("events-fit-{:?}", side), c.clone())
                .setup(s)
                .acts(33, |a, _, _| vec![clock(a, 1, 0)])
                .probes(move |_, _, _| {
                    let mut v = vec![];
                    let far = if side == Ask { 5000 } else { 1 };
                    for who in 0..3 {
                        for n in [25, 40] {
                            for st in [St::CancelProvide, St::DecrementTake] {
                                v.push(pl(who, o(side.opp(), far, n).st(st).ioc()));
                            }
                        }
                        v.push(pl(who, o(side.opp(), far, 60).st(St::CancelProvide).lim()));
                    }
                    v
                }),
        );
    }
    // removals of every size
    let mut s = open(&c);
    s.push(dep(0, 500_000, 5_000));
    for i in 0..n {
        for side in SIDES {
            s.push(pl((i % 3 == 2) as Pid, o(side, if side == Ask { 500 + i } else { 400 - i }, 1 + i % 3).freeb(i % 3 != 2).post()));
        }
    }
    // trader 1 has nothing free, so its orders are funded from the wallet
    let s: Vec<Act> = s
        .into_iter()
        .map(|a| match a {
            Act::Ix { who: 1, op: Op::Order(Mode::PlaceFF, p), .. } => pl(1, p),
            x => x,
        })
        .collect();
    v.push(
        Scen::new("events-removals", c.clone())
            .setup(s)
            .acts(1, |_, u, _| vec![ix(u.auth, Op::ChangeSeat { trader: 0, status: 0 })])
            .probes(move |a, u, d| {
                let mut v = vec![];
                if d == 0 {
                    let mine: Vec<_> = ids(a).into_iter().filter(|x| x.3 == 0).map(|x| (x.0, x.1, x.2)).collect();
                    for k in 0..=mine.len() {
                        v.push(ix(0, Op::CancelIds { v: mine[..k].to_vec(), ff: k % 2 == 0 }));
                        let mut r = mine[mine.len() - k..].to_vec();
                        r.reverse();
                        v.push(ix(0, Op::CancelIds { v: r, ff: k % 2 == 1 }));
                    }
                    for side in SIDES {
                        for k in 0..=n as u32 + 1 {
                            v.push(ix(0, Op::CancelUpTo { p: UpTo { side, cancel: Some(k), ..NOCUT }, ff: k % 2 == 0 }));
                            v.push(ix(0, Op::CancelUpTo { p: UpTo { side, search: Some(k), ..NOCUT }, ff: k % 2 == 1 }));
                        }
                    }
                    for who in [0, 1, 2] {
                        v.push(ix(who, Op::CancelAll { ff: true }));
                        v.push(ix(who, Op::CancelAll { ff: false }));
                    }
                } else {
                    for side in SIDES {
                        for k in 0..=n as u32 + 1 {
                            v.push(ix(u.auth, Op::ForceCancel { trader: 0, p: UpTo { side, cancel: Some(k), ..NOCUT } }));
                        }
                    }
                }
                v
            }),
    );
    // batches of every size, with and without expiry events, evictions of expired orders on the way
    let mut s = open(&c);
    s.push(dep(0, 500_000, 50_000));
    for i in 0..20 {
        s.push(pl(1, o(Ask, 600 + i, 1).tif(Some(10), None).post()));
        s.push(pl(2, o(Bid, 500 - i, 1).tif(Some(10), None).post()));
    }
    v.push(
        Scen::new("events-batches", c.clone())
            .setup(s)
            .acts(1, |a, _, _| vec![clock(a, 1, 0)])
            .probes(move |_, _, _| {
                let mut v = vec![];
                let m = if t { 36 } else { 24 };
                for nb in 0..=m {
                    for na in [0, 1, nb / 2, nb] {
                        for tf in [GTC, Tif { lvs: Some(20), lvts: Some(3000) }] {
                            let b: Vec<_> = (0..nb).map(|i| (549 - i, 1, if i % 2 == 0 { tf } else { GTC })).collect();
                            let a: Vec<_> = (0..na).map(|i| (550 + i, 1, tf)).collect();
                            v.push(ix(0, multi(b.clone(), a.clone(), 0, true)));
                            // crossing the old quotes
                            let b: Vec<_> = (0..nb).map(|i| (649 - i, 1, tf)).collect();
                            v.push(ix(0, multi(b, vec![], 0, na % 2 == 1)));
                        }
                    }
                }
                v
            }),
    );
    // one of everything, at assorted clocks, sequence numbers keep counting
    let c = Cfg { fee_bps: 100, traders: 2, ..rich() };
    v.push(
        Scen::new("events-every-kind", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 20), pl(1, o(Ask, 11, 4).cid(5).post())])
            .acts(if t { 4 } else { 3 }, |a, u, _| {
                let mut v = vec![
                    pl(0, o(Bid, 12, 2).cid(1 << 100).ioc()),
                    pl(0, o(Ask, 12, 2).cid(u128::MAX).free().post()),
                    pl(1, o(Ask, 12, 2).tif(Some(a.slot), Some(7777)).post()),
                    pl(0, o(Bid, 13, 5).cid(9).free().st(St::DecrementTake).lim()),
                    pl(0, o(Bid, 13, 5).free().st(St::CancelProvide).lim()),
                    clock(a, 1, 7),
                    clock(a, 0, -2000),
                    ix(0, Op::CancelAll { ff: true }),
                    ix(0, Op::Withdraw { q: None, b: None }),
                    ix(u.rando, Op::Collect { dest: u.fee }),
                    ix(u.auth, Op::FeeRecipient { new: u.fee, prev: Some(u.fee) }),
                    ix(u.auth, Op::Name { succ: u.succ }),
                    ix(u.succ, Op::Claim),
                    ix(u.rando, Op::RequestSeat),
                    ix(u.auth, Op::RequestSeatAuth { trader: u.succ }),
                    ix(u.auth, Op::ChangeSeat { trader: 1, status: 0 }),
                    ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side: Ask, ..NOCUT } }),
                    ix(u.auth, Op::Evict { trader: 1 }),
                ];
                for (side, px, id, who, lots) in ids(a).into_iter().take(2) {
                    v.push(ix(who, Op::Reduce { side, px, id, size: 1, ff: true }));
                    v.push(ix(who, Op::Reduce { side, px, id, size: lots, ff: false }));
                }
                for to in [1, 2, 3, 4, 5] {
                    v.push(ix(u.auth, Op::Status { to, receiver: None }));
                }
                v
            }),
    );
    v
}

// ------------------------------------------------------------------------------------------------
// identifiers

pub fn fam_ids(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let last = u64::MAX >> 1;
    for (k, at) in [("fresh", 3u64), ("mid", (1 << 32) - 2), ("high", (1 << 62) - 2), ("last", last - 2), ("end", last - 1), ("over", last)] {
        let c = Cfg { fee_bps: 5, traders: 2, ..rich() };
        v.push(
            Scen::new(&format!("ids-{}", k), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 1000, 100), pl(1, o(Ask, 12, 2).cid(1).post()), pl(1, o(Bid, 8, 2).cid(2).post()), Act::Poke(Counter::Orders, at)])
                .acts(if t { 5 } else { 4 }, |a, _, _| {
                    let mut v = vec![
                        pl(0, o(Ask, 12, 3).cid(77).post()),
                        pl(1, o(Bid, 8, 3).cid(u128::MAX).post()),
                        pl(0, o(Bid, 8, 1).free().lim()),
                        pl(0, o(Bid, 12, 1).ioc()),
                        pl(1, o(Ask, 8, 1).lim()),
                        ix(0, multi(vec![(8, 1, GTC), (7, 1, GTC)], vec![(12, 2, GTC)], 0, true)),
                    ];
                    for (side, px, id, who, lots) in ids(a).into_iter().take(3) {
                        v.push(ix(who, Op::Reduce { side, px, id, size: lots - 1, ff: true }));
                    }
                    if let Some((side, px, id, who, _)) = ids(a).into_iter().last() {
                        v.push(ix(who, Op::CancelIds { v: vec![(side, px, id)], ff: true }));
                    }
                    v
                })
                .probes(|a, _, d| {
                    if d > 3 {
                        return vec![];
                    }
                    let mut v = vec![];
                    for side in SIDES {
                        for ff in [false, true] {
                            v.push(pl(0, o(side, 10, 1).freeb(ff).cid(0xdead_beef_dead_beef_1234).post()));
                            v.push(pl(0, o(side, if side == Bid { 13 } else { 7 }, 4).freeb(ff).lim()));
                            v.push(pl(0, o(side, if side == Bid { 13 } else { 7 }, 1).freeb(ff).lim()));
                            v.push(pl(0, o(side, if side == Bid { 13 } else { 7 }, 1).freeb(ff).ioc()));
                        }
                    }
                    for n in [1u64, 2, 3, 4] {
                        for ff in [false, true] {
                            let b: Vec<_> = (0..n).map(|i| (8 - i % 3, 1 + i, GTC)).collect();
                            let k: Vec<_> = (0..n / 2 + 1).map(|i| (12 + (n - i) % 3, 1, GTC)).collect();
                            v.push(ix(0, multi(b.clone(), k.clone(), 0, ff)));
                            v.push(ix(0, multi(b, vec![], 2, ff)));
                            v.push(ix(0, multi(vec![], k, 2, ff)));
                        }
                    }
                    // identifiers of the wrong side or with the wrong price name nothing
                    for (side, px, id, who, _) in ids(a).into_iter().take(3) {
                        for (s, p, i) in [(side, px, id), (side.opp(), px, id), (side, px, !id), (side.opp(), px, !id), (side, px + 1, id), (side, px, id ^ 1)] {
                            v.push(ix(who, Op::Reduce { side: s, px: p, id: i, size: 1, ff: true }));
                            v.push(ix(who, Op::CancelIds { v: vec![(s, p, i)], ff: true }));
                        }
                    }
                    v
                }),
        );
    }
    v
}

// ------------------------------------------------------------------------------------------------
// who may do what, when

fn everybody(u: &Uni) -> Vec<Pid> {
    vec![u.auth, u.succ, u.fee, u.fee2, u.rando, 0, 1]
}
/// every privileged instruction, tried by everybody
fn privileged(a: &Abs, u: &Uni, whos: &[Pid]) -> Vec<Act> {
    let mut v = vec![];
    for &w in whos {
        v.push(ix(w, Op::Claim));
        for succ in [u.succ, u.auth, w] {
            v.push(ix(w, Op::Name { succ }));
        }
        for to in 0..7 {
            v.push(ix(w, Op::Status { to, receiver: None }));
        }
        for r in [u.rando, u.fee2, w, 0] {
            v.push(ix(w, Op::Status { to: 5, receiver: Some(r) }));
        }
        for trader in [0, 1, u.succ] {
            for status in 0..4 {
                v.push(ix(w, Op::ChangeSeat { trader, status }));
            }
            v.push(ix(w, Op::Evict { trader }));
            for side in SIDES {
                v.push(ix(w, Op::ForceCancel { trader, p: UpTo { side, ..NOCUT } }));
            }
        }
        v.push(ix(w, Op::RequestSeatAuth { trader: u.rando }));
        for prev in [None, Some(a.feerec), Some(u.rando)] {
            if prev != Some(NONE) {
                v.push(ix(w, Op::FeeRecipient { new: u.fee2, prev }));
                v.push(ix(w, Op::FeeRecipient { new: w, prev }));
            }
        }
    }
    v
}

pub fn fam_auth(t: bool) -> Vec<Scen> {
    let c = Cfg { fee_bps: 100, traders: 2, ..rich() };
    let mut v = vec![];
    // handing over authority and fee recipient
    v.push(
        Scen::new("auth-handover", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 10), pl(1, o(Ask, 11, 4).post()), ix(4, Op::RequestSeat)])
            .acts(if t { 5 } else { 4 }, |a, u, _| {
                let mut v = vec![];
                for w in [u.auth, u.succ, u.rando] {
                    v.push(ix(w, Op::Claim));
                    for succ in [u.auth, u.succ, u.rando] {
                        v.push(ix(w, Op::Name { succ }));
                    }
                    for prev in [None, Some(a.feerec)] {
                        v.push(ix(w, Op::FeeRecipient { new: if a.feerec == u.fee { u.fee2 } else { u.fee }, prev }));
                    }
                }
                v.push(pl(0, o(Bid, 11, 1).ioc()));
                v.push(ix(u.rando, Op::Collect { dest: u.fee }));
                v.push(ix(u.rando, Op::Collect { dest: u.fee2 }));
                v
            })
            .probes(|a, u, _| privileged(a, u, &everybody(u))),
    );
    // status protocol, with orders, fees and traders present or not
    for (k, auth_moves) in [("status", false), ("status-handover", true)] {
        v.push(
            Scen::new(k, c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 100, 10), pl(0, o(Bid, 8, 1).free().post()), pl(1, o(Ask, 11, 2).post())])
                .acts(if auth_moves { 5 } else { 6 }, move |_, u, _| {
                    let mut v = vec![];
                    for to in 1..=5 {
                        v.push(ix(u.auth, Op::Status { to, receiver: None }));
                    }
                    v.push(pl(0, o(Bid, 11, 1).ioc()));
                    v.push(ix(1, Op::CancelAll { ff: true }));
                    v.push(ix(0, Op::CancelAll { ff: false }));
                    v.push(ix(u.rando, Op::Collect { dest: u.fee }));
                    if auth_moves {
                        v.push(ix(u.auth, Op::Name { succ: u.succ }));
                        v.push(ix(u.succ, Op::Claim));
                        for to in 1..=4 {
                            v.push(ix(u.succ, Op::Status { to, receiver: None }));
                        }
                    } else {
                        v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status: 0 }));
                        v.push(ix(u.auth, Op::Evict { trader: 0 }));
                    }
                    v
                })
                .probes(|a, u, _| {
                    let mut v = vec![];
                    for w in [u.auth, u.succ, 0] {
                        for to in 0..8 {
                            v.push(ix(w, Op::Status { to, receiver: None }));
                            for r in [u.rando, u.fee2, w] {
                                v.push(ix(w, Op::Status { to, receiver: Some(r) }));
                            }
                        }
                    }
                    v.extend(gated(a, u));
                    v.extend(privileged(a, u, &everybody(u)));
                    v
                }),
        );
    }
    // one person in several roles at once, in every status
    v.push(
        Scen::new("roles", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 10), pl(0, o(Bid, 8, 1).free().post()), pl(1, o(Ask, 11, 2).post())])
            .acts(if t { 4 } else { 3 }, |a, u, _| {
                let mut v: Vec<Act> = (1..=4).map(|to| ix(a.auth, Op::Status { to, receiver: None })).collect();
                for who in [0, u.fee, u.rando, a.auth] {
                    v.push(ix(a.auth, Op::Name { succ: who }));
                    v.push(ix(a.auth, Op::FeeRecipient { new: who, prev: Some(a.feerec) }));
                }
                v.push(ix(a.succ, Op::Claim));
                v.push(pl(0, o(Bid, 11, 1).ioc()));
                v
            })
            .probes(|a, u, _| {
                let mut v = gated(a, u);
                v.extend(privileged(a, u, &everybody(u)));
                v
            }),
    );
    // winding a market down in every order, and what is left afterwards
    v.push(
        Scen::new("tombstone", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 10), pl(1, o(Ask, 11, 2).post()), pl(0, o(Bid, 11, 1).ioc()), ix(u_auth(&c), Op::Status { to: 2, receiver: None }), ix(u_auth(&c), Op::Status { to: 4, receiver: None })])
            .acts(if t { 10 } else { 9 }, |a, u, _| {
                if !a.live {
                    // the address could be used again, but the vaults of the old market are still there
                    return vec![Act::Recreate];
                }
                let mut v = vec![ix(1, Op::CancelAll { ff: true }), ix(0, Op::Withdraw { q: None, b: None }), ix(u.rando, Op::Collect { dest: u.fee })];
                for trader in [0, 1] {
                    v.push(ix(u.auth, Op::ChangeSeat { trader, status: if trader == 0 { 0 } else { 2 } }));
                    v.push(ix(u.auth, Op::ForceCancel { trader, p: UpTo { side: Ask, ..NOCUT } }));
                    v.push(ix(u.auth, Op::Evict { trader }));
                }
                v.push(ix(u.auth, Op::Status { to: 5, receiver: None }));
                for r in [u.rando, u.fee2, u.auth, u.succ] {
                    v.push(ix(u.auth, Op::Status { to: 5, receiver: Some(r) }));
                }
                v
            })
            .probes(|a, u, _| {
                let mut v = gated(a, u);
                v.extend(privileged(a, u, &everybody(u)));
                v.push(faulty(u.auth, Op::Init(u.cfg.init_params()), vec![], if a.live { Exp::Spec } else { Exp::Err }));
                v
            }),
    );
    v.push(
        // one that was never used can go at once
        Scen::new("tombstone-unused", c.clone())
            .setup(vec![ix(u_auth(&c), Op::Init(c.init_params()))])
            .acts(4, |_, u, _| {
                let mut v: Vec<Act> = (1..=5).map(|to| ix(u.auth, Op::Status { to, receiver: None })).collect();
                v.push(ix(0, Op::RequestSeat));
                v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status: 1 }));
                v.push(dep(0, 3, 0));
                v
            })
            .probes(|a, u, _| {
                let mut v = gated(a, u);
                v.extend(privileged(a, u, &[u.auth, u.rando]));
                v
            }),
    );
    v
}
fn u_auth(c: &Cfg) -> Pid {
    c.traders
}

/// one instruction of every kind a status or a seat gates
fn gated(a: &Abs, u: &Uni) -> Vec<Act> {
    let mut v = vec![];
    for w in [0, 1] {
        for ff in [false, true] {
            for side in SIDES {
                let (x, p) = if side == Bid { (12, 9) } else { (7, 13) };
                v.push(pl(w, o(side, x, 1).freeb(ff).ioc()));
                v.push(pl(w, o(side, x, 1).freeb(ff).lim()));
                v.push(pl(w, o(side, x, 3).freeb(ff).lim()));
                v.push(pl(w, o(side, p, 1).freeb(ff).lim()));
                v.push(pl(w, o(side, p, 1).freeb(ff).post()));
                v.push(pl(w, o(side, x, 1).freeb(ff).amend().post()));
            }
            v.push(ix(w, multi(vec![(9, 1, GTC)], vec![(13, 1, GTC)], 0, ff)));
            v.push(ix(w, Op::CancelAll { ff }));
            for side in SIDES {
                v.push(ix(w, Op::CancelUpTo { p: UpTo { side, ..NOCUT }, ff }));
            }
            for (side, px, id, who, _) in ids(a) {
                if who == w {
                    v.push(ix(w, Op::Reduce { side, px, id, size: 1, ff }));
                    v.push(ix(w, Op::CancelIds { v: vec![(side, px, id)], ff }));
                }
            }
        }
        v.push(dep(w, 1, 1));
        v.push(dep(w, 0, 0));
        v.push(ix(w, Op::Withdraw { q: None, b: None }));
        v.push(ix(w, Op::Withdraw { q: Some(1), b: Some(0) }));
    }
    v.push(ix(u.rando, Op::RequestSeat));
    v.push(ix(0, Op::RequestSeat));
    v.push(ix(u.rando, Op::Withdraw { q: None, b: None }));
    v.push(pl(u.rando, o(Bid, 12, 1).ioc()));
    v.push(pl(u.rando, o(Bid, 12, 1).free().ioc()));
    v.push(ix(u.rando, Op::Collect { dest: u.fee }));
    for trader in [0, 1, u.rando] {
        v.push(ix(u.auth, Op::RequestSeatAuth { trader }));
        v.push(ix(u.auth, Op::ForceCancel { trader, p: UpTo { side: Bid, ..NOCUT } }));
        v.push(ix(u.auth, Op::Evict { trader }));
    }
    v
}

/// seats: requests, approvals, retirement, the number of places on the market
pub fn fam_seats(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let c = Cfg { fee_bps: 100, traders: 2, ..rich() };
    let auth = c.traders;
    v.push(
        Scen::new("seats", c.clone())
            .setup(vec![ix(auth, Op::Init(c.init_params())), ix(auth, Op::Status { to: 1, receiver: None })])
            .acts(if t { 6 } else { 5 }, |_, u, _| {
                let mut v = vec![ix(0, Op::RequestSeat), ix(u.auth, Op::RequestSeatAuth { trader: 0 }), ix(u.auth, Op::RequestSeatAuth { trader: 1 })];
                for status in 0..3 {
                    v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status }));
                }
                v.push(ix(u.auth, Op::ChangeSeat { trader: 1, status: 1 }));
                v.push(dep(0, 40, 4));
                v.push(pl(0, o(Bid, 9, 1).post()));
                v.push(pl(1, o(Ask, 9, 2).post()));
                v.push(ix(u.auth, Op::Evict { trader: 0 }));
                v.push(ix(u.auth, Op::ForceCancel { trader: 0, p: UpTo { side: Bid, ..NOCUT } }));
                v.push(Act::Fund { slot: u.persons[0].seat, lam: 1000 });
                v
            })
            .probes(|a, u, d| {
                let mut v = vec![];
                for w in [0, 1, u.rando] {
                    v.push(ix(w, Op::RequestSeat));
                    v.push(dep(w, 1, 1));
                    v.push(pl(w, o(Bid, 5, 1).post()));
                    v.push(pl(w, o(Bid, 5, 1).free().post()));
                    v.push(pl(w, o(Bid, 9, 1).lim()));
                    v.push(pl(w, o(Bid, 9, 1).free().ioc()));
                    v.push(pl(w, o(Ask, 9, 1).ioc()));
                    v.push(ix(w, multi(vec![(5, 1, GTC)], vec![], 2, true)));
                    v.push(ix(w, Op::Withdraw { q: None, b: None }));
                    v.push(ix(w, Op::CancelAll { ff: false }));
                }
                for w in [u.auth, u.rando, 0] {
                    if w != u.auth && d > 3 {
                        continue;
                    }
                    for trader in [0, 1, u.rando] {
                        for status in 0..5 {
                            v.push(ix(w, Op::ChangeSeat { trader, status }));
                        }
                        v.push(ix(w, Op::RequestSeatAuth { trader }));
                        v.push(ix(w, Op::Evict { trader }));
                        for side in SIDES {
                            v.push(ix(w, Op::ForceCancel { trader, p: UpTo { side, ..NOCUT } }));
                        }
                    }
                }
                let _ = a;
                v
            }),
    );
    // prefunded seat addresses
    v.push(
        Scen::new("seats-prefunded", c.clone())
            .setup(vec![ix(auth, Op::Init(c.init_params()))])
            .acts(3, |_, u, _| {
                let mut v = vec![];
                for lam in [1, 890_880, 1_781_760, 5_000_000] {
                    v.push(Act::Fund { slot: u.persons[0].seat, lam });
                    v.push(Act::Fund { slot: u.persons[1].seat, lam });
                }
                v.push(ix(0, Op::RequestSeat));
                v
            })
            .probes(|_, u, _| {
                let mut v = vec![ix(0, Op::RequestSeat), ix(1, Op::RequestSeat)];
                for trader in [0, 1] {
                    v.push(ix(u.auth, Op::RequestSeatAuth { trader }));
                    v.push(ix(u.auth, Op::ChangeSeat { trader, status: 1 }));
                }
                v
            }),
    );
    // a market with no place left
    let c = Cfg { fee_bps: 100, traders: 130, ..rich() };
    let auth = c.traders;
    let mut s = vec![ix(auth, Op::Init(c.init_params())), ix(auth, Op::Status { to: 1, receiver: None })];
    for p in 0..130 {
        s.push(ix(auth, Op::RequestSeatAuth { trader: p }));
        if p < 127 {
            s.push(ix(auth, Op::ChangeSeat { trader: p, status: 1 }));
        }
    }
    s.extend([dep(3, 50, 0), dep(7, 50, 5), pl(7, o(Ask, 11, 2).post()), ix(auth, Op::ChangeSeat { trader: 3, status: 0 })]);
    v.push(
        Scen::new("seats-full", c.clone())
            .setup(s)
            .acts(if t { 4 } else { 3 }, |_, u, _| {
                let mut v = vec![];
                for trader in [127, 128, 129] {
                    v.push(ix(u.auth, Op::ChangeSeat { trader, status: 1 }));
                }
                v.push(ix(u.auth, Op::Evict { trader: 3 }));
                v.push(ix(u.auth, Op::Evict { trader: 7 }));
                v.push(ix(u.auth, Op::ChangeSeat { trader: 7, status: 2 }));
                v.push(ix(u.auth, Op::ForceCancel { trader: 7, p: UpTo { side: Ask, ..NOCUT } }));
                v.push(pl(7, o(Bid, 5, 1).free().post()));
                v
            })
            .probes(|_, u, _| {
                let mut v = vec![];
                for w in [3, 7, 126, 127, 128, 129] {
                    v.push(dep(w, 1, 1));
                    v.push(pl(w, o(Bid, 5, 1).post()));
                    v.push(pl(w, o(Bid, 11, 1).ioc()));
                    v.push(pl(w, o(Bid, 5, 1).silent().post()));
                    v.push(ix(w, multi(vec![(5, 1, GTC)], vec![], 0, false)));
                    v.push(ix(w, Op::Withdraw { q: None, b: None }));
                    v.push(ix(u.auth, Op::Evict { trader: w }));
                    for status in [0, 1, 2] {
                        v.push(ix(u.auth, Op::ChangeSeat { trader: w, status }));
                    }
                }
                v
            }),
    );
    v
}

// ------------------------------------------------------------------------------------------------
// account substitution

/// one accepted instance of every instruction in the given state
fn every_op(a: &Abs, u: &Uni) -> Vec<Act> {
    let mut v = vec![];
    for ff in [false, true] {
        v.push(pl(0, o(Bid, 12, 1).freeb(ff).ioc()));
        v.push(pl(0, o(Ask, 7, 1).freeb(ff).ioc()));
        v.push(pl(0, o(Ask, 20, 1).freeb(ff).post()));
        v.push(pl(0, o(Bid, 12, 2).freeb(ff).lim()));
        v.push(ix(0, multi(vec![(9, 1, GTC)], vec![(13, 1, GTC)], 0, ff)));
        if let Some((side, px, id, _, _)) = ids(a).into_iter().find(|x| x.3 == 0) {
            v.push(ix(0, Op::Reduce { side, px, id, size: 1, ff }));
            v.push(ix(0, Op::CancelIds { v: vec![(side, px, id)], ff }));
            v.push(ix(0, Op::CancelUpTo { p: UpTo { side, ..NOCUT }, ff }));
        }
        v.push(ix(0, Op::CancelAll { ff }));
    }
    v.push(ix(0, Op::Withdraw { q: Some(2), b: Some(1) }));
    v.push(ix(0, Op::Withdraw { q: None, b: None }));
    v.push(dep(0, 3, 2));
    v.push(ix(u.rando, Op::RequestSeat));
    v.push(ix(u.auth, Op::RequestSeatAuth { trader: u.rando }));
    v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status: 0 }));
    v.push(ix(u.auth, Op::ChangeSeat { trader: 2, status: 1 }));
    v.push(ix(u.auth, Op::Evict { trader: 2 }));
    v.push(ix(u.auth, Op::Evict { trader: 1 }));
    v.push(ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side: Ask, ..NOCUT } }));
    v.push(ix(u.succ, Op::Claim));
    v.push(ix(u.auth, Op::Name { succ: u.succ }));
    for to in [2, 3] {
        v.push(ix(u.auth, Op::Status { to, receiver: None }));
    }
    v.push(ix(u.rando, Op::Collect { dest: u.fee }));
    v.push(ix(u.auth, Op::FeeRecipient { new: u.fee2, prev: Some(u.fee) }));
    v.push(ix(u.auth, Op::FeeRecipient { new: u.fee2, prev: None }));
    v.into_iter().filter(|x| spec::step(u, a, x).out == spec::Outcome::Ok).collect()
}

/// Whether the account may take this position of the instruction without anything else being wrong.
fn stands_in(u: &Uni, op: &Op, i: usize, s: Slot) -> bool {
    let market2 = u.names.get("MARKET2").copied();
    match (i, op) {
        (0, _) | (1, _) => false,
        (2, Op::Init(_)) => Some(s) == market2, // its own vaults do not match; covered below
        // nothing in the instruction is tied to one market: a genuine order to the other one
        (2, Op::Reduce { ff: true, .. } | Op::CancelAll { ff: true } | Op::CancelUpTo { ff: true, .. } | Op::CancelIds { ff: true, .. }) => Some(s) == market2,
        (2, _) => false,
        (3, Op::Init(_)) => true,
        (3, Op::Collect { .. }) => true,
        (3, Op::Reduce { ff: true, .. } | Op::CancelAll { ff: true } | Op::CancelUpTo { ff: true, .. } | Op::CancelIds { ff: true, .. }) => true,
        (3, _) => false,
        (4, Op::RequestSeatAuth { .. }) => true, // whoever pays
        (4, Op::FeeRecipient { .. }) => true,    // any account can be named
        (5, Op::FeeRecipient { .. }) => true,    // need not sign while nothing is uncollected
        (4, Op::Status { .. }) => true,
        (4, Op::ChangeSeat { .. }) => u.persons.iter().any(|p| p.seat == s),
        _ => false,
    }
}

/// Whether these accounts are those of the same kind of instruction for some signer and trader.
fn genuine(u: &Uni, op: &Op, slots: &[Slot]) -> bool {
    let n = u.persons.len() as Pid;
    (0..n).any(|who| {
        (0..n).any(|t| {
            let mut o = op.clone();
            match &mut o {
                Op::Evict { trader } | Op::ForceCancel { trader, .. } | Op::ChangeSeat { trader, .. } | Op::RequestSeatAuth { trader } => *trader = t,
                _ if t > 0 => return false,
                _ => {}
            }
            build_op(u, who, &o).metas.iter().map(|m| m.slot).eq(slots.iter().copied())
        })
    })
}

/// All substitutions of two accounts at once, by everything (`full`) or by the more plausible ones.
fn account_pairs(u: &Uni, act: &Act, full: bool) -> Vec<Act> {
    let (who, op) = match act {
        Act::Ix { who, op, .. } => (*who, op.clone()),
        _ => return vec![],
    };
    let ixn = build_op(u, who, &op);
    let n = ixn.metas.len();
    let base: Vec<Slot> = ixn.metas.iter().map(|m| m.slot).collect();
    let mut from: Vec<Slot> = (0..u.layout.keys.len()).collect();
    if !full {
        from.retain(|s| *s < S_PERSONS + 8 || *s >= S_PERSONS + 4 * u.persons.len() || *s == u.persons[u.auth as usize].wallet || *s == u.persons[u.fee as usize].quote);
    }
    let wallets: Vec<Slot> = u.persons.iter().map(|p| p.wallet).collect();
    let market2 = u.names.get("MARKET2").copied();
    let ok = |i: usize, s: Slot| s != base[i] && (!ixn.metas[i].s || wallets.contains(&s)) && !(i == 2 && Some(s) == market2);
    let mut v = vec![];
    for i in 0..n {
        for j in i + 1..n {
            for &s in from.iter().filter(|s| ok(i, **s)) {
                for &t in from.iter().filter(|t| ok(j, **t)) {
                    if stands_in(u, &op, i, s) && stands_in(u, &op, j, t) {
                        continue;
                    }
                    let mut slots = base.clone();
                    slots[i] = s;
                    slots[j] = t;
                    if (stands_in(u, &op, i, s) || stands_in(u, &op, j, t) || i == 3 || matches!(op, Op::Evict { .. } | Op::ForceCancel { .. } | Op::RequestSeatAuth { .. })) && genuine(u, &op, &slots) {
                        continue;
                    }
                    v.push(faulty(who, op.clone(), vec![Fault::Subst(i, s), Fault::Subst(j, t)], Exp::Err));
                }
            }
        }
    }
    v
}

/// All single substitutions of an account, and dropped signatures, write permissions and accounts.
fn account_faults(u: &Uni, act: &Act, full: bool) -> Vec<Act> {
    let (who, op) = match act {
        Act::Ix { who, op, .. } => (*who, op.clone()),
        _ => return vec![],
    };
    let ixn = build_op(u, who, &op);
    let n = ixn.metas.len();
    let mut v = vec![];
    let wallets: Vec<usize> = u.persons.iter().map(|p| p.wallet).collect();
    let vaulted = ixn.metas.iter().any(|m| m.slot == S_QVAULT);
    let seated = matches!(op, Op::Order(Mode::Place | Mode::PlaceFF | Mode::SwapFF, _) | Op::Multi(..) | Op::Deposit { .. });
    let name = |k: &str| u.names.get(k).copied();
    let market2 = name("MARKET2");
    for i in 0..n {
        let m = ixn.metas[i];
        for s in 0..u.layout.keys.len() {
            if s == m.slot || (!full && s >= S_PERSONS + 8 && s < S_PERSONS + 4 * u.persons.len() && s % 3 == 0) {
                continue;
            }
            if m.s && !wallets.contains(&s) {
                continue; // only key pairs can sign
            }
            let legit = stands_in(u, &op, i, s);
            if legit {
                continue;
            }
            v.push(faulty(who, op.clone(), vec![Fault::Subst(i, s)], Exp::Err));
        }
        if m.s {
            v.push(faulty(who, op.clone(), vec![Fault::DropSign(i)], if i == 5 { Exp::SpecOrErr } else { Exp::Err }));
        }
        if m.w {
            v.push(faulty(who, op.clone(), vec![Fault::DropWrite(i)], Exp::SpecOrErr));
        }
        for j in i + 1..n {
            if ixn.metas[i].slot != ixn.metas[j].slot && !ixn.metas[i].s && !ixn.metas[j].s && !(matches!(op, Op::FeeRecipient { .. }) && i >= 4) {
                v.push(faulty(who, op.clone(), vec![Fault::Swap(i, j)], Exp::Err));
            }
        }
    }
    for k in 0..n {
        let optional = match op {
            Op::FeeRecipient { .. } => k == 5,
            Op::Status { .. } => k == 4,
            _ => false,
        };
        if !optional {
            v.push(faulty(who, op.clone(), vec![Fault::Truncate(k)], Exp::Err));
        }
    }
    if !matches!(op, Op::Status { .. } | Op::FeeRecipient { .. }) {
        for s in [S_SYS, S_QVAULT, u.persons[1].wallet] {
            v.push(faulty(who, op.clone(), vec![Fault::Extra(s)], Exp::Spec));
        }
    }
    // the market, its vaults and the seat must belong together
    if let (Some(m2), Some(b2), Some(q2)) = (market2, name("BVAULT2"), name("QVAULT2")) {
        let at = |s: usize| ixn.metas.iter().position(|m| m.slot == s);
        let me = match &op {
            Op::Evict { trader } | Op::ForceCancel { trader, .. } | Op::ChangeSeat { trader, .. } => *trader,
            _ => who,
        };
        let seat1 = u.persons[me as usize].seat;
        let seat2 = name(&format!("P{}.seat2", me));
        let other = vec![(at(S_MARKET), Some(m2)), (at(S_BVAULT), Some(b2)), (at(S_QVAULT), Some(q2)), (at(seat1), seat2)];
        let other: Vec<(usize, usize)> = other.into_iter().filter_map(|(i, s)| Some((i?, s?))).collect();
        let priv_op = matches!(op, Op::Evict { .. } | Op::ForceCancel { .. } | Op::ChangeSeat { .. } | Op::Claim | Op::Name { .. } | Op::Status { .. } | Op::FeeRecipient { .. });
        for mask in 1..(1u32 << other.len()) {
            let all = mask + 1 == 1 << other.len();
            if mask.count_ones() < 2 || (all && !priv_op) || (matches!(op, Op::Init(_) | Op::RequestSeat | Op::RequestSeatAuth { .. })) {
                continue;
            }
            let f = other.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, x)| Fault::Subst(x.0, x.1)).collect();
            v.push(faulty(who, op.clone(), f, Exp::Err));
        }
        // both token accounts of somebody else, both vaults replaced by look-alikes
        if vaulted {
            let p = &u.persons[me as usize];
            if let (Some(i), Some(j)) = (at(p.base), at(p.quote)) {
                for q in [1, 2, 0] {
                    let q = &u.persons[q as usize];
                    if q.base != p.base {
                        v.push(faulty(who, op.clone(), vec![Fault::Subst(i, q.base), Fault::Subst(j, q.quote)], Exp::Err));
                        // and signed by that somebody, over the trader's own seat
                        if seated {
                            v.push(faulty(who, op.clone(), vec![Fault::Subst(i, q.base), Fault::Subst(j, q.quote), Fault::Subst(3, q.wallet)], Exp::Err));
                        }
                    }
                }
                for (x, y) in [("LOOK.bvault", "LOOK.qvault"), ("FAKE.base", "FAKE.quote")] {
                    if let (Some(x), Some(y), Some(bi), Some(qi)) = (name(x), name(y), at(S_BVAULT), at(S_QVAULT)) {
                        v.push(faulty(who, op.clone(), vec![Fault::Subst(bi, x), Fault::Subst(qi, y)], Exp::Err));
                        v.push(faulty(who, op.clone(), vec![Fault::Subst(i, x), Fault::Subst(j, y)], Exp::Err));
                    }
                }
                if let (Some(bi), Some(qi)) = (at(S_BVAULT), at(S_QVAULT)) {
                    // swapping the two tokens everywhere
                    v.push(faulty(who, op.clone(), vec![Fault::Swap(i, j), Fault::Swap(bi, qi)], Exp::Err));
                    v.push(faulty(who, op.clone(), vec![Fault::Subst(i, S_BVAULT), Fault::Subst(j, S_QVAULT)], Exp::Err));
                    v.push(faulty(who, op.clone(), vec![Fault::Subst(bi, p.base), Fault::Subst(qi, p.quote)], Exp::Err));
                }
            }
        }
    }
    v
}
/// a market with orders, funds, fees and seats in every state, where every instruction has something to do
fn accounts_setup(c: &Cfg) -> Vec<Act> {
    let auth = c.traders;
    let mut s = open(c);
    s.extend([
        dep(0, 100, 20),
        dep(1, 50, 10),
        dep(2, 30, 3),
        pl(1, o(Ask, 11, 3).post()),
        pl(1, o(Bid, 8, 3).post()),
        pl(0, o(Ask, 15, 2).free().post()),
        pl(0, o(Bid, 5, 2).free().post()),
        pl(0, o(Bid, 11, 1).ioc()),
        ix(auth, Op::Name { succ: auth + 1 }),
        ix(auth, Op::ChangeSeat { trader: 2, status: 0 }),
        ix(auth, Op::ChangeSeat { trader: 1, status: 0 }),
    ]);
    s
}

pub fn fam_accounts(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let c = Cfg { fee_bps: 100, traders: 3, extras: true, ..rich() };
    let auth = c.traders;
    for (k, parts) in [("a", 0usize), ("b", 1), ("c", 2), ("d", 3)] {
        let s = accounts_setup(&c);
        v.push(
            Scen::new(&format!("accounts-{}", k), c.clone())
                .setup(s)
                .acts(if t { 4 } else { 2 }, move |_, u, _| {
                    vec![
                        ix(u.auth, Op::Status { to: 2, receiver: None }),
                        ix(u.auth, Op::Status { to: 3, receiver: None }),
                        ix(u.auth, Op::Status { to: 4, receiver: None }),
                        ix(u.auth, Op::ChangeSeat { trader: 0, status: 2 }),
                        ix(1, Op::CancelAll { ff: true }),
                        ix(u.rando, Op::Collect { dest: u.fee }),
                    ]
                })
                .probes(move |a, u, _| {
                    let mut v = vec![];
                    for (i, x) in every_op(a, u).into_iter().enumerate() {
                        if i % 4 == parts {
                            v.push(x.clone());
                            v.extend(account_faults(u, &x, true));
                        }
                    }
                    if parts == 0 {
                        v.extend(log_writes(u));
                    }
                    v
                }),
        );
    }
    // two accounts replaced at once
    for part in 0..16usize {
        v.push(Scen::new(&format!("accounts-pairs-{}", part), c.clone()).setup(accounts_setup(&c)).probes(move |a, u, _| {
            every_op(a, u).into_iter().enumerate().filter(|(i, _)| i % 16 == part).flat_map(|(_, x)| account_pairs(u, &x, t)).collect()
        }));
    }
    // creating the market
    v.push(
        Scen::new("accounts-init", c.clone())
            .acts(3, |_, u, _| {
                vec![
                    ix(u.auth, Op::Init(u.cfg.init_params())),
                    // vault addresses that somebody has already paid for
                    Act::Fund { slot: S_BVAULT, lam: 5_000_000 },
                    Act::Fund { slot: S_QVAULT, lam: 5_000_000 },
                ]
            })
            .probes(|a, u, _| {
                let act = ix(u.auth, Op::Init(u.cfg.init_params()));
                if spec::step(u, a, &act).out != spec::Outcome::Ok {
                    return log_writes(u);
                }
                let mut v = account_faults(u, &act, true);
                let (mints, vaults) = ([(S_BMINT, 4, 6), (S_QMINT, 5, 7)], [("MINT.blank", "MINT.blank.vault"), ("MINT.evil", "MINT.evil.vault"), ("MINT.short", "MINT.short.vault")]);
                let op = Op::Init(u.cfg.init_params());
                for (m, i, j) in mints {
                    let ixn = build_op(u, u.auth, &op);
                    assert!(ixn.metas[i].slot == m && matches!(ixn.metas[j].slot, S_BVAULT | S_QVAULT), "accounts of the initialisation");
                    for (x, y) in vaults {
                        v.push(faulty(u.auth, op.clone(), vec![Fault::Subst(i, u.names[x]), Fault::Subst(j, u.names[y])], Exp::Err));
                    }
                }
                // both tokens the same: the second vault exists already
                v.push(faulty(u.auth, op.clone(), vec![Fault::Subst(5, S_BMINT), Fault::Subst(7, S_BVAULT)], Exp::Err));
                v.push(faulty(u.auth, op.clone(), vec![Fault::Subst(4, S_QMINT), Fault::Subst(6, S_QVAULT)], Exp::Err));
                v.push(act);
                v
            }),
    );
    // seats whose address somebody has already paid for
    v.push(
        Scen::new("accounts-paid-seat", c.clone())
            .setup(vec![ix(auth, Op::Init(c.init_params()))])
            .acts(2, |_, u, d| {
                let seat = u.persons[0].seat;
                match d {
                    0 => [1, 5_000_000].iter().map(|&lam| Act::Fund { slot: seat, lam }).collect(),
                    _ => vec![ix(0, Op::RequestSeat), ix(u.auth, Op::RequestSeatAuth { trader: 0 })],
                }
            })
            .probes(|a, u, _| {
                let mut v = vec![];
                for act in [ix(0, Op::RequestSeat), ix(u.auth, Op::RequestSeatAuth { trader: 0 })] {
                    v.push(act.clone());
                    if spec::step(u, a, &act).out == spec::Outcome::Ok {
                        v.extend(account_faults(u, &act, true));
                    }
                }
                v
            }),
    );
    // the closing of a market and evictions, where funds leave the program
    let mut s = open(&c);
    s.extend([dep(0, 100, 20), ix(auth, Op::ChangeSeat { trader: 0, status: 0 })]);
    v.push(
        Scen::new("accounts-close", c.clone())
            .setup(s)
            .acts(6, |_, u, d| match d {
                0 => vec![ix(u.auth, Op::Evict { trader: 0 })],
                1 => vec![ix(u.auth, Op::ChangeSeat { trader: 1, status: 2 })],
                2 => vec![ix(u.auth, Op::Evict { trader: 1 })],
                3 => vec![ix(u.auth, Op::ChangeSeat { trader: 2, status: 2 })],
                4 => vec![ix(u.auth, Op::Evict { trader: 2 })],
                _ => vec![ix(u.auth, Op::Status { to: 2, receiver: None })],
            })
            .probes(|a, u, d| {
                let mut v = vec![];
                if d >= 5 {
                    for to in [4, 5] {
                        let act = ix(u.auth, Op::Status { to, receiver: None });
                        v.push(act.clone());
                        if spec::step(u, a, &act).out == spec::Outcome::Ok {
                            v.extend(account_faults(u, &act, true));
                        }
                    }
                }
                if d < 5 && d % 2 == 0 {
                    for trader in [0, 1, 2] {
                        let act = ix(u.auth, Op::Evict { trader });
                        v.push(act.clone());
                        if spec::step(u, a, &act).out == spec::Outcome::Ok {
                            v.extend(account_faults(u, &act, false));
                        }
                    }
                }
                v
            }),
    );
    v
}

/// attempts of outsiders to write to the event log
fn log_writes(u: &Uni) -> Vec<Act> {
    let mut v = vec![];
    for w in [0, u.auth, u.rando] {
        v.push(faulty(w, Op::Log, vec![], Exp::Err));
        v.push(faulty(w, Op::Log, vec![Fault::DropSign(0), Fault::Subst(0, S_LOG)], Exp::Err));
        v.push(faulty(w, Op::Log, vec![Fault::Extra(S_LOG)], Exp::Err));
        for d in [vec![0u8; 1], vec![1, 2, 3], vec![1; 120]] {
            v.push(faulty(w, Op::Log, vec![Fault::Append(d.clone())], Exp::Err));
            v.push(faulty(w, Op::Log, vec![Fault::DropSign(0), Fault::Subst(0, S_LOG), Fault::Append(d)], Exp::Err));
        }
        // with the accounts of an ordinary instruction
        for tag in [15u8] {
            v.push(faulty(w, Op::CancelAll { ff: true }, vec![Fault::Byte(0, tag)], Exp::Err));
            v.push(faulty(w, Op::CancelAll { ff: false }, vec![Fault::Byte(0, tag)], Exp::Err));
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------
// creating a market

pub fn fam_init(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    // parameters that must be refused, and those of the account at hand
    let c = Cfg { fee_bps: 5, traders: 2, ..rich() };
    v.push(
        Scen::new("init-grid", c.clone())
            .acts(2, |_, u, d| {
                let mut v = vec![Act::Fund { slot: S_BVAULT, lam: 1 }, Act::Fund { slot: S_QVAULT, lam: 5_000_000 }, Act::Fund { slot: S_BVAULT, lam: 2_039_280 }];
                if d == 1 {
                    v.push(ix(u.auth, Op::Init(u.cfg.init_params())));
                }
                v
            })
            .probes(|_, u, d| {
                let b = u.cfg.init_params();
                let mut v = vec![];
                for w in [u.auth, 0, u.rando] {
                    v.push(ix(w, Op::Init(b)));
                    for coll in [u.auth, u.fee2, u.rando, 0] {
                        v.push(ix(w, Op::Init(InitP { coll: Some(coll), ..b })));
                    }
                }
                let sizes: &[u64] = &[0, 1, 127, 128, 129, 256, 511, 512, 513, 1024, 1025, 1153, 2048, 2049, 2177, 4096, 4097, 4225, 8193, 8321, u64::MAX];
                for &x in sizes {
                    for &y in if d == 0 { sizes } else { &sizes[..4] } {
                        for &z in if d == 0 { sizes } else { &sizes[3..5] } {
                            if (x, y, z) != (512, 512, 128) {
                                v.push(ix(u.auth, Op::Init(InitP { bids: x, asks: y, seats: z, ..b })));
                            }
                        }
                    }
                }
                for fee in [10001u16, 20000, u16::MAX] {
                    v.push(ix(u.auth, Op::Init(InitP { fee, ..b })));
                }
                // lots, ticks and units that do not go into each other
                if d == 0 {
                    for raw in [None, Some(0u32), Some(3)] {
                        let unit = 100 * raw.unwrap_or(1) as u64;
                        for nblu in [0u64, 1, 2, 3, 6, 7, 10, 30, 40, 50, 75, 99, 100, 101, 150, 200, 300, 600, 1 << 32, u64::MAX] {
                            for tick in [0, 1, nblu / 2, nblu.wrapping_sub(1), nblu, nblu.wrapping_add(1), nblu.wrapping_mul(2), nblu.wrapping_mul(3) / 2, nblu.wrapping_mul(3)] {
                                for nqlu in [0u64, 1, 2, 3, 8, 30, 1000, 1001, 2000, u64::MAX] {
                                    let good = unit > 0 && nblu > 0 && nqlu > 0 && tick > 0 && unit % nblu == 0 && 1000 % nqlu == 0 && tick % nblu == 0;
                                    if !good {
                                        v.push(ix(u.auth, Op::Init(InitP { raw, nblu, nqlu, tick, ..b })));
                                    }
                                }
                            }
                        }
                    }
                }
                // base unit: 100 atoms, quote unit: 1000 atoms
                for x in [0u64, 3, 6, 7, 9, 11, 101, 1000, u64::MAX] {
                    v.push(ix(u.auth, Op::Init(InitP { nblu: x, ..b })));
                    v.push(ix(u.auth, Op::Init(InitP { nqlu: if x == 1000 { 2000 } else { x }, ..b })));
                }
                for tick in [0u64, 1, 5, 9, 11, 15, 19, 21, u64::MAX] {
                    v.push(ix(u.auth, Op::Init(InitP { tick, ..b })));
                }
                for raw in [0u32] {
                    v.push(ix(u.auth, Op::Init(InitP { raw: Some(raw), ..b })));
                }
                v
            }),
    );
    // parameters that must be accepted, each with a little life afterwards
    let mut cfgs = vec![];
    let fees: &[u16] = if t { &[0, 1, 5, 100, 9999, 10000] } else { &[0, 5, 10000] };
    for &fee in fees {
        cfgs.push(Cfg { fee_bps: fee, ..rich() });
    }
    for (bd, qd, raw, nblu, nqlu, tick) in [
        (2u8, 3u8, None, 1u64, 1u64, 1u64),
        (2, 3, None, 100, 1000, 100),
        (2, 3, None, 50, 500, 150),
        (2, 3, Some(1), 20, 8, 60),
        (2, 3, Some(10), 1000, 1000, 1000),
        (2, 3, Some(3), 75, 125, 225),
        (0, 0, None, 1, 1, 7),
        (9, 6, None, 1000, 100_000, 1000),
        (9, 6, Some(1_000_000), 10, 1_000_000, 10),
        (6, 0, Some(u32::MAX), 1, 1, 3),
        (18, 18, None, 1_000_000, 1_000_000_000, 1_000_000),
    ] {
        cfgs.push(Cfg { base_dec: bd, quote_dec: qd, raw_base: raw, nblu, nqlu, tick, fee_bps: 30, ..rich() });
    }
    for slack in [8i64, 1000, 40_000] {
        cfgs.push(Cfg { slack, ..rich() });
    }
    for (i, c) in cfgs.into_iter().enumerate() {
        let c = Cfg { traders: 2, wbase: 1 << 50, wquote: 1 << 50, ..c };
        v.push(
            Scen::new(&format!("init-ok-{}", i), c.clone())
                .acts(4, |a, u, d| {
                    if d == 0 {
                        return vec![ix(u.auth, Op::Init(u.cfg.init_params()))];
                    }
                    let _ = a;
                    vec![
                        ix(u.auth, Op::RequestSeatAuth { trader: 0 }),
                        ix(u.auth, Op::ChangeSeat { trader: 0, status: 1 }),
                        ix(u.auth, Op::Status { to: 1, receiver: None }),
                        dep(0, 50, 5),
                    ]
                })
                .probes(|a, u, d| {
                    let b = u.cfg.init_params();
                    let mut v = vec![ix(0, Op::Init(b)), ix(u.auth, Op::Init(b))];
                    if a.live {
                        v.push(ix(u.rando, Op::Init(InitP { fee: 1, ..b })));
                    }
                    if d > 1 {
                        v.extend([pl(0, o(Bid, 3, 2).post()), pl(0, o(Ask, 3, 2).lim()), pl(u.rando, o(Bid, 3, 2).ioc()), dep(0, 1, 1)]);
                        v.push(ix(u.auth, Op::Status { to: 1, receiver: None }));
                        v.push(ix(u.rando, Op::Status { to: 1, receiver: None }));
                    }
                    let _ = a;
                    v
                })
                .views(),
        );
    }
    // decimals so large that an atom count does not fit 64 bits; accounts that are too small
    for (k, c) in [
        ("huge-base", Cfg { base_dec: 20, ..rich() }),
        ("huge-quote", Cfg { quote_dec: 20, ..rich() }),
        ("huge-raw", Cfg { base_dec: 12, raw_base: Some(u32::MAX), ..rich() }),
        ("short", Cfg { slack: -8, ..rich() }),
        ("shorter", Cfg { slack: -20_000, ..rich() }),
        ("header-only", Cfg { slack: -(84_368 - 576 - 8), ..rich() }),
        ("stub", Cfg { slack: -1_000_000, ..rich() }),
    ] {
        let c = Cfg { traders: 1, ..c };
        v.push(Scen::new(&format!("init-bad-{}", k), c.clone()).probes(|_, u, _| {
            let b = u.cfg.init_params();
            vec![faulty(u.auth, Op::Init(b), vec![], Exp::Err), faulty(u.auth, Op::Init(InitP { bids: 1024, asks: 1024, ..b }), vec![], Exp::Err)]
        }));
    }
    // instructions before there is a market
    let c = Cfg { traders: 2, ..rich() };
    v.push(Scen::new("init-none", c.clone()).probes(|a, u, _| {
        let mut v = gated(a, u);
        v.extend(privileged(a, u, &[u.auth, u.rando]));
        v
    }));
    v
}

// ------------------------------------------------------------------------------------------------
// encodings

pub fn fam_encode(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let c = Cfg { fee_bps: 100, traders: 3, ..rich() };
    let auth = c.traders;
    let setup = |c: &Cfg| {
        let mut s = open(c);
        s.extend([
            dep(0, 200, 40),
            dep(1, 50, 10),
            dep(2, 30, 3),
            pl(1, o(Ask, 11, 3).post()),
            pl(1, o(Bid, 8, 3).post()),
            pl(0, o(Ask, 15, 2).free().post()),
            pl(0, o(Bid, 5, 2).free().post()),
            pl(0, o(Bid, 11, 1).ioc()),
            ix(auth, Op::Name { succ: auth + 1 }),
            ix(auth, Op::ChangeSeat { trader: 2, status: 0 }),
        ]);
        s
    };
    // every order packet cut, extended, and sent to every order instruction
    let packets = |a: &Abs| {
        let mut ps = vec![];
        let (s, n) = (a.slot, a.ts as u64);
        for side in SIDES {
            for px in if side == Bid { [7, 12] } else { [13, 7] } {
                for free in [false, true] {
                    for tif in [(None, None), (Some(s + 5), None), (None, Some(n + 5)), (Some(s + 5), Some(n + 5))] {
                        let b = o(side, px, 2).freeb(free).tif(tif.0, tif.1).cid(3);
                        ps.push(b.post());
                        ps.push(b.amend().post());
                        ps.push(b.silent().post());
                        ps.push(b.lim());
                        ps.push(b.silent().ml(Some(1)).lim());
                        ps.push(b.st(St::DecrementTake).lim());
                        ps.push(b.ioc());
                        ps.push(b.min(1, 1).ml(Some(2)).ioc());
                        ps.push(b.min(2, 0).ioc());
                        ps.push(b.min(2, 0).ml(Some(1)).st(St::DecrementTake).ioc());
                        if tif == (None, None) {
                            // what the constructors can say besides
                            let z = b.cid(0);
                            // deep enough to meet two orders, the second one's own
                            for st in [St::CancelProvide, St::DecrementTake, St::Abort] {
                                for ml in [None, Some(1), Some(2)] {
                                    let d = O { px: Some(if side == Bid { 16 } else { 4 }), lots: 4, ..z }.st(st).ml(ml);
                                    ps.push(d.lim());
                                    ps.push(d.ioc());
                                    ps.push(d.min(4, 0).ioc());
                                    ps.push(O { lots: 0, ..d }.quote(150).ioc());
                                    ps.push(O { px: None, ..d }.ioc());
                                    ps.push(O { px: None, lots: 0, ..d }.quote(150).ioc());
                                }
                            }
                            ps.push(z.post());
                            ps.push(z.lim());
                            ps.push(b.ml(Some(1)).lim());
                            ps.push(O { lots: 0, ..b }.quote(40).ioc());
                            ps.push(O { lots: 0, ..b }.quote(40).ml(Some(1)).st(St::DecrementTake).ioc());
                            if side == Bid {
                                ps.push(O { lots: 0, px: None, ..z }.quote(60).min(1, 0).ioc());
                                ps.push(O { lots: 0, px: None, ..z }.quote(60).min(9, 0).ioc());
                            } else {
                                ps.push(O { px: None, ..z }.min(0, 1).ioc());
                                ps.push(O { px: None, ..z }.min(0, 999).ioc());
                            }
                        }
                        ps.push(O { px: None, ..b }.quote(40).st(St::Abort).ioc());
                    }
                }
            }
        }
        ps
    };
    v.push(
        Scen::new("encode-orders", c.clone())
            .setup(setup(&c))
            .acts(1, |a, u, _| vec![clock(a, 3, 3), ix(u.auth, Op::Status { to: 2, receiver: None })])
            .probes(move |a, u, _| {
                let mut v = vec![];
                for p in packets(a) {
                    for mode in [Mode::Swap, Mode::SwapFF, Mode::Place, Mode::PlaceFF] {
                        v.push(ix(0, Op::Order(mode, p)));
                    }
                    let act = pl(0, p);
                    let (op, len) = match &act {
                        Act::Ix { op, .. } => (op.clone(), enc_op(u, op).len()),
                        _ => continue,
                    };
                    let (ioc, silent, tif) = match p {
                        Pk::PostOnly { silent, tif, .. } | Pk::Limit { silent, tif, .. } => (false, silent, tif),
                        Pk::Ioc { tif, .. } => (true, false, tif),
                    };
                    // where the older formats end
                    let opt = |x: bool| if x { 9 } else { 1 };
                    let base = len - (!ioc) as usize - opt(tif.lvs.is_some()) - opt(tif.lvts.is_some());
                    for k in 0..len {
                        let cut = len - k;
                        let e = if cut > 3 {
                            if tif != GTC && k + ioc as usize >= base {
                                continue;
                            }
                            Exp::Err
                        } else if silent {
                            continue;
                        } else if tif != GTC {
                            // the older formats end before the expiry; a partial expiry is nobody's format
                            if !ioc && cut == 1 { Exp::Spec } else { Exp::SpecOrErr }
                        } else if ioc && cut == 3 {
                            Exp::SpecOrErr
                        } else {
                            Exp::Spec
                        };
                        v.push(faulty(0, op.clone(), vec![Fault::Cut(k)], e));
                    }
                    for x in [vec![0u8], vec![1], vec![0, 0], vec![0, 0, 0], vec![0; 4], vec![0; 9], vec![1; 9]] {
                        v.push(faulty(0, op.clone(), vec![Fault::Append(x)], Exp::Err));
                    }
                    // bytes that no encoding uses: packet kind, side, booleans and option tags
                    for b in [2u8, 3, 4, 7, 128, 255] {
                        if b > 2 {
                            v.push(faulty(0, op.clone(), vec![Fault::Byte(1, b)], Exp::Err));
                        }
                        v.push(faulty(0, op.clone(), vec![Fault::Byte(2, b)], Exp::Err));
                        if tif == GTC {
                            v.push(faulty(0, op.clone(), vec![Fault::Byte(len - 1, b)], Exp::Err));
                            v.push(faulty(0, op.clone(), vec![Fault::Byte(len - 2, b)], Exp::Err));
                        }
                    }
                    // the published builders (the first takes the trader's own associated accounts)
                    for k in 0..built_count(&op) {
                        v.push(faulty(0, op.clone(), vec![Fault::Built(k)], Exp::Spec));
                    }
                }
                v
            }),
    );
    // all other instructions
    v.push(
        Scen::new("encode-rest", c.clone())
            .setup(setup(&c))
            .acts(if t { 2 } else { 1 }, |a, u, _| {
                let mut v = every_op(a, u);
                v.retain(|x| !matches!(x, Act::Ix { op: Op::Order(..), .. }));
                v
            })
            .probes(move |a, u, _| {
                let mut v = vec![];
                let mut ops = every_op(a, u);
                let mine: Vec<_> = ids(a).into_iter().filter(|x| x.3 == 0).map(|x| (x.0, x.1, x.2)).collect();
                for ff in [false, true] {
                    ops.push(ix(0, Op::CancelIds { v: mine.clone(), ff }));
                    for side in SIDES {
                        for (tick, search, cancel) in [(Some(9), None, None), (None, Some(3), None), (None, None, Some(1)), (Some(20), Some(2), Some(5))] {
                            ops.push(ix(0, Op::CancelUpTo { p: UpTo { side, tick, search, cancel }, ff }));
                        }
                    }
                    for beh in 0..4 {
                        for cid in [None, Some(9)] {
                            for px in [13, 7] {
                                if let Op::Multi(m, ff) = multi(vec![(9, 1, Tif { lvs: Some(50), lvts: None }), (8, 1, GTC)], vec![(px, 1, Tif { lvs: None, lvts: Some(5000) })], beh, ff) {
                                    ops.push(ix(0, Op::Multi(MultiP { cid, ..m }, ff)));
                                }
                            }
                        }
                    }
                }
                ops.push(ix(0, Op::Withdraw { q: Some(1), b: None }));
                ops.push(ix(0, Op::Withdraw { q: None, b: Some(1) }));
                for trader in [1, 2] {
                    ops.push(ix(u.auth, Op::ForceCancel { trader, p: UpTo { side: Bid, tick: Some(1), search: None, cancel: Some(3) } }));
                }
                for trader in [0, 1] {
                    for side in SIDES {
                        ops.push(ix(u.auth, Op::ForceCancel { trader, p: UpTo { side, ..NOCUT } }));
                    }
                }
                ops.push(ix(u.auth, Op::Status { to: 5, receiver: None }));
                for act in ops {
                    if spec::step(u, a, &act).out != spec::Outcome::Ok {
                        continue;
                    }
                    v.push(act.clone());
                    let (who, op) = match &act {
                        Act::Ix { who, op, .. } => (*who, op.clone()),
                        _ => continue,
                    };
                    let len = enc_op(u, &op).len();
                    if matches!(op, Op::Order(..)) {
                        continue;
                    }
                    for k in 0..len {
                        v.push(faulty(who, op.clone(), vec![Fault::Cut(k)], Exp::Err));
                    }
                    for x in [vec![0u8], vec![1, 2], vec![0; 8], vec![0; 40]] {
                        v.push(faulty(who, op.clone(), vec![Fault::Append(x)], if len == 1 { Exp::SpecOrErr } else { Exp::Err }));
                    }
                    // unknown instruction tags
                    for tag in [18u8, 19, 50, 99, 110, 111, 200, 255] {
                        v.push(faulty(who, op.clone(), vec![Fault::Byte(0, tag)], Exp::Err));
                    }
                    let nb = built_count(&op);
                    for k in 0..nb {
                        v.push(faulty(who, op.clone(), vec![Fault::Built(k)], Exp::Spec));
                    }
                    // undefined discriminants inside the parameters
                    match &op {
                        Op::Reduce { .. } | Op::CancelUpTo { .. } | Op::ForceCancel { .. } => {
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(1, 2)], Exp::Err));
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(1, 255)], Exp::Err));
                        }
                        Op::CancelIds { v: l, .. } if !l.is_empty() => {
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(5, 2)], Exp::Err));
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(1, l.len() as u8 + 1)], Exp::Err));
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(4, 255)], Exp::Err));
                        }
                        Op::Withdraw { .. } => {
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(1, 2)], Exp::Err));
                        }
                        Op::Status { .. } | Op::ChangeSeat { .. } => {
                            for b in [6u8, 7, 100, 255] {
                                v.push(faulty(who, op.clone(), vec![Fault::Byte(1, b)], Exp::Err));
                            }
                        }
                        Op::Multi(..) => {
                            for b in [4u8, 5, 100, 255] {
                                v.push(faulty(who, op.clone(), vec![Fault::Byte(len - 1, b)], Exp::Err));
                            }
                            v.push(faulty(who, op.clone(), vec![Fault::Byte(4, 255)], Exp::Err));
                        }
                        _ => {}
                    }
                }
                v.push(faulty(0, Op::CancelAll { ff: true }, vec![Fault::Cut(0)], Exp::Err));
                v
            }),
    );
    // creating a market
    v.push(Scen::new("encode-init", c.clone()).probes(|_, u, _| {
        let mut v = vec![];
        for raw in [None, Some(1u32)] {
            let op = Op::Init(InitP { raw, ..u.cfg.init_params() });
            let len = enc_op(u, &op).len();
            v.push(ix(u.auth, op.clone()));
            for k in 0..len {
                v.push(faulty(u.auth, op.clone(), vec![Fault::Cut(k)], Exp::Err));
            }
            for x in [vec![0u8], vec![0; 4]] {
                v.push(faulty(u.auth, op.clone(), vec![Fault::Append(x)], Exp::Err));
            }
            v.push(faulty(u.auth, op.clone(), vec![Fault::Built(0)], Exp::Spec));
            v.push(faulty(u.auth, op.clone(), vec![Fault::Built(1)], Exp::Spec));
            // the builder that lets the creator collect the fees
            let own = Op::Init(InitP { raw, coll: Some(u.auth), ..u.cfg.init_params() });
            for k in 0..built_count(&own) {
                v.push(faulty(u.auth, own.clone(), vec![Fault::Built(k)], Exp::Spec));
            }
        }
        v
    }));
    v
}
#[allow(dead_code)]
fn mode_of(op: &Op) -> Mode {
    match op {
        Op::Order(m, _) => *m,
        _ => Mode::Swap,
    }
}
fn built_count(op: &Op) -> usize {
    match op {
        Op::Order(m, p) => 2 - m.ff() as usize + p.makers().len(),
        Op::Multi(p, ff) => 2 - *ff as usize + multi_makers(p).len(),
        Op::Reduce { ff, .. } | Op::CancelAll { ff } | Op::CancelUpTo { ff, .. } | Op::CancelIds { ff, .. } => {
            if *ff {
                1
            } else {
                2
            }
        }
        Op::Withdraw { q: None, b: None } => 3,
        Op::Withdraw { q: Some(_), b: Some(_) } => 2,
        Op::Withdraw { .. } => 1,
        Op::Deposit { .. } | Op::Collect { .. } => 2,
        Op::ForceCancel { p, .. } => (p.tick.is_none() && p.search.is_none() && p.cancel.is_none()) as usize,
        Op::Status { receiver, .. } => receiver.is_none() as usize,
        Op::Init(p) => 2 + p.coll.is_some() as usize,
        Op::Log => 0,
        _ => 1,
    }
}

// ------------------------------------------------------------------------------------------------
// read-only views

pub fn fam_views(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let c = Cfg { fee_bps: 100, ..rich() };
    for side in SIDES {
        v.push(
            Scen::new(&format!("views-{:?}", side), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 500, 100), pl(2, o(side.opp(), px_of(side, 10, -1), 1).post())])
                .acts(if t { 5 } else { 4 }, move |a, _, _| {
                    let at = |k| px_of(side, 10, k);
                    let (s, n) = (a.slot, a.ts as u64);
                    let mut v = vec![clock(a, 1, 0), clock(a, 0, 1)];
                    for k in [0, 1, 3] {
                        v.push(pl(1, o(side, at(k), 2).post()));
                        v.push(pl(2, o(side, at(k), 3).tif(Some(s), None).post()));
                    }
                    v.push(pl(0, o(side, at(0), 1).tif(None, Some(n)).post()));
                    v.push(pl(0, o(side, at(1), 1).tif(Some(s + 2), Some(n + 1)).free().post()));
                    v.push(pl(0, o(side.opp(), at(1), 3).ioc()));
                    if let Some((sd, px, id, who, _)) = ids(a).into_iter().next() {
                        v.push(ix(who, Op::Reduce { side: sd, px, id, size: 1, ff: true }));
                    }
                    v
                })
                .views(),
        );
    }
    // everything that changes balances, totals or the header
    let c = Cfg { fee_bps: 100, traders: 2, ..rich() };
    v.push(Scen::new("views-mix", c.clone()).setup(open(&c)).setup(vec![dep(0, 100, 20), dep(1, 60, 20)]).acts(if t { 4 } else { 3 }, |a, u, _| mix_actions(a, u)).views());
    v.push(
        Scen::new("views-protocol", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 20), pl(1, o(Ask, 11, 3).post())])
            .acts(3, |a, u, _| {
                let mut v = privileged(a, u, &[u.auth, u.succ]);
                v.retain(|x| spec::step(u, a, x).out == spec::Outcome::Ok);
                v.push(pl(0, o(Bid, 11, 1).ioc()));
                v.push(ix(u.rando, Op::Collect { dest: u.fee }));
                v
            })
            .views(),
    );
    // large books in assorted shapes
    for (k, mul) in [("asc", 1u64), ("desc", 126), ("mix", 31)] {
        let mut s = open(&c);
        s.push(dep(0, 100_000, 10_000));
        let n = 127u64;
        for i in 0..n {
            let j = (i * mul) % n;
            let tif = match j % 5 {
                0 => (Some(10 + j % 3), None),
                1 => (None, Some(1000 + j % 4)),
                _ => (None, None),
            };
            s.push(pl(1, o(Ask, 300 + j / 3, 1 + j % 4).tif(tif.0, tif.1).post()));
            s.push(pl(0, o(Bid, 290 - j / 2, 1 + j % 3).tif(tif.0, tif.1).free().post()));
        }
        v.push(
            Scen::new(&format!("views-big-{}", k), c.clone())
                .setup(s)
                .acts(if t { 3 } else { 2 }, |a, _, _| {
                    let mut v = vec![clock(a, 1, 0), clock(a, 0, 1), clock(a, 3, 3), pl(0, o(Bid, 310, 20).ioc()), pl(1, o(Ask, 280, 20).lim())];
                    for (i, (side, px, id, who, _)) in ids(a).into_iter().enumerate() {
                        if i % 9 == 0 {
                            v.push(ix(who, Op::CancelIds { v: vec![(side, px, id)], ff: true }));
                        }
                    }
                    v
                })
                .views(),
        );
    }
    v
}

// ------------------------------------------------------------------------------------------------
// capacities

pub const SIZES: [(u64, u64); 12] =
    [(512, 128), (512, 1025), (512, 1153), (1024, 128), (1024, 2049), (1024, 2177), (2048, 128), (2048, 4097), (2048, 4225), (4096, 128), (4096, 8193), (4096, 8321)];

fn bulky(no: bool, s: Scen) -> Scen {
    if no {
        s
    } else {
        s.bulk()
    }
}
pub fn fam_sizes(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (b, s) in SIZES {
        let small = Cfg { fee_bps: 100, traders: 2, ..rich() };
        let c = Cfg { bids: b, asks: b, seats: s, ..small.clone() };
        let other = if (b, s) == (512, 128) { Cfg { bids: 1024, asks: 1024, ..small.clone() } } else { small };
        v.push(
            Scen::new(&format!("sizes-{}-{}", b, s), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 100, 20), dep(1, 60, 20)])
                .acts(if t { 3 } else { 2 }, |a, u, _| mix_actions(a, u))
                .probes(|_, u, _| (0..6).map(|to| ix(u.auth, Op::Status { to, receiver: None })).collect())
                .views()
                .twin(other),
        );
        // exactly as many orders as promised
        {
            for side in SIDES {
                let mut q = open(&c);
                for i in 0..b {
                    // three interleaved runs, so that the tree is rebalanced in different ways
                    let j = (i * 3) % b + if b % 3 == 0 { i * 3 / b } else { 0 };
                    q.push(pl((i % 2) as Pid, o(side, px_of(side, 20_000, j as i64), 1).post()));
                }
                v.push(
                    bulky(t && s == 128, Scen::new(&format!("sizes-fill-{}-{}-{:?}", b, s, side), c.clone()).setup(q))
                        .acts(1, move |a, _, _| {
                            let w = a.book(side).last().unwrap();
                            let f = a.book(side)[0];
                            vec![
                                ix(w.who, Op::CancelIds { v: vec![(side, w.px, w.id)], ff: true }),
                                pl(0, o(side, px_of(side, 20_000, -1), 1).post()),
                                pl(1 - f.who, o(side.opp(), px_of(side, 20_000, 9_000), 40).st(St::CancelProvide).ioc()),
                            ]
                        })
                        .probes(move |a, _, _| {
                            let w = a.book(side).last().unwrap().px;
                            let mut v = vec![];
                            for k in [-1, 0, 1] {
                                v.push(pl(0, o(side, px_of(side, w, k), 1).post()));
                                v.push(pl(1, o(side, px_of(side, w, k), 1).lim()));
                            }
                            v.push(pl(1, o(side.opp(), px_of(side, 20_000, -5), 1).post()));
                            v.push(pl(1, o(side.opp(), px_of(side, 20_000, 3), 3).st(St::CancelProvide).ioc()));
                            v.push(ix(1, Op::CancelAll { ff: true }));
                            v
                        })
                        .views(),
                );
            }
        }
    }
    // exactly as many traders as promised
    for (b, s) in SIZES {
        let c = Cfg { bids: b, asks: b, seats: s, fee_bps: 0, traders: s as Pid + 2, ..rich() };
        let auth = c.traders;
        let mut q = vec![ix(auth, Op::Init(c.init_params())), ix(auth, Op::Status { to: 1, receiver: None })];
        for p in 0..s as Pid + 2 {
            // an order that makes the trader tree rebalance
            q.push(ix(auth, Op::RequestSeatAuth { trader: p }));
            if (p as u64) < s {
                q.push(ix(auth, Op::ChangeSeat { trader: p, status: 1 }));
            }
        }
        let last = s as Pid - 1;
        v.push(
            Scen::new(&format!("sizes-traders-{}-{}", b, s), c.clone())
                .setup(q)
                .bulk()
                .acts(2, move |_, u, d| {
                    if d == 0 {
                        vec![ix(u.auth, Op::ChangeSeat { trader: last, status: 0 }), dep(last, 5, 1), dep(0, 5, 1)]
                    } else {
                        vec![ix(u.auth, Op::Evict { trader: last })]
                    }
                })
                .probes(move |_, u, _| {
                    let mut v = vec![];
                    for p in [0, last / 2, last, last + 1, last + 2] {
                        v.push(ix(u.auth, Op::ChangeSeat { trader: p, status: 1 }));
                        v.push(dep(p, 1, 1));
                        v.push(pl(p, o(Bid, 5, 1).post()));
                    }
                    v
                })
                .views(),
        );
    }
    v
}

/// Many registered traders: those that act are 256 places apart in the trader table.
pub fn fam_crowd(t: bool) -> Vec<Scen> {
    const N: Pid = 258;
    let c = Cfg { bids: 512, asks: 512, seats: 1025, fee_bps: 100, traders: N, ..rich() };
    let auth = c.traders;
    let mut q = vec![ix(auth, Op::Init(c.init_params())), ix(auth, Op::Status { to: 1, receiver: None })];
    for p in 0..N {
        q.push(ix(auth, Op::RequestSeatAuth { trader: p }));
        q.push(ix(auth, Op::ChangeSeat { trader: p, status: 1 }));
    }
    for p in [0, 256, 1] {
        q.push(dep(p, 200, 20));
    }
    for (p, side, px) in [(0, Ask, 11), (256, Ask, 11), (256, Bid, 9), (0, Bid, 9), (1, Ask, 12), (257, Bid, 8)] {
        q.push(pl(p, o(side, px, 2).post()));
    }
    vec![Scen::new("crowd", c)
        .setup(q)
        .bulk()
        .acts(if t { 3 } else { 2 }, |_, u, _| {
            let mut v = vec![];
            for w in [0, 256] {
                v.push(pl(w, o(Bid, 11, 3).st(St::CancelProvide).ioc()));
                v.push(pl(w, o(Ask, 9, 3).st(St::DecrementTake).free().ioc()));
                v.push(pl(w, o(Ask, 10, 2).tif(Some(1), None).post()));
                v.push(ix(w, Op::CancelUpTo { p: UpTo { side: Ask, ..NOCUT }, ff: true }));
                v.push(ix(w, Op::Withdraw { q: None, b: Some(3) }));
                v.push(ix(u.auth, Op::ChangeSeat { trader: w, status: 0 }));
                v.push(ix(u.auth, Op::Evict { trader: w }));
                v.push(ix(u.auth, Op::ForceCancel { trader: w, p: UpTo { side: Bid, ..NOCUT } }));
            }
            v
        })
        .probes(|a, u, d| {
            let mut v = vec![];
            for w in [0, 256, 1, 257] {
                v.push(ix(w, Op::CancelAll { ff: w == 0 }));
                for (side, px, id, ..) in ids(a) {
                    v.push(ix(w, Op::CancelIds { v: vec![(side, px, id)], ff: false }));
                    v.push(ix(w, Op::Reduce { side, px, id, size: 1, ff: true }));
                }
                for st in [St::Abort, St::CancelProvide, St::DecrementTake] {
                    for n in [1, 5] {
                        v.push(pl(w, o(Bid, 12, n).st(st).ioc()));
                        v.push(pl(w, o(Ask, 8, n).st(st).free().lim()));
                    }
                }
                v.push(pl(w, o(Bid, 11, 1).amend().post()));
                if d < 2 {
                    v.push(ix(u.auth, Op::ChangeSeat { trader: w, status: 2 }));
                    v.push(ix(u.auth, Op::Evict { trader: w }));
                    v.push(dep(w, 1, 1));
                }
            }
            v
        })
        .views()]
}
