//! The bounded behaviour spaces explored for each property.
use crate::explore::*;
use crate::world::*;

#[path = "scen2.rs"]
mod scen2;
use scen2::*;

#[derive(Clone, Copy)]
pub struct O {
    pub side: Side,
    pub px: Option<u64>,
    pub lots: u64,
    pub quote: u64,
    pub minb: u64,
    pub minq: u64,
    pub st: St,
    pub ml: Option<u64>,
    pub cid: u128,
    pub free: bool,
    pub tif: Tif,
    pub silent: bool,
    pub reject: bool,
}
pub fn o(side: Side, px: u64, lots: u64) -> O {
    O { side, px: Some(px), lots, quote: 0, minb: 0, minq: 0, st: St::CancelProvide, ml: None, cid: 0, free: false, tif: GTC, silent: false, reject: true }
}
impl O {
    pub fn free(self) -> O {
        O { free: true, ..self }
    }
    pub fn freeb(self, free: bool) -> O {
        O { free, ..self }
    }
    pub fn tif(self, lvs: Option<u64>, lvts: Option<u64>) -> O {
        O { tif: Tif { lvs, lvts }, ..self }
    }
    pub fn st(self, st: St) -> O {
        O { st, ..self }
    }
    pub fn ml(self, ml: Option<u64>) -> O {
        O { ml, ..self }
    }
    pub fn amend(self) -> O {
        O { reject: false, ..self }
    }
    pub fn rejectb(self, reject: bool) -> O {
        O { reject, ..self }
    }
    pub fn silent(self) -> O {
        O { silent: true, ..self }
    }
    pub fn cid(self, cid: u128) -> O {
        O { cid, ..self }
    }
    pub fn quote(self, q: u64) -> O {
        O { quote: q, lots: 0, ..self }
    }
    pub fn min(self, minb: u64, minq: u64) -> O {
        O { minb, minq, ..self }
    }
    pub fn market(self) -> O {
        O { px: None, ..self }
    }
    pub fn post(self) -> Pk {
        Pk::PostOnly { side: self.side, px: self.px.unwrap(), lots: self.lots, cid: self.cid, reject: self.reject, free: self.free, tif: self.tif, silent: self.silent }
    }
    pub fn lim(self) -> Pk {
        Pk::Limit { side: self.side, px: self.px.unwrap(), lots: self.lots, st: self.st, ml: self.ml, cid: self.cid, free: self.free, tif: self.tif, silent: self.silent }
    }
    pub fn ioc(self) -> Pk {
        Pk::Ioc { side: self.side, px: self.px, lots: self.lots, quote: self.quote, minb: self.minb, minq: self.minq, st: self.st, ml: self.ml, cid: self.cid, free: self.free, tif: self.tif }
    }
}
pub fn pl(who: Pid, p: Pk) -> Act {
    let (ioc, free) = match p {
        Pk::PostOnly { free, .. } | Pk::Limit { free, .. } => (false, free),
        Pk::Ioc { free, .. } => (true, free),
    };
    let m = match (ioc, free) {
        (true, false) => Mode::Swap,
        (true, true) => Mode::SwapFF,
        (false, false) => Mode::Place,
        (false, true) => Mode::PlaceFF,
    };
    ix(who, Op::Order(m, p))
}
pub fn dep(who: Pid, q: u64, b: u64) -> Act {
    ix(who, Op::Deposit { q, b })
}
pub fn open(c: &Cfg) -> Vec<Act> {
    let auth = c.traders;
    let mut v = vec![ix(auth, Op::Init(c.init_params()))];
    for t in 0..c.traders {
        v.push(ix(auth, Op::RequestSeatAuth { trader: t }));
        v.push(ix(auth, Op::ChangeSeat { trader: t, status: 1 }));
    }
    v.push(ix(auth, Op::Status { to: 1, receiver: None }));
    v
}
pub fn rich() -> Cfg {
    Cfg { wbase: 1_000_000_000, wquote: 1_000_000_000, ..Cfg::default() }
}
const SIDES: [Side; 2] = [Bid, Ask];

fn levels(a: &Abs, s: Side) -> Vec<u64> {
    let mut v: Vec<u64> = a.book(s).iter().map(|o| o.px).collect();
    v.dedup();
    v
}

/// Taker orders of `who` against the book as it is.
fn takers(a: &Abs, who: Pid, sizes: &[u64], mls: &[Option<u64>], sts: &[St], frees: &[bool]) -> Vec<Act> {
    let mut v = vec![];
    for side in SIDES {
        let lv = levels(a, side.opp());
        if lv.is_empty() {
            continue;
        }
        let mut pxs: Vec<u64> = vec![];
        for l in &lv {
            pxs.push(*l);
        }
        let out = |p: u64| if side == Bid { p.saturating_sub(1).max(1) } else { p + 1 };
        let inn = |p: u64| if side == Bid { p + 1 } else { p.saturating_sub(1).max(1) };
        pxs.push(out(lv[0]));
        pxs.push(inn(*lv.last().unwrap()));
        pxs.sort();
        pxs.dedup();
        for &free in frees {
            for &ml in mls {
                for &st in sts {
                    for &n in sizes {
                        for &px in &pxs {
                            let x = o(side, px, n).ml(ml).st(st).freeb(free);
                            v.push(pl(who, x.lim()));
                            v.push(pl(who, x.ioc()));
                        }
                        v.push(pl(who, o(side, 1, n).market().ml(ml).st(st).freeb(free).ioc()));
                    }
                }
            }
        }
    }
    v
}

fn makers(who: &[Pid], asks: &[u64], bids: &[u64], lots: &[u64]) -> Vec<Act> {
    let mut v = vec![];
    for &w in who {
        for &n in lots {
            for &p in asks {
                v.push(pl(w, o(Ask, p, n).post()));
            }
            for &p in bids {
                v.push(pl(w, o(Bid, p, n).post()));
            }
        }
    }
    v
}


fn asks(who: &[Pid], px: &[u64], lots: &[u64]) -> Vec<Act> {
    makers(who, px, &[], lots)
}
/// identifiers of the resting orders
fn ids(a: &Abs) -> Vec<(Side, u64, u64, Pid, u64)> {
    SIDES.iter().flat_map(|s| a.book(*s).iter().map(move |o| (*s, o.px, o.id, o.who, o.lots))).collect()
}
fn clock(a: &Abs, ds: u64, dt: i64) -> Act {
    Act::Clock { slot: a.slot + ds, ts: a.ts + dt }
}
const NOCUT: UpTo = UpTo { side: Bid, tick: None, search: None, cancel: None };

// ------------------------------------------------------------------------------------------------
// matching

fn fam_sweep(t: bool) -> Vec<Scen> {
    let c = Cfg { fee_bps: 5, ..rich() };
    let sizes: &'static [u64] = if t { &[1, 2, 3, 4, 5, 6, 7, 9] } else { &[1, 3, 5] };
    let dp = if t { 5 } else { 4 };
    let mut v = vec![];
    for side in SIDES {
        let px: [u64; 2] = if side == Ask { [11, 12] } else { [9, 8] };
        v.push(
            Scen::new(&format!("sweep-{:?}", side), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 1000, 1000)])
                .acts(dp, move |_, _, _| if side == Ask { makers(&[1, 2], &px, &[], &[1, 2]) } else { makers(&[1, 2], &[], &px, &[1, 2]) })
                .probes(move |a, _, d| {
                    if d < 2 {
                        vec![]
                    } else if d < 4 {
                        takers(a, 0, sizes, &[None, Some(1), Some(2)], &[St::Abort], &[false, true])
                    } else {
                        takers(a, 0, &[1, 2, 4], &[None], &[St::Abort], &[false])
                    }
                }),
        );
    }
    // queue position survives partial fills, reductions and cancellations of neighbours
    v.push(
        Scen::new("requeue", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 1000, 1000), pl(1, o(Ask, 11, 3).post()), pl(2, o(Ask, 11, 3).post()), pl(1, o(Ask, 11, 3).post()), pl(2, o(Ask, 12, 2).post())])
            .acts(if t { 4 } else { 3 }, |a, _, _| {
                let mut v = asks(&[1, 2], &[11, 12, 10], &[2]);
                for (side, px, id, who, lots) in ids(a) {
                    for size in [1, lots] {
                        v.push(ix(who, Op::Reduce { side, px, id, size, ff: size == 1 }));
                    }
                }
                for n in [1, 2, 4] {
                    v.push(pl(0, o(Bid, 12, n).ioc()));
                }
                v
            })
            .probes(|a, _, d| if d == 0 { vec![] } else { takers(a, 0, &[1, 2, 4, 7], &[None], &[St::Abort], &[false]) }),
    );
    // many orders on many levels, inserted in assorted patterns: tree shape must not matter
    for (k, mul) in [("ascending", 1u64), ("descending", 22), ("scattered", 7), ("scattered2", 13)] {
        let n = 23u64;
        let mut s = open(&c);
        s.push(dep(0, 100_000, 100_000));
        for i in 0..(n * 2) {
            let j = (i * mul) % n;
            s.push(pl(1 + (i % 2) as Pid, o(Ask, 100 + j / 2, 1 + i % 3).post()));
            s.push(pl(1 + (i % 2) as Pid, o(Bid, 90 - j / 2, 1 + i % 3).post()));
        }
        v.push(
            Scen::new(&format!("deep-{}", k), c.clone())
                .setup(s)
                .acts(if t { 3 } else { 2 }, |a, _, d| {
                    let mut v = vec![];
                    for n in [1, 2, 5, 11] {
                        v.push(pl(0, o(Bid, 200, n).ioc()));
                        v.push(pl(0, o(Ask, 1, n).ioc()));
                    }
                    if d == 0 {
                        for (side, px, id, who, _) in ids(a) {
                            v.push(ix(who, Op::CancelIds { v: vec![(side, px, id)], ff: true }));
                        }
                    }
                    v
                })
                .probes(|_, _, d| {
                    if d == 0 {
                        return vec![];
                    }
                    let mut v = vec![];
                    for n in [1, 3, 7, 20, 37, 100] {
                        v.push(pl(0, o(Bid, 104, n).lim()));
                        v.push(pl(0, o(Ask, 85, n).lim()));
                        v.push(pl(0, o(Bid, 200, n).ioc()));
                        v.push(pl(0, o(Ask, 1, n).free().ioc()));
                    }
                    v
                })
                .raw(),
        );
    }
    v
}

/// Size, budget, minimum-fill, match-limit and price-limit grids.
fn fam_limits(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let fees: &[u16] = if t { &[0, 1, 5, 25, 100, 333, 2500, 5000, 9999, 10000] } else { &[0, 5, 2500] };
    for &fee in fees {
        for (tag, nblu, tick) in [("a", 10u64, 20u64), ("b", 10, 10), ("c", 1, 3)] {
            if !t && tag == "b" && fee != 5 {
                continue;
            }
            let c = Cfg { fee_bps: fee, nblu, tick, ..rich() };
            let hi = if t { 90 } else { 60 };
            v.push(
                Scen::new(&format!("limits-fee{}-{}", fee, tag), c.clone())
                    .setup(open(&c))
                    .setup(vec![dep(0, 2000, 2000), pl(1, o(Ask, 5, 2).post()), pl(2, o(Ask, 7, 3).post()), pl(1, o(Bid, 4, 2).post()), pl(2, o(Bid, 2, 3).post())])
                    .acts(1, |_, _, _| {
                        let mut v = vec![];
                        for n in [1, 2, 3] {
                            v.push(pl(0, o(Bid, 9, n).ioc()));
                            v.push(pl(0, o(Ask, 1, n).ioc()));
                        }
                        v.push(pl(1, o(Ask, 6, 1).post()));
                        v.push(pl(1, o(Bid, 3, 1).post()));
                        v
                    })
                    .probes(move |_, _, _| {
                        let mut v = vec![];
                        for side in SIDES {
                            let pxs: [Option<u64>; 4] = if side == Bid { [None, Some(5), Some(6), Some(7)] } else { [None, Some(4), Some(3), Some(2)] };
                            for px in pxs {
                                for free in [false, true] {
                                    for ml in [None, Some(0), Some(1), Some(2)] {
                                        for n in 1..=7u64 {
                                            let b = O { px, ml, free, ..o(side, 1, n) };
                                            v.push(pl(0, b.ioc()));
                                            if ml == None || ml == Some(1) {
                                                for m in [n - 1, n, n + 1, 2, 5] {
                                                    v.push(pl(0, b.min(m, 0).ioc()));
                                                }
                                            }
                                            if px.is_some() {
                                                v.push(pl(0, b.lim()));
                                            }
                                        }
                                    }
                                    if free && px.is_some() {
                                        continue;
                                    }
                                    for q in 1..hi {
                                        let b = O { px, free, ..o(side, 1, 0) }.quote(q);
                                        v.push(pl(0, b.ioc()));
                                        v.push(pl(0, b.min(1, 0).ioc()));
                                        v.push(pl(0, b.min(0, q).ioc()));
                                        v.push(pl(0, b.min(0, q.saturating_sub(3).max(1)).ioc()));
                                    }
                                }
                            }
                            // odd sizes and budgets
                            for (l, q) in [(0, 0), (3, 30), (u64::MAX, 0), (0, u64::MAX), (u64::MAX >> 1, 0), (0, u64::MAX / 10), (0, u64::MAX / 10 + 1)] {
                                v.push(pl(0, O { px: None, lots: l, quote: q, ..o(side, 1, 1) }.ioc()));
                                v.push(pl(0, O { lots: l, quote: q, ..o(side, if side == Bid { 6 } else { 3 }, 1) }.ioc()));
                            }
                            for px in [0, 1, u64::MAX, u64::MAX - 1] {
                                v.push(pl(0, o(side, px, 2).ioc()));
                                v.push(pl(0, o(side, px, 2).lim()));
                                v.push(pl(0, o(side, px, 0).lim()));
                            }
                            v.push(pl(0, o(side, 5, 2).min(u64::MAX, 0).ioc()));
                            v.push(pl(0, o(side, 5, 2).min(0, u64::MAX).ioc()));
                        }
                        v
                    }),
            );
        }
    }
    // the match limit counts every consumed order, whatever happened to it
    let c = Cfg { fee_bps: 5, ..rich() };
    v.push(
        Scen::new("match-limit", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 2000, 2000)])
            .acts(if t { 4 } else { 3 }, |a, _, _| {
                let mut v = asks(&[0, 1], &[11, 12], &[2]);
                v.push(pl(1, o(Ask, 11, 2).tif(Some(a.slot), None).post()));
                v.push(clock(a, 1, 1));
                v
            })
            .probes(|a, _, d| {
                if d < 2 {
                    return vec![];
                }
                let mut v = vec![];
                for st in [St::Abort, St::CancelProvide, St::DecrementTake] {
                    for ml in [Some(0), Some(1), Some(2), Some(3), None] {
                        for n in [1, 2, 3, 5] {
                            for px in [11, 12] {
                                let b = o(Bid, px, n).st(st).ml(ml);
                                v.push(pl(0, b.lim()));
                                v.push(pl(0, b.ioc()));
                                v.push(pl(0, b.min(n, 0).ioc()));
                            }
                        }
                        for q in [21, 22, 45, 70] {
                            v.push(pl(0, o(Bid, 12, 0).quote(q).st(st).ml(ml).ioc()));
                        }
                    }
                }
                let _ = a;
                v
            }),
    );
    v
}

/// Fee arithmetic over rates, sizes and prices, and fee collection.
fn fam_fees(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let fees: &[u16] = if t { &[0, 1, 2, 5, 10, 30, 99, 100, 101, 333, 1000, 2500, 5000, 7777, 9998, 9999, 10000] } else { &[0, 1, 5, 100, 333, 5000, 9999, 10000] };
    for &fee in fees {
        for (nblu, tick, nqlu) in [(10u64, 20u64, 200u64), (100, 100, 1000), (1, 1, 1000), (20, 60, 100)] {
            if !t && nblu == 20 && fee % 5 != 0 {
                continue;
            }
            let c = Cfg { fee_bps: fee, nblu, tick, nqlu, ..rich() };
            let mut s = open(&c);
            s.extend([dep(0, 50_000, 2_000), pl(1, o(Ask, 7, 100).post()), pl(2, o(Ask, 101, 1000).post()), pl(1, o(Bid, 5, 100).post()), pl(2, o(Bid, 3, 1000).post())]);
            let top = if t { 260 } else { 150 };
            v.push(
                Scen::new(&format!("fees-{}-{}-{}", fee, nblu, tick), c.clone())
                    .setup(s)
                    .acts(2, |_, u, _| {
                        vec![
                            pl(0, o(Bid, 200, 3).ioc()),
                            pl(0, o(Ask, 1, 33).free().ioc()),
                            pl(0, o(Bid, 200, 101).lim()),
                            ix(u.rando, Op::Collect { dest: u.fee }),
                            ix(u.auth, Op::FeeRecipient { new: u.fee2, prev: Some(u.fee) }),
                            ix(u.auth, Op::FeeRecipient { new: u.fee2, prev: None }),
                        ]
                    })
                    .probes(move |_, u, d| {
                        let mut v = vec![];
                        for x in [u.fee, u.fee2, 0, u.rando] {
                            v.push(ix(u.rando, Op::Collect { dest: x }));
                            v.push(ix(0, Op::Collect { dest: x }));
                            v.push(ix(u.auth, Op::Collect { dest: x }));
                        }
                        let step = if d == 2 { 7 } else { 1 };
                        for n in (1..top).step_by(step) {
                            v.push(pl(0, o(Bid, 200, n).ioc()));
                            v.push(pl(0, o(Ask, 1, n).ioc()));
                            if d < 2 {
                                v.push(pl(0, o(Bid, 200, n).free().ioc()));
                                v.push(pl(0, o(Ask, 1, n).free().lim()));
                                v.push(pl(0, o(Bid, 7, n).lim()));
                                v.push(pl(0, o(Bid, 7, 0).quote(n).ioc()));
                                v.push(pl(0, o(Bid, 200, 0).quote(n * 7).ioc()));
                                v.push(pl(0, o(Ask, 1, 0).quote(n).ioc()));
                                v.push(pl(0, o(Ask, 1, 0).quote(n * 5).ioc()));
                            }
                        }
                        v
                    }),
            );
        }
    }
    // fees pile up over many trades and are collected repeatedly, in every status
    let c = Cfg { fee_bps: 250, ..rich() };
    v.push(
        Scen::new("fee-ledger", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 5000, 500), pl(1, o(Ask, 10, 50).post()), pl(2, o(Bid, 9, 50).post())])
            .acts(if t { 6 } else { 5 }, |_, u, _| {
                vec![
                    pl(0, o(Bid, 10, 2).ioc()),
                    pl(0, o(Ask, 9, 3).free().ioc()),
                    ix(u.rando, Op::Collect { dest: u.fee }),
                    ix(u.rando, Op::Collect { dest: u.fee2 }),
                    ix(u.auth, Op::FeeRecipient { new: u.fee2, prev: Some(u.fee) }),
                    ix(u.auth, Op::FeeRecipient { new: u.fee, prev: Some(u.fee2) }),
                    ix(u.auth, Op::FeeRecipient { new: u.fee, prev: None }),
                    ix(u.auth, Op::FeeRecipient { new: VAULT, prev: Some(u.fee) }),
                    ix(u.rando, Op::Collect { dest: VAULT }),
                    ix(u.auth, Op::Status { to: 2, receiver: None }),
                    ix(u.auth, Op::Status { to: 3, receiver: None }),
                    ix(u.auth, Op::Status { to: 4, receiver: None }),
                    ix(u.auth, Op::Status { to: 1, receiver: None }),
                    ix(0, Op::Withdraw { q: None, b: None }),
                ]
            }),
    );
    v
}

fn fam_self(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    for fee in [0u16, 100] {
        for side in SIDES {
            let c = Cfg { fee_bps: fee, ..rich() };
            let px: [u64; 2] = if side == Ask { [11, 12] } else { [9, 8] };
            let dp = if t { 4 } else { 3 };
            v.push(
                Scen::new(&format!("self-{:?}-{}", side, fee), c.clone())
                    .setup(open(&c))
                    .setup(vec![dep(0, 200, 100)])
                    .acts(dp, move |_, _, _| {
                        let mut v = vec![];
                        for w in [0, 1] {
                            for p in px {
                                for n in [2, 3] {
                                    v.push(pl(w, o(side, p, n).freeb(w == 0 && n == 2).post()));
                                }
                            }
                        }
                        v
                    })
                    .probes(move |a, _, d| {
                        if d == 0 || (d == dp && fee == 0 && !t) {
                            return vec![];
                        }
                        let sts = [St::Abort, St::CancelProvide, St::DecrementTake];
                        let mut v = takers(a, 0, if d < 3 { &[1, 2, 3, 4, 5, 6, 8] } else { &[1, 2, 4, 6] }, if d < 3 { &[None, Some(1), Some(2)] } else { &[None] }, &sts, &[false, true]);
                        for st in sts {
                            for q in [10u64, 20, 22, 23, 44, 45, 46, 60, 70, 100] {
                                for free in [false, true] {
                                    v.push(pl(0, o(side.opp(), if side == Ask { 12 } else { 8 }, 0).quote(q).st(st).freeb(free).ioc()));
                                    v.push(pl(0, o(side.opp(), 1, 0).market().quote(q).st(st).freeb(free).min(1, 0).ioc()));
                                }
                            }
                            for n in [2, 4, 5] {
                                v.push(pl(0, o(side.opp(), if side == Ask { 12 } else { 8 }, n).st(st).min(n, 0).ioc()));
                            }
                        }
                        // post-only orders and batches meeting one's own orders
                        for am in [false, true] {
                            for p in [8, 9, 10, 11, 12] {
                                v.push(pl(0, o(side.opp(), p, 2).rejectb(am).post()));
                            }
                        }
                        v
                    }),
            );
        }
    }
    // own orders that have expired
    let c = Cfg { fee_bps: 100, ..rich() };
    v.push(
        Scen::new("self-expired", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 200, 100)])
            .acts(4, |a, _, _| {
                let mut v = vec![clock(a, 1, 0)];
                for w in [0, 1] {
                    for p in [11, 12] {
                        v.push(pl(w, o(Ask, p, 2).post()));
                        v.push(pl(w, o(Ask, p, 2).tif(Some(a.slot), None).post()));
                    }
                }
                v
            })
            .probes(move |a, _, d| if d < 2 { vec![] } else { takers(a, 0, &[1, 3, 5], &[None], &[St::Abort, St::CancelProvide, St::DecrementTake], &[false]) }),
    );
    v
}

fn fam_expiry(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    for side in SIDES {
        let c = Cfg { fee_bps: 100, ..rich() };
        v.push(
            Scen::new(&format!("expiry-{:?}", side), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 500, 100), dep(1, 500, 100)])
                .acts(if t { 4 } else { 3 }, move |a, _, d| {
                    let mut v = vec![clock(a, 1, 0), clock(a, 0, 1), clock(a, 2, 2)];
                    let (p1, p2) = if side == Ask { (11, 12) } else { (9, 8) };
                    let (s, n) = (10u64, 1000u64);
                    for (w, p) in [(1, p1), (2, p1), (1, p2)] {
                        for tif in [(None, None), (Some(s + 1), None), (None, Some(n + 1)), (Some(s + 1), Some(n + 4)), (Some(s + 4), Some(n + 1))] {
                            if w == 2 && tif.1.is_none() && d > 1 {
                                continue;
                            }
                            v.push(pl(w, o(side, p, 2).tif(tif.0, tif.1).freeb(w == 1).post()));
                        }
                    }
                    v
                })
                .probes(move |a, _, d| {
                    if d < 2 {
                        return vec![];
                    }
                    let mut v = takers(a, 0, &[1, 2, 3], &[None, Some(1)], &[St::Abort], &[false]);
                    let p = if side == Ask { 12 } else { 8 };
                    for reject in [false, true] {
                        for p in [8, 9, 10, 11, 12] {
                            v.push(pl(0, o(side.opp(), p, 1).rejectb(reject).post()));
                        }
                    }
                    // incoming orders around their own expiry
                    let (s, n) = (a.slot, a.ts as u64);
                    for tif in [(Some(s - 1), None), (Some(s), None), (Some(s + 1), None), (None, Some(n - 1)), (None, Some(n)), (None, Some(n + 1)), (Some(s), Some(n - 1)), (Some(s - 1), Some(n)), (Some(s), Some(n)), (Some(0), None), (None, Some(0)), (Some(u64::MAX), Some(u64::MAX))] {
                        let b = o(side.opp(), p, 3).tif(tif.0, tif.1);
                        v.push(pl(0, b.lim()));
                        v.push(pl(0, b.ioc()));
                        v.push(pl(0, b.amend().post()));
                        v.push(pl(0, b.free().lim()));
                        v.push(pl(0, b.min(3, 0).ioc()));
                        v.push(ix(0, multi(if side == Ask { vec![(9, 1, b.tif)] } else { vec![] }, if side == Ask { vec![] } else { vec![(11, 1, b.tif)] }, 0, false)));
                    }
                    // the owner may always cancel what has expired
                    for (sd, px, id, who, _) in ids(a) {
                        v.push(ix(who, Op::Reduce { side: sd, px, id, size: 1, ff: true }));
                        v.push(ix(who, Op::CancelAll { ff: false }));
                    }
                    v
                }),
        );
    }
    // expired orders interleaved with live ones, long runs
    let c = Cfg { fee_bps: 5, ..rich() };
    for side in SIDES {
        let mut s = open(&c);
        s.push(dep(0, 5000, 500));
        let base: i64 = 100;
        for i in 0..14u64 {
            let px = if side == Ask { base + i as i64 / 3 } else { base - i as i64 / 3 } as u64;
            let tif = match i % 4 {
                0 => (Some(11), None),
                1 => (None, None),
                2 => (None, Some(1001)),
                _ => (Some(12), Some(1003)),
            };
            s.push(pl(1 + (i % 2) as Pid, o(side, px, 1 + i % 2).tif(tif.0, tif.1).post()));
        }
        v.push(
            Scen::new(&format!("expiry-run-{:?}", side), c.clone())
                .setup(s)
                .acts(4, |a, _, _| vec![clock(a, 1, 0), clock(a, 0, 1), clock(a, 0, 2)])
                .probes(move |_, _, _| {
                    let mut v = vec![];
                    let far = if side == Ask { 200 } else { 1 };
                    for n in 1..24u64 {
                        v.push(pl(0, o(side.opp(), far, n).ioc()));
                        v.push(pl(0, o(side.opp(), if side == Ask { 102 } else { 98 }, n).lim()));
                        v.push(pl(0, o(side.opp(), far, n).ml(Some(n)).ioc()));
                        v.push(pl(0, o(side.opp(), far, 30).ml(Some(n)).ioc()));
                    }
                    for p in 95..106 {
                        v.push(pl(0, o(side.opp(), p, 1).amend().post()));
                        v.push(pl(0, o(side.opp(), p, 1).post()));
                    }
                    v
                })
                .views(),
        );
    }
    // a long queue of orders that are expired, or one's own, in front of a live one
    for side in SIDES {
        for (what, n) in [("expired", 40u64), ("expired", 511), ("own", 40), ("own", 511), ("both", 120)] {
            let c = Cfg { fee_bps: 100, ..rich() };
            let price = move |k: u64| if side == Ask { 1000 + k / 3 } else { 1000 - k / 3 };
            let mut q = open(&c);
            q.extend([dep(0, 5000, 500), dep(1, 5000, 500), pl(2, o(side.opp(), if side == Ask { 900 } else { 1100 }, 3).post())]);
            for k in 0..n {
                let own = what == "own" || (what == "both" && k % 2 == 1);
                let b = o(side, price(k), 1 + k % 2);
                q.push(if own { pl(0, b.post()) } else { pl(1, b.tif(Some(11), None).post()) });
            }
            q.push(pl(2, o(side, price(n), 4).post()));
            if what != "own" {
                q.push(Act::Clock { slot: 12, ts: 1010 });
            }
            v.push(
                Scen::new(&format!("queue-{}-{}-{:?}", what, n, side), c.clone())
                    .setup(q)
                    .bulk()
                    .acts(1, move |_, _, _| {
                        vec![pl(0, o(side.opp(), price(n), 2).st(St::CancelProvide).ml(Some(7)).lim()), ix(0, Op::CancelUpTo { p: UpTo { side, cancel: Some(9), ..NOCUT }, ff: true })]
                    })
                    .probes(move |_, _, _| {
                        let mut v = vec![];
                        for w in [0, 2] {
                            for px in [price(n), price(0), price(n / 2)] {
                                for st in [St::Abort, St::CancelProvide, St::DecrementTake] {
                                    for ml in [None, Some(0), Some(1), Some(33), Some(n - 1), Some(n), Some(n + 1)] {
                                        for lots in [3, 700] {
                                            let b = o(side.opp(), px, lots).st(st).ml(ml);
                                            v.push(pl(w, b.lim()));
                                            v.push(pl(w, b.ioc()));
                                        }
                                    }
                                }
                                v.push(pl(w, o(side.opp(), px, 2).post()));
                                v.push(pl(w, o(side.opp(), px, 2).amend().post()));
                            }
                            v.push(ix(w, multi(if side == Bid { vec![] } else { vec![(price(n), 1, GTC)] }, if side == Ask { vec![] } else { vec![(price(n), 1, GTC)] }, 0, false)));
                        }
                        v
                    }),
            );
        }
    }
    v
}

pub fn multi(bids: Vec<(u64, u64, Tif)>, asks: Vec<(u64, u64, Tif)>, beh: u8, ff: bool) -> Op {
    let f = |v: Vec<(u64, u64, Tif)>| v.into_iter().map(|(px, lots, tif)| Cond { px, lots, tif }).collect();
    Op::Multi(MultiP { bids: f(bids), asks: f(asks), cid: Some(7), beh }, ff)
}

fn fam_post(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    for fee in [0u16, 100] {
        let c = Cfg { fee_bps: fee, ..rich() };
        v.push(
            Scen::new(&format!("post-only-{}", fee), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, 500, 100), dep(1, 500, 100)])
                .acts(if t { 4 } else { 3 }, |a, _, _| {
                    let mut v = makers(&[1], &[10, 11, 12], &[7, 8, 9], &[2]);
                    v.push(pl(2, o(Ask, 11, 1).tif(Some(a.slot), None).post()));
                    v.push(pl(2, o(Bid, 8, 1).tif(Some(a.slot), None).post()));
                    v.push(pl(0, o(Ask, 11, 1).post()));
                    v.push(pl(0, o(Bid, 8, 1).post()));
                    v.push(clock(a, 1, 0));
                    v
                })
                .probes(|_, _, _| {
                    let mut v = vec![];
                    for side in SIDES {
                        for px in [0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, u64::MAX - 1, u64::MAX] {
                            for am in [false, true] {
                                for free in [false, true] {
                                    for n in [1, 3] {
                                        if n == 3 && px > 1000 {
                                            continue;
                                        }
                                        v.push(pl(0, o(side, px, n).rejectb(!am).freeb(free).cid(77).post()));
                                    }
                                }
                                if px < 1000 {
                                    v.push(pl(0, o(side, px, 1).rejectb(!am).silent().post()));
                                }
                            }
                        }
                    }
                    v
                }),
        );
    }
    // best opposite prices at the edge of the price range
    let c = Cfg { nblu: 10, tick: 10, wbase: u64::MAX >> 8, wquote: u64::MAX >> 8, nqlu: 1000, ..Cfg::default() };
    v.push(
        Scen::new("post-only-edges", c.clone())
            .setup(open(&c))
            .acts(2, |_, _, _| {
                let mut v = vec![];
                for p in [1, 2, 3, u64::MAX / 10, u64::MAX / 10 - 1, u64::MAX - 1, u64::MAX] {
                    v.push(pl(1, o(Ask, p, 1).post()));
                }
                for p in [1, 2, 1 << 40] {
                    v.push(pl(1, o(Bid, p, 1).post()));
                }
                v
            })
            .probes(|_, _, _| {
                let mut v = vec![];
                for side in SIDES {
                    for p in [0, 1, 2, 3, 4, 1 << 40, (1 << 40) + 1, u64::MAX / 10, u64::MAX / 10 + 1, u64::MAX - 2, u64::MAX - 1, u64::MAX] {
                        for am in [false, true] {
                            v.push(pl(0, o(side, p, 1).rejectb(!am).post()));
                        }
                        v.push(pl(0, o(side, p, 1).lim()));
                        v.push(pl(0, o(side, p, 1).ioc()));
                    }
                }
                v
            }),
    );
    // several orders at the lowest prices
    let c = Cfg { fee_bps: 100, ..rich() };
    v.push(
        Scen::new("post-only-low", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 500, 100), pl(1, o(Bid, 1, 1).post()), pl(2, o(Bid, 1, 1).post()), pl(1, o(Bid, 2, 1).post())])
            .acts(3, |a, _, _| {
                vec![
                    pl(2, o(Bid, 1, 2).tif(Some(a.slot), None).post()),
                    clock(a, 1, 0),
                    pl(0, o(Ask, 0, 3).ioc()),
                    pl(0, o(Ask, 0, 9).lim()),
                    pl(1, o(Ask, 1, 1).post()),
                    pl(2, o(Ask, 2, 1).amend().post()),
                    pl(1, o(Ask, 3, 1).post()),
                    pl(0, o(Bid, 3, 2).lim()),
                ]
            })
            .probes(|_, _, _| {
                let mut v = vec![];
                for side in SIDES {
                    for p in [0, 1, 2, 3, 4] {
                        for n in [1, 2, 3, 4, 5, 6, 8] {
                            let b = o(side, p, n);
                            v.push(pl(0, b.lim()));
                            v.push(pl(0, b.ioc()));
                            v.push(pl(0, b.free().lim()));
                            v.push(pl(0, b.ml(Some(2)).lim()));
                            v.push(pl(2, b.st(St::CancelProvide).lim()));
                            v.push(pl(2, b.st(St::DecrementTake).lim()));
                            for am in [false, true] {
                                v.push(pl(0, b.rejectb(!am).post()));
                            }
                        }
                        for beh in 0..4 {
                            let (b, k) = if side == Bid { (vec![(p, 1, GTC)], vec![]) } else { (vec![], vec![(p, 1, GTC)]) };
                            v.push(ix(0, multi(b, k, beh, false)));
                        }
                    }
                }
                v
            }),
    );
    v
}

// ------------------------------------------------------------------------------------------------
// cancelling

fn cancels(a: &Abs, who: Pid) -> Vec<Act> {
    let mut v = vec![];
    let all = ids(a);
    for ff in [false, true] {
        v.push(ix(who, Op::CancelAll { ff }));
        for side in SIDES {
            let mut ticks = vec![None];
            for l in levels(a, side) {
                ticks.extend([Some(l), Some(l + 1), Some(l - 1)]);
            }
            ticks.sort();
            ticks.dedup();
            for &tick in &ticks {
                for search in [None, Some(0), Some(1), Some(2), Some(3)] {
                    for cancel in [None, Some(0), Some(1), Some(2)] {
                        if tick.is_some() && search.is_some() && cancel.is_some() && (search, cancel) != (Some(2), Some(1)) {
                            continue;
                        }
                        v.push(ix(who, Op::CancelUpTo { p: UpTo { side, tick, search, cancel }, ff }));
                    }
                }
            }
        }
        let mut cand: Vec<(Side, u64, u64)> = vec![];
        for (s, px, id, _, _) in &all {
            cand.push((*s, *px, *id));
        }
        if let Some((s, px, id)) = cand.first().copied() {
            cand.push((s, px + 1, id));
            cand.push((s.opp(), px, id));
            cand.push((s, px, if s == Bid { id - 1000 } else { id + 1000 }));
            cand.push((s.opp(), px, !id));
        } else {
            cand.push((Bid, 5, !5));
            cand.push((Ask, 5, 5));
        }
        v.push(ix(who, Op::CancelIds { v: vec![], ff }));
        for x in &cand {
            v.push(ix(who, Op::CancelIds { v: vec![*x], ff }));
            for y in &cand {
                v.push(ix(who, Op::CancelIds { v: vec![*x, *y], ff }));
            }
            let lots = all.iter().find(|z| z.2 == x.2).map_or(2, |z| z.4);
            for size in [0, 1, lots - 1, lots, lots + 1, u64::MAX] {
                v.push(ix(who, Op::Reduce { side: x.0, px: x.1, id: x.2, size, ff }));
            }
        }
        v.push(ix(who, Op::CancelIds { v: cand.clone(), ff }));
        cand.reverse();
        v.push(ix(who, Op::CancelIds { v: cand, ff }));
    }
    v
}

fn fam_cancel(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let c = Cfg { fee_bps: 100, ..rich() };
    v.push(
        Scen::new("cancel", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 300, 30)])
            .acts(if t { 5 } else { 4 }, |a, _, _| {
                let mut v = vec![];
                for (w, s, p, n) in [(0, Ask, 11, 2), (0, Ask, 12, 3), (0, Bid, 9, 2), (0, Bid, 8, 3), (1, Ask, 11, 2), (1, Bid, 9, 2)] {
                    v.push(pl(w, o(s, p, n).freeb(w == 0 && n == 2).post()));
                }
                let _ = a;
                v
            })
            .probes(|a, u, d| {
                if d < 2 {
                    return cancels(a, 0).into_iter().chain(cancels(a, 2)).chain(cancels(a, u.rando)).collect();
                }
                cancels(a, 0)
            }),
    );
    // cancels in every status, with and without a seat, after fills and reductions
    v.push(
        Scen::new("cancel-status", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 300, 30), pl(0, o(Ask, 11, 3).post()), pl(0, o(Bid, 9, 3).free().post()), pl(1, o(Ask, 11, 2).post()), pl(0, o(Ask, 12, 2).tif(Some(10), None).post())])
            .acts(3, |a, u, _| {
                vec![
                    ix(u.auth, Op::Status { to: 1, receiver: None }),
                    ix(u.auth, Op::Status { to: 2, receiver: None }),
                    ix(u.auth, Op::Status { to: 3, receiver: None }),
                    ix(u.auth, Op::Status { to: 4, receiver: None }),
                    ix(u.auth, Op::ChangeSeat { trader: 0, status: 0 }),
                    ix(u.auth, Op::ChangeSeat { trader: 0, status: 2 }),
                    pl(1, o(Bid, 11, 1).ioc()),
                    clock(a, 1, 1),
                ]
            })
            .probes(|a, _, _| cancels(a, 0)),
    );
    // reduce repeatedly, then trade: the queue must be intact
    v.push(
        Scen::new("reduce-queue", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 300, 30), pl(0, o(Ask, 11, 3).post()), pl(1, o(Ask, 11, 3).post()), pl(0, o(Ask, 11, 3).post()), pl(0, o(Bid, 9, 3).post()), pl(1, o(Bid, 9, 3).post()), pl(0, o(Bid, 9, 3).post())])
            .acts(3, |a, _, _| {
                let mut v = vec![];
                for (side, px, id, who, lots) in ids(a) {
                    for size in [1, 2, lots] {
                        v.push(ix(who, Op::Reduce { side, px, id, size, ff: size == 2 }));
                    }
                }
                v
            })
            .probes(|_, _, _| (1..10).step_by(2).flat_map(|n| vec![pl(2, o(Bid, 11, n).ioc()), pl(2, o(Ask, 9, n).ioc())]).collect()),
    );
    v
}

fn fam_forced(t: bool) -> Vec<Scen> {
    let c = Cfg { fee_bps: 100, ..rich() };
    vec![Scen::new("forced", c.clone())
        .setup(open(&c))
        .setup(vec![dep(0, 100, 20), pl(0, o(Ask, 11, 2).free().post()), pl(0, o(Bid, 9, 2).post()), pl(1, o(Ask, 12, 1).post())])
        .acts(if t { 5 } else { 4 }, |a, u, _| {
            let mut v = vec![];
            for trader in [0, 1] {
                for status in [0, 1, 2] {
                    v.push(ix(u.auth, Op::ChangeSeat { trader, status }));
                }
                v.push(ix(u.auth, Op::Evict { trader }));
                for side in SIDES {
                    v.push(ix(u.auth, Op::ForceCancel { trader, p: UpTo { side, ..NOCUT } }));
                }
            }
            v.push(pl(0, o(Ask, 10, 1).post()));
            v.push(pl(1, o(Bid, 11, 1).ioc()));
            v.push(ix(0, Op::CancelAll { ff: true }));
            v.push(ix(0, Op::CancelAll { ff: false }));
            v.push(ix(0, Op::Withdraw { q: None, b: None }));
            v.push(dep(0, 5, 0));
            v.push(ix(u.auth, Op::Status { to: 3, receiver: None }));
            let _ = a;
            v
        })
        .probes(|a, u, d| {
            let mut v = vec![];
            for who in [u.auth, u.succ, 0, 1, u.rando] {
                for trader in [0, 1, 2, u.rando] {
                    v.push(ix(who, Op::Evict { trader }));
                    if d < 4 {
                        for status in 0..4 {
                            v.push(ix(who, Op::ChangeSeat { trader, status }));
                        }
                    }
                    for side in SIDES {
                        v.push(ix(who, Op::ForceCancel { trader, p: UpTo { side, ..NOCUT } }));
                        if who == u.auth && trader == 0 {
                            for l in levels(a, side) {
                                for tick in [l - 1, l, l + 1] {
                                    v.push(ix(who, Op::ForceCancel { trader, p: UpTo { side, tick: Some(tick), ..NOCUT } }));
                                }
                            }
                            for k in [0, 1] {
                                v.push(ix(who, Op::ForceCancel { trader, p: UpTo { side, search: Some(k), ..NOCUT } }));
                                v.push(ix(who, Op::ForceCancel { trader, p: UpTo { side, cancel: Some(k), ..NOCUT } }));
                            }
                        }
                    }
                }
            }
            v.push(pl(0, o(Ask, 13, 1).post()));
            v.push(pl(0, o(Ask, 13, 1).free().post()));
            v.push(pl(0, o(Bid, 20, 1).ioc()));
            v.push(pl(0, o(Bid, 20, 1).free().ioc()));
            v.push(dep(0, 1, 1));
            v
        })]
}

// ------------------------------------------------------------------------------------------------
// funds

/// Orders of every kind around the edge of what trader 0 can pay for.
fn fund_probes(who: Pid, top: u64) -> Vec<Act> {
    let mut v = vec![];
    for side in SIDES {
        for free in [false, true] {
            for n in 1..=top {
                for px in if side == Bid { [8, 9, 11, 12] } else { [12, 11, 9, 8] } {
                    let b = o(side, px, n).freeb(free).amend();
                    v.push(pl(who, b.post()));
                    v.push(pl(who, b.silent().post()));
                    v.push(pl(who, b.lim()));
                    v.push(pl(who, b.silent().lim()));
                    v.push(pl(who, b.ioc()));
                }
                v.push(pl(who, o(side, 1, 0).market().quote(n * 7).freeb(free).ioc()));
            }
        }
    }
    v
}

fn fam_funds(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    // wallets: 6 base lots (+ dust), 60 quote lots (+ dust)
    for fee in [0u16, 500] {
        let c = Cfg { fee_bps: fee, wbase: 65, wquote: 303, ..Cfg::default() };
        for (k, q, b) in [("empty", 0u64, 0u64), ("some", 24, 2), ("all", 60, 6)] {
            if !t && k == "empty" && fee == 500 {
                continue;
            }
            let setup = vec![dep(0, q, b), pl(1, o(Ask, 11, 2).post()), pl(1, o(Bid, 2, 3).post()), pl(2, o(Ask, 12, 4).post()), pl(2, o(Bid, 3, 2).post())];
            let acts = move |_: &Abs, _: &Uni, _: usize| {
                vec![
                    dep(0, 10, 0),
                    dep(0, 0, 2),
                    ix(0, Op::Withdraw { q: Some(7), b: Some(1) }),
                    ix(0, Op::Withdraw { q: None, b: Some(0) }),
                    pl(0, o(Ask, 20, 1).free().post()),
                    pl(0, o(Bid, 1, 3).post()),
                    pl(0, o(Bid, 11, 1).ioc()),
                    pl(0, o(Ask, 3, 1).free().ioc()),
                    ix(0, Op::CancelAll { ff: true }),
                    ix(0, Op::CancelAll { ff: false }),
                ]
            };
            let mut s = open(&c);
            if q == 0 && b == 0 {
                s.extend(setup[1..].to_vec());
            } else {
                s.extend(setup.clone());
            }
            v.push(
                Scen::new(&format!("funds-{}-{}", k, fee), c.clone())
                    .setup(s)
                    .acts(if t { 3 } else { 2 }, acts)
                    .probes(|_, _, d| fund_probes(0, if d < 2 { 9 } else { 5 })),
            );
        }
    }
    v
}

/// Deposits and withdrawals in every status and seat state.
fn fam_cash(t: bool) -> Vec<Scen> {
    let c = Cfg { fee_bps: 500, wbase: 65, wquote: 303, ..Cfg::default() };
    let c2 = Cfg { fee_bps: 500, wbase: 6500, wquote: 30300, nqlu: 1000, nblu: 1, tick: 1, raw_base: Some(3), ..Cfg::default() };
    let mut v = vec![];
    for (name, c) in [("cash", c), ("cash-lots", c2)] {
        v.push(
            Scen::new(name, c.clone())
                .setup(open(&c))
                .setup(vec![pl(1, o(Ask, 3, 2).post())])
                .acts(if t { 4 } else { 3 }, |a, u, _| {
                    let mut v = vec![
                        dep(0, 20, 2),
                        dep(0, 0, 4),
                        ix(0, Op::Withdraw { q: Some(5), b: Some(1) }),
                        pl(0, o(Ask, 20, 1).free().post()),
                        pl(0, o(Bid, 2, 3).free().post()),
                        pl(0, o(Bid, 3, 1).free().ioc()),
                        ix(0, Op::CancelAll { ff: true }),
                    ];
                    for to in [1, 2, 3, 4] {
                        v.push(ix(u.auth, Op::Status { to, receiver: None }));
                    }
                    for status in [0, 2] {
                        v.push(ix(u.auth, Op::ChangeSeat { trader: 0, status }));
                    }
                    let _ = a;
                    v
                })
                .probes(|a, u, d| {
                    let mut v = vec![];
                    for who in [0, 1, 2, u.rando] {
                        if who != 0 && d == 3 {
                            continue;
                        }
                        for q in [None, Some(0), Some(1), Some(5), Some(19), Some(20), Some(21), Some(1000), Some(u64::MAX)] {
                            for b in [None, Some(0), Some(1), Some(2), Some(3), Some(u64::MAX)] {
                                v.push(ix(who, Op::Withdraw { q, b }));
                            }
                        }
                        for (q, b) in [(0, 0), (1, 0), (0, 1), (3, 2), (60, 6), (61, 0), (0, 7), (40, 4), (u64::MAX, 0), (0, u64::MAX), (u64::MAX / 5, 0), (u64::MAX / 5 + 1, 0), (0, u64::MAX / 10 + 2), (10_000, 2)] {
                            v.push(ix(who, Op::Deposit { q, b }));
                        }
                    }
                    let _ = a;
                    v
                }),
        );
    }
    // amounts that coincide with numbers found elsewhere in the accounts: their rent, their size
    let c = rich();
    let same = [2_039_280u64, 165, 2_039_280 * 2, 832, 576, 128];
    v.push(
        Scen::new("cash-same", c.clone())
            .setup(open(&c))
            .acts(2, move |_, _, _| {
                let mut v = vec![dep(0, 1 << 20, 1 << 20), ix(0, Op::Withdraw { q: Some(165), b: Some(165) })];
                for n in same {
                    v.push(dep(0, n / 5, n / 10));
                }
                v
            })
            .probes(move |_, _, _| {
                let mut v = vec![];
                for n in same {
                    for (q, b) in [(n / 5, n / 10), (n, n), (n / 5, 0), (0, n / 10)] {
                        v.push(ix(0, Op::Withdraw { q: Some(q), b: Some(b) }));
                        v.push(dep(0, q, b));
                    }
                    v.push(pl(0, o(Bid, 1, n / 10).free().post()));
                    v.push(pl(0, o(Bid, 1, n / 10).post()));
                    v.push(pl(0, o(Ask, 1, n / 10).post()));
                }
                v
            }),
    );
    v
}

/// Extreme quantities: arithmetic must fail cleanly or be exact.
fn fam_large(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let big = u64::MAX >> 2;
    for (k, c) in [
        ("unit", Cfg { base_dec: 0, quote_dec: 0, nblu: 1, nqlu: 1, tick: 1, fee_bps: 30, wbase: big / 4, wquote: big / 4, ..Cfg::default() }),
        // value times rate is more than 64 bits can hold
        ("fee", Cfg { base_dec: 0, quote_dec: 0, nblu: 1, nqlu: 1, tick: 1, fee_bps: 4999, wbase: big / 4, wquote: big / 4, ..Cfg::default() }),
        ("tick", Cfg { base_dec: 3, quote_dec: 0, nblu: 1000, nqlu: 1, tick: 1_000_000_000, fee_bps: 30, wbase: big / 4, wquote: big / 4, ..Cfg::default() }),
    ] {
        let k2 = k == "unit";
        v.push(
            Scen::new(&format!("large-{}", k), c.clone())
                .setup(open(&c))
                .setup(vec![dep(0, big / 8, big / 8), dep(1, big / 8, big / 8)])
                .acts(if t { 3 } else { 2 }, move |_, _, _| {
                    let mut v = vec![];
                    for w in [1, 2] {
                        for (s, p, n) in [
                            (Ask, 1u64 << 20, 1u64 << 38),
                            (Ask, 1 << 38, 1 << 20),
                            (Ask, 1 << 50, 1 << 50),
                            (Ask, u64::MAX - 1, 1),
                            (Bid, 1 << 19, 1 << 38),
                            (Bid, 1 << 37, 1 << 20),
                            (Bid, 1, 1 << 56),
                            (Bid, 1 << 30, 1 << 34),
                        ] {
                            let _ = k2;
                            v.push(pl(w, o(s, p, n).post()));
                        }
                    }
                    v.push(ix(1, Op::CancelAll { ff: true }));
                    v
                })
                .probes(|_, _, _| {
                    let mut v = vec![];
                    for side in SIDES {
                        for free in [false, true] {
                            for n in [1u64, 1 << 20, (1 << 20) + 1, 1 << 38, 1 << 50, 1 << 55, 1 << 63, u64::MAX] {
                                for px in [1u64, 1 << 20, 1 << 38, 1 << 50, u64::MAX] {
                                    v.push(pl(0, o(side, px, n).freeb(free).ioc()));
                                    v.push(pl(0, o(side, px, n).freeb(free).lim()));
                                    v.push(pl(0, o(side, px, n).freeb(free).silent().post()));
                                }
                                v.push(pl(0, o(side, 1, 0).market().quote(n).freeb(free).ioc()));
                                v.push(pl(0, o(side, 1, 0).market().quote(n.saturating_mul(3)).freeb(free).ioc()));
                            }
                        }
                    }
                    for q in [0, 1, 1 << 55, u64::MAX >> 4, u64::MAX] {
                        v.push(dep(0, q, 0));
                        v.push(dep(0, 0, q));
                    }
                    v.push(ix(0, Op::Withdraw { q: None, b: None }));
                    v
                })
                .views(),
        );
    }
    v
}

/// Values just around a power of two at which a number could have been squeezed into a narrower type, in every field of
/// every instruction that carries one, on a small book.
fn fam_wide(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    let at = |x: u64| [8u32, 16, 32, 63].map(|b| (1u64 << b).wrapping_add(x));
    for fee in [0u16, 30] {
        let c = Cfg { fee_bps: fee, ..rich() };
        v.push(
            Scen::new(&format!("wide-{}", fee), c.clone())
                .setup(open(&c))
                .setup(vec![
                    dep(0, 70_000, 70_000),
                    dep(1, 70_000, 70_000),
                    pl(1, o(Ask, 11, 300).post()),
                    pl(0, o(Ask, 12, 2).post()),
                    pl(1, o(Ask, 267, 3).cid(1 << 32).post()),
                    pl(1, o(Ask, 65_547, 1).cid(1 << 64).post()),
                    pl(1, o(Bid, 300, 2).tif(Some(1 << 32 | 10), None).amend().post()),
                    pl(0, o(Bid, 9, 2).post()),
                    pl(1, o(Bid, 8, 300).tif(None, Some(1 << 32 | 1000)).post()),
                ])
                .acts(if t { 2 } else { 1 }, move |a, _, _| {
                    let mut v = vec![];
                    for n in [255, 256, 257] {
                        v.push(pl(0, o(Bid, 1000, n).ioc()));
                        v.push(pl(0, o(Ask, 1, n).free().ioc()));
                    }
                    v.push(pl(0, o(Bid, 267, 302).lim()));
                    v.push(pl(0, o(Bid, 65_536, 1).st(St::DecrementTake).lim()));
                    v.push(clock(a, 1 << 8, 0));
                    v.push(clock(a, 1 << 16, 1 << 16));
                    v.push(clock(a, 1 << 32, 0));
                    v.push(clock(a, 0, 1 << 32));
                    v
                })
                .probes(move |a, u, _| {
                    let mut v = vec![];
                    for x in [0, 1, u64::MAX] {
                        for w in at(x) {
                            for side in SIDES {
                                let far = if side == Bid { 1_000_000 } else { 1 };
                                for n in [2, 301] {
                                    v.push(pl(0, o(side, far, n).ml(Some(w)).ioc()));
                                    v.push(pl(0, o(side, far, n).ml(Some(w)).st(St::DecrementTake).free().ioc()));
                                    v.push(pl(0, o(side, far, n).min(w, 0).ioc()));
                                    v.push(pl(0, o(side, far, n).min(0, w).ioc()));
                                }
                                v.push(pl(0, o(side, w, 2).lim()));
                                v.push(pl(0, o(side, w, 2).free().post()));
                                v.push(pl(0, o(side, w, 2).amend().post()));
                                v.push(pl(0, o(side, far, w).ioc()));
                                v.push(pl(0, o(side, 10, w).free().lim()));
                                v.push(pl(0, o(side, far, 0).market().quote(w).ioc()));
                                v.push(pl(0, o(side, 10, 1).cid(w as u128).post()));
                                v.push(pl(0, o(side, 10, 1).cid((w as u128) << 64).post()));
                                for (ls, lt) in [(Some(w), None), (None, Some(w)), (Some(w), Some(2000)), (Some(11), Some(w))] {
                                    v.push(pl(0, o(side, 10, 1).tif(ls, lt).post()));
                                    v.push(pl(0, o(side, 10, 1).tif(ls, lt).free().ioc()));
                                }
                                for ff in [false, true] {
                                    v.push(ix(0, Op::CancelUpTo { p: UpTo { side, tick: Some(w), ..NOCUT }, ff }));
                                    if let Ok(k) = u32::try_from(w) {
                                        v.push(ix(0, Op::CancelUpTo { p: UpTo { side, search: Some(k), ..NOCUT }, ff }));
                                        v.push(ix(0, Op::CancelUpTo { p: UpTo { side, cancel: Some(k), ..NOCUT }, ff }));
                                    }
                                    let e = |lots| vec![(10, lots, GTC)];
                                    v.push(ix(0, if side == Bid { multi(e(w), vec![], 2, ff) } else { multi(vec![], e(w), 2, ff) }));
                                    let e = |px| vec![(px, 1, GTC)];
                                    v.push(ix(0, if side == Bid { multi(e(w), vec![], 2, ff) } else { multi(vec![], e(w), 2, ff) }));
                                }
                                if let Ok(k) = u32::try_from(w) {
                                    v.push(ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side, search: Some(k), ..NOCUT } }));
                                    v.push(ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side, cancel: Some(k), ..NOCUT } }));
                                }
                                v.push(ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side, tick: Some(w), ..NOCUT } }));
                            }
                            for (q, b) in [(w, 0), (0, w), (w, w)] {
                                v.push(dep(0, q, b));
                                v.push(ix(0, Op::Withdraw { q: Some(q), b: Some(b) }));
                            }
                            v.push(ix(0, Op::Withdraw { q: Some(w), b: None }));
                        }
                    }
                    // one's own orders, and ids and sizes that agree with theirs in the lower bits only
                    for (side, px, id, w, n) in ids(a) {
                        if w != 0 && w != 1 {
                            continue;
                        }
                        for k in [8u32, 16, 32, 63] {
                            for (px, id, size) in [(px, id, n), (px ^ 1 << k, id, 1), (px, id ^ 1 << k, 1), (px, id, 1 << k), (px, id, 1 << k | 1)] {
                                for ff in [false, true] {
                                    v.push(ix(w, Op::Reduce { side, px, id, size, ff }));
                                    v.push(ix(w, Op::CancelIds { v: vec![(side, px, id)], ff }));
                                }
                            }
                        }
                    }
                    v
                })
                .views(),
        );
    }
    v
}

// ------------------------------------------------------------------------------------------------
// a bit of everything

fn mix_actions(a: &Abs, u: &Uni) -> Vec<Act> {
    let mut v = vec![];
    for w in [0, 1] {
        v.push(pl(w, o(Ask, 11, 2).post()));
        v.push(pl(w, o(Bid, 9, 2).free().post()));
        v.push(pl(w, o(Bid, 12, 3).lim()));
        v.push(pl(w, o(Ask, 8, 3).free().st(St::DecrementTake).lim()));
        v.push(pl(w, o(Bid, 1, 0).market().quote(40).st(St::Abort).ioc()));
        v.push(pl(w, o(Ask, 8, 3).free().ioc()));
        v.push(ix(w, Op::CancelAll { ff: w == 0 }));
        v.push(ix(w, Op::Withdraw { q: None, b: None }));
        v.push(ix(w, multi(vec![(9, 1, GTC), (8, 2, GTC)], vec![(12, 1, GTC)], 2, w == 1)));
        if let Some((side, px, id, _, _)) = ids(a).into_iter().find(|x| x.3 == w) {
            v.push(ix(w, Op::Reduce { side, px, id, size: 1, ff: w == 1 }));
            v.push(ix(w, Op::CancelIds { v: vec![(side, px, id)], ff: w == 0 }));
        }
        v.push(dep(w, 7, 3));
    }
    v.push(pl(0, o(Ask, 10, 2).tif(Some(a.slot), None).post()));
    v.push(pl(1, o(Bid, 10, 2).tif(None, Some(a.ts as u64)).amend().post()));
    v.push(clock(a, 1, 1));
    v.push(ix(u.rando, Op::Collect { dest: u.fee }));
    v.push(pl(u.rando, o(Bid, 12, 1).ioc()));
    for status in [0, 1] {
        v.push(ix(u.auth, Op::ChangeSeat { trader: 1, status }));
    }
    v.push(ix(u.auth, Op::Evict { trader: 1 }));
    v.push(ix(u.auth, Op::ForceCancel { trader: 1, p: UpTo { side: Ask, ..NOCUT } }));
    for to in [1, 2, 3, 4] {
        v.push(ix(u.auth, Op::Status { to, receiver: None }));
    }
    v
}

fn fam_mix(t: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (k, fee) in [("a", 100u16), ("b", 0)] {
        if k == "b" && !t {
            continue;
        }
        let c = Cfg { fee_bps: fee, traders: 2, ..rich() };
        v.push(Scen::new(&format!("mix-{}", k), c.clone()).setup(open(&c)).setup(vec![dep(0, 100, 20), dep(1, 60, 20)]).acts(if t { 5 } else { 4 }, |a, u, _| mix_actions(a, u)));
    }
    // trading core only, deeper
    let c = Cfg { fee_bps: 100, traders: 2, ..rich() };
    v.push(
        Scen::new("mix-core", c.clone())
            .setup(open(&c))
            .setup(vec![dep(0, 100, 20)])
            .acts(if t { 6 } else { 5 }, |a, _, _| {
                let mut v = vec![
                    pl(0, o(Ask, 11, 2).post()),
                    pl(0, o(Bid, 9, 2).free().post()),
                    pl(1, o(Bid, 12, 3).lim()),
                    pl(1, o(Ask, 8, 3).lim()),
                    pl(0, o(Bid, 1, 0).market().quote(40).ioc()),
                    pl(1, o(Ask, 11, 2).tif(Some(a.slot), None).post()),
                    clock(a, 1, 1),
                    ix(0, Op::CancelAll { ff: true }),
                    ix(1, Op::CancelAll { ff: false }),
                    ix(0, Op::Withdraw { q: None, b: None }),
                ];
                if let Some((side, px, id, who, _)) = ids(a).into_iter().next() {
                    v.push(ix(who, Op::Reduce { side, px, id, size: 1, ff: true }));
                }
                v
            }),
    );
    v
}

const CHEAP: &str = "funds cash full multi events ids auth seats accounts init encode views forced fees cases wide";
/// families also run on a market with a past (see `used`) by the quick checks; the thorough checks do this for all
const AGED: &str = "auth cash funds fees forced full events multi views mix wide sweep limits self expiry post cancel large encode";
/// families also run on a market whose authority and fee collector trade on it (see `merged`) by the quick checks
const MERGED: &str = "auth cash fees forced seats events full funds mix self";
/// families of interest to every property that speaks about orders and funds
const BASE: &str = "fees funds cash full limits large ids events sweep mix forced seats auth init crowd wide";
/// property, the families written for it (explored first), and further ones in which it is also decided
const PRIMARY: [(&str, &str, &str); 26] = [
    ("C01", "mix forced cash full large fees funds", "base self cancel multi expiry"),
    ("C02", "mix forced full self cancel fees multi seats", "base expiry accounts"),
    ("C03", "sweep mix limits", "base self expiry post"),
    ("C04", "limits self sweep", "base expiry post"),
    ("C05", "fees mix large", "base self expiry accounts"),
    ("C06", "post multi full", "base expiry views"),
    ("C07", "mix post sweep full ids expiry", "base self cancel multi views"),
    ("C08", "self limits", "base expiry post"),
    ("C09", "expiry full post", "base self multi views"),
    ("C10", "cancel forced", "base encode views"),
    ("C11", "funds self cancel", "base post multi"),
    ("C12", "cash forced auth seats", "base accounts cancel encode"),
    ("C13", "full", "base multi post sizes"),
    ("C14", "multi", "base encode post"),
    ("C15", "events mix full self auth seats", "base cancel expiry multi accounts"),
    ("C16", "ids full mix", "base post multi cancel views"),
    ("C17", "accounts auth seats", "base encode cancel"),
    ("C18", "auth mix seats cash", "base cancel accounts multi"),
    ("C19", "seats forced cash auth", "base accounts cancel multi"),
    ("C20", "init auth", "base accounts encode sizes"),
    ("C21", "auth fees seats", "base accounts encode"),
    ("C22", "encode", "base multi cancel accounts post"),
    ("C23", "views", "base expiry multi"),
    ("C24", "funds multi large fees limits post", "base self expiry"),
    ("C25", "sizes", "base full"),
    ("C26", "auth forced cash fees mix full seats", "base self cancel multi funds post views"),
];

/// Slots, times and client ids far beyond 32 (64) bits. The scenario itself is written for small ones, which are moved there.
const LATE: (u64, i64, u128) = (3 << 33, 5 << 34, 7 << 90);
fn later(a: Act) -> Act {
    let tif = |t: Tif| Tif { lvs: t.lvs.map(|x| if x > 0 && x < 1 << 32 { x + LATE.0 } else { x }), lvts: t.lvts.map(|x| if x > 0 && x < 1 << 32 { x + LATE.1 as u64 } else { x }) };
    let id = |c: u128| if c > 0 && c < 1 << 64 { c + LATE.2 } else { c };
    match a {
        Act::Clock { slot, ts } => Act::Clock { slot: slot + LATE.0, ts: ts + LATE.1 },
        Act::Ix { who, op, faults, exp } if faults.is_empty() => {
            let op = match op {
                Op::Order(m, p) => Op::Order(
                    m,
                    match p {
                        Pk::PostOnly { side, px, lots, cid, reject, free, tif: t, silent } => Pk::PostOnly { side, px, lots, cid: id(cid), reject, free, tif: tif(t), silent },
                        Pk::Limit { side, px, lots, st, ml, cid, free, tif: t, silent } => Pk::Limit { side, px, lots, st, ml, cid: id(cid), free, tif: tif(t), silent },
                        Pk::Ioc { side, px, lots, quote, minb, minq, st, ml, cid, free, tif: t } => Pk::Ioc { side, px, lots, quote, minb, minq, st, ml, cid: id(cid), free, tif: tif(t) },
                    },
                ),
                Op::Multi(mut m, ff) => {
                    m.cid = m.cid.map(id);
                    for c in m.bids.iter_mut().chain(m.asks.iter_mut()) {
                        c.tif = tif(c.tif);
                    }
                    Op::Multi(m, ff)
                }
                x => x,
            };
            Act::Ix { who, op, faults, exp }
        }
        x => x,
    }
}
fn earlier(a: &Abs) -> Abs {
    let mut a = a.clone();
    a.slot -= LATE.0;
    a.ts -= LATE.1;
    for o in a.bids.iter_mut().chain(a.asks.iter_mut()) {
        o.lvs = o.lvs.saturating_sub(LATE.0);
        o.lvts = o.lvts.saturating_sub(LATE.1 as u64);
    }
    a
}

/// The same scenarios on a market with a past: it has traded, collected fees, and holds some again; ids were handed out on
/// both sides, the authority once named a successor and thought better of it, and the exchange was halted for a while. It is
/// late (`LATE`), and the order sequence number is far beyond 32 bits.
/// Only for scenarios that open the market first; everybody's funds are withdrawn again.
fn used(v: Vec<Scen>) -> Vec<Scen> {
    let mut out = vec![];
    for mut sc in v {
        let s: Vec<String> = sc.setup.iter().map(|x| format!("{:?}", x)).collect();
        let (auth, rando, fee) = (sc.cfg.traders, sc.cfg.traders + 4, sc.cfg.traders + 2);
        let at = s.iter().position(|x| *x == format!("{:?}", ix(auth, Op::Status { to: 1, receiver: None })));
        let seated = |k: usize| (0..2u16).all(|p| s[..k].contains(&format!("{:?}", ix(auth, Op::ChangeSeat { trader: p as Pid, status: 1 }))));
        if let Some(k) = at.filter(|k| sc.bulk == 0 && sc.twin.is_none() && seated(*k)) {
            let mut p = vec![pl(1, o(Bid, 10, 20).post()), pl(0, o(Ask, 10, 20).ioc()), ix(rando, Op::Collect { dest: fee })];
            p.extend([pl(0, o(Bid, 10, 2).post()), pl(1, o(Ask, 10, 2).ioc()), pl(0, o(Ask, 12, 1).post()), pl(0, o(Bid, 8, 1).post())]);
            p.extend([ix(0, Op::CancelAll { ff: false }), ix(auth, Op::Status { to: 3, receiver: None }), ix(auth, Op::Name { succ: rando })]);
            p.extend([ix(auth, Op::Name { succ: auth }), ix(auth, Op::Status { to: 1, receiver: None })]);
            p.extend([0, 1].map(|w| ix(w, Op::Withdraw { q: None, b: None })));
            // late, and after very many orders
            p.extend([Act::Clock { slot: 10, ts: 1000 }, Act::Poke(Counter::Orders, 9 << 40), Act::Poke(Counter::Events, 11 << 41), Act::Poke(Counter::Collected, 13 << 42)]);
            let tail = sc.setup.split_off(k + 1);
            sc.setup.extend(p.into_iter().chain(tail).map(later));
            let (acts, probes) = (sc.acts, sc.probes);
            sc.acts = Box::new(move |a, u, d| acts(&earlier(a), u, d).into_iter().map(later).collect());
            sc.probes = Box::new(move |a, u, d| probes(&earlier(a), u, d).into_iter().map(later).collect());
            sc.name = format!("{}+", sc.name).into();
            out.push(sc);
        }
    }
    out
}

/// The same scenarios on a market whose authority is its first trader and whose fees are collected by its second one: whoever
/// acts for the market or collects its fees also trades on it, evicts itself, pays itself and so on.
/// Not for scenarios that tell what must be refused by who does it (`Exp::Err` depends on the roles being different people).
fn merged(v: Vec<Scen>) -> Vec<Scen> {
    let mut out = vec![];
    for mut sc in v {
        if sc.twin.is_some() || sc.bulk > 0 || sc.cfg.extras {
            continue;
        }
        let t = sc.cfg.traders;
        let m = move |p: Pid| if p == t { 0 } else if p == t + 2 { 1 } else { p };
        let act = move |a: Act| match a {
            Act::Ix { who, op, faults, exp } => {
                let op = match op {
                    Op::RequestSeatAuth { trader } => Op::RequestSeatAuth { trader: m(trader) },
                    Op::ChangeSeat { trader, status } => Op::ChangeSeat { trader: m(trader), status },
                    Op::Evict { trader } => Op::Evict { trader: m(trader) },
                    Op::ForceCancel { trader, p } => Op::ForceCancel { trader: m(trader), p },
                    Op::Name { succ } => Op::Name { succ: m(succ) },
                    Op::Status { to, receiver } => Op::Status { to, receiver: receiver.map(m) },
                    Op::Collect { dest } => Op::Collect { dest: m(dest) },
                    Op::FeeRecipient { new, prev } => Op::FeeRecipient { new: m(new), prev: prev.map(m) },
                    Op::Init(p) => Op::Init(InitP { coll: p.coll.map(m), ..p }),
                    x => x,
                };
                Act::Ix { who: m(who), op, faults, exp }
            }
            x => x,
        };
        let gen = move |v: Vec<Act>| {
            let mut out: Vec<Act> = vec![];
            for a in v {
                if matches!(a, Act::Ix { exp: Exp::Err, .. }) {
                    continue;
                }
                let a = act(a);
                if !out.contains(&a) {
                    out.push(a);
                }
            }
            out
        };
        sc.cfg.merged = true;
        sc.setup = sc.setup.into_iter().map(act).collect();
        let (acts, probes) = (sc.acts, sc.probes);
        sc.acts = Box::new(move |a, u, d| gen(acts(a, u, d)));
        sc.probes = Box::new(move |a, u, d| gen(probes(a, u, d)));
        sc.name = format!("{}=", sc.name);
        out.push(sc);
    }
    out
}

pub fn scenarios(prop: &str, t: bool) -> Vec<Scen> {
    if let Some(f) = prop.strip_suffix('=') {
        return merged(scenarios(f, t));
    }
    if let Some(f) = prop.strip_suffix('+') {
        return used(scenarios(f, t));
    }
    let j = |v: Vec<Vec<Scen>>| v.into_iter().flatten().collect::<Vec<_>>();
    match prop {
        "sweep" => fam_sweep(t),
        "limits" => fam_limits(t),
        "fees" => fam_fees(t),
        "self" => fam_self(t),
        "expiry" => fam_expiry(t),
        "post" => fam_post(t),
        "cancel" => fam_cancel(t),
        "forced" => fam_forced(t),
        "funds" => fam_funds(t),
        "cash" => fam_cash(t),
        "large" => fam_large(t),
        "mix" => fam_mix(t),
        "full" => fam_full(t),
        "multi" => fam_multi(t),
        "events" => fam_events(t),
        "ids" => fam_ids(t),
        "auth" => fam_auth(t),
        "seats" => fam_seats(t),
        "accounts" => fam_accounts(t),
        "init" => fam_init(t),
        "encode" => fam_encode(t),
        "views" => fam_views(t),
        "wide" => fam_wide(t),
        "sizes" => fam_sizes(t),
        "crowd" => fam_crowd(t),
        // development only: everything, small families first
        "ALL" => j(MERGED.split(' ').map(|f| scenarios(&format!("{}=", f), t)).chain(AGED.split(' ').map(|f| scenarios(&format!("{}+", f), t))).chain(vec![
            fam_init(t), fam_accounts(t), fam_auth(t), fam_seats(t), fam_encode(t), fam_cash(t), fam_funds(t), fam_multi(t), fam_full(t), fam_events(t), fam_ids(t), fam_fees(t), fam_forced(t),
            fam_views(t), fam_mix(t), fam_limits(t), fam_sweep(t), fam_cancel(t), fam_post(t), fam_large(t), fam_self(t), fam_expiry(t), fam_sizes(t), fam_crowd(t), fam_wide(t),
        ]).collect()),
        _ if PRIMARY.iter().any(|x| x.0 == prop) => {
            let (_, first, more) = PRIMARY.iter().find(|x| x.0 == prop).unwrap();
            let mut v: Vec<Scen> = vec![];
            let mut fams: Vec<String> = first.split(' ').chain(more.split(' ')).flat_map(|f| if f == "base" { BASE.split(' ').collect() } else { vec![f] }).filter(|f| !f.is_empty()).map(String::from).collect();
            let plus: Vec<String> = fams.iter().filter(|f| if t { **f != "ids" } else { AGED.split(' ').any(|x| x == **f) }).map(|f| format!("{}+", f)).collect();
            let eq: Vec<String> = fams.iter().filter(|f| t || MERGED.split(' ').any(|x| x == **f)).map(|f| format!("{}=", f)).collect();
            let both: Vec<String> = eq.iter().filter(|_| t).map(|f| f.replace('=', "+=")).collect();
            fams.extend(plus.into_iter().chain(eq).chain(both));
            for f in fams.iter().map(|f| f.as_str()) {
                // cheap families run at their full bounds in both tiers
                let full = t || CHEAP.split(' ').any(|x| x == f);
                for sc in scenarios(f, full) {
                    if !v.iter().any(|x| x.name == sc.name) {
                        // the property about the views looks through them at every state there is
                        v.push(if prop == "C23" { sc.views() } else { sc });
                    }
                }
            }
            v
        }
        _ => j(vec![]),
    }
}
