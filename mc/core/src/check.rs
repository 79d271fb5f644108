//! Compares one executed transition of the implementation with the reference model's prediction, and
//! checks the model-independent invariants on it.
use crate::spec::{Ev, Outcome, Pred};
use crate::svm::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cat {
    /// should have been accepted
    Rejected,
    /// should have been rejected
    Accepted,
    Book,
    Balance,
    Registered,
    Wallet,
    Vault,
    Uncollected,
    Collected,
    Oseq,
    Mseq,
    Live,
    Status,
    Authority,
    FeeRec,
    SeatStatus,
    Lamports,
    Return,
    LogHeader,
    LogEvents,
    LogBatch,
    Header,
    Residual,
    View,
    Ladder,
    Solvency,
    Locked,
    Conserved,
    Bystander,
    Crossed,
    Malformed,
    Limits,
    FeeInv,
    SelfFill,
    Replay,
    Problem,
    Differ,
    /// a step of winding the market down is impossible
    Stuck,
}

#[derive(Clone, Debug)]
pub struct Div {
    pub cat: Cat,
    pub msg: String,
}

pub struct LogBatch {
    pub instr: u8,
    pub seq: u64,
    pub ts: i64,
    pub slot: u64,
    pub market: [u8; 32],
    pub signer: [u8; 32],
    pub count: u16,
    pub events: Vec<(u16, Ev)>,
    pub bad: Option<String>,
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|x| u16::from_le_bytes(x.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))
    }
    fn u128(&mut self) -> Option<u128> {
        self.take(16).map(|x| u128::from_le_bytes(x.try_into().unwrap()))
    }
    fn key(&mut self) -> Option<[u8; 32]> {
        self.take(32).map(|x| x.try_into().unwrap())
    }
}

pub fn parse_log(u: &Uni, d: &[u8]) -> Option<LogBatch> {
    let mut r = Rd(d);
    if r.u8()? != 15 || r.u8()? != 1 {
        return None;
    }
    let mut b = LogBatch {
        instr: r.u8()?,
        seq: r.u64()?,
        ts: r.u64()? as i64,
        slot: r.u64()?,
        market: r.key()?,
        signer: r.key()?,
        count: r.u16()?,
        events: vec![],
        bad: None,
    };
    let who = |k: [u8; 32]| u.id_of(&solana_program::pubkey::Pubkey::new_from_array(k));
    while !r.0.is_empty() {
        let mut one = || -> Option<(u16, Ev)> {
            let t = r.u8()?;
            let i = r.u16()?;
            let e = match t {
                2 => Ev::Fill { maker: who(r.key()?), id: r.u64()?, px: r.u64()?, filled: r.u64()?, left: r.u64()? },
                3 => Ev::Place { id: r.u64()?, cid: r.u128()?, px: r.u64()?, lots: r.u64()? },
                4 => Ev::Reduce { id: r.u64()?, px: r.u64()?, removed: r.u64()?, left: r.u64()? },
                5 => Ev::Evict { maker: who(r.key()?), id: r.u64()?, px: r.u64()?, lots: r.u64()? },
                6 => Ev::Summary { cid: r.u128()?, base: r.u64()?, quote: r.u64()?, fee: r.u64()? },
                7 => Ev::Fee { lots: r.u64()? },
                8 => Ev::Tif { id: r.u64()?, lvs: r.u64()?, lvts: r.u64()? },
                9 => Ev::Expired { maker: who(r.key()?), id: r.u64()?, px: r.u64()?, removed: r.u64()? },
                _ => return None,
            };
            Some((i, e))
        };
        match one() {
            Some(x) => b.events.push(x),
            None => {
                b.bad = Some("undecodable event".into());
                break;
            }
        }
    }
    Some(b)
}

pub struct Step<'a> {
    pub t: &'a Target,
    pub u: &'a Uni,
    pub act: &'a Act,
    pub pre: &'a Abs,
    pub pred: &'a Pred,
    pub out: &'a ExecOut,
    pub post: &'a Abs,
    pub cur: &'a Image,
    pub work: &'a Image,
    pub ixn: &'a Ix,
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let mut s = format!("{:?}", x);
    if s.len() > 700 {
        let mut n = 700;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}
fn vdiff<T: std::fmt::Debug + PartialEq>(want: &[T], got: &[T]) -> String {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return format!("at {}: expected {}, got {} (lengths {}, {})", i, short(&want.get(i)), short(&got.get(i)), want.len(), got.len());
        }
    }
    "equal".into()
}

pub fn state_invariants(u: &Uni, s: &Abs, v: &mut Vec<Div>) {
    let mut d = |cat, msg: String| v.push(Div { cat, msg });
    for p in &s.problems {
        d(Cat::Problem, p.clone());
    }
    if !s.live {
        return;
    }
    let (bl, ql) = (u.cfg.base_lot() as u128, u.cfg.quote_lot() as u128);
    let base: u128 = s.traders.iter().map(|t| t.1.bl as u128 + t.1.bf as u128).sum();
    let quote: u128 = s.traders.iter().map(|t| t.1.ql as u128 + t.1.qf as u128).sum::<u128>() + s.uncollected as u128;
    if base * bl != s.tok[u.tvb()] as u128 {
        d(Cat::Solvency, format!("base vault holds {} atoms but claims are {} lots of {}", s.tok[u.tvb()], base, bl));
    }
    if quote * ql != s.tok[u.tvq()] as u128 {
        d(Cat::Solvency, format!("quote vault holds {} atoms but claims and fees are {} lots of {}", s.tok[u.tvq()], quote, ql));
    }
    let nb = u.cfg.nblu as u128;
    let unit = u.cfg.tick as u128;
    let mut lq: std::collections::HashMap<Pid, u128> = Default::default();
    let mut lb: std::collections::HashMap<Pid, u128> = Default::default();
    for o in &s.bids {
        *lq.entry(o.who).or_default() += o.px as u128 * unit * o.lots as u128 / nb;
    }
    for o in &s.asks {
        *lb.entry(o.who).or_default() += o.lots as u128;
    }
    for (p, t) in &s.traders {
        let (q, b) = (lq.remove(p).unwrap_or(0), lb.remove(p).unwrap_or(0));
        if q != t.ql as u128 || b != t.bl as u128 {
            d(Cat::Locked, format!("{} has locked {} quote {} base but its orders need {} and {}", u.person_name(*p), t.ql, t.bl, q, b));
        }
    }
    for p in lq.keys().chain(lb.keys()) {
        d(Cat::Malformed, format!("order owned by unregistered trader {}", u.person_name(*p)));
    }
    for w in s.traders.windows(2) {
        if w[0].0 == w[1].0 {
            d(Cat::Malformed, format!("trader {} registered twice", u.person_name(w[0].0)));
        }
    }
    for (side, b) in [(Bid, &s.bids), (Ask, &s.asks)] {
        for o in b.iter() {
            if o.lots == 0 || o.px == 0 {
                d(Cat::Malformed, format!("order with zero size or price: {:?}", o));
            }
            if (o.id >> 63 == 1) != (side == Bid) {
                d(Cat::Malformed, format!("order id does not carry its side: {:?}", o));
            }
            if o.ord() >= s.oseq {
                d(Cat::Malformed, format!("order id not below the next sequence number {}: {:?}", s.oseq, o));
            }
        }
        for w in b.windows(2) {
            let ok = if w[0].px == w[1].px { w[0].ord() < w[1].ord() } else { (w[0].px > w[1].px) == (side == Bid) };
            if !ok {
                d(Cat::Malformed, format!("book not in priority order: {:?} then {:?}", w[0], w[1]));
            }
        }
        let cap = if side == Bid { u.cfg.bids } else { u.cfg.asks };
        if b.len() as u64 > cap {
            d(Cat::Malformed, format!("more orders than capacity: {}", b.len()));
        }
    }
    let mut ids: Vec<u64> = s.bids.iter().chain(&s.asks).map(|o| o.ord()).collect();
    ids.sort();
    if ids.windows(2).any(|w| w[0] == w[1]) {
        d(Cat::Malformed, "two orders share an identifier".into());
    }
    let now = |o: &&Order| !o.expired(s.slot, s.ts as u64);
    if let (Some(b), Some(a)) = (s.bids.iter().find(now), s.asks.iter().find(now)) {
        if b.px >= a.px {
            d(Cat::Crossed, format!("live bid at {} and live ask at {}", b.px, a.px));
        }
    }
}

fn target_of(op: &Op) -> Option<Pid> {
    match op {
        Op::Evict { trader } | Op::ForceCancel { trader, .. } | Op::ChangeSeat { trader, .. } | Op::RequestSeatAuth { trader } => Some(*trader),
        Op::Collect { dest } => Some(*dest),
        _ => None,
    }
}

fn taker(op: &Op) -> Option<&Pk> {
    match op {
        Op::Order(_, p) => Some(p),
        _ => None,
    }
}

/// All divergences of one transition.
pub fn check_step(x: &Step) -> Vec<Div> {
    let mut v = vec![];
    let (u, pre, post, pred) = (x.u, x.pre, x.post, x.pred);
    let (who, op, faults, exp) = match x.act {
        Act::Ix { who, op, faults, exp } => (*who, op, faults, *exp),
        Act::Clock { .. } => {
            return v; // crossing may appear or vanish only through expiry; checked at the next instruction
        }
        _ => return v,
    };
    let _ = (faults, exp);
    let mut d = |cat, msg: String| v.push(Div { cat, msg });
    if !x.out.ok {
        if pred.out == Outcome::Ok {
            d(Cat::Rejected, format!("failed with '{}' but should succeed", x.out.err));
        }
        return v;
    }
    if let Outcome::Err(e) = pred.out {
        d(Cat::Accepted, format!("succeeded but should fail: {}", e));
    }
    let exact = !matches!(pred.out, Outcome::Err(_));

    // ---- log
    let mut evs: Vec<Ev> = vec![];
    let market_key = u.key(S_MARKET);
    let signer_key = u.wallet_key(who);
    let mut batches = vec![];
    for l in &x.out.logs {
        match parse_log(u, l) {
            None => d(Cat::LogBatch, "undecodable log record".into()),
            Some(b) => batches.push(b),
        }
    }
    if batches.is_empty() {
        d(Cat::LogHeader, "instruction emitted no log".into());
    }
    let mut n = 0u16;
    for b in &batches {
        if let Some(m) = &b.bad {
            d(Cat::LogBatch, m.clone());
        }
        if b.instr != pred.tag.unwrap_or(255)
            || b.seq != pre.mseq
            || b.ts != pre.ts
            || b.slot != pre.slot
            || b.market != market_key.to_bytes()
            || b.signer != signer_key.to_bytes()
        {
            d(
                Cat::LogHeader,
                format!(
                    "log header: instruction {} seq {} ts {} slot {} market ok {} signer ok {}; expected {:?} {} {} {}",
                    b.instr,
                    b.seq,
                    b.ts,
                    b.slot,
                    b.market == market_key.to_bytes(),
                    b.signer == signer_key.to_bytes(),
                    pred.tag,
                    pre.mseq,
                    pre.ts,
                    pre.slot
                ),
            );
        }
        if b.count as usize != b.events.len() {
            d(Cat::LogBatch, format!("batch announces {} events but holds {}", b.count, b.events.len()));
        }
        for (i, e) in &b.events {
            if *i != n {
                d(Cat::LogBatch, format!("event index {} where {} is due", i, n));
                n = *i;
            }
            n = n.wrapping_add(1);
            evs.push(e.clone());
        }
    }

    if exact {
        for s in [Bid, Ask] {
            if pred.post.book(s) != post.book(s) {
                d(Cat::Book, format!("{:?} book {}", s, vdiff(pred.post.book(s), post.book(s))));
            }
        }
        let reg = |a: &Abs| a.traders.iter().map(|t| t.0).collect::<Vec<_>>();
        if reg(&pred.post) != reg(post) {
            d(Cat::Registered, format!("registered traders: expected {:?}, got {:?}", reg(&pred.post), reg(post)));
        }
        for (p, t) in &post.traders {
            if let Some(w) = pred.post.tr(*p) {
                if w != t {
                    d(Cat::Balance, format!("{}: expected {:?}, got {:?}", u.person_name(*p), w, t));
                }
            }
        }
        for (i, s) in u.tok.iter().enumerate() {
            if pred.post.tok[i] != post.tok[i] {
                let c = if *s == S_BVAULT || *s == S_QVAULT { Cat::Vault } else { Cat::Wallet };
                d(c, format!("token account {} (slot {}): expected {}, got {} (before {})", i, s, pred.post.tok[i], post.tok[i], pre.tok[i]));
            }
        }
        macro_rules! f {
            ($f:ident, $c:expr) => {
                if pred.post.$f != post.$f {
                    d($c, format!("{}: expected {}, got {}", stringify!($f), short(&pred.post.$f), short(&post.$f)));
                }
            };
        }
        f!(live, Cat::Live);
        f!(status, Cat::Status);
        f!(mseq, Cat::Mseq);
        f!(auth, Cat::Authority);
        f!(succ, Cat::Authority);
        f!(feerec, Cat::FeeRec);
        f!(oseq, Cat::Oseq);
        f!(collected, Cat::Collected);
        f!(uncollected, Cat::Uncollected);
        f!(seats, Cat::SeatStatus);
        f!(lam, Cat::Lamports);
        if pred.ev != evs {
            d(Cat::LogEvents, format!("logged events {}", vdiff(&pred.ev, &evs)));
        }
        let want = if pred.ids.is_empty() {
            None
        } else {
            let mut w = W(vec![]);
            w.u32(pred.ids.len() as u32);
            for (a, b) in &pred.ids {
                w.u64(*a).u64(*b);
            }
            Some(w.0)
        };
        // the runtime clears the buffer on every CPI; a missing value and an empty one read the same
        let got = x.out.return_data.clone().filter(|r| !r.is_empty());
        if want != got {
            d(Cat::Return, format!("returned {:?}, expected identifiers {:?}", got, pred.ids));
        }
    }

    // ---- bytes outside the abstraction
    residual(x, who, op, &mut v);
    let mut d = |cat, msg: String| v.push(Div { cat, msg });

    // ---- model-independent invariants of the transition
    let total = |a: &Abs, q: bool| -> u128 {
        let mut s = 0u128;
        for (i, sl) in u.tok.iter().enumerate() {
            let data = x.cur.data(&u.layout, *sl);
            let data = if data.len() == 165 { data } else { x.work.data(&u.layout, *sl) };
            if data.len() == 165 && &data[0..32] == u.key(if q { S_QMINT } else { S_BMINT }).as_ref() {
                s += a.tok[i] as u128;
            }
        }
        s
    };
    for q in [false, true] {
        if total(pre, q) != total(post, q) {
            d(Cat::Conserved, format!("total of {} tokens {} -> {}", if q { "quote" } else { "base" }, total(pre, q), total(post, q)));
        }
    }
    // bystanders
    let mut involved: Vec<Pid> = vec![who];
    involved.extend(target_of(op));
    for e in evs.iter().chain(&pred.ev) {
        if let Ev::Fill { maker, .. } | Ev::Evict { maker, .. } | Ev::Expired { maker, .. } = e {
            involved.push(*maker);
        }
    }
    for p in 0..u.persons.len() as Pid {
        if involved.contains(&p) {
            continue;
        }
        let orders = |a: &Abs| [Bid, Ask].iter().flat_map(|s| a.book(*s).iter().filter(|o| o.who == p).cloned().collect::<Vec<_>>()).collect::<Vec<_>>();
        if orders(pre) != orders(post) || pre.tr(p) != post.tr(p) || pre.tok[u.tb(p)] != post.tok[u.tb(p)] || pre.tok[u.tq(p)] != post.tok[u.tq(p)] || pre.seats[p as usize] != post.seats[p as usize] {
            d(Cat::Bystander, format!("{} is no party to the instruction but changed: {:?} -> {:?}, orders {} -> {}", u.person_name(p), pre.tr(p), post.tr(p), short(&orders(pre)), short(&orders(post))));
        }
    }
    // taker invariants, from the log alone
    let fills: Vec<(Pid, u64, u64, u64)> = evs.iter().filter_map(|e| if let Ev::Fill { maker, id, px, filled, .. } = e { Some((*maker, *id, *px, *filled)) } else { None }).collect();
    for f in &fills {
        if f.0 == who {
            d(Cat::SelfFill, format!("the trader traded with its own order {:?}", f));
        }
        if let Some(o) = pre.bids.iter().chain(&pre.asks).find(|o| o.id == f.1) {
            if o.expired(pre.slot, pre.ts as u64) {
                d(Cat::Limits, format!("expired order traded: {:?}", o));
            }
            if o.px != f.2 {
                d(Cat::Limits, format!("filled at {} instead of the resting price {:?}", f.2, o));
            }
        }
    }
    if let Some(pk) = taker(op) {
        let base: u128 = fills.iter().map(|f| f.3 as u128).sum();
        let adj: u128 = fills.iter().map(|f| f.2 as u128 * f.3 as u128 * u.cfg.tick as u128).sum();
        let nb = u.cfg.nblu as u128;
        let fee = ((adj * u.cfg.fee_bps as u128 + 9999) / 10000 + nb - 1) / nb;
        if exact && post.uncollected as u128 != pre.uncollected as u128 + fee {
            d(Cat::FeeInv, format!("uncollected fees {} -> {} but the fee on {} adjusted quote lots is {}", pre.uncollected, post.uncollected, adj, fee));
        }
        let (side, px, lots, ml) = match *pk {
            Pk::PostOnly { side, px, lots, .. } => (side, Some(px), lots, None),
            Pk::Limit { side, px, lots, ml, .. } => (side, Some(px), lots, ml),
            Pk::Ioc { side, px, lots, ml, .. } => (side, px, lots, ml),
        };
        if lots > 0 && base > lots as u128 {
            d(Cat::Limits, format!("traded {} base lots of {}", base, lots));
        }
        if let Some(px) = px {
            if fills.iter().any(|f| if side == Bid { f.2 > px } else { f.2 < px }) {
                d(Cat::Limits, format!("filled {:?} beyond the limit price {}", fills, px));
            }
        }
        let consumed = evs.iter().filter(|e| matches!(e, Ev::Fill { .. } | Ev::Reduce { .. } | Ev::Expired { .. })).count() as u64;
        if ml.map_or(false, |m| consumed > m) {
            d(Cat::Limits, format!("consumed {} resting orders with match limit {:?}", consumed, ml));
        }
        if let Pk::Ioc { quote, minb, minq, side, .. } = *pk {
            let spent = if side == Bid { adj / nb + fee } else { (adj / nb).saturating_sub(fee) };
            if quote > 0 && spent > quote as u128 {
                d(Cat::Limits, format!("moved {} quote lots with a budget of {}", spent, quote));
            }
            if !(exact && pred.f.packet_expired) && ((base as u64) < minb || (spent as u64) < minq) {
                d(Cat::Limits, format!("filled {} base / {} quote below the minimum {} / {}", base, spent, minb, minq));
            }
            if post.bids.iter().chain(&post.asks).any(|o| o.ord() >= pre.oseq) {
                d(Cat::Limits, "an immediate-or-cancel order rests".into());
            }
        }
        if let Pk::PostOnly { .. } = pk {
            if base > 0 {
                d(Cat::Limits, "a post-only order traded".into());
            }
        }
        if base > 0 && pre.status != 1 {
            d(Cat::Accepted, "trade while the market is not active".into());
        }
    } else if !fills.is_empty() {
        d(Cat::Limits, "fills from an instruction that cannot trade".into());
    }
    // replaying the log reproduces the book
    let mut rb = [pre.bids.clone(), pre.asks.clone()];
    let mut bad = None;
    let mut last: Option<(usize, u64)> = None;
    for e in &evs {
        let sd = |id: u64| if id >> 63 == 1 { 0 } else { 1 };
        let mut cut = |rb: &mut [Vec<Order>; 2], id: u64, px: u64, k: u64, left: u64, maker: Option<Pid>| {
            let b = &mut rb[sd(id)];
            match b.iter().position(|o| o.id == id && o.px == px && maker.map_or(true, |m| m == o.who)) {
                None => bad = Some(format!("event names an unknown order {:x}", id)),
                Some(i) => {
                    if b[i].lots.checked_sub(k) != Some(left) {
                        bad = Some(format!("event sizes do not add up for {:x}: {} - {} != {}", id, b[i].lots, k, left));
                    }
                    b[i].lots = left;
                    if left == 0 {
                        b.remove(i);
                    }
                }
            }
        };
        match e {
            Ev::Fill { maker, id, px, filled, left } => cut(&mut rb, *id, *px, *filled, *left, Some(*maker)),
            Ev::Reduce { id, px, removed, left } => cut(&mut rb, *id, *px, *removed, *left, None),
            Ev::Evict { maker, id, px, lots } => cut(&mut rb, *id, *px, *lots, 0, Some(*maker)),
            Ev::Expired { maker, id, px, removed } => cut(&mut rb, *id, *px, *removed, 0, Some(*maker)),
            Ev::Place { id, px, lots, .. } => {
                let side = sd(*id);
                let b = &mut rb[side];
                let at = b.iter().position(|o| if side == 0 { o.px < *px } else { o.px > *px }).unwrap_or(b.len());
                b.insert(at, Order { px: *px, id: *id, who, lots: *lots, lvs: 0, lvts: 0 });
                last = Some((side, *id));
            }
            Ev::Tif { id, lvs, lvts } => match last {
                Some((s, i)) if i == *id => {
                    if let Some(o) = rb[s].iter_mut().find(|o| o.id == i) {
                        o.lvs = *lvs;
                        o.lvts = *lvts;
                    }
                }
                _ => bad = Some("time-in-force event without its placement".into()),
            },
            _ => {}
        }
    }
    if post.live {
        if rb[0] != post.bids {
            bad = Some(format!("bids {}", vdiff(&rb[0], &post.bids)));
        }
        if rb[1] != post.asks {
            bad = Some(format!("asks {}", vdiff(&rb[1], &post.asks)));
        }
    }
    if let Some(b) = bad {
        d(Cat::Replay, format!("replaying the log: {}", b));
    }
    state_invariants(u, post, &mut v);
    v
}

/// Bytes that no instruction may change, and the exact contents of accounts it creates.
fn residual(x: &Step, who: Pid, op: &Op, v: &mut Vec<Div>) {
    let (u, l) = (x.u, &x.u.layout);
    let post = x.post;
    for s in 0..l.offs.len() {
        let (o, n) = (l.offs[s] / 8, (HDR + l.caps[s]) / 8);
        if s == S_MARKET || x.cur.buf[o..o + n] == x.work.buf[o..o + n] {
            continue;
        }
        let owner_same = x.cur.owner(l, s) == x.work.owner(l, s);
        let (a, b) = (x.cur.data(l, s), x.work.data(l, s));
        let mut bad = |m: String| v.push(Div { cat: Cat::Residual, msg: m });
        let name = || u.names.iter().find(|n| *n.1 == s).map(|n| n.0.clone()).unwrap_or_default();
        if a.len() == 0 && b.len() > 0 {
            // created account
            if b.len() == 165 && (s == S_BVAULT || s == S_QVAULT) && matches!(op, Op::Init(_)) {
                let want = token_account(&u.key(if s == S_BVAULT { S_BMINT } else { S_QMINT }), &u.key(s), 0);
                if b != &want[..] || *x.work.owner(l, s) != spl_token::id() {
                    bad(format!("vault {} created with unexpected contents", name()));
                }
            } else if b.len() == SEAT_LEN && matches!(op, Op::RequestSeat | Op::RequestSeatAuth { .. }) {
                let t = match op {
                    Op::RequestSeatAuth { trader } => *trader,
                    _ => who,
                };
                let mut want = vec![0u8; SEAT_LEN];
                want[0..8].copy_from_slice(&SEAT_DISC.to_le_bytes());
                want[8..40].copy_from_slice(u.key(S_MARKET).as_ref());
                want[40..72].copy_from_slice(u.wallet_key(t).as_ref());
                if s != u.persons[t as usize].seat || b != &want[..] || *x.work.owner(l, s) != u.program {
                    bad(format!("seat {} created with unexpected contents", name()));
                }
            } else {
                bad(format!("account {} was created", name()));
            }
            continue;
        }
        if !owner_same || a.len() != b.len() {
            bad(format!("owner or length of account {} changed", name()));
            continue;
        }
        let allowed = if u.tok_ix.contains_key(&s) {
            64..72
        } else if u.persons.iter().any(|p| p.seat == s) {
            72..80
        } else {
            0..0
        };
        if (0..a.len()).any(|i| a[i] != b[i] && !allowed.contains(&i)) {
            bad(format!("contents of account {} changed", name()));
        }
    }
    // market header
    let (a, b) = (x.cur.data(l, S_MARKET), x.work.data(l, S_MARKET));
    let mut bad = |m: String| v.push(Div { cat: Cat::Header, msg: m });
    if *x.cur.owner(l, S_MARKET) != *x.work.owner(l, S_MARKET) && post.live {
        bad("owner of the market account changed".into());
    }
    if let (Op::Init(p), true) = (op, post.live && !x.pre.live) {
        let c = &u.cfg;
        let mut w = vec![0u8; HEADER];
        let mut put = |o: usize, d: &[u8]| w[o..o + d.len()].copy_from_slice(d);
        put(off::DISC, &MARKET_DISC.to_le_bytes());
        put(off::STATUS, &2u64.to_le_bytes());
        put(off::SIZES, &p.bids.to_le_bytes());
        put(off::SIZES + 8, &p.asks.to_le_bytes());
        put(off::SIZES + 16, &p.seats.to_le_bytes());
        for (o, dec, mint, vault) in [(off::BASE, c.base_dec, S_BMINT, S_BVAULT), (off::QUOTE, c.quote_dec, S_QMINT, S_QVAULT)] {
            put(o, &(dec as u32).to_le_bytes());
            put(o + 4, &if vault == S_BVAULT { 254u32 } else { 255 }.to_le_bytes());
            put(o + 8, u.key(mint).as_ref());
            put(o + 40, u.key(vault).as_ref());
        }
        let raw = p.raw.unwrap_or(1).max(1);
        let bl = 10u128.pow(c.base_dec as u32) * raw as u128 / p.nblu.max(1) as u128;
        let ql = 10u128.pow(c.quote_dec as u32) / p.nqlu.max(1) as u128;
        put(off::BASE_LOT, &(bl as u64).to_le_bytes());
        put(off::QUOTE_LOT, &(ql as u64).to_le_bytes());
        put(off::TICK, &((ql * p.tick as u128) as u64).to_le_bytes());
        put(off::AUTH, u.wallet_key(who).as_ref());
        put(off::FEE, u.wallet_key(p.coll.unwrap_or(u.fee)).as_ref());
        put(off::MSEQ, &1u64.to_le_bytes());
        put(off::SUCC, u.wallet_key(who).as_ref());
        put(off::RAW, &raw.to_le_bytes());
        if b.len() < HEADER || b[..HEADER] != w[..] {
            let i = (0..HEADER).find(|i| b.get(*i) != Some(&w[*i])).unwrap_or(0);
            bad(format!("header of the new market differs from the requested parameters at byte {}", i));
        }
    } else if post.live && x.pre.live {
        if a.len() != b.len() {
            bad("length of the market account changed".into());
        } else {
            let ok = |i: usize| {
                (off::STATUS..off::STATUS + 8).contains(&i)
                    || (off::AUTH..off::FEE).contains(&i)
                    || (off::FEE..off::MSEQ).contains(&i)
                    || (off::MSEQ..off::SUCC).contains(&i)
                    || (off::SUCC..off::RAW).contains(&i)
            };
            if let Some(i) = (0..HEADER).find(|i| a[*i] != b[*i] && !ok(*i)) {
                bad(format!("byte {} of the market header changed", i));
            }
        }
    }
}

/// Ladder and listing views of a state.
pub fn check_views(t: &Target, u: &Uni, s: &Abs, img: &Image, v: &mut Vec<Div>) {
    if !s.live {
        return;
    }
    let d = img.data(&u.layout, S_MARKET);
    for m in (t.views)(d) {
        v.push(Div { cat: Cat::View, msg: m });
    }
    for (name, got) in (t.header_views)(d) {
        if name == "prices" {
            // prices in quote atoms per base unit, in whole ticks
            let tick = rd64(d, off::TICK).max(1);
            let want: Vec<u8> = PRICES.iter().flat_map(|p| (p / tick).to_le_bytes()).collect();
            if want != got {
                v.push(Div { cat: Cat::View, msg: format!("prices {:?} are {:?} in ticks", PRICES, got) });
            }
            continue;
        }
        let (o, n) = match name.as_str() {
            "status" => (off::STATUS, 8),
            "base_lot" => (off::BASE_LOT, 8),
            "quote_lot" => (off::QUOTE_LOT, 8),
            "tick" => (off::TICK, 8),
            "seq" => (off::MSEQ, 8),
            "authority" => (off::AUTH, 32),
            "fee_recipient" => (off::FEE, 32),
            "successor" => (off::SUCC, 32),
            "base_mint" => (off::BASE + 8, 32),
            "base_vault" => (off::BASE + 40, 32),
            "quote_mint" => (off::QUOTE + 8, 32),
            "quote_vault" => (off::QUOTE + 40, 32),
            _ => continue,
        };
        if d[o..o + n] != got[..] {
            v.push(Div { cat: Cat::View, msg: format!("header field {} reads {:?}", name, got) });
        }
    }
    let clocks = [
        (None, None),
        (Some(s.slot), Some(s.ts as u64)),
        (Some(s.slot), None),
        (None, Some(s.ts as u64)),
        (Some(s.slot + 1), Some(s.ts as u64 + 1)),
        (Some(s.slot + 3), Some(0)),
        (Some(0), Some(s.ts as u64 + 3)),
    ];
    // The wide depths (which a narrower integer would wrap to zero or one) only at the current clock.
    for levels in [0u64, 1, 2, 3, 5, u64::MAX, 256, 257, 1 << 16, 1 << 32] {
        for (cs, ct) in clocks {
            if (256..u64::MAX).contains(&levels) && (cs, ct) != clocks[1] {
                continue;
            }
            let want = |side: Side| {
                let mut out: Vec<(u64, u64)> = vec![];
                for o in s.book(side) {
                    if o.expired(cs.unwrap_or(0), ct.unwrap_or(0)) {
                        continue;
                    }
                    match out.last_mut() {
                        Some(l) if l.0 == o.px => l.1 += o.lots,
                        _ => {
                            if out.len() as u64 >= levels {
                                break;
                            }
                            out.push((o.px, o.lots))
                        }
                    }
                }
                out
            };
            let w = LadderOut { bids: want(Bid), asks: want(Ask) };
            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.ladder)(d, levels, cs, ct))).ok().flatten();
            if g.as_ref() != Some(&w) {
                v.push(Div { cat: Cat::Ladder, msg: format!("ladder with {} levels at clock {:?},{:?}: expected {}, got {}", levels, cs, ct, short(&w), short(&g)) });
                return;
            }
        }
    }
}
