//! The reference model: a deliberately naive re-statement of what every instruction must do, over
//! plain vectors and unbounded arithmetic. It never looks at the implementation's source structures.
use crate::world::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Fill { maker: Pid, id: u64, px: u64, filled: u64, left: u64 },
    Place { id: u64, cid: u128, px: u64, lots: u64 },
    Reduce { id: u64, px: u64, removed: u64, left: u64 },
    Evict { maker: Pid, id: u64, px: u64, lots: u64 },
    Summary { cid: u128, base: u64, quote: u64, fee: u64 },
    Fee { lots: u64 },
    Tif { id: u64, lvs: u64, lvts: u64 },
    Expired { maker: Pid, id: u64, px: u64, removed: u64 },
    Unknown(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Err(&'static str),
    /// a quantity left the 64-bit range: failing is fine, succeeding must match exactly
    Any,
}

#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub fills: u32,
    pub partial_fill: bool,
    pub self_trade: u32,
    pub expired_removed: u32,
    pub evicted: u32,
    pub amended: u32,
    pub post_cross: bool,
    pub silent_noop: bool,
    pub packet_expired: bool,
    pub posted: u32,
    pub skipped: u32,
    pub cancelled: u32,
    pub fee: u64,
    pub deposit_q: u128,
    pub deposit_b: u128,
    pub free_used: bool,
    pub match_limit_hit: bool,
    pub full_book: bool,
    pub silent: bool,
}

#[derive(Clone, Debug)]
pub struct Pred {
    pub out: Outcome,
    pub post: Abs,
    pub ev: Vec<Ev>,
    pub ids: Vec<(u64, u64)>,
    pub f: Facts,
    /// tag of the instruction, None for harness actions
    pub tag: Option<u8>,
    /// worst price and totals of this instruction's trades, for stand-alone invariants
    pub trades: Vec<(u64, u64)>,
}

type R<T> = Result<T, &'static str>;

struct S<'a> {
    u: &'a Uni,
    s: Abs,
    ev: Vec<Ev>,
    ids: Vec<(u64, u64)>,
    f: Facts,
    ovf: bool,
    trades: Vec<(u64, u64)>,
}

#[derive(Default, Clone, Copy)]
struct Placed {
    q_in: u128,
    b_in: u128,
    q_out: u128,
    b_out: u128,
    q_post: u128,
    b_post: u128,
    q_free: u128,
    b_free: u128,
}
impl Placed {
    fn q_dep(&self) -> u128 {
        self.q_in + self.q_post - self.q_free
    }
    fn b_dep(&self) -> u128 {
        self.b_in + self.b_post - self.b_free
    }
}

const M: u128 = u64::MAX as u128;

pub fn rent(len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}

pub fn size_ok(b: u64, a: u64, s: u64) -> bool {
    b == a
        && match b {
            512 => [128, 1025, 1153].contains(&s),
            1024 => [128, 2049, 2177].contains(&s),
            2048 => [128, 4097, 4225].contains(&s),
            4096 => [128, 8193, 8321].contains(&s),
            _ => false,
        }
}

/// (from, to) market status moves the documentation allows
pub fn status_edge(from: u64, to: u64) -> bool {
    // 1 active, 2 post-only, 3 paused, 4 closed, 5 tombstoned
    match from {
        1 => [1, 2, 3].contains(&to),
        2 => [1, 2, 3, 4].contains(&to),
        3 => [1, 2, 3, 4].contains(&to),
        4 => [2, 3, 4, 5].contains(&to),
        _ => false,
    }
}

impl<'a> S<'a> {
    fn n(&mut self, v: u128) -> u128 {
        if v > M {
            self.ovf = true
        }
        v
    }
    /// value of `lots` at `px`, in adjusted quote lots
    fn adj(&mut self, px: u64, lots: u64) -> u128 {
        let a = px as u128 * self.u.cfg.tick as u128;
        self.n(a);
        let v = a.saturating_mul(lots as u128);
        self.n(v)
    }
    fn val(&mut self, px: u64, lots: u64) -> u128 {
        self.adj(px, lots) / self.u.cfg.nblu as u128
    }
    fn fee_adj(&self, a: u128) -> u128 {
        (a * self.u.cfg.fee_bps as u128 + 9999) / 10000
    }
    fn add(x: &mut u64, v: u128, ovf: &mut bool) {
        let r = *x as u128 + v;
        if r > M {
            *ovf = true
        }
        *x = r as u64;
    }
    fn cap(&self, s: Side) -> usize {
        if s == Bid { self.u.cfg.bids as usize } else { self.u.cfg.asks as usize }
    }
    fn register(&mut self, p: Pid) -> R<()> {
        if self.s.tr(p).is_none() {
            if self.s.traders.len() as u64 >= self.u.cfg.seats {
                return Err("market has no room for another trader");
            }
            self.s.traders.push((p, Tr::default()));
            self.s.traders.sort_by_key(|t| t.0);
        }
        Ok(())
    }
    /// release the collateral of `lots` of an order to its owner's free funds
    fn unlock(&mut self, side: Side, o: &Order, lots: u64) -> (u128, u128) {
        let v = self.val(o.px, lots);
        let mut ovf = false;
        if let Some(t) = self.s.trm(o.who) {
            if side == Bid {
                if v > t.ql as u128 {
                    ovf = true;
                }
                t.ql = t.ql.wrapping_sub(v as u64);
                Self::add(&mut t.qf, v, &mut ovf);
            } else {
                if lots > t.bl {
                    ovf = true;
                }
                t.bl = t.bl.wrapping_sub(lots);
                Self::add(&mut t.bf, lots as u128, &mut ovf);
            }
        } else {
            ovf = true;
        }
        self.ovf |= ovf;
        if side == Bid { (v, 0) } else { (0, lots as u128) }
    }
    fn expire_best(&mut self, side: Side) {
        let o = self.s.book_mut(side).remove(0);
        self.f.expired_removed += 1;
        self.ev.push(Ev::Expired { maker: o.who, id: o.id, px: o.px, removed: o.lots });
        self.unlock(side, &o, o.lots);
    }

    fn place(&mut self, who: Pid, pk: &Pk) -> R<Placed> {
        let (slot, ts) = (self.s.slot, self.s.ts as u64);
        if self.s.oseq >= u64::MAX >> 1 {
            return Err("order identifiers exhausted");
        }
        let (side, mut px, lots, tif, free, cid) = match *pk {
            Pk::PostOnly { side, px, lots, tif, free, cid, .. } => (side, px, lots, tif, free, cid),
            Pk::Limit { side, px, lots, tif, free, cid, .. } => (side, px, lots, tif, free, cid),
            Pk::Ioc { side, px, lots, tif, free, cid, .. } => (
                side,
                px.unwrap_or(if side == Bid { u64::MAX } else { 0 }),
                lots,
                tif,
                free,
                cid,
            ),
        };
        let ioc = matches!(pk, Pk::Ioc { .. });
        if side == Bid && px == 0 {
            return Err("bid at price zero");
        }
        if side == Ask && !ioc {
            px = px.max(1);
        }
        if !ioc {
            self.register(who)?;
        }
        match *pk {
            Pk::Ioc { lots, quote, .. } => {
                if (lots == 0) == (quote == 0) {
                    return Err("exactly one of base and quote size must be given");
                }
            }
            _ => {
                if lots == 0 {
                    return Err("order of size zero");
                }
            }
        }
        if tif.lvs.map_or(false, |x| slot > x) || tif.lvts.map_or(false, |x| ts > x) {
            self.f.packet_expired = true;
            return Ok(Placed::default());
        }
        let mut p = Placed::default();
        let mut rest = lots;
        let opp = side.opp();
        let crosses = |best: u64, px: u64| if side == Bid { best <= px } else { best >= px };
        if let Pk::PostOnly { reject, .. } = *pk {
            while let Some(o) = self.s.book(opp).first().copied() {
                if !crosses(o.px, px) {
                    break;
                }
                if o.expired(slot, ts) {
                    self.expire_best(opp);
                    continue;
                }
                self.f.post_cross = true;
                if reject {
                    return Err("post-only order crosses");
                }
                if side == Bid {
                    if o.px <= 1 {
                        return Err("post-only order cannot be amended");
                    }
                    px = o.px - 1;
                } else {
                    if o.px == u64::MAX {
                        return Err("post-only order cannot be amended");
                    }
                    px = o.px + 1;
                }
                self.f.amended += 1;
                break;
            }
        } else {
            let (st, ml, quote) = match *pk {
                Pk::Limit { st, ml, .. } => (st, ml, 0),
                Pk::Ioc { st, ml, quote, .. } => (st, ml, quote),
                _ => unreachable!(),
            };
            let mut base_left: u64 = if lots == 0 { u64::MAX } else { lots };
            let nb = self.u.cfg.nblu as u128;
            let mut quote_left: u128 = M;
            if quote > 0 {
                let a = quote as u128 * nb;
                self.n(a);
                let fm = self.fee_adj(M);
                let d = if side == Bid { M + fm } else { M - fm };
                if d == 0 {
                    return Err("no quote can be received at a fee of 100%");
                }
                if a <= M {
                    let b = a * M / d;
                    if b <= M {
                        quote_left = b;
                    }
                }
            }
            let mut limit = ml.unwrap_or(u64::MAX);
            let mut done = false;
            let mut tot_adj: u128 = 0;
            let mut tot_base: u128 = 0;
            while base_left > 0 && quote_left > 0 && !done {
                if limit == 0 {
                    if self.s.book(opp).first().map_or(false, |o| crosses(o.px, px)) {
                        self.f.match_limit_hit = true;
                    }
                    break;
                }
                let o = match self.s.book(opp).first().copied() {
                    Some(o) if crosses(o.px, px) => o,
                    _ => break,
                };
                if o.expired(slot, ts) {
                    self.expire_best(opp);
                    limit -= 1;
                    continue;
                }
                let unit = o.px as u128 * self.u.cfg.tick as u128;
                self.n(unit);
                if o.who == who {
                    self.f.self_trade += 1;
                    match st {
                        St::Abort => return Err("self trade"),
                        St::CancelProvide => {
                            self.s.book_mut(opp).remove(0);
                            self.f.cancelled += 1;
                            self.ev.push(Ev::Reduce { id: o.id, px: o.px, removed: o.lots, left: 0 });
                            self.unlock(opp, &o, o.lots);
                            limit -= 1;
                        }
                        St::DecrementTake => {
                            if unit == 0 {
                                return Err("zero tick");
                            }
                            let k = (base_left as u128).min(quote_left / unit).min(o.lots as u128) as u64;
                            let left = o.lots - k;
                            if left == 0 {
                                self.s.book_mut(opp).remove(0);
                            } else {
                                self.s.book_mut(opp)[0].lots = left;
                            }
                            self.ev.push(Ev::Reduce { id: o.id, px: o.px, removed: k, left });
                            self.unlock(opp, &o, k);
                            base_left -= k;
                            let spent = self.adj(o.px, k);
                            quote_left = quote_left.saturating_sub(spent);
                            limit -= 1;
                            done = k < o.lots;
                        }
                    }
                    continue;
                }
                let full = self.adj(o.px, o.lots);
                let k = if o.lots <= base_left && full <= quote_left {
                    self.s.book_mut(opp).remove(0);
                    o.lots
                } else {
                    if unit == 0 {
                        return Err("zero tick");
                    }
                    let k = (base_left as u128).min(quote_left / unit) as u64;
                    self.s.book_mut(opp)[0].lots -= k;
                    done = true;
                    self.f.partial_fill |= k > 0;
                    k
                };
                let a = self.adj(o.px, k);
                base_left -= k;
                quote_left -= a.min(quote_left);
                limit -= 1;
                tot_adj += a;
                self.n(tot_adj);
                tot_base += k as u128;
                self.n(tot_base);
                if k > 0 {
                    self.f.fills += 1;
                    self.trades.push((o.px, k));
                    self.ev.push(Ev::Fill { maker: o.who, id: o.id, px: o.px, filled: k, left: o.lots - k });
                }
                let v = a / nb;
                let mut ovf = false;
                match self.s.trm(o.who) {
                    None => ovf = true,
                    Some(t) => {
                        if side == Bid {
                            ovf |= k > t.bl;
                            t.bl = t.bl.wrapping_sub(k);
                            Self::add(&mut t.qf, v, &mut ovf);
                        } else {
                            ovf |= v > t.ql as u128;
                            t.ql = t.ql.wrapping_sub(v as u64);
                            Self::add(&mut t.bf, k as u128, &mut ovf);
                        }
                    }
                }
                self.ovf |= ovf;
            }
            rest = base_left;
            let fee = (self.fee_adj(tot_adj) + nb - 1) / nb;
            self.f.fee = fee as u64;
            let mut ovf = false;
            Self::add(&mut self.s.uncollected, fee, &mut ovf);
            self.ovf |= ovf;
            self.n(tot_adj + nb);
            let gross = tot_adj / nb;
            let quote_total;
            if side == Bid {
                quote_total = gross + fee;
                self.n(quote_total);
                p.q_in = quote_total;
                p.b_out = tot_base;
            } else {
                if fee > gross {
                    return Err("fee exceeds proceeds");
                }
                quote_total = gross - fee;
                p.b_in = tot_base;
                p.q_out = quote_total;
            }
            self.ev.push(Ev::Summary { cid, base: tot_base as u64, quote: quote_total as u64, fee: fee as u64 });
            if let Pk::Ioc { minb, minq, .. } = *pk {
                if tot_base < minb as u128 || quote_total < minq as u128 {
                    return Err("minimum fill not met");
                }
            }
        }
        if !ioc {
            let may_rest = match pk {
                Pk::PostOnly { .. } => true,
                _ => {
                    // a limit order stopped by its match limit never rests on top of a live crossing order
                    match self.s.book(opp).iter().find(|o| !o.expired(slot, ts)) {
                        Some(o) => !crosses(o.px, px),
                        None => {
                            // the extreme representable prices count as crossing an empty book
                            if side == Bid { px != u64::MAX } else { px != 0 }
                        }
                    }
                }
            };
            if rest > 0 && may_rest {
                let n = self.s.oseq;
                let id = if side == Bid { !n } else { n };
                if self.s.book(side).len() >= self.cap(side) {
                    self.f.full_book = true;
                    let w = *self.s.book(side).last().unwrap();
                    let better = if side == Bid { px > w.px } else { px < w.px };
                    if !better {
                        return Err("book full");
                    }
                    self.s.book_mut(side).pop();
                    self.f.evicted += 1;
                    self.ev.push(Ev::Evict { maker: w.who, id: w.id, px: w.px, lots: w.lots });
                    self.unlock(side, &w, w.lots);
                }
                let o = Order { px, id, who, lots: rest, lvs: tif.lvs.unwrap_or(0), lvts: tif.lvts.unwrap_or(0) };
                let b = self.s.book_mut(side);
                let at = b.iter().position(|x| if side == Bid { x.px < px } else { x.px > px }).unwrap_or(b.len());
                b.insert(at, o);
                let v = self.val(px, rest);
                let mut ovf = false;
                let t = self.s.trm(who).unwrap();
                if side == Bid {
                    Self::add(&mut t.ql, v, &mut ovf);
                    p.q_post = v;
                } else {
                    Self::add(&mut t.bl, rest as u128, &mut ovf);
                    p.b_post = rest as u128;
                }
                self.ovf |= ovf;
                self.f.posted += 1;
                self.ev.push(Ev::Place { id, cid, px, lots: rest });
                if o.lvs != 0 || o.lvts != 0 {
                    self.ev.push(Ev::Tif { id, lvs: o.lvs, lvts: o.lvts });
                }
                self.s.oseq += 1;
                self.ids.push((px, id));
            }
        }
        let mut ovf = false;
        if let Some(t) = self.s.trm(who) {
            if side == Bid {
                p.q_free = (p.q_in + p.q_post).min(t.qf as u128);
                t.qf -= p.q_free as u64;
            } else {
                p.b_free = (p.b_in + p.b_post).min(t.bf as u128);
                t.bf -= p.b_free as u64;
            }
            if free {
                Self::add(&mut t.bf, p.b_out, &mut ovf);
                Self::add(&mut t.qf, p.q_out, &mut ovf);
                p.b_out = 0;
                p.q_out = 0;
            }
        }
        self.f.free_used |= p.q_free + p.b_free > 0;
        self.ovf |= ovf;
        if free && (p.q_dep() > 0 || p.b_dep() > 0) {
            return Err("free funds do not cover the order");
        }
        Ok(p)
    }

    // token movements, in lots
    fn pay(&mut self, to: usize, from: usize, lots: u128, lot: u64) -> R<()> {
        let atoms = lots * lot as u128;
        self.n(atoms);
        if atoms == 0 {
            return Ok(());
        }
        if (self.s.tok[from] as u128) < atoms {
            return Err("insufficient tokens");
        }
        if from == to {
            return Ok(());
        }
        if self.s.tok[to] as u128 + atoms > M {
            return Err("token balance overflow");
        }
        self.s.tok[from] -= atoms as u64;
        self.s.tok[to] += atoms as u64;
        Ok(())
    }
    fn pay_out(&mut self, p: Pid, q: u128, b: u128) -> R<()> {
        let (ql, bl) = (self.u.cfg.quote_lot(), self.u.cfg.base_lot());
        self.pay(self.u.tq(p), self.u.tvq(), q, ql)?;
        self.pay(self.u.tb(p), self.u.tvb(), b, bl)
    }
    fn pay_in(&mut self, p: Pid, q: u128, b: u128) -> R<()> {
        let (ql, bl) = (self.u.cfg.quote_lot(), self.u.cfg.base_lot());
        self.f.deposit_q += q;
        self.f.deposit_b += b;
        self.pay(self.u.tvq(), self.u.tq(p), q, ql)?;
        self.pay(self.u.tvb(), self.u.tb(p), b, bl)
    }

    fn seat_ok(&self, p: Pid) -> R<()> {
        if self.s.seats[p as usize] == Some(1) { Ok(()) } else { Err("no approved seat") }
    }
    fn available(&mut self, who: Pid, wallet: bool) -> R<(u128, u128)> {
        let t = *self.s.tr(who).ok_or("trader not registered")?;
        let (mut q, mut b) = (t.qf as u128, t.bf as u128);
        if wallet {
            q += (self.s.tok[self.u.tq(who)] / self.u.cfg.quote_lot()) as u128;
            b += (self.s.tok[self.u.tb(who)] / self.u.cfg.base_lot()) as u128;
        }
        self.n(q);
        self.n(b);
        Ok((q, b))
    }

    fn order(&mut self, who: Pid, mode: Mode, pk: &Pk) -> R<()> {
        let status = self.s.status;
        match mode {
            Mode::Swap | Mode::SwapFF => {
                if status != 1 {
                    return Err("market not active");
                }
            }
            _ => {
                if status != 1 && status != 2 {
                    return Err("market takes no orders");
                }
            }
        }
        if mode != Mode::Swap {
            self.seat_ok(who)?;
        }
        let (ioc, free, silent) = match *pk {
            Pk::PostOnly { free, silent, .. } => (false, free, silent),
            Pk::Limit { free, silent, .. } => (false, free, silent),
            Pk::Ioc { free, .. } => (true, free, false),
        };
        if ioc != matches!(mode, Mode::Swap | Mode::SwapFF) || free != mode.ff() {
            return Err("order kind not accepted by this instruction");
        }
        self.f.silent = silent;
        if silent {
            let (q, b) = self.available(who, !mode.ff())?;
            let enough = match *pk {
                Pk::PostOnly { side, px, lots, .. } | Pk::Limit { side, px, lots, .. } => {
                    if side == Ask {
                        b >= lots as u128
                    } else {
                        q >= self.val(px, lots)
                    }
                }
                _ => true,
            };
            if !enough {
                self.f.silent_noop = true;
                return Ok(());
            }
        }
        let p = self.place(who, pk)?;
        if self.f.fills > 0 && status != 1 {
            return Err("trade while the market is not active");
        }
        self.pay_out(who, p.q_out, p.b_out)?;
        self.pay_in(who, p.q_dep(), p.b_dep())
    }

    fn multi(&mut self, who: Pid, m: &MultiP, ff: bool) -> R<()> {
        if self.s.status != 1 && self.s.status != 2 {
            return Err("market takes no orders");
        }
        self.seat_ok(who)?;
        if m.beh > 3 {
            return Err("malformed");
        }
        let hb = m.bids.iter().map(|c| c.px).max().unwrap_or(0);
        let la = m.asks.iter().map(|c| c.px).min().unwrap_or(u64::MAX);
        if hb >= la {
            return Err("batch crosses itself");
        }
        let (mut qa, mut ba) = self.available(who, !ff)?;
        let reject = m.beh == 1 || m.beh == 3;
        let skip = m.beh >= 2;
        let (mut dq, mut db) = (0u128, 0u128);
        for side in [Bid, Ask] {
            let mut v: Vec<Cond> = if side == Bid { m.bids.clone() } else { m.asks.clone() };
            // stable: earlier first among equals
            v.sort_by(|x, y| if side == Bid { y.px.cmp(&x.px) } else { x.px.cmp(&y.px) });
            let mut merged: Vec<(Cond, u128)> = vec![];
            for c in v {
                match merged.last_mut() {
                    Some(l) if l.0.px == c.px && l.0.tif == c.tif => l.1 += c.lots as u128,
                    _ => merged.push((c, c.lots as u128)),
                }
            }
            for (c, lots) in merged {
                self.n(lots);
                if lots > M {
                    return Err("size overflow");
                }
                let lots = lots as u64;
                if skip {
                    let ok = if side == Bid { qa >= self.val(c.px, lots) } else { ba >= lots as u128 };
                    if !ok {
                        self.f.skipped += 1;
                        continue;
                    }
                }
                let pk = Pk::PostOnly {
                    side,
                    px: c.px,
                    lots,
                    cid: m.cid.unwrap_or(0),
                    reject,
                    free: ff,
                    tif: c.tif,
                    silent: false,
                };
                let p = self.place(who, &pk)?;
                if skip {
                    qa = qa.checked_sub(p.q_in + p.q_post).ok_or("funds")?;
                    ba = ba.checked_sub(p.b_in + p.b_post).ok_or("funds")?;
                }
                dq += p.q_dep();
                db += p.b_dep();
            }
        }
        self.n(dq);
        self.n(db);
        self.pay_in(who, dq, db)
    }

    /// removes `size` (all if None) of an order of `who`; Ok(None) when there is no such order
    fn reduce(&mut self, who: Pid, side: Side, px: u64, id: u64, size: Option<u64>) -> R<(u128, u128)> {
        let i = match self.s.book(side).iter().position(|o| o.px == px && o.id == id) {
            None => return Ok((0, 0)),
            Some(i) => i,
        };
        let o = self.s.book(side)[i];
        if o.who != who {
            return Err("not the owner");
        }
        let k = size.unwrap_or(o.lots).min(o.lots);
        let left = o.lots - k;
        if left == 0 {
            self.s.book_mut(side).remove(i);
        } else {
            self.s.book_mut(side)[i].lots = left;
        }
        self.f.cancelled += 1;
        self.ev.push(Ev::Reduce { id, px, removed: k, left });
        Ok(self.unlock(side, &o, k))
    }
    /// take released funds out of the free funds again (they are paid out)
    fn claim(&mut self, who: Pid, q: u128, b: u128) {
        if let Some(t) = self.s.trm(who) {
            t.qf = t.qf.wrapping_sub(q as u64);
            t.bf = t.bf.wrapping_sub(b as u64);
        }
    }
    fn cancel_many(&mut self, who: Pid, v: &[(Side, u64, u64)], ff: bool) -> R<()> {
        if self.s.tr(who).is_none() {
            return Ok(());
        }
        let (mut q, mut b) = (0, 0);
        for (s, px, id) in v {
            if (*s == Bid) != (id >> 63 == 1) {
                continue;
            }
            if let Ok((x, y)) = self.reduce(who, *s, *px, *id, None) {
                q += x;
                b += y;
            }
        }
        if !ff {
            self.claim(who, q, b);
            self.pay_out(who, q, b)?;
        }
        Ok(())
    }
    fn up_to(&mut self, who: Pid, p: &UpTo, ff: bool) -> R<()> {
        let v: Vec<_> = self
            .s
            .book(p.side)
            .iter()
            .take(p.search.map_or(usize::MAX, |x| x as usize))
            .filter(|o| o.who == who)
            .filter(|o| match (p.side, p.tick) {
                (_, None) => true,
                (Bid, Some(t)) => o.px >= t,
                (Ask, Some(t)) => o.px <= t,
            })
            .take(p.cancel.map_or(usize::MAX, |x| x as usize))
            .map(|o| (p.side, o.px, o.id))
            .collect();
        self.cancel_many(who, &v, ff)
    }
    fn reduce_allowed(&self, ff: bool) -> R<()> {
        if ff || (1..=4).contains(&self.s.status) { Ok(()) } else { Err("market status") }
    }
    fn authority(&self, who: Pid) -> R<()> {
        if self.s.auth == who { Ok(()) } else { Err("not the authority") }
    }
    fn make_account(&mut self, payer: Pid, slot: usize, len: usize) -> R<()> {
        let need = rent(len).saturating_sub(self.s.lam[slot]);
        let w = self.u.persons[payer as usize].wallet;
        if self.s.lam[w] < need {
            return Err("payer cannot afford the rent");
        }
        self.s.lam[w] -= need;
        self.s.lam[slot] += need;
        Ok(())
    }

    fn op(&mut self, who: Pid, op: &Op) -> R<()> {
        if let Op::Init(p) = op {
            return self.init(who, p);
        }
        if !self.s.live {
            return Err("no market");
        }
        match op {
            Op::Init(_) => unreachable!(),
            Op::Order(m, p) => self.order(who, *m, p),
            Op::Multi(m, ff) => self.multi(who, m, *ff),
            Op::Reduce { side, px, id, size, ff } => {
                self.reduce_allowed(*ff)?;
                if self.s.tr(who).is_none() {
                    return Err("trader not registered");
                }
                let (q, b) = self.reduce(who, *side, *px, *id, Some(*size))?;
                if !*ff {
                    self.claim(who, q, b);
                    self.pay_out(who, q, b)?;
                }
                Ok(())
            }
            Op::CancelAll { ff } => {
                self.reduce_allowed(*ff)?;
                let v: Vec<_> = [Bid, Ask]
                    .iter()
                    .flat_map(|s| self.s.book(*s).iter().filter(|o| o.who == who).map(move |o| (*s, o.px, o.id)))
                    .collect();
                self.cancel_many(who, &v, *ff)
            }
            Op::CancelUpTo { p, ff } => {
                self.reduce_allowed(*ff)?;
                self.up_to(who, p, *ff)
            }
            Op::CancelIds { v, ff } => {
                self.reduce_allowed(*ff)?;
                self.cancel_many(who, v, *ff)
            }
            Op::Withdraw { q, b } => {
                self.reduce_allowed(false)?;
                let t = *self.s.tr(who).ok_or("trader not registered")?;
                let q = q.unwrap_or(t.qf).min(t.qf);
                let b = b.unwrap_or(t.bf).min(t.bf);
                self.claim(who, q as u128, b as u128);
                self.pay_out(who, q as u128, b as u128)
            }
            Op::Deposit { q, b } => {
                if self.s.status != 1 && self.s.status != 2 {
                    return Err("market takes no deposits");
                }
                self.seat_ok(who)?;
                self.register(who)?;
                let mut ovf = false;
                let t = self.s.trm(who).unwrap();
                Self::add(&mut t.qf, *q as u128, &mut ovf);
                Self::add(&mut t.bf, *b as u128, &mut ovf);
                self.ovf |= ovf;
                self.pay_in(who, *q as u128, *b as u128)
            }
            Op::RequestSeat => {
                if self.s.status != 1 && self.s.status != 2 {
                    return Err("market takes no seat requests");
                }
                self.new_seat(who, who)
            }
            Op::RequestSeatAuth { trader } => {
                self.authority(who)?;
                self.new_seat(who, *trader)
            }
            Op::ChangeSeat { trader, status } => {
                self.authority(who)?;
                let cur = self.s.seats[*trader as usize].ok_or("no seat")?;
                if *status > 2 {
                    return Err("malformed");
                }
                match (cur, *status as u64) {
                    (a, b) if a == b => {}
                    (0, 1) => {
                        self.register(*trader)?;
                        self.s.seats[*trader as usize] = Some(1);
                    }
                    (1, 0) | (1, 2) | (0, 2) => self.s.seats[*trader as usize] = Some(*status as u64),
                    _ => return Err("seat transition"),
                }
                Ok(())
            }
            Op::Evict { trader } => {
                self.authority(who)?;
                self.unapproved(*trader)?;
                let t = *self.s.tr(*trader).ok_or("trader not registered")?;
                if t.ql != 0 || t.bl != 0 {
                    return Err("trader has locked funds");
                }
                self.s.traders.retain(|x| x.0 != *trader);
                self.pay_out(*trader, t.qf as u128, t.bf as u128)
            }
            Op::ForceCancel { trader, p } => {
                self.authority(who)?;
                self.unapproved(*trader)?;
                self.up_to(*trader, p, false)
            }
            Op::Claim => {
                if self.s.succ != who {
                    return Err("not the successor");
                }
                self.s.auth = who;
                Ok(())
            }
            Op::Name { succ } => {
                self.authority(who)?;
                self.s.succ = *succ;
                Ok(())
            }
            Op::Status { to, receiver } => {
                self.authority(who)?;
                if !status_edge(self.s.status, *to as u64) {
                    return Err("status transition");
                }
                if *to == 5 {
                    if !self.s.bids.is_empty() || !self.s.asks.is_empty() {
                        return Err("open orders");
                    }
                    if self.s.uncollected != 0 {
                        return Err("uncollected fees");
                    }
                    if !self.s.traders.is_empty() {
                        return Err("registered traders");
                    }
                    let r = self.u.persons[receiver.unwrap_or(who) as usize].wallet;
                    self.s.lam[r] += self.s.lam[S_MARKET];
                    self.s.lam[S_MARKET] = 0;
                    let a = &mut self.s;
                    a.live = false;
                    a.status = 0;
                    a.mseq = 0;
                    a.auth = NONE;
                    a.succ = NONE;
                    a.feerec = NONE;
                    a.oseq = 0;
                    a.collected = 0;
                    a.uncollected = 0;
                } else {
                    self.s.status = *to as u64;
                }
                Ok(())
            }
            Op::Collect { dest } => {
                if *dest == VAULT {
                    return Err("the vault cannot pay itself");
                }
                if *dest != self.s.feerec {
                    return Err("not an account of the fee recipient");
                }
                let f = self.s.uncollected;
                self.s.uncollected = 0;
                let mut ovf = false;
                Self::add(&mut self.s.collected, f as u128, &mut ovf);
                self.ovf |= ovf;
                self.ev.push(Ev::Fee { lots: f });
                let ql = self.u.cfg.quote_lot();
                self.pay(self.u.tq(*dest), self.u.tvq(), f as u128, ql)
            }
            Op::FeeRecipient { new, prev } => {
                self.authority(who)?;
                if self.s.uncollected > 0 && *prev != Some(self.s.feerec) {
                    return Err("current fee recipient must sign");
                }
                self.s.feerec = *new;
                Ok(())
            }
            Op::Log => Err("only the program logs"),
        }
    }
    fn unapproved(&self, t: Pid) -> R<()> {
        match self.s.seats[t as usize] {
            Some(0) | Some(2) => Ok(()),
            _ => Err("seat approved or missing"),
        }
    }
    fn new_seat(&mut self, payer: Pid, t: Pid) -> R<()> {
        if self.s.seats[t as usize].is_some() {
            return Err("seat exists");
        }
        let slot = self.u.persons[t as usize].seat;
        self.make_account(payer, slot, SEAT_LEN)?;
        self.s.seats[t as usize] = Some(0);
        Ok(())
    }
    fn init(&mut self, who: Pid, p: &InitP) -> R<()> {
        if self.s.live {
            return Err("already initialised");
        }
        if !size_ok(p.bids, p.asks, p.seats) {
            return Err("unsupported size");
        }
        if p.bids != self.u.cfg.bids || p.asks != self.u.cfg.asks || p.seats != self.u.cfg.seats {
            // a different supported size: fits only if the account is large enough; scenarios that try
            // this state their own expectation
            return Err("account too small");
        }
        if p.fee > 10000 {
            return Err("fee above 100%");
        }
        let ba = 10u128.pow(self.u.cfg.base_dec as u32) * p.raw.unwrap_or(1) as u128;
        let qa = 10u128.pow(self.u.cfg.quote_dec as u32);
        if ba > M {
            return Err("overflow");
        }
        if p.nblu == 0 || ba % p.nblu as u128 != 0 || p.nqlu == 0 || qa % p.nqlu as u128 != 0 {
            return Err("lot sizes do not divide");
        }
        if p.tick == 0 || p.tick % p.nblu != 0 {
            return Err("tick size does not divide");
        }
        self.n(qa / p.nqlu as u128 * p.tick as u128);
        if ba == 0 {
            return Err("lot size of zero");
        }
        self.make_account(who, S_BVAULT, 165)?;
        self.make_account(who, S_QVAULT, 165)?;
        let a = &mut self.s;
        a.live = true;
        a.status = 2;
        a.mseq = 0;
        a.auth = who;
        a.succ = who;
        a.feerec = p.coll.unwrap_or(self.u.fee);
        a.oseq = 1;
        Ok(())
    }
}

pub fn step(u: &Uni, pre: &Abs, act: &Act) -> Pred {
    let mut s = S { u, s: pre.clone(), ev: vec![], ids: vec![], f: Facts::default(), ovf: false, trades: vec![] };
    s.s.problems.clear();
    match act {
        Act::Clock { slot, ts } => {
            s.s.slot = *slot;
            s.s.ts = *ts;
            Pred { out: Outcome::Ok, post: s.s, ev: s.ev, ids: s.ids, f: s.f, tag: None, trades: vec![] }
        }
        Act::Poke(what, n) => {
            match what {
                Counter::Orders => s.s.oseq = *n,
                Counter::Events => s.s.mseq = *n,
                Counter::Collected => s.s.collected = *n,
            }
            Pred { out: Outcome::Ok, post: s.s, ev: s.ev, ids: s.ids, f: s.f, tag: None, trades: vec![] }
        }
        Act::Recreate => {
            assert!(!s.s.live);
            s.s.lam[S_MARKET] = rent(u.msize());
            Pred { out: Outcome::Ok, post: s.s, ev: s.ev, ids: s.ids, f: s.f, tag: None, trades: vec![] }
        }
        Act::Fund { slot, lam } => {
            s.s.lam[*slot] += lam;
            Pred { out: Outcome::Ok, post: s.s, ev: s.ev, ids: s.ids, f: s.f, tag: None, trades: vec![] }
        }
        Act::Ix { who, op, exp, .. } => {
            let tag = enc_op(u, op)[0];
            let r = if *exp == Exp::Err { Err("altered instruction") } else { s.op(*who, op) };
            let mut out = match r {
                Ok(()) if s.ovf => Outcome::Any,
                Ok(()) => Outcome::Ok,
                // an error discovered after an overflow is still an error
                Err(e) => Outcome::Err(e),
            };
            if *exp == Exp::SpecOrErr && out == Outcome::Ok {
                out = Outcome::Any;
            }
            match out {
                Outcome::Err(_) => {
                    let mut post = pre.clone();
                    post.problems.clear();
                    Pred { out, post, ev: vec![], ids: vec![], f: s.f, tag: Some(tag), trades: s.trades }
                }
                _ => {
                    if s.s.live {
                        s.s.mseq += 1;
                    }
                    Pred { out, post: s.s, ev: s.ev, ids: s.ids, f: s.f, tag: Some(tag), trades: s.trades }
                }
            }
        }
    }
}
