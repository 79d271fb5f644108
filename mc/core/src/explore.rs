//! Breadth-first exhaustive exploration of the implementation's own state space.
use crate::check::*;
use crate::relevance::relevant;
use crate::spec::{self, Outcome};
use crate::svm::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Gen = Box<dyn Fn(&Abs, &Uni, usize) -> Vec<Act>>;

/// The steps of the epilogues have the indices `EPI - (1000 * step + epilogue)`.
const EPI: i64 = -10_000_000;
/// Only the first so many states of a scenario have epilogues.
const EPI_STATES: usize = 8_000;

/// What follows every state (checked like everything else, not explored further): 0, the traders take out what is theirs and the
/// market is closed; 1, the authority does it for them; 2, a trader is put out of the market, comes back, and
/// trades; 3, trading at the best prices goes on, the market is amended, all that can expire expires, and it goes on again; 4, the market passes through its statuses and changes hands.
/// `k` counts the steps.
fn epilogue(a: &Abs, u: &Uni, v: usize, k: usize) -> Option<Act> {
    use crate::scen::{o, pl};
    let known = |p: Pid| (p as usize) < u.persons.len();
    if !a.live || a.status == 0 || a.traders.len() > 8 || k > 60 || !known(a.auth) {
        return None;
    }
    let auth = a.auth;
    let cut = |side| UpTo { side, tick: None, search: None, cancel: None };
    let has = |p: Pid, side: Side| a.book(side).iter().any(|o| o.who == p);
    let seat = |p: Pid| a.seats.get(p as usize).copied().flatten();
    if v == 2 {
        let p = a.traders.iter().map(|t| t.0).chain(u.ids.values().copied().filter(|p| known(*p) && seat(*p).is_some()).min()).find(|p| known(*p) && *p != auth)?;
        let q = a.traders.iter().map(|t| t.0).find(|q| *q != p && known(*q)).unwrap_or(p);
        let px = a.asks.first().map_or(12, |o| o.px.saturating_sub(1)).max(a.bids.first().map_or(1, |o| o.px.saturating_add(1)));
        return Some(match k {
            0 => ix(auth, Op::ChangeSeat { trader: p, status: 0 }),
            1 => ix(auth, Op::ForceCancel { trader: p, p: cut(Bid) }),
            2 => ix(auth, Op::ForceCancel { trader: p, p: cut(Ask) }),
            3 => ix(auth, Op::Evict { trader: p }),
            4 => ix(auth, Op::ChangeSeat { trader: p, status: 1 }),
            5 => ix(auth, Op::Status { to: 1, receiver: None }),
            6 => ix(p, Op::Deposit { q: 3, b: 2 }),
            7 => pl(p, o(Ask, px, 3).post()),
            8 => pl(q, o(Bid, px, 2).ioc()),
            9 => pl(p, o(Bid, 1, 1).free().post()),
            10 => ix(p, Op::Withdraw { q: None, b: None }),
            11 => pl(q, o(Bid, px, 2).lim()),
            12 => ix(p, Op::CancelAll { ff: false }),
            _ => return None,
        });
    }
    if v == 3 {
        let two: Vec<Pid> = a.traders.iter().map(|t| t.0).filter(|p| known(*p)).take(2).collect();
        let (p, q) = (*two.first()?, *two.last()?);
        let (bb, ba) = (a.bids.first(), a.asks.first());
        let (bp, bl) = bb.map_or((7, 2), |o| (o.px, o.lots));
        let (ap, al) = ba.map_or((11, 2), |o| (o.px, o.lots));
        let far = |f: fn(&Order) -> u64| a.bids.iter().chain(&a.asks).map(f).filter(|x| *x < 1 << 40).max().unwrap_or(0);
        return Some(match k {
            0 => pl(q, o(Bid, ap, (al + 1) / 2).ioc()),
            1 => pl(p, o(Ask, bp, (bl + 1) / 2).st(St::DecrementTake).ioc()),
            2 => match bb {
                Some(b) if known(b.who) => ix(b.who, Op::Reduce { side: Bid, px: b.px, id: b.id, size: 1, ff: true }),
                _ => pl(p, o(Bid, bp, 2).post()),
            },
            3 => pl(ba.map(|b| b.who).filter(|p| known(*p)).unwrap_or(q), o(Bid, ap, 1).st(St::DecrementTake).lim()),
            4 => ix(p, crate::scen::multi(vec![(bp, 1, GTC), (bp.saturating_sub(1), 2, GTC)], vec![(ap, 1, GTC)], 2, false)),
            5 => pl(q, o(Ask, 0, 0).quote(40).market().ioc()),
            6 => ix(p, Op::CancelUpTo { p: UpTo { side: Ask, tick: None, search: Some(2), cancel: Some(1) }, ff: true }),
            7 => Act::Clock { slot: u64::max(a.slot, far(|o| o.lvs)) + 1, ts: i64::max(a.ts, far(|o| o.lvts) as i64) + 1 },
            8 => pl(q, o(Bid, ap.saturating_add(1), 3).ml(Some(9)).lim()),
            9 => pl(p, o(Ask, bp, 4).amend().post()),
            10 => ix(p, Op::Withdraw { q: Some(3), b: Some(0) }),
            11 => pl(p, o(Bid, ap, 2).st(St::CancelProvide).ioc()),
            12 => ix(q, Op::CancelAll { ff: true }),
            _ => return None,
        });
    }
    if v == 4 {
        let p = a.traders.iter().map(|t| t.0).find(|p| known(*p))?;
        let ap = a.asks.first().map_or(11, |o| o.px);
        let bp = a.bids.first().map_or(7, |o| o.px);
        let to = |to| ix(auth, Op::Status { to, receiver: None });
        let other = if auth == u.succ { u.auth } else { u.succ };
        return Some(match k {
            0 => to(2),
            1 => pl(p, o(Bid, ap, 1).lim()),
            2 => pl(p, o(Ask, bp, 1).ioc()),
            3 => to(3),
            4 => pl(p, o(Bid, 1, 1).post()),
            5 => ix(p, Op::Deposit { q: 1, b: 0 }),
            6 => ix(p, Op::Withdraw { q: Some(1), b: None }),
            7 => ix(auth, Op::Name { succ: other }),
            8 => ix(other, Op::Status { to: 1, receiver: None }),
            9 => ix(other, Op::Claim),
            10 => ix(if auth == u.succ { u.auth } else { u.succ }, Op::Status { to: 1, receiver: None }),
            11 => to(4),
            12 => ix(auth, Op::ForceCancel { trader: p, p: cut(Bid) }),
            13 => ix(auth, Op::FeeRecipient { new: u.rando, prev: known(a.feerec).then_some(a.feerec) }),
            14 => ix(u.rando, Op::Collect { dest: u.rando }),
            15 => to(1),
            16 => to(2),
            17 => to(1),
            18 => pl(p, o(Ask, ap, 2).post()),
            19 => pl(p, o(Ask, bp, 2).st(St::CancelProvide).ioc()),
            20 => ix(auth, Op::Collect { dest: u.rando }),
            21 => ix(auth, Op::Claim),
            _ => return None,
        });
    }
    if let Some((p, t)) = a.traders.iter().find(|(p, t)| known(*p) && (has(*p, Bid) || has(*p, Ask) || (v == 0 && t.qf + t.bf > 0))) {
        return Some(if v == 0 {
            if has(*p, Bid) || has(*p, Ask) {
                ix(*p, Op::CancelAll { ff: p % 2 == 0 })
            } else {
                ix(*p, Op::Withdraw { q: None, b: None })
            }
        } else if seat(*p) == Some(1) {
            ix(auth, Op::ChangeSeat { trader: *p, status: 2 })
        } else {
            let side = if has(*p, Bid) { Bid } else { Ask };
            ix(auth, Op::ForceCancel { trader: *p, p: cut(side) })
        });
    }
    if a.uncollected > 0 {
        return known(a.feerec).then(|| ix(auth, Op::Collect { dest: a.feerec }));
    }
    if let Some((p, _)) = a.traders.iter().find(|(p, _)| known(*p)) {
        return Some(if seat(*p) == Some(1) { ix(auth, Op::ChangeSeat { trader: *p, status: 2 * (v as u8) }) } else { ix(auth, Op::Evict { trader: *p }) });
    }
    Some(match a.status {
        1 => ix(auth, Op::Status { to: 2 + v as u8, receiver: None }),
        2 | 3 => ix(auth, Op::Status { to: 4, receiver: None }),
        _ => ix(auth, Op::Status { to: 5, receiver: Some(u.rando) }),
    })
}

/// A market that is gone has left nothing behind.
fn nothing_left(a: &Abs, u: &Uni) -> Option<Div> {
    let (b, q) = (a.tok[u.tvb()], a.tok[u.tvq()]);
    (!a.live && (b > 0 || q > 0)).then(|| Div { cat: Cat::Solvency, msg: format!("the market is gone but its vaults hold {} and {} atoms", b, q) })
}

pub struct Scen {
    pub name: String,
    pub cfg: Cfg,
    pub setup: Vec<Act>,
    /// so many set-up steps are only compared by their outcome and by the state they end in
    pub bulk: usize,
    /// actions explored from a state at the given depth
    pub acts: Gen,
    /// actions executed and checked from every state (the last layer included) but not explored further
    pub probes: Gen,
    pub depth: usize,
    /// distinguish states by the implementation's own bytes instead of by their abstraction
    pub raw: bool,
    pub views: bool,
    pub max_states: usize,
    /// also run every action in a world of another capacity and require the same outcome
    pub twin: Option<Cfg>,
    pub no_epilogue: bool,
}

impl Scen {
    pub fn new(name: &str, cfg: Cfg) -> Scen {
        Scen {
            name: name.into(),
            cfg,
            setup: vec![],
            bulk: 0,
            acts: Box::new(|_, _, _| vec![]),
            probes: Box::new(|_, _, _| vec![]),
            depth: 1,
            raw: false,
            views: false,
            max_states: 400_000,
            twin: None,
            no_epilogue: false,
        }
    }
    pub fn setup(mut self, v: Vec<Act>) -> Self {
        self.setup.extend(v);
        self
    }
    /// Long preparations: see `bulk`. Any discrepancy makes the steps be checked one by one after all.
    pub fn bulk(mut self) -> Self {
        self.bulk = self.setup.len();
        self
    }
    pub fn acts(mut self, depth: usize, f: impl Fn(&Abs, &Uni, usize) -> Vec<Act> + 'static) -> Self {
        self.depth = depth;
        self.acts = Box::new(f);
        self
    }
    pub fn probes(mut self, f: impl Fn(&Abs, &Uni, usize) -> Vec<Act> + 'static) -> Self {
        self.probes = Box::new(f);
        self
    }
    pub fn raw(mut self) -> Self {
        self.raw = true;
        self
    }
    pub fn views(mut self) -> Self {
        self.views = true;
        self
    }
    pub fn twin(mut self, c: Cfg) -> Self {
        self.twin = Some(c);
        self
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub setup: u64,
    pub setup_rejected: u64,
    pub depth: u64,
    pub truncated: bool,
    /// every sequence up to this length was taken, probes included
    pub complete: u64,
    /// states visited beyond that
    pub beyond: u64,
    pub sample: String,
    /// steps taken after the states explored, see `epilogue`
    pub epilogue: u64,
    pub epilogue_ok: u64,
    /// how often the market was wound down completely
    pub wound: u64,
    pub facts: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, (u64, u64)>,
    pub foreign: BTreeMap<String, u64>,
    pub foreign_example: String,
    pub note: String,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub path: Vec<String>,
    pub indices: Vec<i64>,
    pub divs: Vec<Div>,
}

pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);
pub static mut CURRENT: Option<Box<dyn Fn() -> String + Send>> = None;

pub struct World<'a> {
    pub t: &'a Target,
    pub u: Uni,
    pub keys: BuildKeys,
    pub cur: Image,
    pub work: Image,
    pub slot: u64,
    pub ts: i64,
}

pub struct StepOut {
    pub changed: bool,
    pub ok: bool,
    pub divs: Vec<Div>,
    pub post: Abs,
    pub pred: spec::Pred,
    pub slot: u64,
    pub ts: i64,
    pub err: String,
}

impl<'a> World<'a> {
    pub fn new(t: &'a Target, cfg: &Cfg) -> World<'a> {
        let (u, img) = build_world(cfg, (t.program)(), (t.log_auth)(), t.size);
        let keys = BuildKeys { market: u.key(S_MARKET), bmint: u.key(S_BMINT), qmint: u.key(S_QMINT) };
        let mut w = World { t, keys, work: img.clone(), cur: img, u, slot: 10, ts: 1000 };
        if cfg.extras {
            w.second_market();
        }
        w
    }
    /// Brings the second market to life (best effort: it only serves as a source of foreign accounts).
    fn second_market(&mut self) {
        let auth = 1;
        let st = |who, op| (who, op);
        let mut q = vec![st(auth, Op::Init(self.u.cfg.init_params())), st(auth, Op::Status { to: 1, receiver: None })];
        for p in [0, 1, 2] {
            q.push(st(auth, Op::RequestSeatAuth { trader: p }));
            q.push(st(auth, Op::ChangeSeat { trader: p, status: 1 }));
        }
        for p in [0, 2] {
            q.push(st(p, Op::Deposit { q: 500, b: 100 }));
        }
        q.push(st(1, Op::Name { succ: 0 }));
        set_clock(self.slot, self.ts);
        for (who, op) in q {
            let mut x = build_op(&self.u, who, &op);
            for m in x.metas.iter_mut() {
                let to = if m.slot == S_MARKET {
                    "MARKET2".to_string()
                } else if m.slot == S_BVAULT {
                    "BVAULT2".to_string()
                } else if m.slot == S_QVAULT {
                    "QVAULT2".to_string()
                } else if let Some(p) = self.u.persons.iter().position(|p| p.seat == m.slot) {
                    format!("P{}.seat2", p)
                } else {
                    continue;
                };
                m.slot = self.u.names[&to];
            }
            self.work.buf.copy_from_slice(&self.cur.buf);
            let out = exec(&self.u.layout, &mut self.work, &self.cur, &x);
            if out.ok {
                std::mem::swap(&mut self.cur, &mut self.work);
            } else if std::env::var("MC_DEBUG").is_ok() {
                eprintln!("second market: {:?}: {}", op, out.err);
            }
        }
    }
    /// Foreign accounts with the contents of the genuine ones, so that only their owner gives them away.
    fn forge(&mut self, who: Pid, faults: &[Fault]) {
        let l = &self.u.layout;
        let (fm, fs) = match (self.u.names.get("FAKE.market"), self.u.names.get("FAKE.seat")) {
            (Some(a), Some(b)) => (*a, *b),
            _ => return,
        };
        for f in faults {
            if let Fault::Subst(_, to) = f {
                let from = if *to == fm { S_MARKET } else if *to == fs { self.u.persons[who as usize].seat } else { continue };
                let d = self.cur.data(l, from).to_vec();
                let x = self.cur.data_mut(l, *to);
                if d.len() == x.len() {
                    x.copy_from_slice(&d);
                }
            }
        }
    }
    pub fn abs(&self) -> Abs {
        abstraction(self.t, &self.u, &self.cur, self.slot, self.ts)
    }
    pub fn make_ix(&self, act: &Act) -> Option<Ix> {
        match act {
            Act::Ix { who, op, faults, .. } => {
                let mut ixn = build_op(&self.u, *who, op);
                for f in faults {
                    if let Fault::Built(k) = f {
                        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.t.builder)(act, &self.u, &self.keys))).ok().flatten()?;
                        let b = v.into_iter().nth(*k)?;
                        if b.program != self.u.program {
                            return None;
                        }
                        ixn.data = b.data;
                        ixn.metas = b
                            .metas
                            .iter()
                            .map(|(k, s, w)| {
                                let slot = self.u.layout.keys.iter().position(|x| x == k).unwrap_or(self.u.layout.keys.len() - 1);
                                Meta { slot, s: *s, w: *w }
                            })
                            .collect();
                    }
                }
                apply_faults(&mut ixn, faults);
                Some(ixn)
            }
            _ => None,
        }
    }
    /// Executes `act` from `cur` (abstraction `pre`); the new image is left in `work`.
    pub fn step(&mut self, pre: &Abs, act: &Act) -> StepOut {
        HEARTBEAT.fetch_add(1, Ordering::Relaxed);
        let pred = spec::step(&self.u, pre, act);
        let l = &self.u.layout;
        match act {
            Act::Clock { slot, ts } => {
                self.work.buf.copy_from_slice(&self.cur.buf);
                let post = pred.post.clone();
                StepOut { changed: true, ok: true, divs: vec![], post, pred, slot: *slot, ts: *ts, err: String::new() }
            }
            Act::Poke(what, n) => {
                self.work.buf.copy_from_slice(&self.cur.buf);
                let at = match what {
                    Counter::Orders => OSEQ_AT,
                    Counter::Collected => OSEQ_AT + 16,
                    Counter::Events => off::MSEQ,
                };
                self.work.data_mut(l, S_MARKET)[at..at + 8].copy_from_slice(&n.to_le_bytes());
                let post = abstraction(self.t, &self.u, &self.work, self.slot, self.ts);
                let mut divs = vec![];
                if post != pred.post {
                    divs.push(Div { cat: Cat::Oseq, msg: format!("cannot set the counter {:?}", what) });
                }
                StepOut { changed: true, ok: true, divs, post, pred, slot: self.slot, ts: self.ts, err: String::new() }
            }
            Act::Fund { slot, lam } => {
                self.work.buf.copy_from_slice(&self.cur.buf);
                let n = self.work.lamports(l, *slot) + lam;
                self.work.set_lamports(l, *slot, n);
                let post = abstraction(self.t, &self.u, &self.work, self.slot, self.ts);
                StepOut { changed: true, ok: true, divs: vec![], post, pred, slot: self.slot, ts: self.ts, err: String::new() }
            }
            Act::Recreate => {
                self.work.buf.copy_from_slice(&self.cur.buf);
                let n = self.u.msize();
                self.work.set_owner(l, S_MARKET, &self.u.program);
                self.work.set_len(l, S_MARKET, n);
                self.work.data_mut(l, S_MARKET).fill(0);
                self.work.set_lamports(l, S_MARKET, solana_program::rent::Rent::default().minimum_balance(n));
                let post = abstraction(self.t, &self.u, &self.work, self.slot, self.ts);
                StepOut { changed: true, ok: true, divs: vec![], post, pred, slot: self.slot, ts: self.ts, err: String::new() }
            }
            Act::Ix { who, faults, .. } => {
                if !faults.is_empty() {
                    self.forge(*who, faults);
                }
                let l = &self.u.layout;
                self.work.buf.copy_from_slice(&self.cur.buf);
                let ixn = match self.make_ix(act) {
                    Some(i) => i,
                    None => {
                        let post = pre.clone();
                        let divs = vec![Div { cat: Cat::View, msg: "the published builder produced no usable instruction".into() }];
                        return StepOut { changed: false, ok: false, divs, post, pred, slot: self.slot, ts: self.ts, err: "builder".into() };
                    }
                };
                set_clock(self.slot, self.ts);
                let out = exec(l, &mut self.work, &self.cur, &ixn);
                let post = if out.ok { abstraction(self.t, &self.u, &self.work, self.slot, self.ts) } else { pre.clone() };
                let divs = check_step(&crate::check::Step {
                    t: self.t,
                    u: &self.u,
                    act,
                    pre,
                    pred: &pred,
                    out: &out,
                    post: &post,
                    cur: &self.cur,
                    work: &self.work,
                    ixn: &ixn,
                });
                StepOut { changed: out.ok, ok: out.ok, divs, post, pred, slot: self.slot, ts: self.ts, err: out.err }
            }
        }
    }
    /// Executes instructions in place; only whether each is accepted and the final state are compared.
    fn bulk(&mut self, pre: &Abs, acts: &[Act]) -> Option<Abs> {
        self.work.buf.copy_from_slice(&self.cur.buf);
        let mut a = pre.clone();
        set_clock(self.slot, self.ts);
        for act in acts {
            HEARTBEAT.fetch_add(1, Ordering::Relaxed);
            let pred = spec::step(&self.u, &a, act);
            let ixn = self.make_ix(act)?;
            let out = exec(&self.u.layout, &mut self.work, &self.cur, &ixn);
            if !out.ok || pred.out != Outcome::Ok {
                return None;
            }
            // the market itself is always writable and its own program's: nothing looks at its former contents
            for m in &ixn.metas {
                if m.slot != S_MARKET || matches!(act, Act::Ix { op: Op::Init(_), .. }) {
                    let (p, n) = (self.u.layout.offs[m.slot] / 8, (self.u.layout.caps[m.slot] + HDR) / 8);
                    self.cur.buf[p..p + n].copy_from_slice(&self.work.buf[p..p + n]);
                }
            }
            a = pred.post;
        }
        self.cur.buf.copy_from_slice(&self.work.buf);
        let got = self.abs();
        if std::env::var("MC_DEBUG").is_ok() && got != a {
            eprintln!("bulk set-up ends elsewhere than predicted");
        }
        (got == a).then_some(got)
    }
    pub fn commit(&mut self, o: &StepOut) {
        std::mem::swap(&mut self.cur, &mut self.work);
        self.slot = o.slot;
        self.ts = o.ts;
    }
}

/// Where the order sequence number lives in the account (checked whenever it is used).
pub const OSEQ_AT: usize = HEADER + 32 * 8 + 16;

fn canon(s: &Abs) -> u128 {
    let mut a = s.clone();
    a.mseq = 0;
    a.collected = 0;
    // identifiers only matter through their order
    let mut ids: Vec<u64> = a.bids.iter().chain(&a.asks).map(|o| o.ord()).collect();
    ids.sort();
    for o in a.bids.iter_mut().chain(a.asks.iter_mut()) {
        let r = ids.binary_search(&o.ord()).unwrap() as u64;
        o.id = if o.id >> 63 == 1 { !r } else { r };
    }
    a.oseq = if a.oseq < 1 << 32 { 0 } else { (u64::MAX >> 1).saturating_sub(a.oseq).min(8) + 1 };
    h128(&a)
}
fn h128<T: Hash>(t: &T) -> u128 {
    #[allow(deprecated)]
    let mut a = std::hash::SipHasher::new_with_keys(1, 2);
    #[allow(deprecated)]
    let mut b = std::hash::SipHasher::new_with_keys(3, 4);
    t.hash(&mut a);
    t.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}
fn raw_hash(w: &World, o: &StepOut) -> u128 {
    let l = &w.u.layout;
    let (s, n) = (l.offs[S_MARKET] + HDR, l.caps[S_MARKET]);
    let b = w.work.bytes();
    // everything the market stores except its header and the order sequence number
    h128(&(&b[s + OSEQ_AT + 8..s + n], &o.post.tok, &o.post.seats, o.post.status, o.slot, o.ts))
}

struct Node {
    parent: u32,
    act: i64,
    depth: u16,
    slot: u64,
    ts: i64,
    delta: Vec<(u32, u64)>,
    abs: Option<Box<Abs>>,
}

pub fn op_name(a: &Act) -> String {
    match a {
        Act::Ix { op, faults, .. } => {
            let s = format!("{:?}", op);
            let mut n: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
            if let Op::Order(m, p) = op {
                let k = match p {
                    Pk::PostOnly { .. } => "PostOnly",
                    Pk::Limit { .. } => "Limit",
                    Pk::Ioc { .. } => "Ioc",
                };
                n = format!("{:?}.{}", m, k);
            }
            if !faults.is_empty() {
                n.push_str("+altered");
            }
            n
        }
        Act::Clock { .. } => "Clock".into(),
        Act::Poke(..) => "Poke".into(),
        Act::Fund { .. } => "Fund".into(),
        Act::Recreate => "Recreate".into(),
    }
}

fn note_facts(st: &mut Stats, o: &StepOut) {
    let f = &o.pred.f;
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *st.facts.entry(k.into()).or_default() += 1
        }
    };
    add("fill", f.fills as u64);
    add("multi_fill", (f.fills > 1) as u64);
    add("partial_fill", f.partial_fill as u64);
    add("self_trade", f.self_trade as u64);
    add("expired_removed", f.expired_removed as u64);
    add("evicted", f.evicted as u64);
    add("amended", f.amended as u64);
    add("post_cross", f.post_cross as u64);
    add("silent_noop", f.silent_noop as u64);
    add("packet_expired", f.packet_expired as u64);
    add("posted", f.posted as u64);
    add("skipped", f.skipped as u64);
    add("cancelled", f.cancelled as u64);
    add("fee_charged", f.fee);
    add("free_funds_used", f.free_used as u64);
    add("match_limit_hit", f.match_limit_hit as u64);
    add("full_book", f.full_book as u64);
    add("must_fail", matches!(o.pred.out, Outcome::Err(_)) as u64);
}

pub struct Result {
    pub stats: Stats,
    pub viol: Option<Viol>,
}

fn split(prop: &str, act: &Act, pre: &Abs, o: &StepOut, st: &mut Stats) -> Vec<Div> {
    let mut rel = vec![];
    for d in &o.divs {
        if relevant(prop, d.cat, act, pre, &o.pred) {
            rel.push(d.clone());
        } else {
            *st.foreign.entry(format!("{:?}", d.cat)).or_default() += 1;
            if st.foreign_example.is_empty() {
                st.foreign_example = format!("{:?}: {}: {}", act, format!("{:?}", d.cat), d.msg);
            }
        }
    }
    rel
}

/// Depth-first listing order never matters; the whole bounded space is always visited.
///
/// Layers up to `sc.depth` are mandatory. With `deeper` given, further layers follow one by one until that instant.
pub fn run(t: &Target, prop: &str, sc: &Scen, deadline: std::time::Instant, deeper: Option<std::time::Instant>) -> Result {
    let mut st = Stats::default();
    // set once the optional layers have run out of time or room: no expansion past the mandatory depth any more
    let mut cut: Option<usize> = None;
    let mut w = World::new(t, &sc.cfg);
    let mut tw = sc.twin.as_ref().map(|c| World::new(t, c));
    let mut pre = w.abs();
    let mut path: Vec<String> = vec![];
    let mut idx: Vec<i64> = vec![];
    macro_rules! viol {
        ($divs:expr) => {
            return Result { stats: st, viol: Some(Viol { path, indices: idx, divs: $divs }) }
        };
    }
    let mut skip = 0;
    if sc.bulk > 0 && tw.is_none() {
        match w.bulk(&pre, &sc.setup[..sc.bulk]) {
            Some(p) => {
                pre = p;
                skip = sc.bulk;
            }
            None => {
                w = World::new(t, &sc.cfg);
                st.note = "the set-up did not end as predicted at once".into();
            }
        }
    }
    for (i, a) in sc.setup.iter().enumerate() {
        path.push(format!("{:?}", a));
        idx.push(i as i64);
        set_current(&path);
        if i < skip {
            st.setup += 1;
            st.transitions += 1;
            continue;
        }
        let o = w.step(&pre, a);
        st.setup += 1;
        st.transitions += 1;
        if matches!(o.pred.out, Outcome::Err(_)) {
            st.setup_rejected += 1;
            if st.note.is_empty() {
                st.note = format!("setup step {} is predicted to fail: {:?} {:?}", i, a, o.pred.out);
            }
        }
        let d = split(prop, a, &pre, &o, &mut st);
        if !d.is_empty() {
            viol!(d)
        }
        if let Some(tw) = tw.as_mut() {
            if let Some(d) = twin_step(tw, a, &o) {
                viol!(vec![d])
            }
        }
        if o.changed {
            w.commit(&o);
            pre = o.post;
        }
    }
    let base = w.cur.clone();
    let (base_abs, base_slot, base_ts) = (pre.clone(), w.slot, w.ts);
    let tbase = tw.as_ref().map(|t| t.cur.clone());
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(canon(&pre));
    let mut nodes: Vec<Node> = vec![Node { parent: 0, act: -1, depth: 0, slot: w.slot, ts: w.ts, delta: vec![], abs: Some(Box::new(pre)) }];
    let setup_path = path.clone();
    let setup_idx = idx.clone();
    let mut tdelta: Vec<Vec<(u32, u64)>> = vec![vec![]];
    let mut i = 0;
    while i < nodes.len() {
        let delta = std::mem::take(&mut nodes[i].delta);
        let pre = nodes[i].abs.take().unwrap();
        let depth = nodes[i].depth as usize;
        if depth > sc.depth && cut.is_none() && deeper.map_or(true, |x| std::time::Instant::now() > x) {
            cut = Some(depth - 1);
        }
        if cut.is_some() && depth > sc.depth {
            break;
        }
        w.cur.buf.copy_from_slice(&base.buf);
        for (k, v) in &delta {
            w.cur.buf[*k as usize] = *v;
        }
        w.slot = nodes[i].slot;
        w.ts = nodes[i].ts;
        if let Some(tw) = tw.as_mut() {
            tw.cur.buf.copy_from_slice(&tbase.as_ref().unwrap().buf);
            for (k, v) in std::mem::take(&mut tdelta[i]) {
                tw.cur.buf[k as usize] = v;
            }
            tw.slot = w.slot;
            tw.ts = w.ts;
        }
        st.states += 1;
        st.depth = st.depth.max(depth as u64);
        let rebuild = |nodes: &Vec<Node>, last: Option<(i64, &Act)>, sc: &Scen| -> (Vec<String>, Vec<i64>) {
            let mut ids = vec![];
            let mut j = i;
            while j != 0 {
                ids.push(nodes[j].act);
                j = nodes[j].parent as usize;
            }
            ids.reverse();
            // regenerate the actions along the path
            let mut names = setup_path.clone();
            let mut idx = setup_idx.clone();
            let mut w2 = World::new(t, &sc.cfg);
            w2.cur.buf.copy_from_slice(&base.buf);
            (w2.slot, w2.ts) = (base_slot, base_ts);
            let mut p = base_abs.clone();
            for (dpt, k) in ids.iter().enumerate() {
                let acts = (sc.acts)(&p, &w2.u, dpt);
                let a = acts[*k as usize].clone();
                names.push(format!("{:?}", a));
                idx.push(*k);
                let o = w2.step(&p, &a);
                if o.changed {
                    w2.commit(&o);
                    p = o.post;
                }
            }
            if let Some((k, a)) = last {
                names.push(format!("{:?}", a));
                idx.push(k);
            }
            (names, idx)
        };
        if sc.views {
            let mut v = vec![];
            check_views(t, &w.u, &pre, &w.cur, &mut v);
            if !v.is_empty() {
                let (path, indices) = rebuild(&nodes, None, sc);
                return Result { stats: st, viol: Some(Viol { path, indices, divs: v }) };
            }
        }
        let mut todo: Vec<(i64, Act, bool)> = vec![];
        if depth >= sc.depth && cut.is_none() && deeper.map_or(true, |x| nodes.len() >= sc.max_states || std::time::Instant::now() > x) {
            cut = Some(if depth == sc.depth { depth } else { depth - 1 });
        }
        if depth < sc.depth || cut.is_none() {
            for (k, a) in (sc.acts)(&pre, &w.u, depth).into_iter().enumerate() {
                todo.push((k as i64, a, true));
            }
        }
        for (k, a) in (sc.probes)(&pre, &w.u, depth).into_iter().enumerate() {
            todo.push((-2 - k as i64, a, false));
        }
        for (k, a, expand) in todo {
            set_current_at(&nodes, i, k, &a, &sc.name);
            let o = w.step(&pre, &a);
            st.transitions += 1;
            let e = st.ops.entry(op_name(&a)).or_default();
            if o.ok {
                st.accepted += 1;
                e.0 += 1;
            } else {
                st.rejected += 1;
                e.1 += 1;
            }
            note_facts(&mut st, &o);
            let mut d = split(prop, &a, &pre, &o, &mut st);
            if let (true, Some(tw)) = (d.is_empty(), tw.as_mut()) {
                if let Some(x) = twin_peek(tw, &a, &o) {
                    d.push(x);
                }
            }
            if !d.is_empty() {
                let (path, indices) = rebuild(&nodes, Some((k, &a)), sc);
                return Result { stats: st, viol: Some(Viol { path, indices, divs: d }) };
            }
            if !o.changed || !expand {
                continue;
            }
            let h = if sc.raw { raw_hash(&w, &o) } else { canon(&o.post) };
            if !seen.insert(h) {
                continue;
            }
            if depth >= sc.depth && nodes.len() >= sc.max_states {
                cut = Some(if depth == sc.depth { depth } else { depth - 1 });
                continue;
            }
            if nodes.len() >= sc.max_states || std::time::Instant::now() > deadline {
                st.truncated = true;
                continue;
            }
            let mut nd = Vec::new();
            for (k, (x, y)) in base.buf.iter().zip(&w.work.buf).enumerate() {
                if x != y {
                    nd.push((k as u32, *y));
                }
            }
            if let Some(tw) = &tw {
                let b = tbase.as_ref().unwrap();
                let mut nd = Vec::new();
                for (k, (x, y)) in b.buf.iter().zip(&tw.work.buf).enumerate() {
                    if x != y {
                        nd.push((k as u32, *y));
                    }
                }
                tdelta.push(nd);
            }
            nodes.push(Node {
                parent: i as u32,
                act: k,
                depth: depth as u16 + 1,
                slot: o.slot,
                ts: o.ts,
                delta: nd,
                abs: Some(Box::new(o.post)),
            });
        }
        if tw.is_none() && !sc.no_epilogue && i < EPI_STATES {
            for v in 0..5 {
                let mut p = *pre.clone();
                let mut steps: Vec<(i64, Act)> = vec![];
                if v > 0 {
                    w.cur.buf.copy_from_slice(&base.buf);
                    for (k, v) in &delta {
                        w.cur.buf[*k as usize] = *v;
                    }
                    w.slot = nodes[i].slot;
                    w.ts = nodes[i].ts;
                }
                while let Some(a) = epilogue(&p, &w.u, v, steps.len()) {
                    let k = EPI - (steps.len() * 1000 + v) as i64;
                    set_current_at(&nodes, i, k, &a, &sc.name);
                    let o = w.step(&p, &a);
                    st.transitions += 1;
                    st.epilogue += 1;
                    st.epilogue_ok += o.ok as u64;
                    let mut d = split(prop, &a, &p, &o, &mut st);
                    steps.push((k, a.clone()));
                    if o.changed {
                        d.extend(nothing_left(&o.post, &w.u).filter(|d| relevant(prop, d.cat, &a, &p, &o.pred)));
                    }
                    if !d.is_empty() {
                        let (mut path, mut indices) = rebuild(&nodes, None, sc);
                        for (k, a) in steps {
                            path.push(format!("{:?}", a));
                            indices.push(k);
                        }
                        return Result { stats: st, viol: Some(Viol { path, indices, divs: d }) };
                    }
                    if o.changed {
                        w.commit(&o);
                        p = o.post;
                    } else if v < 2 {
                        let d = Div { cat: Cat::Stuck, msg: format!("{:?} is refused, so the market cannot be wound down", a) };
                        if relevant(prop, d.cat, &a, &p, &o.pred) {
                            let (mut path, mut indices) = rebuild(&nodes, None, sc);
                            for (k, a) in steps {
                                path.push(format!("{:?}", a));
                                indices.push(k);
                            }
                            return Result { stats: st, viol: Some(Viol { path, indices, divs: vec![d] }) };
                        }
                        break;
                    }
                }
                if v < 2 && !p.live && pre.live {
                    st.wound += 1;
                }
            }
        }
        i += 1;
    }
    // one of the longest explored sequences, written out
    {
        let j0 = (0..i).rev().find(|j| nodes[*j].depth as u64 == st.depth).unwrap_or(0);
        let mut ids = vec![];
        let mut j = j0;
        while j != 0 {
            ids.push(nodes[j].act);
            j = nodes[j].parent as usize;
        }
        ids.reverse();
        let mut w2 = World::new(t, &sc.cfg);
        w2.cur.buf.copy_from_slice(&base.buf);
        (w2.slot, w2.ts) = (base_slot, base_ts);
        let mut p = base_abs.clone();
        let mut names = vec![];
        for (dpt, k) in ids.iter().enumerate() {
            let a = (sc.acts)(&p, &w2.u, dpt).swap_remove(*k as usize);
            names.push(format!("{:?}", a));
            let o = w2.step(&p, &a);
            if o.changed {
                w2.commit(&o);
                p = o.post;
            }
        }
        if let Some(a) = (sc.probes)(&p, &w2.u, ids.len()).last() {
            names.push(format!("{:?}", a));
        }
        st.sample = names.join(" ; ");
    }
    st.complete = cut.map_or(st.depth, |c| c as u64);
    st.beyond = nodes[..i].iter().filter(|n| n.depth as u64 > st.complete).count() as u64;
    Result { stats: st, viol: None }
}

/// The same action in a world with another capacity must have the same result.
fn twin_compare(tw: &mut World, a: &Act, o: &StepOut) -> (Option<Div>, StepOut) {
    let pre = tw.abs();
    let mut a = a.clone();
    if let Act::Ix { op: Op::Init(p), .. } = &mut a {
        (p.bids, p.asks, p.seats) = (tw.u.cfg.bids, tw.u.cfg.asks, tw.u.cfg.seats);
    }
    let p = tw.step(&pre, &a);
    let strip = |x: &Abs| {
        let mut y = x.clone();
        y.lam.clear();
        y
    };
    let mut d = None;
    if p.ok != o.ok {
        d = Some(Div { cat: Cat::Differ, msg: format!("accepted {} in the small market but {} in the large one ({} / {})", o.ok, p.ok, o.err, p.err) });
    } else if o.changed && strip(&o.post) != strip(&p.post) {
        d = Some(Div { cat: Cat::Differ, msg: "the two market sizes end in different states".into() });
    } else if let Some(x) = p.divs.into_iter().next() {
        d = Some(Div { cat: Cat::Differ, msg: format!("in the large market: {:?} {}", x.cat, x.msg) });
        return (d, StepOut { divs: vec![], ..p });
    }
    (d, StepOut { divs: vec![], changed: p.changed, ok: p.ok, post: p.post, pred: p.pred, slot: p.slot, ts: p.ts, err: p.err })
}
fn twin_peek(tw: &mut World, a: &Act, o: &StepOut) -> Option<Div> {
    twin_compare(tw, a, o).0
}
fn twin_step(tw: &mut World, a: &Act, o: &StepOut) -> Option<Div> {
    let (d, p) = twin_compare(tw, a, o);
    if p.changed {
        tw.commit(&p);
    }
    d
}

// what is running, for the watchdog
pub static WHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static mut WHERE_RAW: (u64, i64) = (0, 0);
fn set_current(p: &[String]) {
    if let Ok(mut g) = WHERE.try_lock() {
        *g = p.last().cloned().unwrap_or_default();
    }
}
fn set_current_at(_n: &[Node], i: usize, k: i64, _a: &Act, _name: &str) {
    unsafe { WHERE_RAW = (i as u64, k) }
}
pub fn where_now() -> String {
    let (i, k) = unsafe { WHERE_RAW };
    format!("state {} action {} (last set-up action: {})", i, k, WHERE.try_lock().map(|g| g.clone()).unwrap_or_default())
}

/// Re-runs a recorded violation: set-up, then the recorded action indices.
pub fn replay(t: &Target, sc: &Scen, indices: &[i64]) -> bool {
    let mut w = World::new(t, &sc.cfg);
    let mut pre = w.abs();
    let mut hit = false;
    let mut show = |w: &mut World, pre: &mut Abs, a: &Act, leave: bool| {
        let o = w.step(pre, a);
        println!("{:?}\n   -> {} {}", a, if o.ok { "accepted" } else { "rejected" }, o.err);
        println!("   model: {:?}", o.pred.out);
        for d in o.divs.iter().chain(&nothing_left(&o.post, &w.u)) {
            hit = true;
            println!("   DIVERGENCE {:?}: {}", d.cat, d.msg);
        }
        if leave && !o.changed {
            hit = true;
            println!("   DIVERGENCE {:?}: the market cannot be wound down", Cat::Stuck);
        }
        if o.changed {
            w.commit(&o);
            *pre = o.post;
        }
        if sc.views {
            let mut v = vec![];
            check_views(t, &w.u, pre, &w.cur, &mut v);
            for d in v {
                hit = true;
                println!("   DIVERGENCE {:?}: {}", d.cat, d.msg);
            }
        }
    };
    for a in sc.setup.iter().take(indices.len()) {
        show(&mut w, &mut pre, a, false);
    }
    let n = sc.setup.len();
    if indices.len() > n {
        for (depth, k) in indices[n..].iter().enumerate() {
            let a = if *k >= 0 {
                (sc.acts)(&pre, &w.u, depth)[*k as usize].clone()
            } else if *k <= EPI {
                let n = (EPI - *k) as usize;
                epilogue(&pre, &w.u, n % 1000, n / 1000).expect("an epilogue that can be repeated")
            } else {
                (sc.probes)(&pre, &w.u, depth)[(-2 - *k) as usize].clone()
            };
            show(&mut w, &mut pre, &a, *k <= EPI && (EPI - *k) % 1000 < 2);
        }
    }
    println!("final state: {:?}", Abs { lam: vec![], ..pre });
    hit
}
