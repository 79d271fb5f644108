//! The universe of accounts a scenario plays in, its abstraction, actions and their encoding.
use crate::svm::*;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

pub const MARKET_DISC: u64 = 8167313896524341111;
pub const SEAT_DISC: u64 = 2002603505298356104;
pub const SEAT_LEN: usize = 128;
pub const HEADER: usize = 576;

pub const S_PROG: Slot = 0;
pub const S_LOG: Slot = 1;
pub const S_MARKET: Slot = 2;
pub const S_BVAULT: Slot = 3;
pub const S_QVAULT: Slot = 4;
pub const S_BMINT: Slot = 5;
pub const S_QMINT: Slot = 6;
pub const S_TOKEN: Slot = 7;
pub const S_SYS: Slot = 8;
pub const S_PERSONS: Slot = 9;
pub type Pid = u16;
pub const NONE: Pid = u16::MAX;
/// The quote vault's own address, named as if it were a person.
pub const VAULT: Pid = NONE - 1;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub bids: u64,
    pub asks: u64,
    pub seats: u64,
    /// quote lots per quote unit / base lots per base unit / tick (quote lots per base unit)
    pub nqlu: u64,
    pub nblu: u64,
    pub tick: u64,
    pub fee_bps: u16,
    pub raw_base: Option<u32>,
    pub base_dec: u8,
    pub quote_dec: u8,
    pub traders: Pid,
    /// initial wallet atoms of every person
    pub wbase: u64,
    pub wquote: u64,
    /// add the foreign / bogus accounts used by account-substitution faults
    pub extras: bool,
    /// market account has this many bytes more than needed
    pub slack: i64,
    /// the first trader is also the market authority, the second one also collects the fees
    pub merged: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            bids: 512,
            asks: 512,
            seats: 128,
            nqlu: 200,
            nblu: 10,
            tick: 20,
            fee_bps: 0,
            raw_base: None,
            base_dec: 2,
            quote_dec: 3,
            traders: 3,
            wbase: 0,
            wquote: 0,
            extras: false,
            slack: 0,
            merged: false,
        }
    }
}

impl Cfg {
    pub fn base_lot(&self) -> u64 {
        10u64.pow(self.base_dec as u32) * self.raw_base.unwrap_or(1) as u64 / self.nblu
    }
    pub fn quote_lot(&self) -> u64 {
        10u64.pow(self.quote_dec as u32) / self.nqlu
    }
    pub fn init_params(&self) -> InitP {
        InitP {
            bids: self.bids,
            asks: self.asks,
            seats: self.seats,
            nqlu: self.nqlu,
            tick: self.tick,
            nblu: self.nblu,
            fee: self.fee_bps,
            raw: self.raw_base,
            coll: None,
        }
    }
}

/// Prices (quote atoms per base unit) the header is asked to convert.
pub const PRICES: [u64; 9] = [0, 1, 99, 100, 999, 1000, 12345678, u32::MAX as u64 + 7, u64::MAX];

/// Size of the market account (header included) for given capacities.
/// RB-tree: 32-byte header of the allocator etc. is probed from the implementation at start-up.
pub type SizeFn = fn(u64, u64, u64) -> Option<usize>;

#[derive(Clone)]
pub struct Person {
    pub wallet: Slot,
    pub base: Slot,
    pub quote: Slot,
    pub seat: Slot,
}

#[derive(Clone)]
pub struct Uni {
    pub cfg: Cfg,
    pub program: Pubkey,
    pub layout: Layout,
    pub persons: Vec<Person>,
    pub auth: Pid,
    pub succ: Pid,
    pub fee: Pid,
    pub fee2: Pid,
    pub rando: Pid,
    pub ids: HashMap<Pubkey, Pid>,
    pub names: HashMap<String, Slot>,
    /// slots holding token accounts, in order
    pub tok: Vec<Slot>,
    pub tok_ix: HashMap<Slot, usize>,
    pub market_len: usize,
}

impl Uni {
    /// size of the market account
    pub fn msize(&self) -> usize {
        self.market_len
    }
    pub fn key(&self, s: Slot) -> Pubkey {
        self.layout.keys[s]
    }
    pub fn wallet_key(&self, p: Pid) -> Pubkey {
        self.key(self.persons[p as usize].wallet)
    }
    pub fn id_of(&self, k: &Pubkey) -> Pid {
        *self.ids.get(k).unwrap_or(&NONE)
    }
    pub fn quote_slot(&self, p: Pid) -> Slot {
        if p == VAULT { S_QVAULT } else { self.persons[p as usize].quote }
    }
    pub fn tb(&self, p: Pid) -> usize {
        self.tok_ix[&self.persons[p as usize].base]
    }
    pub fn tq(&self, p: Pid) -> usize {
        self.tok_ix[&self.quote_slot(p)]
    }
    pub fn tvb(&self) -> usize {
        self.tok_ix[&S_BVAULT]
    }
    pub fn tvq(&self) -> usize {
        self.tok_ix[&S_QVAULT]
    }
    pub fn person_name(&self, p: Pid) -> String {
        if p == NONE {
            "?".into()
        } else if p == self.auth {
            "AUTH".into()
        } else if p == self.succ {
            "SUCC".into()
        } else if p == self.fee {
            "FEE".into()
        } else if p == self.fee2 {
            "FEE2".into()
        } else if p == self.rando {
            "RANDO".into()
        } else {
            format!("T{}", p)
        }
    }
}

fn key_from(tag: &str, n: u64) -> Pubkey {
    let h = solana_program::hash::hashv(&[b"vp", tag.as_bytes(), &n.to_le_bytes()]);
    Pubkey::new_from_array(h.to_bytes())
}

pub fn token_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1; // initialised
    d
}
pub fn mint_account(dec: u8) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&u64::MAX.to_le_bytes());
    d[44] = dec;
    d[45] = 1;
    d
}

/// Associated token account address.
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    use std::str::FromStr;
    let p = Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap();
    Pubkey::find_program_address(&[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &p).0
}

pub const RENT_TOK: u64 = 2039280;
pub const WALLET_LAM: u64 = 1_000_000_000_000_000;

/// First bump (counted down from 255) for which the seeds give an address.
fn bump(seeds: &[&[u8]], program: &Pubkey) -> u8 {
    Pubkey::find_program_address(seeds, program).1
}

/// A market whose vault addresses have the given bumps (kept high, so that finding them is cheap; different ones, so that
/// mixing them up shows).
pub fn market_key(program: &Pubkey, bm: &Pubkey, qm: &Pubkey, tag: &str, bumps: (u8, u8)) -> Pubkey {
    for n in 0.. {
        let k = key_from(tag, n);
        if bump(&[b"vault", k.as_ref(), bm.as_ref()], program) == bumps.0 && bump(&[b"vault", k.as_ref(), qm.as_ref()], program) == bumps.1 {
            return k;
        }
    }
    unreachable!()
}

pub fn build_world(cfg: &Cfg, program: Pubkey, log_auth: Pubkey, size: SizeFn) -> (Uni, Image) {
    let sys = solana_program::system_program::id();
    let tok = spl_token::id();
    let loader = key_from("loader", 0);
    let (bm, qm) = (key_from("bmint", 0), key_from("qmint", 0));
    let mk = market_key(&program, &bm, &qm, "market", (254, 255));
    let vault = |market: &Pubkey, mint: &Pubkey| {
        Pubkey::find_program_address(&[b"vault", market.as_ref(), mint.as_ref()], &program).0
    };
    let seat = |market: &Pubkey, t: &Pubkey| {
        Pubkey::find_program_address(&[b"seat", market.as_ref(), t.as_ref()], &program).0
    };
    let mut specs: Vec<AcctSpec> = Vec::new();
    let mut names: HashMap<String, Slot> = HashMap::new();
    let mut add = |specs: &mut Vec<AcctSpec>, name: &str, key, owner, lamports, data: Vec<u8>, cap, executable| {
        let s = specs.len();
        names.insert(name.to_string(), s);
        specs.push(AcctSpec { key, owner, lamports, data, cap, executable });
        s
    };
    let need = size(cfg.bids, cfg.asks, cfg.seats).unwrap_or(100_000);
    let msize = (need as i64 + cfg.slack).max(0) as usize;
    let mrent = solana_program::rent::Rent::default().minimum_balance(msize);
    add(&mut specs, "PROG", program, loader, 1, vec![], 0, true);
    add(&mut specs, "LOG", log_auth, sys, 0, vec![], 0, false);
    add(&mut specs, "MARKET", mk, program, mrent, vec![0; msize], msize, false);
    add(&mut specs, "BVAULT", vault(&mk, &bm), sys, 0, vec![], 165, false);
    add(&mut specs, "QVAULT", vault(&mk, &qm), sys, 0, vec![], 165, false);
    add(&mut specs, "BMINT", bm, tok, 1461600, mint_account(cfg.base_dec), 0, false);
    add(&mut specs, "QMINT", qm, tok, 1461600, mint_account(cfg.quote_dec), 0, false);
    add(&mut specs, "TOKEN", tok, loader, 1, vec![], 0, true);
    add(&mut specs, "SYS", sys, loader, 1, vec![], 0, true);
    let n = cfg.traders as usize + 5;
    let mut persons = vec![];
    let mut ids = HashMap::new();
    let mut kn = 0;
    for p in 0..n {
        let k = loop {
            let k = key_from("person", kn);
            kn += 1;
            if bump(&[b"seat", mk.as_ref(), k.as_ref()], &program) == if p % 2 == 1 { 254 } else { 255 } {
                break k;
            }
        };
        ids.insert(k, p as Pid);
        let wallet = add(&mut specs, &format!("P{}", p), k, sys, if p == cfg.traders as usize + 3 { 0 } else { WALLET_LAM }, vec![], 0, false);
        let base = add(&mut specs, &format!("P{}.base", p), ata(&k, &bm), tok, RENT_TOK, token_account(&bm, &k, cfg.wbase), 0, false);
        let quote = add(&mut specs, &format!("P{}.quote", p), ata(&k, &qm), tok, RENT_TOK, token_account(&qm, &k, cfg.wquote), 0, false);
        let s = add(&mut specs, &format!("P{}.seat", p), seat(&mk, &k), sys, 0, vec![], SEAT_LEN, false);
        persons.push(Person { wallet, base, quote, seat: s });
    }
    ids.insert(vault(&mk, &qm), VAULT);
    let t = cfg.traders;
    let mut toks = vec![S_BVAULT, S_QVAULT];
    for p in &persons {
        toks.push(p.base);
        toks.push(p.quote);
    }
    if cfg.extras {
        // a second genuine market on the same mints (initialised by the scenario setup)
        let mk2 = market_key(&program, &bm, &qm, "market2", (255, 254));
        add(&mut specs, "MARKET2", mk2, program, mrent, vec![0; msize], msize, false);
        let a = add(&mut specs, "BVAULT2", vault(&mk2, &bm), sys, 0, vec![], 165, false);
        let b = add(&mut specs, "QVAULT2", vault(&mk2, &qm), sys, 0, vec![], 165, false);
        toks.push(a);
        toks.push(b);
        for p in 0..n {
            let k = specs[persons[p].wallet].key;
            add(&mut specs, &format!("P{}.seat2", p), seat(&mk2, &k), sys, 0, vec![], SEAT_LEN, false);
        }
        // token accounts of a third mint, and second token accounts
        let om = key_from("omint", 0);
        add(&mut specs, "OMINT", om, tok, 1461600, mint_account(cfg.base_dec), 0, false);
        for p in 0..n {
            let k = specs[persons[p].wallet].key;
            let a = add(&mut specs, &format!("P{}.other", p), key_from("other", p as u64), tok, RENT_TOK, token_account(&om, &k, cfg.wbase), 0, false);
            toks.push(a);
        }
        // look-alikes: owned by a program that is neither the token program nor phoenix
        let evil = key_from("evil", 0);
        let k0 = specs[persons[0].wallet].key;
        add(&mut specs, "EVIL", evil, loader, 1, vec![], 0, true);
        add(&mut specs, "FAKE.base", key_from("fakebase", 0), evil, RENT_TOK, token_account(&bm, &k0, cfg.wbase), 0, false);
        add(&mut specs, "FAKE.quote", key_from("fakequote", 0), evil, RENT_TOK, token_account(&qm, &k0, cfg.wquote), 0, false);
        // vault look-alikes with the right mint, owned (token-wise) by the attacker / by the real vault
        let bv = vault(&mk, &bm);
        let qv = vault(&mk, &qm);
        let a = add(&mut specs, "LOOK.bvault", key_from("lookb", 0), tok, RENT_TOK, token_account(&bm, &bv, cfg.wbase), 0, false);
        let b = add(&mut specs, "LOOK.qvault", key_from("lookq", 0), tok, RENT_TOK, token_account(&qm, &qv, cfg.wquote), 0, false);
        toks.push(a);
        toks.push(b);
        add(&mut specs, "FAKE.market", key_from("fakemarket", 0), evil, mrent, vec![0; msize], msize, false);
        add(&mut specs, "FAKE.seat", key_from("fakeseat", 0), evil, RENT_TOK, vec![0; SEAT_LEN], SEAT_LEN, false);
        add(&mut specs, "PHX.seatlike", key_from("seatlike", 0), program, RENT_TOK, vec![0; SEAT_LEN], SEAT_LEN, false);
        // things that are not mints, each with the vault address a market on it would have
        for (k, (name, owner, data)) in [("MINT.blank", tok, vec![0; 82]), ("MINT.evil", evil, mint_account(cfg.base_dec)), ("MINT.short", tok, mint_account(cfg.base_dec)[..81].to_vec())].into_iter().enumerate() {
            let key = key_from("notmint", k as u64);
            add(&mut specs, name, key, owner, 1461600, data, 0, false);
            add(&mut specs, &format!("{}.vault", name), vault(&mk, &key), sys, 0, vec![], 165, false);
        }
        add(&mut specs, "EMPTY", key_from("empty", 0), sys, 0, vec![], 512, false);
    }
    let tok_ix = toks.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let (layout, img) = build_image(&specs);
    (
        Uni {
            cfg: cfg.clone(),
            program,
            layout,
            persons,
            auth: if cfg.merged { 0 } else { t },
            succ: t + 1,
            fee: if cfg.merged { 1 } else { t + 2 },
            fee2: t + 3,
            rando: t + 4,
            ids,
            names,
            tok: toks,
            tok_ix,
            market_len: msize,
        },
        img,
    )
}

// ---------------------------------------------------------------------------------------------
// abstraction

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn opp(self) -> Side {
        if self == Side::Bid { Side::Ask } else { Side::Bid }
    }
    pub fn b(self) -> u8 {
        if self == Side::Bid { 0 } else { 1 }
    }
}
pub use Side::{Ask, Bid};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Order {
    pub px: u64,
    /// raw identifier as stored / returned
    pub id: u64,
    pub who: Pid,
    pub lots: u64,
    pub lvs: u64,
    pub lvts: u64,
}
impl Order {
    pub fn ord(&self) -> u64 {
        if self.id >> 63 == 1 { !self.id } else { self.id }
    }
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        (self.lvs != 0 && self.lvs < slot) || (self.lvts != 0 && self.lvts < ts)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Tr {
    pub ql: u64,
    pub qf: u64,
    pub bl: u64,
    pub bf: u64,
}

/// What the implementation's own read interface says about a market account.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RawMarket {
    pub oseq: u64,
    pub collected: u64,
    pub uncollected: u64,
    pub fee_bps: u64,
    pub tick: u64,
    pub blpu: u64,
    pub bids: Vec<(u64, u64, Pubkey, u64, u64, u64)>,
    pub asks: Vec<(u64, u64, Pubkey, u64, u64, u64)>,
    pub traders: Vec<(Pubkey, [u64; 4])>,
    pub problems: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Abs {
    pub live: bool,
    pub status: u64,
    pub mseq: u64,
    pub auth: Pid,
    pub succ: Pid,
    pub feerec: Pid,
    pub oseq: u64,
    pub collected: u64,
    pub uncollected: u64,
    pub bids: Vec<Order>,
    pub asks: Vec<Order>,
    pub traders: Vec<(Pid, Tr)>,
    pub tok: Vec<u64>,
    pub seats: Vec<Option<u64>>,
    pub lam: Vec<u64>,
    pub slot: u64,
    pub ts: i64,
    pub problems: Vec<String>,
}

impl Abs {
    pub fn book(&self, s: Side) -> &Vec<Order> {
        if s == Bid { &self.bids } else { &self.asks }
    }
    pub fn book_mut(&mut self, s: Side) -> &mut Vec<Order> {
        if s == Bid { &mut self.bids } else { &mut self.asks }
    }
    pub fn tr(&self, p: Pid) -> Option<&Tr> {
        self.traders.iter().find(|t| t.0 == p).map(|t| &t.1)
    }
    pub fn trm(&mut self, p: Pid) -> Option<&mut Tr> {
        self.traders.iter_mut().find(|t| t.0 == p).map(|t| &mut t.1)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LadderOut {
    pub bids: Vec<(u64, u64)>,
    pub asks: Vec<(u64, u64)>,
}

/// Everything the harness needs from the implementation.
#[derive(Clone, Copy)]
pub struct Target {
    pub program: fn() -> Pubkey,
    pub log_auth: fn() -> Pubkey,
    pub process: ProcessFn,
    pub read: fn(&[u8]) -> Option<RawMarket>,
    pub size: SizeFn,
    pub ladder: fn(&[u8], u64, Option<u64>, Option<u64>) -> Option<LadderOut>,
    /// cross-checks the secondary read accessors against the primary listing
    pub views: fn(&[u8]) -> Vec<String>,
    /// instructions built by the published builders: (accounts, data)
    pub builder: fn(&Act, &Uni, &BuildKeys) -> Option<Vec<BuiltIx>>,
    pub header_views: fn(&[u8]) -> Vec<(String, Vec<u8>)>,
}
pub struct BuildKeys {
    pub market: Pubkey,
    pub bmint: Pubkey,
    pub qmint: Pubkey,
}
pub struct BuiltIx {
    pub program: Pubkey,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}

pub fn rd64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

/// Offsets inside the market header (the on-chain layout clients parse).
pub mod off {
    pub const DISC: usize = 0;
    pub const STATUS: usize = 8;
    pub const SIZES: usize = 16;
    pub const BASE: usize = 40;
    pub const BASE_LOT: usize = 112;
    pub const QUOTE: usize = 120;
    pub const QUOTE_LOT: usize = 192;
    pub const TICK: usize = 200;
    pub const AUTH: usize = 208;
    pub const FEE: usize = 240;
    pub const MSEQ: usize = 272;
    pub const SUCC: usize = 280;
    pub const RAW: usize = 312;
}

pub fn abstraction(t: &Target, u: &Uni, img: &Image, slot: u64, ts: i64) -> Abs {
    abstraction_of(t, u, img, slot, ts, S_MARKET)
}

pub fn abstraction_of(t: &Target, u: &Uni, img: &Image, slot: u64, ts: i64, market: Slot) -> Abs {
    let l = &u.layout;
    let mut a = Abs {
        live: false,
        status: 0,
        mseq: 0,
        auth: NONE,
        succ: NONE,
        feerec: NONE,
        oseq: 0,
        collected: 0,
        uncollected: 0,
        bids: vec![],
        asks: vec![],
        traders: vec![],
        tok: vec![0; u.tok.len()],
        seats: vec![None; u.persons.len()],
        lam: (0..l.offs.len()).map(|s| img.lamports(l, s)).collect(),
        slot,
        ts,
        problems: vec![],
    };
    for (i, s) in u.tok.iter().enumerate() {
        let d = img.data(l, *s);
        if d.len() == 165 {
            a.tok[i] = rd64(d, 64);
        }
    }
    for (i, p) in u.persons.iter().enumerate() {
        let d = img.data(l, p.seat);
        if d.len() == SEAT_LEN {
            a.seats[i] = Some(rd64(d, 72));
            if rd64(d, 0) != SEAT_DISC || &d[8..40] != u.key(S_MARKET).as_ref() || &d[40..72] != u.wallet_key(i as Pid).as_ref() || *img.owner(l, p.seat) != u.program {
                a.problems.push(format!("seat of person {} malformed", i));
            }
        }
    }
    let d = img.data(l, market);
    if *img.owner(l, market) != u.program || d.len() < HEADER || rd64(d, 0) == 0 {
        return a;
    }
    a.live = true;
    a.status = rd64(d, off::STATUS);
    a.mseq = rd64(d, off::MSEQ);
    let pk = |o: usize| u.id_of(&Pubkey::new(&d[o..o + 32]));
    a.auth = pk(off::AUTH);
    a.succ = pk(off::SUCC);
    a.feerec = pk(off::FEE);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.read)(d))) {
        Ok(Some(r)) => {
            a.oseq = r.oseq;
            a.collected = r.collected;
            a.uncollected = r.uncollected;
            let cv = |v: &Vec<(u64, u64, Pubkey, u64, u64, u64)>| {
                v.iter().map(|o| Order { px: o.0, id: o.1, who: u.id_of(&o.2), lots: o.3, lvs: o.4, lvts: o.5 }).collect()
            };
            a.bids = cv(&r.bids);
            a.asks = cv(&r.asks);
            a.traders = r
                .traders
                .iter()
                .map(|(k, v)| (u.id_of(k), Tr { ql: v[0], qf: v[1], bl: v[2], bf: v[3] }))
                .collect();
            a.traders.sort_by_key(|t| t.0);
            a.problems.extend(r.problems);
            let c = &u.cfg;
            if r.fee_bps != c.fee_bps as u64 || r.tick != c.tick || r.blpu != c.nblu {
                a.problems.push(format!("market parameters changed: fee {} tick {} blpu {}", r.fee_bps, r.tick, r.blpu));
            }
        }
        _ => a.problems.push("market account cannot be read".into()),
    }
    a
}

// ---------------------------------------------------------------------------------------------
// actions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Abort,
    CancelProvide,
    DecrementTake,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Tif {
    pub lvs: Option<u64>,
    pub lvts: Option<u64>,
}
pub const GTC: Tif = Tif { lvs: None, lvts: None };

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pk {
    PostOnly { side: Side, px: u64, lots: u64, cid: u128, reject: bool, free: bool, tif: Tif, silent: bool },
    Limit { side: Side, px: u64, lots: u64, st: St, ml: Option<u64>, cid: u128, free: bool, tif: Tif, silent: bool },
    Ioc { side: Side, px: Option<u64>, lots: u64, quote: u64, minb: u64, minq: u64, st: St, ml: Option<u64>, cid: u128, free: bool, tif: Tif },
}

/// The published packet constructors.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Maker {
    PostDefault,
    PostDefaultCid,
    PostAdjustable,
    Post,
    LimitDefault,
    LimitDefaultCid,
    Limit,
    FokSell,
    FokBuy,
    IocSell,
    IocBuy,
    IocLots,
    BuySlippage,
    SellSlippage,
    Ioc,
}
impl Pk {
    /// The constructors that can say what this packet says.
    pub fn makers(&self) -> Vec<Maker> {
        let mut v = vec![];
        match *self {
            Pk::PostOnly { cid, reject, free, tif, silent, .. } => {
                if tif == GTC && !silent {
                    v.push(Maker::Post);
                    if !free && reject {
                        v.push(Maker::PostDefaultCid);
                        if cid == 0 {
                            v.push(Maker::PostDefault);
                        }
                    }
                    if !free && !reject {
                        v.push(Maker::PostAdjustable);
                    }
                }
            }
            Pk::Limit { st, ml, cid, free, tif, silent, .. } => {
                if tif == GTC && !silent {
                    v.push(Maker::Limit);
                    if st == St::CancelProvide && ml.is_none() && !free {
                        v.push(Maker::LimitDefaultCid);
                        if cid == 0 {
                            v.push(Maker::LimitDefault);
                        }
                    }
                }
            }
            Pk::Ioc { side, px, lots, quote, minb, minq, st, ml, cid, free, tif } => {
                v.push(Maker::Ioc);
                if tif == GTC && px.is_some() && minq == 0 {
                    if quote == 0 && minb == lots {
                        v.push(if side == Bid { Maker::FokBuy } else { Maker::FokSell });
                    }
                    if quote == 0 && minb == 0 {
                        v.push(Maker::IocLots);
                        if side == Ask {
                            v.push(Maker::IocSell);
                        }
                    }
                    if lots == 0 && minb == 0 && side == Bid {
                        v.push(Maker::IocBuy);
                    }
                }
                if tif == GTC && px.is_none() && st == St::CancelProvide && ml.is_none() && cid == 0 && !free {
                    if side == Bid && lots == 0 && minq == 0 {
                        v.push(Maker::BuySlippage);
                    }
                    if side == Ask && quote == 0 && minb == 0 {
                        v.push(Maker::SellSlippage);
                    }
                }
            }
        }
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Swap,
    SwapFF,
    Place,
    PlaceFF,
}
impl Mode {
    pub fn tag(self) -> u8 {
        match self {
            Mode::Swap => 0,
            Mode::SwapFF => 1,
            Mode::Place => 2,
            Mode::PlaceFF => 3,
        }
    }
    pub fn ff(self) -> bool {
        matches!(self, Mode::SwapFF | Mode::PlaceFF)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cond {
    pub px: u64,
    pub lots: u64,
    pub tif: Tif,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MultiP {
    pub bids: Vec<Cond>,
    pub asks: Vec<Cond>,
    pub cid: Option<u128>,
    /// 0 fail+amend, 1 fail+fail, 2 skip+amend, 3 skip+fail
    pub beh: u8,
}

/// The batch constructors that can say what this batch says: 0 all of it, 1 rejecting or amending, 2 defaults.
pub fn multi_makers(m: &MultiP) -> Vec<u8> {
    let mut v = vec![0];
    if m.beh < 2 {
        v.push(1);
    }
    if m.beh == 1 && m.cid.is_none() {
        v.push(2);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct UpTo {
    pub side: Side,
    pub tick: Option<u64>,
    pub search: Option<u32>,
    pub cancel: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct InitP {
    pub bids: u64,
    pub asks: u64,
    pub seats: u64,
    pub nqlu: u64,
    pub tick: u64,
    pub nblu: u64,
    pub fee: u16,
    pub raw: Option<u32>,
    /// Who is to collect the fees; nobody in particular means the usual person.
    pub coll: Option<Pid>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Order(Mode, Pk),
    Multi(MultiP, bool),
    Reduce { side: Side, px: u64, id: u64, size: u64, ff: bool },
    CancelAll { ff: bool },
    CancelUpTo { p: UpTo, ff: bool },
    CancelIds { v: Vec<(Side, u64, u64)>, ff: bool },
    Withdraw { q: Option<u64>, b: Option<u64> },
    Deposit { q: u64, b: u64 },
    RequestSeat,
    RequestSeatAuth { trader: Pid },
    ChangeSeat { trader: Pid, status: u8 },
    Evict { trader: Pid },
    ForceCancel { trader: Pid, p: UpTo },
    Init(InitP),
    Claim,
    Name { succ: Pid },
    Status { to: u8, receiver: Option<Pid> },
    Collect { dest: Pid },
    FeeRecipient { new: Pid, prev: Option<Pid> },
    Log,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// replace the account at this position by another one (flags kept)
    Subst(usize, Slot),
    DropSign(usize),
    DropWrite(usize),
    Truncate(usize),
    /// append an account at the end
    Extra(Slot),
    /// cut the instruction data to this many bytes (tag included)
    Cut(usize),
    Append(Vec<u8>),
    /// replace the byte at this position
    Byte(usize, u8),
    /// swap the two accounts
    Swap(usize, usize),
    /// use the k-th instruction the published builder makes for this action
    Built(usize),
}

/// What is expected of an instruction that was altered by faults.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Exp {
    /// exactly what the specification says about the unaltered instruction
    Spec,
    /// rejected
    Err,
    /// rejected, or else exactly what the specification says about the unaltered instruction
    SpecOrErr,
}

/// Counters that only ever grow: next order sequence number, next market sequence number, quote lots of fees collected so far.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Counter {
    Orders,
    Events,
    Collected,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Clock { slot: u64, ts: i64 },
    Ix { who: Pid, op: Op, faults: Vec<Fault>, exp: Exp },
    /// harness-level edit of a counter in the market account, used to reach far-away states
    Poke(Counter, u64),
    /// fund a not yet existing account with lamports (anyone can do that on chain)
    Fund { slot: Slot, lam: u64 },
    /// a fresh, empty account of the right size at the address of a market that is gone
    Recreate,
}

pub fn ix(who: Pid, op: Op) -> Act {
    Act::Ix { who, op, faults: vec![], exp: Exp::Spec }
}
pub fn faulty(who: Pid, op: Op, faults: Vec<Fault>, exp: Exp) -> Act {
    Act::Ix { who, op, faults, exp }
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u128(&mut self, v: u128) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.u8(v as u8)
    }
    pub fn o64(&mut self, v: Option<u64>) -> &mut Self {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u64(x),
        }
    }
    pub fn o32(&mut self, v: Option<u32>) -> &mut Self {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u32(x),
        }
    }
}

pub fn enc_packet(w: &mut W, p: &Pk) {
    match *p {
        Pk::PostOnly { side, px, lots, cid, reject, free, tif, silent } => {
            w.u8(0).u8(side.b()).u64(px).u64(lots).u128(cid).b(reject).b(free).o64(tif.lvs).o64(tif.lvts).b(silent);
        }
        Pk::Limit { side, px, lots, st, ml, cid, free, tif, silent } => {
            w.u8(1).u8(side.b()).u64(px).u64(lots).u8(st as u8).o64(ml).u128(cid).b(free).o64(tif.lvs).o64(tif.lvts).b(silent);
        }
        Pk::Ioc { side, px, lots, quote, minb, minq, st, ml, cid, free, tif } => {
            w.u8(2).u8(side.b()).o64(px).u64(lots).u64(quote).u64(minb).u64(minq).u8(st as u8).o64(ml).u128(cid).b(free).o64(tif.lvs).o64(tif.lvts);
        }
    }
}

pub fn enc_op(u: &Uni, op: &Op) -> Vec<u8> {
    let mut w = W(vec![]);
    match op {
        Op::Order(m, p) => {
            w.u8(m.tag());
            enc_packet(&mut w, p);
        }
        Op::Multi(m, ff) => {
            w.u8(if *ff { 17 } else { 16 });
            for v in [&m.bids, &m.asks] {
                w.u32(v.len() as u32);
                for c in v {
                    w.u64(c.px).u64(c.lots).o64(c.tif.lvs).o64(c.tif.lvts);
                }
            }
            match m.cid {
                None => {
                    w.u8(0);
                }
                Some(c) => {
                    w.u8(1).u128(c);
                }
            }
            w.u8(m.beh);
        }
        Op::Reduce { side, px, id, size, ff } => {
            w.u8(if *ff { 5 } else { 4 }).u8(side.b()).u64(*px).u64(*id).u64(*size);
        }
        Op::CancelAll { ff } => {
            w.u8(if *ff { 7 } else { 6 });
        }
        Op::CancelUpTo { p, ff } => {
            w.u8(if *ff { 9 } else { 8 }).u8(p.side.b()).o64(p.tick).o32(p.search).o32(p.cancel);
        }
        Op::CancelIds { v, ff } => {
            w.u8(if *ff { 11 } else { 10 }).u32(v.len() as u32);
            for (s, px, id) in v {
                w.u8(s.b()).u64(*px).u64(*id);
            }
        }
        Op::Withdraw { q, b } => {
            w.u8(12).o64(*q).o64(*b);
        }
        Op::Deposit { q, b } => {
            w.u8(13).u64(*q).u64(*b);
        }
        Op::RequestSeat => {
            w.u8(14);
        }
        Op::Log => {
            w.u8(15);
        }
        Op::Init(p) => {
            w.u8(100).u64(p.bids).u64(p.asks).u64(p.seats).u64(p.nqlu).u64(p.tick).u64(p.nblu).u16(p.fee);
            w.0.extend_from_slice(u.wallet_key(p.coll.unwrap_or(u.fee)).as_ref());
            w.o32(p.raw);
        }
        Op::Claim => {
            w.u8(101);
        }
        Op::Name { succ } => {
            w.u8(102);
            w.0.extend_from_slice(u.wallet_key(*succ).as_ref());
        }
        Op::Status { to, .. } => {
            w.u8(103).u8(*to);
        }
        Op::ChangeSeat { status, .. } => {
            w.u8(104).u8(*status);
        }
        Op::RequestSeatAuth { .. } => {
            w.u8(105);
        }
        Op::Evict { .. } => {
            w.u8(106);
        }
        Op::ForceCancel { p, .. } => {
            w.u8(107).u8(p.side.b()).o64(p.tick).o32(p.search).o32(p.cancel);
        }
        Op::Collect { .. } => {
            w.u8(108);
        }
        Op::FeeRecipient { .. } => {
            w.u8(109);
        }
    }
    w.0
}

fn m(slot: Slot, s: bool, w: bool) -> Meta {
    Meta { slot, s, w }
}

pub fn build_op(u: &Uni, who: Pid, op: &Op) -> Ix {
    let p = &u.persons[who as usize];
    let payer = matches!(op, Op::RequestSeat | Op::Init(_));
    let mut v = vec![m(S_PROG, false, false), m(S_LOG, false, false), m(S_MARKET, false, true), m(p.wallet, true, payer)];
    let vault = |v: &mut Vec<Meta>, t: &Person| {
        v.push(m(t.base, false, true));
        v.push(m(t.quote, false, true));
        v.push(m(S_BVAULT, false, true));
        v.push(m(S_QVAULT, false, true));
        v.push(m(S_TOKEN, false, false));
    };
    match op {
        Op::Order(Mode::Swap, _) => vault(&mut v, p),
        Op::Order(Mode::SwapFF, _) | Op::Order(Mode::PlaceFF, _) => v.push(m(p.seat, false, false)),
        Op::Order(Mode::Place, _) => {
            v.push(m(p.seat, false, false));
            vault(&mut v, p)
        }
        Op::Multi(_, ff) => {
            v.push(m(p.seat, false, false));
            if !*ff {
                vault(&mut v, p)
            }
        }
        Op::Reduce { ff, .. } | Op::CancelAll { ff } | Op::CancelUpTo { ff, .. } | Op::CancelIds { ff, .. } => {
            if !*ff {
                vault(&mut v, p)
            }
        }
        Op::Withdraw { .. } => vault(&mut v, p),
        Op::Deposit { .. } => {
            v.push(m(p.seat, false, false));
            vault(&mut v, p)
        }
        Op::RequestSeat => {
            v.push(m(p.seat, false, true));
            v.push(m(S_SYS, false, false));
        }
        Op::RequestSeatAuth { trader } => {
            let t = &u.persons[*trader as usize];
            v.push(m(p.wallet, true, true));
            v.push(m(t.wallet, false, false));
            v.push(m(t.seat, false, true));
            v.push(m(S_SYS, false, false));
        }
        Op::ChangeSeat { trader, .. } => v.push(m(u.persons[*trader as usize].seat, false, true)),
        Op::Evict { trader } | Op::ForceCancel { trader, .. } => {
            let t = u.persons[*trader as usize].clone();
            v.push(m(t.wallet, false, false));
            v.push(m(t.seat, false, false));
            vault(&mut v, &t)
        }
        Op::Init(_) => {
            v.push(m(S_BMINT, false, false));
            v.push(m(S_QMINT, false, false));
            v.push(m(S_BVAULT, false, true));
            v.push(m(S_QVAULT, false, true));
            v.push(m(S_SYS, false, false));
            v.push(m(S_TOKEN, false, false));
        }
        Op::Claim | Op::Name { .. } => {}
        Op::Status { receiver, .. } => {
            if let Some(r) = receiver {
                v.push(m(u.persons[*r as usize].wallet, false, true));
            } else {
                v[3].w = true;
            }
        }
        Op::Collect { dest } => {
            v.push(m(u.quote_slot(*dest), false, true));
            v.push(m(S_QVAULT, false, true));
            v.push(m(S_TOKEN, false, false));
        }
        Op::FeeRecipient { new, prev } => {
            v.push(m(if *new == VAULT { S_QVAULT } else { u.persons[*new as usize].wallet }, false, false));
            if let Some(x) = prev {
                v.push(m(u.persons[*x as usize].wallet, true, false));
            }
        }
        Op::Log => {
            v = vec![m(p.wallet, true, false)];
        }
    }
    Ix { metas: v, data: enc_op(u, op) }
}

pub fn apply_faults(ixn: &mut Ix, faults: &[Fault]) {
    for f in faults {
        match f {
            Fault::Subst(i, s) => {
                if *i < ixn.metas.len() {
                    ixn.metas[*i].slot = *s
                }
            }
            Fault::DropSign(i) => {
                let sl = ixn.metas[*i].slot;
                for x in ixn.metas.iter_mut().filter(|x| x.slot == sl) {
                    x.s = false
                }
            }
            Fault::DropWrite(i) => {
                let sl = ixn.metas[*i].slot;
                for x in ixn.metas.iter_mut().filter(|x| x.slot == sl) {
                    x.w = false
                }
            }
            Fault::Truncate(n) => ixn.metas.truncate(*n),
            Fault::Extra(s) => ixn.metas.push(m(*s, false, false)),
            Fault::Cut(n) => ixn.data.truncate(*n),
            Fault::Append(v) => ixn.data.extend_from_slice(v),
            Fault::Byte(i, b) => ixn.data[*i] = *b,
            Fault::Built(_) => {}
            Fault::Swap(i, j) => {
                let t = ixn.metas[*i].slot;
                ixn.metas[*i].slot = ixn.metas[*j].slot;
                ixn.metas[*j].slot = t;
            }
        }
    }
}
