// Demonstration harness: drives phoenix::process_instruction in memory, on accounts this program creates.
#![allow(dead_code, unused, static_mut_refs)]
mod bind;
mod dsl;
mod svm;
mod world;
use dsl::*;
use svm::*;
use world::*;

pub struct D {
    pub t: Target,
    pub u: Uni,
    pub cur: Image,
    pub work: Image,
    pub slot: u64,
    pub ts: i64,
    pub a: Abs,
    pub logs: Vec<Vec<u8>>,
    pub ret: Option<Vec<u8>>,
    pub err: String,
}
impl D {
    pub fn new(cfg: Cfg) -> D {
        let t = bind::target();
        install((t.program)(), t.process);
        let (u, img) = build_world(&cfg, (t.program)(), (t.log_auth)(), t.size);
        let a = abstraction(&t, &u, &img, 10, 1000);
        D { t, u, work: img.clone(), cur: img, slot: 10, ts: 1000, a, logs: vec![], ret: None, err: String::new() }
    }
    /// a market with every trader seated, status active
    pub fn open(cfg: Cfg) -> D {
        let q = open(&cfg);
        let mut d = D::new(cfg);
        for x in q {
            d.must(x);
        }
        d
    }
    pub fn ixn(&self, a: &Act) -> Ix {
        match a {
            Act::Ix { who, op, faults, .. } => {
                let mut x = build_op(&self.u, *who, op);
                apply_faults(&mut x, faults);
                x
            }
            _ => panic!(),
        }
    }
    pub fn run(&mut self, a: Act) -> bool {
        match &a {
            Act::Clock { slot, ts } => {
                self.slot = *slot;
                self.ts = *ts;
                true
            }
            Act::Fund { slot, lam } => {
                let n = self.cur.lamports(&self.u.layout, *slot) + lam;
                self.cur.set_lamports(&self.u.layout, *slot, n);
                true
            }
            Act::Poke(what, n) => {
                let at = match what {
                    Counter::Orders => HEADER + 32 * 8 + 16,
                    Counter::Collected => HEADER + 32 * 8 + 32,
                    Counter::Events => off::MSEQ,
                };
                self.cur.data_mut(&self.u.layout, S_MARKET)[at..at + 8].copy_from_slice(&n.to_le_bytes());
                self.sync();
                true
            }
            _ => {
                let x = self.ixn(&a);
                self.exec(&x)
            }
        }
    }
    pub fn exec(&mut self, x: &Ix) -> bool {
        self.work.buf.copy_from_slice(&self.cur.buf);
        set_clock(self.slot, self.ts);
        let out = exec(&self.u.layout, &mut self.work, &self.cur, x);
        self.err = out.err.clone();
        if out.ok {
            std::mem::swap(&mut self.cur, &mut self.work);
            self.logs = out.logs;
            self.ret = out.return_data;
            self.sync();
        }
        out.ok
    }
    fn sync(&mut self) {
        self.a = abstraction(&self.t, &self.u, &self.cur, self.slot, self.ts);
    }
    pub fn must(&mut self, a: Act) {
        let s = format!("{:?}", a);
        if !self.run(a) {
            println!("DEMO: rejected but should succeed: {} ({})", s, self.err);
            std::process::exit(1);
        }
    }
    pub fn fail(&mut self, a: Act) {
        let s = format!("{:?}", a);
        if self.run(a) {
            println!("DEMO: accepted but should fail: {}", s);
            std::process::exit(1);
        }
    }
    pub fn need(&self, ok: bool, what: &str) {
        if !ok {
            println!("DEMO: {}\n{:?}", what, Abs { lam: vec![], ..self.a.clone() });
            std::process::exit(1);
        }
    }
    pub fn tr(&self, p: Pid) -> Tr {
        *self.a.tr(p).expect("trader")
    }
    /// (wallet base atoms, wallet quote atoms)
    pub fn wallet(&self, p: Pid) -> (u64, u64) {
        let f = |s: usize| self.a.tok[self.u.tok_ix[&s]];
        (f(self.u.persons[p as usize].base), f(self.u.persons[p as usize].quote))
    }
    pub fn vaults(&self) -> (u64, u64) {
        (self.a.tok[0], self.a.tok[1])
    }
    pub fn oid(&self, side: Side, k: usize) -> (Side, u64, u64) {
        let o = &self.a.book(side)[k];
        (side, o.px, o.id)
    }
    /// vaults back all claims
    pub fn solvent(&self) -> bool {
        let c = &self.u.cfg;
        let (mut q, mut b) = (self.a.uncollected as u128, 0u128);
        for (_, t) in &self.a.traders {
            q += t.ql as u128 + t.qf as u128;
            b += t.bl as u128 + t.bf as u128;
        }
        let (vb, vq) = self.vaults();
        vb as u128 == b * c.base_lot() as u128 && vq as u128 == q * c.quote_lot() as u128
    }
}
include!("scenario.rs");
