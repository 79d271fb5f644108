//! A hand-built single-threaded Solana runtime: accounts live in one flat arena laid out the way the
//! BPF loader serialises them (so `realloc` / `assign` work), and `invoke_signed` is dispatched to the
//! real SPL token processor, a system-program implementation, or back into the program under test.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{ProgramResult, SUCCESS},
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
};
use std::{cell::RefCell, collections::HashMap, rc::Rc};

pub const HDR: usize = 88;
const O_ODL: usize = 4;
const O_KEY: usize = 8;
const O_OWNER: usize = 40;
const O_LAM: usize = 72;
const O_LEN: usize = 80;

pub type Slot = usize;
pub type ProcessFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone)]
pub struct AcctSpec {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub cap: usize,
    pub executable: bool,
}

#[derive(Clone, Default)]
pub struct Layout {
    pub offs: Vec<usize>,
    pub caps: Vec<usize>,
    pub exec: Vec<bool>,
    pub keys: Vec<Pubkey>,
    pub total: usize,
}

/// An image of all accounts.
#[derive(Clone)]
pub struct Image {
    pub buf: Vec<u64>,
}

impl Image {
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.buf.as_ptr() as *const u8, self.buf.len() * 8) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut u8, self.buf.len() * 8) }
    }
    pub fn owner(&self, l: &Layout, s: Slot) -> &Pubkey {
        let o = l.offs[s] + O_OWNER;
        unsafe { &*(self.bytes()[o..].as_ptr() as *const Pubkey) }
    }
    pub fn lamports(&self, l: &Layout, s: Slot) -> u64 {
        self.buf[(l.offs[s] + O_LAM) / 8]
    }
    pub fn set_lamports(&mut self, l: &Layout, s: Slot, v: u64) {
        self.buf[(l.offs[s] + O_LAM) / 8] = v
    }
    pub fn set_owner(&mut self, l: &Layout, s: Slot, k: &Pubkey) {
        let o = l.offs[s] + O_OWNER;
        self.bytes_mut()[o..o + 32].copy_from_slice(k.as_ref());
    }
    pub fn len(&self, l: &Layout, s: Slot) -> usize {
        self.buf[(l.offs[s] + O_LEN) / 8] as usize
    }
    pub fn set_len(&mut self, l: &Layout, s: Slot, n: usize) {
        assert!(n <= l.caps[s]);
        self.buf[(l.offs[s] + O_LEN) / 8] = n as u64
    }
    pub fn data(&self, l: &Layout, s: Slot) -> &[u8] {
        let o = l.offs[s] + HDR;
        &self.bytes()[o..o + self.len(l, s)]
    }
    pub fn data_mut(&mut self, l: &Layout, s: Slot) -> &mut [u8] {
        let o = l.offs[s] + HDR;
        let n = self.len(l, s);
        &mut self.bytes_mut()[o..o + n]
    }
}

pub fn build_image(specs: &[AcctSpec]) -> (Layout, Image) {
    let mut l = Layout::default();
    let mut off = 0;
    for a in specs {
        l.offs.push(off);
        let cap = (a.cap.max(a.data.len()) + 7) / 8 * 8;
        l.caps.push(cap);
        l.exec.push(a.executable);
        l.keys.push(a.key);
        off += HDR + cap;
    }
    l.total = off;
    let mut img = Image { buf: vec![0; (off + 63) / 64 * 8] };
    for (i, a) in specs.iter().enumerate() {
        let o = l.offs[i];
        let b = img.bytes_mut();
        b[o + O_KEY..o + O_KEY + 32].copy_from_slice(a.key.as_ref());
        b[o + O_OWNER..o + O_OWNER + 32].copy_from_slice(a.owner.as_ref());
        b[o + O_LAM..o + O_LAM + 8].copy_from_slice(&a.lamports.to_le_bytes());
        b[o + O_LEN..o + O_LEN + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        b[o + HDR..o + HDR + a.data.len()].copy_from_slice(&a.data);
    }
    (l, img)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Meta {
    pub slot: Slot,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct ExecOut {
    pub ok: bool,
    pub err: String,
    /// data of every Log instruction the program invoked on itself and that succeeded
    pub logs: Vec<Vec<u8>>,
    pub return_data: Option<Vec<u8>>,
}

struct Frame {
    program: Pubkey,
    privs: Vec<(Pubkey, bool, bool)>,
}

struct Ctx {
    clock: Clock,
    logs: Vec<Vec<u8>>,
    return_data: Option<(Pubkey, Vec<u8>)>,
    frames: Vec<Frame>,
    program: Pubkey,
    process: ProcessFn,
    pda: HashMap<Vec<u8>, Option<Pubkey>>,
    abort: Option<String>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

struct Stubs;

fn bincode_clock(c: &Clock) -> Clock {
    c.clone()
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Clock) = bincode_clock(&ctx().clock) };
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        SUCCESS
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let c = ctx();
        c.return_data = Some((c.frames.last().unwrap().program, data.to_vec()));
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        ctx().return_data.clone()
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().frames.len() as u64
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = invoke(ix, infos, seeds);
        if let Err(e) = &r {
            // a failing CPI aborts the whole transaction on Solana
            let c = ctx();
            if c.abort.is_none() {
                c.abort = Some(format!("cpi to {} failed: {:?}", ix.program_id, e));
            }
        }
        r
    }
}

const TOK_ERR: ProgramError = ProgramError::Custom(0x5001);

fn pda(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    let mut k = Vec::with_capacity(128);
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    k.extend_from_slice(program.as_ref());
    *ctx()
        .pda
        .entry(k)
        .or_insert_with(|| Pubkey::create_program_address(seeds, program).ok())
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let c = ctx();
    if c.abort.is_some() {
        return Err(TOK_ERR);
    }
    if c.frames.len() >= 4 {
        return Err(ProgramError::Custom(0x5002));
    }
    if ix.accounts.len() * 34 + ix.data.len() > 1280 {
        return Err(ProgramError::Custom(0x5003));
    }
    let mut signers = Vec::new();
    {
        let f = c.frames.last().unwrap();
        let p = f.program;
        for s in seeds {
            signers.push(pda(s, &p).ok_or(ProgramError::InvalidSeeds)?);
        }
        if !f.privs.iter().any(|x| x.0 == ix.program_id) {
            return Err(ProgramError::Custom(0x5004));
        }
        for m in &ix.accounts {
            let pr = f.privs.iter().find(|x| x.0 == m.pubkey).ok_or(ProgramError::Custom(0x5005))?;
            if m.is_writable && !pr.2 {
                return Err(ProgramError::Custom(0x5006));
            }
            if m.is_signer && !pr.1 && !signers.contains(&m.pubkey) {
                return Err(ProgramError::Custom(0x5007));
            }
        }
    }
    let mut callee: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let mut i = i.clone();
        i.is_signer = m.is_signer;
        i.is_writable = m.is_writable;
        callee.push(i);
    }
    // duplicates get the union of the privileges
    for k in 0..ix.accounts.len() {
        for j in 0..ix.accounts.len() {
            if j != k && ix.accounts[j].pubkey == ix.accounts[k].pubkey {
                callee[k].is_signer |= ix.accounts[j].is_signer;
                callee[k].is_writable |= ix.accounts[j].is_writable;
            }
        }
    }
    c.return_data = None;
    if ix.program_id == spl_token::id() {
        for i in callee.iter() {
            if i.is_writable && i.executable {
                return Err(ProgramError::Custom(0x5008));
            }
        }
        c.frames.push(Frame { program: ix.program_id, privs: vec![] });
        let r = spl_token::processor::Processor::process(&ix.program_id, &callee, &ix.data);
        ctx().frames.pop();
        // read-only accounts must not be written: the token program only writes accounts it was
        // given as writable; emulate the runtime check for the two balances a transfer touches
        if r.is_ok() && callee.len() >= 3 && ix.data.first() == Some(&3) {
            let amt = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
            if amt > 0 && callee[0].key != callee[1].key && (!callee[0].is_writable || !callee[1].is_writable) {
                return Err(ProgramError::Custom(0x5009));
            }
        }
        r
    } else if solana_program::system_program::check_id(&ix.program_id) {
        system(&callee, &ix.data)
    } else if ix.program_id == c.program {
        let mut privs = Vec::with_capacity(callee.len());
        for i in &callee {
            privs.push((*i.key, i.is_signer, i.is_writable));
        }
        c.frames.push(Frame { program: ix.program_id, privs });
        let is_log = ix.data.first() == Some(&15);
        let p = c.process;
        let pid = c.program;
        let r = p(&pid, &callee, &ix.data);
        let c = ctx();
        c.frames.pop();
        if r.is_ok() && is_log {
            c.logs.push(ix.data.clone());
        }
        r
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

unsafe fn set_data_len(i: &AccountInfo, n: usize) {
    let p = i.data.borrow_mut().as_mut_ptr();
    *(p.offset(-8) as *mut u64) = n as u64;
    *i.data.borrow_mut() = std::slice::from_raw_parts_mut(p, n);
}
#[allow(invalid_reference_casting)]
unsafe fn set_owner(i: &AccountInfo, k: &Pubkey) {
    std::ptr::write_volatile(i.owner as *const Pubkey as *mut Pubkey, *k);
}

fn system(a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(d.get(0..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap());
    let u = |o: usize| -> Result<u64, ProgramError> {
        Ok(u64::from_le_bytes(
            d.get(o..o + 8).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
        ))
    };
    let key = |o: usize| -> Result<Pubkey, ProgramError> {
        Ok(Pubkey::new(d.get(o..o + 32).ok_or(ProgramError::InvalidInstructionData)?))
    };
    let sys = solana_program::system_program::id();
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer || !from.is_writable || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != sys {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() -= n;
        **to.lamports.borrow_mut() += n;
        Ok(())
    };
    let allocate = |x: &AccountInfo, space: u64| -> ProgramResult {
        if !x.is_signer || !x.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !x.data_is_empty() || *x.owner != sys || space > 10 * 1024 * 1024 {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        if space > 512 {
            return Err(ProgramError::Custom(0x5010)); // spare capacity of our arena
        }
        unsafe { set_data_len(x, space as usize) };
        for b in x.data.borrow_mut().iter_mut() {
            *b = 0
        }
        Ok(())
    };
    let assign = |x: &AccountInfo, k: &Pubkey| -> ProgramResult {
        if x.owner == k {
            return Ok(());
        }
        if !x.is_signer || !x.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if *x.owner != sys {
            return Err(ProgramError::IllegalOwner);
        }
        unsafe { set_owner(x, k) };
        Ok(())
    };
    match tag {
        0 => {
            if a.len() < 2 || a[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            allocate(&a[1], u(12)?)?;
            assign(&a[1], &key(20)?)?;
            transfer(&a[0], &a[1], u(4)?)
        }
        1 => {
            if a.is_empty() {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            assign(&a[0], &key(4)?)
        }
        2 => {
            if a.len() < 2 {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            transfer(&a[0], &a[1], u(4)?)
        }
        8 => {
            if a.is_empty() {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            allocate(&a[0], u(4)?)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub fn install(program: Pubkey, process: ProcessFn) {
    unsafe {
        CTX = Box::into_raw(Box::new(Ctx {
            clock: Clock::default(),
            logs: vec![],
            return_data: None,
            frames: vec![],
            program,
            process,
            pda: HashMap::new(),
            abort: None,
        }));
    }
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn set_clock(slot: u64, ts: i64) {
    let c = ctx();
    c.clock = Clock { slot, unix_timestamp: ts, ..Clock::default() };
}

/// Runs one top-level instruction of the program under test on `work` in place. On failure the caller
/// must discard `work` (the runtime rolls a failed transaction back).
pub fn exec(l: &Layout, work: &mut Image, cur: &Image, ix: &Ix) -> ExecOut {
    let c = ctx();
    c.logs.clear();
    c.return_data = None;
    c.abort = None;
    c.frames.clear();
    let base = work.buf.as_mut_ptr() as *mut u8;
    // privileges are per transaction: union over duplicates
    let n = ix.metas.len();
    let mut privs: Vec<(Pubkey, bool, bool)> = Vec::with_capacity(n);
    let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(n);
    let mut lam_before: u128 = 0;
    let mut pre: Vec<(Slot, bool, u64, usize)> = Vec::with_capacity(n);
    for (i, m) in ix.metas.iter().enumerate() {
        let first = ix.metas[..i].iter().position(|x| x.slot == m.slot);
        let (mut s, mut w) = (false, false);
        for x in &ix.metas {
            if x.slot == m.slot {
                s |= x.s;
                w |= x.w;
            }
        }
        if l.exec[m.slot] {
            w = false;
        }
        let key = l.keys[m.slot];
        privs.push((key, s, w));
        if let Some(j) = first {
            let x = infos[j].clone();
            infos.push(x);
            continue;
        }
        unsafe {
            let p = base.add(l.offs[m.slot]);
            let len = *(p.add(O_LEN) as *const u64) as usize;
            *(p.add(O_ODL) as *mut u32) = len as u32;
            let lam = &mut *(p.add(O_LAM) as *mut u64);
            lam_before += *lam as u128;
            pre.push((m.slot, w, *lam, len));
            infos.push(AccountInfo {
                key: &*(p.add(O_KEY) as *const Pubkey),
                is_signer: s,
                is_writable: w,
                lamports: Rc::new(RefCell::new(lam)),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(HDR), len))),
                owner: &*(p.add(O_OWNER) as *const Pubkey),
                executable: l.exec[m.slot],
                rent_epoch: 0,
            });
        }
    }
    c.frames.push(Frame { program: c.program, privs });
    let (p, pid) = (c.process, c.program);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(&pid, &infos, &ix.data)));
    drop(infos);
    let c = ctx();
    let mut out = ExecOut::default();
    match r {
        Err(e) => {
            out.err = format!(
                "panic: {}",
                e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            );
            return out;
        }
        Ok(Err(e)) => {
            out.err = format!("{:?}", e);
            return out;
        }
        Ok(Ok(())) => {}
    }
    if let Some(a) = c.abort.take() {
        out.err = a;
        return out;
    }
    let mut lam_after: u128 = 0;
    for (s, w, l0, len0) in &pre {
        let lam = work.lamports(l, *s);
        lam_after += lam as u128;
        let len = work.len(l, *s);
        if !*w
            && (lam != *l0
                || len != *len0
                || work.owner(l, *s) != cur.owner(l, *s)
                || work.data(l, *s) != cur.data(l, *s))
        {
            out.err = "runtime: a read-only account changed".into();
            return out;
        }
        // only an account's owner may change its data or take lamports from it
        let own = *cur.owner(l, *s);
        if own != pid && own != spl_token::id() && !solana_program::system_program::check_id(&own) {
            if len != *len0 || *work.owner(l, *s) != own || lam < *l0 || work.data(l, *s) != cur.data(l, *s) {
                out.err = "runtime: an account of another program was changed".into();
                return out;
            }
        }
        if lam > 0 && (lam != *l0 || len != *len0) && len > 0 && lam < Rent::default().minimum_balance(len) {
            out.err = "runtime: account left below rent exemption".into();
            return out;
        }
    }
    if lam_after != lam_before {
        out.err = "runtime: lamports not conserved".into();
        return out;
    }
    out.ok = true;
    out.logs = std::mem::take(&mut c.logs);
    out.return_data = c.return_data.take().map(|x| x.1);
    out
}
