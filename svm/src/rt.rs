//! Mini-SVM: a small deterministic model of the Solana runtime that executes the repository's REAL
//! `process_instruction` on serialized account buffers, together with native models of the programs it talks to
//! (system, delegation, magic) and of callback/consumer programs.  The rules follow agave 3.0
//! (program-runtime / transaction-context / bpf_loader serialization and CPI); `/verif/conform` replays its traces
//! on solana-program-test's bank to validate this model.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const MAX_GROW: usize = 10_240;
pub const MAX_LEN: usize = 10 * 1024 * 1024;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}
impl Acct {
    pub fn system(lamports: u64) -> Self {
        Acct { lamports, owner: sys_id(), executable: false, data: vec![] }
    }
    fn is_default(&self) -> bool {
        self.lamports == 0
    }
}
pub fn sys_id() -> Pubkey {
    solana_system_interface::program::id()
}

/// How a consumer/callback program behaves when invoked.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Behavior {
    /// record the call
    Record,
    /// record, then fail
    Fail,
    /// record, then panic-like abort (modelled as failure)
    Abort,
    /// write a byte pattern into every writable account it owns
    Scribble,
    /// try to take lamports from any writable account it does not own
    Steal,
    /// re-enter the VRF program with the given instruction (accounts resolved by key)
    Reenter(Box<Instruction>),
    /// forward the identity signer to another program with attacker-chosen data
    Relay { target: Pubkey, data: Vec<u8> },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Prog {
    System,
    Vrf,
    Dlp,
    Magic,
    /// consumer program with behaviour
    Consumer(Behavior),
    /// inert executable
    Inert,
}

/// One invocation of a consumer program, as seen by the consumer.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Call {
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>, // key, signer, writable
    pub data: Vec<u8>,
    /// stack of programs that led here, outermost first
    pub via: Vec<Pubkey>,
    /// lamports of each account as the callee sees them
    pub lamports: Vec<u64>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Err {
    Program(u64, String),
    Runtime(&'static str),
    Panic(String),
}
impl Err {
    pub fn custom(&self) -> Option<u32> {
        match self {
            Err::Program(c, _) if *c <= u32::MAX as u64 && *c != 0 => Some(*c as u32),
            Err::Program(c, _) if *c == 1u64 << 32 => Some(0),
            _ => None,
        }
    }
}
pub type R<T> = Result<T, Err>;
fn rt<T>(s: &'static str) -> R<T> {
    Err(Err::Runtime(s))
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Arc<Acct>>,
    pub slot: u64,
    pub time: i64,
    pub slothash: [u8; 32],
    pub programs: Arc<BTreeMap<Pubkey, Prog>>,
    /// run as the ephemeral validator: no rent, delegated accounts appear as program-owned
    pub no_rent: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub calls: Vec<Call>,
    /// every instruction executed: (program, depth, data)
    pub trace: Vec<(Pubkey, usize, Vec<u8>)>,
    pub magic: Vec<Call>,
}

#[derive(Clone, Copy)]
struct IxAcc {
    i: usize,
    s: bool,
    w: bool,
}
struct Frame {
    program: Pubkey,
    accs: Vec<IxAcc>,
    sum: u128,
}
struct Ctx {
    keys: Vec<Pubkey>,
    accts: Vec<Acct>,
    frames: Vec<Frame>,
    programs: Arc<BTreeMap<Pubkey, Prog>>,
    slot: u64,
    time: i64,
    log: Log,
    /// first runtime error met inside a CPI; aborts the transaction whatever the caller does
    fatal: Option<Err>,
    grow: i64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl World {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k).map(|a| a.as_ref())
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn owner(&self, k: &Pubkey) -> Pubkey {
        self.get(k).map(|a| a.owner).unwrap_or_else(sys_id)
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, Arc::new(a));
    }
    pub fn set_prog(&mut self, k: Pubkey, p: Prog) {
        let mut m = (*self.programs).clone();
        m.insert(k, p);
        self.programs = Arc::new(m);
        // what the upgradeable loader keeps in a program account
        let mut data = vec![2, 0, 0, 0];
        data.extend(Pubkey::find_program_address(&[k.as_ref()], &solana_sdk_ids::bpf_loader_upgradeable::ID).0.as_ref());
        self.put(k, Acct { lamports: 1, owner: solana_sdk_ids::bpf_loader_upgradeable::id(), executable: true, data });
    }
    pub fn total(&self) -> u128 {
        self.accts.values().map(|a| a.lamports as u128).sum()
    }

    /// Execute one transaction atomically.  `signers` are the keys that signed it.  On failure the world is unchanged.
    pub fn exec(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> R<Log> {
        if !rec::ON.load(std::sync::atomic::Ordering::Relaxed) {
            return self.exec_tx(ixs, signers);
        }
        let pre = self.clone();
        let r = self.exec_tx(ixs, signers);
        rec::note(pre, ixs, signers, &r, self);
        r
    }
    fn exec_tx(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> R<Log> {
        // message-level account list
        let mut keys: Vec<Pubkey> = vec![];
        let mut writable: Vec<bool> = vec![];
        let mut add = |k: Pubkey, w: bool| {
            if let Some(p) = keys.iter().position(|x| *x == k) {
                writable[p] |= w;
            } else {
                keys.push(k);
                writable.push(w);
            }
        };
        for ix in ixs {
            for m in &ix.accounts {
                if m.is_signer && !signers.contains(&m.pubkey) {
                    return rt("SignatureFailure");
                }
                add(m.pubkey, m.is_writable);
            }
            add(ix.program_id, false);
        }
        let accts: Vec<Acct> = keys
            .iter()
            .map(|k| self.get(k).cloned().unwrap_or_else(|| Acct::system(0)))
            .collect();
        // reserved keys and the programs a message calls are never writable
        for (i, k) in keys.iter().enumerate() {
            if is_sysvar(k) || *k == sys_id() || ixs.iter().any(|x| x.program_id == *k) {
                writable[i] = false;
            }
        }
        let pre = accts.clone();
        let ctx = Ctx {
            keys: keys.clone(),
            accts,
            frames: vec![],
            programs: self.programs.clone(),
            slot: self.slot,
            time: self.time,
            log: Log::default(),
            fatal: None,
            grow: 0,
        };
        CTX.with(|c| *c.borrow_mut() = Some(ctx));
        let mut res: R<()> = Ok(());
        for ix in ixs {
            // signer/writable flags are message-level unions
            let accs: Vec<IxAcc> = ix
                .accounts
                .iter()
                .map(|m| {
                    let i = keys.iter().position(|x| *x == m.pubkey).unwrap();
                    IxAcc { i, s: signers.contains(&m.pubkey), w: writable[i] }
                })
                .collect();
            res = run(ix.program_id, accs, &ix.data);
            if res.is_err() {
                break;
            }
        }
        let ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        if let (Ok(()), Some(f)) = (&res, &ctx.fatal) {
            res = Err(f.clone());
        }
        res?;
        // rent state
        if !self.no_rent {
            let rent = Rent::default();
            for i in 0..keys.len() {
                if !writable[i] {
                    continue;
                }
                let (a, b) = (&pre[i], &ctx.accts[i]);
                if b.lamports == 0 || rent.is_exempt(b.lamports, b.data.len()) {
                    continue;
                }
                let was_paying = a.lamports > 0 && !rent.is_exempt(a.lamports, a.data.len());
                if was_paying && a.data.len() == b.data.len() && b.lamports <= a.lamports {
                    continue;
                }
                return rt("InsufficientFundsForRent");
            }
        }
        for (i, k) in keys.iter().enumerate() {
            if ctx.accts[i] == pre[i] {
                continue;
            }
            if ctx.accts[i].is_default() {
                self.accts.remove(k);
            } else {
                self.accts.insert(*k, Arc::new(ctx.accts[i].clone()));
            }
        }
        Ok(ctx.log)
    }
}

/// Records executed transactions, a bounded number per class, for the conformance replay on the real bank.
pub mod rec {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::Mutex;
    pub static ON: AtomicBool = AtomicBool::new(false);
    pub static PER_CLASS: AtomicUsize = AtomicUsize::new(6);
    pub struct Case {
        pub class: String,
        pub pre: World,
        pub ixs: Vec<Instruction>,
        pub signers: Vec<Pubkey>,
        pub out: R<Log>,
        pub post: World,
    }
    static CASES: Mutex<Vec<Case>> = Mutex::new(vec![]);
    static CLASSES: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    pub fn start(per_class: usize) {
        PER_CLASS.store(per_class, Ordering::Relaxed);
        ON.store(true, Ordering::Relaxed);
    }
    pub fn take() -> Vec<Case> {
        ON.store(false, Ordering::Relaxed);
        std::mem::take(&mut *CASES.lock().unwrap())
    }
    pub(super) fn note(pre: World, ixs: &[Instruction], signers: &[Pubkey], r: &R<Log>, post: &World) {
        let mut class = String::new();
        for ix in ixs {
            let tag: Vec<u8> = ix.data.iter().take(if ix.program_id == sys_id() { 1 } else { 8 }).copied().collect();
            let flags: String = ix.accounts.iter().map(|m| match (m.is_signer, m.is_writable) {
                (true, true) => 'B', (true, false) => 'S', (false, true) => 'W', _ => '-' }).collect();
            class += &format!("{tag:?}{} {flags};", ix.program_id);
        }
        match r {
            Ok(l) => {
                for (p, d, _) in &l.trace {
                    class += &format!(" {d}:{p}");
                }
            }
            Err(e) => class += &format!(" {}", format!("{e:?}").chars().take(60).collect::<String>()),
        }
        class += &format!(" rent={}", !pre.no_rent);
        let mut m = CLASSES.lock().unwrap();
        let n = m.entry(class.clone()).or_default();
        if *n >= PER_CLASS.load(Ordering::Relaxed) {
            return;
        }
        *n += 1;
        drop(m);
        CASES.lock().unwrap().push(Case {
            class,
            pre,
            ixs: ixs.to_vec(),
            signers: signers.to_vec(),
            out: r.clone(),
            post: post.clone(),
        });
    }
}

fn is_sysvar(k: &Pubkey) -> bool {
    *k == solana_sdk_ids::sysvar::slot_hashes::id()
        || *k == solana_sdk_ids::sysvar::clock::id()
        || *k == solana_sdk_ids::sysvar::rent::id()
        || *k == solana_sdk_ids::sysvar::stake_history::id()
        || *k == solana_sdk_ids::sysvar::instructions::id()
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no transaction context")))
}

fn frame_sum(c: &Ctx, f: &Frame) -> u128 {
    let mut seen = vec![];
    let mut s = 0u128;
    for a in &f.accs {
        if !seen.contains(&a.i) {
            seen.push(a.i);
            s += c.accts[a.i].lamports as u128;
        }
    }
    s
}

/// Push a frame, run the program, pop the frame.
fn run(program: Pubkey, accs: Vec<IxAcc>, data: &[u8]) -> R<()> {
    let prog = with(|c| -> R<Prog> {
        if c.frames.len() >= 5 {
            return rt("CallDepth");
        }
        if let Some(top) = c.frames.last() {
            if top.program != program && c.frames.iter().any(|f| f.program == program) {
                return rt("ReentrancyNotAllowed");
            }
            let s = frame_sum(c, top);
            if s != top.sum {
                return rt("UnbalancedInstruction");
            }
        }
        let Some(p) = c.programs.get(&program).cloned() else { return rt("UnsupportedProgramId") };
        let mut f = Frame { program, accs, sum: 0 };
        f.sum = frame_sum(c, &f);
        let d = c.frames.len();
        c.log.trace.push((program, d, data.to_vec()));
        c.frames.push(f);
        Ok(p)
    })?;
    let r = match prog {
        Prog::System => system(data),
        Prog::Vrf => vrf(&program, data),
        Prog::Dlp => crate::dlp::process(data),
        Prog::Magic => {
            let call = this_call(program, data);
            with(|c| c.log.magic.push(call));
            Ok(())
        }
        Prog::Inert => Ok(()),
        Prog::Consumer(b) => consumer(program, &b, data),
    };
    with(|c| {
        let f = c.frames.pop().unwrap();
        r?;
        let s = frame_sum(c, &f);
        if s != f.sum {
            return rt("UnbalancedInstruction");
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ checked account mutation (BorrowedAccount rules)
impl Ctx {
    fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    fn flags(&self, i: usize) -> (bool, bool) {
        let mut r = (false, false);
        for a in &self.top().accs {
            if a.i == i {
                r.0 |= a.s;
                r.1 |= a.w;
            }
        }
        r
    }
    fn set_lamports(&mut self, i: usize, v: u64) -> R<()> {
        if self.accts[i].lamports == v {
            return Ok(());
        }
        let p = self.top().program;
        if v < self.accts[i].lamports && self.accts[i].owner != p {
            return rt("ExternalAccountLamportSpend");
        }
        if !self.flags(i).1 {
            return rt("ReadonlyLamportChange");
        }
        self.accts[i].lamports = v;
        Ok(())
    }
    fn set_data(&mut self, i: usize, d: &[u8]) -> R<()> {
        if self.accts[i].data == d {
            return Ok(());
        }
        let p = self.top().program;
        if d.len() != self.accts[i].data.len() {
            if self.accts[i].owner != p {
                return rt("AccountDataSizeChanged");
            }
            if d.len() > MAX_LEN {
                return rt("InvalidRealloc");
            }
            self.grow += d.len() as i64 - self.accts[i].data.len() as i64;
        }
        if !self.flags(i).1 {
            return rt("ReadonlyDataModified");
        }
        if self.accts[i].owner != p {
            return rt("ExternalAccountDataModified");
        }
        self.accts[i].data = d.to_vec();
        Ok(())
    }
    fn set_owner(&mut self, i: usize, o: Pubkey) -> R<()> {
        if self.accts[i].owner == o {
            return Ok(());
        }
        if self.accts[i].owner != self.top().program || !self.flags(i).1 || self.accts[i].data.iter().any(|b| *b != 0) {
            return rt("ModifiedProgramId");
        }
        self.accts[i].owner = o;
        Ok(())
    }
    fn acc(&self, n: usize) -> R<IxAcc> {
        self.top().accs.get(n).copied().ok_or(Err::Runtime("NotEnoughAccountKeys"))
    }
}

// ------------------------------------------------------------------ native-program interface (used by the models)
pub mod native {
    use super::*;
    pub fn n_accounts() -> usize {
        with(|c| c.top().accs.len())
    }
    pub fn key(n: usize) -> R<Pubkey> {
        with(|c| Ok(c.keys[c.acc(n)?.i]))
    }
    pub fn flags(n: usize) -> R<(bool, bool)> {
        with(|c| {
            let a = c.acc(n)?;
            Ok(c.flags(a.i))
        })
    }
    pub fn get(n: usize) -> R<Acct> {
        with(|c| Ok(c.accts[c.acc(n)?.i].clone()))
    }
    pub fn set_lamports(n: usize, v: u64) -> R<()> {
        with(|c| {
            let i = c.acc(n)?.i;
            c.set_lamports(i, v)
        })
    }
    pub fn set_data(n: usize, d: &[u8]) -> R<()> {
        with(|c| {
            let i = c.acc(n)?.i;
            c.set_data(i, d)
        })
    }
    pub fn set_owner(n: usize, o: Pubkey) -> R<()> {
        with(|c| {
            let i = c.acc(n)?.i;
            c.set_owner(i, o)
        })
    }
    pub fn this_program() -> Pubkey {
        with(|c| c.top().program)
    }
    pub fn slot() -> u64 {
        with(|c| c.slot)
    }
    /// cross-program invocation by a native model
    pub fn cpi(ix: &Instruction, seeds: &[&[&[u8]]]) -> R<()> {
        let accs = cpi_prepare(ix, seeds)?;
        run(ix.program_id, accs, &ix.data)
    }
    pub fn rent() -> Rent {
        Rent::default()
    }
    pub fn fail<T>(s: &'static str) -> R<T> {
        Err(Err::Runtime(s))
    }
    pub fn require(c: bool, s: &'static str) -> R<()> {
        if c {
            Ok(())
        } else {
            fail(s)
        }
    }
    /// create (or take over a prefunded) PDA
    pub fn create_account(payer: Pubkey, target: Pubkey, lamports: u64, space: usize, owner: Pubkey, seeds: &[&[u8]]) -> R<()> {
        use solana_system_interface::instruction as si;
        let cur = with(|c| c.keys.iter().position(|k| *k == target).map(|i| c.accts[i].lamports)).unwrap_or(0);
        if cur == 0 {
            cpi(&si::create_account(&payer, &target, lamports, space as u64, &owner), &[seeds])
        } else {
            if lamports > cur {
                cpi(&si::transfer(&payer, &target, lamports - cur), &[])?;
            }
            cpi(&si::allocate(&target, space as u64), &[seeds])?;
            cpi(&si::assign(&target, &owner), &[seeds])
        }
    }
}

fn cpi_prepare(ix: &Instruction, seeds: &[&[&[u8]]]) -> R<Vec<IxAcc>> {
    with(|c| {
        let caller = c.top().program;
        let mut pda = vec![];
        for s in seeds {
            match Pubkey::create_program_address(s, &caller) {
                Ok(k) => pda.push(k),
                Err(_) => return rt("BadSeeds"),
            }
        }
        // merged flags per key
        let mut out = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let Some(i) = c.top().accs.iter().find(|a| c.keys[a.i] == m.pubkey).map(|a| a.i) else {
                return rt("MissingAccount");
            };
            let (mut s, mut w) = (false, false);
            for n in ix.accounts.iter().filter(|n| n.pubkey == m.pubkey) {
                s |= n.is_signer;
                w |= n.is_writable;
            }
            let (cs, cw) = c.flags(i);
            if w && !cw {
                return rt("PrivilegeEscalation");
            }
            if s && !(cs || pda.contains(&m.pubkey)) {
                return rt("PrivilegeEscalation");
            }
            out.push(IxAcc { i, s, w });
        }
        let Some(p) = c.top().accs.iter().find(|a| c.keys[a.i] == ix.program_id).map(|a| a.i) else {
            return rt("MissingAccount");
        };
        if !c.accts[p].executable {
            return rt("AccountNotExecutable");
        }
        Ok(out)
    })
}

// ------------------------------------------------------------------ the real program
struct Region {
    tx: usize,
    off: usize, // of the account header in the buffer
    orig_len: usize,
}

fn vrf(program: &Pubkey, data: &[u8]) -> R<()> {
    // serialize parameters (aligned loader layout)
    let (mut buf, regions) = with(|c| {
        let accs = &c.top().accs;
        let mut size = 8usize;
        for a in accs {
            size += 1 + 7 + 32 + 32 + 8 + 8 + c.accts[a.i].data.len() + MAX_GROW + 16 + 8;
        }
        size += 8 + data.len() + 32 + 64;
        let mut buf: Vec<u64> = vec![0u64; size / 8 + 1];
        let base = buf.as_mut_ptr() as *mut u8;
        let b = unsafe { std::slice::from_raw_parts_mut(base, buf.len() * 8) };
        let mut o = 0usize;
        b[o..o + 8].copy_from_slice(&(accs.len() as u64).to_le_bytes());
        o += 8;
        let mut regions: Vec<Region> = vec![];
        let mut first: Vec<usize> = vec![];
        for (n, a) in accs.iter().enumerate() {
            if let Some(p) = first.iter().position(|x| *x == a.i) {
                let pos = accs.iter().position(|x| x.i == first[p]).unwrap();
                b[o] = pos as u8;
                o += 8;
                continue;
            }
            let _ = n;
            first.push(a.i);
            let (s, w) = c.flags(a.i);
            let acct = &c.accts[a.i];
            b[o] = 0xff;
            b[o + 1] = s as u8;
            b[o + 2] = w as u8;
            b[o + 3] = acct.executable as u8;
            regions.push(Region { tx: a.i, off: o, orig_len: acct.data.len() });
            o += 8;
            b[o..o + 32].copy_from_slice(c.keys[a.i].as_ref());
            o += 32;
            b[o..o + 32].copy_from_slice(acct.owner.as_ref());
            o += 32;
            b[o..o + 8].copy_from_slice(&acct.lamports.to_le_bytes());
            o += 8;
            b[o..o + 8].copy_from_slice(&(acct.data.len() as u64).to_le_bytes());
            o += 8;
            b[o..o + acct.data.len()].copy_from_slice(&acct.data);
            o += acct.data.len() + MAX_GROW;
            o = (o + 7) & !7;
            o += 8; // rent epoch
        }
        b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
        o += 8;
        b[o..o + data.len()].copy_from_slice(data);
        o += data.len();
        b[o..o + 32].copy_from_slice(program.as_ref());
        (buf, regions)
    });
    let base = buf.as_mut_ptr() as *mut u8;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (pid, accounts, d) = unsafe { solana_program::entrypoint::deserialize(base) };
        ephemeral_vrf_program::process_instruction(pid, &accounts, d)
    }));
    // a failing CPI aborts with its own error, whatever the program does afterwards
    if let Some(f) = with(|c| c.fatal.clone()) {
        return Err(f);
    }
    match r {
        Err(_) => return Err(Err::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
        Ok(Err(e)) => return Err(Err::Program(u64::from(e.clone()), format!("{e:?}"))),
        Ok(Ok(())) => {}
    }
    with(|c| {
        if let Some(f) = &c.fatal {
            return Err(f.clone());
        }
        let b = unsafe { std::slice::from_raw_parts(base, buf.len() * 8) };
        for r in &regions {
            let o = r.off;
            let owner = Pubkey::new_from_array(b[o + 40..o + 72].try_into().unwrap());
            let lam = u64::from_le_bytes(b[o + 72..o + 80].try_into().unwrap());
            let len = u64::from_le_bytes(b[o + 80..o + 88].try_into().unwrap()) as usize;
            if len > r.orig_len + MAX_GROW || len > MAX_LEN {
                return rt("InvalidRealloc");
            }
            c.set_lamports(r.tx, lam)?;
            c.set_data(r.tx, &b[o + 88..o + 88 + len])?;
            c.set_owner(r.tx, owner)?;
        }
        Ok(())
    })
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        with(|c| unsafe {
            *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock {
                slot: c.slot,
                epoch_start_timestamp: 0,
                epoch: 0,
                leader_schedule_epoch: 0,
                unix_timestamp: c.time,
            };
        });
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_sysvar(&self, id: *const u8, var: *mut u8, off: u64, len: u64) -> u64 {
        let id = unsafe { *(id as *const [u8; 32]) };
        let id = Pubkey::new_from_array(id);
        let bytes: Vec<u8> = if id == solana_sdk_ids::sysvar::clock::id() {
            let (s, t) = with(|c| (c.slot, c.time));
            let mut v = s.to_le_bytes().to_vec();
            v.extend([0u8; 24]);
            v.extend(t.to_le_bytes());
            v
        } else if id == solana_sdk_ids::sysvar::rent::id() {
            bincode::serialize(&Rent::default()).unwrap()
        } else {
            return 1;
        };
        let (off, len) = (off as usize, len as usize);
        if off + len > bytes.len() {
            return 1;
        }
        unsafe { std::ptr::copy_nonoverlapping(bytes[off..].as_ptr(), var, len) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match invoke_from_vrf(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failing CPI aborts the whole transaction
                with(|c| {
                    if c.fatal.is_none() {
                        c.fatal = Some(e)
                    }
                });
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
}

fn invoke_from_vrf(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> R<()> {
    let accs = cpi_prepare(ix, seeds)?;
    // sync caller -> runtime for the accounts of the callee
    let mut done: Vec<usize> = vec![];
    with(|c| -> R<()> {
        for a in &accs {
            if done.contains(&a.i) {
                continue;
            }
            done.push(a.i);
            if c.accts[a.i].executable {
                continue;
            }
            let Some(info) = infos.iter().find(|x| *x.key == c.keys[a.i]) else { return rt("MissingAccount") };
            let lam = **info.lamports.borrow();
            let owner = *info.owner;
            let data = info.data.borrow().to_vec();
            let orig = unsafe { info.original_data_len() };
            if data.len() > orig + MAX_GROW {
                return rt("InvalidRealloc");
            }
            c.set_lamports(a.i, lam)?;
            c.set_data(a.i, &data)?;
            c.set_owner(a.i, owner)?;
        }
        Ok(())
    })?;
    let accs2 = accs.clone();
    run(ix.program_id, accs, &ix.data)?;
    // write back runtime -> caller
    with(|c| {
        for a in &accs2 {
            if !a.w || c.accts[a.i].executable {
                continue;
            }
            let Some(info) = infos.iter().find(|x| *x.key == c.keys[a.i]) else { continue };
            let post = &c.accts[a.i];
            **info.lamports.borrow_mut() = post.lamports;
            if *info.owner != post.owner {
                info.assign(&post.owner);
            }
            if info.data_len() != post.data.len() && info.resize(post.data.len()).is_err() {
                return rt("InvalidRealloc");
            }
            info.data.borrow_mut().copy_from_slice(&post.data);
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ system program model
fn system(data: &[u8]) -> R<()> {
    use native::*;
    use solana_system_interface::instruction::SystemInstruction as S;
    let ix: S = bincode::deserialize(data).map_err(|_| Err::Runtime("InvalidInstructionData"))?;
    let sys = sys_id();
    let transfer = |f: usize, t: usize, l: u64| -> R<()> {
        let (fs, _) = flags(f)?;
        require(fs, "MissingRequiredSignature")?;
        let a = get(f)?;
        require(a.data.is_empty(), "InvalidArgument")?;
        if l > a.lamports {
            return Err(Err::Program(1, "ResultWithNegativeLamports".into()));
        }
        set_lamports(f, a.lamports - l)?;
        let b = get(t)?;
        set_lamports(t, b.lamports.checked_add(l).ok_or(Err::Runtime("ArithmeticOverflow"))?)
    };
    let allocate = |n: usize, space: u64, signed: bool| -> R<()> {
        require(signed, "MissingRequiredSignature")?;
        let a = get(n)?;
        if !a.data.is_empty() || a.owner != sys {
            return Err(Err::Program(0, "AccountAlreadyInUse".into()));
        }
        require(space as usize <= MAX_LEN, "InvalidAccountDataLength")?;
        set_data(n, &vec![0; space as usize])
    };
    let assign = |n: usize, o: Pubkey, signed: bool| -> R<()> {
        if get(n)?.owner == o {
            return Ok(());
        }
        require(signed, "MissingRequiredSignature")?;
        set_owner(n, o)
    };
    match ix {
        S::CreateAccount { lamports, space, owner } => {
            let signed = flags(1)?.0;
            if get(1)?.lamports > 0 {
                return Err(Err::Program(0, "AccountAlreadyInUse".into()));
            }
            allocate(1, space, signed)?;
            assign(1, owner, signed)?;
            transfer(0, 1, lamports)
        }
        S::Transfer { lamports } => transfer(0, 1, lamports),
        S::Allocate { space } => allocate(0, space, flags(0)?.0),
        S::Assign { owner } => assign(0, owner, flags(0)?.0),
        _ => fail("InvalidInstructionData"),
    }
}

// ------------------------------------------------------------------ consumer programs
/// magic prefix: the consumer forwards an instruction on behalf of its user, signing with its own identity PDA
pub const FORWARD: [u8; 8] = *b"FORWARD!";

/// Wrap `ix` so that program `via` executes it by CPI, signing with its PDA `[b"identity"]`.
pub fn forward(via: Pubkey, ix: &Instruction) -> Instruction {
    let id = identity_of(&via);
    let mut accounts: Vec<AccountMeta> = ix
        .accounts
        .iter()
        .map(|m| AccountMeta { is_signer: m.is_signer && m.pubkey != id, ..m.clone() })
        .collect();
    accounts.push(AccountMeta::new_readonly(ix.program_id, false));
    let flags: Vec<(Pubkey, bool, bool)> = ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect();
    let mut data = FORWARD.to_vec();
    data.extend(ix.program_id.to_bytes());
    data.extend((flags.len() as u32).to_le_bytes());
    for (k, s, w) in flags {
        data.extend(k.to_bytes());
        data.push(s as u8);
        data.push(w as u8);
    }
    data.extend(&ix.data);
    Instruction { program_id: via, accounts, data }
}
pub fn identity_of(p: &Pubkey) -> Pubkey {
    identity_bump(p).0
}
pub fn identity_bump(p: &Pubkey) -> (Pubkey, u8) {
    thread_local!(static C: RefCell<BTreeMap<Pubkey,(Pubkey,u8)>> = const { RefCell::new(BTreeMap::new()) });
    C.with(|c| *c.borrow_mut().entry(*p).or_insert_with(|| Pubkey::find_program_address(&[b"identity"], p)))
}

fn this_call(program: Pubkey, data: &[u8]) -> Call {
    with(|c| Call {
        program,
        accounts: c.top().accs.iter().map(|a| (c.keys[a.i], c.flags(a.i).0, c.flags(a.i).1)).collect(),
        data: data.to_vec(),
        via: c.frames[..c.frames.len() - 1].iter().map(|f| f.program).collect(),
        lamports: c.top().accs.iter().map(|a| c.accts[a.i].lamports).collect(),
    })
}

fn consumer(program: Pubkey, b: &Behavior, data: &[u8]) -> R<()> {
    use native::*;
    if data.len() >= 44 && data[..8] == FORWARD {
        let pid = Pubkey::new_from_array(data[8..40].try_into().unwrap());
        let n = u32::from_le_bytes(data[40..44].try_into().unwrap()) as usize;
        let mut o = 44;
        let mut accounts = vec![];
        for _ in 0..n {
            let k = Pubkey::new_from_array(data[o..o + 32].try_into().unwrap());
            accounts.push(AccountMeta { pubkey: k, is_signer: data[o + 32] != 0, is_writable: data[o + 33] != 0 });
            o += 34;
        }
        let bump = identity_bump(&program).1;
        return cpi(&Instruction { program_id: pid, accounts, data: data[o..].to_vec() }, &[&[b"identity", &[bump]]]);
    }
    let call = this_call(program, data);
    with(|c| c.log.calls.push(call));
    match b {
        Behavior::Record => Ok(()),
        Behavior::Fail => Err(Err::Program(77, "consumer failed".into())),
        Behavior::Abort => Err(Err::Panic("consumer aborted".into())),
        Behavior::Scribble => {
            for n in 0..n_accounts() {
                let a = get(n)?;
                if a.owner == program && flags(n)?.1 && !a.data.is_empty() {
                    let d = vec![0x5a; a.data.len()];
                    set_data(n, &d)?;
                }
            }
            Ok(())
        }
        Behavior::Steal => {
            for n in 0..n_accounts() {
                let a = get(n)?;
                if flags(n)?.1 && a.owner != program && a.lamports > 0 {
                    set_lamports(n, a.lamports - 1)?;
                }
            }
            Ok(())
        }
        Behavior::Reenter(ix) => {
            let have: Vec<Pubkey> = (0..n_accounts()).map(|n| key(n).unwrap()).collect();
            if ix.accounts.iter().all(|m| have.contains(&m.pubkey)) && have.contains(&ix.program_id) {
                cpi(ix, &[])
            } else {
                Ok(())
            }
        }
        Behavior::Relay { target, data } => {
            let have: Vec<Pubkey> = (0..n_accounts()).map(|n| key(n).unwrap()).collect();
            if have.contains(target) {
                let ix = Instruction {
                    program_id: *target,
                    accounts: vec![AccountMeta::new_readonly(have[0], true)],
                    data: data.clone(),
                };
                cpi(&ix, &[])
            } else {
                Ok(())
            }
        }
    }
}

/// Install syscall stubs and a quiet panic hook (once per process).
pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let in_tx = CTX.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true));
        if in_tx || QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
        } else {
            default(i)
        }
    }));
}
/// remember the text of a panic that was silenced elsewhere
pub fn note_panic(i: &std::panic::PanicHookInfo<'_>) {
    LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
}
thread_local! { pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// run f, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
