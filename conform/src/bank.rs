//! The real bank (agave 3.0), with the repository's program and the consumer programs as builtins whose parameters
//! are serialized and read back by the loader's own code, and the delegation program as the published SBF binary.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction, InstructionError};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program_runtime::invoke_context::InvokeContext;
use solana_program_runtime::loaded_programs::ProgramCacheEntry;
use solana_program_runtime::serialization::{deserialize_parameters, serialize_parameters};
use solana_program_test::{EbpfError, EbpfVm, IndexOfAccount};
use solana_runtime::bank::Bank;
use solana_runtime::genesis_utils::create_genesis_config_with_leader_ex;
use solana_runtime::runtime_config::RuntimeConfig;
use solana_runtime_transaction::runtime_transaction::RuntimeTransaction;
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::message::{Message, SimpleAddressLoader, VersionedMessage};
use solana_sdk::message::v0::LoadedAddresses;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{MessageHash, SanitizedTransaction, TransactionError, VersionedTransaction};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use svm::rt::{Acct, Behavior, Call, Prog, World, FORWARD};

thread_local! {
    static IC: RefCell<Option<usize>> = const { RefCell::new(None) };
    static PROGS: RefCell<Arc<BTreeMap<Pubkey, Prog>>> = RefCell::new(Arc::new(BTreeMap::new()));
    pub static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    pub static MAGIC: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    /// the first error met inside a CPI: the real syscall aborts the transaction with it
    static FATAL: RefCell<Option<InstructionError>> = const { RefCell::new(None) };
}

fn ic<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = IC.with(|c| c.borrow().expect("no invoke context"));
    unsafe { std::mem::transmute::<usize, &mut InvokeContext>(p) }
}

type BoxErr = Box<dyn std::error::Error>;
fn run_builtin(cx: &mut InvokeContext) -> Result<u64, BoxErr> {
    let saved = IC.with(|c| c.borrow_mut().replace(cx as *mut _ as usize));
    let r = run_inner(cx);
    IC.with(|c| *c.borrow_mut() = saved);
    r
}
fn run_inner(cx: &mut InvokeContext) -> Result<u64, BoxErr> {
    cx.consume_checked(1)?;
    let ix = cx.transaction_context.get_current_instruction_context()?;
    let (mut buf, _regions, lens) = serialize_parameters(&ix, false, false, true)?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (pid, accounts, data) = unsafe { solana_program::entrypoint::deserialize(&mut buf.as_slice_mut()[0] as *mut u8) };
        let p = PROGS.with(|p| p.borrow().get(pid).cloned());
        match p {
            Some(Prog::Vrf) => ephemeral_vrf_program::process_instruction(pid, &accounts, data),
            Some(Prog::Consumer(b)) => consumer(pid, &b, &accounts, data),
            Some(Prog::Magic) => {
                MAGIC.with(|c| c.borrow_mut().push(this_call(pid, &accounts, data)));
                Ok(())
            }
            Some(Prog::Inert) => Ok(()),
            // this world does not have the program
            _ => Err(ProgramError::IncorrectProgramId),
        }
    }));
    if let Some(f) = FATAL.with(|f| f.borrow().clone()) {
        return Err(Box::new(f));
    }
    match r {
        Err(_) => return Err(Box::new(InstructionError::ProgramFailedToComplete)),
        Ok(Err(e)) => return Err(Box::new(InstructionError::from(u64::from(e)))),
        Ok(Ok(())) => {}
    }
    let ix = cx.transaction_context.get_current_instruction_context()?;
    deserialize_parameters(&ix, false, false, buf.as_slice(), &lens)?;
    Ok(0)
}
fn entry() -> solana_program_runtime::invoke_context::BuiltinFunctionWithContext {
    |vm: *mut EbpfVm<InvokeContext<'static>>, _, _, _, _, _| {
        let vm = unsafe { &mut *((vm as *mut u64).offset(-(solana_program_test::get_runtime_environment_key() as isize)) as *mut EbpfVm<InvokeContext>) };
        vm.program_result = run_builtin(vm.context_object_pointer).map_err(EbpfError::SyscallError).into();
    }
}

fn this_call(p: &Pubkey, a: &[AccountInfo], data: &[u8]) -> Call {
    Call {
        program: *p,
        accounts: a.iter().map(|x| (*x.key, x.is_signer, x.is_writable)).collect(),
        data: data.to_vec(),
        via: vec![],
        lamports: a.iter().map(|x| x.lamports()).collect(),
    }
}

/// the consumer programs of the mini-SVM, written against the on-chain interface
fn consumer(p: &Pubkey, b: &Behavior, acc: &[AccountInfo], data: &[u8]) -> ProgramResult {
    use solana_program::program::invoke_signed_unchecked;
    if data.len() >= 44 && data[..8] == FORWARD {
        let pid = Pubkey::new_from_array(data[8..40].try_into().unwrap());
        let n = u32::from_le_bytes(data[40..44].try_into().unwrap()) as usize;
        let mut o = 44;
        let mut accounts = vec![];
        for _ in 0..n {
            let k = Pubkey::new_from_array(data[o..o + 32].try_into().unwrap());
            accounts.push(AccountMeta { pubkey: k, is_signer: data[o + 32] != 0, is_writable: data[o + 33] != 0 });
            o += 34;
        }
        let bump = Pubkey::find_program_address(&[b"identity"], p).1;
        return invoke_signed_unchecked(&Instruction { program_id: pid, accounts, data: data[o..].to_vec() }, acc, &[&[b"identity", &[bump]]]);
    }
    CALLS.with(|c| c.borrow_mut().push(this_call(p, acc, data)));
    let have = |k: &Pubkey| acc.iter().any(|a| a.key == k);
    match b {
        Behavior::Record => Ok(()),
        Behavior::Fail => Err(ProgramError::Custom(77)),
        Behavior::Abort => panic!("consumer aborted"),
        Behavior::Scribble => {
            for a in acc {
                if a.owner == p && a.is_writable && !a.data_is_empty() {
                    a.data.borrow_mut().fill(0x5a);
                }
            }
            Ok(())
        }
        Behavior::Steal => {
            for a in acc {
                if a.is_writable && a.owner != p && a.lamports() > 0 {
                    **a.lamports.borrow_mut() -= 1;
                }
            }
            Ok(())
        }
        Behavior::Reenter(ix) => {
            if ix.accounts.iter().all(|m| have(&m.pubkey)) && have(&ix.program_id) {
                invoke_signed_unchecked(ix, acc, &[])
            } else {
                Ok(())
            }
        }
        Behavior::Relay { target, data } => {
            if have(target) {
                let ix = Instruction { program_id: *target, accounts: vec![AccountMeta::new_readonly(*acc[0].key, true)], data: data.clone() };
                invoke_signed_unchecked(&ix, acc, &[])
            } else {
                Ok(())
            }
        }
    }
}

struct Stubs;
impl Stubs {
    fn invoke(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), InstructionError> {
        let cx = ic();
        let caller = *cx.transaction_context.get_current_instruction_context()?.get_program_key()?;
        let mut signers = vec![];
        for s in seeds {
            signers.push(Pubkey::create_program_address(s, &caller).map_err(|_| InstructionError::InvalidSeeds)?);
        }
        cx.prepare_next_instruction(ix, &signers)?;
        let mut writable: Vec<(IndexOfAccount, usize)> = vec![];
        {
            let tc = &cx.transaction_context;
            let cur = tc.get_current_instruction_context()?;
            let next = tc.get_next_instruction_context()?;
            let mut seen = BTreeSet::new();
            for ia in next.instruction_accounts() {
                if !seen.insert(ia.index_in_transaction) {
                    continue;
                }
                let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
                let at = cur.get_index_of_account_in_instruction(ia.index_in_transaction)?;
                let mut b = cur.try_borrow_instruction_account(at)?;
                #[allow(deprecated)]
                if b.is_executable() {
                    continue; // not translated by the syscall
                }
                let n = infos.iter().position(|i| i.key == key).ok_or(InstructionError::MissingAccount)?;
                let info = &infos[n];
                if b.get_lamports() != info.lamports() {
                    b.set_lamports(info.lamports())?;
                }
                let d = info.data.borrow();
                match b.can_data_be_resized(d.len()) {
                    Ok(()) => b.set_data_from_slice(&d)?,
                    Err(e) if *b.get_data() != **d => return Err(e),
                    _ => {}
                }
                if b.get_owner() != info.owner {
                    b.set_owner(info.owner.as_ref())?;
                }
                if ia.is_writable() {
                    writable.push((ia.index_in_transaction, n));
                }
            }
        }
        let mut units = 0;
        cx.process_instruction(&mut units, &mut solana_svm_timings::ExecuteTimings::default())?;
        let tc = &cx.transaction_context;
        let cur = tc.get_current_instruction_context()?;
        for (i, n) in writable {
            let at = cur.get_index_of_account_in_instruction(i)?;
            let b = cur.try_borrow_instruction_account(at)?;
            let info = &infos[n];
            **info.lamports.borrow_mut() = b.get_lamports();
            if info.owner != b.get_owner() {
                info.assign(b.get_owner());
            }
            if info.data_len() != b.get_data().len() {
                info.resize(b.get_data().len()).map_err(|_| InstructionError::InvalidRealloc)?;
            }
            info.data.borrow_mut().copy_from_slice(b.get_data());
        }
        Ok(())
    }
}
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        self.invoke(ix, infos, seeds).map_err(|e| {
            FATAL.with(|f| {
                let mut f = f.borrow_mut();
                if f.is_none() {
                    *f = Some(e)
                }
            });
            ProgramError::Custom(0xdead)
        })
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = ic().get_sysvar_cache().get_clock().expect("clock");
        unsafe { *(p as *mut solana_program::clock::Clock) = (*c).clone() };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        let c = ic().get_sysvar_cache().get_rent().expect("rent");
        unsafe { *(p as *mut Rent) = (*c).clone() };
        0
    }
    fn sol_get_sysvar(&self, id: *const u8, var: *mut u8, off: u64, len: u64) -> u64 {
        let id = Pubkey::new_from_array(unsafe { *(id as *const [u8; 32]) });
        let cache = ic().get_sysvar_cache();
        let bytes = if id == solana_sdk_ids::sysvar::clock::id() {
            bincode::serialize(&*cache.get_clock().expect("clock")).unwrap()
        } else if id == solana_sdk_ids::sysvar::rent::id() {
            bincode::serialize(&*cache.get_rent().expect("rent")).unwrap()
        } else {
            return 1;
        };
        let (off, len) = (off as usize, len as usize);
        if off + len > bytes.len() {
            return 1;
        }
        unsafe { std::ptr::copy_nonoverlapping(bytes[off..].as_ptr(), var, len) };
        0
    }
}

pub struct Real {
    bank: Arc<Bank>,
    _forks: Arc<std::sync::RwLock<solana_runtime::bank_forks::BankForks>>,
    builtins: BTreeSet<Pubkey>,
    stored: BTreeMap<Pubkey, Arc<Acct>>,
    clock: (u64, i64),
    pub fee_payer: Pubkey,
    pub dlp: bool,
}

pub type Post = BTreeMap<Pubkey, Acct>;

impl Real {
    pub fn new() -> Real {
        stubs();
        let (a, b, c, d) = (Pubkey::new_unique(), Pubkey::new_unique(), Pubkey::new_unique(), Pubkey::new_unique());
        let cfg = create_genesis_config_with_leader_ex(
            1_000_000_000_000_000,
            &a,
            &b,
            &c,
            &d,
            1_000_000_000_000,
            42,
            Default::default(),
            Rent::default(),
            solana_cluster_type::ClusterType::Development,
            vec![],
        );
        let bank = Bank::new_with_paths(
            &cfg,
            Arc::new(RuntimeConfig::default()),
            vec![],
            None,
            None,
            false,
            None,
            None,
            None,
            Arc::default(),
            None,
            None,
        );
        let bank = Arc::new(bank);
        bank.fill_bank_with_ticks_for_tests();
        let bank = Bank::new_from_parent(bank.clone(), bank.collector_id(), bank.slot() + 1);
        let forks = solana_runtime::bank_forks::BankForks::new_rw_arc(bank);
        let bank = forks.read().unwrap().working_bank();
        let mut r = Real { bank, _forks: forks, builtins: BTreeSet::new(), stored: BTreeMap::new(), clock: (0, 0), fee_payer: svm::world::k("conform-fee-payer"), dlp: false };
        r.put(r.fee_payer, &Acct::system(1_000_000_000_000));
        r
    }
    pub fn put(&self, k: Pubkey, a: &Acct) {
        let x = Account { lamports: a.lamports, data: a.data.clone(), owner: a.owner, executable: a.executable, rent_epoch: u64::MAX };
        self.bank.store_account(&k, &AccountSharedData::from(x));
    }
    pub fn get(&self, k: &Pubkey) -> Option<Acct> {
        let a = self.bank.get_account(k)?;
        Some(Acct { lamports: a.lamports(), owner: *a.owner(), executable: a.executable(), data: a.data().to_vec() })
    }
    /// the delegation program, as published
    pub fn add_dlp(&mut self, elf: Vec<u8>) {
        let owner = solana_sdk_ids::bpf_loader::id();
        self.put(svm::dlp::ID, &Acct { lamports: Rent::default().minimum_balance(elf.len()), owner, executable: true, data: elf });
        self.dlp = true;
    }
    fn load(&mut self, w: &World) {
        for (k, p) in w.programs.iter() {
            if matches!(p, Prog::System | Prog::Dlp) {
                continue;
            }
            if self.builtins.insert(*k) {
                self.bank.add_builtin(*k, "builtin", ProgramCacheEntry::new_builtin(0, 7, entry()));
            }
        }
        PROGS.with(|p| *p.borrow_mut() = w.programs.clone());
        // a program that this world does not have must not exist: its account goes, the cache entry stays
        for k in &self.builtins {
            let here = self.bank.get_account(k).is_some();
            if w.programs.contains_key(k) && !here {
                self.put(*k, &Acct { lamports: 1, owner: solana_sdk_ids::native_loader::ID, executable: true, data: b"builtin".to_vec() });
            } else if here && !w.programs.contains_key(k) {
                self.bank.store_account(k, &AccountSharedData::default());
            }
        }
        let gone: Vec<Pubkey> = self.stored.keys().filter(|k| !w.accts.contains_key(k)).copied().collect();
        for k in gone {
            self.stored.remove(&k);
            self.bank.store_account(&k, &AccountSharedData::default());
        }
        for (k, a) in &w.accts {
            if w.programs.contains_key(k) || *k == svm::rt::sys_id() || *k == svm::dlp::ID || self.stored.get(k).is_some_and(|b| b == a) {
                continue;
            }
            self.put(*k, a);
            self.stored.insert(*k, a.clone());
        }
        if self.clock != (w.slot, w.time) {
            self.clock = (w.slot, w.time);
            self.bank.set_sysvar_for_tests(&solana_program::clock::Clock {
                slot: w.slot,
                unix_timestamp: w.time,
                ..Default::default()
            });
            // the slot-hashes account is part of the world; refreshing the cache does not touch it
        }
    }
    /// Run one transaction on the given world; nothing is committed.  Returns the accounts after it.
    pub fn exec(&mut self, w: &World, ixs: &[Instruction], signers: &[Pubkey]) -> Result<Post, (Option<InstructionError>, String)> {
        self.load(w);
        CALLS.with(|c| c.borrow_mut().clear());
        MAGIC.with(|c| c.borrow_mut().clear());
        FATAL.with(|c| *c.borrow_mut() = None);
        let mut ixs = ixs.to_vec();
        for ix in ixs.iter_mut() {
            for m in ix.accounts.iter_mut() {
                m.is_signer |= signers.contains(&m.pubkey);
            }
        }
        let msg = Message::new_with_blockhash(&ixs, Some(&self.fee_payer), &self.bank.last_blockhash());
        let tx = VersionedTransaction {
            signatures: vec![Signature::default(); msg.header.num_required_signatures as usize],
            message: VersionedMessage::Legacy(msg),
        };
        let tx = RuntimeTransaction::<SanitizedTransaction>::try_create(
            tx,
            MessageHash::Compute,
            None,
            SimpleAddressLoader::Enabled(LoadedAddresses::default()),
            self.bank.get_reserved_account_keys(),
        )
        .map_err(|e| (None, format!("{e:?}")))?;
        let r = self.bank.simulate_transaction_unchecked(&tx, false);
        match r.result {
            Ok(()) => Ok(r
                .post_simulation_accounts
                .into_iter()
                .map(|(k, a)| (k, Acct { lamports: a.lamports(), owner: *a.owner(), executable: a.executable(), data: a.data().to_vec() }))
                .collect()),
            Err(TransactionError::InstructionError(_, e)) => Err((Some(e.clone()), format!("{e:?}"))),
            Err(e) => Err((None, format!("{e:?} {:?}", r.logs))),
        }
    }
}

/// is a program of the bank running?
pub fn inside() -> bool {
    IC.with(|c| c.borrow().is_some())
}

pub fn stubs() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
}
