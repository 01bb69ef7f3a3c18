//! The universe of accounts used by the scenarios, and builders of initial worlds.
use crate::dlp;
use crate::rt::*;
use ephemeral_vrf_api::prelude as api;
use sha2::{Digest, Sha256};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

pub const VRF: Pubkey = ephemeral_vrf_api::ID;
pub const SLOT_HASHES: Pubkey = solana_sdk_ids::sysvar::slot_hashes::ID;
pub const MAGIC: Pubkey = api::MAGIC_PROGRAM_ID;
pub const MAGIC_CTX: Pubkey = api::MAGIC_CONTEXT_ID;
pub const RICH: u64 = 1_000_000_000_000;

pub fn h32(s: &str) -> [u8; 32] {
    Sha256::digest(s.as_bytes()).into()
}
pub fn keypair(name: &str) -> Keypair {
    Keypair::new_from_array(h32(name))
}
/// a deterministic ordinary key
pub fn k(name: &str) -> Pubkey {
    keypair(name).pubkey().to_bytes().into()
}

pub struct OracleKeys {
    pub id: Pubkey,
    pub sk: curve25519_dalek::Scalar,
    pub pk: [u8; 32],
}
pub fn oracle(name: &str) -> &'static OracleKeys {
    static C: OnceLock<std::sync::Mutex<BTreeMap<String, &'static OracleKeys>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    let mut m = m.lock().unwrap();
    m.entry(name.to_string()).or_insert_with(|| {
        let kp = keypair(name);
        let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
        Box::leak(Box::new(OracleKeys { id: kp.pubkey().to_bytes().into(), sk, pk: pk.compress().to_bytes() }))
    })
}

pub fn admin() -> Pubkey {
    k("admin")
}
pub fn payer() -> Pubkey {
    k("payer")
}
pub fn mallory() -> Pubkey {
    k("mallory")
}
pub fn prog_x() -> Pubkey {
    k("program-x")
}
pub fn prog_y() -> Pubkey {
    k("program-y")
}
pub fn validator() -> Pubkey {
    k("validator")
}
pub fn scratch(n: u32) -> Pubkey {
    k(&format!("scratch{n}"))
}
pub fn program_data() -> Pubkey {
    Pubkey::find_program_address(&[VRF.as_ref()], &solana_sdk_ids::bpf_loader_upgradeable::ID).0
}
/// PDAs computed by the harness from the documented seeds (memoised); independent of the repository's helpers.
pub fn pda(seeds: &[&[u8]], prog: &Pubkey) -> Pubkey {
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<(Vec<Vec<u8>>,Pubkey),Pubkey>> = Default::default());
    C.with(|c| {
        *c.borrow_mut()
            .entry((seeds.iter().map(|s| s.to_vec()).collect(), *prog))
            .or_insert_with(|| Pubkey::find_program_address(seeds, prog).0)
    })
}
pub fn registry() -> Pubkey {
    pda(&[b"oracles"], &VRF)
}
pub fn record(id: &Pubkey) -> Pubkey {
    pda(&[b"oracle", id.as_ref()], &VRF)
}
pub fn queue(id: &Pubkey, idx: u8) -> Pubkey {
    pda(&[b"queue", id.as_ref(), &[idx]], &VRF)
}
pub fn vrf_identity() -> Pubkey {
    pda(&[b"identity"], &VRF)
}
pub fn rent(n: usize) -> u64 {
    (n as u64 + 128) * 6960
}

pub fn program_data_bytes(auth: Option<Pubkey>) -> Vec<u8> {
    use solana_loader_v3_interface::state::UpgradeableLoaderState as U;
    let mut v = bincode::serialize(&U::ProgramData { slot: 5, upgrade_authority_address: auth }).unwrap();
    v.resize(45 + 64, 0);
    v
}

pub fn slot_hashes_data(hash: &[u8; 32], slot: u64) -> Vec<u8> {
    let mut v = 2u64.to_le_bytes().to_vec();
    for (i, h) in [*hash, h32("older")].iter().enumerate() {
        v.extend((slot.saturating_sub(1 + i as u64)).to_le_bytes());
        v.extend(h);
    }
    v
}

impl World {
    pub fn set_slot(&mut self, slot: u64, time: i64, hash: [u8; 32]) {
        self.slot = slot;
        self.time = time;
        self.slothash = hash;
        self.put(
            SLOT_HASHES,
            Acct { lamports: 1, owner: solana_sdk_ids::sysvar::ID, executable: false, data: slot_hashes_data(&hash, slot) },
        );
    }
    /// advance the clock by n slots with fresh hash and time
    pub fn advance(&mut self, n: u64) {
        let s = self.slot + n;
        self.set_slot(s, self.time + (n as i64 + 1) / 2, h32(&format!("hash{s}")));
    }
}

pub fn base() -> World {
    let mut progs = BTreeMap::new();
    let mut w = World {
        accts: BTreeMap::new(),
        slot: 1000,
        time: 1_700_000_000,
        slothash: [0; 32],
        programs: Arc::new(BTreeMap::new()),
        no_rent: false,
    };
    progs.insert(sys_id(), Prog::System);
    w.programs = Arc::new(progs);
    w.put(sys_id(), Acct { lamports: 1, owner: solana_sdk_ids::native_loader::ID, executable: true, data: b"system_program".to_vec() });
    w.set_prog(VRF, Prog::Vrf);
    w.set_prog(dlp::ID, Prog::Dlp);
    w.set_prog(prog_x(), Prog::Consumer(Behavior::Record));
    w.set_prog(prog_y(), Prog::Consumer(Behavior::Record));
    w.put(
        program_data(),
        Acct {
            lamports: RICH,
            owner: solana_sdk_ids::bpf_loader_upgradeable::ID,
            executable: false,
            data: program_data_bytes(Some(admin())),
        },
    );
    for n in [admin(), payer(), mallory(), validator()] {
        w.put(n, Acct::system(RICH));
    }
    for o in ["oracle-a", "oracle-b"] {
        w.put(oracle(o).id, Acct::system(RICH));
    }
    w.put(vrf_identity(), Acct::system(rent(0)));
    w.set_slot(1000, 1_700_000_000, h32("hash1000"));
    w
}

/// run instructions that must succeed (set-up)
pub fn must(w: &mut World, ixs: &[Instruction], signers: &[Pubkey]) -> Log {
    let ops: Vec<&'static str> = ixs.iter().map(crate::spec::op_of).collect();
    let live = crate::spec::live_props(&ops);
    match crate::hang::guard(&live, &ops.join("+"), ixs, || w.exec(ixs, signers)) {
        Ok(l) => l,
        Err(e) => {
            std::panic::panic_any(crate::report::SetupFail(crate::engine::viol(
                &live,
                format!("rejected-valid:{}", ops.join("+")),
                format!("a valid {} was rejected in a set-up: {e:?}", ops.join("+")),
            )))
        }
    }
}
pub fn try_must(w: &mut World, what: &str, ixs: &[Instruction], signers: &[Pubkey]) -> Result<Log, String> {
    w.exec(ixs, signers).map_err(|e| format!("{what}: {e:?}"))
}

/// initialised program with the given oracles registered, 300 slots ago
pub fn with_oracles(names: &[&str]) -> World {
    let mut w = base();
    must(&mut w, &[api::initialize(admin())], &[admin()]);
    for n in names {
        let o = oracle(n);
        if w.get(&o.id).is_none() {
            w.put(o.id, Acct::system(RICH));
        }
        must(&mut w, &[ix_add(&admin(), &o.id, &o.pk)], &[admin()]);
    }
    w.advance(300);
    w
}

pub fn add_queue(w: &mut World, name: &str, idx: u8, size: u32) {
    let o = oracle(name);
    for _ in 0..(size as usize).div_ceil(10240) {
        must(w, &[ix_init_queue(&o.id, &o.id, idx, size)], &[o.id]);
    }
}

// ------------------------------------------------------------ raw instruction builders (documented wire format)
fn head(tag: u8) -> Vec<u8> {
    vec![tag, 0, 0, 0, 0, 0, 0, 0]
}
fn w_(k: Pubkey, s: bool) -> AccountMeta {
    AccountMeta::new(k, s)
}
fn r_(k: Pubkey, s: bool) -> AccountMeta {
    AccountMeta::new_readonly(k, s)
}
fn vrf_ix(accounts: Vec<AccountMeta>, data: Vec<u8>) -> Instruction {
    Instruction { program_id: VRF, accounts, data }
}
pub fn ix_initialize(signer: &Pubkey) -> Instruction {
    vrf_ix(vec![w_(*signer, true), w_(registry(), false), r_(sys_id(), false)], head(0))
}
pub fn ix_modify(signer: &Pubkey, id: &Pubkey, pk: &[u8; 32], op: u8) -> Instruction {
    let mut d = head(1);
    d.extend(id.as_ref());
    d.extend(pk);
    d.push(op);
    vrf_ix(
        vec![w_(*signer, true), w_(registry(), false), w_(record(id), false), r_(program_data(), false), r_(sys_id(), false)],
        d,
    )
}
pub fn ix_add(signer: &Pubkey, id: &Pubkey, pk: &[u8; 32]) -> Instruction {
    ix_modify(signer, id, pk, 0)
}
pub fn ix_remove(signer: &Pubkey, id: &Pubkey) -> Instruction {
    ix_modify(signer, id, &[0; 32], 1)
}
pub fn ix_init_queue(signer: &Pubkey, id: &Pubkey, idx: u8, size: u32) -> Instruction {
    let mut d = head(2);
    d.extend(size.to_le_bytes());
    d.extend([idx, 0, 0, 0]);
    vrf_ix(
        vec![w_(*signer, true), r_(*id, true), w_(record(id), false), w_(queue(id, idx), false), r_(sys_id(), false)],
        d,
    )
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Req {
    pub seed: [u8; 32],
    pub prog: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub args: Vec<u8>,
    pub high: bool,
}
impl Req {
    pub fn simple(prog: Pubkey, seed: u8) -> Req {
        Req { seed: [seed; 32], prog, disc: vec![1; 8], metas: vec![], args: vec![], high: false }
    }
    pub fn high(mut self) -> Req {
        self.high = true;
        self
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut d = self.seed.to_vec();
        d.extend(self.prog.as_ref());
        d.extend((self.disc.len() as u32).to_le_bytes());
        d.extend(&self.disc);
        d.extend((self.metas.len() as u32).to_le_bytes());
        for (k, s, w) in &self.metas {
            d.extend(k.as_ref());
            d.push(*s as u8);
            d.push(*w as u8);
        }
        d.extend((self.args.len() as u32).to_le_bytes());
        d.extend(&self.args);
        d
    }
    /// size this request occupies in the variable region
    pub fn bytes(&self) -> usize {
        96 + self.disc.len() + 33 * self.metas.len() + self.args.len()
    }
}
pub fn ix_request(payer: &Pubkey, q: &Pubkey, r: &Req) -> Instruction {
    let mut d = head(if r.high { 3 } else { 8 });
    d.extend(r.payload());
    vrf_ix(
        vec![
            w_(*payer, true),
            r_(identity_of(&r.prog), true),
            w_(*q, false),
            r_(sys_id(), false),
            r_(SLOT_HASHES, false),
        ],
        d,
    )
}
#[derive(Clone)]
pub struct Proof {
    pub output: [u8; 32],
    pub cb: [u8; 32],
    pub ch: [u8; 32],
    pub s: [u8; 32],
}
pub fn prove(o: &OracleKeys, id: &[u8; 32]) -> Proof {
    type Key = ([u8; 32], [u8; 32]);
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<Key,Proof>> = Default::default());
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.entry((o.pk, *id))
            .or_insert_with(|| {
                static G: std::sync::Mutex<std::collections::BTreeMap<Key, Proof>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
                let key = (o.pk, *id);
                if let Some(p) = G.lock().unwrap().get(&key) {
                    return p.clone();
                }
                let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(o.sk, id);
                let p = Proof { output: out.to_bytes(), cb: cb.to_bytes(), ch: ch.to_bytes(), s: s.to_bytes() };
                let mut g = G.lock().unwrap();
                if g.len() > 200_000 {
                    g.clear();
                }
                g.insert(key, p.clone());
                p
            })
            .clone()
    })
}
pub fn ix_provide(o: &Pubkey, q: &Pubkey, prog: &Pubkey, id: &[u8; 32], p: &Proof, rest: &[AccountMeta]) -> Instruction {
    let mut d = head(4);
    d.extend(id);
    d.extend(p.output);
    d.extend(p.cb);
    d.extend(p.ch);
    d.extend(p.s);
    let mut a = vec![w_(*o, true), r_(vrf_identity(), false), r_(record(o), false), w_(*q, false), r_(*prog, false)];
    a.extend_from_slice(rest);
    vrf_ix(a, d)
}
pub fn ix_delegate(signer: &Pubkey, q: &Pubkey, idx: u8) -> Instruction {
    let mut d = head(5);
    d.push(idx);
    vrf_ix(
        vec![
            w_(*signer, true),
            w_(*q, false),
            w_(pda(&[b"buffer", q.as_ref()], &VRF), false),
            w_(pda(&[b"delegation", q.as_ref()], &dlp::ID), false),
            w_(pda(&[b"delegation-metadata", q.as_ref()], &dlp::ID), false),
            r_(dlp::ID, false),
            r_(VRF, false),
            r_(sys_id(), false),
        ],
        d,
    )
}
pub fn ix_undelegate(signer: &Pubkey, q: &Pubkey, idx: u8) -> Instruction {
    let mut d = head(6);
    d.push(idx);
    vrf_ix(vec![w_(*signer, true), w_(*q, false), w_(MAGIC_CTX, false), r_(MAGIC, false)], d)
}
pub fn ix_process_undelegation(acc: &Pubkey, buffer: &Pubkey, payer: &Pubkey, seeds: &[Vec<u8>]) -> Instruction {
    let mut d = dlp::EXTERNAL_UNDELEGATE.to_vec();
    d.extend(borsh::to_vec(&seeds.to_vec()).unwrap());
    vrf_ix(vec![w_(*acc, false), r_(*buffer, true), w_(*payer, true), r_(sys_id(), false)], d)
}
pub fn ix_close(o: &Pubkey, idx: u8) -> Instruction {
    let mut d = head(7);
    d.push(idx);
    vrf_ix(vec![w_(*o, true), w_(record(o), false), w_(queue(o, idx), false)], d)
}
pub fn ix_purge(o: &Pubkey, idx: u8) -> Instruction {
    let mut d = head(9);
    d.push(idx);
    vrf_ix(vec![w_(*o, false), w_(queue(o, idx), false)], d)
}
