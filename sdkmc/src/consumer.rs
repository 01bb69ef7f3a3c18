//! A consumer written with the SDK's `#[vrf]` attribute: every substitution of one of its accounts, and the CPI it issues.
use crate::{hex, pk};
use anchor_lang::prelude::*;
use ephemeral_vrf_sdk::anchor::vrf;
use ephemeral_vrf_sdk::instructions::{create_request_randomness_ix, create_request_regular_randomness_ix, RequestRandomnessParams};
use std::collections::BTreeSet;
use std::io::Write;
use std::sync::Mutex;

/// nothing declared: the attribute adds all four accounts
#[vrf]
#[derive(Accounts)]
pub struct Bare<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
}
/// some declared by the author: the attribute adds the others
#[vrf]
#[derive(Accounts)]
pub struct OwnSystem<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    pub system_program: Program<'info, System>,
}
#[vrf]
#[derive(Accounts)]
pub struct OwnHashes<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    /// CHECK: checked here
    #[account(address = ::ephemeral_vrf_sdk::compat::slot_hashes::ID)]
    pub slot_hashes: AccountInfo<'info>,
}
#[vrf]
#[derive(Accounts)]
pub struct OwnVrf<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    pub vrf_program: Program<'info, ::ephemeral_vrf_sdk::anchor::VrfProgram>,
}
#[vrf]
#[derive(Accounts)]
pub struct OwnIdentity<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    /// CHECK: checked here
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: AccountInfo<'info>,
}

struct A {
    key: Pubkey,
    signer: bool,
    writable: bool,
    executable: bool,
    owner: Pubkey,
}
type Cpi = (String, Vec<String>, Vec<String>);
static CPIS: Mutex<Vec<Cpi>> = Mutex::new(vec![]);

struct Stubs;
impl sp::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_invoke_signed(
        &self,
        ix: &sp::instruction::Instruction,
        infos: &[sp::account_info::AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> sp::entrypoint::ProgramResult {
        let accs: Vec<String> =
            ix.accounts.iter().map(|m| format!("{}:{}{}", hex(&m.pubkey.to_bytes()), m.is_signer as u8, m.is_writable as u8)).collect();
        let d = format!("{} {} {}", hex(&ix.program_id.to_bytes()), accs.join(","), hex(&ix.data));
        let i = infos.iter().map(|i| format!("{}:{}{}", hex(&i.key.to_bytes()), i.is_signer as u8, i.is_writable as u8)).collect();
        let me: [u8; 32] = crate::ID.to_bytes();
        let s = seeds
            .iter()
            .map(|s| match sp::pubkey::Pubkey::create_program_address(s, &me.into()) {
                Ok(k) => hex(&k.to_bytes()),
                Err(_) => "invalid".into(),
            })
            .collect();
        CPIS.lock().unwrap().push((d, i, s));
        Ok(())
    }
}

fn leak_info(a: &A) -> AccountInfo<'static> {
    let key = Box::leak(Box::new(a.key));
    let lam = Box::leak(Box::new(1_000_000u64));
    let owner = Box::leak(Box::new(a.owner));
    let data: &'static mut [u8] = Box::leak(vec![].into_boxed_slice());
    #[cfg(feature = "anchor-compat")]
    return AccountInfo::new(key, a.signer, a.writable, lam, data, owner, a.executable, 0);
    #[cfg(not(feature = "anchor-compat"))]
    AccountInfo::new(key, a.signer, a.writable, lam, data, owner, a.executable)
}

fn good(order: &[&str]) -> Vec<A> {
    let loader = Pubkey::new_from_array([77; 32]);
    order
        .iter()
        .map(|n| {
            let (key, signer, writable, executable) = match *n {
                "payer" => (Pubkey::new_from_array([11; 32]), true, true, false),
                "oracle_queue" => (Pubkey::new_from_array([12; 32]), false, true, false),
                "program_identity" => (Pubkey::find_program_address(&[b"identity"], &crate::ID).0, false, false, false),
                "vrf_program" => (ephemeral_vrf_sdk::consts::VRF_PROGRAM_ID.to_bytes().into(), false, false, true),
                "slot_hashes" => (ephemeral_vrf_sdk::compat::slot_hashes::ID.to_bytes().into(), false, false, false),
                "system_program" => (Pubkey::new_from_array([0; 32]), false, false, true),
                _ => unreachable!(),
            };
            A { key, signer, writable, executable, owner: loader }
        })
        .collect()
}

macro_rules! consumer {
    ($o:expr, $name:literal, $t:ident, $bumps:ident, $order:expr) => {{
        let order: &[&str] = $order;
        let other = Pubkey::find_program_address(&[b"identity"], &Pubkey::new_from_array([88; 32])).0;
        let attempt = |accs: &[A]| -> std::result::Result<$t<'static>, String> {
            let infos: &'static [AccountInfo<'static>] = Box::leak(accs.iter().map(leak_info).collect::<Vec<_>>().into_boxed_slice());
            let mut rest = infos;
            let mut bumps = $bumps::default();
            let me: &'static Pubkey = Box::leak(Box::new(crate::ID));
            <$t as Accounts<'static, $bumps>>::try_accounts(me, &mut rest, &[], &mut bumps, &mut BTreeSet::new()).map_err(|e| format!("{e:?}"))
        };
        let mut put = |what: String, r: bool| writeln!($o, "try {} {} {}", $name, what, r as u8).unwrap();
        put("as-published".into(), attempt(&good(order)).is_ok());
        for i in 0..order.len() {
            // another address
            for (n, k) in [("foreign", Pubkey::new_from_array([99; 32])), ("other-identity", other), ("payer", good(order)[0].key), ("self", crate::ID)] {
                let mut v = good(order);
                v[i].key = k;
                put(format!("{}:={n}", order[i]), attempt(&v).is_ok());
            }
            // each other account of the list in its place
            for j in 0..order.len() {
                if i != j {
                    let mut v = good(order);
                    v[i].key = v[j].key;
                    v[i].executable = v[j].executable;
                    put(format!("{}:={}", order[i], order[j]), attempt(&v).is_ok());
                }
            }
            let mut v = good(order);
            v[i].executable = !v[i].executable;
            put(format!("{}:executable-flipped", order[i]), attempt(&v).is_ok());
            let mut v = good(order);
            v[i].signer = !v[i].signer;
            put(format!("{}:signer-flipped", order[i]), attempt(&v).is_ok());
            let mut v = good(order);
            v[i].writable = !v[i].writable;
            put(format!("{}:writable-flipped", order[i]), attempt(&v).is_ok());
            let mut v = good(order);
            v.truncate(i);
            put(format!("only-{i}-accounts"), attempt(&v).is_ok());
        }
        for (high, seed) in [(true, 1u8), (false, 1), (true, 2), (false, 200)] {
            if let Ok(c) = attempt(&good(order)) {
                let p = RequestRandomnessParams {
                    payer: pk(&[11; 32]),
                    oracle_queue: pk(&[12; 32]),
                    callback_program_id: pk(&crate::ID.to_bytes()),
                    callback_discriminator: vec![seed; 8],
                    caller_seed: [seed; 32],
                    ..Default::default()
                };
                let ix = if high { create_request_randomness_ix(p) } else { create_request_regular_randomness_ix(p) };
                CPIS.lock().unwrap().clear();
                let payer = leak_info(&good(order)[0]);
                let ok = c.invoke_signed_vrf(&payer, &ix).is_ok();
                let cs = CPIS.lock().unwrap();
                writeln!($o, "cpi {} {} {} {} {}", $name, high as u8, seed, ok as u8, cs.len()).unwrap();
                writeln!($o, "want {}", crate::dump_ix(&ix)).unwrap();
                for c in cs.iter() {
                    writeln!($o, "sent {}", c.0).unwrap();
                    writeln!($o, "infos {}", c.1.join(",")).unwrap();
                    writeln!($o, "seeds {}", c.2.join(",")).unwrap();
                }
                writeln!($o, "end").unwrap();
            }
        }
    }};
}

pub fn run(o: &mut impl Write) {
    sp::program_stubs::set_syscall_stubs(Box::new(Stubs));
    writeln!(o, "self {}", hex(&crate::ID.to_bytes())).unwrap();
    consumer!(o, "Bare", Bare, BareBumps, &["payer", "oracle_queue", "program_identity", "vrf_program", "slot_hashes", "system_program"]);
    consumer!(o, "OwnSystem", OwnSystem, OwnSystemBumps, &["payer", "oracle_queue", "system_program", "program_identity", "vrf_program", "slot_hashes"]);
    consumer!(o, "OwnHashes", OwnHashes, OwnHashesBumps, &["payer", "oracle_queue", "slot_hashes", "program_identity", "vrf_program", "system_program"]);
    consumer!(o, "OwnVrf", OwnVrf, OwnVrfBumps, &["payer", "oracle_queue", "vrf_program", "program_identity", "slot_hashes", "system_program"]);
    consumer!(o, "OwnIdentity", OwnIdentity, OwnIdentityBumps, &["payer", "oracle_queue", "program_identity", "vrf_program", "slot_hashes", "system_program"]);
}
