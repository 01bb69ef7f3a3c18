#![allow(unexpected_cfgs)]
mod grid;
#[cfg(any(feature = "anchor", feature = "anchor-compat"))]
// an address whose identity has a bump far below the usual ones
anchor_lang::declare_id!("Em22QjhUDNuWDySWvc1tccpADxJ9MQX3W2DvvPr4FStZ");
#[cfg(any(feature = "anchor", feature = "anchor-compat"))]
mod consumer;
use ephemeral_vrf_sdk as sdk;
use sdk::instructions::{create_request_randomness_ix, create_request_regular_randomness_ix, RequestRandomnessParams};
use sdk::types::{RequestRandomness, SerializableAccountMeta};
use std::io::Write;

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
fn pk(b: &[u8; 32]) -> sdk::Pubkey {
    sdk::Pubkey::new_from_array(*b)
}
fn dump_ix(ix: &sdk::compat::Instruction) -> String {
    let accs: Vec<String> =
        ix.accounts.iter().map(|m| format!("{}:{}{}", hex(&m.pubkey.to_bytes()), m.is_signer as u8, m.is_writable as u8)).collect();
    format!("{} {} {}", hex(&ix.program_id.to_bytes()), accs.join(","), hex(&ix.data))
}
/// what the SDK's own types read back from the instruction data they wrote
fn reads_back(data: &[u8], p: &grid::P) -> bool {
    use sdk::compat::borsh::BorshDeserialize;
    let Ok(r) = RequestRandomness::try_from_slice(&data[8..]) else { return false };
    r.caller_seed == p.seed
        && r.callback_program_id.to_bytes() == p.prog
        && r.callback_discriminator == p.disc
        && r.callback_args == p.args.clone().unwrap_or_default()
        && r.callback_accounts_metas.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect::<Vec<_>>()
            == p.metas.clone().unwrap_or_default()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    match a[1].as_str() {
        "requests" => {
            for (i, p) in grid::grid().iter().enumerate() {
                let params = RequestRandomnessParams {
                    payer: pk(&p.payer),
                    oracle_queue: pk(&p.queue),
                    callback_program_id: pk(&p.prog),
                    callback_discriminator: p.disc.clone(),
                    accounts_metas: p.metas.as_ref().map(|v| {
                        v.iter().map(|m| SerializableAccountMeta { pubkey: pk(&m.0), is_signer: m.1, is_writable: m.2 }).collect()
                    }),
                    caller_seed: p.seed,
                    callback_args: p.args.clone(),
                };
                let ix = if p.high { create_request_randomness_ix(params) } else { create_request_regular_randomness_ix(params) };
                writeln!(o, "ix {i} {} {}", reads_back(&ix.data, p) as u8, dump_ix(&ix)).unwrap();
            }
            for high in [true, false] {
                let params = RequestRandomnessParams::default();
                let ix = if high { create_request_randomness_ix(params) } else { create_request_regular_randomness_ix(params) };
                writeln!(o, "default {} {}", high as u8, dump_ix(&ix)).unwrap();
            }
            // the conversions between the two instruction types the SDK offers
            use sdk::compat::{Compat, Modern};
            for f in 0..4u8 {
                let m = sdk::compat::AccountMeta { pubkey: pk(&[7 + f; 32]), is_signer: f & 1 == 1, is_writable: f & 2 == 2 };
                let there = vec![m.clone()].modern();
                let back = there.clone().compat();
                writeln!(
                    o,
                    "conv {f} {}:{}{} {}:{}{}",
                    hex(&there[0].pubkey.to_bytes()),
                    there[0].is_signer as u8,
                    there[0].is_writable as u8,
                    hex(&back[0].pubkey.to_bytes()),
                    back[0].is_signer as u8,
                    back[0].is_writable as u8
                )
                .unwrap();
                let ix = sdk::compat::Instruction { program_id: pk(&[9; 32]), accounts: vec![m], data: vec![1, 2, f] };
                let back = ix.clone().modern().compat();
                writeln!(o, "convix {f} {} {}", dump_ix(&ix), dump_ix(&back)).unwrap();
            }
        }
        "addresses" => {
            let mut put = |n: String, k: &[u8]| writeln!(o, "{n} {}", hex(k)).unwrap();
            put("id()".into(), &sdk::id().to_bytes());
            put("VRF_PROGRAM_ID".into(), &sdk::consts::VRF_PROGRAM_ID.to_bytes());
            put("DEFAULT_QUEUE".into(), &sdk::consts::DEFAULT_QUEUE.to_bytes());
            put("DEFAULT_EPHEMERAL_QUEUE".into(), &sdk::consts::DEFAULT_EPHEMERAL_QUEUE.to_bytes());
            put("VRF_PROGRAM_IDENTITY".into(), &sdk::consts::VRF_PROGRAM_IDENTITY.to_bytes());
            put("IDENTITY".into(), sdk::consts::IDENTITY);
            put("slot_hashes::ID".into(), &sdk::compat::slot_hashes::ID.to_bytes());
            put("system_program::ID".into(), &sdk::compat::system_program::ID.to_bytes());
            #[cfg(any(feature = "anchor", feature = "anchor-compat"))]
            put("VrfProgram::id()".into(), &<sdk::anchor::VrfProgram as anchor_lang::Id>::id().to_bytes());
            use sdk::pda::*;
            put("fees_vault_pda".into(), &fees_vault_pda().to_bytes());
            let ks = grid::keys();
            for (i, key) in ks.iter().enumerate() {
                let q = pk(key);
                put(format!("delegation_record {i}"), &delegation_record_pda_from_delegated_account(&q).to_bytes());
                put(format!("delegation_metadata {i}"), &delegation_metadata_pda_from_delegated_account(&q).to_bytes());
                put(format!("commit_state {i}"), &commit_state_pda_from_delegated_account(&q).to_bytes());
                put(format!("commit_record {i}"), &commit_record_pda_from_delegated_account(&q).to_bytes());
                put(format!("undelegate_buffer {i}"), &undelegate_buffer_pda_from_delegated_account(&q).to_bytes());
                put(format!("validator_fees_vault {i}"), &validator_fees_vault_pda_from_validator(&q).to_bytes());
                put(format!("program_config {i}"), &program_config_from_program_id(&q).to_bytes());
                for (j, own) in ks.iter().enumerate().step_by(5) {
                    put(format!("delegate_buffer {i} {j}"), &delegate_buffer_pda_from_delegated_account_and_owner_program(&q, &pk(own)).to_bytes());
                }
                let step = if i == 0 { 1 } else { 85 };
                for n in (0..256usize).step_by(step) {
                    put(format!("ephemeral_balance {i} {n}"), &ephemeral_balance_pda_from_payer(&q, n as u8).to_bytes());
                }
            }
        }
        #[cfg(any(feature = "anchor", feature = "anchor-compat"))]
        "consumer" => consumer::run(&mut o),
        _ => panic!("usage: sdkmc requests|addresses FILE"),
    }
}
