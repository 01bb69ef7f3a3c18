//! Model of the delegation program (delegate + finalize/undelegate), after magicblock-delegation-program-api 3.0.0.
//! `/verif/conform` compares it with the real dlp.so on solana-program-test.
use crate::rt::{native::*, sys_id, Err, R};
use borsh::BorshDeserialize;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

pub const ID: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
pub const EXTERNAL_UNDELEGATE: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];
/// model-only tag: hand a delegated account back to its owner program with new content
pub const TAG_UNDELEGATE: u8 = 255;

pub fn record_pda(k: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"delegation", k.as_ref()], &ID)
}
pub fn metadata_pda(k: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"delegation-metadata", k.as_ref()], &ID)
}
pub fn undelegate_buffer_pda(k: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"undelegate-buffer", k.as_ref()], &ID)
}
pub fn delegate_buffer_pda(k: &Pubkey, owner: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"buffer", k.as_ref()], owner)
}

#[derive(BorshDeserialize)]
struct DelegateArgs {
    commit_frequency_ms: u32,
    seeds: Vec<Vec<u8>>,
    validator: Option<[u8; 32]>,
}

pub const RECORD_LEN: usize = 8 + 32 + 32 + 8 + 8 + 8;

pub fn process(data: &[u8]) -> R<()> {
    require(data.len() >= 8, "dlp: short data")?;
    match data[0] {
        0 => delegate(&data[8..]),
        TAG_UNDELEGATE => undelegate(&data[8..]),
        _ => fail("dlp: unknown instruction"),
    }
}

fn delegate(args: &[u8]) -> R<()> {
    let a = DelegateArgs::try_from_slice(args).map_err(|_| Err::Runtime("dlp: bad args"))?;
    let _ = a.validator;
    require(n_accounts() >= 7, "dlp: accounts")?;
    let (payer, delegated, owner, buffer) = (key(0)?, key(1)?, key(2)?, key(3)?);
    require(flags(0)?.0, "dlp: payer must sign")?;
    require(flags(1)?.0, "dlp: delegated must sign")?;
    require(get(1)?.owner == ID, "dlp: delegated must be owned by dlp")?;
    let (rk, rb) = record_pda(&delegated);
    let (mk, mb) = metadata_pda(&delegated);
    require(key(4)? == rk && key(5)? == mk, "dlp: record/metadata")?;
    require(buffer == delegate_buffer_pda(&delegated, &owner).0, "dlp: buffer")?;
    for n in [4, 5] {
        let x = get(n)?;
        require(x.owner == sys_id() && x.data.is_empty(), "dlp: already delegated")?;
    }
    let seeds: Vec<&[u8]> = a.seeds.iter().map(|v| v.as_slice()).collect();
    let derived = if seeds.len() <= 15 && seeds.iter().all(|s| s.len() <= 32) {
        Pubkey::try_find_program_address(&seeds, &owner).map(|p| p.0)
    } else {
        None
    };
    require(derived == Some(delegated), "dlp: seeds")?;
    let r = rent();
    create_account(payer, rk, r.minimum_balance(RECORD_LEN), RECORD_LEN, ID, &[b"delegation", delegated.as_ref(), &[rb]])?;
    let mut meta = vec![0u8; 8 + 8 + 1 + 32];
    meta.extend(borsh::to_vec(&a.seeds).unwrap());
    create_account(
        payer,
        mk,
        r.minimum_balance(meta.len()),
        meta.len(),
        ID,
        &[b"delegation-metadata", delegated.as_ref(), &[mb]],
    )?;
    let mut rec = vec![100u8, 0, 0, 0, 0, 0, 0, 0];
    rec.extend(a.validator.unwrap_or_default());
    rec.extend(owner.as_ref());
    rec.extend(slot().to_le_bytes());
    rec.extend(get(1)?.lamports.to_le_bytes());
    rec.extend((a.commit_frequency_ms as u64).to_le_bytes());
    set_data(4, &rec)?;
    meta[0] = 102;
    meta[17..49].copy_from_slice(payer.as_ref());
    set_data(5, &meta)?;
    let b = get(3)?;
    if !b.data.is_empty() {
        set_data(1, &b.data)?;
    }
    Ok(())
}

/// accounts: validator (s,w), delegated (w), owner program, undelegate buffer (w), record (w), metadata (w), system
fn undelegate(new_data: &[u8]) -> R<()> {
    require(flags(0)?.0, "dlp: validator must sign")?;
    let (validator, delegated, owner, buffer) = (key(0)?, key(1)?, key(2)?, key(3)?);
    let (rk, mk) = (record_pda(&delegated).0, metadata_pda(&delegated).0);
    require(key(4)? == rk && key(5)? == mk, "dlp: record/metadata")?;
    let rec = get(4)?;
    require(rec.owner == ID && rec.data.len() == RECORD_LEN, "dlp: not delegated")?;
    require(rec.data[40..72] == owner.to_bytes(), "dlp: owner program")?;
    let meta = get(5)?;
    let seeds = &meta.data[49..];
    let (bk, bb) = undelegate_buffer_pda(&delegated);
    require(buffer == bk, "dlp: undelegate buffer")?;
    let d = get(1)?;
    require(d.owner == ID, "dlp: delegated must be owned by dlp")?;
    if new_data.is_empty() {
        set_data(1, &[])?;
        set_owner(1, owner)?;
    } else {
        // close the delegated account into the validator, then let the owner re-create it from the buffer
        let lam = d.lamports;
        create_account(
            validator,
            bk,
            rent().minimum_balance(new_data.len()),
            new_data.len(),
            ID,
            &[b"undelegate-buffer", delegated.as_ref(), &[bb]],
        )?;
        set_data(3, new_data)?;
        let zero = vec![0u8; d.data.len()];
        set_data(1, &zero)?;
        set_lamports(1, 0)?;
        let v = get(0)?;
        set_lamports(0, v.lamports + lam)?;
        set_data(1, &[])?;
        set_owner(1, sys_id())?;
        let mut data = EXTERNAL_UNDELEGATE.to_vec();
        data.extend_from_slice(seeds);
        let before = get(0)?.lamports;
        cpi(
            &Instruction {
                program_id: owner,
                accounts: vec![
                    AccountMeta::new(delegated, false),
                    AccountMeta::new(buffer, true),
                    AccountMeta::new(validator, true),
                    AccountMeta::new_readonly(sys_id(), false),
                ],
                data,
            },
            &[&[b"undelegate-buffer", delegated.as_ref(), &[bb]]],
        )?;
        let after = get(0)?.lamports;
        let d2 = get(1)?;
        let min = rent().minimum_balance(new_data.len());
        require(before >= after && before - after == min, "dlp: invalid validator balance after CPI")?;
        require(d2.owner == owner && d2.data == new_data, "dlp: invalid account data after CPI")?;
        // give the original lamports back
        let b = get(3)?;
        set_data(3, &[])?;
        set_lamports(3, 0)?;
        set_owner(3, sys_id())?;
        let v = get(0)?;
        let extra = lam.saturating_sub(d2.lamports);
        require(v.lamports + b.lamports >= extra, "dlp: lamports")?;
        set_lamports(0, v.lamports + b.lamports - extra)?;
        let d3 = get(1)?;
        set_lamports(1, d3.lamports + extra)?;
    }
    // close record and metadata into the validator
    for n in [4, 5] {
        let x = get(n)?;
        set_lamports(n, 0)?;
        let v = get(0)?;
        set_lamports(0, v.lamports + x.lamports)?;
        set_data(n, &[])?;
        set_owner(n, sys_id())?;
    }
    Ok(())
}

/// the model's undelegation instruction, as sent by the validator
pub fn undelegate_ix(validator: Pubkey, delegated: Pubkey, owner: Pubkey, new_data: &[u8]) -> Instruction {
    let mut data = vec![TAG_UNDELEGATE, 0, 0, 0, 0, 0, 0, 0];
    data.extend_from_slice(new_data);
    Instruction {
        program_id: ID,
        accounts: vec![
            AccountMeta::new(validator, true),
            AccountMeta::new(delegated, false),
            AccountMeta::new_readonly(owner, false),
            AccountMeta::new(undelegate_buffer_pda(&delegated).0, false),
            AccountMeta::new(record_pda(&delegated).0, false),
            AccountMeta::new(metadata_pda(&delegated).0, false),
            AccountMeta::new_readonly(sys_id(), false),
        ],
        data,
    }
}
