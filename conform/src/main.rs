//! Conformance of the mini-SVM with the real runtime: transactions recorded while the checks explore are replayed on
//! agave's bank from the same accounts and the outcome, every account and every callback are compared.
//!   conform <property> [per class] [out.json]
mod bank;
use bank::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use svm::rt::*;

fn compare(c: &rec::Case, got: &Result<Post, (Option<solana_program::instruction::InstructionError>, String)>, fee_payer: &solana_program::pubkey::Pubkey) -> Result<(), String> {
    match (&c.out, got) {
        (Ok(log), Ok(post)) => {
            for (k, a) in post {
                if k == fee_payer || c.pre.programs.contains_key(k) || a.executable {
                    continue;
                }
                let b = c.post.get(k).cloned().unwrap_or_else(|| Acct::system(0));
                let norm = |x: &Acct| if x.lamports == 0 { Acct::system(0) } else { Acct { executable: false, ..x.clone() } };
                let (a, b) = (norm(a), norm(&b));
                if a != b {
                    let at = a.data.iter().zip(&b.data).position(|(x, y)| x != y);
                    return Err(format!(
                        "account {k}: bank lamports {} owner {} len {}, model lamports {} owner {} len {}, first differing byte {at:?}",
                        a.lamports, a.owner, a.data.len(), b.lamports, b.owner, b.data.len()
                    ));
                }
            }
            let calls = CALLS.with(|x| x.borrow().clone());
            let want: Vec<Call> = log.calls.iter().map(|c| Call { via: vec![], ..c.clone() }).collect();
            if calls != want {
                return Err(format!("callbacks differ: bank {calls:?} model {want:?}"));
            }
            let magic = MAGIC.with(|x| x.borrow().clone());
            let want: Vec<Call> = log.magic.iter().map(|c| Call { via: vec![], ..c.clone() }).collect();
            if magic != want {
                return Err(format!("magic calls differ: bank {magic:?} model {want:?}"));
            }
            Ok(())
        }
        (Err(e), Err((ie, text))) => {
            use solana_program::instruction::InstructionError as I;
            let same = match (e, ie) {
                (Err::Program(code, _), Some(i)) => I::from(*code) == *i,
                (Err::Panic(_), Some(i)) => *i == I::ProgramFailedToComplete,
                (Err::Runtime(s), _) if s.starts_with("dlp:") => true,
                // same event, other name
                (Err::Runtime("UnsupportedProgramId" | "AccountNotExecutable"), Some(I::UnsupportedProgramId | I::IncorrectProgramId)) => true,
                (Err::Runtime("BadSeeds"), Some(I::InvalidSeeds)) => true,
                (Err::Runtime("SignatureFailure"), _) => true,
                (Err::Runtime(s), _) => text.starts_with(s),
                _ => false,
            };
            // the clock's account is not part of the mini-SVM's worlds (programs read it by syscall)
            let clock = solana_sdk_ids::sysvar::clock::ID;
            let same = same || c.ixs.iter().any(|i| i.accounts.iter().any(|m| m.pubkey == clock));
            if same {
                Ok(())
            } else {
                Err(format!("both fail, differently: bank {text}, model {e:?}"))
            }
        }
        (Ok(_), Err((_, t))) => Err(format!("model accepts, bank refuses: {t}")),
        (Err(e), Ok(_)) => Err(format!("bank accepts, model refuses: {e:?}")),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    if prop == "dlp" {
        std::process::exit((dlp_round_trip().1 > 0) as i32);
    }
    let per: usize = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(4);
    install();
    let mut r = svm::report::Report::new(&prop, "quick");
    let mut out = r.handle();
    rec::start(per);
    let t = Instant::now();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| svm::checks::run(&prop, &mut r, Instant::now() + Duration::from_secs(120))));
    let cases = rec::take();
    if res.is_err() {
        std::process::exit(3);
    }
    use std::io::Write;
    eprintln!("{} transactions recorded in {:?}", cases.len(), t.elapsed());
    let mut real = Real::new();
    real.add_dlp(dlp_elf());
    let (mut ok, mut bad, mut skipped) = (0, 0, 0);
    let mut accepted = 0;
    let mut why: BTreeMap<String, usize> = BTreeMap::new();
    std::panic::set_hook(Box::new(|i| {
        if !bank::inside() {
            eprintln!("{i}")
        }
    }));
    for c in &cases {
        let uses = |p: solana_program::pubkey::Pubkey| c.ixs.iter().any(|i| i.program_id == p || i.accounts.iter().any(|m| m.pubkey == p));
        let dlp = uses(svm::dlp::ID);
        if c.pre.no_rent || c.ixs.iter().any(|i| i.program_id == svm::dlp::ID) || matches!(&c.out, Err(Err::Runtime("SignatureFailure"))) {
            skipped += 1;
            continue;
        }
        let got = real.exec(&c.pre, &c.ixs, &c.signers);
        let verdict = if dlp { compare_dlp(c, &got) } else { compare(c, &got, &real.fee_payer) };
        match verdict {
            Ok(()) => {
                ok += 1;
                accepted += got.is_ok() as usize;
            }
            Err(e) => {
                bad += 1;
                let n = why.entry(e.chars().take(60).collect()).or_default();
                *n += 1;
                if *n <= 3 {
                    for i in &c.ixs {
                        for m in &i.accounts {
                            let _ = writeln!(out, "      {} bank {:?} model {:?}", m.pubkey, real.get(&m.pubkey).map(|a| (a.lamports, a.owner, a.data.len())), c.pre.get(&m.pubkey).map(|a| (a.lamports, a.owner, a.data.len())));
                        }
                    }
                    let _ = writeln!(out, "MISMATCH {}\n   {e}\n   signers {:?}\n   {:?}", c.class, c.signers, c.ixs);
                }
            }
        }
    }
    let mut round_trips = 0;
    if prop == "C14" {
        let (n, b) = dlp_round_trip();
        round_trips = n;
        bad += b as usize;
    }
    let _ = writeln!(out, "conform {prop}: {ok} agree ({accepted} accepted), {bad} differ, {skipped} outside ({:?})", t.elapsed());
    if let Some(f) = a.get(3) {
        let j = serde_json::json!({"bank_replays": ok, "of_which_accepted": accepted, "outside_the_bank_model": skipped, "differing": bad, "round_trips_through_the_real_delegation_program": round_trips});
        std::fs::write(f, j.to_string()).unwrap();
    }
    std::process::exit((bad > 0) as i32);
}


/// the published binary of the delegation program, as the repository ships it for its own tests
fn dlp_elf() -> Vec<u8> {
    std::fs::read("/repo/program/tests/integration/use-randomness/tests/fixtures/dlp.so").expect("dlp.so")
}

/// The real delegation program keeps its records in another layout: compare acceptance and what the VRF program's own
/// accounts become.
fn compare_dlp(c: &rec::Case, got: &Result<Post, (Option<solana_program::instruction::InstructionError>, String)>) -> Result<(), String> {
    match (&c.out, got) {
        (Ok(_), Ok(post)) => {
            for (k, a) in post {
                let b = c.post.get(k).cloned().unwrap_or_else(|| Acct::system(0));
                let was = c.pre.owner(k);
                if was != svm::world::VRF || *k == svm::world::VRF {
                    continue;
                }
                if (a.lamports, a.owner, &a.data) != (b.lamports, b.owner, &b.data) {
                    return Err(format!("delegated account {k}: bank {} {} {}, model {} {} {}", a.lamports, a.owner, a.data.len(), b.lamports, b.owner, b.data.len()));
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err((_, t))) => Err(format!("model accepts, bank refuses: {t}")),
        (Err(e), Ok(_)) => Err(format!("bank accepts, model refuses: {e:?}")),
    }
}

/// Delegate a queue, commit new content, finalize and undelegate with the real delegation program: for every queue
/// size, content and balance of the list, the queue comes back to the program with the committed content.
fn dlp_round_trip() -> (usize, i32) {
    use solana_program::instruction::{AccountMeta, Instruction};
    use solana_program::pubkey::Pubkey;
    use svm::scen::*;
    use svm::world::*;
    let dlp = svm::dlp::ID;
    let (a, x) = (oracle("oracle-a"), 0u8);
    let q = queue(&a.id, x);
    let val = validator();
    let p = |s: &[&[u8]]| Pubkey::find_program_address(s, &dlp).0;
    let (rec_, meta, cs, cr) = (
        p(&[b"delegation", q.as_ref()]),
        p(&[b"delegation-metadata", q.as_ref()]),
        p(&[b"state-diff", q.as_ref()]),
        p(&[b"commit-state-record", q.as_ref()]),
    );
    let (vault, fees, conf, ub) = (p(&[b"v-fees-vault", val.as_ref()]), p(&[b"fees-vault"]), p(&[b"p-conf", VRF.as_ref()]), p(&[b"undelegate-buffer", q.as_ref()]));
    let mut cases = vec![];
    for size in [300u32, 500, 2_000, 10_000, 20_000] {
        for n in [0usize, 1, 2] {
            for keep in 0..=n {
                cases.push((size, n, keep));
            }
        }
    }
    let mut real: Option<Real> = None;
    let mut bad = 0;
    let mut done = 0;
    let mut too_large = 0;
    'cases: for (size, n, keep) in cases {
        install();
        let mut w = with_oracles(&["oracle-a"]);
        add_queue(&mut w, "oracle-a", 0, size);
        let empty = w.data(&q).to_vec();
        let mut contents = vec![empty];
        for i in 0..n {
            if w.exec(&[forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), i as u8)))], &[payer()]).is_err() {
                break;
            }
            contents.push(w.data(&q).to_vec());
        }
        if contents.len() <= keep {
            continue;
        }
        w.advance(1);
        let new_data = contents[keep].clone();
        w.put(vault, Acct { lamports: 10_000_000, owner: dlp, executable: false, data: vec![] });
        w.put(fees, Acct { lamports: 10_000_000, owner: dlp, executable: false, data: vec![] });
        w.put(val, Acct::system(RICH));
        let real = real.get_or_insert_with(|| {
            let mut r = Real::new();
            r.add_dlp(dlp_elf());
            r
        });
        bank::stubs();
        let lam = w.lamports(&q);
        let mut args = 1u64.to_le_bytes().to_vec();
        args.extend(lam.to_le_bytes());
        args.push(1);
        args.extend((new_data.len() as u32).to_le_bytes());
        args.extend(&new_data);
        let ix = |tag: u8, acc: Vec<AccountMeta>, args: &[u8]| {
            let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
            data.extend(args);
            Instruction { program_id: dlp, accounts: acc, data }
        };
        let (rw, ro) = (|k| AccountMeta::new(k, false), |k| AccountMeta::new_readonly(k, false));
        let commit = ix(1, vec![AccountMeta::new(val, true), ro(q), rw(cs), rw(cr), ro(rec_), rw(meta), ro(vault), ro(conf), ro(sys_id())], &args);
        let fin = ix(2, vec![AccountMeta::new(val, true), rw(q), rw(cs), rw(cr), rw(rec_), rw(meta), rw(vault), ro(sys_id())], &[]);
        let und = ix(3, vec![AccountMeta::new(val, true), rw(q), ro(VRF), rw(ub), ro(cs), ro(cr), rw(rec_), rw(meta), rw(a.id), rw(fees), rw(vault), ro(sys_id())], &[]);
        let mut ok = true;
        for (what, i, s) in [("delegate", ix_delegate(&a.id, &q, 0), a.id), ("commit", commit, val), ("finalize", fin, val), ("undelegate", und, val)] {
            match real.exec(&w, &[i], &[s]) {
                Ok(post) => {
                    for (k, acc) in post {
                        if w.programs.contains_key(&k) || k == dlp || k == real.fee_payer || acc.executable {
                            continue;
                        }
                        if acc.lamports == 0 {
                            w.accts.remove(&k);
                        } else {
                            w.put(k, acc);
                        }
                    }
                }
                // a queue too large for the record of one CPI cannot be delegated (C14 says so)
                Err((_, t)) if what == "delegate" && size > 10_240 => {
                    too_large += 1;
                    println!("size {size}: not delegated ({t})");
                    continue 'cases;
                }
                Err((_, t)) => {
                    println!("size {size}, {n} pending, {keep} kept: {what} refused: {t}");
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            let z = w.get(&q).cloned().unwrap_or_else(|| Acct::system(0));
            if z.owner != VRF || z.data != new_data || z.lamports != lam {
                println!("size {size}, {n} pending, {keep} kept: came back as owner {} len {} lamports {} (expected {lam})", z.owner, z.data.len(), z.lamports);
                ok = false;
            }
        }
        done += 1;
        bad += !ok as i32;
    }
    println!("dlp round trips: {done} came back, {too_large} too large to delegate, {bad} failed");
    (done, bad)
}
