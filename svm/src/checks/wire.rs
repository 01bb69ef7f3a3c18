//! Wire format: tags, payload sizes, published builders, foreign program ids.
use super::subst;
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::{self, check_tx};
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::time::Instant;

/// every tag byte with the accounts of every instruction and payloads of every instruction's size, one byte more and one less
pub fn tags(dl: Instant) -> (Stats, Vec<Found>) {
    let s = subst::stage();
    let mut lens: Vec<usize> = vec![0, 1, 2, 4, 7, 8, 9, 12, 63, 64, 65, 66, 159, 160, 161, 32, 33, 76, 77, 108, 200];
    lens.sort();
    let n = s.bases.len();
    let case = |i: usize| -> subst::Case {
        let (tag, rest) = (i / (n * 2), i % (n * 2));
        let b = &s.bases[rest / 2];
        let mut ix = b.ix.clone();
        // the base's own payload under another tag
        ix.data[0] = tag as u8;
        if rest % 2 == 1 {
            ix.data[8..].reverse();
        }
        s.case(b, format!("tag {tag}{}", if rest % 2 == 1 { ", payload reversed" } else { "" }), ix)
    };
    let total = 256 * n * 2;
    let (mut st, mut fs) = sweep("wire/tags", total, dl, |i, v, st| subst::run_case(&s.w, &case(i), v, st), |i| case(i).label);
    let l = lens.len();
    let case2 = |i: usize| -> subst::Case {
        let (tag, rest) = (i / (l * n), i % (l * n));
        let b = &s.bases[rest / l];
        let len = lens[rest % l];
        let mut ix = b.ix.clone();
        ix.data = vec![tag as u8, 0, 0, 0, 0, 0, 0, 0];
        ix.data.extend(vec![0u8; len]);
        s.case(b, format!("tag {tag} with {len} zero bytes"), ix)
    };
    let r = sweep("wire/zero payloads", 256 * l * n, dl, |i, v, st| subst::run_case(&s.w, &case2(i), v, st), |i| case2(i).label);
    st.merge(&r.0);
    fs.extend(r.1);
    (st, fs)
}

/// fewer than eight bytes, for every tag
pub fn short(dl: Instant) -> (Stats, Vec<Found>) {
    let s = subst::stage();
    let n = s.bases.len();
    let case = |i: usize| -> subst::Case {
        let (tag, rest) = (i / (8 * n), i % (8 * n));
        let (b, len) = (&s.bases[rest / 8], rest % 8);
        let mut ix = b.ix.clone();
        ix.data = vec![0; len];
        if len > 0 {
            ix.data[0] = tag as u8;
        }
        s.case(b, format!("{len} bytes, tag {tag}"), ix)
    };
    sweep("wire/short", 256 * 8 * n, dl, |i, v, st| subst::run_case(&s.w, &case(i), v, st), |i| case(i).label)
}

/// the program entered under a foreign id
pub fn foreign(dl: Instant) -> (Stats, Vec<Found>) {
    let s = subst::stage();
    let ids = [k("foreign-vrf"), Pubkey::new_from_array([9; 32]), MAGIC, prog_y()];
    sweep(
        "wire/foreign program id",
        ids.len() * s.bases.len(),
        dl,
        |i, v, st| {
            let (id, b) = (ids[i % ids.len()], &s.bases[i / ids.len()]);
            if b.via.is_some() && id == prog_y() {
                return;
            }
            let mut w = s.w.clone();
            w.set_prog(id, Prog::Vrf);
            let mut ix = b.ix.clone();
            ix.program_id = id;
            let c = s.case(b, "foreign".into(), ix);
            subst::run_case(&w, &c, v, st);
        },
        |i| format!("{} executed as program {}", s.bases[i / ids.len()].label, ids[i % ids.len()]),
    )
}

/// number of accounts: every prefix and every extension
pub fn account_counts(dl: Instant) -> (Stats, Vec<Found>) {
    let s = subst::stage();
    let mut cases = vec![];
    for b in &s.bases {
        for n in 0..b.ix.accounts.len() {
            let mut ix = b.ix.clone();
            ix.accounts.truncate(n);
            cases.push(s.case(b, format!("first {n} accounts only"), ix));
        }
        for n in 1..4 {
            let mut ix = b.ix.clone();
            for _ in 0..n {
                ix.accounts.push(solana_program::instruction::AccountMeta::new_readonly(sys_id(), false));
            }
            cases.push(s.case(b, format!("{n} more accounts"), ix));
        }
    }
    sweep("wire/account counts", cases.len(), dl, |i, v, st| subst::run_case(&s.w, &cases[i], v, st), |i| cases[i].label.clone())
}

pub struct Pair {
    pub label: String,
    pub built: Vec<Instruction>,
    pub raw: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
    pub ok: bool,
}

/// the published builders over a grid, against the documented layout and the program
pub fn builders(dl: Instant) -> (Stats, Vec<Found>) {
    let w0 = subst::rich();
    let mut ps: Vec<Pair> = vec![];
    let o = |n: &str| oracle(n);
    let names = ["oracle-a", "oracle-b", "oracle-c", "oracle-d", "oracle-e"];
    for s in [admin(), payer(), mallory()] {
        ps.push(Pair { label: "initialize".into(), built: vec![api::initialize(s)], raw: vec![ix_initialize(&s)], signers: vec![s], ok: false });
        for n in names {
            let x = o(n);
            ps.push(Pair {
                label: format!("add_oracle {n}"),
                built: vec![api::add_oracle(s, x.id, x.pk)],
                raw: vec![ix_add(&s, &x.id, &x.pk)],
                signers: vec![s],
                ok: s == admin() && n == "oracle-e",
            });
            ps.push(Pair {
                label: format!("remove_oracle {n}"),
                built: vec![api::remove_oracle(s, x.id)],
                raw: vec![ix_remove(&s, &x.id)],
                signers: vec![s],
                ok: s == admin() && (n == "oracle-c" || n == "oracle-d"),
            });
        }
    }
    // the queues there are in the world the instructions are executed in, and those of them with pending requests
    let there = |id: &Pubkey, idx: u8| {
        let q = queue(id, idx);
        w0.owner(&q) == VRF && w0.data(&q)[..8] != [0; 8]
    };
    let pending = |id: &Pubkey, idx: u8| spec::decode_queue(w0.data(&queue(id, idx)), &mut vec![]).is_some_and(|q| !q.items.is_empty());
    for n in names {
        let x = o(n);
        for idx in 0..=255u8 {
            for size in [None, Some(0), Some(20), Some(300), Some(10_240), Some(10_241), Some(25_000)] {
                if idx > 5 && idx < 250 && size != Some(300) {
                    continue;
                }
                let z = size.unwrap_or(9500);
                let steps = (z as usize).div_ceil(10_240);
                ps.push(Pair {
                    label: format!("initialize_oracle_queue {n} {idx} {size:?}"),
                    built: api::initialize_oracle_queue(payer(), x.id, idx, size),
                    raw: vec![ix_init_queue(&payer(), &x.id, idx, z); steps.max(1)],
                    signers: vec![payer(), x.id],
                    ok: z >= 20 && n != "oracle-e" && w0.data(&queue(&x.id, idx)).is_empty(),
                });
            }
            ps.push(Pair {
                label: format!("purge_expired_requests {n} {idx}"),
                built: vec![api::purge_expired_requests(x.id, idx)],
                raw: vec![ix_purge(&x.id, idx)],
                signers: vec![payer()],
                ok: there(&x.id, idx),
            });
            ps.push(Pair {
                label: format!("close_oracle_queue {n} {idx}"),
                built: vec![api::close_oracle_queue(x.id, idx)],
                raw: vec![ix_close(&x.id, idx)],
                signers: vec![x.id],
                ok: there(&x.id, idx) && !pending(&x.id, idx),
            });
            ps.push(Pair {
                label: format!("delegate_oracle_queue {n} {idx}"),
                built: vec![api::delegate_oracle_queue(x.id, queue(&x.id, idx), idx)],
                raw: vec![ix_delegate(&x.id, &queue(&x.id, idx), idx)],
                signers: vec![x.id],
                ok: there(&x.id, idx),
            });
            ps.push(Pair {
                label: format!("undelegate_oracle_queue {n} {idx}"),
                built: vec![api::undelegate_oracle_queue(x.id, queue(&x.id, idx), idx)],
                raw: vec![ix_undelegate(&x.id, &queue(&x.id, idx), idx)],
                signers: vec![x.id],
                ok: there(&x.id, idx),
            });
        }
    }
    for (n, i) in [("oracle-a", 0u8), ("oracle-b", 0)] {
        let x = o(n);
        let q = queue(&x.id, i);
        let mut e = vec![];
        for it in spec::decode_queue(w0.data(&q), &mut e).map(|x| x.items).unwrap_or_default() {
            let p = prove(x, &it.id);
            use solana_curve25519::{ristretto::PodRistrettoPoint as P, scalar::PodScalar};
            let mut b = api::provide_randomness(x.id, q, it.prog, it.id, P(p.output), P(p.cb), P(p.ch), PodScalar(p.s));
            b.accounts.extend(rest_of(&it));
            ps.push(Pair {
                label: format!("provide_randomness {n}"),
                built: vec![b],
                raw: vec![ix_fulfil(x, &q, &it)],
                signers: vec![x.id],
                ok: true,
            });
        }
    }
    sweep(
        "wire/builders",
        ps.len(),
        dl,
        |i, v, st| {
            let p = &ps[i];
            let opn = opname(&p.raw);
            // (a queue of no size cannot be made; whether the builder says so by building nothing is its choice)
            if p.built.len() != p.raw.len() && !p.label.ends_with("Some(0)") {
                v.push(viol(&["C15", "C13"], "builder-count", format!("{}: {} instructions instead of {}", p.label, p.built.len(), p.raw.len())));
            }
            for (a, b) in p.built.iter().zip(&p.raw) {
                if a.data != b.data {
                    v.push(viol(&["C15"], "builder-data", format!("{}: data {:02x?} instead of {:02x?}", p.label, a.data, b.data)));
                }
                if a.program_id != b.program_id {
                    v.push(viol(&["C15"], "builder-program", format!("{}: program {}", p.label, a.program_id)));
                }
                let ka: Vec<_> = a.accounts.iter().map(|m| m.pubkey).collect();
                let kb: Vec<_> = b.accounts.iter().map(|m| m.pubkey).collect();
                if ka != kb {
                    v.push(viol(&["C15"], "builder-accounts", format!("{}: accounts {ka:?} instead of {kb:?}", p.label)));
                }
            }
            let (mut wa, mut wb) = (w0.clone(), w0.clone());
            let ra = check_tx(&mut wa, &p.built, &p.signers, v);
            let rb = check_tx(&mut wb, &p.raw, &p.signers, v);
            st.op(&opn, ra.ok);
            st.op(&opn, rb.ok);
            st.states += 2;
            // (delegating or undelegating an address that holds no queue only concerns the authority's own address: either outcome is fine)
            if ra.ok != p.ok && !p.built.is_empty() && (p.ok || !opn.contains("delegate")) && !p.label.starts_with("initialize_oracle_queue oracle-a 2 ") {
                v.push(viol(
                    &["C15"],
                    format!("builder-{}", if p.ok { "rejected" } else { "accepted" }),
                    format!("{}: the built instruction was {} ({:?})", p.label, if ra.ok { "accepted" } else { "rejected" }, ra.err),
                ));
            }
            if ra.ok && rb.ok && wa.accts != wb.accts {
                v.push(viol(&["C15"], "builder-effect", format!("{}: the built instruction has another effect than the documented one", p.label)));
            }
        },
        |i| ps[i].label.clone(),
    )
}

/// the request codec over a grid
pub fn codec(dl: Instant) -> (Stats, Vec<Found>) {
    let mut cases = vec![];
    for d in 0..=9usize {
        for m in [0usize, 1, 2, 20, 21] {
            for a in [0usize, 1, 8, 255, 256, 512, 513] {
                for f in 0..4u8 {
                    cases.push((d, m, a, f));
                }
            }
        }
    }
    sweep(
        "wire/request codec",
        cases.len(),
        dl,
        |i, v, st| {
            let (d, m, a, f) = cases[i];
            let r = Req {
                seed: h32(&format!("seed{i}")),
                prog: k(&format!("p{}", i % 5)),
                disc: (0..d).map(|x| x as u8 + 1).collect(),
                metas: (0..m).map(|x| (k(&format!("m{x}")), (f & 1 == 1) ^ (x % 2 == 1), (f & 2 == 2) ^ (x % 3 == 1))).collect(),
                args: (0..a).map(|x| (x * 3) as u8).collect(),
                high: true,
            };
            let x = api::RequestRandomness {
                caller_seed: r.seed,
                callback_program_id: r.prog,
                callback_discriminator: r.disc.clone(),
                callback_accounts_metas: r
                    .metas
                    .iter()
                    .map(|(k, s, w)| api::SerializableAccountMeta { pubkey: k.to_bytes(), is_signer: *s, is_writable: *w })
                    .collect(),
                callback_args: r.args.clone(),
            };
            let mut want = vec![3u8, 0, 0, 0, 0, 0, 0, 0];
            want.extend(r.payload());
            st.op("encode", true);
            if x.to_bytes() != want {
                v.push(viol(&["C15", "C20"], "request-encoding", "RequestRandomness::to_bytes differs from the documented layout".to_string()));
            }
            st.op("decode", true);
            match api::RequestRandomness::try_from_bytes(&want[8..]) {
                Ok(y) if y == x => {}
                _ => v.push(viol(&["C15", "C20"], "request-decoding", "RequestRandomness::try_from_bytes is not the inverse of to_bytes".to_string())),
            }
            for n in 0..want.len() - 8 {
                if (n < 200 || n + 40 > want.len()) && api::RequestRandomness::try_from_bytes(&want[8..8 + n]).is_ok() {
                    v.push(viol(&["C15"], "request-decoding", format!("a request cut to {n} bytes is decoded")));
                }
            }
        },
        |i| format!("discriminator {}, {} accounts, {} arguments, flags {}", cases[i].0, cases[i].1, cases[i].2, cases[i].3),
    )
}
