//! Delegation round trips.
use crate::dlp;
use crate::rt::*;
use crate::scen::*;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};

pub fn scen(depth: usize) -> Scen {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut w = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut w, "oracle-a", 0, 500);
    add_queue(&mut w, "oracle-b", 0, 500);
    w.put(k("dlp-buffer"), Acct { lamports: RICH, owner: dlp::ID, executable: false, data: vec![0; 500] });
    w.put(k("dlp-buffer-2"), Acct { lamports: RICH, owner: dlp::ID, executable: false, data: w.data(&queue(&b.id, 0)).to_vec() });
    let q = queue(&a.id, 0);
    let mut pend = w.clone();
    must(&mut pend, &[forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), 1)))], &[payer()]);
    must(&mut pend, &[forward(prog_y(), &ix_request(&payer(), &q, &Req::simple(prog_y(), 2).high()))], &[payer()]);
    pend.advance(1);
    // contents the delegation program may hand back: as committed by the ephemeral validator
    let d_empty = w.data(&q).to_vec();
    let mut x = pend.clone();
    let mut e = vec![];
    let its = crate::spec::decode_queue(x.data(&q), &mut e).unwrap().items;
    must(&mut x, &[ix_fulfil(a, &q, &its[0])], &[a.id]);
    let d_one = x.data(&q).to_vec();
    let d_two = pend.data(&q).to_vec();
    Scen {
        name: "delegation/round trips".into(),
        depth,
        max_states: 1_000_000,
        inits: vec![("empty queue".into(), St::new(w)), ("two pending".into(), St::new(pend))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            v.push(tx("delegate", vec![ix_delegate(&a.id, &q, 0)], &[a.id]));
            v.push(tx("delegate, other index", vec![ix_delegate(&a.id, &q, 1)], &[a.id]));
            v.push(tx("oracle b delegates a's queue", vec![ix_delegate(&b.id, &q, 0)], &[b.id]));
            let mut ix = ix_delegate(&a.id, &q, 0);
            ix.accounts[0].is_signer = false;
            v.push(tx("delegate without signature", vec![ix], &[mallory()]));
            v.push(tx("delegate b", vec![ix_delegate(&b.id, &queue(&b.id, 0), 0)], &[b.id]));
            for (l, d) in [("as is", s.w.data(&q).to_vec()), ("emptied", d_empty.clone()), ("with one", d_one.clone()), ("with two", d_two.clone())] {
                if s.w.owner(&q) == dlp::ID || l == "as is" {
                    // the fees of the handed back requests come along
                    let mut e = vec![];
                    let fees: u64 = crate::spec::decode_queue(&d, &mut e).map(|x| x.items.iter().map(|i| if i.high { 800_000 } else { 500_000 }).sum()).unwrap_or(0);
                    let short = (rent(d.len()) + fees).saturating_sub(s.w.lamports(&q));
                    let mut ixs = vec![];
                    if short > 0 {
                        ixs.push(solana_system_interface::instruction::transfer(&validator(), &q, short));
                    }
                    ixs.push(dlp::undelegate_ix(validator(), q, VRF, &d));
                    v.push(tx(format!("undelegate, {l}"), ixs, &[validator()]));
                }
            }
            v.push(tx("request undelegation", vec![ix_undelegate(&a.id, &q, 0)], &[a.id]));
            v.push(a_request(prog_x(), &q, &Req::simple(prog_x(), 5), "small"));
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(a, &q, n, it));
            }
            v.push(a_purge(a, 0));
            v.push(tx("close", vec![ix_close(&a.id, 0)], &[a.id]));
            v.push(tx("init", vec![ix_init_queue(&a.id, &a.id, 0, 500)], &[a.id]));
            v.push(tx("remove oracle", vec![ix_remove(&admin(), &a.id)], &[admin()]));
            // the external entry point, called by anybody
            let seeds: Vec<Vec<u8>> = vec![b"queue".to_vec(), a.id.to_bytes().to_vec(), vec![0]];
            for buf in ["dlp-buffer", "dlp-buffer-2"] {
                let ix = ix_process_undelegation(&q, &k(buf), &mallory(), &seeds);
                v.push(tx(format!("process_undelegation from {buf}"), vec![ix], &[mallory(), k(buf)]));
            }
            let ub = dlp::undelegate_buffer_pda(&q).0;
            let mut ix = ix_process_undelegation(&q, &ub, &mallory(), &seeds);
            ix.accounts[1].is_signer = false;
            v.push(tx("process_undelegation with an unsigned buffer", vec![ix], &[mallory()]));
            v.push(adv(241));
            v
        }),
    }
}

/// the ephemeral validator's view: the magic program exists, queues are served there and sent back
pub fn ephemeral(depth: usize) -> Scen {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut w = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut w, "oracle-a", 0, 500);
    add_queue(&mut w, "oracle-a", 9, 500);
    add_queue(&mut w, "oracle-b", 0, 500);
    w.set_prog(MAGIC, Prog::Magic);
    w.put(MAGIC_CTX, Acct { lamports: RICH, owner: MAGIC, executable: false, data: vec![] });
    Scen {
        name: "delegation/ephemeral validator".into(),
        depth,
        max_states: 1_000_000,
        inits: vec![("delegated queues".into(), St::new(w))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            for (i, q) in [(0u8, queue(&a.id, 0)), (9, queue(&a.id, 9))] {
                v.push(a_request(prog_x(), &q, &Req::simple(prog_x(), 5), &format!("on {i}")));
                for (n, it) in s.queue(&q).iter().enumerate() {
                    v.push(a_fulfil(a, &q, n, it));
                }
                v.push(a_purge(a, i));
                for (l, who) in [("a", a.id), ("b", b.id), ("mallory", mallory())] {
                    for j in [0u8, 9, 1] {
                        v.push(tx(format!("{l} asks for undelegation of {i} as {j}"), vec![ix_undelegate(&who, &q, j)], &[who]));
                    }
                }
                let mut ix = ix_undelegate(&a.id, &q, i);
                ix.accounts[0].is_signer = false;
                v.push(tx("undelegation without signature", vec![ix], &[mallory()]));
            }
            v.push(adv(241));
            v.push(adv(1));
            v
        }),
    }
}

/// after handing a queue out and back: accounts appended to process_undelegation, wrong seeds
pub fn external_cases() -> Vec<super::subst::Case> {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut out = vec![];
    let seedsets: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("queue a9", vec![b"queue".to_vec(), a.id.to_bytes().to_vec(), vec![9]]),
        ("queue a0", vec![b"queue".to_vec(), a.id.to_bytes().to_vec(), vec![0]]),
        ("queue b0", vec![b"queue".to_vec(), b.id.to_bytes().to_vec(), vec![0]]),
        ("mallory's queue", vec![b"queue".to_vec(), mallory().to_bytes().to_vec(), vec![0]]),
        ("record e", vec![b"oracle".to_vec(), oracle("oracle-e").id.to_bytes().to_vec()]),
        ("registry", vec![b"oracles".to_vec()]),
        ("identity", vec![b"identity".to_vec()]),
        ("nothing", vec![]),
        ("buffer a0", vec![b"buffer".to_vec(), queue(&a.id, 0).to_bytes().to_vec()]),
    ];
    let targets = [
        queue(&a.id, 9),
        queue(&a.id, 0),
        queue(&a.id, 2),
        queue(&a.id, 3),
        queue(&b.id, 0),
        queue(&mallory(), 0),
        record(&oracle("oracle-e").id),
        record(&a.id),
        registry(),
        vrf_identity(),
        pda(&[b"buffer", queue(&a.id, 0).as_ref()], &VRF),
        mallory(),
        k("absent"),
    ];
    let buffers = [k("dlp-buffer"), mallory(), k("fake-queue"), queue(&a.id, 3), k("zeroed"), k("absent")];
    for (sl, s) in &seedsets {
        for t in targets {
            for b in buffers {
                for sign_buf in [false, true] {
                    for sign_t in [false, true] {
                        let keys = [k("dlp-buffer"), mallory(), k("fake-queue"), k("zeroed"), k("absent")];
                        if (sign_buf && !keys.contains(&b)) || (sign_t && !keys.contains(&t)) {
                            continue;
                        }
                        let mut ix: Instruction = ix_process_undelegation(&t, &b, &mallory(), s);
                        ix.accounts[1].is_signer = sign_buf;
                        ix.accounts[0].is_signer = sign_t;
                        let mut signers = vec![mallory()];
                        if sign_buf {
                            signers.push(b)
                        }
                        if sign_t {
                            signers.push(t)
                        }
                        out.push(super::subst::Case {
                            label: format!("process_undelegation of {t} from buffer {b} (signs {sign_buf}, target signs {sign_t}) with seeds {sl}"),
                            ixs: vec![ix],
                            signers,
                        });
                    }
                }
            }
        }
    }
    // through a consumer program and through the (wrong) tags
    let mut ix = out[0].ixs[0].clone();
    ix.accounts.push(AccountMeta::new_readonly(VRF, false));
    out.push(super::subst::Case { label: "by CPI from x".into(), ixs: vec![forward(prog_x(), &ix)], signers: out[0].signers.clone() });
    out
}
