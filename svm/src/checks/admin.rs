//! Registry governance and queue creation / closing.
use crate::dlp;
use crate::engine::*;
use crate::rt::*;
use crate::scen::*;
use crate::spec::{self, check_tx, Content};
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::sync::Arc;
use std::time::Instant;

fn env_authority(a: Option<Pubkey>, label: &str) -> Act {
    Act {
        label: format!("upgrade authority := {label}"),
        d: Do::Env(Arc::new(move |w: &mut World| {
            let mut p = w.get(&program_data()).unwrap().clone();
            p.data = program_data_bytes(a);
            w.put(program_data(), p);
        })),
    }
}
pub fn donate(to: Pubkey, amount: u64, label: &str) -> Act {
    tx(
        format!("donate {amount} to {label}"),
        vec![solana_system_interface::instruction::transfer(&mallory(), &to, amount)],
        &[mallory()],
    )
}

/// registry life cycle: add / remove / re-add, authority changes, queues opened and closed in between
pub fn registry_scen(depth: usize) -> Scen {
    let (a, b, c) = (oracle("oracle-a"), oracle("oracle-b"), oracle("oracle-c"));
    let virgin = base();
    let mut init = base();
    must(&mut init, &[ix_initialize(&admin())], &[admin()]);
    let mut two = with_oracles(&["oracle-a", "oracle-b"]);
    add_queue(&mut two, "oracle-a", 0, 300);
    let four = with_oracles(&["oracle-a", "oracle-b", "oracle-c", "oracle-d"]);
    let admin2 = k("admin-2");
    Scen {
        name: "admin/registry".into(),
        depth,
        max_states: 2_000_000,
        inits: vec![
            ("virgin".into(), St::new(virgin)),
            ("initialised".into(), St::new(init)),
            ("two oracles, one queue".into(), St::new(two)),
            ("four oracles".into(), St::new(four)),
        ],
        acts: Box::new(move |s| {
            let auth = spec::authority(s.w.data(&program_data()));
            let mut v = vec![];
            v.push(tx("initialize", vec![ix_initialize(&mallory())], &[mallory()]));
            let who = [("admin", admin()), ("admin-2", admin2), ("mallory", mallory())];
            for (l, w) in who {
                let full = auth == Some(w);
                for (n, o) in [("a", a), ("b", b), ("c", c)] {
                    if full || n == "a" {
                        v.push(tx(format!("{l} adds {n}"), vec![ix_add(&w, &o.id, &o.pk)], &[w]));
                        v.push(tx(format!("{l} removes {n}"), vec![ix_remove(&w, &o.id)], &[w]));
                    }
                }
            }
            let w = auth.unwrap_or(admin());
            v.push(tx("re-add a with another key", vec![ix_add(&w, &a.id, &b.pk)], &[w]));
            v.push(tx("add and remove c", vec![ix_add(&w, &c.id, &c.pk), ix_remove(&w, &c.id)], &[w]));
            v.push(tx("remove and add a with another key", vec![ix_remove(&w, &a.id), ix_add(&w, &a.id, &c.pk)], &[w]));
            v.push(tx("add off-curve identity", vec![ix_add(&w, &vrf_identity(), &c.pk)], &[w]));
            v.push(tx("add default identity", vec![ix_add(&w, &Pubkey::default(), &c.pk)], &[w]));
            v.push(tx("operation 2", vec![ix_modify(&w, &a.id, &a.pk, 2)], &[w]));
            v.push(tx("operation 255", vec![ix_modify(&w, &c.id, &c.pk, 255)], &[w]));
            if auth == Some(admin()) {
                v.push(env_authority(Some(admin2), "admin-2"));
                v.push(env_authority(None, "none"));
            }
            for (n, o) in [("a", a), ("c", c)] {
                v.push(tx(format!("{n} opens queue 0"), vec![ix_init_queue(&o.id, &o.id, 0, 300)], &[o.id]));
                v.push(tx(format!("{n} closes queue 0"), vec![ix_close(&o.id, 0)], &[o.id]));
            }
            v.push(tx("a starts a large queue 1", vec![ix_init_queue(&a.id, &a.id, 1, 11_000)], &[a.id]));
            v.push(donate(record(&c.id), 1_000_000, "record c"));
            v.push(donate(registry(), 900_000, "the registry"));
            v.push(adv(199));
            v.push(adv(1));
            v
        }),
    }
}

/// queue creation in steps, mixing sizes, other instructions and other oracles
pub fn init_scen(depth: usize, sizes: &'static [u32]) -> Scen {
    let (a, b) = (oracle("oracle-a"), oracle("oracle-b"));
    let mut w = with_oracles(&["oracle-a"]);
    w.put(b.id, Acct::system(RICH));
    let mut fresh = base();
    must(&mut fresh, &[ix_initialize(&admin())], &[admin()]);
    must(&mut fresh, &[ix_add(&admin(), &a.id, &a.pk)], &[admin()]);
    let q = queue(&a.id, 0);
    Scen {
        name: format!("init/steps {sizes:?}"),
        depth,
        max_states: 400_000,
        inits: vec![("registered long ago".into(), St::new(w)), ("just registered".into(), St::new(fresh))],
        acts: Box::new(move |s| {
            let mut v = vec![];
            for z in sizes {
                v.push(tx(format!("init {z}"), vec![ix_init_queue(&payer(), &a.id, 0, *z)], &[payer(), a.id]));
            }
            let z = *sizes.last().unwrap();
            v.push(tx(
                format!("init {z} x3 in one transaction"),
                vec![ix_init_queue(&a.id, &a.id, 0, z), ix_init_queue(&a.id, &a.id, 0, z), ix_init_queue(&a.id, &a.id, 0, z)],
                &[a.id],
            ));
            // oracle does not sign
            let mut ix = ix_init_queue(&mallory(), &a.id, 0, sizes[0]);
            ix.accounts[1].is_signer = false;
            v.push(tx("init by mallory", vec![ix], &[mallory()]));
            v.push(tx("init by an unregistered oracle", vec![ix_init_queue(&b.id, &b.id, 0, sizes[0])], &[b.id]));
            v.push(a_request(prog_x(), &q, &Req::simple(prog_x(), 1), "small"));
            for (n, it) in s.queue(&q).iter().enumerate() {
                v.push(a_fulfil(a, &q, n, it));
            }
            v.push(tx("close", vec![ix_close(&a.id, 0)], &[a.id]));
            v.push(tx(
                "close and init",
                vec![ix_close(&a.id, 0), ix_init_queue(&a.id, &a.id, 0, sizes[0])],
                &[a.id],
            ));
            v.push(tx("delegate", vec![ix_delegate(&a.id, &q, 0)], &[a.id]));
            v.push(a_purge(a, 0));
            v.push(tx("remove oracle", vec![ix_remove(&admin(), &a.id)], &[admin()]));
            v.push(donate(q, rent(300) + 5, "queue"));
            v.push(adv(199));
            v.push(adv(1));
            v
        }),
    }
}

/// every size of interest: exact number of steps, exact final size, usable, closed with all lamports back
pub fn sizes(dl: Instant, thorough: bool) -> (Stats, Vec<Found>) {
    let mut z: Vec<u32> = (0..=48).collect();
    z.extend(250..260);
    z.extend(10_230..10_250);
    z.extend(20_470..20_490);
    z.extend(65_530..65_545);
    z.extend([9_500, 30_719, 30_720, 30_721, 40_000, 102_400, 102_401, 300_000]);
    if thorough {
        z.extend([1_000_000, 10_485_759, 10_485_760, 10_485_761, 11_000_000, u32::MAX]);
    }
    let a = oracle("oracle-a");
    let w0 = with_oracles(&["oracle-a"]);
    sweep(
        "init/sizes",
        z.len() * 2,
        dl,
        |i, v, st| {
            let (size, builder) = (z[i / 2], i % 2 == 1);
            let mut w = w0.clone();
            let q = queue(&a.id, 7);
            let steps = (size as usize).div_ceil(10_240);
            let ixs: Vec<Instruction> = if builder {
                api::initialize_oracle_queue(a.id, a.id, 7, Some(size))
            } else {
                vec![ix_init_queue(&a.id, &a.id, 7, size); steps.clamp(1, 1100)]
            };
            let valid = (20..=10 * 1024 * 1024).contains(&size);
            // a size of 0 may give one refused instruction or none
            if builder && ixs.len() != steps && ixs.len() > 1 {
                v.push(viol(&["C13", "C15"], "builder-steps", format!("{} instructions for {size} bytes", ixs.len())));
            }
            // the chunks of one transaction
            for (n, ix) in ixs.iter().enumerate() {
                let o = check_tx(&mut w, std::slice::from_ref(ix), &[a.id], v);
                st.op("init_queue", o.ok);
                if !o.ok {
                    if valid {
                        v.push(viol(&["C13"], "init-step-rejected", format!("step {n} of the creation of a {size}-byte queue failed: {:?}", o.err)));
                    }
                    break;
                }
            }
            let got = w.data(&q);
            if valid {
                if got.len() != size as usize || got[..8] != [3, 0, 0, 0, 0, 0, 0, 0] {
                    v.push(viol(&["C13"], "size-mismatch", format!("asked for {size} bytes, the queue has {} and header {:?}", got.len(), &got.get(..8))));
                }
                let o = check_tx(&mut w, &[ix_init_queue(&a.id, &a.id, 7, size)], &[a.id], v);
                st.op("init_queue", o.ok);
                if o.ok {
                    v.push(viol(&["C13"], "reinitialised", format!("a usable queue of {size} bytes was initialised again")));
                }
                let o = check_tx(&mut w, &[forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), 3)))], &[payer()], v);
                st.op("request", o.ok);
                if !o.ok {
                    let o = check_tx(&mut w, &[ix_close(&a.id, 7)], &[a.id], v);
                    st.op("close", o.ok);
                }
            } else if w.owner(&q) == VRF && got.len() >= 20 && got[..8] == [3, 0, 0, 0, 0, 0, 0, 0] {
                v.push(viol(&["C13"], "size-mismatch", format!("a queue of impossible size {size} was created")));
            }
            st.states += 1;
        },
        |i| format!("size {} ({})", z[i / 2], if i % 2 == 1 { "builder" } else { "raw" }),
    )
}

/// every queue index, created, used, delegated or closed by its oracle; wrong indices rejected
pub fn indices(dl: Instant) -> (Stats, Vec<Found>) {
    let a = oracle("oracle-a");
    let w0 = with_oracles(&["oracle-a", "oracle-b"]);
    sweep(
        "init/indices",
        256,
        dl,
        |i, v, st| {
            let idx = i as u8;
            let mut w = w0.clone();
            let q = queue(&a.id, idx);
            let mut go = |w: &mut World, n: &str, ix: Instruction, s: &[Pubkey]| {
                let o = check_tx(w, &[ix], s, v);
                st.op(n, o.ok);
                o.ok
            };
            // deterministic variants around the right index
            for d in [1u8, 128, 255] {
                let bad = idx.wrapping_add(d);
                let mut ix = ix_init_queue(&a.id, &a.id, bad, 400);
                ix.accounts[3].pubkey = q;
                go(&mut w, "init_queue", ix, &[a.id]);
            }
            go(&mut w, "init_queue", ix_init_queue(&a.id, &a.id, idx, 400), &[a.id]);
            go(&mut w, "request", forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), 3))), &[payer()]);
            go(&mut w, "request", forward(prog_x(), &ix_request(&payer(), &q, &Req::simple(prog_x(), 4))), &[payer()]);
            w.advance(241);
            let mut e = vec![];
            let its = spec::decode_queue(w.data(&q), &mut e).map(|q| q.items).unwrap_or_default();
            if let Some(it) = its.last() {
                go(&mut w, "provide", ix_fulfil(a, &q, it), &[a.id]);
            }
            for d in [1u8, 128, 255] {
                let bad = idx.wrapping_add(d);
                let mut ix = ix_purge(&a.id, bad);
                ix.accounts[1].pubkey = q;
                go(&mut w, "purge", ix, &[mallory()]);
                let mut ix = ix_close(&a.id, bad);
                ix.accounts[2].pubkey = q;
                go(&mut w, "close", ix, &[a.id]);
                go(&mut w, "delegate", ix_delegate(&a.id, &q, bad), &[a.id]);
            }
            go(&mut w, "purge", ix_purge(&a.id, idx), &[mallory()]);
            let mut w2 = w.clone();
            go(&mut w, "close", ix_close(&a.id, idx), &[a.id]);
            go(&mut w2, "delegate", ix_delegate(&a.id, &q, idx), &[a.id]);
            st.states += 8;
        },
        |i| format!("queue index {i}"),
    )
}

/// all slot distances between registration and queue creation around the 200-slot wait
pub fn waits(dl: Instant) -> (Stats, Vec<Found>) {
    let a = oracle("oracle-a");
    let mut w0 = base();
    must(&mut w0, &[ix_initialize(&admin())], &[admin()]);
    let mut cases: Vec<(u64, u64)> = vec![];
    for reg in [0u64, 1, 150, 199, 200, 1000, (1 << 32) - 100, 1 << 32, u64::MAX - 250] {
        for d in (0..=5).chain(190..=210).chain([255, 256, 257, 1000, 1 << 32]) {
            if let Some(s) = reg.checked_add(d) {
                cases.push((reg, s));
            }
        }
        cases.push((reg, u64::MAX));
        cases.push((reg, reg.saturating_sub(1)));
        cases.push((reg, reg.saturating_sub(200)));
        cases.push((reg, 0));
    }
    sweep(
        "init/registration wait",
        cases.len(),
        dl,
        |i, v, st| {
            let (reg, now) = cases[i];
            let mut w = w0.clone();
            w.set_slot(reg, 1, h32("r"));
            let o = check_tx(&mut w, &[ix_add(&admin(), &a.id, &a.pk)], &[admin()], v);
            st.op("modify_oracle", o.ok);
            w.set_slot(now, 2, h32("n"));
            for size in [300, 12_000] {
                let mut w = w.clone();
                let o = check_tx(&mut w, &[ix_init_queue(&a.id, &a.id, 0, size)], &[a.id], v);
                st.op("init_queue", o.ok);
            }
            st.states += 2;
        },
        |i| format!("registered at slot {}, queue created at slot {}", cases[i].0, cases[i].1),
    )
}

/// loader states: which ProgramData contents make whom the admin
pub fn authorities(dl: Instant) -> (Stats, Vec<Found>) {
    use solana_loader_v3_interface::state::UpgradeableLoaderState as U;
    let a = oracle("oracle-a");
    let mut w0 = base();
    must(&mut w0, &[ix_initialize(&admin())], &[admin()]);
    let mut datas: Vec<(String, Vec<u8>)> = vec![
        ("authority admin".into(), program_data_bytes(Some(admin()))),
        ("authority mallory".into(), program_data_bytes(Some(mallory()))),
        ("no authority".into(), program_data_bytes(None)),
        ("empty".into(), vec![]),
        ("zeroes".into(), vec![0; 109]),
        ("buffer".into(), bincode::serialize(&U::Buffer { authority_address: Some(admin()) }).unwrap()),
        ("program".into(), bincode::serialize(&U::Program { programdata_address: admin() }).unwrap()),
        ("uninitialized".into(), bincode::serialize(&U::Uninitialized).unwrap()),
    ];
    for n in 0..45 {
        let mut d = program_data_bytes(Some(admin()));
        d.truncate(n);
        datas.push((format!("cut to {n} bytes"), d));
    }
    let who = [admin(), mallory(), a.id, VRF, program_data()];
    sweep(
        "admin/loader states",
        datas.len() * who.len() * 2,
        dl,
        |i, v, st| {
            let (d, rest) = (&datas[i / (who.len() * 2)], i % (who.len() * 2));
            let (s, op) = (who[rest / 2], rest % 2);
            let mut w = w0.clone();
            if op == 1 {
                must(&mut w, &[ix_add(&admin(), &a.id, &a.pk)], &[admin()]);
            }
            let mut p = w.get(&program_data()).unwrap().clone();
            p.data = d.1.clone();
            w.put(program_data(), p);
            let ix = if op == 0 { ix_add(&s, &a.id, &a.pk) } else { ix_remove(&s, &a.id) };
            let o = check_tx(&mut w, &[ix], &[s], v);
            st.op("modify_oracle", o.ok);
        },
        |i| format!("program data: {}, signer {}, op {}", datas[i / (who.len() * 2)].0, who[(i % (who.len() * 2)) / 2], i % 2),
    )
}

/// identities: every small byte string and many keys, added by the admin
pub fn identities(dl: Instant) -> (Stats, Vec<Found>) {
    let mut w0 = base();
    must(&mut w0, &[ix_initialize(&admin())], &[admin()]);
    let mut ids: Vec<Pubkey> = vec![Pubkey::default(), sys_id(), VRF, vrf_identity(), registry(), prog_x(), dlp::ID, api::DEFAULT_EPHEMERAL_QUEUE];
    for i in 0..=255u8 {
        ids.push(Pubkey::new_from_array([i; 32]));
        let mut b = [0u8; 32];
        b[0] = i;
        ids.push(Pubkey::new_from_array(b));
        let mut b = [0u8; 32];
        b[31] = i;
        ids.push(Pubkey::new_from_array(b));
        ids.push(k(&format!("id-{i}")));
        ids.push(record(&k(&format!("id-{i}"))));
    }
    let a = oracle("oracle-a");
    sweep(
        "admin/identities",
        ids.len(),
        dl,
        |i, v, st| {
            let mut w = w0.clone();
            let o = check_tx(&mut w, &[ix_add(&admin(), &ids[i], &a.pk)], &[admin()], v);
            st.op("modify_oracle", o.ok);
            if o.ok {
                let o = check_tx(&mut w, &[ix_add(&admin(), &ids[i], &a.pk)], &[admin()], v);
                st.op("modify_oracle", o.ok);
                let o = check_tx(&mut w, &[ix_remove(&admin(), &ids[i])], &[admin()], v);
                st.op("modify_oracle", o.ok);
            }
        },
        |i| format!("identity {}", ids[i]),
    )
}

/// a registry with many oracles: add n, remove each position, re-add
pub fn big_registry(dl: Instant, n: usize) -> (Stats, Vec<Found>) {
    let mut w = base();
    must(&mut w, &[ix_initialize(&admin())], &[admin()]);
    let ids: Vec<Pubkey> = (0..n).map(|i| k(&format!("many-{i}"))).collect();
    let pk = oracle("oracle-a").pk;
    let mut states = vec![w.clone()];
    for id in &ids {
        must(&mut w, &[ix_add(&admin(), id, &pk)], &[admin()]);
        states.push(w.clone());
    }
    sweep(
        "admin/large registry",
        n * 2,
        dl,
        |i, v, st| {
            let (j, all) = (i / 2, i % 2 == 1);
            let mut w = if all { states[n].clone() } else { states[j + 1].clone() };
            for ix in [ix_remove(&admin(), &ids[j]), ix_remove(&admin(), &ids[j]), ix_add(&admin(), &ids[j], &pk), ix_add(&admin(), &ids[j], &pk)] {
                let o = check_tx(&mut w, &[ix], &[admin()], v);
                st.op("modify_oracle", o.ok);
            }
            let mut e = vec![];
            let abs = spec::alpha(&w, &mut e);
            if !matches!(abs.get(&registry()).map(|x| &x.content), Some(Content::Registry(_))) {
                v.push(viol(&["C12"], "registry-undecodable", "the registry cannot be decoded".to_string()));
            }
            st.states += 4;
        },
        |i| format!("registry of {} oracles, number {}", if i % 2 == 1 { n } else { i / 2 + 1 }, i / 2),
    )
}
