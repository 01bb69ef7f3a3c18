//! Scenarios: initial chain, what users do and when, scheduled outages.
use crate::sim::{me, Act, Setup};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use svm::rt::{Acct, Behavior, Prog, World};
use svm::world::*;

fn acct(w: &mut World, n: &str) -> Pubkey {
    let p = k(n);
    w.put(p, Acct { lamports: RICH, owner: prog_x(), executable: false, data: vec![0; 16] });
    p
}
fn req(w: &mut World, idx: u8, r: &Req) {
    must(w, &[ix_request(&payer(), &queue(&me(), idx), r)], &[payer(), svm::rt::identity_of(&r.prog)]);
}
fn ask(idx: u8, r: &Req) -> Act {
    Act::Tx(vec![ix_request(&payer(), &queue(&me(), idx), r)], vec![payer(), svm::rt::identity_of(&r.prog)])
}
fn rich(w: &mut World, seed: u8) -> Req {
    let (a, b) = (acct(w, "meta-a"), acct(w, "meta-b"));
    Req {
        seed: [seed; 32],
        prog: prog_x(),
        disc: vec![seed, 2, 3],
        metas: vec![(a, false, true), (b, false, false), (vrf_identity(), false, false)],
        args: vec![7; 20],
        high: true,
    }
}
fn failing_prog() -> Pubkey {
    k("program-fails")
}
fn base(queues: u8) -> World {
    let mut w = with_oracles(&["oracle-a", "oracle-b"]);
    w.set_prog(failing_prog(), Prog::Consumer(Behavior::Fail));
    for i in 0..queues {
        add_queue(&mut w, "oracle-a", i, 1500);
    }
    w
}
fn setup(name: &'static str, world: World) -> Setup {
    Setup {
        name,
        world,
        script: vec![],
        laser: false,
        skip_preflight: true,
        outage: vec![],
        stream_down: vec![],
        failing: BTreeSet::new(),
        min: 0,
        settle: 45_000,
        rollback: false,
        stats: false,
        stall: 300 * mcrt::MS,
        preempt: true,
    }
}

pub fn all() -> Vec<Setup> {
    let mut v = vec![];
    // two requests wait when the service starts
    {
        let mut w = base(1);
        let r = rich(&mut w, 1);
        req(&mut w, 0, &r);
        req(&mut w, 0, &Req::simple(prog_y(), 2));
        w.advance(1);
        v.push(setup("pending", w));
    }
    // requests arrive while it runs
    {
        let mut w = base(1);
        let r = rich(&mut w, 3);
        let mut s = setup("arrive", w);
        s.script = vec![(1155, ask(0, &Req::simple(prog_x(), 4))), (1175, ask(0, &r))];
        s.stats = true;
        v.push(s);
    }
    // the same over the other stream
    {
        let mut w = base(1);
        let r = rich(&mut w, 3);
        let mut s = setup("arrive-laser", w);
        s.laser = true;
        s.script = vec![(1155, ask(0, &Req::simple(prog_x(), 4))), (1175, ask(0, &r))];
        s.stats = true;
        v.push(s);
    }
    // another instance of the oracle answers first, around a rescan
    {
        let w = base(1);
        let mut s = setup("elsewhere", w);
        s.script = vec![
            (1165, ask(0, &Req::simple(prog_x(), 5))),
            (1205, Act::AnswerElsewhere(0)),
            (29_990, ask(0, &Req::simple(prog_x(), 6))),
            (30_050, Act::AnswerElsewhere(0)),
        ];
        v.push(s);
    }
    // the rescan is the first to see a request, which is answered elsewhere right then
    {
        let w = base(1);
        let mut s = setup("rescan", w);
        s.stream_down = vec![(29_900, 30_020)];
        s.script = vec![
            (29_990, ask(0, &Req::simple(prog_x(), 39))),
            (30_065, Act::AnswerElsewhere(0)),
            (30_380, ask(0, &Req::simple(prog_x(), 40))),
        ];
        v.push(s);
    }
    // a request is answered elsewhere while the rescan of the start-up is under way
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(prog_x(), 7));
        w.advance(1);
        let mut s = setup("elsewhere-early", w);
        s.script = vec![(45, Act::AnswerElsewhere(0)), (390, ask(0, &Req::simple(prog_x(), 8)))];
        v.push(s);
    }
    // two queues
    {
        let mut w = base(2);
        req(&mut w, 0, &Req::simple(prog_x(), 9));
        req(&mut w, 1, &Req::simple(prog_y(), 10));
        w.advance(1);
        let mut s = setup("two-queues", w);
        s.stats = true;
        s.script = vec![(1160, ask(1, &Req::simple(prog_x(), 11))), (2770, ask(0, &Req::simple(prog_x(), 12).high()))];
        v.push(s);
    }
    // a callback that always fails must not keep others from being answered
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(failing_prog(), 13));
        req(&mut w, 0, &Req::simple(prog_x(), 14));
        w.advance(1);
        let mut s = setup("failing", w);
        s.failing.insert(failing_prog().to_bytes());
        s.script = vec![(1560, ask(0, &Req::simple(prog_y(), 15)))];
        v.push(s);
    }
    // a request that cannot be answered expires while it is being worked on, and is purged
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(failing_prog(), 16));
        w.advance(234);
        let mut s = setup("expiring", w);
        s.failing.insert(failing_prog().to_bytes());
        s.script = vec![(1970, ask(0, &Req::simple(prog_y(), 17)))];
        v.push(s);
    }
    // while it expires, another that cannot be answered keeps the blockhash moving
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(failing_prog(), 61));
        w.advance(236);
        let mut s = setup("expiring-two", w);
        s.failing.insert(failing_prog().to_bytes());
        s.script = vec![(540, ask(0, &Req::simple(failing_prog(), 62)))];
        v.push(s);
    }
    // slots which need more than 32 bits
    {
        let mut w = base(2);
        w.slot = (1 << 32) - 245;
        req(&mut w, 0, &Req::simple(prog_x(), 63));
        w.advance(239);
        req(&mut w, 1, &Req::simple(prog_y(), 64));
        w.advance(2);
        let mut s = setup("late-slots", w);
        s.stats = true;
        s.script = vec![(1170, ask(1, &Req::simple(prog_x(), 65))), (2770, ask(0, &Req::simple(prog_y(), 66)))];
        v.push(s);
    }
    // a request just old enough, and one just not, after a longer stop of the service
    {
        let mut w = base(2);
        req(&mut w, 0, &Req::simple(prog_x(), 18));
        w.advance(1);
        req(&mut w, 1, &Req::simple(prog_x(), 19));
        w.advance(240);
        let s = setup("expired", w);
        v.push(s);
    }
    // outages
    {
        let w = base(1);
        let mut s = setup("outage", w);
        s.script = vec![(1000, ask(0, &Req::simple(prog_x(), 20))), (3000, ask(0, &Req::simple(prog_x(), 21)))];
        s.outage = vec![(1020, 4000)];
        v.push(s);
    }
    // so long that the workers give up
    {
        let w = base(1);
        let mut s = setup("long-outage", w);
        s.script = vec![(1170, ask(0, &Req::simple(prog_x(), 60)))];
        s.outage = vec![(1190, 130_000)];
        v.push(s);
    }
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(prog_x(), 22));
        w.advance(1);
        let mut s = setup("outage-at-start", w);
        s.outage = vec![(30, 2500)];
        v.push(s);
    }
    {
        let w = base(1);
        let mut s = setup("stream-down", w);
        s.script = vec![(1170, ask(0, &Req::simple(prog_x(), 23)))];
        s.stream_down = vec![(1100, 1300)];
        v.push(s);
    }
    // accounts which are not this oracle's queues
    {
        let mut w = base(1);
        add_queue(&mut w, "oracle-b", 0, 1500);
        let qb = queue(&oracle("oracle-b").id, 0);
        let foreign = ix_request(&payer(), &qb, &Req::simple(prog_x(), 24));
        must(&mut w, &[foreign], &[payer(), svm::rt::identity_of(&prog_x())]);
        let own = {
            let mut t = w.clone();
            req(&mut t, 0, &Req::simple(prog_x(), 25));
            t.data(&queue(&me(), 0)).to_vec()
        };
        req(&mut w, 0, &Req::simple(prog_y(), 26));
        let mut bad = own.clone();
        for b in bad[8..].iter_mut() {
            *b = 0xff;
        }
        for (n, d) in [own.clone(), own[..30].to_vec(), own[..8].to_vec(), own[..20].to_vec(), bad.clone()].into_iter().enumerate() {
            w.put(k(&format!("junk{n}")), Acct { lamports: RICH, owner: VRF, executable: false, data: d });
        }
        let mut s = setup("foreign", w);
        s.script = vec![
            (1000, Act::Junk(k("junk-x"), VRF, own.clone())),
            (1500, Act::Junk(k("junk-y"), VRF, bad.clone())),
            (2000, Act::Junk(k("junk-z"), VRF, own[..9].to_vec())),
            (4500, ask(0, &Req::simple(prog_x(), 27))),
            (6000, Act::Tx(vec![ix_request(&payer(), &qb, &Req::simple(prog_x(), 28))], vec![payer(), svm::rt::identity_of(&prog_x())])),
        ];
        s.stats = true;
        v.push(s.clone());
        s.name = "foreign-laser";
        s.laser = true;
        v.push(s);
    }
    // the node simulates before it forwards
    {
        let mut w = base(1);
        req(&mut w, 0, &Req::simple(prog_x(), 29));
        let mut s = setup("preflight", w);
        s.skip_preflight = false;
        s.script = vec![(1000, ask(0, &Req::simple(prog_x(), 30)))];
        v.push(s);
    }
    // all shapes of requests, holes in the queue, ages around the limit
    {
        let mut w = base(0);
        for i in 0..3 {
            add_queue(&mut w, "oracle-a", i, 6000);
        }
        let a: Vec<Pubkey> = (0..20).map(|i| acct(&mut w, &format!("meta-{i}"))).collect();
        let shape = |seed: u8, metas: Vec<(Pubkey, bool, bool)>, disc: usize, args: usize, high: bool| Req {
            seed: [seed; 32],
            prog: if seed % 2 == 0 { prog_x() } else { prog_y() },
            disc: (0..disc).map(|i| seed ^ i as u8).collect(),
            metas,
            args: (0..args).map(|i| (i * 7) as u8).collect(),
            high,
        };
        let m = |n: usize| (0..n).map(|i| (a[i % 20], false, i % 3 == 0)).collect::<Vec<_>>();
        req(&mut w, 0, &shape(50, m(1), 8, 0, false));
        req(&mut w, 0, &shape(51, m(20), 8, 60, true));
        req(&mut w, 0, &shape(52, m(0), 0, 0, false));
        req(&mut w, 0, &shape(53, m(5), 3, 33, false));
        req(&mut w, 0, &shape(54, vec![(a[3], false, true), (a[3], false, false), (vrf_identity(), false, false)], 1, 1, true));
        // the second one leaves a hole
        w.advance(1);
        let qv = svm::spec::decode_queue(w.data(&queue(&me(), 0)), &mut vec![]).expect("queue");
        let it = qv.items[1].clone();
        let o = oracle("oracle-a");
        let rest: Vec<_> = it
            .metas
            .iter()
            .map(|(k, wr)| solana_program::instruction::AccountMeta { pubkey: *k, is_signer: false, is_writable: *wr })
            .collect();
        let ix = ix_provide(&o.id, &queue(&me(), 0), &it.prog, &it.id, &prove(o, &it.id), &rest);
        must(&mut w, &[ix], &[o.id]);
        // queues 1 and 2: on both sides of the limit when the service starts
        req(&mut w, 1, &shape(55, m(2), 8, 4, false));
        w.advance(1);
        req(&mut w, 1, &shape(56, m(3), 8, 4, true));
        req(&mut w, 2, &shape(57, m(2), 8, 4, false));
        w.advance(240);
        req(&mut w, 0, &shape(58, m(7), 8, 40, true));
        w.advance(1);
        let mut s = setup("shapes", w);
        s.script = vec![(1190, ask(2, &shape(59, m(9), 5, 9, true)))];
        v.push(s);
    }
    // requests come and go: statistics
    {
        let w = base(2);
        let mut s = setup("statistics", w);
        s.stats = true;
        s.script = vec![
            (370, ask(0, &Req::simple(prog_x(), 31))),
            (430, Act::Stats),
            (760, ask(1, &Req::simple(prog_x(), 32))),
            (1560, ask(0, &Req::simple(prog_x(), 33))),
            (1560, ask(0, &Req::simple(prog_x(), 34))),
            (1590, Act::Stats),
            (2770, ask(0, &Req::simple(prog_x(), 35))),
        ];
        v.push(s);
    }
    // long silence, then a request
    {
        let w = base(1);
        let mut s = setup("idle", w);
        s.min = 125_000;
        s.script = vec![(124_360, ask(0, &Req::simple(prog_x(), 36)))];
        v.push(s.clone());
        s.name = "idle-outage";
        s.outage = vec![(59_000, 66_000)];
        s.min = 90_000;
        s.script = vec![(89_160, ask(0, &Req::simple(prog_x(), 37)))];
        v.push(s);
    }
    // fork switches
    {
        let w = base(1);
        let mut s = setup("fork", w);
        s.rollback = true;
        s.script = vec![(1170, ask(0, &Req::simple(prog_x(), 38)))];
        v.push(s);
    }
    // a crowded queue, its front occupied by requests that cannot be answered
    {
        let mut w = base(0);
        add_queue(&mut w, "oracle-a", 0, 9000);
        for i in 0..5 {
            req(&mut w, 0, &Req::simple(failing_prog(), 100 + i));
        }
        for i in 0..27 {
            let p = if i % 2 == 0 { prog_x() } else { prog_y() };
            req(&mut w, 0, &Req::simple(p, 110 + i));
        }
        w.advance(1);
        let mut s = setup("long-crowd", w);
        s.failing.insert(failing_prog().to_bytes());
        s.script = (0..9).map(|i| (1560 + 410 * i as u64, ask(0, &Req::simple(prog_y(), 150 + i)))).collect();
        v.push(s);
    }
    // many queues, some of high index, some expired, requests in turn
    {
        let mut w = base(0);
        let idx: Vec<u8> = (0..10).chain([63, 64, 127, 128, 200, 254, 255]).collect();
        for i in &idx {
            add_queue(&mut w, "oracle-a", *i, 900);
        }
        for (n, i) in idx.iter().enumerate() {
            if n % 3 == 0 {
                req(&mut w, *i, &Req::simple(prog_x(), *i));
            }
        }
        w.advance(242);
        for (n, i) in idx.iter().enumerate() {
            if n % 3 == 1 {
                req(&mut w, *i, &Req::simple(prog_y(), *i));
            }
        }
        w.advance(1);
        let mut s = setup("long-queues", w);
        s.stats = true;
        s.script = idx.iter().enumerate().map(|(n, i)| (1170 + 170 * n as u64, ask(*i, &Req::simple(prog_x(), i ^ 0x55)))).collect();
        v.push(s.clone());
        s.name = "long-queues-laser";
        s.laser = true;
        v.push(s);
    }
    // twenty minutes of service
    {
        let w = base(2);
        let mut s = setup("long-service", w);
        s.stats = true;
        s.script = (0..120u64)
            .map(|i| (1170 + 10_010 * i, ask((i % 3 == 1) as u8, &Req::simple(if i % 2 == 0 { prog_x() } else { prog_y() }, i as u8))))
            .collect();
        v.push(s.clone());
        s.name = "long-service-outages";
        s.stats = false;
        s.outage = (1..8).map(|i| (120_000 * i, 120_000 * i + 9_000)).collect();
        s.stream_down = (1..7).map(|i| (150_000 * i, 150_000 * i + 33_000)).collect();
        v.push(s);
    }
    v
}
/// scenarios judged for a property
pub fn of(prop: &str) -> Vec<Setup> {
    let names: &[&str] = match prop {
        "C23" => &["rescan", "pending", "arrive", "arrive-laser", "elsewhere", "elsewhere-early", "two-queues", "failing", "expiring", "outage", "long-crowd", "long-service", "long-queues"],
        "C24" => &["late-slots", "shapes", "pending", "arrive", "arrive-laser", "two-queues", "expired", "expiring", "foreign", "foreign-laser", "preflight", "long-crowd", "long-queues"],
        "C25" => &["shapes", "pending", "arrive", "arrive-laser", "two-queues", "failing", "expiring", "expired", "outage", "long-outage", "outage-at-start", "stream-down", "preflight", "foreign", "fork", "long-crowd", "long-queues", "long-queues-laser", "long-service", "long-service-outages"],
        "C26" => &["late-slots", "statistics", "arrive", "arrive-laser", "two-queues", "foreign", "foreign-laser", "long-service", "long-queues", "long-queues-laser"],
        "C27" => &["expiring-two", "late-slots", "idle", "idle-outage", "pending", "arrive", "expiring", "outage", "expired", "long-service", "long-service-outages"],
        _ => &[],
    };
    all().into_iter().filter(|s| names.contains(&s.name)).collect()
}
/// those explored to two deviations
pub fn deep(prop: &str) -> &'static [&'static str] {
    match prop {
        "C23" => &["elsewhere-early", "arrive"],
        "C24" => &["expired", "arrive-laser"],
        "C25" => &["arrive-laser", "outage-at-start", "fork"],
        "C26" => &["statistics"],
        "C27" => &["pending", "arrive"],
        _ => &[],
    }
}
