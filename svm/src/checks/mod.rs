//! What is explored for each property.
use crate::engine::*;
use crate::report::Report;
use std::time::Instant;
pub mod admin;
pub mod cb;
pub mod cli;
pub mod deleg;
pub mod fees;
pub mod ids;
pub mod life;
pub mod list;
pub mod purge;
pub mod sdk;
pub mod subst;
pub mod vrfc;
pub mod wire;

fn run_bfs<C: Scenario>(r: &mut Report, s: C, dl: Instant) {
    let x = bfs(&s, dl);
    let n = s.name();
    r.add(&n, x);
}
fn is(b: &subst::Base, l: &[&str]) -> bool {
    l.iter().any(|x| b.label.contains(x))
}

pub fn run(prop: &str, r: &mut Report, dl: Instant) {
    let t = r.thorough();
    let pick = |q: usize, th: usize| if t { th } else { q };
    r.assume("the mini-SVM (accounts, CPI, privileges, rent) models agave 3.0 faithfully; the program is compiled natively, not to SBF");
    match prop {
        "C01" => {
            run_bfs(r, life::single(pick(6, 8), 560), dl);
            run_bfs(r, life::deep(pick(10, 15)), dl);
            run_bfs(r, life::pairs(pick(3, 4)), dl);
            run_bfs(r, life::multi(pick(5, 6)), dl);
            run_bfs(r, life::boundary_scen(), dl);
            r.add("shapes", cb::shapes(dl, t));
            r.add("long", purge::long(dl, pick(260, 300)));
            r.add("patterns", purge::patterns(dl, pick(5, 7)));
            r.add("any order", purge::unordered(dl, pick(6, 8)));
            r.add("behaviours", cb::behaviours(dl));
            r.add("drain", fees::drain(dl, pick(5, 7)));
            run_bfs(r, list::small(pick(7, 9)), dl);
        }
        "C02" => {
            r.add("shapes", cb::shapes(dl, t));
            r.add("accounts", cb::metas(dl, t));
            r.add("behaviours", cb::behaviours(dl));
            r.add("programs", cb::uncallable(dl));
            r.add("consumers", cb::callers(dl, pick(400, 4000)));
            run_bfs(r, life::single(pick(5, 7), 560), dl);
            run_bfs(r, life::multi(pick(5, 6)), dl);
            run_bfs(r, life::boundary_scen(), dl);
        }
        "C03" => {
            let f = |b: &subst::Base| is(b, &["provide"]);
            r.add("who", subst::provers(dl));
            r.add("forgeries", vrfc::through_program(dl));
            r.add("single", subst::singles(dl, f));
            r.add("shapes", subst::shapes(dl, t, f));
            r.add("payload", subst::payloads(dl, f));
            r.add("double", subst::doubles(dl, t, f));
            run_bfs(r, life::multi(pick(4, 6)), dl);
        }
        "C04" => {
            run_bfs(r, life::boundary_scen(), dl);
            run_bfs(r, life::pairs(pick(3, 4)), dl);
            run_bfs(r, life::single(pick(6, 8), 560), dl);
            run_bfs(r, fees::scen(pick(4, 6)), dl);
            r.add("single", subst::singles(dl, |b| is(b, &["provide"])));
            r.add("requests", cb::shapes(dl, t));
            r.add("long", purge::long(dl, pick(260, 300)));
        }
        "C05" => {
            r.add("accounts", cb::metas(dl, t));
            r.add("shapes", cb::shapes(dl, t));
            r.add("behaviours", cb::behaviours(dl));
            run_bfs(r, life::multi(pick(5, 6)), dl);
            run_bfs(r, life::single(pick(5, 7), 560), dl);
        }
        "C06" => {
            run_bfs(r, fees::scen(pick(5, 7)), dl);
            r.add("balances", fees::balances(dl));
            r.add("drain", fees::drain(dl, pick(5, 7)));
            r.add("shapes", cb::shapes(dl, t));
            run_bfs(r, life::multi(pick(5, 6)), dl);
            run_bfs(r, life::single(pick(5, 7), 560), dl);
            r.add("patterns", purge::patterns(dl, pick(5, 7)));
            r.add("behaviours", cb::behaviours(dl));
            r.add("substitution", subst::singles(dl, |b| is(b, &["request", "provide", "purge", "close"])));
        }
        "C07" => {
            r.add("patterns", purge::patterns(dl, pick(5, 7)));
            r.add("any order", purge::unordered(dl, pick(6, 8)));
            r.add("long", purge::long(dl, pick(260, 300)));
            run_bfs(r, life::boundary_scen(), dl);
            run_bfs(r, fees::scen(pick(4, 6)), dl);
            r.add("substitution", subst::singles(dl, |b| is(b, &["purge"])));
            r.add("shapes", subst::shapes(dl, t, |b| is(b, &["purge"])));
            r.add("double substitution", subst::doubles(dl, true, |b| is(b, &["purge"])));
            r.add("payload", subst::payloads(dl, |b| is(b, &["purge"])));
        }
        "C08" => {
            r.add("variations", ids::variations(dl, t));
            run_bfs(r, ids::scen(pick(5, 7)), dl);
            run_bfs(r, life::pairs(pick(3, 4)), dl);
            run_bfs(r, life::single(pick(5, 7), 560), dl);
        }
        "C09" => {
            let f = |b: &subst::Base| is(b, &["request"]);
            r.add("single", subst::singles(dl, f));
            r.add("shapes", subst::shapes(dl, t, f));
            r.add("payload", subst::payloads(dl, f));
            r.add("double", subst::doubles(dl, true, f));
            r.add("behaviours", cb::behaviours(dl));
            r.add("consumers", cb::callers(dl, pick(400, 4000)));
        }
        "C10" => {
            run_bfs(r, list::small(pick(7, 9)), dl);
            run_bfs(r, list::tails(pick(6, 9), pick(7, 1)), dl);
            run_bfs(r, list::large(pick(5, 6)), dl);
            r.add("many", list::many(dl, t));
            r.add("limits", list::limits(dl));
            r.add("shapes", cb::shapes(dl, t));
            run_bfs(r, life::single(pick(5, 7), 560), dl);
            r.add("patterns", purge::patterns(dl, pick(5, 7)));
            r.add("any order", purge::unordered(dl, pick(6, 8)));
            r.add("drain", fees::drain(dl, pick(5, 7)));
            if t {
                for z in [340, 408, 480, 700, 1000] {
                    run_bfs(r, life::single(6, z), dl);
                }
            }
        }
        "C11" => {
            r.add("single", subst::singles(dl, |_| true));
            r.add("payload", subst::payloads(dl, |_| true));
            r.add("double", subst::doubles(dl, t, |_| true));
            let w = subst::rich();
            let cases = deleg::external_cases();
            let x = sweep("substitution/undelegation", cases.len(), dl, |i, v, st| subst::run_case(&w, &cases[i], v, st), |i| cases[i].label.clone());
            r.add("undelegation", x);
            run_bfs(r, life::multi(pick(4, 6)), dl);
        }
        "C12" => {
            run_bfs(r, admin::registry_scen(pick(5, 6)), dl);
            r.add("authorities", admin::authorities(dl));
            r.add("identities", admin::identities(dl));
            r.add("large registry", admin::big_registry(dl, pick(270, 319)));
            let f = |b: &subst::Base| is(b, &["initialize", "oracle"]);
            r.add("single", subst::singles(dl, f));
            r.add("payload", subst::payloads(dl, f));
            r.add("double", subst::doubles(dl, t, f));
        }
        "C13" => {
            run_bfs(r, admin::init_scen(pick(5, 7), &[300, 301, 0]), dl);
            run_bfs(r, admin::init_scen(pick(5, 7), &[300, 10_240, 10_241, 20_480]), dl);
            r.add("sizes", admin::sizes(dl, t));
            r.add("indices", admin::indices(dl));
            r.add("waits", admin::waits(dl));
            run_bfs(r, deleg::scen(pick(4, 5)), dl);
            let f = |b: &subst::Base| is(b, &["queue", "close"]);
            r.add("single", subst::singles(dl, f));
            r.add("double", subst::doubles(dl, t, f));
            r.add("payload", subst::payloads(dl, f));
        }
        "C14" => {
            run_bfs(r, deleg::scen(pick(5, 7)), dl);
            run_bfs(r, deleg::ephemeral(pick(5, 7)), dl);
            r.add("indices", admin::indices(dl));
            let w = subst::rich();
            let cases = deleg::external_cases();
            let x = sweep("delegation/forged undelegation", cases.len(), dl, |i, v, st| subst::run_case(&w, &cases[i], v, st), |i| cases[i].label.clone());
            r.add("forged", x);
            let f = |b: &subst::Base| is(b, &["delegat"]);
            r.add("single", subst::singles(dl, f));
            r.add("double", subst::doubles(dl, t, f));
            r.add("payload", subst::payloads(dl, f));
        }
        "C15" => {
            r.add("tags", wire::tags(dl));
            r.add("short", wire::short(dl));
            r.add("foreign", wire::foreign(dl));
            r.add("account counts", wire::account_counts(dl));
            r.add("builders", wire::builders(dl));
            r.add("codec", wire::codec(dl));
            r.add("payload", subst::payloads(dl, |_| true));
        }
        "C16" => {
            r.add("grid", vrfc::grid(dl, pick(40, 100), pick(300, 1000)));
            r.add("many keys", vrfc::many_keys(dl, pick(3000, 20_000)));
            r.add("keys", vrfc::key_derivation(dl, pick(2000, 50_000)));
        }
        "C17" => {
            r.add("flips", vrfc::flips(dl, pick(2, 6), pick(2, 10), true));
            r.add("mixtures", vrfc::mixtures(dl, t));
            r.add("forgeries", vrfc::forgeries(dl, pick(2, 12), pick(0, 20)));
            r.add("invalid encodings", vrfc::encodings(dl, pick(2, 6), pick(1, 10)));
            r.add("honest proofs", vrfc::grid(dl, pick(2, 10), pick(20, 200)));
            r.add("through the program", vrfc::through_program(dl));
        }
        "C18" => {
            r.add("public derivation", vrfc::adversary(dl, pick(3, 10), pick(3, 20)));
            r.add("keys", vrfc::key_derivation(dl, 512));
            r.add("nonces", vrfc::nonces(dl, 2, 20));
        }
        "C19" => {
            r.add("nonces", vrfc::nonces(dl, pick(6, 30), pick(100, 500)));
            r.add("keys", vrfc::key_derivation(dl, pick(2000, 50_000)));
        }
        "C28" => {
            r.add("behaviours", cb::behaviours(dl));
            r.add("programs", cb::uncallable(dl));
            r.add("consumers", cb::callers(dl, pick(400, 4000)));
            let f = |b: &subst::Base| is(b, &["provide", "request"]);
            r.add("single", subst::singles(dl, f));
            r.add("shapes", subst::shapes(dl, t, f));
            r.add("double", subst::doubles(dl, t, |b| is(b, &["provide"])));
            r.add("accounts", cb::metas(dl, t));
        }
        "C20" => {
            for (n, x) in sdk::requests(dl) {
                r.add(&n, x);
            }
        }
        "C21" => {
            for (n, x) in sdk::ranges(dl, t) {
                r.add(&n, x);
            }
        }
        "C22" => {
            for (n, x) in sdk::integers(dl, t) {
                r.add(&n, x);
            }
        }
        "C29" => r.add("addresses", sdk::addresses(dl)),
        "C30" => {
            r.add("commands", cli::commands(dl));
            r.add("failures", cli::failures(dl, t));
        }
        "C31" => r.add("consumers", sdk::consumers(dl)),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}
