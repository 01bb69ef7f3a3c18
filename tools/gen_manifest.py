#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run after changing what is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state exploration of the real program in a mini-SVM, lock-step with a reference transition system"
SWEEP = "exhaustive enumeration of a bounded transaction space on the real program, lock-step with a reference transition system"
PRIM = "exhaustive enumeration of a bounded input space on the real code against an independent oracle"
SVM = ("Every state and transition of the listed spaces was executed on the real program code (compiled natively) and compared with an "
       "independently written transition system. Trusts the mini-SVM's model of accounts, CPI, privileges and rent (the thorough tier of C14 "
       "replays traces against the real runtime crates), and holds within the stated bounds only. ")
VRF = ("Every point of the listed grids was evaluated on the real prover and both real verifiers and compared with an independent "
       "implementation. Nothing is said about points outside the grids; relies on the hardness of the discrete logarithm. ")
C = {
 "C01": (BFS, SVM + "Histories of requests, fulfilments, purges and clock steps on one to three queues."),
 "C02": (SWEEP, SVM + "All shapes of discriminator, arguments and accounts in a grid; all callback behaviours of a menu."),
 "C03": (SWEEP, SVM + "All single and selected double substitutions of accounts, signers, flags and payload bytes of a fulfilment."),
 "C04": (BFS, SVM + "Slot boundaries including u64 extremes, requests and fulfilments in one transaction."),
 "C05": (SWEEP, SVM + "All account lists up to a bound over a menu of keys with all flag combinations."),
 "C06": (BFS, SVM + "Lamports of every account are compared after every transaction."),
 "C07": (SWEEP, SVM + "All age patterns of up to 5 (7) pending requests around the limit."),
 "C08": (BFS, SVM + "Histories with repeated identical requests, removals and clock steps; all single-field variations. Assumes SHA-256 has no collisions."),
 "C09": (SWEEP, SVM + "All single and double substitutions of a request's accounts, signers and payload."),
 "C10": (BFS, SVM + "Operation sequences on the account type itself and through the program, against a list."),
 "C11": (SWEEP, SVM + "All single and (pairwise) double substitutions of accounts for every instruction."),
 "C12": (BFS, SVM + "Administration histories over several oracles and authorities."),
 "C13": (BFS, SVM + "All initialisation step histories over a menu of sizes, all indices, all waits around the limit."),
 "C14": (BFS, SVM + "The delegation program is a model of the deployed one."),
 "C15": (SWEEP, SVM + "All 256 tags, all payload lengths in a range, all builders over a grid."),
 "C16": (PRIM, VRF), "C17": (PRIM, VRF), "C18": (PRIM, VRF + "The space of public derivations is all products of two public scalars with a public point, and sums of two of them; two members of it succeed and are recorded as known findings."),
 "C19": (PRIM, VRF),
 "C28": (SWEEP, SVM + "One known finding: a callback program can pass the identity's signature on."),
 "C20": (PRIM, "The whole grid of parameters is built by the real SDK in all four feature sets, decoded by the program's codec and executed on the program in the mini-SVM. Nothing is said about parameters outside the grid."),
 "C21": (PRIM, "All ranges, all values of each byte in uniform backgrounds, and all pairs of values of selected byte pairs on the real code. That the helper treats bytes alike beyond two varying ones is not enumerated."),
 "C22": (PRIM, "Dependence of every result on every seed bit, and all values of every pair of consumed bytes, on the real code; larger groups of bytes follow only if the helpers are bytewise, which the separability sweep supports but cannot prove."),
 "C29": (PRIM, "Every exported constant and address helper of all four SDK feature sets and the API over a grid of keys, against an independent derivation and the partner program's own helpers. Published addresses are literals of the check."),
 "C31": (PRIM, "All single substitutions, flag flips and truncations of the accounts of five consumer structs in two Anchor generations; CPI recorded at the syscall boundary (the modern generation's solana-invoke is replaced by a recording stand-in)."),
}
ORC = "stateless model checking of the compiled oracle service: exhaustive exploration of schedules, events and faults up to a bound on deviations, under a controlled runtime, in closed loop with the real program"
ORN = ("The service's own source runs unchanged on a controlled replacement of tokio, the RPC transport and the streams (below solana-rpc-client's JSON-RPC layer); "
       "every execution with up to one (and, in windows, two or three) deviations from the nominal schedule and environment of the listed scenarios is judged. "
       "Preemption happens at lock acquisitions and awaits only. ")
C["C23"] = (ORC, ORN)
C["C24"] = (ORC, ORN + "Each transaction is decoded, checked against the request and executed on the real program.")
C["C25"] = (ORC, ORN + "Eventually means within 45 s of virtual time after the last fault. One known finding: an answer taken back by a fork switch.")
C["C26"] = (ORC, ORN + "Statistics are read through the service's HTTP handler.")
C["C27"] = (ORC + "; the blockhash cache alone under all interleavings of readers, refreshers and answers", ORN + "The cache alone: every execution to depth 6 (40).")
C["C30"] = ("exhaustive enumeration of commands, arguments, ledgers and node fault sequences on the real binary against a stub node that executes what it receives on the real program",
  "Every command over a grid of arguments, keys and ledgers with the node answering everything, and every sequence of up to two (three) node faults for representative commands. The reference effect is built from the documented wire format and executed on the same program. Compute-unit limits are not modelled.")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NA = {}
checks = []
na = []
for p in props:
    if p in C:
        t, n = C[p]
        checks.append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                       "technique": t, "level": "model_checking", "level_note": n.strip()})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif_default_queue", "enable": 'RUSTFLAGS="--cfg verif_default_queue"', "source_commits": ["5a1ae21"]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its harness crate from /repo's working tree (run.sh) and writes evidence/<id>.json; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
