#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once when a property changes)."""
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=(),state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
SEQ="The integration test walks one fixed request/provide sequence on a local validator and cannot even run without a prebuilt .so; the only stable test checks the program id."
p("C01","Every accepted request is resolved exactly once and never lost",
 "A randomness request accepted by the program stays pending, byte-for-byte unchanged, until it is either fulfilled once or purged once; a resolved request can never be fulfilled again, and no operation on one request (or on another queue) loses, duplicates, alters or revives another. Any fulfilment attempt for a pending request by its queue's oracle with a valid proof in a later slot succeeds, wherever the request sits in the queue.",
 ["histories","inputs"],"all interleavings of requests (both priorities, several shapes and callers), fulfilments in any order, purges, slot advances, replays, over one or several queues up to the stated depth",
 SEQ,["program/src/request_randomness.rs","program/src/provide_randomness.rs","program/src/purge_expired_requests.rs","api/src/state/queue.rs"],
 [("queue item lifecycle (add_item / find_item_by_id / remove_item)","api/src/state/queue.rs"),("lookup by id then removal before callback","program/src/provide_randomness.rs")],
 ["queue account contents after each transaction","callback invocations"],[("queue items","pending requests","queue account")])
p("C02","The callback receives exactly what was requested, atomically with removal",
 "Fulfilling a request invokes exactly once the program named in the request, with data equal to the requested discriminator, then the 32-byte hash of the verified VRF output, then the requested arguments, and with accounts equal to the VRF identity (read-only signer) followed by the requested accounts in order. If the callback fails or cannot be invoked, the whole fulfilment has no effect: the request stays pending and no fee moves.",
 ["inputs","histories","fault_sequences"],"every discriminator length, argument length and account list shape within the limits, several requests pending, and every callback outcome (success, failure, wrong program passed, missing accounts, reentry)",
 SEQ,["program/src/provide_randomness.rs","api/src/state/queue.rs"],
 [("callback instruction assembly","program/src/provide_randomness.rs"),("variable region offsets","api/src/state/queue.rs")],["callback instruction seen by the callback program","accounts after a failed fulfilment"])
p("C03","Only the queue's registered oracle with a valid proof can fulfil",
 "A request is fulfilled only by a transaction signed by the oracle whose identity derives the queue, using that oracle's own registered VRF key, against a program-owned initialised queue, with a proof that verifies for that request's id. Every other combination of signer, oracle record, queue, request id, identity account, callback program and proof is rejected with no state change.",
 ["inputs","configurations"],"the full cross product of signers, oracle data accounts (own, other's, forged, wrong owner), queues (own, other's, uninitialised, foreign), request ids and proofs (valid, other key, other input, mutated)",
 SEQ,["program/src/provide_randomness.rs","api/src/verify.rs","api/src/steel.rs"],
 [("signer, seeds and owner checks","program/src/provide_randomness.rs"),("VRF proof verification","api/src/verify.rs")],["fulfilment result and all account states"])
p("C04","A request is never fulfilled in the slot in which it was made",
 "A fulfilment succeeds only when the current slot is strictly greater than the slot at which the request was accepted, for every slot value and every position in the queue; in the request's own slot it is rejected without effect.",
 ["histories","inputs"],"all orderings of requests, slot advances (including huge and boundary slot numbers) and fulfilment attempts",
 SEQ,["program/src/provide_randomness.rs"],[("slot comparison against the stored request slot","program/src/provide_randomness.rs")],["fulfilment result per (request slot, current slot)"])
p("C05","Callbacks get no privilege the requester did not ask for",
 "A callback never receives the oracle's account, never receives any signer other than the VRF identity, and receives an account as writable only if the request marked it writable. A request naming the fulfilling oracle among its callback accounts cannot be fulfilled at all.",
 ["inputs"],"every combination of account identity (oracle, payer, queue, registry, foreign), requested signer/writable flags, position and count, and the privileges the oracle's transaction grants",
 SEQ,["program/src/provide_randomness.rs","api/src/state/queue.rs","api/src/instruction.rs"],
 [("meta compaction drops signer flag","api/src/state/queue.rs"),("oracle-in-accounts check","program/src/provide_randomness.rs")],["account metas seen by the callback"])
p("C06","Request fees are conserved and the queue stays solvent",
 "Each accepted request moves exactly the fee of its priority from its payer to the queue, and resolving it (fulfilment or purge) pays exactly that same fee from the queue to the oracle; no other instruction moves fees. Hence each queue always holds its rent plus the fees of its pending requests, no lamports are created, destroyed or diverted, and the default ephemeral queue charges and pays nothing.",
 ["histories","inputs"],"all histories of high/regular requests, fulfilments, purges and close over one or several queues, including payer insufficiency, donations and the fee-free default queue",
 SEQ,["program/src/fees.rs","program/src/request_randomness.rs","program/src/provide_randomness.rs","program/src/purge_expired_requests.rs"],
 [("fee transfer in/out by priority","program/src/fees.rs")],["lamports of payer, queue, oracle after each transaction"])
p("C07","Purge removes exactly the requests older than the time-to-live",
 "A purge removes every request whose age in slots exceeds the 240-slot time-to-live and no other, leaves the survivors and their order untouched, and pays the removed requests' fees to the queue's oracle only. Anyone may purge, but only with the matching oracle, queue and index; a purge with nothing expired changes nothing.",
 ["histories","inputs"],"all patterns of ages (just below, at, just above the limit; slot 0; huge slots), priorities, shapes and holes over queues of several items, and all argument/account mismatches",
 SEQ,["program/src/purge_expired_requests.rs","api/src/state/queue.rs"],[("scan-and-remove loop by logical index","program/src/purge_expired_requests.rs")],["queue contents and lamports after purge"])
p("C08","Request ids are unique and bound to the request and its slot",
 "Two requests accepted by the same queue never carry the same id, even when identical requests are repeated in one slot with removals in between, and the id changes whenever the seed, discriminator, callback program, slot, slot hash or time changes; repeating a request that is still pending is accepted under a fresh id while there is room. Consequently two requests pending in one queue never share their randomness.",
 ["histories","inputs"],"all histories of identical and near-identical requests, fulfilments and purges within and across slots, and every single-field change of a request",
 SEQ,["program/src/request_randomness.rs"],[("combined hash with insertion index","program/src/request_randomness.rs")],["ids of stored requests"])
p("C09","A program's callback can only be requested with that program's consent",
 "A request naming a callback program is accepted only if that program's own identity address signs it, the payer signs it, and the genuine slot-hashes sysvar is supplied; anything else is rejected without effect. Nobody can therefore enqueue callbacks into a program, or spend a payer's lamports, without their signatures.",
 ["inputs","configurations"],"the cross product of signer flags, identity accounts (own, another program's, the VRF's, plain key), payers, sysvar accounts (genuine, look-alike) and instruction variants",
 SEQ,["program/src/request_randomness.rs","api/src/steel.rs"],[("identity PDA seeds + signer check","program/src/request_randomness.rs")],["request result and account states"])
p("C10","The request queue behaves as an ordered list within its capacity",
 "The queue stored in an account behaves like a plain ordered list: adding appends or is rejected with no change, lookup by id or position, iteration, length and removal agree with the list, and every stored item keeps its discriminator, accounts and arguments intact, for any item sizes within the limits and any order of additions and removals. Over-limit items are rejected, an item that fits in the free tail is accepted, space freed at the tail is reusable, and an emptied queue regains its full capacity.",
 ["histories","inputs"],"all sequences of add/remove/reload over an alphabet of item shapes (including minimum, maximum and over-limit sizes) and account sizes (exact fit, one byte less, one byte more) up to a depth",
 "No test touches the queue container; its layout arithmetic (alignment, holes, tail trimming) depends on the history of shapes.",["api/src/state/queue.rs"],
 [("byte-region allocator with tail trimming","api/src/state/queue.rs")],["public queue view API on raw account bytes"],[("cursor","end of used region","queue header"),("item_count","live items","queue header")])
p("C11","Instructions affect only the accounts and fields they are meant to",
 "No instruction changes any account other than those it is documented to change, and an account of one kind (registry, oracle record, queue, unfinished queue, foreign or system account) is never accepted in the place of another: substituting any account of any transaction by another one either leaves the transaction's authorised effect identical or is rejected without effect. In particular nobody can corrupt the oracle registry, an oracle record or another oracle's queue.",
 ["inputs","configurations","histories"],"for every instruction, each account position substituted by every account in a populated world, with every flag weakening, and pairs of substitutions",
 SEQ,["program/src","api/src/steel.rs"],[("owner, discriminator, seeds, signer, writable checks","program/src/*.rs")],["full account map before/after each transaction"])
p("C12","Only the upgrade authority governs a consistent oracle registry",
 "Oracles are added and removed only by the program's upgrade authority as recorded by the loader, only for valid on-curve identities, and the registry always lists exactly the oracles that have a live record, once each. An oracle's VRF key and registration slot never change while it is registered, and an oracle that still has an open queue cannot be removed.",
 ["histories","inputs","configurations"],"all sequences of initialise/add/remove/queue-open/queue-close by admins and non-admins over several identities, plus all identity classes and program-data contents (authority set, none, other program's, malformed)",
 SEQ,["program/src/modify_oracles.rs","program/src/initialize.rs","api/src/loaders.rs","api/src/state/oracles.rs"],
 [("upgrade-authority check","program/src/modify_oracles.rs"),("open queue counter","program/src/close_oracle_queue.rs")],["registry, oracle records, rent lamports"])
p("C13","Queues are created once by their oracle, sized exactly, closed only empty",
 "A queue becomes usable only through its own oracle's signature, at least 200 slots after registration, with exactly the requested size and an empty request list, regardless of how many steps its allocation takes; until then it cannot be used, and once usable it cannot be re-initialised. Only the owning oracle can close it, only when empty, receiving all of its lamports, and each oracle's open-queue count always equals its number of usable queues.",
 ["histories","inputs"],"all sequences of (multi-step) initialise, request, purge, fulfil, close, re-open over several indices and sizes around the per-step allocation limit, with prefunded addresses and slot positions around the 200-slot wait",
 SEQ,["program/src/initialize_oracle_queue.rs","program/src/close_oracle_queue.rs","api/src/pda.rs"],
 [("discriminator set on final step","program/src/initialize_oracle_queue.rs"),("open_queue counter","program/src")],["queue data length, discriminator, header; open_queue"])
p("C14","Delegation round trips preserve queues and stay under owner control",
 "Only the owning oracle can delegate its queue or ask for its undelegation; while a queue is delegated the base-layer program cannot serve, purge or close it; and after delegation and undelegation the queue is again owned by the program with exactly the state handed back by the delegation program, for every queue small enough (10,240 bytes) for the delegation program to copy in one instruction. Nobody else can trigger the undelegation entry point to create or overwrite a program account.",
 ["histories","inputs"],"all interleavings of delegate, requests, commits of new contents, undelegate, close by owner and others, several queue states and sizes, and forged undelegation calls",
 SEQ,["program/src/delegate_oracle_queue.rs","program/src/undelegate_oracle_queue.rs","program/src/process_undelegation.rs"],
 [("authority seeds check","program/src/delegate_oracle_queue.rs"),("buffer signer/owner check","program/src/process_undelegation.rs")],["queue owner, data, lamports across the round trip"])
p("C15","The wire format is stable and malformed instructions are rejected safely",
 "Every instruction built by the published builders is decoded by the program as the same operation with the same arguments on the accounts it needs, using the documented tags and layouts; unknown tags, truncated or over-long fixed-size payloads, undecodable request payloads and calls under a foreign program id are rejected without effect (initialisation takes no payload and ignores any).",
 ["inputs"],"all 256 tags, every payload length around each instruction's size, every truncation of each valid instruction, too few/too many accounts, and builder arguments over a grid",
 "No test decodes malformed input; layout agreement between builders and processor is only touched for one value.",["program/src/lib.rs","api/src/instruction.rs","api/src/sdk.rs","api/src/macros.rs"],
 [("parse_instruction8 dispatch","program/src/lib.rs"),("instruction8! macro","api/src/macros.rs")],["transaction results and account states; raw instruction bytes"])
p("C16","Every honest VRF proof verifies, on and off chain, with one output per input",
 "For every oracle key and every 32-byte input, the computed output and proof verify both in the oracle's own verifier and in the on-chain verifier, the output is a deterministic function of key and input, differs across keys and inputs, and the derived public key matches the derived secret key.",
 ["inputs"],"a key×input grid including structured inputs (zero, ones, single-bit, counter) and several identities; determinism over repeats",
 "The tests use one random key and input and never compare the two implementations.",["vrf/src/vrf.rs","api/src/verify.rs"],
 [("compute_vrf / verify_vrf","vrf/src/vrf.rs"),("on-chain verify_vrf","api/src/verify.rs")],["verifier verdicts and outputs"])
p("C17","No output but the genuine one can be proven, and both verifiers agree",
 "For a given public key and input at most one output has an accepted proof: any modification of input, key, output, commitments or response, any swap between proofs, and any strategically constructed proof that knows the secret key but claims another output is rejected. The on-chain and off-chain verifiers accept exactly the same proofs.",
 ["inputs"],"all single-bit flips and byte substitutions of each field, all component swaps among a set of proofs, algebraic shifts by known points and scalars, non-canonical and identity encodings, and adaptive forgeries that fix every subset of the challenge inputs",
 "The test only checks acceptance of one honest proof.",["api/src/verify.rs","vrf/src/vrf.rs"],
 [("Chaum-Pedersen checks with Fiat-Shamir challenge over all components","api/src/verify.rs")],["verifier verdicts"])
p("C18","VRF outputs cannot be computed without the oracle's secret key",
 "Given only public information (the oracle's registered public key, the request, previously published outputs and proofs), nobody but the key holder can compute the output for a request before the oracle reveals it.",
 ["inputs","histories"],"all values derivable by a bounded algebraic adversary from the public data of a set of keys, inputs and earlier proofs",
 "No test models an adversary.",["vrf/src/vrf.rs","api/src/verify.rs"],[("hash-to-curve of the request id","vrf/src/vrf.rs")],["comparison of derived candidates with the true output"])
p("C19","Published proofs never leak the oracle's secret key",
 "The oracle's proof nonce is never reused across different inputs or keys and never derivable from public data, so that no combination of published proofs lets an observer solve for the VRF secret key or forge further outputs; the secret key depends on the whole identity keypair.",
 ["inputs","histories"],"all pairs (and small groups) of proofs over a grid of inputs and keys, with every linear relation a bounded adversary can set up, and every public-only nonce derivation in a bounded term language",
 "No test inspects nonces.",["vrf/src/vrf.rs"],[("HKDF nonce from key and input","vrf/src/vrf.rs")],["commitments and responses of published proofs"])
p("C20","SDK-built requests are exactly what the program decodes, in every feature set",
 "For every parameter choice and every SDK feature combination, the request instruction built by the SDK is decoded by the program as the same request (seed, callback program, discriminator, accounts with flags, arguments), with the requested priority and the account list the program requires, and is identical across feature sets.",
 ["inputs","configurations"],"a grid of parameters (empty, small, maximum, over-limit collections; present/absent options) × {default, backward-compat, anchor, anchor-compat} × {high, regular priority}, executed against the real program",
 "SDK feature sets are only compiled, never compared or run against the program.",["sdk/src/instructions.rs","sdk/src/types.rs","sdk/src/compat/mod.rs","sdk/src/consts.rs","sdk/vrf-macro/src/lib.rs"],
 [("request builder and borsh types","sdk/src")],["instruction bytes/accounts; stored request after execution"])
p("C21","Bounded random u8 is in range and uniform, for every range",
 "For every pair min ≤ max the bounded u8 helper returns a value within [min, max] without panicking for every input, and over uniformly distributed input bytes every value of the range is equally likely, except in the documented fallback when no byte of the seed is usable.",
 ["inputs"],"all 32,896 ranges × all 256 values of the deciding byte at every scan position, plus all-rejected inputs",
 "No test calls the helper.",["sdk/src/rnd.rs"],[("rejection sampling over seed bytes","sdk/src/rnd.rs")],["returned values"])
p("C22","Integer and boolean extraction is total and unbiased",
 "Each integer or boolean helper returns every value of its type with equal likelihood over uniform seeds: the result depends on exactly as many seed bits as it has, each through a bijection, is deterministic, and the signed forms agree with the unsigned ones.",
 ["inputs"],"for each helper all 256 bit positions (dependency map), all values of each consumed byte, all pairs of byte values across consumed bytes for independence",
 "No test calls the helpers.",["sdk/src/rnd.rs"],[("byte selection","sdk/src/rnd.rs")],["returned values"])
p("C23","The oracle runs at most one live worker per pending request",
 "Whatever the interleaving of notifications, periodic rescans, worker progress and failures, the oracle service never has two live workers answering the same request, never keeps working on a request once the queue updates it has processed, in the chain's order, show it gone, and stops working on it after the next rescan at the latest when updates come out of order; no lock stays stuck.",
 ["schedules","fault_sequences"],"all schedules up to a preemption bound of concurrent snapshots (stale, fresh, duplicate), workers and RPC failures over one or two queues",
 "There are no tests of the oracle service; the races need specific interleavings.",["vrf-oracle/src/oracle/processor.rs","vrf-oracle/src/oracle/client.rs"],
 [("in-flight map and task-handle map","vrf-oracle/src/oracle/processor.rs")],["transactions sent per request, live tasks, in-flight map"])
p("C24","The oracle submits only correct transactions for its own queues",
 "For every well-formed snapshot the oracle sends, for each pending request of queues derived from its own identity, one correct transaction: a fulfilment with the request's id, a valid proof, and the callback's program and accounts, or a purge when the request is older than the time-to-live; the program accepts it. Snapshots of foreign, malformed, corrupted or empty accounts produce no transaction and never stop the service.",
 ["inputs","fault_sequences"],"a grid of queue contents (shapes, priorities, holes, ages around the limit) and of malformed accounts, through both the rescan and the streaming path",
 "There are no tests of the oracle service.",["vrf-oracle/src/oracle/processor.rs","vrf-oracle/src/oracle/sources.rs","vrf-oracle/src/oracle/client.rs"],
 [("transaction assembly","vrf-oracle/src/oracle/processor.rs")],["transactions sent, executed against the real program"])
p("C25","Every pending request is eventually answered despite faults",
 "As long as a request remains pending and the chain eventually responds, the oracle eventually gets it resolved, whatever finite sequence of RPC errors, failed confirmations, dropped transactions, stream disconnects, duplicate or stale notifications occurs and in whatever order tasks run; the service never deadlocks or stops retrying (a supervisor restarts it when its start-up fails on an RPC error), and unrelated requests are not starved.",
 ["schedules","fault_sequences"],"all fault sequences up to a bound and all schedules up to a deviation bound, in closed loop with the real program",
 "There are no tests of the oracle service.",["vrf-oracle/src/oracle/processor.rs","vrf-oracle/src/oracle/client.rs","vrf-oracle/src/blockhash_cache.rs"],
 [("retry loop and periodic rescan","vrf-oracle/src/oracle")],["requests left pending when the system is quiescent"])
p("C26","Oracle statistics reflect the observed queue history",
 "The reported queue size equals the item count of the last processed snapshot of that queue, and the reported average response time equals the mean, over requests seen leaving the queue through notifications, of the observed latency in slots, counting each such request once and only for its own queue, as long as snapshots are processed in the chain's order.",
 ["histories","schedules"],"all sequences of snapshots with requests appearing and leaving over one or two queues, via both update paths",
 "There are no tests of the oracle service.",["vrf-oracle/src/oracle/processor.rs"],[("running average","vrf-oracle/src/oracle/processor.rs")],["exported statistics"])
p("C27","Blockhash and slot used by the oracle always belong together and stay fresh",
 "The blockhash and slot the oracle uses always come from one and the same RPC answer, a failed refresh leaves the previous pair intact, a successful refresh is visible to later transactions (of concurrent refreshes any one may prevail), and without traffic the pair is renewed within the refresh period once it is older than a minute, under any interleaving of readers and refreshers.",
 ["schedules","fault_sequences"],"all schedules up to a preemption bound of concurrent refreshes, readers and the background refresher, and all RPC failure patterns up to a bound, under a virtual clock",
 "There are no tests of the oracle service.",["vrf-oracle/src/blockhash_cache.rs"],[("single lock over the pair","vrf-oracle/src/blockhash_cache.rs")],["pairs returned to callers"])
p("C28","The verified identity speaks only for genuine fulfilments",
 "A program that authenticates a callback by the VRF identity's signature receives such a call only with the randomness of a request that named that very program; no other party, including another callback program, can make the identity sign a call to it.",
 ["inputs","histories"],"all callback behaviours of a bounded adversarial program (record, fail, re-enter, relay the identity) across two consumer programs, and all direct attempts to use the identity",
 SEQ,["program/src/provide_randomness.rs","api/src/state/mod.rs"],[("identity PDA signing the callback CPI","program/src/provide_randomness.rs")],["calls received by consumer programs carrying the identity signer"])
p("C29","Published addresses and constants agree across all crates",
 "The program id, identity address and bump, default queues, sysvar and system ids, seeds and limits published by the SDK, the API, the builders and the delegation helpers equal the ones the program and its partner programs actually use, for every key, in every SDK feature set.",
 ["inputs","configurations"],"every exported constant and every address helper over a grid of keys and indices, in every feature set, against independent derivation and the partner program's own helpers",
 "No test compares the crates' constants or derivations.",["sdk/src/consts.rs","sdk/src/pda.rs","api/src/consts.rs","api/src/state/mod.rs","api/src/sdk.rs"],[("constants and PDA helpers","sdk/src, api/src")],["returned addresses"])
p("C30","Each CLI command submits exactly the operation the operator asked for",
 "Every CLI command that changes something sends one transaction, signed by the configured key alone, whose effect is exactly the requested operation with the operator's arguments (identity, key, index, size, queue) and nothing else, and which the program accepts when the operator is entitled to it; it reports success if and only if the operation took effect and was confirmed. Read-only commands send no transaction and show what the ledger holds (the derived key; each of the signer's queues below index 20 with its address, item count, index and whether it is delegated). A failing lookup or unusable argument sends no transaction and reports an error.",
 ["inputs","fault_sequences"],"every subcommand × a grid of arguments, keys and ledgers, and every sequence of up to 2 (3) faulty RPC answers (error, HTTP failure, lost connection, malformed, lost acknowledgement, dropped transaction, failed or unknown status)",
 "There are no tests of the CLI.",["vrf-cli/src/main.rs"],[("command to instruction mapping","vrf-cli/src/main.rs")],["transactions received by a stub RPC node; effect when executed against the real program"])
p("C31","#[vrf] consumers accept only the right accounts and sign as themselves",
"An Anchor accounts struct decorated with #[vrf] gets the four accounts a request needs unless its author declared them, accepts for each of the four only the right one (the consumer's own identity address, the VRF program, the slot-hashes sysvar, the system program), and its generated helper invokes exactly the instruction it is given, once, with every account it needs, signed by the consumer's identity and nobody else, in both supported Anchor generations.",
["inputs","configurations"],"every substitution of each account by every other and by foreign ones, every flag flip and every truncation, for structs declaring none or any one of the accounts themselves, × {anchor, anchor-compat}",
"The macro's output is exercised only by one integration program that is not part of the workspace's tests.",["sdk/vrf-macro/src/lib.rs","sdk/src/anchor.rs"],[("generated account constraints and invoke_signed_vrf","sdk/vrf-macro/src/lib.rs")],["acceptance of account lists; instruction, accounts and signer seeds passed to the CPI syscall"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
