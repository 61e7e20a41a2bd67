import json,subprocess
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^sim:"],text=True).split()
T={
"C01":"deterministic simulation: seeded multi-client histories with injected callback panics; every navigation accessor of every live node against a reference forest after (and inside) every step",
"C02":"deterministic simulation: seeded edit histories through all handle kinds, refinement against a reference forest model",
"C03":"deterministic simulation with fault injection: misuse, conflicting locks and borrows, panicking user callbacks; state before and after every failed call compared through the model",
"C04":"deterministic simulation: seeded interleavings of lock acquisition, cloning, extraction, moves and drops by several clients, against a reader/writer lock model per tree",
"C05":"deterministic simulation: seeded orders of dropping, leaking, crashing and moving lock holders, probing every tree's lock after every step against the model",
"C06":"deterministic simulation: seeded histories of tokens, tree splits, merges and deaths; validity of every token for every node against the model",
"C07":"deterministic simulation: seeded drop orders and client crashes with a registry of every data instance; exactly-once drop and reachability against a model of ownership",
"C08":"deterministic simulation: weak references to every node and tree ever made, upgraded after every step and inside destructors, against the ownership model",
"C09":"deterministic simulation with fault injection: destructors that observe the whole world, run further operations on other trees or panic, at seeded points of every teardown",
"C10":"deterministic simulation: seeded histories on trees of up to 50000 nodes in eight shapes inside a thread with a 192 KiB stack, against a sequence model",
"C11":"deterministic simulation: seeded interleavings of front and back steps, peeks, clones, nth, folds and drops of stable iterators by several clients, against a queue model",
"C12":"deterministic simulation: seeded interleavings of iterator steps with edits, moves and drops by other clients, against a cursor model",
"C13":"deterministic simulation: seeded stepping, cloning, peeking and dropping of both breadth-first iterators, against a level-order model",
"C14":"deterministic simulation with fault injection: event streams pumped in seeded chunks between trees and builders, with concurrent borrows, edits and damage on the way, against the model",
"C15":"deterministic simulation with fault injection: lost, duplicated, reordered, merged and corrupted event streams into builders, against a stack model",
"C16":"deterministic simulation with fault injection: clones with exclusively borrowed data and data clones that panic, observe or edit at a seeded node, against the model and the data registry",
"C17":"deterministic simulation with fault injection: comparisons of equal, nearly equal and borrowed trees through all handle pairs with panicking and re-entrant data comparison, against the model",
"C18":"deterministic simulation: seeded guards, writes, reads, edits and teardown by several clients; every node's borrow state and value against a shared-xor-exclusive model",
"C19":"deterministic simulation with fault injection: sinks that fail at a seeded byte and formatters that fail, panic or re-enter, against a reference printing model",
"C20":"deterministic simulation: the link accesses of every call counted by a guarded hook against a budget computed from the model, on histories with trees of up to 1500 nodes",
}
note="Seeded search over the real crate (only user code, clients, event transport and output sink are stand-ins): it covers the operations, schedules and faults of the seeds it ran, and proves nothing about the rest. Trusts the reference model in /verif/sim/src, the Rust standard library and single-threadedness (the types are neither Send nor Sync). A violation comes with a minimised trace that a fresh process replays."
m={"version":1,"setup_cmd":"bash ./setup.sh",
"hooks":{"guard":"cfg(dendron_sim)","enable":"RUSTFLAGS='--cfg dendron_sim' (set by /verif/check.sh and /verif/setup.sh)","source_commits":hook},
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration","level_note":note} for p,t in T.items()],
"not_applicable":[
 {"property":"C21","reason":"InsertAs, AdoptAs, DftEvent and Event adaptors are pure functions on a value: no schedule, time, I/O, fault or history can influence them, so there is nothing for a simulator to decide."},
 {"property":"C22","reason":"The tree literal macros expand at compile time: the set of programs is fixed when the simulator is compiled, no schedule, fault or history can influence the expansion."}],
"notes":"Known findings: known_findings.txt (all fixed in /repo). Replay a violation with: sim/target/debug/sim replay FILE"}
json.dump(m,open("MANIFEST.json","w"),indent=1);open("MANIFEST.json","a").write("\n")
