#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"deterministic simulation: seeded delivery schedules with an active attacker, reference model over every read",
"C02":"deterministic simulation: seeded duplication/replay schedules, at-most-once oracle per message number",
"C03":"deterministic simulation: seeded reordering/delay/loss/stall schedules, per-message delivery oracle",
"C04":"deterministic simulation: seeded handshake interleavings over a lossless network, convergence and liveness oracle",
"C05":"deterministic simulation: seeded man-in-the-middle and impostor histories, signature-provenance oracle",
"C06":"deterministic simulation: seeded injection of forged handshakes into genuine ones, convergence oracle and step-wise model",
"C07":"deterministic simulation: seeded fault/mutation histories with crash, hang and allocation monitors",
"C08":"deterministic simulation: seeded failure injection followed by probes with genuine traffic, absorbing-state oracle",
"C09":"deterministic simulation: seeded call orders against arrival orders, protocol automaton as reference model",
"C10":"deterministic simulation: seeded writer faults (short, interrupted, failing, full), sink oracle and fault-free twin run",
"C11":"deterministic simulation: seeded sessions under changing configurations, end-to-end content oracle",
"C12":"deterministic simulation: seeded multi-session histories with an omniscient observer of the network",
"C13":"deterministic simulation: seeded mixed sessions with an independent implementation of the protocol, wire oracle",
"C14":"deterministic simulation: seeded interleavings of clones against the one-handle reference model",
"C15":"deterministic simulation: seeded gap/refill schedules around the window limit against the reference model",
"C16":"deterministic simulation: seeded entropy-source faults (EINTR, short, EIO, EAGAIN, ENOSYS) at the system-call seam",
"C17":"deterministic simulation: seeded drop points (crash at any moment), memory inspection at the allocator seam",
"C18":"deterministic simulation: seeded interleavings of whole sessions compared with the same sessions run alone",
}
note={
"C17":" Looks at heap memory released by the drop (handles are boxed); copies left on the stack by moves are outside the property.",
"C12":" Confidentiality is judged by what the simulator's observer can do (plaintext search, key reuse, keys from public values), not by cryptanalysis.",
"C16":" The random source is replaced at the getrandom system call; its statistical quality is the simulator's.",
}
base="Seeded sampling of schedules, faults and attacks over the real crate, checked step by step against an independent reference model; one seed is one exactly repeatable run, violations are minimised and replayable. A clean batch is evidence, not proof. Trusts the model and codec in harness/src and the primitives of ring and cryptoxide."
m=dict(version=1,setup_cmd="./check.sh build",checks=[dict(property=k,quick_cmd="./check.sh "+k,thorough_cmd="./check.sh "+k,evidence_file="evidence/%s.json"%k,technique=v,level="exploration",level_note=base+note.get(k,"")) for k,v in T.items()],not_applicable=[],
 notes="No hooks in /repo: the writer, the random source (system-call symbol), the clock, the allocator and the datagrams are all seams outside the crate. Thorough differs from quick by VERIF_TIER.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
