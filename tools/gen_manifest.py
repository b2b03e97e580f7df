#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"J01":"online monitor: map per version",
"J02":"online monitor: independent sparse Merkle tree",
"J03":"online monitor: independent proof verifier",
"J04":"online monitor: forged proofs judged by an independent verifier",
"J05":"online monitor: neighbour oracle on live contents",
"J06":"online monitor: ics23 verifier with true and false claims",
"J07":"online monitor: iteration against sorted live pairs",
"J08":"event-log monitor: node reachability per version against stale index",
"J09":"differential monitor across update interfaces",
"J10":"crash-point injection with state monitors",
"J11":"fault injection at every store read with answer monitor",
"J12":"crash/restart workload with restore monitor",
"J13":"hostile chunk streams with store-write monitor",
"J14":"online monitor: range proofs, honest and altered",
"J15":"round-trip monitors and byte-only stores",
"J16":"online monitor: ordered value-history model",
"J17":"stress of threads with snapshot checker",
"J18":"event-log monitor: written nodes and values against changed paths",
"J19":"online monitor: answers on stores reduced to what a call needs",
"P01":"online monitor: plain map",
"P02":"online monitor: independent Ethereum trie",
"P03":"online monitor: contents per committed root, also across threads",
"P04":"online monitor: independent proof verifier",
"P05":"hostile proofs and storages judged by an independent verifier; crash monitor",
"P06":"online monitor: iteration against sorted live pairs",
"P07":"fault injection at database calls with answer and recovery monitors",
"P08":"recorded write log replayed to every crash point",
"P09":"recorded concurrent histories, linearizability checker",
"P10":"database-contents monitor against independent trie",
"P11":"round-trip monitors",
"P12":"database-log monitor: writes against changed paths of an independent trie",
"P13":"fault injection: lost nodes with naming and recovery monitor",
"S01":"online monitor: independent Keccak-256 and round trips",
"U01":"Miri, AddressSanitizer with leak check, ThreadSanitizer",
}
N={
"U01":"No report from the three tools on the workloads run. Contended locks are only seen by ThreadSanitizer (Miri rejects the futex call of the lock library); a race that no run exhibits is not seen.",
"J17":"Every snapshot read in the observed interleavings was complete. Schedules are those the OS and injected pauses produce.",
"P09":"Every recorded history has a linearization. Schedules are those the OS and injected pauses produce; histories of 24 operations.",
"J11":"For the calls of every generated history each read position is made to fail in turn, and nodes or values are lost; outside the generated histories nothing is claimed.",
"P07":"Failures are injected at each database call position of the sampled operations, and nodes removed, on generated histories.",
"P08":"Every prefix of the recorded writes of each commit (sampled when longer than 24) on generated histories; assumes a crash keeps a prefix of the issued writes.",
}
D="Held on every execution observed (seeded random histories, hostile inputs, counted in the evidence). Trusts the reference model in the harness and SHA-256/Keccak collision resistance."
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
m={"version":1,"setup_cmd":"tools/build.sh",
"hooks":{"guard":"cfg(patriecia_verif)","enable":"harness/.cargo/config.toml passes --cfg patriecia_verif to rustc","source_commits":["b46ae98"]},
"checks":[{"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,
"technique":"runtime monitoring: "+T[i] if i!="U01" else "sanitizers: "+T[i],"level":"fault_enumeration" if i in("J11","P07","P08") else "exploration","level_note":N.get(i,D)} for i in ids],
"not_applicable":[],
"notes":"Verdicts are three-valued: 0 held, 1 VIOLATION, 2 inconclusive (build failure, or a monitor that observed nothing). See DESIGN.md."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
