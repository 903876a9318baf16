#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T="deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real code under a simulated runtime"
notes={
"C01":"Seeded search, not exhaustive. Trusts the simulator's channel and scheduling semantics and the reference token grammar of the harness.",
"C02":"Seeded search over programs of a generator, their inputs, task schedules and map orders. Trusts the reference interpreter of the harness and the simulator.",
"C03":"Seeded search over malformed programs, import trees and storage faults. Trusts the simulator's file model (durable prefix, torn reads, read errors).",
"C04":"Seeded search over operation histories and schedules against a small reference model on coefficient maps.",
"C05":"Seeded search over mixes of sessions against the result of every session alone in a fresh process; unsynchronised map access is reported where two accesses overlap under some schedule.",
"C06":"Seeded search over operation histories and aliasing patterns against a reference model that names every element by its discrete logarithm.",
"C07":"Seeded search over elements, wire faults and receivers.",
"C08":"Seeded search over entropy faults and consumers; secrets are compared with those derived from the recorded entropy bytes.",
"C09":"Seeded search over programs, inputs, map orders and schedules; every constraint is re-evaluated by the harness with big integers.",
"C10":"Seeded search over protocol runs with a simulated network, crashes and restarts; real setup, prover, verifier and pairing code.",
"C11":"Seeded search over forgeries made of corrupted, exchanged and recombined messages; a search finds no counterexample, which is no proof of soundness.",
}
na={
"P01":"Pure arithmetic on operands: no task, time, I/O, randomness or second party the property depends on, so simulated schedules and faults cannot reach more than a plain input test; the claimed checks execute it as real code underneath.",
"P02":"Pure arithmetic on operands: no task, time, I/O, randomness or second party the property depends on; C06, C10 and C11 execute the pairing as real code and would show most breakage, but the law itself is not decided by this technique.",
"P03":"A statement about every efficient algorithm; no execution, simulated or not, can decide it. The forgeries an execution can express are decided by C11.",
}
claimed=sys.argv[1:]
if not claimed:
    claimed=[l.strip() for l in open(os.path.join(V,"tools","claimed.txt")) if l.strip()]
allp=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m=dict(version=1,setup_cmd="./setup.sh",
 hooks=dict(guard="none",enable="No source of /repo is changed for the simulation: build.sh copies /repo's working tree and the tool in instr/ rewrites the copy's goroutines, channels, locks, timers, randomness, file reads and map iterations to the simulator in simrt/.",source_commits=[]),
 checks=[dict(property=c,quick_cmd="./check.sh %s quick"%c,thorough_cmd="./check.sh %s thorough"%c,evidence_file="evidence/%s.json"%c,technique=T,level="exploration",level_note=notes[c]) for c in claimed],
 not_applicable=[dict(property=q,reason=na.get(q,"check under construction")) for q in allp if q not in claimed],
 notes="Every check rebuilds the simulation from /repo's working tree, runs real code of all packages, and writes evidence and, on a violation, a minimised replay file (./replay.sh FILE).")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
