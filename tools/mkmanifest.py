#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl.
import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
T={
"C01":"deterministic simulation: seeded search over stream deliveries, differential oracle",
"C02":"deterministic simulation: stream-failure injection",
"C03":"deterministic simulation: stream-failure and corruption injection, before/after invariant",
"C04":"deterministic simulation: sink-failure injection, prefix oracle",
"C05":"deterministic simulation: write/read histories over simulated streams, reference-model equality",
"C06":"deterministic simulation: torn-stream injection",
"C07":"deterministic simulation: corruption, fault and schedule injection, bounded-step liveness and no-panic",
"C08":"deterministic simulation: seeded schedules with race detector, before/after invariant and run-alone oracle",
"C09":"deterministic simulation: seeded schedules with race detector, run-alone oracle",
"C10":"deterministic simulation: seeded map orders, schedules and directory orders, differential oracle",
"C11":"deterministic simulation: fault histories followed by a retry, fresh-run oracle",
"C12":"deterministic simulation: file-system layer (short reads, EINTR, directory order), reference model of the tree",
"C13":"deterministic simulation: file-system failure injection, reference model of the tree",
"C14":"deterministic simulation: simulated external writer between system calls, consistency oracle",
"C15":"deterministic simulation: simulated clock and time zones",
"C16":"deterministic simulation: fault injection with descriptor and goroutine accounting",
"C17":"deterministic simulation: file-system faults, reference model of the identifier search",
"C18":"deterministic simulation: write/read histories over simulated streams, reference-model equality",
"C19":"deterministic simulation: histories of reads into one target, fresh-target oracle",
"C20":"deterministic simulation: simulated streams, seeded schedules and map orders, reference model of the document",
"C21":"deterministic simulation: build, save, load and check histories over the simulated file system and streams",
"C22":"deterministic simulation: simulated streams and schedules, reference model of the document",
"C23":"deterministic simulation: simulated streams and schedules, reference model of the document",
"C24":"deterministic simulation: seeded schedules with race detector, reference model of the conversion",
"C25":"deterministic simulation: histories of a changing tree over the simulated file system, reference model",
"C26":"deterministic simulation: histories of well-formed and damaged documents over simulated streams, refusal oracle",
"C27":"deterministic simulation: seeded schedules and map orders with race detector and sink-failure injection, reference model",
"C28":"deterministic simulation: seeded documents, schedules and sink faults, independent parser of the written bytes as reference model",
"C30":"deterministic simulation: seeded chains of format changes with stream, sink and schedule faults, content compared after each step",
"C29":"deterministic simulation: seeded damage, schedules and sink faults, crash and progress bound",
}
NA={}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd="./check.sh %s"%i,thorough_cmd="VERIF_TIER=thorough ./check.sh %s"%i,
      evidence_file="evidence/%s.json"%i,technique=T[i],level="exploration",
      level_note="Seeded random search over many simulated executions of the real (instrumented) code of /repo; it samples, it does not enumerate. Trusts the simulator's seams (streams, sinks, system-call layer, scheduler, clock), the generators and the oracle described in DESIGN.md."))
m=dict(version=1,
  setup_cmd="./build.sh .build/setup both && .build/setup/sim list && rm -rf .build/setup",
  hooks=dict(guard="go build -overlay (no source change in /repo)",
    enable="build.sh writes instrumented copies of /repo's and its dependencies' packages into a scratch directory and builds the simulator from those; /repo itself carries no hook",
    source_commits=[]),
  checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes="Replay a violation with ./check.sh --replay FILE. Known findings are in known-findings.json.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
