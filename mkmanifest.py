#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (kept so the two stay in step)."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={'C20':"Pure functions of their arguments: no scheduling, time, I/O, allocation, callback or multi-party behaviour for a simulated schedule or fault to act on; sampling inputs for them would be property-based testing, not deterministic simulation. (The geometry is still run, and compared with an independent integer geometry, wherever C03-C06 queries use it.)"}
NOTE={
'default':"Seeded search: every run is one exactly repeatable execution of the real library; absence of violations is evidence for the runs made, not a proof. Trusted: the simulator's model, oracle geometry, allocator and scheduler; caller threads are serialised, so hardware memory reordering is not simulated.",
'C09':"Seeded search over where callbacks unwind. Undefined behaviour is observed through the registry of live keys/values, the guarded allocator and process crashes; UB with no such effect in the simulated build is not seen. After an interrupted modification only safety and the multiset bound are demanded, not completeness.",
'C11':"Seeded search over interleavings at every basic block and every memory access of the instrumented library, callbacks and allocations; one thread runs at a time under sequentially consistent memory. Unordered conflicting accesses are found by a happens-before detector whatever the interleaving, but results that only weaker memory orders could give are not produced. Send/Sync are decided by compile-time probes of the built crate.",
'C12':"Seeded search over which allocation fails; the process-wide allocation error hook unwinds. The default handler aborts, so damage is only reachable by callers that install such a hook.",
}
checks=[]
for p in props:
    if p['id'] in NA: continue
    i=p['id']
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json",
      "technique":"deterministic simulation with fault injection: seeded search over schedules, operation histories and faults against a reference model",
      "level":"exploration","level_note":NOTE.get(i,NOTE['default'])})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the seams are the crate's own traits (keys, bounds, filters, rankings, joins), the global allocator and its error hook, cursor stepping, and compiler-inserted basic-block points (for C11 also memory-access callbacks, answered by sim/src/race.c) in the simulator's builds of the crate. Replay: ./replay.sh FILE [--trace] (exit 10 when it reproduces). Determinism: sim/target/x86_64-unknown-linux-gnu/release/rtree-sim selftest N."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
