#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS, NA
m=dict(version=1,setup_cmd="python3 run.py setup",
 hooks=dict(guard="none",enable="no hooks in /repo are needed: the checks compile /repo's unmodified sources with -fsanitize=thread instrumentation and link them against the simulator's own runtime (sim/), so every seam (OpenMP, TBB, pthread, heap, clock, disk) lies at a library boundary",source_commits=[]),
 checks=[dict(property=p,quick_cmd="python3 run.py check %s quick"%p,thorough_cmd="python3 run.py check %s thorough"%p,evidence_file="evidence/%s.json"%p,
   technique=c.get("technique","deterministic simulation with fault injection (seeded schedule and fault search)"),level="exploration",
   level_note=c.get("note","Seeded search over workloads, schedules and faults on the real code; a clean batch is evidence, not proof. Assumes: "+"; ".join(c["assumes"])+".")) for p,c in sorted(CHECKS.items())],
 not_applicable=[dict(property=p,reason=r) for p,r in sorted(NA.items())],
 notes="run.py replay <file> rebuilds the harness and re-executes a replay file; exit 1 means the violation was reproduced exactly.")
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
for i in ids:
    if i not in CHECKS and i not in NA: m["not_applicable"].append(dict(property=i,reason="check under construction"))
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
