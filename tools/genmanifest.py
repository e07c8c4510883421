#!/usr/bin/env python3
# Writes MANIFEST.json from the properties and the list of claimed checks.
import json,os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
NA={
"C20":"whether a source-to-source function gives compilable text for every Go construct is a property of a pure function, with no schedule, clock, fault or second party in it; what instrumented programs do when they run is C19",
}
CLAIMED=[l.strip() for l in open(os.path.join(H,"tools","claimed.txt")) if l.strip()]
props=[json.loads(l) for l in open(os.path.join(H,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd="./check.sh %s"%i,thorough_cmd="VERIF_TIER=thorough ./check.sh %s"%i,
            technique="deterministic simulation with fault injection (seeded search over schedules and faults, history checked against a reference model)",
            level="exploration",
            level_note="Seeded sampling of schedules and faults of the real code under a simulator that owns scheduling, clock, disk, network, processes and map order; a clean run is evidence, not proof. Trusts the stand-ins listed in the evidence file and the source rewriting that inserts scheduling points."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none: the checks rewrite a copy of the sources at build time through a go build overlay; no hook was added to the repository",enable="build.sh (go build -overlay)",source_commits=[]),checks=checks,not_applicable=na,
  notes="check.sh <property> builds the simulation from /repo's working tree and runs it; check.sh --replay <file> repeats a recorded violation exactly.")
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
