#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json
MC="model_checking"; FE="fault_enumeration"
claims = json.load(open('claims.json'))
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[]
for p in props:
    if p in claims:
        c=claims[p]
        checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough", technique=c["technique"], level=c["level"], level_note=c["note"]))
na=[dict(property=p, reason="not built yet; planned in DESIGN.md") for p in props if p not in claims]
m=dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
  notes="Every check builds the explorer crates in /verif against /repo's working tree and enumerates a bounded space of executions of the real code. C07 and C08 compile /repo/src against shims of the synchronisation crates (sched/), with the guard jubako_verif on.",
  hooks=dict(guard="cfg(jubako_verif)", enable="sched/lib/build.rs prints cargo:rustc-cfg=jubako_verif", source_commits=["9ec4c29"]))
json.dump(m, open('MANIFEST.json','w'), indent=1); open('MANIFEST.json','a').write("\n")
