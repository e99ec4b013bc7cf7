#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
# id: (technique, level, note)
T=json.load(open(here+"/techniques.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        t=T[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          technique=t["technique"],level=t["level"],level_note=t["note"],evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i,reason="the check for this property is not built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="--cfg clickhouse_rs_verify",enable="env.sh sets RUSTFLAGS='--cfg clickhouse_rs_verify'; it compiles src/verify.rs, which lets a thread lower the number of rows of one piece of an INSERT; fuzz.sh adds --cfg clickhouse_rs_verify_packets, which compiles src/verify_packets.rs, an entry to the packet reader for coverage-guided search",source_commits=open(here+"/tools/hook_commits").read().split()),
 checks=checks,not_applicable=na,
 notes="Property-based testing: every check generates cases from VERIF_SEED, drives the real client against a scripted server on loopback (or the in-memory API) and compares with an independent model; failures are shrunk to a replay file that `target/debug/vh replay FILE` re-runs. Repairs and findings: FINDINGS.md.")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
open(here+"/MANIFEST.json","a").write("\n")
