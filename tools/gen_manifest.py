#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the model checker registers."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
mc = os.path.join(here, "harness/mc/target/release/mc")
listed = {}
for line in subprocess.check_output([mc, "--list"], text=True).splitlines():
    id, level, note = line.split("\t")
    listed[id] = (level, note)
TECH = {
 "exploration": "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model (explicit-state model checking)",
 "fault_enumeration": "exhaustive enumeration of fault placements on the real code under a fault-injecting device controlled by the model checker",
 "model_checking": "explicit-state exploration of a reference model with every trace replayed on the real code",
}
checks, na = [], []
for p in props:
    id = p["id"]
    if id in listed:
        level, note = listed[id]
        checks.append(dict(property=id, quick_cmd=f"./run_check.sh {id} quick", thorough_cmd=f"./run_check.sh {id} thorough",
                           technique=TECH[level], level=level, level_note=note))
    else:
        na.append(dict(property=id, reason="check not built yet"))
m = dict(version=1,
  setup_cmd="./run_check.sh --setup",
  hooks=dict(guard="cfg(md_recover_verif)", enable="harness/sut compiles /repo/src/main.rs as a library; its build.rs passes cfg md_recover_verif", source_commits=["a630387"]),
  checks=checks, not_applicable=na,
  notes="Replay a violation with: harness/mc/target/release/mc --replay replays/<id>.replay")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
