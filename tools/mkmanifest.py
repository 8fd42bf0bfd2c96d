#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. DONE: the properties whose check exists."""
import json
DONE="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()
ALL=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TRUST=" Assurance is that of the cases generated (counts, classes and samples in the evidence file); nothing is proved. Trusts arkworks arithmetic, the hash functions and the reference model in /verif/harness."
NOTE={}
exec(open("/verif/tools/notes.py").read())
checks=[dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"./run.sh {i}",technique=NOTE[i][0],level="exploration",level_note=NOTE[i][1]+TRUST) for i in ALL if i in DONE]
m=dict(version=1,
  setup_cmd="./setup.sh",
  hooks=dict(guard="vh_hooks",enable="harness/.cargo/config.toml sets rustflags --cfg vh_hooks for every build made from /verif/harness",
    source_commits=["89efc7a","b3f02d5","f5d5166"]),
  checks=checks,
  not_applicable=[dict(property=i,reason="check not built yet") for i in ALL if i not in DONE],
  notes="KNOWN_FINDINGS lists repaired defects. run.sh builds from /repo's working tree; run.sh replay <id> <file> replays a failing case.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
