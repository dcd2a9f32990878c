#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checkcfg.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from checkcfg import CFG, NOT_APPLICABLE, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CFG:
        c = CFG[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=c.get("technique", "symbolic execution of the crate's LLVM IR, assertions decided by z3, counterexamples replayed natively"),
            level=c.get("level", "model_checking"), level_note=c.get("note", "") or ("Bounded: " + c["bounds"] + (" Outside: " + c["outside"] if c.get("outside") else ""))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="--cfg verif_hooks", enable="RUSTFLAGS=\"--cfg verif_hooks\" (set by tools/ir.sh and check.py)", source_commits=HOOK_COMMITS), checks=checks, not_applicable=na), open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
