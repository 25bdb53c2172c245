#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, os
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=P["technique"], level=P["level"],
                       level_note=P["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check still being built")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="texpresso_verif",
                    enable="RUSTFLAGS='--cfg texpresso_verif' TEXPRESSO_VERIF_DIR=<directory holding the harness files> (check.py assembles the directory from /verif/kani on every run)",
                    source_commits=["05010dfPLACE"]),
         checks=checks, not_applicable=na,
         notes="Contract-based deductive verification: Verus on functions extracted mechanically from /repo on every run, Kani/CBMC function contracts (harnesses inside the crate, callee replaced by its contract) on the compiled MIR. known findings and repairs: KNOWN_FINDINGS.txt")
import subprocess
m["hooks"]["source_commits"] = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "05010df"], text=True).strip()]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
