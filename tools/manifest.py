#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("every path of the lifted source within the bounds, each branch and assertion decided by z3 over all input values; "
        "counterexamples and sample paths replayed on the untouched crate")
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"]
PENDING = "not built yet: no harness for this property so far"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash build.sh all",
    "checks": [{
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the lifted source with z3",
        "level": "model_checking", "level_note": NOTE} for i in ids if i in CLAIMED],
    "not_applicable": [{"property": i, "reason": PENDING} for i in ids if i not in CLAIMED],
    "notes": "No hooks: the lifting tool works on a copy of /repo/src. Bounds per harness are in the evidence files and DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
