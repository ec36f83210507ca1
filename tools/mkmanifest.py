#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness table."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry  # noqa: E402
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NOTE = registry.LEVEL_NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    hs = [h for h in registry.HARNESSES if i in h["props"]]
    if not hs:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no harness yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 vprun.py check %s --tier quick" % i, "thorough_cmd": "python3 vprun.py check %s --tier thorough" % i,
                   "technique": "bounded symbolic execution of the real C sources with CBMC (SAT back end), counterexamples replayed natively",
                   "level": "other",
                   "level_note": NOTE.get(i, "Holds for every value within the bounds stated in DESIGN.md and in the evidence file; environment calls (OpenSSL, key ladder, allocator) are contract models.")})
m = {"version": 1, "setup_cmd": "python3 vprun.py list >/dev/null && cbmc --version >/dev/null && goto-cc --version >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "Every check re-encodes /repo's current sources on each run; nothing is prebuilt. Known findings and repairs: known-findings.json. Tools: tools/mkprops.py, tools/mkmanifest.py."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
