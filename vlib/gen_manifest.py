#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = V + "/checks/%s.py" % p["id"]
    if os.path.exists(f):
        src = open(f).read()
        def get(k, d):
            m = re.search(r'^%s\s*=\s*\(?\s*((?:"[^"]*"\s*)+)\)?' % k, src, re.M)
            return "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else d
        checks.append({"property": p["id"],
            "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": get("TECHNIQUE", "property-based testing against a reference model"),
            "level": "exploration",
            "level_note": get("NOTE", "Generated-input search; absence of a counterexample on the explored cases, not a proof.")})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 vlib/build.py plain asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: checks compile /repo's working tree into /verif/build (git-ignored, content-addressed) and drive the public library API or the dieharder executable. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
