#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md (findings, planted bugs, probes)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
from probes import P
F = json.load(open(R + "/known-findings.json"))["findings"]


def lines():
    fx = [f for f in F if f.get("status") == "fixed"]
    kn = [f for f in F if f.get("status") != "fixed"]
    o = ["Recorded, not repaired:", ""]
    o += ["* %s: %s" % (f["property"], f["what"]) for f in kn]
    o += ["", "Repaired:", ""]
    o += ["* %s (%s): %s" % (f["property"], f.get("commit", "")[:9], f["what"]) for f in fx]
    return "\n".join(o)


def bugs():
    o = ["| change | caught by | what it needs |", "|---|---|---|"]
    o += ["| %s | %s | %s |" % (b["id"], b["property"], b["needs"].replace("|", "/")) for b in BUGS]
    return "\n".join(o)


def probes():
    log = R + "/tools/probe-results.json"
    res = json.load(open(log)) if os.path.exists(log) else {}
    ids = {p[0]: p[1] for p in P}
    by = {}
    for k, c in ids.items():
        by.setdefault(c, []).append((k, res.get(k, "not run")))
    o = ["| property | caught | not reported (and why) |", "|---|---|---|"]
    for c in sorted(by):
        miss = ["%s: %s" % (k, v) for k, v in by[c] if v != "caught"]
        o.append("| %s | %d of %d | %s |" % (c, len(by[c]) - len(miss), len(by[c]), "; ".join(miss)))
    return "\n".join(o)


s = open(R + "/DESIGN.md").read()
for k, f in (("FINDINGS", lines), ("BUGS", bugs), ("PROBES", probes)):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, f(), k), s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
