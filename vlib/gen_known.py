#!/usr/bin/env python3
"""Source of known-findings.json (edited by hand, regenerated by hand; never at check run time)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
def h(start):
    m = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(m) == 1, (start, m)
    return m[0]
F = []
def fixed(prop, start, what):
    F.append({"property": prop, "status": "fixed", "commit": h(start), "what": what,
              "record": "fixed: property=%s %s %s" % (prop, h(start), what)})
def known(prop, what, **kw):
    F.append(dict({"property": prop, "status": "known", "what": what}, **kw))
exec(open(os.path.join(V, "vlib", "known_list.py")).read())
json.dump({"findings": F}, open(V + "/known-findings.json", "w"), indent=1)
