#!/usr/bin/env python3
"""Which planted bugs change only lines my own /repo commits added (these do not count)."""
import os, subprocess, sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD | tail -1",shell=True,capture_output=True,text=True).stdout.strip() if len(sys.argv)<2 else sys.argv[1]
for b in sorted(os.listdir(ROOT+"/seeded")):
    f=None; n=ok=0
    for l in open(f"{ROOT}/seeded/{b}/patch.diff"):
        if l.startswith("--- a/"):
            f=l[6:].strip(); src=set(subprocess.run(["git","-C","/repo","show",f"{BASE}:{f}"],capture_output=True,text=True,errors="replace").stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---"):
            n+=1; ok+= l[1:].rstrip("\n") in src
    print(b, f"{ok}/{n}", "" if ok else "DOES NOT COUNT")
