#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo and the table below."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PID = {  # commit subject prefix -> property
 "initialise the data array": "C01",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
M = dict(l.strip().split("\t") for l in open(f"{HERE}/tools/fix_properties.tsv") if l.strip())
path = f"{HERE}/known_findings.txt"
keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(path) else []
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    s = s[5:]
    if s not in M: print("unmapped:", s); continue
    out.append(f"fixed: property={M[s]} {h} {s}")
open(path, "w").write("\n".join(keep + out) + "\n")
