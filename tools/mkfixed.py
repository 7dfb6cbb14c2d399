#!/usr/bin/env python3
"""Development aid: (re)writes the fixed: lines of known_findings.txt from /repo's fix commits and the map below."""
import os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "fixmap.py")).read())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out, missing = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = next((v for k, v in MAP if k in s), None)
    if p is None: missing.append(s); continue
    for q in p.split(): out.append("fixed: property=%s %s %s" % (q, h, s))
path = os.path.join(here, "..", "known_findings.txt")
keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")]
open(path, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed lines; unmapped:", missing)
