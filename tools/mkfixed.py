#!/usr/bin/env python3
"""Rewrite the fixed: lines of known_findings.jsonl from the fix: commits in /repo (subject -> property, what failed)."""
import subprocess, json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
FIX = json.loads((V / "tools/fixed.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
f = V / "known_findings.jsonl"
keep = [x for x in f.read_text().splitlines() if x.strip() and not x.startswith("fixed:")]
out, missing = [], []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        if s not in FIX:
            missing.append(s)
            continue
        for prop, what in FIX[s]:
            out.append(f"fixed: property={prop} {h} {what}")
f.write_text("".join(x + "\n" for x in keep + out))
for m in missing:
    print("no entry for", m)
