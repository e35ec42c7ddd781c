#!/usr/bin/env python3
"""Debugging aid: shrink the failing program of one case.
usage: shrink.py HARNESS CASE [SEED] [KEYREGEX]"""
import os, re, subprocess, sys
h, case = sys.argv[1], sys.argv[2]
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
key = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
def run(drop):
    r = subprocess.run([h, "--seed", seed, "--case", case], env=dict(os.environ, VH_DROP=",".join(map(str, drop)), OMP_NUM_THREADS="1"), capture_output=True, text=True, errors="replace")
    v = [l for l in r.stderr.splitlines() if l.startswith("VIOL") and key.search(l)]
    if not v and (r.returncode not in (0, 1) or "AddressSanitizer" in r.stderr or "runtime error" in r.stderr):
        i = max(r.stderr.find("AddressSanitizer"), r.stderr.find("runtime error"), 0)
        v = ["CRASH " + "".join(l for l in r.stderr.splitlines(True) if l.startswith("DUMP")) + r.stderr[max(0, i - 80):][:1200]]
    return v
drop = []
v = run(drop)
if not v:
    sys.exit("does not fail")
for i in range(60, -1, -1):
    w = run(drop + [i])
    if w:
        drop.append(i)
        v = w
print(drop, len(v))
print("\n".join(x[:1500] for x in v[:3]))
