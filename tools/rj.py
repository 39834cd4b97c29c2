#!/usr/bin/env python3
"""Runs the jobs of a harness binary with the quick limits and prints one line each:  rj.py BIN [regex] [mask] [sec] [states]"""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
b = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else "."; mask = sys.argv[3] if len(sys.argv) > 3 else ""; sec = sys.argv[4] if len(sys.argv) > 4 else "45"; st = sys.argv[5] if len(sys.argv) > 5 else "150000"
def go(j):
    f = tempfile.mktemp(); cmd = [b, "--job", j, "--sec", sec, "--states", st, "--out", f] + (["--mask", mask] if mask else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try: d = json.load(open(f), strict=False); os.unlink(f)
    except Exception as e: return "%s rc=%d %s" % (j, r.returncode, r.stdout[-300:])
    v = d.get("violation"); s = "%-22s st=%d tr=%d depth=%d/%d %s %s %.1fs" % (j, d["states"], d["transitions"], d["maxDepth"], d["fullDepth"], "ex" if d["exhaustive"] else "CAP", d["cap"], d["secs"])
    if d["unmatched"]: s += " UNMATCHED %d %s" % (d["unmatched"], d["unmatchedKinds"][:4])
    if d["harness"]: s += " HARNESS %d %s" % (d["harness"], r.stdout[-200:])
    if v: s += "\n   VIO [%s] %s\n   after %s" % (v["kinds"], v["msg"][:300], v["history"][-300:])
    return s
jobs = [j for j in subprocess.run([b, "--list"], capture_output=True, text=True).stdout.split() if re.search(pat, j)]
with ThreadPoolExecutor(7) as ex:
    for s in ex.map(go, jobs): print(s, flush=True)
