#!/usr/bin/env python3
"""catch.py [-a] [-w WORKERS] [id...] : runs the check of each planted bug's property (with -a: every check) on a patched copy under /tmp
and prints which checks report it."""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i, allp):
    d = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    try:
        subprocess.run("git clone -q /repo %s/r && cd %s/r && git apply %s/seeded/%s/patch.diff" % (d, d, HERE, i), shell=True, check=True)
        p = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))["property"]
        props = [p] + (["C%02d" % k for k in range(1, 100) if "C%02d" % k != p and '"C%02d":' % k in open(HERE + "/run.py").read()] if allp else [])
        res = {}
        for q in props:
            t = time.time()
            r = subprocess.run([sys.executable, HERE + "/run.py", q, "quick"], env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_OUT=d), capture_output=True, text=True)
            res[q] = (r.returncode, "VIOLATION property=" + q in r.stdout, round(time.time() - t), r.stdout.strip().split("\n")[0][:160])
        return i, p, res
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; allp = "-a" in a; w = 2
    if "-w" in a: k = a.index("-w"); w = int(a[k + 1]); del a[k:k + 2]
    ids = [x for x in a if x != "-a"] or sorted(os.listdir(HERE + "/seeded"))
    with cf.ThreadPoolExecutor(w) as ex:
        for i, p, res in ex.map(lambda i: one(i, allp), ids):
            print("%-28s %s %s" % (i, p, "caught" if res[p][1] and res[p][0] == 1 else "MISSED rc=%d" % res[p][0]), res[p][2], "s", res[p][3], ("others: " + " ".join(q for q in res if res[q][1])) if allp else "", flush=True)
