#!/usr/bin/env python3
"""plant.py DEFS.py [id...] : turn planted-bug definitions into seeded/<id>/ after confirming each one in /tmp copies:
the patch changes original lines of non-test sources, the 20 example/test programs still compile and pass,
demo.sh exits 0 on the unchanged tree and nonzero with the patch.  DEFS.py defines BUGS = [dict(id, prop, file|edits, needs, breaks, demo, [asan, flags])]."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"; BASE = "caa7587"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests(d):
    for m in re.finditer(r'add_files\("(.*?)"\)', open(REPO + "/xmake.lua").read()):
        t = m.group(1)
        if "cpp_test" in t: continue
        r = sh("g++ -std=c++11 -g0 -O0 -w -I. -Itests %s -o t.bin && timeout 20 ./t.bin </dev/null" % t, cwd=d)
        if r.returncode: return "%s rc=%d %s" % (t, r.returncode, r.stderr[-300:])
def plant(b):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); w = d + "/repo"
    try:
        sh("git clone -q %s %s" % (REPO, w))
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        for f, old, new in edits:
            s = open(os.path.join(w, f)).read()
            if s.count(old) != 1: return "edit matches %d times: %r" % (s.count(old), old[:60])
            open(os.path.join(w, f), "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        # some removed line comes from the original repository
        orig = 0
        for m in re.finditer(r"^--- a/(\S+)", diff, re.M):
            f = m.group(1); bl = sh("git blame -s %s HEAD -- %s" % ("", f), cwd=w).stdout.split("\n")
            fixes = set(x[:7] for x in sh("git rev-list %s..HEAD" % BASE, cwd=w).stdout.split())
            cur = None
            part = diff[m.start():].split("\ndiff --git")[0]
            for l in part.split("\n"):
                h = re.match(r"@@ -(\d+)", l)
                if h: cur = int(h.group(1)); continue
                if cur is None: continue
                if l.startswith("-"):
                    orig += not any(bl[cur - 1].lstrip("^").startswith(x[:7]) for x in fixes); cur += 1
                elif not l.startswith("+"): cur += 1
        if not orig: return "changes no original line"
        o = os.path.join(HERE, "seeded", b["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.cpp", "w").write(b["demo"].lstrip())
        fl = b.get("flags", "") + (" -fsanitize=address,undefined -fno-sanitize-recover=all" if b.get("asan") else "")
        open(o + "/demo.sh", "w").write("""#!/bin/bash
# run from the repository root: builds demo.cpp against the headers found there; exit 0 = property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -g -O0 -w %s -I. "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=%d timeout 60 ./demo
""" % (fl, 1 if b.get("leak") else 0))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        err = None
        t = tests(w)
        if t: err = "tests: " + t
        r1 = sh("bash %s/demo.sh" % o, cwd=REPO); r2 = sh("bash %s/demo.sh" % o, cwd=w)
        if r1.returncode: err = "demo fails on unchanged tree: %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-400:])
        elif r2.returncode in (0, 3): err = (err or "") + " demo rc=%d with the patch %s" % (r2.returncode, r2.stderr[-300:])
        if err: shutil.rmtree(o); return err
        return None
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    B = runpy.run_path(sys.argv[1])["BUGS"]; ids = sys.argv[2:]
    import concurrent.futures as cf
    todo = [b for b in B if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for b, e in zip(todo, ex.map(plant, todo)): print(b["id"], "OK" if not e else "REJECTED " + e)
