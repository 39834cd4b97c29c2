#!/usr/bin/env python3
"""Runs one property's check:  run.py <property> [quick|thorough]   |  run.py --replay FILE  |  run.py --prebuild
Every property is decided by exhaustive explicit-state exploration of the real library code (mc/mc.hpp);
this file only says which explorations (source file, variant, job, failure kinds) belong to which property,
builds them from /repo's working tree, runs them in parallel, replays every counterexample in a fresh
process before it is reported, and writes the evidence."""
import concurrent.futures as cf, fnmatch, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)
BUILD = os.path.join(OUT, "build"); REPLAYS = os.path.join(OUT, "replays"); EVID = os.path.join(OUT, "evidence")
CXX = "g++"
FLAGS = ["-std=c++20", "-O1", "-g1", "-no-pie", "-fno-pie", "-w", "-fmax-errors=5", "-fno-strict-aliasing", "-fno-lifetime-dse", "-fno-delete-null-pointer-checks"]
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"
# unit -> (source, extra flags)
UNITS = {}
def unit(name, src, parts=0):
    if not parts: UNITS[name] = (src, [])
    for p in range(1, parts + 1): UNITS["%s%d" % (name, p)] = (src, ["-DPART=%d" % p])
for n in ("vector", "array", "elist", "dsu", "string", "sma", "port", "algo", "cost", "run", "big"): unit(n, n + ".cpp")
for n in ("deque", "list", "heap", "map", "adapter", "portmix"): unit(n, n + ".cpp", 2)
unit("smem", "smem.cpp", 3)
unit("sep", "sep.cpp", 2)
unit("nest", "nest.cpp", 2)
unit("types", "types.cpp", 4)
unit("tree", "tree.cpp", 4)

CONT = ["vector", "array", "deque*", "list*", "elist", "heap*", "tree*", "map*", "adapter*", "dsu", "string"]
# property -> list of (units, job pattern, kinds, variant).  Variant a: AddressSanitizer build, p: plain build.
# Job patterns: glob, '!' excludes, comma separated.
P = {
 "C01": [(["vector"], "*,!pair*,!alias*", "F,S", "p"), (["run"], "vec_*", "F,S", "p"), (["nest*"], "vec_*", "F,S", "p"), (["big"], "vec*", "F,S", "p"), (["types*"], "vec_*", "F,S", "p")],
 "C02": [(["array"], "*", "F,S", "p"), (["types*"], "array_*", "F,S", "p"), (["big"], "array*", "F,S", "p")],
 "C03": [(["deque*"], "*,!alias*", "F,S", "p"), (["run"], "deque*", "F,S", "p"), (["nest*"], "deque_*", "F,S", "p"), (["big"], "deque*", "F,S", "p"), (["types*"], "deque_*", "F,S", "p")],
 "C04": [(["list*"], "*,!*pair*,!*alias*", "F,S", "p"), (["run"], "slist*,dlist*", "F,S", "p"), (["nest*"], "slist_*,dlist_*", "F,S", "p"), (["big"], "slist*,dlist*", "F,S", "p"), (["types*"], "slist_*,dlist_*", "F,S", "p")],
 "C05": [(["elist"], "*", "F,S", "p")],
 "C06": [(["adapter*"], "*,!*alias*", "F,S", "p"), (["run"], "stack*,queue*", "F,S", "p"), (["nest*"], "stack_*,queue_*", "F,S", "p"), (["big"], "stack*,queue*", "F,S", "p"), (["types*"], "stack_*,queue_*", "F,S", "p")],
 "C07": [(["heap2"], "x_*,!x_alias*", "F,S", "p"), (["run"], "xstack*", "F,S", "p"), (["nest*"], "xstack_*", "F,S", "p"), (["big"], "xstack*", "F,S", "p"), (["types*"], "xstack_*", "F,S", "p")],
 "C08": [(["heap1"], "h_*,!h_alias*,!h_pair*", "F,S", "p"), (["heap1"], "sort_*", "F,S", "p"), (["run"], "heap*", "F,S", "p"), (["nest*"], "heap_*", "F,S", "p"), (["big"], "heap_*", "F,S", "p"), (["types*"], "heap*", "F,S", "p")],
 "C09": [(["heap1"], "sort_*", "F,S", "p"), (["big"], "sort_*", "F,S", "p"), (["types*"], "sort*", "F,S", "p")],
 "C10": [(["tree1", "tree2"], "*,!*alias*,!*pair*", "F,S", "p"), (["run"], "bst", "F,S", "p"), (["nest*"], "bst_*", "F,S", "p"), (["big"], "bst*", "F,S", "p"), (["types*"], "bst_*", "F,S", "p")],
 "C11": [(["tree3", "tree4"], "*,!*alias*,!*pair*", "F,S", "p"), (["run"], "avl", "F,S", "p"), (["nest*"], "avl_*", "F,S", "p"), (["big"], "avl*", "F,S", "p"), (["types*"], "avl_*", "F,S", "p")],
 "C12": [(["tree3"], "*", "H", "p"), (["big"], "avl", "H", "p")],
 "C13": [(["map*"], "*,!*alias*,!*pair*", "F,S", "p"), (["run"], "map", "F,S", "p"), (["nest*"], "map_*", "F,S", "p"), (["big"], "map", "F,S", "p"), (["types*"], "map_*", "F,S", "p")],
 "C14": [(["tree1", "tree3"], "*,!*alias*", "T", "p"), (["big"], "bst*,avl", "T", "p")],
 "C15": [(["tree1", "tree3", "map1"], "*,!*alias*", "E", "p"), (["big"], "bst*,avl,map", "E", "p")],
 "C16": [(["dsu"], "*,!*pair*", "F,S", "p"), (["run"], "dsu", "F,S", "p")],
 "C17": [(["string"], "*", "F,S", "p"), (["run"], "string", "F,S", "p"), (["big"], "string", "F,S", "p")],
 "C18": [(CONT, "*pair*,*_abc,*_ab,tk2,x_alias,h_alias,st_*,q_*,!st_*alias,!q_*alias", "C", "p"), (["run"], "*", "C", "p"), (["nest*"], "*", "C", "p"), (["big"], "*", "C", "p"), (["types*"], "*", "C", "p")],
 "C19": [(CONT, "*pair*,*_abc,*_ab,tk2,x_alias,h_alias,st_*,q_*,!st_*alias,!q_*alias", "V", "p"), (["run"], "*", "V", "p"), (["nest*"], "*", "V", "p"), (["big"], "*", "V", "p"), (["types*"], "*", "V", "p")],
 "C20": [(CONT + ["smem*", "algo"], "*", "L", "p"), (["run"], "*", "L", "p"), (["nest*"], "*", "L", "p"), (["big"], "*", "L", "p")],
 "C21": [(CONT, "*", "M,X", "a"), (["run"], "*", "M,X", "p"), (["nest*"], "*", "M,X", "p"), (["big"], "*", "M,X", "p"), (["types*"], "*", "M,X", "p")],
 "C22": [(["sma"], "*", "Q,S,X", "a")],
 "C23": [(["sma"], "*", "N,S,X", "a")],
 "C24": [(["sma"], "*", "G,S", "p")],
 "C25": [(["smem*"], "*", "F,M,L,S,N", "p")],
 "C26": [(["port"], "*", "P,Q,N,S", "p"), (["portmix*"], "*", "F,M,L,S,N,P", "p")],
 "C27": [(CONT, "*,!*alias*,!*pair*", "I", "p"), (["big"], "vec*,deque*,slist*,dlist*,stack*,queue*,string,array*", "I", "p")],
 "C28": [(CONT, "*alias*,small", "A", "p"), (["string"], "deep_malloc,long", "A", "p")],
 "C29": [(["deque*", "list*", "tree3", "tree4", "map*"], "*", "R", "p")],
 "C30": [(["algo"], "*", "F,S", "p")],
 "C31": [(["vector", "deque*", "list*", "heap*", "tree*", "map*", "adapter*", "dsu", "string", "smem*"], "*,!*alias*,!r_*", "B", "p"), (["big"], "*", "B", "p")],
 "C32": [(["heap1"], "h_max*,h_pq*,h_key*,h_pair*,sort_greater*,sort_key*", "F,S", "p"), (["heap2"], "x_max*,x_key*,x_pair*", "F,S", "p"),
         (["tree*", "map*"], "*greater*,*key*,*pair*", "F,S", "p"), (["types*"], "heapx_*,sortx_*,bst_range_greater,bst_range_turn", "F,S", "p")],
 "C33": [(["cost"], "*", "K", "p"), (["heap1", "heap2"], "h_*,x_*,sort_*,!*pair*,!*alias*", "K", "p")],
 "C34": [(["sep*"], "*", "Y", "p")],
}
LIMITS = {"quick": (45, 250000), "thorough": (1500, 4000000)}
LONG = "*_xl"     # jobs of the thorough tier only

def units_of(pats): return [u for u in UNITS if any(fnmatch.fnmatch(u, p) for p in pats)]
def job_ok(job, pat):
    pats = pat.split(",")
    return any(fnmatch.fnmatch(job, p) for p in pats if not p.startswith("!")) and not any(fnmatch.fnmatch(job, p[1:]) for p in pats if p.startswith("!"))

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(REPO):
            ds[:] = sorted(x for x in ds if x not in (".git", "build", ".xmake", "docs", "examples", "tests"))
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inl", ".ipp", ".tpp", ".hxx")):
                    p = os.path.join(d, f); h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
        for d in ("mc", "h"):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if f.endswith((".hpp", ".h")): h.update(open(os.path.join(HERE, d, f), "rb").read())
        _repo_hash = h.hexdigest()
    return _repo_hash
def build(u, var):
    """-> (path, None) or (None, compiler output)"""
    src, extra = UNITS[u]; sp = os.path.join(HERE, "h", src)
    fl = FLAGS + extra + (["-fsanitize=address"] if var == "a" else [])
    key = hashlib.sha256((repo_hash() + hashlib.sha256(open(sp, "rb").read()).hexdigest() + " ".join(fl)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "%s-%s-%s" % (u, var, key))
    if os.path.exists(out): return out, None
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):
        if f.startswith("%s-%s-" % (u, var)):
            try: os.unlink(os.path.join(BUILD, f))
            except OSError: pass
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX] + fl + ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "h"), "-I" + REPO, sp, "-o", tmp, WRAP], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout
    os.rename(tmp, out); return out, None
def toolchain_ok():
    r = subprocess.run([CXX, "-std=c++20", "-x", "c++", "-", "-fsyntax-only"], input="#include <vector>\n#include <cstdio>\nint main(){}\n", text=True, capture_output=True)
    return r.returncode == 0

def run_job(binp, job, mask, tier, tag):
    sec, states = LIMITS[tier]
    out = os.path.join(BUILD, "out-%s.json" % tag)
    cmd = [binp, "--job", job, "--mask", mask, "--sec", str(sec), "--states", str(states), "--out", out]
    for attempt in (0, 1):
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=sec * 3 + 120)
        except subprocess.TimeoutExpired: return {"job": job, "error": "no answer within %d s" % (sec * 3 + 120)}
        if r.returncode in (0, 1):
            try:
                with open(out) as f: d = json.load(f, strict=False)
                os.unlink(out); return d
            except (OSError, ValueError) as e: err = "unreadable result: %s" % e
        else: err = "explorer ended with %d: %s" % (r.returncode, r.stdout[-400:])
    return {"job": job, "error": err}
def replay_run(binp, job, mask, ops):
    try: r = subprocess.run([binp, "--job", job, "--mask", mask, "--replay", ",".join(map(str, ops))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired: return None, "replay did not end within 300 s"
    return r.returncode, r.stdout
def known():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) unit=(\S+) job=(\S+) history=\"(.*?)\" (.*)", l)
            if m: res.append(m.groups())
    return res

def replay_file(path):
    d = json.load(open(path))
    if "compile" in d:
        b, err = build(d["unit"], d["variant"]); print(err or "compiles now"); return 1 if err else 0
    b, err = build(d["unit"], d["variant"])
    if err: print(err); return 1
    rc, out = replay_run(b, d["job"], d["kinds"], d["ops"]); print(out); return 1 if rc == 42 else 0

def prebuild():
    todo = [(u, v) for v in "pa" for u in UNITS]
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(lambda t: build(*t), todo))
    return 0

def main():
    if sys.argv[1] == "--replay": return replay_file(sys.argv[2])
    if sys.argv[1] == "--prebuild": return prebuild()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    for d in (BUILD, REPLAYS, EVID): os.makedirs(d, exist_ok=True)
    spec = P[prop]; need = sorted({(u, v) for pats, _, _, v in spec for u in units_of(pats)})
    nproc = os.cpu_count() or 4
    vio, unrep, errors, results = [], [], [], []
    bins, bad = {}, {}
    def vfile(n): return os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"): os.unlink(os.path.join(REPLAYS, f))
    stop = False
    with cf.ThreadPoolExecutor(nproc) as ex:
        futs, sub = {}, {}
        for t in need: sub[ex.submit(build, *t)] = t
        for f in cf.as_completed(sub):
            t = sub[f]; b, err = f.result()
            if err is not None: bad[t] = err; continue
            bins[t] = b
        jobs = []
        for pats, pat, mask, v in spec:
            for u in units_of(pats):
                if (u, v) not in bins: continue
                for j in subprocess.run([bins[(u, v)], "--list"], capture_output=True, text=True).stdout.split():
                    if job_ok(j, pat) and (tier == "thorough" or not fnmatch.fnmatch(j, LONG)): jobs.append((u, v, j, mask))
        jobs.sort(key=lambda t: WEIGHT.get(t[2], 0), reverse=True)
        for i, (u, v, j, mask) in enumerate(jobs): futs[ex.submit(run_job, bins[(u, v)], j, mask, tier, "%s-%d-%d" % (prop, os.getpid(), i))] = (u, v, j, mask)
        for f in cf.as_completed(futs):
            u, v, j, mask = futs[f]
            if f.cancelled(): continue
            d = f.result(); d["unit"] = u; d["variant"] = v; results.append(d)
            if "error" in d: errors.append(d)
            if "violation" in d:
                rc, out = None, ""
                for _ in range(3):
                    rc, out = replay_run(bins[(u, v)], j, mask, d["violation"]["ops"])
                    if rc == 42: break
                (vio if rc == 42 else unrep).append((u, v, j, mask, d["violation"], out))
                if rc == 42 and not is_known(prop, u, j, d["violation"]):
                    for g in futs: g.cancel()
    if bad:
        if not toolchain_ok(): print("error: the compiler does not work"); return 2
        for (u, v), err in sorted(bad.items()):
            vio.append((u, v, None, None, {"history": "compiling the harness %s against the library" % UNITS[u][0], "msg": err[:1500], "kinds": "compile", "ops": []}, err))
    n = 0; code = 0
    for u, v, j, mask, w, out in vio:
        k = is_known(prop, u, j, w)
        if k: print("KNOWN-FINDING: property=%s %s" % (prop, k)); continue
        n += 1; path = vfile(n)
        d = {"property": prop, "unit": u, "variant": v, "job": j, "kinds": mask, "ops": w["ops"], "history": w["history"], "message": w["msg"], "failure_kinds": w["kinds"], "replay_output": out[-3000:]}
        if j is None: d["compile"] = True
        with open(path, "w") as f: json.dump(d, f, indent=1)
        print("%s/%s: %s\n  after: %s" % (u, j, w["msg"], w["history"])); print("VIOLATION property=%s replay=%s" % (prop, path)); code = 1
    for u, v, j, mask, w, out in unrep: print("note: %s/%s saw '%s' but a fresh process does not reproduce it; not reported" % (u, j, w["msg"]))
    ok = [d for d in results if "error" not in d]
    for d in errors: print("note: %s/%s: %s" % (d["unit"], d["job"], d["error"]))
    st = sum(d["states"] for d in ok); tr = sum(d["transitions"] for d in ok)
    samples = []
    for d in sorted(ok, key=lambda d: -d["states"]):
        for s in d["samples"][:2]:
            if len(samples) < 12: samples.append("%s/%s: %s" % (d["unit"], d["job"], s))
    cov = {"states": st, "transitions": tr, "traces_validated_against_impl": sum(d["replayed"] for d in ok), "samples": samples or ["none"],
           "exhaustive": bool(ok) and all(d["exhaustive"] for d in ok) and not errors and not bad,
           "states_judged": sum(d["checks"] for d in ok), "ends_of_life_judged": sum(d["finished"] for d in ok), "what_if_probes": sum(d["probes"] for d in ok),
           "how": "breadth-first explicit-state search over the real library code: each transition executes one public operation on real objects, states are deduplicated by a canonical hash of the model and the library's memory; for each expanded state the history leading to it was re-executed from scratch and reached the same canonical state (traces_validated_against_impl); failure kinds that count for this property: " + "; ".join(sorted({m for _, _, m, _ in spec})),
           "jobs": [{k: d.get(k) for k in ("unit", "variant", "job", "states", "transitions", "replayed", "maxDepth", "fullDepth", "exhaustive", "cap", "unmatched", "harness", "dirtyStatics", "secs")} for d in sorted(ok, key=lambda d: (d["unit"], d["job"]))],
           "incomplete": [("%s/%s: %s; every history of up to %d operations was covered" % (d["unit"], d["job"], d["cap"] or "cut short", d["fullDepth"])) for d in ok if not d["exhaustive"]] + ["%s/%s: %s" % (d["unit"], d["job"], d["error"]) for d in errors]}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": ["element values and contents outside the stated alphabets, and sizes beyond the bounds of each job, are not explored", "g++ 13 -O1 build of the unmodified /repo headers"],
          "wall_s": round(time.time() - t0, 2), "violations": n}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    print("%s %s: %d jobs, %d states, %d transitions, %d histories replayed, %s, %.1f s" % (prop, tier, len(ok), st, tr, cov["traces_validated_against_impl"], "exhaustive within bounds" if cov["exhaustive"] else "%d jobs capped" % len(cov["incomplete"]), ev["wall_s"]))
    if code == 0 and results and not ok: print("error: no exploration gave an answer"); return 2
    if code == 0 and not results: print("error: nothing to run"); return 2
    return code
def is_known(prop, u, j, w):
    for p, ku, kj, hist, what in known():
        if p == prop and ku == u and kj == j and hist == w["history"]: return what
    return None
WEIGHT = {n: 10 - i for i, n in enumerate(["tight1_tk_b2", "tight2_int_b1", "pair_int_b3", "pair_tk_b2", "pair_int_b1", "tk24_b32_malloc", "pair_deep", "d7"])}
if __name__ == "__main__": sys.exit(main())
