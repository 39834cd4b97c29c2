#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
T = {"C22": "explicit-state model checking of the real allocator (every history of allocate/release/merge on small pools)"}
for p in ("C23", "C24"): T[p] = T["C22"]
T["C26"] = "explicit-state model checking of the real port and its containers on one fragmented pool"
T["C25"] = "explicit-state model checking of real containers sharing one static pool, each against its reference model"
T["C30"] = "explicit-state model checking of a register machine over the real utilities, laws judged in every state"
T["C33"] = "explicit-state model checking of the real containers with the accumulated cost as part of the state"
T["C34"] = "explicit-state model checking of pairs and triples of real containers and pools, interleavings enumerated"
D = "explicit-state model checking of the real code: exhaustive operation sequences against a reference model"
N = "Bounded exhaustive: every operation history up to the bounds in DESIGN.md (jobs that hit a cap say so and to which depth they are complete); counterexamples are replayed in a fresh process before they are reported. Trusts the harness, g++ and the canonical state hash."
m = {"version": 1, "setup_cmd": "python3 run.py --prebuild",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": T.get(p["id"], D), "level": "model_checking", "level_note": N} for p in props],
     "not_applicable": [], "notes": "No hooks in /repo: the harnesses in h/ include the unmodified headers and interpose malloc/free at link time."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
