#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that has a harness is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "explicit-state model checking of the real object: BFS over operation histories in lockstep with a reference model"
E = "exhaustive bounded enumeration of all inputs of the real code against a reference model"
HE = "explicit-state BFS over operation histories of the real object plus exhaustive input enumeration, against a reference model"
S = "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler"
TECH = {"C01": HE, "C02": HE, "C03": HE, "C04": HE, "C05": E, "C06": HE, "C07": HE, "C08": E, "C09": HE, "C10": E, "C11": HE,
        "C12": E, "C13": S, "C14": S, "C18": HE, "C26": H, "C36": H, "C38": HE, "C39": HE, "C40": S + "; exhaustive enumeration of sequential histories", "C41": S + "; explicit-state BFS over sequential histories", "C37": S + "; exhaustive enumeration of operation histories", "C33": S + "; exhaustive enumeration of registration histories and texts", "C42": S + "; exhaustive enumeration of histories", "C46": HE, "C47": "stateless exploration of the real code: every pair of scenarios with every switch point (one switch), and one execution per pair and equivalence class of interleavings, established by vector clocks (no conflicting accesses)", "C43": S + "; exhaustive input enumeration", "C45": S + "; exhaustive enumeration of sequential histories", "C29": S + "; exhaustive input enumeration for the value properties"}
NOTE_H = ("Within the bounds in the evidence (sizes, constructions, depth or closure) every history of the public operations is executed on the "
          "code of /repo's working tree and every observer compared with the model; trusts the reference model, the Go toolchain and that "
          "values behave alike up to renaming where states are merged. Nothing is claimed beyond the bounds.")
NOTE_E = ("Every input of the bounded space given in the evidence is run through the code of /repo's working tree and compared with an independent "
          "reference; trusts the reference and the Go toolchain. Nothing is claimed for inputs outside the space.")
NOTE_S = ("Every interleaving (scheduling point before every statement and atomic operation of the rewritten package) of the driver programs up "
          "to the preemption bound in the evidence is executed; sequentially consistent memory is assumed, as sync/atomic gives.")
def note(t): return NOTE_S if t.startswith(S[:20]) else NOTE_E if t == E else NOTE_H
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.isdir(os.path.join(V, "harness", i.lower())):
        t = TECH.get(i, E)
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": note(t)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses build /repo's working tree through a scratch GOPATH; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
