#!/usr/bin/env python3
"""kf.py PROP COMMIT...: records fix commits of /repo in known_findings.jsonl."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/known_findings.jsonl", "a") as f:
    for c in sys.argv[2:]:
        h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h%n%s", c], text=True).strip().split("\n")
        w = s.replace("fix: ", "")
        f.write(json.dumps({"property": sys.argv[1], "status": "fixed", "commit": h, "what": w, "line": f"fixed: property={sys.argv[1]} {h} {w}"}) + "\n")
