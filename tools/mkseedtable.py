#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
print("\n## 5. Planted bugs (seeded/)\n")
print("Each breaks its property only for particular histories, inputs or schedules, compiles and passes the tests.  All are caught by the quick")
print("check of the property named (re-run after every change of the machinery).  First missed, then caught after strengthening:")
print("list-remove-last-self and slist-remove-dangling (operations on already removed nodes and on nil were added to C07/C09).\n")
print("| property = catching check | bug | what it breaks |\n|---|---|---|")
for p, i, w in sorted(rows): print(f"| {p} | {i} | {' '.join(w.split())} |")
print()
