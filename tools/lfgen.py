#!/usr/bin/env python3
"""lfgen.py WORK REPO TEMPLATE PKG: instantiates the template for int into WORK/lf/PKG (from
the .gp file) and WORK/lf/PKGgo (from its fake go file)."""
import os, sys
import gogp
work, repo, name, pkg = sys.argv[1:5]
rev = {"VALUE_TYPE": "GOGPValueType", "GLOBAL_NAME_PREFIX": "GOGPGlobalNamePrefix"}
try:
    for p, ext in ((pkg, ".gp"), (pkg + "go", ".gp.go")):
        f = os.path.join(repo, "stl", "gp", name + ext)
        if name == "ringbuffer" and ext == ".gp":  # exists as fake go file only
            continue
        t = open(f, encoding="utf-8", errors="replace").read()
        if ext == ".gp.go":
            t = gogp.reverse(t, rev)
        d = os.path.join(work, "lf", p)
        os.makedirs(d)
        t = gogp.instantiate(t, {"VALUE_TYPE": "int", "GLOBAL_NAME_PREFIX": "Int", "PACKAGE": "package " + p})
        open(os.path.join(d, name + ".go"), "w").write(t)
except gogp.Unsupported as e:
    print("a template uses a directive this instantiator does not know:", e)
    sys.exit(1)
