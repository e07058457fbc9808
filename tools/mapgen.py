#!/usr/bin/env python3
"""mapgen.py WORK REPO: instantiates regable/gp/mapping.gp (and its fake go file) for several key
and value types into WORK/src/gxs/maps/NAME (NAMEgo)."""
import os, sys
import gogp
work, repo = sys.argv[1:3]
rev = {"KEY_TYPE": "GOGPKeyType", "VALUE_TYPE": "GOGPValueType", "GLOBAL_NAME_PREFIX": "GOGPGlobalNamePrefix"}
TYPES = {"strint": ("string", "int"), "intstr": ("int", "string"), "intint": ("int", "int"), "stru": ("K", "V"), "iface": ("uint8", "interface{}")}
base = os.path.join(repo, "regable", "gp", "mapping")
try:
    for suffix, ext in (("", ".gp"), ("go", ".gp.go")):
        t = open(base + ext, encoding="utf-8", errors="replace").read()
        if suffix:
            t = gogp.reverse(t, rev)
        for name, (k, v) in TYPES.items():
            d = os.path.join(work, "src", "gxs", "maps", name + suffix)
            os.makedirs(d)
            open(os.path.join(d, "mapping.go"), "w").write(gogp.instantiate(t, {"KEY_TYPE": k, "VALUE_TYPE": v, "GLOBAL_NAME_PREFIX": "X", "PACKAGE": "package " + name + suffix}))
            if name == "stru":
                open(os.path.join(d, "types.go"), "w").write("package stru%s\n\ntype K struct {\n\tA string\n\tB int\n}\n\ntype V [2]float64\n" % suffix)
except gogp.Unsupported as e:
    print("a template uses a directive this instantiator does not know:", e)
    sys.exit(1)
