#!/usr/bin/env python3
"""reggen.py WORK REPO: instantiates REPO/regable/reg.gp for every section of reg.gpg into one
package WORK/lf/regs (with the other files of package regable), and writes WORK/src/gxs/regk, which
lists the kinds."""
import os, sys
import gogp
work, repo = sys.argv[1:3]
src = os.path.join(repo, "regable")

d, k = os.path.join(work, "lf", "regs"), os.path.join(work, "src", "gxs", "regk")
os.makedirs(d); os.makedirs(k)
text = open(os.path.join(src, "reg.gp"), encoding="utf-8", errors="replace").read()
for f in os.listdir(src):
    if f.endswith(".go") and not f.endswith("_test.go"):
        t = open(os.path.join(src, f), encoding="utf-8", errors="replace").read()
        if "NEVER MODIFY THIS FILE MANUALLY" not in t:  # not a generated one
            open(os.path.join(d, f), "w").write(t)
kinds = []
try:
    for name, defs in gogp.sections(os.path.join(src, "reg.gpg")).items():
        if defs.get("GOGP_GpFilePath") != "reg":
            continue
        open(os.path.join(d, "reg_" + name.lower() + "_.go"), "w").write(gogp.instantiate(text, defs))
        kinds.append(defs)
except gogp.Unsupported as e:
    print("a template uses a directive this instantiator does not know:", e)
    sys.exit(1)
out = 'package regk\n\nimport r "gxs/regs"\n\nvar Reset = r.GxvReset\nvar ShowAll, Finish = r.ShowAllRegs, r.FinishReg\nvar Kinds = []Kind{\n'
for x in kinds:
    u = x["TYPENAME_U"]
    out += ('\t{"%s", func(n string) (any, error) { return r.New%sReger(n) }, func(n string) any { return r.MustNew%sReger(n) }, '
            'func(i uint32) any { return r.%sId(i) }, r.ShowAll%sRegers},\n' % (u, u, u, u, u))
out += '''}

type Kind struct {
	Name    string
	New     func(string) (any, error)
	MustNew func(string) any
	Id      func(uint32) any
	Show    func() string
}
'''
open(os.path.join(k, "kinds.go"), "w").write(out)
