#!/usr/bin/env python3
"""tplgen.py WORK REPO VERIF c38|c39: instantiates the templates REPO/stl/gp/*.gp (option sets and
element types below), builds the checks of C01-C12 and the typed check of C38 against the
instances, and writes WORK/tpl/units.json: [{"Name", "Bin", "Error"}]."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import gogp

WORK, REPO, VERIF, WHICH = sys.argv[1:5]
GP = os.path.join(REPO, "stl", "gp")
TPL = os.path.join(WORK, "tpl")
NAMES = ["functorcmp", "sort_slice", "tree", "stack", "deque", "queue", "heap", "list", "slist"]
REV = {"VALUE_TYPE": "GOGPValueType", "GLOBAL_NAME_PREFIX": "GOGPGlobalNamePrefix"}

def gp(n):
    return open(os.path.join(GP, n + ".gp"), encoding="utf-8", errors="replace").read()

def gpgo(n):
    return gogp.reverse(open(os.path.join(GP, n + ".gp.go"), encoding="utf-8", errors="replace").read(), REV)

def write(d, name, text):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, name), "w").write(text)

def package(d, source, pkg, defs, names=NAMES):
    """All templates for one element type."""
    defs = dict(defs, PACKAGE="package " + pkg)
    for n in names:
        write(d, n + ".go", gogp.instantiate(source(n), defs))
    if "tree" in names:
        p = defs["GLOBAL_NAME_PREFIX"] + "TreeNode"
        sub = dict(defs, VALUE_TYPE="*" + p, GLOBAL_NAME_PREFIX=p, GOGP_HasCmpFunc="true", ONCE="false")
        for n in ("functorcmp", "sort_slice"):
            write(d, n + "_tree.go", gogp.instantiate(source(n), sub))

def tree(variant):
    """A GOPATH with everything of REPO but stl."""
    t = os.path.join(TPL, variant)
    gx = os.path.join(t, "src", "github.com", "vipally", "gx")
    os.makedirs(os.path.join(gx, "stl"))
    for e in os.listdir(REPO):
        if e not in ("stl", ".git"):
            os.symlink(os.path.join(REPO, e), os.path.join(gx, e))
    os.symlink(os.path.join(VERIF, "harness"), os.path.join(t, "src", "gxv"))
    return t, os.path.join(gx, "stl")

def code(text):
    text = re.sub(r"//[^\n]*", "", text)
    return [" ".join(l.split()) for l in text.split("\n") if l.strip()]

units = []
INT = {"VALUE_TYPE": "int", "GLOBAL_NAME_PREFIX": "Int"}
ALL = ["c%02d" % i for i in range(1, 13)]
def variant(name, source, defs, harness):
    t, stl = tree(name)
    package(stl, source, "stl", dict(INT, **defs))
    for h in harness:
        units.append((name + " " + h.upper(), t, "gxv/" + h))

def typed(name, source):
    t = os.path.join(TPL, name)
    os.makedirs(os.path.join(t, "src"))
    os.symlink(os.path.join(VERIF, "harness"), os.path.join(t, "src", "gxv"))
    h = os.path.join(VERIF, "harness", "c38")
    for ty, defs in (("elem", {"GOGP_HasCmpFunc": "true"}), ("ptr", {"GOGP_HasCmpFunc": "true"}), ("str", {}),
                     ("greater", {"GOGP_DefaultCmpType": "Greater"})):
        d = os.path.join(t, "src", "gxt", ty)
        package(d, source, ty, dict(defs, VALUE_TYPE="V", GLOBAL_NAME_PREFIX="E"))
        for f in ("glue", "types/" + ty):
            write(d, "gxv_" + os.path.basename(f) + ".go", open(os.path.join(h, f + ".txt")).read().replace("PKG", ty))
    units.append((name, t, "gxv/c38/typed"))

def differs(names, options):
    """Whether the fake go files (.gp.go) give other templates than the .gp files."""
    return any(code(gogp.instantiate(gp(n), dict(INT, PACKAGE="package stl", **o))) != code(gogp.instantiate(gpgo(n), dict(INT, PACKAGE="package stl", **o)))
               for n in names for o in options)

def c38(pre, source):
    variant(pre + "int", source, {"GOGP_ImproveSTL": "true"}, ALL)
    variant(pre + "int plain heap", source, {}, ["c04", "c05"])
    typed(pre + "typed", source)

def c39(pre, source):
    variant(pre + "tail", source, {"GOGP_ImproveSTL": "true", "GOGP_HasTail": "true"}, ["c09", "c10"])

def c43():
    """math/rand generated from rand.gp and rand.gpg."""
    t = os.path.join(TPL, "rand")
    gx = os.path.join(t, "src", "github.com", "vipally", "gx")
    os.makedirs(os.path.join(gx, "math", "rand"))
    for d in ("", "math", "math/rand"):
        for e in os.listdir(os.path.join(REPO, d)):
            f = os.path.join(REPO, d, e)
            if e in (".git", "math") and d == "" or f == os.path.join(REPO, "math/rand"):
                continue
            if d == "math/rand" and (not e.endswith(".go") or e.endswith("_test.go") or "NEVER MODIFY THIS FILE MANUALLY" in open(f, encoding="utf-8", errors="replace").read()):
                continue
            os.symlink(f, os.path.join(gx, d, e))
    os.symlink(os.path.join(VERIF, "harness"), os.path.join(t, "src", "gxv"))
    src = os.path.join(REPO, "math", "rand")
    text = open(os.path.join(src, "rand.gp"), encoding="utf-8", errors="replace").read()
    for name, defs in gogp.sections(os.path.join(src, "rand.gpg")).items():
        if defs.get("GOGP_GpFilePath") == "rand":
            write(os.path.join(gx, "math", "rand"), "rand_" + name + "_.go", gogp.instantiate(text, defs))
    p = subprocess.run(["bash", os.path.join(VERIF, "harness/sched/prebuild.sh"), t, gx, VERIF, "math/rand"], env=dict(os.environ, GOPATH=t), cwd=t, capture_output=True, text=True)
    if p.returncode:
        q = subprocess.run(["go", "build", "-o", os.devnull, "."], env=dict(os.environ, GOPATH=t), cwd=os.path.join(gx, "math", "rand"), capture_output=True, text=True)
        if q.returncode == 0:  # it is the rewriting that failed
            print(p.stdout, p.stderr)
            sys.exit(1)
    units.append(("rand", t, "gxv/c29"))

def c46():
    """package fs behind the interface of stl."""
    t, stl = tree("fs")
    write(stl, "stl.go", open(os.path.join(VERIF, "harness/c46/shim.txt")).read())
    for h in ("c11", "c06", "c12"):
        units.append(("fs " + h.upper(), t, "gxv/" + h))

try:
    if WHICH == "c46":
        c46()
    elif WHICH == "c43":
        c43()
    elif WHICH == "c38":
        c38("", gp)
        # the fake go files give the same templates; where they differ they have to work too
        if differs(NAMES, ({}, {"GOGP_ImproveSTL": "true"}, {"GOGP_HasCmpFunc": "true"})):
            c38("fake go ", gpgo)
    else:
        c39("", gp)
        if differs(["slist"], ({"GOGP_HasTail": "true"},)):
            c39("fake go ", gpgo)
except gogp.Unsupported as e:
    print("a template uses a directive this instantiator does not know:", e)
    sys.exit(1)

# the longest ones last (the time for all of them is limited)
units.sort(key=lambda u: u[2].endswith(("c01", "c02")))

def build(u):
    name, gopath, pkg = u
    out = os.path.join(gopath, os.path.basename(pkg) + ".bin")
    env = dict(os.environ, GOPATH=gopath)
    p = subprocess.run(["go", "build", "-o", out, pkg], env=env, cwd=os.path.join(gopath, "src"), capture_output=True, text=True)
    return {"Name": name, "Bin": out, "Error": "" if p.returncode == 0 else (p.stdout + p.stderr)[-2000:] or "?"}

with ThreadPoolExecutor(4) as ex:
    res = list(ex.map(build, units))
json.dump(res, open(os.path.join(TPL, "units.json"), "w"))
