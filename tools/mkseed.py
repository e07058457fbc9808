#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id>/ from a spec and confirms it.
spec module: list SEEDS of dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=go source)"""
import importlib.util, json, os, shutil, subprocess, sys
VERIF = "/verif"; SC = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src/github.com/vipally" "$w/src/gitee.com/vipally" "$w/src/demo"
ln -s "$repo" "$w/src/github.com/vipally/gx"; ln -s "$repo" "$w/src/gitee.com/vipally/gx"
cp "$here"/main.go "$w/src/demo/"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH="$w" GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
unset GOROOT GOOS GOARCH
cd "$w/src/demo" && go build -o "$w/demo" demo || exit 3
timeout 200 "$w/demo"
'''
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def esc(s): return s
def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    if not os.path.exists(SC): sh("git clone -q /repo %s" % SC)
    sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD && git clean -fdq", SC)
    base = sh("git rev-list --max-parents=0 HEAD", SC).stdout.strip()
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .", SC)
        d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        for f, o, n in s["edits"]:
            p = os.path.join(SC, f); t = open(p, newline="").read()
            if "\r\n" in t: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
            if t.count(o) != 1: print(s["id"], "PATTERN", t.count(o), o); break
            open(p, "w", newline="").write(t.replace(o, n))
        else:
            open(os.path.join(d, "patch.diff"), "w", newline="").write(subprocess.run(["git", "diff"], cwd=SC, capture_output=True).stdout.decode("utf8"))
            demo = DEMO
            if "gen" in s:  # python that writes packages below WORK/src from the templates of REPO
                demo = DEMO.replace('export PATH', 'python3 -B "$here/gen.py" "$w" "$repo" || exit 3\nexport PATH')
                open(os.path.join(d, "gen.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport gogp\nwork, repo = sys.argv[1:3]\n" + s["gen"])
                shutil.copy(os.path.join(VERIF, "tools", "gogp.py"), d)
            open(os.path.join(d, "demo.sh"), "w").write(demo); open(os.path.join(d, "main.go"), "w").write(s["demo"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            # lines changed must be original
            r1 = sh("bash %s/demo.sh" % d, SC)
            sh("git checkout -q -- .", SC)
            bl = []
            for f, o, n in s["edits"]:
                out = sh("git blame -s HEAD -- %s" % f, SC).stdout
                bl.append(out)
            r0 = sh("bash %s/demo.sh" % d, SC)
            ap = sh("git apply --check %s/patch.diff" % d, SC)
            # stable tests and build with patch, in /repo
            sh("git apply %s/patch.diff" % d, "/repo")
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            sh("git checkout -q -- .", "/repo")
            res = json.load(open("/tmp/seedtest.json")); ps = str(res)
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = res.get("passed") or [k for k, v in (res.get("tests") or res).items() if str(v).startswith("pass")]
            miss = [x for x in stable if x not in passed]
            okk = r0.returncode == 0 and r1.returncode not in (0, 3) and ap.returncode == 0 and b.returncode == 0 and not miss
            print(s["id"], "OK" if okk else "BAD", "clean", r0.returncode, "bug", r1.returncode, "apply", ap.returncode, "build", b.returncode, "miss", miss, (r1.stdout + r1.stderr).strip()[:150].replace("\n", " | "), "" if okk else (r0.stdout + r0.stderr + b.stderr + ap.stderr)[-400:])
main()
