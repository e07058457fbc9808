#!/usr/bin/env python3
"""Runs one property check: python3 run.py <ID> [--replay FILE]
Builds the harness of the property against /repo's current tree, runs it, writes
evidence/<ID>.json, prints VIOLATION / KNOWN-FINDING lines."""
import json, os, resource, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GXV_REPO", "/repo")  # the registered commands always use /repo
GOROOT = "/opt/veriftools/go1.27.3"

def env_for(gopath):
    e = dict(os.environ)
    e.update(GOPATH=gopath, GO111MODULE="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", GONOSUMDB="*")
    e.pop("GOROOT", None); e.pop("GOOS", None); e.pop("GOARCH", None); e.pop("GODEBUG", None)
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    return e

nolimit = False
before = None  # what an earlier exploration was stuck in

def limits(gb):
    if nolimit:
        return
    try:
        lim = gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass

def build(pid, work):
    src = os.path.join(work, "src")
    for imp in ("github.com/vipally", "gitee.com/vipally"):
        d = os.path.join(src, imp)
        os.makedirs(d)
        os.symlink(REPO, os.path.join(d, "gx"))
    os.symlink(os.path.join(VERIF, "harness"), os.path.join(src, "gxv"))
    env = env_for(work)
    name = pid.lower()
    pre = os.path.join(VERIF, "harness", name, "prebuild.sh")
    if os.path.exists(pre):
        p = subprocess.run(["bash", pre, work, REPO, VERIF], env=env, cwd=work, capture_output=True, text=True)
        if p.returncode == 7:  # generated code does not compile although /repo does
            return {"Part": "compiles", "Kind": "build", "Show": "generating and compiling", "Msg": p.stdout[-3000:]}, env
        if p.returncode != 0:
            print(p.stdout[-4000:]); print(p.stderr[-4000:], file=sys.stderr)
            return None, env
    out = os.path.join(work, "bin")
    flags = []
    ff = os.path.join(VERIF, "harness", name, "buildflags")
    if os.path.exists(ff):
        flags = open(ff).read().split()
    if "-race" in flags:
        env["CGO_ENABLED"] = "1"
    p = subprocess.run(["go", "build", "-o", out] + flags + ["gxv/" + name], env=env, cwd=src, capture_output=True, text=True)
    if "-race" in flags:  # the race detector reserves terabytes of addresses
        global nolimit
        nolimit = True
        env["GORACE"] = "log_path=%s/race exitcode=0 atexit_sleep_ms=0 history_size=2" % work
    if p.returncode != 0:
        print("BUILD FAILED"); print(p.stdout[-4000:]); print(p.stderr[-6000:])
        return None, env
    return out, env

def run(cmd, env, work, timeout, gb=8):
    try:
        p = subprocess.run(cmd, env=env, cwd=work, capture_output=True, text=True, timeout=timeout, preexec_fn=lambda: limits(gb), errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", str(e.stdout or "")[-2000:], str(e.stderr or "")[-2000:]

def load(f):
    try:
        return json.load(open(f))
    except (OSError, ValueError):
        return None

def known():
    """known_findings.jsonl: {"property":..,"part":..,"show":..,"what":..} entries that
    are recorded, unrepaired defects ("status":"open"); "fixed" entries suppress nothing."""
    res = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                res.append(json.loads(line))
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    os.environ.setdefault("VERIF_SEED", "1")
    seed = int(os.environ["VERIF_SEED"] or 0)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gxv-%s-" % pid)
    os.chmod(work, 0o755)  # harnesses that drop their privileges still reach it
    fast = work  # scratch files of harnesses: in memory where possible
    try:
        fast = tempfile.mkdtemp(prefix="gxv-%s-" % pid, dir="/dev/shm")
        os.chmod(fast, 0o755)
    except OSError:
        pass
    os.environ["GXV_SCRATCH"] = fast
    try:
        rc = check(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(fast, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, work, t0, built=None):
    binp, env = built or build(pid, work)
    if binp is None:
        return 2
    if isinstance(binp, dict):
        report = {"Parts": [{"Name": "compiles", "States": 1, "Transitions": 1, "Traces": 1, "Exhaustive": False, "Engine": "enumeration"}], "Samples": [binp["Show"]]}
        binp["Replays"] = "every run reproduces it"
        return verdict(pid, tier, seed, t0, report, [binp], known())
    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        rc, so, se = run([binp, "-replay", f], env, work, 400)
        print(so); print(se, file=sys.stderr)
        return 1 if rc == 1 else (0 if rc == 0 else 2)
    extra = []
    if "--only" in sys.argv:
        extra = ["-only", sys.argv[sys.argv.index("--only") + 1]]
    rep = os.path.join(work, "report.json")
    limit = 800 if tier == "quick" else 6 * 3600
    rc, so, se = run([binp, "-out", rep] + extra, env, work, limit, 16 if tier == "quick" else 26)
    report = load(rep)
    viols = []
    if report is None:
        # The process died or hung: find the execution that kills it.
        tr = os.path.join(work, "trace.json")
        rc2, so2, se2 = run([binp, "-out", rep, "-trace", tr] + extra, env, work, 400 if tier == "quick" else 3600)
        report = load(rep)
        if report is None:
            v = {"Part": "?", "Kind": "crash", "Show": "?"}
            if os.path.exists(tr):
                try:
                    v = json.load(open(tr))
                except Exception:
                    pass
            if rc == "timeout" and rc2 == "timeout":
                print("check ran out of time without a verdict"); return 2
            v["Kind"] = "crash"
            v["Msg"] = "process died: " + (se2 or se)[:1500]
            viols = [v]
            report = {"Parts": [{"Name": v.get("Part"), "States": 1, "Transitions": 1, "Traces": 1, "Exhaustive": False, "Engine": "crash"}], "Samples": [v.get("Show")], "Violations": viols}
    viols = report.get("Violations") or []
    kn = known()
    fresh, found = [], []
    for v in viols:
        m = [k for k in kn if k.get("status") == "open" and k["property"] == pid and k["part"] == v.get("Part") and k["show"] == v.get("Show")]
        (found if m else fresh).append((v, m))
    confirmed, stuck, slow_together = [], False, None
    for v, _ in fresh:
        if len(confirmed) >= (1 if v.get("Kind") == "hang" else 2):
            break
        f = os.path.join(work, "v.json")
        json.dump(v, open(f, "w"))
        n = 1 if v.get("Kind") in ("hang",) else 5
        hits = 0
        t1 = time.time()
        for _i in range(n):
            rc, so, se = run([binp, "-replay", f], env, work, 300)
            if rc != 0 and "NOT REPLAYABLE" not in so:
                hits += 1
        v["Replays"] = "%d of %d replays reproduce it" % (hits, n)
        if hits > 0:
            confirmed.append(v)
        else:
            print("UNCONFIRMED (does not reproduce, not reported):", v.get("Show"), v.get("Msg"))
            if v.get("Kind") == "hang":
                stuck = True
                if time.time() - t1 < 2:
                    slow_together = v
    wrong = [v for v, _ in fresh if v.get("Kind") not in ("hang", "crash") and v not in confirmed]
    if wrong and not confirmed and not stuck and time.time() - t0 < 500:
        # Wrong results that no execution alone gives: the independent objects of the
        # parallel workers may interfere.  A second exploration decides.
        rep2 = os.path.join(work, "report2.json")
        run([binp, "-out", rep2] + extra, env, work, 350, 16)
        again = [v for v in (load(rep2) or {}).get("Violations") or [] if v.get("Kind") not in ("hang", "crash")]
        parts = {v.get("Part") for v in wrong}
        again = [v for v in again if v.get("Part") in parts]
        if again:
            again[0]["Replays"] = "not alone, but in two of two explorations of independent objects in parallel"
            confirmed.append(again[0])
    if stuck and not confirmed:
        # The exploration was cut short by something that was only slow: once more.
        if built is None and time.time() - t0 < 400:
            os.remove(rep)
            global before
            before = slow_together
            return check(pid, tier, seed, work, t0, (binp, env))
        if before and slow_together:
            # 100 s are not enough in parallel, twice, and 2 s are enough alone.
            slow_together["Replays"] = "not alone, but in two of two explorations of independent objects in parallel"
            return verdict(pid, tier, seed, t0, report, [slow_together], kn)
        print("check was cut short without a verdict")
        return 2
    return verdict(pid, tier, seed, t0, report, confirmed, kn)

def verdict(pid, tier, seed, t0, report, confirmed, kn):
    write_evidence(pid, tier, seed, report, confirmed, time.time() - t0)
    for k in kn:
        if k.get("status") == "open" and k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for p in report["Parts"]:
        print("%-24s %-12s states=%d transitions=%d traces=%d depth=%s exhaustive=%s %.1fs" % (p["Name"], p.get("Engine"), p["States"], p["Transitions"], p["Traces"], p.get("Depth"), p["Exhaustive"], p.get("Seconds", 0)))
    if confirmed:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for v in confirmed:
            h = hashlib.sha1(json.dumps([v.get("Part"), v.get("Show")]).encode()).hexdigest()[:10]
            f = os.path.join(d, "%s-%s.json" % (pid, h))
            json.dump(v, open(f, "w"), indent=1)
            print("  part: %s\n  history: %s\n  what: %s\n  %s" % (v.get("Part"), (v.get("Show") or "")[:1500], (v.get("Msg") or "")[:600], v["Replays"]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    return 0

def write_evidence(pid, tier, seed, report, viols, wall):
    parts = report["Parts"]
    cov = {
        "states": sum(p["States"] for p in parts),
        "transitions": sum(p["Transitions"] for p in parts),
        "traces_validated_against_impl": sum(p["Traces"] for p in parts),
        "samples": [s for s in (report.get("Samples") or []) if s] or ["none"],
        "exhaustive": all(p["Exhaustive"] for p in parts) and len(parts) > 0,
        "parts": parts,
        "rule": "states: distinct states (merged on the canonical memory dump) or distinct inputs; transitions: operations/calls executed on the real code; traces: complete histories, cases or schedules run on the real code in lockstep with the reference model",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": report.get("Assumptions") or [], "wall_s": round(wall, 2), "violations": len(viols)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))

if __name__ == "__main__":
    main()
