#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: make and confirm planted changes.

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs,
breaks, demo (Go source, package main). Writes /verif/seeded/<id>/ if the change
compiles, passes the stable tests and its demo tells the trees apart; then runs the
property's quick check against a scratch copy of /repo with the change applied.
seed.py --recheck [ID...]: run the checks against the changes already in seeded/."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change (run with cwd /repo)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build RACE -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 99
timeout 120 "$tmp/demo"
'''

def sh(cmd, cwd, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-2000:], "timeout")

def stable(cwd):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd)
    passed = set()
    for line in r.stdout.splitlines():
        e = json.loads(line)
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    lack = set(base["stable"]) - passed
    return not lack, str(sorted(lack)) + r.stderr[-500:]

def check(pid, patch, tier="quick"):
    """Run a check against a scratch copy of /repo with the change (a copy of this
    machinery pointed at it), so that /repo stays as it is."""
    tmp = tempfile.mkdtemp(prefix="seedcheck-", dir="/tmp")
    try:
        tree, ver = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        shutil.copytree("/repo", tree)
        subprocess.check_call(["git", "-C", tree, "apply", patch])
        os.mkdir(ver)
        for f in ("check.py", "budget.json", "known_findings.txt", "literals.json"):
            shutil.copy(os.path.join(HERE, f), ver)
        for f in ("harness", "corpus"):
            if os.path.isdir(os.path.join(HERE, f)):
                shutil.copytree(os.path.join(HERE, f), os.path.join(ver, f))
        mod = os.path.join(ver, "harness", "go.mod")
        m = open(mod).read().replace("=> /repo", "=> " + tree)
        open(mod, "w").write(m)
        r = subprocess.run(["python3", os.path.join(ver, "check.py"), pid, "--tier", tier], capture_output=True, text=True)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        for i in ids:
            d = os.path.join(SEEDED, i)
            m = json.load(open(os.path.join(d, "meta.json")))
            rc, out = check(m["property"], os.path.join(d, "patch.diff"))
            print(i, m["property"], "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, out.splitlines()[0][:150] if rc == 1 else out[-600:], flush=True)
        return
    spec = runpy.run_path(args[0])["BUGS"]
    want = set(args[1:])
    for b in spec:
        if want and b["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            tree = os.path.join(tmp, "repo")
            shutil.copytree("/repo", tree)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(tree, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT: %d occurrences of %r in %s" % (s.count(old), old[:60], f)); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = sh(["git", "diff"], tree).stdout
            # does it touch lines of the original repository?
            orig = 0
            for f in {e[0] for e in b["edits"]}:
                bl = sh(["git", "blame", "-s", "HEAD", "--", f], "/repo").stdout.splitlines()
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", f], tree).stdout, re.M):
                    n = int(m.group(2) if m.group(2) is not None else 1)
                    for k in range(int(m.group(1)), int(m.group(1)) + n):
                        orig += bl[k - 1].startswith("^")
            d = os.path.join(tmp, "seed"); os.mkdir(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "main.go.txt"), "w").write(b["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace(" RACE", " -race" if b.get("race") else ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            t, log = stable(tree)
            if not t:
                print(b["id"], "TESTS FAIL:", log); continue
            clean = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
            bad = sh(["bash", os.path.join(d, "demo.sh")], tree)
            if clean.returncode != 0 or bad.returncode in (0, 99):
                print(b["id"], "DEMO: clean %d, changed %d" % (clean.returncode, bad.returncode), clean.stdout[-400:], clean.stderr[-400:], bad.stdout[-400:], bad.stderr[-400:]); continue
            dst = os.path.join(SEEDED, b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            rc, out = check(b["property"], os.path.join(dst, "patch.diff"))
            print(b["id"], b["property"], "orig=%d" % orig, "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, out.splitlines()[0][:200] if rc == 1 else out[-800:], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

main()
