#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]    decide one property
check.py --replay FILE                              judge a saved case again
check.py --setup                                    fill the build cache

Builds /verif/harness against /repo's working tree, replays the saved cases of
/verif/corpus/<ID>, then searches with generated cases in parallel processes.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Any other exit: the check itself could not decide."""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CONF = json.load(open(os.path.join(HERE, "budget.json")))
EXIT_HANG, EXIT_MEMORY, EXIT_RACE = 70, 71, 66
SHARDS = 8


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off", CGO_ENABLED="1")
    if "HOME" not in env and "GOCACHE" not in env:
        env["HOME"] = "/root"
    return env


def build(scratch, race):
    src = os.path.join(scratch, "src-race" if race else "src")
    os.mkdir(src)
    for f in os.listdir(os.path.join(HERE, "harness")):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HERE, "harness", f), src)
    binary = os.path.join(scratch, "harness-race.test" if race else "harness.test")
    cmd = ["go", "test", "-c", "-o", binary] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the harness does not build against /repo:\n" + r.stdout[-3000:] + r.stderr[-3000:])
    return binary


def literals():
    """Texts and numbers that stand in the code under test: words for ids and patterns,
    sizes to try. They steer the generators only, the oracles know nothing of them."""
    mod = open(os.path.join(HERE, "harness", "go.mod")).read()
    repo = re.search(r"^replace github.com/oarkflow/permission => (\S+)", mod, re.M).group(1)
    words, sizes = set(), set()
    for d, dirs, files in os.walk(repo):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in ("examples", "test", "vendor"))
        for f in sorted(files):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            text = open(os.path.join(d, f), encoding="utf8", errors="replace").read()
            text = re.sub(r"(?ms)^import \(.*?^\)|^import .*?$", "", text)
            for m in re.finditer(r'`([^`]*)`|"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)+)\'|//[^\n]*|/\*.*?\*/|(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])(?:\s*<<\s*(\d+))?', text, re.S):
                raw, quoted, char, num, shift = m.groups()
                if num is not None:
                    n = int(num, 0) << min(int(shift or 0), 40) if num == "0" or not num.startswith("0") or num.startswith("0x") else 0
                    if 3 <= n <= 100000:
                        sizes.add(n)
                    continue
                w = raw
                if w is None:
                    w = quoted if quoted is not None else char
                    if w is None:
                        continue
                    try:
                        w = re.sub(r"\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|[nrtv0ab\"'\\])",
                                   lambda e: {"n": "\n", "r": "\r", "t": "\t", "v": "\v", "0": "\0", "a": "\a", "b": "\b"}.get(e.group(1), chr(int(e.group(1)[1:], 16)) if e.group(1)[0] in "xu" else e.group(1)), w)
                    except ValueError:
                        continue
                if 0 < len(w) <= 40:
                    words.add(w)
    return words, sizes


def dictionary(scratch):
    """The literals the code has gained since the properties were written down."""
    try:
        base = json.load(open(os.path.join(HERE, "literals.json")))
        words, sizes = literals()
    except (OSError, ValueError, AttributeError):
        return {}
    fresh = {"words": sorted(words - set(base["words"]))[:40], "sizes": sorted(sizes - set(base["sizes"]))[:40]}
    if not fresh["words"] and not fresh["sizes"]:
        return {}
    path = os.path.join(scratch, "dict.json")
    json.dump(fresh, open(path, "w"))
    return {"VP_DICT": path}


def run(binary, test, env, out, limit):
    """Run the test binary once; (exit code, output)."""
    os.makedirs(out, exist_ok=True)
    e = dict(os.environ)
    for k in [k for k in e if k.startswith("VP_")]:
        del e[k]
    e.update(env, VP_OUT=out, GORACE="halt_on_error=1 exitcode=%d" % EXIT_RACE, GOMAXPROCS="4")
    e["GOMEMLIMIT"] = "2GiB"
    log = os.path.join(out, "log")
    with open(log, "wb") as f:
        try:
            rc = subprocess.run([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], env=e, cwd=out,
                                stdout=f, stderr=subprocess.STDOUT, timeout=limit).returncode
        except subprocess.TimeoutExpired:
            rc = None
    with open(log, "rb") as f:
        f.seek(max(0, os.path.getsize(log) - 200000))
        return rc, f.read().decode("utf8", "replace")


def failure_of(binary, rc, text, out, confirm):
    """The failing case of a run that did not end well, or None if it proves nothing."""
    path = os.path.join(out, "failure.json")
    if os.path.exists(path):
        return json.load(open(path))
    try:
        cur = json.load(open(os.path.join(out, "current.json")))
    except (OSError, ValueError):
        return None
    if not cur.get("case"):
        return None
    if rc == EXIT_HANG and "VP-DEADLOCK" in text:
        cur["message"] = text[text.index("VP-DEADLOCK"):][:6000]
        return cur
    if rc in (EXIT_HANG, EXIT_MEMORY):
        what = "does not terminate" if rc == EXIT_HANG else "needs memory without bound"
        for i in range(2):  # alone, with nothing else of this check running
            again, _ = confirm(cur, i)
            if again != rc:
                return None
        cur["message"] = "the case %s (three runs, two of them alone)" % what
        return cur
    if rc == EXIT_RACE and "DATA RACE" in text:
        cur["message"] = "data race\n" + text[text.index("WARNING: DATA RACE"):][:6000]
        return cur
    m = re.search(r"^(fatal error: .*|panic: .*|SIG\w+: .*)$", text, re.M)
    if m and "out of memory" not in m.group(1):
        cur["message"] = "the process ended: " + text[m.start():][:6000]
        return cur
    return None


def search(pid, tier, seed, scratch):
    conf = CONF[pid]
    t0 = time.time()
    # some properties are searched with the race detector, some without, some both ways
    binaries = {mode: build(scratch, mode == "race") for mode in conf[tier]}
    binary = next(iter(binaries.values()))
    r = subprocess.run([binary, "-test.run", "^TestParts$"], capture_output=True, text=True, cwd=scratch)
    m = re.search(r"^VP-PARTS %s (\d+)$" % pid, r.stdout, re.M)
    if not m:
        raise CheckError("the harness has no property %s: %s" % (pid, r.stdout[-500:] + r.stderr[-500:]))
    parts = int(m.group(1))
    built = time.time() - t0
    limits = CONF["_limits"][tier]
    n_confirm = [0]

    def confirm(case, i):
        n_confirm[0] += 1
        d = os.path.join(scratch, "confirm%d" % n_confirm[0])
        os.makedirs(d)
        f = os.path.join(d, "case.json")
        json.dump(case, open(f, "w"))
        return run(binary, "TestReplay", {"VP_REPLAY": f, "VP_REPEAT": "2"}, d, 120)

    fails, errors, found = [], [], []

    # saved cases first
    corpus = os.path.join(HERE, "corpus", pid)
    saved = sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []
    if saved:
        out = os.path.join(scratch, "corpus")
        rc, text = run(binary, "TestReplay", {"VP_REPLAY": corpus, "VP_REPEAT": "20"}, out, limits["hard"])
        if rc != 0:
            f = failure_of(binary, rc, text, out, confirm)
            if f is None:
                raise CheckError("replaying the saved cases ended with %s:\n%s" % (rc, text[-3000:]))
            fails.append(f)

    # generated cases
    jobs = []
    for mode, per_part in conf[tier].items():
        for part in range(parts):
            cases = per_part if isinstance(per_part, int) else per_part[part]
            for s in range(SHARDS):
                jobs.append((mode, part, s, max(1, cases // SHARDS)))
    deadline = time.time() + limits["soft"]
    hints = dictionary(scratch)

    def one(job):
        mode, part, s, n = job
        out = os.path.join(scratch, "%s%d_%d" % (mode, part, s))
        env = {"VP_PROP": pid, "VP_PART": str(part), "VP_CHECKS": str(n),
               "VP_SEED": str((seed * 1000003 + (500 if mode == "race" else 0) + part * 1009 + s + 1) % (1 << 52)),
               "VP_DEADLINE": str(int(deadline)), **hints}
        rc, text = run(binaries[mode], "TestProp", env, out, limits["hard"])
        return job, out, rc, text

    results = []
    if not fails:
        with concurrent.futures.ThreadPoolExecutor(max_workers=SHARDS) as ex:
            results = list(ex.map(one, jobs))
    st = {"evaluations": 0, "oracle_comparisons": 0, "nontrivial": 0, "labels": {}, "samples": [], "rules": {}, "max": 0, "sum": 0, "modes": {}}
    hashes = set()
    # confirming a hang takes long: last, only if nothing else failed, and not for all of them
    results.sort(key=lambda r: r[2] in (EXIT_HANG, EXIT_MEMORY))
    for (mode, part, s, n), out, rc, text in results:
        if rc in (EXIT_HANG, EXIT_MEMORY) and (fails or len(errors) > 2) and "VP-DEADLOCK" not in text:
            continue
        if rc != 0:
            f = failure_of(binary, rc, text, out, confirm)
            if f is not None:
                fails.append(f)
            else:
                errors.append("part %d shard %d ended with %s:\n%s" % (part, s, rc, text[-2500:]))
                continue
        try:
            x = json.load(open(os.path.join(out, "stats.json")))
        except (OSError, ValueError):
            continue
        st["evaluations"] += x["evaluations"]
        st["oracle_comparisons"] += x["oracle_comparisons"]
        st["nontrivial"] += x["nontrivial"]
        st["rules"][part] = x["rule"]
        st["max"] = max(st["max"], x["max_case_bytes"])
        st["sum"] += x["sum_case_bytes"]
        for k, v in (x["labels"] or {}).items():
            st["labels"][k] = st["labels"].get(k, 0) + v
        st["modes"][mode] = st["modes"].get(mode, 0) + x["evaluations"]
        if s == 0:
            st["samples"] += (x["samples"] or [])[:3]
        b = open(os.path.join(out, "hashes.bin"), "rb").read()
        hashes.update((part, b[i:i + 8]) for i in range(0, len(b), 8))

    replay = None
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f["case"])))
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, "%s-%s-%d.json" % (pid, tier, seed))
        with open(replay, "w") as o:
            json.dump(f, o, indent=1)
        print(f["message"][:1500])
        print("case: " + json.dumps(f["case"])[:1500])
    elif errors:
        raise CheckError("\n".join(errors[:2]))

    known = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            known.append(line.rstrip("\n"))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join(st["rules"][k] for k in sorted(st["rules"])),
            "samples": st["samples"][:8],
            "oracle_comparisons": st["oracle_comparisons"],
            "nontrivial_with_repeats": st["nontrivial"],
            "classes": dict(sorted(st["labels"].items())),
            "mean_case_bytes": round(st["sum"] / st["evaluations"]) if st["evaluations"] else 0,
            "max_case_bytes": st["max"],
            "saved_cases_replayed": len(saved),
            "processes": len(jobs),
            "evaluations_by_build": st["modes"],
            "build_s": round(built, 2),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": conf.get("assumptions", []),
        "violations": 1 if fails else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as o:
        json.dump(evidence, o, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for line in known:
        print(line)
    if fails:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("property %s held: %d cases, %d distinct non-trivial, %d comparisons, %.1f s" % (
        pid, st["evaluations"], len(hashes), st["oracle_comparisons"], time.time() - t0))
    return 0


def replay_one(path, scratch):
    f = json.load(open(path))
    binary = build(scratch, "race" in CONF[f["property"]]["quick"])
    out = os.path.join(scratch, "replay")
    rc, text = run(binary, "TestReplay", {"VP_REPLAY": os.path.abspath(path)}, out, 600)
    print(text[-4000:])
    if rc == 0:
        print("property %s holds on %s" % (f["property"], path))
        return 0
    if "VP-FAIL" in text or rc in (EXIT_HANG, EXIT_MEMORY, EXIT_RACE) or re.search(r"^(fatal error|panic): ", text, re.M):
        print("VIOLATION property=%s replay=%s" % (f["property"], path))
        return 1
    raise CheckError("replay ended with %s" % rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="build once, to fill the build cache")
    ap.add_argument("--literals", action="store_true", help="write literals.json, those of the tree as it is")
    a = ap.parse_args()
    if a.literals:
        words, sizes = literals()
        json.dump({"words": sorted(words), "sizes": sorted(sizes)}, open(os.path.join(HERE, "literals.json"), "w"), indent=1)
        return 0
    base = os.path.join(HERE, ".build")
    os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=(a.property or "replay") + "-", dir=base)
    try:
        if a.setup:
            build(scratch, False)
            build(scratch, True)
            return 0
        if a.replay:
            return replay_one(a.replay, scratch)
        return search(a.property, a.tier, a.seed, scratch)
    except CheckError as e:
        print("ERROR: the check could not decide: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
