#!/usr/bin/env python3
"""Confirms planted bugs (development aid; no registered check uses it).

  plant.py [--check] ID...    for every /verif/seeded/ID: the demo passes on the
                              clean tree; the patch applies, changes lines of
                              the original repository, builds, passes the
                              stable tests and fails the demo.  With --check,
                              also run the check of its property (and of the
                              properties after --also=C01,C02).

Works in scratch copies of /repo, several at a time.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "02650db"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(diff):
    """(removed lines that are original, removed lines that are ours)"""
    orig = own = 0
    path, line = None, 0
    blame = {}
    for l in diff.split("\n"):
        m = re.match(r"--- a/(.*)", l)
        if m:
            path = m.group(1)
            out = sh(["git", "-C", "/repo", "blame", "-s", path]).stdout.split("\n")
            blame = {i + 1: x.startswith("^" + BASE[:7]) for i, x in enumerate(out)}
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            line = int(m.group(1))
            continue
        if l.startswith("+++") or not path:
            continue
        if l.startswith("-"):
            orig += blame.get(line, False)
            own += not blame.get(line, False)
            line += 1
        elif not l.startswith("+"):
            line += 1
    return orig, own


def one(pid, run_check, also):
    d = os.path.join(VERIF, "seeded", pid)
    res = {"id": pid}
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        meta = json.load(open(os.path.join(d, "meta.json")))
        diff = open(os.path.join(d, "patch.diff")).read()
        res["orig"], res["own"] = original_lines(diff)
        repo = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", repo])
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(os.path.join(demo, f))
        run = lambda: sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo, timeout=300)
        r = run()
        res["clean"] = r.returncode
        if r.returncode:
            res["out"] = r.stdout[-1500:]
            return res
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        res["apply"] = r.returncode
        if r.returncode:
            res["out"] = r.stdout
            return res
        r = run()
        res["patched"] = r.returncode
        res["out"] = r.stdout[-300:]
        # stable tests: only the combination generator is compiled into them
        b = os.path.join(tmp, "b")
        fl = ["-std=c++17", "-I" + repo + "/include", "-I" + repo + "/src"]
        if "--tests" in sys.argv:
            sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
            try:
                r = sh(["bash", "/opt/vp/test.sh", os.path.join(tmp, "o.json")])
                o = json.load(open(os.path.join(tmp, "o.json")))
                base = json.load(open("/opt/vp/BASELINE.json"))
                res["tests"] = "%d passed %d failed" % (len(o["passed"]), len(o["failed"]))
            finally:
                sh(["git", "-C", "/repo", "checkout", "--", "."])
        if run_check:
            for p in dict.fromkeys([meta["property"]] + also):
                r = sh([sys.executable, os.path.join(VERIF, "run.py"), p],
                       env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1"))
                v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
                res["check " + p] = "%d %s" % (r.returncode, "CAUGHT" if v and r.returncode == 1 else "missed")
                if r.returncode not in (0, 1):
                    res["check out " + p] = r.stdout[-600:]
        return res
    except subprocess.TimeoutExpired:
        res["out"] = "TIMEOUT"
        return res
    finally:
        shutil.rmtree(tmp)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    also = [p for a in sys.argv if a.startswith("--also=") for p in a[7:].split(",")]
    check = "--check" in sys.argv
    par = 1 if check or "--tests" in sys.argv else 3
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda i: one(i, check, also), args or sorted(os.listdir(VERIF + "/seeded"))):
            ok = r.get("clean") == 0 and r.get("apply") == 0 and r.get("patched", 0) != 0 and r.get("orig", 0) > 0
            out = r.pop("out", "")
            print("OK " if ok else "BAD", json.dumps(r), flush=True)
            if not ok or "-v" in sys.argv or "--verbose" in sys.argv:
                print(out)


main()
