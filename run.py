#!/usr/bin/env python3
"""Builds and runs the check of one property.

  run.py <property>              run the check (tier from VERIF_TIER)
  run.py <property> --replay F   re-run the case recorded in replay file F
  run.py --build-all             compile everything (optional warm-up)

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import importlib.util
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
COMMON = ("-std=c++17 -DNDEBUG -DDOCTEST_CONFIG_DISABLE -D_GLIBCXX_ASSERTIONS -w "
         f"-I{REPO}/include -I{REPO}/src -I{VERIF}/val -I{VERIF}/harness "
         "-I/usr/include/eigen3").split()
# "san": every memory error is reported; "fast": about ten times quicker.
MODES = {"san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
         "fast": ["-O2"]}
LINK = {"san": ["-fsanitize=address,undefined"], "fast": []}
ENV = dict(os.environ, MALLOC_PERTURB_="90",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=23:hard_rss_limit_mb=6000:"
                        "quarantine_size_mb=16:detect_stack_use_after_return=0:"
                        "allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=23")
NPROC = max(1, min(8, os.cpu_count() or 1))

# property -> harness source, extra link flags
CHECKS = {}
for _i in range(1, 30):
    CHECKS["C%02d" % _i] = {"h": "c%02d.cc" % _i, "quick": [("fast", "quick")],
                           "thorough": [("fast", "thorough"), ("san", "quick")]}
for _i in ("C01", "C02", "C03", "C04", "C05", "C06", "C22", "C23", "C24", "C28"):
    CHECKS[_i].update(quick=[("san", "quick")], thorough=[("san", "thorough")])

CAP = {"quick": 240.0, "thorough": 2400.0}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for f in sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True)):
        rel = os.path.relpath(f, f"{REPO}/src")
        if rel.startswith("python") or rel == "utils/doctest.cc":
            continue
        out.append(f)
    return out


def tree_hash(paths):
    h = hashlib.sha256(" ".join([CXX] + COMMON + [str(MODES)]).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    hs = glob.glob(f"{REPO}/include/**/*.h", recursive=True) + glob.glob(f"{REPO}/src/**/*.h", recursive=True)
    hs += glob.glob(f"{VERIF}/val/VAL/*.h")
    return sorted(hs)


# The programs in /repo that harnesses call, under the name given to their main().
APPS = {"c29.cc": (f"{REPO}/apps/pddl.cc", "pddl_app_main")}


def compile_one(src, mode, hdr_hash, extra_headers=(), main=None):
    """Compiles src into the content-addressed cache and returns the object."""
    with open(src, "rb") as f:
        body = f.read()
    k = hashlib.sha256((hdr_hash + mode + src).encode() + body)
    for e in extra_headers:
        with open(e, "rb") as f:
            k.update(f.read())
    obj = os.path.join(BUILD, "obj", k.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([CXX] + COMMON + MODES[mode] + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise CheckError(f"cannot compile {src}:\n{r.stdout}")
        if main:
            r = sh(["objcopy", "--redefine-sym", f"main={main}", tmp])
            if r.returncode != 0:
                raise CheckError(f"objcopy failed on {src}:\n{r.stdout}")
        os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: list of (harness, mode).  Returns {target: executable}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = tree_hash(headers())
    own = sorted(glob.glob(f"{VERIF}/harness/*.h"))
    # c28.cc includes the Python bindings, compiled against a stand-in of pybind11.
    included = {"c28.cc": sorted(glob.glob(f"{VERIF}/harness/pybind11/*.h") + glob.glob(f"{REPO}/src/python/*"))}
    libs = sorted(repo_sources() + [f"{VERIF}/val/ptree.cc"], key=lambda s: -os.path.getsize(s))
    jobs = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for h, m in targets:
            jobs[h, m] = ex.submit(compile_one, f"{VERIF}/harness/{h}", m, hh,
                                   own + included.get(h, []))
            if h in APPS:
                jobs[APPS[h][0], m] = ex.submit(compile_one, APPS[h][0], m, hh, (), APPS[h][1])
        for m in sorted({m for _, m in targets}):
            for s in libs:
                jobs[s, m] = ex.submit(compile_one, s, m, hh)
    exes = {}
    for h, m in targets:
        objs = [jobs[s, m].result() for s in [h] + ([APPS[h][0]] if h in APPS else []) + libs]
        k = hashlib.sha256("|".join(objs).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", f"{os.path.splitext(h)[0]}-{m}-{k}")
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([CXX] + LINK[m] + objs + ["-o", tmp])
            if r.returncode != 0:
                raise CheckError(f"cannot link {h}:\n{r.stdout}")
            os.replace(tmp, exe)
        exes[h, m] = exe
    return exes


def prune_cache():
    """Keeps the object cache from growing without bound."""
    fs = []
    for d in ("obj", "bin"):
        fs += glob.glob(os.path.join(BUILD, d, "*"))
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)]
    total = sum(s for _, s, _ in fs)
    for _, s, f in sorted(fs):
        if total < 3e9:
            break
        try:
            os.remove(f)
        except OSError:
            pass
        total -= s


def read_cur(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        cid, hang = struct.unpack("qq", b[:16])
        return cid, hang, b[16:].split(b"\0")[0].decode("utf8", "replace")
    except Exception:
        return -1, 0, ""


class Shard:
    def __init__(self, exe, tier, shard, n, cap, scratch, only=None, case_cpu=None, extra=()):
        self.tag = f"{shard}of{n}" + (f"-only{only}" if only is not None else "")
        self.dir = os.path.join(scratch, self.tag)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "out.json")
        self.cur = os.path.join(self.dir, "cur")
        self.err = os.path.join(self.dir, "err")
        self.cmd = [exe, "--tier", tier, "--shard", f"{shard}/{n}", "--cap", str(cap),
                    "--out", self.out, "--cur", self.cur, "--scratch", self.dir]
        if only is not None:
            self.cmd += ["--only", str(only)]
        if case_cpu:
            self.cmd += ["--case-cpu", str(case_cpu)]
        self.cmd += list(extra)
        self.cap = cap
        self.tier, self.exe = tier, exe
        self.shard, self.n, self.only = shard, n, only

    def run(self):
        t0 = time.time()
        with open(self.err, "wb") as e, open(os.path.join(self.dir, "stdout"), "wb") as o:
            p = subprocess.Popen(self.cmd, stdout=o, stderr=e, env=ENV, start_new_session=True,
                                 cwd=self.dir)
            try:
                rc = p.wait(timeout=self.cap + 150)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        self.wall = time.time() - t0
        self.rc = rc
        self.res = None
        self.problems = []  # (case id, key, desc, detail)
        if rc in (0, 1) and os.path.exists(self.out):
            try:
                with open(self.out) as f:
                    self.res = json.load(f)
            except ValueError:
                self.res = None
        if self.res is not None:
            for f in self.res["fails"]:
                self.problems.append((f["id"], f["key"], f["desc"], f["detail"]))
        else:
            cid, hang, desc = read_cur(self.cur)
            with open(self.err, "rb") as f:
                tail = f.read(3000).decode("utf8", "replace")
            if rc == 42 or hang:
                key = "hang"
            elif rc == "timeout":
                key = "hang"
            else:
                key = "crash"
            self.problems.append((cid, key, desc, f"exit {rc}\n{tail}"))
        return self


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                key = line.split("key=", 1)[1].split()[0]
                out.append((key, line))
    return out


def load_extra(prop, scratch):
    """Optional Python step that produces the inputs of a C++ harness."""
    pre = CHECKS[prop].get("pre")
    if not pre:
        return []
    spec = importlib.util.spec_from_file_location("pre", f"{VERIF}/harness/{pre}")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.prepare(REPO, scratch, os.environ.get("VERIF_TIER", "quick"))


def check(prop, tier, seed):
    t0 = time.time()
    h = CHECKS[prop]["h"]
    plan = CHECKS[prop][tier]
    exes = build([(h, m) for m, _ in plan])
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        extra = load_extra(prop, scratch)
        done = []
        for mode, run_tier in plan:
            shards = [Shard(exes[h, mode], run_tier, i, NPROC, CAP[run_tier],
                            os.path.join(scratch, mode), extra=extra) for i in range(NPROC)]
            for s in shards:
                s.mode = mode
            with cf.ThreadPoolExecutor(NPROC) as ex:
                done += list(ex.map(lambda s: s.run(), shards))
        known = known_findings(prop)
        knownkeys = {k for k, _ in known}
        seen_known = set()
        violation = None
        unconfirmed = []
        for s in done:
            for cid, key, desc, detail in s.problems:
                if key in knownkeys:
                    seen_known.add(key)
                    continue
                if violation:
                    continue
                violation = confirm(prop, s, cid, key, desc, detail, scratch, extra)
                if violation is None:
                    unconfirmed.append((cid, key, desc, detail))
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
               "cases": 0, "exhaustive": True, "shards": NPROC}
        extra_c = {}
        for s in done:
            if s.res is None:
                cov["exhaustive"] = False
                continue
            cov["states"] += s.res["states"]
            cov["transitions"] += s.res["transitions"]
            cov["traces_validated_against_impl"] += s.res["traces"]
            cov["cases"] += s.res["cases"]
            if s.res["capped"] or s.res["fails"]:
                cov["exhaustive"] = False
            for k, v in s.res["extra"].items():
                if k.startswith("max_"):
                    extra_c[k] = max(extra_c.get(k, 0), v)
                else:
                    extra_c[k] = extra_c.get(k, 0) + v
            cov["samples"] += s.res["samples"][:2]
        cov["samples"] = cov["samples"][:10]
        cov.update({k: v for k, v in extra_c.items() if k not in cov})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov,
              "assumptions": ["VAL is replaced by the stand-in in /verif/val for parsing",
                              "builds (g++, NDEBUG): " + ", ".join(
                                  m + " " + " ".join(MODES[m]) + " at tier " + t for m, t in plan)],
              "wall_s": round(time.time() - t0, 2),
              "violations": 1 if violation else 0}
        cov["build_s"] = round(t_build, 2)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key, line in known:
            if key in seen_known:
                print(f"KNOWN-FINDING: property={prop} {line.split('what=', 1)[-1]}")
        print(f"{prop} tier={tier} cases={cov['cases']} states={cov['states']} "
              f"transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
              f"exhaustive={cov['exhaustive']} extra={extra_c} build={t_build:.1f}s "
              f"wall={time.time() - t0:.1f}s")
        if violation:
            print(f"VIOLATION property={prop} replay={violation}")
            return 1
        if unconfirmed:
            print("problem seen but not reproduced:", unconfirmed[0])
            return 2
        if cov["cases"] == 0:
            print("no case was run")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(prop, s, cid, key, desc, detail, scratch, extra):
    """Replays a problem before it is reported; returns the replay file."""
    mode, exe, tier = None, s.exe, s.tier
    if cid >= 0:
        r = Shard(exe, tier, 0, 1, 400, scratch, only=cid, case_cpu=120, extra=extra).run()
        if r.problems:
            mode = {"only": cid}
            key, desc, detail = r.problems[0][1:]
    if mode is None and key != "hang":
        # The failure may need the cases that ran before it in the same process.
        r = Shard(exe, tier, s.shard, s.n, CAP[tier], os.path.join(scratch, "again"), extra=extra).run()
        if r.problems:
            mode = {"shard": f"{s.shard}/{s.n}"}
    if mode is None:
        return None
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{tier}-{cid if 'only' in mode else 'shard' + str(s.shard)}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "build": s.mode, "mode": mode, "key": key, "case": desc,
                   "detail": detail,
                   "how": f"python3 {VERIF}/run.py {prop} --replay {path}"}, f, indent=1)
        f.write("\n")
    print(f"--- {prop}: {key}\n--- case {cid}: {desc[:3000]}\n--- {detail[:3000]}")
    return path


def replay(prop, path):
    rp = json.load(open(path))
    h = CHECKS[prop]["h"]
    exe = build([(h, rp["build"])])[h, rp["build"]]
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        os.environ["VERIF_TIER"] = rp["tier"]
        extra = load_extra(prop, scratch)
        if "only" in rp["mode"]:
            r = Shard(exe, rp["tier"], 0, 1, 400, scratch, only=rp["mode"]["only"], case_cpu=120,
                      extra=extra).run()
        else:
            i, n = map(int, rp["mode"]["shard"].split("/"))
            r = Shard(exe, rp["tier"], i, n, CAP[rp["tier"]], scratch, extra=extra).run()
        for p in r.problems:
            print(p[1], p[2], p[3], sep="\n")
        print("reproduced" if r.problems else "not reproduced")
        return 1 if r.problems else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1:2] == ["--build-all"]:
        build(sorted({(c["h"], m) for c in CHECKS.values() for m, _ in c["quick"]
                      if os.path.exists(f"{VERIF}/harness/{c['h']}")}))
        return 0
    prop = sys.argv[1]
    if sys.argv[2:3] == ["--replay"]:
        return replay(prop, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in CAP:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    prune_cache()
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print(e)
        sys.exit(2)
