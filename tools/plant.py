#!/usr/bin/env python3
"""plant.py check ID...   confirm planted changes in scratch copies (build, stable tests, demo both ways)
plant.py catch ID...   run the check of the property with the change applied to /repo, undo afterwards
plant.py all ID...     run every check with the change applied"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUST_BACKTRACE="0",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="2")
def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or os.environ, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def check(i):
    d = os.path.join(S, i); out = []
    w = "/tmp/plant/" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], w)
        if rc != 0: return i, "BAD demo fails on the unchanged tree: rc=%d %s" % (rc, o[-400:])
        rc, o = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], w)
        if rc != 0: return i, "BAD patch does not apply " + o
        sh(["git", "apply", os.path.join(d, "patch.diff")], w)
        log = w + ".log"
        rc, o = sh("cargo test --workspace --no-run --offline > %s 2>&1" % log, w, env=ENV)
        if rc != 0: return i, "BAD does not build: " + open(log).read()[-1500:]
        sh("timeout -k 10 840 cargo test --workspace --no-fail-fast --offline -- --include-ignored --skip test_many_mergeable_searcher --test-threads 4 > %s 2>&1" % log, w, env=ENV, timeout=1000)
        sh(["python3", "/opt/vp/results.py", w + ".json", "cargo:" + log], w)
        lost = sorted(BASE - set(json.load(open(w + ".json"))["passed"]))
        if lost: return i, "BAD tests fail: %s" % lost
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], w)
        if rc in (0, 3): return i, "BAD demo passes (or does not build) with the change rc=%d %s" % (rc, o[-400:])
        return i, "ok (demo rc=%d: %s)" % (rc, " | ".join(o.strip().split("\n")[-2:])[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        for e in (".log", ".json"):
            if os.path.exists(w + e): os.remove(w + e)
def catch(i, every):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    if subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode: sys.exit("/repo is not clean")
    res = []
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        ids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]] if every else [meta["property"]]
        for p in ids:
            rc, o = sh(["python3", "check.py", p], V)
            hit = [l for l in o.split("\n") if l.startswith("VIOLATION property=" + p)]
            if rc == 1 and hit: res.append(p)
            elif rc != 0: res.append("%s:rc=%d(%s)" % (p, rc, o[-300:]))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    return i, meta["property"], res
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    if sys.argv[1] == "check":
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(check, ids): print(*r, flush=True)
    else:
        for i in ids:
            i, p, r = catch(i, sys.argv[1] == "all")
            print(i, p, "CAUGHT" if p in r else "MISSED", r, flush=True)
