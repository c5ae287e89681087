#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  --  see DESIGN.md

For one property: model check its design modules with TLC, build the driver
crate against /repo's working tree, let it record histories of the real code
(random ones from VERIF_SEED and behaviours generated by TLC), and let TLC
validate every recorded history against the property's trace specification.
Exit 0: held.  Exit 1 + VIOLATION line: a recorded history is rejected.
Exit 2: the check itself could not do its work.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CheckError(Exception):
    pass


class Crash(Exception):
    """the code under test took the driver process down (or never gave control back)"""


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, extra=(), timeout=600, workers=8, mem="6g"):
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(cfg), time.time_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s ran out of its %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, out, st


def model_ok(module, cfg, work, timeout):
    rc, out, st = tlc(module, cfg, work, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("design model %s (%s) is not accepted by TLC:\n%s" % (module, cfg, out[-3000:]))
    return st


def model_rejected(module, cfg, text_sub, work, timeout):
    """negative control: the same model with a defect put back must be rejected"""
    src = open(os.path.join(SPECS, cfg)).read()
    assert text_sub[0] in src, (cfg, text_sub)
    alt = os.path.join(work, "neg-" + cfg)
    open(alt, "w").write(src.replace(*text_sub))
    rc, out, st = tlc(module, alt, work, timeout=timeout)
    if "is violated" not in out and "Deadlock reached" not in out:
        raise CheckError("negative control of %s (%s) was not rejected:\n%s" % (module, text_sub[1], out[-2000:]))
    return st


CHUNK = 40 << 20
ASPECT = ""         # the property under check; some trace specifications serve several


def validate(module, path, work, timeout):
    """Whole histories only, in files TLC can hold comfortably."""
    if os.path.getsize(path) <= CHUNK:
        return validate_file(module, path, work, timeout)
    parts, base, n, size, out = [], 0, 0, 0, None
    with open(path) as f:
        for line in f:
            if out is None or size > CHUNK:
                if out:
                    out.close()
                parts.append(("%s.%d" % (path, len(parts)), n))
                out, size = open(parts[-1][0], "w"), 0
            out.write(line)
            size += len(line)
            n += 1
    out.close()
    tot, worst = [0, 0], None
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for (p, first), fu in [(x, ex.submit(validate_file, module, x[0], work, timeout, 3)) for x in parts]:
            st, bad = fu.result()
            tot = [tot[0] + st[0], tot[1] + st[1]]
            if bad and not worst:
                worst = (bad[0] + first, bad[1], bad[2])
            os.remove(p)
    return tuple(tot), worst


def validate_file(module, path, work, timeout, workers=8, cfg="Trace.cfg"):
    """returns (stats, None) or (stats, (case index, event index, tlc text))"""
    rc, out, st = tlc(module, cfg, work, env={"TRACE": path, "ASPECT": ASPECT}, timeout=timeout, workers=workers)
    if rc == 0 and "No error has been found" in out:
        return st, None
    if "StackOverflowError" in out or "OutOfMemoryError" in out:
        raise CheckError("TLC ran out of memory or stack on %s:\n%s" % (module, out[-2000:]))
    # an event whose values the specification cannot even evaluate (out of range, missing) is rejected as well
    if "Deadlock reached" in out or "The behavior up to this point is" in out or \
            re.search(r"Invariant \w+ is violated|property \w+ is violated", out):
        cs = re.findall(r"^/\\ c = (\d+)", out, re.M)
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not cs:      # violated already in an initial state
            cs = re.findall(r"\bc = (\d+)", out)
            ls = re.findall(r"\bl = (\d+)", out)
        if cs and ls:
            tail = out[out.rfind("\nState "):] if "\nState " in out else out[-1500:]
            return st, (int(cs[-1]), int(ls[-1]), tail[:3000])
    # the driver was stopped by the library before its first history: nothing for TLC to start from
    with open(path) as f:
        lines = f.readlines()
    last = json.loads(lines[-1])
    if last["cfg"] == {} and last["ev"] and (last["ev"][-1].get("op") == "hang" or last["ev"][-1].get("of") == "driver"):
        return st, (len(lines), len(last["ev"]), out[-1500:])
    raise CheckError("trace validation with %s failed without a verdict:\n%s" % (module, out[-4000:]))


def generate(module, cfg, n, depth, seed, work, timeout=300, tag="GEN "):
    rc, out, _ = tlc(module, cfg, work, extra=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)],
                     timeout=timeout, workers=1)
    seen, res = set(), []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            s = json.loads(line)[len(tag):]
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
    if not res:
        raise CheckError("no behaviours generated by %s:\n%s" % (module, out[-2000:]))
    # TLC evaluates the printing invariant on more than the chosen successor: spread the selection
    step = max(1, len(res) // n)
    return res[::step][:n]


# ---------------------------------------------------------------- the code under test
def build(crate, work, bin_name):
    tgt = os.path.join(crate, "target")
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD")):
            e.pop(k)
    e["CARGO_TARGET_DIR"] = tgt
    e["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=crate, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if p.returncode != 0:
        return None, p.stdout
    return os.path.join(tgt, "debug", bin_name), p.stdout


def drive(binary, driver, out, seed, tier, work, script=None, timeout=400, extra=()):
    scratch = os.path.join(work, "scratch-" + driver)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [binary, driver, "--out", out, "--seed", str(seed), "--tier", tier, "--dir", scratch, *extra]
    if script:
        cmd += ["--script", script]
    try:
        p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Crash("driver %s, which takes seconds, had not come back after %d s" % (driver, timeout))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode in (-4, -6, -7, -8, -11):       # abort, stack overflow, segmentation fault ...; not a kill from outside
        raise Crash("driver %s was ended by signal %d: %s" % (driver, -p.returncode, p.stderr[-1500:]))
    if p.returncode != 0:
        raise CheckError("driver %s ended with %d: %s" % (driver, p.returncode, (p.stdout + p.stderr)[-2000:]))
    return p.stdout


def main():
    from checks import CHECKS
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        say("usage: check.py <id> [quick|thorough]; known ids:", *sorted(CHECKS))
        return 2
    global ASPECT
    pid = ASPECT = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(VERIF, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    chk = CHECKS[pid]
    for line in open(KNOWN) if os.path.exists(KNOWN) else []:
        if line.startswith("finding: property=%s " % pid):
            say("KNOWN-FINDING: property=%s %s" % (pid, line.split(" ", 2)[2].strip()))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": {}, "runs": {}}
    violation = None
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build, HARNESS, work, "vh")
            mt = 840 if tier == "thorough" else 400
            fm = {}
            for m in chk.get("models", []):
                if m.get("tier", tier) != tier:
                    continue
                cfg = m["cfg"]
                if tier == "thorough" and "thorough_sub" in m:
                    alt = os.path.join(work, "thorough-" + cfg)
                    src = open(os.path.join(SPECS, cfg)).read()
                    for a, b in m["thorough_sub"]:
                        assert a in src, (cfg, a)
                        src = src.replace(a, b)
                    open(alt, "w").write(src)
                    cfg = alt
                fm[m["module"] + "/" + m["cfg"]] = ex.submit(model_ok, m["module"], cfg, work, mt)
                if tier == "thorough":
                    for sub in m.get("neg", []):
                        fm["negative control %s: %s" % (m["module"], sub[1])] = ex.submit(model_rejected, m["module"], m["cfg"], sub, work, mt)
            fg = {}
            for r in chk["runs"]:
                if "gen" in r:
                    g = r["gen"]
                    fg[r["driver"]] = ex.submit(generate, g["module"], g["cfg"], g["n"][tier == "thorough"], g["depth"], seed, work)
            for k, f in fm.items():
                s = f.result()
                cov["models"][k] = {"states": s[1], "transitions": s[0]}
                if not k.startswith("negative"):
                    cov["states"] += s[1]
                    cov["transitions"] += s[0]
            binary, log = fb.result()
            if binary is None:
                raise CheckError("the driver crate does not build against /repo:\n" + log[-3000:])
            runs = []
            for r in chk["runs"]:
                script = None
                if "gen" in r:
                    beh = fg[r["driver"]].result()
                    script = os.path.join(work, r["driver"] + ".script")
                    with open(script, "w") as f:
                        for b in beh:
                            f.write(r["gen"]["conv"](b) + "\n")
                    cov["runs"].setdefault(r["driver"], {})["behaviours_generated_by_tlc"] = len(beh)
                out = os.path.join(work, r["driver"] + ".ndjson")
                if "pre" in r:
                    v = r["pre"](sys.modules[__name__], dict(work=work, tier=tier, seed=seed, out=out, binary=binary, cov=cov))
                    if v:
                        violation = v
                        break
                if not r.get("external"):
                    drive(binary, r["driver"], out, seed, tier, work, script=script)
                runs.append((r, out))
            for r, out in runs:
                if violation:
                    break
                n, ops, sample = 0, {}, []
                with open(out) as f:
                    for line in f:
                        n += 1
                        for o in re.findall(r'"op":"([^"]*)"', line):
                            ops[o] = ops.get(o, 0) + 1
                        if n in (1, 2) or (n % 997 == 0 and len(sample) < 4):
                            sample.append(line.strip()[:1200])
                if n == 0:
                    raise CheckError("driver %s recorded nothing" % r["driver"])
                missing = [o for o in r.get("need", []) if o not in ops]
                if missing and "panic" not in ops and "hang" not in ops:
                    raise CheckError("driver %s never exercised %s" % (r["driver"], missing))
                st, bad = validate(r["trace"], out, work, 850 if tier == "thorough" else 500)
                d = cov["runs"].setdefault(r["driver"], {})
                d.update({"histories": n, "events": sum(ops.values()), "events_by_kind": ops,
                          "trace_spec": r["trace"], "trace_states": st[1], "trace_transitions": st[0]})
                cov["states"] += st[1]
                cov["transitions"] += st[0]
                cov["traces_validated_against_impl"] += n
                cov["samples"] += sample
                if bad:
                    ci, li, text = bad
                    with open(out) as f:
                        case = next(line for i, line in enumerate(f, 1) if i == ci)
                    case = json.loads(case)
                    violation = {"driver": r["driver"], "trace_spec": r["trace"], "case": case["id"], "event_index": li,
                                 "event": case["ev"][li - 1] if li <= len(case["ev"]) else None,
                                 "cfg": case["cfg"], "history": case["ev"][:li], "tlc": text, "seed": seed, "tier": tier,
                                 "how": "vh %s --seed %d --tier %s --out F; TRACE=F tlc -config Trace.cfg %s.tla" % (r["driver"], seed, tier, r["trace"])}
    except CheckError as e:
        say("check error:", e)
        return 2
    except Crash as e:
        violation = {"driver": "process", "case": 0, "event": str(e), "seed": seed, "tier": tier}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        rp = os.path.join(VERIF, "work", pid, "replay.json")
        with open(rp, "w") as f:
            json.dump(violation, f, indent=1)
        say("rejected:", json.dumps({k: violation[k] for k in ("driver", "case", "event_index", "event", "cfg") if k in violation})[:1500])
        say("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    say("%s %s: held; %d histories of the real code validated, %d states, %.1f s" % (
        pid, tier, cov["traces_validated_against_impl"], cov["states"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:                      # any failure of the machinery itself is exit 2, never 1
        import traceback
        traceback.print_exc()
        sys.exit(2)
