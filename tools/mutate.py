#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--workers N] [--files a.rs,b.rs] [--every K] [--offset J]
Simple source mutations of the library, each tried in a private copy of /repo and of the
machinery (design models left out), until a check rejects it.  Survivors are read by hand."""
import argparse, json, os, re, shutil, subprocess, sys, queue, threading, time
V = "/verif"
ORDER = {
    "src/iterator.rs": "C01 C02 C03 C04 C10 C30",
    "src/agent_mod/types.rs": "C28 C11 C12 C18 C24 C04 C10",
    "src/agent_mod/mod.rs": "C21 C20 C10",
    "src/agent_mod/cont_passive_indep.rs": "C20 C08 C24 C11 C12 C21 C10 C18 C17",
    "src/agent_mod/cont_passive_merge.rs": "C04 C20 C08 C24 C11 C12 C21 C10 C18 C17",
    "src/agent_mod/cont_passive_exp.rs": "C25 C20 C08 C24 C11 C12 C21 C10 C18 C17",
    "src/agent_mod/cont_passive_lj.rs": "C25 C20 C08 C24 C11 C12 C21 C10 C18 C17",
    "src/target_mod/mod.rs": "C09 C11 C12 C24 C10",
    "src/target_mod/cont_bulk.rs": "C09 C08 C11 C12 C24 C10 C17",
    "src/random_mod/mod.rs": "C19 C26 C20 C08",
    "src/error.rs": "C33 C32 C12 C17",
    "src/system_mod/mod.rs": "C28 C07 C08 C11 C12 C22 C09",
    "src/setup.rs": "C11 C12 C17 C18 C24 C13 C29 C32",
    "src/system_mod/cont_circ.rs": "C27 C07 C08 C09 C22 C11 C12 C24 C17",
    "src/system_mod/cont_cyl.rs": "C07 C08 C09 C22 C11 C12 C24 C17",
    "src/system_mod/cont_cubic.rs": "C07 C08 C09 C22 C11 C12 C24 C17",
    "src/macros.rs": "C28 C17 C18 C11 C12 C13 C24",
    "src/argument.rs": "C12 C11 C29 C17 C18 C13 C16",
    "moledyn_proc/src/lib.rs": "C17 C18 C29 C11 C12 C13 C24",
    "src/time_mod/mod.rs": "C28 C05 C06 C22 C11 C12 C24 C10 C17",
    "src/position.rs": "C30 C23 C28 C21 C19 C11 C07 C12 C08",
    "src/analysis.rs": "C31 C32 C14 C15 C13 C16 C28 C17 C18",
}
REL = [("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"),
       ("+=", "-="), ("-=", "+="), ("*=", "/="), ("+", "-"), ("-", "+"), ("*", "/"), ("/", "*")]

def strip_strings(line):
    """positions that are inside string literals or comments"""
    bad, i, s = set(), 0, False
    while i < len(line):
        ch = line[i]
        if s:
            bad.add(i)
            if ch == "\\": bad.add(i + 1); i += 1
            elif ch == '"': s = False
        elif ch == '"': s = True; bad.add(i)
        elif line.startswith("//", i): bad.update(range(i, len(line))); break
        i += 1
    return bad

def mutants(path):
    lines = open("/repo/" + path).read().split("\n")
    out, depth_attr = [], False
    for n, line in enumerate(lines):
        st = line.strip()
        if st.startswith("#[cfg(test)]") or st.startswith("mod test"): break
        if not st or st.startswith(("//", "use ", "pub use", "#[", "#!", "impl", "pub trait", "pub struct", "pub enum", "extern")): continue
        bad = strip_strings(line)
        def rep(i, j, new, what): out.append((n, line[:i] + new + line[j:], what))
        for a, b in REL:
            for m in re.finditer(re.escape(" " + a + " "), line):
                if m.start() + 1 in bad: continue
                if a in "<>" and ("fn " in line or "->" in line): continue
                if a == "*" and False: continue
                rep(m.start(), m.end(), " " + b + " ", "%s->%s" % (a, b))
        for m in re.finditer(r"(?<![\w.])(\d+)(f64|usize|u32)?(?![\w.]|\.\.)", line):
            if m.start() in bad or "TypeError" in line: continue
            v = int(m.group(1))
            for nv in {0: (1,), 1: (0, 2), 2: (1, 3)}.get(v, (v + 1,)):
                rep(m.start(), m.end(), str(nv) + (m.group(2) or ""), "%s->%s" % (m.group(0), nv))
        for m in re.finditer(r"(?<![\w])(\d+\.\d+)(f64)?", line):
            if m.start() in bad: continue
            v = float(m.group(1)); rep(m.start(), m.end(), "%s" % (v * 1.1 if v else 0.1) + (m.group(2) or ""), "%s*1.1" % m.group(0))
        if re.match(r"(if|\} else if|while) ", st) and " let " not in line and st.endswith("{"):
            m = re.search(r"(if|while) (.*) \{$", line)
            if m and m.start(2) not in bad:
                rep(m.start(2), m.end(2), "!(" + m.group(2) + ")", "negated")
        if st.endswith(";") and not st.startswith(("let ", "return ", "pub ", "type ", "const ", "fn ", "static ")) and st.count("(") == st.count(")") and "{" not in st:
            out.append((n, "", "deleted"))
        if st in ("return Ok(());",): out.append((n, "", "deleted"))
        for a, b in (("sin()", "cos()"), ("sqrt()", "abs()"), ("true", "false"), ("false", "true"), (".next", ".prev"), (".prev", ".next"), ("Some(", None), ("continue", "break"), (".min(", ".max("), (".max(", ".min("), ("floor()", "ceil()"), ("is_none()", "is_some()"), ("is_some()", "is_none()"), ("is_ok()", "is_err()"), ("is_err()", "is_ok()"), ("self", None)):
            if b is None: continue
            for m in re.finditer(r"(?<!\w)" + re.escape(a) if a[0] != "." else re.escape(a) + r"(?!\w)", line):
                if m.start() in bad or (a in ("true", "false") and re.match(r"\w", line[m.end():m.end()+1] or " ")): continue
                rep(m.start(), m.end(), b, "%s->%s" % (a, b))
    seen, res = set(), []
    for n, new, w in out:
        if (n, new) not in seen:
            seen.add((n, new)); res.append(dict(file=path, line=n + 1, old=lines[n].strip(), new=new.strip(), what=w, text=new))
    return res

def setup(w):
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/verif")
    subprocess.run("git -C /repo archive HEAD --prefix=repo/ | tar x -C " + w, shell=True, check=True)
    if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", w + "/repo/Cargo.lock")
    for d in ("harness", "macros"):
        shutil.copytree(V + "/" + d, w + "/verif/" + d, symlinks=True)
        p = w + "/verif/" + d + "/Cargo.toml"; s = open(p).read().replace('"/repo"', '"%s/repo"' % w); open(p, "w").write(s)
    shutil.copytree(V + "/specs", w + "/verif/specs")
    for f in ("check.py", "checks.py", "known_findings.txt"): shutil.copy(V + "/" + f, w + "/verif/" + f)
    s = open(w + "/verif/checks.py").read() + "\nfor _c in CHECKS.values(): _c['models'] = []\n"
    open(w + "/verif/checks.py", "w").write(s)

def run(w, ids):
    for p in ids:
        try:
            r = subprocess.run(["python3", "check.py", p, "quick"], cwd=w + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            return p, "timeout", ""
        if r.returncode == 1: return p, "killed", r.stdout[-700:]
        if r.returncode != 0:
            t = r.stdout
            if "does not build" in t or "do not build" in t: return p, "nobuild", t[-300:]
            return p, "error", t[-1500:]
    return None, "SURVIVED", ""

def main():
    a = argparse.ArgumentParser(); a.add_argument("out"); a.add_argument("--workers", type=int, default=4); a.add_argument("--files"); a.add_argument("--every", type=int, default=1)
    a.add_argument("--offset", type=int, default=0); a.add_argument("--root", default="/tmp/mut"); a.add_argument("--list", action="store_true"); a.add_argument("--todo"); a.add_argument("--checks")
    a = a.parse_args()
    files = a.files.split(",") if a.files else list(ORDER)
    todo = []
    if a.todo: todo = [json.loads(l) for l in open(a.todo)]
    else:
        for f in files: todo += mutants(f)
        import random; random.Random(7).shuffle(todo)
        todo = todo[a.offset::a.every]
    from collections import Counter
    done, rest = Counter(), []                      # lines move; the same text may be there several times
    if os.path.exists(a.out) and not a.todo:
        for l in open(a.out):
            d = json.loads(l); done[(d["file"], d["old"], d["new"])] += 1
    for m in todo:
        k = (m["file"], m["old"], m["new"])
        if done[k] > 0: done[k] -= 1
        else: rest.append(m)
    todo = rest
    print(len(todo), "mutants", flush=True)
    if a.list:
        from collections import Counter
        print(Counter(m["file"] for m in todo)); return
    q = queue.Queue()
    for m in todo: q.put(m)
    lock = threading.Lock(); f = open(a.out, "a")
    def work(i):
        w = "%s/w%d" % (a.root, i); setup(w)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = w + "/repo/" + m["file"]; src = open(p).read(); L = src.split("\n")
            if m["old"] != L[m["line"] - 1].strip(): continue
            L[m["line"] - 1] = m["text"]; open(p, "w").write("\n".join(L))
            t = time.time()
            # does it compile at all
            c = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=w + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, CARGO_INCREMENTAL="0"))
            if c.returncode: r = (None, "nobuild", "")
            else: r = run(w, a.checks.split() if a.checks else ORDER[m["file"]].split())
            open(p, "w").write(src)
            m2 = dict(m, by=r[0], result=r[1], info=r[2] if r[1] not in ("killed",) else r[2][-250:], s=round(time.time() - t))
            with lock: f.write(json.dumps(m2) + "\n"); f.flush()
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
