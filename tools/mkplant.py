"""Helper to lay down a planted change: old/new text replaced in a file of the repository at HEAD."""
import difflib, json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(pid, prop, edits, needs, breaks, main):
    d = os.path.join(V, "seeded", pid); os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for path, old, new, *nth in edits:
        s = files.setdefault(path, open("/repo/" + path).read())
        n = s.count(old)
        if nth:
            k = -1
            for _ in range(nth[0]): k = s.index(old, k + 1)
            files[path] = s[:k] + new + s[k + len(old):]
        else:
            assert n == 1, (pid, path, n)
            files[path] = s.replace(old, new)
    for path, s in files.items():
        a = open("/repo/" + path).read().splitlines(keepends=True)
        diff += "diff --git a/%s b/%s\n" % (path, path) + "".join(difflib.unified_diff(a, s.splitlines(keepends=True), "a/" + path, "b/" + path))
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    open(d + "/main.rs", "w").write(main)
    shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh"); shutil.copy(V + "/harness/Cargo.lock", d + "/Cargo.lock.in")
