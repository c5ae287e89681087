"""Every line a planted change removes or edits must be a line of the original repository; prints those that are not."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE).stdout.decode().split()[0]
for i in sorted(os.listdir(S)):
    f = None; old = set(); n = 0
    for l in open(S + "/%s/patch.diff" % i, errors="replace"):
        if l.startswith("--- a/"):
            f = l[6:].strip(); old = set(subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], stdout=subprocess.PIPE).stdout.decode().split("\n"))
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:].rstrip("\n") not in old: print(i, f, "NOT ORIGINAL:", l.strip())
    if n == 0: print(i, "adds lines only")
