"""Lists seeded patches none of whose removed lines are in the base commit (they would not count)."""
import subprocess, glob, os
BASE = "0d25e62"
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None
    hit = tot = 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---"):
            tot += 1
            hit += l[1:].rstrip("\n") in base
    if hit < tot:
        print(os.path.basename(d), f"{hit}/{tot} removed lines are original")
