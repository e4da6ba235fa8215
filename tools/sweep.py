"""Author-side tool: runs each planted bug's check against it in a scratch copy.

usage: sweep.py [id ...]; writes tools/sweep.json {bug: "caught by <oracle>" | "missed"}.
"""
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
OUT = os.path.join(here, "sweep.json")


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **kw)


def one(b):
    d = f"/tmp/sweep/{b}"
    sh(f"mkdir -p /tmp/sweep && rm -rf {d} && git clone -q /repo {d}")
    r = sh(f"git apply {root}/seeded/{b}/patch.diff", cwd=d)
    if r.returncode:
        sh(f"rm -rf {d}")
        return b, "patch does not apply"
    pid = json.load(open(f"{root}/seeded/{b}/meta.json"))["property"]
    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
               VERIF_TIER="quick", VERIF_EVIDENCE=f"/tmp/sweep/ev-{b}")
    c = sh(f"bash {root}/check.sh {pid}", env=env)
    sh(f"rm -rf {d}")
    if c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout:
        m = re.findall(rf"\[{pid}\] ([\w-]+):", c.stdout)
        return b, "caught by " + (m[0] if m else "?")
    return b, f"missed (exit {c.returncode})"


def main():
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    all_ = sorted(os.listdir(f"{root}/seeded"))
    res = {k: v for k, v in res.items() if k in all_}
    want = sys.argv[1:] or all_
    with ThreadPoolExecutor(6) as ex:
        for b, v in ex.map(one, want):
            print(b, v, flush=True)
            res[b] = v
    json.dump(dict(sorted(res.items())), open(OUT, "w"), indent=1)


main()
