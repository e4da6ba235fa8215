"""Author-side tool: plants bugs in a scratch copy and keeps the confirmed ones.

usage: plant.py FILE [id ...]     FILE defines SEEDS = [dict(id, prop, edits=[(file, old,
new)], demo, needs, what)]; the demo is Python source run with cwd = the tree.
Confirms: demo passes on /repo, fails with the patch, stable tests pass with it; then
runs the property's check against the scratch tree and reports whether it is caught.
"""
import json
import os
import runpy
import subprocess
import sys
import shutil

MUT = os.environ.get("MUT", "/tmp/mut")
OUT = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it is broken. Run with cwd = the tree.
. /opt/vp/env.sh
exec python -W ignore "$(dirname "$0")/demo.py"
"""
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd=None, env=None, timeout=1500):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, capture_output=True,
                          text=True, timeout=timeout)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    notest = os.environ.get("NOTEST")
    if not os.path.exists(MUT):
        sh(f"cp -a /repo {MUT}")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in seeds:
        if want and s["id"] not in want:
            continue
        sh(f"git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=MUT)
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(MUT, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MISMATCH", f, t.count(old))
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        d = os.path.join("/tmp/seedtmp", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
        if s.get("libs"):   # stand-ins for packages that are not installed
            os.makedirs(d + "/lib")
            for n in s["libs"]:
                shutil.copy(f"/verif/lib/{n}.py", f"{d}/lib/{n}.py")
            open(d + "/lib/__init__.py", "w").close()
            open(d + "/lib/mon.py", "w").write("import os\n\nREPO = os.getcwd()\n")
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=MUT).stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", cwd="/repo")
        b = sh(f"bash {d}/demo.sh", cwd=MUT)
        msg = f"{s['id']}: demo clean={a.returncode} patched={b.returncode}"
        if a.returncode != 0 or b.returncode == 0:
            print(msg, "DEMO BAD", a.stderr[-600:], b.stderr[-300:], flush=True)
            continue
        last = (b.stderr.strip().splitlines() or ["?"])[-1]
        if not notest:
            t = sh(". /opt/vp/env.sh; python -m pytest -q -p no:cacheprovider --timeout=300 "
                   "-n 8 --continue-on-collection-errors "
                   "--ignore=tests/loss_fn/test_mse_lpips_loss.py -o junit_family=xunit2 "
                   f"--junitxml=/tmp/seedtmp/{s['id']}.xml tests projects/torch_vct/tests; "
                   f"python /opt/vp/results.py /tmp/seedtmp/{s['id']}.json "
                   f"junit:/tmp/seedtmp/{s['id']}.xml", cwd=MUT)
            res = json.load(open(f"/tmp/seedtmp/{s['id']}.json"))
            passed = set(res.get("passed") or [k for k, v in res.items() if v == "passed"])
            broken = stable - passed
            msg += f" tests_broken={len(broken)}"
            if broken:
                print(msg, "TESTS BREAK", sorted(broken)[:3], flush=True)
                continue
        shutil.rmtree(os.path.join(OUT, s["id"]), ignore_errors=True)
        shutil.copytree(d, os.path.join(OUT, s["id"]))
        env = dict(os.environ, VERIF_REPO=MUT, VERIF_SEED="1", VERIF_TIER="quick")
        c = sh(f"bash /verif/check.sh {s['prop']}", env=env)
        caught = c.returncode == 1 and f"VIOLATION property={s['prop']}" in c.stdout
        print(msg, "KEPT", "CAUGHT" if caught else f"*** MISSED rc={c.returncode}",
              "| demo:", last[:100], "| check:", c.stdout.strip().splitlines()[:1], flush=True)
    sh("git checkout -q -- .", cwd=MUT)


main()
