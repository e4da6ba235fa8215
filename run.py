"""run.py <id>: runs one check in a child process and judges how it ended.

The child reports violations itself.  The parent only covers what a Python monitor cannot
see from inside: a native crash (signal) or a native hang below code of /repo; the stack at
that point comes from faulthandler.
"""
import faulthandler
import importlib
import os
import subprocess
import sys
import tempfile
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, repo)
from lib import mon  # noqa: E402


def child(pid):
    try:
        mod = importlib.import_module("checks." + pid.lower())
    except Exception as e:
        traceback.print_exc()
        gone = isinstance(e, ImportError) and (
            str(e.path or "").startswith(repo)
            or str(e.name or "").startswith("neuralcompression"))
        if not gone and not mon.in_repo(sys.exc_info()[2]):
            return 3
        m = mon.Monitor(pid, "import of the code under test")
        m.case("import")
        m.fail("import", traceback.format_exc()[-1500:])
        return m.finish()
    return mon.main(mod)


def parent(pid):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    limit = int(os.environ.get("VERIF_LIMIT") or (6000 if thorough else 600))
    with tempfile.TemporaryDirectory() as d:
        trace = os.path.join(d, "trace")
        env = dict(os.environ, VERIF_TRACE=trace, VERIF_LIMIT=str(limit))
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), pid],
                             env=env)
        try:
            rc = p.wait(limit + 30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        stack = open(trace).read() if os.path.exists(trace) else ""
    if rc is not None and rc >= 0:
        return rc
    what = "did not return" if rc is None else f"died with signal {-rc}"
    print(stack[-3000:])
    m = mon.Monitor(pid, "the check's process " + what)
    m.case("process")
    if os.path.realpath(repo) + os.sep not in stack and repo + os.sep not in stack:
        m.write_evidence()
        print(f"INCONCLUSIVE property={pid}: the check {what}")
        return 3
    m.fail("process", "code under test " + what, {"stack": stack[-3000:]})
    return m.finish()


if os.environ.get("VERIF_TRACE"):
    f = open(os.environ["VERIF_TRACE"], "w")
    faulthandler.enable(f)
    faulthandler.dump_traceback_later(int(os.environ["VERIF_LIMIT"]) + 10, file=f)
    rc = child(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
sys.exit(parent(sys.argv[1]))
