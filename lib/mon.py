"""Monitoring core shared by every check.

A check drives the real code in /repo and reports what it observes to a
``Monitor``: each oracle evaluation is an *event* (counted per oracle), each
workload item is a *case*.  A failed oracle is a violation, unless the
mechanism it is keyed to is listed as an open finding in
/verif/KNOWN_FINDINGS.txt.  The monitor writes the evidence file, the replay
file and decides the exit status:

    0  every oracle that fired held, and every required oracle fired
    1  a violation (line ``VIOLATION property=<id> replay=<path>``)
    3  inconclusive: the harness itself failed, or a required oracle never
       observed anything (never reported as a pass)
"""
import contextlib
import hashlib
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Hang(BaseException):
    pass


class TooMany(BaseException):
    pass


def _json(x, depth=0):
    """Best-effort conversion of a witness into JSON."""
    try:
        import torch

        if isinstance(x, torch.Tensor):
            x = x.detach()
            if x.numel() <= 64:
                return {"tensor": x.tolist(), "dtype": str(x.dtype)}
            return {"shape": list(x.shape), "dtype": str(x.dtype),
                    "head": x.reshape(-1)[:16].tolist()}
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): _json(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_json(v, depth + 1) for v in list(x)[:64]]
    if isinstance(x, (str, int, bool)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, bytes):
        return x[:256].hex()
    if hasattr(x, "item") and getattr(x, "size", 2) == 1:
        return _json(x.item())
    return repr(x)[:500]


def load_findings():
    """key -> (property, description) of the open findings."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Monitor:
    def __init__(self, pid, rule, required=(), level="exploration", budget=None):
        self.pid = pid
        self.rule = rule
        self.required = list(required)
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        h = int(hashlib.sha256(f"{pid}:{self.seed}".encode()).hexdigest()[:12], 16)
        self.rng = random.Random(h)
        self.t0 = time.time()
        self.oracles = {}
        self.cases = 0
        self.keys = set()
        self.trivial = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.findings = load_findings()
        self.extra = {}
        self.assumptions = []
        self.current = None
        # soft time budget for loops: `while m.time_left()`
        self.budget = budget or (25.0 if self.tier == "quick" else 240.0)

    # -- tier helpers ------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough or quick * 6)

    def time_left(self):
        t = time.time() - self.t0
        if t < self.budget:
            return True
        # a slow machine: go on until every required oracle has had something to judge
        return t < min(6 * self.budget, 400) and not all(
            self.oracles.get(o) for o in self.required)

    def seed_torch(self, salt=0):
        import numpy as np
        import torch

        s = self.rng.randrange(2**31) ^ salt
        torch.manual_seed(s)
        np.random.seed(s % 2**32)
        return s

    # -- reporting ---------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        """One workload item; `key` identifies it among distinct ones."""
        self.cases += 1
        self.current = key
        k = key if isinstance(key, (str, int, tuple)) else repr(key)
        if nontrivial:
            new = k not in self.keys
            self.keys.add(k)
            if len(self.samples) < 8 and new:
                self.samples.append(_json(sample if sample is not None else key))
        else:
            self.trivial += 1

    def event(self, oracle, n=1):
        self.oracles[oracle] = self.oracles.get(oracle, 0) + n

    def check(self, cond, oracle, msg="", witness=None, key=None):
        self.event(oracle)
        if bool(cond):
            return True
        self.fail(oracle, msg, witness, key)
        return False

    def fail(self, oracle, msg, witness=None, key=None):
        if key is not None and (self.pid, key) in self.findings:
            self.known[key] = self.known.get(key, 0) + 1
            return
        v = {
            "property": self.pid, "oracle": oracle, "message": str(msg)[:2000],
            "case": _json(self.current), "witness": _json(witness),
            "seed": self.seed, "tier": self.tier,
        }
        self.violations.append(v)
        if len(self.violations) <= 10:
            print(f"  [{self.pid}] {oracle}: {v['message'][:400]} case={v['case']}",
                  flush=True)
        if len(self.violations) >= 25:
            raise TooMany()

    def close(self, a, b, oracle, msg="", rtol=1e-4, atol=1e-5, witness=None, key=None):
        """Elementwise closeness of two tensors/arrays/floats; NaN never close."""
        import torch

        a = torch.as_tensor(a).detach().to(torch.float64)
        b = torch.as_tensor(b).detach().to(torch.float64)
        if a.shape != b.shape:
            return self.check(False, oracle, f"{msg}: shape {tuple(a.shape)} != "
                              f"{tuple(b.shape)}", witness, key)
        if a.numel() == 0:
            self.event(oracle)
            return True
        same = (a == b)
        err = torch.where(same, torch.zeros_like(a), (a - b).abs())
        ok = (same | (err <= atol + rtol * b.abs())).all().item()
        worst = None
        if not ok:
            bad = ~(same | (err <= atol + rtol * b.abs()))
            i = int(bad.reshape(-1).to(torch.int).argmax())
            worst = {"index": i, "got": a.reshape(-1)[i].item(),
                     "expected": b.reshape(-1)[i].item(),
                     "bad": int(bad.sum()), "of": a.numel()}
        return self.check(ok, oracle, f"{msg} {worst if worst else ''}",
                          {"worst": worst, "more": witness}, key)

    def run(self, oracle, fn, *a, **kw):
        """Call code under test on a valid input; an exception is a violation.

        Returns (ok, value).
        """
        self.event(oracle)
        key = kw.pop("_key", None)
        try:
            return True, fn(*a, **kw)
        except Exception as e:
            self.fail(oracle, f"unexpected {type(e).__name__}: {e}",
                      {"traceback": traceback.format_exc()[-2500:]}, key)
            return False, None

    def raises(self, oracle, exc, fn, *a, **kw):
        """The call must raise `exc` (a documented rejection)."""
        self.event(oracle)
        msg = kw.pop("_msg", "")
        key = kw.pop("_key", None)
        try:
            r = fn(*a, **kw)
        except exc:
            return True
        except Exception as e:
            self.fail(oracle, f"{msg}: raised {type(e).__name__}: {e}, "
                      f"expected {exc}", None, key)
            return False
        self.fail(oracle, f"{msg}: accepted, expected {exc}", {"returned": _json(r)}, key)
        return False

    # -- finish ------------------------------------------------------------
    def write_evidence(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.cases,
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "oracle_events": dict(sorted(self.oracles.items())),
                "oracle_evaluations_total": sum(self.oracles.values()),
                "known_finding_hits": self.known,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.pid}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, f"{self.pid}.json"))

    def finish(self):
        self.write_evidence()
        for key, n in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {key}: "
                  f"{self.findings[(self.pid, key)]} (observed {n}x)")
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "command": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} "
                                      f"bash check.sh {self.pid}",
                           "violations": self.violations}, f, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        missing = [o for o in self.required if not self.oracles.get(o)]
        if missing:
            print(f"INCONCLUSIVE property={self.pid}: oracles never fired: {missing}")
            return 3
        print(f"OK property={self.pid} cases={self.cases} distinct={len(self.keys)} "
              f"events={sum(self.oracles.values())} wall={time.time()-self.t0:.1f}s")
        return 0


def in_repo(tb):
    """Does this traceback pass through code of /repo?"""
    root = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root)
               for f in traceback.extract_tb(tb))


def unjudgeable(e):
    """an error of looking at a result, as opposed to one of the machine or the harness"""
    if isinstance(e, (MemoryError, ImportError)) or (
            isinstance(e, OSError) and not isinstance(e, FileNotFoundError)):
        return False
    text = str(e).lower()
    return isinstance(e, (ArithmeticError, AssertionError, AttributeError, EOFError,
                          FileNotFoundError, LookupError, RuntimeError, StopIteration,
                          TypeError, ValueError)) and not any(
        w in text for w in ("memory", "new thread", "no space", "too many open"))


def main(mod):
    warnings.filterwarnings("ignore")
    m = Monitor(mod.PID, mod.RULE, getattr(mod, "REQUIRED", ()),
                getattr(mod, "LEVEL", "exploration"),
                getattr(mod, "BUDGET", None) and mod.BUDGET[
                    1 if os.environ.get("VERIF_TIER") == "thorough" else 0])
    m.assumptions = list(getattr(mod, "ASSUMPTIONS", []))

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(max(5, int(os.environ.get("VERIF_LIMIT") or 600) - 20))
    try:
        mod.run(m)
    except TooMany:
        pass
    except Hang:
        et, ev, tb = sys.exc_info()
        if in_repo(tb):
            m.violations.append({
                "property": m.pid, "oracle": "terminates", "case": _json(m.current),
                "message": "code under test did not return", "seed": m.seed,
                "tier": m.tier, "witness": "".join(traceback.format_tb(tb))[-3000:]})
        elif not m.violations:
            traceback.print_exc()
            m.write_evidence()
            print(f"INCONCLUSIVE property={m.pid}: time limit")
            return 3
    except Exception:
        et, ev, tb = sys.exc_info()
        traceback.print_exc()
        if in_repo(tb):
            m.violations.append({
                "property": m.pid, "oracle": "no-unexpected-exception",
                "case": _json(m.current), "message": f"{et.__name__}: {ev}",
                "seed": m.seed, "tier": m.tier,
                "witness": "".join(traceback.format_tb(tb))[-3000:]})
        elif m.current is not None and unjudgeable(ev):
            # the workload is fixed by the seed and runs through on the tree it was written
            # for, so what the code under test returned or left behind has lost its form
            m.violations.append({
                "property": m.pid, "oracle": "judgeable", "case": _json(m.current),
                "message": f"result could not be judged: {et.__name__}: {ev}",
                "seed": m.seed, "tier": m.tier,
                "witness": "".join(traceback.format_tb(tb))[-3000:]})
        elif not m.violations:
            m.write_evidence()
            print(f"INCONCLUSIVE property={m.pid}: harness error")
            return 3
    finally:
        signal.alarm(0)
    return m.finish()
