"""Author-side tool: small mutations of the source, each judged by the checks of its file.

usage: mutate.py OUT.jsonl WORKERS PER_FILE SEED [file-substring ...]
Every worker has its own copy of /repo and of /verif under /tmp/mw<i>.  A survivor (no check
whose property names the file objects) is either equivalent or a gap to be looked at by hand.
"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*",
       ast.Mod: "+", ast.MatMult: "*"}


def sites(src):
    """(line, description, start, end, replacement) over character offsets"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    base = [0]
    for x in lines:
        base.append(base[-1] + len(x.encode()))
    raw = src.encode()

    def span(n):
        return base[n.lineno - 1] + n.col_offset, base[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    docs, skip = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(ast.walk(a))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(
                n.test.left, ast.Name) and n.test.left.id == "__name__":
            skip.update(ast.walk(n))
    out = []

    def add(n, what, new, where=None):
        a, b = where or span(n)
        out.append((n.lineno, what, a, b, new))
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "compare", f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, "binop", f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})")
            if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv)):
                add(n, "swap operands",
                    f"({text(n.right)} {text_op(n.op)} {text(n.left)})")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "boolop", "(" + j.join(f"({text(v)})" for v in n.values) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "drop unary", f"({text(n.operand)})")
        elif isinstance(n, ast.Constant) and n in getattr(n, "_", (n,)):
            if n.value is True or n.value is False:
                add(n, "flip", str(not n.value))
            elif isinstance(n.value, int):
                add(n, "int+1", str(n.value + 1))
                if n.value > 1:
                    add(n, "int-1", str(n.value - 1))
            elif isinstance(n.value, float):
                add(n, "float*1.5", repr(n.value * 1.5 if n.value else 0.5))
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "negate", f"(not ({text(n.test)}))")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = span(k)
                    while raw[b:b + 1] in (b",", b" ", b"\n"):
                        b += 1
                        if raw[b - 1:b] == b",":
                            break
                    add(k.value, f"drop {k.arg}=", "", (a, b))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                add(n, "swap args", f"{text(a1)}, {text(a0)}", (span(a0)[0], span(a1)[1]))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "drop statement", "pass")
        elif isinstance(n, ast.AugAssign):
            add(n, "drop augassign", "pass")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and any(
                    isinstance(x, ast.Name) and x.id == n.targets[0].id for x in
                    ast.walk(n.value)):
            add(n, "drop reassignment", "pass")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(
                n.value.elts) >= 2:
            e = n.value.elts
            add(n, "swap returned", f"{text(e[1])}, {text(e[0])}", (span(e[0])[0], span(e[1])[1]))
    return out


PAIR = {"max": "min", "min": "max", "amax": "amin", "amin": "amax", "ceil": "floor",
        "floor": "ceil", "round": "floor", "zeros": "ones", "ones": "zeros",
        "zeros_like": "ones_like", "ones_like": "zeros_like", "argmax": "argmin",
        "argmin": "argmax", "log2": "log", "log": "log2", "sum": "mean", "mean": "sum",
        "any": "all", "all": "any", "relu": "abs", "append": "extend", "exp": "expm1"}
CHAIN = {"clone", "detach", "contiguous", "clamp", "round", "to", "float", "double", "cpu", "abs",
         "square", "item", "sort", "flip", "copy", "squeeze", "unsqueeze", "flatten", "astype",
         "sqrt", "exp", "neg", "transpose", "permute", "byte", "eval", "long", "int", "strip",
         "expand", "resolve", "absolute", "lower", "relu", "type_as", "mul", "clip", "cumsum"}
WRAP = {"sorted", "list", "abs", "round", "reversed", "set", "deepcopy", "tuple", "len", "int",
        "float", "detach"}


def sites2(src):
    """a second set: dropped links of call chains, exchanged functions, narrowed conditions,
    shifted slices, dropped rejections, guards and stores"""
    tree = ast.parse(src)
    base = [0]
    for x in src.splitlines(keepends=True):
        base.append(base[-1] + len(x.encode()))
    raw = src.encode()

    def span(n):
        return base[n.lineno - 1] + n.col_offset, base[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    skip = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(ast.walk(a))
        if isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
    out = []

    def add(n, what, new, where=None):
        a, b = where or span(n)
        out.append((n.lineno, what, a, b, new))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in CHAIN and not isinstance(f.value, ast.Call) or \
                        f.attr in CHAIN and ast.unparse(f.value) != "super()":
                    if not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "np", "F",
                                                                             "jnp")):
                        add(n, f"drop .{f.attr}()", text(f.value))
                if f.attr in PAIR:
                    new = "torch.abs" if text(f) == "F.relu" else text(f.value) + "." + PAIR[f.attr]
                    add(f, f"{f.attr}->{PAIR[f.attr]}", new)
            elif isinstance(f, ast.Name):
                if f.id in WRAP and len(n.args) == 1 and not n.keywords:
                    add(n, f"drop {f.id}()", "(" + text(n.args[0]) + ")")
                if f.id in PAIR:
                    add(f, f"{f.id}->{PAIR[f.id]}", PAIR[f.id])
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for k, v in enumerate(n.values) if k != i]
                j = " and " if isinstance(n.op, ast.And) else " or "
                add(n, f"drop condition {i}", "(" + j.join(f"({x})" for x in rest) + ")")
        elif isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                v = getattr(n, part)
                if v is not None:
                    add(v, f"slice {part}+1", f"({text(v)}) + 1")
                    add(v, f"slice {part}-1", f"({text(v)}) - 1")
        elif isinstance(n, ast.Raise):
            add(n, "drop raise", "pass")
        elif isinstance(n, ast.Assert):
            add(n, "drop assert", "pass")
        elif isinstance(n, ast.If) and not n.orelse and not any(
                isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test)):
            add(n.test, "if False", "False")
            add(n.test, "if True", "True")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "drop store", "pass")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "drop " + type(n).__name__.lower(), "pass")
        elif isinstance(n, ast.Call) is False and isinstance(n, ast.For) and isinstance(
                n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                n.iter.func.id == "range":
            a = n.iter.args[-1 if len(n.iter.args) < 3 else 1]
            add(a, "range-1", f"({text(a)}) - 1")
    return out


def text_op(op):
    return {ast.Sub: "-", ast.Div: "/", ast.FloorDiv: "//"}[type(op)]


def work(job):
    f, (line, what, a, b, new), pids = job
    i = mp.current_process()._identity[0]
    w = f"/tmp/mw{i}"
    repo, ver = w + "/repo", w + "/verif"
    p = os.path.join(repo, f)
    src = open(p, "rb").read()
    bad = src[:a] + new.encode() + src[b:]
    try:
        ast.parse(bad.decode())
    except SyntaxError:
        return None
    row = dict(file=f, line=line, what=what, old=src[a:b].decode()[:200], new=new[:200])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick",
               OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_LIMIT="200",
               PYTHONDONTWRITEBYTECODE="1")
    open(p, "wb").write(bad)
    row["checks"] = {}
    t = time.time()
    try:
        for pid in pids:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "run.py", pid.lower()],
                               cwd=ver, env=env, capture_output=True, text=True, timeout=600)
            tail = [x for x in (r.stdout + r.stderr).splitlines() if x.strip()]
            row["checks"][pid] = r.returncode
            row["first"] = next((x[:200] for x in tail if f"[{pid}]" in x), tail[-1][:200]
                                if tail else "")
            if r.returncode == 1:
                break
    except subprocess.TimeoutExpired:
        row["checks"][pid] = "timeout"
    finally:
        open(p, "wb").write(src)
    row["caught"] = 1 in row["checks"].values()
    row["s"] = round(time.time() - t, 1)
    return row


def setup():
    i = mp.current_process()._identity[0]
    w = f"/tmp/mw{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"])
    subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", "--exclude",
                    "evidence", "/verif/", w + "/verif/"]) if shutil.which("rsync") else \
        subprocess.run(f"mkdir {w}/verif; cd /verif; tar cf - --exclude=./seeded --exclude=./.git "
                       f"--exclude=./evidence . | tar xf - -C {w}/verif", shell=True)
    os.makedirs(w + "/verif/evidence", exist_ok=True)


def main():
    out, workers, per, seed, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(
        sys.argv[4]), sys.argv[5:]
    rng = random.Random(seed)
    by = {}
    for x in open("/verif/properties.jsonl"):
        d = json.loads(x)
        for f in files(d):
            by.setdefault(f, []).append(d["id"])
    jobs = []
    for f, pids in sorted(by.items()):
        if not f.endswith(".py") or (only and not any(o in f or o in pids for o in only)):
            continue
        gen = sites2 if os.environ.get("SET") == "2" else sites
        s = gen(open(os.path.join("/repo", f)).read())
        rng.shuffle(s)
        jobs += [(f, x, pids) for x in s[:per]]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with mp.Pool(workers, initializer=setup) as pool, open(out, "a") as o:
        for n, row in enumerate(pool.imap_unordered(work, jobs)):
            if row:
                o.write(json.dumps(row) + "\n")
                o.flush()
    for i in range(workers + 2):
        shutil.rmtree(f"/tmp/mw{i}", ignore_errors=True)


def files(d):
    t = json.dumps(d)
    import re
    return sorted(set(re.findall(r'"((?:neuralcompression|projects|hubconf)[\w/.\-]*\.py)', t)))


if __name__ == "__main__":
    main()
