"""Author-side tool: behaviour-preserving rewrites of all source files of a copy of /repo.

usage: benign.py TREE KIND...   kinds: locals returns invert impl flip temps private
Checks run on the rewritten tree have to stay quiet.
"""
import ast
import os
import sys


def names_of(fn):
    """local names that can be renamed safely: assigned in fn only, not parameters, globals,
    or names used by nested functions and classes"""
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            params.add(a.arg)
    inner, assigned, bad = set(), set(), set()

    def walk(n, depth):
        for c in ast.iter_child_nodes(n):
            nested = isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef))
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                bad.update(c.names)
            if isinstance(c, ast.Name):
                (inner if depth else assigned if isinstance(c.ctx, ast.Store) else set()).add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                bad.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                bad.update(a.asname or a.name for a in c.names)
            if nested and hasattr(c, "name"):
                bad.add(c.name)
            walk(c, depth + nested)
    for s in fn.body:
        walk(ast.Module([s], []), 0)
    return assigned - params - inner - bad


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        ren = {x: x + "_value" for x in names_of(n)}

        class R(ast.NodeTransformer):
            def visit_Name(self, c):
                c.id = ren.get(c.id, c.id)
                return c
        n.body = [R().visit(s) for s in n.body]
        return n


class Returns(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("outcome_", ast.Store())], n.value),
                ast.Return(ast.Name("outcome_", ast.Load()))]


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
         ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [self.M[type(n.ops[0])]()]
        return n


class Temps(ast.NodeTransformer):
    """x = f(a, b) -> args first into temporaries; calls inside expressions are left alone"""
    k = 0

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and not any(
                isinstance(a, ast.Starred) for a in n.value.args) and \
                not (isinstance(n.value.func, ast.Name) and n.value.func.id in ("TypeVar", "super")):
            pre = []
            if not isinstance(n.value.func, (ast.Name, ast.Attribute)):
                return n
            for i, a in enumerate(n.value.args):
                if isinstance(a, (ast.Call, ast.BinOp)):
                    Temps.k += 1
                    t = f"tmp_{Temps.k}"
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    n.value.args[i] = ast.Name(t, ast.Load())
            return pre + [n]
        return n


class Impl(ast.NodeTransformer):
    """def f(self, a, *, b=1): body  ->  f forwards to _f_body"""
    def visit_ClassDef(self, n):
        bases = [ast.unparse(b) for b in n.bases]
        if any(x in b for b in bases for x in ("NamedTuple", "Protocol", "Enum", "Function",
                                               "TypedDict")):
            return n
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and \
                    s.args.args[0].arg == "self" and not s.args.posonlyargs and \
                    not (s.name.startswith("__") and s.name not in ("__init__", "__call__",
                                                                    "__getitem__", "__len__")):
                a = s.args
                call = [ast.Name(x.arg, ast.Load()) for x in a.args[1:]]
                if a.vararg:
                    call.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
                if a.kwarg:
                    kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                nm = "_" + s.name.strip("_") + "_of_" + n.name.strip("_")
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(
                    s.body[0].value, ast.Constant) else []
                body = s.body[len(doc):]
                if not body:
                    out.append(s)
                    continue
                c = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), call, kws)
                import copy
                a2 = copy.deepcopy(a)
                a2.defaults = []
                a2.kw_defaults = [None] * len(a2.kwonlyargs)
                out.append(ast.FunctionDef(s.name, a, doc + [ast.Return(c)], [], s.returns))
                out.append(ast.FunctionDef(nm, a2, body, [], s.returns))
            else:
                out.append(s)
        n.body = out
        return n


class Assoc(ast.NodeTransformer):
    """another order of floating-point operations"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        for op in (ast.Add, ast.Mult):
            if isinstance(n.op, op) and isinstance(n.left, ast.BinOp) and \
                    isinstance(n.left.op, op):
                return ast.BinOp(n.left.left, op(), ast.BinOp(n.left.right, op(), n.right))
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and \
                isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class Loops(ast.NodeTransformer):
    """comprehensions become loops, for loops over sequences become while loops where simple"""
    k = 0

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and \
                isinstance(n.targets[0], ast.Name) and not n.value.generators[0].is_async:
            g = n.value.generators[0]
            Loops.k += 1
            t = f"items_{Loops.k}"
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()),
                                      [n.value.elt], []))]
            for c in g.ifs[::-1]:
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, body, []),
                    ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and not n.orelse and \
                isinstance(n.target, ast.Tuple):
            n.iter = ast.Call(ast.Name("zip", ast.Load()), [
                ast.Call(ast.Attribute(ast.Call(ast.Name("__import__", ast.Load()),
                                                [ast.Constant("itertools")], []), "count",
                                       ast.Load()), [], []), n.iter.args[0]], n.iter.keywords)
        return n


KINDS = dict(assoc=Assoc, loops=Loops, locals=Locals, returns=Returns, invert=Invert, flip=Flip, temps=Temps, impl=Impl)


def attrs(tree):
    """renames private attributes holding plain values (arguments, numbers)"""
    import re
    src, other = {}, ""
    for base, dirs, fs in os.walk(tree):
        dirs[:] = [d for d in dirs if d not in (".git", "build")]
        for f in fs:
            p = os.path.join(base, f)
            if f.endswith(".py"):
                t = open(p).read()
                if "tests" in p[len(tree):].split(os.sep) or f.startswith("test_"):
                    other += t
                else:
                    src[p] = t
    good, bad = set(), set()
    for t in src.values():
        for n in ast.walk(ast.parse(t)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bad.add(n.name)
            if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("register_buffer"):
                bad.add(ast.literal_eval(n.args[0]) if isinstance(n.args[0], ast.Constant) else "")
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("setattr", "getattr", "hasattr"):
                bad.update(x.value for x in n.args if isinstance(x, ast.Constant))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and \
                    isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" \
                    and re.match(r"_[a-z]", n.targets[0].attr):
                v = n.value
                ok = isinstance(v, (ast.Constant, ast.Name, ast.BinOp, ast.IfExp, ast.List,
                                    ast.Dict, ast.Tuple, ast.Compare))
                (good if ok else bad).add(n.targets[0].attr)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
    names = {n for n in good - bad if not re.search(rf"\\b{n}\\b", other)}
    names -= {"_model", "_log", "_offset", "_quantized_cdf", "_cdf_length", "_metadata", "_modules", "_buffers", "_parameters"}
    for p, t in src.items():
        for n in names:
            t = re.sub(rf"\.{n}\b", f".{n}_renamed", t)
        open(p, "w").write(t)
    print("attributes", sorted(names))


def private(tree):
    """renames private functions, classes and methods that no test mentions"""
    import re
    src, tests = {}, ""
    for base, dirs, fs in os.walk(tree):
        dirs[:] = [d for d in dirs if d not in (".git", "build")]
        for f in fs:
            p = os.path.join(base, f)
            if f.endswith(".py"):
                if "tests" in p[len(tree):].split(os.sep) or f.startswith("test_"):
                    tests += open(p).read()
                elif f not in ("setup.py", "conftest.py"):
                    src[p] = open(p).read()
    keep = {"_load_from_state_dict", "_save_to_state_dict", "_resize_registered_buffers", "_apply",
            "_shared_step", "_standardized_cumulative", "_standardized_quantile", "_likelihood",
            "_get_closed_form_lr", "_load_and_sync_parameters", "_load_ema_parameters",
            "_update_registered_buffers", "_find_named_buffer",
            "_resize_registered_buffer", "_call_impl", "_replicate_for_data_parallel"}
    names = set()
    for t in src.values():
        for n in ast.walk(ast.parse(t)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and re.match(r"_[a-zA-Z]", n.name):
                names.add(n.name)
    mods = {os.path.basename(p)[:-3] for p in src}
    names = {n for n in names if not re.search(rf"\b{n}\b", tests)} - keep - mods
    attrs = {n for t in src.values() for n in re.findall(r"self\.(_\w+)\s*=", t)}
    names -= attrs
    for p, t in src.items():
        for n in names:
            t = re.sub(rf"(?<![\w\"'/]){n}\b", n + "_renamed", t)
        open(p, "w").write(t)
    print("renamed", sorted(names))


def main():
    tree, kinds = sys.argv[1], sys.argv[2:]
    if "private" in kinds:
        private(tree)
        kinds.remove("private")
    if "attrs" in kinds:
        attrs(tree)
        kinds.remove("attrs")
    n = 0
    for base, dirs, fs in os.walk(tree):
        dirs[:] = [d for d in dirs if d not in ("tests", ".git", "build")]
        for f in fs:
            if not f.endswith(".py") or f in ("setup.py", "conftest.py"):
                continue
            p = os.path.join(base, f)
            t = ast.parse(open(p).read())
            for k in kinds:
                t = KINDS[k]().visit(t)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")
            n += 1
    print(n, "files rewritten:", kinds)


main()
