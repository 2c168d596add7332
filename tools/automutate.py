#!/usr/bin/env python3
"""Systematic mutation of the repository.

automutate.py OUTDIR FILE...    writes OUTDIR/<file>.jsonl: every mutant of the file (operators, constants,
conditions, statements, calls) that still passes the tests of that
file (all stable tests if FULL is set), with the changed line; tools/mutate.py runs checks on them.
"""
import ast
import warnings
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

warnings.simplefilter("ignore")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!=", ">="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
          ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["+"], ast.Pow: ["*"], ast.MatMult: []}
SWAP = {"sin": "cos", "cos": "sin", "argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min", "floor": "ceil", "ceil": "floor",
        "any": "all", "all": "any", "arcsin": "arctan", "arccos": "arcsin", "minimum": "maximum", "maximum": "minimum", "append": "insert",
        "trunc": "round", "round": "trunc", "add": "subtract", "where": "where"}
DROP = {"copy", "deepcopy", "abs", "floor", "array", "asarray", "sorted", "clip", "ceil", "sqrt", "int", "float", "list", "round", "atleast_1d"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno, ".".join(stack)))

    stack = []

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stack.append(n.name)
            if n.name in ("__repr__",) and False:
                stack.pop()
                return
            for d in getattr(n, "args", ast.arguments(defaults=[], kw_defaults=[])).defaults if isinstance(n, ast.FunctionDef) else []:
                walk(d)
            for i, c in enumerate(n.body):
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                    continue
                walk(c)
            stack.pop()
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for new in CMP.get(type(n.ops[0]), []):
                rep(n, "(%s %s %s)" % (txt(l), new, txt(r)), "cmp")
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                rep(n, "(%s %s %s)" % (txt(n.left), new, txt(n.right)), "bin")
            rep(n, "(%s)" % txt(n.left), "left")
            if isinstance(n.op, (ast.Add, ast.Mult)):
                rep(n, "(%s)" % txt(n.right), "right")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join("(%s)" % txt(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rep(n, "(%s)" % txt(n.values[i]), "one")
        if isinstance(n, ast.UnaryOp):
            rep(n, "(%s)" % txt(n.operand), "unary")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                rep(n, "(%d)" % (v - 1), "const")
            elif isinstance(v, float):
                rep(n, repr(v * 1.0001 if v else 1e-4), "const")
        if isinstance(n, ast.If):
            rep(n.test, "True", "if")
            rep(n.test, "False", "if")
        if isinstance(n, ast.IfExp):
            rep(n.test, "True", "if")
            rep(n.test, "False", "if")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue, ast.Raise)):
            rep(n, "pass", "del")
        if isinstance(n, ast.Break):
            rep(n, "continue", "brk")
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if o:
                rep(n, "%s %s %s" % (txt(n.target), o, txt(n.value)), "aug")
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name in SWAP and SWAP[name] != name:
                pre = txt(f)[:-len(name)]
                rep(f, pre + SWAP[name], "call")
            if name in DROP:
                if n.args and not (isinstance(f, ast.Attribute) and name == "copy"):
                    rep(n, "(%s)" % txt(n.args[0]), "drop")
                elif isinstance(f, ast.Attribute):
                    rep(n, txt(f.value), "drop")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a, c = n.args[i], n.args[i + 1]
                    if txt(a) != txt(c):
                        s, _ = span(a)
                        m1 = span(a)[1]
                        m2, e = span(c)
                        out.append((s, e, txt(c) + b[m1:m2].decode() + txt(a), "args", n.lineno, ".".join(stack)))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                rep(n.lower, txt(n.lower) + " + 1", "slice")
            if n.upper is not None:
                rep(n.upper, txt(n.upper) + " - 1", "slice")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.Assign,)) and False:
                continue
            walk(c)

    walk(tree)
    seen = set()
    for s, e, new, what, line, fn in out:
        old = b[s:e].decode()
        if old == new or (s, e, new) in seen:
            continue
        seen.add((s, e, new))
        full = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(full, "x", "exec")
        except SyntaxError:
            continue
        yield dict(line=line, fn=fn, what=what, old=old, new=new, s=s, e=e), full


def main():
    outdir, files = sys.argv[1], sys.argv[2:]
    os.makedirs(outdir, exist_ok=True)
    ids = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    nodes = []
    for i in ids:
        mod, test = i.split("::")
        parts = mod.split(".")
        nodes.append("/".join(parts[:-1]) + ".py::" + parts[-1] + "::" + test)
    pool = Queue()
    base = tempfile.mkdtemp(prefix="am.")
    for k in range(int(os.environ.get("JOBS", "7"))):
        d = os.path.join(base, str(k))
        shutil.copytree("/repo/celest", d + "/celest")
        shutil.copytree("/repo/tests", d + "/tests")
        pool.put(d)
    only = os.environ.get("TESTS", "").split()

    def run(d, sel):
        env = dict(PATH=os.environ["PATH"], HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=d, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", XDG_CONFIG_HOME="/opt/vp/astropy-config", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--tb=no", *sel],
                               cwd=d, env=env, capture_output=True, text=True, timeout=60)
            return r.returncode
        except subprocess.TimeoutExpired:
            return 99

    try:
        for f in files:
            src = open("/repo/" + f).read()
            ms = list(mutants(src))
            name = os.path.basename(f)[:-3]
            near = [n for n in nodes if ("test_" + name + ".py") in n]

            def one(m):
                info, full = m
                d = pool.get()
                try:
                    open(os.path.join(d, f), "w").write(full)
                    rc = run(d, near) if near else 0
                    if rc == 0 and os.environ.get("FULL"):
                        rc = run(d, nodes)
                    open(os.path.join(d, f), "w").write(src)
                finally:
                    pool.put(d)
                return info, rc

            left = 0
            with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex, open(os.path.join(outdir, name + ".jsonl"), "w") as o:
                for info, rc in ex.map(one, ms):
                    if rc == 0:
                        left += 1
                        o.write(json.dumps(dict(info, file=f)) + "\n")
                        o.flush()
            print(f, len(ms), "mutants,", left, "pass the tests", flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
