#!/usr/bin/env python3
"""Makes single-construct variants of /repo/src, keeps those that pass the tests, and asks which the analyses report.

mutate.py gen DIR : write variants that pass the tests to DIR/NNN/src (scratch, outside /repo and /verif)
mutate.py run DIR : analyse each, print a table
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.LtE],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def sites(tree):
    """(description, function applying the mutation to a copy given the index path)"""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.Lambda, ast.Module, ast.ClassDef)):
            continue
    nodes = list(ast.walk(tree))
    parent = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parent[c] = n

    def func(n):
        while n in parent and not isinstance(n, (ast.FunctionDef,)):
            n = parent[n]
        return n

    def in_ann(n):
        while n in parent:
            p = parent[n]
            if isinstance(p, ast.arg) or (isinstance(p, ast.AnnAssign) and p.annotation is n) or \
                    (isinstance(p, ast.FunctionDef) and p.returns is n) or (isinstance(p, ast.ClassDef) and n in p.bases):
                return True
            n = p
        return False
    for i, n in enumerate(nodes):
        if in_ann(n) or isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        f = func(n)
        top = not isinstance(f, ast.FunctionDef)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append((i, "cmp", o))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", None))
            for k in range(len(n.values)):
                out.append((i, "boolval", k))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, "not", None))
            if not isinstance(n, ast.While):
                out.append((i, "true", None))
            out.append((i, "false", None))
        elif isinstance(n, ast.Constant) and not isinstance(parent.get(n), ast.Expr) and not top:
            v = n.value
            if isinstance(v, bool):
                out.append((i, "const", not v))
            elif isinstance(v, int):
                out.append((i, "const", v + 1))
                if v:
                    out.append((i, "const", v - 1))
            elif v is None:
                out.append((i, "const", 0))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((i, "binop", None))
            out.append((i, "left", None))
            out.append((i, "right", None))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    out.append((i, "swap", k))
            if n.args:
                out.append((i, "drop", None))
            if isinstance(n.func, ast.Attribute) and not n.keywords and not top:
                out.append((i, "recv", None))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not top:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((i, "delete", None))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not top:
            g = f
            names = []
            while True:
                names += [a.arg for a in g.args.args]
                names += [m.id for m in ast.walk(g) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)]
                g2 = func(parent[g]) if g in parent else None
                if not isinstance(g2, ast.FunctionDef):
                    break
                g = g2
            if n.id in names:
                for m in sorted(set(names) - {n.id, "self"}):
                    if similar(m, n.id):
                        out.append((i, "name", m))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alt = {"fn": "fast_fn", "fast_fn": "fn", "start": "end", "end": "start", "parse_fn": None, "line": "col", "col": "line",
                   "extend": None, "pos": None}.get(n.attr)
            if alt:
                out.append((i, "attr", alt))
        elif isinstance(n, ast.List) and n.elts and not top:
            out.append((i, "rot", None))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((i, "noif", None))
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call):
            pass
    return out


def similar(a, b):
    kinds = [{"ra", "rb", "rra", "rrb", "r", "rr", "rep", "repb"}, {"ins", "rem"}, {"pos", "end", "p", "src_len", "end_pos", "cur"}, {"loc", "end_loc"},
             {"parse_fn", "second_fn", "parse_fast_fn"}, {"parse_fns", "second_fns", "sep_fns", "open_fns", "close_fns"},
             {"ctx", "c"}, {"line", "col", "nl"}, {"parser", "second", "other", "sep", "op", "open", "close"}, {"a", "b", "l", "r", "v", "va", "vb"},
             {"expected", "label"}, {"res", "arg", "op", "x"}]
    return any(a in k and b in k for k in kinds)


def apply(tree, i, kind, arg):
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t))
    n = nodes[i]
    if kind == "cmp":
        n.ops[0] = arg()
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "boolval":
        n.values.pop(arg)
        if len(n.values) == 1:
            n.values.append(n.values[0])
    elif kind == "not":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "true":
        n.test = ast.BoolOp(ast.Or(), [n.test, ast.Constant(True)])
    elif kind == "false":
        n.test = ast.BoolOp(ast.And(), [n.test, ast.Constant(False)])
    elif kind == "const":
        n.value = arg
    elif kind == "binop":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind in ("left", "right"):
        x = n.left if kind == "left" else n.right
        n.right, n.left, n.op = ast.Constant(0), x, ast.Add()
    elif kind == "swap":
        n.args[arg], n.args[arg + 1] = n.args[arg + 1], n.args[arg]
    elif kind == "drop":
        n.args.pop()
    elif kind == "recv":
        rep = n.func.value
        for m in nodes:
            for f, v in ast.iter_fields(m):
                if v is n:
                    setattr(m, f, rep)
                elif isinstance(v, list) and any(x is n for x in v):
                    v[[x is n for x in v].index(True)] = rep
    elif kind == "delete":
        for m in nodes:
            for f, v in ast.iter_fields(m):
                if isinstance(v, list) and any(x is n for x in v):
                    v[[x is n for x in v].index(True)] = ast.Pass()
    elif kind == "name":
        n.id = arg
    elif kind == "attr":
        n.attr = arg
    elif kind == "rot":
        n.elts = n.elts[1:] + n.elts[:1] if len(n.elts) > 1 else []
    elif kind == "noif":
        n.ifs = []
    ast.fix_missing_locations(t)
    return t


def files():
    out = []
    for d, _, fs in os.walk(REPO + "/src/reparsec"):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    return sorted(out)


def test(job):
    n, path, src, desc, base = job
    w = os.path.join(base, "w%05d" % n)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns(".git", "__pycache__", ".mypy_cache", "docs"))
    p = os.path.join(w, os.path.relpath(path, REPO))
    with open(p, "w") as f:
        f.write(src)
    try:
        r = subprocess.run([os.environ.get("PY", "/opt/venv/bin/python"), "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], cwd=w, capture_output=True,
                           timeout=60, env=dict(os.environ, PYTHONPATH=w + "/src"))
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    if ok:
        d = os.path.join(base, "%05d" % n)
        shutil.copytree(w + "/src", d + "/src")
        with open(d + "/desc", "w") as f:
            f.write(desc + "\n")
    shutil.rmtree(w)
    return ok


def gen(base, only=None):
    os.makedirs(base, exist_ok=True)
    jobs = []
    n = 0
    for p in files():
        tree = ast.parse(open(p).read())
        orig = ast.unparse(tree)
        seen = {orig}
        for i, k, a in sites(tree):
            t = apply(tree, i, k, a)
            s = ast.unparse(t)
            if s in seen:
                continue
            seen.add(s)
            n += 1
            import difflib
            d = [x for x in difflib.unified_diff(orig.split("\n"), s.split("\n"), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
            jobs.append((n, p, s, "%s %s: %s" % (os.path.relpath(p, REPO), k, " ".join(d)[:300]), base))
    if only:
        jobs = [j for j in jobs if only in j[1]]
    print(len(jobs), "variants")
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(test, jobs))
    print(sum(r), "pass the tests")


def run(base):
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    import runall
    for d in sorted(os.listdir(base)):
        if not os.path.isdir(os.path.join(base, d, "src")) or os.path.exists(os.path.join(base, d, "result")):
            continue
        desc = open(os.path.join(base, d, "desc")).read().strip()
        try:
            props, undec, texts = runall.run(os.path.join(base, d, "src"), True)
        except Exception as e:
            props, undec, texts = {}, [("-", repr(e))], []
        line = "%s %s | %s | undecided %d %s | %s" % (d, "CAUGHT" if props else "-", sorted(props), len(undec), undec[0][1][:100] if undec else "", desc)
        with open(os.path.join(base, d, "result"), "w") as f:
            f.write(line + "\n")
        print(line, flush=True)


if __name__ == "__main__":
    {"gen": gen, "run": run}[sys.argv[1]](*sys.argv[2:])
