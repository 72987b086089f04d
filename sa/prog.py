"""Program representation: modules, classes and functions of the analysed package, from their syntax trees."""
import ast
import os
from typing import Any, Dict, List, Optional, Set


class FuncCode:
    """A function, lambda, comprehension or class body."""
    _n = 0

    def __init__(self, node, name, qual, module, owner=None):
        self.node = node
        self.name = name
        self.qual = qual
        self.module = module
        self.owner = owner  # ClassInfo for methods (zero-argument super)
        FuncCode._n += 1
        self.uid = FuncCode._n
        self.locals: Set[str] = set()
        self.globals: Set[str] = set()
        self.nonlocals: Set[str] = set()
        self.is_gen = False
        if node is not None and not isinstance(node, ast.Module):
            self._scan()

    def _scan(self):
        node = self.node
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                self.locals.add(p.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        v = _Scope(self)
        for s in body:
            v.visit(s)
        self.locals -= self.globals | self.nonlocals

    def where(self):
        return "{}:{}".format(self.module.rel, getattr(self.node, "lineno", 0))


class _Scope(ast.NodeVisitor):
    def __init__(self, code):
        self.c = code
        self.comp = 0

    def visit_FunctionDef(self, n):
        self.c.locals.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.c.locals.add(n.name)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        self.comp += 1
        self.generic_visit(n)
        self.comp -= 1

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and not self.comp:
            self.c.locals.add(n.id)

    def visit_NamedExpr(self, n):
        self.c.locals.add(n.target.id)
        self.visit(n.value)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.c.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.c.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.c.locals.add(n.name)

    def visit_Import(self, n):
        for a in n.names:
            self.c.locals.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.c.locals.add(a.asname or a.name)

    def visit_Global(self, n):
        self.c.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.c.nonlocals.update(n.names)

    def visit_Yield(self, n):
        if not self.comp:
            self.c.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


class ClassInfo:
    def __init__(self, name, module, bases, lineno=0):
        self.name = name
        self.module = module
        self.bases: List["ClassInfo"] = bases
        self.lineno = lineno
        self.ns: Dict[str, Any] = {}
        self.dataclass: Optional[Dict[str, Any]] = None  # options
        self.own_fields: List[Any] = []  # (name, has_default, default value or factory marker)
        self.namedtuple = False
        self.builtin = False
        self.mro: List["ClassInfo"] = c3(self)
        self.oid = None  # heap record with mutable class attributes

    def fields(self):
        out = {}
        for c in reversed(self.mro):
            for f in c.own_fields:
                out[f[0]] = f
        return list(out.values())

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c, c.ns[name]
        return None

    def issub(self, other):
        return other in self.mro

    def is_tuple(self):
        return any(c.namedtuple for c in self.mro)

    def dc(self):
        for c in self.mro:
            if c.dataclass is not None:
                return c.dataclass
        return None

    def __repr__(self):
        return "<class %s>" % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            return out + [x for s in seqs for x in s if x not in out]
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class Module:
    def __init__(self, name, path, rel, tree, is_pkg, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.src = src


def load_package(src_root, pkg="reparsec"):
    """Parse every module of the package below src_root."""
    mods = {}
    base = os.path.join(src_root, pkg)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, src_root)
            name = rel[:-3].replace(os.sep, ".")
            is_pkg = name.endswith(".__init__")
            if is_pkg:
                name = name[:-9]
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            mods[name] = Module(name, path, "src/" + rel, ast.parse(src, path), is_pkg, src)
    return mods
