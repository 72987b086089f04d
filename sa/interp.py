"""Abstract interpreter for the Python subset used by the analysed package.

Every value is an abstract value of `domain`.  Paths are partitioned by decisions (typestate of sub-results, sign of
affine forms, truth of opaque predicates); loops of unknown length are closed by widening (module `loops`).  Nothing of
the analysed package is executed.
"""
import ast
import string as _string

from .domain import (App, BMeth, Bound, Builtin, Cls, E, Ext, Facts, Func, Idx, Lin, Mod, Partial, Ref, Star, Sym, Tup,
                     Unsupported, V, X, add, is_const, is_int, lin_parts, mk_lin, newline_at, same, scale, show, slen, sort_of, sub)
from .prog import ClassInfo, FuncCode, Module


class Dead(Exception):
    """The path is infeasible or deliberately not followed."""


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Rz(Exception):
    """An exception of the analysed program (a Ref to an exception object or an opaque value)."""
    def __init__(self, exc):
        self.exc = exc


class Rec:
    __slots__ = ("kind", "cls", "d", "segs", "birth", "site", "extra", "owner", "loops")

    def __init__(self, kind, cls=None, d=None, segs=(), birth=0, site="", extra=None, owner=0, loops=()):
        self.kind = kind
        self.cls = cls
        self.d = d
        self.segs = segs
        self.birth = birth
        self.site = site
        self.extra = extra
        self.owner = owner
        self.loops = loops

    def copy(self, owner):
        return Rec(self.kind, self.cls, None if self.d is None else dict(self.d), self.segs, self.birth, self.site,
                   self.extra, owner, self.loops)


class Ev:
    __slots__ = ("kind", "a", "site", "loops")

    def __init__(self, kind, a, site, loops=()):
        self.kind = kind
        self.a = a
        self.site = site
        self.loops = loops

    def __repr__(self):
        return "%s%s@%s" % (self.kind, show(tuple(self.a)), self.site)


class State:
    _ids = 0

    def __init__(self):
        State._ids += 1
        self.id = State._ids
        self.heap = {}
        self.nid = 1
        self.facts = Facts()
        self.trace = []
        self.path = []
        self.phase = 0
        self.loops = {}
        self.ls = ()
        self.vars = {}

    def copy(self):
        s = State.__new__(State)
        State._ids += 1
        s.id = State._ids
        s.heap = dict(self.heap)
        s.nid = self.nid
        s.facts = self.facts.copy()
        s.trace = list(self.trace)
        s.path = list(self.path)
        s.phase = self.phase
        s.loops = dict(self.loops)
        s.ls = self.ls
        s.vars = dict(self.vars)
        return s


class Ex:
    """One replay of a decision script."""
    __slots__ = ("script", "widths", "i", "cache")

    def __init__(self, script, widths, cache):
        self.script = script
        self.widths = widths
        self.i = 0
        self.cache = cache


class Outcome:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind = kind  # ok | raise
        self.value = value
        self.st = st

    def __repr__(self):
        return "<%s %s>" % (self.kind, show(self.value))


EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "AssertionError": "Exception",
    "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError", "OSError": "Exception",
    "MemoryError": "Exception", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "Warning": "Exception", "DeprecationWarning": "Warning", "EOFError": "Exception",
    "ImportError": "Exception", "BufferError": "Exception",
}

TYPE_BUILTINS = {"int", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "float", "bytes", "type", "object",
                 "slice", "range", "enumerate", "zip", "map", "filter", "reversed", "super", "property", "staticmethod",
                 "classmethod", "complex", "bytearray", "memoryview"}
PURE_CALLS = {"range", "len", "enumerate", "zip", "reversed", "isinstance", "type", "min", "max", "int", "str", "list", "tuple"}


def has_calls(nodes):
    return any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in PURE_CALLS)
               for n in nodes for x in ast.walk(n))


def gen_with_calls(f):
    """f is a generator function that calls something at each step."""
    if isinstance(f, Bound):
        f = f.func
    return isinstance(f, Func) and not f.cached and f.code.is_gen and has_calls(f.code.node.body)


def may_exit(s):
    """A for statement that may be left before the end of what it iterates over."""
    todo = list(s.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Return, ast.Break, ast.Raise)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
    return False


def is_super(n):
    return isinstance(n.func, ast.Name) and n.func.id == "super"


def early(oid, kind, v):
    return Tup((E("$early"), E(oid), E(kind), E(v)))


def is_early(v):
    return isinstance(v, Tup) and len(v.segs) == 4 and isinstance(v.segs[0], E) and v.segs[0].v == "$early"


FN_BUILTINS = {"len", "repr", "min", "max", "sum", "sorted", "any", "all", "iter", "next", "isinstance", "issubclass",
               "getattr", "setattr", "hasattr", "delattr", "callable", "abs", "print", "id", "hash", "divmod", "round", "ord",
               "chr", "format", "vars", "dir", "open", "input", "globals", "locals", "eval", "exec", "pow", "ascii", "bin", "hex",
               "__oracle__", "__spec__", "__col__", "__phase__", "__note__"}

MAX_DEPTH = 400
RECURSION_BOUND = 6


class Interp:
    def __init__(self, modules, log=None):
        self.modules = modules
        self.mod_oid = {}
        self.st = State()
        self.ex = Ex([], [], {})
        self.stack = []  # frame oids
        self.calls = []  # (code, closure key, frame oid)
        self.fr = None
        self.code = None
        self.lineno = 0
        self.last = "?"
        self.match_limit = None
        self.raise_user = False
        self.try_depth = 0
        self.functions_seen = set()
        self.maxdepth = 0
        self.sink = None
        self.sinks = {}  # frame of a generator -> what to do at its yields
        self.nested = (0, "", "")  # how often a function is active at once
        self.fork_count = 0
        self.paths = 0
        self.loop_fix = 0
        self.oracle = None  # set by the harness
        self.rec_oracle = None
        self.peel = 2
        self.exc_cls = {}
        for n, b in EXC_TREE.items():
            c = ClassInfo(n, None, [self.exc_cls[b]] if b else [])
            c.builtin = True
            self.exc_cls[n] = c
        self.limit = 6000
        from . import lib
        self.lib = lib
        from . import loops
        self.loopmod = loops
        self.dispatch_e = {}
        self.dispatch_s = {}
        for n in dir(self):
            if n.startswith("e_"):
                self.dispatch_e[n[2:]] = getattr(self, n)
            elif n.startswith("s_"):
                self.dispatch_s[n[2:]] = getattr(self, n)

    # ---- exploration ---------------------------------------------------------------------------------------
    def explore(self, fn, st0, limit=None):
        """All outcomes of fn() started in a copy of st0."""
        saved = (self.ex, self.st, self.stack, self.calls, self.fr, self.code, self.lineno, self.try_depth)
        outs = []
        script, widths = [], []
        cache = {}
        n = 0
        try:
            while True:
                ex = Ex(script, widths, cache)
                self.ex = ex
                self.st = st0.copy()
                self.stack = list(saved[2])
                self.calls = list(saved[3])
                self.fr, self.code, self.lineno, self.try_depth = saved[4:]
                n += 1
                self.paths += 1
                if n > (limit or self.limit):
                    raise Unsupported("more than %d paths from %s" % (limit or self.limit, self.where()))
                try:
                    r = fn()
                    outs.append(Outcome("ok", r, self.st))
                except Rz as e:
                    outs.append(Outcome("raise", e.exc, self.st))
                except Dead:
                    pass
                script = ex.script[:ex.i]
                widths = ex.widths[:ex.i]
                while script and script[-1] + 1 >= widths[-1]:
                    script.pop()
                    widths.pop()
                if not script:
                    return outs
                script[-1] += 1
        finally:
            (self.ex, self.st, self.stack, self.calls, self.fr, self.code, self.lineno, self.try_depth) = saved

    def choose(self, n, label=None):
        if n == 0:
            raise Dead()
        if n == 1:
            return 0
        ex = self.ex
        if ex.i == len(ex.script):
            ex.script.append(0)
            ex.widths.append(n)
            self.fork_count += 1
        k = ex.script[ex.i]
        ex.i += 1
        if label:
            self.st.path.append("%s: %s" % (self.where(), label[k] if isinstance(label, (list, tuple)) else label))
        return k

    def freeze(self):
        """A snapshot of the current state that later steps do not modify."""
        s = self.st.copy()
        self.st = self.st.copy()
        return s

    # ---- places --------------------------------------------------------------------------------------------
    def where(self):
        if self.code is None or self.code.module is None:
            return "?"
        return "%s:%d" % (self.code.module.rel, self.lineno)

    def site(self):
        if self.code is None or self.code.module is None:
            return self.last
        return "%s:%d %s" % (self.code.module.rel, self.lineno, self.code.qual)

    def event(self, kind, *a):
        self.st.trace.append(Ev(kind, a, self.site(), self.st.ls))

    def unsupported(self, msg):
        raise Unsupported("%s: %s" % (self.site(), msg))

    # ---- heap ----------------------------------------------------------------------------------------------
    def alloc(self, kind, **kw):
        oid = self.st.nid
        self.st.nid += 1
        r = Rec(kind, birth=self.st.phase, site=self.site(), owner=self.st.id, loops=self.st.ls, **kw)
        self.st.heap[oid] = r
        return Ref(oid)

    def rec(self, ref):
        return self.st.heap[ref.oid]

    def w(self, ref, what=""):
        """The record of ref, for writing."""
        r = self.st.heap[ref.oid]
        if r.birth < self.st.phase and r.kind != "star":
            self.event("write", ref.oid, r.kind, r.birth, r.site, what, r.cls.name if r.cls is not None else None)
        if r.owner != self.st.id:
            r = r.copy(self.st.id)
            self.st.heap[ref.oid] = r
        return r

    def new_list(self, segs=()):
        return self.alloc("list", segs=tuple(segs))

    def new_iter(self, segs):
        return self.alloc("iter", segs=tuple(segs))

    def is_kind(self, v, kind):
        return type(v) is Ref and self.st.heap[v.oid].kind == kind

    def obj_cls(self, v):
        if type(v) is Ref:
            r = self.st.heap[v.oid]
            if r.kind == "obj":
                return r.cls
        return None

    # ---- exceptions of the program -------------------------------------------------------------------------
    def throw(self, name, msg=""):
        e = self.alloc("obj", cls=self.exc_cls[name], d={"args": Tup((E(msg),))})
        self.event("raise", name, msg)
        raise Rz(e)

    # ---- decisions on facts ----------------------------------------------------------------------------------
    def lit(self, key, text):
        """Truth of an opaque predicate."""
        v = self.st.facts.lit(key)
        if v is not None:
            return v
        k = self.world.far(key) if self.world.set.far else None
        if k is None:
            k = self.choose(2, [text + " holds", text + " does not hold"]) == 0
        self.st.facts.set(key, k)
        return k

    def ge0(self, form, text=None):
        c, t = lin_parts(form)
        if not t:
            return c >= 0
        f = self.st.facts
        if f.entails(form):
            return True
        neg = sub(scale(form, -1), 1)
        if f.entails(neg):
            return False
        text = text or "%s >= 0" % show(form)
        if self.choose(2, [text + " holds", text + " does not hold"]) == 0:
            f.assume(form)
            return True
        f.assume(neg)
        return False

    def int_eq(self, a, b):
        f = self.st.facts
        s = f.cmp(a, b)
        if s == {0}:
            return True
        if 0 not in s:
            return False
        d = sub(a, b)
        text = "%s == %s" % (show(a), show(b))
        if self.choose(2, [text, "not " + text]) == 0:
            f.assume(d)
            f.assume(scale(d, -1))
            return True
        if s == {0, 1}:
            f.assume(sub(d, 1))
        elif s == {0, -1}:
            f.assume(sub(scale(d, -1), 1))
        else:
            f.set(("neq0", d), True)
            f.set(("neq0", scale(d, -1)), True)
        return False

    def is_none(self, v):
        if v is None:
            return True
        if not isinstance(v, (Sym, App)):
            return False
        if self.never_none(v):
            return False
        if isinstance(v, App) and v.op == "attr" and v.args[1] == "group":
            return False
        return self.lit(("none", v), "%s is None" % show(v))

    def never_none(self, v):
        s = sort_of(v)
        if isinstance(v, App) and v.op == "rep" and v.args[2] == "min_prio":
            return False
        if isinstance(v, App) and v.op == "res" and v.args[1] == "min_prio":
            return False
        if isinstance(v, Sym) and v.name in self.maybe_none:
            return False
        return s in ("int", "str", "stream", "bool")

    maybe_none = {"REM"}
    salt = ()  # distinguishes states that a caller of the interpreter made by itself

    def settle(self, v):
        """None for a number that may be missing and is, on this path."""
        if isinstance(v, (Sym, App)) and is_int(v) and not self.never_none(v) and self.is_none(v):
            return None
        return v

    def truth(self, v):
        v = self.settle(v)
        if is_const(v):
            return bool(v)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set"):
                return self.segs_truth(r.segs)
            if r.kind == "dict":
                return bool(r.d)
            if r.kind == "obj":
                m = r.cls.lookup("__bool__")
                if m:
                    return self.truth(self.call(self.getattr(v, "__bool__"), (), {}))
                m = r.cls.lookup("__len__")
                if m:
                    return self.truth(self.call(self.getattr(v, "__len__"), (), {}))
                if r.cls.is_tuple():
                    return bool(r.cls.fields())
            return True
        if isinstance(v, Tup):
            return self.segs_truth(v.segs)
        if is_int(v):
            return not self.int_eq(v, 0)
        if isinstance(v, (Sym, App)):
            if isinstance(v, Sym) and v.sort == "fn":
                return True
            if isinstance(v, App) and v.op == "mcall" and v.args[1] in ("match", "fullmatch", "search"):
                return not self.is_none(v)
            if sort_of(v) in ("stream", "str"):
                return self.ge0(sub(slen(v), 1))
            if sort_of(v) != "bool" and self.st.facts.lit(("none", v)) is True:
                return False
            if isinstance(v, App) and v.op == "mcall" and v.args[1] == "group":
                return not self.is_none(v) and self.ge0(sub(slen(v), 1))  # the text of a group
            if sort_of(v) == "any" and ("none", v) in self.st.facts.lits and isinstance(v, App) and v.op == "mcall":
                return True  # a match object
            r = self.lit(("truth", v), "%s is true" % show(v))
            if isinstance(v, App) and v.op == "startswith" and v.args[1] == "\n":
                newline_at(self.st.facts, v.args[0], v.args[2], r)
            if r and isinstance(v, App) and v.op == "startswith" and not is_const(v.args[0]):
                self.st.facts.assume(sub(slen(v.args[0]), add(v.args[2], slen(v.args[1]))))
            if r and sort_of(v) == "any":
                self.st.facts.lits.setdefault(("none", v), False)
            return r
        return True

    def segs_truth(self, segs):
        if any(isinstance(s, E) for s in segs):
            return True
        for s in segs:
            if self.seg_nonempty(s):
                return True
        return False

    def seg_nonempty(self, s):
        if isinstance(s, E):
            return True
        if isinstance(s, Idx):
            if s.stop is None:
                return True
            return self.ge0(sub(sub(s.stop, s.start), 1)) if s.step > 0 else self.ge0(sub(sub(s.start, s.stop), 1))
        if isinstance(s, Star):
            cases = self.star_cases(s)
            if all(not c[1] for c in cases):
                return False
            if s.sid in self.nonempty_stars():
                return True
            v = self.loopmod.emptiness(self, s)
            if v is not None:
                return v
            return self.lit(("nonempty", s.sid), "%s has elements" % show(s))
        if isinstance(s.term, App) and s.term.op == "cut":
            return self.lit(("nonempty", s.term), "%s has elements" % show(s))
        return self.ge0(sub(self.term_len(s.term), 1), "%s has elements" % show(s.term))

    def nonempty_stars(self):
        return self.st.vars.get("nonempty", ())

    def term_len(self, t):
        return slen(t)

    def star_cases(self, s):
        return self.st.heap[s.sid].extra

    # ---- equality ------------------------------------------------------------------------------------------
    def eq(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return True
        if not isinstance(a, Ref) and same(a, b):
            return True
        if a is not None and b is not None:
            a, b = self.settle(a), self.settle(b)
        if is_const(a) and is_const(b):
            return a == b
        if is_int(a) and (is_int(b) or isinstance(b, bool)) or is_int(b) and isinstance(a, bool):
            return self.int_eq(a, b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Ref):
                return False
            return self.is_none(o)
        ta, tb = self.as_tuple(a), self.as_tuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return False
            return all(self.eq(x, y) for x, y in zip(ta, tb))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == "slice":
                base, lo, hi = x.args
                ls = slen(y) if sort_of(y) in ("str", "stream") or isinstance(y, str) else None
                if ls is not None and hi is not None and self.st.facts.entails_eq(sub(hi, 0 if lo is None else lo), ls):
                    return self.truth(App("startswith", (base, y, 0 if lo is None else lo)))
        if isinstance(a, Ref) or isinstance(b, Ref):
            o, p = (a, b) if isinstance(a, Ref) else (b, a)
            r = self.rec(o)
            if r.kind == "obj":
                m = r.cls.lookup("__eq__")
                if m:
                    v = self.call(self.getattr(o, "__eq__"), (p,), {})
                    return self.truth(v)
                dc = r.cls.dc()
                if dc is not None and dc.get("eq", True):
                    if isinstance(p, Ref) and self.rec(p).kind == "obj":
                        rp = self.rec(p)
                        if rp.cls is not r.cls:
                            return False
                        return all(self.eq(r.d.get(f[0]), rp.d.get(f[0])) for f in r.cls.fields()
                                   if f[2].get("compare", True))
                if isinstance(p, (Sym, App)):
                    return self.lit(("eq", show(p), "obj:" + r.cls.name), "%s == %s" % (show(p), r.cls.name))
                return False
            if r.kind in ("list", "dict", "set"):
                if isinstance(p, Ref) and self.rec(p).kind == r.kind:
                    rp = self.rec(p)
                    if r.kind == "list":
                        if all(isinstance(s, E) for s in r.segs + rp.segs):
                            if len(r.segs) != len(rp.segs):
                                return False
                            return all(self.eq(x.v, y.v) for x, y in zip(r.segs, rp.segs))
                        if not r.segs or not rp.segs:
                            return not self.segs_truth(r.segs or rp.segs)
                        if r.segs == rp.segs:
                            return True
                    return self.lit(("eqobj",) + tuple(sorted((a.oid, b.oid))), "lists are equal")
                if is_const(p) or isinstance(p, Tup):
                    return False
            if isinstance(p, (Sym, App)):
                return self.lit(("eq", show(p), "ref"), "%s == object" % show(p))
            return False
        if isinstance(a, (Cls, Func, Builtin, Ext, Bound, Mod)) and isinstance(b, (Cls, Func, Builtin, Ext, Bound, Mod)):
            return False
        if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
            x, y = sorted((a, b), key=show)
            sx, sy = sort_of(a), sort_of(b)
            if "any" not in (sx, sy) and sx != sy and not {sx, sy} <= {"str", "stream"} and not {sx, sy} <= {"int", "bool"}:
                return False
            r = self.lit(("eq", x, y), "%s == %s" % (show(a), show(b)))
            for x, y in ((a, b), (b, a)):
                if y == "\n" and isinstance(x, App) and x.op == "item" and is_int(x.args[1]):
                    newline_at(self.st.facts, x.args[0], x.args[1], r)
            return r
        return False

    def as_tuple(self, v):
        if isinstance(v, Tup) and all(isinstance(s, E) for s in v.segs):
            return [s.v for s in v.segs]
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == "obj" and r.cls.is_tuple():
                return [r.d[f[0]] for f in r.cls.fields()]
        return None

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, (Sym, App)):
                return self.is_none(o)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            o, c = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(o, (Sym, App)):
                if sort_of(o) == "bool":
                    return self.truth(o) is c
                return self.lit(("is", o, c), "%s is %s" % (show(o), c))
            return False
        if type(a) is not type(b):
            if isinstance(a, (Sym, App)) and isinstance(b, (Sym, App)):
                return self.lit(("is",) + tuple(sorted((a, b), key=show)), "%s is %s" % (show(a), show(b)))
            if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
                return self.lit(("is",) + tuple(sorted((a, b), key=show)), "%s is %s" % (show(a), show(b)))
            return False
        if isinstance(a, (Cls, Func, Builtin, Ext, Mod)):
            return a == b
        if isinstance(a, (Sym, App)):
            if same(a, b):
                return True
            return self.lit(("is",) + tuple(sorted((a, b), key=show)), "%s is %s" % (show(a), show(b)))
        return same(a, b)

    def order(self, op, a, b):
        a, b = self.settle(a), self.settle(b)
        if is_const(a) and is_const(b):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError:
                self.throw("TypeError", "unorderable values")
        isn = [is_int(x) or isinstance(x, bool) or (isinstance(x, App) and x.op == "rep" and x.args[2] == "prio")
               for x in (a, b)]
        if any(x is None for x in (a, b)):
            self.throw("TypeError", "ordering with None")
        if all(isn) or (any(isn) and all(isinstance(x, (Sym, App, Lin, int, bool)) for x in (a, b))):
            d = sub(a, b)
            if op == "Lt":
                return self.ge0(sub(scale(d, -1), 1), "%s < %s" % (show(a), show(b)))
            if op == "LtE":
                return self.ge0(scale(d, -1), "%s <= %s" % (show(a), show(b)))
            if op == "Gt":
                return self.ge0(sub(d, 1), "%s > %s" % (show(a), show(b)))
            return self.ge0(d, "%s >= %s" % (show(a), show(b)))
        ta, tb = self.as_tuple(a), self.as_tuple(b)
        if ta is not None and tb is not None:
            for x, y in zip(ta, tb):
                if not self.eq(x, y):
                    return self.order(op if op in ("Lt", "Gt") else op[:2], x, y)
            return {"Lt": len(ta) < len(tb), "LtE": len(ta) <= len(tb), "Gt": len(ta) > len(tb),
                    "GtE": len(ta) >= len(tb)}[op]
        if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
            return self.lit(("ord", op, show(a), show(b)), "%s %s %s" % (show(a), op, show(b)))
        if isinstance(a, Ref):
            m = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            if self.obj_cls(a) and self.obj_cls(a).lookup(m):
                return self.truth(self.call(self.getattr(a, m), (b,), {}))
            if self.obj_cls(b) and self.obj_cls(b).lookup({"__lt__": "__gt__", "__gt__": "__lt__"}.get(m, "?")):
                return self.truth(self.call(self.getattr(b, {"__lt__": "__gt__", "__gt__": "__lt__"}[m]), (a,), {}))
            self.throw("TypeError", "unorderable objects")
        self.unsupported("ordering of %s and %s" % (show(a), show(b)))

    def contains(self, x, c):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Ref) and self.rec(c).kind == "dict":
            return self.dict_find(self.rec(c), x) is not None
        if isinstance(c, Ref) and self.rec(c).kind == "obj":
            m = self.rec(c).cls.lookup("__contains__")
            if m:
                return self.truth(self.call(self.getattr(c, "__contains__"), (x,), {}))
        if isinstance(c, (Sym, App)) and sort_of(c) in ("stream", "str", "any") or isinstance(c, str):
            if x == "\n" and sort_of(c) in ("stream", "str"):
                return self.truth(self.lib.str_method(self, c, "count", (x,), {}))
            return self.lit(("in", x if not isinstance(x, Ref) else show(x), c), "%s in %s" % (show(x), show(c)))
        for s in self.iterate(c):
            if isinstance(s, E):
                if self.eq(x, s.v):
                    return True
            elif isinstance(s, Star):
                if self.lit(("instar", show(x), s.sid), "%s in %s" % (show(x), show(s))):
                    return True
            elif isinstance(s, Idx):
                if s.make == ("id",) and s.step == 1 and is_int(x):
                    if self.ge0(sub(x, s.start)) and (s.stop is None or self.ge0(sub(sub(s.stop, x), 1))):
                        return True
                elif self.lit(("in", show(x), show(s)), "%s in %s" % (show(x), show(s))):
                    return True
            elif self.lit(("in", x if not isinstance(x, Ref) else show(x), s.term), "%s in %s" % (show(x), show(s))):
                return True
        return False

    def dict_find(self, r, k):
        for i, (kk, _) in enumerate(r.extra or ()):
            if self.eq(kk, k):
                return i
        return None

    # ---- modules -------------------------------------------------------------------------------------------
    def import_module(self, name):
        if name in self.mod_oid:
            return Mod(name)
        if name not in self.modules:
            if any(m == name or m.startswith(name + ".") for m in self.modules):
                pass
            return Ext(name)
        m = self.modules[name]
        parent = name.rpartition(".")[0]
        if parent and parent in self.modules:
            self.import_module(parent)
            if name in self.mod_oid:
                return Mod(name)
        ref = self.alloc("module", d={"__name__": name}, extra=name)
        self.mod_oid[name] = ref.oid
        code = FuncCode(m.tree, "<module>", name, m)
        saved = (self.fr, self.code, self.lineno)
        self.fr, self.code = ref, code
        self.stack.append(ref)
        try:
            self.block(m.tree.body)
        except Rz as e:
            raise Unsupported("importing %s raises %s" % (name, self.exc_name(e.exc)))
        finally:
            self.stack.pop()
            self.fr, self.code, self.lineno = saved
        if parent and parent in self.mod_oid:
            self.st.heap[self.mod_oid[parent]].d.setdefault(name.rpartition(".")[2], Mod(name))
        return Mod(name)

    def exc_name(self, e):
        c = self.obj_cls(e)
        return c.name if c else show(e)

    def mod_get(self, name, attr):
        r = self.st.heap[self.mod_oid[name]]
        if attr in r.d:
            return r.d[attr]
        full = name + "." + attr
        if full in self.modules:
            return self.import_module(full)
        return None

    # ---- names ---------------------------------------------------------------------------------------------
    def load(self, name):
        f = self.fr
        while f is not None:
            r = self.st.heap[f.oid]
            if r.kind == "module":
                break
            parent, code = r.extra
            if name in code.globals:
                break
            if name in r.d and not (r.kind == "classbody" and f is not self.fr):
                return r.d[name]
            if name in code.locals and r.kind == "frame" and name not in code.nonlocals and not code_is_comp(code):
                self.throw("UnboundLocalError", name)
            f = parent
        mod = self.code.module.name if self.code else None
        if mod in self.mod_oid:
            d = self.st.heap[self.mod_oid[mod]].d
            if name in d:
                return d[name]
        return self.builtin(name)

    def builtin(self, name):
        if name in self.exc_cls:
            return Cls(self.exc_cls[name])
        if name in TYPE_BUILTINS or name in FN_BUILTINS:
            return Builtin(name)
        if name in self.globals_:
            return self.globals_[name]
        if name in ("NotImplemented", "Ellipsis"):
            return Sym(name)
        if name == "__debug__":
            return True
        if name in ("EnvironmentError", "IOError"):
            return Cls(self.exc_cls["OSError"])
        self.throw("NameError", name)

    globals_ = {}

    def store(self, name, v):
        r = self.st.heap[self.fr.oid]
        if r.kind == "module":
            self.w(self.fr, name).d[name] = v
            return
        parent, code = r.extra
        if name in code.globals:
            self.w(Ref(self.mod_oid[self.code.module.name]), name).d[name] = v
            return
        if name in code.nonlocals or code_is_comp(code):
            f = self.fr
            # a walrus in a comprehension binds in the enclosing function
            if name in code.nonlocals:
                f = parent
            while f is not None:
                q = self.st.heap[f.oid]
                if q.kind == "module":
                    break
                if name in q.d or name in q.extra[1].locals:
                    self.w(f, name).d[name] = v
                    return
                f = q.extra[0]
        self.w(self.fr, name).d[name] = v

    def delete(self, name):
        r = self.w(self.fr, name)
        if name not in r.d:
            self.throw("NameError", name)
        del r.d[name]

    # ---- statements ----------------------------------------------------------------------------------------
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.lineno = s.lineno
        h = self.dispatch_s.get(type(s).__name__)
        if h is None:
            self.unsupported("statement " + type(s).__name__)
        h(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise Ret(None if s.value is None else self.eval(s.value))

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(t.id)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value), self.eval(t.slice) if not isinstance(t.slice, ast.Slice)
                                 else self.slice_of(t.slice))
            elif isinstance(t, ast.Attribute):
                r = self.w(self.eval(t.value), t.attr)
                r.d.pop(t.attr, None)
            else:
                self.unsupported("del")

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            v = self.binop(op, cur, self.eval(s.value), True)
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(op, cur, self.eval(s.value), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.index_of(t.slice)
            cur = self.lib.getitem(self, o, k)
            self.lib.setitem(self, o, k, self.binop(op, cur, self.eval(s.value), True))
        else:
            self.unsupported("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.eval(t.value), self.index_of(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported("assignment target")

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (Sym, App)) and not star and sort_of(v) in ("any",):
            for i, e in enumerate(elts):
                self.assign(e, self.lib.opaque_item(self, v, i, len(elts)))
            return
        segs = list(self.iterate(v))
        if not star:
            if len(segs) != len(elts) or not all(isinstance(s, E) for s in segs):
                if all(isinstance(s, E) for s in segs):
                    self.throw("ValueError", "cannot unpack")
                segs = self.force_len(segs, len(elts))
            for e, s in zip(elts, segs):
                self.assign(e, s.v)
            return
        k = star[0]
        after = len(elts) - k - 1
        if k:
            segs = self.force_prefix(segs, k)
        if after and not all(isinstance(s, E) for s in segs[len(segs) - after:]):
            self.unsupported("unpacking the end of a list of unknown length")
        if after and len(segs) < k + after:
            self.throw("ValueError", "cannot unpack")
        for e, s in zip(elts[:k], segs[:k]):
            self.assign(e, s.v)
        mid = segs[k:len(segs) - after] if after else segs[k:]
        self.assign(elts[k], self.new_list(mid))
        for e, s in zip(elts[k + 1:], segs[len(segs) - after:] if after else []):
            self.assign(e, s.v)

    def force_prefix(self, segs, k):
        """Make the first k segments single elements (forking on emptiness)."""
        out = []
        segs = list(segs)
        while len(out) < k:
            if not segs:
                self.throw("ValueError", "cannot unpack")
            s = segs.pop(0)
            if isinstance(s, E):
                out.append(s)
                continue
            if not self.seg_nonempty(s):
                continue
            first, rest = self.loopmod.split_first(self, s)
            out.extend(first)
            segs[0:0] = rest
        return out + segs

    def force_len(self, segs, k):
        segs = self.force_prefix(segs, k)
        for s in segs[k:]:
            if self.seg_nonempty(s):
                self.throw("ValueError", "cannot unpack")
        return segs[:k]

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def counted(self, s):
        """while i < len(xs): ...; i += 1 over a list of unknown length, as a loop over its indices."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        u = s.body[-1]
        if not (isinstance(u, ast.AugAssign) and isinstance(u.op, ast.Add) and isinstance(u.target, ast.Name)
                and u.target.id == i and isinstance(u.value, ast.Constant) and u.value.value == 1):
            return None
        r = t.comparators[0]
        if not (isinstance(r, ast.Name) or (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len")):
            return None
        for x in s.body[:-1]:
            for n in ast.walk(x):
                if isinstance(n, ast.Continue) or (isinstance(n, ast.Name) and n.id == i and not isinstance(n.ctx, ast.Load)):
                    return None
        k = self.eval(t.left)
        if type(k) is not int:
            return None
        n = self.eval(r)
        if isinstance(n, int) or ("len", n) not in self.st.vars:
            return None
        loop = getattr(s, "_for", None)
        if loop is None:
            loop = s._for = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(id=i, ctx=ast.Store()), s), iter=r,
                                                      body=s.body[:-1] or [ast.copy_location(ast.Pass(), s)], orelse=[]), s)
        return loop, self.lib.range_(self, (k, n)), n

    def s_While(self, s):
        c = self.counted(s)
        if c is not None:
            loop, it, n = c
            try:
                self.for_each(it, lambda v: (self.assign(loop.target, v), self.block(loop.body)), loop)
            except Brk:
                return
            self.assign(loop.target, n)
            self.block(s.orelse)
            return

        def step():
            self.lineno = s.lineno
            if not self.truth(self.eval(s.test)):
                return "done"
            try:
                self.block(s.body)
            except Cont:
                pass
            return "next"
        try:
            self.loopmod.run_loop(self, s, step)
        except Brk:
            return
        self.block(s.orelse)

    def s_For(self, s):
        def body(v):
            self.assign(s.target, v)
            try:
                self.block(s.body)
            except Cont:
                pass
        lazy = None
        if isinstance(s.iter, ast.Call) and not is_super(s.iter) and may_exit(s):
            lazy = self.call_parts(s.iter)
            if gen_with_calls(lazy[0]):
                try:
                    self.lazy_gen(lazy, body)
                except Brk:
                    return
                self.block(s.orelse)
                return
        it = self.eval(s.iter) if lazy is None else self.call(*lazy)
        try:
            self.for_each(it, body, s)
        except Brk:
            return
        self.block(s.orelse)

    def lazy_gen(self, parts, body):
        """Run a generator function with body as what happens at each yield."""
        me = (self.fr, self.code, self.lineno)

        def sink(v):
            saved = (self.fr, self.code, self.lineno)
            self.fr, self.code, self.lineno = me
            try:
                body(v)
            except Brk:
                raise Ret(early(me[0].oid, "brk", None))
            except Ret as r:
                raise Ret(early(me[0].oid, "ret", r.value))
            finally:
                self.fr, self.code, self.lineno = saved
        self.sink = sink
        try:
            self.call(*parts)
        except Ret as r:
            if is_early(r.value) and r.value.segs[1].v == me[0].oid:
                self.fr, self.code, self.lineno = me
                if r.value.segs[2].v == "brk":
                    raise Brk()
                raise Ret(r.value.segs[3].v)
            raise
        finally:
            self.sink = None

    def for_each(self, it, body, node):
        """Run body for every element of an iterable value."""
        self.loopmod.for_segs(self, it, body, node)

    def s_Try(self, s):
        try:
            try:
                self.try_depth += 1
                try:
                    self.block(s.body)
                finally:
                    self.try_depth -= 1
            except Rz as e:
                for h in s.handlers:
                    if self.handles(h, e.exc):
                        saved = self.st.vars.get("exc")
                        self.st.vars["exc"] = e.exc
                        if h.name:
                            self.store(h.name, e.exc)
                        try:
                            self.block(h.body)
                        finally:
                            self.st.vars["exc"] = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (Ret, Brk, Cont, Rz) as sig:
            if s.finalbody:
                self.block(s.finalbody)
            raise sig
        self.block(s.finalbody)

    def handles(self, h, exc):
        if h.type is None:
            self.event("caught", exc, "everything")
            return True
        t = self.eval(h.type)
        ts = [x.v for x in t.segs] if isinstance(t, Tup) else [t]
        c = self.obj_cls(exc)
        for x in ts:
            if isinstance(x, Cls):
                if c is not None:
                    if c.issub(x.info):
                        self.event("caught", exc, x.info.name)
                        return True
                elif x.info.name in ("Exception", "BaseException"):
                    self.event("caught", exc, x.info.name)
                    return True
                elif self.lit(("excis", exc, x.info.name), "the exception is a %s" % x.info.name):
                    self.event("caught", exc, x.info.name)
                    return True
            elif c is None:
                if self.lit(("excis", exc, show(x)), "the exception is a %s" % show(x)):
                    return True
        return False

    def s_Raise(self, s):
        if s.exc is None:
            e = self.st.vars.get("exc")
            if e is None:
                self.throw("RuntimeError", "no active exception")
            raise Rz(e)
        e = self.eval(s.exc)
        if isinstance(e, Cls):
            e = self.call(e, (), {})
        if s.cause is not None:
            self.eval(s.cause)
        self.event("raise", self.exc_name(e), "")
        raise Rz(e)

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            self.throw("AssertionError")

    def s_With(self, s):
        mgrs = []
        for i in s.items:
            m = self.eval(i.context_expr)
            mgrs.append(m)
            v = self.call(self.getattr(m, "__enter__"), (), {})
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        try:
            self.block(s.body)
        except Rz as e:
            for m in reversed(mgrs):
                r = self.call(self.getattr(m, "__exit__"), (None, e.exc, None), {})
                if not isinstance(r, (Sym, App)) and self.truth(r):
                    return
            raise
        except (Ret, Brk, Cont):
            for m in reversed(mgrs):
                self.call(self.getattr(m, "__exit__"), (None, None, None), {})
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, "__exit__"), (None, None, None), {})

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d), (f,), {})
        self.store(s.name, f)

    def s_AsyncFunctionDef(self, s):
        self.unsupported("async function")

    def fcode(self, node, name):
        c = getattr(node, "_fc", None)
        if c is None:
            q = self.code.qual if self.code and self.code.name != "<module>" else ""
            c = FuncCode(node, name, (q + "." if q else "") + name, self.code.module)
            c.owner = self.cur_class
            node._fc = c
        return c

    cur_class = None

    def make_func(self, node, name):
        code = self.fcode(node, name)
        a = node.args
        dfl = tuple(self.eval(d) for d in a.defaults)
        kwd = tuple((p.arg, self.eval(d)) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        fr = self.fr
        if self.st.heap[fr.oid].kind == "module":
            fr = None
        elif self.st.heap[fr.oid].kind == "classbody":
            fr = self.st.heap[fr.oid].extra[0]
            if fr is not None and self.st.heap[fr.oid].kind == "module":
                fr = None
        return Func(code, fr, dfl, kwd)

    def s_ClassDef(self, s):
        bases = []
        namedtuple = False
        for b in s.bases:
            v = self.eval(b)
            if isinstance(v, Cls):
                bases.append(v.info)
            elif isinstance(v, Ext):
                if v.name.split(".")[-1] == "NamedTuple":
                    namedtuple = True
                elif v.name.split(".")[-1] in ("Enum", "IntEnum", "TypedDict", "Flag"):
                    self.unsupported("base class " + v.name)
            elif isinstance(v, Builtin):
                if v.name != "object":
                    self.unsupported("subclass of " + v.name)
            elif isinstance(v, App) and v.op == "ntbase":
                namedtuple = True
            else:
                self.unsupported("base class %s" % show(v))
        for k in s.keywords:
            self.eval(k.value)
        ci = ClassInfo(s.name, self.code.module, bases, s.lineno)
        ci.namedtuple = namedtuple
        code = getattr(s, "_fc", None)
        if code is None:
            q = self.code.qual if self.code.name != "<module>" else ""
            code = s._fc = FuncCode(s, s.name, (q + "." if q else "") + s.name, self.code.module)
        ci.oid = self.alloc("classbody", d={}, extra=(self.fr, code), cls=ci).oid
        saved = (self.fr, self.code, self.cur_class)
        # methods take their qualified name and owner from here
        self.fr, self.code, self.cur_class = Ref(ci.oid), code, ci
        try:
            self.st.heap[ci.oid].d["__qualname__"] = s.name
            for b in s.body:
                self.stmt(b)
        finally:
            self.fr, self.code, self.cur_class = saved
        ci.ns = self.st.heap[ci.oid].d
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                n = b.target.id
                ann = ast.unparse(b.annotation)
                if "ClassVar" in ann:
                    continue
                opts = {}
                if n in ci.ns:
                    d = ci.ns[n]
                    if isinstance(d, App) and d.op == "dcfield":
                        opts = dict(d.args)
                    else:
                        opts = {"default": d}
                ci.own_fields.append((n, n in ci.ns, opts))
        if not (namedtuple or any(isinstance(d, (ast.Name, ast.Call, ast.Attribute)) and "dataclass" in ast.unparse(d)
                                  for d in s.decorator_list)):
            ci.own_fields = []
        v = Cls(ci)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), (v,), {})
        self.store(s.name, v)

    def s_Import(self, s):
        for a in s.names:
            if a.name in self.modules:
                m = self.import_module(a.name)
                self.store(a.asname or a.name.split(".")[0], m if a.asname else self.import_module(a.name.split(".")[0]))
            else:
                self.store(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        if s.level:
            parts = self.code.module.name.split(".")
            if not self.code.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if isinstance(m, Ext):
                self.store(a.asname or a.name, Ext(m.name + "." + a.name))
                continue
            if a.name == "*":
                d = self.st.heap[self.mod_oid[name]].d
                allv = d.get("__all__")
                names = ([x.v for x in self.iterate(allv)] if allv is not None
                         else [k for k in d if not k.startswith("_")])
                for n in names:
                    self.store(n, self.mod_get(name, n))
                continue
            v = self.mod_get(name, a.name)
            if v is None:
                self.unsupported("import of %s from %s" % (a.name, name))
            self.store(a.asname or a.name, v)

    def s_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            binds = {}
            if self.pattern(c.pattern, v, binds):
                for k, x in binds.items():
                    self.store(k, x)
                if c.guard is None or self.truth(self.eval(c.guard)):
                    self.block(c.body)
                    return

    def pattern(self, p, v, binds):
        t = type(p).__name__
        if t == "MatchAs":
            if p.pattern is not None and not self.pattern(p.pattern, v, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if t == "MatchValue":
            return self.eq(v, self.eval(p.value))
        if t == "MatchSingleton":
            return self.is_(v, p.value)
        if t == "MatchOr":
            return any(self.pattern(q, v, binds) for q in p.patterns)
        if t == "MatchSequence":
            tv = self.as_tuple(v)
            if tv is None and self.is_kind(v, "list") and all(isinstance(s, E) for s in self.rec(v).segs):
                tv = [s.v for s in self.rec(v).segs]
            if tv is None:
                self.unsupported("sequence pattern on %s" % show(v))
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                self.unsupported("starred pattern")
            return len(tv) == len(p.patterns) and all(self.pattern(q, x, binds) for q, x in zip(p.patterns, tv))
        if t == "MatchClass":
            c = self.eval(p.cls)
            if not self.lib.isinstance_(self, v, c):
                return False
            if p.patterns:
                ci = self.obj_cls(v)
                ma = ci.lookup("__match_args__") if ci else None
                if ma:
                    names = [x.v for x in ma[1].segs]
                elif ci is not None and (ci.dc() is not None or ci.is_tuple()):
                    names = [f[0] for f in ci.fields()]
                elif len(p.patterns) == 1 and ci is None:
                    return self.pattern(p.patterns[0], v, binds)
                else:
                    self.throw("TypeError", "positional class pattern")
                for n, q in zip(names, p.patterns):
                    if not self.pattern(q, self.getattr(v, n), binds):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(q, self.getattr(v, n), binds):
                    return False
            return True
        self.unsupported("pattern " + t)

    # ---- expressions ---------------------------------------------------------------------------------------
    def eval(self, n):
        if hasattr(n, "lineno"):
            self.lineno = n.lineno
        h = self.dispatch_e.get(type(n).__name__)
        if h is None:
            self.unsupported("expression " + type(n).__name__)
        return h(n)

    def e_Constant(self, n):
        if n.value is Ellipsis:
            return Sym("Ellipsis")
        return n.value

    def e_Name(self, n):
        return self.load(n.id)

    def e_Attribute(self, n):
        o = self.eval(n.value)
        self.lineno = n.lineno
        return self.getattr(o, n.attr)

    def e_Tuple(self, n):
        return Tup(tuple(self.elts(n.elts)))

    def e_List(self, n):
        return self.new_list(self.elts(n.elts))

    def e_Set(self, n):
        return self.alloc("set", segs=tuple(self.lib.dedup(self, self.elts(n.elts))))

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value)))
            else:
                out.append(E(self.eval(e)))
        return out

    def e_Dict(self, n):
        items = []
        ref = self.alloc("dict", d={}, extra=())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v)
                for kk, vv in self.rec(o).extra:
                    self.lib.setitem(self, ref, kk, vv)
            else:
                self.lib.setitem(self, ref, self.eval(k), self.eval(v))
        return ref

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        for i, v in enumerate(n.values):
            x = self.eval(v)
            if i == len(n.values) - 1:
                return x
            if self.truth(x) != isand:
                return x if not self.boolish(x) else (not isand)

    def boolish(self, x):
        return isinstance(x, (Sym, App)) and sort_of(x) == "bool"

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if is_int(v) or isinstance(v, (int, bool)):
                return scale(v, -1)
            if isinstance(v, float):
                return -v
            if isinstance(v, (Sym, App)):
                return scale(v, -1)
            self.throw("TypeError", "bad operand for -")
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(n.op, ast.Invert) and is_int(v):
            return sub(scale(v, -1), 1)
        self.unsupported("unary operator")

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        self.lineno = n.lineno
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b, inplace=False):
        return self.lib.binop(self, op, self.settle(a), self.settle(b), inplace)

    def e_Compare(self, n):
        left = self.eval(n.left)
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c)
            if not self.compare(type(op).__name__, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return not self.eq(a, b)
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op == "In":
            return self.contains(a, b)
        if op == "NotIn":
            return not self.contains(a, b)
        return self.order(op, a, b)

    def e_IfExp(self, n):
        return self.eval(n.body) if self.truth(self.eval(n.test)) else self.eval(n.orelse)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.store(n.target.id, v)
        return v

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                    if not isinstance(spec, str):
                        self.unsupported("computed format specification")
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(self.lib.fmt_value(self, x, conv, spec))
        return self.lib.mk_str(parts)

    def e_FormattedValue(self, n):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]))

    def e_Starred(self, n):
        self.unsupported("starred expression")

    def index_of(self, n):
        if isinstance(n, ast.Slice):
            return self.slice_of(n)
        return self.eval(n)

    def slice_of(self, n):
        return ("slice", None if n.lower is None else self.eval(n.lower), None if n.upper is None else self.eval(n.upper),
                None if n.step is None else self.eval(n.step))

    def e_Subscript(self, n):
        o = self.eval(n.value)
        if isinstance(o, (Cls, Ext)) or isinstance(o, Builtin):
            return o  # Generic[...] and friends
        k = self.index_of(n.slice)
        self.lineno = n.lineno
        return self.lib.getitem(self, o, k)

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.super_()
        if isinstance(n.func, ast.Name) and n.func.id in ("next", "any", "all") and n.args and not n.keywords:
            f = self.eval(n.func)
            if isinstance(f, Builtin) and f.name == n.func.id:
                v = self.lazy_builtin(n)
                if v is not None:
                    return v[0]
                self.lineno = n.lineno
        f, args, kw = self.call_parts(n)
        self.lineno = n.lineno
        return self.call(f, args, kw)

    def lazy_builtin(self, n):
        """next, any and all of a generator made on the spot: no element is computed after the deciding one."""
        name, a = n.func.id, n.args[0]
        if name != "next" and len(n.args) != 1 or len(n.args) > 2 or any(isinstance(x, ast.Starred) for x in n.args):
            return None
        if isinstance(a, ast.GeneratorExp):
            if not has_calls([a.elt] + [c for g in a.generators for c in g.ifs] + [g.iter for g in a.generators[1:]]):
                return None
            first = tuple(self.iterate(self.eval(a.generators[0].iter)))
            if any(isinstance(s, Star) for s in first):
                rest = [self.eval(x) for x in n.args[1:]]
                return (self.call(Builtin(name), (self.new_iter(self.comp(a, (self.new_list(first),))),) + tuple(rest), {}),)
            run = lambda body: self.comp(a, (self.new_list(first),), body)
        elif isinstance(a, ast.Call) and not is_super(a):
            parts = self.call_parts(a)
            if not gen_with_calls(parts[0]):
                rest = [self.eval(x) for x in n.args[1:]]
                return (self.call(Builtin(name), (self.call(*parts),) + tuple(rest), {}),)
            run = lambda body: self.lazy_gen(parts, body)
        else:
            return None
        rest = [self.eval(x) for x in n.args[1:]]

        def body(v):
            if name == "next" or self.truth(v) == (name == "any"):
                raise Ret(v if name == "next" else name == "any")
        try:
            run(body)
        except Ret as r:
            if is_early(r.value):
                raise
            return (r.value,)
        if name != "next":
            return (name == "all",)
        if not rest:
            self.throw("StopIteration")
        return (rest[0],)

    def call_parts(self, n):
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.spread(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for kk, vv in self.rec(v).extra:
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return f, tuple(args), kw

    def spread(self, v):
        """Positional arguments from *v."""
        out = []
        for s in self.iterate(v):
            out.append(s.v if isinstance(s, E) else s)
        return out

    def super_(self):
        r = self.st.heap[self.fr.oid]
        fr, code = self.fr, None
        while True:
            parent, code = r.extra
            if code.owner is not None and not code_is_comp(code) and isinstance(code.node, ast.FunctionDef):
                break
            if parent is None:
                self.unsupported("super() outside a method")
            r = self.st.heap[parent.oid]
        a = code.node.args
        name = (a.posonlyargs + a.args)[0].arg
        return App("super", (code.owner_key(), r.d[name])) if hasattr(code, "owner_key") else \
            App("super", (Cls(code.owner), r.d[name]))

    def e_ListComp(self, n):
        return self.new_list(self.comp(n))

    def e_GeneratorExp(self, n):
        return self.new_iter(self.comp(n))

    def e_SetComp(self, n):
        return self.alloc("set", segs=tuple(self.lib.dedup(self, self.comp(n))))

    def e_DictComp(self, n):
        ref = self.alloc("dict", d={}, extra=())
        pair = ast.copy_location(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n)
        fake = getattr(n, "_fake", None)
        if fake is None:
            fake = n._fake = ast.copy_location(ast.ListComp(elt=pair, generators=n.generators), n)
        for s in self.comp(fake):
            if not isinstance(s, E):
                self.unsupported("dict comprehension over a list of unknown length")
            k, v = self.as_tuple(s.v)
            self.lib.setitem(self, ref, k, v)
        return ref

    def comp(self, n, first=None, sink=None):
        """Segments produced by a comprehension; sink takes them one by one instead."""
        code = getattr(n, "_fc", None)
        if code is None:
            code = n._fc = FuncCode(None, "<comp>", (self.code.qual if self.code else "") + ".<comp>", self.code.module)
            code.node = n
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        code.locals.add(x.id)
            code.owner = None
        first = self.eval(n.generators[0].iter) if first is None else first[0]
        fr = self.alloc("frame", d={}, extra=(self.fr, code))
        acc = self.new_list()
        self.rec(fr).d["$acc"] = acc
        saved = (self.fr, self.code)
        self.fr, self.code = fr, code
        self.stack.append(fr)
        try:
            self.comp_level(n, 0, first, acc, sink)
        finally:
            self.stack.pop()
            self.fr, self.code = saved
        return self.rec(acc).segs

    def comp_level(self, n, i, it, acc, sink=None):
        g = n.generators[i]

        def body(v):
            self.assign(g.target, v)
            for c in g.ifs:
                if not self.truth(self.eval(c)):
                    return
            if i + 1 < len(n.generators):
                self.comp_level(n, i + 1, self.eval(n.generators[i + 1].iter), acc, sink)
                if not any(isinstance(x, ast.Lambda) for x in ast.walk(n)):
                    for x in ast.walk(n.generators[i + 1].target):
                        if isinstance(x, ast.Name) and x.id in self.rec(self.fr).d:
                            self.w(self.fr).d.pop(x.id)
            else:
                x = self.eval(n.elt)
                if sink is not None:
                    sink(x)
                    return
                r = self.w(acc)
                r.segs = r.segs + (E(x),)
        self.for_each(it, body, g.target)

    def e_Yield(self, n):
        v = None if n.value is None else self.eval(n.value)
        self.yield_segs((E(v),))
        return None

    def e_YieldFrom(self, n):
        self.yield_segs(self.iterate(self.eval(n.value)))
        return None

    def yield_segs(self, segs):
        f = self.fr
        while code_is_comp(self.st.heap[f.oid].extra[1]):
            f = self.st.heap[f.oid].extra[0]
        acc = self.st.heap[f.oid].d["$acc"]
        sink = self.sinks.get(f.oid)
        if sink is not None:
            for s in segs:
                self.loopmod.one(self, s, sink, None)
            return
        r = self.w(acc)
        r.segs = r.segs + tuple(segs)

    # ---- attributes ----------------------------------------------------------------------------------------
    def getattr(self, o, name, default=None, has_default=False):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "obj":
                hit = r.cls.lookup(name)
                if hit is not None:
                    v = hit[1]
                    if isinstance(v, App) and v.op == "property":
                        return self.call(v.args[0], (o,), {})
                if name in r.d:
                    return r.d[name]
                if hit is not None:
                    return self.bind(hit[1], o, r.cls)
                if name == "__class__":
                    return Cls(r.cls)
                if name == "__dict__":
                    return self.alloc("dict", d={}, extra=tuple(r.d.items()))
                if r.cls.is_tuple() and name in ("_replace", "_asdict", "index", "count"):
                    return BMeth(o, name)
                if r.cls.is_tuple() and name == "_fields":
                    return Tup(tuple(E(f[0]) for f in r.cls.fields()))
                if name in ("__init__", "__repr__", "__str__", "__eq__", "__hash__", "__init_subclass__", "with_traceback",
                            "__iter__") and (name != "__iter__" or r.cls.is_tuple()):
                    return BMeth(o, name)
                g = r.cls.lookup("__getattr__")
                if g is not None:
                    return self.call(self.bind(g[1], o, r.cls), (name,), {})
                if has_default:
                    return default
                self.throw("AttributeError", "%s has no attribute %s" % (r.cls.name, name))
            if r.kind == "classbody":
                return self.getattr(Cls(r.cls), name, default, has_default)
            return BMeth(o, name)
        if isinstance(o, Cls):
            hit = o.info.lookup(name)
            if hit is not None:
                v = hit[1]
                if isinstance(v, App) and v.op == "classmethod":
                    return Bound(o, v.args[0])
                if isinstance(v, App) and v.op == "staticmethod":
                    return v.args[0]
                return v
            if name in ("__name__", "__qualname__"):
                return o.info.name
            if name == "_fields":
                return Tup(tuple(E(f[0]) for f in o.info.fields()))
            if name in ("_make",):
                return BMeth(o, name)
            if name in ("__init__", "__new__", "__init_subclass__", "__repr__", "__str__", "__eq__", "__hash__"):
                return BMeth(o, name)
            if name == "__module__":
                return o.info.module.name if o.info.module else "builtins"
            if name == "__doc__":
                return None
            if has_default:
                return default
            self.throw("AttributeError", "class %s has no attribute %s" % (o.info.name, name))
        if isinstance(o, Mod):
            v = self.mod_get(o.name, name)
            if v is None:
                if has_default:
                    return default
                self.throw("AttributeError", "module %s has no attribute %s" % (o.name, name))
            return v
        if isinstance(o, Ext):
            return Ext(o.name + "." + name)
        if isinstance(o, App) and o.op == "super":
            cls, self_ = o.args
            start = self.obj_cls(self_) or (self_.info if isinstance(self_, Cls) else None)
            mro = start.mro
            for c in mro[mro.index(cls.info) + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], self_, c)
            return BMeth(self_, name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.code.name
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                return o
            if name in ("__defaults__",):
                return Tup(tuple(E(d) for d in o.defaults))
            if has_default:
                return default
            return BMeth(o, name)
        if isinstance(o, Bound) and name in ("__self__", "__func__"):
            return o.self_ if name == "__self__" else o.func
        if isinstance(o, Bound) and name == "__name__":
            return self.getattr(o.func, name)
        if o is None:
            if has_default:
                return default
            if name == "__class__":
                return Ext("NoneType")
            self.throw("AttributeError", "None has no attribute %s" % name)
        if isinstance(o, (str, Tup)):
            return BMeth(o, name)
        if isinstance(o, Builtin):
            return Builtin(o.name + "." + name)
        if isinstance(o, (Sym, App)):
            if self.st.facts.lit(("none", o)) is True:
                if has_default:
                    return default
                self.throw("AttributeError", "None has no attribute %s" % name)
            return self.opaque_attr(o, name)
        if isinstance(o, (bool, int, float, Lin)):
            if name in ("real", "numerator"):
                return o
            if has_default:
                return default
            if name in ("bit_length", "__index__", "__int__", "conjugate", "__add__", "__lt__", "__eq__"):
                return BMeth(o, name)
            self.throw("AttributeError", "int has no attribute %s" % name)
        if isinstance(o, Partial):
            if name in ("func",):
                return o.fn
        self.unsupported("attribute %s of %s" % (name, show(o)))

    def opaque_attr(self, o, name):
        if sort_of(o) in ("str", "stream"):
            return BMeth(o, name)
        if isinstance(o, App) and o.op == "call" and name in ("parse_fn", "parse_fast_fn", "to_fns"):
            return BMeth(o, name)
        if isinstance(o, App) and o.op == "fns":
            return BMeth(o, name)
        return App("attr", (o, name))

    def bind(self, v, o, cls):
        if isinstance(v, Func) or isinstance(v, Partial) and False:
            return Bound(o, v)
        if isinstance(v, App):
            if v.op == "staticmethod":
                return v.args[0]
            if v.op == "classmethod":
                return Bound(Cls(self.obj_cls(o) or cls), v.args[0])
            if v.op == "property":
                return self.call(v.args[0], (o,), {})
            if v.op == "partialmethod":
                return Partial(Bound(o, v.args[0]), v.args[1:], ())
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == "obj":
                hit = r.cls.lookup(name)
                if hit and isinstance(hit[1], App) and hit[1].op == "property":
                    if len(hit[1].args) > 1 and hit[1].args[1] is not None:
                        self.call(hit[1].args[1], (o, v), {})
                        return
                    self.throw("AttributeError", "can't set " + name)
                dc = r.cls.dc()
                if (dc is not None and dc.get("frozen")) or r.cls.is_tuple():
                    self.throw("AttributeError", "cannot assign to field " + name)
                self.w(o, name).d[name] = v
                return
        if isinstance(o, Cls):
            ref = Ref(o.info.oid)
            self.w(ref, name).d[name] = v
            self.event("setclassattr", o, name)
            o.info.ns = self.rec(ref).d
            return
        if isinstance(o, Mod):
            self.w(Ref(self.mod_oid[o.name]), name).d[name] = v
            return
        if isinstance(o, Func):
            self.event("setfuncattr", o, name)
            if self.st.phase >= 2:
                self.event("write", -1, "function", 0, o.code.where(), name, None)
            return
        if isinstance(o, (Sym, App)):
            self.event("write", -1, "opaque", 0, show(o), name, None)
            return
        if o is None:
            self.throw("AttributeError", "None has no attribute %s" % name)
        self.unsupported("attribute assignment on %s" % show(o))

    # ---- calls ---------------------------------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, (f.self_,) + tuple(args), kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Builtin):
            return self.lib.call_builtin(self, f.name, args, kw)
        if isinstance(f, BMeth):
            return self.lib.call_method(self, f.self_, f.name, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, f.args + tuple(args), k)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw)
        if isinstance(f, Ref):
            c = self.obj_cls(f)
            if c is not None and c.lookup("__call__"):
                return self.call(self.getattr(f, "__call__"), args, kw)
            self.throw("TypeError", "object is not callable")
        if f is None or isinstance(f, (int, str, Lin, Tup)):
            self.throw("TypeError", "%s is not callable" % show(f))
        if isinstance(f, App) and f.op == "extfn":
            return self.lib.call_extfn(self, f, args, kw)
        if isinstance(f, App) and f.op in ("setter",):
            return App("property", (f.args[0], args[0]))
        if isinstance(f, App) and f.op == "attr":
            return self.lib.opaque_method(self, f.args[0], f.args[1], args, kw)
        if isinstance(f, (Sym, App)):
            return self.call_user(f, args, kw)
        self.unsupported("call of %s" % show(f))

    def call_user(self, f, args, kw):
        """A callback given by the user (or a value produced by one)."""
        h = self.user_handlers.get(f.name) if isinstance(f, Sym) else None
        if h is not None:
            return h(self, args, kw)
        cargs = tuple(self.termify(a) for a in args) + tuple(("kw", k, self.termify(v)) for k, v in sorted(kw.items()))
        t = App("call", (f,) + cargs)
        self.event("user", f, cargs, args)
        if self.raise_user and self.choose(2, ["%s returns" % show(f), "%s raises" % show(f)]):
            exc = App("userexc", (f,) + cargs)
            self.event("userraise", exc)
            raise Rz(exc)
        return t

    user_handlers = {}

    def termify(self, v):
        """A value as part of a term: containers become tuples of segments."""
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "iter", "set"):
                return App("list", tuple(self.termify_seg(s) for s in r.segs))
            if r.kind == "obj":
                if r.cls.is_tuple() or r.cls.dc() is not None:
                    return App("obj", (r.cls.name,) + tuple(self.termify(r.d.get(f[0])) for f in r.cls.fields()))
                return App("ref", (r.cls.name, v.oid))
            if r.kind == "dict":
                return App("dict", tuple((self.termify(k), self.termify(x)) for k, x in r.extra or ()))
            return App("ref", (r.kind, v.oid))
        if isinstance(v, Tup):
            return Tup(tuple(self.termify_seg(s) for s in v.segs))
        return v

    def termify_seg(self, s):
        if isinstance(s, E):
            return E(self.termify(s.v))
        return s

    def call_func(self, f, args, kw):
        code = f.code
        self.functions_seen.add(code.where() + " " + code.qual)
        if len(self.calls) > MAX_DEPTH:
            self.unsupported("call depth")
        if f.cached:
            return self.lib.call_cached(self, f, args, kw)
        # re-entry of the same closure
        key = f.frame.oid if f.frame is not None else None
        selfkey = args[0].oid if (code.owner is not None and args and isinstance(args[0], Ref)) else None
        n = m = 0
        for c, k, sk in self.calls:
            if c is code:
                m += 1
                if k == key and sk == selfkey:
                    n += 1
        if m > self.nested[0]:
            self.nested = (m, code.qual, code.where())
        if n and (key is not None or selfkey is not None):
            r = self.rec_oracle(self, f, args, kw, n) if self.rec_oracle else None
            if r is not None:
                return r[0]
        if n >= RECURSION_BOUND and n >= 2:
            self.event("deep", code.qual, code.where())
            if n >= 24:
                raise Dead()
        fr = self.alloc("frame", d={}, extra=(f.frame, code))
        self.bind_args(f, fr, args, kw)
        saved = (self.fr, self.code, self.lineno)
        self.fr, self.code = fr, code
        self.stack.append(fr)
        self.calls.append((code, key, selfkey))
        if len(self.calls) > self.maxdepth:
            self.maxdepth = len(self.calls)
        try:
            if isinstance(code.node, ast.Lambda):
                return self.eval(code.node.body)
            acc = sink = None
            if code.is_gen:
                acc = self.new_list()
                self.rec(fr).d["$acc"] = acc
                sink = self.sinks[fr.oid] = self.sink
                self.sink = None
            try:
                self.block(code.node.body)
                v = None
            except Ret as r:
                v = r.value
                if is_early(v):
                    raise
            finally:
                if sink is not None:
                    self.sinks.pop(fr.oid, None)
            if code.is_gen:
                return self.new_iter(self.rec(acc).segs)
            return v
        finally:
            self.calls.pop()
            self.stack.pop()
            if not code.module.rel.startswith("<") and (saved[1] is None or saved[1].module is None or
                                                        saved[1].module.rel.startswith("<")):
                self.last = self.site()
            self.fr, self.code, self.lineno = saved

    def bind_args(self, f, fr, args, kw):
        a = f.code.node.args
        d = self.rec(fr).d
        params = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        if any(isinstance(x, (X, Star, Idx)) for x in args[:len(params)]):
            self.unsupported("call with an unknown number of arguments")
        for p in params:
            if args:
                if p in kw and p not in [q.arg for q in a.posonlyargs]:
                    self.throw("TypeError", "multiple values for " + p)
                d[p] = args.pop(0)
            elif p in kw:
                d[p] = kw.pop(p)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in d:
                j = i - (len(params) - nd)
                if j < 0:
                    self.throw("TypeError", "%s() missing argument %s" % (f.code.name, p))
                d[p] = f.defaults[j]
        if args:
            if a.vararg is None:
                self.throw("TypeError", "%s() takes %d arguments" % (f.code.name, len(params)))
        if a.vararg is not None:
            d[a.vararg.arg] = Tup(tuple(x if isinstance(x, (X, Star, Idx)) else E(x) for x in args))
        kwd = dict(f.kwdefaults)
        for p in a.kwonlyargs:
            if p.arg in kw:
                d[p.arg] = kw.pop(p.arg)
            elif p.arg in kwd:
                d[p.arg] = kwd[p.arg]
            else:
                self.throw("TypeError", "%s() missing keyword argument %s" % (f.code.name, p.arg))
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.alloc("dict", d={}, extra=tuple(kw.items()))
        elif kw:
            self.throw("TypeError", "%s() got an unexpected argument %s" % (f.code.name, sorted(kw)[0]))

    def construct(self, c, args, kw):
        ci = c.info
        if ci.builtin or any(b.builtin for b in ci.mro) and ci.lookup("__init__") is None:
            ref = self.alloc("obj", cls=ci, d={"args": Tup(tuple(E(a) for a in args))})
            return ref
        if ci.lookup("__new__"):
            new = ci.lookup("__new__")[1]
            if isinstance(new, App) and new.op == "staticmethod":
                new = new.args[0]
            o = self.call(new, (c,) + tuple(args), kw)
            if self.obj_cls(o) is not ci:
                return o
        else:
            o = self.alloc("obj", cls=ci, d={})
        init = ci.lookup("__init__")
        if init is not None:
            self.call(self.bind(init[1], o, ci), args, kw)
            return o
        if ci.is_tuple() or ci.dc() is not None:
            self.lib.init_fields(self, o, ci, args, kw)
            return o
        if args or kw:
            self.throw("TypeError", "%s() takes no arguments" % ci.name)
        return o

    # ---- iteration -----------------------------------------------------------------------------------------
    def iterate(self, v):
        """The segments of an iterable; consumes iterators."""
        if isinstance(v, Tup):
            return v.segs
        if isinstance(v, str):
            return tuple(E(c) for c in v)
        if isinstance(v, Idx):
            return (v,)
        if isinstance(v, Sym) and v.sort == "stream" and self.world.set.sized:
            self.throw("TypeError", "an input of which only the length is known is not iterable")
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ("list", "set"):
                return r.segs
            if r.kind == "iter":
                segs = r.segs
                r = self.w(v, "iteration")
                r.segs = ()
                r.extra = "used"
                return segs
            if r.kind == "dict":
                return tuple(E(k) for k, _ in r.extra or ())
            if r.kind == "obj":
                t = self.as_tuple(v)
                if t is not None:
                    return tuple(E(x) for x in t)
                if r.cls.lookup("__iter__"):
                    it = self.call(self.getattr(v, "__iter__"), (), {})
                    if isinstance(it, Ref) and self.rec(it).kind == "obj" and self.rec(it).cls.lookup("__next__"):
                        return self.drain(it)
                    return self.iterate(it)
                if r.cls.lookup("__next__"):
                    return self.drain(v)
                self.throw("TypeError", "object is not iterable")
        if isinstance(v, (Sym, App)):
            s = sort_of(v)
            if s == "stream" or s == "str":
                if isinstance(v, App) and v.op == "slice":
                    base, lo, hi = v.args
                    return (Idx(0 if lo is None else lo, slen(base) if hi is None else hi, 1, ("item", base)),)
                return (Idx(0, slen(v), 1, ("item", v)),)
            if s == "any":
                if self.st.facts.lit(("none", v)) is True:
                    self.throw("TypeError", "None is not iterable")
                return (X(v),)
        if v is None or isinstance(v, (bool, int, Lin)):
            self.throw("TypeError", "%s is not iterable" % show(v))
        if isinstance(v, (Sym, App)):
            self.throw("TypeError", "%s is not iterable" % show(v))
        self.unsupported("iteration over %s" % show(v))

    def drain(self, it):
        out = []
        for _ in range(40):
            try:
                out.append(E(self.call(self.getattr(it, "__next__"), (), {})))
            except Rz as e:
                if self.exc_name(e.exc) == "StopIteration":
                    return tuple(out)
                raise
        self.unsupported("iterator class without end")


def code_is_comp(code):
    return code.name == "<comp>"
