"""Abstract values, affine integer forms and facts.

Constants (None, bool, int, str, float) represent themselves.  Everything else is one of the classes below.
"""
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple


class V:
    __slots__ = ()


@dataclass(frozen=True, eq=True)
class Sym(V):
    """An unknown value.  sort: any, int, nat, stream, str, bool"""
    name: str
    sort: str = "any"

    def __repr__(self):
        return self.name


@dataclass(frozen=True, eq=True)
class App(V):
    """A provenance term: `op` applied to args."""
    op: str
    args: Tuple[Any, ...]

    def __post_init__(self):
        object.__setattr__(self, "_h", hash((self.op, tuple((type(a), a) for a in self.args))))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not App or self._h != o._h or self.op != o.op or len(self.args) != len(o.args):
            return False
        return all(type(a) is type(b) and a == b for a, b in zip(self.args, o.args))

    def __repr__(self):
        if self.op == "attr":
            return "{}.{}".format(show(self.args[0]), self.args[1])
        if self.op == "item":
            return "{}[{}]".format(show(self.args[0]), show(self.args[1]))
        if self.op == "mcall":
            return "{}.{}({})".format(show(self.args[0]), self.args[1], ", ".join(map(show, self.args[2:])))
        if self.op == "call":
            return "{}({})".format(show(self.args[0]), ", ".join(map(show, self.args[1:])))
        if self.op == "res":
            return "{}.{}@{}".format(self.args[0], self.args[1], show(self.args[2]))
        return "{}({})".format(self.op, ", ".join(map(show, self.args)))


@dataclass(frozen=True, eq=True)
class Lin(V):
    """const + sum(coeff * atom); canonical, at least one term and not a bare atom."""
    const: int
    terms: Tuple[Tuple[Any, int], ...]

    def __repr__(self):
        s = ""
        for a, c in self.terms:
            s += (" + " if c > 0 else " - ") + ("" if abs(c) == 1 else str(abs(c)) + "*") + show(a)
        if self.const:
            s += (" + " if self.const > 0 else " - ") + str(abs(self.const))
        return s[3:] if s.startswith(" + ") else s.strip()


@dataclass(frozen=True, eq=True)
class Ref(V):
    oid: int

    def __repr__(self):
        return "#%d" % self.oid


@dataclass(frozen=True, eq=True)
class E(V):
    """Segment: one element."""
    v: Any

    def __repr__(self):
        return show(self.v)


@dataclass(frozen=True, eq=True)
class X(V):
    """Segment: all elements of an opaque iterable."""
    term: Any
    rev: bool = False

    def __repr__(self):
        return "*" + ("reversed " if self.rev else "") + show(self.term)


@dataclass(frozen=True, eq=True)
class Star(V):
    """Segment: any number of elements, described by the cases of a star record."""
    sid: int
    rev: bool = False

    def __repr__(self):
        return "*star%d%s" % (self.sid, "^r" if self.rev else "")


@dataclass(frozen=True, eq=True)
class Tup(V):
    segs: Tuple[Any, ...]

    def __repr__(self):
        return "(" + ", ".join(map(show, self.segs)) + ")"


@dataclass(frozen=True, eq=True)
class Cls(V):
    info: Any  # ClassInfo, compared by identity

    def __repr__(self):
        return self.info.name


@dataclass(frozen=True, eq=True)
class Func(V):
    code: Any  # FuncCode
    frame: Optional[Ref]
    defaults: Tuple[Any, ...]
    kwdefaults: Tuple[Tuple[str, Any], ...]
    cached: bool = False

    def __repr__(self):
        return self.code.qual


@dataclass(frozen=True, eq=True)
class Bound(V):
    self_: Any
    func: Any

    def __repr__(self):
        return "%s.%r" % (show(self.self_), self.func)


@dataclass(frozen=True, eq=True)
class Builtin(V):
    name: str

    def __repr__(self):
        return self.name


@dataclass(frozen=True, eq=True)
class BMeth(V):
    """Built-in method of a value the analyser models."""
    self_: Any
    name: str


@dataclass(frozen=True, eq=True)
class Partial(V):
    fn: Any
    args: Tuple[Any, ...]
    kw: Tuple[Tuple[str, Any], ...]


@dataclass(frozen=True, eq=True)
class Mod(V):
    name: str

    def __repr__(self):
        return "module " + self.name


@dataclass(frozen=True, eq=True)
class Ext(V):
    """A name of a module outside the repository."""
    name: str

    def __repr__(self):
        return self.name


@dataclass(frozen=True, eq=True)
class Idx(V):
    """An indexed iterable: make(i) for i in range(start, stop, step)."""
    start: Any
    stop: Any
    step: int
    make: Tuple[Any, ...]  # ('id',) | ('item', seq, off) | ('enum', inner make, off) | ('zip', makes)


class Unsupported(Exception):
    pass


class Split(Unsupported):
    """The code reads the first or last of any number of elements: the analysis is repeated with these elements made explicit."""


def show(v):
    if isinstance(v, str):
        return repr(v)
    return repr(v)


def is_const(v):
    return not isinstance(v, V)


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


# ---- affine forms -------------------------------------------------------------------------------------------

INT_ATTRS = {"pos", "line", "col", "cost", "ins", "count", "mark"}
INT_CALLS = {"count", "rfind", "find", "index", "rindex", "end", "start", "__len__"}
INT_RES = {"pos", "lpos", "epos", "cost", "ins", "min_prio"}
NAT_RES = {"pos", "lpos", "epos", "cost", "ins"}


def sort_of(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, Lin):
        return "int"
    if isinstance(v, Sym):
        return "int" if v.sort == "nat" else v.sort
    if isinstance(v, App):
        if v.op in ("len", "lin", "sum"):
            return "int"
        if v.op == "attr":
            return "int" if v.args[1] in INT_ATTRS else "any"
        if v.op == "mcall":
            if v.args[1] in INT_CALLS:
                return "int"
            if v.args[1] in ("startswith", "endswith", "isdigit", "isalpha"):
                return "bool"
            return "any"
        if v.op == "res":
            return "int" if v.args[1] in INT_RES else "any"
        if v.op == "rep":
            return "int" if v.args[2] in INT_RES else "any"
        if v.op in ("str", "conv", "join", "slice_str"):
            return "str"
        if v.op in ("newlines_before", "last_newline_before"):
            return "int"
        if v.op == "startswith":
            return "bool"
        if v.op == "slice":
            return "stream"
    return "any"


def is_int(v):
    return sort_of(v) == "int" and not isinstance(v, bool)


def lin_parts(v):
    if isinstance(v, bool):
        return int(v), ()
    if isinstance(v, int):
        return v, ()
    if isinstance(v, Lin):
        return v.const, v.terms
    return 0, ((v, 1),)


def _key(a):
    return repr(a)


def mk_lin(const, terms):
    d = {}
    for a, c in terms:
        d[a] = d.get(a, 0) + c
    ts = tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda t: _key(t[0])))
    if not ts:
        return const
    if const == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return Lin(const, ts)


def add(a, b, k=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    return mk_lin(ca + k * cb, ta + tuple((x, k * c) for x, c in tb))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, t = lin_parts(a)
    return mk_lin(c * k, tuple((x, y * k) for x, y in t))


# ---- substitution -------------------------------------------------------------------------------------------

def subst(v, m):
    """Replace atoms (Sym/App) of a term by the mapping m."""
    if not m or is_const(v):
        return v
    try:
        if v in m:
            return m[v]
    except TypeError:
        return v
    if isinstance(v, App):
        new = tuple(subst(a, m) for a in v.args)
        return v if all(x is y for x, y in zip(new, v.args)) else App(v.op, new)
    if isinstance(v, Lin):
        r = v.const
        for a, c in v.terms:
            r = add(r, scale(subst(a, m), c))
        return r
    if isinstance(v, Tup):
        return Tup(tuple(subst(a, m) for a in v.segs))
    if isinstance(v, E):
        return E(subst(v.v, m))
    if isinstance(v, X):
        return X(subst(v.term, m), v.rev)
    if isinstance(v, tuple):
        return tuple(subst(a, m) for a in v)
    return v


def atoms(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, Sym):
        out.add(v)
    elif isinstance(v, App):
        out.add(v)
        for a in v.args:
            atoms(a, out)
    elif isinstance(v, Lin):
        for a, _ in v.terms:
            atoms(a, out)
    elif isinstance(v, Tup):
        for a in v.segs:
            atoms(a, out)
    elif isinstance(v, E):
        atoms(v.v, out)
    elif isinstance(v, X):
        atoms(v.term, out)
    elif isinstance(v, tuple):
        for a in v:
            atoms(a, out)
    return out


STREAM = Sym("STREAM", "stream")
OTHER = Sym("OTHER", "stream")


def stream_of(P):
    """The input a sub-parser is run on (a name with a dash: the other one)."""
    return OTHER if isinstance(P, str) and P.endswith("'") or isinstance(P, App) and P.op == "other" else STREAM


def slen(s):
    """Length of a sequence term."""
    if isinstance(s, str):
        return len(s)
    if isinstance(s, App) and s.op == "slice":
        base, a, b = s.args
        if b is None:
            return sub(slen(base), 0 if a is None else a)
        return sub(b, 0 if a is None else a)
    return App("len", (s,))


NLC = "newlines_before"
NLP = "last_newline_before"


def newline_at(f, s, p, yes):
    """The newlines before p and before p + 1, when the element at p is a newline or is not."""
    q = add(p, 1)
    c, n = (0, -1) if same(p, 0) else (App(NLC, (s, p)), App(NLP, (s, p)))
    d = sub(sub(App(NLC, (s, q)), c), int(yes))
    e = sub(App(NLP, (s, q)), p if yes else n)
    for c in (d, e):
        f.assume(c)
        f.assume(scale(c, -1))


# ---- facts --------------------------------------------------------------------------------------------------

class Facts:
    """Literals (finite-domain facts about terms) and affine inequalities (each form >= 0)."""
    __slots__ = ("lits", "ineqs")

    def __init__(self, lits=None, ineqs=None):
        self.lits = dict(lits or {})
        self.ineqs = list(ineqs or [])

    def copy(self):
        f = Facts.__new__(Facts)
        f.lits = dict(self.lits)
        f.ineqs = list(self.ineqs)
        return f

    def axioms(self, forms, depth=3):
        """Inequalities that hold for the atoms of the given forms by the contracts of the analysis."""
        seen = set()
        todo = list(forms)
        out = []
        for _ in range(depth):
            nxt = []
            for f in todo:
                for a, _c in lin_parts(f)[1]:
                    if a in seen:
                        continue
                    seen.add(a)
                    for x in self.atom_axioms(a):
                        out.append(x)
                        nxt.append(x)
            if not nxt:
                break
            todo = nxt
        return out

    def atom_axioms(self, a):
        r = []
        if isinstance(a, Sym):
            if a.sort == "nat":
                r.append(a)
        elif isinstance(a, App):
            if a.op == "len":
                r.append(a)
                if isinstance(a.args[0], Sym) and a.args[0].name == "LITERAL":
                    r.append(sub(a, 1))
            elif a.op == "res":
                P, f, pos, mark = a.args[:4]
                if f == "pos":
                    k = self.lits.get(("kind", P, pos, mark))
                    r.append(sub(sub(a, pos), 1 if k == "OkC" else 0))
                    r.append(sub(slen(stream_of(P)), a))
                    r.append(a)
                elif f == "lpos":
                    if self.lits.get(("kind", P, pos, mark)) == "OkU":
                        r.append(sub(pos, a))
                    else:
                        r.append(sub(App("res", (P, "pos", pos, mark)), a))
                    r.append(a)
                elif f == "min_prio":
                    r.append(sub(a, 1))
                elif f == "epos":
                    r.append(sub(a, pos))
                    r.append(sub(slen(stream_of(P)), a))
            elif a.op == "rep":
                P, tag, f, pos, mark, rem = a.args[:6]
                if f == "pos":
                    r.append(sub(a, pos))
                    r.append(sub(slen(stream_of(P)), a))
                elif f == "lpos":
                    r.append(sub(App("rep", (P, tag, "pos", pos, mark, rem)), a))
                    r.append(a)
                elif f in ("cost", "min_prio"):
                    r.append(sub(a, 1))
                elif f == "ins":
                    r.append(a)
            elif a.op == "mcall":
                o, m = a.args[0], a.args[1]
                if m == "count":
                    r.append(a)
                elif m in ("find", "rfind"):
                    r.append(add(a, 1))
                elif m in ("end", "start") and isinstance(o, App) and o.op == "mcall" \
                        and o.args[1] in ("match", "fullmatch", "search") and len(o.args) >= 3:
                    s = o.args[2]
                    p = o.args[3] if len(o.args) > 3 else 0
                    if is_int(p):
                        r.append(sub(a, p))
                    r.append(sub(slen(s), a))
        return r

    def entails(self, form):
        """True if form >= 0 follows (sum of at most three known inequalities plus a nonnegative constant)."""
        c, t = lin_parts(form)
        if not t:
            return c >= 0
        known = self.ineqs + self.axioms([form] + self.ineqs)
        frontier = [form]
        seen = {form}
        for _ in range(4):
            nxt = []
            for g in frontier:
                gat = {a for a, k in lin_parts(g)[1] if k < 0} | {a for a, k in lin_parts(g)[1] if k > 0}
                for k in known:
                    kt = lin_parts(k)[1]
                    if not any(a in gat for a, _ in kt):
                        continue
                    d = sub(g, k)
                    dc, dt = lin_parts(d)
                    if not dt:
                        if dc >= 0:
                            return True
                        continue
                    if len(dt) <= len(lin_parts(g)[1]) + 1 and d not in seen and len(seen) < 400:
                        seen.add(d)
                        nxt.append(d)
            frontier = nxt
            if not frontier:
                return False
        return False

    def entails_eq(self, a, b):
        d = sub(a, b)
        return self.entails(d) and self.entails(scale(d, -1))

    def cmp(self, a, b):
        """Possible signs of a - b as a set of -1, 0, 1."""
        d = sub(a, b)
        c, t = lin_parts(d)
        if not t:
            return {(c > 0) - (c < 0)}
        r = {-1, 0, 1}
        n = scale(d, -1)
        if self.entails(d):  # a >= b
            r.discard(-1)
        if self.entails(n):
            r.discard(1)
        if self.entails(sub(d, 1)):
            return {1}
        if self.entails(sub(n, 1)):
            return {-1}
        if r == {-1, 0, 1} and self.lits.get(("neq0", d)) or self.lits.get(("neq0", n)):
            r.discard(0)
        if 0 in r:
            ne = [k[1] for k, v in self.lits.items() if v and k[0] == "neq0"]
            if ne:
                have = set(self.ineqs)
                eqs = {e for e in have if scale(e, -1) in have}
                if eqs and any(sub(d, k) in eqs for k in ne):
                    r.discard(0)
        return r

    def assume(self, form):
        c, t = lin_parts(form)
        if t and form not in self.ineqs:
            self.ineqs.append(form)

    def lit(self, key):
        return self.lits.get(key)

    def set(self, key, val):
        self.lits[key] = val


def compatible(f, g, ignore=()):
    """False if the two sets of facts contradict each other."""
    for k, v in g.lits.items():
        if k in f.lits and f.lits[k] != v and k[0] not in ignore:
            return False
    h = f.copy()
    for k, v in g.lits.items():
        h.lits.setdefault(k, v)
    for i in g.ineqs:
        h.assume(i)
    for i in h.ineqs:
        # contradiction: -i - 1 >= 0 entailed by the others
        j = Facts(h.lits, [x for x in h.ineqs if x != i])
        if j.entails(sub(scale(i, -1), 1)):
            return False
    return True
