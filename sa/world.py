"""The analysed world: the package, loaded and imported abstractly, and the contracts of unknown sub-parsers.

An unknown parser is an oracle.  Its contract is the one every parser of the library has to meet, so a combinator that
meets it for oracle operands meets it for all operands (induction over the structure of the parser).
"""
import ast
import os

from .domain import (App, Cls, E, Facts, Lin, OTHER, Ref, STREAM, Star, Sym, Tup, Unsupported, X, add, atoms, is_const, is_int, lin_parts, same, scale,
                     show, slen, sort_of, sub)
from .interp import Dead, Interp, Rz, State
from .loops import Case, new_star
from .model import MODEL
from .prog import FuncCode, Module, load_package

POS = Sym("POS", "nat")
MARK = Sym("MARK", "int")
INS = Sym("INS", "nat")
REM = Sym("REM", "nat")
GETLOC = Sym("GETLOC", "fn")
FMTLOC = Sym("FMTLOC", "fn")
F = Sym("F", "fn")
G = Sym("G", "fn")
TEST = Sym("TEST", "fn")
OBJ = Sym("S")
LABEL = Sym("LABEL", "str")
LITERAL = Sym("LITERAL", "str")
PAT = Sym("PAT", "str")
GROUP = Sym("GROUP")
KIND = Sym("KIND", "str")
DELTA = Sym("DELTA", "int")
V0 = Sym("V0")
V1 = Sym("V1")
MAXINS = Sym("MAXINS", "nat")
RECOVER = Sym("RECOVER", "bool")
LPOS0 = Sym("LPOS0", "nat")

KINDS = ("OkC", "OkU", "ErrC", "ErrU")

PRELUDE = """
import reparsec
from reparsec import *
from reparsec import layout, lexer, primitive, scannerless, sequence
from reparsec.layout import block, aligned, indented
from reparsec.sequence import eof, satisfy, sym, letter, digit
from reparsec.scannerless import literal, regexp
from reparsec.lexer import token, token_ins, split_tokens, iter_tokens

import re
from reparsec.core.types import Loc

class P_(reparsec.TupleParser):
    def __init__(self, name):
        self.name = name
    def parse_fast_fn(self, stream, pos, ctx):
        return __oracle__(self.name, "fast", stream, pos, ctx, None, None)
    def parse_fn(self, stream, pos, ctx, ins, rem):
        return __oracle__(self.name, "slow", stream, pos, ctx, ins, rem)

P = P_("P")
Q = P_("Q")
R = P_("R")
SEP = P_("SEP")
OP = P_("OP")
A1 = P_("A1")
A2 = P_("A2")
A3 = P_("A3")
A4 = P_("A4")
A5 = P_("A5")
A6 = P_("A6")
A7 = P_("A7")
A8 = P_("A8")

def delayed(p):
    d = Delay()
    d.define(p)
    return d

def delayed_after(make, p):
    d = Delay()
    r = make(d)
    d.define(p)
    return r

def delayed_chain(p):
    d1 = Delay()
    d2 = Delay()
    d1.define(d2)
    d2.define(p)
    return d1

def delayed_twice(p, q):
    d = Delay()
    d.define(p)
    try:
        d.define(q)
    except RuntimeError:
        return d
    raise ValueError("a second definition is accepted")

def delayed_again(p):
    return delayed_twice(p, p)

def delayed_run(d, p):
    try:
        d.parse("")
    except RuntimeError:
        d.define(p)
        return d
    raise ValueError("an undefined parser can be run")
""" + MODEL

ANCHORS = {
    "Ok": "reparsec.core.result", "Error": "reparsec.core.result", "Recovered": "reparsec.core.result",
    "Repair": "reparsec.core.repair", "OpItem": "reparsec.core.repair", "Insert": "reparsec.core.repair",
    "Skip": "reparsec.core.repair", "Loc": "reparsec.core.types", "Ctx": "reparsec.core.types",
    "ParseError": "reparsec.types", "ErrorItem": "reparsec.types", "LexError": "reparsec.lexer",
    "Token": "reparsec.lexer",
}


class Settings:
    """What the oracles of a scenario may do."""

    def __init__(self, kinds=KINDS, attempt=False, recover=True, tags=("A", "U", "K"), per=None, rest=True,
                 depth=None, recdepth=99, length=None, peel=2, far=False, sized=False):
        self.kinds = kinds
        self.attempt = attempt
        self.recover = recover
        self.tags = tags
        self.per = per or {}
        self.depth = depth
        self.length = length
        self.peel = peel
        self.recdepth = recdepth
        self.rest = rest
        self.sized = sized  # nothing but the length of the input may be asked for
        self.far = far  # of `length` remaining elements only the last one is accepted

    def options(self, name, pos):
        """What the parser may do in plain mode at pos (successes are bounded by depth where a scenario says so)."""
        if isinstance(name, str):
            name = name.rstrip("'")
        ks = self.per.get(name, self.kinds)
        if self.depth is not None and pos_depth(pos) >= self.depth:
            ks = tuple(k for k in ks if k.startswith("Err")) or ks
        return ks

    def recovers(self, name, pos):
        if isinstance(name, str):
            name = name.rstrip("'")
        if isinstance(self.recover, bool):
            return self.recover
        return name in self.recover and pos_depth(pos) <= self.recdepth


def offset(v):
    """The k of a term about the element at POS + k."""
    if isinstance(v, (Sym, Lin)):
        c, t = lin_parts(sub(v, POS)) if is_int(v) else (0, True)
        return None if t else c
    if isinstance(v, App):
        v = v.args
    if isinstance(v, tuple):
        for x in v:
            k = offset(x)
            if k is not None:
                return k
    return None


def pos_depth(pos):
    """How many sub-results a position is made of."""
    n = 0
    for a in atoms(pos):
        if isinstance(a, App) and a.op in ("res", "rep"):
            n += 1
    return n


def mutated_attrs(modules):
    """The attributes that some function sets on an object it did not just make (__init__ and __new__ aside)."""
    out = set()
    for m in modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) or \
                    getattr(fn, "name", "") in ("__init__", "__new__", "__post_init__", "__setstate__"):
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and (
                        getattr(n.func, "id", None) == "setattr" or getattr(n.func, "attr", None) == "__setattr__"):
                    out.add(n.args[1].value)
    return out


class World:
    def __init__(self, src_root):
        self.modules = load_package(src_root)
        if "reparsec" not in self.modules:
            raise Unsupported("package reparsec not found below %s" % src_root)
        tree = ast.parse(PRELUDE)
        self.modules["__harness__"] = Module("__harness__", "<harness>", "<harness>", tree, False, PRELUDE)
        I = self.I = Interp(self.modules)
        I.world = self
        I.diverged = []
        I.text_stream = None
        I.any_item = False
        I.seq_terms = set()
        I.oracle = oracle
        I.rec_oracle = reenter
        I.opaque_parser = opaque_parser
        I.user_handlers = {"GETLOC": get_loc_handler}
        I.globals_ = {s.name: s for s in (STREAM, POS, MARK, INS, REM, GETLOC, FMTLOC, F, G, TEST, OBJ, LABEL, LITERAL, PAT,
                                           GROUP, KIND, DELTA, V0, V1, MAXINS, RECOVER)}
        self.set = Settings()
        self.other = False  # analysing a run on another input
        self.split = {}
        self.mutated = mutated_attrs(self.modules)
        self.flags = []
        I.caller_site = lambda: I.site()
        self.sids = 0
        I.import_module("__harness__")
        self.cls = {}
        for n, m in ANCHORS.items():
            v = I.mod_get(m, n) if m in I.mod_oid else None
            if not isinstance(v, Cls):
                raise Unsupported("anchor class %s.%s not found" % (m, n))
            self.cls[n] = v
        self.base = I.st
        self.hcode = FuncCode(tree, "<harness>", "<harness>", self.modules["__harness__"])
        self.n_eval = 0
        self.stats = {"scenarios": 0, "outcomes": 0, "loops": 0, "paths": 0, "obligations": 0}

    def input(self):
        return OTHER if self.other else STREAM

    def start(self, a):
        """The number of elements from a to the starting position."""
        n = sub(POS, a)
        if type(n) is not int:
            raise Unsupported("a search from an unknown position")
        return n

    def far(self, key):
        """Only the last remaining element is accepted: the truth of a predicate about one of them."""
        k = offset(key)
        if k is None:
            return None
        return (k == self.set.length - 1) != (key[0] == "none")

    # ---- running code of the harness -----------------------------------------------------------------------
    def eval_in(self, src, env=None):
        """Evaluate an expression of the harness in the current state."""
        I = self.I
        node = ast.parse(src, mode="eval").body
        for n in ast.walk(node):
            if hasattr(n, "lineno"):
                n.lineno = 0
        saved = (I.fr, I.code, I.lineno)
        fr = Ref(I.mod_oid["__harness__"])
        code = self.hcode
        if env:
            code = FuncCode(None, "<env>", "<harness>", self.modules["__harness__"])
            code.locals = set(env)
            fr = I.alloc("frame", d=dict(env), extra=(fr, code))
        I.fr, I.code = fr, code
        I.stack.append(fr)
        try:
            return I.eval(node)
        finally:
            I.stack.pop()
            I.fr, I.code, I.lineno = saved

    def run(self, fn, st=None, limit=None):
        """All outcomes of fn() (called in the current state of the interpreter)."""
        I = self.I
        I.peel = self.set.peel
        st = (st or self.base).copy()
        saved = I.st
        n = I.paths
        l = I.loop_fix
        I.st = st
        try:
            outs = I.explore(fn, st, limit)
        finally:
            I.st = saved
        self.stats["outcomes"] += len(outs)
        self.stats["paths"] += I.paths - n
        self.stats["loops"] += I.loop_fix - l
        return outs

    # ---- the oracle of the model ---------------------------------------------------------------------------
    def hcls(self, name):
        return self.I.mod_get("__harness__", name)

    def smake(self, name, *a):
        return self.I.construct(self.hcls(name), a, {})

    def spec_oracle(self, name, pos, mark, ins, rem):
        I = self.I
        mark = canonical(I, name, pos, mark)
        I.event("sapply", name, "fast" if ins is None else "slow", pos, mark, ins, rem)
        k, s, cons, alt, rem = decide(I, name, ins is not None, pos, mark, rem)
        if s == "Ok":
            return self.smake("SOk", res(name, "value", pos, mark), pos if k == "OkU" else res(name, "pos", pos, mark),
                              res(name, "exp", pos, mark), k == "OkC")
        ep = pos if k == "ErrU" and not alt else res(name, "epos", pos, mark)
        exp = res(name, "exp2" if alt else "exp", pos, mark)
        if s in ("Err", "ErrX"):
            return self.smake("SErr", ep, exp, cons)

        def rec(g, t, ops):
            return self.smake("SRep", g("cost"), t == "A", g("ins"), ops, g("value"), g("pos"), g("exp"), t != "K")
        star = rep_star(I, name, pos, mark, rem, cons, lambda g: self.smake("SOp", g("op"), ep, exp, cons),
                        lambda g: self.smake("SOp", g("op2"), g("oploc"), g("opexp"), True), rec)
        return self.smake("SRec", I.new_list(star), ep, exp, cons)

    # ---- records -------------------------------------------------------------------------------------------
    def make(self, name, **kw):
        return self.I.construct(self.cls[name], (), kw)

    def loc(self, q):
        t = App("LOC2" if self.other else "LOC", (q,))
        return self.I.construct(self.cls["Loc"], (App("attr", (t, "pos")), App("attr", (t, "line")),
                                                  App("attr", (t, "col"))), {})

    def ctx(self, mark=MARK, lpos=LPOS0, getloc=GETLOC):
        self.I.st.facts.assume(sub(POS, lpos))
        n = slen(self.input())
        self.I.st.facts.assume(sub(n, POS))
        if self.set.length is not None:
            self.I.st.facts.assume(sub(sub(n, POS), self.set.length))
            self.I.st.facts.assume(sub(add(POS, self.set.length), n))
        return given(self.I, self.I.construct(self.cls["Ctx"], (
            mark, self.loc(lpos) if not isinstance(lpos, Ref) else lpos, getloc), {}))

    def loc_pos(self, v):
        """The position a Loc value stands for, or a description of something else."""
        I = self.I
        t = I.as_tuple(v)
        if t is not None and len(t) == 3:
            q = None
            for x, n in zip(t, ("pos", "line", "col")):
                if isinstance(x, App) and x.op == "attr" and x.args[1] == n and isinstance(x.args[0], App) \
                        and x.args[0].op == ("LOC2" if self.other else "LOC"):
                    p = x.args[0].args[0]
                    if q is not None and not same(p, q):
                        return ("mixed",) + tuple(t)
                    q = p
                else:
                    return ("fields",) + tuple(t)
            return q
        return ("notloc", I.termify(v))


# ---- callbacks ----------------------------------------------------------------------------------------------

def get_loc_handler(I, args, kw):
    """The user's location function: the location of a position, given an earlier location."""
    w = I.world
    names = ("loc", "stream", "pos")
    a = list(args) + [kw[n] for n in names[len(args):] if n in kw]
    if len(a) != 3:
        I.throw("TypeError", "get_loc takes three arguments")
    q = w.loc_pos(a[0])
    ok = True
    if isinstance(q, tuple):
        ok = False
    elif not is_int(a[2]) and not isinstance(a[2], int):
        ok = False
    elif not I.st.facts.entails(sub(a[2], q)):
        ok = False
    elif not same(a[1], w.input()):
        ok = False
    I.event("getloc", q, a[1], a[2], ok)
    return w.loc(a[2])


# ---- oracles ------------------------------------------------------------------------------------------------

def given(I, ref):
    """An object that others hold as well, so that it must not be modified."""
    I.rec(ref).birth = min(I.st.phase, 1)
    return ref


def copy_ctx(I, ctx, lpos):
    """A context that differs from ctx in its location only."""
    r = I.rec(ctx)
    ref = I.alloc("obj", cls=r.cls, d=dict(r.d))
    if "loc" not in r.d:
        raise Unsupported("Ctx has no attribute loc")
    I.rec(ref).d["loc"] = I.world.loc(lpos)
    return given(I, ref)


def res(P, f, pos, mark):
    return App("res", (P, f, pos, mark))


def rep(P, tag, f, pos, mark, rem):
    return App("rep", (P, tag, f, pos, mark, rem))


def bad(I, what, *a):
    I.event("bad", what, *a)
    I.world.flags.append((I.caller_site(), what, a))
    raise Dead()


def canonical(I, name, pos, mark):
    """The mark the parser was asked about before at this position, where the path makes this one equal to it."""
    f = I.st.facts
    if f.lit(("kind", name, pos, mark)) is None:
        for k in f.lits:
            if k[0] == "kind" and len(k) == 4 and k[1] == name and same(k[2], pos) and f.entails_eq(k[3], mark):
                return k[3]
    return mark


def decide(I, name, slow, pos, mark, rem):
    """What the parser does at pos: a fact of the path, the same one each time it is asked."""
    w = I.world
    f = I.st.facts
    key = ("kind", name, pos, mark)
    k = f.lit(key)
    if k is None:
        opts = w.set.options(name, pos)
        k = opts[I.choose(len(opts), ["%s at %s is %s" % (show(name), show(pos), o) for o in opts])]
        f.set(key, k)
    if k in ("OkC", "OkU"):
        return k, "Ok", k == "OkC", False, rem
    s = "Err"
    cons = k == "ErrC"
    alt = False
    if slow and w.set.recovers(name, pos):
        norem = I.is_none(rem)
        if norem:
            rem = None
        opts = ["Err"]
        if cons or not norem:
            opts.append("Rec")
        if not cons and not norem and w.set.attempt:
            opts += ["ErrX", "RecX"]
        sk = ("skind", name, pos, mark, rem)
        s = f.lit(sk)
        if s is None:
            s = opts[I.choose(len(opts), ["%s at %s gives %s" % (show(name), show(pos), o) for o in opts])]
            f.set(sk, s)
        if s in ("ErrX", "RecX"):
            cons = alt = True
    return k, s, cons, alt, rem


def rep_star(I, name, pos, mark, rem, cons, op1, op2, mk):
    """Any number of repairs; mk, op1 and op2 build the records."""
    w = I.world
    tags = [t for t in w.set.tags if not (t == "K" and cons)]
    ends = w.split.get(name, "")
    if not ends:
        return (any_repairs(I, name, pos, mark, rem, tags, op1, op2, mk),)
    k = ("count", name, pos, mark, rem)
    n = I.st.facts.lit(k)
    if n is None:
        opts = ("none", "one", "more") if len(ends) == 2 else ("none", "one")
        n = opts[I.choose(len(opts), ["%s at %s has %s repairs" % (show(name), show(pos), o) for o in opts])]
        I.st.facts.set(k, n)
    if n == "none":
        return ()
    if len(ends) == 1:
        end = end_repair(I, name, pos, mark, rem, tags, op1, op2, mk, "." + ends)
        mid = any_repairs(I, name, pos, mark, rem, tags, op1, op2, mk)
        return (end, mid) if ends == "f" else (mid, end)
    first = end_repair(I, name, pos, mark, rem, tags, op1, op2, mk, ".f")
    if n == "one":
        return (first,)
    mid = any_repairs(I, name, pos, mark, rem, tags, op1, op2, mk)
    return (first, mid, end_repair(I, name, pos, mark, rem, tags, op1, op2, mk, ".l"))


def end_repair(I, name, pos, mark, rem, tags, op1, op2, mk, suf):
    """The first or last of the repairs."""
    k = ("tag", rep(name, "*" + suf, "tag", pos, mark, rem))
    t = I.st.facts.lit(k)
    if t is None:
        t = tags[I.choose(len(tags), ["repair %s is of kind %s" % (suf, t) for t in tags])]
        I.st.facts.set(k, t)
    more = None
    if I.world.set.rest and ("ops", name) in I.world.split:
        k = ("more ops", rep(name, "*" + suf, "ops", pos, mark, rem))
        more = I.st.facts.lit(k)
        if more is None:
            more = bool(I.choose(2, ["one operation", "more operations"]))
            I.st.facts.set(k, more)
    return E(one_repair(I, name, pos, mark, rem, t, suf, more, op1, op2, mk))


def one_repair(I, name, pos, mark, rem, t, suf, more, op1, op2, mk):
    """more: whether there are further operations after the first; None if this is not decided."""
    def g(fld):
        return rep(name, t + suf, fld, pos, mark, rem)
    ops = [E(op1(g))]
    if I.world.set.rest and more is not False:
        saved = I.st.ls
        I.st.nid += 1
        lid2 = "O%d" % I.st.nid
        I.st.ls = saved + (lid2,)
        o2 = op2(g)
        I.st.ls = saved
        star = new_star(I, [Case({}, [], (E(o2),))], ("ops", name, t + suf), lid2, ((name, pos, mark, rem),))
        end = I.world.split.get(("ops", name)) if more else None
        if end == "f":
            ops.append(E(op2(lambda fld: g(fld + ".f"))))
        ops.append(star)
        if end == "l":
            ops.append(E(op2(lambda fld: g(fld + ".l"))))
    return mk(g, t, I.new_list(ops))


def any_repairs(I, name, pos, mark, rem, tags, op1, op2, mk):
    w = I.world
    I.st.nid += 1
    lid = "O%d" % I.st.nid
    saved = I.st.ls
    cases = []
    I.st.ls = saved + (lid,)
    for t in tags:
        for more in (False, True) if w.set.rest and ("ops", name) in w.split else (None,):
            lits = {("tag", rep(name, "*", "tag", pos, mark, rem)): t}
            if more is not None:
                lits[("more ops", rep(name, "*", "ops", pos, mark, rem))] = more
            cases.append(Case(lits, [], (E(one_repair(I, name, pos, mark, rem, t, "", more, op1, op2, mk)),)))
    I.st.ls = saved
    return new_star(I, cases, ("repairs", name, pos, mark, rem), lid, ((name, pos, mark, rem),))


def oracle(I, name, mode, stream, pos, ctx, ins=None, rem=None):
    w = I.world
    if not same(stream, w.input()):
        bad(I, "a parser is applied to something other than the input", stream)
    if w.other:
        name = name + "'" if isinstance(name, str) else App("other", (name,))
    if not (is_int(pos) or type(pos) is int):
        bad(I, "a parser is applied at something that is not a position", pos)
    c = I.obj_cls(ctx)
    if c is None or not c.issub(w.cls["Ctx"].info):
        bad(I, "a parser is applied without a context", ctx)
    mark = I.getattr(ctx, "mark")
    q = w.loc_pos(I.getattr(ctx, "loc"))
    if isinstance(q, tuple):
        lok = False
    else:
        lok = I.st.facts.entails(sub(pos, q))
    if mode == "slow" and not (is_int(ins) or type(ins) is int):
        bad(I, "a parser is applied with a limit that is not a number", ins)
    mark = canonical(I, name, pos, mark)
    I.event("apply", name, mode, pos, mark, ins, rem, q, lok)
    k, s, cons, alt, rem = decide(I, name, mode == "slow", pos, mark, rem)
    if s == "Ok":
        p2 = pos if k == "OkU" else res(name, "pos", pos, mark)
        lp = res(name, "lpos", pos, mark)
        return w.make("Ok", value=res(name, "value", pos, mark), pos=p2, ctx=copy_ctx(I, ctx, lp),
                      expected=res(name, "exp", pos, mark), consumed=k == "OkC")
    ep = pos if k == "ErrU" and not alt else res(name, "epos", pos, mark)
    exp = res(name, "exp2" if alt else "exp", pos, mark)
    if s in ("Err", "ErrX"):
        return w.make("Error", loc=w.loc(ep), expected=exp, consumed=cons)
    def rec(g, t, ops):
        return w.make("Repair", cost=g("cost"), prio={"A": None, "U": 0, "K": False}[t], ins=g("ins"), ops=ops,
                      value=g("value"), pos=g("pos"), ctx=copy_ctx(I, ctx, g("lpos")), expected=g("exp"), consumed=t != "K")
    star = rep_star(I, name, pos, mark, rem, cons,
                    lambda g: w.make("OpItem", op=g("op"), loc=w.loc(ep), expected=exp, consumed=cons),
                    lambda g: w.make("OpItem", op=g("op2"), loc=w.loc(g("oploc")), expected=g("opexp"), consumed=True), rec)
    reps = I.new_list(star)
    return w.make("Recovered", repairs=reps, min_prio=App("res", (name, "min_prio", pos, mark)), loc=w.loc(ep), expected=exp,
                  consumed=cons)


def reenter(I, f, args, kw, n):
    """Re-entry of a parser function into itself: the inductive hypothesis, a parser named REC."""
    w = I.world
    if I.st.phase < 2:
        return None
    code = f.code
    names = [p.arg for p in code.node.args.posonlyargs + code.node.args.args]
    vals = list(args) + [kw[x] for x in names[len(args):] if x in kw]
    ci = None
    for i, v in enumerate(vals):
        c = I.obj_cls(v)
        if c is not None and c.issub(w.cls["Ctx"].info):
            ci = i
            break
    if not ci or not (is_int(vals[ci - 1]) or type(vals[ci - 1]) is int):
        return None
    rest = vals[ci + 1:]
    I.event("recurse", code.qual, code.where(), dict(I.st.facts.lits))
    if rest and (is_int(rest[0]) or type(rest[0]) is int):
        return (oracle(I, "REC", "slow", w.input(), vals[ci - 1], vals[ci], rest[0], rest[1] if len(rest) > 1 else None),)
    return (oracle(I, "REC", "fast", w.input(), vals[ci - 1], vals[ci], None, None),)


def opaque_parser(I, o, name, args, kw):
    """A parser returned by a user function."""
    if name == "to_fns":
        return App("fns", (o,))
    names = ("stream", "pos", "ctx", "ins", "rem")
    a = list(args) + [kw[n] for n in names[len(args):] if n in kw]
    if name == "parse_fast_fn" and len(a) == 3:
        return oracle(I, o, "fast", *a)
    if name == "parse_fn" and len(a) == 5:
        return oracle(I, o, "slow", *a)
    I.throw("TypeError", name + " arguments")
