"""Loops of unknown length: exact peeling, then a fixpoint over generalised loop heads.

A head is a state in which everything that differs between two iterations is replaced by a loop symbol
(anti-unification), numbers that change by a constant per iteration become base + c * n, and lists that grow become
prefix + Star, where the cases of the star are what one iteration may append.  The fixpoint is reached when every
back edge is an instance of its head.
"""
import ast

from .domain import (App, BMeth, Bound, Cls, E, Facts, Func, Idx, Lin, Partial, Ref, Split, Star, Sym, Tup, Unsupported, V, X, add,
                     atoms, is_const, is_int, lin_parts, mk_lin, same, scale, show, slen, sort_of, sub, subst)
from . import interp as _i
from .live import dead_names

PEEL = 2
MAX_EXACT = 64
MAX_ROUNDS = 14
DEBUG = False
LAST_WHY = []


class LoopInfo:
    def __init__(self, lid, site, src):
        self.lid = lid
        self.site = site
        self.src = src
        self.node = None
        self.heads = []  # Head
        self.backs = []  # Back

    def __repr__(self):
        return "<loop %s at %s: %d heads, %d back edges>" % (self.lid, self.site, len(self.heads), len(self.backs))


class Head:
    def __init__(self, sig, st):
        self.sig = sig
        self.st = st
        self.base = {}  # loop symbol -> value in the first state
        self.outs = None
        self.fresh = True


class Back:
    def __init__(self, head, target, sigma, lits, ineqs, events, st):
        self.head = head
        self.target = target
        self.sigma = sigma
        self.lits = lits
        self.ineqs = ineqs
        self.events = events
        self.st = st


class Case:
    """What one iteration contributes: under lits/ineqs the element consists of segs."""
    __slots__ = ("lits", "ineqs", "segs", "back")

    def __init__(self, lits, ineqs, segs, back=None):
        self.lits = lits
        self.ineqs = ineqs
        self.segs = segs
        self.back = back

    def __getitem__(self, i):
        return (self.lits, self.segs)[i]

    def __repr__(self):
        return "%s if %s" % (show(tuple(self.segs)), self.lits)


def new_star(I, cases, src, lid, base=()):
    ref = I.alloc("star", extra=tuple(cases), d={"root": (src, False), "lid": (lid,), "base": base})
    return Star(ref.oid)


def names_in(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} if t is not None else set()


# ---- for loops ----------------------------------------------------------------------------------------------

def for_segs(I, it, body, node):
    if I.is_kind(it, "iter"):
        while True:
            segs = I.rec(it).segs
            r = I.w(it, "iteration")
            if not segs:
                r.extra = "used"
                return
            r.segs = segs[1:]
            one(I, segs[0], body, node)
    for s in I.iterate(it):
        one(I, s, body, node)


def one(I, s, body, node):
    if isinstance(s, E):
        body(s.v)
    elif isinstance(s, Idx):
        idx_loop(I, s, body, node)
    else:
        elem_loop(I, s, body, node)


def make_item(I, make, i):
    if make[0] == "id":
        return i
    if make[0] == "item":
        return item_term(make[1], i)
    if make[0] == "off":
        return add(i, make[1])
    if make[0] == "tup":
        return Tup(tuple(E(make_item(I, m, i)) for m in make[1]))
    if make[0] == "const":
        return make[1]
    raise Unsupported("index maker %r" % (make,))


def item_term(seq, i):
    if isinstance(seq, App) and seq.op == "slice":
        return item_term(seq.args[0], add(i, seq.args[1] or 0))
    return App("item", (seq, i))


def idx_loop(I, s, body, node):
    hid = "$i%d" % I.st.nid
    fr = I.fr
    I.w(fr).d[hid] = s.start

    def step():
        i = I.rec(fr).d[hid]
        if s.stop is not None:
            if s.step > 0:
                if not I.ge0(sub(sub(s.stop, i), 1)):
                    return "done"
            elif not I.ge0(sub(sub(i, s.stop), 1)):
                return "done"
        body(make_item(I, s.make, i))
        I.w(fr).d[hid] = add(i, s.step)
        return "next"

    run_loop(I, node, step, src=("idx", s, hid), targets=loop_targets(node))
    r = I.w(fr)
    r.d.pop(hid, None)


def loop_targets(node):
    if isinstance(node, ast.For):
        return names_in(node.target)
    if isinstance(node, (ast.Name, ast.Tuple)):
        return names_in(node)
    return set()


def elem_loop(I, s, body, node):
    known = isinstance(s, Star) and (s.sid in I.nonempty_stars() or emptiness(I, s) is True)
    if isinstance(s, X):
        known = I.st.facts.entails(sub(slen(s.term), 1)) or I.st.facts.lit(("nonempty", s.term)) is True
        if I.st.facts.entails(scale(slen(s.term), -1)) or I.st.facts.lit(("nonempty", s.term)) is False:
            return
    elif emptiness(I, s) is False:
        return
    flag = "$it%d" % I.st.nid
    fr = I.fr
    if known:
        I.w(fr).d[flag] = False

    def step():
        more = 1
        if not (known and I.rec(fr).d[flag] is False):
            more = I.choose(2, ["no more elements of %s" % show(s), "an element of %s" % show(s)])
        if not more:
            return "done"
        if known:
            I.w(fr).d[flag] = True
        if isinstance(s, X):
            if isinstance(s.term, App) and s.term.op == "cut":
                body(App("elem", (s.term,)))
            else:
                body(App("elem", (s.term,)))
        else:
            cases = I.star_cases(s)
            k = I.choose(len(cases), ["element case %d of %s" % (i, show(s)) for i in range(len(cases))])
            c = cases[k]
            if not assume_case(I, c):
                raise _i.Dead()
            segs = c.segs
            for q in (reversed(segs) if s.rev else segs):
                if s.rev and isinstance(q, (Star, X)):
                    q = type(q)(q.sid if isinstance(q, Star) else q.term, not q.rev)
                one(I, q, body, node)
            I.st.vars["case"] = (s.sid, k)
        return "next"

    run_loop(I, node, step, peel=0, src=("elem", s), targets=loop_targets(node))
    if known:
        I.w(fr).d.pop(flag, None)


def assume_case(I, c):
    f = I.st.facts
    for k, v in c.lits.items():
        if k in f.lits and f.lits[k] != v:
            return False
        f.lits[k] = v
    for i in c.ineqs:
        if f.entails(sub(scale(i, -1), 1)):
            return False
        f.assume(i)
    return not any(v and k[0] == "neq0" and f.entails_eq(k[1], 0) for k, v in f.lits.items())


def split_first(I, s):
    """First element of a segment and the rest."""
    if isinstance(s, X) and not s.rev:
        n = s.term
        return [E(App("item", (n, 0)))], [X(App("cut", (Tup((X(n),)), 1, None)))]
    if isinstance(s, X):
        n = s.term
        return [E(App("item", (n, -1)))], [X(App("cut", (Tup((X(n),)), 0, -1)), True)]
    if isinstance(s, Star):
        split(I, s)
        cases = [c for c in I.star_cases(s) if c.segs]
        if any(len(c.segs) != 1 or not isinstance(c.segs[0], E) for c in I.star_cases(s)):
            raise Unsupported("first element of a list built with a varying number of elements per iteration")
        k = I.choose(len(cases), ["the first element of %s is of case %d" % (show(s), i) for i in range(len(cases))])
        if not assume_case(I, cases[k]):
            raise _i.Dead()
        m = {}
        v = clone_value(I, I.st, I.st, cases[k].segs[0].v, owned_by(I.st, s.sid), m, None)
        return [E(v)], [s]
    if isinstance(s, Idx):
        if s.step > 0 and s.stop is not None:
            return [E(make_item(I, s.make, s.start))], [Idx(add(s.start, s.step), s.stop, s.step, s.make)]
        return [E(make_item(I, s.make, s.start))], [Idx(add(s.start, s.step), s.stop, s.step, s.make)]
    raise Unsupported("first element of %s" % show(s))


def split(I, s):
    root, rev = I.st.heap[s.sid].d["root"]
    if root and root[0] in ("repairs", "ops"):
        end = "l" if rev ^ s.rev else "f"
        name = root[1] if root[0] == "repairs" else ("ops", root[1])
        known = I.world.split.get(name, "")
        if end not in known and (root[0] == "repairs" or not known):
            raise Split(name, "".join(sorted(known + end)), "%s: an end of a list of %s" % (I.site(), root[0]))
        raise Unsupported("%s: an end of a list of unknown length" % I.site())


def same_root(I, a, b):
    x, y = I.st.heap[a.sid].d["root"][0], I.st.heap[b.sid].d["root"][0]
    return x is not None and x[0] in ("repairs", "ops") and x == y


def covers(I, a, b):
    """Every element of the common root for which star a yields something makes star b yield something."""
    f = I.st.facts
    for c in I.star_cases(a):
        if not c.segs:
            continue
        g = f.copy()
        g.lits.update(c.lits)
        for i in c.ineqs:
            g.assume(i)
        if not any(d.segs and all(g.lits.get(k) == v for k, v in d.lits.items()) and all(g.entails(i) for i in d.ineqs)
                   for d in I.star_cases(b)):
            return False
    return True


def emptiness(I, s):
    """True: star s is known to have elements, False: to have none, None: not known."""
    f = I.st.facts
    v = f.lit(("nonempty", s.sid))
    if v is not None:
        return v
    if not any(c.segs for c in I.star_cases(s)):
        return False
    for k, v in f.lits.items():
        if k[0] == "nonempty" and type(k[1]) is int and k[1] in I.st.heap and I.st.heap[k[1]].kind == "star":
            o = Star(k[1])
            if same_root(I, o, s) and (covers(I, o, s) if v else covers(I, s, o)):
                return v
    return None


def owned_by(st, sid):
    lids = st.heap[sid].d["lid"]
    return lambda oid: any(x in st.heap[oid].loops for x in lids)


# ---- cloning ------------------------------------------------------------------------------------------------

def map_refs(v, fn):
    """Replace Refs and star ids in a value by fn(oid) -> oid."""
    if isinstance(v, Ref):
        n = fn(v.oid)
        return v if n == v.oid else Ref(n)
    if isinstance(v, Star):
        n = fn(v.sid)
        return v if n == v.sid else Star(n, v.rev)
    if isinstance(v, E):
        w = map_refs(v.v, fn)
        return v if w is v.v else E(w)
    if isinstance(v, Tup):
        return Tup(tuple(map_refs(s, fn) for s in v.segs))
    if isinstance(v, Bound):
        return Bound(map_refs(v.self_, fn), v.func)
    if isinstance(v, BMeth):
        return BMeth(map_refs(v.self_, fn), v.name)
    if isinstance(v, Func):
        if v.frame is None:
            return v
        fr = map_refs(v.frame, fn)
        dfl = tuple(map_refs(d, fn) for d in v.defaults)
        if fr is v.frame and all(a is b for a, b in zip(dfl, v.defaults)):
            return v
        return Func(v.code, fr, dfl, v.kwdefaults, v.cached)
    if isinstance(v, Partial):
        return Partial(map_refs(v.fn, fn), tuple(map_refs(a, fn) for a in v.args),
                       tuple((k, map_refs(x, fn)) for k, x in v.kw))
    return v


def rec_refs(r):
    out = []

    def see(oid):
        out.append(oid)
        return oid
    rec_map(r, see)
    return out


def rec_map(r, fn, tm=None):
    """A copy of record r with references mapped (and terms mapped by tm)."""
    t = tm or (lambda x: x)

    def m(v):
        return map_refs(t(v), fn)
    n = r.copy(0)
    if r.d is not None and r.kind != "star":
        n.d = {k: m(v) for k, v in r.d.items()}
    n.segs = tuple(m(s) for s in r.segs)
    if r.kind == "dict":
        n.extra = tuple((m(k), m(v)) for k, v in r.extra or ())
    elif r.kind == "frame":
        n.extra = (m(r.extra[0]) if r.extra[0] is not None else None, r.extra[1])
    elif r.kind == "star":
        n.extra = tuple(Case(c.lits, c.ineqs, tuple(m(s) for s in c.segs), c.back) for c in r.extra)
    return n


def clone_value(I, src, dst, v, owned, memo, tm):
    """Clone value v of state src into state dst, copying owned objects."""
    def fn(oid):
        if oid in memo:
            return memo[oid]
        if oid not in src.heap:
            return oid
        if not owned(oid):
            if oid not in dst.heap:
                memo[oid] = oid
                r = src.heap[oid]
                dst.heap[oid] = r
                for q in rec_refs(r):
                    fn(q)
            return oid
        n = dst.nid
        dst.nid += 1
        memo[oid] = n
        r = rec_map(src.heap[oid], fn, tm)
        r.owner = dst.id
        r.loops = r.loops + tuple(x for x in dst.ls if x not in r.loops)
        dst.heap[n] = r
        return n
    return map_refs(tm(v) if tm else v, fn)


# ---- the fixpoint -------------------------------------------------------------------------------------------

def run_loop(I, node, step, peel=None, src=("while",), targets=frozenset()):
    k = n = 0
    if peel is None:
        peel = I.peel
    while True:
        if n > max(MAX_EXACT, peel) or (n and k >= peel) or peel == 0:
            break
        before = I.ex.i
        fw = I.fork_count
        r = step()
        if r == "done":
            return
        n += 1
        if I.ex.i != before:
            k += 1
    fix_loop(I, node, step, src, targets)


def fix_loop(I, node, step, src, targets):
    key = (id(node), tuple(I.ex.script[:I.ex.i]), I.st.nid, len(I.st.trace), I.salt)
    cache = I.ex.cache
    res = cache.get(key)
    if res is None:
        res = cache[key] = compute(I, node, step, src, targets)
        cache[("keep",) + key] = (node, step)
    if not res:
        I.event("diverges", "loop")
        I.diverged.append(I.site())
        raise _i.Dead()
    k = I.choose(len(res))
    kind, val, st = res[k]
    path = list(st.path)
    known = set(I.st.loops)
    I.st = st.copy()
    I.st.path = path
    if kind in ("brk", "ret", "raise") and src[0] == "elem":
        I.event("early", next(x for x in st.loops if st.loops[x].node is node and x not in known), kind)
    if kind == "done":
        return
    if kind == "brk":
        raise _i.Brk()
    if kind == "ret":
        raise _i.Ret(val)
    raise _i.Rz(val)


def shape(st, v, depth):
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, Ref):
        r = st.heap[v.oid]
        if r.kind == "obj":
            if depth == 0:
                return r.cls.name
            return (r.cls.name,) + tuple((k, shape(st, x, depth - 1)) for k, x in sorted(r.d.items()))
        if r.kind == "iter":
            return "iter"
        return r.kind
    if isinstance(v, Func):
        return ("F", v.code.uid)
    if isinstance(v, Cls):
        return ("C", v.info.name)
    if isinstance(v, Bound):
        return ("B", shape(st, v.self_, 0), shape(st, v.func, 0))
    if isinstance(v, Tup):
        return ("T", tuple(type(s).__name__ if not isinstance(s, E) else shape(st, s.v, 1) for s in v.segs))
    if isinstance(v, App) and v.op == "obj":
        return "*"
    return "*"


def signature(I, st, targets, top):
    out = []
    for f in I.stack:
        r = st.heap[f.oid]
        if r.kind != "frame":
            continue
        for k, v in sorted(r.d.items()):
            if k in targets and f.oid == top:
                continue
            out.append((f.oid, k, shape(st, v, 2)))
    return tuple(out)


class Loop:
    def __init__(self, I, lid, base, targets, src, top):
        self.I = I
        self.lid = lid
        self.base = base
        self.targets = targets
        self.src = src
        self.top = top
        self.n = Sym(lid + ".n", "nat")
        self.count = 0
        self.sids = {}

    def fresh(self, sort):
        self.count += 1
        return Sym("%s.v%d" % (self.lid, self.count), sort)


def compute(I, node, step, src, targets):
    I.loop_fix += 1
    if I.code is not None and I.code.node is not None:
        targets = frozenset(targets) | dead_names(I.code.node, node)
    base = I.freeze()
    lid = "L%d" % base.nid
    base.nid += 1
    base.ls = base.ls + (lid,)
    top = I.fr.oid
    for t in targets:
        fr = base.heap[top]
        if t in fr.d:
            fr = base.heap[top] = fr.copy(-1)
            fr.d[t] = Sym(lid + ".last")
    info = LoopInfo(lid, I.site(), src)
    info.node = node
    loop = Loop(I, lid, base, targets, src, top)
    heads = [Head(signature(I, base, targets, top), base)]

    def run():
        try:
            return (step(), None)
        except _i.Brk:
            return ("brk", None)
        except _i.Ret as r:
            return ("ret", r.value)

    for rnd in range(MAX_ROUNDS):
        changed = False
        for h in list(heads):
            if not h.fresh:
                continue
            h.fresh = False
            h.outs = []
            for o in I.explore(run, h.st):
                if o.kind == "raise":
                    h.outs.append(["raise", o.value, o.st, None])
                else:
                    h.outs.append([o.value[0], o.value[1], o.st, None])
            for out in h.outs:
                if out[0] != "next":
                    continue
                st, mut = settle(I, loop, h, out[2])
                out[3] = (st, mut)
                sig = signature(I, st, targets, top)
                t = next((x for x in heads if x.sig == sig), None)
                if t is None:
                    s2 = st.copy()
                    s2.trace = list(base.trace)
                    s2.path = list(base.path)
                    s2.vars.pop("$full", None)
                    s2.facts = drop_elem_facts(base, s2.facts)
                    heads.append(Head(sig, s2))
                    if len(heads) > 24:
                        raise Unsupported("%s: loop with more than 24 kinds of state" % I.site())
                    changed = True
                else:
                    g, ch, sigma = generalize(loop, t, st)
                    if ch and DEBUG:
                        print("round", rnd, I.site(), loop.lid, LAST_WHY[-1])
                    if ch:
                        t.st = g
                        t.fresh = True
                        changed = True
        if not changed:
            break
    else:
        raise Unsupported("%s: no loop invariant found" % I.site())

    # final pass: back edges, star cases, exits
    info.heads = heads
    cases = {}
    src_cases = {}
    for h in heads:
        for out in h.outs:
            if out[0] != "next":
                continue
            st, mut = out[3]
            sig = signature(I, st, targets, top)
            t = next(x for x in heads if x.sig == sig)
            sufs = {}
            g, ch, sigma = generalize(loop, t, st, sufs)
            ff = (st.vars.get("$full") or st).facts
            lits = {k: v for k, v in ff.lits.items() if k not in h.st.facts.lits and not of_iteration(k, h.st.nid)}
            ineqs = [i for i in ff.ineqs if i not in h.st.facts.ineqs]
            back = Back(h, t, sigma, lits, ineqs, st.trace[len(h.st.trace):], st)
            info.backs.append(back)
            for sid in loop.sids:
                if sid in st.heap:
                    sufs.setdefault(sid, ())  # an iteration that adds nothing
            for sid, segs in sufs.items():
                cases.setdefault(sid, []).append((back, Case(lits, ineqs, tuple(segs), back), mut))
            if src[0] == "elem" and isinstance(src[1], Star):
                src_cases.setdefault(out[2].vars.get("case"), []).append((back, lits, ineqs, mut))
    any_mut = any(b[3] for v in src_cases.values() for b in v)
    exits = []
    for h in heads:
        for kind, val, st, _x in h.outs:
            if kind == "next":
                continue
            s = st.copy()
            s.ls = I.st.ls
            val2 = finish(I, loop, info, s, cases, src_cases if any_mut else {}, val, src)
            s.loops[lid] = info
            exits.append((kind, val2, s))
    return exits


def of_iteration(k, nid):
    """A fact about an object made in the iteration says nothing outside of it."""
    return k[0] in ("nonempty", "eqobj") and any(type(x) is int and x >= nid for x in k[1:])


def drop_elem_facts(base, facts):
    """Keep only what also holds in the base state (facts about elements are not facts about later ones)."""
    f = Facts(base.facts.lits, base.facts.ineqs)
    for k, v in facts.lits.items():
        f.lits.setdefault(k, v)
    for i in facts.ineqs:
        f.assume(i)
    return f


def settle(I, loop, h, st):
    """Prepare a back-edge state: forget the element just processed, restore the template of the next one."""
    mut = {}
    src = loop.src
    st = st.copy()
    st.ls = h.st.ls
    fr = st.heap[loop.top]
    if any(t in fr.d for t in loop.targets):
        fr = st.heap[loop.top] = fr.copy(-1)
        for t in loop.targets:
            if t in fr.d:
                fr.d[t] = Sym(loop.lid + ".last")
    st.vars.pop("$full", None)
    if src[0] != "elem":
        return st, mut
    s = src[1]
    if isinstance(s, Star):
        lids = h.st.heap[s.sid].d["lid"]
        owned = [o for o, r in h.st.heap.items() if any(x in r.loops for x in lids)]
        for o in owned:
            if o in st.heap and st.heap[o] is not h.st.heap[o]:
                mut[o] = st.heap[o]
        if mut:
            mut = {o: st.heap[o] for o in owned if o in st.heap}
        bases = h.st.heap[s.sid].d["base"]
        sroot = h.st.heap[s.sid].d["root"][0]
        suf = sroot[2].partition(".")[2] if sroot and sroot[0] == "ops" else ""

        def prime_atom(a):
            return a.op == "rep" and (a.args[0],) + a.args[3:6] in bases and a.args[1].partition(".")[2] == suf
    else:
        owned = []

        def prime_atom(a):
            return a.op == "elem" and same(a.args[0], s.term)
    ownset = set(owned)

    def prime(v):
        m = {a: App(a.op, a.args + ("prev",)) for a in atoms(v) if isinstance(a, App) and prime_atom(a)}
        return subst(v, m) if m else v
    memo = {}
    dst = st.copy()
    for o in ownset:
        dst.heap[o] = h.st.heap[o]
    for f in I.stack:
        r = dst.heap[f.oid]
        if r.kind != "frame" or r is h.st.heap.get(f.oid):
            continue
        new = {}
        for k, v in r.d.items():
            if isinstance(v, Ref) and v.oid in ownset:
                new[k] = clone_value(I, st, dst, v, lambda o: o in ownset, memo, prime)
            elif isinstance(v, (App, Lin)):
                new[k] = prime(v)
            else:
                new[k] = v
        if any(new[k] is not r.d[k] for k in new):
            r = dst.heap[f.oid] = r.copy(-1)
            r.d = new
    # facts about the element do not carry over
    lits = {}
    for k, v in dst.facts.lits.items():
        if k in h.st.facts.lits or not any(isinstance(a, App) and prime_atom(a) for a in atoms(k)):
            lits[k] = v
    dst.facts = Facts(lits, [i for i in dst.facts.ineqs if i in h.st.facts.ineqs or
                             not any(isinstance(a, App) and prime_atom(a) for a in atoms(i))])
    full = dst.copy()
    full.facts = st.facts
    dst.vars = dict(dst.vars)
    dst.vars["$full"] = st
    return dst, mut


class Gen:
    """Anti-unification of a head with a back-edge state."""

    def __init__(self, loop, head, st, sufs):
        self.loop = loop
        self.h = head
        self.g = head.st
        self.b = st
        self.sufs = sufs
        self.out = head.st.copy()
        self.changed = False
        self.sigma = {}
        self.mapg = {}
        self.pairs = {}
        self.seen = {}
        self.why = []
        self.newsyms = {}

    def touch(self, why):
        self.changed = True
        self.why.append(why)

    def is_loop_sym(self, v):
        return isinstance(v, Sym) and v in self.h.base

    def bindsym(self, s, b):
        if s in self.sigma:
            return same(self.sigma[s], b)
        self.sigma[s] = b
        return True

    def newsym(self, g, b, sort=None):
        key = (type(g), g, type(b), b) if hashable(g) and hashable(b) else None
        if key in self.pairs:
            return self.pairs[key]
        if sort is None:
            if is_int(g) and is_int(b):
                sort = "int"
            elif sort_of(g) == sort_of(b) and sort_of(g) in ("str", "bool"):
                sort = sort_of(g)
            else:
                sort = "any"
        s = self.loop.fresh(sort)
        self.pairs[key] = s
        self.sigma[s] = b
        self.mapg[g] = s if hashable(g) else None
        self.newsyms[s] = (g, b)
        self.touch("%s vs %s" % (show(g), show(b)))
        return s

    def au(self, g, b):
        if isinstance(g, Ref) and isinstance(b, Ref):
            return self.au_ref(g, b)
        if self.is_loop_sym(g):
            if self.loop.n == g:
                return self.au_int(g, b)
            if isinstance(b, (Ref, Func)):
                return self.newsym(g, b, "any")
            if self.bindsym(g, b):
                return g
            return self.newsym(g, b)
        if same(g, b) and not isinstance(g, (E, Tup, Star, Func, Bound, BMeth, Partial)):
            if not isinstance(g, (App, Lin)) or not any(a in self.h.base for a in atoms(g)):
                return g
        if is_int(g) and is_int(b):
            return self.au_int(g, b)
        if isinstance(g, App) and isinstance(b, App):
            return self.au_app(g, b)
        if isinstance(g, Tup) and isinstance(b, Tup):
            return Tup(tuple(self.au_segs(g.segs, b.segs)))
        if isinstance(g, Func) and isinstance(b, Func) and g.code is b.code:
            fr = None if g.frame is None else self.au_ref(g.frame, b.frame)
            return Func(g.code, fr, tuple(self.au(x, y) for x, y in zip(g.defaults, b.defaults)), g.kwdefaults, g.cached)
        if isinstance(g, Bound) and isinstance(b, Bound):
            return Bound(self.au(g.self_, b.self_), self.au(g.func, b.func))
        if isinstance(g, BMeth) and isinstance(b, BMeth) and g.name == b.name:
            return BMeth(self.au(g.self_, b.self_), g.name)
        if same(g, b):
            return g
        return self.newsym(g, b)

    def au_int(self, g, b):
        n = self.loop.n
        cg, tg = lin_parts(g)
        coef = dict(tg).get(n, 0)
        if n in self.h.base and coef:
            # b must be g with n + 1 (or n)
            for k in ((1,) if self.nstep == 1 else (0,)):
                others = {a for a, _ in tg if a != n and any(x in self.h.base for x in atoms(a))}
                if not others and same(b, add(g, coef * k)):
                    self.sigma[n] = add(n, k)
                    return g
            return self.newsym(g, b, "int")
        d = sub(b, g)
        if isinstance(d, int) and not isinstance(d, bool):
            if d == 0:
                for a in atoms(g):
                    if a in self.h.base and not self.bindsym(a, a):
                        return self.newsym(g, b, "int")
                return g
            if n not in self.h.base and not any(a in self.h.base for a in atoms(g)):
                self.nform[g] = d
                self.touch("%s changes by %d" % (show(g), d))
                return add(g, scale(n, d))
            return self.newsym(g, b, "int")
        cb, tb = lin_parts(b)
        if cg == cb and len(tg) == len(tb) and [c for _, c in tg] == [c for _, c in tb] and (len(tg) > 1 or cg or
                                                                                           tg[0][1] != 1):
            return mk_lin(cg, [(self.au(x, y), c) for (x, c), (y, _) in zip(tg, tb)]) \
                if all(isinstance(self.au(x, y), (Sym, App)) for (x, _), (y, _) in zip(tg, tb)) \
                else self.newsym(g, b, "int")
        if isinstance(g, App) and isinstance(b, App):
            return self.au_app(g, b)
        return self.newsym(g, b, "int")

    def au_app(self, g, b):
        if g.op == b.op and len(g.args) == len(b.args) and g.op not in ("obj", "list", "str"):
            fixed = {"res": (0, 1), "rep": (0, 1, 2), "attr": (1,), "mcall": (1,), "call": ()}.get(g.op, ())
            if all(same(g.args[i], b.args[i]) for i in fixed):
                key = (g, b)
                if key in self.pairs:
                    return self.pairs[key]
                r = App(g.op, tuple(self.au(x, y) for x, y in zip(g.args, b.args)))
                self.pairs[key] = r
                return r
        if g.op == b.op == "obj" and len(g.args) == len(b.args) and g.args[0] == b.args[0]:
            return App("obj", (g.args[0],) + tuple(self.au(x, y) for x, y in zip(g.args[1:], b.args[1:])))
        return self.newsym(g, b)

    def au_seg(self, g, b):
        if isinstance(g, E) and isinstance(b, E):
            return E(self.au(g.v, b.v))
        if isinstance(g, X) and isinstance(b, X) and g.rev == b.rev:
            return X(self.au(g.term, b.term), g.rev)
        if isinstance(g, Star) and isinstance(b, Star):
            if g == b:
                self.au_rec(g.sid, g.sid)
                return g
            if g.rev == b.rev:
                r = self.au_ref(Ref(g.sid), Ref(b.sid))
                if isinstance(r, Ref):
                    return Star(r.oid, g.rev)
        if isinstance(g, Idx) and isinstance(b, Idx) and g.step == b.step and g.make == b.make:
            return Idx(self.au(g.start, b.start), None if g.stop is None else self.au(g.stop, b.stop), g.step, g.make)
        return None

    def au_segs(self, g, b, owner=None):
        """owner: key for an accumulating list."""
        g, b = tuple(g), tuple(b)
        if g and isinstance(g[-1], Star) and g[-1].sid in self.loop.sids:
            p = g[:-1]
            star = g[-1]
            if len(b) >= len(p):
                pre = [self.au_seg(x, y) for x, y in zip(p, b)]
                rest = b[len(p):]
                while rest and rest[0] == star:
                    rest = rest[1:]
                if all(x is not None for x in pre) and star not in rest:
                    if self.sufs is not None:
                        if rest or star in b:
                            self.sufs[star.sid] = rest
                    return tuple(pre) + (star,)
        elif len(b) == len(g):
            pre = [self.au_seg(x, y) for x, y in zip(g, b)]
            if all(x is not None for x in pre):
                return tuple(pre)
        elif len(b) > len(g):
            pre = [self.au_seg(x, y) for x, y in zip(g, b)]
            if all(x is not None for x in pre):
                sid = self.loop.I.st.nid + 100000 + len(self.loop.sids) + self.loop.base.nid * 64
                while sid in self.out.heap or sid in self.loop.sids:
                    sid += 1
                self.loop.sids[sid] = owner
                base = ()
                lids = (self.loop.lid,)
                root = (self.loop.src, False)
                if self.loop.src[0] == "elem" and isinstance(self.loop.src[1], Star):
                    sd = self.g.heap[self.loop.src[1].sid].d
                    base = sd["base"]
                    lids += sd["lid"]
                    root = (sd["root"][0], sd["root"][1] ^ self.loop.src[1].rev)
                self.out.heap[sid] = _i.Rec("star", d={"root": root, "lid": lids, "base": base}, extra=(),
                                            birth=self.g.phase, site=self.loop.I.site(), owner=-1,
                                            loops=self.loop.base.ls[:-1])
                self.touch("list grows")
                return tuple(pre) + (Star(sid),)
        self.touch("list changes: %s / %s" % (show(g), show(b)))
        s = self.loop.fresh("any")
        self.newsyms[s] = (None, None)
        return (X(s),)

    def au_ref(self, g, b):
        key = (g.oid, b.oid)
        if key in self.seen:
            return self.seen[key]
        rg, rb = self.g.heap[g.oid], self.b.heap[b.oid]
        if rg is rb:
            self.seen[key] = g
            return g
        if rg.kind != rb.kind or (rg.kind == "obj" and rg.cls is not rb.cls):
            return self.newsym(g, b, "any")
        if rg.kind == "frame" and rg.extra[1] is not rb.extra[1]:
            return self.newsym(g, b, "any")
        self.seen[key] = g
        self.merge(g.oid, rg, rb)
        return g

    def au_rec(self, go, bo):
        rg, rb = self.g.heap.get(go), self.b.heap.get(bo)
        if rg is rb or rg is None or rb is None:
            return
        self.merge(go, rg, rb)

    def merge(self, oid, rg, rb):
        if rg.kind == "star":
            if rg.extra != rb.extra and oid not in self.loop.sids:
                if len(rg.extra) == len(rb.extra) and all(c.segs == d.segs and c.lits == d.lits
                                                          for c, d in zip(rg.extra, rb.extra)):
                    return
                n = rg.copy(-1)
                extra = list(rg.extra)
                for c in rb.extra:
                    if not any(c.segs == d.segs and c.lits == d.lits for d in extra):
                        raise Unsupported("%s: a list whose iterations differ from round to round" % self.loop.I.site())
                if len(extra) != len(rg.extra):
                    self.touch("star cases")
                    n.extra = tuple(extra)
                    self.out.heap[oid] = n
            return
        n = rg.copy(self.out.id)
        ch0 = self.changed
        if rg.kind in ("list", "set", "iter"):
            n.segs = self.au_segs(rg.segs, rb.segs, oid)
        elif rg.kind == "dict":
            if len(rg.extra or ()) == len(rb.extra or ()):
                n.extra = tuple((self.au(k, k2), self.au(v, v2)) for (k, v), (k2, v2) in zip(rg.extra or (), rb.extra or ()))
            elif rg.extra != rb.extra:
                raise Unsupported("%s: dictionary that grows in a loop" % self.loop.I.site())
        elif rg.d is not None:
            keys = set(rg.d) | set(rb.d)
            for k in sorted(keys):
                if k in rg.d and k in rb.d:
                    n.d[k] = self.au(rg.d[k], rb.d[k])
                elif k in self.loop.targets and oid == self.loop.top:
                    if k in rb.d and k not in n.d:
                        n.d[k] = Sym(self.loop.lid + ".last")
                elif k in rg.d:
                    n.d.pop(k)
                    self.touch("unbound " + k)
        if rec_same(n, rg):
            return
        if not self.changed and ch0 == self.changed:
            self.touch("record")
        self.out.heap[oid] = n

    def run(self, nstep):
        self.nstep = nstep
        self.nform = {}
        for oid in sorted(self.b.heap):
            rb = self.b.heap[oid]
            rg = self.g.heap.get(oid)
            if rg is not None and rg is not rb and oid < self.loop.base.nid:
                self.au_ref(Ref(oid), Ref(oid))
        if self.nform:
            self.sigma[self.loop.n] = 1
            self.newsyms.setdefault(self.loop.n, (0, 1))
            for g, d in self.nform.items():
                self.mapg[g] = add(g, scale(self.loop.n, d))
        elif self.loop.n in self.h.base:
            self.sigma.setdefault(self.loop.n, self.loop.n if nstep == 0 else add(self.loop.n, 1))
        for s in self.h.base:
            self.sigma.setdefault(s, s)
        self.facts()

    def facts(self):
        gf, bf = self.g.facts, self.b.facts
        full = self.b.vars.get("$full")
        lits = {}
        mapg = {k: v for k, v in self.mapg.items() if v is not None and isinstance(k, (Sym, App))}
        for k, v in gf.lits.items():
            for c in ({k, subst(k, mapg)} if mapg else {k}):
                kb = subst(c, self.sigma)
                if bf.lits.get(kb, None) == v and kb in bf.lits:
                    lits[c] = v
        cands = []
        for i in gf.ineqs:
            cands.append(i)
            j = subst(i, mapg) if mapg else i
            if j != i:
                cands.append(j)
        lens = {a for i in gf.ineqs + bf.ineqs for a, _ in lin_parts(i)[1] if isinstance(a, App) and a.op == "len"}
        from .domain import STREAM
        lens.add(slen(STREAM))
        for s, (g, b) in self.newsyms.items():
            if g is None or not is_int(s) or s.sort == "nat":
                continue
            for c in [s, sub(s, 1)] + [sub(l, s) for l in lens] + [sub(s, g)] + \
                    [sub(s, z) for z in self.lower_bounds()]:
                if gf.entails(subst(c, {s: g})):
                    cands.append(c)
        ineqs = []
        for c in cands:
            cb = subst(c, self.sigma)
            if (cb in bf.ineqs or bf.entails(cb)) and c not in ineqs:
                ineqs.append(c)
        of = Facts(lits, ineqs)
        if lits != gf.lits or ineqs != gf.ineqs:
            dropped = [k for k in gf.lits if k not in lits] + [i for i in gf.ineqs if i not in ineqs]
            if dropped:
                self.touch("facts dropped: %s" % dropped[:3])
            elif self.newsyms:
                self.changed = True
        self.out.facts = of

    def lower_bounds(self):
        return [Sym("POS", "nat")]


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def rec_same(a, b):
    if a.segs != b.segs or (a.extra != b.extra and a.kind == "dict"):
        return False
    if a.d is None:
        return True
    if a.d.keys() != b.d.keys():
        return False
    return all(same(a.d[k], b.d[k]) for k in a.d)


def generalize(loop, head, st, sufs=None):
    best = None
    for nstep in ((1, 0) if loop.n in head.base else (1,)):
        g = Gen(loop, head, st, {} if sufs is not None else None)
        g.run(nstep)
        if best is None or not g.changed:
            best = g
        if not g.changed:
            break
    if sufs is not None:
        sufs.update(best.sufs)
    if DEBUG:
        LAST_WHY[:] = [best.why]
    if best.changed:
        for s, (g, b) in best.newsyms.items():
            head.base.setdefault(s, subst(g, head.base) if g is not None and hashable(g) else g)
        if best.nform:
            head.base.setdefault(loop.n, 0)
    return best.out, best.changed, best.sigma


def finish(I, loop, info, s, cases, src_cases, val, src):
    """Complete an exit state: star cases with the objects they refer to."""
    lid = loop.lid
    memos = {}

    def owned_fn(bst, mut):
        def owned(o):
            r = bst.heap.get(o)
            if r is None:
                return False
            return lid in r.loops or o in mut
        return owned

    def clone(back, mut, v):
        full = back.st.vars.get("$full") or back.st
        key = id(back)
        memo = memos.setdefault(key, {})
        return clone_value(I, full, s, v, owned_fn(full, mut), memo, None)

    if src_cases:
        star = src[1]
        old = s.heap[star.sid]
        new = []
        for k, c in enumerate(old.extra):
            for back, lits, ineqs, mut in src_cases.get((star.sid, k), []):
                l2 = dict(c.lits)
                l2.update({kk: v for kk, v in lits.items()})
                new.append(Case(l2, list(c.ineqs) + list(ineqs), tuple(clone(back, mut, q) for q in c.segs), c.back))
        r = old.copy(s.id)
        r.extra = tuple(new)
        s.heap[star.sid] = r
        aliases(I, s, star, old, src_cases, clone)
    for sid, lst in cases.items():
        if sid not in s.heap:
            continue
        out = []
        for back, c, mut in lst:
            out.append(Case(c.lits, c.ineqs, tuple(clone(back, mut, q) for q in c.segs), back))
        r = s.heap[sid].copy(s.id)
        r.extra = tuple(out)
        s.heap[sid] = r
    return plain_copies(s, cases, val, src)


def aliases(I, s, star, old, src_cases, clone):
    """Other lists that hold the objects modified in the loop over star."""
    backs = [b for k in range(len(old.extra)) for b in src_cases.get((star.sid, k), [])]
    mut = set()
    for _, _, _, m in backs:
        mut |= set(m)
    for oid, r in list(s.heap.items()):
        if r.kind != "star" or oid == star.sid or not any(reaches(s, q, mut) for c in r.extra for q in c.segs):
            continue
        if not any(x in r.d["lid"] for x in old.d["lid"]) or r.d["root"][0] != old.d["root"][0]:
            continue
        new = []
        for c in r.extra:
            hit = []
            for back, lits, ineqs, m in backs:
                if all(c.lits.get(k, v) == v for k, v in lits.items()):
                    hit.append((back, lits, ineqs, m))
            if not hit:
                new.append(c)
            for back, lits, ineqs, m in hit:
                new.append(Case({**c.lits, **lits}, list(c.ineqs) + [i for i in ineqs if i not in c.ineqs],
                                tuple(clone(back, m, q) for q in c.segs), c.back))
        r = r.copy(s.id)
        r.extra = tuple(new)
        s.heap[oid] = r


def reaches(s, v, oids, seen=None):
    found = []
    seen = set() if seen is None else seen

    def see(oid):
        if oid in oids:
            found.append(oid)
        elif oid not in seen and oid in s.heap:
            seen.add(oid)
            rec_map(s.heap[oid], see)
        return oid
    map_refs(v, see)
    return bool(found)


def plain_copies(s, cases, val, src):
    """A loop that appends each element of a list of unknown length to another one copies the list."""
    if src[0] != "elem" or not isinstance(src[1], X):
        return val
    one = (E(App("elem", (src[1].term,))),)
    sids = {sid for sid in cases if sid in s.heap and s.heap[sid].extra
            and all(c.segs == one for c in s.heap[sid].extra) and all(not m for _, _, m in cases[sid])}
    if not sids:
        return val

    def fix(segs):
        return tuple(X(src[1].term, src[1].rev ^ q.rev) if isinstance(q, Star) and q.sid in sids else q for q in segs)
    for oid, r in list(s.heap.items()):
        if any(isinstance(q, Star) and q.sid in sids for q in r.segs):
            r = r.copy(s.id)
            r.segs = fix(r.segs)
            s.heap[oid] = r
    return Tup(fix(val.segs)) if isinstance(val, Tup) else val
