"""Comparison of a result of the analysed code with a result of the model, in one abstract state."""
from .domain import App, E, Idx, Ref, STREAM, Star, Sym, Tup, Unsupported, X, is_const, is_int, same, show, sub
from .interp import Dead, Rz
from .loops import assume_case, emptiness


class Incomplete(Exception):
    pass


def root(st, sid):
    return st.heap[sid].d["root"]


class Cmp:
    def __init__(self, w, st, mark):
        self.w = w
        self.I = w.I
        self.mark = mark
        self.diffs = []
        self.n = 0
        self.at = "?"
        self.I.st = st
        self.within = []  # the loops of the repetitions around the record that is compared
        self.met = {}
        self.path = []
        self.partial = {e.a[0] for e in st.trace if e.kind == "early"}

    def diff(self, field, msg):
        self.diffs.append((field, msg, self.at))

    # ---- scalars ---------------------------------------------------------------------------------------------
    def eq(self, a, b):
        self.n += 1
        I = self.I
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, Tup) or isinstance(b, Tup):
            a, b = I.termify(a), I.termify(b)
        if same(a, b):
            return True
        if (is_int(a) or type(a) is int) and (is_int(b) or type(b) is int):
            return I.st.facts.entails_eq(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.segs_eq(a.segs, b.segs)
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and len(a.args) == len(b.args):
            if a.op == "list":
                return self.segs_eq(a.args, b.args)
            return all(self.eq(x, y) for x, y in zip(a.args, b.args))
        return False

    def segs_eq(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, E) and isinstance(y, E):
                if not self.eq(x.v, y.v):
                    return False
            elif isinstance(x, X) and isinstance(y, X):
                if x.rev != y.rev or not self.eq(x.term, y.term):
                    return False
            elif not same(x, y):
                return False
        return True

    def field(self, f, a, b, where):
        if not self.eq(a, b):
            self.diff(f, "%s is %s, expected %s" % (where, self.show(a), self.show(b)))

    def show(self, v):
        return show(self.I.termify(v)) if isinstance(v, (Ref, Tup)) else show(v)

    def flat(self, v, where, field):
        I = self.I
        try:
            one = [self.canon(s) for s in I.iterate(v)]
            if isinstance(v, Ref) and I.rec(v).kind == "iter":
                self.diff("oneshot", "%s is an iterator that can be read only once" % where)
                return one
            two = [self.canon(s) for s in I.iterate(v)]
        except Rz as e:
            self.diff(field, "%s cannot be read: %s" % (where, I.exc_name(e.exc)))
            return None
        if one != two:
            self.diff("oneshot", "%s gives different items when it is read again" % where)
        return one

    def canon(self, s):
        if isinstance(s, E):
            return ("E", self.I.termify(s.v))
        if isinstance(s, X):
            return ("X", s.term, s.rev)
        return ("S", repr(s))

    def exp(self, a, b, where, field="exp"):
        x, y = self.flat(a, where, field), self.flat(b, where, field)
        self.n += 1
        if x is not None and x != y:
            self.diff(field, "%s is [%s], expected [%s]" % (
                where, ", ".join(self.seg(s) for s in x), ", ".join(self.seg(s) for s in y)))

    def seg(self, s):
        return ("*" if s[0] == "X" else "") + (show(s[1]) if s[0] != "S" else s[1])

    def loc(self, v, q, where, field="loc"):
        self.n += 1
        p = self.w.loc_pos(v)
        if isinstance(p, tuple):
            self.diff(field, "%s is not the location of a position: %s" % (where, show(p)))
        elif not self.eq(p, q):
            self.diff(field, "%s is the location of %s, expected that of %s" % (where, show(p), show(q)))

    def ctx(self, c, pos, where):
        I = self.I
        self.n += 1
        k = I.obj_cls(c)
        if k is None or not k.issub(self.w.cls["Ctx"].info):
            self.diff("ctx", "%s has no context" % where)
            return
        m = I.getattr(c, "mark")
        if not self.eq(m, self.mark):
            self.diff("mark", "%s carries the mark %s, in force is %s" % (where, show(m), show(self.mark)))
        n = len(I.st.trace)
        try:
            l = I.call(I.getattr(c, "get_loc"), (STREAM, pos), {})
        except Rz as e:
            self.diff("ctx", "%s: location of the next position raises %s" % (where, I.exc_name(e.exc)))
            return
        if not same(self.w.loc_pos(l), pos):
            self.diff("ctx", "%s: the context gives %s as location of %s" % (where, show(self.w.loc_pos(l)), show(pos)))
        for e in I.st.trace[n:]:
            if e.kind == "getloc" and not e.a[3]:
                self.diff("ctx", "%s: a location is computed from that of %s, which is not known to be before %s" % (
                    where, show(e.a[0]), show(e.a[2])))

    # ---- results ---------------------------------------------------------------------------------------------
    def cls(self, v):
        c = self.I.obj_cls(v)
        return c.name if c is not None else type(v).__name__

    def kind(self, v):
        n = self.cls(v)
        return {"SOk": "Ok", "SErr": "Error", "SRec": "Recovered"}.get(n, n)

    def own(self, v):
        """A record that is modified in place must belong to one repair only."""
        if not isinstance(v, Ref):
            return
        r = self.I.st.heap[v.oid]
        if r.kind != "obj" or not self.w.mutated & set(r.d or ()):
            return
        for lids in self.within:
            self.n += 1
            if not any(l in r.loops for l in lids):
                self.diff("shared", "%s of one repair is modified with that of the others: the record is shared" % r.cls.name)
                return
        k = self.met.setdefault(v.oid, tuple(self.path))
        if k != tuple(self.path):
            self.diff("shared", "%s of one repair is modified with that of another: the record is shared" % r.cls.name)

    def mine(self, v, where):
        """A value the caller may modify: no list in it was made before the run."""
        if isinstance(v, Tup):
            for s in v.segs:
                if isinstance(s, E):
                    self.mine(s.v, where)
        elif isinstance(v, Ref):
            r = self.I.rec(v)
            self.n += 1
            if r.kind in ("list", "dict", "set", "deque") and r.birth < 2:
                self.diff("shared", "%s holds a %s made at %s, which all results share" % (where, r.kind, r.site))

    def here(self, v):
        if isinstance(v, Ref):
            self.at = self.I.rec(v).site

    def result(self, rv, sv):
        I = self.I
        self.here(rv)
        a, b = self.kind(rv), self.kind(sv)
        self.n += 1
        if a != b:
            if not ({a, b} == {"Error", "Recovered"} and self.no_repairs(rv if a == "Recovered" else sv)):
                self.diff("rkind" if {a, b} == {"Error", "Recovered"} else "kind", "the result is %s, expected %s" % (a, b))
                return
        if a == "Ok":
            self.mine(I.getattr(rv, "value"), "the value")
            self.field("value", I.getattr(rv, "value"), I.getattr(sv, "value"), "the value")
            self.field("pos", I.getattr(rv, "pos"), I.getattr(sv, "pos"), "the end position")
            self.field("cons", I.getattr(rv, "consumed"), I.getattr(sv, "cons"), "consumed")
            self.exp(I.getattr(rv, "expected"), I.getattr(sv, "exp"), "the list of expected descriptions")
            self.ctx(I.getattr(rv, "ctx"), I.getattr(sv, "pos"), "the result")
            return
        self.loc(I.getattr(rv, "loc"), I.getattr(sv, "at"), "the location of the error")
        self.field("cons", I.getattr(rv, "consumed"), I.getattr(sv, "cons"), "consumed")
        self.exp(I.getattr(rv, "expected"), I.getattr(sv, "exp"), "the list of expected descriptions")
        if a == b == "Recovered":
            self.seqs(I.iterate(I.getattr(rv, "repairs")), I.iterate(I.getattr(sv, "reps")), "repairs", self.repair)

    def no_repairs(self, v):
        I = self.I
        segs = I.iterate(I.getattr(v, "repairs" if self.cls(v) == "Recovered" else "reps"))
        return not self.tidy(segs)

    def tidy(self, segs):
        """Without stars that contribute nothing."""
        out = []
        for s in segs:
            if isinstance(s, Star):
                if emptiness(self.I, s) is False:
                    continue
                if not any(self.tidy(c.segs) for c in self.I.star_cases(s)):
                    continue
            out.append(s)
        return out

    def seqs(self, a, b, what, item):
        """Two sequences of records, in order."""
        st = self.I.st
        a, b = self.tidy(a), self.tidy(b)
        if len(a) != len(b):
            self.diff(what, "%s: %s, expected %s" % (what, self.shape(a), self.shape(b)))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, E) and isinstance(y, E):
                self.path.append(i)
                item(x.v, y.v)
                self.path.pop()
            elif isinstance(x, Star) and isinstance(y, Star):
                self.stars(x, y, what, item)
            else:
                self.diff(what, "%s: %s, expected %s" % (what, self.shape(a), self.shape(b)))

    def shape(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Star):
                r, rev = root(self.I.st, s.sid)
                out.append("for each of %s%s: %s" % ("reversed " if rev ^ s.rev else "", self.rname(r), " | ".join(
                    self.shape(c.segs) for c in self.I.star_cases(s))))
            elif isinstance(s, E):
                out.append(self.cls(s.v) if isinstance(s.v, Ref) else show(s.v))
            else:
                out.append(repr(s))
        return "[" + ", ".join(out) + "]"

    def rname(self, r):
        return r[0] + " of " + " ".join(show(x) for x in r[1:3]) if r and r[0] in ("repairs", "ops") else repr(r)

    def stars(self, x, y, what, item):
        I = self.I
        st = I.st
        rx, ry = root(st, x.sid), root(st, y.sid)
        if rx[0] is None or rx[0][0] not in ("repairs", "ops"):
            raise Incomplete("%s: a list built by a loop of an unknown kind" % what)
        if rx[0] != ry[0]:
            self.diff(what, "%s: %s, expected %s" % (what, self.shape([x]), self.shape([y])))
            return
        if rx[1] ^ x.rev != ry[1] ^ y.rev:
            self.diff(what, "%s are in reverse order" % what)
        if any(l in self.partial for l in st.heap[x.sid].d["lid"]):
            self.diff(what, "%s: the loop over %s is left early" % (what, self.rname(rx[0])))
        salt = I.salt
        try:
            for i, c in enumerate(I.star_cases(x)):
                for j, d in enumerate(I.star_cases(y)):
                    s2 = st.copy()
                    I.st = s2
                    I.salt = salt + ((x.sid, y.sid, i, j),)
                    if assume_case(I, c) and assume_case(I, d):
                        self.within.append(st.heap[x.sid].d["lid"])
                        self.seqs(c.segs, d.segs, what, item)
                        self.within.pop()
                    I.st = st
        finally:
            I.salt = salt

    def repair(self, r, s):
        I = self.I
        if self.cls(r) != "Repair":
            self.diff("repairs", "a repair is %s" % self.cls(r))
            return
        self.here(r)
        self.own(r)
        g = I.getattr
        self.field("rep.cost", g(r, "cost"), g(s, "cost"), "the cost of a repair")
        p = g(r, "prio")
        if self.auto(p) is None:
            self.diff("rep.prio", "the priority of a repair is %s" % show(p))
        else:
            self.field("rep.prio", self.auto(p), g(s, "auto"), "'starts with an automatic insertion'")
        self.field("rep.ins", g(r, "ins"), g(s, "ins"), "the remaining insertion budget of a repair")
        self.mine(g(r, "value"), "the value of a repair")
        self.field("rep.value", g(r, "value"), g(s, "value"), "the value of a repair")
        self.field("rep.pos", g(r, "pos"), g(s, "pos"), "the end position of a repair")
        self.field("rep.cons", g(r, "consumed"), g(s, "cons"), "consumed of a repair")
        self.exp(g(r, "expected"), g(s, "exp"), "what is expected after a repair", "rep.exp")
        self.ctx(g(r, "ctx"), g(s, "pos"), "a repair")
        self.seqs(I.iterate(g(r, "ops")), I.iterate(g(s, "ops")), "ops", self.op)

    def auto(self, p):
        if p is None:
            return True
        if p is False or (type(p) is int and p <= 0):
            return False
        return None

    def op(self, o, s):
        I = self.I
        if self.cls(o) != "OpItem":
            self.diff("ops", "an operation is %s" % self.cls(o))
            return
        self.here(o)
        self.own(o)
        g = I.getattr
        a, b = g(o, "op"), g(s, "op")
        if isinstance(b, Ref):
            k = {"SIns": ("Insert", "label"), "SSkip": ("Skip", "count")}[self.cls(b)]
            if self.cls(a) != k[0]:
                self.diff("op", "the operation is %s, expected %s" % (self.cls(a), k[0]))
            else:
                self.field("op", g(a, k[1]), g(b, k[1]), "the %s of an operation" % k[1])
        else:
            self.field("op", a, b, "an operation")
        self.loc(g(o, "loc"), g(s, "at"), "the location of an operation", "op.loc")
        self.field("op.cons", g(o, "consumed"), g(s, "cons"), "consumed of an operation")
        self.exp(g(o, "expected"), g(s, "exp"), "what is expected at an operation", "op.exp")
