"""Relations between two analyses of the code itself: the two modes, two forms of a combinator, two runs of a parser."""
from .compare import Cmp, Incomplete
from .domain import E, OTHER, Star, Unsupported, X, show
from .product import all_events, Finding, Product, call, facts_text
from .world import INS, MARK, POS, REM, STREAM, Settings


class Modes(Product):
    """The plain and the recovery function of one parser, on the same path facts."""

    def __init__(self, w):
        Product.__init__(self, w)
        self.attempt = False
        self.fallback = False

    def pair(self, sc, src, mode, parser, model):
        w, I = self.w, self.w.I
        I.st.phase = 2
        c = w.ctx()
        n0 = len(I.st.trace)
        a = call(I, lambda: I.call(I.getattr(parser, "parse_fast_fn"), (STREAM, POS, c), {}))
        n1 = len(I.st.trace)
        loops1 = set(I.st.loops)
        b = call(I, lambda: I.call(I.getattr(parser, "parse_fn"), (STREAM, POS, c, INS, REM), {}))
        st = I.st
        self.stats["events"] += len(st.trace) - n0
        self.stats["comparisons"] += 1

        def add(field, msg, site=None):
            self.add(sc, src, "modes", field, msg, site or I.site(), st)
        fast = st.trace[n0:n1] + [e for l in loops1 for x in st.loops[l].backs for e in x.events]
        for e in fast:
            if e.kind == "apply" and e.a[1] == "slow":
                add("C25", "without recovery, %s is run in recovery mode" % show(e.a[0]), e.site)
            if self.fallback and e.kind == "user":
                add("C25", "without recovery, the fallback function %s is called" % show(e.a[0]), e.site)
        if a[0] == "raise" or b[0] == "raise":
            if a[0] != b[0] or a[1] != b[1]:
                add("C01", "without recovery: %s; with recovery: %s" % (
                    "raises " + a[1] if a[0] == "raise" else "a result", "raises " + b[1] if b[0] == "raise" else "a result"),
                    (a if a[0] == "raise" else b)[2])
            return
        ra, rb = a[1], b[1]
        cmp = Cmp(w, I.st, MARK)
        ka, kb = cmp.kind(ra), cmp.kind(rb)
        cmp.here(ra)
        if ka == "Recovered":
            add("C25", "without recovery, the input is repaired", cmp.at)
            return
        cmp.here(rb)
        if ka == "Ok":
            if kb != "Ok":
                add("C01", "succeeds without recovery, but the result with recovery is %s" % kb, cmp.at)
                return
            g = I.getattr
            cmp.field("C01", g(rb, "value"), g(ra, "value"), "with recovery, the value")
            cmp.field("C01", g(rb, "pos"), g(ra, "pos"), "with recovery, the end position")
            cmp.field("C01", g(rb, "consumed"), g(ra, "consumed"), "with recovery, consumed")
        else:
            if kb == "Ok":
                add("C01", "fails without recovery, but succeeds with it", cmp.at)
                return
            if not self.attempt:
                self.first_error(cmp, ra, rb, kb)
        self.stats["comparisons"] += cmp.n
        for field, msg, site in cmp.diffs:
            add(field, msg, site)

    def first_error(self, cmp, ra, rb, kb):
        """The error of ra is the one reported for rb, whichever repair is chosen."""
        w, I = self.w, self.w.I
        g = I.getattr
        cmp.n += 1
        la, lb = w.loc_pos(g(ra, "loc")), w.loc_pos(g(rb, "loc"))
        if isinstance(la, tuple) or isinstance(lb, tuple) or not cmp.eq(la, lb):
            cmp.diff("C28", "the error is located at %s without recovery, at %s with it" % (show(la), show(lb)))
        cmp.exp(g(rb, "expected"), g(ra, "expected"), "the list of expected descriptions with recovery", "C28")
        if kb == "Recovered":
            self.reps(cmp, I.iterate(g(rb, "repairs")), la, g(ra, "expected"))

    def reps(self, cmp, segs, la, exp):
        I = self.w.I
        g = I.getattr
        for s in cmp.tidy(segs):
            if isinstance(s, E):
                cmp.here(s.v)
                ops = cmp.tidy(I.iterate(g(s.v, "ops")))
                self.first_op(cmp, ops, la, exp)
            else:
                self.cases(cmp, s, la, exp)

    def cases(self, cmp, star, la, exp):
        from .loops import assume_case
        I = self.w.I
        st = I.st
        if not isinstance(star, Star):
            raise Incomplete("repairs of an unknown kind")
        salt = I.salt
        try:
            for i, c in enumerate(I.star_cases(star)):
                I.st = cmp.I.st = st.copy()
                I.salt = salt + ((star.sid, i),)
                if assume_case(I, c):
                    self.reps(cmp, c.segs, la, exp)
                I.st = cmp.I.st = st
        finally:
            I.salt = salt

    def first_op(self, cmp, ops, la, exp):
        I = self.w.I
        g = I.getattr
        cmp.n += 1
        if not ops:
            cmp.diff("C28", "a repair without operations")
            return
        if not isinstance(ops[0], E):
            raise Incomplete("the first operation of a repair is not known")
        o = ops[0].v
        cmp.here(o)
        lo = self.w.loc_pos(g(o, "loc"))
        if isinstance(lo, tuple) or not cmp.eq(la, lo):
            cmp.diff("C28", "the first operation of a repair is located at %s, the error without recovery at %s" % (show(lo), show(la)))
        cmp.exp(g(o, "expected"), exp, "what is expected at the first operation of a repair", "C28")


class Twice(Product):
    """Two runs of one parser in the same mode: the first one must not influence the second."""

    other = False

    def first(self, go):
        return go(STREAM)

    def pair(self, sc, src, mode, parser, model):
        w, I = self.w, self.w.I

        def go(stream):
            c = w.ctx()
            if mode == "fast":
                return call(I, lambda: I.call(I.getattr(parser, "parse_fast_fn"), (stream, POS, c), {}))
            return call(I, lambda: I.call(I.getattr(parser, "parse_fn"), (stream, POS, c, INS, REM), {}))
        I.st.phase = 2
        a = self.first(go)
        I.st.phase = 3
        b = go(STREAM)
        st = I.st
        sv = call(I, lambda: I.call(model, (POS, MARK, None, None) if mode == "fast" else (POS, MARK, INS, REM), {}))

        def add(field, msg, site=None):
            self.add(sc, src, mode, field, msg, site or I.site(), st)
        for nm, v in (("first", a), ("second", b)):
            if v is None:
                continue
            self.stats["comparisons"] += 1
            if v[0] == "raise" or sv[0] == "raise":
                if v[0] != sv[0] or v[1] != sv[1]:
                    add("raise", "the %s run gives %s" % (nm, v[1] if v[0] == "raise" else "a result"), v[2] if v[0] == "raise" else None)
                continue
            cmp = Cmp(w, I.st, MARK)
            cmp.result(v[1], sv[1])
            self.stats["comparisons"] += cmp.n
            for field, msg, site in cmp.diffs:
                add(field, "the %s run: %s" % (nm, msg), site)


class Other(Twice):
    """A run on another input first: nothing of it may be found in the run that follows."""

    def first(self, go):
        self.w.other = True
        try:
            go(OTHER)
        finally:
            self.w.other = False


DEPTHS = (8, 16)


class Depth(Product):
    """How deep the calls of one run are nested, by the number of sub-parsers that succeeded."""

    def __init__(self, w):
        Product.__init__(self, w)
        self.by = {}

    def pair(self, sc, src, mode, parser, model):
        w, I = self.w, self.w.I
        I.st.phase = 2
        c = w.ctx()
        n0 = len(I.st.trace)
        base = len(I.calls)
        I.maxdepth = base
        if mode == "fast":
            v = call(I, lambda: I.call(I.getattr(parser, "parse_fast_fn"), (STREAM, POS, c), {}))
        else:
            v = call(I, lambda: I.call(I.getattr(parser, "parse_fn"), (STREAM, POS, c, INS, REM), {}))
        if v[0] == "ok":
            Cmp(w, I.st, MARK).flat(I.getattr(v[1], "expected"), "", "")
            if "value" in I.rec(v[1]).d:
                I.termify(I.getattr(v[1], "value"))
        d = I.maxdepth - base
        n = 0
        for e in I.st.trace[n0:]:
            if e.kind == "apply":
                n += 1
            elif e.kind in ("recurse", "deep"):
                self.add(sc, src, mode, "C24", "%s calls itself again on an error-free input" % e.a[0], e.a[1], I.st)
        self.stats["events"] += len(I.st.trace) - n0
        self.stats["comparisons"] += 1
        o, st = self.by.get(n, (0, None))
        if st is None or d > o:
            self.by[n] = (d, I.st.copy())

    def finish(self, sc, src, mode):
        low = [self.by[n][0] for n in self.by if n <= DEPTHS[0]]
        high = [(self.by[n][0], n) for n in self.by if n > DEPTHS[0]]
        self.stats["depths"] = {str(n): self.by[n][0] for n in sorted(self.by)}
        if not low or not high:
            raise Incomplete("%s: no runs of several lengths" % src)
        d, n = max(high)
        if d > max(low):
            self.add(sc, src, mode, "C24", "calls are nested %d deep for %d sub-parsers, %d deep for at most %d" % (
                d, n, max(low), DEPTHS[0]), src, self.by[n][1])


class Wide(Product):
    """Runs of any length, with the loops brought to a fixed point: does a function enter itself again?"""

    def pair(self, sc, src, mode, parser, model):
        w, I = self.w, self.w.I
        I.st.phase = 2
        I.any_item = True  # an element at an unknown index is as good as any other
        c = w.ctx()
        n0 = len(I.st.trace)
        args = (STREAM, POS, c) if mode == "fast" else (STREAM, POS, c, INS, REM)
        v = call(I, lambda: I.call(I.getattr(parser, "parse_fast_fn" if mode == "fast" else "parse_fn"), args, {}))
        if v[0] == "ok" and "value" in I.rec(v[1]).d:
            I.termify(I.getattr(v[1], "value"))
        for e in all_events(I.st, I.st.trace[n0:], set()):
            self.stats["events"] += 1
            if e.kind in ("recurse", "deep"):
                self.add(sc, src, mode, "C24", "%s calls itself again on an error-free input" % e.a[0], e.a[1], I.st)
        self.stats["comparisons"] += 1
