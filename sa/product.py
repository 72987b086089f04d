"""Product analysis: the analysed code and the model, abstractly interpreted on the same path facts."""
import time

from .compare import Cmp, Incomplete
from .domain import Unsupported, show
from .interp import Dead, Rz
from .world import INS, MARK, POS, REM, STREAM, Settings


CTX = {"loc": "location", "mark": "mark"}


class Finding:
    def __init__(self, sc, src, mode, field, msg, site, lits):
        self.sc = sc
        self.src = src
        self.mode = mode
        self.field = field
        self.msg = msg
        self.site = site
        self.lits = lits

    def key(self):
        return (self.mode, self.field, self.msg)

    def text(self):
        return "%s [%s mode]: %s (%s)" % (self.src, {"fast": "plain", "slow": "recovery"}.get(self.mode, self.mode), self.msg,
                                          self.site)


def facts_text(f):
    out = []
    for k, v in f.lits.items():
        out.append("%s = %s" % (show(k) if not isinstance(k, tuple) else " ".join(
            x if isinstance(x, str) else show(x) for x in k), v if not hasattr(v, "op") else show(v)))
    out += ["%s >= 0" % show(i) for i in f.ineqs]
    return out


def call(I, fn):
    try:
        return ("ok", fn())
    except Rz as e:
        return ("raise", I.exc_name(e.exc), getattr(e, "site", None) or I.site())


def user_calls(w, st, events, loops0):
    """How often each user function is called with which arguments, in straight code and per iteration of loops."""
    out = {}

    def add(evs, into):
        for e in evs:
            if e.kind == "user":
                k = (show(e.a[0]), show(tuple(e.a[1])) if not isinstance(e.a[1], (list,)) else show(tuple(e.a[1])))
                into[k] = into.get(k, 0) + 1
    add(events, out)
    for lid, info in st.loops.items():
        if lid in loops0:
            continue
        best = {}
        for b in info.backs:
            c = {}
            add(b.events, c)
            for k, n in c.items():
                best[k] = max(best.get(k, 0), n)
        for k, n in best.items():
            out[k] = out.get(k, 0) + n
    return out


def applies(st, events, loops0, kind):
    out = []
    for e in events:
        if e.kind == kind:
            out.append(e)
    for lid, info in st.loops.items():
        if lid not in loops0:
            for b in info.backs:
                out += [e for e in b.events if e.kind == kind]
    return out


def all_events(st, events, loops0):
    out = list(events)
    for lid, info in st.loops.items():
        if lid not in loops0:
            for b in info.backs:
                out += b.events
    return out


class Product:
    def __init__(self, w):
        self.w = w
        self.findings = []
        self.stats = {"outcomes": 0, "comparisons": 0, "events": 0}

    def add(self, sc, src, mode, field, msg, site, st):
        f = Finding(sc, src, mode, field, msg, site, facts_text(st.facts))
        if all(g.key() != f.key() for g in self.findings):
            self.findings.append(f)

    def run(self, sc, src, mode, kw, length):
        w, I = self.w, self.w.I
        w.set = Settings(length=length, **kw)
        w.flags = []
        del I.diverged[:]

        def build():
            I.st.phase = 1
            return w.eval_in(src)

        def sbuild():
            return w.eval_in(sc.spec)
        for b in w.run(build):
            if b.kind != "ok":
                I.st = b.st
                self.add(sc, src, mode, "raise", "building the parser raises %s" % I.exc_name(b.value), src, b.st)
                continue
            for sb in w.run(sbuild, b.st):
                if sb.kind != "ok":
                    raise Unsupported("the model of %s cannot be built" % sc.name)

                def par():
                    return self.pair(sc, src, mode, b.value, sb.value)
                for o in w.run(par, sb.st):
                    self.stats["outcomes"] += 1
                    if o.kind != "ok":
                        raise Unsupported("the comparison of %s raises %s" % (sc.name, I.exc_name(o.value)))
        for site in I.diverged:
            self.add(sc, src, mode, "diverge", "a loop that never ends", site, I.st)
        for f in w.flags:
            self.add(sc, src, mode, "bad", f[1], f[0], I.st)

    def pair(self, sc, src, mode, parser, model):
        w, I = self.w, self.w.I
        I.st.phase = 2
        c = w.ctx()
        n0 = len(I.st.trace)
        loops0 = set(I.st.loops)
        if mode == "fast":
            rv = call(I, lambda: I.call(I.getattr(parser, "parse_fast_fn"), (STREAM, POS, c), {}))
        else:
            rv = call(I, lambda: I.call(I.getattr(parser, "parse_fn"), (STREAM, POS, c, INS, REM), {}))
        n1 = len(I.st.trace)
        loops1 = set(I.st.loops)
        if mode == "fast":
            sv = call(I, lambda: I.call(model, (POS, MARK, None, None), {}))
        else:
            sv = call(I, lambda: I.call(model, (POS, MARK, INS, REM), {}))
        st = I.st
        trace = st.trace
        evs = trace[n0:n1]
        sevs = trace[n1:]

        def add(field, msg, site):
            self.add(sc, src, mode, field, msg, site, st)
        self.check_events(sc, mode, st, evs, sevs, loops0, loops1, add)
        if rv[0] == "raise" or sv[0] == "raise":
            if rv[0] != sv[0]:
                if rv[0] == "raise":
                    add("raise", "raises %s" % rv[1], rv[2])
                else:
                    add("noraise", "%s is expected, but the parser gives a result" % sv[1], I.site())
            elif rv[1] != sv[1]:
                add("raise", "raises %s, expected %s" % (rv[1], sv[1]), rv[2])
            self.stats["comparisons"] += 1
            return
        cmp = Cmp(w, I.st, MARK)
        cmp.result(rv[1], sv[1])
        self.stats["comparisons"] += cmp.n
        if cmp.diffs and mode == "slow":
            self.budgets(st, evs, loops0, loops1, sevs, add)
        for field, msg, site in cmp.diffs:
            add(field, msg, site)

    def check_events(self, sc, mode, st, evs, sevs, loops0, loops1, add):
        self.stats["events"] += len(evs)
        mine = [e for l in st.loops if l not in loops0 and l in loops1 for b in st.loops[l].backs for e in b.events]
        theirs = [e for l in st.loops if l not in loops1 for b in st.loops[l].backs for e in b.events]
        model = {(show(e.a[0]), show(e.a[2]), show(e.a[3])) for e in sevs + theirs if e.kind == "sapply"}
        names = {(m[0], m[1]) for m in model}
        for e in evs + mine:
            if e.kind == "apply":
                name, m, pos, mark, ins, rem, q, lok = e.a
                k = (show(name), show(pos), show(mark))
                if k not in model:
                    if k[:2] in names:
                        add("mark", "%s is run at %s with mark %s" % k, e.site)
                    else:
                        add("apply", "%s is run at %s, where it must not be" % k[:2], e.site)
                if not lok:
                    add("getloc", "%s is run at %s with a location that is not before it: %s" % (k[0], k[1], show(q)), e.site)
                if m == "slow" and (ins is not INS and show(ins) != show(INS)):
                    add("ins", "%s is run with the insertion limit %s" % (k[0], show(ins)), e.site)
            elif e.kind == "getloc" and not e.a[3]:
                add("getloc", "a location is computed from that of %s, which is not known to be before %s" % (
                    show(e.a[0]), show(e.a[2])), e.site)
            elif e.kind == "write" and e.a[2] < 2 and e.a[5] == "Ctx":
                if e.a[4] in CTX:
                    add("w" + e.a[4], "the %s of a context given to the parser is modified" % CTX[e.a[4]], e.site)
            elif e.kind == "write" and e.a[2] < 2:
                add("write", "%s made at %s is modified by a run (%s)" % (e.a[1], e.a[3], e.a[4]), e.site)
            elif e.kind in ("setclassattr", "setfuncattr", "global"):
                add("write", "a run modifies shared state (%s)" % e.kind, e.site)
        a = user_calls(self.w, st, evs, set())
        a = self.calls(st, evs, [l for l in st.loops if l not in loops0 and l in loops1])
        b = self.calls(st, sevs, [l for l in st.loops if l not in loops1])
        if a != b:
            for k in sorted(set(a) | set(b)):
                if a.get(k, 0) != b.get(k, 0):
                    add("user", "%s%s is called %d times, expected %d" % (k[0], k[1], a.get(k, 0), b.get(k, 0)), self.w.I.last)

    def budgets(self, st, evs, loops0, loops1, sevs, add):
        """Where the results differ: is a parser run with a remaining budget the model does not give it?"""
        mine = [e for l in st.loops if l not in loops0 and l in loops1 for b in st.loops[l].backs for e in b.events]
        theirs = [e for l in st.loops if l not in loops1 for b in st.loops[l].backs for e in b.events]
        want = {}
        for e in sevs + theirs:
            if e.kind == "sapply":
                want.setdefault((show(e.a[0]), show(e.a[2]), show(e.a[3])), set()).add(show(e.a[5]))
        for e in evs + mine:
            if e.kind == "apply" and e.a[1] == "slow":
                w = want.get((show(e.a[0]), show(e.a[2]), show(e.a[3])))
                if w is not None and show(e.a[5]) not in w:
                    add("optin" if w == {"None"} else "rem", "%s is run at %s with the remaining budget %s, expected %s" % (
                        show(e.a[0]), show(e.a[2]), show(e.a[5]), " or ".join(sorted(w))), e.site)

    def calls(self, st, evs, loops):
        out = {}

        def count(evs):
            c = {}
            for e in evs:
                if e.kind == "user":
                    k = (show(e.a[0]), show(tuple(e.a[1])))
                    c[k] = c.get(k, 0) + 1
            return c
        out = count(evs)
        for l in loops:
            best = {}
            for b in st.loops[l].backs:
                for k, n in count(b.events).items():
                    best[k] = max(best.get(k, 0), n)
            for k, n in best.items():
                out[k] = out.get(k, 0) + n
        return out


def run_scenario(w, sc, src=None, modes=None):
    p = Product(w)
    for mode in modes or sc.modes:
        for v in sc.variants:
            kw = sc.settings(mode)
            kw.update(v)
            for length in sc.lengths:
                p.run(sc, src or sc.src, mode, kw, length)
    return p
