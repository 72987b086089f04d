"""Rules for the parts that are not combinators: entry points, results, messages, locations, the lexer, forms, recursion."""
from .compare import Cmp, Incomplete
from .domain import (App, E, Lin, NLC, NLP, Ref, STREAM, Sym, Tup, Unsupported, X, add, atoms, is_const, is_int, lin_parts, same, scale,
                     show, slen, sub)
from .interp import Dead, Rz
from .lib import newline_count
from .product import Finding, Product, all_events, call, facts_text
from .scen import SCENARIOS
from .world import (F, FMTLOC, G, GETLOC, INS, LABEL, MARK, MAXINS, POS, RECOVER, REM, Settings, World, res)

SRC = Sym("SRC", "str")
SPEC = Sym("SPEC")


class RuleRun:
    def __init__(self, w):
        self.w = w
        self.I = w.I
        self.findings = []  # (props, Finding)
        self.stats = {"outcomes": 0, "comparisons": 0, "events": 0}
        self.name = ""

    def add(self, props, msg, site=None, mode="-"):
        I = self.I
        f = Finding(None, self.name, mode, "rule", msg, site or I.site(), facts_text(I.st.facts))
        if all(g.key() != f.key() or g.src != f.src for _, g in self.findings):
            self.findings.append((props, f))

    def check(self, ok, props, msg, site=None):
        self.stats["comparisons"] += 1
        if not ok:
            self.add(props, msg() if callable(msg) else msg, site)
        return ok

    def paths(self, fn, st=None):
        """Run fn on all paths; fn reports by itself; an exception that escapes is returned."""
        outs = self.w.run(fn, st)
        self.stats["outcomes"] += len(outs)
        return outs


def parts(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, App) and v.op == "str":
        return list(v.args)
    return [v]


def true_loc(I, s, pos):
    """(pos, line, col) of a position, in terms of the newlines before it."""
    n = newline_count(I, s, 0, pos)
    I.st.facts.assume(n)
    if I.ge0(sub(n, 1), "there is a newline before %s" % show(pos)):
        p = App(NLP, (s, pos))
        I.st.facts.assume(p)
        I.st.facts.assume(sub(sub(pos, p), 1))
        return (pos, n, sub(sub(pos, p), 1))
    p = add(App(NLP, (s, pos)), 1)  # by convention
    I.st.facts.assume(p)
    I.st.facts.assume(scale(p, -1))
    return (pos, n, pos)


def same_point(I, s, pos):
    """What is known of a position that must be pos is known of pos."""
    f = I.st.facts
    for a in {a for i in f.ineqs for a in atoms(i) if isinstance(a, App) and a.op in (NLC, NLP) and a.args[0] == s}:
        if a.args[1] != pos and f.entails_eq(a.args[1], pos):
            for d in (sub(a.args[1], pos), sub(a, App(a.op, (s, pos)))):
                f.assume(d)
                f.assume(scale(d, -1))


def same_lines(I, s, points):
    """Positions without a newline between them have the same last newline."""
    f = I.st.facts
    for a in points:
        for b in points:
            if a is not b and f.entails_eq(newline_count(I, s, 0, a), newline_count(I, s, 0, b)):
                x, y = App(NLP, (s, a)), App(NLP, (s, b))
                f.assume(sub(x, y))
                f.assume(sub(y, x))


def loc_is(I, v, want):
    t = I.as_tuple(v)
    if t is None or len(t) != 3:
        return False
    f = I.st.facts
    return all(f.entails_eq(a, b) or by_equations(f, sub(a, b)) if (is_int(a) or type(a) is int) else same(a, b)
               for a, b in zip(t, want))


def by_equations(f, d):
    """Whether d is 0 by the known equations (linear elimination)."""
    rows = []

    def reduce(x):
        for a, r in rows:
            c = dict(lin_parts(x)[1]).get(a)
            if c:
                x = add(x, r, -c)
        return x
    known = set(f.ineqs)
    for i in f.ineqs:
        if scale(i, -1) not in known:
            continue
        i = reduce(i)
        for a, c in lin_parts(i)[1]:
            if abs(c) == 1:
                i = scale(i, c)
                rows = [(b, add(r, i, -dict(lin_parts(r)[1]).get(a, 0))) for b, r in rows] + [(a, i)]
                break
    return same(reduce(d), 0)


def of_loop(I, v):
    """Whether a location comes from the general round of a loop over the text: compared only where it is unrolled."""
    return any(isinstance(a, Sym) and a.name[0] == "L" and a.name[1:2].isdigit() for a in atoms(I.termify(v)))


def make_loc(I, w, t):
    return I.construct(w.cls["Loc"], tuple(t), {})


# ---- locations ---------------------------------------------------------------------------------------------------

def rule_get_loc(r):
    """The location function of the scannerless entry point."""
    w, I = r.w, r.I
    start = Sym("START", "nat")
    skipped = []

    def body(method):
        I.st.phase = 2
        f = I.st.facts
        f.assume(sub(POS, start))
        f.assume(sub(slen(STREAM), POS))
        l0 = true_loc(I, STREAM, start)
        captured = []
        I.oracle = lambda I_, name, mode, stream, pos, ctx, ins=None, rem=None: captured.append(ctx) or w.make(
            "Error", loc=make_loc(I, w, l0), expected=I.new_list(), consumed=False)
        w.eval_in("scannerless.parse(P, STREAM)")
        c = captured[0]
        l = I.getattr(c, "loc")
        r.check(loc_is(I, l, (0, 0, 0)), ["C07"], "scannerless.parse starts at %s" % show(I.termify(l)))
        r.check(I.getattr(c, "mark") == 0, ["C18"], "scannerless.parse starts with the mark %s" % show(I.getattr(c, "mark")))
        c0 = I.construct(w.cls["Ctx"], (0, make_loc(I, w, l0), get_loc_of(I, c)), {})
        v = call(I, lambda: I.call(I.getattr(c0, method), (STREAM, POS), {}))
        what = "the scannerless location" if method == "get_loc" else "the tracked location"
        if not r.check(v[0] == "ok", ["C26", "C07"], "%s raises %s" % (what, v[1])):
            return
        l = v[1] if method == "get_loc" else I.getattr(v[1], "loc")
        same_point(I, STREAM, POS)
        want = true_loc(I, STREAM, POS)
        same_lines(I, STREAM, [start, POS])
        if not loc_is(I, l, want) and of_loop(I, l):
            skipped.append(I.site())
            return
        r.check(loc_is(I, l, want), ["C07", "C19"], lambda: "%s of %s, from that of %s, is %s, expected %s" % (
            what, show(POS), show(start), show(I.termify(l)), show(Tup(tuple(E(x) for x in want)))))
    guard(r, lambda: body("get_loc"))
    # the incremental form used by the parsers
    guard(r, lambda: body("update_loc"))
    if skipped:
        raise Unsupported("%s: a location computed by a loop of any number of rounds" % skipped[0])


def get_loc_of(I, c):
    """The location function a context was made with."""
    for n, v in sorted(I.rec(c).d.items()):
        if n not in ("mark", "loc"):
            return v
    raise Unsupported("the context keeps no location function")


def guard(r, body):
    w, I = r.w, r.I
    saved = I.oracle

    def run():
        try:
            return body()
        finally:
            I.oracle = saved
    for o in r.paths(run):
        if o.kind != "ok":
            I.st = o.st
            raise Unsupported("%s: unexpected exception %s" % (r.name, I.exc_name(o.value)))


def tokens(I, w, n):
    """A stream of n tokens with unknown locations; n None: of unknown length."""
    return [I.construct(w.cls["Token"], (Sym("K%d" % i, "str"), Sym("T%d" % i, "str"),
                                         make_loc(I, w, tuple(Sym("S%d%s" % (i, c), "nat") for c in "plc")),
                                         make_loc(I, w, tuple(Sym("E%d%s" % (i, c), "nat") for c in "plc"))), {})
            for i in range(n)]


def rule_lexer_loc(r):
    """The location function of the lexer entry point."""
    w, I = r.w, r.I
    for n in (0, 1, 2, 3):
        for p in range(n + 1):
            def body():
                I.st.phase = 1
                toks = tokens(I, w, n)
                stream = I.new_list(tuple(E(t) for t in toks))
                I.st.phase = 2
                captured = []
                I.oracle = lambda I_, name, mode, s, pos, ctx, ins=None, rem=None: captured.append(ctx) or w.make(
                    "Error", loc=make_loc(I, w, (0, 0, 0)), expected=I.new_list(), consumed=False)
                w.eval_in("lexer.parse(P, TOKS)", {"TOKS": stream})
                c = captured[0]
                r.check(I.getattr(c, "mark") == 0, ["C18"], "lexer.parse starts with the mark %s" % show(I.getattr(c, "mark")))
                want = I.getattr(toks[p], "start") if p < n else I.getattr(toks[-1], "end") if n else make_loc(I, w, (0, 0, 0))
                want = tuple(I.as_tuple(want))
                for m in ("get_loc", "update_loc"):
                    v = call(I, lambda: I.call(I.getattr(c, m), (stream, p), {}))
                    if not r.check(v[0] == "ok", ["C26", "C07"], "the location of token %d of %d raises %s" % (p, n, v[1])):
                        continue
                    l = v[1] if m == "get_loc" else I.getattr(v[1], "loc")
                    r.check(loc_is(I, l, want), ["C07", "C19"], lambda: "the location of token %d of %d is %s, expected %s" % (
                        p, n, show(I.termify(l)), show(Tup(tuple(E(x) for x in want)))))
                if n:
                    # from a location reached before
                    c2 = I.call(I.getattr(c, "update_loc"), (stream, 0), {})
                    l = I.call(I.getattr(c2, "get_loc"), (stream, p), {})
                    r.check(loc_is(I, l, want), ["C07", "C19"], "the location of token %d of %d depends on the path to it" % (p, n))
            guard(r, body)


def rule_fmt_loc(r):
    """Locations are reported as one-based line:column (position without tracking)."""
    w, I = r.w, r.I
    for src, want in (("scannerless.parse(P, STREAM, RECOVER)", "lc"), ("lexer.parse(P, STREAM, RECOVER)", "lc"),
                      ("P.parse(STREAM, RECOVER)", "p")):
        def body():
            I.st.phase = 2
            p, l, c = Sym("Lp", "nat"), Sym("Ll", "nat"), Sym("Lc", "nat")
            I.oracle = lambda *a: w.make("Error", loc=make_loc(I, w, (p, l, c)), expected=I.new_list((E("x"),)), consumed=False)
            v = catch(I, lambda: I.call(I.getattr(w.eval_in(src), "unwrap"), (), {}))
            errs = errors_of(r, v)
            if errs is None:
                r.add(["C09", "C07"], "unwrap of a failure gives %s" % (v[1] if v[0] == "raise" else "a value"))
                return
            s = I.getattr(errs[0], "loc_str")
            got = [x for x in parts(s)]
            w_ = [App("conv", ("s", add(l, 1))), ":", App("conv", ("s", add(c, 1)))] if want == "lc" else [App("conv", ("s", p))]
            r.check(len(got) == len(w_) and all(same(a, b) for a, b in zip(got, w_)), ["C07"], lambda:
                    "%s reports the location %s, expected %s" % (src, show(s), "line+1:column+1" if want == "lc" else "the position"))
        guard(r, body)


def rule_lex_error_text(r):
    w, I = r.w, r.I

    def body():
        p, l, c = Sym("Lp", "nat"), Sym("Ll", "nat"), Sym("Lc", "nat")
        e = I.construct(w.cls["LexError"], (make_loc(I, w, (p, l, c)),), {})
        s = I.call(I.getattr(e, "__str__"), (), {})
        got = [x for x in parts(s) if not isinstance(x, str)]
        want = [App("conv", ("s", add(l, 1))), App("conv", ("s", add(c, 1)))]
        r.check(len(got) == 2 and all(same(a, b) for a, b in zip(got, want)), ["C07", "C20"],
                lambda: "a LexError reads %s" % show(s))
        r.check(loc_is(I, I.getattr(e, "loc"), (p, l, c)), ["C20"], "a LexError has another location than the one it was made with")
    guard(r, body)


# ---- entry points -------------------------------------------------------------------------------------------------

ENTRIES = (
    ("P.parse(STREAM, RECOVER, max_insertions=MAXINS, get_loc=GETLOC, fmt_loc=FMTLOC)", RECOVER, MAXINS),
    ("P.parse(STREAM, recover=RECOVER, max_insertions=MAXINS)", RECOVER, MAXINS),
    ("P.parse(STREAM, RECOVER)", RECOVER, None), ("P.parse(STREAM)", False, None), ("P.parse(STREAM, True)", True, None),
    ("scannerless.parse(P, STREAM, RECOVER)", RECOVER, None), ("scannerless.parse(P, STREAM, recover=RECOVER)", RECOVER, None),
    ("scannerless.parse(P, STREAM)", False, None), ("scannerless.parse(P, STREAM, True)", True, None),
    ("lexer.parse(P, STREAM, RECOVER)", RECOVER, None), ("lexer.parse(P, STREAM, recover=RECOVER)", RECOVER, None),
    ("lexer.parse(P, STREAM)", False, None), ("lexer.parse(P, STREAM, True)", True, None),
    ("P.parse(STREAM, max_insertions=0, recover=True)", True, 0),
)


def rule_entry(r):
    """The flag and the limit reach the parser unchanged; parsing starts at the beginning without a mark."""
    w, I = r.w, r.I
    for src, flag, limit in ENTRIES:
        def body():
            I.st.phase = 2
            seen = []
            I.oracle = lambda I_, name, mode, s, pos, ctx, ins=None, rem=None: seen.append((mode, s, pos, ctx, ins, rem)) or w.make(
                "Ok", value=Sym("V"), pos=POS, ctx=ctx, expected=Sym("EXP"), consumed=True)
            v = call(I, lambda: w.eval_in(src))
            if not r.check(v[0] == "ok", ["C26"], "%s raises %s" % (src, v[1])):
                return
            n = len(seen)
            on = flag if isinstance(flag, bool) else I.truth(flag)
            if not r.check(n == 1, ["C03", "C25"] if n == 0 else ["C25", "C14"], "%s applies the parser %d times" % (src, n)):
                return
            mode, s, pos, ctx, ins, rem = seen[0]
            r.check((mode == "slow") == on, ["C25"], "%s with recover=%s runs the parser in %s mode" % (
                src, on, {"slow": "recovery", "fast": "plain"}[mode]))
            r.check(same(s, STREAM), ["C03"], "%s parses something else than its input: %s" % (src, show(s)))
            r.check(same(pos, 0), ["C03"], "%s starts at position %s" % (src, show(pos)))
            r.check(same(I.getattr(ctx, "mark"), 0), ["C18", "C19"], "%s starts with the mark %s" % (src, show(I.getattr(ctx, "mark"))))
            r.check(loc_is(I, I.getattr(ctx, "loc"), (0, 0, 0)), ["C07"], "%s starts at another location than the first" % src)
            if mode == "slow":
                for nm, x in (("limit", ins), ("remaining budget", rem)):
                    if limit is None:
                        r.check(type(x) is int and x == 5, ["C12"], "%s: the %s is %s, documented is 5" % (src, nm, show(x)))
                    else:
                        r.check(same(x, limit), ["C12"], "%s: the %s is %s, expected %s" % (src, nm, show(x), show(limit)))
            u = call(I, lambda: I.call(I.getattr(v[1], "unwrap"), (), {}))
            r.check(u[0] == "ok" and same(u[1], Sym("V")), ["C09"], lambda: "%s: unwrap of a success gives %s" % (
                src, u[1] if u[0] == "raise" else show(u[1])))
        guard(r, body)


# ---- results ------------------------------------------------------------------------------------------------------

def errors_of(r, v):
    """The items of a raised ParseError, or None."""
    I = r.I
    if v[0] != "raise" or v[1] != "ParseError":
        return None
    segs = list(I.iterate(I.getattr(v[3], "errors")))
    if any(not isinstance(s, E) for s in segs):
        return None
    return [s.v for s in segs]


def catch(I, fn):
    try:
        return ("ok", fn())
    except Rz as e:
        return ("raise", I.exc_name(e.exc), I.site(), e.exc)


def call3(I, fn):
    return catch(I, fn)


def sym_repair(I, w, i, prio, nops, ctx, cost=None, pos=None, listy=False):
    ops = []
    for j in range(nops):
        op = w.eval_in("reparsec.Insert(X)", {"X": Sym("IL%d%d" % (i, j), "str")}) if (i + j) % 2 else \
            w.eval_in("reparsec.Skip(X)", {"X": Sym("SC%d%d" % (i, j), "nat")})
        ops.append(w.make("OpItem", op=op, loc=w.loc(Sym("OP%d%d" % (i, j), "nat")), expected=exp_of(I, listy, "OE%d%d" % (i, j)), consumed=False))
    return w.make("Repair", cost=Sym("COST%d" % i, "nat") if cost is None else cost, prio=prio, ins=3,
                  ops=I.new_list(tuple(E(o) for o in ops)), value=Sym("V%d" % i), pos=Sym("Q%d" % i, "nat") if pos is None else pos,
                  ctx=ctx, expected=(), consumed=True)


def wrapped(r, mk, fmap=False):
    """The ParseResult of a parser with the given result (made by mk), through the public entry point."""
    w, I = r.w, r.I
    I.oracle = lambda I_, name, mode, s, pos, ctx, ins=None, rem=None: mk(ctx)
    v = w.eval_in("P.parse(STREAM, True, fmt_loc=FMTLOC)")
    if fmap:
        v = I.call(I.getattr(v, "fmap"), (F,), {})
    return v


def check_failure(r, v, loc, exp, what):
    """v: outcome of unwrap; expected: ParseError with one item for loc and exp."""
    I = r.I
    errs = errors_of(r, v)
    if not r.check(errs is not None and len(errs) == 1, ["C09"], lambda: "%s gives %s" % (
            what, ("%d items" % len(errs)) if errs is not None else ("a value" if v[0] == "ok" else v[1]))):
        return
    check_item(r, errs[0], loc, exp, None, what)


def check_item(r, it, loc, exp, op, what):
    w, I = r.w, r.I
    l = I.getattr(it, "loc")
    r.check(same(I.termify(l), I.termify(loc)), ["C09"], lambda: "%s: the item has the location %s" % (what, show(I.termify(l))))
    s = I.getattr(it, "loc_str")
    want = App("call", (FMTLOC, I.termify(loc)))
    r.check(same(s, want), ["C09"], lambda: "%s: the formatted location is %s" % (what, show(s)))
    e = I.getattr(it, "expected")
    segs = list(I.iterate(e))
    if isinstance(exp, Ref):
        ref = list(I.iterate(exp))
        exp = ref[0].term
    ok = len(segs) == 1 and isinstance(segs[0], X) and not segs[0].rev and same(segs[0].term, exp)
    r.check(ok, ["C09", "C05"], lambda: "%s: the expected descriptions are %s, expected those of %s" % (
        what, show(I.termify(e)), show(exp)))
    if isinstance(e, Ref):
        r.check(I.rec(e).kind == "list" and I.rec(e).birth == 3, ["C14", "C09"], "%s: the list of descriptions is not a fresh list" % what)
    o = I.getattr(it, "op")
    r.check(same(I.termify(o) if o is not None else None, I.termify(op) if op is not None else None), ["C09"],
            lambda: "%s: the operation is %s" % (what, show(I.termify(o) if o is not None else None)))


def exp_of(I, listy, name="EXP"):
    """Descriptions of a result: an opaque iterable, or a list (which whoever reports it must not hand out)."""
    return I.new_list((X(Sym(name)),)) if listy else Sym(name)


def rule_unwrap(r):
    """unwrap() of a success, a failure, and of a result without repairs."""
    for listy in (False, True):
        rule_unwrap_of(r, listy)


def rule_unwrap_of(r, listy):
    w, I = r.w, r.I
    for fm in (False, True):
        for cons in (False, True):
            def body():
                I.st.phase = 2
                v = wrapped(r, lambda ctx: w.make("Ok", value=Sym("V"), pos=POS, ctx=ctx, expected=Sym("EXP"), consumed=cons), fm)
                want = App("call", (F, Sym("V"))) if fm else Sym("V")
                I.st.phase = 3
                for arg in ((), (True,), ()):
                    u = catch(I, lambda: I.call(I.getattr(v, "unwrap"), arg, {}))
                    r.check(u[0] == "ok" and same(u[1], want), ["C09"] + (["C08"] if fm else []), lambda: "unwrap%s of a success%s gives %s" % (
                        arg, " mapped by F" if fm else "", u[1] if u[0] == "raise" else show(u[1])))
                n = sum(1 for e in I.st.trace if e.kind == "user" and e.a[0] == F)
                r.check(n == (1 if fm else 0), ["C08"], "the function given to ParseResult.fmap is called %d times for a success" % n)
            guard(r, body)

            def body2():
                I.st.phase = 2
                v = wrapped(r, lambda ctx: w.make("Error", loc=w.loc(POS), expected=exp_of(I, listy), consumed=cons), fm)
                I.st.phase = 3
                for arg in ((), (True,), (), (True,)):
                    u = catch(I, lambda: I.call(I.getattr(v, "unwrap"), arg, {}))
                    check_failure(r, u, w.loc(POS), Sym("EXP"), "unwrap%s of a failure%s" % (arg, " mapped by F" if fm else ""))
                n = sum(1 for e in I.st.trace if e.kind == "user" and e.a[0] == F)
                r.check(n == 0, ["C08"], "the function given to ParseResult.fmap is called for a failure")
                for e in I.st.trace:
                    if e.kind == "write" and e.a[2] < 3:
                        r.add(["C09", "C14"], "unwrap modifies the result (%s made at %s)" % (e.a[1], e.a[3]), e.site)
            guard(r, body2)

            def body3():
                I.st.phase = 2
                v = wrapped(r, lambda ctx: w.make("Recovered", repairs=I.new_list(), min_prio=None, loc=w.loc(POS),
                                                  expected=exp_of(I, listy), consumed=cons), fm)
                I.st.phase = 3
                for arg in ((), (True,), (), (True,)):
                    u = catch(I, lambda: I.call(I.getattr(v, "unwrap"), arg, {}))
                    check_failure(r, u, w.loc(POS), Sym("EXP"), "unwrap%s of a failure without repairs%s" % (
                        arg, " mapped by F" if fm else ""))
            guard(r, body3)


def rule_mapped(r):
    """ParseResult.fmap gives a new result and leaves the mapped one alone."""
    w, I = r.w, r.I

    def go(name, mk, val, recover):
        def body():
            I.st.phase = 2
            v = wrapped(r, mk)
            I.st.phase = 3
            a = I.call(I.getattr(v, "fmap"), (F,), {})
            b = I.call(I.getattr(v, "fmap"), (G,), {})
            c = I.call(I.getattr(a, "fmap"), (G,), {})
            f, g = App("call", (F, val)), App("call", (G, val))
            for what, x, want in (("itself", v, val), ("mapped by F", a, f), ("mapped by G", b, g),
                                  ("mapped by F and G", c, App("call", (G, f))), ("itself, again", v, val), ("mapped by F, again", a, f)):
                u = catch(I, lambda: I.call(I.getattr(x, "unwrap"), (True,) if recover else (), {}))
                r.check(u[0] == "ok" and same(u[1], want), ["C08", "C14"], lambda: "%s that is mapped twice gives, %s, %s, expected %s" % (
                    name, what, u[1] if u[0] == "raise" else show(u[1]), show(want)))
        guard(r, body)
    go("a success", lambda ctx: w.make("Ok", value=Sym("V"), pos=POS, ctx=ctx, expected=Sym("EXP"), consumed=True), Sym("V"), False)
    go("a repaired result", lambda ctx: w.make("Recovered", repairs=I.new_list((E(sym_repair(I, w, 0, None, 1, ctx)),)), min_prio=None,
                                               loc=w.loc(POS), expected=Sym("EXP"), consumed=False), Sym("V0"), True)


def check_repairs(r, mk, fm, props):
    """unwrap of a result with the given repairs, against the model's choice."""
    w, I = r.w, r.I

    def body():
        I.st.phase = 2
        box = []

        def make(ctx):
            reps = mk(ctx)
            box.append(reps)
            return w.make("Recovered", repairs=I.new_list(tuple(E(x) for x in reps)), min_prio=None, loc=w.loc(POS),
                          expected=Sym("EXP"), consumed=False)
        v = wrapped(r, make, fm)
        I.st.phase = 3
        reps = box[0]
        best = I.call(w.hcls("s_best"), (I.new_list(tuple(E(x) for x in reps)),), {})
        bv = I.getattr(best, "value")
        ops = [tuple(I.getattr(s.v, f) for f in ("loc", "expected", "op")) for s in I.iterate(I.getattr(best, "ops"))]
        first = [I.termify(I.getattr([s.v for s in I.iterate(I.getattr(x, "ops"))][0], "op")) for x in reps]
        n0 = len(I.st.trace)
        got = [(arg, catch(I, lambda: I.call(I.getattr(v, "unwrap"), arg, {}))) for arg in ((), (True,), (), (True,))]
        writes = [e for e in I.st.trace[n0:] if e.kind == "write" and e.a[2] < 3]
        want = App("call", (F, bv)) if fm else bv
        for arg, u in got:
            what = "unwrap%s of a result with %d repairs%s" % (arg, len(reps), " mapped by F" if fm else "")
            if arg:
                if not r.check(u[0] == "ok", ["C09"], "%s raises %s" % (what, u[1])):
                    continue
                r.check(same(u[1], want), props + (["C08"] if fm else []), lambda: "%s gives %s, expected %s" % (what, show(u[1]), show(want)))
            else:
                errs = errors_of(r, u)
                if not r.check(errs is not None, ["C09"], lambda: "%s gives %s" % (what, "a value" if u[0] == "ok" else u[1])):
                    continue
                if len(errs) and I.obj_cls(errs[0]) is not None and len(reps) > 1:
                    # which repair was reported?
                    o = I.getattr(errs[0], "op")
                    t = I.termify(o) if o is not None else None
                    bt = I.termify(ops[0][2])
                    if t is not None and not same(t, bt) and any(same(t, q) for q in first):
                        r.check(False, props, "%s reports another repair than the best one" % what)
                        continue
                if not r.check(len(errs) == len(ops), ["C09"], "%s reports %d items for a repair of %d operations" % (
                        what, len(errs), len(ops))):
                    continue
                for k, (it, o) in enumerate(zip(errs, ops)):
                    check_item(r, it, o[0], o[1], o[2], "%s, item %d" % (what, k))
        if fm:
            calls = [e for e in I.st.trace if e.kind == "user" and e.a[0] == F]
            for x in reps:
                val = I.getattr(x, "value")
                n = sum(1 for e in calls if same(e.a[1][0], val))
                r.check(n == 1, ["C08"], "the function given to ParseResult.fmap is called %d times for a repair" % n)
        for e in writes:
            r.add(["C09", "C14"], "unwrap modifies the result (%s made at %s)" % (e.a[1], e.a[3]), e.site)
    guard(r, body)


def rule_select(r):
    """The selected repair and the report made of it."""
    w, I = r.w, r.I
    P = (None, 0, False)
    for p0 in P:
        check_repairs(r, lambda ctx: [sym_repair(I, w, 0, p0, 2, ctx)], False, ["C10"])
        check_repairs(r, lambda ctx: [sym_repair(I, w, 0, p0, 2, ctx, listy=True)], False, ["C10"])
        check_repairs(r, lambda ctx: [sym_repair(I, w, 0, p0, 1, ctx)], True, ["C10"])
        for p1 in P:
            check_repairs(r, lambda ctx: [sym_repair(I, w, 0, p0, 1, ctx), sym_repair(I, w, 1, p1, 2, ctx)], False, ["C10"])
    check_repairs(r, lambda ctx: [sym_repair(I, w, 0, None, 1, ctx), sym_repair(I, w, 1, 0, 1, ctx)], True, ["C10"])
    for ps in ((None, 0, None), (None, None, False), (0, None, False)):
        check_repairs(r, lambda ctx: [sym_repair(I, w, i, p, 1, ctx) for i, p in enumerate(ps)], False, ["C10"])


def rule_select_many(r):
    """No repair is left out: the best one at any place of a long list."""
    w, I = r.w, r.I
    for n in (4, 7, 20):
        for k in range(n):
            # cheaper; as cheap and further; as cheap and as far and explicit
            for c, q, p in ((1, 0, None), (2, 9, None), (2, 5, 0)):
                check_repairs(r, lambda ctx: [
                    sym_repair(I, w, i, p if i == k else None, 1, ctx, cost=c if i == k else 2, pos=q if i == k else 5)
                    for i in range(n)], False, ["C10"])
    for n, c in ((3, 10 ** 9), (3, 7), (2, 100), (2, 1000)):
        check_repairs(r, lambda ctx: [sym_repair(I, w, i, None, 1, ctx, cost=c - i, pos=5) for i in range(n)], False, ["C10"])
        check_repairs(r, lambda ctx: [sym_repair(I, w, i, None, 1, ctx, cost=c, pos=c + i) for i in range(n)], False, ["C10"])


# ---- messages -----------------------------------------------------------------------------------------------------

def item(I, w, loc, exp, op):
    return I.construct(w.cls["ErrorItem"], (w.loc(POS), loc, I.new_list(tuple(E(x) for x in exp)), op), {})


def expect_parts(loc, exp, op):
    return [loc] + list(exp) + ([op] if op is not None else [])


def interesting(s):
    return [x for x in parts(s) if not isinstance(x, str)]


def consts(s):
    return "\0".join(x for x in parts(s) if isinstance(x, str))


def rule_messages(r):
    w, I = r.w, r.I
    loc = Sym("LOCSTR", "str")
    cnt = Sym("COUNT", "nat")
    lab = Sym("INSLABEL", "str")
    for n in (0, 1, 2, 3, 4, 7):
        exp = [Sym("X%d" % i, "str") for i in range(n)]
        for op in (None, "skip", "ins"):
            def body():
                o = None if op is None else w.eval_in("reparsec.Skip(X)", {"X": cnt}) if op == "skip" else \
                    w.eval_in("reparsec.Insert(X)", {"X": lab})
                it = item(I, w, loc, exp, o)
                m = catch(I, lambda: I.getattr(it, "msg"))
                what = "the message of an item with %d descriptions and %s" % (n, {None: "no repair"}.get(op, "an " + str(op)))
                if not r.check(m[0] == "ok", ["C27", "C26"], "%s raises %s" % (what, m[1])):
                    return
                s = m[1]
                got = interesting(s)
                text = consts(s)
                c = App("conv", ("s", cnt))
                want = expect_parts(loc, exp, None if op is None else c if op == "skip" else lab)
                if op == "skip" and I.st.facts.entails_eq(cnt, 1) and not any(same(x, c) for x in got):
                    want = want[:-1]
                    r.check("1" in text.split("\0")[-1], ["C27"], "%s does not say how many" % what)
                if op == "skip" and I.st.facts.entails_eq(cnt, 0):
                    return
                r.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), ["C27"], lambda:
                        "%s is %s" % (what, show(s)))
                seq = parts(s)
                r.check(all(isinstance(a, str) or isinstance(b, str) for a, b in zip(seq, seq[1:])), ["C27"], lambda:
                        "%s has no separator: %s" % (what, show(s)))
                if n == 0:
                    r.check("unexpected input" in text, ["C27"], lambda: "%s does not say 'unexpected input': %s" % (what, show(s)))
                else:
                    r.check("unexpected input" not in text, ["C27"], lambda: "%s says 'unexpected input'" % what)
                if op == "skip":
                    r.check("skip" in text and "insert" not in text, ["C27"], lambda: "%s: %s" % (what, show(s)))
                elif op == "ins":
                    r.check("insert" in text and "skip" not in text, ["C27"], lambda: "%s: %s" % (what, show(s)))
                else:
                    r.check("insert" not in text and "skip" not in text, ["C27"], lambda: "%s: %s" % (what, show(s)))
            guard(r, body)
    for n in (1, 2, 3, 5, 12):
        def body2():
            items, want = [], []
            for i in range(n):
                l = Sym("LOCSTR%d" % i, "str")
                x = [Sym("X%d_%d" % (i, j), "str") for j in range(i % 3)]
                o = None if i % 3 == 0 else w.eval_in("reparsec.Insert(X)", {"X": Sym("IL%d" % i, "str")})
                items.append(item(I, w, l, x, o))
                want += expect_parts(l, x, None if i % 3 == 0 else Sym("IL%d" % i, "str"))
            e = I.construct(w.cls["ParseError"], (I.new_list(tuple(E(x) for x in items)),), {})
            s = catch(I, lambda: I.call(I.getattr(e, "__str__"), (), {}))
            if not r.check(s[0] == "ok", ["C27", "C26"], "the text of an error of %d items raises %s" % (n, s[1])):
                return
            got = interesting(s[1])
            r.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), ["C27"], lambda:
                    "the text of an error of %d items is %s" % (n, show(s[1])))
            errs = list(I.iterate(I.getattr(e, "errors")))
            r.check(len(errs) == n and all(isinstance(a, E) and a.v == b for a, b in zip(errs, items)), ["C09", "C27"],
                    "a ParseError has other items than it was made with")
        guard(r, body2)


# ---- the lexer ----------------------------------------------------------------------------------------------------

def lexer_rule(n, k):
    def rule(r):
        return rule_lexer(r, n, k)
    rule.__doc__ = "split_tokens against its model, for every source of %s." % (
        "%d characters" % n if k is None else "any length with at most %d matches" % k)
    return rule


def rule_lexer(r, n, k):
    w, I = r.w, r.I
    I.globals_["SRC"] = SRC
    I.globals_["SPEC"] = SPEC
    w.set = Settings(peel=(n or k or 0) + 3)
    I.match_limit = k
    depths = {}

    def body():
        I.st.phase = 2
        if n is not None:
            I.st.facts.assume(sub(slen(SRC), n))
            I.st.facts.assume(sub(n, slen(SRC)))
        n0 = len(I.st.trace)
        I.nested = (0, "", "")
        v = catch(I, lambda: w.eval_in("split_tokens(SRC, SPEC)"))
        nested = I.nested
        evs = I.st.trace[n0:]
        m = w.eval_in("s_split(SRC, SPEC)")
        steps = len(list(I.iterate(m.segs[2].v)))
        if v[0] == "ok" and m.segs[0].v != "error":
            depths[steps] = max(depths.get(steps, (0, "", "")), nested)
        compare_tokens(r, v, m, n)
        for e in evs:
            if e.kind == "regex-slice":
                r.add(["C20"], "a match is looked for in a part of the source", e.site)
    r.skipped = []
    try:
        guard(r, body)
    finally:
        I.match_limit = None
        for k in sorted(depths):
            r.stats["comparisons"] += 1
            if k > 1 and k - 1 in depths and depths[k][0] > depths[k - 1][0]:
                r.add(["C24"], "%s is active %d times at once for %d matches, %d times for one less" % (
                    depths[k][1], depths[k][0] + 1, k, depths[k - 1][0] + 1), depths[k][2])
    for s in I.diverged:
        r.add(["C20"], "a loop of the lexer that never ends", s)
    del I.diverged[:]
    if r.skipped:
        raise Unsupported("%s: a location computed by a loop of any number of rounds" % r.skipped[0])


def in_source(r, l, q, pts):
    I = r.I
    for x in pts:
        same_point(I, SRC, x)
    want = true_loc(I, SRC, q)
    same_lines(I, SRC, pts)
    if loc_is(I, l, want):
        return True
    if of_loop(I, l):
        r.skipped.append(I.site())
        return True
    return False


def compare_tokens(r, v, m, n):
    w, I = r.w, r.I
    ms = [s.v for s in m.segs]
    if ms[0] == "error":
        if not r.check(v[0] == "raise" and v[1] == "LexError", ["C20"], lambda: "the lexer gives %s where no token matches" % (
                "tokens" if v[0] == "ok" else v[1])):
            return
        pts = [0] + [s.v for s in I.iterate(ms[2])]
        l = I.getattr(v[3], "loc")
        r.check(in_source(r, l, ms[1], pts), ["C20", "C07"], lambda: "LexError has the location %s, expected that of %s" % (
            show(I.termify(l)), show(ms[1])))
        return
    if not r.check(v[0] == "ok", ["C20", "C26"] if v[1] != "LexError" else ["C20"], lambda: "split_tokens raises %s" % v[1]):
        return
    if not r.check(isinstance(v[1], Ref) and I.rec(v[1]).kind == "list", ["C20", "C14"], "split_tokens does not return a list"):
        return
    got = list(I.iterate(v[1]))
    want = [s.v for s in I.iterate(ms[1])]
    if not r.check(len(got) == len(want) and all(isinstance(g, E) for g in got), ["C20"], lambda:
                   "the lexer gives %d tokens, expected %d" % (len(got), len(want))):
        return
    pts = [s.v for s in I.iterate(ms[2])]
    for g, t in zip(got, want):
        kind, text, a, b = [s.v for s in t.segs]
        g = g.v
        if not r.check(I.obj_cls(g) is not None and I.obj_cls(g).name == "Token", ["C20"], "the lexer gives something else than tokens"):
            continue
        r.check(same(I.getattr(g, "kind"), kind), ["C20"], lambda: "the kind of a token is %s" % show(I.getattr(g, "kind")))
        r.check(same(I.getattr(g, "value"), text), ["C20"], lambda: "the text of a token is %s" % show(I.getattr(g, "value")))
        for f, q in (("start", a), ("end", b)):
            l = I.getattr(g, f)
            r.check(in_source(r, l, q, [0] + pts), ["C20", "C07"], lambda: "the %s of a token is %s, expected the location of %s" % (
                f, show(I.termify(l)), show(q)))


RULES = [
    ("scannerless locations", rule_get_loc, "C07 C18 C19 C26"),
    ("token locations", rule_lexer_loc, "C07 C18 C19 C26"),
    ("reported locations", rule_fmt_loc, "C07"),
    ("LexError", rule_lex_error_text, "C07 C20"),
    ("entry points", rule_entry, "C03 C07 C09 C12 C14 C18 C19 C25 C26"),
    ("unwrap", rule_unwrap, "C05 C08 C09 C14"),
    ("results mapped twice", rule_mapped, "C08 C14"),
    ("selection of a repair", rule_select, "C05 C08 C09 C10 C14"),
    ("selection from long lists", rule_select_many, "C10"),
    ("messages", rule_messages, "C09 C26 C27"),
    ("lexer, 0 characters", lexer_rule(0, None), "C07 C14 C20 C26"), ("lexer, 1 character", lexer_rule(1, None), "C07 C14 C20 C26"),
    ("lexer, 2 characters", lexer_rule(2, None), "C07 C14 C20 C24 C26"),
    ("lexer, 3 characters", lexer_rule(3, None), "C07 C14 C20 C24 C26", "thorough"),
    ("lexer, 1 match", lexer_rule(None, 1), "C07 C14 C20 C26"), ("lexer, 2 matches", lexer_rule(None, 2), "C07 C14 C20 C24 C26"),
    ("lexer, 3 matches", lexer_rule(None, 3), "C07 C14 C20 C24 C26", "thorough"),
]


def run_rule(r, name):
    fn = next(x[1] for x in RULES if x[0] == name)
    w = r.w
    r.name = name
    w.set = Settings()
    w.flags = []
    del w.I.diverged[:]
    fn(r)
    return r
