"""The units of analysis: what is run for which property."""
from .domain import Unsupported
from .pairs import DEPTHS, Depth, Modes, Other, Twice, Wide
from .product import Product
from .rules import RULES, RuleRun, run_rule
from .scen import FORMED, GROUPS, LIGHT, NESTED, SCENARIOS, props_of
from .selftest import WITNESSES


BY_NAME = {s.name: s for s in SCENARIOS}


class Task:
    tier = "quick"
    primary = True
    weight = 1

    def __init__(self, name):
        self.name = name
        self.so_far = None

    def partial(self):
        """What was found on the paths analysed so far, where the analysis could not be finished."""
        return []


class ScTask(Task):
    """One combination in one mode under one setting, against its model."""

    def __init__(self, sc, mode, variant, length, src=None):
        n = sc.name + " " + {"fast": "plain", "slow": "recovery"}[mode]
        if variant in sc.variants and len(sc.variants) > 1:
            n += " #%d" % sc.variants.index(variant)
        if length is not None:
            n += " length %d" % length
        if src is not None:
            n += " as " + src
        Task.__init__(self, n)
        self.sc = sc
        self.mode = mode
        self.variant = variant
        self.length = length
        self.src = src or sc.src
        self.tier = sc.tier
        self.weight = sc.weight

    def props(self):
        return {p for v in GROUPS[self.sc.group].values() for p in v.split()}

    def partial(self):
        if type(self) is not ScTask or self.so_far is None or self.sc.base:
            return []
        return [(props_of(self.sc, f.field), f) for f in self.so_far.findings]

    def run(self, w):
        p = self.so_far = Product(w)
        kw = self.sc.settings(self.mode)
        kw.update(self.variant)
        p.run(self.sc, self.src, self.mode, kw, self.length)
        fs = p.findings
        if fs:
            fs = self.blame(w, fs, kw, p)
        return [(props_of(self.sc, f.field), f) for f in fs], p.stats

    def blame(self, w, fs, kw, p):
        """Leave out what is the fault of a part that is analysed on its own."""
        for b in self.sc.base:
            if b.startswith("= "):
                q = Product(w)
                q.run(self.sc, b[2:], self.mode, kw, self.length)
                old = {f.key() for f in q.findings}
                fs = [f for f in fs if f.key() not in old]
            else:
                sc = BY_NAME[b]
                if self.mode not in sc.modes:
                    continue
                q = Product(w)
                k = sc.settings(self.mode)
                if sc.group not in ("prim", "tokins"):
                    k.update(LIGHT)
                k.update(sc.variants[0])
                for l in sc.lengths:
                    q.run(sc, sc.src, self.mode, k, l)
                if q.findings:
                    p.stats["blamed"] = b
                    return []
        return fs

    def what(self):
        return "%s against %s" % (self.src, self.sc.spec)


class FormTask(ScTask):
    """A form of a combinator, against the model of the combinator; the primary form is the reference."""

    def __init__(self, sc, form, mode, variant, length):
        ScTask.__init__(self, sc, mode, variant, length, form)
        self.name = "form " + self.name

    def props(self):
        return {"C16"}

    def run(self, w):
        kw = self.sc.settings(self.mode)
        kw.update(self.variant)
        p = Product(w)
        p.run(self.sc, self.src, self.mode, kw, self.length)
        q = Product(w)
        q.run(self.sc, self.sc.src, self.mode, kw, self.length)
        old = {f.key() for f in q.findings}
        new = {f.key() for f in p.findings}
        fs = [f for f in p.findings if f.key() not in old]
        for f in q.findings:
            if f.key() not in new:
                f.msg = "unlike this form, %s: %s" % (self.sc.src, f.msg)
                f.src = self.src
                fs.append(f)
        return [(["C16"], f) for f in fs], p.stats


class ModesTask(ScTask):
    """The two modes of a combination on the same path facts."""

    def __init__(self, sc, variant, length):
        ScTask.__init__(self, sc, "slow", variant, length)
        self.name = "modes " + self.name

    def props(self):
        return {"C01", "C25"} if self.sc.group == "attempt" else {"C01", "C25", "C28"}

    def run(self, w):
        p = Modes(w)
        p.attempt = self.sc.group == "attempt"
        p.fallback = self.sc.group == "user"
        kw = self.sc.settings("slow")
        kw.update(self.variant)
        p.run(self.sc, self.src, "modes", kw, self.length)
        return [([f.field], f) for f in p.findings if f.field.startswith("C")], p.stats

    def what(self):
        return "%s with recovery against without" % self.src


class TwiceTask(ScTask):
    """Two runs of one parser."""
    cls = Twice
    less = {}

    def __init__(self, sc, mode, length):
        ScTask.__init__(self, sc, mode, {}, length)
        self.name = "twice " + self.name

    def hit(self):
        return ["C14"] + [p for p in GROUPS[self.sc.group].get("value", "").split() if p != "C14"]

    def props(self):
        return set(self.hit())

    def run(self, w):
        kw = self.sc.settings(self.mode)
        kw.update(LIGHT)
        if self.sc.slow_kw is not None or self.sc.group in ("seq", "many", "sepby", "between", "chain"):
            kw["recover"] = False
            kw.update(self.less)
        p = self.cls(w)
        p.run(self.sc, self.src, self.mode, kw, self.length)
        fs = p.findings
        if fs:
            q = Product(w)
            q.run(self.sc, self.src, self.mode, kw, self.length)
            old = {f.key() for f in q.findings}
            fs = [f for f in fs if (f.mode, f.field, f.msg.split(": ", 1)[-1]) not in old and f.msg.startswith("the second")]
        return [(self.hit(), f) for f in fs], p.stats

    def what(self):
        return "%s, run twice" % self.src


class OtherTask(TwiceTask):
    """A run of a parser on another input first."""
    cls = Other
    less = dict(kinds=("OkC", "ErrU"), depth=2)

    def __init__(self, sc, mode, length):
        TwiceTask.__init__(self, sc, mode, length)
        self.name = self.name.replace("twice ", "other input, ", 1)

    def what(self):
        return "%s after a run on another input" % self.src


class DepthTask(ScTask):
    """Call depth of a repetition as a function of the number of items."""

    def __init__(self, sc, mode):
        ScTask.__init__(self, sc, mode, {}, None)
        self.name = "depth " + self.name

    def props(self):
        return {"C24"}

    def run(self, w):
        p = Depth(w)
        kw = dict(peel=60, depth=DEPTHS[1], kinds=("OkC", "ErrU"), recover=False)
        p.run(self.sc, self.src, self.mode, kw, None)
        p.finish(self.sc, self.src, self.mode)
        return [(["C24"], f) for f in p.findings if f.field == "C24"], p.stats

    def what(self):
        return "call depth of %s for up to %d steps" % (self.src, DEPTHS[1])


class WideDepthTask(ScTask):
    """A repetition of any number of items does not call itself."""

    def __init__(self, sc, mode):
        ScTask.__init__(self, sc, mode, {}, None)
        self.name = "self-calls " + self.name

    def props(self):
        return {"C24"}

    def run(self, w):
        p = Wide(w)
        kw = dict(kinds=("OkC", "ErrU"), recover=False)
        p.run(self.sc, self.src, self.mode, kw, None)
        return [(["C24"], f) for f in p.findings if f.field == "C24"], p.stats

    def what(self):
        return "self-calls of %s on an error-free input of any length" % self.src


class RuleTask(Task):
    def __init__(self, name, fn, props, tier="quick"):
        Task.__init__(self, name)
        self.tier = tier
        self.doc = (fn.__doc__ or name).strip().split("\n")[0]
        self.p = set(props.split())

    def props(self):
        return self.p

    def partial(self):
        return self.so_far.findings if self.so_far else []

    def run(self, w):
        r = self.so_far = RuleRun(w)
        run_rule(r, self.name)
        return r.findings, r.stats

    def what(self):
        return self.doc


def sc_tasks(scs):
    return [ScTask(sc, m, v, l) for sc in scs for m in sc.modes for v in sc.variants for l in sc.lengths]


def all_tasks(tier):
    out = sc_tasks(SCENARIOS) + sc_tasks(NESTED)
    out += [FormTask(sc, f, m, v, l) for sc in SCENARIOS + FORMED for f in sc.forms for m in sc.modes for v in sc.variants for l in sc.lengths]
    out += [ModesTask(sc, v, l) for sc in SCENARIOS + NESTED for v in sc.variants for l in sc.lengths
            if "slow" in sc.modes and sc.group != "delay"]
    out += [TwiceTask(sc, m, l) for sc in SCENARIOS for m in sc.modes for l in sc.lengths
            if sc.group not in ("delay", "then", "apply") and (l is not None or sc.group != "prim" or m == "fast")]
    out += [OtherTask(sc, m, l) for sc in SCENARIOS for m in sc.modes for l in sc.lengths[:2]
            if sc.group not in ("delay", "then", "apply") and (l is not None or sc.group not in ("prim", "tokins") or m == "fast")
            and not sc.name.endswith(("-slow", "-long", "-far"))]
    out += [DepthTask(sc, m) for sc in SCENARIOS for m in ("fast", "slow") if sc.name in ("many", "sep_by", "chainl1", "chainr1")]
    out += [WideDepthTask(sc, m) for sc in SCENARIOS for m in ("fast", "slow") if sc.name in ("many", "sep_by", "chainl1", "chainr1")]
    out += [RuleTask(*x) for x in RULES]
    return [t for t in out if t.tier == "quick" or tier == "thorough"]


def tasks_for(prop, tier):
    return [t for t in all_tasks(tier) if prop in t.props()]


def witnesses_for(prop):
    return [ScTask(sc, m, {}, l) for sc, field in WITNESSES for m in sc.modes for l in sc.lengths if prop in props_of(sc, field)]
