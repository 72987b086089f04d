"""Scenarios: which combinations of the library are analysed against which model, and which property each aspect of the
result belongs to."""
from .world import KINDS


class Sc:
    def __init__(self, name, src, spec, group, modes=("fast", "slow"), kw=None, slow_kw=None, lengths=(None,), family=None,
                 forms=(), tier="quick", variants=None, weight=1, base=()):
        self.name = name
        self.src = src
        self.spec = spec
        self.group = group
        self.modes = modes
        self.kw = kw or {}
        self.slow_kw = slow_kw
        self.lengths = lengths
        self.forms = forms
        self.tier = tier
        self.weight = weight
        self.base = base
        self.variants = variants or [{}]

    def settings(self, mode):
        d = dict(peel=12)
        d.update(self.kw)
        if mode == "slow" and self.slow_kw is not None:
            d.update(self.slow_kw)
        return d


# ---- aspects of a result and the properties they belong to --------------------------------------------------------

COMMON = {
    "exp": "C05", "rep.exp": "C05", "op.exp": "C05", "op.cons": "C05", "loc": "C06", "op.loc": "C06", "ctx": "C07",
    "getloc": "C07", "mark": "C18", "rep.cost": "C11", "ops": "C11", "op": "C11", "rep.ins": "C12", "ins": "C12",
    "rep.prio": "C23 C10", "raise": "C26", "oneshot": "C14 C09", "write": "C14", "wloc": "C07 C14", "wmark": "C18 C14", "shared": "C14", "rem": "C12", "bad": "C26", "diverge": "C04",
    "noraise": "C04", "rep.cons": "C05 C12", "optin": "C12 C25",
}


def group(**kw):
    d = dict(COMMON)
    rest = kw.pop("rest", None)
    if rest:
        for k in ("kind", "value", "pos", "cons", "repairs", "rep.value", "rep.pos", "rep.cons", "apply", "user", "raise"):
            d[k] = rest if k != "raise" else rest + " C26"
    d["rkind"] = " ".join(dict.fromkeys((d.get("kind", "") + " " + kw.get("repairs", d.get("repairs", ""))).split()))
    for k, v in kw.items():
        k = k.replace("_", ".")
        if v.startswith("+"):
            d[k] = d.get(k, "") + " " + v[1:]
        else:
            d[k] = v
    return d


GROUPS = {
    "seq": group(rest="C03", repairs="C03 C11 C10", ops="+C03"),
    "then": group(rest="C03 C17", repairs="C03 C11 C10", ops="+C03"),
    "alt": group(rest="C02", repairs="C23 C10", rep_value="C23", rep_pos="C23", rep_cons="C23", rep_prio="C23 C10"),
    "maybe": group(rest="C02"),
    "many": group(rest="C02 C03", value="C17", rep_value="C17 C03", repairs="C11 C10 C03", pos="C02 C03", noraise="C04"),
    "attempt": group(rest="C02"),
    "label": group(rest="C05"),
    "recover": group(rest="C23", exp="+C23", loc="+C23", rep_cost="+C23", ops="+C23", op="+C23", rep_ins="+C23"),
    "user": group(rest="C22", exp="+C22", loc="+C22", rep_cost="+C22", ops="+C22", op="+C22", rep_ins="+C22",
                  op_loc="+C22", op_exp="+C22", rep_prio="+C22"),
    "fmap": group(rest="C08", exp="+C08", loc="+C08", rep_cost="+C08", ops="+C08", op="+C08", rep_ins="+C08", rep_prio="+C08",
                  op_loc="+C08", op_exp="+C08", op_cons="+C08"),
    "apply": group(rest="C08 C17"),
    "layout": group(rest="C19", mark="C18", exp="+C19", loc="+C19"),
    "prim": group(rest="C21", cons="C04", pos="C21 C04", repairs="C13 C21 C12", rep_value="C21 C13", rep_pos="C13 C21",
                  op="C13 C21", rep_cost="C11 C13", rep_cons="C12", op_loc="C06 C13"),
    "tokins": group(rest="C21", cons="C04", pos="C21 C04", repairs="C13 C21 C22", rep_value="C21 C13", rep_pos="C13 C21",
                    op="C13 C21", rep_cost="C11 C13", rep_cons="C12", op_loc="C06 C13"),
    "delay": group(rest="C15", noraise="C15", exp="+C15", loc="+C15", rep_cost="+C15", ops="+C15", op="+C15", rep_ins="+C15"),
    "sepby": group(rest="C17", repairs="C11 C10", pos="C03", cons="C03"),
    "chain": group(rest="C17", repairs="C11 C10", pos="C03", cons="C03"),
    "between": group(rest="C03", repairs="C03 C11 C10"),
}

for _g in GROUPS.values():
    _g["op.loc"] = _g.get("op.loc", "C06")


def props_of(sc, field):
    return GROUPS[sc.group].get(field, "").split()


PARTS = (("+", "seq"), ("<<", "seql"), (">>", "seqr"), (" | ", "alt"), (".maybe(", "maybe"), (".many(", "many"),
         (".attempt(", "attempt"), (".label(", "label"), (".recover(", "recover"), (".recover_with(", "recover_with"),
         (".recover_with_fn(", "recover_with_fn"), (".fmap(", "fmap"), (".bind(", "bind"), ("block(", "block"),
         ("aligned(", "aligned"), ("indented(", "indented"), ("sym(", "sym-skip"), ("eof(", "eof"))


def parts_of(src):
    """The scenarios of the single combinators a composition is made of."""
    return tuple(n for t, n in PARTS if t in src)


def affects(sc, prop):
    return any(prop in v.split() for v in GROUPS[sc.group].values())


# ---- scenarios -----------------------------------------------------------------------------------------------------

NOREC = dict(recover=False)
LIGHT = dict(tags=("A", "K"), rest=False)
FAR = 1100
SKIPS = (0, 1, 2, 3, 5, 8)

SCENARIOS = [
    Sc("seq", "P + Q", "s_seq(s_P, s_Q)", "seq", forms=("seq(P, Q)",)),
    Sc("seql", "P << Q", "s_seql(s_P, s_Q)", "seq", forms=("P.seql(Q)", "seql(P, Q)")),
    Sc("seqr", "P >> Q", "s_seqr(s_P, s_Q)", "seq", forms=("P.seqr(Q)", "seqr(P, Q)")),
    Sc("bind", "P.bind(F)", "s_bind(s_P, F)", "seq", forms=("bind(P, F)",)),
    Sc("alt", "P | Q", "s_alt(s_P, s_Q)", "alt", forms=("alt(P, Q)",)),
    Sc("maybe", "P.maybe()", "s_maybe(s_P)", "maybe", forms=("maybe(P)",)),
    Sc("many", "P.many()", "s_many(s_P)", "many", kw=dict(depth=4),
       slow_kw=dict(depth=2, tags=("A", "U"), rest=False, per={"REC": ("OkC", "OkU", "ErrC")}), forms=("many(P)",)),
    Sc("many-long", "P.many()", "s_many(s_P)", "many", kw=dict(depth=24, kinds=("OkC", "ErrU"), recover=False, peel=60)),
    Sc("attempt", "P.attempt()", "s_attempt(s_P)", "attempt", forms=("attempt(P)",)),
    Sc("label", "P.label(LABEL)", "s_label(s_P, LABEL)", "label", forms=("label(P, LABEL)",)),
    Sc("recover", "P.recover()", "s_recover(s_P)", "recover", forms=("recover(P)",)),
    Sc("recover_with", "P.recover_with(V0)", "s_recover_with(s_P, V0)", "user", forms=("recover_with(P, V0)",)),
    Sc("recover_with-label", "P.recover_with(V0, LABEL)", "s_recover_with(s_P, V0, LABEL)", "user",
       forms=("recover_with(P, V0, LABEL)",)),
    Sc("recover_with_fn", "P.recover_with_fn(F)", "s_recover_with_fn(s_P, F)", "user", forms=("recover_with_fn(P, F)",)),
    Sc("recover_with_fn-label", "P.recover_with_fn(F, LABEL)", "s_recover_with_fn(s_P, F, LABEL)", "user",
       forms=("recover_with_fn(P, F, LABEL)",)),
    Sc("fmap", "P.fmap(F)", "s_fmap(s_P, F)", "fmap", forms=("fmap(P, F)",)),
    Sc("block", "block(P)", "s_block(s_P)", "layout"),
    Sc("aligned", "aligned(P)", "s_aligned(s_P)", "layout"),
    Sc("indented", "indented(DELTA, P)", "s_indented(DELTA, s_P)", "layout"),
    Sc("Pure", "primitive.Pure(V0)", "s_pure(V0)", "prim"),
    Sc("PureFn", "primitive.PureFn(F)", "s_pure_fn(F)", "prim"),
    Sc("unexpected", "primitive.unexpected(LABEL)", "s_unexpected(LABEL)", "prim"),
    Sc("eof", "eof()", "s_eof()", "prim", kw=dict(sized=True)),
    Sc("satisfy", "satisfy(TEST)", "s_satisfy(TEST)", "prim", ("fast",)),
    Sc("satisfy-skip", "satisfy(TEST)", "s_satisfy(TEST)", "prim", ("slow",), lengths=SKIPS),
    Sc("sym", "sym(S)", "s_sym(S)", "prim", ("fast",)),
    Sc("letter", "letter", "s_label(s_satisfy(str.isalpha), 'letter')", "prim", lengths=(0, 1, 2)),
    Sc("digit", "digit", "s_label(s_satisfy(str.isdigit), 'digit')", "prim", lengths=(0, 1, 2)),
    Sc("sym-again", "(sym(V1), sym(S))[1]", "s_sym(S)", "prim", ("fast",)),
    Sc("sym-again-label", "(sym(V1, LABEL), sym(S, LABEL))[1]", "s_sym(S, LABEL)", "prim", ("slow",), lengths=(1,)),
    Sc("Pure-again", "(primitive.Pure(V1), primitive.Pure(V0))[1]", "s_pure(V0)", "prim"),
    Sc("recover_with-again", "(P.recover_with(V1), P.recover_with(V0))[1]", "s_recover_with(s_P, V0)", "user", ("slow",), kw=LIGHT),
    Sc("sym-skip", "sym(S)", "s_sym(S)", "prim", ("slow",), lengths=SKIPS),
    Sc("sym-label", "sym(S, LABEL)", "s_sym(S, LABEL)", "prim", ("fast",)),
    Sc("sym-label-skip", "sym(S, LABEL)", "s_sym(S, LABEL)", "prim", ("slow",), lengths=(0, 1, 2)),
    Sc("literal", "literal(LITERAL)", "s_literal(LITERAL)", "prim", ("fast",)),
    Sc("literal-skip", "literal(LITERAL)", "s_literal(LITERAL)", "prim", ("slow",), lengths=SKIPS),
    Sc("regexp", "regexp(PAT, GROUP)", "s_regexp(PAT, GROUP)", "prim", ("fast",)),
    Sc("regexp-skip", "regexp(PAT, GROUP)", "s_regexp(PAT, GROUP)", "prim", ("slow",), lengths=SKIPS),
    Sc("regexp0", "regexp(PAT)", "s_regexp(PAT)", "prim", ("fast",)),
    Sc("regexp0-skip", "regexp(PAT)", "s_regexp(PAT)", "prim", ("slow",), lengths=(0, 1, 2)),
    Sc("token", "token(KIND)", "s_token(KIND)", "prim", ("fast",), base=("label", "satisfy")),
    Sc("token-skip", "token(KIND)", "s_token(KIND)", "prim", ("slow",), lengths=(0, 1, 2), base=("label", "satisfy-skip")),
    Sc("token_ins", "token_ins(KIND, V0)", "s_token_ins(KIND, V0)", "tokins", ("fast",), base=("recover_with_fn-label",)),
    Sc("token_ins-skip", "token_ins(KIND, V0)", "s_token_ins(KIND, V0)", "tokins", ("slow",), lengths=(0, 1, 2), base=("recover_with_fn-label", "token-skip")),
    Sc("between", "P.between(Q, R)", "s_between(s_Q, s_R, s_P)", "between", ("fast",), forms=("between(Q, R, P)",)),
    Sc("between-slow", "P.between(Q, R)", "s_between(s_Q, s_R, s_P)", "between", ("slow",),
       variants=[dict(recover={n}, rest=False, tags=("A",)) for n in "PQR"] + [dict(rest=False, tags=("A",))],
       forms=("between(Q, R, P)",)),
    Sc("sep_by", "P.sep_by(SEP)", "s_sep_by(s_P, s_SEP)", "sepby", ("fast",), kw=dict(depth=4), forms=("sep_by(P, SEP)",)),
    Sc("sep_by-slow", "P.sep_by(SEP)", "s_sep_by(s_P, s_SEP)", "sepby", ("slow",),
       kw=dict(depth=2, per={"REC": ("OkC", "ErrC"), "SEP": ("OkC", "ErrC", "ErrU")}, rest=False),
       variants=[dict(recover={n, "REC"}, tags=("A",)) for n in ("P", "SEP")], forms=("sep_by(P, SEP)",)),
    Sc("chainl1", "P.chainl1(OP)", "s_chainl1(s_P, s_OP)", "chain", ("fast",), kw=dict(depth=7, kinds=("OkC", "ErrC", "ErrU")),
       forms=("chainl1(P, OP)",)),
    Sc("chainr1", "P.chainr1(OP)", "s_chainr1(s_P, s_OP)", "chain", ("fast",), kw=dict(depth=7, kinds=("OkC", "ErrC", "ErrU")),
       forms=("chainr1(P, OP)",)),
    Sc("chainl1-slow", "P.chainl1(OP)", "s_chainl1(s_P, s_OP)", "chain", ("slow",),
       kw=dict(depth=3, recover=False), forms=("chainl1(P, OP)",)),
    Sc("chainr1-slow", "P.chainr1(OP)", "s_chainr1(s_P, s_OP)", "chain", ("slow",),
       kw=dict(depth=3, recover=False), forms=("chainr1(P, OP)",)),
]


# A single match far away from the position: every element before it has to be looked at.
for _n, _src, _m, _g in (("satisfy", "satisfy(TEST)", "s_satisfy(TEST)", "prim"), ("sym", "sym(S)", "s_sym(S)", "prim"),
                         ("literal", "literal(LITERAL)", "s_literal(LITERAL)", "prim"),
                         ("regexp", "regexp(PAT, GROUP)", "s_regexp(PAT, GROUP)", "prim"),
                         ("token", "token(KIND)", "s_token(KIND)", "prim"),
                         ("token_ins", "token_ins(KIND, V0)", "s_token_ins(KIND, V0)", "tokins")):
    SCENARIOS.append(Sc(_n + "-far", _src, _m, _g, ("slow",), lengths=(FAR,), kw=dict(far=True, peel=FAR + 50), weight=3))

# ---- chains of then() ----------------------------------------------------------------------------------------------

for _n in range(2, 9):
    _src = "A1" + "".join(".then(A%d)" % i for i in range(2, _n + 1))
    for _name, _s, _m, _g in (("then%d", _src, "s_thens(%d)" % _n, "then"),
                              ("apply%d", _src + ".apply(F)", "s_fmap(s_thens(%d), lambda t: F(*t))" % _n, "apply")):
        SCENARIOS += [
            Sc(_name % _n, _s, _m, _g, ("fast",), kw=dict(kinds=("OkC", "OkU", "ErrU") if _n < 4 else ("OkC", "ErrU")),
               weight=1 if _n < 7 else 4, base=() if _g == "then" else ("then%d" % _n, "fmap")),
            Sc(_name % _n + "-slow", _s, _m, _g, ("slow",), kw=dict(kinds=("OkC", "ErrC"), rest=False, tags=("A",)),
               variants=[dict(recover={"A%d" % i}) for i in sorted({1, 2, _n - 1, _n})] if _g == "then" else [dict(recover={"A%d" % _n})],
               base=() if _g == "then" else ("then%d-slow" % _n, "fmap"),
               weight=1 if _n < 7 else 4)]

# ---- Delay ---------------------------------------------------------------------------------------------------------

_D = dict(tags=("A", "K"), rest=False)
_F = dict(kinds=("OkC", "ErrC", "ErrU"), depth=2, recover=False)


def _delay(name, src, spec, kw=None, modes=("fast", "slow"), slow_kw=None, direct="P"):
    SCENARIOS.append(Sc("delay " + name, src, spec, "delay", modes, kw=kw or _D, slow_kw=slow_kw, base=("= " + direct,) if direct else ()))


for _mk, _n in (("delayed(P)", "defined"), ("delayed(delayed(P))", "twice delayed"), ("delayed_chain(P)", "defined as a Delay"),
                ("delayed_twice(P, Q)", "defined again"), ("delayed_twice(P, P)", "defined again the same"),
                ("delayed_again(P.attempt())", "defined again the same object"),
                ("delayed_run(Delay(), P)", "run before")):
    _delay(_n, _mk, "s_attempt(s_P)" if "attempt" in _mk else "s_P", direct="P.attempt()" if "attempt" in _mk else "P")
for _n, _src, _m in (
        ("seq", "d + Q", "s_seq(s_P, s_Q)"), ("seq second", "Q + d", "s_seq(s_Q, s_P)"), ("seql", "d << Q", "s_seql(s_P, s_Q)"),
        ("seqr", "Q >> d", "s_seqr(s_Q, s_P)"), ("alt", "d | Q", "s_alt(s_P, s_Q)"), ("alt second", "Q | d", "s_alt(s_Q, s_P)"),
        ("maybe", "d.maybe()", "s_maybe(s_P)"), ("attempt", "d.attempt()", "s_attempt(s_P)"),
        ("label", "d.label(LABEL)", "s_label(s_P, LABEL)"), ("recover", "d.recover()", "s_recover(s_P)"),
        ("recover_with", "d.recover_with(V0)", "s_recover_with(s_P, V0)"),
        ("recover_with_fn", "d.recover_with_fn(F)", "s_recover_with_fn(s_P, F)"), ("fmap", "d.fmap(F)", "s_fmap(s_P, F)"),
        ("bind", "d.bind(lambda v: Q)", "s_seqr(s_P, s_Q)"), ("bound", "Q.bind(lambda v: d)", "s_seqr(s_Q, s_P)"),
        ("block", "block(d)", "s_block(s_P)"), ("aligned", "aligned(d)", "s_aligned(s_P)"),
        ("indented", "indented(DELTA, d)", "s_indented(DELTA, s_P)"), ("then", "d.then(Q)", "s_seq(s_P, s_Q)"),
        ("then second", "Q.then(d)", "s_seq(s_Q, s_P)")):
    _delay(_n, "delayed_after(lambda d: %s, P)" % _src, _m, direct="(lambda d: %s)(P)" % _src)
for _n, _src, _m in (("many", "d.many()", "s_many(s_P)"), ("sep_by", "d.sep_by(SEP)", "s_sep_by(s_P, s_SEP)"),
                     ("sep_by sep", "Q.sep_by(d)", "s_sep_by(s_Q, s_P)"), ("between", "d.between(Q, R)", "s_between(s_Q, s_R, s_P)"),
                     ("between open", "Q.between(d, R)", "s_between(s_P, s_R, s_Q)"),
                     ("between close", "Q.between(R, d)", "s_between(s_R, s_P, s_Q)"),
                     ("chainl1", "d.chainl1(OP)", "s_chainl1(s_P, s_OP)"), ("chainl1 op", "Q.chainl1(d)", "s_chainl1(s_Q, s_P)"),
                     ("chainr1", "d.chainr1(OP)", "s_chainr1(s_P, s_OP)"), ("chainr1 op", "Q.chainr1(d)", "s_chainr1(s_Q, s_P)")):
    _delay(_n, "delayed_after(lambda d: %s, P)" % _src, _m, _F, direct="(lambda d: %s)(P)" % _src)
for _n, _src, _m in (("alone", "Delay()", "s_undefined()"), ("defined as undefined", "delayed(Delay())", "s_undefined()"),
                     ("seq", "Delay() + P", "s_undefined()"),
                     ("seq second", "P + Delay()", "s_seq(s_P, s_undefined())"), ("alt", "Delay() | P", "s_undefined()"),
                     ("alt second", "P | Delay()", "s_alt(s_P, s_undefined())"), ("maybe", "Delay().maybe()", "s_undefined()"),
                     ("many", "Delay().many()", "s_undefined()"), ("label", "Delay().label(LABEL)", "s_undefined()"),
                     ("attempt", "Delay().attempt()", "s_undefined()"), ("block", "block(Delay())", "s_undefined()"),
                     ("recover", "Delay().recover()", "s_undefined()"),
                     ("recover_with", "Delay().recover_with(V0)", "s_undefined()")):
    _delay("undefined " + _n, _src, _m, dict(_D, recover=False), direct=None)

# ---- compositions ---------------------------------------------------------------------------------------------------

NESTED = []


def _nest(src, spec, group, modes=("fast", "slow"), kw=None, slow_kw=None, **k):
    d = dict(LIGHT)
    d.update(kw or {})
    NESTED.append(Sc("nested " + src, src, spec, group, modes, kw=d, slow_kw=slow_kw, base=parts_of(src), **k))


_ONE = [dict(recover={n}, tags=("A",)) for n in "PQR"]
for _src, _m, _g in (
        ("R + (P + Q)", "s_seq(s_R, s_seq(s_P, s_Q))", "seq"), ("(P + Q) + R", "s_seq(s_seq(s_P, s_Q), s_R)", "seq"),
        ("(P | Q) + R", "s_seq(s_alt(s_P, s_Q), s_R)", "alt"), ("R + (P | Q)", "s_seq(s_R, s_alt(s_P, s_Q))", "alt"),
        ("(P + Q) | R", "s_alt(s_seq(s_P, s_Q), s_R)", "alt"), ("R | (P + Q)", "s_alt(s_R, s_seq(s_P, s_Q))", "alt"),
        ("(P | Q) | R", "s_alt(s_alt(s_P, s_Q), s_R)", "alt"), ("P | (Q | R)", "s_alt(s_P, s_alt(s_Q, s_R))", "alt")):
    _nest(_src, _m, _g, variants=_ONE)
for _src, _m, _g in (
        ("(P + Q).label(LABEL)", "s_label(s_seq(s_P, s_Q), LABEL)", "label"),
        ("(P | Q).label(LABEL)", "s_label(s_alt(s_P, s_Q), LABEL)", "label"),
        ("P.maybe() + Q", "s_seq(s_maybe(s_P), s_Q)", "maybe"), ("Q + P.maybe()", "s_seq(s_Q, s_maybe(s_P))", "maybe"),
        ("P.attempt() | Q", "s_alt(s_attempt(s_P), s_Q)", "attempt"), ("Q | P.attempt()", "s_alt(s_Q, s_attempt(s_P))", "attempt"),
        ("P.attempt().maybe()", "s_maybe(s_attempt(s_P))", "attempt"),
        ("P.attempt() + Q", "s_seq(s_attempt(s_P), s_Q)", "attempt"),
        ("P.recover() | Q", "s_alt(s_recover(s_P), s_Q)", "recover"), ("Q | P.recover()", "s_alt(s_Q, s_recover(s_P))", "recover"),
        ("P.recover() + Q", "s_seq(s_recover(s_P), s_Q)", "recover"), ("(P + Q).recover()", "s_recover(s_seq(s_P, s_Q))", "recover"),
        ("P.recover_with(V0) | Q", "s_alt(s_recover_with(s_P, V0), s_Q)", "user"),
        ("Q | P.recover_with(V0)", "s_alt(s_Q, s_recover_with(s_P, V0))", "user"),
        ("P.recover_with_fn(F) | Q", "s_alt(s_recover_with_fn(s_P, F), s_Q)", "user"),
        ("Q | P.recover_with_fn(F)", "s_alt(s_Q, s_recover_with_fn(s_P, F))", "user"),
        ("P.fmap(F) | Q", "s_alt(s_fmap(s_P, F), s_Q)", "fmap"), ("Q | P.fmap(F)", "s_alt(s_Q, s_fmap(s_P, F))", "fmap"),
        ("P.recover_with(V0) + Q", "s_seq(s_recover_with(s_P, V0), s_Q)", "user"),
        ("P.recover_with_fn(F) + Q", "s_seq(s_recover_with_fn(s_P, F), s_Q)", "user"),
        ("P.maybe().recover_with(V0)", "s_recover_with(s_maybe(s_P), V0)", "user"),
        ("(P | Q).recover_with(V0)", "s_recover_with(s_alt(s_P, s_Q), V0)", "user"),
        ("P.label(LABEL) + Q", "s_seq(s_label(s_P, LABEL), s_Q)", "label"),
        ("P.label(LABEL) | Q", "s_alt(s_label(s_P, LABEL), s_Q)", "label"),
        ("P + Q.label(LABEL)", "s_seq(s_P, s_label(s_Q, LABEL))", "label"),
        ("P.maybe().label(LABEL)", "s_label(s_maybe(s_P), LABEL)", "label"),
        ("P.label(LABEL).maybe()", "s_maybe(s_label(s_P, LABEL))", "label"),
        ("block(P) + Q", "s_seq(s_block(s_P), s_Q)", "layout"), ("aligned(P) + Q", "s_seq(s_aligned(s_P), s_Q)", "layout"),
        ("indented(DELTA, P) + Q", "s_seq(s_indented(DELTA, s_P), s_Q)", "layout"),
        ("block(P + Q)", "s_block(s_seq(s_P, s_Q))", "layout"), ("P + block(Q)", "s_seq(s_P, s_block(s_Q))", "layout"),
        ("block(P + aligned(Q))", "s_block(s_seq(s_P, s_aligned(s_Q)))", "layout"),
        ("block(block(P))", "s_block(s_block(s_P))", "layout"), ("block(P) | Q", "s_alt(s_block(s_P), s_Q)", "layout"),
        ("aligned(P) | Q", "s_alt(s_aligned(s_P), s_Q)", "layout"), ("P + aligned(Q)", "s_seq(s_P, s_aligned(s_Q))", "layout"),
        ("P + indented(DELTA, Q)", "s_seq(s_P, s_indented(DELTA, s_Q))", "layout"),
        ("(P + Q).fmap(F)", "s_fmap(s_seq(s_P, s_Q), F)", "fmap"), ("P.fmap(F) + Q", "s_seq(s_fmap(s_P, F), s_Q)", "fmap"),
        ("P.fmap(F).fmap(G)", "s_fmap(s_fmap(s_P, F), G)", "fmap"), ("(P | Q).fmap(F)", "s_fmap(s_alt(s_P, s_Q), F)", "fmap"),
        ("P.maybe().fmap(F)", "s_fmap(s_maybe(s_P), F)", "fmap"),
        ("P.bind(F) + Q", "s_seq(s_bind(s_P, F), s_Q)", "seq"), ("P.bind(F) | Q", "s_alt(s_bind(s_P, F), s_Q)", "seq"),
        ("P | P", "s_alt(s_P, s_P)", "alt"), ("P + P", "s_seq(s_P, s_P)", "seq")):
    _nest(_src, _m, _g, slow_kw=dict(tags=("A",), rest=False) if "bind" in _src else None)
for _src, _m, _g in (
        ("P.many() + Q", "s_seq(s_many(s_P), s_Q)", "many"), ("Q + P.many()", "s_seq(s_Q, s_many(s_P))", "many"),
        ("P.many() | Q", "s_alt(s_many(s_P), s_Q)", "many"), ("P.attempt().many()", "s_many(s_attempt(s_P))", "attempt"),
        ("P.many().many()", "s_many(s_many(s_P))", "many"), ("P.maybe().many()", "s_many(s_maybe(s_P))", "many"),
        ("block(P).many()", "s_many(s_block(s_P))", "layout"), ("block(aligned(P).many())", "s_block(s_many(s_aligned(s_P)))", "layout"),
        ("P.recover_with(V0).many()", "s_many(s_recover_with(s_P, V0))", "user"),
        ("P.label(LABEL).many()", "s_many(s_label(s_P, LABEL))", "label"), ("P.fmap(F).many()", "s_many(s_fmap(s_P, F))", "fmap"),
        ("(P | Q).many()", "s_many(s_alt(s_P, s_Q))", "many"), ("(P + Q).many()", "s_many(s_seq(s_P, s_Q))", "many")):
    _nest(_src, _m, _g, kw=dict(depth=3, recover=False))
for _src, _m, _g in (
        ("sym(S) + sym(V0)", "s_seq(s_sym(S), s_sym(V0))", "prim"), ("sym(S) | sym(V0)", "s_alt(s_sym(S), s_sym(V0))", "prim"),
        ("sym(S) << eof()", "s_seql(s_sym(S), s_eof())", "prim"), ("sym(S).many()", "s_many(s_sym(S))", "prim"),
        ("sym(S).maybe() + sym(V0)", "s_seq(s_maybe(s_sym(S)), s_sym(V0))", "prim")):
    _nest(_src, _m, _g, ("slow",), lengths=(0, 1, 2))

# ---- forms of combinators on other kinds of receivers and on a parser combined with itself ---------------------------

FORMED = []
for _x, _sx in (("P", "s_P"), ("delayed(P)", "s_P"), ("P.then(Q)", "s_seq(s_P, s_Q)"), ("P.maybe()", "s_maybe(s_P)"),
                ("P.label(LABEL)", "s_label(s_P, LABEL)")):
    _same = ((_x, _sx),) if _x == "P" else ()
    for _y, _sy in _same + ((("R", "s_R"),) if _x != "P" else ()):
        for _op, _fn in (("|", "alt"), ("+", "seq"), ("<<", "seql"), (">>", "seqr")):
            _m = ".%s(%s)" % (_fn, _y)
            FORMED.append(Sc("formed %s %s %s" % (_x, _op, _y), "%s(%s, %s)" % (_fn, _x, _y), "s_%s(%s, %s)" % (_fn, _sx, _sy),
                             "alt" if _fn == "alt" else "seq", kw=LIGHT, slow_kw=dict(recover={"P"}),
                             forms=("(%s) %s %s" % (_x, _op, _y),) + ((_x + _m,) if _fn in ("seql", "seqr") else ())))
    for _c, _a in (("maybe", ""), ("attempt", ""), ("label", "LABEL"), ("recover", ""), ("recover_with", "V0"),
                   ("recover_with", "V0, LABEL"), ("recover_with_fn", "F"), ("recover_with_fn", "F, LABEL"), ("fmap", "F"),
                   ("bind", "F")):
        if _x == "P":
            continue
        _g = {"maybe": "maybe", "attempt": "attempt", "label": "label", "recover": "recover", "fmap": "fmap", "bind": "seq"}.get(
            _c, "user")
        _b = ", " + _a if _a else ""
        FORMED.append(Sc("formed %s.%s(%s)" % (_x, _c, _a), "%s(%s%s)" % (_c, _x, _b), "s_%s(%s%s)" % (_c, _sx, _b), _g, kw=LIGHT,
                         slow_kw=dict(recover={"P"}, tags=("A",)), forms=("%s.%s(%s)" % (_x, _c, _a),)))
    for _c, _a, _s2 in (("many", "", ""), ("sep_by", "R", "s_R"), ("between", "R, R", None), ("chainl1", "R", "s_R"),
                        ("chainr1", "R", "s_R")):
        _sp = "s_between(s_R, s_R, %s)" % _sx if _s2 is None else "s_%s(%s%s)" % (_c, _sx, ", " + _s2 if _s2 else "")
        _f = "between(R, R, %s)" % _x if _s2 is None else "%s(%s%s)" % (_c, _x, ", " + _a if _a else "")
        FORMED.append(Sc("formed %s.%s(%s)" % (_x, _c, _a), _f, _sp, "many", ("fast",),
                         kw=dict(depth=2, kinds=("OkC", "ErrC", "ErrU"), recover=False), forms=("%s.%s(%s)" % (_x, _c, _a),)))
