"""Pairs of a combination and a wrong model for it: the comparison has to report each of them, on every run."""
from .scen import LIGHT, Sc

L = dict(LIGHT)
S = dict(kinds=("OkC", "OkU", "ErrC", "ErrU"), **L)
_PRIM = "s_prim(lambda k: (STREAM[k], k + 1) if k < len(STREAM) and STREAM[k] == S else None, [repr(S)]"

WITNESSES = [
    # the parts of a sequence are exchanged
    (Sc("w-order", "P << Q", "s_seqr(s_P, s_Q)", "seq", ("fast",), kw=L), "value"),
    (Sc("w-order-slow", "P << Q", "s_seqr(s_P, s_Q)", "seq", ("slow",), kw=dict(kinds=("OkC", "ErrC"), **L)), "value"),
    # the second alternative is never tried; a consumed failure is treated as absence
    (Sc("w-alt-first", "P | Q", "s_P", "alt", ("fast",), kw=S), "kind"),
    (Sc("w-maybe-attempt", "P.maybe()", "s_maybe(s_attempt(s_P))", "maybe", ("fast",), kw=S), "kind"),
    # a repetition without its progress check
    (Sc("w-many-maybe", "P.many()", "s_fmap(s_maybe(s_P), lambda v: [] if v is None else [v])", "many", ("fast",),
        kw=dict(kinds=("OkU", "ErrU"), depth=2, recover=False)), "raise"),
    # descriptions in another order, and not replaced by the label
    (Sc("w-alt-order", "P | Q", "s_alt(s_Q, s_P)", "alt", ("fast",), kw=dict(kinds=("ErrU",), **L)), "exp"),
    (Sc("w-label", "P.label(LABEL)", "s_P", "label", ("fast",), kw=S), "exp"),
    # an error one element further
    (Sc("w-loc", "primitive.unexpected(LABEL)", "lambda pos, mark, ins, rem: SErr(pos + 1, [LABEL], False)", "prim", ("fast",)),
     "loc"),
    # another function is applied; the function is applied twice
    (Sc("w-fmap", "P.fmap(F)", "s_fmap(s_P, G)", "fmap", ("fast",), kw=S), "value"),
    (Sc("w-fmap-twice", "P.fmap(F)", "s_fmap(s_P, lambda v: (F(v), F(v))[0])", "fmap", ("fast",), kw=S), "user"),
    # cost, skip and insertion of a primitive
    (Sc("w-cost", "eof()", "lambda pos, mark, ins, rem: SRec([SRep(r.cost + 1, r.auto, r.ins, r.ops, r.value, r.pos, r.exp, r.cons) "
        "for r in a.reps], a.at, a.exp, a.cons) if type(a := s_eof()(pos, mark, ins, rem)) is SRec else a", "prim", ("slow",)),
     "rep.cost"),
    (Sc("w-insert", "sym(S)", _PRIM + ", (V0,), repr(S))", "prim", ("slow",), lengths=(1,)), "rep.value"),
    (Sc("w-noinsert", "sym(S)", _PRIM + ")", "prim", ("slow",), lengths=(2,)), "repairs"),
    (Sc("w-accept", "sym(S)", "s_sym(V0)", "prim", ("fast",)), "kind"),
    (Sc("w-skip", "satisfy(TEST)", "lambda pos, mark, ins, rem: s_satisfy(TEST)(pos, mark, None, rem)", "prim", ("slow",),
        lengths=(2,)), "rkind"),
    # the user's fallback is offered without its label; the alternatives' repairs in another order
    (Sc("w-user", "P.recover_with(V0, LABEL)", "s_recover_with(s_P, V0)", "user", ("slow",), kw=S), "op"),
    (Sc("w-recover", "P.recover()", "s_P", "recover", ("slow",), kw=L), "rep.prio"),
    # the mark is not changed; the column is not tested
    (Sc("w-block", "block(P)", "s_P", "layout", ("fast",), kw=S), "mark"),
    (Sc("w-aligned", "aligned(P)", "s_P", "layout", ("fast",), kw=S), "kind"),
    # delayed parser that is never defined
    (Sc("w-delay", "Delay()", "s_P", "delay", ("fast",), kw=S), "raise"),
    # shapes of values
    (Sc("w-then", "P.then(Q)", "s_seq(s_P, s_Q, lambda a, b: (b, a))", "then", ("fast",), kw=S), "value"),
    (Sc("w-chain", "P.chainl1(OP)", "s_chainr1(s_P, s_OP)", "chain", ("fast",), kw=dict(kinds=("OkC", "ErrU"), depth=8, recover=False)),
     "value"),
]
