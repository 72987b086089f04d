"""The reference model: what each combinator and primitive has to do, as a small program over specification objects.

The model is interpreted by the same abstract interpreter, on the same path facts, right after the analysed code; then
the two results are compared (module `compare`).  The model says nothing about how the analysed code is written.
"""

MODEL = '''
class SOk:
    def __init__(self, value, pos, exp, cons):
        self.value = value
        self.pos = pos
        self.exp = exp
        self.cons = cons

class SErr:
    def __init__(self, at, exp, cons):
        self.at = at
        self.exp = exp
        self.cons = cons

class SRec:
    def __init__(self, reps, at, exp, cons):
        self.reps = reps
        self.at = at
        self.exp = exp
        self.cons = cons

class SRep:
    def __init__(self, cost, auto, ins, ops, value, pos, exp, cons):
        self.cost = cost
        self.auto = auto
        self.ins = ins
        self.ops = ops
        self.value = value
        self.pos = pos
        self.exp = exp
        self.cons = cons

class SOp:
    def __init__(self, op, at, exp, cons):
        self.op = op
        self.at = at
        self.exp = exp
        self.cons = cons

class SIns:
    def __init__(self, label):
        self.label = label

class SSkip:
    def __init__(self, count):
        self.count = count

# A parser of the model: f(pos, mark, ins, rem); ins is None in plain mode.

def s_par(name):
    return lambda pos, mark, ins, rem: __spec__(name, pos, mark, ins, rem)

s_P = s_par("P")
s_Q = s_par("Q")
s_R = s_par("R")
s_SEP = s_par("SEP")
s_OP = s_par("OP")
s_A = [None, *[s_par(n) for n in ("A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8")]]

def s_ops(exp, cons, ops):
    return [o if o.cons else SOp(o.op, o.at, [*exp, *o.exp], cons) for o in ops]

def s_prep(exp, cons, b):
    if b.cons:
        if type(b) is SRec:
            return SRec(s_prep_reps(exp, cons, b.reps), b.at, b.exp, True)
        return b
    if type(b) is SOk:
        return SOk(b.value, b.pos, [*exp, *b.exp], cons)
    if type(b) is SErr:
        return SErr(b.at, [*exp, *b.exp], cons)
    return SRec(s_prep_reps(exp, cons, b.reps), b.at, [*exp, *b.exp], cons)

def s_prep_reps(exp, cons, reps):
    return [SRep(r.cost, r.auto, r.ins, s_ops(exp, cons, r.ops), r.value, r.pos, r.exp if r.cons else [*exp, *r.exp],
                 r.cons or cons) for r in reps]

def s_map(f, b):
    if type(b) is SOk:
        return SOk(f(b.value), b.pos, b.exp, b.cons)
    if type(b) is SErr:
        return b
    return SRec([SRep(r.cost, r.auto, r.ins, r.ops, f(r.value), r.pos, r.exp, r.cons) for r in b.reps], b.at, b.exp,
                b.cons)

def s_cont(a, ins, k, merge):
    reps = []
    for r in a.reps:
        b = k(r.value, r.pos, r.ins)
        if type(b) is SOk:
            reps.append(SRep(r.cost, r.auto, ins if b.cons else r.ins, r.ops, merge(r.value, b.value), b.pos,
                             b.exp if b.cons else [*r.exp, *b.exp], r.cons or b.cons))
        elif type(b) is SRec:
            for t in b.reps:
                reps.append(SRep(r.cost + t.cost, r.auto, t.ins, [*r.ops, *s_ops(r.exp, r.cons, t.ops)],
                                 merge(r.value, t.value), t.pos, t.exp if t.cons else [*r.exp, *t.exp],
                                 r.cons or t.cons))
    return SRec(reps, a.at, a.exp, a.cons)

def s_bind_(p, f, merge):
    def run(pos, mark, ins, rem):
        a = p(pos, mark, ins, rem)
        if type(a) is SErr:
            return a
        if type(a) is SOk:
            b = f(a.value)(a.pos, mark, ins, ins if a.cons else rem)
            v = a.value
            return s_prep(a.exp, a.cons, s_map(lambda w: merge(v, w), b))
        return s_cont(a, ins, lambda v, q, r: f(v)(q, mark, ins, r), merge)
    return run

def s_bind(p, fn):
    return s_bind_(p, lambda v: s_par(fn(v)), lambda a, b: b)

def s_seq(p, q, merge=lambda a, b: (a, b)):
    return s_bind_(p, lambda v: q, merge)

def s_seql(p, q):
    return s_seq(p, q, lambda a, b: a)

def s_seqr(p, q):
    return s_seq(p, q, lambda a, b: b)

def s_then(p, q):
    return s_seq(p, q, lambda a, b: (*a, b))

def s_thens(n):
    r = s_seq(s_A[1], s_A[2])
    for p in s_A[3:n + 1]:
        r = s_then(r, p)
    return r

def s_undefined():
    def run(pos, mark, ins, rem):
        raise RuntimeError("undefined")
    return run

def s_fmap(p, f):
    return lambda pos, mark, ins, rem: s_map(f, p(pos, mark, ins, rem))

def s_set(exp, b):
    if type(b) is SRec:
        return SRec([SRep(r.cost, r.auto, r.ins, [o if o.cons else SOp(o.op, o.at, exp, False) for o in r.ops], r.value,
                          r.pos, r.exp if r.cons else exp, r.cons) for r in b.reps],
                    b.at, b.exp if b.cons else exp, b.cons)
    if b.cons:
        return b
    if type(b) is SOk:
        return SOk(b.value, b.pos, exp, False)
    return SErr(b.at, exp, False)

def s_alt(p, q):
    def run(pos, mark, ins, rem):
        a = p(pos, mark, ins, None)
        if type(a) is SOk or a.cons:
            return a
        b = q(pos, mark, ins, None)
        if b.cons:
            return b
        exp = [*a.exp, *b.exp]
        if type(b) is SOk:
            return SOk(b.value, b.pos, exp, False)
        if ins is None or rem is None:
            return SErr(a.at, exp, False)
        a2 = p(pos, mark, ins, rem)
        b2 = q(pos, mark, ins, rem)
        if type(a2) is SRec:
            if type(b2) is SRec:
                reps = [*a2.reps, *[r for r in b2.reps if not r.auto]]
                if a2.cons:  # only below attempt()
                    return s_set(exp, SRec(reps, a2.at, a2.exp, True))
                if b2.cons:
                    return s_set(exp, SRec(reps, b2.at, b2.exp, True))
                return s_set(exp, SRec(reps, a2.at, exp, False))
            return s_set(exp, a2)
        if type(b2) is SRec:
            return s_set(exp, b2)
        return SErr(a.at, exp, False)
    return run

def s_maybe(p):
    def run(pos, mark, ins, rem):
        a = p(pos, mark, ins, None)
        if a.cons or type(a) is SOk:
            return a
        return SOk(None, pos, a.exp, False)
    return run

def s_many(p):
    def run(pos, mark, ins, rem):
        vals = []
        cons = False
        exp = []
        while True:
            r = p(pos, mark, ins, None)
            if type(r) is not SOk:
                break
            if not r.cons:
                raise RuntimeError("empty")
            vals = [*vals, r.value]
            pos = r.pos
            cons = True
            exp = r.exp
        if type(r) is SRec:
            return s_cont(r, ins, lambda v, q, b: __spec__("REC", q, mark, ins, None), lambda a, b: [*vals, a, *b])
        if r.cons:
            return r
        return SOk(vals, pos, [*exp, *r.exp], cons)
    return run

def s_attempt(p):
    def run(pos, mark, ins, rem):
        if ins is not None and rem is not None:
            return p(pos, mark, ins, rem)
        a = p(pos, mark, None, None)
        if type(a) is SErr:
            return SErr(a.at, a.exp, False)
        return a
    return run

def s_label(p, x):
    return lambda pos, mark, ins, rem: s_set([x], p(pos, mark, ins, rem))

def s_recover(p):
    def run(pos, mark, ins, rem):
        a = p(pos, mark, ins, rem)
        if type(a) is SRec:
            return SRec([SRep(r.cost, False, r.ins, r.ops, r.value, r.pos, r.exp, r.cons) for r in a.reps], a.at, a.exp,
                        a.cons)
        return a
    return run

def s_user(p, f, label):
    def run(pos, mark, ins, rem):
        a = p(pos, mark, ins, rem)
        if ins is None or rem is None or type(a) is SOk or a.cons or rem == 0:
            return a
        x = f(pos)
        rep = SRep(1, False, rem - 1, [SOp(SIns(repr(x) if label is None else label), pos, a.exp, False)], x, pos, [], True)
        if type(a) is SErr:
            return SRec([rep], pos, a.exp, False)
        return SRec([rep, *a.reps], pos, a.exp, False)
    return run

def s_recover_with(p, x, label=None):
    return s_user(p, lambda pos: x, label)

def s_recover_with_fn(p, fn, label=None):
    return s_user(p, lambda pos: fn(STREAM, pos), label)

def s_between(o, c, p):
    return s_seqr(o, s_seql(p, c))

def s_sep_by(p, sep):
    return s_fmap(s_maybe(s_seq(p, s_many(s_seqr(sep, p)), lambda a, b: [a, *b])), lambda v: [] if v is None else v)

def s_foldl(v):
    r = v[0]
    for op, x in v[1]:
        r = op(r, x)
    return r

def s_foldr(v):
    def go(x, rest):
        if not rest:
            return x
        return rest[0][0](x, go(rest[0][1], rest[1:]))
    return go(v[0], v[1])

def s_chainl1(p, op):
    return s_fmap(s_seq(p, s_many(s_seq(op, p))), s_foldl)

def s_chainr1(p, op):
    return s_fmap(s_seq(p, s_many(s_seq(op, p))), s_foldr)

# primitives

def s_pure(x):
    return lambda pos, mark, ins, rem: SOk(x, pos, [], False)

def s_pure_fn(f):
    return lambda pos, mark, ins, rem: SOk(f(), pos, [], False)

def s_unexpected(x):
    return lambda pos, mark, ins, rem: SErr(pos, [x], False)

def s_eof():
    def run(pos, mark, ins, rem):
        n = len(STREAM)
        if pos == n:
            return SOk(None, pos, [], False)
        if ins is None or rem is None:
            return SErr(pos, ["end of file"], False)
        return SRec([SRep(n - pos, False, ins, [SOp(SSkip(n - pos), pos, ["end of file"], False)], None, n, [], False)], pos,
                    ["end of file"], False)
    return run

def s_prim(match, exp, insert=None, label=None):
    """match(pos): None or (value, end).  insert: a tuple with the value to insert, or None."""
    def run(pos, mark, ins, rem):
        m = match(pos)
        if m is not None:
            return SOk(m[0], m[1], [], m[1] != pos)
        if ins is None or rem is None:
            return SErr(pos, exp, False)
        reps = []
        if insert is not None and rem != 0:
            reps.append(SRep(1, True, rem - 1, [SOp(SIns(label), pos, exp, False)], insert[0], pos, [], True))
        k = pos + 1
        while k < len(STREAM):
            m = match(k)
            if m is not None:
                reps.append(SRep(k - pos, False, ins, [SOp(SSkip(k - pos), pos, exp, False)], m[0], m[1], [], True))
                break
            k += 1
        if not reps:
            return SErr(pos, exp, False)
        return SRec(reps, pos, exp, False)
    return run

def s_satisfy(test):
    def match(k):
        if k < len(STREAM):
            t = STREAM[k]
            if test(t):
                return (t, k + 1)
        return None
    return s_prim(match, [])

def s_sym(x, label=None):
    def match(k):
        if k < len(STREAM):
            t = STREAM[k]
            if t == x:
                return (t, k + 1)
        return None
    label = repr(x) if label is None else label
    return s_prim(match, [label], (x,), label)

def s_literal(s):
    def match(k):
        if STREAM.startswith(s, k):
            return (s, k + len(s))
        return None
    return s_prim(match, [repr(s)], (s,), repr(s))

def s_regexp(pat, group=0):
    rx = re.compile(pat)
    def match(k):
        m = rx.match(STREAM, k)
        if m is not None:
            v = m.group(group)
            if v is not None:
                return (v, m.end())
        return None
    return s_prim(match, [])

def s_token(kind):
    return s_label(s_satisfy(lambda t: t.kind == kind), kind)

def s_token_loc(pos):
    if pos < len(STREAM):
        return STREAM[pos].start
    if len(STREAM) > 0:
        return STREAM[-1].end
    return Loc(pos, 0, 0)

def s_token_ins(kind, value):
    return s_recover_with_fn(s_token(kind), lambda s, pos: lexer.Token(kind, value, s_token_loc(pos), s_token_loc(pos)), kind)

# layout

def s_block(p):
    return lambda pos, mark, ins, rem: p(pos, __col__(pos), ins, rem)

def s_aligned(p):
    def run(pos, mark, ins, rem):
        if mark == __col__(pos):
            return p(pos, mark, ins, rem)
        return SErr(pos, ["indentation"], False)
    return run

def s_indented(d, p):
    def run(pos, mark, ins, rem):
        if mark + d == __col__(pos):
            return p(pos, __col__(pos), ins, rem)
        return SErr(pos, ["indentation"], False)
    return run

# results

def s_best(reps):
    best = reps[0]
    for r in reps[1:]:
        if r.cost < best.cost:
            best = r
        elif r.cost == best.cost:
            if r.pos > best.pos:
                best = r
            elif r.pos == best.pos and best.prio is None and r.prio is not None:
                best = r
    return best

# the lexer

def s_split(src, spec):
    toks = []
    ends = []
    pos = 0
    while pos < len(src):
        m = spec.match(src, pos)
        if m is None or m.end() == pos:
            return ("error", pos, ends)
        k = m.lastgroup
        if k is not None:
            toks.append((k, m.group(k), pos, m.end()))
        pos = m.end()
        ends.append(pos)
    return ("tokens", toks, ends)
'''
