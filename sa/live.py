"""Names whose value at the head of a loop is dead: assigned in every iteration before any use and unused outside."""
import ast


def free_reads(node):
    """All names read anywhere below node (nested functions included)."""
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def stores(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


class _Flow:
    def __init__(self):
        self.exposed = set()

    def expr(self, e, d):
        """Record uses of names not in d; returns d extended by walrus targets that are surely evaluated."""
        if e is None:
            return d
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d:
                self.exposed.add(n.id)
        if isinstance(e, ast.NamedExpr):
            return d | {e.target.id}
        return d

    def target(self, t, d):
        if isinstance(t, ast.Name):
            return d | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                d = self.target(x, d)
            return d
        if isinstance(t, ast.Starred):
            return self.target(t.value, d)
        self.expr(t, d)
        return d

    def block(self, body, d):
        for s in body:
            d = self.stmt(s, d)
        return d

    def stmt(self, s, d):
        if isinstance(s, ast.Assign):
            d = self.expr(s.value, d)
            for t in s.targets:
                d = self.target(t, d)
            return d
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return d
            d = self.expr(s.value, d)
            return self.target(s.target, d)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id not in d:
                self.exposed.add(s.target.id)
            else:
                self.expr(s.target, d)
            return self.expr(s.value, d)
        if isinstance(s, (ast.Expr, ast.Return)):
            return self.expr(s.value, d)
        if isinstance(s, ast.If):
            d = self.expr(s.test, d)
            a = self.block(s.body, d)
            b = self.block(s.orelse, d)
            ja, jb = jumps(s.body), jumps(s.orelse)
            return b if ja and not jb else a if jb and not ja else a & b
        if isinstance(s, (ast.For,)):
            d = self.expr(s.iter, d)
            self.block(s.body, self.target(s.target, d))
            self.block(s.orelse, d)
            return d
        if isinstance(s, ast.While):
            d = self.expr(s.test, d)
            self.block(s.body, d)
            self.block(s.orelse, d)
            return d
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.expr(s, d)
            return d | {s.name}
        if isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal)):
            return d
        if isinstance(s, ast.Raise):
            self.expr(s.exc, d)
            return d
        if isinstance(s, ast.Assert):
            return self.expr(s.test, d)
        if isinstance(s, ast.Match):
            d = self.expr(s.subject, d)
            ends = []
            whole = False
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, ast.expr):
                        self.expr(n, d)
                dc = d | stores(c.pattern)
                dc = self.expr(c.guard, dc)
                e = self.block(c.body, dc)
                if not jumps(c.body):
                    ends.append(e)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    whole = True
            if not whole:
                ends.append(d)
            out = ends[0] if ends else d
            for e in ends[1:]:
                out = out & e
            return out
        if isinstance(s, ast.Try):
            e = self.block(s.body, d)
            for h in s.handlers:
                self.expr(h.type, d)
                self.block(h.body, d | ({h.name} if h.name else set()))
            e = self.block(s.orelse, e)
            f = self.block(s.finalbody, d)
            if not s.handlers or all(jumps(h.body) for h in s.handlers):
                return e | f
            return f
        # anything else: every name read in it counts as exposed
        self.exposed |= free_reads(s) - d
        return d


def jumps(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def captured(fn):
    """Names read inside functions nested in fn."""
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            out |= free_reads(n)
    return out


_cache = {}


def dead_names(fn, loop):
    """Names local to fn that carry nothing from one iteration of loop to the next, nor out of it."""
    key = (id(fn), id(loop))
    if key in _cache:
        return _cache[key][0]
    r = frozenset()
    if isinstance(fn, ast.FunctionDef) and isinstance(loop, (ast.For, ast.While)):
        f = _Flow()
        d = set()
        if isinstance(loop, ast.While):
            d = f.expr(loop.test, d)
        else:
            d = f.target(loop.target, d)
        f.block(loop.body, d)
        st = set()
        for x in loop.body + ([loop.test] if isinstance(loop, ast.While) else []):
            st |= stores(x)
        inside = set(map(id, ast.walk(loop)))
        outside = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                   and id(n) not in inside}
        nl = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        r = frozenset(st - f.exposed - outside - captured(fn) - nl)
    _cache[key] = (r, fn, loop)
    return r
