"""Models of the Python built-ins and library functions used by (or likely in) the analysed package."""
import string as _string

from .domain import (App, BMeth, Bound, Builtin, Cls, E, Ext, Func, Idx, Lin, Mod, NLC, NLP, Partial, Ref, Star, Sym, Tup, Unsupported,
                     V, X, add, atoms, is_const, is_int, lin_parts, mk_lin, same, scale, show, slen, sort_of, sub)
from . import loops as _l


# ---- text ---------------------------------------------------------------------------------------------------

def mk_str(parts):
    out = []
    for p in parts:
        if isinstance(p, App) and p.op == "str":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        elif p != "" or not isinstance(p, str):
            res.append(p)
    if not res:
        return ""
    if len(res) == 1 and (isinstance(res[0], str) or sort_of(res[0]) == "str"):
        return res[0]
    return App("str", tuple(res))


def to_str(I, v):
    """str(v)"""
    if isinstance(v, str) or sort_of(v) == "str":
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    c = I.obj_cls(v)
    if c is not None:
        if c.lookup("__str__"):
            return I.call(I.getattr(v, "__str__"), (), {})
        if c.issub(I.exc_cls["BaseException"]):
            a = I.rec(v).d.get("args")
            if isinstance(a, Tup) and len(a.segs) == 1:
                return to_str(I, a.segs[0].v)
        return to_repr(I, v)
    return App("conv", ("s", I.termify(v)))


def to_repr(I, v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    c = I.obj_cls(v)
    if c is not None and c.lookup("__repr__"):
        return I.call(I.getattr(v, "__repr__"), (), {})
    if is_int(v):
        return App("conv", ("s", v))
    return App("conv", ("r", I.termify(v)))


def fmt_value(I, v, conv, spec):
    if conv == "r":
        s = to_repr(I, v)
    elif spec == "" or conv == "s":
        s = to_str(I, v)
    else:
        s = v
    if spec:
        if is_const(v) and not conv:
            try:
                return format(v, spec)
            except (ValueError, TypeError):
                I.throw("ValueError", "format")
        if spec in ("d", "n") and is_int(v):
            return App("conv", ("s", v))
        if spec == "s":
            return s
        return App("conv", ("fmt:" + spec, I.termify(v)))
    return s


def str_format(I, fmt, args, kw):
    if not isinstance(fmt, str):
        return App("mcall", (fmt, "format") + tuple(I.termify(a) for a in args))
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        name, rest = _string._string.formatter_field_name_split(field)
        if name == "":
            name = auto
            auto += 1
        if isinstance(name, int):
            if name >= len(args):
                I.throw("IndexError", "Replacement index out of range")
            v = args[name]
        else:
            if name not in kw:
                I.throw("KeyError", name)
            v = kw[name]
        for is_attr, n in rest:
            v = I.getattr(v, n) if is_attr else getitem(I, v, n)
        if "{" in (spec or ""):
            I.unsupported("nested format specification")
        parts.append(fmt_value(I, v, conv or "", spec or ""))
    return mk_str(parts)


def percent(I, fmt, arg):
    if not isinstance(fmt, str):
        I.unsupported("% formatting of a computed string")
    vals = [s.v for s in arg.segs] if isinstance(arg, Tup) else [arg]
    parts = []
    i = 0
    k = 0
    while i < len(fmt):
        j = fmt.find("%", i)
        if j < 0:
            parts.append(fmt[i:])
            break
        parts.append(fmt[i:j])
        c = fmt[j + 1:j + 2]
        if c == "%":
            parts.append("%")
        elif c in ("s", "r", "d"):
            if k >= len(vals):
                I.throw("TypeError", "not enough arguments for format string")
            parts.append(fmt_value(I, vals[k], c if c != "d" else "", "" if c != "d" else "d"))
            k += 1
        else:
            I.unsupported("format %" + c)
        i = j + 2
    if k < len(vals):
        I.throw("TypeError", "not all arguments converted during string formatting")
    return mk_str(parts)


def join(I, sep, it):
    parts = []
    first = True
    segs = I.iterate(it)
    if all(isinstance(s, E) for s in segs):
        for s in segs:
            if not first:
                parts.append(sep)
            first = False
            if s.v is None or isinstance(s.v, (int, Lin)) or (isinstance(s.v, Ref)):
                I.throw("TypeError", "sequence item: expected str instance")
            parts.append(s.v)
        return mk_str(parts)
    return App("join", (sep, Tup(tuple(I.termify_seg(s) for s in segs))))


def newline_count(I, s, a, b):
    """Number of newlines of s[a:b] in terms of the number before each end."""
    def before(p):
        return 0 if same(p, 0) else App(NLC, (s, p))
    return sub(before(b), before(a))


def str_method(I, s, name, args, kw):
    """Methods of strings (constant or not) and of the input."""
    if isinstance(s, str) and name not in ("format", "join") and not kw and all(is_const(a) for a in args):
        try:
            r = getattr(s, name)(*args)
        except AttributeError:
            I.throw("AttributeError", "str has no attribute " + name)
        except (ValueError, TypeError, IndexError) as e:
            I.throw(type(e).__name__, str(e))
        return conv_py(I, r)
    if name == "format":
        return str_format(I, s, args, kw)
    if name == "join":
        return join(I, s, args[0])
    if name in ("count", "find", "rfind", "index", "rindex", "startswith", "endswith"):
        base = s
        off = 0
        end_lim = slen(s)
        a = args[1] if len(args) > 1 and args[1] is not None else 0
        b = args[2] if len(args) > 2 and args[2] is not None else None
        if isinstance(s, App) and s.op == "slice":
            base, lo, hi = s.args
            off = lo or 0
            a = add(a, off)
            b = add(b, off) if b is not None else (hi if hi is not None else None)
        sub_ = args[0]
        if name == "startswith":
            if isinstance(sub_, Tup):
                return any(I.truth(App("startswith", (base, x.v, a))) for x in sub_.segs)
            if b is not None and not I.ge0(sub(b, add(a, slen(sub_)))):
                return False
            return App("startswith", (base, sub_, a))
        if name == "endswith":
            return App("mcall", (s, name) + tuple(I.termify(x) for x in args))
        bb = slen(base) if b is None else b
        if sub_ == "\n" and sort_of(base) in ("stream", "str"):
            n = newline_count(I, base, a, bb)
            f = I.st.facts
            # monotone: more newlines before a later position
            if f.entails(sub(bb, a)):
                f.assume(n)
            if name == "count":
                return n
            if I.ge0(sub(n, 1), "there is a newline in [%s, %s)" % (show(a), show(bb))):
                if name in ("rfind", "rindex"):
                    p = App(NLP, (base, bb))
                    f.assume(sub(p, a))
                    f.assume(sub(sub(bb, p), 1))
                    return sub(p, off)
                return sub(App("mcall", (base, "find", sub_, a, bb)), off)
            I.st.facts.set(("samelines", base, a, bb), True)
            if name in ("index", "rindex"):
                I.throw("ValueError", "substring not found")
            return -1
        if name in ("find", "index") and sort_of(base) in ("stream", "str"):
            n = next((k for k in range(-1, 17) if I.st.facts.entails_eq(sub(bb, a), k)), None)
            if n is None and I.world.set.far:
                n = I.world.set.length + I.world.start(a)
            if n is not None and b is None and I.truth(sub_):
                # a range of known size: the positions one by one
                for k in range(n):
                    if I.truth(App("startswith", (base, sub_, add(a, k)))):
                        return add(sub(a, off), k)
                if name == "index":
                    I.throw("ValueError", "substring not found")
                return -1
            key = ("found", base, sub_, a, bb)
            if I.lit(key, "%s occurs at or after %s" % (show(sub_), show(a))):
                p = App("mcall", (base, "find", sub_, a, bb))
                I.st.facts.assume(sub(p, a))
                I.st.facts.assume(sub(bb, add(p, slen(sub_) if sort_of(base) == "str" or I.text_stream else 1)))
                I.st.facts.set(("truth", App("startswith", (base, sub_, p))), True)
                I.event("search", base, sub_, a, bb, p)
                return sub(p, off)
            I.event("search", base, sub_, a, bb, None)
            if name == "index":
                I.throw("ValueError", "substring not found")
            return -1
        return App("mcall", (base, name, sub_, a, bb))
    if name in ("isalpha", "isdigit", "isspace", "isalnum", "isidentifier", "islower", "isupper"):
        return App("mcall", (s, name))
    if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "replace", "expandtabs", "rjust", "ljust", "zfill",
                "encode", "capitalize", "casefold"):
        return App("mcall", (s, name) + tuple(I.termify(a) for a in args))
    if name in ("split", "splitlines", "rsplit", "partition", "rpartition"):
        if name == "split" and args == ("\n",) and isinstance(s, App) and s.op == "slice" and s.args[2] is not None:
            base, lo, hi = s.args
            lo = lo or 0
            n = newline_count(I, base, lo, hi)
            I.st.facts.assume(n)
            if I.ge0(sub(n, 1), "there is a newline in [%s, %s)" % (show(lo), show(hi))):
                p = App(NLP, (base, hi))
                I.st.facts.assume(sub(p, lo))
                I.st.facts.assume(sub(sub(hi, p), 1))
                head = App("full_lines", (base, lo, hi))
                d = sub(slen(head), n)
                I.st.facts.assume(d)
                I.st.facts.assume(scale(d, -1))
                return I.new_list((X(head), E(App("slice", (base, add(p, 1), hi)))))
            I.st.facts.set(("samelines", base, lo, hi), True)
            return I.new_list((E(s),))
        if name == "split" and args == ("\n",) and sort_of(s) == "stream":
            return App("lines", (s,))
        if name == "rpartition" and args == ("\n",) and isinstance(s, App) and s.op == "slice":
            base, lo, hi = s.args
            n = newline_count(I, base, lo or 0, hi)
            I.st.facts.assume(n)
            if I.ge0(sub(n, 1)):
                p = App(NLP, (base, hi))
                I.st.facts.assume(sub(p, lo or 0))
                I.st.facts.assume(sub(sub(hi, p), 1))
                return Tup((E(App("slice", (base, lo, p))), E("\n"), E(App("slice", (base, add(p, 1), hi)))))
            I.st.facts.set(("samelines", base, lo or 0, hi), True)
            return Tup((E(""), E(""), E(s)))
        return App("mcall", (s, name) + tuple(I.termify(a) for a in args))
    if name == "__len__":
        return slen(s)
    if name == "__getitem__":
        return getitem(I, s, args[0])
    if name == "__contains__":
        return I.contains(args[0], s)
    if name == "__iter__":
        return I.new_iter(I.iterate(s))
    return App("mcall", (s, name) + tuple(I.termify(a) for a in args))


def conv_py(I, r):
    if isinstance(r, list):
        return I.new_list(tuple(E(conv_py(I, x)) for x in r))
    if isinstance(r, tuple):
        return Tup(tuple(E(conv_py(I, x)) for x in r))
    return r


# ---- operators ----------------------------------------------------------------------------------------------

def binop(I, op, a, b, inplace=False):
    num = (bool, int, float)
    if isinstance(a, num) and isinstance(b, num) or isinstance(a, str) and isinstance(b, (str, int)) and op in ("Add", "Mult"):
        try:
            r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b,
                 "Div": lambda: a / b, "Mod": lambda: a % b, "Pow": lambda: a ** b, "BitOr": lambda: a | b,
                 "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
                 }[op]()
            return r
        except ZeroDivisionError:
            I.throw("ZeroDivisionError", "division by zero")
        except (TypeError, ValueError):
            I.throw("TypeError", "unsupported operand types")
    if op == "Mod" and (isinstance(a, str) or sort_of(a) == "str"):
        return percent(I, a, b)
    if op in ("BitOr", "BitAnd", "BitXor") and not isinstance(a, Ref) and not isinstance(b, Ref):
        if isinstance(a, (Cls, Ext, Builtin)) or isinstance(b, (Cls, Ext, Builtin)):
            return Ext("typing.Union")
        if isinstance(a, (bool, Sym, App)) and isinstance(b, (bool, Sym, App)) and not is_int(a) and not is_int(b):
            if op == "BitOr":
                x = I.truth(a)
                y = I.truth(b)
                return x or y
            if op == "BitAnd":
                x = I.truth(a)
                y = I.truth(b)
                return x and y
            return I.truth(a) != I.truth(b)
    for x in (a, b):
        if x is None:
            I.throw("TypeError", "unsupported operand None for " + op)
    dunder = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "BitOr": "__or__", "LShift": "__lshift__",
              "RShift": "__rshift__", "Mod": "__mod__", "BitAnd": "__and__", "FloorDiv": "__floordiv__", "Div": "__truediv__",
              "BitXor": "__xor__", "Pow": "__pow__", "MatMult": "__matmul__"}[op]
    ca = I.obj_cls(a)
    if ca is not None and not (ca.is_tuple() and not ca.lookup(dunder)):
        idn = "__i" + dunder[2:]
        if inplace and ca.lookup(idn):
            return I.call(I.getattr(a, idn), (b,), {})
        if ca.lookup(dunder):
            r = I.call(I.getattr(a, dunder), (b,), {})
            if r != Sym("NotImplemented"):
                return r
    cb = I.obj_cls(b)
    if cb is not None and cb.lookup("__r" + dunder[2:]):
        return I.call(I.getattr(b, "__r" + dunder[2:]), (a,), {})
    if ca is not None and not ca.is_tuple():
        I.throw("TypeError", "unsupported operand types")
    if op == "Add":
        la, lb = seq_kind(I, a), seq_kind(I, b)
        if la == "list" and inplace:
            r = None
            segs = I.iterate(b)
            r = I.w(a, "+=")
            r.segs = r.segs + tuple(segs)
            return a
        if la and lb:
            if la != lb:
                I.throw("TypeError", "can only concatenate %s" % la)
            segs = tuple(I.iterate(a)) + tuple(I.iterate(b))
            return I.new_list(segs) if la == "list" else Tup(segs)
        if la in ("list", "tuple") and isinstance(b, (Sym, App)):
            segs = tuple(I.iterate(a)) + tuple(I.iterate(b))
            return I.new_list(segs) if la == "list" else Tup(segs)
        if lb in ("list", "tuple") and isinstance(a, (Sym, App)):
            segs = tuple(I.iterate(a)) + tuple(I.iterate(b))
            return I.new_list(segs) if lb == "list" else Tup(segs)
        sa, sb = sort_of(a), sort_of(b)
        if sa == "str" or sb == "str":
            if (sa in ("int", "bool")) or (sb in ("int", "bool")):
                I.throw("TypeError", "can only concatenate str")
            return mk_str([a, b])
        if numeric(a) and numeric(b):
            return add(a, b)
        if "stream" in (sa, sb):
            return App("concat", (I.termify(a), I.termify(b)))
    if op == "Sub" and numeric(a) and numeric(b):
        return sub(a, b)
    if op == "Mult":
        if isinstance(a, int) and numeric(b):
            return scale(b, int(a))
        if isinstance(b, int) and numeric(a):
            return scale(a, int(b))
        if seq_kind(I, a) and isinstance(b, int):
            segs = tuple(I.iterate(a)) * max(b, 0)
            return I.new_list(segs) if seq_kind(I, a) == "list" else Tup(segs)
    if op == "BitOr" and I.is_kind(a, "dict") and I.is_kind(b, "dict"):
        r = I.alloc("dict", d={}, extra=I.rec(a).extra)
        for k, v in I.rec(b).extra:
            setitem(I, r, k, v)
        return r
    if op == "BitOr" and I.is_kind(a, "set"):
        return I.alloc("set", segs=tuple(dedup(I, I.rec(a).segs + tuple(I.iterate(b)))))
    if numeric(a) and numeric(b):
        return App("arith", (op, a, b))
    if isinstance(a, (Sym, App, Lin)) or isinstance(b, (Sym, App, Lin)):
        return App("arith", (op, I.termify(a), I.termify(b)))
    I.throw("TypeError", "unsupported operand types for %s" % op)


def numeric(v):
    if isinstance(v, (bool, int, Lin)):
        return True
    return isinstance(v, (Sym, App)) and (sort_of(v) in ("int", "bool") or sort_of(v) == "any" and isinstance(v, App)
                                          and v.op in ("attr", "item", "elem", "rep", "arith"))


def seq_kind(I, v):
    if isinstance(v, Tup):
        return "tuple"
    if I.is_kind(v, "list"):
        return "list"
    c = I.obj_cls(v)
    if c is not None and c.is_tuple():
        return "tuple"
    return None


# ---- subscripts ---------------------------------------------------------------------------------------------

def opaque_item(I, v, i, n=None):
    return App("item", (v, i))


def getitem(I, o, k):
    if I.world.set.sized and isinstance(o, Sym) and o.sort == "stream":
        I.throw("TypeError", "an input of which only the length is known is not subscriptable")
    if isinstance(k, tuple) and k and k[0] == "slice":
        return slice_(I, o, *k[1:])
    if isinstance(o, str) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            I.throw("IndexError", "string index out of range")
    if isinstance(o, Ref):
        r = I.rec(o)
        if r.kind == "dict":
            i = I.dict_find(r, k)
            if i is None:
                if r.d and "$factory" in r.d:
                    v = I.call(r.d["$factory"], (), {})
                    setitem(I, o, k, v)
                    return v
                I.throw("KeyError", show(k))
            return I.rec(o).extra[i][1]
        if r.kind == "obj":
            if r.cls.lookup("__getitem__"):
                return I.call(I.getattr(o, "__getitem__"), (k,), {})
            t = I.as_tuple(o)
            if t is not None:
                return getitem(I, Tup(tuple(E(x) for x in t)), k)
            I.throw("TypeError", "object is not subscriptable")
        if r.kind == "list":
            return seg_item(I, o, r.segs, k)
        I.throw("TypeError", r.kind + " is not subscriptable")
    if isinstance(o, Tup):
        return seg_item(I, o, o.segs, k)
    if isinstance(o, Idx):
        return _l.make_item(I, o.make, add(o.start, scale(k, o.step)))
    if isinstance(o, (Sym, App)):
        if sort_of(o) in ("stream", "str"):
            return stream_item(I, o, k)
        if I.st.facts.lit(("none", o)) is True:
            I.throw("TypeError", "None is not subscriptable")
        if isinstance(o, App) and o.op == "mcall" and o.args[1] in ("match", "fullmatch", "search"):
            return opaque_method(I, o, "group", (k,), {})
        if isinstance(o, App) and o.op == "mcall" and o.args[1] == "span" and isinstance(k, int):
            return opaque_method(I, o.args[0], "start" if k in (0, -2) else "end", (), {})
        if isinstance(k, Ref):
            return App("item", (o, I.termify(k)))
        if isinstance(o, App) and o.op == "call" or isinstance(k, (int, Lin)) and not isinstance(k, bool):
            ln = slen(o)
            if isinstance(k, (int, Lin)) and o in I.seq_terms:
                check_index(I, ln, k)
        return App("item", (o, k))
    if o is None:
        I.throw("TypeError", "None is not subscriptable")
    I.unsupported("subscript of %s" % show(o))


def check_index(I, ln, k):
    """Fork on an index being valid for a sequence of length ln; returns the nonnegative index."""
    if I.ge0(k, "index %s >= 0" % show(k)):
        if not I.ge0(sub(sub(ln, k), 1), "index %s is inside the sequence" % show(k)):
            I.throw("IndexError", "index %s may be outside a sequence of length %s" % (show(k), show(ln)))
        return k
    if not I.ge0(add(ln, k), "index %s is inside the sequence" % show(k)):
        I.throw("IndexError", "index %s may be outside a sequence of length %s" % (show(k), show(ln)))
    return add(ln, k)


def stream_item(I, o, k):
    if not (is_int(k) or isinstance(k, bool)):
        if isinstance(k, (App, Sym)):
            return App("item", (o, k))
        I.throw("TypeError", "indices must be integers")
    k = check_index(I, slen(o), k)
    return _l.item_term(o, k)


def seg_item(I, o, segs, k):
    if isinstance(k, BMeth) and k.name == "$at":
        v, s = k.self_.segs
        if s in segs if isinstance(s, Star) else s.v < len(segs) and same(segs[s.v], v):
            return v.v
        I.unsupported("element of a list at an index of another one")
    if not (is_int(k) or isinstance(k, bool)):
        I.throw("TypeError", "list indices must be integers")
    if isinstance(k, int):
        k = int(k)
        if all(isinstance(s, E) for s in segs):
            if not -len(segs) <= k < len(segs):
                I.throw("IndexError", "list index out of range")
            return segs[k].v
        if k >= 0:
            if all(isinstance(s, E) for s in segs[:k + 1]) and len(segs) > k:
                return segs[k].v
            out = force_index(I, segs, k)
            if isinstance(o, Ref) and I.rec(o).kind == "list":
                I.rec(o)
                if tuple(out) != tuple(segs):
                    r = I.st.heap[o.oid].copy(I.st.id)
                    r.segs = tuple(out)
                    I.st.heap[o.oid] = r
            return out[k].v
        tail = segs[k:]
        if len(segs) >= -k and all(isinstance(s, E) for s in tail):
            return tail[0].v
        if len(segs) == 1 and isinstance(segs[0], X):
            if not I.seg_nonempty(segs[0]):
                I.throw("IndexError", "list index out of range")
            return App("item", (segs[0].term, k))
        out = rev_segs(force_index(I, rev_segs(segs), -k - 1))
        if isinstance(o, Ref) and I.rec(o).kind == "list" and out != tuple(segs):
            r = I.st.heap[o.oid].copy(I.st.id)
            r.segs = out
            I.st.heap[o.oid] = r
        return out[k].v
    if len(segs) == 1 and isinstance(segs[0], (X, Idx)):
        s = segs[0]
        if isinstance(s, Idx):
            check_index(I, sub(s.stop, s.start), k)
            return _l.make_item(I, s.make, add(s.start, scale(k, s.step)))
        check_index(I, slen(s.term), k)
        return App("item", (s.term, k))
    if all(isinstance(s, E) for s in segs):
        check_index(I, len(segs), k)
        for i, s in enumerate(segs):
            if I.int_eq(k, i) or I.int_eq(k, i - len(segs)):
                return s.v
    if I.any_item:
        return App("item", (App("some", tuple(s.sid if isinstance(s, Star) else "" for s in segs)), k))
    I.unsupported("element %s of a list of unknown length" % show(k))


def force_index(I, segs, k):
    out = []
    segs = list(segs)
    while len(out) <= k:
        if not segs:
            I.throw("IndexError", "list index out of range")
        s = segs.pop(0)
        if isinstance(s, E):
            out.append(s)
        elif I.seg_nonempty(s):
            first, rest = _l.split_first(I, s)
            out.extend(first)
            segs[0:0] = rest
    return out + segs


def prefix_of(I, segs, k):
    """The first k elements (or all, if there are fewer) and the rest."""
    out = []
    segs = list(segs)
    while segs and len(out) < k:
        s = segs.pop(0)
        if isinstance(s, E):
            out.append(s)
        elif I.seg_nonempty(s):
            first, rest = _l.split_first(I, s)
            segs[0:0] = list(first) + list(rest)
    return tuple(out), tuple(segs)


def slice_(I, o, lo, hi, step):
    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return o[lo:hi:step]
    if isinstance(o, (Sym, App)) and sort_of(o) in ("stream", "str"):
        if step not in (None, 1):
            return App("cut", (o, lo, hi, step))
        base = o
        n = slen(o)

        def norm(x):
            if x is None:
                return None
            if isinstance(x, int) and x < 0:
                return add(n, x)
            return x
        lo, hi = norm(lo), norm(hi)
        if isinstance(o, App) and o.op == "slice":
            b, l0, h0 = o.args
            nlo = add(l0 or 0, lo or 0)
            nhi = h0 if hi is None else add(l0 or 0, hi)
            return App("slice", (b, nlo, nhi))
        if lo in (None, 0) and hi is None:
            return o
        return App("slice", (base, lo, hi))
    if isinstance(o, Idx):
        if step in (None, 1) and o.step == 1 and (lo is None or I.ge0(lo)):
            st = o.start if lo is None else add(o.start, lo)
            return Idx(st, o.stop if hi is None else add(o.start, hi), 1, o.make)
        I.unsupported("slice of a range")
    k = seq_kind(I, o)
    if k is None:
        if isinstance(o, (Sym, App)):
            return App("cut", (Tup((X(o),)), lo, hi))
        I.throw("TypeError", "object is not sliceable")
    segs = I.iterate(o)
    out = cut(I, segs, lo, hi, step)
    return I.new_list(out) if k == "list" else Tup(tuple(out))


def cut(I, segs, lo, hi, step):
    segs = tuple(segs)
    consts = all(x is None or isinstance(x, int) for x in (lo, hi, step))
    if all(isinstance(s, E) for s in segs) and consts:
        return segs[lo:hi:step]
    if lo in (None, 0) and hi is None and step in (None, 1):
        return segs
    if step == -1 and lo is None and hi is None:
        return rev_segs(segs)
    if step in (None, 1) and consts and any(isinstance(s, Star) for s in segs):
        if lo is not None and 0 < lo <= 4 and hi is None:
            return tuple(prefix_of(I, segs, lo)[1])
        if hi is not None and 0 <= hi <= 4 and lo in (None, 0):
            return tuple(prefix_of(I, segs, hi)[0])
        if lo is not None and -4 <= lo < 0 and hi is None:
            return rev_segs(prefix_of(I, rev_segs(segs), -lo)[0])
        if hi is not None and -4 <= hi < 0 and lo in (None, 0):
            return rev_segs(prefix_of(I, rev_segs(segs), -hi)[1])
    if step in (None, 1) and consts:
        # prefix of exact elements
        if hi is None and lo is not None and lo > 0:
            n = lo
            out = segs
            while n and out and isinstance(out[0], E):
                out = out[1:]
                n -= 1
            if n == 0:
                return out
            if n == 1 and len(out) >= 1 and isinstance(out[0], (X, Idx)):
                s = out[0]
                if isinstance(s, Idx):
                    if not I.seg_nonempty(s):
                        return cut(I, out[1:], n, None, None)
                    return (Idx(add(s.start, s.step), s.stop, s.step, s.make),) + out[1:]
            return (X(App("cut", (Tup(out), n, None))),)
        if hi is not None and hi >= 0 and lo in (None, 0):
            if len(segs) >= hi and all(isinstance(s, E) for s in segs[:hi]):
                return segs[:hi]
            return (X(App("cut", (Tup(segs), 0, hi))),)
        if hi is not None and hi < 0 and lo in (None, 0) and all(isinstance(s, E) for s in segs[hi:]) and len(segs) >= -hi:
            return segs[:hi]
        if lo is not None and lo < 0 and hi is None and all(isinstance(s, E) for s in segs[lo:]) and len(segs) >= -lo:
            return segs[lo:]
    return (X(App("cut", (Tup(segs), lo, hi, step))),)


def rev_segs(segs):
    out = []
    for s in reversed(tuple(segs)):
        if isinstance(s, E):
            out.append(s)
        elif isinstance(s, X):
            out.append(X(s.term, not s.rev))
        elif isinstance(s, Star):
            out.append(Star(s.sid, not s.rev))
        elif isinstance(s, Idx):
            if s.stop is None or abs(s.step) != 1:
                raise Unsupported("reversed range with a step")
            out.append(Idx(sub(s.stop, s.step), sub(s.start, s.step), -s.step, s.make))
    return tuple(out)


def setitem(I, o, k, v):
    if isinstance(o, Ref):
        r = I.rec(o)
        if r.kind == "dict":
            i = I.dict_find(r, k)
            r = I.w(o, "item assignment")
            items = list(r.extra or ())
            if i is None:
                items.append((k, v))
            else:
                items[i] = (items[i][0], v)
            r.extra = tuple(items)
            r.d["n"] = len(items)
            return
        if r.kind == "list":
            if isinstance(k, tuple):
                if k[1:] == (None, None, None):
                    segs = tuple(I.iterate(v))
                    I.w(o, "item assignment").segs = segs
                    return
                I.unsupported("slice assignment")
            if isinstance(k, int) and all(isinstance(s, E) for s in r.segs):
                if not -len(r.segs) <= k < len(r.segs):
                    I.throw("IndexError", "list assignment index out of range")
                r = I.w(o, "item assignment")
                s = list(r.segs)
                s[k] = E(v)
                r.segs = tuple(s)
                return
            if isinstance(k, int) and k < 0 and len(r.segs) >= -k and all(isinstance(s, E) for s in r.segs[k:]):
                r = I.w(o, "item assignment")
                s = list(r.segs)
                s[k] = E(v)
                r.segs = tuple(s)
                return
            if isinstance(k, int) and 0 <= k < len(r.segs) and all(isinstance(s, E) for s in r.segs[:k + 1]):
                r = I.w(o, "item assignment")
                s = list(r.segs)
                s[k] = E(v)
                r.segs = tuple(s)
                return
            I.unsupported("item assignment in a list of unknown length")
        if r.kind == "obj" and r.cls.lookup("__setitem__"):
            I.call(I.getattr(o, "__setitem__"), (k, v), {})
            return
    if isinstance(o, (Sym, App)):
        I.event("write", -1, "opaque", 0, show(o), "item", None)
        return
    I.throw("TypeError", "object does not support item assignment")


def delitem(I, o, k):
    r = I.rec(o)
    if r.kind == "dict":
        i = I.dict_find(r, k)
        if i is None:
            I.throw("KeyError", show(k))
        r = I.w(o, "del")
        r.extra = r.extra[:i] + r.extra[i + 1:]
        return
    if r.kind == "list":
        if isinstance(k, int) and all(isinstance(s, E) for s in r.segs):
            s = list(r.segs)
            del s[k]
            I.w(o, "del").segs = tuple(s)
            return
        if isinstance(k, tuple):
            if k[2] is None and k[3] is None and isinstance(k[1], int) and k[1] >= 0:
                I.w(o, "del").segs = tuple(cut(I, r.segs, None, k[1], None))
                return
            if k[1] is None and k[2] is None:
                I.w(o, "del").segs = ()
                return
            if k[1] is None and isinstance(k[2], int):
                I.w(o, "del").segs = tuple(cut(I, r.segs, k[2], None, None))
                return
            if isinstance(k[1], int) and k[1] < 0 and k[2] is None and all(isinstance(s, E) for s in r.segs[k[1]:]):
                I.w(o, "del").segs = r.segs[:k[1]]
                return
    I.unsupported("del of an item")


def dedup(I, segs):
    out = []
    for s in segs:
        if isinstance(s, E):
            if any(isinstance(t, E) and I.eq(t.v, s.v) for t in out):
                continue
            out.append(s)
        else:
            out.append(s if isinstance(s, X) and isinstance(s.term, App) and s.term.op == "dedup" else
                       X(App("dedup", (I.termify_seg(s),))))
    return out


# ---- methods ------------------------------------------------------------------------------------------------

def call_method(I, o, name, args, kw):
    if isinstance(o, str) or isinstance(o, (Sym, App)) and sort_of(o) in ("str", "stream"):
        return str_method(I, o, name, args, kw)
    if isinstance(o, Tup):
        return tuple_method(I, o, name, args)
    if isinstance(o, Cls):
        return cls_method(I, o, name, args, kw)
    if isinstance(o, (Sym, App)):
        return opaque_method(I, o, name, args, kw)
    if isinstance(o, Func):
        if name in ("__call__",):
            return I.call(o, args, kw)
        if name in ("cache_clear", "cache_info"):
            return None
        if name == "__get__":
            return Bound(args[0], o)
        I.throw("AttributeError", "function has no attribute " + name)
    if isinstance(o, (bool, int, Lin)):
        if name in ("__index__", "__int__"):
            return o
        if name == "__add__":
            return add(o, args[0])
        I.unsupported("method %s of int" % name)
    r = I.rec(o)
    if r.kind == "list":
        return list_method(I, o, r, name, args, kw)
    if r.kind == "dict":
        return dict_method(I, o, r, name, args, kw)
    if r.kind == "set":
        return set_method(I, o, r, name, args)
    if r.kind == "iter":
        if name == "__next__":
            return next_(I, o)
        if name == "__iter__":
            return o
        if name == "close":
            return None
        I.unsupported("iterator method " + name)
    if r.kind == "obj":
        if name == "__init__":
            if r.cls.issub(I.exc_cls["BaseException"]):
                I.w(o).d["args"] = Tup(tuple(E(a) for a in args))
                return None
            if r.cls.dc() is not None:
                init_fields(I, o, r.cls, args, kw)
                return None
            return None
        if name == "_replace" or name == "__replace__":
            n = I.alloc("obj", cls=r.cls, d=dict(r.d))
            for k, v in kw.items():
                if k not in r.d:
                    I.throw("ValueError", "unexpected field " + k)
                I.rec(n).d[k] = v
            return n
        if name == "_asdict":
            return I.alloc("dict", d={}, extra=tuple((f[0], r.d[f[0]]) for f in r.cls.fields()))
        if name == "__str__":
            return to_str(I, o)
        if name == "__repr__":
            return to_repr(I, o)
        if name == "__eq__":
            return I.eq(o, args[0])
        if name == "__hash__":
            return App("hash", (I.termify(o),))
        if name == "with_traceback":
            return o
        if name == "__init_subclass__":
            return None
        if name in ("index", "count", "__iter__"):
            return tuple_method(I, Tup(tuple(E(x) for x in I.as_tuple(o))), name, args)
    I.unsupported("method %s of %s" % (name, show(o)))


def cls_method(I, o, name, args, kw):
    if name == "_make":
        return I.call(o, tuple(s.v for s in I.iterate(args[0])), {})
    if name == "__new__":
        return I.alloc("obj", cls=args[0].info, d={})
    if name == "__init__":
        if o.info.issub(I.exc_cls["BaseException"]):
            I.w(args[0]).d["args"] = Tup(tuple(E(a) for a in args[1:]))
            return None
        if o.info.dc() is not None:
            init_fields(I, args[0], o.info, args[1:], kw)
        return None
    if name == "__repr__":
        return to_repr(I, args[0])
    if name in ("__str__",):
        return to_str(I, args[0])
    if name == "__init_subclass__":
        return None
    I.unsupported("class method " + name)


def tuple_method(I, o, name, args):
    if name == "__iter__":
        return I.new_iter(o.segs)
    if name == "__len__":
        return length(I, o)
    if name == "__getitem__":
        return getitem(I, o, args[0])
    if name == "index":
        for i, s in enumerate(o.segs):
            if not isinstance(s, E):
                I.unsupported("tuple.index")
            if I.eq(s.v, args[0]):
                return i
        I.throw("ValueError", "not in tuple")
    if name == "count":
        return sum(1 for s in o.segs if I.eq(s.v, args[0]))
    if name == "__add__":
        return binop(I, "Add", o, args[0])
    I.throw("AttributeError", "tuple has no attribute " + name)


def list_method(I, o, r, name, args, kw):
    if name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear", "__iadd__", "appendleft", "popleft",
                "extendleft"):
        if name == "append":
            w = I.w(o, name)
            w.segs = w.segs + (E(args[0]),)
            return None
        if name in ("extend", "__iadd__"):
            segs = tuple(I.iterate(args[0]))
            w = I.w(o, name)
            w.segs = w.segs + segs
            return None if name == "extend" else o
        if name == "insert" or name == "appendleft":
            k, v = args if name == "insert" else (0, args[0])
            w = I.w(o, name)
            if k == 0:
                w.segs = (E(v),) + w.segs
                return None
            if all(isinstance(s, E) for s in w.segs) and isinstance(k, int):
                s = list(w.segs)
                s.insert(k, E(v))
                w.segs = tuple(s)
                return None
            if isinstance(k, int) and 0 <= k <= len(w.segs) and all(isinstance(s, E) for s in w.segs[:k]):
                w.segs = w.segs[:k] + (E(v),) + w.segs[k:]
                return None
            if same(k, length(I, o)):
                w.segs = w.segs + (E(v),)
                return None
            I.unsupported("list.insert")
        if name == "extendleft":
            segs = rev_segs(I.iterate(args[0]))
            w = I.w(o, name)
            w.segs = segs + w.segs
            return None
        if name in ("pop", "popleft"):
            k = 0 if name == "popleft" else (args[0] if args else -1)
            w = I.w(o, name)
            if not w.segs:
                I.throw("IndexError", "pop from empty list")
            if k == -1:
                if isinstance(w.segs[-1], E):
                    v = w.segs[-1].v
                    w.segs = w.segs[:-1]
                    return v
                s = w.segs[-1]
                if isinstance(s, X) and len(w.segs) == 1:
                    if not I.seg_nonempty(s):
                        I.throw("IndexError", "pop from empty list")
                    w.segs = (X(App("cut", (Tup((s,)), 0, -1))),)
                    return App("item", (s.term, -1))
                w.segs = rev_segs(force_index(I, rev_segs(w.segs), 0))
                v = w.segs[-1].v
                w.segs = w.segs[:-1]
                return v
            if k == 0:
                out = force_index(I, w.segs, 0)
                w.segs = tuple(out[1:])
                return out[0].v
            if isinstance(k, int) and all(isinstance(s, E) for s in w.segs):
                s = list(w.segs)
                try:
                    v = s.pop(k).v
                except IndexError:
                    I.throw("IndexError", "pop index out of range")
                w.segs = tuple(s)
                return v
            I.unsupported("list.pop")
        if name == "reverse":
            w = I.w(o, name)
            w.segs = rev_segs(w.segs)
            return None
        if name == "sort":
            segs = sort_segs(I, r.segs, kw)
            I.w(o, name).segs = segs
            return None
        if name == "clear":
            I.w(o, name).segs = ()
            return None
        if name == "remove":
            for i, s in enumerate(r.segs):
                if not isinstance(s, E):
                    I.unsupported("list.remove")
                if I.eq(s.v, args[0]):
                    I.w(o, name).segs = r.segs[:i] + r.segs[i + 1:]
                    return None
            I.throw("ValueError", "not in list")
    if name == "copy":
        return I.new_list(r.segs)
    if name == "index":
        for i, s in enumerate(r.segs):
            if not isinstance(s, E):
                I.unsupported("list.index")
            if I.eq(s.v, args[0]):
                return i
        I.throw("ValueError", "not in list")
    if name == "count":
        return sum(1 for s in r.segs if I.eq(s.v, args[0]))
    if name == "__len__":
        return length(I, o)
    if name == "__iter__":
        return I.new_iter(r.segs)
    if name == "__getitem__":
        return getitem(I, o, args[0])
    if name == "__contains__":
        return I.contains(args[0], o)
    I.throw("AttributeError", "list has no attribute " + name)


def dict_method(I, o, r, name, args, kw):
    if name in ("get", "setdefault", "pop"):
        i = I.dict_find(r, args[0])
        if i is not None:
            v = I.rec(o).extra[i][1]
            if name == "pop":
                w = I.w(o, name)
                w.extra = w.extra[:i] + w.extra[i + 1:]
            return v
        d = args[1] if len(args) > 1 else None
        if name == "setdefault":
            setitem(I, o, args[0], d)
        if name == "pop" and len(args) < 2:
            I.throw("KeyError", show(args[0]))
        return d
    if name == "items":
        return I.new_list(tuple(E(Tup((E(k), E(v)))) for k, v in r.extra or ()))
    if name == "keys":
        return I.new_list(tuple(E(k) for k, v in r.extra or ()))
    if name == "values":
        return I.new_list(tuple(E(v) for k, v in r.extra or ()))
    if name == "update":
        if args:
            for k, v in I.rec(args[0]).extra or ():
                setitem(I, o, k, v)
        for k, v in kw.items():
            setitem(I, o, k, v)
        return None
    if name == "copy":
        return I.alloc("dict", d={}, extra=r.extra)
    if name == "clear":
        I.w(o, name).extra = ()
        return None
    if name == "__contains__":
        return I.contains(args[0], o)
    if name == "__getitem__":
        return getitem(I, o, args[0])
    if name == "popitem":
        if not r.extra:
            I.throw("KeyError", "empty")
        k, v = r.extra[-1]
        w = I.w(o, name)
        w.extra = w.extra[:-1]
        return Tup((E(k), E(v)))
    I.unsupported("dict." + name)


def set_method(I, o, r, name, args):
    if name == "add":
        segs = tuple(dedup(I, r.segs + (E(args[0]),)))
        if segs != r.segs:
            I.w(o, name).segs = segs
        return None
    if name == "update":
        segs = tuple(dedup(I, r.segs + tuple(I.iterate(args[0]))))
        I.w(o, name).segs = segs
        return None
    if name == "__contains__":
        return I.contains(args[0], o)
    if name == "copy":
        return I.alloc("set", segs=r.segs)
    if name == "union":
        segs = r.segs
        for a in args:
            segs = segs + tuple(I.iterate(a))
        return I.alloc("set", segs=tuple(dedup(I, segs)))
    I.unsupported("set." + name)


MATCHERS = ("match", "fullmatch", "search")


def opaque_method(I, o, name, args, kw):
    """A method of an unknown object: regular expressions are normalised, the rest is a user call."""
    if isinstance(o, App) and o.op == "call" and name in ("parse_fn", "parse_fast_fn", "to_fns"):
        return I.opaque_parser(I, o, name, args, kw)
    if name in MATCHERS and args:
        s = args[0]
        p = args[1] if len(args) > 1 else kw.get("pos", 0)
        e = args[2] if len(args) > 2 else kw.get("endpos")
        if I.match_limit is not None and sum(1 for x in atoms(p) if isinstance(x, App) and x.op == "mcall" and x.args[1] == "end" and
                                             len(x.args) == 2) >= I.match_limit:
            from .interp import Dead
            raise Dead()
        if isinstance(s, App) and s.op == "slice" and name != "search":
            I.event("regex-slice", s)
        a = (o, name, s, p) if e is None else (o, name, s, p, e)
        t = App("mcall", a)
        I.event("regex", t)
        return t
    if isinstance(o, App) and o.op == "mcall" and o.args[1] in MATCHERS:
        if name == "group":
            if len(args) > 1:
                return Tup(tuple(E(opaque_method(I, o, name, (a,), {})) for a in args))
            g = args[0] if args else 0
            if type(g) is int and g == 0 and o.args[1] != "search":
                return App("slice", (o.args[2], o.args[3], App("mcall", (o, "end"))))
            return App("mcall", (o, "group", g))
        if name == "__getitem__":
            return opaque_method(I, o, "group", args, {})
        if name in ("end", "start"):
            if args and args[0] != 0:
                return App("mcall", (o, name, args[0]))
            if name == "start" and o.args[1] != "search":
                return o.args[3]
            return App("mcall", (o, name))
        if name == "span" and (not args or args[0] == 0):
            return Tup((E(opaque_method(I, o, "start", (), {})), E(App("mcall", (o, "end")))))
        if name == "groupdict":
            return App("mcall", (o, "groupdict"))
    if name == "__len__" and not args:
        return slen(o)
    a = tuple(I.termify(x) for x in args) + tuple(("kw", k, I.termify(v)) for k, v in sorted(kw.items()))
    t = App("mcall", (o, name) + a)
    I.event("user", App("attr", (o, name)), a, args)
    if I.raise_user and I.choose(2, ["%s returns" % show(t), "%s raises" % show(t)]):
        exc = App("userexc", (t,))
        I.event("userraise", exc)
        from .interp import Rz
        raise Rz(exc)
    return t


# ---- built-in functions -------------------------------------------------------------------------------------

def length(I, v):
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Idx):
        n = sub(v.stop, v.start) if v.step > 0 else sub(v.start, v.stop)
        return n
    if isinstance(v, (Sym, App)):
        if I.st.facts.lit(("none", v)) is True:
            I.throw("TypeError", "None has no len()")
        if isinstance(v, App) and v.op == "lines":
            return add(newline_count(I, v.args[0], 0, slen(v.args[0])), 1)
        return slen(v)
    c = I.obj_cls(v)
    if c is not None and c.lookup("__len__"):
        return I.call(I.getattr(v, "__len__"), (), {})
    if c is not None and c.is_tuple():
        return len(c.fields())
    if I.is_kind(v, "dict"):
        return len(I.rec(v).extra or ())
    if isinstance(v, Tup):
        segs = v.segs
    elif isinstance(v, Ref) and I.rec(v).kind in ("list", "set"):
        segs = I.rec(v).segs
    else:
        I.throw("TypeError", "object has no len()")
    n = 0
    for s in segs:
        if isinstance(s, E):
            n = add(n, 1)
        elif isinstance(s, X):
            n = add(n, slen(s.term))
        elif isinstance(s, Star):
            n = add(n, App("len", (Star(s.sid),)))
        else:
            n = add(n, length(I, s))
    if any(isinstance(s, Star) for s in segs):
        I.st.vars[("len", n)] = tuple(segs)
    return n


def places(I, segs, start):
    """The indices of a list with a part of unknown length: each stands for the element it selects."""
    out = []
    for i, s in enumerate(segs):
        if isinstance(s, E):
            out.append(E(i if all(isinstance(q, E) for q in segs[:i]) else BMeth(Tup((s, E(i))), "$at")))
        elif isinstance(s, Star):
            acc = I.new_list()

            def body(v):
                w = I.w(acc)
                w.segs = w.segs + (E(BMeth(Tup((E(v), s)), "$at")),)
            frame_acc(I, acc, lambda: _l.one(I, s, body, None))
            out.extend(I.rec(acc).segs)
        else:
            I.unsupported("indices of a list of unknown length")
    return tuple(out[start:]) if all(isinstance(s, E) for s in segs[:start]) else I.unsupported("indices from the middle of a list")


def next_(I, it, default=None, has_default=False):
    r = I.rec(it)
    c = I.obj_cls(it)
    if c is not None:
        from .interp import Rz
        try:
            return I.call(I.getattr(it, "__next__"), (), {})
        except Rz as e:
            if has_default and I.exc_name(e.exc) == "StopIteration":
                return default
            raise
    if r.kind != "iter":
        I.throw("TypeError", "object is not an iterator")
    while True:
        segs = I.rec(it).segs
        if not segs:
            if has_default:
                return default
            I.throw("StopIteration")
        s = segs[0]
        if isinstance(s, E):
            I.w(it, "next").segs = segs[1:]
            return s.v
        if isinstance(s, Star) and any(len(c.segs) != 1 for c in I.star_cases(s)):
            return first_of_star(I, it, s, segs, default, has_default)
        if I.seg_nonempty(s):
            first, rest = _l.split_first(I, s)
            I.w(it, "next").segs = tuple(rest) + segs[1:]
            return first[0].v
        I.w(it, "next").segs = segs[1:]


def first_of_star(I, it, s, segs, default, has_default):
    """The first element produced by a loop some of whose iterations produce nothing."""
    cases = I.star_cases(s)
    prod = [c for c in cases if c.segs]
    if any(len(c.segs) != 1 or not isinstance(c.segs[0], E) for c in prod):
        I.unsupported("first element of a nested loop")
    k = I.choose(len(prod) + 1, ["an element of %s" % show(s)] * len(prod) + ["%s produces nothing" % show(s)])
    if k == len(prod):
        I.event("first", s.sid, None)
        I.w(it, "next").segs = segs[1:]
        if segs[1:]:
            return next_(I, it, default, has_default)
        if has_default:
            return default
        I.throw("StopIteration")
    c = prod[k]
    if not _l.assume_case(I, c):
        from .interp import Dead
        raise Dead()
    I.event("first", s.sid, k)
    I.w(it, "next").segs = (X(App("rest", (s.sid,))),) + segs[1:]
    return c.segs[0].v


def instance(I, v, c):
    """isinstance(v, c) for one class; None if unknown."""
    if isinstance(c, Cls):
        oc = I.obj_cls(v)
        if oc is not None:
            return oc.issub(c.info)
        if isinstance(v, App) and v.op in ("res", "rep") and "exp" in str(v.args[1 if v.op == "res" else 2]):
            return False  # the descriptions of a part are a plain collection; nested scenarios have the combined ones
        if isinstance(v, (Sym, App)):
            return I.lit(("isinst", v, c.info.name), "%s is a %s" % (show(v), c.info.name))
        return False
    if isinstance(c, Builtin):
        n = c.name
        if n == "object":
            return True
        oc = I.obj_cls(v)
        if n == "tuple":
            return isinstance(v, Tup) or (oc is not None and oc.is_tuple()) or \
                (isinstance(v, (Sym, App)) and sort_of(v) == "any" and I.lit(("isinst", v, n), "%s is a tuple" % show(v)))
        if n == "list":
            if isinstance(v, Ref):
                return I.rec(v).kind == "list"
        if n == "dict" and isinstance(v, Ref):
            return I.rec(v).kind == "dict"
        if n == "set" and isinstance(v, Ref):
            return I.rec(v).kind == "set"
        if n == "type":
            return isinstance(v, (Cls, Builtin))
        s = sort_of(v) if not isinstance(v, (Ref, Tup, Func, Bound, Cls)) else "ref"
        if s == "any":
            return I.lit(("isinst", v, n), "%s is a %s" % (show(v), n))
        if s == "stream":
            if n in ("str", "list", "tuple"):
                if I.text_stream is not None:
                    return (n == "str") == bool(I.text_stream)
                return I.lit(("isinst", v, n), "%s is a %s" % (show(v), n))
            return False
        return {"int": s in ("int", "bool"), "bool": s == "bool", "str": s == "str", "float": isinstance(v, float)}.get(n, False)
    if isinstance(c, Ext):
        n = c.name.split(".")[-1]
        if n in ("Callable",):
            return isinstance(v, (Func, Bound, Builtin, Partial, Cls)) or isinstance(v, (Sym, App)) and \
                I.lit(("isinst", v, n), "%s is callable" % show(v))
        if n in ("Sequence", "Sized", "Iterable", "Collection"):
            if isinstance(v, Tup) or I.is_kind(v, "list") or sort_of(v) in ("str", "stream"):
                return True
        if n in ("Iterator", "Generator"):
            return I.is_kind(v, "iter") or isinstance(v, (Sym, App)) and sort_of(v) == "any" and \
                I.lit(("isinst", v, n), "%s is an iterator" % show(v))
        if n == "NoneType":
            return I.is_none(v)
        if isinstance(v, (Sym, App)):
            return I.lit(("isinst", v, n), "%s is a %s" % (show(v), n))
        return False
    I.unsupported("isinstance with %s" % show(c))


def isinstance_(I, v, c):
    if isinstance(c, Tup):
        return any(isinstance_(I, v, s.v) for s in c.segs)
    return instance(I, v, c)


def type_of(I, v):
    if v is None:
        return Ext("NoneType")
    if isinstance(v, bool):
        return Builtin("bool")
    if isinstance(v, int) or isinstance(v, Lin):
        return Builtin("int")
    if isinstance(v, str):
        return Builtin("str")
    if isinstance(v, float):
        return Builtin("float")
    if isinstance(v, Tup):
        return Builtin("tuple")
    if isinstance(v, (Func, Bound)):
        return Ext("function")
    if isinstance(v, Ref):
        r = I.rec(v)
        return Cls(r.cls) if r.kind == "obj" else Builtin(r.kind)
    if isinstance(v, Cls):
        return Builtin("type")
    s = sort_of(v)
    if s in ("int", "str", "bool"):
        return Builtin(s)
    return App("typeof", (v,))


def min_max(I, name, args, kw):
    key = kw.get("key")
    if len(args) == 1:
        segs = list(I.iterate(args[0]))
    else:
        segs = [E(a) for a in args]
    has_default = "default" in kw
    if not segs:
        if has_default:
            return kw["default"]
        I.throw("ValueError", name + "() of an empty sequence")

    def k(v):
        return v if key is None else I.call(key, (v,), {})
    if all(isinstance(s, E) for s in segs):
        best, bk = segs[0].v, k(segs[0].v)
        for s in segs[1:]:
            kk = k(s.v)
            if I.order("Lt" if name == "min" else "Gt", kk, bk):
                best, bk = s.v, kk
        return best
    # unknown length: the selection ranges over all segments
    if not I.segs_truth(tuple(segs)):
        if has_default:
            return kw["default"]
        I.throw("ValueError", name + "() of an empty sequence")
    cand = []
    for s in segs:
        if isinstance(s, Star):
            cases = [c for c in I.star_cases(s) if c.segs]
            for c in cases:
                cand.append((s, c))
        else:
            cand.append((s, None))
    i = I.choose(len(cand), ["%s selects %s" % (name, show(s)) for s, _ in cand])
    s, c = cand[i]
    if isinstance(s, E):
        v = s.v
    elif isinstance(s, X):
        v = App("elem", (s.term,))
    elif isinstance(s, Idx):
        I.unsupported("min of a range")
    else:
        if len(c.segs) != 1 or not isinstance(c.segs[0], E):
            I.unsupported("selection from a nested list")
        if not _l.assume_case(I, c):
            from .interp import Dead
            raise Dead()
        v = c.segs[0].v
    kv = k(v)
    I.event("select", name, tuple(segs), v, kv if not isinstance(kv, Ref) else I.termify(kv))
    return v


def sort_segs(I, segs, kw):
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if rev is not False:
        rev = I.truth(rev)
    segs = tuple(segs)
    if all(isinstance(s, E) for s in segs):
        items = [(s.v if key is None else I.call(key, (s.v,), {}), s) for s in segs]
        out = []
        for k, s in items:
            j = len(out)
            while j > 0 and I.order("Gt" if rev else "Lt", k, out[j - 1][0]):
                j -= 1
            out.insert(j, (k, s))
        return tuple(s for _, s in out)
    sample = []
    for s in segs:
        if isinstance(s, Star):
            for c in I.star_cases(s):
                if len(c.segs) == 1 and isinstance(c.segs[0], E):
                    v = c.segs[0].v
                    kv = v if key is None else I.call(key, (v,), {})
                    sample.append(I.termify(kv) if isinstance(kv, Ref) else kv)
    I.event("sort", segs, rev, tuple(sample))
    return (X(App("sorted", (Tup(segs), rev))),)


def range_(I, args):
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        a, b, st = args[0], args[1], 1
    else:
        a, b, st = args
    if not isinstance(st, int):
        I.unsupported("range with a computed step")
    if st == 0:
        I.throw("ValueError", "range() arg 3 must not be zero")
    if isinstance(a, int) and st == 1 and not isinstance(b, int) and ("len", b) in I.st.vars:
        return Tup(places(I, I.st.vars["len", b], a))
    for x in (a, b):
        if not (is_int(x) or isinstance(x, bool)) and not isinstance(x, (App, Sym)):
            I.throw("TypeError", "range() needs integers")
    if isinstance(a, int) and isinstance(b, int) and len(range(a, b, st)) <= max(64, I.peel):
        return Tup(tuple(E(i) for i in range(a, b, st)))
    return Idx(a, b, st, ("id",))


def zip_(I, its):
    seqs = [tuple(I.iterate(i)) for i in its]
    out = []
    while True:
        if any(not s for s in seqs):
            return tuple(out)
        if all(isinstance(s[0], E) for s in seqs):
            out.append(E(Tup(tuple(E(s[0].v) for s in seqs))))
            seqs = [s[1:] for s in seqs]
            continue
        break
    if all(len(s) == 1 and isinstance(s[0], Idx) for s in seqs):
        idx = [s[0] for s in seqs]
        n0 = next((i for i in idx if i.stop is not None), None)
        if n0 is not None and all(i.step == 1 for i in idx):
            ln = sub(n0.stop, n0.start)
            for i in idx:
                if i.stop is not None and not same(sub(i.stop, i.start), ln):
                    a = sub(i.stop, i.start)
                    if I.ge0(sub(a, ln)):
                        continue
                    ln = a
            makes = []
            for i in idx:
                makes.append(shift_make(i.make, sub(i.start, idx[0].start)))
            return tuple(out) + (Idx(idx[0].start, add(idx[0].start, ln), 1, ("tup", tuple(makes))),)
    # one element of each generic segment at a time
    if all(len(s) == 1 for s in seqs) and sum(1 for s in seqs if isinstance(s[0], (Star, X))) == 1:
        if all(isinstance(s[0], (Star, X)) or (isinstance(s[0], Idx) and s[0].stop is None) for s in seqs):
            k = next(i for i, s in enumerate(seqs) if isinstance(s[0], (Star, X)))
            acc = I.new_list()
            cnt = App("counter", (show(seqs[k][0]),))

            def body(v):
                w = I.w(acc)
                w.segs = w.segs + (E(Tup(tuple(E(v) if i == k else E(App("index", (cnt,))) for i in range(len(seqs))))),)
            _l.one(I, seqs[k][0], body, None)
            return tuple(out) + I.rec(acc).segs
    if any(len(s) == 1 and isinstance(s[0], Star) for s in seqs) and len(seqs) == 2:
        # lists built by the same loop, or a list and itself shifted
        a, b = seqs
        return tuple(out) + (X(App("zip", (Tup(a), Tup(b)))),)
    if len(seqs) == 2 and all(isinstance(x, (E, X, Star, Idx)) for s in seqs for x in s):
        return tuple(out) + (X(App("zip", tuple(Tup(s) for s in seqs))),)
    I.unsupported("zip of lists of unknown length")


def shift_make(make, d):
    if same(d, 0):
        return make
    if make[0] == "id":
        return ("off", d)
    if make[0] == "off":
        return ("off", add(make[1], d))
    if make[0] == "item":
        return ("item", App("slice", (make[1], d, None)))
    if make[0] == "tup":
        return ("tup", tuple(shift_make(m, d) for m in make[1]))
    return make


def enumerate_(I, it, start=0):
    segs = I.iterate(it)
    out = []
    n = start
    for i, s in enumerate(segs):
        if isinstance(s, E):
            out.append(E(Tup((E(n), E(s.v)))))
            n = add(n, 1)
        elif isinstance(s, Idx) and s.step == 1:
            out.append(Idx(s.start, s.stop, 1, ("tup", (shift_make(("id",), sub(n, s.start)), s.make))))
            n = add(n, sub(s.stop, s.start)) if s.stop is not None else None
        else:
            acc = I.new_list()
            cnt = App("index", (show(s),))

            def body(v):
                w = I.w(acc)
                w.segs = w.segs + (E(Tup((E(cnt), E(v)))),)
            _l.one(I, s, body, None)
            out.extend(I.rec(acc).segs)
            n = App("arith", ("Add", n, App("len", (s if not isinstance(s, X) else s.term,))))
    return tuple(out)


def map_(I, fn, its):
    segs = I.iterate(its[0]) if len(its) == 1 else zip_(I, its)
    acc = I.new_list()

    def body(v):
        r = I.call(fn, (v,) if len(its) == 1 else tuple(I.as_tuple(v)), {})
        w = I.w(acc)
        w.segs = w.segs + (E(r),)
    frame_acc(I, acc, lambda: [_l.one(I, s, body, None) for s in segs])
    return I.rec(acc).segs


def frame_acc(I, acc, fn):
    """Run fn with acc reachable from a frame on the stack (so that loops generalise it)."""
    from .prog import FuncCode
    fr = I.alloc("frame", d={"$acc": acc}, extra=(I.fr, _comp_code(I)))
    saved = I.fr
    I.fr = fr
    I.stack.append(fr)
    try:
        return fn()
    finally:
        I.stack.pop()
        I.fr = saved


_cc = {}


def _comp_code(I):
    from .prog import FuncCode
    m = I.code.module
    if m.name not in _cc:
        c = FuncCode(None, "<comp>", "<comp>", m)
        _cc[m.name] = c
    return _cc[m.name]


def filter_(I, fn, it):
    segs = I.iterate(it)
    acc = I.new_list()

    def body(v):
        if I.truth(v if fn is None else I.call(fn, (v,), {})):
            w = I.w(acc)
            w.segs = w.segs + (E(v),)
    frame_acc(I, acc, lambda: [_l.one(I, s, body, None) for s in segs])
    return I.rec(acc).segs


def any_all(I, name, it):
    want = name == "any"
    for s in I.iterate(it):
        if isinstance(s, E):
            if I.truth(s.v) == want:
                return want
        elif isinstance(s, Star):
            vals = []
            for c in I.star_cases(s):
                for q in c.segs:
                    vals.append(q.v if isinstance(q, E) else None)
            if all(isinstance(v, bool) and v != want for v in vals):
                continue
            key = ("quant", name, s.sid)
            prev = I.st.facts.lit(key)
            # decide whether some element has the value
            k = [c for c in I.star_cases(s) if any(isinstance(q, E) and (q.v is want or not isinstance(q.v, bool))
                                                   for q in c.segs)]
            if prev is None:
                prev = I.choose(2, ["%s element %s" % ("some", want), "no element %s" % want]) == 0
                I.st.facts.set(key, prev)
            if prev:
                if not k:
                    from .interp import Dead
                    raise Dead()
                return want
        else:
            if I.lit(("quant", name, show(s)), "%s(%s)" % (name, show(s))) == want:
                return want
    return not want


def reduce_(I, fn, it, init=None, has_init=False):
    segs = list(I.iterate(it))
    if not has_init:
        if not segs:
            I.throw("TypeError", "reduce() of empty iterable with no initial value")
        segs = force_index(I, tuple(segs), 0)
        init = segs[0].v
        segs = segs[1:]
    box = I.alloc("list", segs=(E(init),))

    def body(v):
        cur = I.rec(box).segs[0].v
        r = I.call(fn, (cur, v), {})
        I.w(box).segs = (E(r),)
    frame_acc(I, box, lambda: [_l.one(I, s, body, None) for s in segs])
    return I.rec(box).segs[0].v


def call_builtin(I, name, args, kw):
    if name == "len":
        return length(I, args[0])
    if name == "type" and len(args) == 1:
        return type_of(I, args[0])
    if name == "isinstance":
        return isinstance_(I, args[0], args[1])
    if name == "issubclass":
        if isinstance(args[0], Cls) and isinstance(args[1], Cls):
            return args[0].info.issub(args[1].info)
        I.unsupported("issubclass")
    if name == "range":
        return range_(I, args)
    if name == "list":
        return I.new_list(I.iterate(args[0]) if args else ())
    if name == "tuple":
        return Tup(tuple(I.iterate(args[0])) if args else ())
    if name in ("set", "frozenset"):
        return I.alloc("set", segs=tuple(dedup(I, I.iterate(args[0]) if args else ())))
    if name == "dict":
        r = I.alloc("dict", d={}, extra=())
        if args:
            if I.is_kind(args[0], "dict"):
                I.rec(r).extra = I.rec(args[0]).extra
            else:
                for s in I.iterate(args[0]):
                    if not isinstance(s, E):
                        I.unsupported("dict of unknown length")
                    k, v = [q.v for q in I.iterate(s.v)]
                    setitem(I, r, k, v)
        for k, v in kw.items():
            setitem(I, r, k, v)
        return r
    if name == "str":
        return to_str(I, args[0]) if args else ""
    if name == "repr":
        return to_repr(I, args[0])
    if name == "format":
        return fmt_value(I, args[0], "", args[1] if len(args) > 1 else "")
    if name == "bool":
        return I.truth(args[0]) if args else False
    if name == "int":
        v = args[0] if args else 0
        if isinstance(v, bool):
            return int(v)
        if is_int(v):
            return v
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                I.throw("ValueError", "invalid literal for int()")
        if isinstance(v, (Sym, App)):
            if sort_of(v) == "bool":
                return 1 if I.truth(v) else 0
            return App("lin", ("int", v))
        I.throw("TypeError", "int()")
    if name == "float":
        return args[0] if isinstance(args[0], float) else App("call", (Builtin("float"), I.termify(args[0])))
    if name in ("min", "max"):
        return min_max(I, name, args, kw)
    if name == "sum":
        acc = args[1] if len(args) > 1 else kw.get("start", 0)
        for s in I.iterate(args[0]):
            if isinstance(s, E):
                acc = binop(I, "Add", acc, s.v)
            else:
                t = App("sum", (I.termify_seg(s) if not isinstance(s, Idx) else show(s),))
                if isinstance(s, Star):
                    cs = [q for c in I.star_cases(s) for q in c.segs]
                    t = App("sum", (s, tuple(show(q) for q in cs)))
                if seq_kind(I, acc):
                    acc = I.new_list(tuple(I.iterate(acc)) + (X(App("concat", (t,))),))
                else:
                    acc = add(acc, t)
        return acc
    if name == "sorted":
        return I.new_list(sort_segs(I, I.iterate(args[0]), kw))
    if name in ("any", "all"):
        return any_all(I, name, args[0])
    if name == "zip":
        return I.new_iter(zip_(I, args))
    if name == "enumerate":
        return I.new_iter(enumerate_(I, args[0], args[1] if len(args) > 1 else kw.get("start", 0)))
    if name == "reversed":
        if isinstance(args[0], Ref) and I.rec(args[0]).kind == "iter":
            I.throw("TypeError", "iterator is not reversible")
        return I.new_iter(rev_segs(I.iterate(args[0])))
    if name == "map":
        return I.new_iter(map_(I, args[0], args[1:]))
    if name == "filter":
        return I.new_iter(filter_(I, args[0], args[1]))
    if name == "iter":
        if len(args) == 2:
            out = []
            while True:
                v = I.call(args[0], (), {})
                if I.eq(v, args[1]):
                    return I.new_iter(tuple(out))
                out.append(E(v))
                if len(out) > 100:
                    I.unsupported("iter with a sentinel")
        v = args[0]
        if I.is_kind(v, "iter"):
            return v
        c = I.obj_cls(v)
        if c is not None and c.lookup("__iter__"):
            return I.call(I.getattr(v, "__iter__"), (), {})
        return I.new_iter(I.iterate(v))
    if name == "next":
        return next_(I, args[0], args[1] if len(args) > 1 else None, len(args) > 1)
    if name == "getattr":
        if not isinstance(args[1], str):
            I.unsupported("getattr with a computed name")
        if len(args) > 2:
            return I.getattr(args[0], args[1], args[2], True)
        return I.getattr(args[0], args[1])
    if name == "hasattr":
        mark = Sym("$missing")
        v = I.getattr(args[0], args[1], mark, True)
        if isinstance(v, BMeth) and isinstance(args[0], Ref) and I.rec(args[0]).kind in ("list", "dict"):
            return args[1] in dir([] if I.rec(args[0]).kind == "list" else {})
        return v is not mark and v != mark
    if name == "setattr":
        I.setattr(args[0], args[1], args[2])
        return None
    if name == "callable":
        v = args[0]
        if isinstance(v, (Func, Bound, Cls, Builtin, Partial, BMeth, Ext)):
            return True
        if isinstance(v, (Sym, App)):
            return I.lit(("callable", v), "%s is callable" % show(v))
        c = I.obj_cls(v)
        return c is not None and c.lookup("__call__") is not None
    if name == "abs":
        v = args[0]
        if isinstance(v, (int, float)):
            return abs(v)
        return v if I.ge0(v) else scale(v, -1)
    if name == "print":
        I.event("print", *[I.termify(a) for a in args])
        return None
    if name == "id":
        return App("id", (show(args[0]),))
    if name == "hash":
        return App("hash", (I.termify(args[0]),))
    if name == "object":
        return I.alloc("list")
    if name == "divmod":
        return Tup((E(binop(I, "FloorDiv", *args)), E(binop(I, "Mod", *args))))
    if name == "property":
        return App("property", tuple(args))
    if name in ("staticmethod", "classmethod"):
        return App(name, (args[0],))
    if name == "super":
        return App("super", (args[0], args[1]))
    if name == "slice":
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return ("slice", a[0], a[1], a[2])
    if name in ("ord", "chr", "round", "pow", "bin", "hex", "ascii"):
        if all(is_const(a) for a in args):
            return {"ord": ord, "chr": chr, "round": round, "pow": pow, "bin": bin, "hex": hex, "ascii": ascii}[name](*args)
        return App("lin" if name in ("ord", "round") else "call", (name,) + tuple(args))
    if name == "__oracle__":
        return I.oracle(I, *args)
    if name == "__spec__":
        return I.world.spec_oracle(*args)
    if name == "__col__":
        return App("attr", (App("LOC", (args[0],)), "col"))
    if name == "__phase__":
        I.st.phase = args[0]
        return None
    if name == "__note__":
        I.event("note", *args)
        return None
    if "." in name:
        t, m = name.split(".", 1)
        if t in ("str", "list", "dict", "tuple", "set") and args:
            if m == "fromkeys":
                r = I.alloc("dict", d={}, extra=())
                for s in I.iterate(args[0]):
                    if not isinstance(s, E):
                        return App("dedupdict", (Tup(tuple(I.termify_seg(x) for x in I.iterate(args[0]))),))
                    setitem(I, r, s.v, args[1] if len(args) > 1 else None)
                return r
            if m == "__new__":
                I.unsupported(name)
            return call_method(I, args[0], m, args[1:], kw)
        if t == "object" and m in ("__init__", "__setattr__", "__new__"):
            if m == "__setattr__":
                I.w(args[0], args[1]).d[args[1]] = args[2]
                return None
            if m == "__new__":
                return I.alloc("obj", cls=args[0].info, d={})
            return None
        if t == "property":
            pass
    I.unsupported("built-in " + name)


def init_fields(I, o, ci, args, kw):
    d = I.w(o).d
    args = list(args)
    kw = dict(kw)
    dc = ci.dc() or {}
    for n, has, opts in ci.fields():
        if opts.get("init") is False:
            if "default" in opts:
                d[n] = opts["default"]
            elif "default_factory" in opts:
                d[n] = I.call(opts["default_factory"], (), {})
            continue
        kwonly = opts.get("kw_only") or dc.get("kw_only")
        if args and not kwonly:
            d[n] = args.pop(0)
        elif n in kw:
            d[n] = kw.pop(n)
        elif "default" in opts:
            d[n] = opts["default"]
        elif "default_factory" in opts:
            d[n] = I.call(opts["default_factory"], (), {})
        else:
            I.throw("TypeError", "%s() missing argument %s" % (ci.name, n))
    if args or kw:
        I.throw("TypeError", "%s() got unexpected arguments" % ci.name)
    if ci.lookup("__post_init__") and ci.dc() is not None:
        I.call(I.getattr(o, "__post_init__"), (), {})


def cache_hit(I, old, new):
    """Does a stored argument stand for the new one?  (Equal numbers and strings are taken as interchangeable only if
    they are the same term: a hit and a miss cannot be told apart then.)"""
    if not isinstance(old, Ref) and not isinstance(new, Ref) and same(old, new):
        return True
    if sort_of(old) in ("str", "int", "bool", "stream") and sort_of(new) in ("str", "int", "bool", "stream"):
        return False
    return I.eq(old, new)


def call_cached(I, f, args, kw):
    key = ("cache", f.code.uid)
    args = tuple(args)
    kws = tuple(sorted(kw.items()))
    for a in args + tuple(v for _, v in kws):
        if isinstance(a, Ref) and (I.rec(a).kind in ("list", "dict", "set")):
            I.throw("TypeError", "unhashable argument of %s" % f.code.qual)
        if isinstance(a, (Sym, App)) and sort_of(a) == "any" and I.lit(("unhashable", a), "%s is unhashable" % show(a)):
            I.throw("TypeError", "unhashable argument of %s" % f.code.qual)
    entries = I.st.vars.get(key, ())
    for a0, k0, r0 in entries:
        if len(a0) == len(args) and [k for k, _ in k0] == [k for k, _ in kws]:
            if all(cache_hit(I, x, y) for x, y in zip(a0, args)) and all(cache_hit(I, x[1], y[1]) for x, y in zip(k0, kws)):
                return r0
    plain = Func(f.code, f.frame, f.defaults, f.kwdefaults, False)
    r = I.call_func(plain, list(args), kw)
    I.event("cached", f.code.qual, r if isinstance(r, Ref) else None)
    if isinstance(r, Ref):
        # the result outlives this run
        q = I.rec(r).copy(I.st.id)
        q.birth = 0
        I.st.heap[r.oid] = q
    I.st.vars[key] = I.st.vars.get(key, ()) + ((args, kws, r),)
    return r


# ---- library functions --------------------------------------------------------------------------------------

IDENTITY = {"typing.cast": 1, "typing_extensions.final": 0, "typing.final": 0, "abc.abstractmethod": 0,
            "typing.no_type_check": 0, "typing.runtime_checkable": 0, "typing_extensions.runtime_checkable": 0,
            "typing.overload": 0, "typing_extensions.override": 0, "typing.override": 0, "sys.intern": 0}


def call_ext(I, name, args, kw):
    if name in IDENTITY:
        return args[IDENTITY[name]]
    if name in ("dataclasses.dataclass",):
        def deco(c, opts):
            c.info.dataclass = {k: v for k, v in opts.items()}
            return c
        if args and isinstance(args[0], Cls):
            return deco(args[0], {})
        return App("extfn", ("dataclass", tuple(sorted(kw.items()))))
    if name == "dataclasses.field":
        return App("dcfield", tuple(sorted(kw.items())))
    if name in ("dataclasses.replace", "copy.replace"):
        o = args[0]
        r = I.rec(o)
        vals = {f[0]: r.d[f[0]] for f in r.cls.fields()}
        vals.update(kw)
        return I.call(Cls(r.cls), (), vals)
    if name == "dataclasses.astuple":
        r = I.rec(args[0])
        return Tup(tuple(E(r.d[f[0]]) for f in r.cls.fields()))
    if name == "functools.partial":
        return Partial(args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if name == "functools.reduce":
        return reduce_(I, args[0], args[1], args[2] if len(args) > 2 else None, len(args) > 2)
    if name in ("functools.lru_cache", "functools.cache"):
        if args and isinstance(args[0], Func):
            f = args[0]
            return Func(f.code, f.frame, f.defaults, f.kwdefaults, True)
        return App("extfn", ("lru_cache",))
    if name == "functools.wraps":
        return App("extfn", ("identity",))
    if name == "functools.cmp_to_key":
        I.unsupported(name)
    if name == "functools.cached_property":
        return App("property", (args[0],))
    if name == "itertools.chain":
        out = ()
        for a in args:
            out += tuple([a]) if isinstance(a, (X, Star, Idx)) else tuple(I.iterate(a))
        return I.new_iter(out)
    if name == "itertools.chain.from_iterable":
        acc = I.new_list()

        def body(v):
            segs = I.iterate(v)
            w = I.w(acc)
            w.segs = w.segs + tuple(segs)
        segs = I.iterate(args[0])
        frame_acc(I, acc, lambda: [_l.one(I, s, body, None) for s in segs])
        return I.new_iter(I.rec(acc).segs)
    if name == "itertools.count":
        a = args[0] if args else kw.get("start", 0)
        st = args[1] if len(args) > 1 else kw.get("step", 1)
        if not isinstance(st, int):
            I.unsupported("count with a computed step")
        return I.new_iter((Idx(a, None, st, ("id",)),))
    if name == "itertools.repeat":
        if len(args) > 1 and isinstance(args[1], int):
            return I.new_iter(tuple(E(args[0]) for _ in range(args[1])))
        return I.new_iter((Idx(0, None if len(args) < 2 else args[1], 1, ("const", args[0])),))
    if name == "itertools.islice":
        segs = I.iterate(args[0])
        if len(args) == 2:
            lo, hi, st = None, args[1], None
        else:
            lo, hi = args[1], args[2]
            st = args[3] if len(args) > 3 else None
        if len(segs) == 1 and isinstance(segs[0], Idx) and segs[0].step == 1:
            s = segs[0]
            stop = s.stop
            if hi is not None:
                h = add(s.start, hi)
                stop = h if stop is None or I.ge0(sub(stop, h)) else stop
            return I.new_iter((Idx(add(s.start, lo or 0), stop, 1, s.make),))
        return I.new_iter(cut(I, segs, lo, hi, st))
    if name == "itertools.takewhile" or name == "itertools.dropwhile":
        segs = I.iterate(args[1])
        out = []
        for i, s in enumerate(segs):
            if not isinstance(s, E):
                I.unsupported(name + " over a list of unknown length")
            if not I.truth(I.call(args[0], (s.v,), {})):
                return I.new_iter(tuple(out) if name.endswith("takewhile") else segs[i:])
            out.append(s)
        return I.new_iter(tuple(out) if name.endswith("takewhile") else ())
    if name == "itertools.starmap":
        segs = I.iterate(args[1])
        acc = I.new_list()

        def body(v):
            r = I.call(args[0], tuple(s.v for s in I.iterate(v)), {})
            w = I.w(acc)
            w.segs = w.segs + (E(r),)
        frame_acc(I, acc, lambda: [_l.one(I, s, body, None) for s in segs])
        return I.new_iter(I.rec(acc).segs)
    if name == "itertools.accumulate":
        I.unsupported(name)
    if name.startswith("operator."):
        op = name.split(".")[1]
        two = {"add": "Add", "concat": "Add", "sub": "Sub", "mul": "Mult", "or_": "BitOr", "iadd": "Add", "and_": "BitAnd",
               "mod": "Mod", "floordiv": "FloorDiv"}
        cmp = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}
        if op in two:
            return binop(I, two[op], args[0], args[1])
        if op in cmp:
            return I.compare(cmp[op], args[0], args[1])
        if op in ("itemgetter", "attrgetter", "methodcaller"):
            return App("extfn", (op,) + tuple(args))
        if op == "not_":
            return not I.truth(args[0])
        if op == "contains":
            return I.contains(args[1], args[0])
        if op == "getitem":
            return getitem(I, args[0], args[1])
        if op == "neg":
            return scale(args[0], -1)
        if op == "length_hint":
            return length(I, args[0])
    if name in ("re.compile",):
        return args[0] if isinstance(args[0], Sym) and args[0].sort == "pattern" else App("regex", tuple(args))
    if name in ("re.match", "re.fullmatch", "re.search"):
        return opaque_method(I, App("regex", (args[0],)), name.split(".")[1], args[1:], kw)
    if name == "re.escape":
        return App("str", ("(re.escape)", args[0]))
    if name in ("copy.copy", "copy.deepcopy"):
        return copy_(I, args[0], name.endswith("deepcopy"))
    if name == "collections.deque":
        return I.new_list(I.iterate(args[0]) if args else ())
    if name == "collections.OrderedDict":
        return call_builtin(I, "dict", args, kw)
    if name == "collections.defaultdict":
        r = I.alloc("dict", d={"$factory": args[0]}, extra=())
        return r
    if name == "contextlib.suppress":
        I.unsupported(name)
    if name == "sys.getrecursionlimit":
        return 1000
    if name == "sys.setrecursionlimit":
        I.event("global", name)
        return None
    if name.startswith("warnings.") or name.startswith("logging.") or name.startswith("gc."):
        return None
    if I.st.phase == 0 or name.startswith(("typing.", "typing_extensions.")):
        return Ext("value of " + name)
    if name.startswith("value of "):
        return App("call", (Sym(name),) + tuple(I.termify(a) for a in args))
    if name.startswith(("random.", "time.", "os.", "threading.", "datetime.", "weakref.", "uuid.")):
        I.event("impure", name)
        return App("call", (Sym(name),) + tuple(I.termify(a) for a in args) + (len(I.st.trace),))
    I.unsupported("call of %s" % name)


def copy_(I, v, deep):
    if isinstance(v, Ref):
        r = I.rec(v)
        n = I.alloc(r.kind, cls=r.cls, d=dict(r.d) if r.d is not None else None, segs=r.segs, extra=r.extra)
        if deep:
            I.unsupported("deepcopy")
        return n
    return v


def call_extfn(I, f, args, kw):
    k = f.args[0]
    if k == "dataclass":
        args[0].info.dataclass = dict(f.args[1])
        return args[0]
    if k == "lru_cache":
        g = args[0]
        return Func(g.code, g.frame, g.defaults, g.kwdefaults, True)
    if k == "identity":
        return args[0]
    if k == "itemgetter":
        r = [getitem(I, args[0], i) for i in f.args[1:]]
        return r[0] if len(r) == 1 else Tup(tuple(E(x) for x in r))
    if k == "attrgetter":
        r = []
        for n in f.args[1:]:
            v = args[0]
            for p in n.split("."):
                v = I.getattr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else Tup(tuple(E(x) for x in r))
    if k == "methodcaller":
        return I.call(I.getattr(args[0], f.args[1]), f.args[2:], {})
    I.unsupported("call of %s" % k)
