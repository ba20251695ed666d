"""Transfer functions of Python's operators, built-in functions and built-in methods in the term domain."""
from __future__ import annotations

import builtins as _pb
import re as _re

from .values import *

PURE_EXT = ("os.path", "os.getenv", "re.", "itertools.", "typing.", "functools.", "textwrap.", "collections.", "copy.", "pathlib.", "builtins.", "operator.", "inspect.", "enum.", "dataclasses.", "math.", "string.", "importlib.")
BUILTIN_TYPES = {"list", "tuple", "set", "dict", "str", "int", "bool", "float", "frozenset", "object", "type"}


def skey(v):
    return repr(v)


class Unordered:
    """an unknown component of a sort key: the order is known as long as it is never asked for"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Unordered) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __lt__(self, o):
        raise TypeError

    __gt__ = __lt__


class BuiltinsMixin:
    # ---------------------------------------------------------------- strings
    def mk_str(self, parts):
        out = []
        for p in parts:
            if isinstance(p, K) and isinstance(p.v, str):
                p = p.v
            if isinstance(p, Str):
                sub = p.parts
            else:
                sub = (p,)
            for q in sub:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        if not out:
            return K("")
        if len(out) == 1 and isinstance(out[0], str):
            return K(out[0])
        if len(out) == 1 and isinstance(out[0], T) and self.is_strlike(out[0]):
            return out[0]
        return Str(out)

    def is_strlike(self, t):
        h = self.hint_of(t)
        return isinstance(h, Ext) and h.path == "builtins.str" or t.op == "str"

    def str_parts(self, v):
        if isinstance(v, K):
            return [v.v] if isinstance(v.v, str) else None
        if isinstance(v, Str):
            return list(v.parts)
        if isinstance(v, T) and self.is_strlike(v):
            return [v]
        return None

    def to_str(self, v):
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, Str):
            return v
        if isinstance(v, T):
            if self.is_strlike(v):
                return v
            m = self.find_method(v, "__str__") or self.find_method(v, "__repr__")
            if m is not None:
                return self.as_text(self.call(m, [], {}))
            return T("str", v)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                m = self.find_method(v, "__str__") or self.find_method(v, "__repr__")
                if m is not None:
                    return self.as_text(self.call(m, [], {}))
                if isinstance(o.cls, Ext) or (isinstance(o.cls, ClassV) and "args" in o.fields):
                    a = o.fields.get("args")
                    if isinstance(a, Tup) and len(a.items) == 1:
                        return self.to_str(a.items[0])
                return T("str", v)
            return self.to_repr(v)
        if isinstance(v, Tup):
            return self.to_repr(v)
        if isinstance(v, Ext) and v.path.startswith("builtins.") and isinstance(getattr(_pb, v.path[9:], None), type):
            return K(str(getattr(_pb, v.path[9:])))
        if isinstance(v, ClassV):
            return K("<class '%s.%s'>" % (v.module, v.name))
        if isinstance(v, EnumM):
            m = self.find_method(v, "__str__")
            if m is not None:
                return self.call(m, [], {})
            return K("%s.%s" % (v.cls.name, v.name))
        return T("str", self.freeze(v))

    def as_text(self, v):
        """the result of __str__/__repr__ used as text"""
        if isinstance(v, T) and not self.is_strlike(v):
            self.typed(v, Ext("builtins.str"))
            if not self.is_strlike(v):
                return T("str", v)
        if isinstance(v, K) and not isinstance(v.v, str):
            raise self.exc("TypeError", "__str__ returned non-string")
        return v

    def to_repr(self, v):
        if isinstance(v, K):
            return K(repr(v.v))
        if isinstance(v, (Str,)):
            return self.mk_str(["'", v, "'"])
        if isinstance(v, Tup):
            ps = ["("]
            for i, x in enumerate(v.items):
                if i:
                    ps.append(", ")
                ps.append(self.to_repr(x))
            ps.append(",)" if len(v.items) == 1 else ")")
            return self.mk_str(ps)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                m = self.find_method(v, "__repr__")
                if m is not None:
                    return self.as_text(self.call(m, [], {}))
                return T("repr", v)
            if isinstance(o, HDict):
                ps = ["{"]
                for i, (k, x) in enumerate(o.items):
                    if i:
                        ps.append(", ")
                    ps += [self.to_repr(k), ": ", self.to_repr(x)]
                return self.mk_str(ps + ["}"])
            b = "{}" if isinstance(o, HSet) else "[]"
            if isinstance(o, HSet) and not o.items:
                return K("set()")
            ps = [b[0]]
            for i, x in enumerate(o.items):
                if i:
                    ps.append(", ")
                ps.append(self.to_repr(x))
            return self.mk_str(ps + [b[1]])
        if isinstance(v, T):
            m = self.find_method(v, "__repr__")
            if m is not None:
                return self.as_text(self.call(m, [], {}))
            return T("repr", v)
        if isinstance(v, (ClassV, EnumM)):
            return self.to_str(v)
        return T("repr", self.freeze(v))

    # ---------------------------------------------------------------- iteration
    def iter_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HDict):
                out = [k for k, _ in o.items]
                if o.open is not None:
                    out.append(Star(T("key", o.open), T("keys", o.open)))
                return out
            if isinstance(o, HList):
                return list(o.items)
            m = self.find_method(v, "__iter__")
            if m is not None:
                return self.iter_items(self.call(m, [], {}))
            if isinstance(o.cls, ClassV) and o.cls.kind == "namedtuple":
                return [o.fields[n] for n, _, _ in o.cls.annots]
            m = self.find_method(v, "__getitem__")
            if m is None:
                raise self.exc("TypeError", "object is not iterable")
            return [Star(T("elem", v), v)]
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes)):
                return [K(c) for c in v.v]
            raise self.exc("TypeError", "'%s' object is not iterable" % type(v.v).__name__)
        if isinstance(v, T):
            if v.op in ("list", "set"):
                return list(v.args)
            if v.op == "dict":
                return list(v.args[::2])
            t = T("elem", v)
            h = self.elem_hint(v)
            self.typed(t, h)
            hv = self.hint_of(v)
            if isinstance(hv, Ext) and hv.path == "builtins.str":
                self.typed(t, hv)
            return [Star(t, v)]
        if isinstance(v, Str):
            return [Star(T("elem", v), v)]
        if isinstance(v, ClassV) and v.kind == "enum":
            return [m for m in v.ns.values() if isinstance(m, EnumM)]
        if isinstance(v, Star):
            return self.iter_items(v.elem)
        if isinstance(v, (Ext, BM)):
            return [Star(T("elem", v), v)]
        raise self.exc("TypeError", "%s is not iterable" % show(v))

    def dict_items(self, v):
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HDict):
                out = list(o.items)
                if o.open is not None:
                    out.append((Star(T("key", o.open), T("keys", o.open)), T("index", o.open, T("key", o.open))))
                return out
        if isinstance(v, T):
            if v.op == "dict":
                return list(zip(v.args[::2], v.args[1::2]))
            k = T("key", v)
            return [(Star(k, T("keys", v)), T("index", v, k))]
        raise self.exc("TypeError", "not a mapping")

    def mk_set(self, items, frozen=False):
        r = self.alloc(HSet([], 0, frozen))
        o = self.get(r)
        for x in items:
            self.set_add(o, x)
        return r

    def set_add(self, o, x):
        if isinstance(x, Star):
            if x not in o.items:
                o.items.append(x)
            return
        for y in o.items:
            if isinstance(y, Star):
                continue
            if self.key_eq(y, x):
                return
        o.items.append(x)

    # ---------------------------------------------------------------- equality
    def order2(self, a, b):
        def rank(x):
            return (0 if isinstance(x, T) else 1, repr(x))
        return (a, b) if rank(a) <= rank(b) else (b, a)

    def eq_atoms(self, a, b):
        """== on values without user-defined equality: K or term"""
        if a == b and not isinstance(a, Ref):
            return TRUE
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return TRUE
        if isinstance(a, T):
            a = self.eqconst.get(a, a)
        if isinstance(b, T):
            b = self.eqconst.get(b, b)
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v == b.v)
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return K(a == b)
        if isinstance(a, T) or isinstance(b, T):
            if a == b:
                return TRUE
            x, y = self.order2(a, b)
            # incompatible kinds
            for p, q in ((x, y), (y, x)):
                if isinstance(p, T) and not isinstance(q, T):
                    h = self.hint_of(p)
                    tq = self.typeof(q)
                    if isinstance(h, Ext) and h.path in ("builtins.str", "builtins.int", "builtins.list") and isinstance(tq, Ext):
                        num = ("builtins.int", "builtins.bool", "builtins.float")
                        if tq.path != h.path and not (tq.path in num and h.path in num):
                            return FALSE
            return T("==", x, y)
        if isinstance(a, Str) or isinstance(b, Str):
            pa, pb = self.str_parts(a), self.str_parts(b)
            if pa is None or pb is None:
                return FALSE
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return FALSE
            if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if n and pa[-1][-n:] != pb[-1][-n:]:
                    return FALSE
            la = sum(len(p) for p in pa if isinstance(p, str))
            for s, k in ((pa, b), (pb, a)):
                if isinstance(k, K) and sum(len(p) for p in s if isinstance(p, str)) > len(k.v):
                    return FALSE
            x, y = self.order2(a, b)
            return T("==", x, y)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_eq(a.items, b.items)
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.get(a), self.get(b)
            if isinstance(x, HSet) and isinstance(y, HSet):
                return K(len(x.items) == len(y.items) and all(any(self.key_eq(p, q) for q in y.items) for p in x.items))
            if isinstance(x, HDict) and isinstance(y, HDict):
                if len(x.items) != len(y.items):
                    return FALSE
                for k, v in x.items:
                    r = self.dict_find(y, k)
                    if r is None or not self.truth(self.compare("==", v, r[1])):
                        return FALSE
                return TRUE
            if isinstance(x, HList) and isinstance(y, HList) and type(x) is type(y):
                return self.seq_eq(x.items, y.items)
            return FALSE
        return FALSE

    def seq_eq(self, xs, ys):
        if any(isinstance(x, Star) for x in xs) or any(isinstance(y, Star) for y in ys):
            if list(xs) == list(ys):
                return TRUE
            return T("==", *self.order2(Tup(self.freeze(x) for x in xs), Tup(self.freeze(y) for y in ys)))
        if len(xs) != len(ys):
            return FALSE
        for x, y in zip(xs, ys):
            if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
                continue
            if not self.truth(self.compare("==", x, y)):
                return FALSE
        return TRUE

    def key_eq(self, a, b):
        """equality used for dict keys and set members (identity, hash, then ==)"""
        if isinstance(a, Star) or isinstance(b, Star):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = self.find_method(a, "__hash__"), self.find_method(b, "__hash__")
            ea = self.find_method(a, "__eq__")
            if ha is None and hb is None and ea is None and isinstance(self.get(a), HInst):
                if isinstance(self.get(a).cls, ClassV) and self.get(a).cls.kind == "namedtuple" or isinstance(self.get(b), HInst) and getattr(self.get(b).cls, "kind", "") == "dataclass":
                    return self.truth(self.compare("==", a, b))
                return False
            if ha is not None and hb is not None:
                x, y = self.call(ha, [], {}), self.call(hb, [], {})
                if x != y and self.ground(x) and self.ground(y):
                    return False
        return self.truth(self.compare("==", a, b))

    def ground(self, v):
        if isinstance(v, T):
            return v.op not in ("sym", "attr", "index", "call", "elem") and all(self.ground(x) for x in v.args if isinstance(x, Val))
        if isinstance(v, Tup):
            return all(self.ground(x) for x in v.items)
        return not isinstance(v, Str)

    def has_user_eq(self, v):
        if isinstance(v, Ref):
            o = self.get(v)
            return isinstance(o, HInst) and isinstance(o.cls, ClassV) and (self.class_lookup(o.cls, "__eq__") is not None)
        return False

    def compare(self, op, a, b):
        if op == "is":
            return self.is_(a, b)
        if op == "is not":
            r = self.is_(a, b)
            return K(not r.v) if isinstance(r, K) else T("not", r)
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if op == "in":
                return r
            r = self.truth_val(r)
            return K(not r.v) if isinstance(r, K) else T("not", r)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({"==": lambda: a.v == b.v, "!=": lambda: a.v != b.v, "<": lambda: a.v < b.v, "<=": lambda: a.v <= b.v,
                          ">": lambda: a.v > b.v, ">=": lambda: a.v >= b.v}[op]())
            except TypeError:
                raise self.exc("TypeError", "'%s' not supported" % op)
        d, rd = CMP[op]
        m = None
        ni = False
        if isinstance(a, (Ref, T)) and not (isinstance(a, T) and not isinstance(self.hint_of(a), ClassV)):
            m = self.find_method(a, d)
            if m is not None:
                r = self.call(m, [b], {})
                if not (isinstance(r, Ext) and r.path == "builtins.NotImplemented"):
                    return r
                ni = True
            elif op == "!=":
                m = self.find_method(a, "__eq__")
                if m is not None:
                    r = self.truth_val(self.call(m, [b], {}))
                    return K(not r.v) if isinstance(r, K) else T("not", r)
        if isinstance(b, (Ref, T)) and not (isinstance(b, T) and not isinstance(self.hint_of(b), ClassV)):
            m = self.find_method(b, rd)
            if m is not None:
                r = self.call(m, [a], {})
                if not (isinstance(r, Ext) and r.path == "builtins.NotImplemented"):
                    return r
            elif op == "!=":
                m = self.find_method(b, "__eq__")
                if m is not None:
                    r = self.truth_val(self.call(m, [a], {}))
                    return K(not r.v) if isinstance(r, K) else T("not", r)
        if ni and op in ("==", "!=") and not isinstance(b, T):
            same = a == b
            return K(same == (op == "=="))
        if op in ("==", "!="):
            na, nb = self.nt_items(a), self.nt_items(b)
            if na is not None and nb is not None:
                r = self.seq_eq(na, nb)
            else:
                r = self.eq_atoms(a, b)
            if op == "==":
                return r
            return K(not r.v) if isinstance(r, K) else T("not", r)
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if self.truth(self.compare("==", x, y)):
                    continue
                return self.compare(op, x, y)
            return self.compare(op, K(len(a.items)), K(len(b.items)))
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.get(a), HSet) and isinstance(self.get(b), HSet):
            x, y = self.get(a).items, self.get(b).items
            if op in (">", ">="):
                x, y = y, x
            sub = all(any(self.key_eq(p, q) for q in y) for p in x)
            if op in ("<", ">"):
                return K(sub and len(x) < len(y))
            return K(sub)
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, ClassV) or isinstance(b, ClassV) or a == NONE or b == NONE:
            if not (isinstance(a, T) or isinstance(b, T)):
                raise self.exc("TypeError", "'%s' not supported between instances" % op)
        fa, fb = self.freeze(a), self.freeze(b)
        if op == "<":
            return T("<", fa, fb)
        if op == ">":
            return T("<", fb, fa)
        if op == "<=":
            return T("not", T("<", fb, fa))
        return T("not", T("<", fa, fb))

    def nt_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst) and isinstance(o.cls, ClassV) and o.cls.kind in ("namedtuple", "dataclass"):
                return [K(o.cls.qual)] * (o.cls.kind == "dataclass") + [o.fields[n] for n, _, _ in o.cls.annots if n in o.fields]
        return None

    def is_(self, a, b):
        if isinstance(a, T):
            a = self.eqconst.get(a, a)
        if isinstance(b, T):
            b = self.eqconst.get(b, b)
        if isinstance(a, T) or isinstance(b, T):
            if a == b:
                return TRUE
            x, y = self.order2(a, b)
            for p, q in ((x, y), (y, x)):
                if isinstance(p, T) and q == NONE:
                    h = self.hint_of(p)
                    if isinstance(h, (ClassV,)) and not self.maybe_none(p):
                        return FALSE
                    if isinstance(h, (Ext, GenV)) and h is not None and not (isinstance(h, Ext) and h.path.startswith("typing.")):
                        return FALSE
                    if p.op in ("list", "dict", "set", "str", "+"):
                        return FALSE
                if isinstance(p, T) and p.op == "typeof" and isinstance(q, (ClassV, Ext)):
                    c = self.consult_isinstance(p.args[0], q)
                    if c is False:
                        return FALSE
            return T("is", x, y) if y == NONE else T("==", x, y)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return K(isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)
        return K(a is b or a == b)

    def contains(self, c, x):
        if isinstance(c, Tup):
            return self.in_items(c.items, x, c)
        if isinstance(c, Ref):
            o = self.get(c)
            if isinstance(o, HDict):
                r = self.dict_find(o, x)
                if r is not None:
                    return TRUE
                if o.open is not None:
                    return T("in", self.freeze(x), o.open)
                if any(isinstance(k, Star) for k, _ in o.items):
                    return T("in", self.freeze(x), self.freeze(c))
                return FALSE
            if isinstance(o, HSet):
                for y in o.items:
                    if not isinstance(y, Star) and self.key_eq(y, x):
                        return TRUE
                if any(isinstance(y, Star) for y in o.items):
                    return T("in", self.freeze(x), self.freeze(c))
                return FALSE
            if isinstance(o, HList):
                return self.in_items(o.items, x, c)
            m = self.find_method(c, "__contains__")
            if m is not None:
                r = self.truth_val(self.call(m, [x], {}))
                return r
            if isinstance(o.cls, ClassV) and o.cls.kind == "namedtuple":
                return self.in_items(self.nt_items(c), x, c)
            m = self.find_method(c, "__iter__")
            if m is not None:
                return self.in_items(self.iter_items(self.call(m, [], {})), x, c)
            return T("in", self.freeze(x), c)
        if isinstance(c, K) and isinstance(c.v, str):
            if isinstance(x, K):
                if not isinstance(x.v, str):
                    raise self.exc("TypeError", "in <string> requires string")
                return K(x.v in c.v)
            return T("in", self.freeze(x), c)
        if isinstance(c, Str):
            if isinstance(x, K) and isinstance(x.v, str):
                if any(isinstance(p, str) and x.v in p for p in c.parts):
                    return TRUE
            return T("in", self.freeze(x), c)
        if isinstance(c, T) and c.op in ("list", "set"):
            return self.in_items(list(c.args), x, c)
        if isinstance(c, T):
            m = self.find_method(c, "__contains__")
            if m is not None:
                return self.truth_val(self.call(m, [x], {}))
            return T("in", self.freeze(x), c)
        if isinstance(c, K):
            raise self.exc("TypeError", "argument is not iterable")
        if isinstance(c, ClassV) and c.kind == "enum":
            return self.in_items(self.iter_items(c), x, c)
        return T("in", self.freeze(x), self.freeze(c))

    def in_items(self, items, x, c):
        unk = False
        for y in items:
            if isinstance(y, Star):
                unk = True
                continue
            if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
                return TRUE
            if self.truth(self.compare("==", y, x)):
                return TRUE
        return T("in", self.freeze(x), self.freeze(c)) if unk else FALSE

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, K) and isinstance(b, K):
            try:
                r = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
                     "//": lambda x, y: x // y, "%": lambda x, y: x % y, "**": lambda x, y: x ** y, "|": lambda x, y: x | y,
                     "&": lambda x, y: x & y, "^": lambda x, y: x ^ y, "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y}[op](a.v, b.v)
                return K(r)
            except TypeError:
                raise self.exc("TypeError", "unsupported operand type(s) for %s" % op)
            except ZeroDivisionError:
                raise self.exc("ZeroDivisionError", "division by zero")
        d = DUN[op]
        if isinstance(a, (Ref, T)):
            isu = isinstance(a, Ref) and isinstance(self.get(a), HInst) or isinstance(a, T) and isinstance(self.hint_of(a), ClassV)
            # reflected operand of a subclass goes first
            if isu and isinstance(b, Ref) and isinstance(self.get(b), HInst) and isinstance(self.get(b).cls, ClassV):
                ca = self.typeof(a)
                cb = self.get(b).cls
                if isinstance(ca, ClassV) and ca is not cb and self.subtype(cb, ca):
                    ra, rb = self.class_lookup(ca, "__r" + d + "__"), self.class_lookup(cb, "__r" + d + "__")
                    if rb is not None and rb is not ra:
                        r = self.call(self.find_method(b, "__r" + d + "__"), [a], {})
                        if not self.is_ni(r):
                            return r
            if isu:
                m = self.find_method(a, "__" + d + "__")
                if m is not None:
                    r = self.call(m, [b], {})
                    if not self.is_ni(r):
                        return r
        if isinstance(b, (Ref, T)):
            isu = isinstance(b, Ref) and isinstance(self.get(b), HInst) or isinstance(b, T) and isinstance(self.hint_of(b), ClassV)
            if isu:
                m = self.find_method(b, "__r" + d + "__")
                if m is not None:
                    r = self.call(m, [a], {})
                    if not self.is_ni(r):
                        return r
        if op == "+":
            pa, pb = self.str_parts(a), self.str_parts(b)
            if pa is not None and pb is not None:
                return self.mk_str(pa + pb)
            if pa is not None and isinstance(b, T) and (isinstance(a, (K, Str))):
                return self.mk_str(pa + [b])
            if pb is not None and isinstance(a, T) and (isinstance(b, (K, Str))):
                return self.mk_str([a] + pb)
            la, lb = self.list_items(a), self.list_items(b)
            if la is not None and lb is not None and isinstance(a, Tup) == isinstance(b, Tup):
                return Tup(la + lb) if isinstance(a, Tup) else self.new_list(la + lb)
            if la is not None and isinstance(b, T) and not isinstance(a, Tup):
                return self.new_list(la + self.iter_items(b))
            if lb is not None and isinstance(a, T) and not isinstance(b, Tup):
                return self.new_list(self.iter_items(a) + lb)
            if la is not None and isinstance(b, T) and isinstance(a, Tup):
                return Tup(la + self.iter_items(b))
            if lb is not None and isinstance(a, T) and isinstance(b, Tup):
                return Tup(self.iter_items(a) + lb)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                lx = self.list_items(x)
                if lx is not None and isinstance(y, K) and isinstance(y.v, int):
                    return Tup(lx * y.v) if isinstance(x, Tup) else self.new_list(lx * y.v)
                if isinstance(x, Str) and isinstance(y, K) and isinstance(y.v, int):
                    return self.mk_str(list(x.parts) * y.v)
                if lx is not None and isinstance(y, T):
                    return self.new_list([Star(i, y) for i in lx])
        if op == "%" and isinstance(a, K) and isinstance(a.v, str):
            return self.percent(a.v, b)
        sa, sb = self.set_items(a), self.set_items(b)
        if sa is not None and sb is not None and op in "|&-^":
            if op == "|":
                return self.mk_set(sa + sb)
            if op == "&":
                return self.mk_set([x for x in sa if any(self.key_eq(x, y) for y in sb)])
            if op == "-":
                return self.mk_set([x for x in sa if not any(self.key_eq(x, y) for y in sb)])
            return self.mk_set([x for x in sa if not any(self.key_eq(x, y) for y in sb)] + [y for y in sb if not any(self.key_eq(x, y) for x in sa)])
        if op == "|" and isinstance(a, (ClassV, GenV, Ext)):
            return T("union", self.freeze(a), self.freeze(b))
        if op == "|" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.get(a), HDict):
            d2 = self.alloc(HDict(list(self.get(a).items)))
            for k, v in self.dict_items(b):
                self.setitem(d2, k, v)
            return d2
        if not isinstance(a, T) and not isinstance(b, T):
            strs = (Str,)
            if not ((isinstance(a, strs) or isinstance(b, strs)) and op == "%"):
                raise self.exc("TypeError", "unsupported operand type(s) for %s: %s and %s" % (op, show(self.typeof(a)), show(self.typeof(b))))
        r = T(op, self.freeze(a), self.freeze(b))
        for x in (a, b):
            h = self.hint_of(x) if isinstance(x, T) else self.typeof(x)
            if isinstance(h, Ext) and h.path in ("builtins.int", "builtins.str") and op in "+-*//%":
                self.typed(r, h)
                break
        return r

    def is_ni(self, r):
        return isinstance(r, Ext) and r.path == "builtins.NotImplemented"

    def percent(self, fmt, b):
        args = list(b.items) if isinstance(b, Tup) else [b]
        out, i, k = [], 0, 0
        for m in _re.finditer(r"%(%|[-#0-9.]*[sdrifx])", fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            if k >= len(args):
                raise self.exc("TypeError", "not enough arguments for format string")
            v = args[k]
            k += 1
            if m.group(1)[-1] == "r":
                out.append(self.to_repr(v))
            elif m.group(1) in ("s", "d", "i"):
                out.append(self.to_str(v))
            elif isinstance(v, K):
                out.append((m.group(0)) % v.v)
            else:
                out.append(T("format", self.freeze(v), K(m.group(1))))
        out.append(fmt[i:])
        return self.mk_str(out)

    def list_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HList) and not isinstance(o, HSet):
                return list(o.items)
        if isinstance(v, T) and v.op == "list":
            return list(v.args)
        return None

    def set_items(self, v):
        if isinstance(v, Ref) and isinstance(self.get(v), HSet):
            return list(self.get(v).items)
        if isinstance(v, T) and v.op == "set":
            return list(v.args)
        if isinstance(v, Ref) and isinstance(self.get(v), HDict):
            return [k for k, _ in self.get(v).items]
        return None

    # ---------------------------------------------------------------- indexing
    def dict_find(self, o, k):
        """(index, value) of key k, deciding equality sequentially"""
        if isinstance(k, T):
            k = self.eqconst.get(k, k)
        for i, (kk, v) in enumerate(o.items):
            if isinstance(kk, Star):
                if kk.elem == k:
                    return i, v
                continue
            if kk == k and not isinstance(k, Ref):
                return i, v
        if isinstance(k, (K,)) and all(isinstance(kk, (K, Star, EnumM)) for kk, _ in o.items):
            if not isinstance(k.v, (int, bool, float)):
                return None
        for i, (kk, v) in enumerate(o.items):
            if isinstance(kk, Star):
                continue
            if self.key_eq(kk, k):
                return i, v
        return None

    def getitem(self, o, k):
        if isinstance(k, T):
            k = self.eqconst.get(k, k)
        if isinstance(o, Ext) or isinstance(o, ClassV):
            if isinstance(o, ClassV) and o.kind == "enum":
                m = o.ns.get(k.v) if isinstance(k, K) else None
                return m if m is not None else T("index", o, self.freeze(k))
            args = k.items if isinstance(k, Tup) else (k,)
            args = tuple(self.freeze(a) for a in args)
            if isinstance(o, Ext):
                al = {"typing.List": "builtins.list", "typing.Dict": "builtins.dict", "typing.Set": "builtins.set", "typing.Tuple": "builtins.tuple", "typing.Type": "builtins.type"}
                if o.path in al:
                    o = Ext(al[o.path])
            return GenV(o, args)
        if isinstance(o, GenV):
            args = k.items if isinstance(k, Tup) else (k,)
            return GenV(o.origin, tuple(self.freeze(a) for a in args))
        if isinstance(o, Ref):
            h = self.get(o)
            if isinstance(h, HDict):
                if isinstance(k, T) and not any(isinstance(kk, Star) for kk, _ in h.items) and h.open is None and h.default is None and len(h.items) > 60:
                    return T("index", self.freeze(o), k)
                r = self.dict_find(h, k)
                if r is not None:
                    return r[1]
                if h.open is not None:
                    return self.typed(T("index", h.open, self.freeze(k)), self.elem_hint(h.open, 0) if isinstance(h.open, T) else None)
                if h.default is not None:
                    v = self.call(h.default, [], {})
                    self.mut(o).items.append((k, v))
                    return v
                if any(isinstance(kk, Star) for kk, _ in h.items):
                    return T("index", self.freeze(o), self.freeze(k))
                raise self.exc("KeyError", show(k))
            if isinstance(h, HSet):
                raise self.exc("TypeError", "'set' object is not subscriptable")
            if isinstance(h, HList):
                r = self.seq_index(h.items, k, o)
                return self.new_list(r) if isinstance(r, list) else r
            m = self.find_method(o, "__getitem__")
            if m is not None:
                if isinstance(k, Slice):
                    pass
                return self.call(m, [k], {})
            nt = self.nt_items(o)
            if nt is not None and isinstance(h.cls, ClassV) and h.cls.kind == "namedtuple":
                r = self.seq_index(nt, k, o)
                return Tup(r) if isinstance(r, list) else r
            raise self.exc("TypeError", "object is not subscriptable")
        if isinstance(o, Tup):
            r = self.seq_index(list(o.items), k, o)
            return Tup(r) if isinstance(r, list) else r
        if isinstance(o, K) and isinstance(o.v, (str, bytes)):
            try:
                if isinstance(k, Slice) and all(isinstance(x, K) for x in (k.lo, k.hi, k.step)):
                    return K(o.v[slice(k.lo.v, k.hi.v, k.step.v)])
                if isinstance(k, K):
                    return K(o.v[k.v])
            except IndexError:
                raise self.exc("IndexError", "string index out of range")
            except TypeError:
                raise self.exc("TypeError", "string indices must be integers")
            return self.typed(T("index", o, self.freeze(k)), Ext("builtins.str"))
        if isinstance(o, K):
            raise self.exc("TypeError", "'%s' object is not subscriptable" % type(o.v).__name__)
        if isinstance(o, Str):
            if isinstance(k, Slice) and isinstance(k.lo, K) and k.hi == NONE and k.step == NONE and isinstance(k.lo.v, int) and isinstance(o.parts[0], str) and k.lo.v <= len(o.parts[0]) and k.lo.v >= 0:
                return self.mk_str([o.parts[0][k.lo.v:]] + list(o.parts[1:]))
            if isinstance(k, Slice) and isinstance(k.hi, K) and isinstance(k.hi.v, int) and k.hi.v < 0 and k.lo == NONE and isinstance(o.parts[-1], str) and -k.hi.v <= len(o.parts[-1]):
                return self.mk_str(list(o.parts[:-1]) + [o.parts[-1][:k.hi.v]])
            if isinstance(k, K) and isinstance(k.v, int) and isinstance(o.parts[0], str) and 0 <= k.v < len(o.parts[0]):
                return K(o.parts[0][k.v])
            return self.typed(T("index", o, self.freeze(k)), Ext("builtins.str"))
        if isinstance(o, T):
            v = self.tattrs.get((o, ("[]", self.freeze(k))))
            if v is not None:
                return v
            if o.op == "list":
                r = self.seq_index(list(o.args), k, o)
                return self.new_list(r) if isinstance(r, list) else r
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
            if isinstance(k, Slice):
                t = T("slice", o, self.freeze(k.lo), self.freeze(k.hi), self.freeze(k.step)) if k.step != NONE else T("slice", o, self.freeze(k.lo), self.freeze(k.hi))
                h = self.hint_of(o)
                return self.typed(t, h)
            if self.attr_hook is not None:
                r = self.attr_hook(self, o, ("[]", k))
                if r is not None:
                    return r
            if isinstance(k, K) and o.op == "slice" and isinstance(k.v, int) and k.v >= 0 and isinstance(o.args[1], K) and (o.args[1].v is None or o.args[1].v >= 0):
                return self.getitem(o.args[0], K(k.v + (o.args[1].v or 0)))
            t = T("index", o, self.freeze(k))
            return self.typed(t, self.elem_hint(o, k.v if isinstance(k, K) else 0))
        if isinstance(o, Star):
            return T("index", self.freeze(o.elem), self.freeze(k))
        return T("index", self.freeze(o), self.freeze(k))

    def seq_index(self, items, k, o):
        star = [i for i, x in enumerate(items) if isinstance(x, Star)]
        if isinstance(k, Slice):
            parts = (k.lo, k.hi, k.step)
            if all(isinstance(x, K) for x in parts):
                if any(x.v is not None and not isinstance(x.v, int) for x in parts):
                    raise self.exc("TypeError", "slice indices must be integers")
                sl = slice(k.lo.v, k.hi.v, k.step.v)
                if not star:
                    return items[sl]
                lo, hi, st = k.lo.v, k.hi.v, k.step.v
                if st is None:
                    s0, s1 = star[0], len(items) - star[-1] - 1
                    okl = lo is None or (0 <= lo <= s0) or (lo < 0 and -lo <= s1)
                    okh = hi is None or (hi >= 0 and hi <= s0) or (hi < 0 and -hi <= s1)
                    if okl and okh:
                        l = 0 if lo is None else (lo if lo >= 0 else len(items) + lo)
                        h = len(items) if hi is None else (hi if hi >= 0 else len(items) + hi)
                        return items[l:h]
                    # cutting into the starred part: keep a starred remainder
                    if lo is not None and lo >= 0 and hi is None:
                        return items[star[0]:]
            return T("slice", self.freeze(o), *[self.freeze(x) for x in parts])
        if isinstance(k, K):
            if not isinstance(k.v, int):
                raise self.exc("TypeError", "indices must be integers")
            i = k.v
            if not star:
                try:
                    return items[i]
                except IndexError:
                    raise self.exc("IndexError", "index out of range")
            if i >= 0 and i < star[0]:
                return items[i]
            if i < 0 and -i <= len(items) - star[-1] - 1:
                return items[i]
            if len(items) == 1:
                e = items[0].elem
                return T("at", self.freeze(e), k, items[0].src if isinstance(items[0].src, Val) else K(str(items[0].src)))
        if isinstance(k, (Str, Tup)) or isinstance(k, Ref):
            raise self.exc("TypeError", "indices must be integers")
        return T("index", self.freeze(o), self.freeze(k))

    def setitem(self, o, k, v):
        if isinstance(k, T):
            k = self.eqconst.get(k, k)
        if isinstance(o, Ref):
            h = self.get(o)
            if isinstance(h, HDict):
                if self.star_depth > h.depth and self.cur_star is not None and not isinstance(k, Star):
                    if not isinstance(k, K):
                        w = self.mut(o)
                        w.items.append((Star(self.freeze(k), self.cur_star), v))
                        return
                r = self.dict_find(h, k)
                w = self.mut(o)
                if r is not None:
                    w.items[r[0]] = (w.items[r[0]][0], v)
                else:
                    w.items.append((k, v))
                return
            if isinstance(h, HList) and not isinstance(h, HSet):
                w = self.mut(o)
                if isinstance(k, K) and isinstance(k.v, int) and not any(isinstance(x, Star) for x in w.items):
                    try:
                        w.items[k.v] = v
                    except IndexError:
                        raise self.exc("IndexError", "assignment index out of range")
                    return
                if isinstance(k, Slice) and k.lo == NONE and k.hi == NONE:
                    w.items[:] = self.iter_items(v)
                    return
                w.items = [Star(T("setitem", self.freeze(o), self.freeze(k), self.freeze(v)), self.freeze(k))]
                return
            m = self.find_method(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
                return
            raise self.exc("TypeError", "object does not support item assignment")
        if isinstance(o, T):
            m = self.find_method(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
                return
            self.tattrs[(o, ("[]", self.freeze(k)))] = v
            self.event("setitem", (o, self.freeze(k), v))
            return
        raise self.exc("TypeError", "object does not support item assignment")

    def delitem(self, o, k):
        if isinstance(o, Ref):
            h = self.get(o)
            if isinstance(h, HDict):
                r = self.dict_find(h, k)
                if r is None:
                    if h.open is not None:
                        return
                    raise self.exc("KeyError", show(k))
                del self.mut(o).items[r[0]]
                return
            if isinstance(h, HList) and isinstance(k, K):
                del self.mut(o).items[k.v]
                return
            m = self.find_method(o, "__delitem__")
            if m is not None:
                self.call(m, [k], {})
                return
        self.event("delitem", (self.freeze(o), self.freeze(k)))

    # ---------------------------------------------------------------- built-in methods
    def call_bm(self, f, args, kw):
        recv, name = f.recv, f.name
        if isinstance(recv, T):
            if self.method_hook is not None:
                r = self.method_hook(self, recv, name, args, kw)
                if r is not None:
                    return r
            h = self.hint_of(recv)
            if isinstance(h, Ext) and h.path == "builtins.str":
                r = self.str_method(recv, name, args, kw)
                if r is not None:
                    return r
            ret = None
            if isinstance(h, ClassV):
                m = self.class_lookup(h, name)
                if isinstance(m, Fn):
                    self.bind_args(m, [recv] + args, kw)
                    ret = self.fn_ret_hint(m)
            t = T("call", T("attr", recv, name), *([self.freeze(a) for a in args] + [T("kw", k, self.freeze(v)) for k, v in sorted(kw.items())]))
            self.event("ext", t)
            return self.typed(t, ret)
        if isinstance(recv, (K, Str)):
            if isinstance(recv, K) and isinstance(recv.v, str) or isinstance(recv, Str):
                r = self.str_method(recv, name, args, kw)
                if r is not None:
                    return r
            elif isinstance(recv, K):
                try:
                    return K(getattr(recv.v, name)(*[a.v for a in args]))
                except Exception:
                    pass
            return T("call", T("attr", recv, name), *[self.freeze(a) for a in args])
        if isinstance(recv, Tup):
            return self.list_method(None, list(recv.items), name, args, kw, recv)
        if isinstance(recv, Ref):
            o = self.get(recv)
            if isinstance(o, HDict):
                return self.dict_method(recv, o, name, args, kw)
            if isinstance(o, HSet):
                return self.set_method(recv, o, name, args, kw)
            if isinstance(o, HList):
                return self.list_method(recv, o.items, name, args, kw, recv)
            return self.inst_method(recv, o, name, args, kw)
        if isinstance(recv, ClassV):
            if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__") and args:
                return self.inst_method(args[0], self.get(args[0]) if isinstance(args[0], Ref) else None, name, args[1:], kw)
            if name == "_make":
                return self.call(recv, self.iter_items(args[0]), {})
        if isinstance(recv, Fn) and name == "__call__":
            return self.call(recv, args, kw)
        if isinstance(recv, Wrapper) and name in ("setter", "getter", "deleter"):
            return Wrapper("property", recv.fn, args[0]) if name == "setter" else recv
        if isinstance(recv, Wrapper) and name in ("__get__",):
            return self.bind(recv, args[0], args[1] if len(args) > 1 else None)
        if isinstance(recv, Fn) and name == "__get__":
            return Bound(args[0], recv)
        if isinstance(recv, Fn) and name in ("cache_clear", "cache_info"):
            return NONE
        t = T("call", T("attr", self.freeze(recv), name), *[self.freeze(a) for a in args])
        self.event("ext", t)
        return t

    def inst_method(self, recv, o, name, args, kw):
        if name == "__init__":
            return NONE
        if name == "__eq__":
            return self.is_(recv, args[0])
        if name == "__ne__":
            r = self.truth_val(self.compare("==", recv, args[0]))
            return K(not r.v) if isinstance(r, K) else T("not", r)
        if name == "__hash__":
            return T("hash", recv)
        if name in ("__repr__", "__str__"):
            return T("repr", recv)
        if name == "__setattr__":
            self.setattr(recv, args[0].v, args[1])
            return NONE
        if name == "_replace":
            r = self.new_inst(o.cls, o.fields)
            self.get(r).fields.update(kw)
            return r
        if name == "_asdict":
            return self.alloc(HDict([(K(k), v) for k, v in o.fields.items()]))
        if name in ("index", "count"):
            return self.list_method(None, self.nt_items(recv), name, args, kw, recv)
        t = T("call", T("attr", recv, name), *[self.freeze(a) for a in args])
        self.event("ext", t)
        return t

    def list_method(self, recv, items, name, args, kw, orig):
        if recv is not None:
            if name == "append":
                x = self.star_wrap(recv, [args[0]])
                self.mut(recv).items.extend(x)
                return NONE
            if name == "extend":
                x = self.star_wrap(recv, self.iter_items(args[0]))
                self.mut(recv).items.extend(x)
                return NONE
            if name == "insert":
                if isinstance(args[0], K):
                    self.mut(recv).items.insert(args[0].v, self.star_wrap(recv, [args[1]])[0])
                    return NONE
            if name == "pop":
                i = args[0].v if args and isinstance(args[0], K) else (-1 if not args else None)
                if i is not None:
                    w = self.mut(recv)
                    if not w.items:
                        raise self.exc("IndexError", "pop from empty list")
                    if not isinstance(w.items[i], Star):
                        return w.items.pop(i)
                    return T("call", T("attr", self.freeze(recv), "pop"), K(i))
            if name == "remove":
                for i, x in enumerate(items):
                    if not isinstance(x, Star) and self.truth(self.compare("==", x, args[0])):
                        del self.mut(recv).items[i]
                        return NONE
                if any(isinstance(x, Star) for x in items):
                    return NONE
                raise self.exc("ValueError", "list.remove(x): x not in list")
            if name == "clear":
                self.mut(recv).items.clear()
                return NONE
            if name == "reverse":
                self.mut(recv).items.reverse()
                return NONE
            if name == "copy":
                return self.new_list(items)
            if name == "sort":
                r = self.do_sorted(items, kw)
                self.mut(recv).items = r
                return NONE
        if name == "index":
            for i, x in enumerate(items):
                if isinstance(x, Star):
                    return T("call", T("attr", self.freeze(orig), "index"), self.freeze(args[0]))
                if self.truth(self.compare("==", x, args[0])):
                    return K(i)
            raise self.exc("ValueError", "value is not in list")
        if name == "count":
            if not any(isinstance(x, Star) for x in items):
                return K(sum(1 for x in items if self.truth(self.compare("==", x, args[0]))))
        if name in ("__len__",):
            return self.b_len([orig], {})
        if name == "__getitem__":
            return self.getitem(orig, args[0])
        if name == "__contains__":
            return self.contains(orig, args[0])
        if name == "__iter__":
            return orig
        t = T("call", T("attr", self.freeze(orig), name), *[self.freeze(a) for a in args])
        self.event("ext", t)
        return t

    def set_method(self, recv, o, name, args, kw):
        if name == "add":
            x = self.star_wrap(recv, [args[0]])[0]
            self.set_add(self.mut(recv), x)
            return NONE
        if name == "update":
            for a in args:
                for x in self.iter_items(a):
                    self.set_add(self.mut(recv), x)
            return NONE
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            r = self.mk_set(o.items)
            for a in args:
                b = self.mk_set(self.iter_items(a))
                r = self.binop({"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name], r, b)
            return r
        if name in ("remove", "discard"):
            for i, x in enumerate(o.items):
                if not isinstance(x, Star) and self.key_eq(x, args[0]):
                    del self.mut(recv).items[i]
                    return NONE
            if name == "remove" and not any(isinstance(x, Star) for x in o.items):
                raise self.exc("KeyError", "remove")
            return NONE
        if name == "copy":
            return self.mk_set(o.items)
        if name == "pop":
            if not o.items:
                raise self.exc("KeyError", "pop from an empty set")
            x = o.items[0]
            if isinstance(x, Star):
                return x.elem
            del self.mut(recv).items[0]
            return x
        if name == "clear":
            self.mut(recv).items.clear()
            return NONE
        if name == "issubset":
            return self.compare("<=", recv, self.mk_set(self.iter_items(args[0])))
        if name == "issuperset":
            return self.compare(">=", recv, self.mk_set(self.iter_items(args[0])))
        if name == "isdisjoint":
            ys = self.iter_items(args[0])
            return K(not any(self.key_eq(x, y) for x in o.items for y in ys))
        t = T("call", T("attr", self.freeze(recv), name), *[self.freeze(a) for a in args])
        self.event("ext", t)
        return t

    def dict_method(self, recv, o, name, args, kw):
        if name == "get":
            r = self.dict_find(o, args[0])
            if r is not None:
                return r[1]
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            if o.open is not None:
                if self.decide(T("in", self.freeze(args[0]), o.open)):
                    return T("index", o.open, self.freeze(args[0]))
                return d
            if any(isinstance(k, Star) for k, _ in o.items):
                if self.decide(T("in", self.freeze(args[0]), self.freeze(recv))):
                    return T("index", self.freeze(recv), self.freeze(args[0]))
            return d
        if name == "keys":
            return self.new_list([k for k in self.iter_items(recv)])
        if name == "values":
            out = []
            for k, v in self.dict_items(recv):
                out.append(Star(v, k.src) if isinstance(k, Star) else v)
            return self.new_list(out)
        if name == "items":
            out = []
            for k, v in self.dict_items(recv):
                out.append(Star(Tup([k.elem, v]), k.src) if isinstance(k, Star) else Tup([k, v]))
            return self.new_list(out)
        if name == "setdefault":
            r = self.dict_find(o, args[0])
            if r is not None:
                return r[1]
            v = args[1] if len(args) > 1 else NONE
            self.setitem(recv, args[0], v)
            return v
        if name == "update":
            for a in args:
                src = a
                if isinstance(a, Ref) and isinstance(self.get(a), HList) or isinstance(a, Tup):
                    for p in self.iter_items(a):
                        q = self.iter_items(p)
                        self.setitem(recv, q[0], q[1])
                    continue
                for k, v in self.dict_items(src):
                    if isinstance(k, Star):
                        self.mut(recv).items.append((k, v))
                    else:
                        self.setitem(recv, k, v)
            for k, v in kw.items():
                self.setitem(recv, K(k), v)
            return NONE
        if name == "pop":
            r = self.dict_find(o, args[0])
            if r is not None:
                del self.mut(recv).items[r[0]]
                return r[1]
            if len(args) > 1:
                return args[1]
            if o.open is not None:
                return T("index", o.open, self.freeze(args[0]))
            raise self.exc("KeyError", show(args[0]))
        if name == "copy":
            c = o.copy()
            return self.alloc(c)
        if name == "clear":
            self.mut(recv).items.clear()
            return NONE
        if name == "__contains__":
            return self.contains(recv, args[0])
        if name == "__getitem__":
            return self.getitem(recv, args[0])
        if name == "__setitem__":
            self.setitem(recv, args[0], args[1])
            return NONE
        if name == "popitem":
            if not o.items:
                raise self.exc("KeyError", "popitem")
            k, v = self.mut(recv).items.pop()
            return Tup([k, v])
        t = T("call", T("attr", self.freeze(recv), name), *[self.freeze(a) for a in args])
        self.event("ext", t)
        return t

    def str_method(self, recv, name, args, kw):
        allk = isinstance(recv, K) and all(isinstance(a, K) for a in args) and all(isinstance(v, K) for v in kw.values())
        if name == "join":
            parts = []
            for i, x in enumerate(self.iter_items(args[0])):
                if i:
                    parts.append(recv if not isinstance(recv, K) else recv.v)
                if isinstance(x, Star):
                    parts.append(Star(self.mk_str([x.elem]) if self.str_parts(x.elem) is not None else x.elem, T("join", recv, x.src if isinstance(x.src, Val) else K(str(x.src)))))
                else:
                    if isinstance(x, K) and not isinstance(x.v, str) or isinstance(x, (Ref, Tup)):
                        raise self.exc("TypeError", "sequence item %d: expected str instance" % i)
                    p = self.str_parts(x)
                    parts.extend(p if p is not None else [x])
            return self.mk_str(parts)
        if name == "format":
            if isinstance(recv, K):
                out, i, k = [], 0, 0
                for m in _re.finditer(r"\{\{|\}\}|\{([A-Za-z_0-9]*)\}", recv.v):
                    out.append(recv.v[i:m.start()])
                    i = m.end()
                    if m.group(0) in ("{{", "}}"):
                        out.append(m.group(0)[0])
                        continue
                    g = m.group(1)
                    if g == "":
                        v = args[k] if k < len(args) else None
                        k += 1
                    elif g.isdigit():
                        v = args[int(g)] if int(g) < len(args) else None
                    else:
                        v = kw.get(g)
                    if v is None:
                        raise self.exc("IndexError", "format")
                    out.append(self.to_str(v))
                out.append(recv.v[i:])
                return self.mk_str(out)
        if allk:
            try:
                fn = getattr(recv.v, name)
                a = [x.v for x in args]
                r = fn(*a, **{k: v.v for k, v in kw.items()})
            except AttributeError:
                return None
            except TypeError as e:
                raise self.exc("TypeError", str(e))
            except ValueError as e:
                raise self.exc("ValueError", str(e))
            return self.from_py(r)
        if isinstance(recv, K) and name in ("startswith", "endswith") and isinstance(args[0], Tup) and all(isinstance(x, K) for x in args[0].items):
            return K(getattr(recv.v, name)(tuple(x.v for x in args[0].items)))
        if name == "startswith":
            ps = self.str_parts(recv)
            opts = args[0].items if isinstance(args[0], Tup) else [args[0]]
            res = []
            for o in opts:
                if isinstance(o, K) and isinstance(ps[0], str):
                    n = min(len(ps[0]), len(o.v))
                    if ps[0][:n] != o.v[:n]:
                        res.append(False)
                        continue
                    if len(ps[0]) >= len(o.v):
                        return TRUE
                elif o == recv:
                    return TRUE
                res.append(None)
            if all(r is False for r in res):
                return FALSE
            return T("cond", T("call", T("attr", recv, name), *[self.freeze(a) for a in args]))
        if name == "endswith":
            ps = self.str_parts(recv)
            o = args[0]
            if isinstance(o, K) and isinstance(ps[-1], str):
                n = min(len(ps[-1]), len(o.v))
                if n and ps[-1][-n:] != o.v[-n:]:
                    return FALSE
                if len(ps[-1]) >= len(o.v):
                    return TRUE
            return T("cond", T("call", T("attr", recv, name), *[self.freeze(a) for a in args]))
        if name in ("strip", "rstrip", "lstrip") and isinstance(recv, Str):
            ps = list(recv.parts)
            chars = args[0].v if args and isinstance(args[0], K) else None
            if not args or chars is not None:
                if name != "rstrip" and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip(chars)
                if name != "lstrip" and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip(chars)
                return self.mk_str(ps)
        if name == "replace" and isinstance(recv, Str) and all(isinstance(a, K) for a in args[:1]):
            # applied to the constant parts; unknown parts keep a symbolic replacement
            out = []
            for p in recv.parts:
                if isinstance(p, str):
                    if isinstance(args[1], K):
                        out.append(p.replace(args[0].v, args[1].v))
                    else:
                        for i, q in enumerate(p.split(args[0].v)):
                            if i:
                                out.append(args[1])
                            out.append(q)
                else:
                    out.append(self.typed(T("replace", p, args[0], self.freeze(args[1])), Ext("builtins.str")))
            return self.mk_str(out)
        t = T("call", T("attr", self.freeze(recv), name), *([self.freeze(a) for a in args] + [T("kw", k, self.freeze(v)) for k, v in sorted(kw.items())]))
        if name in ("replace", "lower", "upper", "strip", "rstrip", "lstrip", "title", "format", "join", "removeprefix", "removesuffix", "zfill"):
            return self.typed(t, Ext("builtins.str"))
        if name in ("isdigit", "isnumeric", "isalpha", "isidentifier", "isspace", "isupper", "islower"):
            return T("cond", t)
        if name in ("split", "splitlines", "rsplit", "partition"):
            return self.typed(t, GenV(Ext("builtins.list"), (Ext("builtins.str"),)))
        if name in ("find", "index", "count", "rfind"):
            return self.typed(t, Ext("builtins.int"))
        return t

    def from_py(self, r):
        if isinstance(r, list):
            return self.new_list([self.from_py(x) for x in r])
        if isinstance(r, tuple):
            return Tup([self.from_py(x) for x in r])
        if isinstance(r, dict):
            return self.alloc(HDict([(self.from_py(k), self.from_py(v)) for k, v in r.items()]))
        if isinstance(r, set):
            return self.mk_set([self.from_py(x) for x in r])
        return K(r)

    # ---------------------------------------------------------------- external names
    def ext_attr(self, v, name):
        p = v.path + "." + name
        if v.path in ("builtins.dict", "builtins.list", "builtins.set", "builtins.str", "builtins.tuple", "builtins.int", "builtins.object") or v.path == "builtins.type":
            if name == "__name__":
                return K(v.path[9:])
        if v.path.startswith("builtins.") and name in ("__name__", "__qualname__"):
            return K(v.path[9:])
        if v.path in ("re", "string", "math", "os") and not name.startswith("_"):
            import importlib
            c = getattr(importlib.import_module(v.path), name, None)
            if isinstance(c, (int, float, str)) and name not in ("name", "environ"):
                return K(int(c) if isinstance(c, int) and not isinstance(c, bool) else c)
        return Ext(p)

    def call_ext(self, f, args, kw):
        p = f.path
        m = self.ext_models.get(p)
        if m is not None:
            r = m(self, args, kw)
            if r is not None:
                return r
        if p.startswith("builtins."):
            n = p[9:]
            b = getattr(self, "b_" + n.replace(".", "_"), None)
            if b is not None:
                return b(args, kw)
            if isinstance(getattr(_pb, n, None), type) and issubclass(getattr(_pb, n), BaseException):
                return self.new_inst(Ext(p), {"args": Tup(args)})
            if "." in n:
                base, meth = n.split(".", 1)
                if base in BUILTIN_TYPES and args:
                    if base == "object" and meth in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__setattr__", "__init__"):
                        return self.inst_method(args[0], self.get(args[0]) if isinstance(args[0], Ref) else None, meth, args[1:], kw)
                    if base == "object" and meth == "__new__":
                        return self.new_inst(args[0])
                    if base == "dict" and meth == "fromkeys":
                        d = self.alloc(HDict([]))
                        for x in self.iter_items(args[0]):
                            if isinstance(x, Star):
                                self.mut(d).items.append((x, args[1] if len(args) > 1 else NONE))
                            else:
                                self.setitem(d, x, args[1] if len(args) > 1 else NONE)
                        return d
                    return self.call(self.getattr(args[0], meth), args[1:], kw)
            return self.opaque_call(f, args, kw)
        r = self.std_model(p, args, kw)
        if r is not None:
            return r
        return self.opaque_call(f, args, kw, impure=not p.startswith(PURE_EXT))

    def std_model(self, p, args, kw):
        if p == "typing.cast":
            return args[1]
        if p in ("typing.get_args",):
            a = args[0]
            if isinstance(a, GenV):
                return Tup(a.args)
            if isinstance(a, T):
                return self.typed(T("call", Ext(p), a), None)
            return Tup([])
        if p in ("typing.get_origin",):
            a = args[0]
            if isinstance(a, GenV):
                return a.origin
            if isinstance(a, T):
                return T("call", Ext(p), a)
            return NONE
        if p == "typing.TypeVar":
            return T("typevar", args[0])
        if p in ("typing.NewType",):
            return args[1]
        if p == "typing.NamedTuple" or p == "collections.namedtuple":
            c = ClassV(args[0].v, self.loc[0] if self.loc else "?", None, [], {}, args[0].v)
            c.kind = "namedtuple"
            c.mro = [c]
            fs = args[1]
            if isinstance(fs, K):
                names = fs.v.replace(",", " ").split()
            else:
                names = []
                for x in self.iter_items(fs):
                    y = self.iter_items(x)[0] if not isinstance(x, K) else x
                    names.append(y.v)
            c.annots = [(n, None, False) for n in names]
            return c
        if p in ("copy.copy",):
            return self.shallow_copy(args[0])
        if p == "copy.deepcopy":
            return self.deep_copy(args[0], {})
        if p == "functools.reduce":
            items = self.iter_items(args[1])
            if any(isinstance(x, Star) for x in items):
                return None
            if len(args) > 2:
                acc = args[2]
            else:
                if not items:
                    raise self.exc("TypeError", "reduce() of empty sequence with no initial value")
                acc = items.pop(0)
            for x in items:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if p == "functools.partial":
            fn, pre = args[0], list(args[1:])
            return Native("partial", lambda it, a, k: it.call(fn, pre + list(a), {**kw, **k}))
        if p == "itertools.chain":
            return self.new_list([x for a in args for x in self.iter_items(a)])
        if p == "itertools.chain.from_iterable":
            return self.new_list([x for a in self.iter_items(args[0]) for x in self.iter_items(a)])
        if p == "collections.OrderedDict":
            return self.b_dict(args, kw)
        if p == "collections.defaultdict":
            d = self.b_dict(args[1:], kw)
            self.get(d).default = args[0] if args else None
            return d
        if p == "collections.Counter":
            d = self.alloc(HDict([], Native("zero", lambda it, a, k: K(0))))
            if args:
                its = self.iter_items(args[0])
                if any(isinstance(x, Star) for x in its):
                    return T("call", Ext(p), self.freeze(args[0]))
                for x in its:
                    self.setitem(d, x, self.binop("+", self.getitem(d, x), K(1)))
            return d
        if p == "collections.deque":
            return self.new_list(self.iter_items(args[0]) if args else [])
        if p == "operator.attrgetter":
            n = args[0].v
            return Native("attrgetter", lambda it, a, k: it.getattr(a[0], n))
        if p == "operator.itemgetter":
            n = args[0]
            return Native("itemgetter", lambda it, a, k: it.getitem(a[0], n))
        if p.startswith("operator.") and len(args) == 2:
            o = {"add": "+", "sub": "-", "mul": "*", "floordiv": "//", "mod": "%", "truediv": "/", "and_": "&", "or_": "|"}.get(p[9:])
            if o:
                return self.binop(o, *args)
            o = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}.get(p[9:])
            if o:
                return self.compare(o, *args)
        if p.startswith("re.") and p[3:] in ("match", "search", "fullmatch", "sub", "subn", "findall", "finditer", "split", "compile", "escape"):
            return self.re_call(p[3:], args, kw)
        if p.startswith("itertools.") and not any(isinstance(x, Star) for a in args for x in (self.iter_items(a) if not isinstance(a, (K, Fn, Native, Bound)) or isinstance(a, K) and isinstance(a.v, str) else [])):
            n = p[10:]
            its = lambda: [self.iter_items(a) for a in args]
            import itertools as _it
            if n == "product":
                return self.new_list([Tup(list(x)) for x in _it.product(*its(), repeat=kw["repeat"].v if "repeat" in kw else 1)])
            if n in ("permutations", "combinations", "combinations_with_replacement"):
                return self.new_list([Tup(list(x)) for x in getattr(_it, n)(self.iter_items(args[0]), *[a.v for a in args[1:]])])
            if n == "zip_longest":
                return self.new_list([Tup(list(x)) for x in _it.zip_longest(*its(), fillvalue=kw.get("fillvalue", NONE))])
            if n == "islice":
                return self.new_list(list(_it.islice(self.iter_items(args[0]), *[a.v for a in args[1:]])))
            if n == "repeat" and len(args) > 1:
                return self.new_list([args[0]] * args[1].v)
            if n == "starmap":
                return self.new_list([self.call(args[0], self.iter_items(x), {}) for x in self.iter_items(args[1])])
            if n in ("takewhile", "dropwhile"):
                xs = self.iter_items(args[1])
                k = 0
                while k < len(xs) and self.truth(self.call(args[0], [xs[k]], {})):
                    k += 1
                return self.new_list(xs[:k] if n == "takewhile" else xs[k:])
            if n == "accumulate":
                xs, out = self.iter_items(args[0]), []
                for x in xs:
                    out.append(x if not out else self.call(args[1], [out[-1], x], {}) if len(args) > 1 else self.binop("+", out[-1], x))
                return self.new_list(out)
            if n == "pairwise":
                xs = self.iter_items(args[0])
                return self.new_list([Tup([x, y]) for x, y in zip(xs, xs[1:])])
        if p.split(".")[0] in ("math", "posixpath", "shlex", "keyword", "fnmatch", "unicodedata") or p.startswith("os.path.") and p[8:] in ("join", "basename", "dirname", "splitext", "normpath", "split"):
            if all(isinstance(a, K) for a in args) and not kw:
                import importlib
                m, n = p.rsplit(".", 1)
                try:
                    r = getattr(importlib.import_module(m), n)(*[a.v for a in args])
                except Exception:
                    return None
                return self.from_py(r)
        if p == "textwrap.dedent" and isinstance(args[0], K):
            import textwrap
            return K(textwrap.dedent(args[0].v))
        if p == "inspect.isclass":
            return K(isinstance(args[0], ClassV) or self.typeof(args[0]) == Ext("builtins.type")) if not isinstance(args[0], T) else T("cond", T("call", Ext(p), args[0]))
        if p in ("dataclasses.field",):
            return T("call", Ext(p), *([T("kw", k, v) for k, v in kw.items()]))
        if p == "dataclasses.dataclass":
            if args and isinstance(args[0], ClassV):
                args[0].kind = "dataclass"
                return args[0]
            return T("call", Ext(p))
        if p == "dataclasses.replace":
            o = self.get(args[0])
            r = self.new_inst(o.cls, o.fields)
            self.get(r).fields.update(kw)
            return r
        if p == "enum.auto":
            self.autoc = getattr(self, "autoc", 0) + 1
            return K(self.autoc)
        return None

    def re_call(self, n, args, kw):
        args = list(args)
        flags = 0
        pat = args[0]
        if isinstance(pat, Ref) and isinstance(self.get(pat), HInst) and self.get(pat).cls == Ext("re.Pattern"):
            flags = self.get(pat).fields["flags"].v
            args[0] = self.get(pat).fields["pattern"]
        if any(k not in ("flags", "count", "maxsplit") or not isinstance(v, K) for k, v in kw.items()):
            return None
        pos = {"match": 2, "search": 2, "fullmatch": 2, "findall": 2, "finditer": 2, "compile": 1, "sub": 4, "subn": 4, "split": 3}.get(n, 9)
        fl = args.pop(pos) if len(args) > pos else kw.get("flags")
        if fl is not None:
            if not isinstance(fl, K):
                return None
            flags |= int(fl.v)
        if not all(isinstance(a, K) for i, a in enumerate(args) if not (n in ("sub", "subn") and i == 1)):
            return None
        if n == "escape":
            return K(_re.escape(args[0].v))
        extra = {k: v.v for k, v in kw.items() if k != "flags"}
        av = [a.v if isinstance(a, K) else a for a in args]
        if n in ("sub", "subn") and not isinstance(av[1], (str, bytes)):
            f = args[1]

            def repl(m):
                r = self.call(f, [self.match_obj(m)], {})
                if not isinstance(r, K):
                    raise ValueError("replacement")
                return r.v
            av[1] = repl
        try:
            if n == "compile":
                r = _re.compile(av[0], flags)
            elif n in ("sub", "subn"):
                r = getattr(_re, n)(av[0], av[1], av[2], count=av[3] if len(av) > 3 else extra.get("count", 0), flags=flags)
            elif n == "split":
                r = _re.split(av[0], av[1], maxsplit=av[2] if len(av) > 2 else extra.get("maxsplit", 0), flags=flags)
            else:
                r = getattr(_re, n)(*av, flags=flags)
        except Exception as e:
            if isinstance(e, (_re.error,)):
                raise self.exc("re.error", str(e))
            if isinstance(e, (PyExc, Cut)):
                raise
            return None
        if n == "compile":
            o = self.new_inst(Ext("re.Pattern"), {"pattern": K(r.pattern), "flags": K(int(flags))})
            self.mut(o).fields.update({m: Native(m, lambda it, a, k, m=m: it.re_call(m, [o] + list(a), k)) for m in ("match", "search", "fullmatch", "sub", "subn", "findall", "finditer", "split")})
            return o
        if r is None:
            return NONE
        if isinstance(r, _re.Match):
            return self.match_obj(r)
        if n == "finditer":
            return self.new_list([self.match_obj(m) for m in r])
        return self.from_py(r)

    def match_obj(self, m):
        def group(it, a, k):
            if len(a) > 1:
                return Tup([K(m.group(x.v)) for x in a])
            return K(m.group(*[x.v for x in a]))
        return self.new_inst(Ext("re.Match"), {"group": Native("group", group), "groups": Native("groups", lambda it, a, k: it.from_py(m.groups())), "__getitem__": Native("getitem", group), "groupdict": Native("groupdict", lambda it, a, k: it.from_py(m.groupdict())), "string": K(m.string),
                                               "span": Native("span", lambda it, a, k: it.from_py(m.span(*[x.v for x in a]))),
                                               "start": Native("start", lambda it, a, k: K(m.start(*[x.v for x in a]))), "end": Native("end", lambda it, a, k: K(m.end(*[x.v for x in a])))})

    def shallow_copy(self, v):
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                m = self.find_method(v, "__copy__")
                if m is not None:
                    return self.call(m, [], {})
            return self.alloc(o.copy())
        if isinstance(v, T):
            return T("copy", v)
        return v

    def deep_copy(self, v, memo):
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            o = self.get(v)
            m = self.find_method(v, "__deepcopy__") if isinstance(o, HInst) else None
            if m is not None:
                return self.call(m, [self.alloc(HDict([]))], {})
            c = o.copy()
            r = self.alloc(c)
            memo[v.id] = r
            if isinstance(c, HInst):
                c.fields = {k: self.deep_copy(x, memo) for k, x in c.fields.items()}
            elif isinstance(c, HDict):
                c.items = [(self.deep_copy(k, memo), self.deep_copy(x, memo)) for k, x in c.items]
                if c.open is not None:
                    c.open = self.deep_copy(c.open, memo)
            else:
                c.items = [self.deep_copy(x, memo) for x in c.items]
            return r
        if isinstance(v, Tup):
            return Tup([self.deep_copy(x, memo) for x in v.items])
        if isinstance(v, Star):
            return Star(self.deep_copy(v.elem, memo), v.src)
        if isinstance(v, T):
            return T("copy", v) if self.copy_terms else v
        return v

    copy_terms = False

    # ---------------------------------------------------------------- built-in functions
    def b_len(self, a, kw):
        v = a[0]
        if isinstance(v, K):
            try:
                return K(len(v.v))
            except TypeError:
                raise self.exc("TypeError", "object of type '%s' has no len()" % type(v.v).__name__)
        if isinstance(v, Tup):
            its = v.items
        elif isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                m = self.find_method(v, "__len__")
                if m is not None:
                    r = self.call(m, [], {})
                    if isinstance(r, Ref):
                        raise self.exc("TypeError", "__len__ must return int")
                    return r
                nt = self.nt_items(v)
                if nt is None:
                    raise self.exc("TypeError", "object has no len()")
                its = nt
            elif isinstance(o, HDict):
                if o.open is not None:
                    return self.typed(T("len", self.freeze(v)), Ext("builtins.int"))
                its = [k for k, _ in o.items]
            else:
                its = o.items
        elif isinstance(v, T) and v.op in ("list", "set"):
            its = v.args
        else:
            if isinstance(v, T):
                m = self.find_method(v, "__len__")
                if m is not None:
                    return self.call(m, [], {})
            return self.typed(T("len", self.freeze(v)), Ext("builtins.int"))
        if any(isinstance(x, Star) for x in its):
            known = sum(1 for x in its if not isinstance(x, Star))
            stars = [x for x in its if isinstance(x, Star)]
            t = None
            for s in stars:
                e = T("len", s.src if isinstance(s.src, Val) else K(str(s.src)))
                t = e if t is None else T("+", t, e)
            self.typed(t, Ext("builtins.int"))
            return self.typed(T("+", t, K(known)), Ext("builtins.int")) if known else t
        return K(len(its))

    def b_isinstance(self, a, kw):
        r = self.isinstance_(a[0], self.class_arg(a[1]))
        return r

    def class_arg(self, c):
        if isinstance(c, T) and c.op == "union":
            return Tup(c.args)
        if isinstance(c, T) and c.op in ("list",):
            return Tup(c.args)
        return c

    def b_issubclass(self, a, kw):
        x, c = a
        c = self.class_arg(c)
        if isinstance(x, GenV):
            raise self.exc("TypeError", "issubclass() arg 1 must be a class")
        if isinstance(x, (ClassV, Ext)):
            cs = c.items if isinstance(c, Tup) else [c]
            return K(any(self.subtype(x, k) for k in cs))
        if isinstance(x, T):
            return T("cond", T("issubclass", x, c))
        raise self.exc("TypeError", "issubclass() arg 1 must be a class")

    def b_str(self, a, kw):
        if not a:
            return K("")
        return self.to_str(a[0])

    def b_repr(self, a, kw):
        return self.to_repr(a[0])

    def b_int(self, a, kw):
        if not a:
            return K(0)
        v = a[0]
        if isinstance(v, K):
            try:
                return K(int(v.v, *[x.v for x in a[1:]]))
            except ValueError as e:
                raise self.exc("ValueError", str(e))
            except TypeError as e:
                raise self.exc("TypeError", str(e))
        return self.typed(T("int", *[self.freeze(x) for x in a]), Ext("builtins.int"))

    def b_float(self, a, kw):
        if a and isinstance(a[0], K):
            try:
                return K(float(a[0].v))
            except Exception:
                raise self.exc("ValueError", "float")
        return T("float", *[self.freeze(x) for x in a])

    def b_bool(self, a, kw):
        return self.truth_val(a[0]) if a else FALSE

    def b_list(self, a, kw):
        return self.new_list(self.iter_items(a[0]) if a else [])

    def b_tuple(self, a, kw):
        return Tup(self.iter_items(a[0]) if a else [])

    def b_set(self, a, kw):
        return self.mk_set(self.iter_items(a[0]) if a else [])

    def b_frozenset(self, a, kw):
        return self.mk_set(self.iter_items(a[0]) if a else [], True)

    def b_dict(self, a, kw):
        d = self.alloc(HDict([]))
        if a:
            s = a[0]
            if isinstance(s, Ref) and isinstance(self.get(s), HDict):
                o = self.get(s)
                self.get(d).items = list(o.items)
                self.get(d).open = o.open
            elif isinstance(s, T) and s.op != "list":
                self.get(d).open = s
            else:
                for p in self.iter_items(s):
                    if isinstance(p, Star):
                        q = self.iter_items(p.elem) if not isinstance(p.elem, T) else [T("index", p.elem, K(0)), T("index", p.elem, K(1))]
                        self.mut(d).items.append((Star(q[0], p.src), q[1]))
                        continue
                    q = self.iter_items(p)
                    self.setitem(d, q[0], q[1])
        for k, v in kw.items():
            self.setitem(d, K(k), v)
        return d

    def b_range(self, a, kw):
        if all(isinstance(x, K) for x in a):
            try:
                r = range(*[x.v for x in a])
            except TypeError:
                raise self.exc("TypeError", "range() argument must be int")
            if len(r) > 5000:
                raise self.unsupported("long range")
            return self.new_list([K(i) for i in r])
        t = T("range", *[self.freeze(x) for x in a])
        return self.new_list([Star(self.typed(T("elem", t), Ext("builtins.int")), t)])

    def b_enumerate(self, a, kw):
        st = a[1] if len(a) > 1 else kw.get("start", K(0))
        out = []
        seen_star = False
        for i, x in enumerate(self.iter_items(a[0])):
            if isinstance(x, Star):
                seen_star = True
                src = x.src if isinstance(x.src, Val) else K(str(x.src))
                out.append(Star(Tup([self.typed(T("pos", x.elem if isinstance(x.elem, Val) else K("?"), src), Ext("builtins.int")), x.elem]), x.src))
            else:
                n = self.binop("+", st, K(i)) if not seen_star else T("pos", self.freeze(x), K("after"))
                out.append(Tup([n, x]))
        return self.new_list(out)

    def b_zip(self, a, kw):
        seqs = [self.iter_items(x) for x in a]
        if not any(isinstance(y, Star) for s in seqs for y in s):
            return self.new_list([Tup(t) for t in zip(*seqs)])
        out = []
        i = 0
        while all(i < len(s) for s in seqs):
            cur = [s[i] for s in seqs]
            if any(isinstance(x, Star) for x in cur):
                elems = []
                for x, s, v in zip(cur, seqs, a):
                    if isinstance(x, Star):
                        elems.append(x.elem)
                    else:
                        elems.append(T("elem", self.freeze(v)))
                srcs = [x.src for x in cur if isinstance(x, Star)]
                src = srcs[0] if len(srcs) == 1 else T("zip", *[s if isinstance(s, Val) else K(str(s)) for s in srcs])
                out.append(Star(Tup(elems), src))
                break
            out.append(Tup(cur))
            i += 1
        return self.new_list(out)

    def b_map(self, a, kw):
        f = a[0]
        seqs = [self.iter_items(x) for x in a[1:]]
        if len(seqs) == 1:
            out = []
            for x in seqs[0]:
                if isinstance(x, Star):
                    saved = self.cur_star
                    self.star_depth += 1
                    self.cur_star = x.src
                    try:
                        out.append(Star(self.call(f, [x.elem], {}), x.src))
                    finally:
                        self.star_depth -= 1
                        self.cur_star = saved
                else:
                    out.append(self.call(f, [x], {}))
            return self.new_list(out)
        return self.new_list([self.call(f, list(t), {}) for t in zip(*seqs)])

    def b_filter(self, a, kw):
        f = a[0]
        out = []
        for x in self.iter_items(a[1]):
            if isinstance(x, Star):
                c = self.truth_val(self.call(f, [x.elem], {}) if f != NONE else x.elem)
                if isinstance(c, K):
                    if c.v:
                        out.append(x)
                else:
                    out.append(Star(x.elem, T("filter", x.src if isinstance(x.src, Val) else K(str(x.src)), c)))
            elif self.truth(self.call(f, [x], {}) if f != NONE else x):
                out.append(x)
        return self.new_list(out)

    def do_sorted(self, items, kw):
        key = kw.get("key")
        ks = [(self.call(key, [x.elem if isinstance(x, Star) else x], {}) if key is not None and key != NONE else x) for x in items]
        rev = kw.get("reverse")
        rev = isinstance(rev, K) and bool(rev.v)

        def py(k):
            if isinstance(k, K):
                return k.v
            if isinstance(k, Tup):
                return tuple(py(x) if isinstance(x, (K, Tup)) else Unordered(x) for x in k.items)
            raise TypeError
        try:
            if any(isinstance(x, Star) for x in items):
                raise TypeError
            return [x for _, x in sorted(zip([py(k) for k in ks], items), key=lambda p: p[0], reverse=rev)]
        except TypeError:
            self.note_approx("sorted on unknown keys")
            return list(items)

    def b_sorted(self, a, kw):
        return self.new_list(self.do_sorted(self.iter_items(a[0]), kw))

    def b_reversed(self, a, kw):
        return self.new_list(list(reversed(self.iter_items(a[0]))))

    def minmax(self, a, kw, op):
        items = self.iter_items(a[0]) if len(a) == 1 else a
        if all(isinstance(x, K) for x in items) and items and "key" not in kw:
            f = min if op == "min" else max
            return K(f(x.v for x in items))
        if not items:
            if "default" in kw:
                return kw["default"]
            raise self.exc("ValueError", op + "() arg is an empty sequence")
        return self.typed(T(op, *[self.freeze(x) for x in items]), Ext("builtins.int"))

    def b_min(self, a, kw):
        return self.minmax(a, kw, "min")

    def b_max(self, a, kw):
        return self.minmax(a, kw, "max")

    def b_sum(self, a, kw):
        acc = a[1] if len(a) > 1 else K(0)
        for x in self.iter_items(a[0]):
            acc = self.binop("+", acc, T("sum", self.freeze(x)) if isinstance(x, Star) else x)
        return acc

    def b_any(self, a, kw):
        unk = None
        for x in self.iter_items(a[0]):
            if isinstance(x, Star):
                c = self.truth_val(x.elem)
                if isinstance(c, K) and not c.v:
                    continue
                unk = T("cond", T("any", c, x.src if isinstance(x.src, Val) else K(str(x.src))))
            elif self.truth(x):
                return TRUE
        return unk if unk is not None else FALSE

    def b_all(self, a, kw):
        unk = None
        for x in self.iter_items(a[0]):
            if isinstance(x, Star):
                c = self.truth_val(x.elem)
                if isinstance(c, K) and c.v:
                    continue
                unk = T("cond", T("all", c, x.src if isinstance(x.src, Val) else K(str(x.src))))
            elif not self.truth(x):
                return FALSE
        return unk if unk is not None else TRUE

    def b_abs(self, a, kw):
        return K(abs(a[0].v)) if isinstance(a[0], K) else T("abs", a[0])

    def b_print(self, a, kw):
        f = kw.get("file")
        if isinstance(f, Ref) and isinstance(self.get(f), HInst) and "world" in self.get(f).fields and not any(isinstance(x, Star) for x in a):
            parts = []
            for n, x in enumerate(a):
                parts += ([kw.get("sep", K(" "))] if n else []) + [self.to_str(x)]
            for p in parts + [kw.get("end", K("\n"))]:
                self.call(self.get(f).fields["write"], [p if p != NONE else K("\n")], {})
            return NONE
        self.event("print", (tuple(self.to_str(x) if not isinstance(x, Star) else x for x in a), kw.get("file"), kw.get("end")))
        return NONE

    def b_type(self, a, kw):
        if len(a) == 1:
            t = self.typeof(a[0])
            if t is not None:
                return t
            return T("typeof", self.freeze(a[0]))
        return T("call", Ext("builtins.type"), *[self.freeze(x) for x in a])

    def b_getattr(self, a, kw):
        if isinstance(a[1], K):
            if len(a) > 2:
                try:
                    return self.getattr(a[0], a[1].v, a[2])
                except PyExc as e:
                    o = self.get(e.val) if isinstance(e.val, Ref) else None
                    if o is not None and o.cls == Ext("builtins.AttributeError"):
                        return a[2]
                    raise
            return self.getattr(a[0], a[1].v)
        return T("getattr", self.freeze(a[0]), self.freeze(a[1]))

    def b_setattr(self, a, kw):
        if isinstance(a[1], K):
            self.setattr(a[0], a[1].v, a[2])
        else:
            self.event("setattr-dyn", (self.freeze(a[0]), self.freeze(a[1]), a[2]))
        return NONE

    def b_hasattr(self, a, kw):
        o, n = a[0], a[1]
        if not isinstance(n, K):
            return T("cond", T("hasattr", self.freeze(o), self.freeze(n)))
        if isinstance(o, T):
            if (o, n.v) in self.tattrs or (o, n.v) in self.known_attr:
                return TRUE
            h = self.hint_of(o)
            if isinstance(h, ClassV) and self.class_lookup(h, n.v) is not None:
                return TRUE
            return T("cond", T("hasattr", o, n))
        if isinstance(o, Ext) and not o.path.startswith("builtins."):
            return T("cond", T("hasattr", o, n))
        try:
            self.getattr(o, n.v)
            return TRUE
        except PyExc:
            return FALSE

    def b_callable(self, a, kw):
        v = a[0]
        if isinstance(v, T):
            return T("cond", T("callable", v))
        if isinstance(v, Ref):
            return K(self.find_method(v, "__call__") is not None)
        return K(isinstance(v, (Fn, Bound, ClassV, Ext, BM, Native, GenV)))

    def b_hash(self, a, kw):
        v = a[0]
        m = self.find_method(v, "__hash__")
        if m is not None:
            return self.call(m, [], {})
        if isinstance(v, Tup):
            return T("hash", Tup([self.b_hash([x], {}) if not isinstance(x, (K, Star)) else x for x in v.items]))
        if isinstance(v, Ref) and not isinstance(self.get(v), HInst):
            raise self.exc("TypeError", "unhashable type")
        return T("hash", self.freeze(v))

    def b_id(self, a, kw):
        return T("id", a[0] if isinstance(a[0], Ref) else self.freeze(a[0]))

    def b_iter(self, a, kw):
        return self.new_list(self.iter_items(a[0]))

    def b_next(self, a, kw):
        v = a[0]
        if isinstance(v, Ref) and isinstance(self.get(v), HList):
            o = self.get(v)
            if not o.items:
                if len(a) > 1:
                    return a[1]
                raise self.exc("StopIteration", "")
            x = o.items[0]
            if isinstance(x, Star):
                if len(a) > 1 and self.decide(T("not", T("truthy", x.src if isinstance(x.src, Val) else K(str(x.src))))):
                    return a[1]
                return x.elem
            self.mut(v).items.pop(0)
            return x
        return self.opaque_call(Ext("builtins.next"), a, kw)

    def b_super(self, a, kw):
        from .interp import Super
        return Super(a[0], a[1])

    def b_property(self, a, kw):
        return Wrapper("property", a[0], a[1] if len(a) > 1 else None)

    def b_staticmethod(self, a, kw):
        return Wrapper("static", a[0])

    def b_classmethod(self, a, kw):
        return Wrapper("class", a[0])

    def b_vars(self, a, kw):
        return self.getattr(a[0], "__dict__")

    def b_object(self, a, kw):
        return self.new_inst(Ext("builtins.object"))

    def b_slice(self, a, kw):
        a = list(a)
        if len(a) == 1:
            return Slice(NONE, a[0], NONE)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_divmod(self, a, kw):
        return Tup([self.binop("//", a[0], a[1]), self.binop("%", a[0], a[1])])

    def b_chr(self, a, kw):
        return K(chr(a[0].v)) if isinstance(a[0], K) else self.typed(T("chr", a[0]), Ext("builtins.str"))

    def b_ord(self, a, kw):
        return K(ord(a[0].v)) if isinstance(a[0], K) else self.typed(T("ord", a[0]), Ext("builtins.int"))

    def b_open(self, a, kw):
        self.occ += 1
        t = T("file", self.freeze(a[0]), self.freeze(a[1]) if len(a) > 1 else kw.get("mode", K("r")), T("occ", self.occ))
        self.event("open", t)
        return t


CMP = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__"),
       "==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__")}
DUN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "|": "or",
       "&": "and", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}
