"""Abstract values of the term domain.

K     known constant                      T     opaque term (an unknown, or an unknown function of unknowns)
Str   string template (constants + terms) Tup   tuple of values
Ref   address of an abstract heap object  Star  "zero or more elements like this one" inside a sequence
Fn, Bound, ClassV, GenV, ModV, Ext, BM, Builtin  callables / types / modules
"""
from __future__ import annotations


class Val:
    __slots__ = ()


class K(Val):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)
ELLIPSIS = K(Ellipsis)


class T(Val):
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


class Str(Val):
    """Template: parts alternate between str and Val; no two adjacent str parts."""
    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(("Str", self.parts))

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "f" + repr("".join(p if isinstance(p, str) else "{" + show(p) + "}" for p in self.parts))


class Tup(Val):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("Tup", self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(map(show, self.items)) + ")"


class Star(Val):
    __slots__ = ("elem", "src", "_h")

    def __init__(self, elem, src):
        self.elem, self.src = elem, src
        self._h = hash(("Star", elem, src))

    def __eq__(self, o):
        return isinstance(o, Star) and self.elem == o.elem and self.src == o.src

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "*<%s for each of %s>" % (show(self.elem), show(self.src))


class Ref(Val):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return "@%s" % (self.id,)


class Fn(Val):
    __slots__ = ("node", "frame", "module", "cls", "defaults", "kwdefaults", "qual", "isgen", "attrs", "locals_", "globals_", "nonlocals_")

    def __init__(self, node, frame, module, cls, defaults, kwdefaults, qual):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.isgen = None
        self.attrs = {}
        self.locals_ = None

    def __repr__(self):
        return "<fn %s>" % self.qual


class Bound(Val):
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self_ == self.self_ and o.fn == self.fn

    def __hash__(self):
        return hash((self.self_, self.fn))

    def __repr__(self):
        return "%s.%s" % (show(self.self_), getattr(self.fn, "qual", self.fn))


class Wrapper(Val):
    """property / staticmethod / classmethod objects."""
    __slots__ = ("kind", "fn", "setter")

    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn, self.setter = kind, fn, setter

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.fn)


class ClassV(Val):
    __slots__ = ("name", "module", "node", "bases", "ns", "mro", "annots", "kind", "qual", "extbase")

    def __init__(self, name, module, node, bases, ns, qual):
        self.name, self.module, self.node, self.bases, self.ns, self.qual = name, module, node, bases, ns, qual
        self.mro = None
        self.annots = []
        self.kind = "plain"
        self.extbase = False

    def __repr__(self):
        return self.name


class GenV(Val):
    __slots__ = ("origin", "args", "_h")

    def __init__(self, origin, args):
        self.origin, self.args = origin, tuple(args)
        self._h = hash(("Gen", origin, self.args))

    def __eq__(self, o):
        return isinstance(o, GenV) and o.origin == self.origin and o.args == self.args

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "%r[%s]" % (self.origin, ", ".join(map(show, self.args)))


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("Mod", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


class Ext(Val):
    """A name of an external library, by dotted path; builtins are Ext('builtins.x')."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __repr__(self):
        return self.path[9:] if self.path.startswith("builtins.") else self.path


class BM(Val):
    """Method of a built-in value."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, BM) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(("BM", self.recv, self.name))

    def __repr__(self):
        return "%s.%s" % (show(self.recv), self.name)


class Native(Val):
    """Harness supplied callable: fn(interp, args, kwargs) -> Val."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class EnumM(Val):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumM) and o.cls is self.cls and o.name == self.name

    def __hash__(self):
        return hash(("Enum", self.name))

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Slice(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slice) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("Slice", self.lo, self.hi, self.step))

    def __repr__(self):
        return "slice(%r,%r,%r)" % (self.lo, self.hi, self.step)


# ---- heap objects -------------------------------------------------------
class HInst:
    __slots__ = ("cls", "fields", "depth")

    def __init__(self, cls, fields, depth=0):
        self.cls, self.fields, self.depth = cls, fields, depth

    def copy(self):
        return HInst(self.cls, dict(self.fields), self.depth)


class HList:
    __slots__ = ("items", "depth")

    def __init__(self, items, depth=0):
        self.items, self.depth = list(items), depth

    def copy(self):
        return HList(self.items, self.depth)


class HSet(HList):
    __slots__ = ("frozen",)

    def __init__(self, items, depth=0, frozen=False):
        HList.__init__(self, items, depth)
        self.frozen = frozen

    def copy(self):
        return HSet(self.items, self.depth, self.frozen)


class HDict:
    __slots__ = ("items", "default", "depth", "open")

    def __init__(self, items, default=None, depth=0, open=None):
        self.items, self.default, self.depth, self.open = list(items), default, depth, open

    def copy(self):
        return HDict(self.items, self.default, self.depth, self.open)


class HNs:
    __slots__ = ("vars",)

    def __init__(self, vars=None):
        self.vars = vars if vars is not None else {}

    def copy(self):
        return HNs(dict(self.vars))


class Frame:
    __slots__ = ("vars", "parent", "module", "fn", "cls", "globals_", "nonlocals_", "locals_", "yields", "self_", "node", "exc")

    def __init__(self, parent, module, fn=None, cls=None):
        self.vars = {}
        self.parent, self.module, self.fn, self.cls = parent, module, fn, cls
        self.globals_ = frozenset()
        self.nonlocals_ = frozenset()
        self.locals_ = None
        self.yields = None
        self.self_ = None
        self.exc = None


# ---- control flow -------------------------------------------------------
class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, val, loc=None, implicit=False, msg=""):
        self.val, self.loc, self.implicit, self.msg = val, loc, implicit, msg
        Exception.__init__(self, msg)


class Cut(Exception):
    """This partition is abandoned (loop back-edge, limits)."""

    def __init__(self, kind, why="", loc=None):
        self.kind, self.why, self.loc = kind, why, loc
        Exception.__init__(self, "%s: %s" % (kind, why))


def show(v, depth=0):
    if isinstance(v, T):
        if v.op == "sym":
            return str(v.args[0])
        if depth > 8:
            return "..."
        a = [show(x, depth + 1) if isinstance(x, Val) else str(x) for x in v.args]
        if v.op == "attr":
            return "%s.%s" % (a[0], a[1])
        if v.op == "call":
            return "%s(%s)" % (a[0], ", ".join(a[1:]))
        if v.op == "index":
            return "%s[%s]" % (a[0], a[1])
        if v.op in ("==", "<", "<=", "is", "in", "+", "-", "*", "//", "%", "/") and len(a) == 2:
            return "(%s %s %s)" % (a[0], v.op, a[1])
        if v.op.startswith("E:"):
            return "%s(%s)" % (v.op[2:], ", ".join(a))
        return "%s(%s)" % (v.op, ", ".join(a))
    if isinstance(v, Val):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x) for x in v) + "]"
    return str(v)
