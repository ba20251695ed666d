"""Static symbol tables of the repository's Python modules: scopes, classes, signatures,
and a small flow-insensitive inference of which repository class a value belongs to."""
import ast
import builtins
import importlib
import os
import sys

UNK = None
STD = {"os", "re", "sys", "subprocess", "itertools", "functools", "collections", "typing", "copy", "json", "pathlib", "enum", "random", "math",
       "shutil", "tempfile", "time", "operator", "abc", "dataclasses", "inspect", "types", "glob", "signal", "ast", "string", "textwrap", "logging", "argparse", "contextlib", "warnings", "traceback", "threading", "multiprocessing"}
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__builtins__", "__annotations__", "__class__", "__path__", "__loader__"}
OBJ = set(dir(object)) | {"__dict__", "__annotations__", "__module__", "__weakref__", "__name__", "__qualname__", "__mro__", "__subclasses__", "__bases__", "__orig_class__", "__args__", "__origin__", "__parameters__", "mro"}
KEEP = {"staticmethod", "classmethod", "abstractmethod", "overload", "no_type_check", "final", "override"}


class Fn:
    kind = "fn"

    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.decos = [deco_name(d) for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in self.decos
        self.clsm = "classmethod" in self.decos
        self.prop = "property" in self.decos or "cached_property" in self.decos or any(d and d.endswith(".getter") for d in self.decos)
        self.setter = any(d and d.endswith((".setter", ".deleter")) for d in self.decos)
        self.overload = "overload" in self.decos
        self.opaque = any(d is None or (d not in KEEP and d not in ("property", "cached_property", "lru_cache", "cache") and not d.endswith((".setter", ".getter", ".deleter"))) for d in self.decos)

    def params(self, bound):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else list(pos)
        if bound and pos:
            pos = pos[1:]
            req = req[1:]
        kwo = {x.arg: d is None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        return pos, req, kwo, a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}

    def __repr__(self):
        return "%s.%s" % (self.mod.name, self.qual)


class Cls:
    kind = "cls"

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.attrs = {}          # name -> list of bindings (Fn | ('expr', node) | ('ann', node))
        self.inst = {}           # attributes assigned on self -> list of (value node | None, fn, annotation)
        self.bases = []          # Cls or the dotted text of an outside base
        self.decos = [deco_name(d) for d in node.decorator_list]
        self.subs = []

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += [b for b in c.bases if isinstance(b, Cls)]
        return out

    def closed(self):
        """all bases are known: every attribute has its definition in the repository (or in object)"""
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, Cls) and b not in ("object", "Generic", "typing.Generic", "ABC", "abc.ABC", "Protocol", "Enum", "enum.Enum", "NamedTuple", "typing.NamedTuple", "Exception"):
                    return False
            if any(k in c.attrs for k in ("__getattr__", "__getattribute__")):
                return False
            if any(kw.arg == "metaclass" for kw in c.node.keywords):
                return False
        return True

    def outside(self):
        return {b for c in self.mro() for b in c.bases if not isinstance(b, Cls)}

    def family(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += c.subs
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def has(self, name):
        if name in OBJ:
            return True
        for c in self.mro():
            if name in c.attrs or name in c.inst:
                return True
        o = self.outside()
        if o & {"Enum", "enum.Enum"} and name in ("name", "value", "__members__"):
            return True
        if o & {"Exception"} and name in ("args", "with_traceback", "add_note", "__cause__", "__context__"):
            return True
        if o & {"NamedTuple", "typing.NamedTuple"} and name in ("_replace", "_asdict", "_fields", "count", "index", "_make"):
            return True
        if any("dataclass" in (d or "") for c in self.mro() for d in c.decos) and name.startswith("__dataclass"):
            return True
        return False

    def __repr__(self):
        return "%s.%s" % (self.mod.name, self.qual)


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        if isinstance(d.value, ast.Name) and d.attr not in ("setter", "getter", "deleter"):
            return d.attr
        return "." + d.attr if d.attr in ("setter", "getter", "deleter") else d.attr
    return None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


class Scope:
    """one function (or module, class, lambda, comprehension) body"""

    def __init__(self, node, parent, mod, kind, qual):
        self.node, self.parent, self.mod, self.kind, self.qual = node, parent, mod, kind, qual
        self.binds = {}       # name -> list of ('assign', value, target path) ...
        self.globals_, self.nonlocals = set(), set()
        self.fn = None
        self.cls = None

    def lookup(self, name):
        s = self
        first = True
        while s is not None:
            if name in s.globals_:
                s = s.mod.scope
                return (s, s.binds[name]) if name in s.binds else (None, None)
            if name in s.binds and (first or s.kind != "class") and name not in s.nonlocals:
                return s, s.binds[name]
            first = False
            s = s.parent
        return None, None

    def add(self, name, b):
        if name in self.globals_:
            self.mod.scope.binds.setdefault(name, []).append(b)
            return
        self.binds.setdefault(name, []).append(b)


class Mod:
    kind = "mod"

    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.star_open = False
        self.scope = None
        self.scopes = {}      # ast node -> Scope


class Repo:
    def __init__(self, root, files):
        self.root, self.mods, self.problems = root, {}, []
        self.ext = {}
        for rel in files:
            p = os.path.join(root, rel)
            try:
                tree = ast.parse(open(p, encoding="utf-8").read())
            except SyntaxError as e:
                self.problems.append((rel, "does not parse: %s" % e))
                continue
            parts = rel[:-3].split("/")
            pkg = parts[-1] == "__init__"
            if pkg:
                parts = parts[:-1]
            self.mods[".".join(parts)] = Mod(".".join(parts), rel, tree, pkg)
        self.packages = set()
        for n in self.mods:
            p = n.split(".")
            for i in range(1, len(p)):
                self.packages.add(".".join(p[:i]))
        for m in self.mods.values():
            Collector(self, m).run()
        for m in self.mods.values():
            self.expand_star(m, set())
        self.classes = [c for m in self.mods.values() for c in m.classes]
        for c in self.classes:
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                v = self.value(base, c.scope_parent)
                c.bases.append(v if isinstance(v, Cls) else (dotted(base) or ast.unparse(base)))
        for c in self.classes:
            for b in c.bases:
                if isinstance(b, Cls):
                    b.subs.append(c)

    # ---------------------------------------------------------------- modules
    def expand_star(self, m, busy):
        if m in busy:
            return
        busy.add(m)
        for node, target in m.stars:
            t = self.mods.get(target)
            if t is None:
                if target not in self.packages:
                    m.star_open = True
                continue
            self.expand_star(t, busy)
            if t.star_open:
                m.star_open = True
            allv = t.scope.binds.get("__all__")
            for n, b in list(t.scope.binds.items()):
                if not n.startswith("_") or allv:
                    m.scope.binds.setdefault(n, []).append(("from", target, n, node))
        m.stars = []

    def module_attr(self, name, attr):
        """('found', value-binding) / 'missing' / 'open' for attribute attr of repository module `name`"""
        full = name + "." + attr
        m = self.mods.get(name)
        if full in self.mods or full in self.packages:
            return True
        if m is None:
            return name not in self.packages and None or False
        if attr in m.scope.binds or attr in ("__name__", "__file__", "__doc__", "__path__", "__dict__", "__all__"):
            return True
        return None if m.star_open else False

    # ---------------------------------------------------------------- values
    def binding_value(self, b, scope, depth=0):
        """what a binding statically denotes: Mod | Fn | Cls | ('ext', dotted) | ('pkg', name) | None"""
        if depth > 12:
            return UNK
        k = b[0]
        if k in ("def", "class"):
            return b[1]
        if k == "import":
            return self.modval(b[1])
        if k == "from":
            _, target, n, _ = b
            full = target + "." + n
            m = self.mods.get(target)
            if m is not None and n in m.scope.binds:
                bs = m.scope.binds[n]
                vs = [self.binding_value(x, m.scope, depth + 1) for x in bs]
                return vs[-1] if all(v is vs[-1] or same(v, vs[-1]) for v in vs) else UNK
            if full in self.mods or full in self.packages:
                return self.modval(full)
            if target.split(".")[0] not in self.tops():
                return ("ext", full)
            return UNK
        if k == "assign" and b[1] is not None and b[2] == ():
            return self.value(b[1], scope, depth + 1)
        if k == "ann" and b[2] is not None:
            return self.value(b[2], scope, depth + 1)
        return UNK

    def alternatives(self, e, scope):
        """(one per configuration?, the things a name may denote) when it has several bindings"""
        s, bs = scope.lookup(e.id)
        for _ in range(8):
            if s is None or not bs:
                return None
            if len(bs) == 1 and bs[0][0] == "from" and self.mods.get(bs[0][1]) is not None:
                s = self.mods[bs[0][1]].scope
                bs = s.binds.get(bs[0][2])
                continue
            break
        if not bs:
            return None
        nodes = [b[1].node if b[0] == "def" else b[3] if b[0] == "from" else None for b in bs]
        return s.kind == "module" and all(n is not None for n in nodes) and exclusive(s.mod.tree, nodes), [self.binding_value(b, s) for b in bs]

    def tops(self):
        return {n.split(".")[0] for n in self.mods} | {p.split(".")[0] for p in self.packages}

    def modval(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.packages:
            return ("pkg", name)
        return ("ext", name)

    def value(self, e, scope, depth=0):
        if depth > 12:
            return UNK
        if isinstance(e, ast.Name):
            s, bs = scope.lookup(e.id)
            if s is None:
                return ("ext", "builtins." + e.id) if e.id in BUILTINS else UNK
            if len(bs) > 1:
                vs = [self.binding_value(b, s, depth + 1) for b in bs]
                if any(v is UNK for v in vs):
                    return UNK
                return vs[-1] if all(same(v, vs[0]) for v in vs) else UNK
            return self.binding_value(bs[0], s, depth + 1)
        if isinstance(e, ast.Subscript) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get"):
            t = self.value(e.value if isinstance(e, ast.Subscript) else e.func.value, scope, depth + 1)
            return ("table", t[1]) if isinstance(t, tuple) and t[0] == "dict" else UNK
        if isinstance(e, ast.Dict) and e.values and all(k is not None for k in e.keys):
            vs = [self.value(x, scope, depth + 1) for x in e.values]
            return ("dict", tuple(vs)) if all(isinstance(x, Fn) for x in vs) else UNK
        if isinstance(e, ast.Attribute):
            v = self.value(e.value, scope, depth + 1)
            if isinstance(v, Mod):
                full = v.name + "." + e.attr
                if e.attr in v.scope.binds:
                    return self.binding_value(("from", v.name, e.attr, None), scope, depth + 1)
                if full in self.mods or full in self.packages:
                    return self.modval(full)
                return UNK
            if isinstance(v, tuple) and v[0] == "pkg":
                return self.modval(v[1] + "." + e.attr) if v[1] + "." + e.attr in self.mods or v[1] + "." + e.attr in self.packages else UNK
            if isinstance(v, tuple) and v[0] == "ext":
                return ("ext", v[1] + "." + e.attr)
            if isinstance(v, Cls):
                c, bs = v.find(e.attr)
                if c is not None and len(bs) == 1 and isinstance(bs[0], Fn):
                    return bs[0]
                if c is not None and len(bs) == 1 and isinstance(bs[0], Cls):
                    return bs[0]
            return UNK
        return UNK

    # ---------------------------------------------------------------- types
    # a type is None (unknown), ('inst', frozenset of Cls), ('list', type), ('dict', k, v), ('tuple', (types)), ('other',)
    def ann(self, e, scope, depth=0):
        if e is None or depth > 12:
            return UNK
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.ann(ast.parse(e.value, mode="eval").body, scope, depth + 1)
                except SyntaxError:
                    return UNK
            return ("none",) if e.value is None else UNK
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.union([self.ann(e.left, scope, depth + 1), self.ann(e.right, scope, depth + 1)])
        if isinstance(e, ast.Subscript):
            v = self.value(e.value, scope)
            el = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if isinstance(v, Cls):
                return ("inst", frozenset([v]))
            if isinstance(v, tuple) and v[0] == "ext":
                n = v[1].split(".")[-1]
                t = [self.ann(x, scope, depth + 1) for x in el]
                if n == "Optional":
                    return self.union([t[0], ("none",)])
                if n == "Union":
                    return self.union(t)
                if n in ("List", "list", "Sequence", "Iterable", "Set", "set", "FrozenSet", "Iterator", "Collection", "Generator", "Deque"):
                    return ("list", t[0])
                if n in ("Dict", "dict", "Mapping", "DefaultDict", "OrderedDict") and len(t) == 2:
                    return ("dict", t[0], t[1])
                if n in ("Tuple", "tuple"):
                    if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis:
                        return ("list", t[0])
                    return ("tuple", tuple(t))
                if n == "Type" or n == "type":
                    return UNK
            return UNK
        v = self.value(e, scope)
        if isinstance(v, Cls):
            return ("inst", frozenset([v]))
        if isinstance(v, tuple) and v[0] == "ext":
            n = v[1]
            if n in ("builtins.str", "builtins.int", "builtins.bool", "builtins.float"):
                return ("basic", n.split(".")[1])
            return UNK
        # a type alias: TensorT = Union[...]
        if isinstance(e, ast.Name):
            s, bs = scope.lookup(e.id)
            if s is not None and len(bs) == 1:
                b = bs[0]
                if b[0] == "from" and self.mods.get(b[1]) is not None:
                    m = self.mods[b[1]]
                    bb = m.scope.binds.get(b[2])
                    if bb and len(bb) == 1:
                        b, s = bb[0], m.scope
                if b[0] == "assign" and isinstance(b[1], (ast.Subscript, ast.BinOp)) and b[2] == ():
                    return self.ann(b[1], s, depth + 1)
        return UNK

    def union(self, ts):
        ts = [t for t in ts if t != ("none",)]
        if not ts or any(t is UNK for t in ts):
            return UNK if ts else ("none",)
        if all(t[0] == "inst" for t in ts):
            return ("inst", frozenset().union(*[t[1] for t in ts]))
        return ts[0] if all(t == ts[0] for t in ts) else UNK

    def elem(self, t):
        if t and t[0] == "list":
            return t[1]
        if t and t[0] == "dict":
            return t[1]
        if t and t[0] == "tuple":
            return self.union(list(t[1])) if t[1] else UNK
        return UNK

    def path(self, t, path):
        for p in path:
            if t is UNK:
                return UNK
            if p == "elem":
                t = self.elem(t)
            elif t[0] == "tuple" and p < len(t[1]):
                t = t[1][p]
            elif t[0] == "list":
                t = t[1]
            else:
                return UNK
        return t

    def returns(self, f, scope):
        if f.opaque:
            return UNK
        if isinstance(f.node, ast.Lambda):
            return UNK
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return UNK
        return self.ann(f.node.returns, f.scope_parent) if f.node.returns is not None else UNK

    def type(self, e, scope, depth=0):
        if depth > 10:
            return UNK
        if isinstance(e, ast.Name):
            s, bs = scope.lookup(e.id)
            if s is None:
                return UNK
            ts = [(b, self.bind_type(b, s, depth + 1)) for b in bs]
            # a declared type holds for the values the inference knows nothing about
            if any(b[0] in ("param", "ann") and t is not UNK for b, t in ts):
                ts = [(b, t) for b, t in ts if t is not UNK]
            return self.union([t for _, t in ts])
        if isinstance(e, ast.Attribute):
            t = self.type(e.value, scope, depth + 1)
            if t and t[0] == "inst":
                return self.union([self.attr_type(c, e.attr, depth + 1) for c in t[1]])
            return UNK
        if isinstance(e, ast.Subscript):
            t = self.type(e.value, scope, depth + 1)
            if t and t[0] in ("list", "dict", "tuple"):
                if isinstance(e.slice, ast.Slice):
                    return t if t[0] == "list" else UNK
                if t[0] == "list":
                    return t[1]
                if t[0] == "dict":
                    return t[2]
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(t[1]) <= e.slice.value < len(t[1]):
                    return t[1][e.slice.value]
            return UNK
        if isinstance(e, ast.Call):
            v = self.value(e.func, scope)
            if isinstance(v, Cls):
                return ("inst", frozenset([v]))
            if isinstance(v, Fn):
                return self.returns(v, scope)
            if isinstance(v, tuple) and v == ("ext", "typing.cast") and len(e.args) == 2:
                return self.ann(e.args[0], scope)
            if isinstance(e.func, ast.Attribute):
                t = self.type(e.func.value, scope, depth + 1)
                if t and t[0] == "inst":
                    out = []
                    for c in t[1]:
                        k, bs = c.find(e.func.attr)
                        if k is None:
                            return UNK
                        out += [self.returns(b, scope) if isinstance(b, Fn) and not b.prop else UNK for b in bs]
                        for d in c.family():
                            if e.func.attr in d.attrs:
                                out += [self.returns(b, scope) if isinstance(b, Fn) and not b.prop else UNK for b in d.attrs[e.func.attr]]
                    return self.union(out)
                if t and t[0] == "dict":
                    if e.func.attr in ("get", "pop") and e.args:
                        return t[2] if len(e.args) == 1 else self.union([t[2], self.type(e.args[1], scope, depth + 1)])
                    if e.func.attr == "values":
                        return ("list", t[2])
                    if e.func.attr == "keys":
                        return ("list", t[1])
                    if e.func.attr == "items":
                        return ("list", ("tuple", (t[1], t[2])))
                if t and t[0] == "list" and e.func.attr == "pop":
                    return t[1]
            return UNK
        if isinstance(e, ast.IfExp):
            return self.union([self.type(e.body, scope, depth + 1), self.type(e.orelse, scope, depth + 1)])
        if isinstance(e, ast.Constant):
            if e.value is None:
                return ("none",)
            return ("basic", type(e.value).__name__)
        if isinstance(e, ast.List) and e.elts and not any(isinstance(x, ast.Starred) for x in e.elts):
            return ("list", self.union([self.type(x, scope, depth + 1) for x in e.elts]))
        if isinstance(e, ast.ListComp):
            return ("list", self.type(e.elt, self.scope_of(e, scope), depth + 1))
        if isinstance(e, ast.NamedExpr):
            return self.type(e.value, scope, depth + 1)
        return UNK

    def scope_of(self, node, scope):
        return scope.mod.scopes.get(node, scope)

    def bind_type(self, b, scope, depth):
        k = b[0]
        if k == "param":
            _, node, fn, cls, i, kind = b
            if i == 0 and cls is not None and not fn.static:
                return ("inst", frozenset([cls])) if not fn.clsm else UNK
            t = self.ann(node.annotation, fn.scope_parent) if node.annotation is not None else UNK
            if kind == "var":
                return ("list", t)
            if kind == "kw":
                return UNK
            return t
        if k == "ann":
            t = self.ann(b[1], scope)
            v = self.type(b[2], scope, depth + 1) if b[2] is not None else UNK
            # List in an annotation may be meant as typing.List although the name is the repository's
            return UNK if t and t[0] == "inst" and (v and v[0] not in ("inst", "none") or isinstance(b[2], (ast.List, ast.Dict, ast.Tuple, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))) else t
        if k == "assign":
            if b[1] is None:
                return UNK
            return self.path(self.type(b[1], self.scope_in(b, scope), depth + 1), b[2])
        return UNK

    def scope_in(self, b, scope):
        return b[3] if len(b) > 3 and b[3] is not None else scope

    def attr_type(self, c, name, depth):
        for k in c.mro():
            if name in k.attrs:
                out = []
                for b in k.attrs[name]:
                    if isinstance(b, Fn):
                        out.append(self.returns(b, None) if b.prop else UNK)
                    elif isinstance(b, tuple) and b[0] == "ann":
                        out.append(self.ann(b[1], k.scope))
                    else:
                        out.append(UNK)
                return self.union(out)
        out = []
        for k in c.mro() + c.family():
            for value, fn, annot in k.inst.get(name, []):
                if annot is not None:
                    return self.ann(annot, fn.scope)
                out.append(self.type(value, fn.scope, depth + 1) if value is not None else UNK)
        return self.union(out) if out else UNK


def exclusive(tree, nodes):
    """are these statements pairwise in different branches of the same if statements?"""
    where = {}

    def go(body, path):
        for st in body:
            for n in nodes:
                if st is n:
                    where[id(n)] = path
            if isinstance(st, ast.If):
                go(st.body, path + ((id(st), 0),))
                go(st.orelse, path + ((id(st), 1),))
            elif isinstance(st, (ast.Try, ast.With)):
                go(st.body, path)
    go(tree.body, ())
    ps = [where.get(id(n)) for n in nodes]
    if any(p is None for p in ps):
        return False
    for i, p in enumerate(ps):
        for q in ps[:i]:
            if not any(dict(q).get(k, v) != v for k, v in p):
                return False
    return True


def same(a, b):
    return a is b or (isinstance(a, tuple) and a == b)


class Collector(ast.NodeVisitor):
    def __init__(self, repo, mod):
        self.repo, self.mod = repo, mod
        mod.classes, mod.fns, mod.stars = [], [], []

    def run(self):
        m = self.mod
        m.scope = Scope(m.tree, None, m, "module", "")
        m.scopes[m.tree] = m.scope
        self.s = m.scope
        self.block_globals(m.tree.body, m.scope)
        for st in m.tree.body:
            self.visit(st)

    def block_globals(self, body, scope):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Global):
                scope.globals_ |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                scope.nonlocals |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo += list(ast.iter_child_nodes(n))

    def absolute(self, node):
        if not node.level:
            return node.module or ""
        parts = self.mod.name.split(".")
        if not self.mod.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    # ------------------------------------------------------------ bindings
    def visit_Import(self, n):
        for a in n.names:
            if a.asname:
                self.s.add(a.asname, ("import", a.name, n))
            else:
                self.s.add(a.name.split(".")[0], ("import", a.name.split(".")[0], n))

    def visit_ImportFrom(self, n):
        t = self.absolute(n)
        for a in n.names:
            if a.name == "*":
                self.mod.stars.append((n, t))
            else:
                self.s.add(a.asname or a.name, ("from", t, a.name, n))

    def visit_Global(self, n):
        pass

    def function(self, n, name):
        f = Fn(n, self.mod, (self.s.qual + "." if self.s.qual else "") + name, self.s.cls if self.s.kind == "class" else None)
        f.scope_parent = self.s
        self.mod.fns.append(f)
        a = n.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.annotation is not None:
                self.visit(x.annotation)
        for d in getattr(n, "decorator_list", []):
            self.visit(d)
        if getattr(n, "returns", None) is not None:
            self.visit(n.returns)
        s = Scope(n, self.s, self.mod, "fn", f.qual)
        s.fn = f
        f.scope = s
        self.mod.scopes[n] = s
        for i, x in enumerate(a.posonlyargs + a.args):
            s.add(x.arg, ("param", x, f, f.cls, i, "pos"))
        for x in a.kwonlyargs:
            s.add(x.arg, ("param", x, f, None, -1, "pos"))
        if a.vararg:
            s.add(a.vararg.arg, ("param", a.vararg, f, None, -1, "var"))
        if a.kwarg:
            s.add(a.kwarg.arg, ("param", a.kwarg, f, None, -1, "kw"))
        old, self.s = self.s, s
        body = n.body if isinstance(n.body, list) else [n.body]
        self.block_globals(body, s)
        for st in body:
            self.visit(st)
        self.s = old
        return f

    def visit_FunctionDef(self, n):
        f = self.function(n, n.name)
        if self.s.kind == "class" and self.s.cls is not None and not f.overload:
            if f.setter:
                self.s.add(n.name, ("def", f))
                return
            self.s.cls.attrs.setdefault(n.name, []).append(f)
        if not f.overload:
            self.s.add(n.name, ("def", f))

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.function(n, "<lambda>")

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)
        c = Cls(n, self.mod, (self.s.qual + "." if self.s.qual else "") + n.name)
        c.scope_parent = self.s
        self.mod.classes.append(c)
        self.s.add(n.name, ("class", c))
        s = Scope(n, self.s, self.mod, "class", c.qual)
        s.cls = c
        c.scope = s
        self.mod.scopes[n] = s
        old, self.s = self.s, s
        self.block_globals(n.body, s)
        for st in n.body:
            self.visit(st)
        self.s = old
        for name, bs in s.binds.items():
            for b in bs:
                if b[0] == "class":
                    c.attrs.setdefault(name, []).append(b[1])
                elif b[0] == "ann":
                    c.attrs.setdefault(name, []).append(b)
                elif b[0] != "def":
                    c.attrs.setdefault(name, []).append(("expr", b))
                elif b[1].setter and name not in c.attrs:
                    c.attrs.setdefault(name, []).append(b[1])

    def target(self, t, value, path=()):
        if isinstance(t, ast.Name):
            self.s.add(t.id, ("assign", value, path, self.s))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.target(x.value, None)
                else:
                    st = any(isinstance(y, ast.Starred) for y in t.elts[:i])
                    self.target(x, None if st else value, path + (i,))
        elif isinstance(t, ast.Starred):
            self.target(t.value, None)
        else:
            self.visit(t)
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                self.self_attr(t, value if path == () else None, None)

    def self_attr(self, t, value, annot):
        s = self.s
        while s is not None and s.kind != "fn":
            s = s.parent
        f = s.fn if s else None
        # nested functions close over self
        while f is not None and (f.cls is None or not f.node.args.args or f.node.args.args[0].arg != t.value.id):
            p = f.scope_parent
            while p is not None and p.kind != "fn":
                p = p.parent
            f = p.fn if p else None
        if f is not None and not f.static:
            (f.cls.attrs.setdefault(t.attr, []).append(("expr", None)) if f.clsm else f.cls.inst.setdefault(t.attr, []).append((value, s.fn, annot)))

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.target(t, n.value)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.annotation)
        if isinstance(n.target, ast.Name):
            self.s.add(n.target.id, ("ann", n.annotation, n.value))
        else:
            self.visit(n.target)
            if isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name):
                self.self_attr(n.target, n.value, n.annotation)

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.s.add(n.target.id, ("assign", None, (), self.s))
        else:
            self.visit(n.target)

    def visit_NamedExpr(self, n):
        self.visit(n.value)
        s, old = self.s, self.s
        while s.kind == "comp":
            s = s.parent
        self.s = s
        self.target(n.target, n.value)
        self.s = old

    def visit_For(self, n):
        self.visit(n.iter)
        self.target(n.target, n.iter, ("elem",))
        for st in n.body + n.orelse:
            self.visit(st)

    visit_AsyncFor = visit_For

    def visit_With(self, n):
        for i in n.items:
            self.visit(i.context_expr)
            if i.optional_vars is not None:
                self.target(i.optional_vars, None)
        for st in n.body:
            self.visit(st)

    visit_AsyncWith = visit_With

    def visit_ExceptHandler(self, n):
        if n.type is not None:
            self.visit(n.type)
        if n.name:
            self.s.add(n.name, ("assign", None, (), self.s))
        for st in n.body:
            self.visit(st)

    def visit_MatchAs(self, n):
        if n.name:
            self.s.add(n.name, ("assign", None, (), self.s))
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.s.add(n.name, ("assign", None, (), self.s))

    def visit_MatchMapping(self, n):
        if n.rest:
            self.s.add(n.rest, ("assign", None, (), self.s))
        self.generic_visit(n)

    def comp(self, n):
        s = Scope(n, self.s, self.mod, "comp", self.s.qual)
        s.fn = self.s.fn
        self.mod.scopes[n] = s
        first = True
        for g in n.generators:
            if first:
                self.visit(g.iter)
            old, self.s = self.s, s
            if not first:
                self.visit(g.iter)
            self.target_in(g.target, g.iter, old if first else s)
            for c in g.ifs:
                self.visit(c)
            self.s = old
            first = False
        old, self.s = self.s, s
        for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
            self.visit(x)
        self.s = old

    def target_in(self, t, value, vscope):
        def go(t, path):
            if isinstance(t, ast.Name):
                self.s.add(t.id, ("assign", value, path, vscope))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    go(x.value if isinstance(x, ast.Starred) else x, path + (i,))
            else:
                self.visit(t)
        go(t, ("elem",))

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp


# -------------------------------------------------------------------- binding of calls
def bind_call(call, pos, req, kwo, var, kw, posonly=()):
    """None when the arguments fit, else the message"""
    if any(isinstance(a, ast.Starred) for a in call.args):
        npos = None
        fixed = sum(1 for a in call.args if not isinstance(a, ast.Starred))
        if fixed > len(pos) and not var:
            return "takes %d positional arguments, at least %d are given" % (len(pos), fixed)
    else:
        npos = len(call.args)
        if npos > len(pos) and not var:
            return "takes %d positional arguments, %d are given" % (len(pos), npos)
    star = any(k.arg is None for k in call.keywords)
    names = [k.arg for k in call.keywords if k.arg is not None]
    for k in names:
        if k in kwo or (k in pos and k not in posonly):
            if npos is not None and k in pos and pos.index(k) < npos:
                return "gets two values for its parameter %s" % k
        elif not kw:
            return "has no parameter %s" % k
    if not star:
        if npos is not None:
            miss = [p for p in req if pos.index(p) >= npos and p not in names]
            if miss:
                return "needs %s" % ", ".join(miss)
        miss = [k for k, r in kwo.items() if r and k not in names]
        if miss:
            return "needs the keyword %s" % ", ".join(miss)
    return None


_std = {}


def std_has(name):
    """does the standard library define this dotted name? None when it is not a module we know"""
    top = name.split(".")[0]
    if top == "builtins":
        return None
    if top not in STD:
        return None
    if name not in _std:
        parts = name.split(".")
        r = None
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:i]))
            except ImportError:
                continue
            r = True
            for p in parts[i:]:
                if not hasattr(o, p):
                    r = False
                    break
                o = getattr(o, p)
                if not (isinstance(o, type(sys)) or isinstance(o, type)):
                    break
            break
        _std[name] = r
    return _std[name]
