"""Effect analysis of shared containers: default arguments, class attributes and module-level containers.

A container that exists once per process (a default argument, a class attribute, a module-level display) is followed through
assignments, attribute stores and calls; a mutation of it inside a function is an effect that outlives the analysis that causes it."""
from __future__ import annotations

import ast
import os
import warnings

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "setdefault", "discard", "popitem", "appendleft", "__setitem__", "difference_update", "intersection_update"}


def mutable_display(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "ObjectSet"))


def empty(d):
    return not (getattr(d, "elts", None) or getattr(d, "keys", None) or getattr(d, "args", None) or isinstance(d, (ast.ListComp, ast.DictComp, ast.SetComp)))


def weak(roots):
    return {("filled",) + r[1:] if r[0] == "param" else r for r in roots}


class Fun:
    def __init__(self, mod, path, cls, node):
        self.mod, self.path, self.cls, self.node = mod, path, cls, node
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.params = self.pos + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.qual = (cls + "." if cls else "") + node.name
        self.defaults = {}
        for n, d in list(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if mutable_display(d):
                self.defaults[n] = d
        self.muts = {}             # root -> line of a mutation
        self.escapes = set()       # (root, attribute)


class Effects:
    def __init__(self, repo, files):
        self.funs, self.byname, self.classattr, self.globals_ = [], {}, [], []
        self.classes = {}
        for f in files:
            p = os.path.join(repo, f)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t = ast.parse(open(p, encoding="utf-8").read())
            self.scan(f, t.body, None)
            for s in t.body:
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and v is not None and mutable_display(v):
                    for x in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(x, ast.Name):
                            self.globals_.append((f, x.id, s.lineno))
        for fn in self.funs:
            self.byname.setdefault(fn.node.name, []).append(fn)
            if fn.node.name == "__init__" and fn.cls:
                self.byname.setdefault(fn.cls, []).append(fn)

    def scan(self, f, body, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funs.append(Fun(f, f, cls, s))
                self.scan(f, s.body, cls)
            elif isinstance(s, ast.ClassDef):
                self.classes.setdefault(s.name, []).append(f)
                for x in s.body:
                    v = getattr(x, "value", None)
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and v is not None and mutable_display(v):
                        for y in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                            if isinstance(y, ast.Name):
                                self.classattr.append((f, s.name, y.id, x.lineno))
                self.scan(f, s.body, s.name)
            else:
                for b in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, b, None), list):
                        self.scan(f, getattr(s, b), cls)
                for h in getattr(s, "handlers", []):
                    self.scan(f, h.body, cls)

    # ---- one function
    def roots(self, fn, e, env):
        """what shared containers e may denote"""
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return {("global", e.id)}
        if isinstance(e, ast.Attribute):
            out = set()
            if isinstance(e.value, ast.Name) and e.value.id in self.classes:
                out.add(("class", e.value.id, e.attr))
            out.add(("attr", e.attr))
            return out
        if isinstance(e, ast.BoolOp):
            rs = [self.roots(fn, v, env) for v in e.values]
            if isinstance(e.op, ast.Or):       # a container that is empty is never the result of `x or ...`
                rs = [weak(r) for r in rs[:-1]] + rs[-1:]
            return set().union(*rs)
        if isinstance(e, ast.IfExp):
            return self.roots(fn, e.body, env) | self.roots(fn, e.orelse, env)
        if isinstance(e, ast.NamedExpr):
            return self.roots(fn, e.value, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
            return self.roots(fn, e.args[1], env)
        return set()

    def summary(self, fn):
        env = {p: {("param", p)} for p in fn.params}
        glob = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Global):
                glob |= set(n.names)
        loc = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
        for n in loc:
            env.setdefault(n, set())
        self.block(fn, fn.node.body, env)

    def hit(self, fn, roots, node, how):
        for r in roots:
            fn.muts.setdefault(r, (node.lineno, how))

    def exprs(self, fn, node, env):
        for n in ast.walk(node):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in MUT:
                self.hit(fn, self.roots(fn, f.value, env), n, ".%s()" % f.attr)
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if name is None or name in MUT:
                continue
            args = [(i, self.roots(fn, a, env)) for i, a in enumerate(n.args) if not isinstance(a, ast.Starred)]
            kws = [(k.arg, self.roots(fn, k.value, env)) for k in n.keywords if k.arg]
            rs = [(k, {r for r in v if r[0] != "attr"}) for k, v in args + kws]
            if not any(v for _, v in rs):
                continue
            for g in self.byname.get(name, []):
                method = bool(g.cls) and not any(getattr(d, "id", "") == "staticmethod" for d in g.node.decorator_list)
                if isinstance(f, ast.Name) and g.cls and g.node.name != "__init__":
                    continue
                if isinstance(f, ast.Attribute) and not g.cls and not isinstance(f.value, ast.Name):
                    continue
                off = 1 if method else 0
                for k, v in rs:
                    p = k if isinstance(k, str) else g.pos[k + off] if k + off < len(g.pos) else None
                    if p and ("filled", p) in g.muts:
                        self.hit(fn, weak(v), n, "passed to %s, which changes %s at line %d" % (g.qual, p, g.muts[("filled", p)][0]))
                    if p and ("param", p) in g.muts:
                        self.hit(fn, v, n, "passed to %s, which changes %s at line %d" % (g.qual, p, g.muts[("param", p)][0]))
                    for r, a in list(g.escapes):
                        if r in (("param", p), ("filled", p)):
                            fn.escapes |= {(x, a) for x in (v if r[0] == "param" else weak(v))}

    def block(self, fn, body, env):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is None:
                    continue
                self.exprs(fn, s.value, env)
                rs = self.roots(fn, s.value, env)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        env[t.id] = set(rs)
                    elif isinstance(t, ast.Attribute):
                        fn.escapes |= {(r, t.attr) for r in rs if r[0] != "attr"}
                    elif isinstance(t, ast.Subscript):
                        self.hit(fn, self.roots(fn, t.value, env), s, "[...] = ...")
            elif isinstance(s, ast.AugAssign):
                self.exprs(fn, s.value, env)
                t = s.target
                if isinstance(t, ast.Subscript):
                    self.hit(fn, self.roots(fn, t.value, env), s, "[...] augmented")
                elif isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.Dict, ast.Call)) or isinstance(s.op, ast.BitOr):
                    self.hit(fn, self.roots(fn, t, env), s, "augmented in place")
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Subscript):
                        self.hit(fn, self.roots(fn, t.value, env), s, "del [...]")
            else:
                for f in ("test", "iter", "value", "exc", "msg"):
                    if isinstance(getattr(s, f, None), ast.AST):
                        self.exprs(fn, getattr(s, f), env)
                for i in getattr(s, "items", []):
                    if isinstance(i, ast.withitem):
                        self.exprs(fn, i.context_expr, env)
                outs = []
                for b in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, b, None), list) and getattr(s, b):
                        e = {k: set(v) for k, v in env.items()}
                        self.block(fn, getattr(s, b), e)
                        outs.append(e)
                for h in getattr(s, "handlers", []):
                    e = {k: set(v) for k, v in env.items()}
                    self.block(fn, h.body, e)
                    outs.append(e)
                for e in outs:
                    for k, v in e.items():
                        env[k] = env.get(k, set()) | v

    # ---- verdicts
    def run(self):
        size = -1
        while size != (size := sum(len(fn.muts) + len(fn.escapes) for fn in self.funs)):
            for fn in self.funs:
                self.summary(fn)
        attr = {}
        for fn in self.funs:
            for r, (l, how) in fn.muts.items():
                if r[0] == "attr":
                    attr.setdefault(r[1], []).append((fn, l, how))
        for fn in self.funs:
            for p in fn.defaults:
                kinds = [("param", p)] + ([] if empty(fn.defaults[p]) else [("filled", p)])
                m = next((fn.muts[k] for k in kinds if k in fn.muts), None)
                if m is None:
                    for r, a in sorted(fn.escapes, key=str):
                        if r in kinds:
                            for g, l, how in attr.get(a, []):
                                if g.path == fn.path or g.cls == fn.cls:
                                    m = m or (l, "through .%s in %s %s" % (a, g.qual, how))
                yield "default", "%s:%s(%s)" % (fn.path, fn.qual, p), "%s:%d %s" % (fn.path, fn.node.lineno, fn.qual), m
        for f, c, a, line in self.classattr:
            own = any(fn.cls == c and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a and getattr(n.value, "id", "") == "self" for n in ast.walk(fn.node)) for fn in self.funs if fn.node.name == "__init__" and fn.path == f)
            m = None
            for fn in self.funs:
                m = m or fn.muts.get(("class", c, a))
                if not own and fn.path == f and fn.cls == c:
                    m = m or fn.muts.get(("attr", a))
            yield "class", "%s:%s.%s" % (f, c, a), "%s:%d %s" % (f, line, c), m
        for f, g, line in self.globals_:
            m = None
            for fn in self.funs:
                if fn.path == f:
                    m = m or fn.muts.get(("global", g))
            yield "module", "%s:%s" % (f, g), "%s:%d" % (f, line), m
