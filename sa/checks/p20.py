"""P20: internal calls fit the functions they reach; names and attributes exist.

A symbol-table analysis (sa/binder.py) of every Python module of the package: scopes, imports,
classes with their bases, signatures, the attributes each class ever gets, and a flow-insensitive
inference of the repository class of an expression from annotations, constructors and results.
"""
import ast
import os
import warnings

from .. import core
from ..binder import BUILTINS, OBJ, Cls, Fn, Mod, Repo, bind_call, dotted, same, std_has

FLOOR = 2500
DIRS = ("metalift", "llmlift_scripts")


def files(root):
    out = []
    for d in DIRS:
        for b, ds, fs in os.walk(os.path.join(root, d)):
            # verification_with_testing holds test files written by and for a language model
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "verification_with_testing"))
            out += [os.path.relpath(os.path.join(b, f), root) for f in sorted(fs) if f.endswith(".py")]
    return sorted(out)


def clients(root):
    """the drivers of the benchmarks and examples: only what they use of the tool is judged"""
    out = []
    for d in ("benchmarks", "tests"):
        for b, ds, fs in os.walk(os.path.join(root, d)):
            out += [os.path.relpath(os.path.join(b, f), root) for f in fs if f.endswith(".py")]
    return sorted(out)


def run(ctx):
    warnings.simplefilter("ignore")
    own = files(core.REPO)
    repo = Repo(core.REPO, own + clients(core.REPO))
    for rel, msg in repo.problems:
        ctx.bad("parse/" + rel, msg, rel)
    ctx.rule("names: every name read in a function is bound in its scope, an enclosing one, the module or the builtins, and some binding can have run")
    ctx.rule("imports: every module of the repository that is imported exists and has the names taken from it; so do the standard library's")
    ctx.rule("attributes: every attribute of a repository module, class, self or value of a known repository class is defined there")
    ctx.rule("calls: the arguments of every call of a repository function, class or method fit one of the definitions it can reach")
    ctx.rule("overrides: a method that replaces one of a base class takes every call the replaced one takes, and is of the same kind (method, static, property)")
    w = Walker(ctx, repo)
    for m in sorted(repo.mods.values(), key=lambda m: m.name):
        w.module(m)
    w.overrides()
    for k in sorted(w.bads):
        ctx.bad(k, w.bads[k][0], w.bads[k][1])
    for k in sorted(w.oks):
        if k not in w.bads:
            ctx.ok(k)
    ctx.mods = {m.path for m in repo.mods.values()}
    ctx.fns = {repr(f) for m in repo.mods.values() for f in m.fns}
    ctx.calls = w.count.get("call", 0)
    ctx.stat("classes", len(repo.classes))
    for k, v in sorted(w.count.items()):
        ctx.stat(k, v)


def ours(name):
    return name.split(".")[0] in DIRS


def kind(f):
    return "a property" if f.prop else "a static method" if f.static else "a class method" if f.clsm else "a method"


def span(req, pos):
    return str(len(req)) if len(req) == len(pos) else "%d to %d" % (len(req), len(pos))


LIB = set()
for _t in (str, bytes, list, dict, set, frozenset, tuple, int, float, bool, type, BaseException, object):
    LIB |= set(dir(_t))
LIB |= {"read", "write", "close", "readline", "readlines", "flush", "group", "groups", "match", "search", "poll", "wait", "communicate", "terminate", "kill", "glob", "open", "run", "parse", "name", "args", "type"}


class Walker:
    def __init__(self, ctx, repo):
        self.ctx, self.r = ctx, repo
        self.client = False
        self.bads, self.oks, self.count, self.undefined = {}, set(), {}, {}
        self.allattrs = set()
        self.methods = {}
        other = set()
        for c in repo.classes:
            if not ours(c.mod.name):
                continue
            other |= set(c.inst)
            for k, bs in c.attrs.items():
                for b in bs:
                    if isinstance(b, Fn) and not b.opaque and not b.prop:
                        self.methods.setdefault(k, []).append((b, not b.static))
                    else:
                        other.add(k)
        for k in other:
            self.methods.pop(k, None)

    def overrides(self):
        """a method that replaces one of a base class takes every call the replaced one takes"""
        self.client = False
        for c in self.r.classes:
            if not ours(c.mod.name):
                continue
            for name, bs in sorted(c.attrs.items()):
                if name.startswith("__") or len(bs) != 1 or not isinstance(bs[0], Fn) or bs[0].opaque:
                    continue
                f = bs[0]
                for b in c.mro()[1:]:
                    g = b.attrs.get(name)
                    if not g or len(g) != 1 or not isinstance(g[0], Fn) or g[0].opaque:
                        continue
                    g = g[0]
                    if (f.prop, f.static, f.clsm) != (g.prop, g.static, g.clsm):
                        msg = "is %s, the one of %s it replaces is %s" % (kind(f), b, kind(g))
                    else:
                        fp, fr, fk, fv, fw, _ = f.params(not f.static)
                        gp, gr, gk, gv, gw, _ = g.params(not g.static)
                        msg = None
                        if len(fr) > len(gr) and not gv or len(fp) < len(gp) and not fv:
                            msg = "takes %s parameters, the one of %s it replaces takes %s" % (span(fr, fp), b, span(gr, gp))
                        elif any(r and k not in gk and k not in gp for k, r in fk.items()):
                            msg = "needs a keyword the one of %s it replaces does not have" % b
                        elif not fw and any(k not in fk and k not in fp for k in gk):
                            msg = "lacks a keyword of the one of %s it replaces" % b
                    self.m, self.s = c.mod, c.scope
                    self.put("override", name, msg and "%s %s" % (f, msg), f.node)
                    break

    def loc(self, n):
        return "%s:%s %s" % (self.m.path, getattr(n, "lineno", "?"), self.s.qual or "<module>")

    def put(self, kind, what, msg, node, tool=False):
        if self.client and not tool:
            return
        key = "%s/%s.%s/%s" % (kind, self.m.name, self.s.qual or "<module>", " ".join(what.split())[:120])
        self.count[kind] = self.count.get(kind, 0) + 1
        if msg:
            self.bads.setdefault(key, (msg, self.loc(node)))
        else:
            self.oks.add(key)

    def module(self, m):
        self.m = m
        self.client = m.path.split("/")[0] not in DIRS
        self.s = m.scope
        for st in m.tree.body:
            self.stmt(st)

    def stmt(self, n):
        self.node(n)

    def node(self, n):
        """visits everything below n with the right scope"""
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None] + list(getattr(n, "decorator_list", [])):
                self.node(d)
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    self.node(x.annotation)
            if getattr(n, "returns", None) is not None:
                self.node(n.returns)
            old, self.s = self.s, self.m.scopes[n]
            for st in (n.body if isinstance(n.body, list) else [n.body]):
                self.node(st)
            self.flow(n)
            self.s = old
            return
        if isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.node(x)
            old, self.s = self.s, self.m.scopes[n]
            for st in n.body:
                self.node(st)
            self.s = old
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            first = True
            for g in n.generators:
                if first:
                    self.node(g.iter)
                    old, self.s = self.s, self.m.scopes[n]
                else:
                    self.node(g.iter)
                first = False
                self.node(g.target)
                for c in g.ifs:
                    self.node(c)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.node(x)
            self.s = old
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                self.imported(a.name, n)
            return
        if isinstance(n, ast.ImportFrom):
            return self.importfrom(n)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.name(n)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(n)
        if isinstance(n, ast.Call):
            self.call(n)
        if isinstance(n, ast.AnnAssign) and self.s.kind == "fn" and isinstance(n.target, ast.Name):
            # the annotation of a local is never evaluated
            return self.node(n.value) if n.value is not None else None
        for c in ast.iter_child_nodes(n):
            self.node(c)

    # ---------------------------------------------------------------- imports
    def imported(self, name, n):
        if name.split(".")[0] in self.r.tops():
            ok = name in self.r.mods or name in self.r.packages
            self.put("import", name, None if ok else "there is no module %s" % name, n, ours(name))
        else:
            h = std_has(name)
            if h is not None:
                self.put("import", name, None if h else "the standard library has no module %s" % name, n)

    def importfrom(self, n):
        from ..binder import Collector
        c = Collector.__new__(Collector)
        c.mod = self.m
        t = Collector.absolute(c, n)
        if t.split(".")[0] in self.r.tops():
            if t not in self.r.mods and t not in self.r.packages:
                return self.put("import", t, "there is no module %s" % t, n, ours(t))
            for a in n.names:
                if a.name != "*":
                    ok = self.r.module_attr(t, a.name)
                    self.put("import", t + "." + a.name, "%s has no %s" % (t, a.name) if ok is False else None, n, ours(t))
        else:
            for a in n.names:
                h = std_has(t + "." + a.name) if a.name != "*" else None
                if h is not None:
                    self.put("import", t + "." + a.name, None if h else "%s has no %s" % (t, a.name), n)

    # ---------------------------------------------------------------- names
    def name(self, n):
        s, bs = self.s.lookup(n.id)
        ok = s is not None or n.id in BUILTINS or self.m.star_open
        if ok:
            return self.put("name", n.id, None, n)
        if not self.client:
            # by module and number, so that the sites keep their names when their function is split up
            k = self.undefined[self.m.name, n.id] = self.undefined.get((self.m.name, n.id), 0) + 1
            self.count["name"] = self.count.get("name", 0) + 1
            self.bads["name/%s/%s #%d" % (self.m.name, n.id, k)] = ("%s is not defined in %s" % (n.id, self.m.path), self.loc(n))

    # ---------------------------------------------------------------- attributes
    def attribute(self, n):
        v = self.r.value(n.value, self.s)
        t = dotted(n) or ast.unparse(n)
        if isinstance(v, Mod) or (isinstance(v, tuple) and v[0] == "pkg"):
            name = v.name if isinstance(v, Mod) else v[1]
            ok = self.r.module_attr(name, n.attr)
            if ok is not None:
                self.put("attr", t, None if ok else "the module %s has no %s" % (name, n.attr), n, ours(name))
            return
        if isinstance(v, tuple) and v[0] == "ext":
            h = std_has(v[1] + "." + n.attr)
            if h is not None and dotted(n):
                self.put("attr", t, None if h else "%s has no attribute %s" % (v[1], n.attr), n)
            return
        if isinstance(v, Cls):
            if v.closed():
                ok = v.has(n.attr)
                self.put("attr", t, None if ok else "the class %s has no attribute %s" % (v, n.attr), n, ours(v.mod.name))
            return
        if isinstance(v, Fn):
            return
        if self.super_call(n.value):
            c = self.own_class()
            if c is not None and c.closed():
                ok = any(isinstance(b, Cls) and b.has(n.attr) for b in c.bases) or n.attr in OBJ
                self.put("attr", t, None if ok else "no base class of %s has %s" % (c, n.attr), n)
            return
        ty = self.r.type(n.value, self.s)
        if ty and ty[0] == "inst":
            cs = ty[1] | self.narrowed(n.value)
            if not all(d.closed() for c in cs for d in c.family()):
                return
            # a subclass may be what is there: the attribute is missing when no class of the family has it
            ok = any(d.has(n.attr) for c in cs for d in c.family())
            self.put("attr", t, None if ok else "%s is a %s, which has no %s" % (ast.unparse(n.value), " or ".join(sorted(c.qual for c in cs)), n.attr), n, all(ours(c.mod.name) for c in cs))

    def narrowed(self, e):
        """classes the function tests this expression for (or casts it to)"""
        s = self.s
        while s is not None and s.kind == "comp":
            s = s.parent
        if s is None or s.fn is None:
            return frozenset()
        if not hasattr(s.fn, "tests"):
            s.fn.tests = {}
            for x in ast.walk(s.fn.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "issubclass") and len(x.args) == 2:
                    cl = x.args[1].elts if isinstance(x.args[1], ast.Tuple) else [x.args[1]]
                    for c in cl:
                        v = self.r.value(c, s)
                        if isinstance(v, Cls):
                            s.fn.tests.setdefault(ast.unparse(x.args[0]), set()).add(v)
        return frozenset(s.fn.tests.get(ast.unparse(e), ()))

    def super_call(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args

    def own_class(self):
        s = self.s
        while s is not None:
            if s.kind == "fn" and s.fn.cls is not None:
                return s.fn.cls
            s = s.parent
        return None

    # ---------------------------------------------------------------- calls
    def call(self, n):
        f = n.func
        v = self.r.value(f, self.s)
        text = (dotted(f) or ast.unparse(f)) + "(" + ", ".join(["*" if isinstance(a, ast.Starred) else "_" for a in n.args] + ["%s=" % k.arg if k.arg else "**" for k in n.keywords]) + ")"
        if isinstance(v, Fn):
            if v.opaque:
                return
            bound = v.clsm
            return self.fits(n, text, [(v, bound)])
        if isinstance(v, Cls):
            return self.construct(n, text, v)
        if isinstance(f, ast.Attribute):
            if self.super_call(f.value):
                c = self.own_class()
                if c is None:
                    return
                for b in c.mro()[1:]:
                    if f.attr in b.attrs:
                        fs = b.attrs[f.attr]
                        if all(isinstance(x, Fn) and not x.opaque and not x.prop for x in fs):
                            self.fits(n, text, [(x, not x.static) for x in fs])
                        return
                if f.attr == "__init__" and c.closed() and (n.args or n.keywords) and not (c.outside() - {"object", "Generic", "ABC", "abc.ABC", "typing.Generic"}):
                    self.put("call", text, "no base class of %s has an __init__ with parameters" % c, n)
                return
            ty = self.r.type(f.value, self.s)
            if ty and ty[0] == "inst":
                cand = []
                for c in ty[1]:
                    k, fs = c.find(f.attr)
                    for d in ([k] if k else []) + c.family():
                        fs = d.attrs.get(f.attr, [])
                        for x in fs:
                            if not isinstance(x, Fn) or x.opaque or x.prop:
                                return
                            cand.append((x, not x.static))
                        if f.attr in d.inst:
                            return
                if cand:
                    self.fits(n, text, cand)
            elif f.attr in self.methods and f.attr not in LIB and not isinstance(v, tuple):
                # a value of unknown class: some method of that name must take the arguments
                self.fits(n, text, self.methods[f.attr])
            return
        if isinstance(v, tuple) and v[0] == "table":
            for x in v[1]:
                if isinstance(x, Fn) and not x.opaque:
                    self.fits(n, text + " -> " + x.qual, [(x, False)])
            return
        if isinstance(f, ast.Name) and v is None:
            alts = self.r.alternatives(f, self.s)
            if alts is None:
                return
            every, cand = alts
            if any(not isinstance(x, Fn) or x.opaque or x.cls is not None for x in cand):
                return
            if every:
                # one definition per configuration: the call reaches each of them
                for x in cand:
                    self.fits(n, text + " -> " + repr(x), [(x, False)])
            else:
                self.fits(n, text, [(x, False) for x in cand])

    def fits(self, n, text, cand):
        msgs = []
        for f, bound in cand:
            pos, req, kwo, var, kw, po = f.params(bound)
            m = bind_call(n, pos, req, kwo, var, kw, po)
            tool = ours(f.mod.name)
            if m is None:
                return self.put("call", text, None, n, tool)
            msgs.append("%s %s" % (f, m))
        self.put("call", text, "the call %s does not fit: %s" % (ast.unparse(n)[:100], "; ".join(dict.fromkeys(msgs))), n, bool(cand) and all(ours(f.mod.name) for f, _ in cand))

    def construct(self, n, text, c):
        if any(k.arg == "metaclass" for d in c.mro() for k in d.node.keywords):
            return
        for d in c.mro():
            if "__new__" in d.attrs:
                return
        if any("dataclass" in (x or "") for x in c.decos) or c.outside() & {"NamedTuple", "typing.NamedTuple"}:
            k, i = c.find("__init__")
            if k is None:
                names, req = [], []
                for d in reversed(c.mro()):
                    for st in d.node.body:
                        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
                            if st.target.id in names:
                                continue
                            names.append(st.target.id)
                            if st.value is None:
                                req.append(st.target.id)
                m = bind_call(n, names, req, {}, False, False)
                return self.put("call", text, m and "the call %s does not fit: %s %s" % (ast.unparse(n)[:100], c, m), n)
        if c.outside() & {"Enum", "enum.Enum"}:
            return
        k, fs = c.find("__init__")
        if k is None:
            if c.closed() and not (c.outside() & {"Exception", "Protocol"}):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(x.arg is None for x in n.keywords):
                    return
                return self.put("call", text, "the class %s takes no arguments" % c if n.args or n.keywords else None, n)
            return
        if all(isinstance(x, Fn) and not x.opaque for x in fs):
            self.fits(n, text, [(x, True) for x in fs])

    # ---------------------------------------------------------------- use of locals no assignment reaches
    def flow(self, fn):
        if isinstance(fn, ast.Lambda):
            return
        s = self.m.scopes[fn]
        params = {k for k, bs in s.binds.items() if any(b[0] == "param" for b in bs)}
        loc = set(s.binds) - s.globals_ - s.nonlocals
        May(self, s, loc).block(fn.body, set(params))


class May:
    """forward may-assigned analysis: which locals can have a value at each use (None = unreachable)"""

    def __init__(self, w, s, loc):
        self.w, self.s, self.loc = w, s, loc
        self.brk, self.cont, self.exc = [], [], []

    def use(self, e, st):
        if e is None or st is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.loc and n.id not in st:
                self.w.put("unbound", n.id, "the local %s is read here and no assignment to it can have run" % n.id, n)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.loc:
                self.w.put("unbound", n.id, None, n)
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # a lambda runs later; a comprehension has names of its own
                if not isinstance(n, ast.Lambda):
                    todo.append(n.generators[0].iter)
                continue
            todo += list(ast.iter_child_nodes(n))

    def bind(self, t, st):
        if st is None:
            return
        if isinstance(t, ast.Name):
            st.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, st)
        else:
            self.use(t, st)

    def join(self, *sts):
        sts = [x for x in sts if x is not None]
        return set().union(*sts) if sts else None

    def block(self, body, st):
        for n in body:
            if st is None:
                return None
            if self.exc:
                self.exc[-1] |= st
            st = self.one(n, st)
            if self.exc and st:
                self.exc[-1] |= st
        return st

    def one(self, n, st):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                self.use(d, st)
            st.add(n.name)
            return st
        if isinstance(n, ast.Assign):
            self.use(n.value, st)
            for t in n.targets:
                self.bind(t, st)
            return st
        if isinstance(n, ast.AnnAssign):
            self.use(n.value, st)
            if n.value is not None:
                self.bind(n.target, st)
            return st
        if isinstance(n, ast.AugAssign):
            self.use(n.value, st)
            if isinstance(n.target, ast.Name):
                self.use(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), st)
            self.bind(n.target, st)
            return st
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                self.use(c, st)
            return None
        if isinstance(n, ast.If):
            self.use(n.test, st)
            return self.join(self.block(n.body, set(st)), self.block(n.orelse, set(st)))
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(n, ast.While):
                t = set(st) | self.assigned(n.body)
                self.use(n.test, t)
                st |= {x.target.id for x in ast.walk(n.test) if isinstance(x, ast.NamedExpr)}
            else:
                self.use(n.iter, st)
            self.brk.append(None)
            self.cont.append(None)
            e = set(st) | self.assigned(n.body)
            if not isinstance(n, ast.While):
                self.bind(n.target, e)
            end = self.block(n.body, e)
            b, c = self.brk.pop(), self.cont.pop()
            out = self.join(st, end, c)
            forever = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
            out = self.block(n.orelse, out) if not forever else None
            return self.join(out, b)
        if isinstance(n, ast.Break):
            self.brk[-1] = self.join(self.brk[-1], st)
            return None
        if isinstance(n, ast.Continue):
            self.cont[-1] = self.join(self.cont[-1], st)
            return None
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            # the manager may swallow an exception
            mid = set(st)
            return self.join(self.block(n.body, st), mid | self.assigned(n.body))
        if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            self.exc.append(set(st))
            end = self.block(n.body, set(st))
            ex = self.exc.pop()
            if self.exc:
                self.exc[-1] |= ex
            outs = [self.block(n.orelse, end) if end is not None else None]
            for h in n.handlers:
                hs = set(ex)
                self.use(h.type, hs)
                if h.name:
                    hs.add(h.name)
                outs.append(self.block(h.body, hs))
            out = self.join(*outs)
            if n.finalbody:
                fin = self.block(n.finalbody, set(ex) | (out or set()))
                return self.join(out, fin) if out is not None and fin is not None else None
            return out
        if isinstance(n, ast.Match):
            self.use(n.subject, st)
            outs = [set(st)]
            for c in n.cases:
                e = set(st) | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name} | {x.rest for x in ast.walk(c.pattern) if isinstance(x, ast.MatchMapping) and x.rest}
                self.use(c.guard, e)
                outs.append(self.block(c.body, e))
            return self.join(*outs)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    st.discard(t.id)
                else:
                    self.use(t, st)
            return st
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                st.add(a.asname or a.name.split(".")[0])
            return st
        for c in ast.iter_child_nodes(n):
            self.use(c, st)
        return st

    def assigned(self, body):
        out = set()
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                out |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
                continue
            todo += list(ast.iter_child_nodes(n))
        return out
