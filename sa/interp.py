"""Abstract interpreter for Python source in the term / string-template domain.

The source text of /repo is parsed with the standard `ast` module; nothing of it is imported or run.
Unknown values are terms, unknown conditions partition the analysis, loops over unknown sequences are
summarised by one generic iteration (Star), calls that class-hierarchy analysis cannot resolve stay terms.
"""
from __future__ import annotations

import ast
import builtins as _pybuiltins
import os
import sys
import time

from .values import *
from .values import _Return, _Break, _Continue

sys.setrecursionlimit(200000)

BUILTIN_EXC = {n for n, v in vars(_pybuiltins).items() if isinstance(v, type) and issubclass(v, BaseException)}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "|": "or",
          "&": "and", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}
CMP_D = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__"),
         "==": ("__eq__", "__eq__"), "!=": ("__ne__", "__ne__")}
NOTIMPL = Ext("builtins.NotImplemented")
SILENT_EXT_BASES = ("typing.", "builtins.", "enum.", "abc.", "collections.", "dataclasses.")


class Super(Val):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Result:
    """One partition of the analysis."""
    __slots__ = ("kind", "value", "exc", "facts", "events", "script", "msg", "loc", "approx")

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.msg or "", self.value if self.kind == "return" else "")


def fn_locals(node):
    """names bound in a function body (not descending into nested scopes)."""
    c = getattr(node, "_sa_locals", None)
    if c is not None:
        return c
    names, glob, nonl, gen = set(), set(), set(), [False]

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for ch in ast.iter_child_nodes(n):
            walk(ch)

    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    node._sa_locals = (frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl), gen[0])
    return node._sa_locals


from .builtins_ import BuiltinsMixin  # noqa: E402


class Interp(BuiltinsMixin):
    MAX_DEPTH = 160
    MAX_PATHS = 400
    MAX_STEPS = 3_000_000
    BUDGET = 60         # seconds for one exploration
    TOTAL = 540         # seconds for all of them
    UNROLL = 400

    def __init__(self, repo, roots=("",), prefixes=("metalift", "llmlift_scripts", "tests.python.utils")):
        self.repo = repo
        self.t0 = time.time()
        self.stop_at = None
        self.prefixes = prefixes
        self.modules = {}
        self.sources = {}
        self.base = {}
        self.base_site = {}
        self.heap = {}
        self.nsov = {}
        self.in_base = 0
        self.nextb = 1
        self.nextp = 10**6
        self.classes = []
        self.subclasses = {}
        self.hints = {}            # persistent: T -> (type, exact)
        self.known_attr = {}       # persistent: (T, name) -> Val
        self.summaries = {}        # qualname -> fn(interp, fnval, args, kwargs)
        self.ext_models = {}       # dotted -> fn(interp, args, kwargs)
        self.method_hook = None    # fn(interp, recv T, name, args, kwargs) -> Val | None
        self.ext_method = None     # fn(interp, obj, cls, name) -> Val | None: method inherited from an external class
        self.attr_hook = None      # fn(interp, recv T, name) -> Val | None
        self.no_inline = set()
        self.override_exempt = set()  # classes ignored by class-hierarchy analysis
        self.ext_disjoint = ()     # dotted prefixes of external leaf classes that are pairwise disjoint
        self.ext_super = set()     # external classes with subclasses
        self.visited_fns = set()   # quals analysed
        self.call_sites = 0
        self.module_overrides = {}
        self.reset_path([])

    # ------------------------------------------------------------------ paths
    def reset_path(self, script):
        self.heap = {}
        self.nsov = {}
        self.tattrs = {}
        self.nextp = 10**6
        self.script = list(script)
        self.pos = 0
        self.pending = []
        self.facts = {}
        self.factlog = []
        self.eqconst = {}
        self.narrow = {}
        self.notinst = {}
        self.events = []
        self.depth = 0
        self.stack = []
        self.star_depth = 0
        self.steps = 0
        self.occ = 0
        self.loc = None
        self.approx = []
        self.phints = {}

    def explore(self, fn, max_paths=None, name=""):
        """run fn(self) under every partition; returns list of Result."""
        max_paths = max_paths or self.MAX_PATHS
        now = time.time()
        self.stop_at = min(now + self.BUDGET, max(self.t0 + self.TOTAL, now + 0.5))
        work = [[]]
        out = []
        while work:
            script = work.pop()
            if len(out) >= max_paths or time.time() > self.stop_at:
                r = Result()
                r.kind, r.value, r.exc, r.facts, r.events, r.script, r.msg, r.loc, r.approx = "limit", None, None, [], [], script, "too many partitions", None, ["limit"]
                out.append(r)
                break
            self.reset_path(script)
            r = Result()
            r.value = r.exc = None
            r.msg = ""
            r.loc = None
            try:
                r.value = fn(self)
                r.kind = "return"
            except PyExc as e:
                r.kind, r.exc, r.msg, r.loc = "raise", e, e.msg, e.loc
            except Cut as c:
                r.kind, r.msg, r.loc = c.kind, c.why, c.loc
            except RecursionError:
                r.kind, r.msg = "limit", "host recursion"
            except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                r.kind, r.msg = "harness", "%s: %s (%s:%d)" % (type(e).__name__, e, tb.tb_frame.f_code.co_filename, tb.tb_lineno)
            r.facts, r.events, r.script, r.approx = list(self.factlog), list(self.events), list(self.script), list(self.approx)
            out.append(r)
            work.extend(self.pending)
        return out

    def note_approx(self, why):
        self.approx.append((why, self.loc))

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        if self.in_base:
            i = self.nextb
            self.nextb += 1
            self.base[i] = obj
            self.base_site[i] = self.loc
        else:
            i = self.nextp
            self.nextp += 1
            self.heap[i] = obj
        try:
            obj.depth = self.star_depth
        except AttributeError:
            pass
        return Ref(i)

    def get(self, ref):
        o = self.heap.get(ref.id)
        return o if o is not None else self.base[ref.id]

    def mut(self, ref):
        o = self.heap.get(ref.id)
        if o is not None:
            return o
        o = self.base[ref.id]
        if self.in_base:
            return o
        o = o.copy()
        self.heap[ref.id] = o
        self.event("mutate-shared", (ref.id, self.base_site.get(ref.id)))
        return o

    def new_list(self, items):
        return self.alloc(HList(items))

    def new_inst(self, cls, fields=None):
        return self.alloc(HInst(cls, dict(fields or {})))

    def event(self, kind, data):
        self.events.append((kind, data, self.loc, len(self.factlog)))

    # ------------------------------------------------------------------ modules
    def is_internal(self, name):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return False
        return self.module_file(name) is not None or os.path.isdir(os.path.join(self.repo, *name.split(".")))

    def module_file(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_file(name)
        fr = Frame(None, name)
        fr.vars["__name__"] = K(name)
        fr.vars["__file__"] = K(path or name)
        self.modules[name] = fr
        if path is None:
            return fr
        src = open(path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        self.sources[name] = (path, src, tree)
        saved = (self.loc, self.star_depth, self.depth, self.stack)
        self.star_depth, self.depth, self.stack = 0, 0, []
        self.in_base += 1
        try:
            for s in tree.body:
                self.exec(s, fr)
        except PyExc as e:
            raise Cut("module-init", "%s: %s" % (name, e.msg), e.loc)
        finally:
            self.in_base -= 1
            self.loc, self.star_depth, self.depth, self.stack = saved
        for k, v in self.module_overrides.get(name, {}).items():
            fr.vars[k] = v
        return fr

    def import_name(self, name):
        if self.is_internal(name):
            self.load_module(name)
            return ModV(name)
        return Ext(name)

    def mod_get(self, mod, name):
        """attribute of a module value, or None."""
        fr = self.load_module(mod)
        v = self.nsov.get((mod, name))
        if v is not None:
            return v
        v = fr.vars.get(name)
        if v is not None:
            return v
        if self.is_internal(mod + "." + name):
            return self.import_name(mod + "." + name)
        return None

    def lookup(self, dotted):
        """harness helper: value of 'module:qual.name'"""
        mod, q = dotted.split(":")
        self.load_module(mod)
        parts = q.split(".")
        v = self.mod_get(mod, parts[0])
        if v is None:
            return None
        for p in parts[1:]:
            if isinstance(v, ClassV):
                v = self.class_lookup(v, p)
                if isinstance(v, Wrapper):
                    v = v.fn
            else:
                v = None
            if v is None:
                return None
        return v

    # ------------------------------------------------------------------ errors
    def exc(self, name, msg="", implicit=True, node=None):
        e = self.new_inst(Ext(name if "." in name else "builtins." + name), {"args": Tup([K(msg)])})
        return PyExc(e, self.loc, implicit, "%s: %s" % (name, msg))

    def unsupported(self, why):
        return Cut("unsupported", why, self.loc)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS or (not self.steps & 2047 and not self.in_base and self.stop_at and time.time() > self.stop_at):
            raise Cut("limit", "steps", self.loc)
        self.loc = (fr.module, s.lineno, fr.fn.qual if fr.fn else "<module>")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise self.unsupported("statement " + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if fr.cls is not None and fr.fn is None or (fr.cls is not None and fr.fn is fr.cls):
            if isinstance(s.target, ast.Name):
                fr.cls.annots.append((s.target.id, s.annotation, s.value is not None))
        if s.value is not None:
            v = self.eval(s.value, fr)
            if isinstance(v, T) and v not in self.hints:
                h = self.annot_hint(s.annotation, fr)
                if h is not None:
                    self.phints.setdefault(v, h)
            self.assign(s.target, v, fr)

    def s_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        load = ast.copy_location({ast.Name: lambda t: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(s.target)](s.target), s.target)
        cur = self.eval(load, fr)
        v = self.eval(s.value, fr)
        if isinstance(cur, Ref):
            o = self.get(cur)
            if isinstance(o, HSet) and op in "|-&":
                r = self.binop(op, cur, v)
                self.mut(cur).items = list(self.get(r).items)
                self.assign(s.target, cur, fr)
                return
            if isinstance(o, HList) and not isinstance(o, HSet) and op == "+":
                items = self.star_wrap(cur, self.iter_items(v))
                self.mut(cur).items.extend(items)
                self.assign(s.target, cur, fr)
                return
            if isinstance(o, HInst):
                m = self.find_method(cur, "__i" + DUNDER[op] + "__")
                if m is not None:
                    r = self.call(m, [v], {})
                    if r != NOTIMPL:
                        self.assign(s.target, r, fr)
                        return
        self.assign(s.target, self.binop(op, cur, v), fr)

    def star_wrap(self, ref, items):
        o = self.get(ref)
        if self.star_depth > o.depth and self.cur_star is not None:
            return [x if isinstance(x, Star) else Star(x, self.cur_star) for x in items]
        return items

    cur_star = None

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise self.unsupported("assignment target")

    def unpack(self, elts, v, fr):
        items = None
        if isinstance(v, T):
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if not star:
                for i, e in enumerate(elts):
                    self.assign(e, self.typed(T("index", v, K(i)), self.elem_hint(v, i)), fr)
                return
            i0 = star[0]
            for i, e in enumerate(elts):
                if i < i0:
                    self.assign(e, T("index", v, K(i)), fr)
                elif i == i0:
                    self.assign(e.value, T("slice", v, K(i0), K(-(len(elts) - 1 - i0)) if len(elts) - 1 - i0 else NONE), fr)
                else:
                    self.assign(e, T("index", v, K(i - len(elts))), fr)
            return
        items = self.iter_items(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if any(isinstance(x, Star) for x in items):
            src = self.freeze(v)
            if not star:
                for i, e in enumerate(elts):
                    it = items[0] if len(items) == 1 else None
                    self.assign(e, T("index", src, K(i)) if it is None else self.at_star(it, K(i)), fr)
                return
            raise self.unsupported("starred unpack of an unknown sequence")
        if star:
            i0 = star[0]
            after = len(elts) - i0 - 1
            if len(items) < len(elts) - 1:
                raise self.exc("ValueError", "not enough values to unpack")
            for i in range(i0):
                self.assign(elts[i], items[i], fr)
            self.assign(elts[i0].value, self.new_list(items[i0:len(items) - after]), fr)
            for j in range(after):
                self.assign(elts[i0 + 1 + j], items[len(items) - after + j], fr)
            return
        if len(items) != len(elts):
            raise self.exc("ValueError", "unpack %d values into %d" % (len(items), len(elts)))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def at_star(self, st, idx):
        """element idx of a sequence [Star(elem, src)]: substitute is not tracked, keep a term."""
        return T("at", st.elem if isinstance(st.elem, (T, K, Str, Tup)) else self.freeze(st.elem), idx)

    def store_name(self, name, v, fr):
        if name in fr.globals_:
            self.store_global(fr.module, name, v)
            return
        if name in fr.nonlocals_:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        if fr.parent is None and fr.fn is None and fr.cls is None:
            self.store_global(fr.module, name, v)
            return
        fr.vars[name] = v

    def store_global(self, module, name, v):
        if self.in_base:
            self.modules[module].vars[name] = v
        else:
            self.nsov[(module, name)] = v
            self.event("global-write", (module, name))

    def s_Return(self, s, fr):
        raise _Return(self.eval(s.value, fr) if s.value is not None else NONE)

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    FORKED = 6

    def s_While(self, s, fr):
        n = unk = forked = 0
        forever = isinstance(s.test, ast.Constant)
        while True:
            c = self.truth_val(self.eval(s.test, fr))
            if isinstance(c, K):
                if not c.v:
                    break
            else:
                unk += 1
                if unk > 2:
                    raise Cut("loop", "back edge of an unknown loop", self.loc)
                if not self.decide(c):
                    break
            n += 1
            if n > self.UNROLL:
                raise Cut("hang", "a loop does not end within %d iterations" % self.UNROLL, self.loc)
            lb = (self.pos, len(self.events), len(self.factlog))
            try:
                self.exec_block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            if isinstance(c, K) and (self.pos != lb[0] or any(e[0] == "ext" for e in self.events[lb[1]:])):
                # an unbounded loop whose iterations depend on unknowns: a few of them
                forked += 1
                if forked > (self.FORKED if forever else self.UNROLL):
                    raise Cut("loop", "back edge of while True", self.loc)
        self.exec_block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        live = None
        if isinstance(it, Ref) and isinstance(self.get(it), HList) and not isinstance(self.get(it), HSet):
            live = it
        i = 0
        items = self.iter_items(it)
        try:
            while True:
                if live is not None:
                    items = self.get(live).items
                if i >= len(items):
                    break
                x = items[i]
                i += 1
                if isinstance(x, Star):
                    self.generic_iteration(s, x, fr)
                    continue
                self.assign(s.target, x, fr)
                try:
                    self.exec_block(s.body, fr)
                except _Continue:
                    pass
        except _Break:
            return
        self.exec_block(s.orelse, fr)

    def generic_iteration(self, s, star, fr):
        """summarise zero or more iterations by one generic iteration."""
        snap = dict(fr.vars)
        saved = self.cur_star
        self.star_depth += 1
        self.cur_star = star.src
        self.event("loop-enter", star.src)
        try:
            self.assign(s.target, star.elem, fr)
            try:
                self.exec_block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                self.note_approx("break in generic iteration")
        finally:
            self.star_depth -= 1
            self.cur_star = saved
        self.event("loop-exit", star.src)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for k, v in list(fr.vars.items()):
            old = snap.get(k)
            if old is v or k in tnames:
                continue
            if old is None:
                continue
            if old == v:
                continue
            fr.vars[k] = self.widen(old, v, star.src)

    def widen(self, old, new, src):
        if isinstance(new, (Str, K)) and isinstance(old, (Str, K)):
            op, np = self.str_parts(old), self.str_parts(new)
            if op is not None and np is not None:
                suf = self.strip_prefix(np, op)
                if suf is not None:
                    return self.mk_str(list(op) + [Star(self.mk_str(suf), src)])
        if isinstance(new, T) and isinstance(old, T) and new.op == "+" and new.args[0] == old:
            return T("+", old, Star(new.args[1], src))
        return T("widen", self.freeze(old), self.freeze(new), src if isinstance(src, Val) else K(str(src)))

    def strip_prefix(self, parts, pre):
        parts, pre = list(parts), list(pre)
        i = 0
        for j, p in enumerate(pre):
            if i >= len(parts):
                return None
            if parts[i] == p:
                i += 1
            elif isinstance(p, str) and isinstance(parts[i], str) and j == len(pre) - 1 and parts[i].startswith(p):
                parts[i] = parts[i][len(p):]
                return parts[i:]
            else:
                return None
        return parts[i:]

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is not None:
                raise fr.exc
            raise self.exc("RuntimeError", "no active exception", False)
        v = self.eval(s.exc, fr)
        if isinstance(v, ClassV) or (isinstance(v, Ext)):
            v = self.call(v, [], {})
        loc = (fr.module, s.lineno, fr.fn.qual if fr.fn else "<module>")
        raise PyExc(v, loc, False, self.exc_text(v))

    def exc_text(self, v):
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                nm = o.cls.name if isinstance(o.cls, ClassV) else o.cls.path.split(".")[-1]
                return "%s: %s" % (nm, ", ".join(show(x) for x in getattr(o.fields.get("args"), "items", ())))
        return show(v)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise self.exc("AssertionError", ast.unparse(s.test)[:60], False)

    def exc_matches(self, exc, typ):
        if isinstance(typ, Tup):
            return any(self.exc_matches(exc, t) for t in typ.items)
        o = self.get(exc) if isinstance(exc, Ref) else None
        cls = o.cls if isinstance(o, HInst) else None
        if cls is None:
            return self.decide(T("isinstance", self.freeze(exc), typ))
        names = []
        if isinstance(cls, ClassV):
            for c in cls.mro:
                names.append(c)
        else:
            names.append(cls)
        for c in names:
            if c == typ or c is typ:
                return True
            if isinstance(c, Ext) and isinstance(typ, Ext):
                a, b = c.path.split(".")[-1], typ.path.split(".")[-1]
                if c.path.startswith("builtins.") and typ.path.startswith("builtins.") and a in BUILTIN_EXC and b in BUILTIN_EXC:
                    if issubclass(getattr(_pybuiltins, a), getattr(_pybuiltins, b)):
                        return True
                if not c.path.startswith("builtins.") and typ.path in ("builtins.Exception", "builtins.BaseException"):
                    return True     # exceptions of libraries
        return False

    def s_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.val, self.eval(h.type, fr)):
                        old = fr.exc
                        fr.exc = e
                        if h.name:
                            self.store_name(h.name, e.val, fr)
                        self.event("caught", (e.msg, e.loc))
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        exits = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            r = v
            if isinstance(v, Ref) and isinstance(self.get(v), HInst):
                m = self.find_method(v, "__enter__")
                if m is not None:
                    r = self.call(m, [], {})
                x = self.find_method(v, "__exit__")
                if x is not None:
                    exits.append(x)
            else:
                self.event("with", v)
                exits.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)
        try:
            self.exec_block(s.body, fr)
        finally:
            for x in reversed(exits):
                if isinstance(x, (Bound, Fn, Native)):
                    self.call(x, [NONE, NONE, NONE], {})
                else:
                    self.event("with-exit", x)

    def s_FunctionDef(self, s, fr):
        f = self.make_fn(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr)
            v = self.decorate(dv, v)
        self.store_name(s.name, v, fr)

    def make_fn(self, s, fr):
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cls = fr.cls if fr.fn is None or isinstance(fr.fn, ClassV) else None
        nm = getattr(s, "name", "<lambda>")
        if cls is not None:
            q = cls.qual + "." + nm
        elif fr.fn is not None and not isinstance(fr.fn, ClassV):
            q = fr.fn.qual + "." + nm
        else:
            q = fr.module + ":" + nm
        parent = fr if (fr.fn is not None or fr.parent is not None) else None
        if cls is not None:
            parent = fr.parent
        if parent is not None and parent.fn is None and parent.cls is None and parent.parent is None:
            parent = None
        f = Fn(s, parent, fr.module, cls, defaults, kwd, q)
        return f

    def decorate(self, dv, v):
        if isinstance(dv, Ext):
            p = dv.path
            if p in ("builtins.property", "functools.cached_property"):
                return Wrapper("property", v)
            if p == "builtins.staticmethod":
                return Wrapper("static", v)
            if p == "builtins.classmethod":
                return Wrapper("class", v)
            if p in ("functools.lru_cache", "functools.cache", "abc.abstractmethod", "typing.no_type_check", "typing.final",
                     "typing.override", "functools.wraps", "typing.overload", "contextlib.contextmanager"):
                return v
            if p in ("dataclasses.dataclass",):
                v.kind = "dataclass"
                return v
            return T("call", dv, v)
        if isinstance(dv, T) and dv.op == "call" and isinstance(dv.args[0], Ext):
            p = dv.args[0].path
            if p in ("functools.lru_cache", "functools.wraps"):
                return v
            if p == "dataclasses.dataclass":
                v.kind = "dataclass"
                return v
        if isinstance(dv, BM) and isinstance(dv.recv, Wrapper) and dv.name in ("setter",):
            return Wrapper("property", dv.recv.fn, v)
        if isinstance(dv, (Fn, Native, Bound, ClassV)):
            return self.call(dv, [v], {})
        return T("call", dv, v)

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        q = (fr.module + ":" + s.name) if fr.fn is None and fr.cls is None else (fr.cls.qual + "." + s.name if fr.cls else fr.fn.qual + "." + s.name)
        c = ClassV(s.name, fr.module, s, [], {}, q)
        bs = []
        for b in bases:
            if isinstance(b, GenV):
                b = b.origin
            if isinstance(b, Ext):
                if b.path == "typing.NamedTuple":
                    c.kind = "namedtuple"
                elif b.path.startswith("enum."):
                    c.kind = "enum"
                if not b.path.startswith(SILENT_EXT_BASES):
                    c.extbase = True
                bs.append(b)
            elif isinstance(b, ClassV):
                bs.append(b)
                if b.kind in ("enum", "dataclass", "namedtuple") and c.kind == "plain":
                    c.kind = b.kind
                c.extbase = c.extbase or b.extbase
            else:
                c.extbase = True
        c.bases = bs
        c.mro = self.c3(c)
        cf = Frame(fr if (fr.fn is not None or fr.cls is not None) else None, fr.module, None, c)
        cf.vars = c.ns
        c.ns["__doc__"] = NONE
        cf2 = cf
        cf2.parent = fr if fr.fn is not None else None
        for st in s.body:
            self.exec(st, cf2)
        if c.kind == "enum":
            for k, v in list(c.ns.items()):
                if k.startswith("__") or isinstance(v, (Fn, Wrapper)):
                    continue
                c.ns[k] = EnumM(c, k, v)
        self.classes.append(c)
        for m in c.mro[1:]:
            if isinstance(m, ClassV):
                self.subclasses.setdefault(m, []).append(c)
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, fr), v)
        self.store_name(s.name, v, fr)

    def c3(self, c):
        seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in c.bases] + [list(c.bases)]
        out = [c]
        seqs = [x for x in seqs if x]
        while seqs:
            for sq in seqs:
                h = sq[0]
                if not any(any(h is y or h == y for y in o[1:]) for o in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[y for y in o if not (y is h or y == h)] for o in seqs]
            seqs = [x for x in seqs if x]
        return out

    def s_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.store_name(a.asname, self.import_name(a.name), fr)
            else:
                top = a.name.split(".")[0]
                if self.is_internal(a.name):
                    self.load_module(a.name)
                self.store_name(top, ModV(top) if self.is_internal(top) or os.path.isdir(os.path.join(self.repo, top)) else Ext(top), fr)

    def s_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.split(".")
            f = self.module_file(fr.module)
            if f and f.endswith("__init__.py"):
                base = base + ["_"]
            base = base[:len(base) - s.level]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        if self.is_internal(mod):
            self.load_module(mod)
            for a in s.names:
                if a.name == "*":
                    for k, v in list(self.modules[mod].vars.items()):
                        if not k.startswith("_"):
                            self.store_name(k, v, fr)
                    continue
                v = self.mod_get(mod, a.name)
                if v is None:
                    # circular import or missing
                    raise self.exc("ImportError", "cannot import %s from %s" % (a.name, mod))
                self.store_name(a.asname or a.name, v, fr)
            return
        for a in s.names:
            if a.name == "*":
                continue
            self.store_name(a.asname or a.name, Ext(mod + "." + a.name), fr)

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Ref):
                    self.mut(o).fields.pop(t.attr, None)

    def s_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, fr):
                if c.guard is None or self.truth(self.eval(c.guard, fr)):
                    self.exec_block(c.body, fr)
                    return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, K(p.value)))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, fr)
            if not self.truth(self.isinstance_(v, c)):
                return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pat(q, self.getattr(v, a), fr):
                    return False
            if p.patterns:
                if isinstance(c, Ext) and c.path.startswith("builtins.") and len(p.patterns) == 1:
                    return self.match_pat(p.patterns[0], v, fr)
                ma = self.class_lookup(c, "__match_args__") if isinstance(c, ClassV) else None
                names = [k.v for k in ma.items] if isinstance(ma, Tup) else [n for n, _, _ in getattr(c, "annots", [])]
                for n, q in zip(names, p.patterns):
                    if not self.match_pat(q, self.getattr(v, n), fr):
                        return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (Tup,)) and not (isinstance(v, Ref) and isinstance(self.get(v), HList)):
                raise self.unsupported("sequence pattern on unknown")
            items = self.iter_items(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                return all(self.match_pat(q, x, fr) for q, x in zip(p.patterns, items))
            i0 = star[0]
            after = len(p.patterns) - i0 - 1
            if len(items) < i0 + after:
                return False
            if not all(self.match_pat(q, x, fr) for q, x in zip(p.patterns[:i0], items)):
                return False
            if p.patterns[i0].name:
                self.store_name(p.patterns[i0].name, self.new_list(items[i0:len(items) - after]), fr)
            return all(self.match_pat(q, x, fr) for q, x in zip(p.patterns[i0 + 1:], items[len(items) - after:]))
        raise self.unsupported("pattern")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = self.DISP.get(type(e))
        if m is None:
            m = getattr(self, "e_" + type(e).__name__, None)
            if m is None:
                raise self.unsupported("expression " + type(e).__name__)
            m = m.__func__
            self.DISP[type(e)] = m
        v = m(self, e, fr)
        if type(v) is T and self.eqconst:
            c = self.eqconst.get(v)
            if c is not None:
                return c
        return v

    DISP = {}

    def e_Constant(self, e, fr):
        return K(e.value)

    def e_Name(self, e, fr):
        n = e.id
        f = fr
        v = f.vars.get(n)
        if v is not None and n not in f.globals_:
            return v
        if f.locals_ is not None and n in f.locals_:
            raise self.exc("UnboundLocalError", n)
        f = f.parent
        while f is not None:
            v = f.vars.get(n)
            if v is not None:
                return v
            f = f.parent
        v = self.nsov.get((fr.module, n)) if self.nsov else None
        if v is not None:
            return v
        v = self.modules[fr.module].vars.get(n)
        if v is not None:
            return v
        if hasattr(_pybuiltins, n):
            return Ext("builtins." + n)
        raise self.exc("NameError", "name '%s' is not defined" % n)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while getattr(f, "node", None) == "comp" and f.parent is not None:
            f = f.parent
        self.store_name(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                if p.conversion == 114:
                    s = self.to_repr(v)
                else:
                    s = self.to_str(v)
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, fr)
                    if isinstance(s, K) and isinstance(v, K) and isinstance(spec, K):
                        s = K(format(v.v, spec.v))
                    elif not (isinstance(spec, K) and spec.v == ""):
                        s = T("format", v, spec)
                parts.extend(self.str_parts(s) if self.str_parts(s) is not None else [s])
        return self.mk_str(parts)

    def e_List(self, e, fr):
        return self.new_list(self.eval_seq(e.elts, fr))

    def e_Tuple(self, e, fr):
        return Tup(self.eval_seq(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mk_set(self.eval_seq(e.elts, fr))

    def eval_seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.alloc(HDict([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in self.dict_items(src):
                    self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr)

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            if self.truth(v) != isand:
                return v
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_val(v)
            if isinstance(t, K):
                return K(not t.v)
            return T("not", t) if t.op != "not" else t.args[0]
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if isinstance(v, K) and isinstance(v.v, (int, float)):
            return K(-v.v if op == "-" else (+v.v if op == "+" else ~v.v))
        m = self.find_method(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if m is not None:
            return self.call(m, [], {})
        if isinstance(v, Ref):
            raise self.exc("TypeError", "bad operand for unary " + op)
        return T("neg" if op == "-" else "unary" + op, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(OPS[type(e.op)], a, b)

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        v = TRUE
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(r, fr)
            o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
                 ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(op)]
            v = self.compare(o, l, r)
            if i < len(e.ops) - 1:
                if not self.truth(v):
                    return v
            l = r
        return v

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def comp(self, gens, fr, leaf):
        f = Frame(fr if not (fr.fn is None and fr.cls is None and fr.parent is None) else None, fr.module, fr.fn, fr.cls if fr.fn is None else None)
        f.node = "comp"
        f.vars = {}
        if fr.fn is None and fr.cls is not None:
            f.parent = fr
        out = []

        def rec(i):
            if i == len(gens):
                out.append(leaf(f))
                return
            g = gens[i]
            it = self.eval(g.iter, f if i else fr)
            for x in self.iter_items(it):
                if isinstance(x, Star):
                    n = len(out)
                    saved = self.cur_star
                    self.star_depth += 1
                    self.cur_star = x.src
                    try:
                        self.assign(g.target, x.elem, f)
                        conds = []
                        ok = True
                        for c in g.ifs:
                            cv = self.truth_val(self.eval(c, f))
                            if isinstance(cv, K):
                                ok = ok and cv.v
                            else:
                                conds.append(cv)
                                self.assume_local(cv)
                        if ok:
                            rec(i + 1)
                    finally:
                        self.star_depth -= 1
                        self.cur_star = saved
                    src = x.src
                    if conds:
                        src = T("filter", src if isinstance(src, Val) else K(str(src)), *conds)
                    out[n:] = [y if isinstance(y, Star) and y.src == src else Star(y, src) for y in out[n:]]
                    continue
                self.assign(g.target, x, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    rec(i + 1)

        rec(0)
        return out

    def assume_local(self, cond):
        pass

    def e_ListComp(self, e, fr):
        return self.new_list(self.comp(e.generators, fr, lambda f: self.eval(e.elt, f)))

    def e_GeneratorExp(self, e, fr):
        return self.alloc(HList(self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))))

    def e_SetComp(self, e, fr):
        return self.mk_set(self.comp(e.generators, fr, lambda f: self.eval(e.elt, f)))

    def e_DictComp(self, e, fr):
        prs = self.comp(e.generators, fr, lambda f: Tup([self.eval(e.key, f), self.eval(e.value, f)]))
        d = self.alloc(HDict([]))
        for p in prs:
            if isinstance(p, Star):
                self.mut(d).items.append((Star(p.elem.items[0], p.src), p.elem.items[1]))
            else:
                self.setitem(d, p.items[0], p.items[1])
        return d

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        f = fr
        while f.yields is None and f.parent is not None and getattr(f, "node", None) == "comp":
            f = f.parent
        if self.star_depth and self.cur_star is not None:
            v = Star(v, self.cur_star)
        f.yields.append(v)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        for x in self.iter_items(v):
            fr.yields.append(x)
        return NONE

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    def e_Call(self, e, fr):
        loc = (fr.module, e.lineno, fr.fn.qual if fr.fn else "<module>")
        f = self.eval(e.func, fr)
        if isinstance(f, Ext) and f.path == "builtins.super" and not e.args:
            ff = fr
            while ff is not None and (ff.fn is None or ff.self_ is None):
                ff = ff.parent
            if ff is None:
                raise self.exc("RuntimeError", "super(): no arguments")
            return Super(ff.fn.cls, ff.self_)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                args.extend(self.iter_items(v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.eval(k.value, fr)
                for kk, vv in self.dict_items(src):
                    if isinstance(kk, K):
                        kw[kk.v] = vv
                    else:
                        kw["**"] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.loc = loc
        if isinstance(f, Ext) and f.path in ("builtins.locals", "builtins.globals"):
            return T("call", f)
        self.call_sites += 1
        return self.call(f, args, kw)

    # ------------------------------------------------------------------ truth and decisions
    def truth(self, v):
        t = self.truth_val(v)
        if isinstance(t, K):
            return bool(t.v)
        return self.decide(t)

    def truth_val(self, v):
        """K(bool) or a condition term."""
        if isinstance(v, K):
            return K(bool(v.v))
        if isinstance(v, T):
            if v in self.eqconst:
                return K(bool(self.eqconst[v].v))
            if v.op in ("==", "<", "is", "in", "not", "isinstance", "truthy", "cond"):
                return v
            h = self.hint_of(v)
            if isinstance(h, ClassV):
                m = self.class_lookup(h, "__bool__") or self.class_lookup(h, "__len__")
                if m is None and not h.extbase and not self.maybe_none(v):
                    return TRUE
            return T("truthy", v)
        if isinstance(v, Str):
            if any(isinstance(p, str) and p for p in v.parts):
                return TRUE
            return T("truthy", v)
        if isinstance(v, Tup):
            if not v.items:
                return FALSE
            if all(isinstance(x, Star) for x in v.items):
                return T("truthy", v)
            return TRUE
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HDict):
                if o.items and not all(isinstance(k, Star) for k, _ in o.items):
                    return TRUE
                if o.open is not None or o.items:
                    return T("truthy", o.open if o.open is not None else self.freeze(v))
                return FALSE
            if isinstance(o, HList):
                if not o.items:
                    return FALSE
                if all(isinstance(x, Star) for x in o.items):
                    return T("truthy", self.freeze(v))
                return TRUE
            if isinstance(o, HInst):
                if isinstance(o.cls, ClassV):
                    m = self.find_method(v, "__bool__")
                    if m is not None:
                        return self.truth_val(self.call(m, [], {}))
                    m = self.find_method(v, "__len__")
                    if m is not None:
                        r = self.call(m, [], {})
                        if isinstance(r, Ref):
                            raise self.exc("TypeError", "__len__ does not return an integer")
                        return self.truth_val(r)
                    if o.cls.kind == "namedtuple":
                        return TRUE
                return TRUE
        return TRUE

    def maybe_none(self, v):
        return False

    def canon(self, c):
        """(cond, polarity) in normal form."""
        pol = True
        while isinstance(c, T) and c.op == "not":
            c = c.args[0]
            pol = not pol
        return c, pol

    def decide(self, c):
        c, pol = self.canon(c)
        v = self.consult(c)
        if v is None:
            if self.in_base:
                # environment-dependent module initialisation: the default configuration
                return not pol
            if self.pos < len(self.script):
                v = self.script[self.pos]
            else:
                v = True
                self.pending.append(self.script[:self.pos] + [False])
                self.script.append(True)
            self.pos += 1
            self.assume(c, v)
        return v == pol

    def choose(self, label, n, *info):
        """n-way choice for harnesses; facts ('choice', label) recorded."""
        for i in range(n - 1):
            if self.decide(T("cond", K(label), K(i), *info)):
                return i
        return n - 1

    def consult(self, c):
        if isinstance(c, K):
            return bool(c.v)
        v = self.facts.get(c)
        if v is not None:
            return v
        if c.op == "==":
            a, b = (self.eqconst.get(x, x) for x in c.args)
            if (a, b) != c.args:
                r = self.eq_atoms(a, b)
                if isinstance(r, K):
                    return r.v
                return self.facts.get(r)
        elif c.op == "truthy":
            x = c.args[0]
            k = self.eqconst.get(x)
            if k is not None:
                return bool(k.v)
        elif c.op == "<":
            a, b = (self.eqconst.get(x, x) for x in c.args)
            if isinstance(a, K) and isinstance(b, K):
                try:
                    return a.v < b.v
                except TypeError:
                    return None
            if self.facts.get(T("<", b, a)) is True:
                return False
            if self.facts.get(T("==", *self.order2(a, b))) is True:
                return False
        elif c.op == "is":
            if c.args[1] == NONE and self.eqconst.get(c.args[0]) is not None:
                return self.eqconst[c.args[0]] == NONE
        elif c.op == "isinstance":
            return self.consult_isinstance(c.args[0], c.args[1])
        return None

    def assume(self, c, v):
        self.facts[c] = v
        self.factlog.append((c, v, self.loc))
        if c.op == "==" and v:
            a, b = c.args
            if isinstance(b, (K, EnumM)) and isinstance(a, T):
                self.eqconst[a] = b
            elif isinstance(a, T) and a.op == "typeof" and isinstance(b, (ClassV, Ext)):
                self.narrow.setdefault(a.args[0], []).append(b)
        elif c.op == "is" and v and c.args[1] == NONE and isinstance(c.args[0], T):
            self.eqconst[c.args[0]] = NONE
        elif c.op == "isinstance":
            x, cl = c.args
            if v:
                self.narrow.setdefault(x, []).append(cl)
            else:
                self.notinst.setdefault(x, []).append(cl)

    # ------------------------------------------------------------------ types of unknowns
    def typed(self, t, hint, exact=False):
        if hint is not None and isinstance(t, T) and t not in self.hints and t not in self.phints:
            self.phints[t] = hint
        return t

    def sym(self, name, cls=None, exact=False, **attrs):
        """harness: a named unknown"""
        t = T("sym", name)
        if cls is not None:
            self.hints[t] = cls
            if exact:
                self.exacts.add(t)
        for k, v in attrs.items():
            self.known_attr[(t, k)] = v
        return t

    exacts = set()

    def hint_of(self, t):
        n = self.narrow.get(t)
        h = self.hints.get(t) or self.phints.get(t)
        if n:
            best = h
            for c in n:
                if isinstance(c, (ClassV, Ext)):
                    if best is None or self.subtype(c, best if not isinstance(best, GenV) else best.origin):
                        best = c if not (isinstance(best, GenV) and best.origin == c) else best
            return best
        return h

    def elem_hint(self, v, i=None):
        h = self.hint_of(v)
        if isinstance(h, GenV):
            o = getattr(h.origin, "path", "")
            if o in ("builtins.list", "builtins.set", "builtins.frozenset", "typing.Sequence", "typing.Iterable", "typing.Generator", "collections.abc.Iterable", "typing.Iterator"):
                return h.args[0]
            if o == "builtins.tuple" and i is not None:
                if len(h.args) == 2 and h.args[1] == ELLIPSIS:
                    return h.args[0]
                if isinstance(i, int) and i < len(h.args):
                    return h.args[i]
            if o == "builtins.dict":
                return h.args[1] if i is not None else h.args[0]
        return None

    def annot_hint(self, ann, fr):
        """best effort type hint from an annotation expression."""
        try:
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                ann = ast.parse(ann.value, mode="eval").body
            return self.ann(ann, fr)
        except (PyExc, Cut, SyntaxError, RecursionError):
            return None

    def ann(self, a, fr):
        if isinstance(a, ast.Name):
            v = None
            f = fr
            while f is not None and v is None:
                v = f.vars.get(a.id)
                f = f.parent
            if v is None:
                v = self.modules[fr.module].vars.get(a.id)
            if v is None and hasattr(_pybuiltins, a.id):
                v = Ext("builtins." + a.id)
            return self.ann_norm(v)
        if isinstance(a, ast.Attribute):
            b = self.ann_raw(a)
            return self.ann_norm(b)
        if isinstance(a, ast.Subscript):
            b = self.ann(a.value, fr)
            sl = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if isinstance(b, Ext) and b.path in ("typing.Optional", "typing.Union", "typing.Callable", "typing.Type", "builtins.type"):
                return None
            args = [self.annot_hint(x, fr) for x in sl]
            if isinstance(b, ClassV):
                return b
            if b is None or any(x is None for x in args):
                return b
            return GenV(b, args)
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return self.annot_hint(a, fr)
        return None

    def ann_raw(self, a):
        parts = []
        n = a
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        root = None
        return None if root is None else root

    def ann_norm(self, v):
        if isinstance(v, ClassV):
            return v
        if isinstance(v, GenV):
            return v
        if isinstance(v, Ext):
            m = {"typing.List": "builtins.list", "typing.Dict": "builtins.dict", "typing.Set": "builtins.set", "typing.Tuple": "builtins.tuple"}.get(v.path)
            if m:
                return Ext(m)
            if v.path in ("typing.Any", "builtins.object", "builtins.None"):
                return None
            return v
        return None

    def subtype(self, a, b):
        if a is b or a == b:
            return True
        if isinstance(a, GenV):
            return self.subtype(a.origin, b)
        if isinstance(a, ClassV):
            return any(x is b or x == b for x in a.mro) or (isinstance(b, Ext) and b.path == "builtins.object")
        if isinstance(a, Ext) and isinstance(b, Ext):
            if b.path == "builtins.object":
                return True
            x, y = a.path, b.path
            if x.startswith("builtins.") and y.startswith("builtins."):
                cx, cy = getattr(_pybuiltins, x[9:], None), getattr(_pybuiltins, y[9:], None)
                if isinstance(cx, type) and isinstance(cy, type):
                    return issubclass(cx, cy)
        return False

    def disjoint(self, a, b):
        """no value can be an instance of both (single-inheritance closed world for internal classes)."""
        if self.subtype(a, b) or self.subtype(b, a):
            return False
        if isinstance(a, GenV):
            a = a.origin
        if isinstance(b, GenV):
            b = b.origin
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            sa = set(map(id, self.subclasses.get(a, [])))
            return not any(id(x) in sa for x in self.subclasses.get(b, []))
        if isinstance(a, Ext) and isinstance(b, Ext):
            if a.path.startswith("builtins.") and b.path.startswith("builtins."):
                return True
            for p in self.ext_disjoint:
                if a.path.startswith(p) and b.path.startswith(p):
                    return a.path not in self.ext_super and b.path not in self.ext_super
            if a.path.startswith("builtins.") or b.path.startswith("builtins."):
                return True
            return False
        if isinstance(a, ClassV) and isinstance(b, Ext):
            a, b = b, a
        if isinstance(a, Ext) and isinstance(b, ClassV):
            if a.path.startswith("builtins."):
                return True
            return not b.extbase
        return False

    def consult_isinstance(self, x, c):
        if isinstance(c, Tup):
            rs = [self.consult_isinstance(x, k) for k in c.items]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        h = self.hints.get(x) or self.phints.get(x)
        musts = list(self.narrow.get(x, []))
        if h is not None:
            musts.append(h)
        for m in musts:
            if isinstance(m, Tup):
                if all(self.subtype(k, c) for k in m.items):
                    return True
                if all(self.disjoint(k, c) for k in m.items):
                    return False
                continue
            if self.subtype(m, c):
                return True
            if self.disjoint(m, c):
                return False
            if x in self.exacts and m is h:
                return False
        for n in self.notinst.get(x, []):
            if isinstance(n, Tup):
                if any(self.subtype(c, k) for k in n.items):
                    return False
            elif self.subtype(c, n):
                return False
        if self.eqconst.get(x) is not None:
            r = self.isinstance_(self.eqconst[x], c)
            return r.v if isinstance(r, K) else None
        return None

    def typeof(self, v):
        """class of a value or None when unknown"""
        if isinstance(v, K):
            return Ext("builtins." + type(v.v).__name__)
        if isinstance(v, Str):
            return Ext("builtins.str")
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                return o.cls
            if isinstance(o, HDict):
                return Ext("builtins.dict")
            if isinstance(o, HSet):
                return Ext("builtins.frozenset" if o.frozen else "builtins.set")
            return Ext("builtins.list")
        if isinstance(v, EnumM):
            return v.cls
        if isinstance(v, (ClassV,)):
            return Ext("builtins.type")
        if isinstance(v, Ext) and v.path.startswith("builtins.") and isinstance(getattr(_pybuiltins, v.path[9:], None), type):
            return Ext("builtins.type")
        if isinstance(v, GenV):
            return Ext("types.GenericAlias" if isinstance(v.origin, Ext) and v.origin.path.startswith("builtins.") else "typing._GenericAlias")
        if isinstance(v, Slice):
            return Ext("builtins.slice")
        if isinstance(v, (Fn, Native, Bound)):
            return Ext("types.FunctionType")
        if isinstance(v, T) and v in self.exacts:
            return self.hint_of(v)
        return None

    def isinstance_(self, v, c):
        if isinstance(c, Tup):
            out = []
            for k in c.items:
                r = self.isinstance_(v, k)
                if isinstance(r, K) and r.v:
                    return TRUE
                if not isinstance(r, K):
                    out.append(k)
            if not out:
                return FALSE
            return T("isinstance", v, out[0] if len(out) == 1 else Tup(out))
        if isinstance(c, GenV):
            c = c.origin
        t = self.typeof(v)
        if t is not None:
            return K(self.subtype(t, c)) if isinstance(c, (ClassV, Ext)) else T("isinstance", self.freeze(v), c)
        if isinstance(v, Ext):
            return FALSE if isinstance(c, ClassV) else T("isinstance", v, c)
        if isinstance(v, T):
            r = self.consult_isinstance(v, c)
            if r is not None:
                return K(r)
            return T("isinstance", v, c)
        return FALSE

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV):
                v = self.nsov.get((id(c), name)) if self.nsov else None
                if v is not None:
                    return v
                v = c.ns.get(name)
                if v is not None:
                    return v
        return None

    def overridden(self, cls, name):
        """strict subclasses redefining name (class hierarchy analysis)"""
        return [c for c in self.subclasses.get(cls, []) if name in c.ns and c not in self.override_exempt]

    def bind(self, v, recv, cls):
        if isinstance(v, Fn):
            return Bound(recv, v)
        if isinstance(v, Wrapper):
            if v.kind == "property":
                return self.call(v.fn, [recv], {})
            if v.kind == "static":
                return v.fn
            return Bound(cls, v.fn)
        if isinstance(v, Native):
            return Bound(recv, v)
        return v

    def find_method(self, v, name):
        """bound method of an instance or typed unknown for protocol lookups, or None"""
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst) and isinstance(o.cls, ClassV):
                m = self.class_lookup(o.cls, name)
                if m is not None and m != NONE:
                    return self.bind(m, v, o.cls)
            elif isinstance(o, HInst) and isinstance(o.cls, Ext) and name.startswith("__") and isinstance(o.fields.get(name), Native):
                return o.fields[name]
            return None
        if isinstance(v, T):
            h = self.hint_of(v)
            if isinstance(h, ClassV):
                m = self.class_lookup(h, name)
                if m is not None and m != NONE:
                    return self.getattr(v, name)
            return None
        if isinstance(v, ClassV):
            return None
        if isinstance(v, EnumM):
            m = self.class_lookup(v.cls, name)
            if m is not None:
                return self.bind(m, v, v.cls)
        return None

    def getattr(self, v, name, default=None):
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                cls = o.cls
                if isinstance(cls, ClassV):
                    cv = self.class_lookup(cls, name)
                    if isinstance(cv, Wrapper) and cv.kind == "property":
                        return self.call(cv.fn, [v], {})
                    if name in o.fields:
                        return o.fields[name]
                    if cv is not None:
                        return self.bind(cv, v, cls)
                    if name == "__class__":
                        return cls
                    if name == "__dict__":
                        return self.alloc(HDict([(K(k), x) for k, x in o.fields.items()]))
                    if name == "__doc__":
                        return NONE
                    if name in ("__init__", "__hash__", "__eq__", "__repr__", "__str__", "__ne__", "__setattr__"):
                        return BM(v, name)
                    if name == "args" and any(isinstance(c, Ext) and c.path[9:] in BUILTIN_EXC for c in cls.mro):
                        return Tup([])
                    if cls.kind == "namedtuple" and name in ("_replace", "_asdict", "_fields", "index", "count"):
                        return BM(v, name)
                    ga = self.class_lookup(cls, "__getattr__")
                    if ga is not None:
                        return self.call(ga, [v, K(name)], {})
                    if cls.extbase:
                        if self.ext_method is not None:
                            r = self.ext_method(self, v, cls, name)
                            if r is not None:
                                return r
                        return T("attr", self.freeze(v), name)
                    if default is not None:
                        return default
                    raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (cls.name, name))
                if name in o.fields:
                    return o.fields[name]
                return BM(v, name)
            if name == "__class__":
                return self.typeof(v)
            t = dict if isinstance(o, HDict) else (set if isinstance(o, HSet) else list)
            if not hasattr(t, name) and not (isinstance(o, HDict) and name in ("most_common", "default_factory", "move_to_end")):
                if default is not None:
                    return default
                raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (t.__name__, name))
            return BM(v, name)
        if isinstance(v, T):
            return self.getattr_t(v, name, default)
        if isinstance(v, ModV):
            r = self.mod_get(v.name, name)
            if r is None:
                if default is not None:
                    return default
                raise self.exc("AttributeError", "module '%s' has no attribute '%s'" % (v.name, name))
            return r
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, ClassV):
            return self.getattr_class(v, name, default)
        if isinstance(v, GenV):
            if name == "__origin__":
                return v.origin
            if name == "__args__":
                return Tup(v.args)
            if name in ("__name__", "_name") and isinstance(v.origin, ClassV):
                return K(v.origin.name)
            return self.getattr(v.origin, name, default)
        if isinstance(v, K):
            if v.v is None:
                if name == "__class__":
                    return Ext("types.NoneType")
                if default is not None:
                    return default
                raise self.exc("AttributeError", "'NoneType' object has no attribute '%s'" % name)
            if name == "__class__":
                return self.typeof(v)
            if not hasattr(v.v, name):
                if default is not None:
                    return default
                raise self.exc("AttributeError", "'%s' object has no attribute '%s'" % (type(v.v).__name__, name))
            return BM(v, name)
        if isinstance(v, (Str, Tup)):
            if name == "__class__":
                return self.typeof(v)
            if not hasattr(str if isinstance(v, Str) else tuple, name):
                if default is not None:
                    return default
                raise self.exc("AttributeError", "no attribute '%s'" % name)
            return BM(v, name)
        if isinstance(v, EnumM):
            if name == "value":
                return v.value
            if name == "name":
                return K(v.name)
            m = self.class_lookup(v.cls, name)
            if m is not None:
                return self.bind(m, v, v.cls)
            raise self.exc("AttributeError", name)
        if isinstance(v, Super):
            return self.getattr_super(v, name)
        if isinstance(v, Slice):
            return {"start": v.lo, "stop": v.hi, "step": v.step}[name]
        if isinstance(v, Fn):
            if name in ("__name__",):
                return K(getattr(v.node, "name", "<lambda>"))
            if name == "__qualname__":
                return K(v.qual.split(":")[-1])
            if name == "__doc__":
                return NONE
            if name in v.attrs:
                return v.attrs[name]
            return BM(v, name)
        if isinstance(v, Bound):
            if name == "__self__":
                return v.self_
            if name == "__func__":
                return v.fn
            return self.getattr(v.fn, name, default)
        if isinstance(v, Wrapper):
            return BM(v, name)
        if isinstance(v, Star):
            return T("attr", self.freeze(v), name)
        return T("attr", self.freeze(v), name)

    def getattr_super(self, v, name):
        obj = v.obj
        if isinstance(obj, Ref):
            ocls = self.get(obj).cls
        elif isinstance(obj, ClassV):
            ocls = obj
        else:
            h = self.hint_of(obj)
            ocls = h if isinstance(h, ClassV) else v.cls
        mro = ocls.mro
        i = next((k for k, c in enumerate(mro) if c is v.cls), -1)
        for c in mro[i + 1:]:
            if isinstance(c, ClassV):
                if name in c.ns:
                    return self.bind(c.ns[name], obj, ocls)
        if self.ext_method is not None and isinstance(ocls, ClassV):
            r = self.ext_method(self, obj, ocls, name)
            if r is not None:
                return r
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            return Native("object." + name, lambda it, a, k, obj=obj: it.base_init(obj, a))
        return T("attr", T("super", self.freeze(obj)), name)

    def base_init(self, obj, args):
        if isinstance(obj, Ref):
            o = self.get(obj)
            if isinstance(o, HInst) and isinstance(o.cls, ClassV) and any(isinstance(c, Ext) and c.path[9:] in BUILTIN_EXC for c in o.cls.mro):
                self.mut(obj).fields["args"] = Tup(args)
        return NONE

    def getattr_class(self, c, name, default=None):
        v = self.class_lookup(c, name)
        if v is not None:
            if isinstance(v, Wrapper):
                if v.kind == "static":
                    return v.fn
                if v.kind == "class":
                    return Bound(c, v.fn)
            return v
        if name == "__name__":
            return K(c.name)
        if name == "__qualname__":
            return K(c.qual.split(":")[-1])
        if name == "__module__":
            return K(c.module)
        if name in ("__mro__",):
            return Tup(c.mro)
        if name == "__bases__":
            return Tup(c.bases)
        if name == "__init__":
            for b in c.mro:
                if isinstance(b, Ext):
                    return Native("extinit", lambda it, a, k: it.base_init(a[0], a[1:]) if a else NONE)
            return Native("object.__init__", lambda it, a, k: NONE)
        if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__"):
            return BM(c, name)
        if name == "__annotations__":
            return self.alloc(HDict([(K(n), T("ann", K(n))) for n, _, _ in c.annots]))
        if c.kind == "enum" and name == "__members__":
            return self.alloc(HDict([(K(k), m) for k, m in c.ns.items() if isinstance(m, EnumM)]))
        if c.kind == "namedtuple" and name in ("_make", "_fields"):
            if name == "_fields":
                return Tup([K(n) for n, _, _ in c.annots])
            return BM(c, name)
        if name == "__doc__":
            return NONE
        if c.extbase:
            return T("attr", c, name)
        if default is not None:
            return default
        raise self.exc("AttributeError", "type object '%s' has no attribute '%s'" % (c.name, name))

    def getattr_t(self, t, name, default=None):
        k = self.tattrs.get((t, name))
        if k is not None:
            return k
        k = self.known_attr.get((t, name))
        if k is not None:
            return k
        if self.attr_hook is not None:
            r = self.attr_hook(self, t, name)
            if r is not None:
                return r
        h = self.hint_of(t)
        if isinstance(h, GenV) and isinstance(h.origin, ClassV):
            h = h.origin
        if isinstance(h, ClassV):
            v = self.class_lookup(h, name)
            if v is not None:
                exact = t in self.exacts
                ov = [] if exact else self.overridden(h, name)
                if name == "__class__":
                    return T("typeof", t)
                if isinstance(v, Wrapper) and v.kind == "property":
                    if ov or v.fn.qual in self.no_inline:
                        return self.typed(T("attr", t, name), self.fn_ret_hint(v.fn))
                    return self.call(v.fn, [t], {})
                if isinstance(v, Fn):
                    if ov or v.qual in self.no_inline:
                        return BM(t, name)
                    return Bound(t, v)
                if isinstance(v, Wrapper):
                    return self.bind(v, t, h)
                if ov:
                    return T("attr", t, name)
                # class attribute that may be shadowed by an instance attribute
                if self.is_inst_attr(h, name):
                    return self.typed(T("attr", t, name), self.field_hint(h, name))
                return v
            if name == "__class__":
                return self.typeof(t) or T("typeof", t)
            subs = self.overridden(h, name)
            if subs or self.is_inst_attr(h, name) or h.extbase:
                fh = self.field_hint(h, name)
                if fh is None and subs and isinstance(subs[0].ns.get(name), (Fn, Wrapper)):
                    w = subs[0].ns[name]
                    if isinstance(w, Fn):
                        return BM(t, name)
                return self.typed(T("attr", t, name), fh)
            if default is not None:
                return default
            return T("attr", t, name)
        if name == "__class__":
            return self.typeof(t) or T("typeof", t)
        return T("attr", t, name)

    def is_inst_attr(self, cls, name):
        return name in self.inst_attrs(cls)

    def inst_attrs(self, cls):
        c = getattr(self, "_inst_attrs", None)
        if c is None:
            c = self._inst_attrs = {}
        if cls in c:
            return c[cls]
        out = {}
        for k in reversed(cls.mro):
            if not isinstance(k, ClassV):
                continue
            for n, a, _ in k.annots:
                out[n] = (a, k)
            for st in ast.walk(k.node):
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Attribute) and isinstance(st.target.value, ast.Name) and st.target.value.id == "self":
                    out[st.target.attr] = (st.annotation, k)
                elif isinstance(st, ast.Attribute) and isinstance(st.ctx, ast.Store) and isinstance(st.value, ast.Name) and st.value.id == "self":
                    out.setdefault(st.attr, (None, k))
        c[cls] = out
        return out

    def field_hint(self, cls, name):
        a = self.inst_attrs(cls).get(name)
        if a is None or a[0] is None:
            return None
        return self.annot_hint(a[0], self.modules[a[1].module])

    def fn_ret_hint(self, fn):
        if isinstance(fn, Fn) and getattr(fn.node, "returns", None) is not None:
            return self.annot_hint(fn.node.returns, fn.frame or self.modules[fn.module])
        return None

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            obj = self.get(o)
            if isinstance(obj, HInst):
                if isinstance(obj.cls, ClassV):
                    cv = self.class_lookup(obj.cls, name)
                    if isinstance(cv, Wrapper) and cv.kind == "property":
                        if cv.setter is None:
                            raise self.exc("AttributeError", "can't set attribute " + name)
                        self.call(cv.setter, [o, v], {})
                        return
                    if obj.cls.kind == "namedtuple":
                        raise self.exc("AttributeError", "can't set attribute " + name)
                w = self.mut(o)
                if self.star_depth > w.depth and self.cur_star is not None and name in w.fields and w.fields[name] != v:
                    v = self.widen(w.fields[name], v, self.cur_star)
                w.fields[name] = v
                return
            raise self.exc("AttributeError", "cannot set attribute " + name)
        if isinstance(o, ClassV):
            if self.in_base:
                o.ns[name] = v
            else:
                self.nsov[(id(o), name)] = v
                self.event("class-write", (o.qual, name))
            return
        if isinstance(o, Fn):
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            self.store_global(o.name, name, v)
            return
        t = self.freeze(o)
        self.tattrs[(t, name)] = v
        self.event("setattr", (t, name, v))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, BM):
            return self.call_bm(f, list(args), kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, list(args), kwargs)
        if isinstance(f, GenV):
            r = self.call(f.origin, args, kwargs)
            if isinstance(r, Ref) and isinstance(self.get(r), HInst) and isinstance(self.get(r).cls, ClassV):
                self.mut(r).fields.setdefault("__orig_class__", f)
            return r
        if isinstance(f, Ref):
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs)
            raise self.exc("TypeError", "object is not callable")
        if isinstance(f, Wrapper):
            if f.kind == "static":
                return self.call(f.fn, args, kwargs)
            raise self.exc("TypeError", "%s object is not callable" % f.kind)
        if isinstance(f, (K, Str, Tup)):
            raise self.exc("TypeError", "'%s' object is not callable" % show(f))
        return self.opaque_call(f, args, kwargs)

    def opaque_call(self, f, args, kwargs, impure=False):
        a = [self.freeze(x) for x in args] + [T("kw", k, self.freeze(v)) for k, v in sorted(kwargs.items())]
        if isinstance(f, T):
            h = self.hint_of(f)
            if isinstance(h, ClassV):
                m = self.class_lookup(h, "__call__")
                if m is not None:
                    return self.call(self.getattr(f, "__call__"), args, kwargs)
        t = T("call", self.freeze(f), *a)
        if impure:
            self.occ += 1
            t = T("call", self.freeze(f), *(a + [T("occ", self.occ)]))
        self.event("ext", t)
        return t

    def bind_args(self, f, args, kwargs):
        node = f.node
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        args = list(args)
        i = 0
        for x in args:
            if i < len(pos):
                if isinstance(x, Star):
                    # an unknown number of positional arguments: spread over the remaining parameters
                    if a.vararg is not None and i >= len(pos):
                        rest.append(x)
                        continue
                    nleft = [p for p in pos[i:]]
                    for p in nleft:
                        vals[p] = T("starArg", self.freeze(x), p)
                    i = len(pos)
                    if a.vararg is not None:
                        rest.append(x)
                    continue
                vals[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        if rest and a.vararg is None:
            if not any(isinstance(x, Star) for x in args):
                raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual.split(":")[-1], len(pos), len(args)))
            rest = []
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        ponly = [x.arg for x in a.posonlyargs]
        for k, v in kwargs.items():
            if k in vals and k in pos and k not in ponly:
                raise self.exc("TypeError", "%s() got multiple values for argument '%s'" % (f.qual.split(":")[-1], k))
            if (k in pos and k not in ponly) or k in kwo:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.qual.split(":")[-1], k))
        nd = len(f.defaults)
        for j, p in enumerate(pos):
            if p not in vals:
                dj = j - (len(pos) - nd)
                if dj >= 0:
                    vals[p] = f.defaults[dj]
                elif star_kw is not None:
                    vals[p] = T("kwArg", self.freeze(star_kw), p)
                else:
                    raise self.exc("TypeError", "%s() missing required argument '%s'" % (f.qual.split(":")[-1], p))
        for p in kwo:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                elif star_kw is not None:
                    vals[p] = T("kwArg", self.freeze(star_kw), p)
                else:
                    raise self.exc("TypeError", "%s() missing keyword argument '%s'" % (f.qual.split(":")[-1], p))
        if a.vararg is not None:
            vals[a.vararg.arg] = Tup(rest)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.alloc(HDict([(K(k), v) for k, v in extra.items()]))
        return vals

    def call_fn(self, f, args, kwargs):
        q = f.qual
        s = self.summaries.get(q)
        if s is not None:
            r = s(self, f, list(args), kwargs)
            if r is not None:
                return r
        if q in self.no_inline:
            return self.typed(self.opaque_call(f, args, kwargs), self.fn_ret_hint(f))
        vals = self.bind_args(f, args, kwargs)
        self.visited_fns.add(q)
        if self.depth > self.MAX_DEPTH:
            raise Cut("depth" if self.factlog else "hang", "the call of %s does not return within %d nested calls" % (q, self.MAX_DEPTH), self.loc)
        node = f.node
        locs, globs, nonl, isgen = fn_locals(node)
        fr = Frame(f.frame, f.module, f, None)
        fr.vars = vals
        fr.locals_, fr.globals_, fr.nonlocals_ = locs, globs, nonl
        # parameter annotations type unknown arguments
        for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if x.annotation is not None:
                v = vals.get(x.arg)
                if type(v) is T and v not in self.hints and v not in self.phints:
                    h = self.annot_hint(x.annotation, f.frame or self.modules[f.module])
                    if h is not None:
                        self.phints[v] = h
        if f.cls is not None and (node.args.posonlyargs or node.args.args):
            fr.self_ = vals[(node.args.posonlyargs + node.args.args)[0].arg]
        saved = self.loc
        self.depth += 1
        self.stack.append(q)
        try:
            if isinstance(node, ast.Lambda):
                r = self.eval(node.body, fr)
                if isgen:
                    r = NONE
            else:
                if isgen:
                    fr.yields = []
                try:
                    self.exec_block(node.body, fr)
                    r = NONE
                except _Return as e:
                    r = e.v
                if isgen:
                    r = self.new_list(fr.yields)
            if type(r) is T and r not in self.hints and r not in self.phints:
                h = self.fn_ret_hint(f)
                if h is not None:
                    self.phints[r] = h
            return r
        finally:
            self.depth -= 1
            self.stack.pop()
            self.loc = saved

    def instantiate(self, c, args, kwargs):
        s = self.summaries.get(c.qual)
        if s is not None:
            r = s(self, c, list(args), kwargs)
            if r is not None:
                return r
        if c.kind == "enum":
            for m in c.ns.values():
                if isinstance(m, EnumM) and args and m.value == args[0]:
                    return m
            return T("call", c, *[self.freeze(x) for x in args])
        new = self.class_lookup(c, "__new__")
        r = self.new_inst(c)
        init = self.class_lookup(c, "__init__")
        if new is not None:
            v = self.call(new.fn if isinstance(new, Wrapper) else new, [c] + list(args), kwargs)
            if not (isinstance(v, Ref) and isinstance(self.get(v), HInst) and self.get(v).cls is c):
                return v
            r = v
        if init is not None:
            self.call(init, [r] + list(args), kwargs)
            return r
        if c.kind in ("namedtuple", "dataclass"):
            fields = []
            for k in reversed(c.mro):
                if isinstance(k, ClassV):
                    for n, a, hasd in k.annots:
                        fields = [x for x in fields if x[0] != n] + [(n, a, hasd, k)]
            names = [n for n, *_ in fields]
            if len(args) > len(names) and not any(isinstance(x, Star) for x in args):
                raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (c.name, len(names), len(args)))
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names:
                    raise self.exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (c.name, k))
                if k in vals:
                    raise self.exc("TypeError", "%s() got multiple values for '%s'" % (c.name, k))
                vals[k] = v
            for n, a, hasd, k in fields:
                if n not in vals:
                    if hasd:
                        d = k.ns[n]
                        if isinstance(d, T) and d.op == "call" and isinstance(d.args[0], Ext) and d.args[0].path == "dataclasses.field":
                            for kw in d.args[1:]:
                                if kw.op == "kw" and kw.args[0] == "default_factory":
                                    d = self.call(kw.args[1], [], {})
                                    break
                                if kw.op == "kw" and kw.args[0] == "default":
                                    d = kw.args[1]
                                    break
                        vals[n] = d
                    elif any(isinstance(x, Star) for x in args):
                        vals[n] = T("starArg", self.freeze(args[-1]), n)
                    else:
                        raise self.exc("TypeError", "%s() missing required argument '%s'" % (c.name, n))
            o = self.mut(r)
            for n in names:
                o.fields[n] = vals[n]
            pi = self.class_lookup(c, "__post_init__")
            if pi is not None:
                self.call(pi, [r], {})
            return r
        if any(isinstance(b, Ext) and b.path.startswith("builtins.") and b.path[9:] in BUILTIN_EXC for b in c.mro):
            self.mut(r).fields["args"] = Tup(args)
            return r
        if c.extbase:
            self.mut(r).fields["args"] = Tup(args)
            return r
        if new is None and (args or kwargs) and not any(isinstance(x, Star) for x in args):
            raise self.exc("TypeError", "%s() takes no arguments" % c.name)
        return r

    # ------------------------------------------------------------------ freezing
    def freeze(self, v):
        """a value usable inside a term. Containers are snapshotted; instances keep their address."""
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HDict):
                if o.open is not None and not o.items:
                    return o.open
                return T("dict", *[x for k, y in o.items for x in (self.freeze(k), self.freeze(y))])
            if isinstance(o, HSet):
                return T("set", *[self.freeze(x) for x in o.items])
            if isinstance(o, HList):
                return T("list", *[self.freeze(x) for x in o.items])
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(x) for x in v.items])
        if isinstance(v, Star):
            return Star(self.freeze(v.elem), v.src)
        return v
