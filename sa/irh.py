"""Harness over metalift.ir: builds expression nodes through the repository's own constructors (interpreted abstractly),
with opaque operands, and reads back what printers, rewriters and operators produce from them."""
from __future__ import annotations

import re
from collections import namedtuple

from .values import *  # noqa: F401,F403
from .values import _Return  # noqa: F401

Node = namedtuple("Node", "cls type args")     # an Expr built by the code under analysis
Obj = namedtuple("Obj", "cls type src")        # an Object wrapper
Inst = namedtuple("Inst", "cls fields")
IRM = "metalift.ir"


class IRH:
    def __init__(self, ctx, mod=IRM):
        self.ctx = ctx
        self.it = ctx.it
        self.it.load_module(mod)
        self.it.ext_disjoint = ("llvmlite.", "ast.", "mypy.")
        self.Expr = self.cls("Expr")
        self.Object = self.cls("Object")
        it = self.it
        prev = it.method_hook

        def hook(it_, recv, name, args, kw):
            if name in ("__repr__", "__str__"):
                h = it_.hint_of(recv)
                if h is not None and it_.subtype(h if not isinstance(h, GenV) else h.origin, self.Expr):
                    return Str(["(", T("repr", recv), ")"])
            return prev(it_, recv, name, args, kw) if prev else None
        it.method_hook = hook

    # ---- lookups
    def cls(self, name):
        return self.ctx.lookup(IRM + ":" + name)

    def has(self, name):
        return self.it.lookup(IRM + ":" + name) is not None

    def ty(self, spec):
        """'Int' | 'Bool' | ('List', spec) | ('Tuple', spec, ...) | ('Fn', ret, arg, ...)"""
        if isinstance(spec, Val):
            return spec
        if isinstance(spec, str):
            return self.cls(spec)
        head, *rest = spec
        rest = [self.ty(r) for r in rest]
        c = self.cls(head)
        if head in ("Tuple", "Fn"):
            return GenV(c, [GenV(Ext("builtins.tuple"), rest)])
        return GenV(c, rest)

    def opnd(self, name, ty="Int"):
        """an arbitrary expression of the given type"""
        return self.it.sym(name, self.Expr, type=self.ty(ty))

    def base(self, fn):
        """build something once, shared by every partition explored later"""
        self.it.in_base += 1
        try:
            return fn()
        finally:
            self.it.in_base -= 1

    def name(self, n):
        return self.it.sym(n, Ext("builtins.str"))

    # ---- running
    def mk(self, cname, *args, **kw):
        return self.it.call(self.cls(cname), list(args), kw)

    def fn(self, name, *args, **kw):
        return self.it.call(self.cls(name), list(args), kw)

    def fn_attr(self, cname, attr, *args, **kw):
        """a static or class-level function"""
        return self.it.call(self.it.getattr(self.cls(cname), attr), list(args), kw)

    def meth(self, obj, name, *args, **kw):
        return self.it.call(self.it.getattr(obj, name), list(args), kw)

    def reify(self, v, depth=0):
        it = self.it
        if depth > 60:
            return v
        if isinstance(v, Ref):
            o = it.get(v)
            if isinstance(o, HInst):
                if isinstance(o.cls, ClassV):
                    if it.subtype(o.cls, self.Expr):
                        args = o.fields.get("args")
                        args = self.reify(args, depth + 1) if args is not None else ()
                        return Node(o.cls.name, o.fields.get("type"), tuple(args) if isinstance(args, (list, tuple)) else (args,))
                    if it.subtype(o.cls, self.Object):
                        t = o.fields.get("type")
                        if t is None:
                            try:
                                t = it.getattr(v, "type")
                            except PyExc:
                                t = None
                        return Obj(o.cls.name, t, self.reify(o.fields.get("src"), depth + 1))
                    return Inst(o.cls.name, tuple((k, self.reify(x, depth + 1)) for k, x in o.fields.items()))
                return Inst(str(o.cls), tuple((k, self.reify(x, depth + 1)) for k, x in o.fields.items()))
            if isinstance(o, HDict):
                return Inst("dict", tuple((self.reify(k, depth + 1), self.reify(x, depth + 1)) for k, x in o.items))
            if isinstance(o, HSet):
                return Inst("set", tuple(self.reify(x, depth + 1) for x in o.items))
            return tuple(self.reify(x, depth + 1) for x in o.items)
        if isinstance(v, Tup):
            return tuple(self.reify(x, depth + 1) for x in v.items)
        return v

    def run(self, fn, max_paths=None):
        return self.it.explore(fn, max_paths)

    # ---- deciding
    def decide(self, key, fn, expect, where=None, allow_raise=False, sample=None, skip=None):
        """fn(it) -> reified value; expect(value, result) -> None if it is right, else a message. One obligation."""
        ctx = self.ctx
        res = self.run(fn)
        ctx.stat("partitions", len(res))
        if res and all(r.kind == "loop" for r in res):
            ctx.unknown(key, "no partition gets past a loop: %s" % res[0].msg, res[0].loc)
        for r in res:
            if skip is not None and skip(r):
                continue
            if r.kind == "return":
                try:
                    m = expect(r.value, r)
                except (AttributeError, TypeError, IndexError, KeyError, ValueError) as e:
                    m = "?the result %s has a shape the rule cannot read (%s: %s)" % (shownode(r.value), type(e).__name__, e)
                if m is not None:
                    if m.startswith("?"):
                        ctx.unknown(key, m[1:], where)
                    else:
                        ctx.bad(key, m + self.cond_text(r), where)
                else:
                    ctx.ok(key, sample if sample is not None else shownode(r.value))
            elif r.kind == "raise":
                if allow_raise == "must":
                    if r.exc.implicit and False:
                        ctx.bad(key, "raises %s" % r.msg, r.loc)
                    else:
                        ctx.ok(key, "raises " + r.msg[:120])
                elif allow_raise:
                    ctx.ok(key, "raises " + r.msg[:120])
                else:
                    ctx.bad(key, "raises %s%s" % (r.msg, self.cond_text(r)), r.loc)
            elif r.kind == "loop":
                pass
            elif r.kind == "hang":
                ctx.bad(key, r.msg + self.cond_text(r), r.loc)
            else:
                ctx.unknown(key, "%s: %s" % (r.kind, r.msg), r.loc)

    def must_raise(self, key, fn, what, where=None):
        res = self.run(fn)
        ctx = self.ctx
        for r in res:
            if r.kind == "raise":
                ctx.ok(key, "rejected: " + r.msg[:120])
            elif r.kind == "return":
                ctx.bad(key, "%s is accepted and yields %s%s" % (what, shownode(r.value), self.cond_text(r)), where)
            elif r.kind == "hang":
                ctx.bad(key, r.msg, r.loc)
            elif r.kind != "loop":
                ctx.unknown(key, "%s: %s" % (r.kind, r.msg), r.loc)

    def cond_text(self, r):
        fs = [f for f in r.facts][:6]
        if not fs:
            return ""
        return " (when %s)" % " and ".join(("" if v else "not ") + show(c)[:80] for c, v, *_ in fs)

    def loc(self, dotted):
        f = self.it.lookup(IRM + ":" + dotted)
        if f is None:
            return dotted
        return self.ctx.where(f)


def shownode(v, depth=0):
    if isinstance(v, Node):
        return "%s(%s)" % (v.cls, ", ".join(shownode(a, depth + 1) for a in v.args))
    if isinstance(v, Obj):
        return "<%s %s>" % (v.cls, shownode(v.src))
    if isinstance(v, Inst):
        return "%s{..}" % v.cls if depth > 2 else "%s{%s}" % (v.cls, ", ".join(shownode(f, depth + 1) for f in v.fields[:12]))
    if isinstance(v, tuple):
        return "[" + ", ".join(shownode(a, depth + 1) for a in v) + "]"
    if isinstance(v, Val):
        return show(v)
    return str(v)


def fixed_names(r, names):
    """the partition fixes one of the unknown names to a particular string (these are decided with the literal names)"""
    for c, v, *_ in r.facts:
        if v and isinstance(c, T):
            if c.op == "==" and any(n in c.args for n in names):
                return True
            if c.op == "in" and c.args[0] in names:
                return True
    if any(p in ("set-", "map-") for n in names for p in prefix_facts(r, n)):
        return True
    return False


def prefix_facts(r, n):
    """prefixes the partition assumes the unknown name n to have"""
    out = []
    for c, v, *_ in r.facts:
        while isinstance(c, T) and c.op in ("cond", "truthy"):
            c = c.args[0]
        if v and isinstance(c, T) and c.op == "call" and c.args[0] == T("attr", n, "startswith"):
            out.extend(a.v for a in c.args[1:] if isinstance(a, K))
    return out


# ---------------------------------------------------------------- text of printers
class L:
    """leaf of a printed text: the recursive rendering of an operand"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, L) and o.x == self.x

    def __hash__(self):
        return hash(("L", self.x))

    def __repr__(self):
        return "<%s>" % show(self.x)


def flatten(v):
    """value -> list of str / Val pieces, or None when it is not text"""
    if isinstance(v, K):
        return [v.v] if isinstance(v.v, str) else None
    if isinstance(v, Str):
        out = []
        for p in v.parts:
            if isinstance(p, (Str,)):
                q = flatten(p)
                if q is None:
                    return None
                out.extend(q)
            elif isinstance(p, K) and isinstance(p.v, str):
                out.append(p.v)
            else:
                out.append(p)
        return out
    if isinstance(v, T):
        return [v]
    return None


def strip_str(p):
    while isinstance(p, T) and p.op in ("str", "fmt", "format") and len(p.args) >= 1 and isinstance(p.args[0], Val):
        p = p.args[0]
    return p


def var_name_of(p):
    """x when p is the name stored in a variable expression x"""
    if isinstance(p, T) and p.op == "index" and p.args[1] == K(0) and isinstance(p.args[0], T) and p.args[0].op == "attr" and p.args[0].args[1] == "args":
        return p.args[0].args[0]
    if isinstance(p, T) and p.op == "call" and isinstance(p.args[0], T) and p.args[0].op == "attr" and p.args[0].args[1] == "name":
        return p.args[0].args[0]
    return None


def leaf(p, methods):
    """the operand whose recursive rendering by one of the methods p is, else None"""
    p = strip_str(p)
    if isinstance(p, T) and p.op == "call" and isinstance(p.args[0], T) and p.args[0].op == "attr" and p.args[0].args[1] in methods:
        x = p.args[0].args[0]
        while isinstance(x, T) and x.op == "attr" and x.args[1] == "src":
            x = x.args[0]
        return x
    x = var_name_of(p)
    if x is not None and "var" in methods:
        return x
    return None


def written(it, name=None):
    """the text the code wrote to the files it opened, in order"""
    parts = []

    def walk(v):
        return isinstance(v, T) and (v.op == "file" or (v.op == "enter" and walk(v.args[0])))
    for e in it.events:
        k, d = e[0], e[1]
        if k == "ext" and isinstance(d, T) and d.op == "call" and isinstance(d.args[0], T) and d.args[0].op == "attr" and d.args[0].args[1] == "write":
            parts.append(d.args[1])
        elif k == "print" and d[1] is not None:
            for i, x in enumerate(d[0]):
                if i:
                    parts.append(K(" "))
                parts.append(x)
            parts.append(K("\n") if d[2] is None else d[2])
    return Str(parts)


def install_networkx(it):
    """model of the part of networkx the repository uses: directed graphs with known edges and topological sorting"""
    def digraph(itp, a, kw):
        g = itp.new_inst(Ext("networkx.DiGraph"), {"edges": itp.new_list([]), "nodes": itp.new_list([])})
        o = itp.mut(g)
        for n in ("add_edge", "add_edges_from", "add_node", "add_nodes_from"):
            o.fields[n] = Native("networkx." + n, lambda it_, a_, kw_, n=n: put(it_, g, n, a_))
        if a:
            put(itp, g, "add_edges_from", a)
        return g

    def put(itp, g, name, args):
        es, ns = (itp.mut(itp.get(g).fields[k]) for k in ("edges", "nodes"))
        if name in ("add_edges_from", "add_edge"):
            for e in itp.iter_items(args[0]) if name == "add_edges_from" else [Tup(args[:2])]:
                e = Tup(list(itp.iter_items(e))[:2])
                for n in e.items:
                    if n not in ns.items:
                        ns.items.append(n)
                if e not in es.items:
                    es.items.append(e)
        else:
            for n in itp.iter_items(args[0]) if name == "add_nodes_from" else args[:1]:
                if n not in ns.items:
                    ns.items.append(n)
        return NONE

    def topo(itp, a, kw):
        g = itp.get(a[0])
        edges = [tuple(e.items) for e in itp.get(g.fields["edges"]).items]
        left = list(itp.get(g.fields["nodes"]).items)
        out = []
        while left:
            ready = [n for n in left if not any(b == n and a_ in left for a_, b in edges)]
            if not ready:
                raise itp.exc("networkx.exception.NetworkXUnfeasible", "Graph contains a cycle.")
            # any order consistent with the edges is allowed: take the last ready node, which is not the insertion order
            n = ready[-1]
            out.append(n)
            left.remove(n)
        return itp.new_list(out)
    it.ext_models["networkx.DiGraph"] = digraph
    it.ext_models["networkx.topological_sort"] = topo


TOK = re.compile(r'\s+|([()\[\]])|([^\s()\[\]]+)')


def sexpr(v, methods, quiet=False):
    """printed value -> nested list tree (list of top-level forms) or a string describing why it is malformed.
    Tokens are str, L(operand), or tuples of pieces when a token mixes text and unknowns."""
    pieces = flatten(v)
    if pieces is None:
        return "not text: %s" % show(v)
    # tokenise with placeholders
    text = ""
    holes = []
    for p in pieces:
        if isinstance(p, str):
            text += p
        else:
            q = strip_str(p)
            x = leaf(q, methods)
            holes.append(L(x) if x is not None else q)
            text += "\x01%d\x02" % (len(holes) - 1)
    stack = [[]]
    opens = []
    pos = 0
    while pos < len(text):
        m = TOK.match(text, pos)
        pos = m.end()
        if m.group(1):
            c = m.group(1)
            if c in "([":
                stack.append([])
                opens.append(c)
            else:
                if not opens or (opens[-1] == "(") != (c == ")"):
                    return "unbalanced brackets in %r" % v
                opens.pop()
                f = stack.pop()
                stack[-1].append(f)
        elif m.group(2):
            t = m.group(2)
            parts = re.split("\x01(\\d+)\x02", t)
            seq = []
            for i, s in enumerate(parts):
                if i % 2:
                    seq.append(holes[int(s)])
                elif s:
                    seq.append(s)
            stack[-1].append(seq[0] if len(seq) == 1 else tuple(seq))
    if opens:
        return "unbalanced brackets in %r" % v
    return stack[0]


def tree_text(t):
    if isinstance(t, list):
        return "(" + " ".join(tree_text(x) for x in t) + ")"
    if isinstance(t, tuple):
        return "".join(tree_text(x) for x in t)
    if isinstance(t, Val):
        return "{" + show(t) + "}"
    return str(t)


def tree_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(tree_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(tree_eq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (isinstance(a, Val) and isinstance(b, Val) and a == b)


FLIP = {">": "<", ">=": "<="}


def norm(t):
    """identify spellings with the same meaning: (> a b) and (< b a); (or), (and) wrappers of one element stay"""
    if isinstance(t, list):
        t = [norm(x) for x in t]
        if len(t) == 3 and isinstance(t[0], str) and t[0] in FLIP:
            return [FLIP[t[0]], t[2], t[1]]
        return t
    return t


# ---------------------------------------------------------------- canonical form of built expressions
def canon(v):
    """nested tuples (class, operands...): objects stand for their expression; spellings with the same meaning are identified
    (a > b / b < a, not (a < b) / b <= a, not not a, nested conjunctions and disjunctions, sums and products)"""
    if isinstance(v, Obj):
        return canon(v.src)
    if isinstance(v, Node):
        return ctuple((v.cls,) + tuple(canon(x) for x in v.args))
    if isinstance(v, K):
        return v.v
    if isinstance(v, Str):
        return show(v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, T) and v.op == "attr" and v.args[1] == "src":
        return v.args[0]
    return v


def ctuple(t):
    """canonical form of a tuple (class, operands...)"""
    if not (isinstance(t, tuple) and t and isinstance(t[0], str)):
        return t
    t = (t[0],) + tuple(ctuple(x) if isinstance(x, tuple) else x for x in t[1:])
    op = t[0]
    if op in ("Gt", "Ge") and len(t) == 3:
        return ({"Gt": "Lt", "Ge": "Le"}[op], t[2], t[1])
    if op == "Not" and len(t) == 2 and isinstance(t[1], tuple):
        if t[1][0] == "Not":
            return t[1][1]
        if t[1][0] == "Lit" and isinstance(t[1][1], bool):
            return ("Lit", not t[1][1])
        if t[1][0] in ("Lt", "Le"):
            return ({"Lt": "Le", "Le": "Lt"}[t[1][0]], t[1][2], t[1][1])
    if op in ("And", "Or", "Add", "Mul"):
        out = []
        for x in t[1:]:
            if isinstance(x, tuple) and x and x[0] == op:
                out.extend(x[1:])
            else:
                out.append(x)
        if len(out) == 1:
            return out[0]
        return (op,) + tuple(out)
    return t


def ctext(t):
    if isinstance(t, tuple):
        return "(" + " ".join(ctext(x) for x in t) + ")"
    return show(t) if isinstance(t, Val) else repr(t)


def built(h, want, ty=None, also=()):
    """expectation: the value is an object/expression that reads as want (canonical tuples), of type ty"""
    wants = [ctuple(w) for w in (want,) + tuple(also)]

    def expect(v, r):
        c = canon(v)
        if c not in wants:
            return "builds %s, expected %s" % (ctext(c), ctext(wants[0]))
        if ty is not None and isinstance(v, (Obj, Node)) and v.type is not None and v.type != h.ty(ty):
            return "has type %s, expected %s" % (show(v.type), show(h.ty(ty)))
        return None
    return expect
