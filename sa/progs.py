"""A small imperative language, its verification conditions (the reference), and comparison of condition sets.

Expressions: ("var",n) ("int",k) ("neg",e) ("op",o,l,r) ("cmp",[ops],[operands]) ("call",f,args) ("and"/"or",l,r) ...
Statements:  ("assign",n,e) ("if",c,body,else) ("while",c,body) ("return",e) ("expr",e)
"""
from __future__ import annotations

import itertools

from .irh import ctuple

OPS = {"+": "Add", "-": "Sub", "*": "Mul", "//": "Div", "%": "Mod"}
CMP = {"<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge", "==": "Eq", "!=": "Ne"}


def node(*a):
    return ctuple(tuple(a))


class NoInv(KeyError):
    """a loop of the program for which the analysis declares no invariant of its own"""


class Ref:
    """reference verification-condition generator.
    st: dict(vars, pre, ret); obligations are (assumptions tuple, conclusion)"""

    def __init__(self, fn, params, inv_args=None, ev=None, args=None):
        self.fn, self.params = fn, list(params)
        self.args = [("Var", p) for p in params] if args is None else list(args)
        self.obl = []
        self.havocs = []       # (program variable, reference name)
        self.nloop = 0
        self.inv_args = inv_args or {}
        self.inits = []
        self.ev_ext = ev
        self.loops = []
        self.info = {}

    def ev(self, e, s):
        k = e[0]
        if k == "var":
            return s["vars"][e[1]]
        if k == "int":
            return ("Lit", e[1])
        if k == "bool":
            return ("Lit", bool(e[1]))
        if k == "neg":
            return node("Sub", ("Lit", 0), self.ev(e[1], s))
        if k == "op":
            return node(OPS[e[1]], self.ev(e[2], s), self.ev(e[3], s))
        if k in ("and", "or"):
            return node({"and": "And", "or": "Or"}[k], self.ev(e[1], s), self.ev(e[2], s))
        if k == "not":
            return node("Not", self.ev(e[1], s))
        if k == "cmp":
            xs = [self.ev(x, s) for x in e[2]]
            cs = [node("Not", node("Eq", xs[i], xs[i + 1])) if o == "!=" else node(CMP[o], xs[i], xs[i + 1]) for i, o in enumerate(e[1])]
            return cs[0] if len(cs) == 1 else node("And", *cs)
        if k == "call":
            return node("Call", e[1], *[self.ev(x, s) for x in e[2]])
        if self.ev_ext is not None:
            return self.ev_ext(self, e, s)
        return container(self, e, s)

    def copy(self, s):
        return {"vars": dict(s["vars"]), "pre": list(s["pre"]), "ret": s["ret"]}

    def inv(self, k, s):
        if k not in self.inv_args:
            raise NoInv(k)
        return ("Inv", k) + tuple((n, s["vars"][n]) for n in self.inv_args[k] if n in s["vars"])

    def prove(self, s, c):
        self.obl.append((tuple(s["pre"]), c))

    def block(self, body, s):
        for st in body:
            if s["ret"]:
                return
            self.stmt(st, s)

    def stmt(self, st, s):
        k = st[0]
        if k == "assign":
            s["vars"][st[1]] = self.ev(st[2], s)
        elif k == "expr":
            self.ev(st[1], s)
        elif k == "return":
            self.prove(s, ("Ps", self.fn) + tuple(self.args) + (self.ev(st[1], s),))
            s["ret"] = True
        elif k == "if":
            c = self.ev(st[1], s)
            n = node("Not", c)
            a, b = self.copy(s), self.copy(s)
            a["pre"].append(c)
            b["pre"].append(n)
            self.block(st[2], a)
            self.block(st[3] or [], b)
            if a["ret"] and b["ret"]:
                s["ret"] = True
            elif a["ret"] or b["ret"]:
                s.update(b if a["ret"] else a)
            else:
                base = len(s["pre"]) + 1
                for cc, side in ((c, a), (n, b)):
                    for x in side["pre"][base:]:
                        s["pre"].append(node("Implies", cc, x))
                for v in a["vars"]:
                    if v in b["vars"]:
                        x, y = a["vars"][v], b["vars"][v]
                        s["vars"][v] = x if x == y else node("Ite", c, x, y)
        elif k == "while":
            i = st[3]
            self.loops.append(sorted(written(st[2])))
            self.info[i] = {"writes": written(st[2]), "reads": used([st[1], st[2]]), "scope": set(s["vars"])}
            self.prove(s, self.inv(i, s))
            for v in sorted(written(st[2])):
                nm = "%s@%d" % (v, i)
                self.havocs.append((v, nm))
                s["vars"][v] = ("Var", nm)
            c = self.ev(st[1], s)
            b = self.copy(s)
            b["pre"] += [c, self.inv(i, s)]
            self.block(st[2], b)
            if not b["ret"]:
                self.prove(b, self.inv(i, b))
            s["pre"] += [node("Not", c), self.inv(i, s)]
        else:
            raise KeyError(k)


def container(ref, e, s):
    """operations on lists, sets and tuples; a mutating operation gives the variable it is called on its new value"""
    k = e[0]
    if k == "list":
        assert not e[1]
        return node("Call", "list_empty")
    if k == "tuple":
        return node("TupleExpr", *[ref.ev(x, s) for x in e[1]])
    if k == "len":
        return node("Call", "list_length", ref.ev(e[1], s))
    if k == "index":
        return node("Call", "list_get", ref.ev(e[1], s), ref.ev(e[2], s))
    if k == "method":
        x = ref.ev(e[1], s)
        a = [ref.ev(y, s) for y in e[3]]
        if e[2] == "append":
            v = node("Call", "list_append", x, a[0])
        elif e[2] == "add":
            v = setnorm(node("Call", "set-insert", a[0], x))
        elif e[2] == "remove":
            v = node("Call", "set-minus", x, node("Call", "set-singleton", a[0]))
        else:
            raise KeyError(e[2])
        s["vars"][e[1][1]] = v
        return v
    raise KeyError(k)


def setnorm(t):
    """one spelling for the set and tuple operations: insertion is union with a singleton, a one-element literal set is a
    singleton, the tupleGet built-in is the tuple access expression"""
    if not isinstance(t, tuple):
        return t
    t = tuple(setnorm(x) for x in t)
    if len(t) >= 3 and t[0] == "Call":
        if t[1] == "tupleGet" and len(t) == 4:
            return ("TupleGet",) + t[2:]
        if t[1] == "set-create" and len(t) == 3:
            t = ("Call", "set-singleton", t[2])
        if t[1] == "set-insert" and len(t) == 4:
            t = ("Call", "set-union", t[3], ("Call", "set-singleton", t[2]))
        if t[1] == "set-union":
            t = ("Call", "set-union") + tuple(sorted(t[2:], key=repr))
    return t


MUTATORS = ("append", "add", "remove")


def used(x, out=None):
    """the variables read by an expression, a statement or a block"""
    out = set() if out is None else out
    if isinstance(x, list):
        for y in x:
            used(y, out)
    elif isinstance(x, tuple) and x and isinstance(x[0], str):
        if x[0] == "var":
            out.add(x[1])
        else:
            for y in x[1:]:
                used(y, out)
    return out


def written(body):
    out = set()
    for st in body:
        if st[0] == "assign":
            out.add(st[1])
        elif st[0] == "if":
            out |= written(st[2]) | written(st[3] or [])
        elif st[0] == "while":
            out |= written(st[2])
        elif st[0] == "expr" and st[1][0] == "method" and st[1][2] in MUTATORS:
            out.add(st[1][1][1])
    return out


def loops_of(body):
    n = 0
    for st in body:
        if st[0] == "if":
            n += loops_of(st[2]) + loops_of(st[3] or [])
        elif st[0] == "while":
            n += 1 + loops_of(st[2])
    return n


# ---------------------------------------------------------------- comparing condition sets
BOOLOPS = ("And", "Or", "Not", "Implies")


def formula(obls):
    out = []
    for pre, c in obls:
        out.append(("Implies", ("And",) + tuple(pre), c) if pre else c)
    return ("And",) + tuple(out)


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "Var" and t[1] in m:
        return ("Var", m[t[1]])
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def names(t, out=None):
    out = {} if out is None else out
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "Var":
            out.setdefault(t[1])
        else:
            for x in t:
                names(x, out)
    return out


class Eval:
    """three-valued evaluation of a formula over its atoms"""

    def __init__(self):
        self.a = {}
        self.keys = {}

    def term(self, t):
        """(term without conditionals, None) or (None, undecided atom)"""
        if not isinstance(t, tuple) or not t:
            return t, None
        if t[0] == "Ite" and len(t) == 4:
            c, u = self.val(t[1])
            if u is not None and c is None:
                return None, u
            return self.term(t[2] if c else t[3])
        if t[0] in BOOLOPS or (t[0] in ("Lt", "Le", "Gt", "Ge") and len(t) == 3):
            c, u = self.val(t)
            return (("Lit", c), None) if c is not None else (None, u)
        out = []
        for x in t:
            y, u = self.term(x)
            if u is not None:
                return None, u
            out.append(y)
        return (ctuple(tuple(out)) if isinstance(out[0], str) and len(out) > 1 else tuple(out)), None

    def val(self, f):
        """(True/False/None, undecided atom when None)"""
        if not isinstance(f, tuple):
            return None, ("atom", f)
        k = f[0]
        if k == "Lit" and isinstance(f[1], bool):
            return f[1], None
        if k in ("And", "Or"):
            und = None
            for x in f[1:]:
                v, u = self.val(x)
                if v is (k == "Or"):
                    return v, None
                if v is None and und is None:
                    und = u
            if und is not None:
                return None, und
            return k == "And", None
        if k == "Not":
            v, u = self.val(f[1])
            return (None, u) if v is None else (not v, None)
        if k == "Implies":
            v, u = self.val(f[1])
            if v is False:
                return True, None
            w, u2 = self.val(f[2])
            if w is True:
                return True, None
            if v is None:
                return None, u
            return (None, u2) if w is None else (w, None)
        if k == "Ite":
            c, u = self.val(f[1])
            if c is None:
                return None, u
            return self.val(f[2] if c else f[3])
        t, u = self.term(f[1:])
        if u is not None:
            return None, u
        t = (k,) + t
        neg = False
        if k in ("Gt", "Ge"):
            t = ({"Gt": "Lt", "Ge": "Le"}[k], t[2], t[1])
        if t[0] == "Le":
            t, neg = ("Lt", t[2], t[1]), True
        if t[0] == "Eq":
            if t[1] == t[2]:
                return True, None
            t = ("Eq",) + tuple(sorted(t[1:], key=repr))
        if t[0] in ("Lt", "Eq") and all(isinstance(x, tuple) and x[0] == "Lit" for x in t[1:]):
            return ((t[1][1] < t[2][1]) if t[0] == "Lt" else t[1][1] == t[2][1]) != neg, None
        if t not in self.a:
            return None, t
        return self.a[t] != neg, None


def equivalent(f, g, limit=60000):
    """None when the formulas have the same value under every assignment of their atoms, else a distinguishing assignment; "?" when too large"""
    ev = Eval()
    count = [0]

    def rec():
        count[0] += 1
        if count[0] > limit:
            return "?"
        v, u = ev.val(f)
        w, u2 = ev.val(g)
        if v is not None and w is not None:
            return None if v == w else (dict(ev.a), v, w)
        at = u if v is None else u2
        for b in (False, True):
            ev.a[at] = b
            r = rec()
            del ev.a[at]
            if r is not None:
                return r
        return None
    return rec()


def compare(code, ref, havocs, fixed):
    """code, ref: obligations; havocs: reference names (program variable, name); fixed: names that stand for themselves.
    None when some renaming of the code's fresh variables makes the two conditions equivalent, else a message"""
    code, ref = [setnorm(o) for o in code], [setnorm(o) for o in ref]
    f, g = formula(code), formula(ref)
    cn = [n for n in names(f) if n not in fixed]
    used = names(g)
    rn = [(v, n) for v, n in havocs if n in used]
    if len(cn) < len(rn):
        return "the conditions mention only %d fresh variables (%s) where %d are needed (%s)" % (len(cn), ", ".join(cn), len(rn), ", ".join(n for _, n in rn))
    if len(cn) > len(rn):
        extra = [n for n in cn]
        return "the conditions mention unexpected variables: %s" % ", ".join(extra)
    # candidates: same stem first
    groups = {}
    for v, n in rn:
        groups.setdefault(v, []).append(n)
    stems = sorted(groups, key=len, reverse=True)
    assign = {v: [] for v in groups}
    loose = []
    for n in cn:
        s = next((v for v in stems if str(n).startswith(v)), None)
        if s is not None and len(assign[s]) < len(groups[s]):
            assign[s].append(n)
        else:
            loose.append(n)
    if any(len(assign[v]) != len(groups[v]) for v in groups):
        perms = [dict(zip(p, [n for _, n in rn])) for p in itertools.islice(itertools.permutations(cn), 800)]
    else:
        perms = []
        for combo in itertools.islice(itertools.product(*[itertools.permutations(assign[v]) for v in groups]), 800):
            m = {}
            for v, p in zip(groups, combo):
                m.update(dict(zip(p, groups[v])))
            perms.append(m)
    first = None
    for m in perms or [{}]:
        r = equivalent(subst(f, m), g)
        if r is None:
            return None
        if first is None:
            first = (r, m)
    r, m = first
    if r == "?":
        return "?comparison too large"
    return explain(r, code, ref, m)


def holds(o, a):
    ev = Eval()
    ev.a = a
    return ev.val(formula([o]))[0]


def explain(r, code, ref, m):
    a, v, w = r
    if v and not w:
        lost = [o for o in ref if holds(o, a) is False]
        return "no obligation of the analysis implies: %s" % otext(lost[0] if lost else ref[-1])
    extra = [o for o in [(tuple(subst(x, m) for x in p), subst(c, m)) for p, c in code] if holds(o, a) is False]
    return "the analysis demands something else: %s" % otext(extra[0] if extra else code[-1])


def ttext(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("Var", "Lit"):
            return str(t[1])
        return "(" + " ".join(ttext(x) for x in t) + ")"
    return str(t)


def otext(o):
    return " and ".join(ttext(x) for x in o[0]) + (" => " if o[0] else "") + ttext(o[1])
