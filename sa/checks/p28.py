"""P28: what the simplification of the verification condition does to its validity"""
import itertools

from ..irh import Node, Obj, shownode
from ..synth import SR, SU, Bench
from ..values import Ext, K, PyExc, Ref, Tup

FLOOR = 500
CV = "metalift.synthesize_cvc5"

X, Y, Z, W = "x", "y", "z", "w"
TYPES = {"b": "Bool", "c": "Bool"}


def eq(a, b):
    return ("=", a, b)


def p(*a):
    return ("p",) + a


def q(*a):
    return ("q",) + a


def f(a):
    return ("f", a)


def imp(a, b):
    return ("=>", a, b)


def con(*a):
    return ("and",) + a if len(a) > 1 else a[0]


def dis(*a):
    return ("or",) + a


def no(a):
    return ("not", a)


# ------------------------------------------------------------ what a condition means
def names(t, vs, fs):
    if isinstance(t, str):
        vs.add(t)
    elif isinstance(t, tuple):
        if t[0] == "uif":
            fs.add((t[1], len(t) - 2))
        for a in t[2 if t[0] == "uif" else 1:]:
            names(a, vs, fs)


class Meaning:
    """validity over a finite domain: every value of the variables, every predicate p, every function f

    Both steps of the simplification (giving a variable that occurs nowhere else the value a premise requires; reading an equality
    whose variable occurs nowhere else as a free truth value) preserve validity in every domain of two or more elements,
    so a comparison in one such domain is a sound test of both."""

    def __init__(self, n):
        self.n = n
        self.cache = {}

    def valid(self, t, types):
        key = (t, tuple(sorted(types.items())))
        if key not in self.cache:
            self.cache[key] = self.search(t, types)
        return self.cache[key]

    def search(self, t, types):
        vs, fs = set(), set()
        names(t, vs, fs)
        vs = sorted(vs)
        D = range(self.n)
        doms = [(False, True) if types.get(v) == "Bool" else D for v in vs]
        for vals in itertools.product(*doms):
            env = dict(zip(vs, vals))
            if not self.holds(t, env):
                return False
        return True

    def holds(self, t, env):
        """the condition holds for every meaning of its predicates and functions, found one needed value at a time"""
        todo = [{}]
        while todo:
            table = todo.pop()
            try:
                if not self.ev(t, env, table):
                    return False
            except Need as e:
                for v in e.values:
                    todo.append({**table, e.key: v})
        return True

    def ev(self, t, env, table):
        if isinstance(t, str):
            return env[t]
        if not isinstance(t, tuple):
            return t if isinstance(t, bool) else ("lit", t)[1] % self.n
        op = t[0]
        if op == "and":
            return all([self.ev(a, env, table) for a in t[1:]])
        if op == "or":
            return any([self.ev(a, env, table) for a in t[1:]])
        if op == "not":
            return not self.ev(t[1], env, table)
        if op == "=>":
            return (not self.ev(t[1], env, table)) or self.ev(t[2], env, table)
        if op == "ite":
            return self.ev(t[2], env, table) if self.ev(t[1], env, table) else self.ev(t[3], env, table)
        a = [self.ev(x, env, table) for x in t[1:] if not (op == "uif" and x is t[1])]
        if op == "=":
            return a[0] == a[1]
        if op == "<":
            return a[0] < a[1]
        if op == "<=":
            return a[0] <= a[1]
        if op in (">", ">="):
            return a[0] > a[1] if op == ">" else a[0] >= a[1]
        if op == "+":
            return sum(a) % self.n
        if op == "uif":
            key = (t[1],) + tuple(a)
            if key not in table:
                raise Need(key, (False, True) if t[1][0] in "pq" else range(self.n))
            return table[key]
        raise Odd("the operation %s" % op)


class Need(Exception):
    def __init__(self, key, values):
        self.key, self.values = key, values


class Odd(Exception):
    pass


OPS = {"And": "and", "Or": "or", "Not": "not", "Implies": "=>", "Eq": "=", "Ite": "ite", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Add": "+"}


def read(n):
    """a formula from the expression handed on"""
    if isinstance(n, Obj):
        n = n.src
    if not isinstance(n, Node):
        raise Odd("%s where an expression is expected" % (shownode(n),))
    if n.cls == "Var":
        return n.args[0].v
    if n.cls in ("Lit", "IntLit", "BoolLit"):
        return n.args[0].v
    if n.cls == "Call":
        return ("uif", n.args[0].v) + tuple(read(a) for a in n.args[1:])
    if n.cls in OPS:
        return (OPS[n.cls],) + tuple(read(a) for a in n.args)
    raise Odd("an expression of kind %s" % n.cls)


def formal(t):
    """the same notation for a condition of ours"""
    if not isinstance(t, tuple):
        return t
    if t[0] in ("p", "q", "f"):
        return ("uif", t[0]) + tuple(formal(a) for a in t[1:])
    return (t[0],) + tuple(formal(a) for a in t[1:])


def show(t):
    if not isinstance(t, tuple):
        return str(t).lower() if isinstance(t, bool) else str(t)
    if t[0] == "uif":
        return "%s(%s)" % (t[1], ", ".join(show(a) for a in t[2:]))
    if t[0] in ("p", "q", "f"):
        return "%s(%s)" % (t[0], ", ".join(show(a) for a in t[1:]))
    if t[0] == "not":
        return "!%s" % show(t[1])
    if t[0] == "ite":
        return "ite(%s)" % ", ".join(show(a) for a in t[1:])
    return "(%s)" % ((" %s " % t[0]).join(show(a) for a in t[1:]))


# ------------------------------------------------------------ the conditions
def fixed():
    b, c = "b", "c"
    return [
        # one implication
        imp(eq(X, Y), p(X)), imp(eq(X, Y), q(X, Y)), imp(eq(X, X), p(X)), imp(con(p(Y), eq(X, Y)), p(X)), imp(con(p(X), eq(X, Y)), p(Y)),
        imp(con(eq(X, 1), p(1)), p(X)), imp(con(eq(1, X), p(1)), p(X)), imp(con(eq(X, 1), eq(X, 0)), p(X)), imp(con(eq(X, 1), eq(X, 1)), p(X)),
        imp(con(eq(X, f(Y)), p(f(Y))), p(X)), imp(con(eq(f(Y), X), p(f(Y))), con(p(X), p(X))), imp(con(eq(X, f(Y)), p(f(Y))), con(p(X), q(X, Y))),
        # a variable that is constrained elsewhere
        con(imp(eq(X, Y), p(X)), p(X)), dis(imp(con(eq(X, Y), p(X)), p(Y)), eq(X, 0)), con(imp(eq(X, Y), imp(p(X), p(Y))), imp(p(X), p(X))), dis(eq(X, Y), imp(eq(X, Z), p(X))),
        dis(no(eq(X, Y)), imp(eq(X, Y), con(p(X), p(Y)))), con(imp(eq(X, Y), imp(p(Y), p(X))), imp(eq(X, Z), imp(p(Z), p(X)))), dis(no(p(X)), imp(eq(X, Y), p(Y))),
        # replacements that mention each other, or themselves
        imp(con(eq(X, Y), eq(Y, X)), imp(p(X), p(Y))), imp(con(eq(X, Y), eq(Y, X)), q(X, Y)), imp(con(eq(X, Y), eq(Y, Z), eq(Z, X)), imp(p(X), con(p(Y), p(Z)))),
        imp(con(eq(X, Y), eq(Y, Z)), imp(p(X), p(Z))), imp(con(eq(Y, Z), eq(X, Y)), imp(p(X), p(Z))), imp(con(eq(X, f(Y)), eq(Y, Z)), imp(p(X), p(f(Z)))), imp(con(eq(X, f(Y)), eq(Y, f(X))), imp(p(X), p(f(Y)))),
        imp(con(eq(X, f(X)), p(X)), p(f(X))), imp(con(eq(f(X), X), p(f(X))), p(X)), imp(con(eq(X, Y), eq(Z, Y), eq(W, Z)), imp(p(X), p(W))), imp(con(eq(X, Y), eq(Y, Z), eq(Z, W), eq(W, X)), imp(p(X), p(Z))),
        # an implication inside an implication
        imp(con(eq(X, Y), p(X)), imp(con(eq(Y, Z), q(X, X)), p(Z))), imp(eq(X, Y), dis(no(eq(X, Z)), eq(Z, X))), imp(eq(X, Y), imp(eq(Y, Z), eq(X, Z))), imp(eq(X, Y), imp(con(eq(X, Z), p(Z)), p(Y))),
        imp(eq(X, Y), imp(eq(Z, W), imp(eq(Y, Z), imp(p(X), p(W))))), imp(p(X), imp(eq(X, Y), p(Y))), imp(p(X), imp(eq(X, 1), imp(eq(Y, X), p(Y)))), imp(eq(X, Y), con(imp(eq(X, Z), imp(p(Z), p(Y))), imp(p(X), p(Y)))),
        imp(eq(X, Y), con(imp(p(X), p(Z)), imp(eq(Z, Y), p(X)))),
        # an implication that need not hold
        imp(imp(eq(X, Y), p(X)), p(Y)), no(imp(eq(X, Y), p(X))), imp(no(imp(eq(X, Y), p(X))), no(p(Y))), no(no(imp(con(eq(X, Y), p(X)), p(Y)))), no(con(imp(eq(X, Y), p(X)), no(p(Y)))), imp(con(imp(eq(X, Y), p(X)), p(Z)), p(Y)),
        dis(imp(imp(eq(X, Y), p(X)), p(Y)), p(Z)), imp(imp(imp(eq(X, Y), p(Y)), p(Z)), p(Z)), ("ite", imp(eq(X, Y), p(X)), p(Y), True), ("ite", b, imp(con(eq(X, Y), p(X)), p(Y)), imp(con(eq(Z, Y), p(Y)), p(Z))), imp(dis(imp(eq(X, Y), p(X)), p(Z)), dis(p(Y), p(Z))),
        imp(imp(p(Z), imp(eq(X, Y), p(X))), imp(p(Z), p(Y))), imp(no(no(imp(eq(X, Y), p(X)))), p(Y)), imp(imp(True, con(imp(eq(X, Y), p(X)), True)), p(Y)), imp(p(Z), imp(imp(eq(X, Y), p(X)), p(Y))),
        imp(con(p(Z), imp(p(Z), imp(eq(X, 1), p(X)))), p(1)), no(con(imp(p(Z), imp(eq(X, Y), p(X))), p(Z), no(p(Y)))), ("ite", imp(p(Z), imp(eq(X, Y), p(X))), imp(p(Z), p(Y)), True), imp(eq(b, imp(True, imp(eq(X, Y), p(X)))), imp(b, p(Y))),
        eq(b, imp(eq(X, Y), p(X))), imp(eq(b, imp(eq(X, Y), p(X))), imp(b, p(Y))),
        # equalities whose variable occurs nowhere else
        eq(X, Y), eq(X, 1), no(eq(X, Y)), dis(eq(X, Y), no(eq(X, Y))), dis(eq(X, Y), no(eq(Z, W))), imp(eq(X, 1), p(Y)), imp(p(Y), eq(X, f(Y))), imp(con(p(Y), eq(X, Y)), p(Y)), dis(eq(X, Y), eq(X, Z)), imp(dis(eq(X, Y), p(Y)), p(Y)), imp(dis(eq(X, Y), no(p(Y))), no(p(Y))),
        con(imp(p(Y), p(Y)), dis(eq(X, Y), True)), dis(eq(X, f(X)), p(Y)), dis(eq(X, X), p(Y)), no(eq(X, X)), dis(eq(X, 1), no(eq(X, 1))), dis(eq(f(X), f(Y)), no(eq(X, Y))), dis(eq(1, X), eq(2, Y)), imp(con(eq(X, Y), eq(Z, Y)), p(Y)), imp(con(eq(Y, X), eq(Y, Z)), imp(p(X), p(Z))),
        # Boolean variables
        imp(con(eq(b, p(X)), p(X)), b), imp(eq(b, c), imp(b, c)), imp(con(eq(b, no(c)), b), no(c)), imp(con(eq(b, True), b), b), imp(eq(b, eq(X, Y)), imp(b, eq(X, Y))), imp(con(b, eq(X, Y)), dis(c, b)), eq(b, eq(X, Y)), eq(eq(X, Y), eq(Y, X)),
        # conjunctions with constants
        con(True, p(X)), con(p(X), True), con(True, True), con(p(X), False), con(False, p(X)), con(True, imp(p(X), p(X)), True), imp(con(True, eq(X, Y), True), imp(p(X), p(Y))), imp(con(False, p(X)), p(Y)), dis(con(True, p(X)), no(p(X))), no(con(True, True)), no(con(p(X), False)),
        con(imp(p(X), p(X)), imp(False, p(Y))), con(dis(p(X), no(p(X))), con(True, con(True, True))), imp(con(p(X), con(True, eq(X, Y))), p(Y)), imp(True, p(X)), imp(p(X), True), dis(True, p(X)), dis(False, imp(p(X), p(X))), True, False, p(X), no(p(X)), con(p(X), no(p(X))),
        dis(p(X), no(p(X))), con(dis(p(X), no(p(X))), dis(p(Y), no(p(Y)))), con(dis(p(X), no(p(X))), p(Y)), con(dis(p(X), no(p(X))), dis(p(Y), no(p(Y))), p(Z)),
        # comparisons in the way of the verification conditions the front ends produce
        imp(con(("<", X, Y), eq(Z, ("+", X, 1))), ("<=", X, Y)), imp(con(eq(X, 0), ("<", X, Y)), ("<", 0, Y)), con(imp(eq(X, 0), q(X, Y)), imp(con(q(Z, Y), ("<", Z, Y)), q(("+", Z, 1), Y)), imp(con(q(W, Y), no(("<", W, Y))), p(W))),
    ]


def small(deep):
    """implications between conjunctions of equalities, small enough to be listed"""
    E = [eq(X, Y), eq(Y, X), eq(X, Z), eq(Y, Z), eq(Z, X), eq(X, 1), eq(Y, f(X))]
    A1 = [p(X), p(Y), p(Z)]
    C = [p(X), p(Y), p(Z), eq(X, Z), q(X, Y)]
    out = []
    for e1, e2 in itertools.combinations(E, 2):
        for a, c in ((p(X), p(Y)), (p(Y), p(Z)), (p(Z), p(X)), (p(X), eq(X, Z))):
            out.append(imp(con(e1, e2, a), c))
    for e1, e2 in itertools.product(E, E):
        for k, (a, c) in enumerate(((p(X), p(Z)), (p(Y), p(X)), (p(Z), p(Y)), (p(X), eq(Y, Z)))):
            if deep or (E.index(e1) + 2 * E.index(e2) + k) % 4 == 0:
                out += [imp(con(e1, a), imp(e2, c)), con(imp(con(e1, a), c), imp(con(e2, c), a)), imp(e1, dis(no(con(e2, a)), c)), dis(imp(con(e1, a), c), imp(e2, p(W)))]
            if deep:
                out += [imp(imp(e1, a), imp(e2, c)), imp(e1, con(imp(con(e2, a), c), c)), imp(con(e1, imp(e2, a)), c), imp(e1, imp(e2, imp(a, c))), no(con(e1, imp(e2, a), no(c))), imp(dis(e1, e2), imp(a, c)), con(imp(e1, p(W)), imp(con(e2, a), c))]
    if deep:
        for e1, e2, e3 in itertools.combinations(E, 3):
            for a, c in itertools.product(A1, C):
                out += [imp(con(e1, e2, e3, a), c), imp(con(e1, a), imp(con(e2, e3), c)), imp(con(e1, e2), imp(con(e3, a), c))]
    seen, uniq = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            uniq.append(t)
    return uniq


class Handed(Exception):
    pass


class Maker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = Bench(ctx)
        self.h, self.it = self.b.h, self.b.it
        self.it.load_module(CV)
        self.got = None
        self.stops = {SR: "metalift.rosette_translator:to_rosette", CV: SU + ":toSMT"}
        for s in self.stops.values():
            ctx.lookup(s)
            self.it.summaries[s] = self.record

    def record(self, it, fn, args, kw):
        self.got = it.bind_args(fn, args, kw)
        raise Handed()

    def expr(self, t):
        h = self.h
        if isinstance(t, bool):
            return h.mk("BoolLit", K(t))
        if isinstance(t, int):
            return h.mk("IntLit", K(t))
        if isinstance(t, str):
            return h.mk("Var", K(t), h.ty(TYPES.get(t, "Int")))
        a = [self.expr(x) for x in t[1:]]
        if t[0] in ("p", "q", "f"):
            return h.mk("Call", K(t[0]), h.ty("Int" if t[0] == "f" else "Bool"), *a)
        return h.mk({v: k for k, v in OPS.items()}[t[0]], *a)

    def given(self, mod, t, optimize, spare):
        it, h, b = self.it, self.h, self.b
        vs, fs = set(), set()
        names(formal(t), vs, fs)
        allv = [self.expr(v) for v in sorted(vs)] + ([b.var("spare")] if spare else [])
        b.world([{"exit": 1}], lambda w, argv: (1, ""))
        self.got = None
        kw = dict(basename=K("prog"), target_lang=it.new_list([]), vars=it.call(Ext("builtins.set"), [it.new_list(allv)], {}), inv_and_ps=it.new_list([]), preds=it.new_list([]), vc=self.expr(t), loop_and_ps_info=it.new_list([]), cvc_path=K("/opt/bin/cvc5"),
                  optimize_vc_equality=K(optimize))
        try:
            it.call(self.ctx.lookup(mod + ":synthesize"), [], kw)
        except Handed:
            pass
        if self.got is None:
            return None, None
        vars_ = [h.reify(v) for v in it.iter_items(self.got["vars"])]
        return h.reify(self.got["vc"]), [(v.args[0].v, str(v.type)) for v in vars_]


def run(ctx):
    m = Maker(ctx)
    h = m.h
    M = {2: Meaning(2), 3: Meaning(3)}
    few = fixed() + small(False)
    conds = few + [t for t in small(ctx.thorough) if t not in set(few)]
    ctx.rule("a verification condition of equalities, predicates and connectives is valid after the simplification exactly when it was valid before, and its variables are among those handed on")
    for mod in (SR, CV):
        w = ctx.where(ctx.lookup(mod + ":synthesize"))
        for opt in (True, False):
            for k, t in enumerate(conds):
                if (not opt or mod == CV) and k >= (len(few) if ctx.thorough else len(fixed())):
                    continue

                def go(it_, t=t):
                    return m.given(mod, t, opt, k % 3 == 0)

                def right(v, r, t=t):
                    vc, vars_ = v
                    if vc is None:
                        return "the condition reaches no search"
                    try:
                        got = read(vc)
                    except Odd as e:
                        return "?the condition handed on holds %s" % e
                    types, odd = {}, None
                    for n, ty in vars_:
                        if types.setdefault(n, ty) != ty:
                            return "the variable %s is handed on with two types" % n
                    vs, fs = set(), set()
                    names(got, vs, fs)
                    for n in sorted(vs):
                        if n not in types:
                            return "the condition handed on is %s; its variable %s is not among those handed on (%s)" % (show(got), n, ", ".join(sorted(types)))
                    own = {n: "Bool" if "Bool" in ty else "Int" for n, ty in types.items()}
                    f0 = formal(t)
                    for n, mm in M.items():
                        if n == 3 and len(vs) > 4:
                            continue
                        try:
                            was, now = mm.valid(f0, TYPES), mm.valid(got, own)
                        except Odd as e:
                            return "?%s" % e
                        if was != now:
                            return "%s is %s and becomes %s, which is %s" % (show(f0), "valid" if was else "not valid", show(got), "valid" if now else "not")
                    return None
                h.decide("%s%s of %s" % ("equalities removed" if opt else "simplification", " (SyGuS)" if mod == CV else "", show(t)), go, right, w)
