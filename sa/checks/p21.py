"""P21: structural equality of expressions and objects; sets of objects."""
from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import SHAPES, INT, BOOL, LI, LB, MI, SI, T2, T3, tname, skey
from .p05 import ops, kinds, same, Val0

FLOOR = 120
U = "metalift.frontend.utils"


def run(ctx):
    h = IRH(ctx)
    it = h.it
    it.load_module(U)
    ctx.rule("two nodes compare equal exactly when they have the same kind, the same number of operands and pairwise equal operands (their own equality is assumed exact: structural induction); != is the negation of ==; equal nodes have equal hash keys")
    is_expr = lambda x: isinstance(x, T) and it.hint_of(x) is not None and it.subtype(it.hint_of(x), h.Expr)
    where = h.loc("Expr.__eq__")

    def summ(itp, f, args, kw):
        if len(args) == 2 and is_expr(args[0]) and is_expr(args[1]):
            if args[0] == args[1]:
                return TRUE
            return sym_eq(args[0], args[1])
        return None
    it.summaries[IRM + ":Expr.__eq__"] = summ

    def summ_ne(itp, f, args, kw):
        if len(args) == 2 and is_expr(args[0]) and is_expr(args[1]):
            if args[0] == args[1]:
                return FALSE
            return FALSE if itp.truth(sym_eq(args[0], args[1])) else TRUE
        return None
    it.summaries[IRM + ":Expr.__ne__"] = summ_ne
    for k in kinds(h):
        def eq(itp):
            return Tup([itp.compare("==", k.build(), k.build()), itp.compare("!=", k.build(), k.build())])
        decide_bool(h, "same/" + k.key, eq, lambda facts: True, where)
        h.decide("hash/" + k.key, lambda itp: Tup([h_(itp, k.build()), h_(itp, k.build())]), lambda v, r: None if v.items[0] == v.items[1] else "two equal nodes hash %s and %s" % tuple(map(show, v.items)), h.loc("Expr.__hash__"))
    # operand by operand
    for cls, shape in [(c, s) for c in SHAPES for s in SHAPES[c]] + [("TupleExpr", [INT, BOOL, LI]), ("Let", [INT, INT, LI])]:
        a, b = ops(h, shape, "a"), ops(h, shape, "b")

        def go(itp):
            return Tup([itp.compare("==", h.mk(cls, *a), h.mk(cls, *b)), itp.compare("!=", h.mk(cls, *a), h.mk(cls, *b))])
        decide_bool(h, "operands/%s/%s" % (cls, skey(shape)), go, lambda facts: pairwise(facts, list(zip(a, b))), where)
        # one operand changed
        for i in range(len(shape)):
            c = list(a)
            c[i] = b[i]
            decide_bool(h, "operand-%d/%s/%s" % (i, cls, skey(shape)), lambda itp: Tup([itp.compare("==", h.mk(cls, *a), h.mk(cls, *c)), itp.compare("!=", h.mk(cls, *c), h.mk(cls, *a))]), lambda facts: pairwise(facts, [(a[i], b[i])]), where)
    for cls in ("Sub", "Div", "Mod", "Lt", "Le", "Implies"):
        sh = SHAPES[cls][0]
        a, b = ops(h, sh)
        decide_bool(h, "swapped/" + cls, lambda itp: Tup([itp.compare("==", h.mk(cls, a, b), h.mk(cls, b, a)), itp.compare("!=", h.mk(cls, a, b), h.mk(cls, b, a))]), lambda facts: pairwise(facts, [(a, b)]), where)
    # names and literals
    n1, n2 = h.name("n1"), h.name("n2")
    x, y = ops(h, [INT, INT], "x"), ops(h, [INT, INT], "y")
    for key, m1, m2 in (("Var", lambda n, a: h.mk("Var", n, h.ty(INT)), None),
                        ("Call", lambda n, a: h.mk("Call", n, h.ty(INT), *a), None),
                        ("FnDecl", lambda n, a: h.mk("FnDecl", n, h.ty(INT), *a), None),
                        ("FnDeclRecursive", lambda n, a: h.mk("FnDeclRecursive", n, h.ty(INT), *a), None),
                        ("Synth", lambda n, a: h.mk("Synth", n, *a), None)):
        decide_bool(h, "name/" + key, lambda itp: Tup([itp.compare("==", m1(n1, x), m1(n2, x)), itp.compare("!=", m1(n1, x), m1(n2, x))]), lambda facts: pairwise(facts, [(n1, n2)]), where)
        if key != "Var":
            decide_bool(h, "operands/" + key, lambda itp: Tup([itp.compare("==", m1(n1, x), m1(n1, y)), itp.compare("!=", m1(n1, x), m1(n1, y))]), lambda facts: pairwise(facts, list(zip(x, y))), where)
            decide_bool(h, "shorter/" + key, lambda itp: Tup([itp.compare("==", m1(n1, x), m1(n1, x[:1])), itp.compare("!=", m1(n1, x[:1]), m1(n1, x))]), lambda facts: False, where)
    for v, w in ((0, 1), (3, -3), (True, False), (2, 20)):
        t = h.ty(BOOL if isinstance(v, bool) else INT)
        decide_bool(h, "literal/%s-%s" % (v, w), lambda itp: Tup([itp.compare("==", h.mk("Lit", K(v), t), h.mk("Lit", K(w), t)), itp.compare("!=", h.mk("Lit", K(v), t), h.mk("Lit", K(w), t))]), lambda facts: False, where)
    for cls in ("Add", "Mul", "And", "Or", "TupleExpr"):
        t = BOOL if cls in ("And", "Or") else INT
        for m, n in ((1, 2), (2, 3), (2, 5), (3, 4)):
            a = ops(h, [t] * n)
            decide_bool(h, "length/%s/%d-%d" % (cls, m, n), lambda itp: Tup([itp.compare("==", h.mk(cls, *a[:m]), h.mk(cls, *a)), itp.compare("!=", h.mk(cls, *a), h.mk(cls, *a[:m]))]), lambda facts: False, where)
    groups = [[("Add", [INT, INT]), ("Sub", [INT, INT]), ("Mul", [INT, INT]), ("Div", [INT, INT]), ("Mod", [INT, INT]), ("Eq", [INT, INT]), ("Lt", [INT, INT]), ("Le", [INT, INT]), ("Gt", [INT, INT]), ("Ge", [INT, INT])],
              [("And", [BOOL, BOOL]), ("Or", [BOOL, BOOL]), ("Implies", [BOOL, BOOL]), ("Eq", [BOOL, BOOL])]]
    for g in groups:
        for i, (c1, s) in enumerate(g):
            for c2, _ in g[i + 1:]:
                a = ops(h, s)
                decide_bool(h, "kind/%s-%s" % (c1, c2), lambda itp: Tup([itp.compare("==", h.mk(c1, *a), h.mk(c2, *a)), itp.compare("!=", h.mk(c1, *a), h.mk(c2, *a))]), lambda facts: False, where)
    gen = it.sym("generator")
    call, tcall = lambda: h.mk("Call", n1, h.ty(INT), *x), lambda: h.mk("TargetCall", n1, h.ty(INT), gen, *x)
    for key, f, g in (("Call-TargetCall", call, tcall), ("TargetCall-Call", tcall, call)):
        decide_bool(h, "kind/" + key, lambda itp: Tup([itp.compare("==", f(), g()), itp.compare("!=", f(), g())]), lambda facts: False, where)
    decide_bool(h, "kind/FnDecl-FnDeclRecursive", lambda itp: Tup([itp.compare("==", h.mk("FnDecl", n1, h.ty(INT), *x), h.mk("FnDeclRecursive", n1, h.ty(INT), *x)), itp.compare("!=", h.mk("FnDecl", n1, h.ty(INT), *x), h.mk("FnDeclRecursive", n1, h.ty(INT), *x))]), lambda facts: False, where)
    # nested, compared through the real recursion
    it.summaries.pop(IRM + ":Expr.__ne__")
    u = lambda s: h.base(lambda: h.mk("Var", K(s), h.ty(INT)))
    a, b, c = u("a"), u("b"), u("c")
    forms = {"a+b": lambda: h.mk("Add", a, b), "b+a": lambda: h.mk("Add", b, a), "(a+b)*c": lambda: h.mk("Mul", h.mk("Add", a, b), c), "a+(b*c)": lambda: h.mk("Add", a, h.mk("Mul", b, c)),
             "(a*b)+c": lambda: h.mk("Add", h.mk("Mul", a, b), c), "f(a+b,c)": lambda: h.mk("Call", K("f"), h.ty(INT), h.mk("Add", a, b), c), "f(a+c,c)": lambda: h.mk("Call", K("f"), h.ty(INT), h.mk("Add", a, c), c),
             "f(c,a+b)": lambda: h.mk("Call", K("f"), h.ty(INT), c, h.mk("Add", a, b)), "g(a+b,c)": lambda: h.mk("Call", K("g"), h.ty(INT), h.mk("Add", a, b), c),
             "ite(a<b,a,b)": lambda: h.mk("Ite", h.mk("Lt", a, b), a, b), "ite(a<b,b,a)": lambda: h.mk("Ite", h.mk("Lt", a, b), b, a), "ite(b<a,a,b)": lambda: h.mk("Ite", h.mk("Lt", b, a), a, b),
             "a": lambda: a, "b": lambda: b}
    for n1_, f1 in forms.items():
        for n2_, f2 in forms.items():
            decide_bool(h, "nested/%s=%s" % (n1_, n2_), lambda itp: Tup([itp.compare("==", f1(), f2()), itp.compare("!=", f1(), f2())]), lambda facts: n1_ == n2_, where)
    objects(h, forms)
    object_sets(h)


def sym_eq(a, b):
    return T("==", *sorted((a, b), key=show))


def h_(itp, v):
    return itp.call(itp.getattr(v, "__hash__"), [], {})


def eq_fact(facts, a, b):
    for c, v, *_ in facts:
        while isinstance(c, T) and c.op in ("cond", "truthy"):
            c = c.args[0]
        if isinstance(c, T) and c.op in ("==", "!=") and set(c.args) == {a, b}:
            return bool(v) == (c.op == "==")
    return None


def pairwise(facts, pairs):
    """True/False when the facts determine that all pairs are equal / some pair differs, else None"""
    vs = [True if a == b else eq_fact(facts, a, b) for a, b in pairs]
    if any(v is False for v in vs):
        return False
    if all(v is True for v in vs):
        return True
    return None


def decide_bool(h, key, fn, want, where):
    def go(itp):
        r = fn(itp)
        xs = [x if isinstance(x, K) else K(bool(itp.truth(x))) for x in r.items]
        return Tup(xs)

    def expect(v, r):
        e, n = v.items
        w = want(r.facts)
        got = e.v if isinstance(e, K) else e
        neg = n.v if isinstance(n, K) else n
        if not isinstance(got, bool) or not isinstance(neg, bool):
            return "compares %s / %s, expected a truth value" % (show(e), show(n))
        if w is None:
            return "answers %s without comparing every operand" % got if got else "answers unequal although no operand is known to differ"
        if got != w:
            return "compares %s, expected %s" % ("equal" if got else "unequal", "equal" if w else "unequal")
        if neg == got:
            return "both == and != answer %s" % got
        return None
    h.decide(key, go, expect, where, sample=key)


def objects(h, forms):
    it = h.it
    ctx = h.ctx
    ctx.rule("Object.__eq__ and ObjectWrapper compare objects of every class by their expressions, whatever == the class overloads")
    oeq = it.getattr(h.Object, "__eq__")
    exprs = {k: f for k, f in forms.items() if not k.startswith("ite")}
    tys = {"Int": INT, "Bool": BOOL, "List": LI, "Set": SI, "Matrix": MI}
    for n, t in tys.items():
        def var(s, t=t, n=n):
            src = h.mk("Var", K(s), h.ty(t))
            if n in ("Int", "Bool"):
                return h.mk(n, src)
            return h.mk(n, h.ty(t[1]), src)
        for x in ("p", "q"):
            for y in ("p", "q"):
                decide_bool(h, "object/%s/%s=%s" % (n, x, y), lambda itp: Tup([itp.call(oeq, [var(x), var(y)], {}), K(x != y)]), lambda f: x == y, h.loc("Object.__eq__"))
                if h.has("ObjectWrapper"):
                    w = lambda o: h.mk("ObjectWrapper", o)
                    decide_bool(h, "wrapper/%s/%s=%s" % (n, x, y), lambda itp: Tup([itp.compare("==", w(var(x)), w(var(y))), itp.compare("!=", w(var(x)), w(var(y)))]), lambda f: x == y, h.loc("ObjectWrapper.__eq__"))
        h.decide("object-hash/" + n, lambda itp: Tup([h_(itp, var("p")), h_(itp, var("p"))]), lambda v, r: None if v.items[0] == v.items[1] else "two equal objects hash %s and %s" % tuple(map(show, v.items)), h.loc("Object.__hash__"))
    for x, fx in exprs.items():
        for y, fy in exprs.items():
            decide_bool(h, "object/Int/%s=%s" % (x, y), lambda itp: Tup([itp.call(oeq, [h.mk("Int", fx()), h.mk("Int", fy())], {}), K(x != y)]), lambda f: x == y, h.loc("Object.__eq__"))
    decide_bool(h, "object/Int=text", lambda itp: Tup([itp.call(oeq, [h.mk("Int", K(3)), K("x")], {}), TRUE]), lambda f: False, h.loc("Object.__eq__"))


def object_sets(h):
    it, ctx = h.it, h.ctx
    ctx.rule("ObjectSet keeps the first of every group of equal objects in insertion order; membership, union and difference follow the expressions of the objects")
    OS = ctx.lookup(U + ":ObjectSet")
    where = ctx.where(OS)
    import itertools

    def obj(s, cls="Int"):
        return h.mk(cls, h.mk("Var", K(s), h.ty(cls)))

    def names(v):
        out = []
        for o in it.iter_items(v):
            s = h.reify(o)
            out.append(s.src.args[0].v)
        return tuple(out)

    def uniq(xs):
        return tuple(dict.fromkeys(xs))

    def mkset(xs, cls="Int"):
        return it.call(OS, [it.new_list([obj(x, cls) for x in xs])], {})
    N = 4 if ctx.thorough else 3
    words = ["".join(p) for n in range(0, N + 1) for p in itertools.product("ab" if n > 2 else "abc", repeat=n)]
    for cls in ("Int", "Bool"):
        for w in words:
            def go(itp):
                s = mkset(w, cls)
                s2 = it.call(OS, [], {})
                for x in w:
                    h.meth(s2, "add", obj(x, cls))
                ins = tuple(bool(itp.truth(h.meth(s, "__contains__", obj(x, cls)))) for x in "abc")
                return Val0((names(s), names(s2), names(h.meth(s, "objects")), ins))

            def expect(v, r):
                a, b, c, ins = v.v
                if not (a == b == c == uniq(w)):
                    return "a set of %s holds %s (constructed), %s (added one by one), %s (objects())" % (w, a, b, c)
                if ins != tuple(x in w for x in "abc"):
                    return "membership in a set of %r is %s" % (w, ins)
                return None
            h.decide("set/%s/%s" % (cls, w or "empty"), go, expect, where, sample=w)
    pairs = [(a, b) for a in words for b in words if len(a) <= 2 and len(b) <= 2 or (len(a) + len(b) <= N and len(a) == 3)]
    for a, b in pairs:
        def go(itp):
            s, t = mkset(a), mkset(b)
            u, d = it.binop("+", s, t), it.binop("-", s, t)
            return Val0((names(u), names(d), names(s), names(t)))

        def expect(v, r):
            u, d, s, t = v.v
            if u != uniq(a + b):
                return "union of %r and %r is %s" % (a, b, u)
            if d != tuple(x for x in uniq(a) if x not in b):
                return "difference of %r and %r is %s" % (a, b, d)
            if s != uniq(a) or t != uniq(b):
                return "the operands of + and - are changed"
            return None
        h.decide("set-algebra/%s,%s" % (a or "-", b or "-"), go, expect, where, sample=a + "," + b)
    # an empty set built by default is not shared
    def go(itp):
        s = it.call(OS, [], {})
        h.meth(s, "add", obj("a"))
        return Val0(names(it.call(OS, [], {})))
    h.decide("set/default-not-shared", go, lambda v, r: None if v.v == () else "a new set starts with %s" % (v.v,), where)
