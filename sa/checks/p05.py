"""P05: expression rewriting keeps kind, operand order and operand count."""
from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import SHAPES, INT, BOOL, LI, MI, SI, T2, T3, skey, tname

FLOOR = 330
FT = ("Fn", INT, INT, BOOL)
SMT = "metalift.smt_util"
SC = "metalift.synthesis_common"
LL = "llmlift_scripts.synthesis"


def ops(h, shape, pre="a"):
    return [h.opnd("%s%d:%s" % (pre, i, tname(t)), t) for i, t in enumerate(shape)]


def mkbase(h, *a):
    return h.base(lambda: h.mk(*a))


class Kind:
    """one node kind built from opaque operands: build() -> node; cls/type/args describe it"""

    def __init__(self, key, cls, build, args):
        self.key, self.cls, self.build, self.args = key, cls, build, args


def rec(it, tag, x):
    """the (unknown) rewriting of operand x; it keeps the type of x"""
    t = T(tag, x)
    it.phints[t] = it.hint_of(x)
    k = it.known_attr.get((x, "type"))
    if k is not None:
        it.known_attr[(t, "type")] = k
    return t


def kinds(h, decls=True):
    out = []

    def add(key, cls, args, operands):
        out.append(Kind(key, cls, lambda: h.mk(cls, *args), operands))
    for k in SHAPES:
        for sh in SHAPES[k]:
            if k in ("Assert", "Constraint"):
                continue
            a = ops(h, sh)
            add("%s/%s" % (k, skey(sh)), k, a, a)
    nm = h.name("nm")
    for t in (INT, BOOL, LI, MI, SI, T2):
        add("Var/" + tname(t), "Var", [nm, h.ty(t)], [nm])
    for v, t in ((0, INT), (7, INT), (-3, INT), (True, BOOL), (False, BOOL)):
        add("Lit/%s" % v, "Lit", [K(v), h.ty(t)], [K(v)])
    for shape in ([INT], [INT, BOOL], [INT, LI, BOOL], [LI, LI, INT, BOOL, SI]):
        a = ops(h, shape)
        add("TupleExpr/%d" % len(shape), "TupleExpr", a, a)
        add("Choose/%d" % len(shape), "Choose", ops(h, [shape[0]] * len(shape)), ops(h, [shape[0]] * len(shape)))
        add("Call/%d" % len(shape), "Call", [nm, h.ty(LI)] + a, [nm] + a)
        if decls:
            gen = h.it.sym("generator")
            add("TargetCall/%d" % len(shape), "TargetCall", [nm, h.ty(LI), gen] + a, [nm] + a)
    add("Call/0", "Call", [nm, h.ty(LI)], [nm])
    v, e, b = h.opnd("v"), h.opnd("e"), h.opnd("b", LI)
    add("Let", "Let", [v, e, b], [v, e, b])
    a = ops(h, [INT, BOOL])
    add("Lambda/2", "Lambda", [h.ty(LI), b] + a, [b] + a)
    add("Lambda/0", "Lambda", [h.ty(LI), b], [b])
    f = h.opnd("f", FT)
    add("CallValue/2", "CallValue", [f] + a, [f] + a)
    t3 = h.opnd("t", T3)
    for i in range(3):
        lit = h.base(lambda: h.fn("IntLit", K(i)))
        add("TupleGet/%d" % i, "TupleGet", [t3, lit], [t3, lit])
    if decls:
        for c in ("FnDecl", "FnDeclRecursive"):
            for shape in ([], [INT], [INT, LI, BOOL]):
                a = ops(h, shape)
                add("%s/%d" % (c, len(shape)), c, [nm, h.ty(LI), b] + a, [nm, b] + a)
        for shape in ([], [INT], [INT, LI, BOOL]):
            a = ops(h, shape)
            add("Axiom/%d" % len(shape), "Axiom", [b] + a, [b] + a)
            add("Synth/%d" % len(shape), "Synth", [nm, b] + a, [nm, b] + a)
    return out


def structural(v):
    return v.args if isinstance(v, Node) else None


def same(h, want_cls, want_type, want_args):
    def expect(v, r):
        if not isinstance(v, Node):
            return "yields %s instead of a node" % shownode(v)
        if v.cls != want_cls:
            return "yields a %s instead of a %s" % (v.cls, want_cls)
        if v.args != tuple(want_args):
            return "has operands %s, expected %s" % (shownode(v.args), shownode(tuple(want_args)))
        if v.type != want_type:
            return "has type %s, expected %s" % (show(v.type) if v.type is not None else None, show(want_type))
        return None
    return expect


def run(ctx):
    h = IRH(ctx)
    it = h.it
    install_networkx(it)
    for m in (SMT, SC):
        it.load_module(m)
    ctx.rule("a rewriting function applied to a node of each kind with opaque operands (their own rewriting is assumed correct: structural induction) returns a node of the same class and type whose operands are the rewritten operands, all of them, once, in order")
    is_expr = lambda x: isinstance(x, T) and it.hint_of(x) is not None and it.subtype(it.hint_of(x), h.Expr)

    def leaves(tag):
        def mark(itp, args, kw):
            x = args[0]
            return rec(itp, tag, x) if is_expr(x) else x
        return Native("mark", mark)

    def through(tag, x):
        return rec(it, tag, x) if is_expr(x) else x

    def generic(rule, fns, call, tag="rec", decls=True, where=None, skipk=(), override=None):
        """fns: qualnames of the recursive function(s), summarised on opaque operands"""
        saved = dict(it.summaries)

        def summ(itp, f, args, kw):
            x = args[0] if args else next((kw[k] for k in ("expr", "fun_def") if k in kw), None)
            if is_expr(x):
                return rec(itp, tag, x)
            return None
        for q in fns:
            it.summaries[q] = summ
        names = {q.rsplit(".", 1)[-1] for q in fns if ":Expr." in q}
        prev = it.method_hook

        def hook(itp, recv, name, args, kw):
            if name in names and is_expr(recv):
                return rec(itp, tag, recv)
            return prev(itp, recv, name, args, kw) if prev else None
        it.method_hook = hook
        try:
            for k in kinds(h, decls):
                if k.cls in skipk or k.key in skipk:
                    continue

                def go(itp):
                    n = k.build()
                    t0 = itp.getattr(n, "type")
                    r = call(n)
                    return Tup([t0, Val0(h.reify(r))])
                want = [h.reify(a) if isinstance(a, Ref) else through(tag, a) for a in k.args]

                def expect(v, r, k=k, want=want):
                    t0, val = v.items
                    if override is not None:
                        m = override(k, val.v, want)
                        if m is not NotImplemented:
                            return m
                    return same(h, k.cls, t0, want)(val.v, r)
                h.decide("%s/%s" % (rule, k.key), go, expect, where or h.loc("Expr.map_args"), sample=k.key, skip=literal_operand if rule == "simplify" and k.cls == "And" else None)
        finally:
            it.method_hook = prev
            it.summaries.clear()
            it.summaries.update(saved)

    # generic map
    mark = leaves("rec")
    saved_lit = [k for k in kinds(h) if k.cls == "TupleGet"]
    generic("map", [], lambda n: h.meth(n, "map_args", mark))
    # kinds without a mapping must be rejected rather than silently changed
    for c in ("Assert", "Constraint"):
        h.decide("map/" + c, lambda itp: h.reify(h.meth(h.mk(c, h.opnd("b", BOOL)), "map_args", mark)), same(h, c, h.ty(BOOL), [through("rec", h.opnd("b", BOOL))]), h.loc("Expr.map_args"), allow_raise=True)
    # the code generator of a target call is kept
    gen = it.sym("generator")
    h.decide("map/TargetCall/codegen", lambda itp: itp.getattr(h.meth(h.mk("TargetCall", h.name("nm"), h.ty(INT), gen, h.opnd("a")), "map_args", mark), "_codegen"), lambda v, r: None if v == gen else "the code generator becomes %s" % show(v), h.loc("Expr.map_args"))
    E = IRM + ":Expr."
    generic("choose-arbitrarily", [E + "chooseArbitrarily"], lambda n: h.meth(n, "chooseArbitrarily"), where=h.loc("Expr.chooseArbitrarily"), skipk=("Choose",))
    for n_ in (1, 2, 4):
        a = ops(h, [INT] * n_)
        h.decide("choose-arbitrarily/Choose/%d" % n_, lambda itp: h.reify(h.meth(h.mk("Choose", *a), "chooseArbitrarily")), lambda v, r: None if v in a or v in [rec(it, "rec", x) for x in a] else "a choice becomes %s, not one of its alternatives" % shownode(v), h.loc("Choose.chooseArbitrarily"))
    # replaceExprs with nothing to replace is the identity (parts a rewritten grammar cannot contain are rejected)
    mode = it.getattr(h.cls("PrintMode"), "SMT")
    for m in ("SMT", "Rosette"):
        mode = it.getattr(h.cls("PrintMode"), m)
        generic("replace-none-%s" % m, [E + "replaceExprs"], lambda n: h.fn_attr("Expr", "replaceExprs", n, it.new_list([]), mode), decls=False, where=h.loc("Expr.replaceExprs"), override=not_top)
    replace_common(h)
    # substitution
    env = {"kept": None}

    def sub(n):
        return h.meth(n, "rewrite", new_dict(it, []))
    generic("rewrite-empty", [E + "rewrite"], sub, where=h.loc("Expr.rewrite"))
    rewrite_vars(h)
    simplify(h, generic, E)
    smt_util(h, generic)
    prune(h)
    candidates(h)
    llm(h)
    uses(h)


class Val0(Val):
    """carries a reified node through the result of an exploration"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def new_dict(it, items):
    r = it.alloc(HDict(list(items)))
    return r


def not_top(k, v, want):
    return NotImplemented


def replace_common(h):
    """an operand equal to a common expression becomes its variable, everything else stays"""
    it, ctx = h.it, h.ctx
    a, b, c = h.opnd("a"), h.opnd("b"), h.opnd("c")
    for m, fmt in (("SMT", "v%d"), ("Rosette", "(v%d)")):
        mode = it.getattr(h.cls("PrintMode"), m)
        va, vb, vc = [mkbase(h, "Var", K(x), h.ty(INT)) for x in "xyz"]

        def go(itp):
            c1 = h.mk("Choose", va, vb)
            c2 = h.mk("Choose", va, vc)
            e = h.mk("Add", c1, va, c2, h.mk("Mul", c1, c2))
            return h.reify(h.fn_attr("Expr", "replaceExprs", e, itp.new_list([c1, c2]), mode))
        want = ("Add", ("Var", fmt % 0), ("Var", "x"), ("Var", fmt % 1), ("Mul", ("Var", fmt % 0), ("Var", fmt % 1)))
        h.decide("replace-common/" + m, go, lambda v, r: None if flat(v) == want else "becomes %s, expected %s" % (flat(v), want), h.loc("Expr.replaceExprs"))

        def go2(itp):
            c1 = h.mk("Choose", va, vb)
            c2 = h.mk("Choose", h.mk("Add", c1, va), vc)
            return h.reify(h.fn_attr("Expr", "replaceExprs", c2, itp.new_list([c1, c2]), mode, skipTop=K(True)))
        want2 = ("Choose", ("Add", ("Var", fmt % 0), ("Var", "x")), ("Var", "z"))
        h.decide("replace-common/%s/skip-top" % m, go2, lambda v, r: None if flat(v) == want2 else "becomes %s, expected %s" % (flat(v), want2), h.loc("Expr.replaceExprs"))

        def go3(itp):
            c1 = h.mk("Choose", va, vb)
            c2 = h.mk("Choose", h.mk("Add", c1, va), vc)
            e = h.mk("Mul", c2, c1)
            l = h.fn_attr("Expr", "findCommonExprs", e, itp.new_list([]))
            return h.reify(l)

        def expect3(v, r):
            seen = [(flat(x[0]), x[1]) for x in v]
            names = [s for s, _ in seen]
            want = [("Mul", ("Choose", ("Add", ("Choose", X, Y), X), Z), ("Choose", X, Y)), ("Choose", ("Add", ("Choose", X, Y), X), Z), ("Add", ("Choose", X, Y), X), ("Choose", X, Y), X, Y, Z]
            if sorted(map(str, names)) != sorted(map(str, want)):
                return "sub-expressions found are %s, expected each of %s once" % (names, want)
            return None
        X, Y, Z = ("Var", "x"), ("Var", "y"), ("Var", "z")
        h.decide("find-common", go3, expect3, h.loc("Expr.findCommonExprs"))


def flat(v):
    if isinstance(v, Node):
        return (v.cls,) + tuple(flat(x) for x in v.args)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Str):
        return show(v)
    if isinstance(v, tuple):
        return tuple(flat(x) for x in v)
    return v


def rewrite_vars(h):
    it, ctx = h.it, h.ctx
    w = h.loc("Expr.rewrite")
    x, y, z = [mkbase(h, "Var", K(n), h.ty(INT)) for n in "xyz"]
    a = h.opnd("a")
    d = h.base(lambda: new_dict(it, [(K("x"), a), (K("y"), h.mk("Add", z, z))]))
    S = lambda v: ("Var", v)
    cases = {"Add": lambda: h.mk("Add", x, y, z, x), "Lt": lambda: h.mk("Lt", x, z), "Call": lambda: h.mk("Call", K("f"), h.ty(INT), x, y), "Ite": lambda: h.mk("Ite", h.mk("Eq", x, y), y, x), "Let": lambda: h.mk("Let", z, x, z),
             "Implies": lambda: h.mk("Implies", h.mk("Eq", z, y), h.mk("And", h.mk("Eq", x, z), h.mk("Eq", y, z)))}
    A = a
    ZZ = ("Add", S("z"), S("z"))
    want = {"Add": ("Add", A, ZZ, S("z"), A), "Lt": ("Lt", A, S("z")), "Call": ("Call", "f", A, ZZ), "Ite": ("Ite", ("Eq", A, ZZ), ZZ, A), "Let": ("Let", S("z"), A, S("z")),
            "Implies": ("Implies", ("Eq", S("z"), ZZ), ("And", ("Eq", A, S("z")), ("Eq", ZZ, S("z"))))}
    for k, b in cases.items():
        h.decide("rewrite-vars/" + k, lambda itp: h.reify(h.meth(b(), "rewrite", d)), lambda v, r: None if flat(v) == want[k] else "becomes %s, expected %s" % (flat(v), want[k]), w)


def simplify(h, generic, E):
    it = h.it
    w = h.loc("Expr.simplify")
    generic("simplify", [E + "simplify"], lambda n: h.meth(n, "simplify"), where=w, override=simp)
    tl, fl = h.base(lambda: h.fn("BoolLit", K(True))), h.base(lambda: h.fn("BoolLit", K(False)))
    a, b = mkbase(h, "Var", K("p"), h.ty(BOOL)), mkbase(h, "Var", K("q"), h.ty(BOOL))
    import itertools
    L3 = {"t": tl, "f": fl, "a": a, "b": b}
    P, Q = ("Var", "p"), ("Var", "q")
    for n in (1, 2, 3, 4):
        for combo in itertools.product("tfab", repeat=n):
            key = "".join(combo)
            if n == 4 and key.count("t") + key.count("f") < 2:
                continue
            rest = [P if c == "a" else Q for c in combo if c in "ab"]
            if "f" in combo:
                wants = [("Lit", False)]
            elif not rest:
                wants = [("Lit", True)]
            elif len(rest) == 1:
                wants = [rest[0], ("And", rest[0])]
            else:
                wants = [("And",) + tuple(rest)]
            h.decide("simplify-and/%d" % n, lambda itp: h.reify(h.meth(h.mk("And", *[L3[c] for c in combo]), "simplify")), lambda v, r: None if flat(v) in wants else "And over %s (t/f literals) becomes %s, expected %s" % (key, flat(v), wants[0]), w, sample="And over %d-combinations of literals and variables" % n)
    # nested: literals inside other connectives stay
    for k, mk in (("Or", lambda: h.mk("Or", tl, a)), ("Implies", lambda: h.mk("Implies", fl, a)), ("Not", lambda: h.mk("Not", tl)), ("Eq", lambda: h.mk("Eq", tl, a))):
        ref = {"Or": ("Or", ("Lit", True), P), "Implies": ("Implies", ("Lit", False), P), "Not": ("Not", ("Lit", True)), "Eq": ("Eq", ("Lit", True), P)}[k]
        h.decide("simplify-lit/" + k, lambda itp: h.reify(h.meth(mk(), "simplify")), lambda v, r: None if flat(v) == ref else "becomes %s, expected %s" % (flat(v), ref), w)
    inner = lambda: h.mk("And", tl, h.mk("Implies", a, h.mk("And", b, fl)), h.mk("Or", h.mk("And", a, tl), b))
    ref = ("And", ("Implies", P, ("Lit", False)), ("Or", P, Q))
    h.decide("simplify-nested", lambda itp: h.reify(h.meth(inner(), "simplify")), lambda v, r: None if flat(v) == ref else "becomes %s, expected %s" % (flat(v), ref), w)


def literal_operand(r):
    """partitions in which an operand is a literal are decided by the simplify-and instances"""
    return any(v and isinstance(c, T) and c.op == "isinstance" and isinstance(c.args[1], ClassV) and c.args[1].name == "Lit" for c, v, *_ in r.facts)


def simp(k, v, want):
    if k.cls == "And" and len(k.args) == 1:
        # a conjunction of one operand may become that operand
        if v == want[0]:
            return None
    return NotImplemented


def kwfn(h, dotted, **kw):
    return h.it.call(h.ctx.lookup(dotted), [], kw)


def smt_util(h, generic):
    it, ctx = h.it, h.ctx
    S = SMT + ":"
    loc = lambda n: ctx.where(ctx.lookup(S + n))
    other = K("some_other_fn")
    # an operand of function type is represented by its own opaque name
    generic("filter-fn-args", [S + "filter_fn_args"], lambda n: it.call(ctx.lookup(S + "filter_fn_args"), [n], {}), where=loc("filter_fn_args"), decls=True, override=targetcall)
    nm_skip = lambda k, v, want: targetcall(k, v, want)
    generic("replace-fn-name", [S + "replace_fn_name"], lambda n: kwfn(h, S + "replace_fn_name", expr=n, new_fn_name=K("new"), fn_name=K("old")), where=loc("replace_fn_name"), override=renamed("old", "new"))
    generic("augment-arguments", [S + "augment_arguments"], lambda n: kwfn(h, S + "augment_arguments", expr=n, fn_name=K("old"), new_args=it.new_list([]), start_index=K(0)), where=loc("augment_arguments"), override=renamed("old", "old"))
    generic("replace-in-call", [S + "replace_fn_name_with_in_call"], lambda n: kwfn(h, S + "replace_fn_name_with_in_call", expr=n, new_fn_name=K("new"), fn_name=K("old"), in_call=K("g")), where=loc("replace_fn_name_with_in_call"), override=renamed("old", "old"))
    generic("filter-body", [S + "filter_body"], lambda n: kwfn(h, S + "filter_body", fun_def=n, new_fn_call=K("new"), fn_call=K("old"), in_call=K("inl")), where=loc("filter_body"), override=renamed("old", "new"), skipk=("CallValue",))
    # calls of the function concerned
    a = ops(h, [INT, LI, BOOL])
    g = mkbase(h, "Var", K("g"), h.ty(FT))
    g2 = mkbase(h, "Var", K("other"), h.ty(FT))
    R = lambda tag: [rec(it, tag, x) for x in a]

    def with_summary(fn, body):
        def summ(itp, f, args, kw):
            x = args[0] if args else kw.get("expr", kw.get("fun_def"))
            return rec(itp, "rec", x) if isinstance(x, T) else None
        it.summaries[S + fn] = summ
        try:
            body()
        finally:
            del it.summaries[S + fn]

    def one(key, go, want, w):
        h.decide(key, lambda itp: h.reify(go()), lambda v, r: None if flat(v) == want else "becomes %s, expected %s" % (shownode(v), want), w)
    call = lambda name, *args: h.mk("Call", K(name), h.ty(LI), *args)
    G = ("Var", "g")

    def b1():
        one("filter-fn-args/Call/with-fn", lambda: it.call(ctx.lookup(S + "filter_fn_args"), [call("h", a[0], g, a[1], g2, a[2])], {}), ("Call", "h") + tuple(R("rec")), loc("filter_fn_args"))
        one("filter-fn-args/Call/only-fn", lambda: it.call(ctx.lookup(S + "filter_fn_args"), [call("h", g)], {}), ("Call", "h"), loc("filter_fn_args"))
        one("filter-args", lambda: it.call(ctx.lookup(S + "filter_args"), [it.new_list([a[0], g, a[1], g2, a[2]])], {}), tuple(a), loc("filter_args"))
    with_summary("filter_fn_args", b1)

    def b2():
        one("replace-fn-name/hit", lambda: kwfn(h, S + "replace_fn_name", expr=call("old", *a), new_fn_name=K("new"), fn_name=K("old")), ("Call", "new") + tuple(R("rec")), loc("replace_fn_name"))
        one("replace-fn-name/miss", lambda: kwfn(h, S + "replace_fn_name", expr=call("olde", *a), new_fn_name=K("new"), fn_name=K("old")), ("Call", "olde") + tuple(R("rec")), loc("replace_fn_name"))
    with_summary("replace_fn_name", b2)
    n1, n2 = h.opnd("n1"), h.opnd("n2")

    def b3():
        for i in range(4):
            r = R("rec")
            one("augment-arguments/hit/%d" % i, lambda: kwfn(h, S + "augment_arguments", expr=call("old", *a), fn_name=K("old"), new_args=it.new_list([n1, n2]), start_index=K(i)), ("Call", "old") + tuple(r[:i]) + (n1, n2) + tuple(r[i:]), loc("augment_arguments"))
        one("augment-arguments/miss", lambda: kwfn(h, S + "augment_arguments", expr=call("oldest", *a), fn_name=K("old"), new_args=it.new_list([n1, n2]), start_index=K(1)), ("Call", "oldest") + tuple(R("rec")), loc("augment_arguments"))
    with_summary("augment_arguments", b3)

    def b4():
        f = S + "replace_fn_name_with_in_call"
        go = lambda c: (lambda: kwfn(h, f, expr=c(), new_fn_name=K("new"), fn_name=K("old"), in_call=K("g")))
        # Var has a name() method used to match the inlined function
        r = R("rec")
        one("replace-in-call/hit", go(lambda: call("old", a[0], g, a[1])), ("Call", "new", r[0], G, r[1]), loc("replace_fn_name_with_in_call"))
        one("replace-in-call/other-fn", go(lambda: call("old", a[0], g2, a[1])), ("Call", "old", r[0], ("Var", "other"), r[1]), loc("replace_fn_name_with_in_call"))
        one("replace-in-call/other-callee", go(lambda: call("elsewhere", a[0], g, a[1])), ("Call", "elsewhere", r[0], G, r[1]), loc("replace_fn_name_with_in_call"))
        one("replace-in-call/no-fn", go(lambda: call("old", a[0])), ("Call", "old", r[0]), loc("replace_fn_name_with_in_call"))
    with_summary("replace_fn_name_with_in_call", b4)

    def b5():
        f = S + "filter_body"
        go = lambda c, ic=K("inl"): (lambda: kwfn(h, f, fun_def=c(), new_fn_call=K("new"), fn_call=K("old"), in_call=ic))
        r = R("rec")
        one("filter-body/hit", go(lambda: call("old", a[0], g, a[1])), ("Call", "new", r[0], r[1]), loc("filter_body"))
        one("filter-body/miss", go(lambda: call("kept", a[0], g, a[1])), ("Call", "kept", r[0], r[1]), loc("filter_body"))
        fv = h.opnd("f", FT)
        one("filter-body/CallValue", go(lambda: h.mk("CallValue", fv, a[0], a[2])), ("Call", "inl", r[0], r[2]), loc("filter_body"))
        h.must_raise("filter-body/CallValue/no-inlined", lambda itp: go(lambda: h.mk("CallValue", fv, a[0], a[2]), K(None))(), "an application of a function argument with nothing to inline", loc("filter_body"))
    with_summary("filter_body", b5)
    inlining(h)


def inlining(h):
    """toSMT specialises every caller of a higher-order function to the function passed to it: read from the written text"""
    it, ctx = h.it, h.ctx
    S = SMT + ":"
    ft = h.ty(("Fn", INT, INT))
    xs, f = lambda: h.mk("Var", K("xs"), h.ty(LI)), lambda: h.mk("Var", K("f"), ft)
    w = ctx.where(ctx.lookup(S + "toSMT"))

    def build(callers, uses):
        app = [h.mk("CallValue", f(), h.mk("Var", K("w%d" % i), h.ty(INT))) for i in range(uses)]
        m = h.mk("FnDeclRecursive", K("hof"), h.ty(INT), h.mk("Add", *app, h.mk("Call", K("hof"), h.ty(INT), xs(), f())), xs(), f())
        cs = [h.mk("FnDecl", K("caller%d" % i), h.ty(INT), h.mk("Call", K("hof"), h.ty(INT), xs(), f()), xs(), f()) for i in range(callers)]
        g = h.mk("FnDecl", K("g"), h.ty(INT), h.mk("Var", K("a"), h.ty(INT)), h.mk("Var", K("a"), h.ty(INT)))
        body = h.mk("Add", *[h.mk("Call", K("caller%d" % i), h.ty(INT), xs(), h.mk("Var", K("g"), ft)) for i in range(callers)], h.mk("Call", K("hof"), h.ty(INT), xs(), h.mk("Var", K("g"), ft)))
        ps = h.mk("FnDeclRecursive", K("top"), h.ty(INT), body, xs())
        return m, cs, g, ps
    for callers, uses in ((0, 1), (1, 1), (2, 1), (3, 2), (1, 3)):
        def go(itp):
            m, cs, g, ps = build(callers, uses)
            itp.topo = True
            names = ["hof"] + ["caller%d" % i for i in range(callers)] + ["g", "top"]
            itp.call(ctx.lookup(S + "toSMT"), [itp.new_list([m] + cs), itp.alloc(HSet([])), itp.new_list([g, ps]), itp.new_list([]), h.fn("BoolLit", K(True)), K("out.smt"),
                                               itp.new_list([Tup([K("hof"), K("g")])]), itp.new_list([K(n) for n in names])], {})
            return written(itp)

        def expect(v, r):
            t = sexpr(v, ())
            if isinstance(t, str):
                return "?" + t
            defs = {}
            for x in t:
                if isinstance(x, list) and x and isinstance(x[0], str) and x[0].startswith("define-fun"):
                    if str(x[1]) in defs:
                        return "%s is defined twice" % x[1]
                    defs[x[1]] = x
            special = {n: d for n, d in defs.items() if n not in ("g", "top")}
            hofs = [n for n, d in special.items() if "(g " in tree_text(d)]
            if len(hofs) != 1:
                return "the higher-order function is specialised into %s" % (sorted(map(str, special)) or "nothing")
            hname = hofs[0]
            want = [[str(x) for x in ("g", "w%d" % i)] for i in range(uses)] + [[hname, "xs"]]
            if special[hname][-1] != ["+"] + want:
                return "the specialised function is %s" % tree_text(special[hname])
            callers_ = [n for n, d in special.items() if n != hname]
            if len(callers_) != callers:
                return "%d callers are specialised into %s" % (callers, callers_)
            for n in callers_:
                if special[n][-1] != [hname, "xs"]:
                    return "the specialised caller %s has the body %s, expected a call of %s" % (n, tree_text(special[n][-1]), hname)
            top = defs.get("top")
            if top is None:
                return "the candidate is not written"
            got = top[-1]
            calls = [x[0] for x in got[1:]]
            if sorted(calls) != sorted(callers_ + [hname]) or any(x[1:] != ["xs"] for x in got[1:]) or calls[-1] != hname:
                return "the candidate's body is %s" % tree_text(got)
            for i, c in enumerate(calls[:-1]):
                if not c.startswith("caller%d" % i):
                    return "the call of caller%d became a call of %s" % (i, c)
            return None
        h.decide("inline/%d-callers-%d-uses" % (callers, uses), go, expect, w)


def renamed(old, new):
    def ov(k, v, want):
        return targetcall(k, v, want)
    return ov


def targetcall(k, v, want):
    """a target call may come back as the plain call of the same name"""
    if k.cls in ("Call", "TargetCall") and isinstance(v, Node) and v.cls in ("Call", k.cls) and (v.args[0] == want[0] or isinstance(v.args[0], K)):
        # a literal name: the unknown name was the one looked for
        return None if v.args[1:] == tuple(want[1:]) else "has operands %s, expected %s" % (shownode(v.args), shownode(tuple(want)))
    return NotImplemented


def prune(h):
    it, ctx = h.it, h.ctx
    f = ctx.lookup(SC + ":prune_fn_decls")
    w = ctx.where(f)
    x, y, z = [mkbase(h, "Var", K(n), h.ty(INT)) for n in "xyz"]
    p = mkbase(h, "Var", K("p"), h.ty(BOOL))
    X, Y, Z, P = ("Var", "x"), ("Var", "y"), ("Var", "z"), ("Var", "p")
    tl, fl = lambda: h.fn("BoolLit", K(True)), lambda: h.fn("BoolLit", K(False))
    call = lambda n: h.mk("Call", K(n), h.ty(BOOL), x)
    ite = lambda c, a, b: h.mk("Ite", c, a, b)
    cases = {
        "true": (lambda: ite(tl(), x, y), X), "false": (lambda: ite(fl(), x, y), Y), "unknown": (lambda: ite(p, x, y), ("Ite", P, X, Y)),
        "call-true": (lambda: ite(call("is_true"), x, y), X), "call-false": (lambda: ite(call("is_false"), x, y), Y),
        "call-other": (lambda: ite(call("is_p"), x, y), ("Ite", ("Call", "is_p", X), X, Y)), "call-undefined": (lambda: ite(call("nowhere"), x, y), ("Ite", ("Call", "nowhere", X), X, Y)),
        "inside": (lambda: h.mk("Add", ite(tl(), x, y), ite(fl(), x, y), ite(p, z, x)), ("Add", X, Y, ("Ite", P, Z, X))),
        "inside-branch": (lambda: ite(p, h.mk("Add", ite(fl(), x, y), z), h.mk("Mul", ite(tl(), x, y), z)), ("Ite", P, ("Add", Y, Z), ("Mul", X, Z))),
        "compound-branches": (lambda: ite(tl(), h.mk("Sub", x, y), h.mk("Sub", y, x)), ("Sub", X, Y)),
        "call-args": (lambda: h.mk("Call", K("k"), h.ty(INT), ite(tl(), x, y), z), ("Call", "k", X, Z)),
        "comparison": (lambda: ite(h.mk("Lt", x, y), x, y), ("Ite", ("Lt", X, Y), X, Y)),
    }
    for k, (b, want) in cases.items():
        for c in ("FnDecl", "FnDeclRecursive"):
            def go(itp):
                d = h.mk(c, K("main"), h.ty(INT), b(), x, y, z, p)
                other = lambda n, body: h.mk("FnDecl", K(n), h.ty(BOOL), body, x)
                fns = new_dict(itp, [(K("main"), d), (K("is_true"), other("is_true", tl())), (K("is_false"), other("is_false", fl())), (K("is_p"), other("is_p", p))])
                return h.reify(itp.call(f, [fns], {}))

            def expect(v, r):
                d = dict((a.v, b_) for a, b_ in v.fields)
                if sorted(d) != ["is_false", "is_p", "is_true", "main"]:
                    return "functions returned are %s" % sorted(d)
                m = flat(d["main"])
                full = (c, "main", want, X, Y, Z, P)
                return None if m == full else "becomes %s, expected %s" % (m, full)
            h.decide("prune/%s/%s" % (c, k), go, expect, w)


def candidates(h):
    """parse_candidates: collects callees, extracts lambdas passed to calls, changes nothing else"""
    it, ctx = h.it, h.ctx
    f = ctx.lookup(SC + ":parse_candidates")
    w = ctx.where(f)
    x, y = [mkbase(h, "Var", K(n), h.ty(INT)) for n in "xy"]
    X, Y = ("Var", "x"), ("Var", "y")
    fv = mkbase(h, "Var", K("g"), h.ty(("Fn", INT, INT)))
    ty = h.base(lambda: new_dict(it, [(K("k"), h.ty(INT)), (K("g"), h.ty(("Fn", INT, INT))), (K("m"), h.ty(INT))]))

    def go(b, me="main"):
        def run_(itp):
            ic, fc, lam = itp.new_list([]), itp.new_list([]), itp.new_list([])
            r = itp.call(f, [b(), ic, ty, fc, lam, K(me)], {})
            return Tup([Val0(h.reify(r)), Val0(h.reify(ic)), Val0(h.reify(fc)), Val0(h.reify(lam))])
        return run_

    def check(key, b, want, ic, fc, lam, me="main"):
        def expect(v, r):
            res, a, c, l = [flat(x.v) for x in v.items]
            if res[0] != want:
                return "becomes %s, expected %s" % (res[0], want)
            if sorted(map(str, a)) != sorted(map(str, ic)):
                return "recorded inlined calls %s, expected %s" % (a, ic)
            if sorted(c) != sorted(fc):
                return "recorded callees %s, expected %s" % (c, fc)
            if l != tuple(lam):
                return "extracted functions %s, expected %s" % (l, lam)
            return None
        h.decide("candidates/" + key, go(b, me), expect, w)
    call = lambda n, *a: h.mk("Call", K(n), h.ty(INT), *a)
    check("plain", lambda: h.mk("Add", x, h.mk("Mul", y, x)), ("Add", X, ("Mul", Y, X)), [], [], [])
    check("call", lambda: call("k", x, y), ("Call", "k", X, Y), [], ["k"], [])
    check("call-unknown", lambda: call("builtin", x, y), ("Call", "builtin", X, Y), [], [], [])
    check("self", lambda: call("k", x, y), ("Call", "k", X, Y), [], [], [], me="k")
    check("nested", lambda: call("k", call("m", x), h.mk("Add", call("k", y, y), y)), ("Call", "k", ("Call", "m", X), ("Add", ("Call", "k", Y, Y), Y)), [], ["k", "k", "m"], [])
    check("fn-arg", lambda: call("m", x, fv), ("Call", "m", X, ("Var", "g")), [("m", "g")], ["m"], [])
    lam = lambda: h.mk("Lambda", h.ty(INT), h.mk("Add", x, y), x, y)
    check("lambda", lambda: call("m", lam(), y), ("Call", "m", ("Var", "lambda_0"), Y), [("m", "lambda_0")], ["m", "lambda_0"], [("FnDecl", "lambda_0", ("Add", X, Y), X, Y)])


def llm(h):
    """llmlift replace_in_call: a function passed by value becomes a reference to it, nothing else changes"""
    it, ctx = h.it, h.ctx
    it.load_module(LL)
    f = ctx.lookup(LL + ":replace_in_call")
    w = ctx.where(f)
    x, y = [mkbase(h, "Var", K(n), h.ty(INT)) for n in "xy"]
    X, Y = ("Var", "x"), ("Var", "y")
    ic = Tup([K("hof"), K("g")])
    fd = lambda n="g": h.mk("FnDecl", K(n), h.ty(INT), h.mk("Add", x, y), x, y)
    F = lambda n="g": ("FnDecl", n, ("Add", X, Y), X, Y)
    call = lambda n, *a: h.mk("Call", K(n), h.ty(INT), *a)
    cases = {
        "hit": (lambda: call("hof", x, fd(), y), ("Call", "hof", X, ("Var", "g"), Y)),
        "other-callee": (lambda: call("hof", x, fd("q"), y), ("Call", "hof", X, F("q"), Y)),
        "other-caller": (lambda: call("k", x, fd(), y), ("Call", "k", X, F(), Y)),
        "nested": (lambda: h.mk("Ite", h.mk("Lt", x, y), call("hof", call("hof", x, fd()), fd()), y), ("Ite", ("Lt", X, Y), ("Call", "hof", ("Call", "hof", X, ("Var", "g")), ("Var", "g")), Y)),
        "decl": (lambda: h.mk("FnDecl", K("top"), h.ty(INT), call("hof", y, fd()), x, y), ("FnDecl", "top", ("Call", "hof", Y, ("Var", "g")), X, Y)),
        "rec-decl": (lambda: h.mk("FnDeclRecursive", K("top"), h.ty(INT), call("hof", y, fd()), x, y), ("FnDeclRecursive", "top", ("Call", "hof", Y, ("Var", "g")), X, Y)),
    }
    for k, (b, want) in cases.items():
        h.decide("llm-in-call/" + k, lambda itp: h.reify(itp.call(f, [b(), ic], {})), lambda v, r: None if flat(v) == want else "becomes %s, expected %s" % (flat(v), want), w)


def uses(h):
    it, ctx = h.it, h.ctx
    x, y, z = [mkbase(h, "Var", K(n), h.ty(INT)) for n in "xyz"]
    w = h.loc("Expr.count_variable_uses")
    cases = {"flat": (lambda: h.mk("Add", x, y, x), {"x": 2, "y": 1}), "nested": (lambda: h.mk("Ite", h.mk("Lt", x, y), h.mk("Call", K("y"), h.ty(INT), z, x), h.mk("Sub", y, h.fn("IntLit", K(3)))), {"x": 2, "y": 2, "z": 1}), "var": (lambda: x, {"x": 1}),
             "lit": (lambda: h.fn("IntLit", K(1)), {})}
    for k, (b, want) in cases.items():
        def go(itp):
            d = new_dict(itp, [])
            h.meth(b(), "count_variable_uses", d)
            return h.reify(d)
        h.decide("uses/" + k, go, lambda v, r: None if {a.v: b_.v for a, b_ in v.fields} == want else "counts %s, expected %s" % (shownode(v), want), w)
    g = ctx.lookup(SC + ":get_used_fn_names")

    def go(itp):
        body = h.mk("Ite", h.mk("Call", K("p"), h.ty(BOOL), x), h.mk("Add", h.mk("Call", K("q"), h.ty(INT), h.mk("Call", K("r"), h.ty(INT))), y), y)
        d = [h.mk("FnDecl", K("m"), h.ty(INT), body, x, y), h.mk("FnDeclRecursive", K("n"), h.ty(INT), h.mk("Call", K("s"), h.ty(INT), y), y)]
        return h.reify(itp.call(g, [itp.new_list(d)], {}))
    h.decide("used-fns", go, lambda v, r: None if isinstance(v, Inst) and sorted(x.v for x in v.fields) == ["p", "q", "r", "s"] else "used functions are %s, expected p q r s" % shownode(v), ctx.where(g))
