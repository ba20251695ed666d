"""P16: generated names are unique and stable"""
import itertools

from .. import llfront
from ..cases import A, B, AB, I_, S, add, asg, decide_scenario, lt, num, ret
from ..irh import IRH, shownode
from ..llfront import LF, LLFront
from ..pyfront import PF, PyFront, number
from ..values import K, Native, TRUE

FLOOR = 100
AN = "metalift.analysis"


# ---------------------------------------------------------------- the variable registry
def registry(ctx, h):
    it = h.it
    it.load_module(AN)
    VT = ctx.lookup(AN + ":VariableTracker")
    w, wg = ctx.where(VT), ctx.where(ctx.lookup(AN + ":VariableGroup.variable"))
    OPS = [("var", "a_x"), ("var", "a_x_1"), ("grp", "a", "x"), ("grp", "a_x", "1"), ("grp", "a", "x_1"), ("grp", "a_1", "x"), ("var", "a_1_x")]

    def play(it_, seq, keep):
        """[(op, name returned, type)] and what the registry lists; keep: groups are created once per name"""
        t = it.call(VT, [], {})
        out, gs = [], {}
        for op in seq:
            if op[0] == "var":
                v = it.call(it.getattr(t, "variable"), [K(op[1]), h.ty("Int")], {})
            else:
                if not keep or op[1] not in gs:
                    gs[op[1]] = it.call(it.getattr(t, "group"), [K(op[1])], {})
                v = it.call(it.getattr(gs[op[1]], "variable"), [K(op[2]), h.ty("Int")], {})
            out.append((op, h.reify(v)))
        return out, [h.reify(x) for x in it.iter_items(it.call(it.getattr(t, "all"), [], {}))]

    def distinct(v, r):
        out, allv = v
        seen = []
        for op, x in out:
            if getattr(x, "cls", None) != "Var" or not isinstance(x.args[0], K):
                return "%s returns %s" % (" ".join(op), shownode(x))
            n = x.args[0].v
            if op[0] == "grp" and n in seen:
                return "the group variable %s is handed out although the name is in use" % n
            if op[0] == "var" and n != op[1]:
                return "variable %s is named %s" % (op[1], n)
            seen.append(n)
        for x in allv:
            if getattr(x, "cls", None) != "Var" or not isinstance(x.args[0], K):
                return "the registry lists %s" % shownode(x)
        names = [x.args[0].v for x in allv]
        if sorted(names) != sorted(set(seen)):
            return "the registry lists %s, the variables handed out are %s" % (", ".join(names), ", ".join(seen))
        return None
    deep = ctx.thorough
    for n in range(1, 5 if deep else 4):
        for first in OPS:
            bad = []

            def go(it_, n=n, first=first):
                res = []
                for rest in itertools.product(OPS, repeat=n - 1):
                    for keep in (True, False):
                        m = distinct(play(it_, (first,) + rest, keep), None)
                        if m is not None:
                            res.append(m + " [after %s]" % "; ".join(" ".join(o) for o in (first,) + rest))
                return res
            h.decide("registry/%d requests from %s" % (n, " ".join(first)), go, lambda v, r: v[0] if v else None, wg)
    TYS = ["Int", "Bool", ("List", "Int"), ("List", "Bool"), ("Set", "Int"), ("Matrix", "Int"), ("Tuple", "Int", "Int"), ("Tuple", "Int", "Bool")]
    for a in TYS:
        for b in TYS:
            def two(it_, a=a, b=b):
                t = it.call(VT, [], {})
                it.call(it.getattr(t, "variable"), [K("v"), h.ty(a)], {})
                it.call(it.getattr(t, "variable"), [K("w"), h.ty(b)], {})
                v = it.call(it.getattr(t, "variable"), [K("v"), h.ty(b)], {})
                return [h.reify(v)] + [h.reify(x) for x in it.iter_items(it.call(it.getattr(t, "all"), [], {}))]
            k = "types/%s then %s" % (a, b)
            if a == b:
                def one(v, r, a=a):
                    got = [(x.args[0].v, x.type) for x in v]
                    return None if got == [("v", h.ty(a)), ("v", h.ty(a)), ("w", h.ty(a))] else "the registered variables are %s" % got
                h.decide(k, two, one, w)
            else:
                h.must_raise(k, two, "registering a variable with a second type", w)


# ---------------------------------------------------------------- predicates
def predicates(ctx, h, front, mod):
    it = h.it
    def o(n, t="Int"):
        return h.fn("create_object", h.ty(t), K(n))
    Dr = ctx.lookup(mod + ":Driver")
    wd = ctx.where(ctx.lookup(mod + ":Driver.add_var_object"))

    def many(it_):
        d = it.call(Dr, [], {})
        it.call(it.getattr(d, "add_var_object"), [o("u", ("List", "Int"))], {})
        it.call(it.getattr(d, "add_var_objects"), [it.new_list([o("v"), o("w", "Bool"), o("v"), o("u", ("List", "Int"))])], {})
        return [(k.v, t) for k, t in it.get(it.getattr(it.getattr(d, "var_tracker"), "var_to_type")).items]

    def listed(v, r):
        want = [("u", h.ty(("List", "Int"))), ("v", h.ty("Int")), ("w", h.ty("Bool"))]
        return None if sorted(map(str, v)) == sorted(map(str, want)) else "registering u, then v, w, v, u lists %s" % (v,)
    h.decide("%s objects/registered" % front, many, listed, wd)
    for nm, mkx in (("a sum", lambda: h.meth(o("a"), "__add__", o("b"))), ("a constant", lambda: h.mk("Int", K(3)))):
        def notvar(it_, mkx=mkx):
            it.call(it.getattr(it.call(Dr, [], {}), "add_var_object"), [mkx()], {})
        h.must_raise("%s objects/%s" % (front, nm), notvar, "registering %s as a variable" % nm, wd)
    PT, PR = ctx.lookup(mod + ":PredicateTracker"), ctx.lookup(mod + ":Predicate")
    w = ctx.where(ctx.lookup(mod + ":PredicateTracker.invariant"))
    py = front == "Python"

    def L(*ns):
        return it.new_list([o(n) for n in ns])

    def loop(it_, k):
        return it.new_inst(h.Expr, {}) if k is None else k
    nodes = {}

    def setup():
        from ..values import Ext
        for n in ("w1", "w2", "w3"):
            nodes[n] = it.new_inst(Ext("mypy.nodes.WhileStmt"), {})
        for n in ("f", "g"):
            nodes[n] = it.new_inst(Ext("mypy.nodes.FuncDef"), {"name": K(n)})
    g1, g2 = (Native("grammar", lambda it_, a, kw, s=s: h.mk("Bool", TRUE)) for s in (1, 2))

    def inv(t, fn, k, args, scope, g=g1):
        if py:
            return it.call(it.getattr(t, "invariant"), [K(fn), nodes["w%d" % k], L(*args), L(*args[:1]), L(*args), L(*scope), g], {})
        return it.call(it.getattr(t, "invariant"), [K("%s_inv%d" % (fn, k)), L(*args), L(*args[:1]), L(*args), L(*scope), g], {})

    def ps(t, fn, outs, ins, g=g1):
        if py:
            return it.call(it.getattr(t, "postcondition"), [nodes[fn], L(*outs), L(*ins), g], {})
        return it.call(it.getattr(t, "postcondition"), [K(fn), L(*outs), L(*ins), L(), g], {})

    def show(p):
        return (it.getattr(p, "name").v, [h.meth(a, "var_name").v for a in it.iter_items(it.getattr(p, "args"))])
    A1 = ["b", "a"]
    STEPS = [("inv", "f", 1, A1, ["z", "a", "c"]), ("inv", "f", 2, ["a"], []), ("inv", "g", 3, ["x"], ["y", "x"]), ("ps", "f", ["f_rv"], ["a", "b"]), ("ps", "g", ["g_rv"], ["x"])]
    EXP = [["b", "a", "c", "z"], ["a"], ["x", "y"], ["a", "b", "f_rv"], ["x", "g_rv"]]

    def ask(t, s, g=g1, other=False):
        if s[0] == "inv":
            return inv(t, s[1], s[2], s[3] if not other else ["q"], s[4] if not other else ["r"], g)
        return ps(t, s[1], s[2] if not other else ["q"], s[3] if not other else ["r"], g)
    for order in itertools.permutations(range(5)):
        if not ctx.thorough and order[0] > order[-1]:
            continue

        def go(it_, order=order):
            setup()
            t = it.call(PT, [], {})
            first = [ask(t, STEPS[i]) for i in order]
            a = [show(p) for p in first]
            again = [ask(t, STEPS[i], g2, True) for i in reversed(order)][::-1]
            return a, [show(p) for p in again], [x == y for x, y in zip(first, again)]

        def expect(v, r, order=order):
            a, b, same = v
            names = [n for n, _ in a]
            if len(set(names)) != len(names):
                return "two predicates share the name of one of %s" % ", ".join(names)
            for i, (n, args), in zip(order, a):
                if args != EXP[i]:
                    return "predicate %s ranges over %s instead of %s" % (n, ", ".join(args), ", ".join(EXP[i]))
                s = STEPS[i]
                if s[0] == "ps" and n != s[1] + "_ps":
                    return "the summary of %s is named %s" % (s[1], n)
            if not all(same) or a != b:
                return "asking again for the same loop or function yields another predicate"
            return None
        h.decide("%s predicates/%s" % (front, "".join(map(str, order))), go, expect, w)

    def like(it_):
        setup()
        t = it.call(PT, [], {})
        k1 = inv(t, "f", 0, ["a"], []) if not py else None
        k2 = ps(t, "f_inv0", ["f_inv0_rv"], ["a"]) if not py else None
        return (show(k1), show(k2)) if not py else None
    if not py:
        h.decide("%s predicates/function named as an invariant" % front, like,
                 lambda v, r: None if v[0][0] != v[1][0] and v[1][1] == ["a", "f_inv0_rv"] else "the summary of f_inv0 is the predicate %s(%s)" % (v[1][0], ", ".join(v[1][1])), w)
    ctx.stat("predicate request orders")


# ---------------------------------------------------------------- whole analyses
def scenarios():
    D = ("driver",)
    o = lambda *ns: [("obj", n, "int") for n in ns]
    loop = [asg("i", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1)))]), ret(I_)]
    two = [asg("i", num(0)), asg("s", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1))), asg("s", add(S, B))]), asg("i", B), ("while", lt(num(0), I_), [asg("i", ("op", "-", I_, num(1))), asg("s", add(S, I_))]), ret(S)]
    nested = [asg("i", num(0)), asg("s", num(0)), ("while", lt(I_, A), [asg("j", num(0)), ("while", lt(("var", "j"), I_), [asg("j", add(("var", "j"), num(1))), asg("s", add(S, num(1)))]), asg("i", add(I_, num(1)))]), ret(S)]
    clash = [asg("i", num(0)), asg("i_1", num(5)), ("while", lt(I_, A), [asg("i", add(I_, num(1))), asg("i_1", add(("var", "i_1"), I_))]), ret(("var", "i_1"))]
    rv = [asg("f_rv", num(0)), ("while", lt(("var", "f_rv"), A), [asg("f_rv", add(("var", "f_rv"), B))]), ret(("var", "f_rv"))]
    plain = [ret(add(A, B))]
    IB = [("i_1", "int"), ("b", "int")]
    P = {"f": (AB, loop), "g": (AB, two), "n": (AB, nested), "c": (AB, clash), "r": (AB, rv), "p": (AB, plain), "q": (IB, [asg("i", num(0)), ("while", lt(I_, ("var", "i_1")), [asg("i", add(I_, B))]), ret(add(I_, ("var", "i_1")))])}
    c = lambda f, r="x", a=("a", "b"): ("call", f, list(a), r)
    out = [
        ("input named as a local", ["f"], o("a", "b", "i") + [c("f")]), ("inputs named as locals", ["g"], o("s", "i_1", "a", "b", "i") + [c("g")]), ("suffix in use", ["f"], o("a", "b", "i", "i_1", "i_2") + [c("f")]),
        ("suffix with a gap", ["g"], o("a", "b", "i_1") + [c("g")]), ("two loops", ["g"], o("a", "b") + [c("g")]), ("nested loops", ["n"], o("a", "b", "j", "s_1") + [c("n")]),
        ("parameter named as a suffixed local", ["q"], o("i_1", "b") + [("call", "q", ["i_1", "b"], "x")]), ("local named as a suffixed local", ["c"], o("a", "b", "i") + [c("c")]), ("local named as a suffixed local, free", ["c"], o("a", "b") + [c("c")]),
        ("local named as a result", ["r"], o("a", "b", "r_rv") + [c("r")]),
        ("twice", ["f"], o("a", "b") + [c("f"), c("f", "y")]), ("three times", ["g"], o("a", "b") + [c("g"), c("g", "y"), c("g", "z")]),
        ("two functions", ["f", "g"], o("a", "b") + [c("f"), c("g", "y")]), ("two functions, alternating", ["f", "g"], o("a", "b") + [c("f"), c("g", "y"), c("f", "z"), c("g", "t")]),
        ("three functions", ["n", "g", "c"], o("a", "b", "i") + [c("n"), c("c", "y"), c("g", "z")]),
    ]
    res = [("input named as a result", ["p"], o("a", "b", "p_rv") + [c("p")]), ("results", ["p"], o("a", "b", "p_rv_1") + [c("p"), c("p", "y"), c("p", "z", ("x", "y"))]),
           ("suffixed result in use", ["p"], o("p_rv", "p_rv_2", "p_rv_1", "a", "b") + [c("p", "x", ("a", "p_rv")), c("p", "y", ("p_rv_1", "x"))])]
    return P, D, out, res


def registered(h, driver):
    """variables of the obligations that are not registered, or registered with another type"""
    it = h.it
    reg = {k.v: t for k, t in it.get(it.getattr(it.getattr(driver, "var_tracker"), "var_to_type")).items}
    bad = []
    seen = set()

    def walk(n):
        if hasattr(n, "cls") and hasattr(n, "args"):
            if n.cls == "Var":
                nm = n.args[0].v
                if nm not in reg:
                    bad.append("%s is used but not registered" % nm)
                elif reg[nm] != n.type:
                    bad.append("%s is registered as %s and used as %s" % (nm, reg[nm], n.type))
                return
            for a in n.args:
                walk(a)
        elif hasattr(n, "src"):
            walk(n.src)
        elif isinstance(n, tuple):
            for a in n:
                walk(a)
    for a in it.get(it.getattr(driver, "asserts")).items:
        walk(h.reify(a))
    return bad


def whole(ctx):
    P, D, both, res = scenarios()
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":Driver.unused_name")) if pf.it.lookup(PF + ":Driver.unused_name") else ctx.where(ctx.lookup(PF + ":Driver"))
    for n, fs, steps in both + res:
        decide_scenario(ctx, pf, "py/" + n, {f: (P[f][0], "int", P[f][1], {}) for f in fs}, [D] + steps, w)
    regs(ctx, pf, "py", lambda n, fs, steps: pf.scenario({f: (P[f][0], "int", number(P[f][1]), {}) for f in fs}, [D] + steps), both + res, w)
    w0 = w
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":Driver.add_var_object"))
    ll = lambda steps: [D] + [("call", s[1], s[2]) if s[0] == "call" else s for s in steps]
    regs(ctx, lf, "ll", lambda n, fs, steps: llfront.play(lf, {f: llfront.emit(f, P[f][0], P[f][1]) for f in fs}, ll(steps)), both, w)
    from . import p25
    for n, params, rt, body, types in p25.py_programs():
        if "loop" in n:
            def go(it_, params=params, rt=rt, body=body, types=types):
                return registered(pf.h, pf.analyse("t", params, rt, number(body), types))
            pf.h.decide("py/registered/program %s" % n, go, lambda v, r: v[0] if v else None, w0)
    for n, params, rt, body, types in p25.ll_programs() + p25.vec_programs() + p25.matrix_programs():
        if "loop" in n or n in ("product", "sum of a row"):
            def go(it_, params=params, rt=rt, body=body, types=types):
                e, _ = llfront.emit("t", params, body, types, rt)
                lf.calls = []
                lf.install([(e, "t")])
                d = lf.driver()
                f = lf.analyze(d, e)
                lf.it.call(f, lf.objects(d, params), {})
                return registered(lf.h, d)
            lf.h.decide("ll/registered/program %s" % n, go, lambda v, r: v[0] if v else None, w)
    for n, fs, steps in both:
        llfront.decide_scenario(ctx, lf, "ll/" + n, {f: (P[f][0], P[f][1], {}, "int") for f in fs}, ll(steps), w)


def regs(ctx, pf, tag, run_, scs, w):
    for n, fs, steps in scs:
        def go(it_, n=n, fs=fs, steps=steps):
            return [m for d in run_(n, fs, steps) for m in registered(pf.h, d)]
        pf.h.decide("%s/registered/%s" % (tag, n), go, lambda v, r: v[0] if v else None, w)


def run(ctx):
    ctx.rule("variable registry: for every sequence of requests over names that collide with suffixed names, a group variable gets a name not in use, a variable keeps its name, "
             "every variable is listed once with its type, and a second type is rejected")
    ctx.rule("predicates: for every order of requests, names differ, arguments are those of the first request, and asking again yields the same predicate")
    ctx.rule("whole analyses: with inputs, locals and results named like generated names, the obligations are those of the reference up to renaming of fresh variables, "
             "and every variable they mention is registered with the type it is used at")
    h = IRH(ctx)
    registry(ctx, h)
    for front, mod in (("Python", PF), ("LLVM", LF)):
        h.it.load_module(mod)
        predicates(ctx, h, front, mod)
    whole(ctx)
