"""P11: every return is checked against the program summary"""
from ..cases import A, B, AB, I_, S, X, add, asg, decide_py, decide_scenario, iff, lt, num, ret
from .. import llfront
from ..llfront import LF, LLFront, decide_ll
from ..pyfront import PF, PyFront, number

FLOOR = 35

C = ("var", "c")


def return_programs():
    c1, c2, c3 = lt(A, B), lt(B, num(5)), lt(num(1), A)
    inc = asg("i", add(I_, num(1)))
    P3 = [("c", "int"), ("a", "int"), ("b", "int")]
    out = [
        ("one", AB, [ret(A)]), ("other order", [("b", "int"), ("a", "int")], [ret(A)]), ("three", P3, [ret(("op", "-", A, C))]),
        ("input reassigned", P3, [asg("c", add(C, A)), asg("a", num(3)), ret(("op", "-", A, C))]),
        ("dead code", AB, [ret(A), asg("a", num(0)), ret(B)]),
        ("both sides", AB, [iff(c1, [ret(A)], [ret(B)])]), ("both sides; dead", AB, [iff(c1, [ret(A)], [ret(B)]), ret(num(3))]),
        ("guard chain", AB, [iff(c1, [ret(num(1))]), iff(c2, [ret(num(2))]), iff(c3, [ret(num(3))]), ret(num(4))]),
        ("else chain", AB, [iff(c1, [ret(num(1))], [iff(c2, [ret(num(2))], [iff(c3, [ret(num(3))], [ret(num(4))])])])]),
        ("nested", AB, [iff(c1, [iff(c2, [ret(num(1))]), iff(c3, [ret(num(2))]), ret(num(3))]), ret(num(4))]),
        ("nested dead", AB, [iff(c1, [iff(c2, [ret(num(1))], [ret(num(5))]), ret(num(3))]), ret(num(4))]),
        ("same value twice", AB, [iff(c1, [ret(num(1))]), ret(num(1))]),
        ("in else only", AB, [iff(c1, [asg("a", num(3))], [ret(A)]), ret(A)]),
        ("loop args", [("b", "int"), ("a", "int")], [asg("i", num(0)), asg("s", num(0)), ("while", lt(I_, A), [asg("s", add(S, B)), inc]), ret(S)]),
        ("many loop variables", [("n", "int"), ("a", "int")], [asg("z", num(0)), asg("i", num(0)), asg("s", num(0)), asg("m", num(2)),
         ("while", lt(I_, ("var", "n")), [asg("s", add(S, ("var", "m"))), asg("z", add(("var", "z"), A)), inc]), ret(add(S, ("var", "z")))]),
        ("return in loop", AB, [asg("i", num(0)), ("while", lt(I_, A), [iff(c2, [ret(I_)]), inc]), ret(num(0))]),
        ("return in nested branch in loop", AB, [asg("i", num(0)), ("while", lt(I_, A), [iff(c2, [iff(c3, [ret(I_)], [inc])], [inc])]), ret(num(0))]),
        ("return at both ends of a loop", AB, [asg("i", num(0)), ("while", lt(I_, A), [iff(c2, [ret(num(1))]), iff(c3, [ret(num(2))]), inc]), ret(I_)]),
    ]
    return out


def scenarios():
    D = ("driver",)
    o = lambda *ns: [("obj", n, "int") for n in ns]
    F = {"f": (AB, "int", [iff(lt(A, B), [ret(A)]), ret(B)], {})}
    FG = dict(F, g=([("y", "int"), ("x", "int")], "int", [iff(lt(X, ("var", "y")), [ret(X)]), ret(add(X, ("var", "y")))], {}))
    LP = {"f": (AB, "int", [asg("i", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1)))]), ret(I_)], {})}
    LG = dict(LP, g=(AB, "int", [asg("i", B), ("while", lt(num(0), I_), [asg("i", ("op", "-", I_, num(1)))]), ret(I_)], {}))
    pre = lambda *ns: ("pre", lt(("var", ns[0]), ("var", ns[1])))
    return [
        ("arguments by position", F, [D] + o("u", "v") + [("call", "f", ["u", "v"], "r")]),
        ("arguments swapped", F, [D] + o("b", "a") + [("call", "f", ["b", "a"], "r")]),
        ("twice", F, [D] + o("a", "b", "u", "v") + [("call", "f", ["a", "b"], "r"), ("call", "f", ["v", "u"], "q")]),
        ("three times", F, [D] + o("a", "b", "u") + [("call", "f", ["a", "b"], "r"), ("call", "f", ["b", "u"], "q"), ("call", "f", ["q", "r"], "p")]),
        ("result passed on", FG, [D] + o("a", "b") + [("call", "f", ["a", "b"], "r"), ("call", "g", ["r", "a"], "q")]),
        ("result passed on twice", FG, [D] + o("a", "b") + [("call", "g", ["a", "b"], "r"), ("call", "f", ["b", "r"], "q"), ("call", "g", ["q", "r"], "p")]),
        ("precondition", F, [D] + o("a", "b") + [pre("a", "b"), ("call", "f", ["a", "b"], "r")]),
        ("two preconditions", F, [D] + o("a", "b", "c") + [pre("a", "b"), pre("b", "c"), ("call", "f", ["a", "c"], "r")]),
        ("precondition between", F, [D] + o("a", "b") + [("call", "f", ["a", "b"], "r"), pre("r", "b"), ("call", "f", ["b", "r"], "q")]),
        ("precondition and loop", LP, [D] + o("a", "b") + [pre("a", "b"), ("call", "f", ["a", "b"], "r")]),
        ("loops in two functions", LG, [D] + o("a", "b") + [("call", "f", ["a", "b"], "r"), ("call", "g", ["a", "b"], "q")]),
        ("loops in two functions, precondition", LG, [D] + o("a", "b") + [pre("a", "b"), ("call", "g", ["a", "b"], "r"), pre("b", "a"), ("call", "f", ["a", "b"], "q")]),
    ]


def python(ctx):
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_return_stmt"))
    w2 = ctx.where(ctx.lookup(PF + ":MetaliftFunc.__call__"))
    for n, params, body in return_programs():
        decide_py(ctx, pf, "py/" + n, params, body, w)
    LI = ("list", "int")
    for n, ps, acts in (("too few inputs", AB, [("a", "int")]), ("too many inputs", AB, AB + [("c", "int")]), ("no input", AB, []), ("input to none", [], AB[:1]),
                        ("input of another type", AB, [("a", "int"), ("b", LI)]), ("first input of another type", AB, [("a", "bool"), ("b", "int")]),
                        ("list for set", [("a", ("set", "int"))], [("a", LI)]), ("integer for list", [("a", LI)], [("a", "int")])):
        def go(it, ps=ps, acts=acts):
            it_ = pf.it
            d = it_.call(pf.Driver, [], {})
            return pf.h.reify(it_.getattr(pf.analyse("t", ps, "int", number([ret(num(1))]), driver=d, args=pf.objects(d, acts)), "asserts"))
        pf.h.must_raise("py/rejected/" + n, go, "a call of the analysed function with wrong inputs", w2)
    for n, fns, steps in scenarios():
        decide_scenario(ctx, pf, "py/" + n, fns, steps, w2)


def ll_scenarios():
    D = ("driver",)
    o = lambda *ns: [("obj", n, "int") for n in ns]
    F = {"f": (AB, [iff(lt(A, B), [ret(A)]), ret(B)], {}, "int")}
    FG = dict(F, g=([("b", "int"), ("c", "int")], [iff(lt(C, B), [ret(C)]), ret(add(C, B))], {}, "int"))
    LP = {"f": (AB, [asg("i", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1)))]), ret(I_)], {}, "int")}
    LG = dict(LP, g=([("b", "int"), ("c", "int")], [asg("i", B), ("while", lt(C, I_), [asg("i", ("op", "-", I_, num(1)))]), asg("s", num(0)), ("while", lt(S, I_), [asg("s", add(S, C))]), ret(S)], {}, "int"))
    R = dict(F, g=([("agg.result", "sret"), ("a", "int")], [("vnew", "agg.result"), iff(lt(A, num(2)), [("vpush", "agg.result", A)]), ret(None)], {}, "void"))
    pre = lambda *ns: ("pre", lt(("var", ns[0]), ("var", ns[1])))
    call = lambda f, *a: ("call", f, list(a))
    return [
        ("one call", F, [D] + o("a", "b") + [call("f", "a", "b")]), ("inputs registered in another order", F, [D] + o("b", "a") + [call("f", "a", "b")]), ("called with inputs in another order", F, [D] + o("a", "b") + [call("f", "b", "a")]),
        ("two functions", FG, [D] + o("a", "b", "c") + [call("f", "a", "b"), call("g", "b", "c")]), ("two functions, the later first", FG, [D] + o("a", "b", "c") + [call("g", "b", "c"), call("f", "a", "b")]),
        ("called twice", F, [D] + o("a", "b") + [call("f", "a", "b"), call("f", "a", "b")]),
        ("precondition", F, [D] + o("a", "b") + [pre("a", "b"), call("f", "a", "b")]), ("two preconditions", F, [D] + o("a", "b") + [pre("a", "b"), pre("b", "a"), call("f", "a", "b")]),
        ("precondition between", FG, [D] + o("a", "b", "c") + [call("f", "a", "b"), pre("b", "c"), call("g", "b", "c")]),
        ("precondition and loop", LP, [D] + o("a", "b") + [pre("a", "b"), call("f", "a", "b")]),
        ("loops in two functions", LG, [D] + o("a", "b", "c") + [call("f", "a", "b"), call("g", "b", "c")]), ("loops in two functions, precondition", LG, [D] + o("a", "b", "c") + [pre("a", "c"), call("g", "b", "c"), pre("b", "a"), call("f", "a", "b")]),
        ("loop function twice", LP, [D] + o("a", "b") + [call("f", "a", "b"), call("f", "a", "b")]),
        ("result in memory and result", R, [D] + o("a", "b") + [call("g", "a"), call("f", "a", "b")]),
    ]


def llvm(ctx):
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":VCVisitor.visit_ret_instruction"))
    w2 = ctx.where(ctx.lookup(LF + ":MetaliftFunc.__call__"))
    for n, params, body in return_programs():
        for style in ("direct", "clang"):
            decide_ll(ctx, lf, "ll/%s/%s" % (style, n), params, body, w, style=style)
    R = [("agg.result", "sret"), ("a", "int"), ("v", "vec")]
    new, push = ("vnew", "agg.result"), lambda e: ("vpush", "agg.result", e)
    c1, c2 = lt(A, num(1)), lt(num(3), A)
    for n, body in (("empty", [new, ret(None)]), ("one", [new, push(A), ret(None)]), ("returns early", [new, iff(c1, [ret(None)]), push(A), ret(None)]),
                    ("both sides", [new, iff(c1, [push(A), ret(None)], [push(num(1)), push(A), ret(None)])]), ("chain", [new, iff(c1, [push(num(0)), ret(None)]), iff(c2, [push(num(1)), ret(None)]), ret(None)]),
                    ("return in loop", [new, asg("i", num(0)), ("while", lt(I_, A), [push(("vget", "v", I_)), iff(c2, [ret(None)]), asg("i", add(I_, num(1)))]), ret(None)])):
        decide_ll(ctx, lf, "ll/result in memory/" + n, R, body, w, ret="void")
        decide_ll(ctx, lf, "ll/result in memory/not first/" + n, R[1:] + R[:1], body, w, ret="void")
    LI, SI = ("list", "int"), ("set", "int")
    P = [("a", "int"), ("l", LI), ("p", "bool"), ("st", SI)]
    decide_ll(ctx, lf, "ll/list result", P, [iff(c1, [ret(("var", "l"))]), ret(("call", "_Z10listAppendIiEP4listIT_ES3_S1_", [("var", "l"), A], "%struct.list*"))], w, ret=LI)
    decide_ll(ctx, lf, "ll/set result", P, [iff(c1, [ret(("var", "st"))]), ret(("call", "set_add", [("var", "st"), A], "%struct.set*"))], w, ret=SI)
    inc = asg("i", add(I_, num(1)))
    inner = ("while", lt(("var", "j"), B), [asg("j", add(("var", "j"), num(1)))])
    one, two = [asg("i", num(0)), ("while", lt(I_, A), [inc]), ret(I_)], [asg("i", num(0)), ("while", lt(I_, A), [asg("j", num(0)), inner, inc]), ret(I_)]
    for n, body, o in (("loop left out", one, lambda x: []), ("inner loop left out", two, lambda x: [y for y in x if y[1] == 1]), ("outer loop left out", two, lambda x: [y for y in x if y[1] == 2])):
        decide_ll(ctx, lf, "ll/rejected/" + n, AB, body, w2, order=o, reject="an analysis that cannot reach every return")
    for n, fns, steps in ll_scenarios():
        llfront.decide_scenario(ctx, lf, "ll/" + n, fns, steps, w2)


def run(ctx):
    ctx.rule("LLVM front end: the same for every function of a driver, with results returned in registers and in memory")
    llvm(ctx)
    ctx.rule("Python front end: for every arrangement of returns, and for every sequence of analysed calls and preconditions, the recorded "
             "obligations have the meaning of the reference, with the summary and invariants applied in declared order")
    python(ctx)
