"""P25: library calls are modelled by the operation they perform"""
from ..cases import A, B, asg, decide_py, iff, lt, num, ret
from ..irh import *  # noqa
from ..values import *  # noqa
from ..llfront import LF, VEC, LLFront, decide_ll
from ..pyfront import PF, PyFront

FLOOR = 55

L, M, ST, X = (("var", n) for n in ("l", "m", "st", "x"))
LI, SI = ("list", "int"), ("set", "int")


def app(l, e):
    return ("expr", ("method", l, "append", [e]))


def py_programs():
    PA = [("a", "int"), ("l", LI), ("m", LI)]
    PS = [("a", "int"), ("st", SI), ("b", "int")]
    ty = {"x": LI}
    c = lt(A, num(3))
    w = [asg("i", num(0)), asg("x", ("list", [])), ("while", lt(("var", "i"), A), [app(X, ("var", "i")), asg("i", ("op", "+", ("var", "i"), num(1)))]), ret(X)]
    w2 = [asg("i", num(0)), ("while", lt(("var", "i"), ("len", L)), [app(M, ("index", L, ("var", "i"))), asg("i", ("op", "+", ("var", "i"), num(1)))]), ret(M)]
    w3 = [asg("i", num(0)), ("while", lt(("var", "i"), A), [("expr", ("method", ST, "add", [("var", "i")])), asg("i", ("op", "+", ("var", "i"), num(1)))]), ret(ST)]
    w4 = [asg("i", num(0)), ("while", lt(("var", "i"), A), [iff(c, [("expr", ("method", ST, "remove", [("var", "i")]))]), asg("i", ("op", "+", ("var", "i"), num(1)))]), ret(ST)]
    inc = asg("i", ("op", "+", ("var", "i"), num(1)))
    jnc = asg("j", ("op", "+", ("var", "j"), num(1)))

    def st(m, e):
        return ("expr", ("method", ST, m, [e]))

    def loop(body, r, li=True):
        p = [("a", "int"), ("b", "int"), ("l", LI), ("m", LI)] if li else PS
        return p, (LI if li else SI), [asg("i", num(0)), asg("j", num(0)), ("while", lt(("var", "i"), A), body + [inc]), ret(r)], {}

    def jloop(body):
        return ("while", lt(("var", "j"), B), body + [jnc])
    only = [
        ("append in else of loop", *loop([iff(c, [asg("j", num(1))], [app(L, ("var", "i"))])], L)),
        ("append in then of loop", *loop([iff(c, [app(M, ("var", "i"))], [asg("j", num(2))])], M)),
        ("append in inner loop", *loop([jloop([app(L, ("var", "j"))])], L)),
        ("append after inner loop", *loop([jloop([asg("j", B)]), app(L, ("var", "j"))], L)),
        ("append to two in loop", *loop([iff(c, [app(M, ("var", "i"))], [app(L, ("var", "i"))])], L)),
        ("append length in loop", *loop([app(L, ("len", L)), app(M, ("index", L, ("var", "i")))], M)),
        ("add in else of loop", *loop([iff(c, [asg("b", num(1))], [st("add", ("var", "i"))])], ST, False)),
        ("remove in else of loop", *loop([iff(c, [asg("b", num(1))], [st("remove", ("var", "i"))])], ST, False)),
        ("add and remove in loop", *loop([iff(c, [st("add", ("var", "i"))], [st("remove", ("var", "i"))])], ST, False)),
        ("remove in inner loop", *loop([jloop([st("remove", ("var", "j"))])], ST, False)),
        ("add in inner loop", *loop([jloop([st("add", ("var", "j"))])], ST, False)),
    ]
    return only + [
        ("len", PA, "int", [ret(("len", L))], {}), ("len of other", PA, "int", [ret(("op", "-", ("len", M), ("len", L)))], {}),
        ("index", PA, "int", [ret(("index", L, A))], {}), ("index literal", PA, "int", [ret(("index", M, num(0)))], {}),
        ("index expression", PA, "int", [ret(("index", L, ("op", "+", A, num(1))))], {}), ("index of index", PA, "int", [ret(("index", L, ("index", M, A)))], {}),
        ("append", PA, LI, [app(L, A), ret(L)], {}), ("append twice", PA, LI, [app(L, A), app(L, num(4)), ret(L)], {}),
        ("append to one", PA, LI, [app(L, A), ret(M)], {}), ("append to other", PA, LI, [app(M, A), app(L, ("index", M, num(0))), ret(L)], {}),
        ("append to new", PA, LI, [asg("x", ("list", [])), app(X, A), ret(X)], ty), ("append to two new", PA, LI, [asg("x", ("list", [])), asg("y", ("list", [])), app(X, A), ret(("var", "y"))], {"x": LI, "y": LI}),
        ("append length", PA, "int", [app(L, A), ret(("len", L))], {}),
        ("append self element", PA, LI, [app(L, ("index", L, num(0))), ret(L)], {}),
        ("append in branch", PA, LI, [iff(c, [app(L, A)]), ret(L)], {}), ("append in branches", PA, LI, [iff(c, [app(L, A)], [app(L, num(0))]), ret(L)], {}),
        ("append in other branch", PA, LI, [iff(c, [app(L, A)], [app(M, num(0))]), ret(L)], {}),
        ("append after branch", PA, LI, [iff(c, [asg("a", num(1))], [asg("a", num(2))]), app(L, A), ret(L)], {}),
        ("append before branch", PA, LI, [app(L, A), iff(c, [app(L, num(1))], [ret(L)]), ret(M)], {}),
        ("append in loop", [("a", "int")], LI, w, {"x": LI}), ("append parameter in loop", PA, LI, w2, {}),
        ("add", PS, SI, [("expr", ("method", ST, "add", [A])), ret(ST)], {}), ("remove", PS, SI, [("expr", ("method", ST, "remove", [A])), ret(ST)], {}),
        ("add and remove", PS, SI, [("expr", ("method", ST, "add", [A])), ("expr", ("method", ST, "remove", [B])), ret(ST)], {}),
        ("add in branch", PS, SI, [iff(lt(A, B), [("expr", ("method", ST, "add", [A]))]), ret(ST)], {}),
        ("add in loop", PS, SI, w3, {}), ("remove in loop", PS, SI, w4, {}),
        ("set unchanged", PS, SI, [asg("a", B), ret(ST)], {}),
        ("new list", PA, LI, [ret(("list", []))], {}),
    ]


def python(ctx):
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_call_expr"))
    for n, params, rt, body, types in py_programs():
        decide_py(ctx, pf, "py/" + n, params, body, w, types=types, ret_type=rt)
    P2 = [("a", "int"), ("b", "int")]
    f = lambda *xs: ("call", "f", list(xs))
    g = lambda *xs: ("call", "g", list(xs))
    for n, e in (("one", f(A)), ("two", g(B, A)), ("nested", f(g(A, f(B)))), ("in arithmetic", ("op", "-", f(A), g(A, B)))):
        decide_py(ctx, pf, "py/uninterpreted " + n, P2, [ret(e)], w, uninterp=("f", "g"))
        decide_py(ctx, pf, "py/uninterpreted assigned " + n, P2, [asg("x", e), asg("a", num(0)), ret(X)], w, uninterp=("f", "g"))
    tuples(ctx, pf)


def tuples(ctx, pf):
    """a tuple is built from its elements and read at the index"""
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_index_expr"))

    def ev(ref, e, s):
        from ..progs import container, node
        if e[0] == "index" and e[1][0] == "tuple":
            t = ref.ev(e[1], s)
            return node("TupleGet", t, ref.ev(e[2], s))
        return container(ref, e, s)
    for k in range(3):
        decide_py(ctx, pf, "py/tuple element %d" % k, [("a", "int"), ("b", "int")],
                  [ret(("index", ("tuple", [A, B, ("op", "+", A, B)]), num(k)))], w, ev=ev)


# ---------------------------------------------------------------- LLVM
NEWL, LEN, GET, APP = "_Z7newListIiEP4listIT_Ev", "_Z10listLengthIiEiP4listIT_E", "_Z7listGetIiET_P4listIS0_Ei", "_Z10listAppendIiEP4listIT_ES3_S1_"
TUP, TGET = "_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_", "_Z8tupleGetIJiiELi0EEiP3tupIJDpT_EEi"
LP, SP, TP = "%struct.list*", "%struct.set*", "%struct.tup*"


def lapp(l, e):
    return ("call", APP, [l, e], LP)


def llen(l):
    return ("call", LEN, [l])


def lget(l, i):
    return ("call", GET, [l, i])


def inc(v):
    return asg(v, ("op", "+", ("var", v), num(1)))


def ll_programs():
    """(name, params, result, body, types)"""
    PA = [("a", "int"), ("l", LI), ("m", LI)]
    PS = [("a", "int"), ("b", "int"), ("st", SI)]
    tl, ts, tt = {"x": LI, "y": LI}, {"x": SI}, {"t": "tuple", "u": "tuple"}
    c = lt(A, num(3))
    I = ("var", "i")
    sadd, srem = (lambda s, e: ("call", "set_add", [s, e], SP)), (lambda s, e: ("call", "set_remove", [s, e], SP))
    out = [
        ("len", PA, "int", [ret(llen(L))], tl), ("len difference", PA, "int", [ret(("op", "-", llen(M), llen(L)))], tl), ("get", PA, "int", [ret(lget(L, A))], tl),
        ("get literal", PA, "int", [ret(lget(M, num(0)))], tl), ("get of get", PA, "int", [ret(lget(L, lget(M, A)))], tl), ("get expression", PA, "int", [ret(lget(L, ("op", "+", A, num(1))))], tl),
        ("append", PA, LI, [asg("l", lapp(L, A)), ret(L)], tl), ("append keeps the argument", PA, LI, [asg("x", lapp(L, A)), ret(L)], tl),
        ("append to one", PA, LI, [asg("l", lapp(L, A)), ret(M)], tl), ("append twice", PA, LI, [asg("l", lapp(lapp(L, A), num(4))), ret(L)], tl),
        ("append to other", PA, LI, [asg("m", lapp(M, A)), asg("l", lapp(L, lget(M, num(0)))), ret(L)], tl),
        ("append length", PA, "int", [asg("x", lapp(L, A)), ret(("op", "-", llen(X), llen(L)))], tl),
        ("copy then append", PA, LI, [asg("x", L), asg("l", lapp(L, A)), ret(X)], tl), ("new", PA, LI, [ret(("call", NEWL, [], LP))], tl),
        ("new then append", PA, LI, [asg("x", ("call", NEWL, [], LP)), asg("y", X), asg("x", lapp(X, A)), ret(("var", "y"))], tl),
        ("two new", PA, LI, [asg("x", ("call", NEWL, [], LP)), asg("y", ("call", NEWL, [], LP)), asg("x", lapp(X, A)), ret(lapp(("var", "y"), llen(X)))], tl),
        ("append in branch", PA, LI, [iff(c, [asg("l", lapp(L, A))]), ret(L)], tl), ("append in branches", PA, LI, [iff(c, [asg("l", lapp(L, A))], [asg("l", lapp(L, num(0)))]), ret(L)], tl),
        ("append in other branch", PA, LI, [iff(c, [asg("l", lapp(L, A))], [asg("m", lapp(M, A))]), ret(L)], tl),
        ("append before branch", PA, LI, [asg("l", lapp(L, A)), iff(c, [asg("l", lapp(L, num(1)))], [ret(L)]), ret(M)], tl),
        ("append in loop", PA, LI, [asg("i", num(0)), asg("x", ("call", NEWL, [], LP)), ("while", lt(I, llen(L)), [asg("x", lapp(X, lget(L, I))), inc("i")]), ret(X)], tl),
        ("append in loop in branch", PA, LI, [asg("i", num(0)), ("while", lt(I, llen(L)), [iff(lt(lget(L, I), A), [asg("m", lapp(M, lget(L, I)))]), inc("i")]), ret(M)], tl),
        ("set add", PS, SI, [asg("st", sadd(ST, A)), ret(ST)], ts), ("set remove", PS, SI, [asg("st", srem(ST, A)), ret(ST)], ts), ("set add or remove", PS, SI, [iff(lt(A, B), [asg("st", sadd(ST, B))], [asg("st", srem(ST, B))]), ret(ST)], ts),
        ("set add keeps the argument", PS, SI, [asg("x", sadd(ST, A)), ret(ST)], ts), ("set add and remove", PS, SI, [ret(srem(sadd(ST, A), B))], ts), ("set new", PS, SI, [ret(sadd(("call", "set_create", [], SP), A))], ts),
        ("set in loop", PS, SI, [asg("i", num(0)), ("while", lt(I, A), [asg("st", sadd(ST, I)), inc("i")]), ret(ST)], ts),
        ("tuple", PS, "int", [asg("t", ("call", TUP, [A, B], TP)), ret(("op", "-", ("call", TGET, [("var", "t"), num(0)]), ("call", TGET, [("var", "t"), num(1)])))], tt),
        ("tuples", PS, "int", [asg("t", ("call", TUP, [A, B], TP)), asg("u", ("call", TUP, [B, ("op", "*", A, A)], TP)), asg("a", num(0)), ret(("op", "-", ("call", TGET, [("var", "t"), num(1)]), ("call", TGET, [("var", "u"), num(1)])))], tt),
        ("integer sqrt", PS, "int", [ret(("call", "_Z12integer_sqrti", [A]))], {}), ("integer exp", PS, "int", [ret(("op", "-", ("call", "_Z11integer_expi", [A]), ("call", "_Z11integer_expi", [B])))], {}),
        ("integer sqrt of sum", PS, "int", [asg("a", ("call", "_Z12integer_sqrti", [("op", "+", A, B)])), ret(A)], {}),
    ]
    return out


def vec_programs():
    V = [("a", "int"), ("v", "vec"), ("w", "vec")]
    R = [("agg.result", "sret")] + V
    g, n = (lambda v, i: ("vget", v, i)), (lambda v: ("vlen", v))
    I = ("var", "i")
    out = [("vnew", "agg.result"), asg("nrvo", ("const", "false", "i1"))]
    done = [asg("nrvo", ("const", "true", "i1")), iff(("not", ("var", "nrvo")), [("expr", ("call", "_ZV1D", [("slot", "agg.result")], "void"))]), ret(None)]
    loop = lambda body: [asg("i", num(0)), ("for", ("icmpult", I, "v"), [inc("i")], body)]
    p = lambda v, e: ("vpush", v, e)
    T = {"nrvo": "bool", "x": "vec"}
    return [
        ("size", V, "int", [ret(n("v"))], T), ("size of other", V, "int", [ret(("op", "-", n("w"), n("v")))], T), ("get", V, "int", [ret(g("v", A))], T), ("get of get", V, "int", [ret(g("v", g("w", A)))], T),
        ("get literal", V, "int", [ret(g("w", num(2)))], T), ("gets", V, "int", [ret(("op", "-", g("v", num(0)), g("w", num(0))))], T),
        ("push to argument", V, "int", [p("v", A), ret(("op", "-", n("v"), n("w")))], T), ("push twice", V, "int", [p("v", A), p("v", num(3)), ret(g("v", num(0)))], T),
        ("push const reference", V, "int", [("vpush", "v", A, "_ZV1P"), ret(n("v"))], T),
        ("push in branch", V, "int", [iff(lt(A, n("v")), [p("v", A)]), ret(n("v"))], T), ("push in branches", V, "int", [iff(lt(A, n("v")), [p("v", A)], [p("w", num(1))]), ret(("op", "-", n("v"), n("w")))], T),
        ("local", V, "int", [("vnew", "x"), p("x", A), ret(g("x", num(0)))], T), ("local untouched", V, "int", [("vnew", "x"), p("v", A), ret(n("x"))], T),
        ("result empty", R, "void", out + done, T), ("result pushed", R, "void", out + [p("agg.result", A), p("agg.result", g("v", num(0)))] + done, T),
        ("result in loop", R, "void", out + loop([p("agg.result", g("v", I))]) + done, T), ("result in loop, two inputs", R, "void", out + loop([p("agg.result", ("op", "-", g("v", I), g("w", I)))]) + done, T),
        ("result in branch in loop", R, "void", out + loop([iff(lt(g("v", I), A), [p("agg.result", g("v", I))], [p("agg.result", A)])]) + done, T),
        ("sum in loop", V, "int", [asg("s", num(0))] + loop([asg("s", ("op", "+", ("var", "s"), g("v", I)))]) + [ret(("var", "s"))], T),
        ("push to local in loop", V, "int", [("vnew", "x")] + loop([p("x", g("v", I))]) + [ret(n("x"))], T),
        ("push to argument in loop", V, "int", [asg("i", num(0)), ("while", lt(I, A), [p("w", I), inc("i")]), ret(n("w"))], T),
    ]


def matrix_programs():
    V = [("a", "int"), ("u", "vec2"), ("w", "vec2"), ("x", "vec")]
    R = [("agg.result", "sret")] + V
    I, J = ("var", "i"), ("var", "j")
    row = lambda v, i: ("vget", v, i, "_ZV2G", "pointer")
    g = lambda v, i, j: ("vget", row(v, i), j)
    n = lambda v: ("vlen", v, "_ZV2S")
    rl = lambda v, i: ("raw", "trunc", "i32", [("call", "_ZV1S", [row(v, i)], "i64")], None, lambda l: l)
    T = {"r": "vec", "y": "vec2", "nrvo": "bool"}
    out = [("vnew", "agg.result", "_ZV2C"), asg("nrvo", ("const", "false", "i1"))]
    done = [asg("nrvo", ("const", "true", "i1")), iff(("not", ("var", "nrvo")), [("expr", ("call", "_ZV1D", [("slot", "agg.result")], "void"))]), ret(None)]
    d = [("expr", ("call", "_ZV1D", [("slot", "r")], "void"))]
    f = lambda k, m, b: ("for", lt(k, m), [inc(k[1])], b)
    inner = lambda e: [("vnew", "r"), asg("j", num(0)), f(J, ("var", "n"), [("vpush", "r", e, "_ZV1P")])]
    two = lambda e: [asg("m", n("u")), asg("n", rl("u", num(0))), asg("i", num(0)), f(I, ("var", "m"), inner(e) + [("vpushv", "agg.result", "r")] + d)]
    return [
        ("rows", V, "int", [ret(n("u"))], T), ("columns", V, "int", [ret(rl("u", num(0)))], T), ("element", V, "int", [ret(g("u", A, num(1)))], T), ("elements", V, "int", [ret(("op", "-", g("u", A, num(0)), g("w", num(0), A)))], T),
        ("element chosen by element", V, "int", [ret(g("u", ("vget", "x", A), num(1)))], T), ("row and vector sizes", V, "int", [ret(("op", "-", n("w"), ("vlen", "x")))], T), ("push a row", V, "int", [("vpushv", "u", "x"), ret(n("u"))], T),
        ("push a row, read another", V, "int", [("vpushv", "u", "x"), ret(g("w", A, A))], T), ("push a row, read it", V, "int", [("vpushv", "u", "x"), ret(g("u", A, A))], T),
        ("push rows", V, "int", [("vpushv", "u", "x"), ("vpush", "x", A), ("vpushv", "u", "x"), ret(n("u"))], T), ("push rows in branches", V, "int", [iff(lt(A, n("u")), [("vpushv", "u", "x")], [("vpush", "x", A)]), ret(("op", "-", n("u"), ("vlen", "x")))], T),
        ("new", R, "void", out + done, T), ("result of one row", R, "void", out + [("vnew", "r"), ("vpush", "r", A), ("vpushv", "agg.result", "r")] + done, T),
        ("local", V, "int", [("vnew", "y", "_ZV2C"), ("vpushv", "y", "x"), ret(("op", "-", n("y"), n("u")))], T), ("local in loop", V, "int", [("vnew", "y", "_ZV2C"), asg("i", num(0)), f(I, A, [("vpushv", "y", "x")]), ret(n("y"))], T),
        ("two loops", R, "void", out + two(g("u", I, J)) + done, T), ("two loops, two inputs", R, "void", out + two(("op", "-", g("u", I, J), g("w", I, J))) + done, T),
        ("sum of a row", V, "int", [asg("s", num(0)), asg("j", num(0)), f(J, rl("u", A), [asg("s", ("op", "+", ("var", "s"), g("u", A, J)))]), ret(("var", "s"))], T),
        ("product", R, "void", [("vnew", "agg.result"), asg("nrvo", ("const", "false", "i1")), asg("m", n("u")), asg("i", num(0)), f(I, ("var", "m"), [asg("s", num(0)), asg("j", num(0)), f(J, ("vlen", "x"), [asg("s", ("op", "+", ("var", "s"), ("op", "*", g("u", I, J), ("vget", "x", J))))]), ("vpush", "agg.result", ("var", "s"), "_ZV1P")])] + done, T),
    ]


def tensor_programs():
    V = [("a", "int"), ("t", "vec3"), ("u", "vec2"), ("x", "vec")]
    R = [("agg.result", "sret")] + V
    I = ("var", "i")
    mat = lambda v, i: ("vget", v, i, "_ZV3G", "pointer")
    row = lambda m, i: ("vget", m, i, "_ZV2G", "pointer")
    el = lambda v, i, j, k: ("vget", row(mat(v, i), j), k)
    n = lambda v: ("vlen", v, "_ZV3S")
    mlen = lambda v, i: ("raw", "trunc", "i32", [("call", "_ZV2S", [mat(v, i)], "i64")], None, lambda l: l)
    T = {"y": "vec3", "z": "vec3", "nrvo": "bool"}
    push = lambda v, m: ("vpushv", v, m, "_ZV3P")
    new = lambda v: ("vnew", v, "_ZV3C")
    out = [new("agg.result"), asg("nrvo", ("const", "false", "i1"))]
    done = [asg("nrvo", ("const", "true", "i1")), iff(("not", ("var", "nrvo")), [("expr", ("call", "_ZV1D", [("slot", "agg.result")], "void"))]), ret(None)]
    f = lambda k, m, b: ("for", lt(k, m), [inc(k[1])], b)
    return [
        ("size", V, "int", [ret(n("t"))], T), ("sizes", V, "int", [ret(("op", "-", n("t"), ("op", "-", ("vlen", "u", "_ZV2S"), ("vlen", "x"))))], T), ("rows of a matrix", V, "int", [ret(mlen("t", A))], T),
        ("element", V, "int", [ret(el("t", A, num(1), num(2)))], T), ("element of the matrix", V, "int", [ret(("op", "-", el("t", num(0), A, num(1)), ("vget", row("u", A), num(1))))], T),
        ("push a matrix", V, "int", [push("t", "u"), ret(n("t"))], T), ("push a matrix, read it", V, "int", [push("t", "u"), ret(el("t", A, A, A))], T), ("push in branches", V, "int", [iff(lt(A, n("t")), [push("t", "u")], [("vpushv", "u", "x")]), ret(("op", "-", n("t"), ("vlen", "u", "_ZV2S")))], T),
        ("push a row, then the matrix", V, "int", [("vpushv", "u", "x"), push("t", "u"), ("vpushv", "u", "x"), ret(n("t"))], T),
        ("local", V, "int", [new("y"), push("y", "u"), ret(("op", "-", n("y"), n("t")))], T), ("two locals", V, "int", [new("y"), new("z"), push("z", "u"), ret(("op", "-", n("y"), n("z")))], T),
        ("local in loop", V, "int", [new("y"), asg("i", num(0)), f(I, A, [push("y", "u")]), ret(n("y"))], T),
        ("new", R, "void", out + done, T), ("result of one matrix", R, "void", out + [push("agg.result", "u")] + done, T),
        ("result in loop", R, "void", out + [asg("i", num(0)), f(I, A, [push("agg.result", "u")])] + done, T),
        ("sum in loop", V, "int", [asg("s", num(0)), asg("i", num(0)), f(I, n("t"), [asg("s", ("op", "+", ("var", "s"), el("t", I, num(0), A)))]), ret(("var", "s"))], T),
    ]


def llvm(ctx):
    lf = LLFront(ctx)
    lf.demangle.update({"_Z12integer_sqrti": "integer_sqrt(int)", "_Z11integer_expi": "integer_exp(int)", "_Z1fi": "f(int)", "_Z1gii": "g(int, int)"})
    w = ctx.where(ctx.lookup(LF + ":VCVisitor.visit_call_instruction"))
    for n, params, rt, body, types in ll_programs():
        decide_ll(ctx, lf, "ll/" + n, params, body, w, types=types, ret=rt)
        decide_ll(ctx, lf, "ll/one return/" + n, params, body, w, types=types, ret=rt, style="clang")
    for n, params, rt, body, types in vec_programs():
        decide_ll(ctx, lf, "ll/vector/" + n, params, body, w, types=types, ret=rt)
    for n, params, rt, body, types in matrix_programs():
        decide_ll(ctx, lf, "ll/matrix/" + n, params, body, w, types=types, ret=rt)
    for n, params, rt, body, types in tensor_programs():
        decide_ll(ctx, lf, "ll/tensor/" + n, params, body, w, types=types, ret=rt)
    P2 = [("a", "int"), ("b", "int")]
    for f, g in (("f", "g"), ("_Z1fi", "_Z1gii")):
        F, G = (lambda x: ("call", f, [x])), (lambda x, y: ("call", g, [x, y]))
        for n, e in (("one", F(A)), ("two", G(B, A)), ("nested", F(G(A, F(B)))), ("in arithmetic", ("op", "-", F(A), G(A, B)))):
            decide_ll(ctx, lf, "ll/uninterpreted %s %s" % (f, n), P2, [asg("x", e), asg("a", num(0)), ret(X)], w, uninterp=("f", "g"))
    decide_ll(ctx, lf, "ll/membership", [("a", "int"), ("st", SI)], [iff(("cmp", ["=="], [("call", "set_contains", [ST, A]), ("const", "true", "i1")]), [ret(num(1))]), ret(num(2))], w)
    for n, body, params in (("push through a loaded reference", [("expr", ("call", "_ZV1M", [("raw", "load", VEC + "*", [("slot", "v")], None, None), ("slot", "i")], "void")), ret(A)], [("a", "int"), ("v", "vec")]),
                            ("list operation with too few arguments", [ret(("call", GET, [L]))], [("a", "int"), ("l", LI)]), ("list operation with too many arguments", [ret(("call", LEN, [L, A]))], [("a", "int"), ("l", LI)]),
                            ("set operation with too few arguments", [ret(("call", "set_add", [ST], SP))], [("a", "int"), ("st", SI)]),
                            ("length of an integer", [ret(("call", LEN, [A]))], [("a", "int")]), ("element of an integer", [ret(("call", GET, [A, A]))], [("a", "int")])):
        decide_ll(ctx, lf, "ll/rejected " + n, params, [asg("i", num(0))] + body, w, reject="this call")


def run(ctx):
    ctx.rule("Python front end: list, set, tuple and uninterpreted operations, alone, in branches and in loops, yield the reference obligations, "
             "with mutations written to the variable they are called on and to no other")
    ctx.rule("LLVM front end: calls of the list, set and tuple headers, of std::vector (construction, size, push_back, indexing) and of uninterpreted functions, alone, in branches, "
             "in loops and into a struct result, yield the reference obligations of their operations")
    python(ctx)
    llvm(ctx)
    legacy(ctx)


# ---------------------------------------------------------------- the models of metalift/models.py, called directly
def legacy(ctx):
    """metalift.models: every entry of the registry, receivers and arguments in registers or behind pointers"""
    lf = LLFront(ctx)
    h, it = lf.h, lf.it
    MOD = "metalift.models"
    try:
        it.load_module(MOD)
    except Exception as e:      # noqa
        ctx.unknown("models/load", "metalift/models.py cannot be read: %s" % e, "metalift/models.py")
        return
    TYP = {"l": ("List", "Int"), "m": ("List", "Int"), "s": ("Set", "Int"), "i": "Int", "j": "Int", "k": "Int", "p": ("Tuple", "Int", "Int")}
    expr = {}

    def put(d, n):
        t = TYP[n]
        e = h.base(lambda: h.mk("Var", K(n), h.ty(t)))
        expr[n] = ("Var", n)
        o = h.mk(t, e) if isinstance(t, str) else h.mk("Tuple", Tup([h.ty(x) for x in t[1:]]), e) if t[0] == "Tuple" else h.mk(t[0], h.ty(t[1]), e)
        it.setitem(d, K(n), o)

    def C(name, *a):
        return ("Call", name) + a
    l, m, s, i, j, k, p = (("v", n) for n in "lmsijkp")
    lit = lambda n: ("Lit", n)
    # name in the registry -> arguments, value, assignments
    want = {
        "newList": ([], C("list_empty"), None), "listLength": ("l", C("list_length", l), None), "listAppend": ("li", C("list_append", l, i), None), "listGet": ("li", C("list_get", l, i), None),
        "vector": ("l", None, [("l", C("list_empty"))]), "size": ("l", C("list_length", l), None), "push_back": ("li", None, [("l", C("list_append", l, i))]), "operator[]": ("li", C("list_get", l, i), None),
        "set_create": ([], C("set-create"), None), "set_add": ("si", C("set-insert", i, s), None), "set_remove": ("si", C("set-minus", s, C("set-singleton", i)), None), "set_contains": ("si", C("set-member", i, s), None),
        "MakeTuple": ("ijk", C("make-tuple", i, j, k), None), "tupleGet": ("p1", C("tupleGet", p, lit(1)), None),
    }
    more = [("MakeTuple", "ji", C("make-tuple", j, i), None), ("tupleGet", "p0", C("tupleGet", p, lit(0)), None), ("listAppend", "lj", C("list_append", l, j), None), ("list_concat", "lm", C("list_concat", l, m), None), ("list_concat", "ml", C("list_concat", m, l), None)]
    names = [(n,) + v for n, v in want.items()] + more
    for n, args, val, assigns in names:
        for mode in ("registers", "pointers") + (("first behind a pointer", "second behind a pointer") if n in ("list_concat", "listAppend", "push_back") else ()):

            def go(it_, n=n, args=args, mode=mode):
                lf.tys = {}
                prim, ptr, glob = it.alloc(HDict([])), it.alloc(HDict([])), it.alloc(HDict([]))
                vals = []
                for at, a in enumerate(args):
                    if a.isdigit():
                        vals.append(lf.value("", "i32", "i32 " + a))
                        continue
                    compound = isinstance(TYP[a], tuple)
                    ptrd = compound and mode == "pointers" or mode == "%s behind a pointer" % ("first", "second")[at > 0]
                    put(ptr if ptrd else prim, a)
                    if compound:      # the other home holds something else of the same name
                        other = prim if ptrd else ptr
                        e = h.mk("Var", K("wrong_" + a), h.ty(TYP[a]))
                        t = TYP[a]
                        it.setitem(other, K(a), h.mk("Tuple", Tup([h.ty(x) for x in t[1:]]), e) if t[0] == "Tuple" else h.mk(t[0], h.ty(t[1]), e))
                    vals.append(lf.value(a, {"List": "%struct.list*", "Set": "%struct.set*", "Tuple": "%struct.tup*", "I": "i32*"}[TYP[a][0]] if ptrd else "i32", "%" + a))
                f = it.lookup(MOD + ":" + n) if n == "list_concat" else it.getitem(it.lookup(MOD + ":fn_models"), K(n))
                r = it.call(f, [prim, ptr, glob] + vals, {})
                v, asg_ = it.getattr(r, "val"), it.getattr(r, "assigns")
                homes = tuple((q.v, h.reify(x)) for d in (prim, ptr) for q, x in it.get(d).items)
                return h.reify(v), h.reify(asg_), homes

            def expect(v, r, n=n, val=val, assigns=assigns):
                got, asg_, homes = v
                ren = lambda t: ("Var", t[1]) if isinstance(t, tuple) and t[:1] == ("v",) else tuple(ren(x) for x in t) if isinstance(t, tuple) else t
                c = strip(canon(got)) if got != NONE else None
                if c != (ctuple(ren(val)) if val is not None else None):
                    return "%s yields %s, expected %s" % (n, ctext(c) if c is not None else None, ctext(ren(val)) if val is not None else None)
                done = [] if asg_ == NONE or not asg_ else [(x[0].v, strip(canon(x[1]))) for x in asg_]
                if asg_ != NONE and any(len(x) != 3 or x[2] != K("primitive") for x in asg_ or ()):
                    return "%s writes its result to %s" % (n, [x[2] for x in asg_])
                if done != [(q, ctuple(ren(x))) for q, x in assigns or ()]:
                    return "%s writes %s, expected %s" % (n, [(q, ctext(x)) for q, x in done], [(q, ctext(ren(x))) for q, x in assigns or ()])
                for q, x in homes:
                    if strip(canon(x)) not in (("Var", q), ("Var", "wrong_" + q)):
                        return "%s changes the variable %s to %s" % (n, q, ctext(strip(canon(x))))
                return None
            h.decide("models/%s/%s/%s" % (n, "".join(args), mode), go, expect, "metalift/models.py")
    # the registry of the LLVM front end is called with (state, globals, demangled name, operands...)
    reg = it.lookup(LF + ":fn_models")
    for n, k_ in (("getField", 2), ("setField", 3)):
        def field(it_, n=n, k_=k_):
            lf.tys = {}
            glob = it.alloc(HDict([]))
            state = it.call(it.lookup(LF + ":State"), [], {})
            for q in ("o", "i"):
                it.call(it.getattr(state, "write_var"), [K(q), h.opnd(q)], {})
            ops = [h.mk("Lit", K("x"), h.ty("Int")), lf.value("o", "%struct.o*", "%o"), lf.value("i", "i32", "%i")]
            r = it.call(it.getitem(reg, K(n)), [state, glob, K(n)] + ops[:k_], {})
            return h.reify(it.getattr(r, "val"))
        h.decide("models/registered %s" % n, field, lambda v, r: None, "metalift/frontend/llvm.py")
    # struct fields: get and set by index, also of the LLVM front end's copies
    for mod in (MOD, LF):
        for fld in (0, 1, 2):
            def go(it_, mod=mod, fld=fld):
                lf.tys = {}
                prim, ptr, glob = (it.alloc(HDict([])) for _ in range(3))
                put(prim, "i")
                parts = [h.opnd(x) for x in ("x", "y", "z")]
                o = h.mk("TupleExpr", *parts)
                it.mut(o).fields["args"] = it.new_list(list(parts))
                it.setitem(ptr, K("o"), o)
                it.setitem(prim, K("o"), h.opnd("wrong"))
                ov, iv, fv = lf.value("o", "%struct.o*", "%o"), lf.value("i", "i32", "%i"), h.fn("IntLit", K(fld))
                was = it.getattr(it.call(it.lookup(mod + ":get_field"), [prim, ptr, glob, fv, ov], {}), "val")
                r = it.call(it.lookup(mod + ":set_field"), [prim, ptr, glob, fv, ov, iv], {})
                now = [it.getattr(it.call(it.lookup(mod + ":get_field"), [prim, ptr, glob, h.fn("IntLit", K(q)), ov], {}), "val") for q in range(3)]
                return was is parts[fld] or was == parts[fld], tuple("new" if x == it.getitem(prim, K("i")) else "old" if x == parts[q] else "?" for q, x in enumerate(now)), (it.getattr(r, "val"), it.getattr(r, "assigns"))

            def expect(v, r, fld=fld):
                ok, now, res = v
                if not ok:
                    return "get_field does not yield field %d" % fld
                if now != tuple("new" if q == fld else "old" for q in range(3)):
                    return "after set_field of field %d the fields are %s" % (fld, now)
                return None if res == (NONE, NONE) else "set_field yields %s" % (res,)
            h.decide("models/%s fields/%d" % (mod.split(".")[-1], fld), go, expect, "metalift/models.py" if mod == MOD else "metalift/frontend/llvm.py")


def strip(c):
    """literals and variables without their class of construction: Lit(2), IntLit(2); the type of a Var is not an operand"""
    if isinstance(c, tuple) and c:
        if c[0] in ("IntLit", "BoolLit", "Lit"):
            return ("Lit", c[1])
        if c[0] == "Var":
            return ("Var", c[1])
        return tuple(strip(x) for x in c)
    return c
