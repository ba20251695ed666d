"""P01: SMT-LIB text of expressions."""
from ..irh import *  # noqa
from ..values import *  # noqa

FLOOR = 380
SIMPLE = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "div", "Mod": "mod", "Eq": "=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=",
          "And": "and", "Or": "or", "Not": "not", "Implies": "=>", "Ite": "ite", "Assert": "assert", "Constraint": "constraint"}
NARY = (1, 2, 3, 5, 7)
INT, BOOL, LI, LB, MI, SI = "Int", "Bool", ("List", "Int"), ("List", "Bool"), ("Matrix", "Int"), ("Set", "Int")
LLI, T2, T3, SL = ("List", ("List", "Int")), ("Tuple", "Int", "Bool"), ("Tuple", "Int", ("List", "Int"), "Bool"), ("Set", ("List", "Int"))
SHAPES = {
    "Add": [[INT] * n for n in NARY], "Mul": [[INT] * n for n in NARY],
    "Sub": [[INT, INT]], "Div": [[INT, INT]], "Mod": [[INT, INT]],
    "Eq": [[t, t] for t in (INT, BOOL, LI, MI, SI, T2, LLI)],
    "Lt": [[INT, INT]], "Le": [[INT, INT]], "Gt": [[INT, INT]], "Ge": [[INT, INT]],
    "And": [[BOOL] * n for n in NARY], "Or": [[BOOL] * n for n in NARY], "Not": [[BOOL]], "Implies": [[BOOL, BOOL]],
    "Ite": [[BOOL, t, t] for t in (INT, BOOL, LI, MI, SI, T2)],
    "Assert": [[BOOL]], "Constraint": [[BOOL]],
}
METH = ("toSMT", "var")


def sort(s):
    if isinstance(s, str):
        return s
    if s[0] == "List":
        return ["MLList", sort(s[1])]
    if s[0] == "Matrix":
        return ["MLList", ["MLList", sort(s[1])]]
    if s[0] == "Tensor3D":
        return ["MLList", ["MLList", ["MLList", sort(s[1])]]]
    if s[0] == "Set":
        return ["Set", sort(s[1])]
    if s[0] == "Tuple":
        return ["Tuple%d" % (len(s) - 1)] + [sort(x) for x in s[1:]]
    raise KeyError(s)


def tname(s):
    return s if isinstance(s, str) else "".join([s[0]] + [tname(x) for x in s[1:]])


def skey(shape):
    return "%d" % len(shape) + ("" if all(isinstance(s, str) for s in shape) else "-" + tname(shape[-1]))


def text_obl(h, key, build, want, methods=METH, printer="toSMT", where=None, callargs=(), names=()):
    """want: tree (or function of the result) that the printed text must read as"""
    ctx = h.ctx

    def go(it):
        n = build()
        return h.meth(n, printer, *callargs)

    def expect(v, r):
        t = sexpr(v, methods)
        if isinstance(t, str):
            return "?" + t if r.approx else t
        w = want(r) if callable(want) else want
        if w is None:
            return None
        alts = w if isinstance(w, Alt) else Alt([w])
        top = [norm(x) for x in t]
        for a in alts.alts:
            a = a if isinstance(a, Forms) else Forms([a])
            if tree_eq(top, [norm(x) for x in a.forms]):
                return None
        msg = "prints %s, expected %s" % (" ".join(map(tree_text, t)), " | ".join(tree_text(a) if not isinstance(a, Forms) else " ".join(map(tree_text, a.forms)) for a in alts.alts))
        return "?" + msg if r.approx else msg
    h.decide(key, go, expect, where, skip=(lambda r: fixed_names(r, names)) if names else None)


class Alt:
    def __init__(self, alts):
        self.alts = alts


class Forms:
    def __init__(self, forms):
        self.forms = forms


def ops(h, shape, pre="a"):
    return [h.opnd("%s%d" % (pre, i), t) for i, t in enumerate(shape)]


def run(ctx):
    h = IRH(ctx)
    ctx.rule("the text printed by toSMT for a node built by its own constructor from opaque operands reads, as an s-expression, as the operator of the same meaning applied to the recursive renderings of all operands once and in order")
    for k, op in SIMPLE.items():
        for shape in SHAPES[k]:
            a = ops(h, shape)
            text_obl(h, "smt/%s/%s" % (k, skey(shape)), lambda: h.mk(k, *a), [op] + [L(x) for x in a], where=h.loc(k + ".toSMT"))
    # nested: the operand is itself a known node (no flattening or reordering across levels)
    for outer in ("Add", "Sub", "Mul", "And", "Or", "Not", "Implies", "Ite", "Eq", "Lt"):
        for inner in ("Add", "Sub", "Mul", "And", "Or", "Not", "Implies", "Ite", "Eq", "Lt", "Gt"):
            os_, is_ = SHAPES[outer][min(1, len(SHAPES[outer]) - 1)], SHAPES[inner][min(1, len(SHAPES[inner]) - 1)]
            rt = "Int" if inner in ("Add", "Sub", "Mul") else "Bool"
            if outer in ("Ite", "Eq") and rt == "Bool":
                os_ = ["Bool"] * len(os_)
            for pos, t in enumerate(os_):
                if t != rt or (inner == "Ite"):
                    continue
                a, b = ops(h, os_), ops(h, is_, "b")

                def build():
                    n = h.mk(inner, *b)
                    return h.mk(outer, *[n if i == pos else x for i, x in enumerate(a)])
                it_ = [SIMPLE[inner]] + [L(x) for x in b]
                text_obl(h, "smt/nest/%s.%d/%s" % (outer, pos, inner), build, [SIMPLE[outer]] + [it_ if i == pos else L(x) for i, x in enumerate(a)], where=h.loc(outer + ".toSMT"))
    # literals, variables
    for v in (0, 1, 7, 42, 123456789):
        text_obl(h, "smt/Lit/int%d" % v, lambda: h.fn("IntLit", K(v)), str(v), where=h.loc("Lit.toSMT"))
    for v in (-1, -17):
        text_obl(h, "smt/Lit/negative%d" % -v, lambda: h.fn("IntLit", K(v)), ["-", str(-v)], where=h.loc("Lit.toSMT"))
    for v in (True, False):
        text_obl(h, "smt/Lit/%s" % str(v).lower(), lambda: h.fn("BoolLit", K(v)), "true" if v else "false", where=h.loc("Lit.toSMT"))
    nm = h.name("x")
    for t in (INT, BOOL, LI, MI, SI, T2):
        text_obl(h, "smt/Var/%s" % tname(t), lambda: h.mk("Var", nm, h.ty(t)), nm, where=h.loc("Var.toSMT"))
        text_obl(h, "smt/NonTerm/%s" % tname(t), lambda: h.mk("NonTerm", h.ty(t), K(False), nm), nm, where=h.loc("Var.toSMT")) if False else None
    # let
    v, e, b = h.opnd("v"), h.opnd("e"), h.opnd("b", BOOL)
    text_obl(h, "smt/Let", lambda: h.mk("Let", v, e, b), ["let", [[L(v), L(e)]], L(b)], where=h.loc("Let.toSMT"))
    # calls
    calls(h)
    tuples(h)
    decls(h)
    axioms(h)
    choose(h)
    ctx.stat("kinds", len(SIMPLE) + 14)


FIXED = {"list_eq": "=", "set-union": "set.union", "set-minus": "set.minus", "set-insert": "set.insert", "set-singleton": "set.singleton",
         "set-member": "set.member", "set-subset": "set.subset", "set-inter": "set.inter", "map-get": "map_get", "map-insert": "map_insert", "map-union": "map_union",
         "map-singleton": "map_singleton", "map-eq": "map_eq", "map-minus": "map_minus"}
PLAIN = ["list_get", "list_length", "list_append", "list_prepend", "list_tail", "list_take", "list_concat", "matrix_get", "matrix_length", "matrix_tail", "matrix_take",
         "matrix_append", "matrix_prepend", "vec_slice", "matrix_row_slice", "matrix_col_slice", "matrix_transpose", "integer_sqrt", "integer_exp", "inv0", "f_ps", "ps", "list_head", "vec_map", "reduce_sum"]


def head_of(name):
    if name in FIXED:
        return FIXED[name]
    return name


def calls(h):
    w = h.loc("Call.toSMT")
    for kind in ("Call",):
        for n in (1, 2, 3, 5):
            a = ops(h, [INT, LI, BOOL, INT, SI][:n])
            f = h.name("f")

            text_obl(h, "smt/Call/any-name/%d" % n, lambda: h.mk("Call", f, h.ty(INT), *a), [f] + [L(x) for x in a], where=w, names=[f])
    for name in list(FIXED) + PLAIN:
        for n in (1, 2, 3):
            a = ops(h, [LI, LI, LI][:n])
            text_obl(h, "smt/Call/%s/%d" % (name, n), lambda: h.mk("Call", K(name), h.ty(INT), *a), [head_of(name)] + [L(x) for x in a], where=w)
    for name in ("list_empty", "matrix_empty", "tensor3d_empty", "g"):
        text_obl(h, "smt/Call/%s/0" % name, lambda: h.mk("Call", K(name), h.ty(LI)), name, where=w)
    for t in (SI, ("Set", "Bool"), SL, ("Set", ("Tuple", "Int", "Int"))):
        text_obl(h, "smt/Call/set-create/%s" % tname(t), lambda: h.mk("Call", K("set-create"), h.ty(t)), ["as", "set.empty", sort(t)], where=w)
    for n in (1, 2, 3, 4):
        a = ops(h, [INT] * n)
        text_obl(h, "smt/Call/make-tuple/%d" % n, lambda: h.mk("Call", K("make-tuple"), h.ty(T2), *a), ["tuple%d" % n] + [L(x) for x in a], where=w)
    # calling a function value
    for n in (1, 2, 3):
        a = ops(h, [INT, BOOL, LI][:n])
        fv = h.it.sym("fv%d" % n, h.Expr, type=h.ty(("Fn", INT) + tuple([INT, BOOL, LI][:n])))
        text_obl(h, "smt/CallValue/%d" % n, lambda: h.mk("CallValue", fv, *a), [L(fv)] + [L(x) for x in a], where=h.loc("CallValue.toSMT"))


def tuples(h):
    for n in (1, 2, 3, 5):
        a = ops(h, [INT, BOOL, LI, SI, INT][:n])
        text_obl(h, "smt/TupleExpr/%d" % n, lambda: h.mk("TupleExpr", *a), ["tuple%d" % n] + [L(x) for x in a], where=h.loc("TupleExpr.toSMT"))
    for n in (2, 3, 4):
        tt = ("Tuple",) + (INT,) * n
        for i in range(n):
            a = ops(h, [INT] * n)
            nm = h.name("t")
            w = h.loc("Call.toSMT")
            get = "tuple%d_get%d" % (n, i)
            text_obl(h, "smt/tupleGet/var/%d.%d" % (n, i), lambda: h.mk("Call", K("tupleGet"), h.ty(INT), h.mk("Var", nm, h.ty(tt)), h.fn("IntLit", K(i))), [get, nm], where=w, names=[nm])
            text_obl(h, "smt/tupleGet/expr/%d.%d" % (n, i), lambda: h.mk("Call", K("tupleGet"), h.ty(INT), h.mk("TupleExpr", *a), h.fn("IntLit", K(i))),
                     [get, ["tuple%d" % n] + [L(x) for x in a]], where=w)
            text_obl(h, "smt/tupleGet/make/%d.%d" % (n, i), lambda: h.mk("Call", K("tupleGet"), h.ty(INT), h.mk("Call", K("make-tuple"), h.ty(tt), *a), h.fn("IntLit", K(i))),
                     [get, ["tuple%d" % n] + [L(x) for x in a]], where=w)
            text_obl(h, "smt/tupleGet/call/%d.%d" % (n, i), lambda: h.mk("Call", K("tupleGet"), h.ty(INT), h.mk("Call", K("g"), h.ty(tt), *a), h.fn("IntLit", K(i))),
                     [get, ["g"] + [L(x) for x in a]], where=w)
            text_obl(h, "smt/TupleGet/%d.%d" % (n, i), lambda: h.mk("TupleGet", h.mk("Var", nm, h.ty(tt)), h.fn("IntLit", K(i))), [get, nm], where=h.loc("TupleGet.toSMT"))


def decls(h):
    sigs = [(INT, []), (INT, [INT]), (BOOL, [INT, LI]), (LI, [LI, INT, BOOL]), (MI, [MI]), (SI, [SI, INT]), (T2, [T2, LLI]), (BOOL, [INT, INT, INT, LI, SI])]
    for cn, kw in (("FnDecl", "define-fun"), ("FnDeclRecursive", "define-fun-rec")):
        w = h.loc(cn + ".toSMT")
        for i, (rt, ats) in enumerate(sigs):
            f = h.name("f")
            names = [h.name("p%d" % j) for j in range(len(ats))]
            body = h.opnd("body", rt)

            def mkd(b):
                return h.mk(cn, f, h.ty(rt), b, *[h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)])
            params = [[n, sort(t)] for n, t in zip(names, ats)]
            text_obl(h, "smt/%s/sig%d" % (cn, i), lambda: mkd(body), [kw, f, params, sort(rt), L(body)], where=w)
            text_obl(h, "smt/%s/uninterpreted%d" % (cn, i), lambda: mkd(NONE), ["declare-fun", f, [sort(t) for t in ats], sort(rt)], where=w)


def axioms(h):
    for i, ts in enumerate(([INT], [INT, BOOL], [LI, MI, INT], [SI, LI, T2, INT])):
        names = [h.name("q%d" % j) for j in range(len(ts))]
        body = h.opnd("body", BOOL)
        text_obl(h, "smt/Axiom/%d" % len(ts), lambda: h.mk("Axiom", body, *[h.mk("Var", n, h.ty(t)) for n, t in zip(names, ts)]),
                 ["assert", ["forall", [[n, sort(t)] for n, t in zip(names, ts)], L(body)]], where=h.loc("Axiom.toSMT"))


def choose(h):
    for n in (1, 2, 3, 5):
        for t in (INT, BOOL, LI):
            a = ops(h, [t] * n)
            text_obl(h, "smt/Choose/%d/%s" % (n, tname(t)), lambda: h.mk("Choose", *a), [L(x) for x in a], where=h.loc("Choose.toSMT"))
    w = h.loc("Synth.toSMT")
    # a synthesis function: rv and one nonterminal per distinct choice
    for rt in (INT, BOOL):
        for ats in ([], [INT], [INT, LI, BOOL]):
            names = [h.name("p%d" % j) for j in range(len(ats))]

            def build():
                vs = [h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)]
                x, y, z = (h.mk("Var", K(s), h.ty(rt)) for s in "xyz")
                c1 = h.mk("Choose", x, y)
                if rt == INT:
                    body = h.mk("Add", c1, h.mk("Sub", c1, z))
                else:
                    body = h.mk("And", c1, h.mk("Not", c1), z)
                return h.mk("Synth", h.name("f"), body, *vs)
            inner = ["+", "v0", ["-", "v0", "z"]] if rt == INT else ["and", "v0", ["not", "v0"], "z"]
            text_obl(h, "smt/Synth/%s/%d" % (rt, len(ats)), build,
                     ["synth-fun", h.name("f"), [[n, sort(t)] for n, t in zip(names, ats)], rt, [["rv", rt], ["v0", rt]], [["rv", rt, [inner]], ["v0", rt, ["x", "y"]]]], where=w)

    def build2():
        x, y, z = (h.mk("Var", K(s), h.ty(INT)) for s in "xyz")
        b = h.mk("Var", K("b"), h.ty(BOOL))
        c1 = h.mk("Choose", x, y)
        c2 = h.mk("Choose", h.mk("Add", c1, z), z, h.fn("IntLit", K(3)))
        c3 = h.mk("Choose", b, h.mk("Lt", c2, c1))
        return h.mk("Synth", h.name("f"), h.mk("Ite", c3, c2, c1), x)
    text_obl(h, "smt/Synth/nested", build2,
             lambda r: ["synth-fun", h.name("f"), [["x", "Int"]], "Int", [["rv", "Int"], ["v0", "Bool"], ["v1", "Int"], ["v2", "Int"]],
                        [["rv", "Int", [["ite", "v0", "v1", "v2"]]], ["v0", "Bool", ["b", ["<", "v1", "v2"]]], ["v1", "Int", [["+", "v2", "z"], "z", "3"]], ["v2", "Int", ["x", "y"]]]], where=w)

    def build3():
        x, y = (h.mk("Var", K(s), h.ty(INT)) for s in "xy")
        return h.mk("Synth", h.name("f"), h.mk("Choose", x, y, h.mk("Add", x, y)), x, y)
    text_obl(h, "smt/Synth/top-choice", build3,
             Alt([["synth-fun", h.name("f"), [["x", "Int"], ["y", "Int"]], "Int", [["rv", "Int"], ["v0", "Int"]], [["rv", "Int", ["v0"]], ["v0", "Int", ["x", "y", ["+", "x", "y"]]]]]]), where=w)
