"""P02: Rosette text of expressions."""
from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import SHAPES, NARY, INT, BOOL, LI, LB, MI, SI, LLI, T2, T3, ops, skey, tname, text_obl, Alt, Forms

FLOOR = 330
SIMPLE = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "quotient-noerr", "Mod": "remainder", "Eq": "equal?", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=",
          "And": "&&", "Or": "or", "Not": "!", "Implies": "=>", "Ite": "if", "Assert": "assert"}
SPELL = {"Or": ["or", "||"], "And": ["&&"]}
METH = ("to_rosette", "var")
LISTFN = {
    "list_get": "list-ref-noerr", "matrix_get": "matrix-ref-noerr", "tensor3d_get": "tensor3d-ref-noerr",
    "list_append": "list-append", "matrix_append": "matrix-append", "tensor3d_append": "tensor3d-append",
    "list_empty": "list-empty", "matrix_empty": "matrix-empty", "tensor3d_empty": "tensor3d-empty",
    "list_tail": "list-tail-noerr", "matrix_tail": "matrix-tail-noerr", "tensor3d_tail": "tensor3d-tail-noerr",
    "list_length": "length", "matrix_length": "matrix-length", "tensor3d_length": "tensor3d-length",
    "list_take": "list-take-noerr", "matrix_take": "matrix-take-noerr", "tensor3d_take": "tensor3d-take-noerr",
    "vec_slice": "vec-slice-noerr", "matrix_row_slice": "matrix-row-slice-noerr", "tensor3d_slice": "tensor3d-slice-noerr",
    "vec_slice_with_length": "vec-slice-with-length-noerr", "matrix_row_slice_with_length": "matrix-row-slice-with-length-noerr",
    "tensor3d_slice_with_length": "tensor3d-slice-with-length-noerr",
    "matrix_col_slice": "matrix-col-slice-noerr", "matrix_col_slice_with_length": "matrix-col-slice-with-length-noerr",
    "list_prepend": "list-prepend", "matrix_prepend": "matrix-prepend", "tensor3d_prepend": "tensor3d-prepend",
    "list_eq": "equal?", "list_concat": "list-concat", "matrix_transpose": "matrix-transpose-noerr",
    "integer_sqrt": "integer-sqrt-noerr", "integer_exp": "integer-exp-noerr",
}
SETFN = ["set-union", "set-insert", "set-minus", "set-singleton", "set-member", "set-subset", "set-eq", "map-get", "map-insert", "make-tuple", "tupleGet"]


def rtext(h, key, build, want, where=None, names=(), callargs=()):
    text_obl(h, key, build, want, methods=METH, printer="to_rosette", where=where, names=names, callargs=callargs)


def run(ctx):
    h = IRH(ctx)
    ctx.rule("the text printed by to_rosette for a node built by its own constructor from opaque operands reads, as an s-expression, as the library operator of the same meaning applied to the recursive renderings of all operands once and in order")
    for k, op in SIMPLE.items():
        for shape in SHAPES[k]:
            a = ops(h, shape)
            o = [op]
            if k == "Eq" and shape[0] == SI:
                o = ["set-eq"]
            o = SPELL.get(k, o)
            rtext(h, "ros/%s/%s" % (k, skey(shape)), lambda: h.mk(k, *a), Alt([[s] + [L(x) for x in a] for s in o]), where=h.loc(k + ".to_rosette"))
    for outer in ("Add", "Sub", "Mul", "And", "Or", "Not", "Implies", "Ite", "Eq", "Lt"):
        for inner in ("Add", "Sub", "Mul", "And", "Or", "Not", "Implies", "Eq", "Lt", "Gt"):
            os_, is_ = SHAPES[outer][min(1, len(SHAPES[outer]) - 1)], SHAPES[inner][min(1, len(SHAPES[inner]) - 1)]
            rt = "Int" if inner in ("Add", "Sub", "Mul") else "Bool"
            if outer in ("Ite", "Eq") and rt == "Bool":
                os_ = ["Bool"] * len(os_)
            for pos, t in enumerate(os_):
                if t != rt:
                    continue
                a, b = ops(h, os_), ops(h, is_, "b")

                def build():
                    n = h.mk(inner, *b)
                    return h.mk(outer, *[n if i == pos else x for i, x in enumerate(a)])
                alts = []
                for so in SPELL.get(outer, [SIMPLE[outer]]):
                    for si in SPELL.get(inner, [SIMPLE[inner]]):
                        it_ = [si] + [L(x) for x in b]
                        alts.append([so] + [it_ if i == pos else L(x) for i, x in enumerate(a)])
                rtext(h, "ros/nest/%s.%d/%s" % (outer, pos, inner), build, Alt(alts), where=h.loc(outer + ".to_rosette"))
    for v in (0, 1, 7, -3, 123456789):
        rtext(h, "ros/Lit/int%d" % v, lambda: h.fn("IntLit", K(v)), str(v), where=h.loc("Lit.to_rosette"))
    for v in (True, False):
        rtext(h, "ros/Lit/%s" % str(v).lower(), lambda: h.fn("BoolLit", K(v)), Alt(["true", "#t"] if v else ["false", "#f"]), where=h.loc("Lit.to_rosette"))
    nm = h.name("x")
    for t in (INT, BOOL, LI, MI, SI, T2):
        rtext(h, "ros/Var/%s" % tname(t), lambda: h.mk("Var", nm, h.ty(t)), nm, where=h.loc("Var.to_rosette"))
    v, e, b = h.opnd("v"), h.opnd("e"), h.opnd("b", BOOL)
    rtext(h, "ros/Let", lambda: h.mk("Let", v, e, b), ["let", [[L(v), L(e)]], L(b)], where=h.loc("Let.to_rosette"))
    w = h.loc("Call.to_rosette")
    for name, lib in LISTFN.items():
        t0 = MI if name.startswith("matrix") else ("Tensor3D", INT) if name.startswith("tensor") else INT if name.startswith("integer") else LI
        for n in (1, 2, 3):
            a = ops(h, [t0, INT, INT][:n])
            rtext(h, "ros/Call/%s/%d" % (name, n), lambda: h.mk("Call", K(name), h.ty(t0), *a), [lib] + [L(x) for x in a], where=w)
    for name in ("list_empty", "matrix_empty", "tensor3d_empty"):
        rtext(h, "ros/Call/%s/0" % name, lambda: h.mk("Call", K(name), h.ty(LI)), [LISTFN[name]], where=w)
    a = ops(h, [LLI])
    rtext(h, "ros/Call/matrix_transpose/nested", lambda: h.mk("Call", K("matrix_transpose"), h.ty(LLI), *a), ["matrix-transpose-noerr", L(a[0])], where=w)
    for name in SETFN + ["inv0", "inv12", "f_ps", "ps", "vec_elemwise_add", "vec_map", "matrix_vec_mul", "list_helper", "reduce_sum", "selection", "g"]:
        for n in (0, 1, 2, 3):
            if name in ("list_helper", "vec_map") and n == 0:
                continue
            a = ops(h, [LI, INT, BOOL][:n])
            rtext(h, "ros/Call/%s/%d" % (name, n), lambda: h.mk("Call", K(name), h.ty(INT), *a), [name] + [L(x) for x in a], where=w)
    for n in (1, 2, 3, 5):
        f = h.name("f")
        a = ops(h, [INT, LI, BOOL, INT, SI][:n])

        def skip_builtin(r):
            return any(p in ("integer",) for p in prefix_facts(r, f))
        text_obl(h, "ros/Call/any-name/%d" % n, lambda: h.mk("Call", f, h.ty(INT), *a), [f] + [L(x) for x in a], methods=METH, printer="to_rosette", where=w, names=[f])
    for n in (1, 2, 3):
        a = ops(h, [INT, BOOL, LI][:n])
        fv = h.it.sym("fv%d" % n, h.Expr, type=h.ty(("Fn", INT) + tuple([INT, BOOL, LI][:n])))
        rtext(h, "ros/CallValue/%d" % n, lambda: h.mk("CallValue", fv, *a), [L(fv)] + [L(x) for x in a], where=h.loc("CallValue.to_rosette"))
    for n in (1, 2, 3, 5):
        a = ops(h, [INT, BOOL, LI, SI, INT][:n])
        rtext(h, "ros/TupleExpr/%d" % n, lambda: h.mk("TupleExpr", *a), ["make-tuple"] + [L(x) for x in a], where=h.loc("TupleExpr.to_rosette"))
    for n in (2, 3, 4):
        for i in range(n):
            rtext(h, "ros/TupleGet/%d.%d" % (n, i), lambda: h.mk("TupleGet", h.mk("Var", nm, h.ty(("Tuple",) + (INT,) * n)), h.fn("IntLit", K(i))), ["tupleGet", nm, str(i)], where=h.loc("TupleGet.to_rosette"))
            rtext(h, "ros/tupleGet/%d.%d" % (n, i), lambda: h.mk("Call", K("tupleGet"), h.ty(INT), h.mk("Var", nm, h.ty(("Tuple",) + (INT,) * n)), h.fn("IntLit", K(i))), ["tupleGet", nm, str(i)], where=w)
    decls(h)
    grammar(h)


def decls(h):
    sigs = [(INT, []), (INT, [INT]), (BOOL, [INT, LI]), (LI, [LI, INT, BOOL]), (MI, [MI]), (SI, [SI, INT]), (T2, [T2, LLI]), (BOOL, [INT, INT, INT, LI, SI])]
    for cn, kw in (("FnDecl", "define"), ("FnDeclRecursive", "define-bounded")):
        w = h.loc(cn + ".to_rosette")
        for i, (rt, ats) in enumerate(sigs):
            f = h.name("f")
            names = [h.name("p%d" % j) for j in range(len(ats))]
            body = h.opnd("body", rt)

            def mkd(b):
                return h.mk(cn, f, h.ty(rt), b, *[h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)])
            rtext(h, "ros/%s/sig%d" % (cn, i), lambda: mkd(body), [kw, [f] + names, L(body)], where=w)
        for i, (rt, ats) in enumerate([(INT, [INT]), (BOOL, [INT, BOOL])]):
            names = [h.name("p%d" % j) for j in range(len(ats))]
            q = {"Int": "integer?", "Bool": "boolean?"}

            def go(it):
                d = h.mk(cn, h.name("f"), h.ty(rt), NONE, *[h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)])
                return it.call(it.getattr(d, "to_rosette"), [], {"is_uninterp": TRUE})

            def expect(v, r):
                t = sexpr(v, METH)
                want = [["define-symbolic", h.name("f"), ["~>"] + [q[x] for x in ats] + [q[rt]]]]
                return None if not isinstance(t, str) and tree_eq(t, want) else "prints %s" % show(v)
            h.decide("ros/%s/uninterpreted%d" % (cn, i), go, expect, w)
    for n in (1, 2):
        f = h.opnd("body", BOOL)
        rtext(h, "ros/Axiom/%d" % n, lambda: h.mk("Axiom", f, *[h.mk("Var", K("q%d" % i), h.ty(INT)) for i in range(n)]), Forms([]), where=h.loc("Axiom.to_rosette"))
    for n in (1, 2, 3):
        names = [h.name("p%d" % j) for j in range(n)]
        body = h.opnd("body", INT)
        rtext(h, "ros/Lambda/%d" % n, lambda: h.mk("Lambda", h.ty(INT), body, *[h.mk("Var", x, h.ty(INT)) for x in names]), ["lambda", names, L(body)], where=h.loc("Lambda.to_rosette"))


def grammar(h):
    for n in (1, 2, 3, 5):
        for t in (INT, BOOL, LI):
            a = ops(h, [t] * n)
            rtext(h, "ros/Choose/%d/%s" % (n, tname(t)), lambda: h.mk("Choose", *a), Forms([L(x) for x in a]), where=h.loc("Choose.to_rosette"))
    w = h.loc("Synth.to_rosette")
    for rt in (INT, BOOL):
        for ats in ([], [INT], [INT, LI, BOOL]):
            names = [h.name("p%d" % j) for j in range(len(ats))]

            def build():
                vs = [h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)]
                x, y, z = (h.mk("Var", K(s), h.ty(rt)) for s in "xyz")
                c1 = h.mk("Choose", x, y)
                if rt == INT:
                    body = h.mk("Add", c1, h.mk("Sub", c1, z))
                else:
                    body = h.mk("And", c1, h.mk("Not", c1), z)
                return h.mk("Synth", h.name("f"), body, *vs)
            v0 = ["v0"]
            inner = ["+", v0, ["-", v0, "z"]] if rt == INT else ["&&", v0, ["!", v0], "z"]
            rtext(h, "ros/Synth/%s/%d" % (rt, len(ats)), build, ["define-grammar", [(h.name("f"), "_gram")] + names, ["rv", ["choose", inner]], ["v0", ["choose", "x", "y"]]], where=w)

    def build2():
        x, y, z = (h.mk("Var", K(s), h.ty(INT)) for s in "xyz")
        b = h.mk("Var", K("b"), h.ty(BOOL))
        c1 = h.mk("Choose", x, y)
        c2 = h.mk("Choose", h.mk("Add", c1, z), z, h.fn("IntLit", K(3)))
        c3 = h.mk("Choose", b, h.mk("Lt", c2, c1))
        return h.mk("Synth", h.name("f"), h.mk("Ite", c3, c2, c1), x)
    rtext(h, "ros/Synth/nested", build2, ["define-grammar", [(h.name("f"), "_gram"), "x"], ["rv", ["choose", ["if", ["v0"], ["v1"], ["v2"]]]],
                                          ["v0", ["choose", "b", ["<", ["v1"], ["v2"]]]], ["v1", ["choose", ["+", ["v2"], "z"], "z", "3"]], ["v2", ["choose", "x", "y"]]], where=w)

    def build3():
        x, y = (h.mk("Var", K(s), h.ty(INT)) for s in "xy")
        return h.mk("Synth", h.name("f"), h.mk("Choose", x, y, h.mk("Add", x, y)), x, y)
    rtext(h, "ros/Synth/top-choice", build3, ["define-grammar", [(h.name("f"), "_gram"), "x", "y"], ["rv", ["choose", ["v0"]]], ["v0", ["choose", "x", "y", ["+", "x", "y"]]]], where=w)
