"""P03: Python text of expressions."""
import ast

from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import INT, BOOL, LI, MI, SI, LLI, T2, ops

FLOOR = 250
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
KIND = {"Add": "+", "Mul": "*", "Sub": "-", "Div": "//", "Mod": "%", "Eq": "==", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "And": "and", "Or": "or", "Not": "not", "Ite": "ite"}
IN = {"Add": [INT, INT], "Mul": [INT, INT], "Sub": [INT, INT], "Div": [INT, INT], "Mod": [INT, INT], "Eq": [INT, INT], "Lt": [INT, INT], "Le": [INT, INT],
      "Gt": [INT, INT], "Ge": [INT, INT], "And": [BOOL, BOOL], "Or": [BOOL, BOOL], "Not": [BOOL], "Ite": [BOOL, INT, INT]}
OUT = {k: (INT if k in ("Add", "Mul", "Sub", "Div", "Mod", "Ite") else BOOL) for k in IN}
ASSOC = {"+", "*", "and", "or"}


def tree(n, holes):
    """Python syntax tree -> operation tree"""
    t = lambda x: tree(x, holes)
    if isinstance(n, ast.Expression):
        return t(n.body)
    if isinstance(n, ast.BinOp):
        return op(BIN[type(n.op)], t(n.left), t(n.right))
    if isinstance(n, ast.BoolOp):
        return op("and" if isinstance(n.op, ast.And) else "or", *[t(v) for v in n.values])
    if isinstance(n, ast.UnaryOp):
        o = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~"}[type(n.op)]
        x = t(n.operand)
        if o == "neg" and x[0] == "const" and not isinstance(x[1], bool):
            return ("const", -x[1])
        return op(o, x)
    if isinstance(n, ast.Compare):
        if len(n.ops) != 1:
            return ("chained comparison",)
        return op(CMP.get(type(n.ops[0]), type(n.ops[0]).__name__), t(n.left), t(n.comparators[0]))
    if isinstance(n, ast.IfExp):
        return op("ite", t(n.test), t(n.body), t(n.orelse))
    if isinstance(n, ast.Constant):
        return ("const", n.value)
    if isinstance(n, ast.Name):
        return holes.get(n.id, ("name", n.id))
    if isinstance(n, ast.Call) and not n.keywords:
        return op("call", t(n.func), *[t(a) for a in n.args])
    if isinstance(n, ast.Subscript):
        s = n.slice
        if isinstance(s, ast.Slice):
            return op("slice", t(n.value), *[t(x) if x is not None else ("none",) for x in (s.lower, s.upper, s.step)])
        return op("index", t(n.value), t(s))
    if isinstance(n, ast.List):
        return op("list", *[t(x) for x in n.elts])
    if isinstance(n, ast.Tuple):
        return op("tuple", *[t(x) for x in n.elts])
    if isinstance(n, ast.Starred):
        return op("*", t(n.value), ("star",))
    return (type(n).__name__,)


def op(o, *args):
    if o in (">", ">="):
        return ({">": "<", ">=": "<="}[o], args[1], args[0])
    if o in ASSOC:
        flat = []
        for a in args:
            if a[0] == o:
                flat.extend(a[1:])
            else:
                flat.append(a)
        if len(flat) == 1:
            return flat[0]
        return (o,) + tuple(flat)
    return (o,) + tuple(args)


def H(x):
    return ("hole", x)


def to_text(v):
    ps = flatten(v)
    if ps is None:
        return None, {}
    holes, text = {}, ""
    for p in ps:
        if isinstance(p, str):
            text += p
        else:
            q = strip_str(p)
            x = leaf(q, ("to_python", "var"))
            n = "HOLE_%d_" % len(holes)
            holes[n] = ("hole", x if x is not None else q)
            text += n
    return text, holes


def show_tree(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "hole":
        return "<%s>" % show(t[1])
    return "(" + " ".join([str(t[0])] + [show_tree(x) for x in t[1:]]) + ")"


def py_obl(h, key, build, want, where=None, names=()):
    def go(it):
        return h.meth(build(), "to_python")

    def expect(v, r):
        text, holes = to_text(v)
        if text is None:
            return "?not text: %s" % show(v)
        if want == "assert":
            if not text.startswith("assert "):
                return "prints %r" % text
            text_, w = text[7:], None
        try:
            got = tree(ast.parse(text, mode="eval"), holes)
        except SyntaxError:
            return ("?" if r.approx else "") + "prints text that is not a Python expression: %r" % text
        if got == want:
            return None
        return ("?" if r.approx else "") + "prints %r, which Python reads as %s instead of %s" % (text, show_tree(got), show_tree(want))
    h.decide(key, go, expect, where, skip=(lambda r: fixed_names(r, names)) if names else None)


def run(ctx):
    h = IRH(ctx)
    ctx.rule("the text printed by to_python, with opaque operands replaced by identifiers, is parsed with the Python grammar; the syntax tree must be the operation of the node over its operands; every operator is checked inside every operand position of every other operator, so that precedence and chaining cannot regroup operands")
    for k, o in KIND.items():
        for n in ((1, 2, 3, 5) if k in ("Add", "Mul", "And", "Or") else (len(IN[k]),)):
            sh = [IN[k][0]] * n if k in ("Add", "Mul", "And", "Or") else IN[k]
            a = ops(h, sh)
            py_obl(h, "py/%s/%d" % (k, n), lambda: h.mk(k, *a), op(o, *[H(x) for x in a]), h.loc(k + ".to_python"))
    # every operator inside every operand position of every other operator (types permitting)
    for k1 in KIND:
        for pos, t in enumerate(IN[k1]):
            for k2 in KIND:
                sh1 = list(IN[k1])
                if OUT[k2] != t:
                    if k1 == "Eq":
                        sh1 = [OUT[k2]] * 2
                    elif k1 == "Ite" and pos > 0:
                        sh1 = [BOOL, OUT[k2], OUT[k2]]
                    else:
                        continue
                a, b = ops(h, sh1), ops(h, IN[k2], "b")

                def build():
                    n = h.mk(k2, *b)
                    return h.mk(k1, *[n if i == pos else x for i, x in enumerate(a)])
                inner = op(KIND[k2], *[H(x) for x in b])
                py_obl(h, "py/nest/%s.%d/%s" % (k1, pos, k2), build, op(KIND[k1], *[inner if i == pos else H(x) for i, x in enumerate(a)]), h.loc(k1 + ".to_python"))
    for v in (0, 5, -4, 100):
        py_obl(h, "py/Lit/%d" % v, lambda: h.fn("IntLit", K(v)), ("const", v), h.loc("Lit.to_python"))
    for v in (True, False):
        py_obl(h, "py/Lit/%s" % v, lambda: h.fn("BoolLit", K(v)), ("const", v), h.loc("Lit.to_python"))
    nm = h.name("x")
    py_obl(h, "py/Var", lambda: h.mk("Var", nm, h.ty(INT)), H(nm), h.loc("Var.to_python"))
    w = h.loc("Call.to_python")
    none = ("none",)
    a, b, c = h.opnd("a", LI), h.opnd("b"), h.opnd("c")
    forms = {
        "length": ([a], ("call", ("name", "len"), H(a))),
        "get": ([a, b], ("index", H(a), H(b))),
        "prepend": ([b, a], ("list", H(b), ("*", H(a), ("star",)))),
        "append": ([a, b], ("list", ("*", H(a), ("star",)), H(b))),
        "empty": ([], ("list",)),
        "tail": ([a, b], ("slice", H(a), H(b), none, none)),
        "take": ([a, b], ("slice", H(a), none, H(b), none)),
    }
    for nme, (args, want) in forms.items():
        for pre in ("list", "matrix"):
            py_obl(h, "py/Call/%s_%s" % (pre, nme), lambda: h.mk("Call", K("%s_%s" % (pre, nme)), h.ty(LI), *args), want, w)
    for nme in ("vec_slice", "matrix_row_slice"):
        py_obl(h, "py/Call/" + nme, lambda: h.mk("Call", K(nme), h.ty(LI), a, b, c), ("slice", H(a), H(b), H(c), none), w)
    for nme in ("vec_slice_with_length", "matrix_row_slice_with_length"):
        py_obl(h, "py/Call/" + nme, lambda: h.mk("Call", K(nme), h.ty(LI), a, b, c), ("slice", H(a), H(b), op("+", H(b), H(c)), none), w)
    # operators inside the operands of the special forms
    for k2 in KIND:
        if OUT[k2] != INT:
            continue
        z = ops(h, IN[k2], "z")
        inner = op(KIND[k2], *[H(x) for x in z])
        mk = lambda: h.mk(k2, *z)
        py_obl(h, "py/in-get/" + k2, lambda: h.mk("Call", K("list_get"), h.ty(INT), a, mk()), ("index", H(a), inner), w)
        py_obl(h, "py/in-tail/" + k2, lambda: h.mk("Call", K("list_tail"), h.ty(LI), a, mk()), ("slice", H(a), inner, none, none), w)
        py_obl(h, "py/in-take/" + k2, lambda: h.mk("Call", K("list_take"), h.ty(LI), a, mk()), ("slice", H(a), none, inner, none), w)
        py_obl(h, "py/in-slice-length-1/" + k2, lambda: h.mk("Call", K("vec_slice_with_length"), h.ty(LI), a, mk(), c), ("slice", H(a), inner, op("+", inner, H(c)), none), w)
        py_obl(h, "py/in-slice-length-2/" + k2, lambda: h.mk("Call", K("vec_slice_with_length"), h.ty(LI), a, b, mk()), ("slice", H(a), H(b), op("+", H(b), inner), none), w)
        py_obl(h, "py/in-prepend/" + k2, lambda: h.mk("Call", K("list_prepend"), h.ty(LI), mk(), a), ("list", inner, ("*", H(a), ("star",))), w)
        py_obl(h, "py/in-call/" + k2, lambda: h.mk("Call", K("g"), h.ty(INT), mk(), b), ("call", ("name", "g"), inner, H(b)), w)
        py_obl(h, "py/in-tuple/" + k2, lambda: h.mk("TupleExpr", mk(), b), ("tuple", inner, H(b)), w)
    la = ops(h, [BOOL, LI, LI], "l")
    py_obl(h, "py/get-of-ite", lambda: h.mk("Call", K("list_get"), h.ty(INT), h.mk("Ite", *la), b), ("index", op("ite", *[H(x) for x in la]), H(b)), w)
    py_obl(h, "py/append-of-ite", lambda: h.mk("Call", K("list_append"), h.ty(LI), h.mk("Ite", *la), b), ("list", ("*", op("ite", *[H(x) for x in la]), ("star",)), H(b)), w)
    py_obl(h, "py/tail-of-append", lambda: h.mk("Call", K("list_tail"), h.ty(LI), h.mk("Call", K("list_append"), h.ty(LI), a, b), c), ("slice", ("list", ("*", H(a), ("star",)), H(b)), H(c), none, none), w)
    f = h.name("f")
    for n in (0, 1, 2, 3, 5):
        x = ops(h, [INT] * n)
        py_obl(h, "py/Call/any-name/%d" % n, lambda: h.mk("Call", f, h.ty(INT), *x), ("call", H(f)) + tuple(H(i) for i in x), w, names=[f])
    for nme in ("vec_elemwise_add", "matrix_transpose", "integer_sqrt", "list_concat", "inv0", "f_ps", "reduce_sum"):
        py_obl(h, "py/Call/" + nme, lambda: h.mk("Call", K(nme), h.ty(INT), a, b), ("call", ("name", nme), H(a), H(b)), w)
    for nme in ("set-union", "set-minus", "set-insert", "set-member", "set-singleton", "set-create"):
        py_obl(h, "py/Call/" + nme, lambda: h.mk("Call", K(nme), h.ty(SI), a, b), ("call", ("name", nme), H(a), H(b)), w)
    for n in (1, 2, 3):
        x = ops(h, [INT] * n)
        fv = h.it.sym("fv", h.Expr, type=h.ty(("Fn", INT) + (INT,) * n))
        py_obl(h, "py/CallValue/%d" % n, lambda: h.mk("CallValue", fv, *x), ("call", H(fv)) + tuple(H(i) for i in x), h.loc("CallValue.to_python"))
        py_obl(h, "py/TupleExpr/%d" % n, lambda: h.mk("TupleExpr", *x), ("tuple",) + tuple(H(i) for i in x), h.loc("TupleExpr.to_python"))
    py_obl(h, "py/TupleGet", lambda: h.mk("TupleGet", h.mk("Var", nm, h.ty(T2)), h.fn("IntLit", K(1))), ("index", H(nm), ("const", 1)), h.loc("TupleGet.to_python"))
    decls(h)


PYT = {"Int": "int", "Bool": "bool"}


def pytype(s):
    if isinstance(s, str):
        return PYT[s]
    if s[0] == "List":
        return "List[%s]" % pytype(s[1])
    if s[0] == "Matrix":
        return "List[List[%s]]" % pytype(s[1])
    if s[0] == "Fn":
        return "Callable[[%s], %s]" % (", ".join(pytype(x) for x in s[2:]), pytype(s[1]))
    raise KeyError(s)


def decls(h):
    sigs = [(INT, []), (INT, [INT]), (BOOL, [INT, LI]), (LI, [LI, INT, BOOL]), (MI, [MI, LLI]), (INT, [LI, ("Fn", INT, INT, BOOL)])]
    for cn in ("FnDecl", "FnDeclRecursive"):
        w = h.loc(cn + ".to_python")
        for i, (rt, ats) in enumerate(sigs):
            f = h.name("f")
            names = [h.name("p%d" % j) for j in range(len(ats))]
            body = h.opnd("body", rt)

            def go(it):
                return h.meth(h.mk(cn, f, h.ty(rt), body, *[h.mk("Var", n, h.ty(t)) for n, t in zip(names, ats)]), "to_python")

            def expect(v, r):
                text, holes = to_text(v)
                if text is None:
                    return "?not text"
                try:
                    m = ast.parse(text)
                    d = m.body[0]
                except SyntaxError:
                    return "prints text that is not Python: %r" % text
                if not isinstance(d, ast.FunctionDef) or len(m.body) != 1:
                    return "prints %r" % text
                if holes.get(d.name) != H(f):
                    return "the function is called %s" % d.name
                got = [(holes.get(x.arg), ast.unparse(x.annotation) if x.annotation else None) for x in d.args.args]
                want = [(H(n), ast.unparse(ast.parse(pytype(t), mode="eval"))) for n, t in zip(names, ats)]
                if got != want:
                    return "parameters are %s, expected %s" % (got, want)
                if d.returns is None or ast.unparse(d.returns) != ast.unparse(ast.parse(pytype(rt), mode="eval")):
                    return "return type is %s" % (d.returns and ast.unparse(d.returns))
                if len(d.body) != 1 or not isinstance(d.body[0], ast.Return) or tree(d.body[0].value, holes) != H(body):
                    return "the body is %r" % text
                return None
            h.decide("py/%s/sig%d" % (cn, i), go, expect, w)
