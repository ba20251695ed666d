"""P07: object operators build the operation they denote, operands in order."""
from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import INT, BOOL, LI, LB, MI, SI, LLI, T2, T3, tname

FLOOR = 200
TI = ("Tensor3D", INT)
CLS = {INT: "Int", BOOL: "Bool", LI: "List", LB: "List", LLI: "List", MI: "Matrix", SI: "Set", TI: "Tensor3D"}


def mkobj(h, name, spec):
    """(object of the type, its expression) around an arbitrary expression of that type"""
    e = h.opnd("%s:%s" % (name, tname(spec)), spec)
    if isinstance(spec, str):
        return (lambda: h.mk(spec, e)), e
    if spec[0] == "Tuple":
        return (lambda: h.mk("Tuple", Tup([h.ty(s) for s in spec[1:]]), e)), e
    return (lambda: h.mk(spec[0], h.ty(spec[1]), e)), e


def C(name, *args):
    return ("Call", name) + args


def lit(n):
    return ("Lit", n)


def run(ctx):
    h = IRH(ctx)
    it = h.it
    ctx.rule("each operator of the front-end objects, applied to objects around opaque expressions (and to plain Python values on either side), returns the object whose expression is the operation of that operator on exactly those operands in source order")

    def op(key, f, want, ty=None, where=None, also=()):
        h.decide(key, lambda itp: h.reify(f()), built(h, want, ty, also), where)

    def binop(key, o, l, r, want, ty=None, where=None, also=()):
        op(key, lambda: it.binop(o, l(), r()), want, ty, where, also)

    def cmpop(key, o, l, r, want, ty=None, where=None, also=()):
        op(key, lambda: it.compare(o, l(), r()), want, ty, where, also)
    i, ei = mkobj(h, "i", INT)
    j, ej = mkobj(h, "j", INT)
    b, eb = mkobj(h, "b", BOOL)
    c, ec = mkobj(h, "c", BOOL)
    v, ev = mkobj(h, "v", LI)
    w, ew = mkobj(h, "w", LI)
    m, em = mkobj(h, "m", MI)
    n, en = mkobj(h, "n", MI)
    t, et = mkobj(h, "t", TI)
    mm, emm = mkobj(h, "mm", LLI)
    s, es = mkobj(h, "s", SI)
    u, eu = mkobj(h, "u", SI)
    k = lambda x: (lambda: K(x))
    ARI = {"+": "Add", "-": "Sub", "*": "Mul", "//": "Div", "%": "Mod"}
    dunder = {"+": "add", "-": "sub", "*": "mul", "//": "floordiv", "%": "mod"}
    for o, cn in ARI.items():
        wh = h.loc("Int.__%s__" % dunder[o])
        binop("int%sint" % o, o, i, j, (cn, ei, ej), INT, wh)
        binop("int%sself" % o, o, i, i, (cn, ei, ei), INT, wh)
        for val in (0, 1, 7, -2):
            binop("int%splain" % o, o, i, k(val), (cn, ei, lit(val)), INT, wh)
            binop("plain%sint" % o, o, k(val), i, (cn, lit(val), ei), INT, h.loc("Int.__r%s__" % dunder[o]))
    # nested: the operands are whole expressions
    op("int-nested", lambda: it.binop("-", it.binop("-", i(), j()), it.binop("-", j(), K(2))), ("Sub", ("Sub", ei, ej), ("Sub", ej, lit(2))), INT, h.loc("Int.__sub__"))
    CMP = {"==": ("Eq", "eq"), "!=": (None, "ne"), "<": ("Lt", "lt"), "<=": ("Le", "le"), ">": ("Gt", "gt"), ">=": ("Ge", "ge")}
    flip = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}

    def cw(o, x, y):
        if o == "!=":
            return ("Not", ("Eq", x, y))
        return (CMP[o][0], x, y)
    for o, (cn, d) in CMP.items():
        wh = h.loc("Int.__%s__" % d)
        cmpop("int%sint" % o, o, i, j, cw(o, ei, ej), BOOL, wh)
        for val in (0, 3, -1):
            cmpop("int%splain" % o, o, i, k(val), cw(o, ei, lit(val)), BOOL, wh)
            # Python evaluates 3 < x as x > 3
            cmpop("plain%sint" % o, o, k(val), i, cw(o, lit(val), ei), BOOL, wh, also=(cw(flip[o], ei, lit(val)),))
    for o in ("==", "!="):
        d = CMP[o][1]
        cmpop("bool%sbool" % o, o, b, c, cw(o, eb, ec), BOOL, h.loc("Bool.__%s__" % d))
        for val in (True, False):
            cmpop("bool%splain" % o, o, b, k(val), cw(o, eb, lit(val)), BOOL, h.loc("Bool.__%s__" % d))
            cmpop("plain%sbool" % o, o, k(val), b, cw(o, lit(val), eb), BOOL, h.loc("Bool.__%s__" % d), also=(cw(o, eb, lit(val)),))
    # boolean connectives
    for cn in ("And", "Or"):
        wh = h.loc("Bool." + cn)
        op("bool.%s/2" % cn, lambda: h.meth(b(), cn, c()), (cn, eb, ec), BOOL, wh)
        op("bool.%s/3" % cn, lambda: h.meth(b(), cn, c(), b()), (cn, eb, ec, eb), BOOL, wh)
    op("bool.Not", lambda: h.meth(b(), "Not"), ("Not", eb), BOOL, h.loc("Bool.Not"))
    # scalar with vector / matrix
    TAB = {"+": ("scalar_add", "scalar_add", "elemwise_add", "add"), "-": (None, "scalar_sub", "elemwise_sub", "sub"),
           "*": ("scalar_mul", "scalar_mul", "elemwise_mul", "mul"), "//": (None, "scalar_div", "elemwise_div", "div")}
    for cls, kind, (x, ex), (y, ey), ty in (("List", "vec", (v, ev), (w, ew), LI), ("Matrix", "matrix", (m, em), (n, en), MI)):
        for o, (sf, vs, ee, meth) in TAB.items():
            first = "%s_%s" % (kind, sf) if sf else "scalar_%s_%s" % (kind, meth)
            wh = h.loc("%s.%s" % (cls, meth))
            st = lambda *a: h.fn_attr(cls, meth, *a)
            op("%s.%s(scalar,v)" % (cls, meth), lambda: st(i(), x()), C(first, ei, ex), ty, wh)
            op("%s.%s(v,scalar)" % (cls, meth), lambda: st(x(), i()), C("%s_%s" % (kind, vs), ei, ex), ty, wh)
            op("%s.%s(plain,v)" % (cls, meth), lambda: st(K(5), x()), C(first, lit(5), ex), ty, wh)
            op("%s.%s(v,plain)" % (cls, meth), lambda: st(x(), K(5)), C("%s_%s" % (kind, vs), lit(5), ex), ty, wh)
            op("%s.%s(v,v)" % (cls, meth), lambda: st(x(), y()), C("%s_%s" % (kind, ee), ex, ey), ty, wh)
            binop("int%s%s" % (o, kind), o, i, x, C(first, ei, ex), ty, h.loc("Int.binary_op"))
    # container operators
    for cls, x, ex, ty, elem, pre, gpre in (("List", v, ev, LI, INT, "list", "list"), ("Matrix", m, em, MI, LI, "matrix", "matrix"), ("ListList", mm, emm, LLI, LI, "matrix", "matrix"), ("Tensor3D", t, et, TI, MI, "tensor3d", "tensor3d")):
        real = "List" if cls == "ListList" else cls
        gi = h.loc("List.__getitem__")
        get = lambda idx: it.getitem(x(), idx)
        op("%s[i]" % cls, lambda: get(i()), C(gpre + "_get", ex, ei), elem, gi)
        for val in (0, 3):
            op("%s[%d]" % (cls, val), lambda: get(K(val)), C(gpre + "_get", ex, lit(val)), elem, gi)
        sl = {"List": "vec_slice", "Tensor3D": "tensor3d_slice"}.get(cls, "matrix_row_slice")
        for nm, a, ea in (("i", i, ei), ("2", k(2), lit(2))):
            op("%s[%s:]" % (cls, nm), lambda: get(Slice(a(), NONE, NONE)), C(pre + "_tail", ex, ea), ty, gi)
            op("%s[:%s]" % (cls, nm), lambda: get(Slice(NONE, a(), NONE)), C(pre + "_take", ex, ea), ty, gi)
            for nm2, b2, eb2 in (("j", j, ej), ("4", k(4), lit(4))):
                op("%s[%s:%s]" % (cls, nm, nm2), lambda: get(Slice(a(), b2(), NONE)), C(sl, ex, ea, eb2), ty, gi)
                op("%s.slice_with_length(%s,%s)" % (cls, nm, nm2), lambda: h.meth(x(), "slice_with_length", a(), b2()), C(sl + "_with_length", ex, ea, eb2), ty, h.loc("%s.slice_with_length" % ("Matrix" if cls == "Matrix" else "List")))
                if cls == "Matrix":
                    op("Matrix.col_slice(%s,%s)" % (nm, nm2), lambda: h.meth(x(), "col_slice", a(), b2()), C("matrix_col_slice", ex, ea, eb2), ty, h.loc("Matrix.col_slice"))
                    op("Matrix.col_slice_with_length(%s,%s)" % (nm, nm2), lambda: h.meth(x(), "col_slice_with_length", a(), b2()), C("matrix_col_slice_with_length", ex, ea, eb2), ty, h.loc("Matrix.col_slice_with_length"))
        if cls == "Matrix":
            op("Matrix.transpose", lambda: h.meth(x(), "transpose"), C("matrix_transpose", ex), ty, h.loc("Matrix.transpose"))
            for nm, a, ea in (("i", i, ei), ("2", k(2), lit(2))):
                op("Matrix.col_vec(%s)" % nm, lambda: h.meth(x(), "col_vec", a()), C("matrix_get", C("matrix_transpose", C("matrix_col_slice_with_length", ex, ea, lit(1))), lit(0)), LI, h.loc("Matrix.col_vec"))
        lname = {"List": "list_length", "ListList": "matrix_length", "Matrix": "matrix_length", "Tensor3D": "tensor3d_length"}[cls]
        op("%s.len" % cls, lambda: h.meth(x(), "len"), C(lname, ex), INT, h.loc("%s.len" % real))
        # in-place updates: the object's own expression becomes the updated container, the element's does not change
        el, eel = mkobj(h, "el", elem)
        app, pp = {"List": ("list_append", "list_prepend")}.get(cls, (pre + "_append", pre + "_prepend"))
        for meth, want in (("append", C(app, ex, eel)), ("prepend", C(pp, eel, ex))):
            def upd():
                o, e2 = x(), el()
                r = h.meth(o, meth, e2)
                return Tup([r, o, e2])
            wh = h.loc("%s.%s" % (real, meth))

            def expect(val, r, want=want):
                for what, vv, ww in (("returns", val[0], want), ("leaves the container as", val[1], want), ("leaves the element as", val[2], eel)):
                    if canon(vv) != ctuple(ww):
                        return "%s %s, expected %s" % (what, ctext(canon(vv)), ctext(ctuple(ww)))
                if val[1].type != h.ty(ty):
                    return "container has type %s" % show(val[1].type)
                return None
            h.decide("%s.%s" % (cls, meth), lambda itp: h.reify(upd()), expect, wh)
    el, eel = mkobj(h, "el", INT)
    for nm, a, ea in (("i", i, ei), ("2", k(2), lit(2))):
        def setit():
            o = v()
            it.call(it.getattr(o, "__setitem__"), [a(), el()], {})
            return o
        op("List[%s]=e" % nm, setit, C("list_set", ev, ea, eel), LI, h.loc("List.__setitem__"))
    binop("List+List", "+", v, w, C("list_concat", ev, ew), LI, h.loc("List.__add__"))
    binop("Matrix+Matrix", "+", m, n, C("list_concat", em, en), MI, h.loc("Matrix.__add__"))
    for cls, (x, ex), (y, ey) in (("List", (v, ev), (w, ew)), ("Matrix", (m, em), (n, en))):
        cmpop("%s==%s" % (cls, cls), "==", x, y, C("list_eq", ex, ey), BOOL, h.loc("List.__eq__"))
        cmpop("%s!=%s" % (cls, cls), "!=", x, y, ("Not", C("list_eq", ex, ey)), BOOL, h.loc("List.__ne__"))
    # constructors of empty containers
    for cls, spec in (("List", LI), ("List", LB), ("List", LLI), ("Matrix", MI), ("Tensor3D", TI), ("Set", SI)):
        want = {"List": "list_empty", "Matrix": "matrix_empty", "Tensor3D": "tensor3d_empty", "Set": "set-create"}[cls] if spec != LLI else "matrix_empty"
        op("%s.empty" % tname(spec), lambda: h.fn_attr(cls, "empty", h.ty(spec[1])), C(want), spec, h.loc("%s.empty" % cls))
    # sets
    op("Set.add", lambda: h.meth(s(), "add", el()), C("set-insert", eel, es), SI, h.loc("Set.add"))
    op("Set.remove", lambda: h.meth(s(), "remove", el()), C("set-minus", es, C("set-singleton", eel)), SI, h.loc("Set.remove"))
    op("Set.singleton", lambda: h.fn_attr("Set", "singleton", el()), C("set-singleton", eel), SI, h.loc("Set.singleton"))
    op("Set.union", lambda: h.meth(s(), "union", u()), C("set-union", es, eu), SI, h.loc("Set.union"))
    op("Set.difference", lambda: h.meth(s(), "difference", u()), C("set-minus", es, eu), SI, h.loc("Set.difference"))
    op("Set.__contains__", lambda: h.meth(s(), "__contains__", el()), C("set-member", eel, es), BOOL, h.loc("Set.__contains__"))
    cmpop("Set==Set", "==", s, u, ("Eq", es, eu), BOOL, h.loc("Set.__eq__"), also=(C("set-eq", es, eu),))
    cmpop("Set!=Set", "!=", s, u, ("Not", ("Eq", es, eu)), BOOL, h.loc("Set.__ne__"), also=(("Not", C("set-eq", es, eu)),))
    # tuples
    for spec in (T2, ("Tuple", INT, BOOL, INT), ("Tuple", BOOL)):
        x, ex = mkobj(h, "tp", spec)
        for q in range(len(spec) - 1):
            for form, idx in (("plain", lambda: K(q)), ("Int", lambda: h.mk("Int", K(q)))):
                op("%s[%d]/%s" % (tname(spec), q, form), lambda: it.getitem(x(), idx()), C("tupleGet", ex, lit(q)), spec[1 + q], h.loc("Tuple.__getitem__"))
    # expression-level arithmetic
    p, q, z = h.opnd("p"), h.opnd("q"), h.opnd("z")
    for o, cn in (("+", "Add"), ("-", "Sub"), ("*", "Mul")):
        wh = h.loc("Expr.__%s__" % dunder[o])
        base = h.base(lambda: [h.mk(x, p, q) for x in ("Add", "Sub", "Mul", "Div", "Mod")])
        h.decide("expr%s/leaf" % o, lambda itp: h.reify(it.binop(o, h.mk("Div", p, q), z)), built(h, (cn, ("Div", p, q), z), INT), wh)
        for bn, nd in zip(("Add", "Sub", "Mul", "Div", "Mod"), base):
            h.decide("expr%s/%s" % (o, bn), lambda itp: h.reify(it.binop(o, nd, z)), built(h, (cn, (bn, p, q), z), INT), wh)
    free(h, op, i, ei, j, ej, b, eb, v, ev)
    if ctx.thorough:
        deep(h, op)


def deep(h, op):
    """every pair of nested arithmetic operators and comparison on top"""
    it = h.it
    x, ex = mkobj(h, "x", INT)
    y, ey = mkobj(h, "y", INT)
    z, ez = mkobj(h, "z", INT)
    ari = {"+": "Add", "-": "Sub", "*": "Mul", "//": "Div", "%": "Mod"}
    cmps = {"<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge", "==": "Eq"}
    for o1, c1 in ari.items():
        for o2, c2 in ari.items():
            op("deep-left/%s%s" % (o1, o2), lambda: it.binop(o2, it.binop(o1, x(), y()), z()), (c2, (c1, ex, ey), ez), INT)
            op("deep-right/%s%s" % (o1, o2), lambda: it.binop(o1, x(), it.binop(o2, y(), z())), (c1, ex, (c2, ey, ez)), INT)
            op("deep-plain/%s%s" % (o1, o2), lambda: it.binop(o1, K(4), it.binop(o2, y(), K(9))), (c1, ("Lit", 4), (c2, ey, ("Lit", 9))), INT)
        for o2, c2 in cmps.items():
            op("deep-cmp/%s%s" % (o1, o2), lambda: it.compare(o2, it.binop(o1, x(), y()), it.binop(o1, z(), x())), (c2, (c1, ex, ey), (c1, ez, ex)), BOOL)


def free(h, op, i, ei, j, ej, b, eb, v, ev):
    """module-level builders"""
    it = h.it
    for form in ("object", "expr"):
        wrap = (lambda o, e: o()) if form == "object" else (lambda o, e: e)
        op("ite/%s" % form, lambda: h.fn("ite", wrap(b, eb), wrap(i, ei), wrap(j, ej)), ("Ite", eb, ei, ej), INT, h.loc("ite"))
        op("implies/%s" % form, lambda: h.fn("implies", wrap(b, eb), h.meth(b(), "Not") if form == "object" else eb), ("Implies", eb, ("Not", eb) if form == "object" else eb), BOOL, h.loc("implies"))
        op("call/%s" % form, lambda: h.fn("call", K("f"), h.ty(LI), wrap(i, ei), wrap(v, ev), wrap(j, ej)), C("f", ei, ev, ej), LI, h.loc("call"))
        op("choose/%s" % form, lambda: h.fn("choose", wrap(i, ei), wrap(j, ej), wrap(i, ei)), ("Choose", ei, ej, ei), INT, h.loc("choose"))
        op("make_tuple/%s" % form, lambda: h.fn("make_tuple", wrap(i, ei), wrap(b, eb), wrap(v, ev)), ("TupleExpr", ei, eb, ev), ("Tuple", INT, BOOL, LI), h.loc("make_tuple"))
        for cn, f in (("FnDecl", "fn_decl"), ("FnDeclRecursive", "fn_decl_recursive")):
            op("%s/%s" % (f, form), lambda: h.fn(f, K("f"), h.ty(INT), wrap(i, ei), wrap(v, ev), wrap(j, ej)), (cn, "f", ei, ev, ej), None, h.loc(f))
        op("synth/%s" % form, lambda: h.fn("synth", K("f"), i(), wrap(v, ev), wrap(j, ej)), ("Synth", "f", ei, ev, ej), None, h.loc("synth"))
    e = h.opnd("el2:tuple", T2)
    op("ite/tuple", lambda: h.fn("ite", b(), h.mk("Tuple", Tup([h.ty(INT), h.ty(BOOL)]), e), h.mk("Tuple", Tup([h.ty(INT), h.ty(BOOL)]), e)), ("Ite", eb, e, e), T2, h.loc("ite"))
    op("Int.maybe_relaxed/no", lambda: h.meth(i(), "maybe_relaxed"), ei, INT, h.loc("Int.maybe_relaxed"))
    op("Int.maybe_relaxed/yes", lambda: h.meth(i(), "maybe_relaxed", K(True)), ("Choose", ei, ("Sub", ei, lit(1)), ("Add", ei, lit(1))), INT, h.loc("Int.maybe_relaxed"))
    # objects of a type wrap the value they are given
    for spec, val, want in ((INT, K(5), lit(5)), (INT, K(-3), lit(-3)), (BOOL, K(True), lit(True)), (BOOL, K(False), lit(False)), (INT, K("x"), ("Var", "x")), (BOOL, K("y"), ("Var", "y"))):
        op("new/%s(%s)" % (spec, val.v), lambda: h.mk(spec, val), want, spec, h.loc(spec))
    for spec in (LI, MI, SI, ("Tensor3D", INT), LLI):
        op("new/%s(name)" % tname(spec), lambda: h.mk(spec[0], h.ty(spec[1]), K("x")), ("Var", "x"), spec, h.loc(spec[0]))
    for spec in (INT, BOOL, LI, MI, SI, ("Tensor3D", INT), LLI, T2, T3, ("List", BOOL), ("List", LI), ("Set", LI), ("Tuple", LI, INT)):
        en = h.opnd("co:" + tname(spec), spec)
        for form, val, want in (("name", K("x"), ("Var", "x")), ("expr", en, en)):
            op("create_object/%s/%s" % (tname(spec), form), lambda: h.fn("create_object", h.ty(spec), val), want, spec, h.loc("create_object"))
