"""P06: ill-typed expressions are rejected when built; well-typed ones get the result type of their operation."""
from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import SHAPES, INT, BOOL, LI, LB, MI, SI, LLI, T2, T3, SL, skey, tname
from .p05 import ops
from .p07 import mkobj

FLOOR = 330
TI, SB, MB = ("Tensor3D", INT), ("Set", BOOL), ("Matrix", BOOL)
TYPES = (INT, BOOL, LI, MI, SI, T2)
NONBOOL = (INT, LI, LB, MI, SI, T2)


def run(ctx):
    h = IRH(ctx)
    it = h.it
    ctx.rule("a constructor or container operation applied to operands of types that do not fit raises on every path (no expression is returned); applied to fitting operands it returns an expression of the operation's result type")
    pairs = [(x, y) for x in TYPES for y in TYPES if x != y]
    # ---- rejected
    for cn in ("Add", "Sub", "Mul", "Div", "Mod", "Lt", "Le", "Gt", "Ge"):
        w = h.loc(cn)
        for x, y in pairs:
            a, b = ops(h, [x, y])
            h.must_raise("reject/%s/%s,%s" % (cn, tname(x), tname(y)), lambda itp: h.reify(h.mk(cn, a, b)), "%s over operands of types %s and %s" % (cn, tname(x), tname(y)), w)
    for cn in ("Add", "Mul"):
        for n in (3, 4):
            for pos in range(n):
                for bad in (BOOL, LI):
                    sh = [INT] * n
                    sh[pos] = bad
                    a = ops(h, sh)
                    h.must_raise("reject/%s/%s-at-%d-of-%d" % (cn, tname(bad), pos, n), lambda itp: h.reify(h.mk(cn, *a)), "%s with one %s operand" % (cn, tname(bad)), h.loc(cn))
    for cn in ("And", "Or"):
        for n in (1, 2, 3, 4):
            for pos in range(n):
                for bad in NONBOOL:
                    sh = [BOOL] * n
                    sh[pos] = bad
                    a = ops(h, sh)
                    h.must_raise("reject/%s/%s-at-%d-of-%d" % (cn, tname(bad), pos, n), lambda itp: h.reify(h.mk(cn, *a)), "%s with a %s operand" % (cn, tname(bad)), h.loc(cn))
        a = ops(h, [INT, INT])
        h.must_raise("reject/%s/all-int" % cn, lambda itp: h.reify(h.mk(cn, *a)), "%s of integers" % cn, h.loc(cn))
    for cn in ("Add", "Mul", "And", "Or"):
        h.must_raise("reject/%s/empty" % cn, lambda itp: h.reify(h.mk(cn)), "%s without operands" % cn, h.loc(cn))
    for cn in ("Sub", "Div", "Mod"):
        for n in (1, 3):
            a = ops(h, [INT] * n)
            h.must_raise("reject/%s/%d-operands" % (cn, n), lambda itp: h.reify(h.mk(cn, *a)), "%s with %d operands" % (cn, n), h.loc(cn))
    for bad in NONBOOL:
        a, b = ops(h, [bad, BOOL])
        h.must_raise("reject/Not/" + tname(bad), lambda itp: h.reify(h.mk("Not", a)), "negation of a %s" % tname(bad), h.loc("Not"))
        h.must_raise("reject/Implies/%s-left" % tname(bad), lambda itp: h.reify(h.mk("Implies", a, b)), "implication from a %s" % tname(bad), h.loc("Implies"))
        h.must_raise("reject/Implies/%s-right" % tname(bad), lambda itp: h.reify(h.mk("Implies", b, a)), "implication of a %s" % tname(bad), h.loc("Implies"))
        c, d, e = ops(h, [bad, INT, INT])
        h.must_raise("reject/Ite/%s-condition" % tname(bad), lambda itp: h.reify(h.mk("Ite", c, d, e)), "conditional on a %s" % tname(bad), h.loc("Ite"))
    for x, y in pairs:
        c, d, e = ops(h, [BOOL, x, y])
        h.must_raise("reject/Ite/%s,%s" % (tname(x), tname(y)), lambda itp: h.reify(h.mk("Ite", c, d, e)), "conditional between %s and %s" % (tname(x), tname(y)), h.loc("Ite"))
        for key, sh in (("2", [x, y]), ("3", [x, x, y]), ("3m", [x, y, x])):
            a = ops(h, sh)
            h.must_raise("reject/Choose/%s/%s,%s" % (key, tname(x), tname(y)), lambda itp: h.reify(h.mk("Choose", *a)), "choice between %s and %s" % (tname(x), tname(y)), h.loc("Choose"))
    # ---- object level
    mk = {s: mkobj(h, "o%d" % i, s)[0] for i, s in enumerate((INT, BOOL, LI, LB, MI, MB, SI, SB, SL, TI, LLI))}
    mk2 = {s: mkobj(h, "p%d" % i, s)[0] for i, s in enumerate((INT, BOOL, LI, LB, MI, MB, SI, SB, SL, TI, LLI))}
    for nm, d in (("+", "add"), ("-", "sub"), ("*", "mul"), ("//", "floordiv"), ("%", "mod")):
        for y in (BOOL, SI, LB) + ((LI, MI) if nm == "%" else ()):
            h.must_raise("reject/Int%s%s" % (nm, tname(y)), lambda itp: h.reify(it.binop(nm, mk[INT](), mk2[y]())), "integer %s %s" % (nm, tname(y)), h.loc("Int.__%s__" % d))
    for nm, d in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
        for y in (BOOL, LI, SI):
            h.must_raise("reject/Int%s%s" % (nm, tname(y)), lambda itp: h.reify(it.compare(nm, mk[INT](), mk2[y]())), "integer %s %s" % (nm, tname(y)), h.loc("Int.__%s__" % d))
    for cn in ("And", "Or"):
        h.must_raise("reject/Bool.%s/int" % cn, lambda itp: h.reify(h.meth(mk[BOOL](), cn, mk[INT]())), "Boolean %s with an integer" % cn, h.loc("Bool." + cn))
        h.must_raise("reject/Bool.%s/none" % cn, lambda itp: h.reify(h.meth(mk[BOOL](), cn)), "Boolean %s without operand" % cn, h.loc("Bool." + cn))
    for cls, e in ((INT, (BOOL, LI, SI)), (BOOL, (INT, LI, SI))):
        for y in e:
            ex = h.opnd("w:" + tname(y), y)
            h.must_raise("reject/%s(%s)" % (cls, tname(y)), lambda itp: h.reify(h.mk(cls, ex)), "%s object around a %s expression" % (cls, tname(y)), h.loc(cls))
    ELEMS = {LI: (BOOL, LI, SI), LB: (INT, LI), LLI: (INT, LB, BOOL), MI: (INT, LB, BOOL, MI), TI: (INT, LI, MB)}
    for c, bads in ELEMS.items():
        cls = c[0]
        for y in bads:
            for meth in ("append", "prepend"):
                h.must_raise("reject/%s.%s(%s)" % (tname(c), meth, tname(y)), lambda itp: h.reify(h.meth(mk[c](), meth, mk2[y]())), "%s of a %s to a %s" % (meth, tname(y), tname(c)), h.loc("%s.%s" % (cls, meth)))
            if cls == "List":
                for ix in (lambda: K(0), lambda: mk[INT]()):
                    h.must_raise("reject/%s[i]=%s" % (tname(c), tname(y)), lambda itp: h.reify(h.meth(mk[c](), "__setitem__", ix(), mk2[y]())), "storing a %s in a %s" % (tname(y), tname(c)), h.loc("List.__setitem__"))
    for c, y in ((LI, LB), (LB, LI), (LI, LLI), (LI, MI), (MI, MB), (MI, LI), (LI, INT)):
        h.must_raise("reject/%s+%s" % (tname(c), tname(y)), lambda itp: h.reify(it.binop("+", mk[c](), mk2[y]())), "concatenation of a %s and a %s" % (tname(c), tname(y)), h.loc(c[0] + ".__add__"))
    for c, y in ((LI, LB), (LI, MI), (LI, SI), (MI, LB), (LB, LI)):
        h.decide("differs/%s==%s" % (tname(c), tname(y)), lambda itp: h.reify(it.compare("==", mk[c](), mk2[y]())), lambda v, r: None if canon(v) == ("Lit", False) else "builds %s, expected false" % ctext(canon(v)), h.loc("List.__eq__"), allow_raise=True)
    NUM = [("List", LI, LB), ("Matrix", MI, MB)]
    for cls, good, bad in NUM:
        for meth in ("add", "sub", "mul", "div"):
            w = h.loc("%s.%s" % (cls, meth))
            st = lambda *a: h.fn_attr(cls, meth, *a)
            for key, f in (("nonint-first", lambda: st(mk[bad](), mk2[INT]())), ("nonint-second", lambda: st(mk[INT](), mk2[bad]())), ("nonint-both", lambda: st(mk[bad](), mk2[bad]())),
                           ("mixed", lambda: st(mk[good](), mk2[bad]())), ("mixed-r", lambda: st(mk[bad](), mk2[good]())), ("scalars", lambda: st(mk[INT](), mk2[INT]())), ("plain", lambda: st(K(1), K(2))),
                           ("bool-first", lambda: st(mk[BOOL](), mk2[good]())), ("bool-second", lambda: st(mk[good](), mk2[BOOL]())), ("set-second", lambda: st(mk[good](), mk2[SI]()))):
                h.must_raise("reject/%s.%s/%s" % (cls, meth, key), lambda itp: h.reify(f()), "%s of operands %s" % (meth, key), w)
        if cls == "Matrix":
            for meth in ("add", "sub", "mul", "div"):
                for key, f in (("vec-first", lambda: h.fn_attr(cls, meth, mk[LI](), mk2[MI]())), ("vec-second", lambda: h.fn_attr(cls, meth, mk[MI](), mk2[LI]()))):
                    h.must_raise("reject/Matrix.%s/%s" % (meth, key), lambda itp: h.reify(f()), "%s of a matrix and a vector" % meth, h.loc("Matrix." + meth))
    for s, y in ((SI, BOOL), (SI, LI), (SB, INT), (SL, INT), (SL, LB)):
        for meth in ("add", "remove"):
            h.must_raise("reject/%s.%s(%s)" % (tname(s), meth, tname(y)), lambda itp: h.reify(h.meth(mk[s](), meth, mk2[y]())), "%s of a %s on a %s" % (meth, tname(y), tname(s)), h.loc("Set." + meth))
        h.decide("differs/%s in %s" % (tname(y), tname(s)), lambda itp: h.reify(h.meth(mk[s](), "__contains__", mk2[y]())), lambda v, r: None if canon(v) == ("Lit", False) else "builds %s, expected false" % ctext(canon(v)), h.loc("Set.__contains__"), allow_raise=True)
    for s, y in ((SI, SB), (SB, SI), (SI, SL), (SL, SI), (SI, LI)):
        for meth in ("union", "difference"):
            h.must_raise("reject/%s.%s(%s)" % (tname(s), meth, tname(y)), lambda itp: h.reify(h.meth(mk[s](), meth, mk2[y]())), "%s of a %s with a %s" % (meth, tname(s), tname(y)), h.loc("Set." + meth))
    for cls in ("List", "Matrix", "Tensor3D", "Set"):
        for val in (K(3), K(True)):
            h.must_raise("reject/%s(plain)" % cls, lambda itp: h.reify(h.mk(cls, h.ty(INT), val)), "a %s made from a plain value" % cls, h.loc(cls))
    h.must_raise("reject/choose/none", lambda itp: h.reify(h.fn("choose")), "a choice without alternatives", h.loc("choose"))
    for x, y in ((INT, BOOL), (LI, SI), (INT, LI)):
        h.must_raise("reject/choose/%s,%s" % (tname(x), tname(y)), lambda itp: h.reify(h.fn("choose", mk[x](), mk2[y]())), "a choice between %s and %s objects" % (tname(x), tname(y)), h.loc("choose"))
        h.must_raise("reject/ite/%s,%s" % (tname(x), tname(y)), lambda itp: h.reify(h.fn("ite", mk[BOOL](), mk[x](), mk2[y]())), "a conditional between %s and %s objects" % (tname(x), tname(y)), h.loc("ite"))
    h.must_raise("reject/ite/int-condition", lambda itp: h.reify(h.fn("ite", mk[INT](), mk[LI](), mk2[LI]())), "a conditional on an integer object", h.loc("ite"))
    h.must_raise("reject/implies/int", lambda itp: h.reify(h.fn("implies", mk[INT](), mk[BOOL]())), "an implication from an integer", h.loc("implies"))
    # ---- accepted, with the right result type
    RES = {"Add": INT, "Sub": INT, "Mul": INT, "Div": INT, "Mod": INT, "Eq": BOOL, "Lt": BOOL, "Le": BOOL, "Gt": BOOL, "Ge": BOOL, "And": BOOL, "Or": BOOL, "Not": BOOL, "Implies": BOOL}

    def typed(key, f, want, w):
        h.decide(key, lambda itp: h.reify(f()), lambda v, r: None if v.type == h.ty(want) else "has type %s, expected %s" % (show(v.type) if v.type is not None else None, tname(want)), w)
    for cn in SHAPES:
        for sh in SHAPES[cn]:
            a = ops(h, sh)
            want = RES.get(cn) or (sh[1] if cn == "Ite" else BOOL)
            typed("type/%s/%s" % (cn, skey(sh)), lambda: h.mk(cn, *a), want, h.loc(cn))
    nm = h.name("nm")
    FT = ("Fn", LI, INT, BOOL)
    for t in (INT, BOOL, LI, MI, SI, T2):
        a = ops(h, [t, t, t])
        n2 = ops(h, [INT, BOOL])
        typed("type/Choose/" + tname(t), lambda: h.mk("Choose", *a), t, h.loc("Choose"))
        typed("type/Var/" + tname(t), lambda: h.mk("Var", nm, h.ty(t)), t, h.loc("Var"))
        typed("type/Call/" + tname(t), lambda: h.mk("Call", nm, h.ty(t), *n2), t, h.loc("Call"))
        typed("type/Let/" + tname(t), lambda: h.mk("Let", n2[0], n2[0], a[0]), t, h.loc("Let"))
        typed("type/Synth/" + tname(t), lambda: h.mk("Synth", nm, a[0], *n2), t, h.loc("Synth"))
        f = h.opnd("f:" + tname(t), ("Fn", t, INT, BOOL))
        typed("type/CallValue/" + tname(t), lambda: h.mk("CallValue", f, *n2), t, h.loc("CallValue"))
        typed("type/TupleExpr/" + tname(t), lambda: h.mk("TupleExpr", a[0], n2[1], a[1]), ("Tuple", t, BOOL, t), h.loc("TupleExpr"))
        tp = h.opnd("tp:" + tname(t), ("Tuple", BOOL, t, INT))
        for q, want in ((0, BOOL), (1, t), (2, INT)):
            typed("type/TupleGet/%s/%d" % (tname(t), q), lambda: h.mk("TupleGet", tp, h.fn("IntLit", K(q))), want, h.loc("TupleGet"))
        for cn in ("FnDecl", "FnDeclRecursive"):
            typed("type/%s/%s" % (cn, tname(t)), lambda: h.mk(cn, nm, h.ty(t), a[0], *n2), ("Fn", t, INT, BOOL), h.loc(cn))
            typed("type/%s0/%s" % (cn, tname(t)), lambda: h.mk(cn, nm, h.ty(t), a[0]), ("Fn", t), h.loc(cn))
        typed("type/Lambda/" + tname(t), lambda: h.mk("Lambda", h.ty(t), a[0], *n2), ("Fn", t, INT, BOOL), h.loc("Lambda"))
    e0 = ops(h, [INT, BOOL])
    typed("type/Axiom", lambda: h.mk("Axiom", h.opnd("ax", BOOL), *e0), BOOL, h.loc("Axiom"))
    for v, t in ((K(0), INT), (K(12), INT), (K(-1), INT)):
        typed("type/IntLit", lambda: h.fn("IntLit", v), INT, h.loc("IntLit"))
    for v in (True, False):
        typed("type/BoolLit", lambda: h.fn("BoolLit", K(v)), BOOL, h.loc("BoolLit"))
    for cls, t in ((INT, INT), (BOOL, BOOL), ("List", LI), ("Matrix", ("Matrix", INT)), ("Tensor3D", TI), ("Set", SI)):
        typed("type/%s.default_value" % cls, lambda: h.fn_attr(cls, "default_value"), t, h.loc(cls + ".default_value"))
        typed("type/%s()" % cls, lambda: h.mk(cls), t, h.loc(cls))
