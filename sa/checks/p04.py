"""P04: reading back a synthesizer answer"""

from ..irh import canon, ctuple, shownode
from ..synth import SR, Bench, answer_text
from ..values import HDict, K, Ref
from .p02 import LISTFN
from .p14 import Builder, Fn, Scenario, call, op

FLOOR = 110
I, B = "Int", "Bool"
L, M, T = ("List", "Int"), ("Matrix", "Int"), ("Tensor3D", "Int")
LB, S, TU, LT = ("List", "Bool"), ("Set", "Int"), ("Tuple", "Int", "Bool"), ("Tuple", ("List", "Int"), "Int", "Bool")
ENV = {"i": I, "j": I, "n-1": I, "p": B, "q": B, "l": L, "l2": L, "m": M, "m2": M, "t": T, "t2": T, "s": S, "s2": S, "tu": TU, "lt": LT, "lb": LB}
FNS = {"dsl": (I, [I, I]), "one": (L, [L]), "pred": (B, [I]), "sel": (M, [M, I, L]), "none": (I, []), "list_scale": (L, [I, L]), "hof": (L, [L, ("Fn", I, I, I)]), "f_inv0": (B, [I, L]), "f_ps": (B, [L, I]), "integer_half": (I, [I]), "map": (I, [I])}
# form in the answer -> (expression class or ("Call", name), operand types, result type)
FORMS = {}
for o, c in {"+": "Add", "-": "Sub", "*": "Mul", "quotient-noerr": "Div", "remainder": "Mod"}.items():
    FORMS[o] = (c, [I, I], I)
for o, c in {"<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge", "equal?": "Eq", "=": "Eq"}.items():
    FORMS[o] = (c, [I, I], B)
for o, c in {"&&": "And", "or": "Or", "=>": "Implies"}.items():
    FORMS[o] = (c, [B, B], B)
FORMS["!"] = ("Not", [B], B)
FORMS["if"] = ("Ite", [B, I, I], I)
SIGS = {"get": lambda c, e: ([c, I], e), "append": lambda c, e: ([c, e], c), "empty": lambda c, e: ([], c), "tail": lambda c, e: ([c, I], c), "length": lambda c, e: ([c], I), "take": lambda c, e: ([c, I], c), "prepend": lambda c, e: ([e, c], c),
        "slice": lambda c, e: ([c, I, I], c), "row_slice": lambda c, e: ([c, I, I], c), "col_slice": lambda c, e: ([c, I, I], c), "slice_with_length": lambda c, e: ([c, I, I], c), "row_slice_with_length": lambda c, e: ([c, I, I], c), "col_slice_with_length": lambda c, e: ([c, I, I], c),
        "transpose": lambda c, e: ([c], c), "concat": lambda c, e: ([c, c], c), "sqrt": lambda c, e: ([I], I), "exp": lambda c, e: ([I], I)}
for ir, lib in LISTFN.items():
    k, _, rest = ir.partition("_")
    if rest in SIGS:
        c, e = {"list": (L, I), "vec": (L, I), "matrix": (M, L), "tensor3d": (T, M), "integer": (I, I)}[k]
        a, r = SIGS[rest](c, e)
        FORMS[lib] = (("Call", ir), a, r)
for nm, a, r in [("set-insert", [I, S], S), ("set-singleton", [I], S), ("set-union", [S, S], S), ("set-minus", [S, S], S), ("set-subset", [S, S], B), ("set-member", [I, S], B), ("set-create", [], S)]:
    FORMS[nm] = (("Call", nm), a, r)
FORMS["set-eq"] = ("Eq", [S, S], B)
FORMS["make-tuple"] = ("TupleExpr", [I, B], TU)
for nm, (r, a) in FNS.items():
    FORMS[nm] = (("Call", nm), a, r)
MORE = [("+", [I, I, I], I), ("*", [I, I, I], I), ("&&", [B, B, B], B), ("or", [B, B, B, B], B), ("+", [I, I, I, I], I), ("make-tuple", [L, I, B], LT), ("make-tuple", [I, I, I], ("Tuple", I, I, I)), ("if", [B, L, L], L), ("if", [B, B, B], B), ("if", [B, M, M], M), ("if", [B, S, S], S), ("if", [B, TU, TU], TU),
        ("equal?", [B, B], B), ("equal?", [L, L], B), ("equal?", [M, M], B), ("equal?", [T, T], B), ("equal?", [TU, TU], B), ("list-ref-noerr", [LB, I], B), ("list-tail-noerr", [LB, I], LB), ("list-take-noerr", [LB, I], LB), ("list-prepend", [B, LB], LB), ("list-append", [LB, B], LB), ("length", [LB], I), ("list-concat", [LB, LB], LB),
        ("length", [M], I), ("list-prepend", [L, M], M)]


def DICT(it, items=()):
    return it.alloc(HDict(list(items)))


def leafs(t):
    """operands of a type: text, expected"""
    if isinstance(t, tuple) and t[0] == "Fn":
        return [("dsl", ("Var", "dsl"))]
    out = [(n, ("Var", n)) for n, ty in ENV.items() if ty == t]
    if t == I:
        out += [("0", ("Lit", 0)), ("7", ("Lit", 7)), ("-3", ("Lit", -3)), ("123456789012", ("Lit", 123456789012))]
    if t == B:
        out += [("true", ("Lit", True)), ("false", ("Lit", False))]
    return out


def node(form, xs):
    c = FORMS[form][0]
    if isinstance(c, tuple):
        return ("Call", c[1]) + tuple(xs)
    return (c,) + tuple(xs)


def texts(form, ts, k):
    """operand choice k: distinct leaves wherever there are several of the type"""
    out, used = [], {}
    for n, t in enumerate(ts):
        ls = leafs(t)
        j = used.get(str(t), k)
        out.append(ls[j % len(ls)])
        used[str(t)] = j + 1
    return out


def lit(v):
    if isinstance(v, tuple):
        return tuple(lit(x) for x in v)
    return v


def strict(n):
    """the node as written, without any normalisation"""
    if hasattr(n, "src"):
        return strict(n.src)
    if hasattr(n, "cls") and hasattr(n, "args"):
        if n.cls in ("IntLit", "BoolLit"):
            return ("Lit", n.args[0].v)
        return (n.cls,) + tuple(strict(a) for a in n.args)
    if isinstance(n, K):
        return n.v
    return n


def run(ctx):
    ctx.rule("each operator and built-in of an answer, with every choice of variables and literals as operands, and every pair nested at every fitting position, is read as the expression that prints to it, operands in order, with the result type of the operation")
    ctx.rule("an answer that names an unknown function, operator or variable is rejected")
    ctx.rule("whole answers: each function's definition is taken from its own form, over several lines, under its own parameters; a function the answer leaves out keeps the only candidate its grammar has")
    b = Bench(ctx)
    h, it = b.h, b.it
    f = ctx.lookup(SR + ":to_expr")
    w = ctx.where(f)

    def env(it_, only=None):
        fns = DICT(it, [(K(n), h.ty(("Fn", r) + tuple(a))) for n, (r, a) in FNS.items()])
        vs = DICT(it, [(K(n), h.ty(t)) for n, t in ENV.items()])
        return fns, vs

    def read(it_, text, choices=None):
        fns, vs = env(it_)
        ast = it.getitem(it.call(ctx.lookup(SR + ":generate_ast"), [K(text)], {}), K(0)) if text.startswith("(") else K(text)
        return it.call(f, [ast, fns, vs, choices if choices is not None else DICT(it)], {})

    def same(v, want, ty=None, text=""):
        got = strict(h.reify(v)) if isinstance(v, Ref) else None
        if got != want:
            return "%s is read as %s" % (text, shownode(h.reify(v)) if got else v)
        if ty is not None:
            t = h.reify(v).type
            if t != h.ty(ty) and not (ty in (M, T) and t == h.ty(spelled(ty))):
                return "%s is read with another type than %s" % (text, ty)
        return None

    def batch(key, items):
        """items: (text, expected, type)"""
        def go(it_):
            for text, want, ty in items:
                m = same(read(it_, text), want, ty, text)
                if m:
                    return m
            return ""
        h.decide(key, go, lambda v, r: v or None if isinstance(v, str) else "no answer", w)
    for t in (I, B, L, M, T, S, TU):
        batch("read/atoms of type %s" % (t,), [(x, e, t) for x, e in leafs(t)])
    sigs = [(o, a, r) for o, (c, a, r) in FORMS.items()] + MORE
    for n, (o, a, r) in enumerate(sigs):
        items = []
        for k in range(6):
            xs = texts(o, a, k)
            items.append(("(%s)" % " ".join([o] + [x for x, _ in xs]), node(o, [e for _, e in xs]), r))
        if "-slice" not in o and o not in FNS:
            pass
        batch("read/%s %d" % (o, n), items)
    # nested: every form inside every form that takes its type
    for o, a, r in sigs:
        items = []
        for pos, t in enumerate(a):
            for o2, a2, r2 in sigs:
                if r2 != t:
                    continue
                for k in (0,) if not ctx.thorough else (0, 1, 2):
                    inner = texts(o2, a2, k + 1)
                    xs = texts(o, a, k)
                    xs[pos] = ("(%s)" % " ".join([o2] + [x for x, _ in inner]), node(o2, [e for _, e in inner]))
                    items.append(("(%s)" % " ".join([o] + [x for x, _ in xs]), node(o, [e for _, e in xs]), r if o not in ("set-create",) else None))
        if items:
            batch("nested/%s%s" % (o, "" if (o, a, r) == (o, FORMS[o][1], FORMS[o][2]) else " %s" % (a,)), items)
    # tuples, let, choose, references to shared parts
    for tv, n in (("tu", 2), ("lt", 3)):
        batch("read/tupleGet %d" % n, [("(tupleGet %s %d)" % (tv, k), ("TupleGet", ("Var", tv), ("Lit", k)), ENV[tv][1 + k]) for k in range(n)] + [("(tupleGet (make-tuple i true) %d)" % k, ("TupleGet", ("TupleExpr", ("Var", "i"), ("Lit", True)), ("Lit", k)), TU[1 + k]) for k in range(2)])
    batch("read/let", [("(let ((z (+ i 1))) (* z j))", ("Let", ("Var", "z"), ("Add", ("Var", "i"), ("Lit", 1)), ("Mul", ("Var", "z"), ("Var", "j"))), I), ("(let ((z l)) (list-tail-noerr z 1))", ("Let", ("Var", "z"), ("Var", "l"), ("Call", "list_tail", ("Var", "z"), ("Lit", 1))), L),
                       ("(let ((z p)) (let ((y (! z))) (&& y z)))", ("Let", ("Var", "z"), ("Var", "p"), ("Let", ("Var", "y"), ("Not", ("Var", "z")), ("And", ("Var", "y"), ("Var", "z")))), B), ("(let ((i l)) (list-ref-noerr i 0))", ("Let", ("Var", "i"), ("Var", "l"), ("Call", "list_get", ("Var", "i"), ("Lit", 0))), I)])
    batch("read/a single alternative", [("(choose (+ i j))", ("Add", ("Var", "i"), ("Var", "j")), I), ("(+ (choose i) (choose (- j 1)))", ("Add", ("Var", "i"), ("Sub", ("Var", "j"), ("Lit", 1))), I)])
    batch("read/a definition", [("(define (f i j) (- i j))", ("Sub", ("Var", "i"), ("Var", "j")), I), ("(define (f) 1)", ("Lit", 1), I), ("(define (f p) p)", ("Var", "p"), B)])
    # unknown constructs
    for text in ["(frobnicate i j)", "(list-set l 0 1)", "(ormap p l)", "(list i j)", "(map-frob i)", "zz", "(+ i zz)", "(- zz i)", "(list-ref-noerr zz 0)", "(if p i zz)", "(dsl i zz)", "(?? integer?)", "(choose (frob i))", "(let ((z (frob i))) z)", "(let ((z i)) (+ z zz))", "(cond (p i))", "(set-insert zz s)", "(vec-slice l 0 1)", "(list_get l 0)", "(bvadd i j)", "(abs i)", "(case i)", "(modulo i j)", "(expt i j)", "(/ i j)",
                 "(equal? i)", "(< i)", "(list-ref-noerr l)", "(if p i)", "(! )", "(list-concat l)", "(set-union s)", "(list-append l)", "(matrix-ref-noerr)", "(length)", "(vec-slice-noerr l 1)", "(=> zz p)"]:
        if text in ("(equal? i)", "(< i)"):
            pass
        h.must_raise("rejected/%s" % text, lambda it_, text=text: read(it_, text), "the answer %s" % text, w)
    names(ctx, b, read, same, w)
    whole(ctx, b)


def spelled(t):
    return ("List", ("List", "Int")) if t == M else ("List", ("List", ("List", "Int")))


def names(ctx, b, read, same, w):
    """parameters take precedence over functions of the same name"""
    h, it = b.h, b.it
    f = ctx.lookup(SR + ":to_expr")

    def go(it_):
        fns = DICT(it, [(K("g"), h.ty(("Fn", I, I)))])
        vs = DICT(it, [(K("g"), h.ty(I)), (K("x"), h.ty(I))])
        ast = it.getitem(it.call(ctx.lookup(SR + ":generate_ast"), [K("(+ g x)")], {}), K(0))
        r = it.call(f, [ast, fns, vs, DICT(it)], {})
        n = h.reify(r)
        if strict(n) != ("Add", ("Var", "g"), ("Var", "x")):
            return "(+ g x) is read as %s" % shownode(n)
        return None if n.args[0].type == h.ty(I) else "a parameter named like a function is read as the function"
    h.decide("read/a parameter named like a function", go, lambda v, r: v if isinstance(v, str) else None, w)

    # (v0) stands for the shared part v0
    def refs(it_, alts, text):
        mk = lambda x: x if not isinstance(x, str) else h.mk("Var", K(x), h.ty(I))
        build = lambda e: h.mk("IntLit", K(e)) if isinstance(e, int) else h.mk("Var", K(e), h.ty(I)) if isinstance(e, str) else h.mk(e[0], *[build(x) for x in e[1:]])
        ch = DICT(it, [(K(n), h.mk("Choose", build(e))) for n, e in alts.items()])
        return read(it_, text, ch)
    V = lambda n: ("Var", n)
    for name, alts, text, want in [("one", {"v0": ("Add", "i", 1)}, "(v0)", ("Add", V("i"), ("Lit", 1))), ("inside", {"v0": ("Add", "i", 1)}, "(* (v0) j)", ("Mul", ("Add", V("i"), ("Lit", 1)), V("j"))), ("two", {"v0": ("Add", "i", 1), "v1": ("Sub", "j", "i")}, "(* (v1) (v0))", ("Mul", ("Sub", V("j"), V("i")), ("Add", V("i"), ("Lit", 1)))),
                                   ("of another", {"v0": ("Add", "(v1)", 1), "v1": ("Sub", "j", "i")}, "(v0)", ("Add", ("Sub", V("j"), V("i")), ("Lit", 1))), ("of another that refers on", {"v0": ("Add", "(v1)", "(v2)"), "v1": ("Sub", "(v2)", "i"), "v2": ("Mul", "j", 2)}, "(v0)", ("Add", ("Sub", ("Mul", V("j"), ("Lit", 2)), V("i")), ("Mul", V("j"), ("Lit", 2)))),
                                   ("alias", {"v0": "(v1)", "v1": ("Sub", "j", "i")}, "(v0)", ("Sub", V("j"), V("i"))), ("a variable", {"v0": "i"}, "(+ (v0) 1)", ("Add", V("i"), ("Lit", 1)))]:
        h.decide("shared parts/%s" % name, lambda it_, alts=alts, text=text: refs(it_, alts, text), lambda v, r, text=text, want=want: same(v, want, None, text), w)


def wrap(text, width):
    """break a definition over lines the way a pretty printer does: before an operand, indented"""
    if not width:
        return text
    out, line = [], ""
    for tok in text.split(" "):
        if len(line) + len(tok) > width and line.strip():
            out.append(line)
            line = "   " + tok
        else:
            line = line + " " + tok if line else tok
    return "\n".join(out + [line])


def whole(ctx, b):
    """synthesize() without verification returns exactly the answer"""
    h, it = b.h, b.it
    w = ctx.where(ctx.lookup(SR + ":synthesize"))
    X = [("x", "Int")]
    g = Fn("g", X, "Int", op("Add", "x", 1))
    gl = Fn("one", [("l", L)], L, "l")
    PS = Fn("f_ps", [("x", "Int"), ("l", L), ("f_rv", "Int")], "Bool", op("Eq", "f_rv", "x"))
    INV = Fn("f_inv0", [("i", "Int"), ("l", L), ("acc", L)], "Bool", op("Le", "i", 3))
    INV2 = Fn("f_inv1", [("acc", "Int"), ("i", "Bool")], "Bool", "i")
    HE = Fn("pick", [("l", "Int"), ("y", "Int")], "Int", op("Sub", "l", "y"))
    V = [("x", "Int"), ("f_rv", "Int"), ("l", L), ("i", "Int"), ("acc", L)]
    vc = op("Implies", call("f_inv0", "i", "l", "acc"), call("f_ps", "x", "l", "f_rv"))
    D = {
        "f_ps": [("(equal? f_rv (g (list-ref-noerr l x)))", ("Eq", ("Var", "f_rv"), ("Call", "g", ("Call", "list_get", ("Var", "l"), ("Var", "x"))))), ("(equal? f_rv (if (< x 0) (- 0 x) (length (one l))))", ("Eq", ("Var", "f_rv"), ("Ite", ("Lt", ("Var", "x"), ("Lit", 0)), ("Sub", ("Lit", 0), ("Var", "x")), ("Call", "list_length", ("Call", "one", ("Var", "l"))))))],
        "f_inv0": [("(&& (<= 0 i) (&& (<= i (length l)) (equal? acc (list-take-noerr l i))))", ("And", ("Le", ("Lit", 0), ("Var", "i")), ("And", ("Le", ("Var", "i"), ("Call", "list_length", ("Var", "l"))), ("Eq", ("Var", "acc"), ("Call", "list_take", ("Var", "l"), ("Var", "i")))))), ("(or (! (equal? i 0)) (equal? acc (list-empty)))", ("Or", ("Not", ("Eq", ("Var", "i"), ("Lit", 0))), ("Eq", ("Var", "acc"), ("Call", "list_empty"))))],
        "f_inv1": [("(=> i (> acc -2))", ("Implies", ("Var", "i"), ("Gt", ("Var", "acc"), ("Lit", -2)))), ("i", ("Var", "i"))],
        "pick": [("(if (< l y) l (* y 2))", ("Ite", ("Lt", ("Var", "l"), ("Var", "y")), ("Var", "l"), ("Mul", ("Var", "y"), ("Lit", 2)))), ("(g (- l y))", ("Call", "g", ("Sub", ("Var", "l"), ("Var", "y"))))],
    }
    sets = [("summary only", [PS], [], call("f_ps", "x", "l", "f_rv")), ("summary and invariant", [INV, PS], [], vc), ("summary first", [PS, INV], [], vc), ("two invariants", [INV, INV2, PS], [], vc), ("with a helper", [INV, PS], [HE], vc), ("all", [PS, INV2, INV], [HE], vc)]
    for name, cands, helpers, cond in sets:
        sc = Scenario([g, gl], cands, cond, V, helpers)
        fs = cands + helpers
        for order in (list(range(len(fs))), list(range(len(fs)))[::-1]):
            for k, width in ((0, 0), (1, 0), (0, 30), (1, 18)):
                defs = ["(define (%s) %s)" % (" ".join([fs[j].name] + [n for n, _ in fs[j].params]), D[fs[j].name][(k + j) % 2][0]) for j in order]
                ans = answer_text([wrap(d, width) for d in defs])

                def go(it_, sc=sc, ans=ans):
                    bd = Builder(b, sc)
                    b.world([{"files": {"synthesisLogs/prog_sol0": ans}}], lambda w_, a: (1, ""))
                    r = b.synthesize(**dict(bd.kw(), no_verify=K(True)))
                    return [h.reify(c) for c in it.iter_items(r)]

                def expect(v, r, fs=fs, k=k):
                    got = {c.args[0].v: c for c in v}
                    if sorted(c.args[0].v for c in v) != sorted(x.name for x in fs):
                        return "the answer is read as definitions of %s" % sorted(c.args[0].v for c in v)
                    for j, x in enumerate(fs):
                        c = got[x.name]
                        ps = [(a.args[0].v, a.type) for a in c.args[2:]]
                        if ps != [(n, h.ty(t)) for n, t in x.params]:
                            return "%s is read with the parameters %s" % (x.name, [p for p, _ in ps])
                        want = ctuple(D[x.name][(k + j) % 2][1])
                        if canon(c.args[1]) != want:
                            return "%s is read as %s" % (x.name, shownode(c.args[1]))
                        bad = mistyped(c.args[1], dict(ps))
                        if bad:
                            return "%s is read with %s of another type than its parameter" % (x.name, bad)
                    return None
                h.decide("answers/%s %s lines %s/%d" % (name, "in order" if order == sorted(order) else "reversed", width or "whole", k), go, expect, w)
        # parts left out
        for miss in range(len(fs)):
            defs = ["(define (%s) %s)" % (" ".join([x.name] + [n for n, _ in x.params]), D[x.name][0][0]) for j, x in enumerate(fs) if j != miss]

            def go(it_, sc=sc, defs=defs):
                bd = Builder(b, sc)
                b.world([{"files": {"synthesisLogs/prog_sol0": answer_text(defs)}}], lambda w_, a: (1, ""))
                r = b.synthesize(**dict(bd.kw(), no_verify=K(True)))
                return [h.reify(c) for c in it.iter_items(r)]

            def expect(v, r, fs=fs, miss=miss):
                from .p14 import Fn as _F  # noqa: F401
                for c in v:
                    j = [x.name for x in fs].index(c.args[0].v)
                    want = ctuple(D[fs[j].name][0][1]) if j != miss else ctuple(tree(fs[j].body))
                    if canon(c.args[1]) != want:
                        return "%s is read as %s" % (fs[j].name, shownode(c.args[1]))
                return None if len(v) == len(fs) else "%d definitions are read" % len(v)
            h.decide("answers/%s without %s" % (name, fs[miss].name), go, expect, w)
            # nothing is carried over from the answer of an earlier round
            first = ["(define (%s) %s)" % (" ".join([x.name] + [n for n, _ in x.params]), D[x.name][1][0]) for x in fs]

            def go2(it_, sc=sc, defs=defs, first=first):
                bd = Builder(b, sc)
                said = []

                def verifier(w_, a):
                    said.append(1)
                    return (0, "sat\n") if len(said) == 1 else (0, "unsat\n")
                b.world([{"files": {"synthesisLogs/prog_sol0": answer_text(first)}}, {"files": {"synthesisLogs/prog_sol1": answer_text(defs)}}], verifier)
                r = b.synthesize(**dict(bd.kw(), rounds_to_guess=K(1)))
                return [h.reify(c) for c in it.iter_items(r)]
            h.decide("answers/%s without %s in the second round" % (name, fs[miss].name), go2, expect, w)


def tree(t):
    if isinstance(t, bool) or isinstance(t, int):
        return ("Lit", t)
    if isinstance(t, str):
        return ("Var", t)
    if t[0] == "call":
        return ("Call", t[1]) + tuple(tree(x) for x in t[2:])
    return (t[0],) + tuple(tree(x) for x in t[1:])


def mistyped(n, types):
    if hasattr(n, "cls"):
        if n.cls == "Var" and n.args[0].v in types and n.type != types[n.args[0].v]:
            return n.args[0].v
        for a in n.args:
            m = mistyped(a, types)
            if m:
                return m
    return None
