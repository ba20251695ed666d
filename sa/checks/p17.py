"""P17: the tensor target language: operator definitions, the helpers that call them, their axioms"""
from ..irh import IRH, Node, Obj, shownode
from ..values import ClassV, HInst, HList, K, Ref, Tup, show

FLOOR = 60
TC = "metalift.utils.tenspiler.tenspiler_common"
AX = "metalift.utils.tenspiler.axioms"
CO = "metalift.utils.tenspiler.constants"

VEC, MAT, TEN = ("List", "Int"), ("Matrix", "Int"), ("Tensor3D", "Int")
TY = {1: VEC, 2: MAT, 3: TEN}
PRE = {1: "list", 2: "matrix", 3: "tensor3d"}
OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div"}


# ------------------------------------------------------------------ terms
def term(n):
    """a built expression as nested tuples: variables are strings, literals Python values, calls start with the name called"""
    if isinstance(n, Obj):
        return term(n.src)
    if isinstance(n, K):
        return n.v
    if not isinstance(n, Node):
        return n
    if n.cls == "Var" or n.cls == "Lit":
        return term(n.args[0])
    if n.cls == "Call":
        return (term(n.args[0]),) + tuple(term(a) for a in n.args[1:])
    if n.cls == "CallValue":
        return ("$apply",) + tuple(term(a) for a in n.args)
    return (n.cls,) + tuple(term(a) for a in n.args)


LEN = {p + "_length": d for d, p in PRE.items()}


def neg(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "Le":
        return ("Le", plus(c[2], 1), c[1])
    if c[0] == "Not":
        return c[1]
    if c[0] == "And":
        return norm(("Or",) + tuple(neg(x) for x in c[1:]))
    if c[0] == "Or":
        return norm(("And",) + tuple(neg(x) for x in c[1:]))
    return ("Not", c)


def plus(t, k):
    """t + k for a literal k"""
    if isinstance(t, int) and not isinstance(t, bool):
        return t + k
    if isinstance(t, tuple) and t[0] == "Add":
        c = [x for x in t[1:] if isinstance(x, int)]
        rest = [x for x in t[1:] if not isinstance(x, int)]
        s = sum(c) + k
        if not s:
            return rest[0] if len(rest) == 1 else ("Add",) + tuple(rest)
        return ("Add",) + tuple(sorted(rest + [s], key=repr))
    return t if not k else ("Add",) + tuple(sorted([t, k], key=repr))


def norm(t):
    """terms that mean the same by arithmetic, order of operands and spelling of comparisons become the same term"""
    if not isinstance(t, tuple):
        return t
    t = (t[0],) + tuple(norm(x) for x in t[1:])
    op = t[0]
    if op == "Gt":
        return norm(("Lt", t[2], t[1]))
    if op == "Ge":
        return norm(("Le", t[2], t[1]))
    if op == "Lt":
        return norm(("Le", plus(t[1], 1), t[2]))
    if op == "Le":
        a, b = t[1], t[2]
        # move literals to one side: (a + k <= b) is (a <= b - k) when b is a literal
        if isinstance(b, int) and isinstance(a, tuple) and a[0] == "Add":
            c = sum(x for x in a[1:] if isinstance(x, int))
            return ("Le", plus(a, -c), b - c)
        if isinstance(a, int) and isinstance(b, tuple) and b[0] == "Add":
            c = sum(x for x in b[1:] if isinstance(x, int))
            return ("Le", a - c, plus(b, -c))
        if isinstance(b, tuple) and b[0] == "Add" and any(isinstance(x, int) for x in b[1:]):
            c = sum(x for x in b[1:] if isinstance(x, int))
            return ("Le", plus(a, -c), plus(b, -c))
        return ("Le", a, b)
    if op in ("Eq", "list_eq", "matrix_eq", "tensor3d_eq") and len(t) == 3:
        a, b = sorted(t[1:], key=repr)
        if {type(a), type(b)} == {int, tuple}:
            l, k = (a, b) if isinstance(b, int) else (b, a)
            if l[0] in LEN and k == 0:
                return ("Le", l, 0)
        return ("Eq", a, b)
    if op == "Not":
        return neg(t[1])
    if op in ("And", "Or"):
        out = []
        for x in t[1:]:
            for y in (x[1:] if isinstance(x, tuple) and x[0] == op else (x,)):
                if y not in out:
                    out.append(y)
        return out[0] if len(out) == 1 else (op,) + tuple(sorted(out, key=repr))
    if op in ("Add", "Mul"):
        out = []
        for x in t[1:]:
            out.extend(x[1:] if isinstance(x, tuple) and x[0] == op else (x,))
        k = [x for x in out if isinstance(x, int)]
        rest = [x for x in out if not isinstance(x, int)]
        if op == "Add":
            rest += [sum(k)] if sum(k) else []
        else:
            p = 1
            for x in k:
                p *= x
            rest += [p] if k and p != 1 else []
        if not rest:
            return 0 if op == "Add" else 1
        return rest[0] if len(rest) == 1 else (op,) + tuple(sorted(rest, key=repr))
    if op == "Sub" and len(t) == 3:
        a, b = t[1:]
        if isinstance(b, int):
            return plus(a, -b)
        return t
    if op == "Ite":
        c = t[1]
        n = neg(c)
        if repr(n) < repr(c):
            return ("Ite", n, t[3], t[2])
        return t
    if op in ("vec_slice", "matrix_row_slice", "tensor3d_slice") and len(t) == 4:
        p = {"vec_slice": "list", "matrix_row_slice": "matrix", "tensor3d_slice": "tensor3d"}[op]
        return norm((p + "_tail", (p + "_take", t[1], t[3]), t[2]))
    if op in ("list_tail", "matrix_tail", "tensor3d_tail") and t[2] == 0:
        return t[1]
    return t


def text(t):
    if isinstance(t, tuple):
        return "(" + " ".join(text(x) for x in t) + ")"
    return str(t)


def c(d, f, *a):
    return (PRE[d] + "_" + f,) + a


def get(d, l, i=0):
    return c(d, "get", l, i)


def rest(d, l):
    return c(d, "tail", l, 1)


def empty(d):
    return c(d, "empty")


def short(d, *ls):
    """the lists are empty or of different lengths"""
    return ("Or",) + (("Lt", c(d, "length", ls[0]), 1),) + tuple(("Not", ("Eq", c(d, "length", ls[0]), c(d, "length", l))) for l in ls[1:])


# ------------------------------------------------------------------ what the operators are
class Def:
    def __init__(self, params, ret, body):
        self.params, self.ret, self.body = params, ret, body


def table():
    out = {}
    nm = {1: "vec", 2: "matrix", 3: "tensor3d"}
    for o, cls in OPS.items():
        for d in (1, 2, 3):
            if d == 3 and o not in ("add", "mul"):
                continue
            n = "%s_elemwise_%s" % (nm[d], o)
            cur = (cls, get(1, "l"), get(1, "r")) if d == 1 else ("%s_elemwise_%s" % (nm[d - 1], o), get(d, "l"), get(d, "r"))
            out[n] = Def([("l", TY[d]), ("r", TY[d])], TY[d], ("Ite", short(d, "l", "r"), empty(d), c(d, "prepend", cur, (n, rest(d, "l"), rest(d, "r")))))
        for d in (1, 2):
            for n, low, left in (("%s_scalar_%s" % (nm[d], o), "vec_scalar_" + o, False), ("scalar_%s_%s" % (nm[d], o), "scalar_vec_" + o, True)):
                if left and o in ("add", "mul"):
                    continue
                x = get(d, "l")
                cur = (low, "s", x) if d == 2 else (cls, "s", x) if left else (cls, x, "s")
                out[n] = Def([("s", "Int"), ("l", TY[d])], TY[d], ("Ite", short(d, "l"), empty(d), c(d, "prepend", cur, (n, "s", rest(d, "l")))))
    for n, cls, base in (("reduce_sum", "Add", 0), ("reduce_mul", "Mul", 1)):
        out[n] = Def([("l", VEC)], "Int", ("Ite", short(1, "l"), base, (cls, get(1, "l"), (n, rest(1, "l")))))
    r = ("reduce_max", rest(1, "l"))
    out["reduce_max"] = Def([("l", VEC)], "Int", ("Ite", short(1, "l"), -32, ("Ite", ("Eq", c(1, "length", "l"), 1), get(1, "l"), ("Ite", ("Gt", get(1, "l"), r), get(1, "l"), r))))
    row = get(2, "m")
    out["matrix_vec_mul"] = Def([("m", MAT), ("v", VEC)], VEC,
                                ("Ite", ("Or", ("Lt", c(2, "length", "m"), 1), ("Lt", c(1, "length", row), 1), ("Not", ("Eq", c(1, "length", row), c(1, "length", "v")))), empty(1),
                                 c(1, "prepend", ("reduce_sum", ("vec_elemwise_mul", row, "v")), ("matrix_vec_mul", rest(2, "m"), "v"))))
    out["ite_int"] = Def([("c", "Bool"), ("x", "Int"), ("y", "Int")], "Int", ("Ite", "c", "x", "y"))
    f2 = ("Fn", "Int", "Int", "Int")
    f4 = ("Fn", "Int", "Int", "Int", "Int", "Int")
    for pre, extra, ft in (("", [], f2), ("dissolve_", ["o", "k"], f4)):
        n1, n2 = pre + "selection_two_args", pre + "matrix_selection_two_args"
        ps = [(x, "Int") for x in extra]
        e = tuple(extra)
        out[n1] = Def([("l", VEC), ("r", VEC)] + ps + [("f", None)], VEC,
                      ("Ite", short(1, "l", "r"), empty(1), c(1, "prepend", ("$apply", "f", get(1, "l"), get(1, "r")) + e, (n1, rest(1, "l"), rest(1, "r")) + e + ("f",))))
        out[n2] = Def([("l", MAT), ("r", MAT)] + ps + [("f", None)], MAT,
                      ("Ite", short(2, "l", "r"), empty(2), c(2, "prepend", (n1, get(2, "l"), get(2, "r")) + e + ("f",), (n2, rest(2, "l"), rest(2, "r")) + e + ("f",))))
        out[pre + "select_two_args"] = Def([("x", "Int"), ("y", "Int")] + ps, "Int", None)
    out["map_int_to_int"] = Def([("x", "Int")], "Int", None)
    out["vec_map"] = Def([("l", VEC), ("f", None)], VEC, ("Ite", short(1, "l"), empty(1), c(1, "prepend", ("$apply", "f", get(1, "l")), ("vec_map", rest(1, "l"), "f"))))
    for n, d, in (("vec_slice", 1), ("matrix_row_slice", 2)):
        out[n] = Def([("l", TY[d]), ("s", "Int"), ("e", "Int")], TY[d], c(d, "tail", c(d, "take", "l", "e"), "s"))
        out[n + "_with_length"] = Def([("l", TY[d]), ("s", "Int"), ("n", "Int")], TY[d], c(d, "tail", c(d, "take", "l", ("Add", "s", "n")), "s"))
    out["matrix_col_slice"] = Def([("l", MAT), ("s", "Int"), ("e", "Int")], MAT,
                                  ("Ite", short(2, "l"), empty(2), c(2, "prepend", ("vec_slice", get(2, "l"), "s", "e"), ("matrix_col_slice", rest(2, "l"), "s", "e"))))
    out["matrix_col_slice_with_length"] = Def([("l", MAT), ("s", "Int"), ("n", "Int")], MAT, ("matrix_col_slice", "l", "s", ("Add", "s", "n")))
    out["firsts"] = Def([("l", MAT)], VEC, ("Ite", short(2, "l"), empty(1), c(1, "prepend", get(1, get(2, "l")), ("firsts", rest(2, "l")))))
    out["rests"] = Def([("l", MAT)], MAT, ("Ite", short(2, "l"), empty(2), ("matrix_col_slice", "l", 1, c(1, "length", get(2, "l")))))
    out["matrix_transpose"] = Def([("l", MAT)], MAT,
                                  ("Ite", ("Or", ("Lt", c(2, "length", "l"), 1), ("Lt", c(1, "length", get(2, "l")), 1)), empty(2),
                                   c(2, "prepend", ("firsts", "l"), ("matrix_transpose", ("rests", "l")))))
    return out


# helper -> (operator, operand order) ; the operands are named by the parameters of the operator
def helpers(tab):
    out = {}
    for n in tab:
        if n.startswith("tensor3d_"):
            out["call_tensor_3d_" + n[len("tensor3d_"):]] = n
        elif not n.startswith(("select_", "dissolve_select_", "vec_slice", "matrix_row_slice", "matrix_col_slice", "firsts", "rests", "matrix_transpose", "ite_int")):
            out["call_" + n] = n
    return out


DISPATCH = {
    "call_elemwise_add": ("%s_elemwise_add", (1, 2, 3)), "call_elemwise_sub": ("%s_elemwise_sub", (1, 2)), "call_elemwise_mul": ("%s_elemwise_mul", (1, 2, 3)), "call_elemwise_div": ("%s_elemwise_div", (1, 2)),
    "call_scalar_add": ("%s_scalar_add", (1, 2)), "call_scalar_sub": ("%s_scalar_sub", (1, 2)), "call_scalar_mul": ("%s_scalar_mul", (1, 2)), "call_scalar_div": ("%s_scalar_div", (1, 2)),
    "call_scalar_rsub": ("scalar_%s_sub", (1, 2)), "call_scalar_rdiv": ("scalar_%s_div", (1, 2)),
}
CHOICES = {
    "vec_vec_to_vec": ((VEC, VEC), ["vec_elemwise_add", "vec_elemwise_sub", "vec_elemwise_mul", "vec_elemwise_div"]),
    "scalar_vec_to_vec": (("Int", VEC), ["vec_scalar_add", "vec_scalar_sub", "vec_scalar_mul", "vec_scalar_div", "scalar_vec_sub", "scalar_vec_div"]),
    "vec_to_int": ((VEC,), ["reduce_sum", "reduce_mul", "reduce_max"]),
    "matrix_vec_to_vec": ((MAT, VEC), ["matrix_vec_mul"]),
}
LISTS = {
    "vec_vec_to_vec_target_lang": CHOICES["vec_vec_to_vec"][1], "scalar_vec_to_vec_target_lang": CHOICES["scalar_vec_to_vec"][1], "vec_to_int_target_lang": CHOICES["vec_to_int"][1],
    "matrix_matrix_to_matrix_target_lang": ["matrix_elemwise_" + o for o in OPS],
    "scalar_matrix_to_matrix_target_lang": ["matrix_scalar_" + o for o in OPS] + ["scalar_matrix_sub", "scalar_matrix_div"],
    "matrix_vec_to_vec_target_lang": ["matrix_vec_mul", "vec_elemwise_mul", "reduce_sum"], "vec_to_vec_target_lang": ["vec_map", "map_int_to_int"],
}


def axioms(tab):
    """operator -> (variables, condition conjuncts, allowed alternatives, left, right)"""
    out = {}
    i = "i"
    for n, d_ in tab.items():
        if "elemwise" in n or n in ("matrix_selection_two_args", "dissolve_matrix_selection_two_args"):
            d = 1 if n.startswith("vec") else 2
            if n.startswith("tensor"):
                continue
            e = tuple(p for p, t in d_.params if t == "Int")
            l, r = ((c(d, "take", x, i) for x in "lr"))
            low = n.replace("matrix_", "vec_") if "elemwise" in n else n.replace("matrix_selection", "selection")
            cur = (OPS[n.rsplit("_", 1)[1]], get(1, "l"), get(1, "r")) if d == 1 else (low, get(d, "l"), get(d, "r")) + e
            sl = lambda x: c(d, "tail", c(d, "take", x, i), 1)
            out[n] = ([("l", TY[d]), ("r", TY[d])] + [(x, "Int") for x in e] + [(i, "Int")],
                      [[("Gt", i, 0)], [("Lt", i, c(d, "length", "l")), ("Le", i, c(d, "length", "l"))], [("Eq", c(d, "length", "l"), c(d, "length", "r"))]],
                      (n, l, r) + e, c(d, "prepend", cur, (n, sl("l"), sl("r")) + e))
        elif "scalar" in n:
            d = 2 if "matrix" in n else 1
            low = n.replace("matrix", "vec")
            o = OPS[n.rsplit("_", 1)[1]]
            x = get(d, "l")
            cur = (low, "s", x) if d == 2 else (o, "s", x) if n.startswith("scalar") else (o, x, "s")
            out[n] = ([("l", TY[d]), ("s", "Int"), (i, "Int")], [[("Gt", i, 0)], [("Lt", i, c(d, "length", "l")), ("Le", i, c(d, "length", "l"))]],
                      (n, "s", c(d, "take", "l", i)), c(d, "prepend", cur, (n, "s", c(d, "tail", c(d, "take", "l", i), 1))))
    row = get(2, "m")
    out["matrix_vec_mul"] = ([("m", MAT), ("v", VEC), (i, "Int")],
                             [[("Gt", i, 0)], [("Lt", i, c(2, "length", "m")), ("Le", i, c(2, "length", "m"))], [("Gt", c(1, "length", row), 0), ("Gt", c(1, "length", "v"), 0)],
                              [("Eq", c(1, "length", row), c(1, "length", "v"))]],
                             ("matrix_vec_mul", c(2, "take", "m", i), "v"),
                             c(1, "prepend", ("reduce_sum", ("vec_elemwise_mul", row, "v")), ("matrix_vec_mul", c(2, "tail", c(2, "take", "m", i), 1), "v")))
    t = c(1, "take", "l", ("Add", i, 1))
    out["reduce_sum"] = ([("l", VEC), (i, "Int"), ("b", "Int")], [[("Ge", i, 0)]], ("reduce_sum", t), ("Add", ("reduce_sum", c(1, "take", "l", i)), get(1, "l", i)))
    m = ("reduce_max", c(1, "take", "l", i))
    out["reduce_max"] = ([("l", VEC), (i, "Int"), ("b", "Int")], [[("Gt", i, 0)], [("Lt", i, c(1, "length", "l"))]], ("reduce_max", t), ("Ite", ("Gt", get(1, "l", i), m), get(1, "l", i), m))
    return out


def rename(t, m):
    if isinstance(t, tuple):
        return (t[0],) + tuple(rename(x, m) for x in t[1:])
    return m.get(t, t) if isinstance(t, str) else t


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = self.h.it
        self.tc = self.it.load_module(TC)
        self.tab = table()

    def items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.it.get(v)
            if isinstance(o, HList):
                return list(o.items)
        return []

    def decls(self):
        """every function declared at module level, by name"""
        out, seen = {}, set()

        def walk(v, n):
            if isinstance(v, Ref) and v.id not in seen:
                seen.add(v.id)
                o = self.it.get(v)
                if isinstance(o, HInst) and isinstance(o.cls, ClassV) and o.cls.name in ("FnDecl", "FnDeclRecursive"):
                    nd = self.h.reify(v)
                    out.setdefault(nd.args[0].v, []).append((n, v, nd))
                elif isinstance(o, HList):
                    for x in o.items:
                        walk(x, n)
        for n, v in self.tc.vars.items():
            if not n.startswith("__"):
                walk(v, n)
        return out

    def sym(self, name, ty):
        h = self.h
        if ty == "Int" or ty == "Bool":
            return h.mk(ty, K(name))
        if ty[0] == "Fn":
            return h.mk("Fn", Tup([h.ty(x) for x in ty[1:]]), K(name))
        return h.mk(ty[0], h.ty(ty[1]), K(name))

    # -------------------------------------------------------------- definitions
    def definitions(self):
        ctx = self.ctx
        ds = self.decls()
        where = TC.replace(".", "/") + ".py"
        for name, d in self.tab.items():
            key = "definition/" + name
            if name not in ds:
                if name.endswith("_with_length") or "dissolve" in name:
                    continue
                ctx.bad(key, "no function %s is declared" % name, where)
                continue
            for var, ref, nd in ds[name]:
                m = self.definition(name, d, nd)
                ctx.check(key, m is None, m or text(norm(term(nd.args[1]))), "%s (%s)" % (where, var))
        for name in ds:
            if name not in self.tab and not name.startswith("integer_"):
                ctx.stat("functions without a reference definition", 1)

    def definition(self, name, d, nd):
        body, params = nd.args[1], nd.args[2:]
        if len(params) != len(d.params):
            return "%s takes %d parameters instead of %d" % (name, len(params), len(d.params))
        m = {}
        for p, (q, ty) in zip(params, d.params):
            if not isinstance(p, Node) or p.cls != "Var":
                return "%s has the parameter %s" % (name, shownode(p))
            pn = p.args[0].v
            if pn in m:
                return "%s has two parameters named %s" % (name, pn)
            m[pn] = q
            if ty is not None and p.type != self.h.ty(ty):
                return "the parameter %s of %s has type %s instead of %s" % (pn, name, show(p.type), show(self.h.ty(ty)))
        rt = self.h.meth(self.decl_ref(nd, name), "return_type")
        if rt != self.h.ty(d.ret):
            return "%s returns %s instead of %s" % (name, show(rt), show(self.h.ty(d.ret)))
        if d.body is None:
            return None if body == K(None) else "%s is to be found but has the definition %s" % (name, shownode(body))
        if body == K(None):
            return "%s has no definition" % name
        got, want = norm(rename(term(body), m)), norm(d.body)
        if got != want:
            return "%s is defined as %s, expected %s" % (name, text(got), text(want))
        rec = uses(got, name)
        if rec and nd.cls != "FnDeclRecursive":
            return "%s calls itself but is not declared recursive" % name
        return None

    def decl_ref(self, nd, name):
        for var, ref, n2 in self.decls()[name]:
            if n2 is nd or n2 == nd:
                return ref
        raise KeyError(name)

    # -------------------------------------------------------------- helpers
    def call_helpers(self):
        h, ctx = self.h, self.ctx
        for helper, op in sorted(helpers(self.tab).items()):
            f = ctx.it.lookup(TC + ":" + helper)
            if f is None:
                continue
            d = self.tab[op]
            tys = [t if t is not None else ("Fn", "Int") + ("Int",) * (4 if op.startswith("dissolve") else 1 if op in ("vec_map",) else 2) for _, t in d.params]
            self.one("helper/" + helper, f, [n for n, _ in d.params], tys, op, d.ret)
        for helper, op, n in (("call_matrix_selection", "matrix_selection_two_args", 2), ("call_selection", "selection_two_args", 2),
                              ("call_dissolve_matrix_selection", "dissolve_matrix_selection_two_args", 4), ("call_dissolve_selection", "dissolve_selection_two_args", 4)):
            f = ctx.it.lookup(TC + ":" + helper)
            if f is not None:
                d = self.tab[op]
                self.one("helper/" + helper, f, [p for p, _ in d.params[:n]], [t for _, t in d.params[:n]], op, d.ret)
        for helper, (pat, dims) in DISPATCH.items():
            f = ctx.it.lookup(TC + ":" + helper)
            if f is None:
                continue
            for k in dims:
                op = pat % {1: "vec", 2: "matrix", 3: "tensor3d"}[k]
                d = self.tab[op]
                self.one("helper/%s/%s" % (helper, PRE[k]), f, [n for n, _ in d.params], [t for _, t in d.params], op, d.ret)
        for name, (tys, ops) in CHOICES.items():
            f = self.tc.vars.get(name)
            if f is None:
                continue
            args = ["l", "r"] if tys == (VEC, VEC) else [{"Int": "s", VEC: "l" if name != "matrix_vec_to_vec" else "v", MAT: "m"}[t] for t in tys]

            def expect(v, r, ops=ops, args=args):
                t = term(v)
                if len(ops) == 1 and t[0] != "Choose":
                    t = ("Choose", t)
                flat = []

                def walk(x):
                    if isinstance(x, tuple) and x[0] == "Choose":
                        for y in x[1:]:
                            walk(y)
                    else:
                        flat.append(x)
                walk(t)
                got = sorted(text(x) for x in flat)
                want = sorted(text((o,) + tuple(args)) for o in ops)
                return None if got == want else "offers %s, expected %s" % (got, want)
            h.decide("choice/" + name, lambda it, f=f, args=args, tys=tys: h.reify(it.call(f, [self.sym(a, t) for a, t in zip(args, tys)], {})), expect, TC)

    def one(self, key, f, names, tys, op, ret):
        h = self.h
        want = (op,) + tuple(names)

        def expect(v, r):
            t = term(v)
            if t != want:
                return "calls %s, expected %s" % (text(t), text(want))
            src = v.src if isinstance(v, Obj) else v
            if src.type != h.ty(ret):
                return "the call has type %s, the operator returns %s" % (show(src.type), show(h.ty(ret)))
            return None
        h.decide(key, lambda it: h.reify(it.call(f, [self.sym(n, t) for n, t in zip(names, tys)], {})), expect, self.ctx.where(f))

    # -------------------------------------------------------------- lists of operators
    def lists(self):
        ctx = self.ctx
        for name, ops in LISTS.items():
            v = self.tc.vars.get(name)
            if v is None:
                continue
            got = [self.h.reify(x).args[0].v for x in self.items(v)]
            ctx.check("target language/" + name, sorted(got) == sorted(ops), "%s holds %s, expected %s" % (name, sorted(got), sorted(ops)), TC)

    # -------------------------------------------------------------- axioms
    def axioms(self):
        ctx, it, h = self.ctx, self.it, self.h
        it.load_module(AX)
        co = it.load_module(CO)
        table_ = co.vars.get("TENSPILER_FN_NAME_TO_AXIOMS")
        ref = axioms(self.tab)
        if table_ is None:
            return ctx.unknown("axioms", "there is no table of axioms", CO)
        where = AX.replace(".", "/") + ".py"
        n = 0
        for k, v in it.get(table_).items:
            op = k.v
            for a in self.items(v):
                n += 1
                key = "axiom/" + op
                nd = h.reify(a)
                if op not in ref:
                    ctx.stat("axioms without a reference", 1)
                    continue
                m = self.axiom(op, nd, ref[op])
                ctx.check(key, m is None, m or text(norm(term(nd.args[0]))), where)
        fns = co.vars.get("TENSPILER_FNS")
        if fns is not None:
            names = [h.reify(x).args[0].v for x in self.items(fns)]
            ctx.check("functions/sorted", names == sorted(names) and len(set(names)) == len(names), "the functions offered are listed as %s" % names, CO)
            want = [x for l in LISTS.values() for x in l if self.tab[x].body is not None] + ["matrix_selection_two_args", "selection_two_args", "vec_slice", "matrix_row_slice", "matrix_col_slice",
                                                                                              "firsts", "rests", "matrix_transpose", "ite_int"]
            miss = sorted(set(want) - set(names))
            ctx.check("functions/complete", not miss, "the functions offered lack %s" % miss, CO)

    def axiom(self, op, nd, ref):
        if not isinstance(nd, Node) or nd.cls != "Axiom":
            return "the axiom of %s is %s" % (op, shownode(nd))
        vars_, conds, left, right = ref
        t = term(nd.args[0])
        if t[0] != "Implies":
            return "the axiom of %s is %s, which has no condition" % (op, text(t))
        qs = [(q.args[0].v, q.type) for q in nd.args[1:]]
        if len({q for q, _ in qs}) != len(qs):
            return "the axiom of %s quantifies a name twice" % op
        free = set()
        variables(t, free)
        miss = free - {q for q, _ in qs}
        if miss:
            return "the axiom of %s does not quantify %s" % (op, sorted(miss))
        # find the naming of the variables that makes the two sides agree
        eq = norm(t[2])
        if not (isinstance(eq, tuple) and eq[0] == "Eq"):
            return "the axiom of %s states %s, which is no equation" % (op, text(eq))
        byty = [[n for n, ty in qs if ty == self.h.ty(vt)] for _, vt in vars_]
        best = None
        for pick in product(byty):
            if len(set(pick)) != len(pick):
                continue
            m = {a: b for a, (b, _) in zip(pick, vars_)}
            got = norm(rename(t, m))
            want_eq = norm(("Eq", left, right))
            if norm(rename(t[2], m)) != want_eq:
                best = best or "the axiom of %s states %s, expected %s" % (op, text(norm(rename(t[2], m))), text(want_eq))
                continue
            have = norm(rename(t[1], m))
            have = list(have[1:]) if isinstance(have, tuple) and have[0] == "And" else [have]
            for alts in conds:
                if not any(norm(x) in have for x in alts):
                    return "the axiom of %s holds only when %s, which it does not require" % (op, text(norm(alts[0])))
            known = [norm(x) for alts in conds for x in alts]
            for x in have:
                if x in known or "b" in free_of(x):
                    continue
                if op in ("reduce_sum", "reduce_max") and x in (norm(("Lt", "i", c(1, "length", "l"))), norm(("Le", "i", c(1, "length", "l")))):
                    continue
                return "the axiom of %s requires %s" % (op, text(x))
            return None
        return best or "the axiom of %s quantifies %s" % (op, [(n, show(t)) for n, t in qs])


def free_of(t):
    s = set()
    variables(t, s)
    return s


def variables(t, out):
    if isinstance(t, tuple):
        for x in t[1:]:
            variables(x, out)
    elif isinstance(t, str):
        out.add(t)


def uses(t, name):
    return isinstance(t, tuple) and (t[0] == name or any(uses(x, name) for x in t[1:]))


def product(ls):
    if not ls:
        yield ()
        return
    for x in ls[0]:
        for r in product(ls[1:]):
            yield (x,) + r


def run(ctx):
    ctx.rule("every operator of the target language, read from its declaration: same parameters, result type and recursion (base case, element operation and operand order, recursive call on the rest with the operator of that dimension) as the operator its name says, up to arithmetic and spelling of conditions")
    ctx.rule("every helper that builds a call, for every dimension: the name, operand order and result type of that operator")
    ctx.rule("every axiom in the table: quantifies what it uses, states the recursion of the operator it is filed under, and requires a non-empty prefix and equal lengths where the operator does")
    r = Run(ctx)
    for part in (r.definitions, r.call_helpers, r.lists, r.axioms):
        part()
