"""P29: the search spaces of the tensor library: what a candidate may mention, its types, its depth, and what is always among the candidates"""
import itertools

from ..irh import IRH
from ..llfront import LF
from ..values import ClassV, HInst, K, Ref, Tup
from .p17 import AX, CO, TC

FLOOR = 90

I, B, L, M = "Int", "Bool", "List[Int]", "Matrix[Int]"
ANY = None
# the functions every back end defines (checked under P15): parameters and result
BUILTIN = {
    "list_length": ((L,), I), "matrix_length": ((M,), I), "list_get": ((L, I), I), "matrix_get": ((M, I), L), "list_tail": ((L, I), L), "matrix_tail": ((M, I), M), "list_take": ((L, I), L), "matrix_take": ((M, I), M),
    "list_prepend": ((I, L), L), "matrix_prepend": ((L, M), M), "list_append": ((L, I), L), "matrix_append": ((M, L), M), "list_empty": ((), L), "matrix_empty": ((), M), "list_concat": ((L, L), L),
    "vec_slice": ((L, I, I), L), "matrix_row_slice": ((M, I, I), M), "matrix_col_slice": ((M, I, I), M), "vec_slice_with_length": ((L, I, I), L), "matrix_row_slice_with_length": ((M, I, I), M), "matrix_col_slice_with_length": ((M, I, I), M),
    "matrix_transpose": ((M,), M), "integer_exp": ((I,), I), "integer_sqrt": ((I,), I),
}
ARITH = {"Add", "Sub", "Mul", "Div", "Mod"}
COMPARE = {"Lt", "Le", "Gt", "Ge"}


class N:
    __slots__ = ("cls", "type", "args")

    def __init__(self, cls, type_, args):
        self.cls, self.type, self.args = cls, type_, args


class Bad(Exception):
    pass


class Odd(Exception):
    pass


def show(n, k=0):
    if not isinstance(n, N):
        return str(n)
    if n.cls in ("Var", "Lit"):
        return str(n.args[0])
    if k > 3:
        return "..."
    a = [show(x, k + 1) for x in n.args]
    if n.cls == "Call":
        return "%s(%s)" % (a[0], ", ".join(a[1:]))
    return "%s(%s)" % (n.cls, ", ".join(a[:3] + ["..."] * (len(a) > 3)))


class Reader:
    def __init__(self, h):
        self.h, self.it, self.memo = h, h.it, {}

    def obj(self, v):
        """the expression of an object, or an expression itself"""
        it, h = self.it, self.h
        if isinstance(v, Ref):
            if v in self.memo:
                return self.memo[v]
            o = it.get(v)
            if isinstance(o, HInst) and isinstance(o.cls, ClassV):
                if it.subtype(o.cls, h.Expr):
                    n = N(o.cls.name, str(o.fields.get("type")), tuple(self.obj(a) for a in it.iter_items(o.fields["args"])))
                elif it.subtype(o.cls, h.Object):
                    n = self.obj(it.getattr(v, "src"))
                else:
                    raise Odd("an object of %s" % o.cls.name)
                self.memo[v] = n
                return n
        if isinstance(v, K):
            return v.v
        if v is None:
            return None
        if isinstance(v, (ClassV,)):
            raise Bad("%s stands where an expression is expected" % v.name)
        raise Odd("the value %s in an expression" % (v,))

    def all(self, v):
        return [self.obj(x) for x in self.it.iter_items(v)]


class Typing:
    """types of a grammar: every alternative, every operand, every argument; names in scope; functions known"""

    def __init__(self, scope, fns, own=()):
        self.scope, self.fns, self.memo, self.called = dict(scope), fns, {}, set()
        self.own = dict(own)

    def of(self, n):
        k = id(n)
        if k not in self.memo:
            self.memo[k] = (self.compute(n), n)
        return self.memo[k][0]

    def args(self, n, what, want, args):
        if len(args) != len(want):
            raise Bad("%s gets %d arguments instead of %d" % (what, len(args), len(want)))
        for k, (a, w) in enumerate(zip(args, want)):
            t = self.of(a)
            if w is not ANY and t != w:
                raise Bad("argument %d of %s is %s of type %s instead of %s" % (k + 1, what, show(a), t, w))

    def compute(self, n):
        if not isinstance(n, N):
            raise Bad("%s where an expression is expected" % (n,))
        t = self.rule(n)
        if t != n.type and not (n.cls == "CallValue"):
            raise Bad("%s has type %s although it is built as %s" % (show(n), n.type, t))
        return t

    def rule(self, n):
        c, a = n.cls, n.args
        if c == "Var":
            if a[0] in self.scope:
                if self.scope[a[0]] != n.type:
                    raise Bad("%s is used as %s, its declaration is %s" % (a[0], n.type, self.scope[a[0]]))
                return n.type
            if n.type.startswith("Fn[") and a[0] in self.fns:
                ps, r, _ = self.fns[a[0]]
                if n.type != "Fn[tuple[%s]]" % ", ".join((r,) + ps):
                    raise Bad("the function %s is passed as %s, its declaration is (%s) -> %s" % (a[0], n.type, ", ".join(ps), r))
                self.called.add(a[0])
                return n.type
            raise Bad("%s is neither a parameter nor a function of the target language" % a[0])
        if c == "Lit":
            return B if isinstance(a[0], bool) else I
        if c == "Choose":
            if not a:
                raise Bad("a choice without an alternative")
            ts = [self.of(x) for x in a]
            for x, t in zip(a, ts):
                if t != ts[0]:
                    raise Bad("the alternatives %s and %s have the types %s and %s" % (show(a[0]), show(x), ts[0], t))
            return ts[0]
        if c in ARITH:
            self.args(n, c, [I] * len(a), a)
            return I
        if c in COMPARE:
            self.args(n, c, [I, I], a)
            return B
        if c in ("And", "Or", "Not", "Implies"):
            self.args(n, c, [B] * len(a), a)
            return B
        if c == "Eq":
            self.args(n, c, [ANY, self.of(a[0])], a)
            return B
        if c == "Ite":
            self.args(n, c, [B, ANY, self.of(a[1])], a)
            return self.of(a[1])
        if c == "Call":
            f = a[0]
            if f == "list_eq":
                self.args(n, f, [ANY, self.of(a[1])], a[1:])
                return B
            if f in self.fns:
                ps, r, _ = self.fns[f]
                self.called.add(f)
            elif f in BUILTIN:
                ps, r = BUILTIN[f]
            else:
                raise Bad("%s calls %s, which the target language does not contain" % (show(n), f))
            self.args(n, f, ps, a[1:])
            return r
        if c == "CallValue":
            t = self.of(a[0])
            if not t.startswith("Fn[tuple["):
                raise Bad("%s is called, its type is %s" % (show(a[0]), t))
            parts = t[len("Fn[tuple["):-2].split(", ")
            self.args(n, show(a[0]), parts[1:], a[1:])
            return parts[0]
        raise Odd("an expression of kind %s" % c)


# ------------------------------------------------------------ own notation for candidates: (class or function, operands...)
COMM = {"Add", "Mul", "vec_elemwise_add", "vec_elemwise_mul", "matrix_elemwise_add", "matrix_elemwise_mul"}


def tree(h):
    """normal form of a candidate: the operands of commutative operations in order"""
    if h[0] in COMM:
        return (h[0],) + tuple(sorted(h[1:], key=repr))
    return h


def language(n, memo, limit=60000):
    """the set of candidates a grammar contains"""
    k = id(n)
    if k in memo:
        return memo[k][0]
    c, a = n.cls, n.args
    if c in ("Var", "Lit"):
        r = {a[0]}
    elif c == "Choose":
        r = set()
        for x in a:
            r |= language(x, memo, limit)
    else:
        name, ops = (a[0], a[1:]) if c == "Call" else (c, a)
        ls = [language(x, memo, limit) for x in ops]
        total = 1
        for l in ls:
            total *= len(l)
        if total > limit:
            raise Odd("a grammar of more than %d candidates" % limit)
        r = {tree((name,) + t) for t in itertools.product(*ls)}
    memo[k] = (r, n)
    return r


def member(n, t, memo):
    """is the candidate t in the grammar n"""
    k = (id(n), t)
    if k in memo:
        return memo[k]
    c, a = n.cls, n.args
    if c in ("Var", "Lit"):
        r = not isinstance(t, tuple) and a[0] == t and type(a[0]) is type(t)
    elif c == "Choose":
        r = any(member(x, t, memo) for x in a)
    else:
        name, ops = (a[0], a[1:]) if c == "Call" else (c, a)
        r = isinstance(t, tuple) and t[0] == name and len(t) == len(ops) + 1
        if r:
            orders = [t[1:]] + ([t[:0:-1]] if name in COMM and len(t) == 3 else [])
            r = any(all(member(x, y, memo) for x, y in zip(ops, o)) for o in orders)
    memo[k] = r
    return r


def ints(leaf, depth, unary=True):
    """all integer expressions over a leaf by depth"""
    out = {0: {leaf}}
    for d in range(1, depth + 1):
        below = set().union(*out.values())
        top = out[d - 1]
        new = set()
        if unary:
            new |= {(f, x) for f in ("integer_sqrt", "integer_exp") for x in top}
        for x in top:
            for y in below:
                new |= {tree((o, x, y)) for o in ("Add", "Sub", "Mul", "Div")} | {(o, y, x) for o in ("Sub", "Div")}
        out[d] = new - below
    return out


def tensors(leaf, scalar, depth, matrix, extra, unary=True):
    """all tensor expressions by depth: an operator is one deeper than its deepest operand"""
    p = "matrix" if matrix else "vec"
    out = {0: {leaf}}
    si = ints(scalar, depth, unary)
    for d in range(1, depth + 1):
        below = set().union(*out.values())
        top = out[d - 1]
        sb = set().union(*[si[k] for k in range(d)])
        new = set()
        for x in top:
            if not matrix:
                new.add(("vec_map", x, "map_int_to_int"))
            if extra is not None:
                new.add(("matrix_vec_mul", extra, x))
            for y in below:
                new |= {tree(("%s_elemwise_%s" % (p, o), x, y)) for o in ("add", "sub", "mul", "div")} | {("%s_elemwise_%s" % (p, o), y, x) for o in ("sub", "div")}
        for x, s in itertools.chain(itertools.product(top, sb), itertools.product(below, si[d - 1])):
            new |= {("%s_scalar_%s" % (p, o), s, x) for o in ("add", "sub", "mul", "div")} | {("scalar_%s_%s" % (p, o), s, x) for o in ("sub", "div")}
        out[d] = new - below
    return out


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = self.h.it
        for m in (TC, CO, LF.split(":")[0]):
            self.it.load_module(m)

    def o(self, n, t):
        T = {I: I, L: ("List", "Int"), M: ("Matrix", "Int"), B: "Bool"}[t]
        return self.h.fn("create_object", self.h.ty(T), K(n))

    def f(self, n):
        return self.ctx.lookup(TC + ":" + n)

    def driver(self):
        return self.it.call(self.ctx.lookup(LF + ":Driver"), [], {})

    def choice(self, *xs):
        return self.h.fn("choose", *xs)

    def fns(self, rd, decls):
        """name -> (parameter types, result type, body) of declared functions"""
        out = {}
        for d in decls:
            if d.cls not in ("FnDecl", "FnDeclRecursive"):
                continue
            ps = tuple(p.type for p in d.args[2:])
            t = d.type[len("Fn[tuple["):-2]
            r = t
            if ps:
                tail = ", " + ", ".join(ps)
                if not t.endswith(tail):
                    raise Bad("%s is declared as %s with parameters of types %s" % (d.args[0], d.type, ", ".join(ps)))
                r = t[:-len(tail)]
            if d.args[0] in out:
                raise Bad("the target language contains %s twice" % d.args[0])
            out[d.args[0]] = (ps, r, d)
        return out


WRITES0 = [("agg.result", M), ("col", I), ("pixel", I), ("row", I), ("row_vec", L)]
WRITES1 = [("col", I), ("pixel", I), ("row_vec", L)]
SCOPE1 = [("agg.result", M), ("row", I)]
READS = [("base", M), ("active", M)]  # front ends pass the variables read in the order of the function's parameters
MORE = [("opacity", I), ("rand_cons", I)]
HOLES = ("multiply_blend_8_hole_body", "linear_burn_8_hole_body", "screen_blend_8_hole_body", "linear_dodge_8_hole_body")
SELECT = ("darken_blend_8_hole_body", "color_burn_8_hole_body", "lighten_blend_8_hole_body", "color_dodge_8_hole_body", "overlay_blend_8_hole_body")


def spaces(deep):
    """name, arguments, extra parameters of the program, bodies allowed, holing operation"""
    out = []
    for d in range(6 if deep else 4):
        for rel in (False, True):
            out.append(("get_matrix_computation_general_search_space", "depth %d%s" % (d, ", relaxed" if rel else ""), lambda r, d=d, rel=rel: [K(d), r.it.new_list([r.h.mk("Int", K(32))]), K(rel)], False, rel, None))
            out.append(("get_matrix_select_general_search_space", "depth %d%s" % (d, ", relaxed" if rel else ""), lambda r, d=d, rel=rel: [r.driver(), K(d), r.it.new_list([r.h.mk("Int", K(32))]), K(rel)], False, rel, None))
            out.append(("get_dissolve_general_search_space", "depth %d%s" % (d, ", relaxed" if rel else ""), lambda r, d=d, rel=rel: [r.driver(), K(d), K(rel)], True, rel, None))
    for b in HOLES:
        out.append(("get_matrix_computation_holing_search_space", b, lambda r, b=b: [r.f(b)], False, False, ("hole", b)))
    for b in SELECT:
        out.append(("get_matrix_select_holing_search_space", b, lambda r, b=b: [r.driver(), r.f(b)], False, False, ("select", "select_two_args")))
    out.append(("get_dissolve_holing_search_space", "", lambda r: [r.driver()], True, False, ("select", "dissolve_select_two_args")))
    return out


def conjuncts(n):
    if n.cls == "And":
        return [y for x in n.args for y in conjuncts(x)]
    return [n]


def bound(c):
    """a conjunct (variable, relation, bound), either way round"""
    flip = {"Le": "Ge", "Ge": "Le", "Lt": "Gt", "Gt": "Lt"}
    if c.cls in flip:
        if c.args[0].cls == "Var":
            return c.args[0].args[0], c.cls, c.args[1]
        if c.args[1].cls == "Var":
            return c.args[1].args[0], flip[c.cls], c.args[0]
    return None


def equation(c):
    if c.cls == "Call" and c.args[0] == "list_eq" and c.args[1].cls == "Var":
        return c.args[1].args[0], c.args[2]
    return None


def run(ctx):
    R = Run(ctx)
    scan(ctx, R)
    loops(ctx, R)
    general(ctx, R)
    pixels(ctx, R)
    depth(ctx, R)
    helpers(ctx, R)
    library(ctx, R)


class Fault:
    def __init__(self, text):
        self.text = text


def decide(h, key, build, right, where):
    def safe(it_):
        try:
            return build(it_)
        except Bad as e:
            return Fault(str(e))
        except Odd as e:
            return Fault("?" + str(e))
    h.decide(key, safe, right, where)


def guarded(f):
    def g(v, r):
        if isinstance(v, Fault):
            return v.text
        try:
            return f(v, r)
        except Bad as e:
            return str(e)
        except Odd as e:
            return "?" + str(e)
    return g


def scan(ctx, R):
    """names, types, functions"""
    h, it = R.h, R.it
    ctx.rule("every candidate of a search space is well typed, mentions only the predicate's parameters and literals, and calls only functions of the space's target language, its synthesized functions and the built-ins")
    for name, label, args, more, rel, hole in spaces(ctx.thorough):
        w = ctx.where(R.f(name))

        def build(it_, args=args, more=more, name=name, rel=rel):
            rd = Reader(h)
            t = it.call(R.f(name), args(R), {})
            t = list(it.iter_items(t))
            mk = lambda ps: it.new_list([R.o(n, ty) for n, ty in ps])
            reads = READS + (MORE if more else [])
            gs = {}
            for g, wr, sc in (("inv0", WRITES0, []), ("inv1", WRITES1, SCOPE1)):
                inv = t[0 if g == "inv0" else 1]
                fn = it.getattr(inv, "func")
                names = [x.v for x in it.iter_items(it.getattr(inv, "in_scope_var_names"))]
                gs[g] = (rd.obj(it.call(fn, [mk(wr), mk(reads), mk([p for p in sc if p[0] in names]), K(rel)], {})), dict(wr + reads + [p for p in sc if p[0] in names]))
            gs["ps"] = (rd.obj(it.call(t[2], [mk([("agg.result", M)]), mk(reads), mk([]), K(rel)], {})), dict([("agg.result", M)] + reads))
            decls = rd.all(it.call(t[3], [], {}))
            synths = rd.all(t[4])
            return gs, decls, synths

        def right(v, r):
            gs, decls, synths = v
            fns = R.fns(None, decls)
            reach = set()
            for g, (n, scope) in gs.items():
                ty = Typing(scope, fns)
                t = ty.of(n)
                if t != B:
                    raise Bad("the grammar of %s is of type %s" % (g, t))
                reach |= ty.called
            for f, (ps, r_, d) in fns.items():
                body = d.args[1]
                if body is None:
                    continue
                ty = Typing({p.args[0]: p.type for p in d.args[2:]}, fns)
                try:
                    t = ty.of(body)
                except Bad as e:
                    raise Bad("in %s of the target language: %s" % (f, e))
                if t != r_:
                    raise Bad("the body of %s is of type %s, its result of type %s" % (f, t, r_))
            seen = set()
            for s in synths:
                if s is None:
                    raise Bad("a function to be synthesized is None")
                f = s.args[0]
                if s.cls != "Synth" or f not in fns:
                    raise Bad("%s is to be synthesized but the target language does not declare it" % f)
                if f in seen:
                    raise Bad("%s is to be synthesized twice" % f)
                seen.add(f)
                ps, r_, d = fns[f]
                if d.args[1] is not None:
                    raise Bad("%s is to be synthesized although the target language defines it" % f)
                if tuple(p.type for p in s.args[2:]) != ps:
                    raise Bad("%s is synthesized with parameters of types %s, declared with %s" % (f, [p.type for p in s.args[2:]], list(ps)))
                t = Typing({p.args[0]: p.type for p in s.args[2:]}, fns).of(s.args[1])
                if t != r_:
                    raise Bad("the candidates of %s are of type %s, its result of type %s" % (f, t, r_))
            for f, (ps, r_, d) in fns.items():
                if d.args[1] is None and f not in seen:
                    raise Bad("%s has no definition and is not synthesized" % f)
            return None
        decide(h, "candidates of %s%s" % (name, " (%s)" % label if label else ""), build, guarded(right), w)


def loops(ctx, R):
    """holing spaces: the summary's operation on the part already processed is among the invariants"""
    h, it = R.h, R.it
    ctx.rule("the invariants of a holing space bound every loop counter by the size it runs over, and contain the summary's operation on the processed part, by rows and by columns")
    cs = lambda *a: ("Ite", ("OUTER_LOOP_INDEX_FIRST",)) + a
    for name, label, args, more, rel, hole in spaces(False):
        if hole is None:
            continue
        w = ctx.where(R.f(name))

        build = predicates(R, name, args, more)

        def right(v, r, hole=hole, more=more, label=label):
            g0, g1, ps, s0, s1 = v
            if s0 or sorted(s1) != ["agg.result", "row"]:
                raise Bad("the invariants see %s and %s of the variables in scope" % (s0, s1))
            opm = opv = None
            if hole[0] == "select":
                p = "dissolve_" if more else ""
                x = ("opacity", "rand_cons") if more else ()
                opm = lambda m, n: (p + "matrix_selection_two_args", m, n) + x + (hole[1],)
                opv = lambda m, n: (p + "selection_two_args", m, n) + x + (hole[1],)
            else:
                def op(kind):
                    def f(m, n):
                        e = lambda o: ("%s_elemwise_%s" % (kind, o), m, n)
                        return {"multiply_blend_8_hole_body": ("%s_scalar_div" % kind, 32, e("mul")), "linear_burn_8_hole_body": ("%s_scalar_sub" % kind, 32, e("add")),
                                "screen_blend_8_hole_body": ("%s_elemwise_sub" % kind, e("add"), ("%s_scalar_div" % kind, 32, e("mul"))), "linear_dodge_8_hole_body": e("add")}[label]
                    return f
                opm, opv = op("matrix"), op("vec")
            tr = lambda m: ("matrix_transpose", m)
            pre = lambda x: cs(("matrix_take", x, "row"), ("matrix_col_slice", x, 0, "row"))
            row = lambda x: cs(("list_take", ("matrix_get", x, "row"), "col"), ("COLVEC", ("matrix_take", x, "col"), "row"))
            pairs = list(itertools.product(("base", "active"), repeat=2))
            whole = [opm(f(x), f(y)) for x, y in pairs for f in (lambda z: z, tr)]
            part = [opm(f(x), f(y)) for x, y in pairs for f in (pre, lambda z: tr(pre(z)))]
            for g, n, counters, outs in (("ps", ps, (), {"agg.result": whole}), ("inv0", g0, ("row",), {"agg.result": part}),
                                         ("inv1", g1, ("row", "col"), {"agg.result": part, "row_vec": [opv(row(x), row(y)) for x, y in pairs]})):
                judge(g, n, counters, {o: [spelled(t) for t in ts] for o, ts in outs.items()})
            return None
        decide(h, "invariants of %s%s" % (name, " (%s)" % label if label else ""), build, guarded(right), w)


LEN = {"row": ("matrix_length", "base"), "col": ("list_length", ("matrix_get", "base", 0))}


def judge(g, n, counters, outs):
    """a predicate: every counter from its first to one past its last value, every variable written and what it may be equal to (a list of spellings each)"""
    cj = conjuncts(n)
    eqs = dict(equation(c) for c in cj if equation(c))
    bs = [bound(c) for c in cj if bound(c)]
    if len(eqs) + len(bs) != len(cj):
        raise Odd("a part of %s that is neither a bound nor an equation" % g)
    if sorted(eqs) != sorted(outs):
        raise Bad("%s determines %s instead of %s" % (g, sorted(eqs), sorted(outs)))
    if sorted({b[0] for b in bs}) != sorted(counters):
        raise Bad("%s bounds %s instead of %s" % (g, sorted({b[0] for b in bs}), sorted(counters)))
    for c in counters:
        lo = [b for b in bs if b[0] == c and b[1] in ("Ge", "Gt")]
        hi = [b for b in bs if b[0] == c and b[1] in ("Le", "Lt")]
        if len(lo) != 1 or lo[0][1] != "Ge" or not member(lo[0][2], 0, {}):
            raise Bad("%s does not allow the first value of %s: %s" % (g, c, [(b[1], show(b[2])) for b in lo]))
        strict = c == "row" and "col" in counters  # within the inner loop the outer counter is below its bound
        if len(hi) != 1 or not (hi[0][1] == "Le" or strict) or not member(hi[0][2], LEN[c], {}):
            raise Bad("%s does not allow the last value of %s: %s" % (g, c, [(b[1], show(b[2])) for b in hi]))
    for o, tss in outs.items():
        memo = {}
        for ts in tss:
            if not any(member(eqs[o], u, memo) for u in ts):
                raise Bad("%s does not contain %s = %s" % (g, o, ts[0]))


def general(ctx, R):
    """general spaces: slices of the operands, their transposes, and (depth 1) their sums"""
    h, it = R.h, R.it
    ctx.rule("the invariants and the summary of a general space bound every loop counter by the size it runs over, and contain the operation on any operand: whole in the summary, the rows already processed in the outer loop, the part of the row already processed in the inner loop")
    for name, label, args, more, rel, hole in spaces(False):
        if hole is not None or rel or label not in ("depth 0", "depth 1"):
            continue
        w = ctx.where(R.f(name))

        def right(v, r, name=name, label=label, more=more):
            g0, g1, ps, s0, s1 = v
            if s0 or sorted(s1) != ["agg.result", "row"]:
                raise Bad("the invariants see %s and %s of the variables in scope" % (s0, s1))
            rows, cols = LEN["row"], LEN["col"]
            x = ("opacity", "rand_cons") if more else ()
            if "computation" in name:
                # the operand itself, and from depth 1 every elementwise operation on two of them
                def op(kind):
                    if label == "depth 0":
                        return lambda m, n: [m]
                    return lambda m, n: [("%s_elemwise_%s" % (kind, o), m, n) for o in ("add", "sub", "mul", "div")] + [m]
                opm, opv = op("matrix"), op("vec")
                ends = (rows, cols)
            else:
                p, f = ("dissolve_", "dissolve_select_two_args") if more else ("", "select_two_args")
                opm = lambda m, n: [(p + "matrix_selection_two_args", m, n) + x + (f,)]
                opv = lambda m, n: [(p + "selection_two_args", m, n) + x + (f,)]
                ends = (rows, cols) if more else (cols,)
            cut = lambda m, a, b: ("matrix_col_slice", ("matrix_row_slice", m, 0, a), 0, b)
            tr = lambda m: ("matrix_transpose", m)
            two = list(itertools.product(("base", "active"), repeat=2))

            def both(f, *spell):
                return [list(alts) for a, b in two for alts in zip(*[f(k(a), k(b)) for k in spell])]
            whole = both(opm, lambda m: cut(m, rows, cols)) + both(opm, lambda m: tr(cut(m, rows, cols)), lambda m: cut(tr(m), cols, rows))
            part = lambda e: both(opm, lambda m: cut(m, "row", e))
            judge("ps", ps, (), {"agg.result": whole})
            judge("inv0", g0, ("row",), {"agg.result": [sum(t, []) for t in zip(*map(part, ends))]})
            judge("inv1", g1, ("row", "col"), {"agg.result": part(cols), "row_vec": both(opv, lambda m: ("matrix_get", cut(m, rows, "col"), "row"))})
            return None
        decide(h, "predicates of %s (%s)" % (name, label), predicates(R, name, args, more), guarded(right), w)


def predicates(R, name, args, more):
    def build(it_):
        h, it = R.h, R.it
        rd = Reader(h)
        t = list(it.iter_items(it.call(R.f(name), args(R), {})))
        mk = lambda ps: it.new_list([R.o(n, ty) for n, ty in ps])
        reads = READS + (MORE if more else [])
        g0 = rd.obj(it.call(it.getattr(t[0], "func"), [mk(WRITES0), mk(reads), mk([]), K(False)], {}))
        g1 = rd.obj(it.call(it.getattr(t[1], "func"), [mk(WRITES1), mk(reads), mk(SCOPE1), K(False)], {}))
        ps = rd.obj(it.call(t[2], [mk([("agg.result", M)]), mk(reads), mk([]), K(False)], {}))
        return g0, g1, ps, [x.v for x in it.iter_items(it.getattr(t[0], "in_scope_var_names"))], [x.v for x in it.iter_items(it.getattr(t[1], "in_scope_var_names"))]
    return build


def pixels(ctx, R):
    """selection kernels: the source's pixel is among the candidates of the selection"""
    h, it = R.h, R.it
    ctx.rule("among the candidates of the selection a holing space synthesizes is the pixel the kernel of that name computes")
    x, y = "int_x", "int_y"
    dbl = ("Mul", ("Mul", 2, x), x)
    rnd = ("Div", ("Add", ("Mod", "rand_cons", 100), 1), 100)
    KERNEL = {
        "darken_blend_8_hole_body": [("Ite", ("Gt", x, y), y, x), ("Ite", ("Lt", y, x), y, x)],
        "lighten_blend_8_hole_body": [("Ite", ("Lt", x, y), y, x), ("Ite", ("Gt", y, x), y, x)],
        "color_burn_8_hole_body": [("Ite", ("Eq", y, 0), 32, ("Sub", 32, ("Div", ("Sub", 32, x), y)))],
        "color_dodge_8_hole_body": [("Ite", ("Eq", y, 32), 32, ("Div", x, ("Sub", 32, y)))],
        "overlay_blend_8_hole_body": [("Ite", c, ("Sub", ("Sub", ("Add", ("Mul", 2, x), x), ("Div", dbl, 32)), 32), ("Div", dbl, 32)) for c in (("Ge", x, 16), ("Le", 16, x))],
        "": [("Ite", c, y, x) for c in (("Ge", ("Sub", "opacity", rnd), 0), ("Le", 0, ("Sub", "opacity", rnd)))],
    }
    for name, label, args, more, rel, hole in spaces(False):
        if hole is None or hole[0] != "select":
            continue
        if label not in KERNEL:
            ctx.unknown("pixel of %s" % label, "no kernel is known for it", None)
            continue

        def build(it_, name=name, args=args):
            t = list(it.iter_items(it.call(R.f(name), args(R), {})))
            return Reader(h).all(t[4])

        def right(synths, r, label=label, more=more):
            f = "dissolve_select_two_args" if more else "select_two_args"
            ss = [s for s in synths if s is not None and s.args[0] == f]
            if len(ss) != 1:
                raise Bad("%s is synthesized %d times" % (f, len(ss)))
            ps = [p.args[0] for p in ss[0].args[2:]]
            if ps != [x, y] + (["opacity", "rand_cons"] if more else []):
                raise Bad("%s is synthesized over %s" % (f, ps))
            if not any(member(ss[0].args[1], t, {}) for t in KERNEL[label]):
                raise Bad("%s is not among the candidates of %s" % (KERNEL[label][0], f))
            return None
        decide(h, "pixel of %s%s" % (name, " (%s)" % label if label else ""), build, guarded(right), ctx.where(R.f(name)))


def spelled(t):
    """a column of a matrix is spelled as a row of its transpose, or as the first row of the transposed slice"""
    if not isinstance(t, tuple):
        return [t]
    if t[0] == "COLVEC":
        return [("matrix_get", ("matrix_transpose", t[1]), t[2]), ("matrix_get", ("matrix_transpose", ("matrix_col_slice_with_length", t[1], t[2], 1)), 0)]
    return [(t[0],) + c for c in itertools.product(*[spelled(x) for x in t[1:]])]


def depth(ctx, R):
    """depth-bounded grammars contain exactly the expressions up to the depth"""
    h, it = R.h, R.it
    ctx.rule("a grammar of expressions up to a depth contains every expression up to that depth over its operands (up to the order of operands of a commutative operation), and below depth 3 nothing else")
    FI, FM, FC = R.f("get_int_expr_eq_or_below_depth"), R.f("get_matrix_or_vec_expr_eq_or_below_depth"), R.f("get_cond_expr_eq_or_below_depth")

    def compare(got, want, what):
        miss = sorted(want - got, key=repr)
        more = sorted(got - want, key=repr)
        if miss:
            return "%s is not among the %s (%d are missing)" % (miss[0], what, len(miss))
        if more:
            return "%s is among the %s (%d too many)" % (more[0], what, len(more))
        return None
    for d in (0, 1, 2):
        decide(h, "integer expressions up to depth %d" % d, lambda it_: Reader(h).obj(it.call(FI, [], {"var": R.o("s", I), "depth": K(d)})),
                 guarded(lambda n, r: compare(language(n, {}), set().union(*ints("s", d).values()), "integer expressions up to depth %d" % d)), ctx.where(FI))
        for kind, t, extra in (("vector", L, None), ("vector with a matrix", L, "m"), ("matrix", M, None), ("matrix with a matrix", M, "m")):
            def build(it_):
                kw = {"matrix_or_vec_var": R.o("v", t), "int_var": R.o("s", I), "depth": K(d)}
                if extra:
                    kw["additional_matrix"] = R.o("m", M)
                return Reader(h).obj(it.call(FM, [], kw))
            decide(h, "%s expressions up to depth %d" % (kind, d), build,
                     guarded(lambda n, r: compare(language(n, {}), set().union(*tensors("v", "s", d, t == M, extra if t == L else None).values()), "%s expressions up to depth %d" % (kind, d))), ctx.where(FM))
    for d in (3, 4, 5, 6) if ctx.thorough else (3, 4):
        i2 = ints("s", 2)
        some = lambda s, k: sorted(s, key=repr)[::max(1, k // 3) if ctx.thorough else k]

        def deep_ints():
            yield from i2[0] | i2[1] | i2[2]
            for x in some(i2[2], 3):
                for y in itertools.chain(i2[0], some(i2[1], 2), some(i2[2], 41)):
                    yield from (("Add", x, y), ("Sub", x, y), ("Sub", y, x), ("Mul", x, y), ("Div", x, y), ("Div", y, x))
                yield from (("integer_sqrt", x), ("integer_exp", x))

        def have(n, ts, what):
            memo = {}
            for t in ts:
                if not member(n, t, memo):
                    return "%s is not among the %s" % (t, what)
            return None
        decide(h, "integer expressions up to depth %d" % d, lambda it_: Reader(h).obj(it.call(FI, [], {"var": R.o("s", I), "depth": K(d)})), guarded(lambda n, r: have(n, deep_ints(), "integer expressions up to depth %d" % d)), ctx.where(FI))
        for kind, t, extra in (("vector", L, None), ("vector with a matrix", L, "m"), ("matrix", M, None)):
            def build(it_):
                kw = {"matrix_or_vec_var": R.o("v", t), "int_var": R.o("s", I), "depth": K(d)}
                if extra:
                    kw["additional_matrix"] = R.o("m", M)
                return Reader(h).obj(it.call(FM, [], kw))
            p = "matrix" if t == M else "vec"
            t2 = tensors("v", "s", 2, t == M, extra, unary=False)

            def deep_tensors():
                yield from t2[0] | t2[1] | t2[2]
                for x in some(t2[2], 5):
                    for y in itertools.chain(t2[0], some(t2[1], 3), some(t2[2], 97)):
                        yield from (("%s_elemwise_%s" % (p, o),) + c for o in ("add", "sub", "mul", "div") for c in ((x, y), (y, x)))
                    for s in ("s", ("Add", "s", "s"), ("Div", ("Mul", "s", "s"), "s")):
                        yield from (("%s_scalar_%s" % (p, o), s, x) for o in ("add", "sub", "mul", "div"))
                        yield from (("scalar_%s_%s" % (p, o), s, x) for o in ("sub", "div"))
                    if t == L:
                        yield ("vec_map", x, "map_int_to_int")
                    if extra:
                        yield ("matrix_vec_mul", extra, x)

            def right(n, r):
                ty = Typing({"v": t, "s": I, "m": M}, LIB(R))
                if ty.of(n) != t:
                    return "the grammar is of type %s" % ty.of(n)
                return have(n, deep_tensors(), "%s expressions up to depth %d" % (kind, d))
            decide(h, "%s expressions up to depth %d" % (kind, d), build, guarded(right), ctx.where(FM))
    for d in (0, 1):
        def right(n, r):
            e = set().union(*ints("s", d).values())
            if n.cls != "Ite":
                return "?the result is %s" % n.cls
            c = conditions(n.args[0])
            want = {(o, x, y) for o in ("Lt", "Le", "Eq") for x in e for y in e}
            return compare(c, {sym(t) for t in want}, "conditions") or compare(language(n.args[1], {}), e, "values") or compare(language(n.args[2], {}), e, "values")
        decide(h, "conditional expressions up to depth %d" % d, lambda it_: Reader(h).obj(it.call(FC, [], {"int_var": R.o("s", I), "depth": K(d)})), guarded(right), ctx.where(FC))


def sym(t):
    if t[0] == "Eq":
        return ("Eq",) + tuple(sorted(t[1:], key=repr))
    return t


def conditions(n):
    flip = {"Gt": "Lt", "Ge": "Le"}
    return {sym((flip[t[0]], t[2], t[1]) if t[0] in flip else t) for t in language(n, {})}


def LIB(R):
    """all functions the module declares"""
    rd = Reader(R.h)
    out = {}
    for n in ("vec_vec_to_vec_target_lang", "matrix_matrix_to_matrix_target_lang", "scalar_vec_to_vec_target_lang", "scalar_matrix_to_matrix_target_lang", "vec_to_int_target_lang", "matrix_vec_to_vec_target_lang", "vec_to_vec_target_lang"):
        for d in rd.all(R.ctx.lookup(TC + ":" + n)):
            out.setdefault(d.args[0], d)
    return R.fns(None, out.values())


def helpers(ctx, R):
    """loop bounds, loop indices and Boolean switches"""
    h, it = R.h, R.it
    ctx.rule("the bound helpers name the bounds of a loop in either direction; an index or switch helper declares, synthesizes and calls one function")
    flag, a, b = ("f", B), ("a", I), ("b", I)
    for name, want in (("get_lower_bound_fn_body", {("Ite", "f", "a", "b"), ("Ite", "f", "a", ("Add", "b", 1))}),
                       ("get_upper_bound_fn_body", {("Add", ("Ite", "f", ("Sub", "b", 1), "a"), 1), ("Add", ("Ite", "f", "b", "a"), 1)})):
        fn = R.f(name)

        def right(n, r, want=want):
            got = language(n, {})
            w = {tree(t) for t in want}
            return None if got == w else "the candidates are %s instead of %s" % (sorted(got, key=repr), sorted(w, key=repr))
        decide(h, name, lambda it_: Reader(h).obj(it.call(fn, [], {"is_left_bound_smaller": R.o(*flag), "left_bound": R.o(*a), "right_bound": R.o(*b)})), guarded(right), ctx.where(fn))

    def trio(fn, args, call_args):
        def go(it_):
            rd = Reader(h)
            d, s, c = list(it.iter_items(it.call(fn, args(), {})))
            return rd.obj(d), rd.obj(s), rd.obj(it.call(c, call_args(), {}))
        return go

    def agree(name, ret, params, body):
        def right(v, r):
            d, s, c = v
            if not (d.args[0] == s.args[0] == c.args[0] == name):
                return "the declaration, the candidates and the call name %s, %s and %s instead of %s" % (d.args[0], s.args[0], c.args[0], name)
            if d.args[1] is not None:
                return "%s is declared with a definition" % name
            for x, what in ((d, "declared"), (s, "synthesized")):
                if [(p.args[0], p.type) for p in x.args[2:]] != params:
                    return "%s is %s with the parameters %s instead of %s" % (name, what, [(p.args[0], p.type) for p in x.args[2:]], params)
            fns = R.fns(None, [d])
            if fns[name][1] != ret:
                return "%s returns %s instead of %s" % (name, fns[name][1], ret)
            t = Typing({"u": I, "w": I, "k": I}, fns).of(c)
            if t != ret or [x.args[0] for x in c.args[1:]] != [{"a": "u", "b": "w"}[p[0]] for p in params]:
                return "the call is %s" % show(c)
            got = language(s.args[1], {})
            return None if got == body else "the candidates of %s are %s instead of %s" % (name, sorted(got, key=repr), sorted(body, key=repr))
        return guarded(right)
    ab = lambda: it.new_list([R.o("a", I), R.o("b", I)])
    uw = lambda: [R.o("u", I), R.o("w", I)]
    fi, fb, fn = R.f("get_loop_index_fn"), R.f("get_loop_bound_fn"), R.f("get_no_arg_bool_fn")
    PS = [("a", I), ("b", I)]
    decide(h, "get_loop_index_fn", trio(fi, lambda: [ab()], uw), agree("OUTER_LOOP_INDEX", I, PS, {"a", "b"}), ctx.where(fi))
    decide(h, "get_loop_index_fn (inner)", trio(fi, lambda: [ab(), K("INNER_LOOP")], uw), agree("INNER_LOOP_INDEX", I, PS, {"a", "b"}), ctx.where(fi))
    decide(h, "get_loop_bound_fn", trio(fb, lambda: [ab(), h.fn("choose", R.o("a", I), h.mk("Int", K(0)))], uw), agree("OUTER_LOOP_LEFT_BOUND", I, PS, {"a", 0}), ctx.where(fb))
    decide(h, "get_loop_bound_fn (right)", trio(fb, lambda: [ab(), R.o("b", I), K("INNER_LOOP_RIGHT")], uw), agree("INNER_LOOP_RIGHT_BOUND", I, PS, {"b"}), ctx.where(fb))
    decide(h, "get_no_arg_bool_fn", trio(fn, lambda: [K("SWITCH")], lambda: []), agree("SWITCH", B, [], {True, False}), ctx.where(fn))
    mi = R.f("get_map_int_to_int_synth")
    for label, args, body in (("", lambda: [], {("integer_exp", "int_x"), ("integer_sqrt", "int_x")}), (" (given bodies)", lambda: [it.new_list([R.o("int_x", I), h.meth(R.o("int_x", I), "__add__", h.mk("Int", K(1)))])], {"int_x", ("Add", 1, "int_x")})):
        def right(s, r, body=body):
            got = language(s.args[1], {})
            if s.args[0] != "map_int_to_int" or [(p.args[0], p.type) for p in s.args[2:]] != [("int_x", I)]:
                return "%s is synthesized over %s" % (s.args[0], [p.args[0] for p in s.args[2:]])
            return None if got == {tree(t) if isinstance(t, tuple) else t for t in body} else "the candidates are %s" % sorted(got, key=repr)
        decide(h, "get_map_int_to_int_synth%s" % label, lambda it_, args=args: Reader(h).obj(it.call(mi, args(), {})), guarded(right), ctx.where(mi))


def library(ctx, R):
    """the table of all target-language functions and axioms"""
    h, it = R.h, R.it
    ctx.rule("the library's list of functions is closed under calls, and the axioms listed for a function are about that function")
    where = "metalift/utils/tenspiler/constants.py"
    v = ctx.lookup(CO + ":TENSPILER_FNS")

    def closed(ds, r):
        fns = R.fns(None, ds)
        names = [d.args[0] for d in ds]
        if names != sorted(names):
            return "the functions are listed as %s" % names
        for d in ds:
            # functions passed by name stay parameters: their definitions are synthesized
            ty = Typing({p.args[0]: p.type for p in d.args[2:]}, fns)
            try:
                t = ty.of(d.args[1])
            except Bad as e:
                raise Bad("in %s: %s" % (d.args[0], e))
            if t != fns[d.args[0]][1]:
                raise Bad("the body of %s is of type %s" % (d.args[0], t))
        return None
    decide(h, "library functions", lambda it_: Reader(h).all(v), guarded(closed), where)
    m = ctx.lookup(CO + ":TENSPILER_FN_NAME_TO_AXIOMS")

    def calls(n, out):
        if isinstance(n, N):
            if n.cls == "Call":
                out.add(n.args[0])
            for a in n.args:
                calls(a, out)
        return out
    for k, x in it.get(m).items:
        def right(axs, r, k=k):
            if not axs:
                return "no axiom is listed for %s" % k.v
            for a in axs:
                if a.cls != "Axiom" or k.v not in calls(a.args[0], set()):
                    return "the axiom listed for %s is about %s" % (k.v, sorted(calls(a.args[0], set())))
            return None
        decide(h, "axioms of %s" % k.v, lambda it_, x=x: Reader(h).all(x), guarded(right), where)
