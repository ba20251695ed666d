"""P18: the Rosette program: symbolic inputs, candidates, rounds"""
import itertools

from ..rktlint import RFile, library
from ..synth import SX, Bench, sx_text
from ..values import FALSE, K, TRUE
from .p14 import L, Builder, Fn, Rk, Scenario, call, op, scenarios
from .p22 import Handed, scen

FLOOR = 52
TR = "metalift.rosette_translator"
M, T3 = ("Matrix", "Int"), ("Tensor3D", "Int")


class Shape:
    """does an expression of the program denote an arbitrary value of a type, up to the bound?"""

    def __init__(self, F, bound):
        self.F, self.bound, self.leaves = F, bound, []

    def see(self, e):
        n = 0
        while isinstance(e, str) and e in self.F.defs and n < 50:
            e, n = self.F.defs[e], n + 1
        return e

    def leaf(self, e, pred):
        if not isinstance(e, str) or self.F.sym.get(e) != pred:
            return "%s is not a symbolic %s" % (sx_text(e), pred.strip("?"))
        self.leaves.append(e)
        return None

    def row(self, e, elem, what):
        e = self.see(e)
        if not isinstance(e, list) or e[:1] != ["list"] or len(e) - 1 != self.bound:
            return "%s has %s elements, the bound is %d" % (what, len(e) - 1 if isinstance(e, list) else "no", self.bound)
        for x in e[1:]:
            m = self.of(x, elem, True)
            if m:
                return m
        return None

    def of(self, e, t, inner=False):
        if t == "Int":
            return self.leaf(e, "integer?")
        if t == "Bool":
            return self.leaf(e, "boolean?")
        k = t[0]
        e = self.see(e)
        if k == "Tuple":
            if not isinstance(e, list) or e[:1] != ["list"] or len(e) - 1 != len(t) - 1:
                return "%s is no tuple of %d" % (sx_text(e), len(t) - 1)
            for x, c in zip(e[1:], t[1:]):
                m = self.of(x, c, True)
                if m:
                    return m
            return None
        elem = {"Matrix": L, "Tensor3D": M}.get(k) or t[1]
        if k == "Set":
            ok = isinstance(e, list) and len(e) == 3 and e[0] == "sort" and e[2] == "<" and isinstance(e[1], list) and len(e[1]) == 2 and e[1][0] == "remove-duplicates"
            if not ok:
                return "%s is no ordered collection without duplicates" % sx_text(e)
            e = self.see(e[1][1])
        if isinstance(e, list) and e[:1] == ["take"] and len(e) == 3:
            m = self.leaf(e[2], "integer?")
            if m:
                return "the length: %s" % m
            return self.row(e[1], elem, "the list")
        if inner:
            return self.row(e, elem, "the row")       # the rows of matrices and tensors have the full width
        return "%s has no symbolic length" % sx_text(e)


def declared(F, vars, bound):
    """every variable is symbolic in all components; returns (message, symbols)"""
    seen = []
    for n, t in vars:
        if n not in F.sym and n not in F.defs:
            return "the variable %s is not declared" % n, None
        s = Shape(F, bound)
        m = s.of(n, t)
        if m:
            return "the variable %s of type %s with bound %d: %s" % (n, t, bound, m), None
        seen += s.leaves
    for x in seen:
        if seen.count(x) > 1:
            return "%s stands for two components" % x, None
    return None, seen


def covered(F, syms):
    for name, kw in F.solutions:
        fa = kw.get("#:forall")
        if not isinstance(fa, list) or fa[:1] != ["list"]:
            return "the search for %s ranges over %s" % (name, fa)
        for x in syms:
            if x not in fa[1:]:
                return "the search for %s does not range over %s" % (name, x)
        for x in fa[1:]:
            if x not in syms:
                return "the search for %s ranges over %s, which is no component of a variable" % (name, x)
    return None


def conj(e, out, assume):
    """the parts of a guarantee: (begin (assume A) ... (assertions))"""
    if isinstance(e, list) and e[:1] == ["begin"]:
        for x in e[1:]:
            conj(x, out, assume)
    elif isinstance(e, list) and e[:1] in (["assume"], ["assert"]) and len(e) >= 2:
        assume.append((e[0], e[1], len(out)))
    else:
        out.append(e)


def parts(e, op_):
    if isinstance(e, list) and e[:1] and e[0] in op_:
        return [y for x in e[1:] for y in parts(x, op_)]
    return [e]


def rounds(F, n, fns, vars, path="synthesisLogs/prog"):
    """solution k excludes solutions 0..k-1, and is written to file k"""
    if len(F.solutions) != n + 1:
        return "%d rounds are searched, expected %d" % (len(F.solutions), n + 1)
    names = [s[0] for s in F.solutions]
    if len(set(names)) != len(names):
        return "two rounds have one name"
    for k, (name, kw) in enumerate(F.solutions):
        out, excl = [], []
        conj(kw.get("#:guarantee"), out, excl)
        if out != [["assertions"]]:
            return "round %d guarantees %s" % (k, [sx_text(x) for x in out])
        left = set(range(k))
        for how, e, pos in excl:
            if how == "assume" and pos:
                return "round %d excludes earlier candidates after the condition is asserted" % k
            prev, fs = set(), []
            for d in parts(e, ("||", "or")):
                g = None
                if isinstance(d, list) and len(d) == 2 and d[0] in ("!", "not") and isinstance(d[1], list) and d[1][:1] and d[1][0] in ("eq?", "equal?") and len(d[1]) == 3:
                    for a, b in ((d[1][1], d[1][2]), (d[1][2], d[1][1])):
                        if isinstance(b, list) and len(b) == 3 and b[0] == "evaluate" and b[1] == a:
                            g = (a, b[2])
                if g is None:
                    return "round %d excludes %s" % (k, sx_text(d))
                c, s = g
                if s not in names[:k]:
                    return "round %d compares with %s, which is no earlier round" % (k, s)
                prev.add(names.index(s))
                f = [f for f in fns if isinstance(c, list) and c[:1] == [f.name]]
                if not f or c[1:] != [p for p, _ in f[0].params]:
                    return "round %d compares the calls %s" % (k, sx_text(c))
                fs.append(f[0].name)
            if len(prev) != 1:
                return "round %d requires to differ from one of the rounds %s, not from each" % (k, sorted(prev))
            if sorted(fs) != sorted(f.name for f in fns):
                return "round %d looks at %s only, the functions to find are %s" % (k, fs, [f.name for f in fns])
            left -= prev
        if left:
            return "round %d does not exclude the candidates of the rounds %s" % (k, sorted(left))
    if [(p, a, b) for p, a, b in F.outputs] != [("%s_sol%d" % (path, k), n_, n_) for k, n_ in enumerate(names)]:
        return "the answers are written as %s" % (F.outputs,)
    return None


def definitions(F, sc):
    """every function of the target language and every candidate"""
    c = Rk(sc)
    for f in sc.lang:
        if f.kind == "axiom":
            continue
        if f.kind == "open":
            want = ([{"Int": "integer?", "Bool": "boolean?"}[t] for _, t in f.params], {"Int": "integer?", "Bool": "boolean?"}[f.ret])
            if F.symfns.get(f.name) != want:
                return "the uninterpreted function %s is declared as %s" % (f.name, F.symfns.get(f.name))
            continue
        if f.name not in F.bodies:
            return "%s is not defined" % f.name
        if F.params[f.name] != [n for n, _ in f.params]:
            return "the parameters of %s are %s" % (f.name, F.params[f.name])
        if (f.kind == "rec") != (f.name in F.bounded):
            return "%s is %sbounded" % (f.name, "" if f.name in F.bounded else "not ")
        if not body(c, f.body, F.bodies[f.name], dict(f.params)):
            return "%s is defined as %s" % (f.name, sx_text(F.bodies[f.name]))
    for f in list(sc.cands) + list(sc.helpers):
        g = f.name + "_gram"
        if g not in F.grammars:
            return "%s has no grammar" % f.name
        ps = [n for n, _ in f.params]
        if F.grammars[g][0] != ps:
            return "the grammar of %s has the parameters %s" % (f.name, F.grammars[g][0])
        if F.params.get(f.name) != ps:
            return "%s is defined over %s" % (f.name, F.params.get(f.name))
        b = F.bodies[f.name]
        if not isinstance(b, list) or b[:1] != [g] or [x for x in b[1:len(ps) + 1]] != ps:
            return "%s is defined as %s" % (f.name, sx_text(b))
        rest = b[len(ps) + 1:]
        if len(rest) != 2 or rest[0] != "#:depth" or not rest[1].isdigit() or int(rest[1]) < 1:
            return "%s is looked for with %s" % (f.name, rest)
    own = {f.name for f in list(sc.lang) + list(sc.cands) + list(sc.helpers)} | {"assertions"}
    extra = [n for n in F.bodies if n not in own and n not in F.libnames]
    if extra:
        return "the program also defines %s" % extra
    return None


class Body(Rk):
    """bodies in the target-language functions, where functions are passed by name"""

    def same(self, t, s, env, sigma):
        if isinstance(t, tuple) and t[0] == "ref":
            return s == t[1]
        if isinstance(t, tuple) and t[0] == "cv":
            return isinstance(s, list) and s[:1] == [t[1]] and self.args(t[2:], s[1:], env, sigma)
        if isinstance(t, tuple) and t[0] == "call":
            names = {"list_get": "list-ref-noerr", "list_length": "length", "list_tail": "list-tail-noerr", "list_empty": "list-empty", "list_prepend": "list-prepend", "list_take": "list-take-noerr", "matrix_take": "matrix-take-noerr",
                     "matrix_get": "matrix-ref-noerr", "matrix_length": "matrix-length", "matrix_tail": "matrix-tail-noerr", "matrix_empty": "matrix-empty", "matrix_prepend": "matrix-prepend"}
            return isinstance(s, list) and s[:1] == [names.get(t[1], t[1])] and self.args(t[2:], s[1:], env, sigma)
        return Rk.same(self, t, s, env, sigma)


def body(c, t, s, env):
    return Body(c.sc).same(t, s, env, {})


def types(ctx):
    base = ["Int", "Bool", L, ("List", "Bool"), ("Set", "Int"), ("Matrix", "Int"), ("List", L), ("Tensor3D", "Int"), ("List", ("List", ("List", "Int"))),
            ("Tuple", "Int", "Bool"), ("Tuple", "Bool", "Int", "Int"), ("Tuple", L, "Int"), ("Tuple", ("Set", "Int"), ("Tuple", "Int", "Bool")), ("List", ("Tuple", "Int", "Bool")), ("Tuple", M, L), ("List", ("Set", "Int"))]
    return base


def run(ctx):
    ctx.rule("the Rosette program for a variable of each type and bound 1 to %d: each component a symbolic constant of its own type, the length symbolic, all components and nothing else under #:forall of every search" % (5 if ctx.thorough else 4))
    ctx.rule("for 0 to 3 further rounds and one to three functions: round k assumes, for each earlier round, that some function differs from that round's, before the condition is asserted, and its answer goes to file k")
    ctx.rule("every symbol of the program is defined before it is needed (in the program, the shipped library or Racket), and called with its number of arguments; every function and grammar is defined once over its own parameters")
    b = Bench(ctx)
    h, it = b.h, b.it
    it.load_module(TR)
    f = ctx.lookup(TR + ":to_rosette")
    w = ctx.where(f)
    lib = library([b.utils(None, "bounded.rkt"), b.utils(None, "utils.rkt")])
    V = [("x", "Int"), ("f_rv", "Int")]
    PS = Fn("f_ps", V, "Bool", op("Eq", "f_rv", op("Add", "x", 1)))

    def query(sc, bound=2, n=0, guess=(), unbounded=FALSE, exclude=(), **more):
        bd = Builder(b, sc)
        wd = b.world([], lambda w_, a: (0, ""))
        k = bd.kw()
        k.pop("cvc_path")
        by = {h.reify(x).args[0].v: x for x in it.iter_items(k["inv_and_ps"])}
        k.update(filename=K("q.rkt"), rounds_to_guess=K(n), fns_to_guess=it.new_list([by[g] for g in guess]), fn_defs_to_exclude=it.new_list([]), unbounded_ints=unbounded, list_bound=K(bound))
        it.call(f, [], dict(k, **more))
        return wd.text("q.rkt")

    def decide(key, go, expect):
        def ex(v, r):
            if not isinstance(v, str):
                return "the program is not constant"
            try:
                F = RFile(v, lib)
            except SX as e:
                return "the program does not parse: %s" % e
            return (F.problems[0] if F.problems else None) or expect(F)
        h.decide(key, go, ex, w)

    def inputs(vars, bound):
        def e(F):
            m, syms = declared(F, vars, bound)
            if m:
                return m
            extra = [s for s in F.sym if s not in syms]
            if extra:
                return "the program declares %s, which is no component of a variable" % extra
            return covered(F, syms)
        return e
    bounds = range(1, 6 if ctx.thorough else 5)
    for t in types(ctx):
        for bound in bounds:
            if bound > 3 and t[0] in ("Tensor3D",) and not ctx.thorough:
                continue
            vs = [("v", t), ("r", "Int")]
            sc = Scenario([], [Fn("f_ps", vs, "Bool", op("Ge", "r", 0))], call("f_ps", "v", "r"), vs)
            decide("inputs/%s bound %d" % (t, bound), lambda it_, sc=sc, bound=bound: query(sc, bound), inputs(vs, bound))
    mixes = [[("a", "Int"), ("b", L), ("c", M), ("d", "Bool"), ("e", ("Set", "Int"))], [("zz", L), ("b", L), ("a", L), ("c", "Int"), ("b_2", "Int")], [("t", ("Tuple", "Int", L)), ("u", ("Tuple", "Bool", "Bool")), ("m", T3), ("k", "Int"), ("q", ("List", ("Tuple", "Int", "Int")))],
             [("x%d" % i, t) for i, t in enumerate(["Int", L, "Bool", M, "Int", L])]]
    for i, vs in enumerate(mixes):
        for bound in (1, 2, 3):
            sc = Scenario([], [Fn("f_ps", vs, "Bool", True)], call("f_ps", *[n for n, _ in vs]), vs)
            decide("inputs/mix %d bound %d" % (i, bound), lambda it_, sc=sc, bound=bound: query(sc, bound), inputs(vs, bound))
    # rounds
    inv = lambda n, ps: Fn(n, ps, "Bool", op("Le", ps[0][0], ps[-1][0]))
    VI = V + [("i", "Int"), ("l", L)]
    A, B_ = inv("f_inv0", [("i", "Int"), ("x", "Int")]), inv("f_inv1", [("x", "Int"), ("i", "Int"), ("f_rv", "Int")])
    vc = op("Implies", op("And", call("f_inv0", "i", "x"), call("f_inv1", "x", "i", "f_rv")), call("f_ps", "x", "f_rv"))
    for n in range(0, 6 if ctx.thorough else 4):
        for cands, vc_ in [([PS], call("f_ps", "x", "f_rv")), ([A, PS], op("Implies", call("f_inv0", "i", "x"), call("f_ps", "x", "f_rv"))), ([A, B_, PS], vc), ([PS, B_, A], vc)]:
            sc = Scenario([], cands, vc_, VI)

            def ex(F, n=n, cands=cands, sc=sc):
                m, syms = declared(F, VI, 2)
                return m or covered(F, syms) or rounds(F, n, cands, VI)
            decide("rounds/%d of %s" % (n, " ".join(c.name for c in cands)), lambda it_, sc=sc, n=n, cands=cands: query(sc, 2, n, [c.name for c in cands]), ex)
    # the arithmetic of the search
    for u in (TRUE, FALSE):
        sc = Scenario([], [PS], call("f_ps", "x", "f_rv"), V)

        def ex(F, u=u):
            bw = F.current.get("current-bitwidth")
            if u == TRUE:
                return None if bw == "#f" else "an unbounded search uses integers of width %s" % bw
            return None if isinstance(bw, str) and bw.isdigit() and int(bw) > 0 else "a bounded search uses integers of width %s" % bw
        decide("integers/%s" % ("unbounded" if u == TRUE else "bounded"), lambda it_, u=u, sc=sc: query(sc, 2, 0, (), u), ex)
    # functions and candidates
    for name, sc in scenarios(ctx).items():
        if name.startswith(("calls", "a variable")) and not ctx.thorough:
            continue

        def ex(F, sc=sc):
            m, syms = declared(F, sc.vars, 2)
            m = m or covered(F, syms) or rounds(F, 0, [], sc.vars) or definitions(F, sc)
            if m:
                return m
            a = F.bodies.get("assertions")
            if not isinstance(a, list) or a[:1] != ["assert"] or not body(Rk(sc), sc.vc, a[1], dict(sc.vars)):
                return "the condition is %s" % (a,)
            return None
        decide("program/%s" % name, lambda it_, sc=sc: query(sc), ex)
    handed(ctx, lib)


def handed(ctx, lib):
    """the programs the front ends ask about"""
    for py in (True, False):
        hd = Handed(ctx, py)
        it, h = hd.it, hd.h
        it.load_module(TR)
        f = ctx.lookup(TR + ":to_rosette")
        w = ctx.where(f)
        tag = "Python" if py else "LLVM"
        for name, fs, steps in scen(py):
            def go(it_, fs=fs, steps=steps):
                from ..world import World
                d = hd.play(fs, steps)
                b = hd.synthesize(d)
                wd = World(it)
                vs = [h.reify(v) for v in it.iter_items(b["vars"])]
                it.call(f, [], dict(basename=K("prog"), filename=K("q.rkt"), target_lang=b["target_lang"], vars=b["vars"], inv_and_ps=b["inv_and_ps"], preds=b["preds"], vc=b["vc"], loop_and_ps_info=b["loop_and_ps_info"],
                                    rounds_to_guess=K(0 if py else 2), fns_to_guess=b["fns_to_guess"], fn_defs_to_exclude=b["fn_defs_to_exclude"], unbounded_ints=b["unbounded_ints"], list_bound=K(2), uninterp_fns=it.new_list([])))
                return wd.text("q.rkt"), [(v.args[0].v, h.reify(v).type) for v in vs]

            def expect(v, r):
                text, vs = v
                if text is None:
                    return "the program is not constant"
                F = RFile(text, lib)
                if F.problems:
                    return F.problems[0]
                m, syms = declared(F, [(n, "Int") for n, _ in vs], 2)
                return m or covered(F, syms)
            h.decide("%s front end/%s" % (tag, name), go, expect, w)
