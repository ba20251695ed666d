"""P14: the files handed to the verifier and to the synthesizer"""
import itertools

from ..irh import tree_text
from ..smtlint import File
from ..synth import SR, SU, SX, Bench, answer_text, sx_parse, sx_text
from ..values import Ext, K, TRUE, Tup
from .p01 import sort

FLOOR = 60

SM = {"Eq": "=", "Add": "+", "Sub": "-", "Mul": "*", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "And": "and", "Or": "or", "Not": "not", "Implies": "=>", "Ite": "ite"}
RK = dict(SM, Eq="equal?", And="&&", Or="or", Not="!", Ite="if")
L = ("List", "Int")
SIG = {"list_get": ("Int", [L, "Int"]), "list_length": ("Int", [L]), "list_tail": (L, [L, "Int"]), "list_empty": (L, []), "list_prepend": (L, ["Int", L])}


# terms: int | "var" | (op, ...) | ("call", f, args...) | ("cv", functionparameter, args...) | ("ref", f)
def op(o, *a):
    return (o,) + a


def call(f, *a):
    return ("call", f) + a


class Fn:
    def __init__(self, name, params, ret, body, kind="rec"):
        self.name, self.params, self.ret, self.body, self.kind = name, params, ret, body, kind     # kind: rec | fn | open (no definition) | axiom


class Scenario:
    def __init__(self, lang, cands, vc, vars, helpers=()):
        self.lang, self.cands, self.vc, self.vars, self.helpers = lang, cands, vc, vars, helpers
        self.sig = dict(SIG)
        for f in list(lang) + list(cands) + list(helpers):
            if f.kind != "axiom":
                self.sig[f.name] = (f.ret, [t for _, t in f.params])

    def fn(self, name):
        for f in list(self.lang) + list(self.cands) + list(self.helpers):
            if f.name == name and f.kind != "open":
                return f
        return None


class Builder:
    def __init__(self, b, sc):
        self.b, self.h, self.it, self.sc = b, b.h, b.it, sc

    def term(self, t, env):
        h = self.h
        if isinstance(t, bool):
            return h.mk("BoolLit", K(t))
        if isinstance(t, int):
            return h.mk("IntLit", K(t))
        if isinstance(t, str):
            return h.mk("Var", K(t), h.ty(env[t]))
        if t[0] == "call":
            return h.mk("Call", K(t[1]), h.ty(self.sc.sig[t[1]][0]), *[self.term(x, env) for x in t[2:]])
        if t[0] == "cv":
            return h.mk("CallValue", h.mk("Var", K(t[1]), h.ty(env[t[1]])), *[self.term(x, env) for x in t[2:]])
        if t[0] == "ref":
            ret, ps = self.sc.sig[t[1]]
            return h.mk("Var", K(t[1]), h.ty(("Fn", ret) + tuple(ps)))
        return h.mk(t[0], *[self.term(x, env) for x in t[1:]])

    def fn(self, f):
        h = self.h
        env = dict(f.params)
        ps = [h.mk("Var", K(n), h.ty(t)) for n, t in f.params]
        if f.kind == "axiom":
            return h.mk("Axiom", self.term(f.body, env), *ps)
        body = self.b.h.it and (K(None) if f.kind == "open" else self.term(f.body, env))
        return h.mk("FnDeclRecursive" if f.kind == "rec" else "FnDecl", K(f.name), h.ty(f.ret), body, *ps)

    def synth(self, f):
        h = self.h
        env = dict(f.params)
        return h.mk("Synth", K(f.name), self.term(f.body, env), *[h.mk("Var", K(n), h.ty(t)) for n, t in f.params])

    def kw(self, name="prog"):
        h, it, sc = self.h, self.it, self.sc
        synths = [self.synth(f) for f in sc.cands]
        helpers = [self.synth(f) for f in sc.helpers]
        lang = [self.fn(f) for f in sc.lang]
        for f in sc.helpers:
            lang.append(h.mk("FnDecl", K(f.name), h.ty(f.ret), K(None), *[h.mk("Var", K(n), h.ty(t)) for n, t in f.params]))
        vs = [h.mk("Var", K(n), h.ty(t)) for n, t in sc.vars]
        return dict(basename=K(name), target_lang=it.new_list(lang), vars=it.call(Ext("builtins.set"), [it.new_list(vs)], {}), inv_and_ps=it.new_list(synths + helpers), preds=it.new_list([]),
                    vc=self.term(sc.vc, dict(sc.vars)), loop_and_ps_info=it.new_list(list(synths)), cvc_path=K("cvc5"), uninterp_fns=it.new_list([K(f.name) for f in sc.lang if f.kind == "open"]))


def flat(xs, heads):
    out = []
    for x in xs:
        if isinstance(x, (tuple, list)) and x and x[0] in heads:
            out.extend(flat(x[1:], heads))
        else:
            out.append(x)
    return out


class Compare:
    """the definitions of a file against those of the scenario, specialising functions that take functions"""

    def __init__(self, sc, names=SM):
        self.sc, self.names = sc, names
        self.spec = {}      # (function, ((position, concrete),...)) -> name in the file
        self.todo = []
        self.msg = None

    def isfn(self, t):
        return isinstance(t, tuple) and t[0] == "Fn"

    def same(self, t, s, env, sigma):
        if isinstance(t, bool):
            return s == ("true" if t else "false")
        if isinstance(t, tuple) and t[0] in ("And", "Or") and isinstance(s, list) and s:
            # conjunctions and disjunctions group as one likes
            hd = {"And": ("and", "&&"), "Or": ("or", "||")}[t[0]]
            ts, ss = flat(t[1:], (t[0],)), flat(s[1:], hd)
            return s[0] in hd and self.args(ts, ss, env, sigma)
        if isinstance(t, int):
            return s == str(t) or (t < 0 and s == ["-", str(-t)])
        if isinstance(t, str):
            return s == t
        if t[0] == "cv":
            return isinstance(s, list) and s[:1] == [sigma.get(t[1])] and self.args(t[2:], s[1:], env, sigma)
        if t[0] == "call":
            f, args = t[1], t[2:]
            fa, rest = [], []
            for k, a in enumerate(args):
                if isinstance(a, tuple) and a[0] == "ref":
                    fa.append((k, a[1]))
                elif isinstance(a, str) and self.isfn(env.get(a)):
                    fa.append((k, sigma.get(a)))
                else:
                    rest.append(a)
            if not fa:
                if not rest:
                    return s == f or s == [f]
                return isinstance(s, list) and s[:1] == [f] and self.args(rest, s[1:], env, sigma)
            if not isinstance(s, list) or not s:
                return False
            key = (f, tuple(fa))
            if key in self.spec:
                if self.spec[key] != s[0]:
                    self.msg = "%s with %s is %s in one place and %s in another" % (f, fa, self.spec[key], s[0])
                    return False
            elif s[0] in self.spec.values():
                self.msg = "%s stands for %s with %s and for something else" % (s[0], f, fa)
                return False
            else:
                self.spec[key] = s[0]
                self.todo.append((f, tuple(fa), s[0]))
            return self.args(rest, s[1:], env, sigma)
        if t[0] == "Eq" and self.names is RK and isinstance(s, list) and s[:1] == ["set-eq"]:
            return self.args(t[1:], s[1:], env, sigma)      # sets (which operator goes with which type is P02's subject)
        if t[0] == "Or" and self.names is RK and isinstance(s, list) and s[:1] == ["||"]:
            return self.args(t[1:], s[1:], env, sigma)
        return isinstance(s, list) and s[:1] == [self.names[t[0]]] and self.args(t[1:], s[1:], env, sigma)

    def args(self, ts, ss, env, sigma):
        return len(ts) == len(ss) and all(self.same(t, s, env, sigma) for t, s in zip(ts, ss))

    def define(self, F, f, name, sigma):
        """the definition of `name` in the file must be f under sigma"""
        ps = [(n, tree_text(sort(t))) for n, t in f.params if not self.isfn(t)]
        if name not in F.bodies:
            return "%s is not defined" % name
        if F.params[name] != ps:
            return "the parameters of %s are %s, expected %s" % (name, F.params[name], ps)
        if F.ret[name] != tree_text(sort(f.ret)):
            return "the sort of %s is %s" % (name, F.ret[name])
        if not self.same(f.body, F.bodies[name], dict(f.params), sigma):
            return self.msg or "%s is defined as %s, expected %s%s" % (name, sx_text(F.bodies[name]), f.body, " with %s" % sigma if sigma else "")
        return None


def verdict(sc, text, prelude):
    try:
        F = File(text)
    except SX as e:
        return "the query does not parse: %s" % e
    if F.problems:
        return F.problems[0]
    pre = File(prelude)
    c = Compare(sc)
    own = [n for n in F.order if n not in pre.env]
    if F.order[:len(pre.order)] != pre.order:
        return "the built-in definitions do not come first"
    first = set(own)
    wanted = set()
    for f in list(sc.lang) + list(sc.cands) + list(sc.helpers):
        if f.kind == "axiom" or any(c.isfn(t) for _, t in f.params):
            continue
        wanted.add(f.name)
        if f.kind == "open":
            if f.name not in F.env or f.name in F.bodies:
                return "the uninterpreted function %s is %s" % (f.name, "defined" if f.name in F.bodies else "not declared")
            if [s for _, s in F.params[f.name]] != [tree_text(sort(t)) for _, t in f.params] or F.ret[f.name] != tree_text(sort(f.ret)):
                return "the uninterpreted function %s is declared as %s %s" % (f.name, F.params[f.name], F.ret[f.name])
            continue
        m = c.define(F, f, f.name, {})
        if m:
            return m
    # the condition, then the axioms
    tail = F.asserts[len(pre.asserts):]
    if not tail or F.asserts[:len(pre.asserts)] != pre.asserts:
        return "the axioms of the built-in functions are not all there"
    axioms, last = tail[:-1], tail[-1]
    if not isinstance(last, list) or last[:1] != ["not"] or len(last) != 2 or not c.same(sc.vc, last[1], dict(sc.vars), {}):
        return c.msg or "the verifier is asked about %s, the condition is %s" % (sx_text(last), sc.vc)
    want = [f for f in sc.lang if f.kind == "axiom"]
    if len(axioms) != len(want):
        return "%d axioms are asserted, the target language has %d" % (len(axioms), len(want))
    left = list(axioms)
    for f in want:
        for a in left:
            ps = [(n, tree_text(sort(t))) for n, t in f.params]
            if isinstance(a, list) and len(a) == 3 and a[0] == "forall" and [(v[0], sx_text(v[1])) for v in a[1]] == ps and c.same(f.body, a[2], dict(f.params), {}):
                left.remove(a)
                break
        else:
            return c.msg or "no assertion states the axiom %s, left: %s" % (f.body, [sx_text(a) for a in left])
    done = set()
    while c.todo:
        f, fa, name = c.todo.pop()
        d = sc.fn(f)
        sigma = {d.params[k][0]: g for k, g in fa}
        m = c.define(F, d, name, sigma)
        if m:
            return m
        wanted.add(name)
    vs = {n: [tree_text(sort(t))] for n, t in sc.vars}
    if F.vars != vs:
        return "the query declares %s, the variables are %s" % (F.vars, vs)
    wanted |= set(vs)
    if first - wanted:
        return "the query defines %s, which is none of the functions and candidates" % sorted(first - wanted)
    if F.check != 1:
        return "the solver is asked %d times" % F.check
    if F.constraints:
        return "the verification query contains a synthesis constraint"
    return None


def scenarios(ctx):
    """name -> Scenario"""
    out = {}
    X = [("x", "Int")]
    V = [("x", "Int"), ("f_rv", "Int")]
    PS = lambda body, extra=(): Fn("f_ps", [("x", "Int"), ("f_rv", "Int")] + list(extra), "Bool", op("Eq", "f_rv", body))
    VC = call("f_ps", "x", "f_rv")
    # call graphs over three functions, in every order of the list
    E3 = [("g", "h"), ("g", "k"), ("h", "k")]
    for bits in itertools.product((0, 1), repeat=3):
        edges = [e for e, b in zip(E3, bits) if b]
        fs = {}
        for n, base in (("g", 1), ("h", 2), ("k", 3)):
            body = op("Add", "x", base)
            for a, b in edges:
                if a == n:
                    body = op("Add", body, call(b, op("Mul", "x", base)))
            if n == "h":
                body = op("Ite", op("Lt", "x", 1), body, call("h", op("Sub", "x", 1)))
            fs[n] = Fn(n, X, "Int", body, "fn" if n == "k" else "rec")
        perms = list(itertools.permutations("ghk"))
        for perm in perms if ctx.thorough or len(edges) == 3 else [perms[sum(bits) % 6], perms[5], perms[(3 * bits[0] + bits[1] + 1) % 6]]:
            for used in ("g",) if not ctx.thorough else ("g", "k"):
                out["calls %s listed %s used %s" % (",".join(a + b for a, b in edges) or "none", "".join(perm), used)] = Scenario([fs[p] for p in perm], [PS(call(used, "x"))], VC, V)
    chain = lambda n: Fn("c%d" % n, X, "Int", op("Add", "x", n) if n == 0 else op("Add", call("c%d" % (n - 1), "x"), n), "fn" if n % 2 else "rec")
    for perm in [(4, 3, 2, 1, 0), (0, 1, 2, 3, 4), (2, 4, 0, 3, 1), (3, 0, 4, 1, 2)]:
        out["a chain listed %s" % (perm,)] = Scenario([chain(n) for n in perm], [PS(call("c4", "x"))], VC, V)
    # axioms anywhere
    g = Fn("g", X, "Int", op("Add", "x", 1))
    h_ = Fn("h", X, "Int", op("Add", call("g", "x"), 1))
    a1 = Fn("a1", [("a", "Int")], None, op("Implies", op("Ge", "a", 0), op("Eq", call("h", "a"), call("g", call("g", "a")))), "axiom")
    a2 = Fn("a2", [("a", "Int"), ("b", "Int")], None, op("Eq", call("g", op("Add", "a", "b")), op("Add", call("g", "a"), "b")), "axiom")
    for perm in itertools.permutations([g, h_, a1, a2]) if ctx.thorough else [(a1, h_, a2, g), (h_, a1, g, a2), (g, h_, a1, a2), (a2, a1, h_, g), (h_, g, a2)]:
        out["axioms listed %s" % " ".join(f.name for f in perm)] = Scenario(list(perm), [PS(call("h", "x"))], VC, V)
    out["only an axiom"] = Scenario([a1, g, h_], [PS("x")], VC, V)
    # uninterpreted functions
    u = Fn("u", [("x", "Int"), ("y", "Int")], "Int", None, "open")
    gu = Fn("gu", X, "Int", op("Add", call("u", "x", "x"), 1))
    au = Fn("au", [("a", "Int")], None, op("Eq", call("u", "a", 0), "a"), "axiom")
    out["an uninterpreted function in the summary"] = Scenario([u], [PS(call("u", "x", 1))], VC, V)
    out["an uninterpreted function in the language"] = Scenario([gu, u], [PS(call("gu", "x"))], VC, V)
    out["an uninterpreted function with an axiom"] = Scenario([au, gu, u], [PS(call("gu", "x"))], VC, V)
    out["an uninterpreted function nobody uses"] = Scenario([u, g], [PS(call("g", "x"))], VC, V)
    out["no target language"] = Scenario([], [PS(op("Add", "x", 1))], VC, V)
    # candidates: invariants, helpers, their order
    INV = lambda n, body: Fn(n, [("i", "Int"), ("x", "Int")], "Bool", body)
    inv0, inv1 = INV("f_inv0", op("Le", "i", "x")), INV("f_inv1", op("And", op("Ge", "i", call("g", "x")), call("f_inv0", "i", "x")))
    VI = V + [("i", "Int"), ("i_1", "Int")]
    vci = op("And", op("Implies", op("And", call("f_inv0", "i", "x"), op("Lt", "i", "x")), call("f_inv1", "i_1", "x")), op("Implies", call("f_inv1", "i", "x"), call("f_ps", "x", "f_rv")))
    for perm in itertools.permutations([inv0, inv1, PS(call("g", "x"))]):
        out["candidates listed %s" % " ".join(f.name for f in perm)] = Scenario([g], list(perm), vci, VI)
    he1 = Fn("pick", [("a", "Int"), ("b", "Int")], "Int", op("Ite", op("Lt", "a", "b"), "a", call("g", "b")))
    he2 = Fn("pick2", [("a", "Int")], "Int", call("pick", "a", call("pick", "a", 1)))
    for hs in [(he1,), (he1, he2), (he2, he1)]:
        used = hs[-1] if len(hs) == 1 else he2
        out["helpers %s" % " ".join(f.name for f in hs)] = Scenario([g], [PS(call(used.name, *(["x"] * len(used.params))))], VC, V, hs)
    # variables of every type
    for t in ["Int", "Bool", L, ("Matrix", "Int"), ("List", ("List", "Int")), ("Set", "Int"), ("Tuple", "Int", "Bool"), ("Tuple", "Int", "Int", "Int"), ("List", "Bool"), ("Set", ("Tuple", "Int", "Int")), ("Tuple", L, "Int")]:
        out["a variable of type %s" % (t,)] = Scenario([], [Fn("f_ps", [("v", t), ("r", t)], "Bool", op("Eq", "r", "v"))], op("Implies", op("Eq", "v", "w"), call("f_ps", "v", "r")), [("v", t), ("r", t), ("w", t)])
    # conditions
    P, Q = op("Lt", "x", 1), call("f_ps", "x", "f_rv")
    for n, vc in [("implication", op("Implies", P, Q)), ("nested implication", op("Implies", P, op("Implies", op("Ge", "x", 0), Q))), ("conjunction", op("And", op("Implies", P, Q), op("Implies", op("Ge", "x", 1), Q))), ("negated assumption", op("Implies", op("Not", P), Q)),
                  ("disjunction", op("Or", op("Not", P), Q)), ("negation", op("Not", op("And", P, Q))), ("plain", op("Eq", "x", "f_rv"))]:
        out["condition %s" % n] = Scenario([g], [PS(call("g", "x"))], vc, V)
    # names
    ga, gb = Fn("g", [("h", "Int")], "Int", op("Add", "h", 1)), Fn("h", X, "Int", op("Add", call("g", "x"), 1))
    out["a parameter named like a function"] = Scenario([gb, ga], [PS(call("h", "x"))], VC, V)
    # functions that take functions
    F1 = ("Fn", "Int", "Int")
    F2 = ("Fn", "Int", "Int", "Int")
    mapf = lambda p="fn": Fn("mapf", [("l", L), (p, F1)], L, op("Ite", op("Lt", call("list_length", "l"), 1), call("list_empty"), call("list_prepend", ("cv", p, call("list_get", "l", 0)), call("mapf", call("list_tail", "l", 1), p))))
    sumf = Fn("sumf", [(("l"), L), ("k", "Int"), ("fn", F2)], "Int", op("Ite", op("Lt", call("list_length", "l"), 1), "k", ("cv", "fn", call("list_get", "l", 0), call("sumf", call("list_tail", "l", 1), "k", "fn"))))
    psl = lambda body: Fn("f_ps", [("l", L), ("f_rv", L)], "Bool", op("Eq", "f_rv", body))
    vl, vcl = [("l", L), ("f_rv", L)], call("f_ps", "l", "f_rv")
    g2 = Fn("g2", [("a", "Int"), ("b", "Int")], "Int", op("Add", "a", op("Mul", 2, "b")))
    for n, lang in [("before", [g, mapf()]), ("after", [mapf(), g])]:
        out["a function passed, listed %s" % n] = Scenario(lang, [psl(call("mapf", "l", ("ref", "g")))], vcl, vl)
    out["a helper passed"] = Scenario([mapf()], [psl(call("mapf", "l", ("ref", "pick1")))], vcl, vl, [Fn("pick1", [("a", "Int")], "Int", op("Ite", op("Lt", "a", 0), 0, "a"))])
    out["a helper passed that calls a function"] = Scenario([mapf(), g], [psl(call("mapf", "l", ("ref", "pick1")))], vcl, vl, [Fn("pick1", [("a", "Int")], "Int", op("Ite", op("Lt", "a", 0), 0, call("g", "a")))])
    out["the same function passed twice"] = Scenario([mapf(), g], [psl(call("mapf", call("mapf", "l", ("ref", "g")), ("ref", "g")))], vcl, vl)
    out["two functions taking functions"] = Scenario([mapf(), sumf, g, g2], [Fn("f_ps", [("l", L), ("f_rv", "Int")], "Bool", op("Eq", "f_rv", call("sumf", call("mapf", "l", ("ref", "g")), 0, ("ref", "g2"))))], call("f_ps", "l", "f_rv"), [("l", L), ("f_rv", "Int")])
    invl = Fn("f_inv0", [("i", "Int"), ("l", L), ("o", L)], "Bool", op("And", op("Le", 0, "i"), op("Eq", "o", call("mapf", call("list_tail", "l", "i"), ("ref", "g")))))
    out["passed in summary and invariant"] = Scenario([mapf(), g], [invl, psl(call("mapf", "l", ("ref", "g")))], op("Implies", call("f_inv0", "i", "l", "f_rv"), vcl), vl + [("i", "Int")])
    axm = Fn("am", [("l", L)], None, op("Eq", call("list_length", call("mapf", "l", ("ref", "g"))), call("list_length", "l")), "axiom")
    out["passed, with an axiom"] = Scenario([mapf(), g, axm], [psl(call("mapf", "l", ("ref", "g")))], vcl, vl)
    # two levels: the outer function hands its own function parameter on (the parameter has the name of the function, as the tool requires)
    M = ("Matrix", "Int")
    SIG.update({"matrix_get": (L, [M, "Int"]), "matrix_length": ("Int", [M]), "matrix_tail": (M, [M, "Int"]), "matrix_empty": (M, []), "matrix_prepend": (M, [L, M])})
    outer = Fn("mmapf", [("m", M), ("fn", F1)], M, op("Ite", op("Lt", call("matrix_length", "m"), 1), call("matrix_empty"), call("matrix_prepend", call("mapf", call("matrix_get", "m", 0), "fn"), call("mmapf", call("matrix_tail", "m", 1), "fn"))))
    psm = Fn("f_ps", [("m", M), ("f_rv", M)], "Bool", op("Eq", "f_rv", call("mmapf", "m", ("ref", "g"))))
    invm = Fn("f_inv0", [("i", "Int"), ("m", M), ("o", M), ("r", L)], "Bool", op("And", op("Eq", "r", call("mapf", call("matrix_get", "m", "i"), ("ref", "g"))), op("Eq", "o", call("mmapf", call("matrix_tail", "m", "i"), ("ref", "g")))))
    for n, lang in [("inner first", [mapf(), outer, g]), ("outer first", [outer, mapf(), g])]:
        out["handed on, %s" % n] = Scenario(lang, [invm, psm], op("Implies", call("f_inv0", "i", "m", "f_rv", "r"), call("f_ps", "m", "f_rv")), [("i", "Int"), ("m", M), ("f_rv", M), ("r", L)])
    return out


def run(ctx):
    ctx.rule("the verification query of synthesize() on each problem: prelude first, every function and candidate defined exactly once and before use with the right parameters, sorts and body, every axiom, every variable declared once, one final assertion (not condition), one check-sat")
    ctx.rule("functions that take functions: each specialisation in the query is the function's own body with the passed function in place of its parameter, under one name used consistently")
    ctx.rule("the synthesis queries (Rosette and SyGuS) constrain the condition itself")
    b = Bench(ctx)
    h, it = b.h, b.it
    w = ctx.where(ctx.lookup(SU + ":toSMT"))
    prelude = b.utils(None, "tuples.smt") + b.utils(None, "integer-fn-axioms.smt") + b.utils(None, "list-axioms.smt")
    for name, sc in scenarios(ctx).items():
        bd = Builder(b, sc)

        def go(it_, bd=bd):
            qs = []

            def verify(wd, argv):
                p = argv[-1]
                qs.append(wd.text(p))
                return 0, "unsat\n"
            wd = b.world([{"files": {"synthesisLogs/prog_sol0": "#t\n"}}], verify)
            b.synthesize(**bd.kw())
            return qs, wd.text("synthesisLogs/prog.rkt")
        res = {}

        def expect(v, r, sc=sc, res=res):
            qs, res["rkt"] = v
            if len(qs) != 1 or qs[0] is None:
                return "the verifier is asked %d questions" % len(qs)
            return verdict(sc, qs[0], prelude)
        h.decide("verify/" + name, go, expect, w)
        if "rkt" in res:
            ctx.check("rosette/" + name, rosette(sc, res["rkt"]) is None, rosette(sc, res["rkt"]) or "", ctx.where(ctx.lookup("metalift.rosette_translator:to_rosette")))
    sygus(ctx, b)
    again(ctx, b)


def passed(t, out):
    """(function, function passed to it) for every call in a term"""
    if isinstance(t, tuple):
        if t[0] == "call":
            out += [(t[1], a[1]) for a in t[2:] if isinstance(a, tuple) and a[0] == "ref"]
        for a in t[1:]:
            passed(a, out)
    return out


def called(t, out):
    if isinstance(t, tuple):
        if t[0] == "call":
            out.append(t[1])
        for a in t[1:]:
            called(a, out)
    return out


def again(ctx, b):
    """the question is a function of what is asked: the same objects give the same question when asked a second time"""
    ctx.rule("printing a question leaves the functions, candidates and condition it is made of as they were: the same question printed again from the same objects is the same text")
    h, it = b.h, b.it
    f = ctx.lookup(SU + ":toSMT")
    for name, sc in scenarios(ctx).items():
        if "helper" in name:
            continue
        bd = Builder(b, sc)

        def go(it_, bd=bd, sc=sc):
            k = bd.kw()
            ins, fns = [], []
            for t in [sc.vc] + [g.body for g in list(sc.cands) + list(sc.lang) if g.body is not None]:
                passed(t, ins)
                called(t, fns)
            ins = list(dict.fromkeys(ins))
            texts = []
            objs = [x for key in ("target_lang", "inv_and_ps") for x in it.get(k[key]).items] + [k["vc"]]
            was = [h.reify(x) for x in objs]
            for i in (1, 2):
                wd = b.world([], lambda w_, a: (0, ""))
                it.call(f, [k["target_lang"], k["vars"], k["inv_and_ps"], k["preds"], k["vc"], K("q.smt"), it.new_list([Tup((K(x), K(y))) for x, y in ins]),
                            it.new_list([K(x) for x in dict.fromkeys(fns)])], {})
                texts.append(wd.text("q.smt"))
            return texts + [[tree_text(x) for x, y in zip(was, [h.reify(x) for x in objs]) if x != y]]

        def expect(v, r):
            if v[0] is None or v[1] is None:
                return "the query is not constant"
            if v[2]:
                return "asking changes the caller's %s" % v[2][0]
            return None if v[0] == v[1] else "asked a second time, the question is different"
        h.decide("again/" + name, go, expect, ctx.where(f))


def rosette(sc, text):
    if text is None:
        return "the synthesis program is not constant"
    try:
        fs = sx_parse("\n".join(l for l in text.splitlines() if not l.startswith("#lang")))
    except SX as e:
        return "the synthesis program does not parse: %s" % e
    defs = [f for f in fs if isinstance(f, list) and len(f) >= 3 and f[0] == "define" and f[1] == ["assertions"]]
    if len(defs) != 1 or len(defs[0]) != 3 or defs[0][2][:1] != ["assert"] or len(defs[0][2]) != 2:
        return "the synthesis program defines its assertions as %s" % [sx_text(d) for d in defs]
    c = Rk(sc)
    if not c.same(sc.vc, defs[0][2][1], dict(sc.vars), {}):
        return "the synthesizer is asked for %s, the condition is %s" % (sx_text(defs[0][2][1]), sc.vc)
    sols = [f for f in fs if isinstance(f, list) and len(f) == 3 and f[0] == "define" and isinstance(f[2], list) and f[2][:1] == ["synthesize"]]
    for s in sols:
        kws = {s[2][i]: s[2][i + 1] for i in range(1, len(s[2]) - 1, 2)}
        if kws.get("#:guarantee") != ["assertions"]:
            return "the synthesizer guarantees %s" % (kws.get("#:guarantee"),)
    if len(sols) != 1:
        return "the synthesis program asks for %d solutions" % len(sols)
    return None


class Rk(Compare):
    def __init__(self, sc):
        Compare.__init__(self, sc, RK)


def sygus(ctx, b):
    h, it = b.h, b.it
    f = ctx.lookup(SU + ":toSMT")
    for name, sc in scenarios(ctx).items():
        if "pass" in name or "handed" in name or "taking" in name or "helper" in name or "candidates listed" in name:
            continue
        if not (ctx.thorough or name.startswith(("condition", "axioms", "an unint", "a variable", "a chain", "no target"))):
            continue
        bd = Builder(b, sc)

        def go(it_, bd=bd):
            wd = b.world([], lambda w_, a: (0, ""))
            k = bd.kw()
            it.call(f, [k["target_lang"], k["vars"], k["inv_and_ps"], k["preds"], k["vc"], K("q.sl"), it.new_list([]), it.new_list([]), TRUE], {})
            return wd.text("q.sl")

        def expect(v, r, sc=sc):
            if v is None:
                return "the query is not constant"
            try:
                F = [x for x in sx_parse(v)]
            except SX as e:
                return "the query does not parse: %s" % e
            cons = [x for x in F if isinstance(x, list) and x[:1] == ["constraint"]]
            if len(cons) != 1 or len(cons[0]) != 2 or not Compare(sc).same(sc.vc, cons[0][1], dict(sc.vars), {}):
                return "the synthesizer is asked for %s, the condition is %s" % ([sx_text(c) for c in cons], sc.vc)
            vs = sorted((x[1], sx_text(x[2])) for x in F if isinstance(x, list) and x[:1] == ["declare-var"])
            if vs != sorted((n, tree_text(sort(t))) for n, t in sc.vars):
                return "the query declares %s" % vs
            if [x for x in F if x == ["check-synth"]] != [["check-synth"]] or F[-1] != ["check-synth"]:
                return "the synthesizer is not asked at the end"
            syn = [x[1] for x in F if isinstance(x, list) and x[:1] == ["synth-fun"]]
            if sorted(syn) != sorted(c.name for c in sc.cands):
                return "the functions to synthesize are %s" % syn
            dfs = [x[1] for x in F if isinstance(x, list) and x[:1] and x[0] in ("define-fun", "define-fun-rec", "declare-fun")]
            if sorted(dfs) != sorted(g.name for g in sc.lang if g.kind != "axiom"):
                return "the functions defined are %s" % dfs
            if [x for x in F if isinstance(x, list) and x[:1] == ["assert"] and x[1][:1] == ["not"]]:
                return "the synthesis query asserts the negated condition"
            return None
        h.decide("sygus/" + name, go, expect, ctx.where(f))
