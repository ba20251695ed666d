"""P22: joining conditions; what a driver hands to synthesis"""
import itertools

from .. import cases, llfront
from ..cases import A, B, AB, I_, S, add, asg, lt, num, ret
from ..irh import IRH, canon, shownode
from ..llfront import LF, LLFront
from ..pyfront import PF, PyFront
from ..values import K, Ref

FLOOR = 40
VCU = "metalift.vc_util"
FU = "metalift.frontend.utils"
SYN = "metalift.synthesize_rosette:synthesize"


def leaves(n, cls, out=None):
    out = [] if out is None else out
    if isinstance(n, tuple) and n and n[0] == cls:
        for a in n[1:]:
            leaves(a, cls, out)
    else:
        out.append(n)
    return out


def joins(ctx, h):
    it = h.it
    it.load_module(VCU)
    x = lambda n, t="Int": h.fn("create_object", h.ty(t), K(n))
    PARTS = [
        ("p", lambda: x("p", "Bool")), ("q", lambda: x("q", "Bool")), ("a<b", lambda: h.meth(x("a"), "__lt__", x("b"))), ("b<a", lambda: h.meth(x("b"), "__lt__", x("a"))),
        ("a<=b", lambda: h.meth(x("a"), "__le__", x("b"))), ("True", lambda: h.mk("Bool", K(True))), ("False", lambda: h.mk("Bool", K(False))), ("not p", lambda: h.meth(x("p", "Bool"), "Not")),
        ("p(a)", lambda: h.fn("call", K("p"), h.ty("Bool"), x("a"))), ("p(a, b)", lambda: h.fn("call", K("p"), h.ty("Bool"), x("a"), x("b"))), ("q(a, b)", lambda: h.fn("call", K("q"), h.ty("Bool"), x("a"), x("b"))),
        ("a=1", lambda: h.meth(x("a"), "__eq__", h.mk("Int", K(1)))), ("p(1)", lambda: h.fn("call", K("p"), h.ty("Bool"), h.mk("Int", K(1)))),
        ("p=>q", lambda: h.fn("implies", x("p", "Bool"), x("q", "Bool"))), ("a<a", lambda: h.meth(x("a"), "__lt__", x("a"))),
    ]
    deep = ctx.thorough
    fns = {(f, k): ctx.lookup("%s:%s_%s" % (VCU, f, k)) for f in ("and", "or") for k in ("objects", "exprs")}
    U = h.cls("get_object_expr")
    for (f, k), fn in fns.items():
        cls = {"and": "And", "or": "Or"}[f]
        w = ctx.where(fn)

        def sides(it_, seq, fn=fn, k=k):
            objs = [PARTS[i][1]() for i in seq]
            want = [canon(h.reify(it.call(U, [o], {}))) for o in objs]
            args = objs if k == "objects" else [it.call(U, [o], {}) for o in objs]
            r = it.call(fn, args, {})
            if not isinstance(r, Ref):
                return None, r, None
            got = h.reify(it.call(U, [r], {}) if k == "objects" else r)
            kind = it.get(r).cls.name
            return want, canon(got), kind

        def right(v, seq, cls=cls, k=k):
            want, got, kind = v
            if want is None:
                return "the result is %s" % (got,)
            ls = leaves(got, cls)
            if k == "objects" and kind != "Bool":
                return "the result is an object of type %s" % kind
            names = ", ".join(PARTS[i][0] for i in seq)
            uniq = []
            for x_ in want:
                if not any(x_ == y and str(x_) == str(y) for y in uniq):
                    uniq.append(x_)
            for x_ in uniq:
                if not any(x_ == y and str(x_) == str(y) for y in ls):
                    return "joining %s loses %s: %s" % (names, x_, got)
            for y in ls:
                if not any(x_ == y and str(x_) == str(y) for x_ in uniq):
                    return "joining %s contains %s" % (names, y)
            if k == "objects" and len(ls) != len(uniq):
                return "joining %s repeats a condition: %s" % (names, got)
            if k == "exprs" and len(ls) != len(want):
                return "joining %s has %d conditions" % (names, len(ls))
            return None
        jobs = [(n, first) for n in (1, 2) for first in range(len(PARTS))]
        jobs += [(n, first) for n in ((3, 4, 5) if deep else (3, 4)) for first in (0, 2, 8)]
        for n, first in jobs:
            pool = range(len(PARTS)) if n <= 2 else (0, 1, 2, 3, 8) if n < 5 else (0, 1, 2)

            def go(it_, n=n, first=first, pool=pool):
                out = []
                for rest in itertools.product(pool, repeat=n - 1):
                    m = right(sides(it_, (first,) + rest), (first,) + rest)
                    if m:
                        out.append(m)
                return out
            h.decide("%s_%s/%d conditions from %s" % (f, k, n, PARTS[first][0]), go, lambda v, r: v[0] if v else None, w)
        h.must_raise("%s_%s/none" % (f, k), lambda it_, fn=fn: it.call(fn, [], {}), "an empty list of conditions", w)
        # conditions that are joins themselves keep their own connective
        for f2 in ("and", "or"):
            def nest(it_, fn=fn, k=k, f2=f2):
                inner = it.call(fns[(f2, "objects")], [PARTS[0][1](), PARTS[2][1]()], {})
                objs = [PARTS[1][1](), inner, PARTS[8][1]()]
                r = it.call(fn, objs if k == "objects" else [it.call(U, [o], {}) for o in objs], {})
                return canon(h.reify(it.call(U, [r], {}) if k == "objects" else r)), [canon(h.reify(it.call(U, [o], {}))) for o in objs]

            def nested(v, r, cls=cls, f2=f2):
                want = []
                for y in v[1]:
                    want += leaves(y, cls)
                return None if sorted(map(str, leaves(v[0], cls))) == sorted(map(str, want)) else "joining an already joined condition yields %s" % (v[0],)
            h.decide("%s_%s/of %s" % (f, k, f2), nest, nested, w)


# ---------------------------------------------------------------- what a driver hands to synthesis
def flat(o, h):
    return canon(h.reify(o))


def programs():
    loop = [asg("i", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1)))]), ret(I_)]
    two = [asg("i", num(0)), asg("s", num(0)), ("while", lt(I_, A), [asg("i", add(I_, num(1))), asg("s", add(S, B))]), asg("i", B), ("while", lt(num(0), I_), [asg("i", ("op", "-", I_, num(1))), asg("s", add(S, I_))]), ret(S)]
    plain = [ret(add(A, B))]
    early = [("if", lt(A, B), [ret(A)], None), ret(B)]
    return {"f": loop, "g": two, "p": plain, "e": early}


PY_ONLY = ["the same function on one input"]        # the LLVM front end takes the inputs by name
SCEN = [
    ("straight line", ["p"], [("call", "p", ["a", "b"], "x")]),
    ("one loop", ["f"], [("call", "f", ["a", "b"], "x")]),
    ("two loops", ["g"], [("call", "g", ["a", "b"], "x")]),
    ("several returns", ["e"], [("call", "e", ["a", "b"], "x")]),
    ("two functions", ["f", "g"], [("call", "f", ["a", "b"], "x"), ("call", "g", ["a", "b"], "y")]),
    ("three functions", ["g", "p", "f"], [("call", "g", ["a", "b"], "x"), ("call", "p", ["a", "b"], "y"), ("call", "f", ["a", "b"], "z")]),
    ("with a precondition", ["f", "e"], [("pre", ("cmp", ["<"], [A, B])), ("call", "f", ["a", "b"], "x"), ("call", "e", ["a", "b"], "y")]),
    ("the same function twice", ["f"], [("call", "f", ["a", "b"], "x"), ("call", "f", ["a", "b"], "y")]),
    ("the same function twice, inputs exchanged", ["f"], [("call", "f", ["a", "b"], "x"), ("call", "f", ["b", "a"], "y")]),
    ("the same function on one input", ["e"], [("call", "e", ["a", "b"], "x"), ("call", "e", ["a", "a"], "y"), ("call", "e", ["b", "b"], "z")]),
    ("alternating functions", ["p", "e"], [("call", "p", ["a", "b"], "x"), ("call", "e", ["a", "b"], "y"), ("call", "p", ["b", "a"], "z"), ("call", "e", ["b", "a"], "t")]),
]


def scen(py):
    return [s for s in SCEN if py or s[0] not in PY_ONLY]


class Handed:
    """runs Driver.synthesize with the synthesis procedure replaced by a recorder"""

    def __init__(self, ctx, py):
        self.ctx, self.py = ctx, py
        self.fr = PyFront(ctx) if py else LLFront(ctx)
        self.it, self.h = self.fr.it, self.fr.h
        self.it.load_module(SYN.split(":")[0])
        self.syn = ctx.lookup(SYN)
        self.got = None
        self.answer = lambda b: []
        self.it.summaries[SYN] = self.record
        self.langs = {}
        self.fr.lang = self.lang

    def record(self, it, f, args, kw):
        if self.got is not None:
            self.got = "twice"
        else:
            self.got = it.bind_args(f, args, kw)
        return it.new_list(self.answer(self.got))

    def lang(self, fn):
        if fn not in self.langs:
            h = self.h
            a = h.fn("create_object", h.ty("Int"), K("a"))
            mk = lambda n: h.fn("fn_decl", K(n), h.ty("Int"), h.meth(a, "__add__", h.mk("Int", K(len(n)))), a)
            self.langs[fn] = [mk(fn + "_dsl1"), mk(fn + "_dsl2")]
        return self.langs[fn]

    def play(self, fs, steps):
        P = programs()
        D = [("driver",), ("obj", "a", "int"), ("obj", "b", "int")]
        self.langs = {}
        if self.py:
            from ..pyfront import number
            d = self.fr.scenario({f: (AB, "int", number(P[f]), {}) for f in fs}, D + steps)[-1]
        else:
            d = llfront.play(self.fr, {f: llfront.emit(f, AB, P[f]) for f in fs}, D + [("call", s[1], s[2]) if s[0] == "call" else s for s in steps])[-1]
        return d

    def synthesize(self, d, extra=()):
        it, h = self.it, self.h
        it.mut(d).fields["fns_synths"] = it.new_list(list(extra))
        self.got = None
        self.fr.calls, self.fr.offered = [], []
        if self.py:
            it.mut(d).fields["uninterp_fns"] = it.new_list([K("u1")])
            it.call(it.getattr(d, "synthesize"), [], {})
        else:
            it.call(it.getattr(d, "synthesize"), [K("base")], {"list_bound": K(3), "relaxed": K(True), "uninterp_fns": it.new_list([K("u1")])})
        return self.got


def handed(ctx):
    for py in (True, False):
        hd = Handed(ctx, py)
        it, h = hd.it, hd.h
        tag = "Python" if py else "LLVM"
        w = ctx.where(ctx.lookup((PF if py else LF) + ":Driver.synthesize"))
        for name, fs, steps in scen(py):
            def go(it_, fs=fs, steps=steps):
                d = hd.play(fs, steps)
                y = h.fn("create_object", h.ty("Int"), K("y"))
                extra = h.mk("Synth", K("helper"), it.getattr(y, "src"), it.getattr(y, "src"))
                asserts = [flat(a, h) for a in it.iter_items(it.getattr(d, "asserts"))]
                tr = it.getattr(it.getattr(d, "inv_tracker" if py else "pred_tracker"), "predicates")
                preds = [(it.getattr(p, "name").v, [h.meth(o, "var_name").v for o in it.iter_items(it.getattr(p, "args"))]) for _, p in it.get(tr).items]
                allv = sorted(str(flat(v, h)) + str(h.reify(v).type) for v in it.iter_items(it.call(it.getattr(it.getattr(d, "var_tracker"), "all"), [], {})))
                b = hd.synthesize(d, [extra])
                if b is None or b == "twice":
                    return "the synthesis procedure is called %s" % ("never" if b is None else b), None
                L = lambda k: list(it.iter_items(b[k]))
                return None, {"asserts": asserts, "preds": preds, "allv": allv, "vc": canon(h.reify(b["vc"])), "vckind": h.reify(b["vc"]).cls,
                              "vars": sorted(str(flat(v, h)) + str(h.reify(v).type) for v in L("vars")),
                              "inv_and_ps": [h.reify(x) for x in L("inv_and_ps")], "loop_and_ps_info": [h.reify(x) for x in L("loop_and_ps_info")],
                              "target": [h.reify(x).args[0].v for x in L("target_lang")], "want": [n + s for n in fs for s in ("_dsl1", "_dsl2")],
                              "basename": b["basename"], "uninterp": [x.v for x in L("uninterp_fns")], "relaxed": [c[2] for c in getattr(hd.fr, "calls", [])], "bound": b["list_bound"], "preds_": L("preds")}

            def expect(v, r):
                if v[0]:
                    return v[0]
                g = v[1]
                want = []
                for a in g["asserts"]:
                    want += leaves(a, "And")
                got = leaves(g["vc"], "And")
                miss = [x for x in want if x not in got]
                if miss:
                    return "the verification condition lacks the obligation %s" % (miss[0],)
                more = [x for x in got if x not in want]
                if more:
                    return "the verification condition contains %s, which is no obligation" % (more[0],)
                if g["vars"] != g["allv"]:
                    return "synthesis is given the variables %s instead of %s" % (g["vars"], g["allv"])
                ip = [(x.args[0].v, [y.args[0].v for y in x.args[2:]]) for x in g["inv_and_ps"]]
                if sorted(ip) != sorted(g["preds"] + [("helper", ["y"])]):
                    return "synthesis is asked for %s, the analysis uses %s" % (ip, g["preds"])
                li = [x.args[0].v for x in g["loop_and_ps_info"]]
                if sorted(li) != sorted(n for n, _ in g["preds"]) and sorted(li) != sorted([n for n, _ in g["preds"]] + ["helper"]):
                    return "the candidates to verify are %s, the analysis uses %s" % (li, [n for n, _ in g["preds"]])
                if sorted(g["target"]) != sorted(g["want"]):
                    return "the target language is %s instead of %s" % (g["target"], g["want"])
                if g["uninterp"] != ["u1"]:
                    return "the uninterpreted functions are %s" % g["uninterp"]
                if not py and (g["basename"] != K("base") or g["bound"] != K(3)):
                    return "the file name or bound the user gave is not passed on"
                if not py and any(x != K(True) for x in g["relaxed"]):
                    return "a grammar is not asked for its relaxed form"
                if g["preds_"]:
                    return "synthesis is given predicates the user did not write"
                return None
            h.decide("%s handed over/%s" % (tag, name), go, expect, w)
        del it.summaries[SYN]


def collected(ctx):
    """the obligations a driver holds are those of every analysis made with it"""
    P = programs()
    D = [("driver",), ("obj", "a", "int"), ("obj", "b", "int")]
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":MetaliftFunc.__call__"))
    for n, fs, steps in SCEN:
        cases.decide_scenario(ctx, pf, "Python collected/" + n, {f: (AB, "int", P[f], {}) for f in fs}, D + steps, w)
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":MetaliftFunc.__call__"))
    for n, fs, steps in scen(False):
        llfront.decide_scenario(ctx, lf, "LLVM collected/" + n, {f: (AB, P[f], {}, "int") for f in fs}, D + [("call", s[1], s[2]) if s[0] == "call" else s for s in steps], w)


def run(ctx):
    ctx.rule("the obligations a driver holds after one to four analyses are those of the reference rule for each of them, those of a repeated function included")
    ctx.rule("joining any list of up to %d conditions (with repetitions): the result consists of exactly those conditions under that connective, once each; one condition is itself; the empty list is rejected" % (5 if ctx.thorough else 4))
    ctx.rule("Driver.synthesize of both front ends, after analyses of one to three functions: the condition is the conjunction of all obligations, and every registered variable, predicate, target-language function and option is passed on")
    h = IRH(ctx)
    joins(ctx, h)
    handed(ctx)
    collected(ctx)
