"""P27: LLMLift reports a solution only when the verifier accepted that very solution"""
import os.path

from ..irh import install_networkx
from ..llmfront import LP, LLMFront
from ..rktlint import RFile, library
from ..smtlint import File
from ..synth import SX, sx_text
from ..values import *  # noqa: F401,F403
from ..world import World
from .p14 import Builder, Fn, L, Rk, SIG, Scenario, call, op, verdict
from .p18 import Body, body, declared

FLOOR = 40
LS = "llmlift_scripts.synthesis"
F1 = ("Fn", "Int", "Int")
F2 = ("Fn", "Int", "Int", "Int")
M = ("List", L)


def lang():
    c = call
    vs = Fn("vscale", [("a", "Int"), ("v", L)], L, op("Ite", op("Lt", c("list_length", "v"), 1), c("list_empty"), c("list_prepend", op("Mul", "a", c("list_get", "v", 0)), c("vscale", "a", c("list_tail", "v", 1)))))
    vm = Fn("vmap", [("v", L), ("elem_op", F1)], L, op("Ite", op("Lt", c("list_length", "v"), 1), c("list_empty"), c("list_prepend", ("cv", "elem_op", c("list_get", "v", 0)), c("vmap", c("list_tail", "v", 1), "elem_op"))))
    zp = Fn("vzip", [("v", L), ("w", L), ("pair_op", F2)], L, op("Ite", op("Lt", c("list_length", "v"), 1), c("list_empty"), c("list_prepend", ("cv", "pair_op", c("list_get", "v", 0), c("list_get", "w", 0)), c("vzip", c("list_tail", "v", 1), c("list_tail", "w", 1), "pair_op"))))
    mm = Fn("mscale", [("a", "Int"), ("m", M)], M, op("Ite", op("Lt", c("matrix_length", "m"), 1), c("matrix_empty"), c("matrix_prepend", c("vscale", "a", c("matrix_get", "m", 0)), c("mscale", "a", c("matrix_tail", "m", 1)))))
    return {f.name: f for f in (vs, vm, zp, mm)}


def sig(ps):
    t = {"Int": "int", "Bool": "bool", L: "List[int]", M: "List[List[int]]"}
    return ", ".join("%s: %s" % (n, t[x]) for n, x in ps)


def py(t):
    return {"Int": "int", "Bool": "bool", L: "List[int]", M: "List[List[int]]"}[t]


class Answer:
    def __init__(self, defs, helpers=()):
        """defs: (name in the text, parameters, result type, python, meaning); helpers: Fn"""
        self.defs, self.helpers = defs, list(helpers)
        self.text = "\n".join("def %s(%s) -> %s:\n    return %s\n" % (n, sig(ps), py(t), src) for n, ps, t, src, _ in defs)

    def functions(self, out):
        r = []
        for n, ps, t, _, m in self.defs:
            if n == "prog":
                r.append(Fn("prog_ps", sorted(ps) + [out], "Bool", op("Eq", out[0], m)))
            else:
                r.append(Fn({"invariant": "prog_inv0", "invariant1": "prog_inv0", "invariant2": "prog_inv1"}[n], sorted(ps), "Bool", m))
        return r


class Models:
    """the language models answer the texts given, in order"""

    def __init__(self, it):
        self.it, self.left, self.said = it, [], []
        N = lambda n, f: Native(n, lambda it_, a, kw: f(it_, a, kw))
        inst = lambda n, **f: it.new_inst(Ext(n), f)
        base = it.in_base
        it.in_base += 1
        try:
            gpt = inst("openai.Chat", completions=inst("openai.Completions", create=N("create", lambda it_, a, kw: inst("openai.Answer", choices=it_.new_list([inst("openai.Choice", message=inst("openai.Message", content=K(self.next(it_, kw.get("messages")))))])))))
            it.ext_models["openai.OpenAI"] = lambda it_, a, kw: it_.new_inst(Ext("openai.OpenAI"), {"chat": gpt})
            cl = inst("anthropic.Messages", create=N("create", lambda it_, a, kw: inst("anthropic.Answer", content=it_.new_list([inst("anthropic.Text", text=K(self.next(it_, kw.get("messages"))))]))))
            it.ext_models["anthropic.Anthropic"] = lambda it_, a, kw: it_.new_inst(Ext("anthropic.Anthropic"), {"messages": cl})
        finally:
            it.in_base = base

        def chat(it_, a, kw):
            return inst("genai.Chat", send_message=N("send_message", lambda i2, a2, k2: inst("genai.Answer", text=K(self.next(i2, a2[0])))))
        it.ext_models["google.generativeai.GenerativeModel"] = lambda it_, a, kw: inst("genai.Model", start_chat=N("start_chat", chat))

    def next(self, it, asked):
        self.said.append(asked)
        if not self.left:
            raise it.exc("builtins.ConnectionError", "the model is gone")
        return self.left.pop(0)


def block(t):
    return "Here is the function:\n```python\n%s\n```\nHope this helps." % t


def cases():
    """(name, inputs, output, double, [summary answers], [invariant answers], functions of the language, condition over prog_ps, prog_inv0, prog_inv1)"""
    c = call
    lg = lang()
    I1 = [("b", L), ("a", "Int")]
    O = ("out", L)
    vc1 = op("And", op("Implies", op("Eq", "i", 0), c("prog_inv0", "a", "b", "i", "out")), op("Implies", op("And", c("prog_inv0", "a", "b", "i", "out"), op("Le", c("list_length", "b"), "i")), c("prog_ps", "a", "b", "out")))
    IP = [("out", L), ("b", L), ("a", "Int"), ("i", "Int")]
    R = "i >= 0 and i <= len(b) and out == "
    RM = lambda m: op("And", op("And", op("Ge", "i", 0), op("Le", "i", c("list_length", "b"))), op("Eq", "out", m))
    take = c("list_take", "b", "i")
    S = lambda src, m, hs=(): Answer([("prog", I1, L, src, m)], hs)
    V = lambda src, m, hs=(): Answer([("invariant", IP, "Bool", R + src, RM(m))], hs)
    H = lambda n, ps, b: Fn(n, [(p, "Int") for p in ps], "Int", b)
    out = {}
    out["plain"] = (I1, O, False, [S("vscale(a, b)", c("vscale", "a", "b")), S("vscale(a - 1, b)", c("vscale", op("Sub", "a", 1), "b")), S("b", "b")],
                    [V("vscale(a, b[:i])", c("vscale", "a", take)), V("vscale(1, b[:i])", c("vscale", 1, take)), V("b[:i]", take)], [lg["vscale"]], vc1)
    e0 = H("elem_op_0", "x", op("Add", "x", 1))
    e1 = H("elem_op_1", "x", op("Mul", "x", "x"))
    pr = ("ref", "elem_op_0")
    out["one lambda"] = (I1, O, False, [S("vmap(b, lambda x: x + 1)", c("vmap", "b", pr), [e0])], [V("vmap(b[:i], lambda x: x + 1)", c("vmap", take, pr), [e0])], [lg["vmap"], lg["vscale"]], vc1)
    out["a lambda for each"] = (I1, O, False, [S("vmap(b, lambda x: x + 1)", c("vmap", "b", pr), [e0])], [V("vmap(b[:i], lambda x: x * x)", c("vmap", take, ("ref", "elem_op_1")), [e1])], [lg["vmap"]], vc1)
    out["two parameters"] = (I1, O, False, [S("vzip(b, vscale(a, b), lambda p, q: p - q)", c("vzip", "b", c("vscale", "a", "b"), ("ref", "pair_op_0")), [H("pair_op_0", "pq", op("Sub", "p", "q"))])],
                             [V("vzip(b[:i], vscale(a, b[:i]), lambda p, q: p - q)", c("vzip", take, c("vscale", "a", take), ("ref", "pair_op_0")), [H("pair_op_0", "pq", op("Sub", "p", "q"))])], [lg["vzip"], lg["vscale"], lg["vmap"]], vc1)
    I2 = [("m", M), ("a", "Int")]
    O2 = ("out", M)
    A0, A1 = ["a", "i", "m", "out"], ["a", "i", "j", "m", "out", "row_vec"]
    vc2 = op("And", op("Implies", op("And", c("prog_inv0", *A0), op("Lt", "i", c("matrix_length", "m"))), c("prog_inv1", *A1)), op("Implies", c("prog_inv0", *A0), c("prog_ps", "a", "m", "out")))
    P0 = [("i", "Int"), ("m", M), ("out", M), ("a", "Int")]
    P1 = [("i", "Int"), ("j", "Int"), ("m", M), ("out", M), ("row_vec", L), ("a", "Int")]
    mt = op("Eq", "out", c("mscale", "a", c("matrix_take", "m", "i")))
    two = Answer([("invariant1", P0, "Bool", "i >= 0 and out == mscale(a, m[:i])", op("And", op("Ge", "i", 0), mt)),
                  ("invariant2", P1, "Bool", "row_vec == vscale(a, m[i][:j]) and out == mscale(a, m[:i])", op("And", op("Eq", "row_vec", c("vscale", "a", c("list_take", c("matrix_get", "m", "i"), "j"))), mt))])
    out["two loops"] = (I2, O2, True, [Answer([("prog", I2, M, "mscale(a, m)", c("mscale", "a", "m"))])], [two], [lg["mscale"], lg["vscale"]], vc2)
    ax = Fn("scaled", [("a", "Int"), ("v", L)], None, op("Eq", c("list_length", c("vscale", "a", "v")), c("list_length", "v")), "axiom")
    out["with an axiom"] = (I1, O, False, out["plain"][3][:1], out["plain"][4][:1], [lg["vscale"]], vc1, {"vscale": [ax]})
    out["with an axiom of another function"] = (I1, O, False, out["plain"][3][:1], out["plain"][4][:1], [lg["vscale"], lg["vmap"]], vc1, {"vmap": [ax]})
    return out


def run(ctx):
    c = call
    SIG.update({"list_take": (L, [L, "Int"]), "matrix_get": (L, [M, "Int"]), "matrix_length": ("Int", [M]), "matrix_tail": (M, [M, "Int"]), "matrix_take": (M, [M, "Int"]), "matrix_empty": (M, []), "matrix_prepend": (M, [L, M])})
    it = ctx.it
    f = LLMFront(ctx)
    models = Models(it)
    h = f.h
    install_networkx(it)
    it.load_module(LS)
    it.load_module("metalift.frontend.llvm")
    entry = ctx.lookup(LS + ":run_llm_synthesis_algorithm")
    w = ctx.where(entry)
    ctx.rule("run_llm_synthesis_algorithm is interpreted with a language model that gives chosen answers and a verifier that gives chosen replies: it reports a summary only when the verifier's reply to the question about that summary and that invariant was unsat; "
             "every other reply (sat, unknown, nothing, an error, a killed verifier, unsat after another line) leads to the next answer and finally to an error")
    ctx.rule("The question asked contains, for each pair of answers, the summary as `output == body` under the name of the condition, the invariants under the names of the condition, the lifted lambdas, every target-language function that is used, "
             "the axioms of the functions used, every variable, and the negated condition (SMT) or the assertion of the condition (Rosette)")
    utils = {n: open(os.path.join(it.repo, "metalift", "utils", n)).read() for n in ("utils.rkt", "bounded.rkt", "tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")}
    prelude = utils["tuples.smt"] + utils["integer-fn-axioms.smt"] + utils["list-axioms.smt"]
    lib = library([utils["bounded.rkt"], utils["utils.rkt"]])

    class B:
        pass
    bb = B()
    bb.h, bb.it = h, it

    def attempt(case, said, replies, method, model="GPT", tries=(3, 3), double=None):
        """one run; said: answers, replies: one per question -> (outcome, printed, questions)"""
        inputs, out, dbl, _, _, fns, vc = case[:7]
        axs = case[7] if len(case) > 7 else {}
        vars_ = sorted(inputs + [("i", "Int"), out] + ([("j", "Int"), ("row_vec", L)] if dbl else []))
        qs = []

        def go(it_):
            del qs[:]

            def verify(wd, argv):
                p = [a for a in argv[1:] if isinstance(a, str) and os.path.basename(a).startswith("verify_")]
                qs.append((argv[0], wd.text(p[-1]) if p and os.path.normpath(p[-1]) in wd.files else None))
                if len(qs) > len(replies):
                    return 0, "sat\n"
                return replies[len(qs) - 1]
            files = {"metalift/utils/" + n: t for n, t in utils.items()}
            f.world = World(it, files=files, run=verify, resource=lambda package, name: utils[name])
            models.left, models.said = [block(t) for t in said], []
            sc = Scenario(fns, [], None, vars_)
            sc.sig.update({"prog_ps": ("Bool", []), "prog_inv0": ("Bool", []), "prog_inv1": ("Bool", [])})
            bd = Builder(bb, sc)
            d = it_.call(ctx.lookup("metalift.frontend.llvm:Driver"), [], {})
            obj = lambda n: h.fn("create_object", h.ty(dict(vars_)[n]), K(n))
            it_.call(it_.getattr(d, "add_var_objects"), [it_.new_list([obj(n) for n, _ in vars_])], {})
            for part in vc[1:] if vc[0] == "And" else [vc]:
                it_.call(it_.getattr(it_.getattr(d, "asserts"), "append"), [h.mk("Bool", bd.term(part, dict(vars_)))], {})
            names = lambda xs: it_.new_list([obj(n) for n in xs])
            ins = [n for n, _ in inputs]
            if dbl:
                li = it_.call(ctx.lookup("llmlift_scripts.utils:DoubleLoopInfo"), [], dict(outer_loop_var=obj("i"), inner_loop_var=obj("j"), outer_loop_read_vars=names(ins), inner_loop_read_vars=names(ins + ["i"]), outer_loop_modified_vars=names(["out"]), inner_loop_modified_vars=names(["out", "row_vec"])))
            else:
                li = it_.call(ctx.lookup("llmlift_scripts.utils:SingleLoopInfo"), [], dict(loop_var=obj("i"), read_vars=names(ins), modified_vars=names(["out"])))
            lf = it_.new_list([bd.fn(x) for x in fns])
            ad = it_.alloc(HDict([(K(n), it_.new_list([bd.fn(a) for a in xs])) for n, xs in axs.items()]))
            n0 = len(it_.events)
            r = "returned"
            try:
                it_.call(entry, [], dict(driver=d, loop_info=li, output_var=obj("out"), source_code=K("int prog() {}"), benchmark_name=K("prog"), llm_model=it_.getattr(ctx.lookup(LS + ":LLMModel"), model), dsl_fns=lf,
                                         dsl_fn_name_to_axioms=ad, max_num_ps_sols=K(tries[0]), max_num_inv_sols=K(tries[1]), verification_method=it_.getattr(ctx.lookup(LS + ":VerificationMethod"), method)))
            except PyExc as e:
                r = "raised " + str(getattr(e, "name", "")) + " " + str(e)[:120]
            shown = [x for e in it_.events[n0:] if e[0] == "print" for x in [tuple(y.v if isinstance(y, K) else None for y in e[1][0])]]
            return r, shown, list(qs), len(models.left)
        return go

    def question(case, s, i, q, key):
        inputs, out, dbl, _, _, fns, vc = case[:7]
        axs = case[7] if len(case) > 7 else {}
        vars_ = sorted(inputs + [("i", "Int"), out] + ([("j", "Int"), ("row_vec", L)] if dbl else []))
        prog, text = q
        if text is None:
            return "the verifier %s is not given the file that was written" % prog
        helpers = {x.name: x for x in s.helpers + i.helpers}
        used = set()

        def names(t):
            if isinstance(t, tuple):
                if t[0] in ("call", "ref"):
                    used.add(t[1])
                for x in t[1:]:
                    names(x)
        cands = s.functions(out) + i.functions(out)
        for x in cands + list(helpers.values()):
            names(x.body)
        own = [x for x in fns if x.name in used]
        axioms = [a for n, xs in axs.items() for a in xs if n in used]
        if prog == "cvc5":
            lang_ = [x for x in fns if not any(isinstance(t, tuple) and t[0] == "Fn" for _, t in x.params) or x.name in used]
            sc = Scenario(lang_ + list(axioms), cands, vc, vars_, list(helpers.values()))
            return verdict(sc, text, prelude)
        lines = [l for l in text.rstrip().splitlines()]
        if lines[-1].strip() != "vc":
            return "the Rosette program does not print the answer"
        try:
            F = RFile("\n".join(lines[:-1]), lib)
        except SX as e:
            return "the Rosette program does not parse: %s" % e
        if F.problems:
            return F.problems[0]
        sc = Scenario(fns, cands, vc, vars_, list(helpers.values()))
        cmp_ = Rk(sc)
        for x in own + cands + list(helpers.values()):
            if x.name not in F.bodies:
                return "%s is not defined" % x.name
            if F.params[x.name] != [n for n, _ in x.params]:
                return "the parameters of %s are %s" % (x.name, F.params[x.name])
            if not body(cmp_, x.body, F.bodies[x.name], dict(x.params)):
                return "%s is defined as %s, expected %s" % (x.name, sx_text(F.bodies[x.name]), x.body)
        m, _ = declared(F, vars_, 2)
        if m:
            return m
        d = F.defs.get("vc")
        if not (isinstance(d, list) and d[:1] == ["verify"] and len(d) == 2 and isinstance(d[1], list) and d[1][:1] == ["assert"]) or not body(cmp_, vc, d[1][1], dict(vars_)):
            return "the verifier is asked for %s, the condition is %s" % (sx_text(d) if d is not None else "nothing", vc)
        return None

    def printed(shown, text):
        return any(len(x) == 1 and isinstance(x[0], str) and x[0].strip() == text.strip() for x in shown)

    GOOD = {"SMT": (0, "unsat\n"), "ROSETTE": (0, "(unsat)\n")}
    CS = cases()

    def decide(key, go, expect):
        h.decide(key, go, expect, w)
    # ---- the question, for every kind of answer
    for n, case in CS.items():
        for method in ("SMT", "ROSETTE"):
            s, i = case[3][0], case[4][0]

            def expect(v, r, case=case, s=s, i=i, n=n):
                how, shown, qs, left = v
                if len(qs) != 1:
                    return "the verifier is asked %d questions (%s; %s)" % (len(qs), how, [x for x in shown][-4:])
                m = question(case, s, i, qs[0], n)
                if m:
                    return m
                if how != "returned":
                    return "an accepted solution %s" % how
                return None if printed(shown, s.text) else "the solution reported is not the one accepted"
            decide("question/%s/%s" % (method, n), attempt(case, [s.text, i.text], [GOOD[method]], method), expect)
    # ---- replies that are no proof
    plain = CS["plain"]
    s, i = plain[3], plain[4]
    NO = {"SMT": [(0, "sat\n"), (0, "unknown\n"), (0, ""), (1, ""), (1, "unsupported\n"), (0, "timeout\n"), (-11, ""), (-9, "unsat\n"), (0, "(error \"unsat\")\n"), (0, "sat\nunsat\n"), (0, "cvc5 interrupted by timeout.\n"), (0, "\nunsat\n"), (0, "unsatisfied\n")],
          "ROSETTE": [(0, "(model\n [x 1])\n"), (0, "(unknown)\n"), (0, ""), (0, "unsat?\n"), (0, "(model\n [unsat 1])\n(unsat)\n"), (0, "\n")]}
    for method in ("SMT", "ROSETTE"):
        for no in NO[method]:
            def expect(v, r, no=no):
                how, shown, qs, left = v
                if len(qs) != 1:
                    return "the verifier is asked %d questions, expected one" % len(qs)
                return None if how.startswith("raised") else "the reply %r (status %d) counts as a proof" % (no[1], no[0])
            decide("reply/%s/%d %r" % (method, no[0], no[1]), attempt(plain, [s[0].text, i[0].text], [no], method, tries=(1, 1)), expect)
    # ---- several answers: which one is reported
    good, no = GOOD["SMT"], (0, "sat\n")
    seqs = {"second invariant": ([s[0], i[1], i[0]], [no, good], [(0, 1), (0, 2)], 0), "third invariant": ([s[0], i[1], i[2], i[0]], [no, no, good], [(0, 1), (0, 2), (0, 3)], 0),
            "second summary": ([s[1], i[0], i[1], i[2], s[0], i[0]], [no, no, no, good], [(0, 1), (0, 2), (0, 3), (4, 5)], 4), "unreadable summary first": (["def prog(:\n", s[0], i[0]], [good], [(1, 2)], 1),
            "unsupported summary first": (["def prog(b: List[int], a: int) -> List[int]:\n    return [x * a for x in b]\n", s[0], i[0]], [good], [(1, 2)], 1),
            "unreadable invariant first": ([s[0], "def invariant(a: int) -> bool:\n    return not a\n", i[0]], [good], [(0, 2)], 0), "third summary": ([s[1], i[0], i[1], i[2], s[2], i[0], i[1], i[2], s[0], i[1], i[0]], [no] * 7 + [good], None, 8)}
    for n, (said, replies, pairs, win) in seqs.items():
        texts = [x if isinstance(x, str) else x.text for x in said]

        def expect(v, r, said=said, pairs=pairs, win=win, texts=texts, replies=replies):
            how, shown, qs, left = v
            if how != "returned":
                return "an accepted solution %s" % how
            if len(qs) != len(replies):
                return "the verifier is asked %d questions, expected %d" % (len(qs), len(replies))
            for k, (a, b) in enumerate(pairs or []):
                m = question(plain, said[a], said[b], qs[k], "")
                if m:
                    return "question %d: %s" % (k + 1, m)
            if not printed(shown, texts[win]):
                return "the solution reported is not the one accepted"
            return None
        decide("answers/" + n, attempt(plain, texts, replies, "SMT"), expect)

    def none(v, r):
        how, shown, qs, left = v
        if not how.startswith("raised"):
            return "a solution is reported, none was accepted"
        return "the verifier is asked %d questions, expected 4" % len(qs) if len(qs) != 4 else None
    decide("answers/none", attempt(plain, [x.text for x in (s[0], i[0], i[1], s[1], i[0], i[2])], [no] * 4, "SMT", tries=(2, 2)), none)
    decide("answers/no readable one", attempt(plain, ["def prog(:\n", "def prog(b: List[int], a: int) -> int:\n    return sum(b)\n"], [], "SMT", tries=(2, 2)),
           lambda v, r: None if v[0].startswith("raised") and not v[2] else "a solution is reported though no answer could be read")
    # ---- every model's answer is read as one text
    for model in ("GPT", "CLAUDE", "GEMINI"):
        def expect(v, r):
            how, shown, qs, left = v
            if how != "returned":
                return "an accepted solution %s" % how
            return question(plain, s[0], i[0], qs[0], "") if len(qs) == 1 else "the verifier is asked %d questions" % len(qs)
        decide("model/" + model, attempt(plain, [s[0].text, i[0].text], [good], "SMT", model), expect)
    ite(ctx, f, h)


def ite(ctx, f, h):
    """ite(c, a, b) in an answer is the conditional a if c else b"""
    import ast
    it = ctx.it
    fn = ctx.lookup("llmlift_scripts.utils:replace_ite")
    ctx.rule("ite(c, a, b) in an answer reads as the conditional expression of the same meaning in any position; other text is left alone")

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "ite" and len(n.args) == 3:
                return ast.IfExp(test=n.args[0], body=n.args[1], orelse=n.args[2])
            return n
    for t in ["ite(c, a, b)", "1 + ite(c, a, b)", "ite(c, a, b) * 2", "ite(a > f(x, y), b[0], g(1, 2))", "ite(c, ite(d, 1, 2), ite(e, 3, 4))", "ite(ite(a, b, c), x, y)", "f(ite(c, a, b), ite(d, e, g))", "finite(a, b, c)", "ite_int(a, b, c)",
              "ite(c, p if q else r, s)", "ite(p if q else r, a, b)", "ite(c, a, p if q else r)", "ite(c and d, a - 1, b[i:j])", "vec_map(b, lambda x: ite(x > 0, x, 0))", "ite(c, [x, y][0], b)", "no conditional".replace(" ", "_"), "a if c else b", "ite((a, b)[0], c, d)", "-ite(c, a, b)", "ite(c, a, b) < ite(d, a, b)", "ite(c,a,b)", "ite( c , a , b )", "ite(c,\n    a,\n    b)"]:
        def expect(v, r, t=t):
            if not (isinstance(v, K) and isinstance(v.v, str)):
                return "?the text is not constant"
            try:
                got = ast.dump(ast.parse("(" + v.v + ")", mode="eval"))
            except SyntaxError:
                return "%r becomes %r" % (t, v.v)
            want = ast.dump(ast.fix_missing_locations(X().visit(ast.parse("(" + t + ")", mode="eval"))))
            return None if got == want else "%r becomes %r" % (t, v.v)
        h.decide("conditional/" + t.replace("\n", " "), lambda it_, t=t: it_.call(fn, [K(t)], {}), expect, ctx.where(fn))
