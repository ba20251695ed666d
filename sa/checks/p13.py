"""P13: what a synthesis run returns, against what the verifier was asked and what it answered"""
import itertools

from ..cases import A, B, AB
from ..irh import canon, ctuple
from ..llfront import LF
from ..pyfront import PF
from ..synth import SC, SR, SU, Bench, answer_text, sx_parse, SX
from ..values import Ext, K, PyExc, Ref, Tup, NONE, TRUE, FALSE
from .p22 import Handed

FLOOR = 45

# ------------------------------------------------------------ candidates in three notations
RK = {"Eq": "equal?", "Add": "+", "Sub": "-", "Mul": "*", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "And": "&&"}
SM = {"Eq": "=", "Add": "+", "Sub": "-", "Mul": "*", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "And": "and"}


def rk(t):
    return str(t) if not isinstance(t, tuple) else "(%s %s)" % (RK.get(t[0], t[0]), " ".join(rk(x) for x in t[1:]))


def sm(t):
    return str(t) if not isinstance(t, tuple) else [SM.get(t[0], t[0])] + [sm(x) for x in t[1:]]


def cn(t):
    def go(t):
        if isinstance(t, int):
            return ("Lit", t)
        if isinstance(t, str):
            return ("Var", t)
        if t[0] in RK:
            return (t[0],) + tuple(go(x) for x in t[1:])
        return ("Call", t[0]) + tuple(go(x) for x in t[1:])
    return ctuple(go(t))


BODIES = [("Eq", "f_rv", ("Add", "x", 1)), ("Eq", "f_rv", ("Mul", "x", 2)), ("Eq", "f_rv", ("Sub", "x", 3)), ("Eq", "f_rv", ("dsl", "x", 4))]
INVS = [("Le", "i", "x"), ("Ge", "i", ("Add", "x", 5)), ("And", ("Lt", "i", 6), ("Le", "i", "x")), ("Gt", ("dsl", "i", 7), 0)]
STALE = [("Eq", "f_rv", 666), ("Lt", "i", 667)]


class Problem:
    """a summary f_ps(f_rv, x) and an invariant f_inv0(i, x)"""

    def __init__(self, ctx, inv=True, name="prog"):
        self.ctx, self.inv, self.name = ctx, inv, name
        self.b = Bench(ctx)
        self.h, self.it = self.b.h, self.b.it

    def kw(self):
        b, h, it = self.b, self.h, self.it
        x, rv, i = b.var("x"), b.var("f_rv"), b.var("i")
        obj = lambda n, t="Int": h.fn("create_object", h.ty(t), K(n))
        ps = h.mk("Synth", K("f_ps"), h.mk("Eq", rv, h.mk("Choose", x, b.lit(1))), rv, x)
        synths = [ps]
        call_ps = h.fn("call", K("f_ps"), h.ty("Bool"), obj("f_rv"), obj("x"))
        vc = call_ps
        if self.inv:
            synths.append(h.mk("Synth", K("f_inv0"), h.mk("Choose", h.mk("Ge", i, x), h.mk("Le", i, x)), i, x))
            vc = h.fn("implies", h.fn("call", K("f_inv0"), h.ty("Bool"), obj("i"), obj("x")), call_ps)
        vc = it.call(h.cls("get_object_expr"), [vc], {})
        dsl = h.mk("FnDeclRecursive", K("dsl"), h.ty("Int"), h.mk("Add", b.var("a"), b.var("b")), b.var("a"), b.var("b"))
        return dict(basename=K(self.name), target_lang=it.new_list([dsl]), vars=it.call(Ext("builtins.set"), [it.new_list([x, rv] + ([i] if self.inv else []))], {}), inv_and_ps=it.new_list(synths),
                    preds=it.new_list([]), vc=vc, loop_and_ps_info=it.new_list(list(synths)), cvc_path=K("/opt/bin/cvc5"))

    def names(self):
        return ["f_ps"] + (["f_inv0"] if self.inv else [])

    def sol(self, k, found=True):
        defs = ["(define (f_ps f_rv x)\n  %s)" % rk(BODIES[k])]
        if self.inv:
            defs.append("(define (f_inv0 i x)\n  %s)" % rk(INVS[k]))
        return answer_text(defs, found)

    def wanted(self, k):
        w = {"f_ps": (BODIES[k], ("f_rv", "x"))}
        if self.inv:
            w["f_inv0"] = (INVS[k], ("i", "x"))
        return w

    def path(self, k):
        return "synthesisLogs/%s_sol%d" % (self.name, k)


def first_path(argv):
    return argv[-1] if isinstance(argv[-1], str) else None


def definitions(text):
    """name -> [(params, body)] of every function defined in an SMT text, plus the assertions that mention a candidate"""
    defs, asserts = {}, []
    for x in sx_parse(text):
        if isinstance(x, list) and x and x[0] in ("define-fun", "define-fun-rec") and len(x) == 5:
            defs.setdefault(x[1], []).append((tuple(p[0] for p in x[2]), x[4]))
        elif isinstance(x, list) and x and x[0] == "assert":
            asserts.append(x[1])
    return defs, asserts


class Run:
    """one synthesis run: its world, its outcome, and the verifier's questions"""

    def __init__(self, prob, life, answers, files=None, kw=None):
        """answers: what the verifier says, per question: (returncode, stdout)"""
        self.p = prob
        self.questions = []
        self.answers = list(answers)
        b = prob.b

        def verify(w, argv):
            q = {"argv": argv, "text": None, "fresh": None}
            path = first_path(argv)
            if path is not None and w.files.get(path[2:] if path.startswith("./") else path) is not None:
                q["text"] = w.text(path)
                n = len(w.log)
                prev = max([j for j in range(n - 1) if w.log[j][0] == "run"], default=-1)
                q["fresh"] = any(e[0] in ("create", "append") and e[1] == (path[2:] if path.startswith("./") else path) for e in w.log[prev + 1:n])
            self.questions.append(q)
            k = len(self.questions) - 1
            return self.answers[min(k, len(self.answers) - 1)]
        self.world = b.world(life, verify, files)
        self.res = b.synthesize(**dict(prob.kw(), **(kw or {})))

    def returned(self):
        it, h = self.p.it, self.p.h
        return [h.reify(c) for c in it.iter_items(self.res)]


def sets(run, p):
    """what came back, and how it relates to the last question"""
    got = {}
    for c in run.returned():
        got.setdefault(c.args[0].v, []).append((canon(c.args[1]), tuple(a.args[0].v for a in c.args[2:])))
    return got


def sound(p, run, k, verified=True):
    """the run returned: it must be candidate k, and the last question must have been about exactly that candidate"""
    got = sets(run, p)
    want = p.wanted(k)
    if sorted(got) != sorted(want):
        return "the run returns definitions of %s instead of %s" % (sorted(got), sorted(want))
    for n, (body, params) in want.items():
        if got[n] != [(cn(body), params)]:
            return "the run returns %s for %s where the synthesizer's solution %d is %s(%s) = %s" % (got[n], n, k, n, ", ".join(params), rk(body))
    if not verified:
        return None
    if not run.questions:
        return "the run returns a candidate without asking the verifier"
    q = run.questions[-1]
    if q["argv"][0] != "/opt/bin/cvc5":
        return "the verifier run is %s" % (q["argv"][0],)
    if q["text"] is None or not q["fresh"]:
        return "the verifier is asked about the file %s, which is not written for this candidate" % (first_path(q["argv"]),)
    try:
        defs, asserts = definitions(q["text"])
    except SX as e:
        return "the verification query does not parse: %s" % e
    for n, (body, params) in want.items():
        if defs.get(n) != [(params, sm(body))]:
            return "the verifier is asked about %s(%s) = %s, the run returns %s" % (n, ", ".join(params), defs.get(n), rk(body))
    if not asserts or asserts[-1][0] != "not":
        return "the last assertion of the query is %s, not a negation" % (asserts[-1] if asserts else None,)
    return None


UNSAT = [("unsat", 0, "unsat\n"), ("unsat, then no model", 1, 'unsat\n(error "cannot get model unless after a SAT or UNKNOWN response.")\n'), ("unsat without a newline", 0, "unsat")]
NOT = [("sat", 0, "sat\n(\n(define-fun x () Int 0)\n)\n"), ("unknown", 0, "unknown\n"), ("unknown, then unsat", 0, "unknown\nunsat\n"), ("nothing", 0, ""), ("an empty line, then unsat", 0, "\nunsat\n"),
       ("timeout", 1, "cvc5 interrupted by timeout.\n"), ("an error", 1, '(error "Parse Error: unsat was not declared")\n'), ("an error mentioning no model", 1, '(error "cannot get model unless immediately preceded by sat or unsat")\nunsat\n'),
       ("killed", -9, ""), ("crashed", -11, "unsat\n"), ("sat in capitals", 0, "SAT\n"), ("unsat in a sentence", 0, "unsatisfiability could not be shown\n"), ("a failure to start", 127, "sh: cvc5: not found\n")]
OK, NO = (0, "unsat\n"), (0, "sat\n")


def rounds(ctx):
    """synthesizer histories: (what, rounds_to_guess, life, verdicts, expected round or None)"""
    out = []
    for r in (0, 1, 2, 3):
        for good in range(r + 2):
            verdicts = [NO] * good + [OK]
            exp = good if good <= r else None
            each = [{}] + [{"files": {i: i}} for i in range(r + 1)] + [{"exit": 0}]
            out.append(("one per step", r, each, verdicts, exp))
            if r:
                out.append(("all at once", r, [{"files": {i: i for i in range(r + 1)}, "exit": 0}], verdicts, exp))
                out.append(("slow", r, list(itertools.chain(*[[{}, {}, {"files": {i: i}}] for i in range(r + 1)])) + [{"exit": 0}], verdicts, exp))
        for n in range(r + 1):     # the synthesizer ends early, after n solutions, none of which verifies
            for rc in (0, 1):
                out.append(("ends with %d after %d solutions" % (rc, n), r, [{}] + [{"files": {i: i}} for i in range(n)] + [{"exit": rc}], [NO], None))
    return out


def resolve(p, life):
    def one(m):
        m = dict(m)
        if "files" in m:
            m["files"] = {p.path(i): (p.sol(k) if isinstance(k, int) else k) for i, k in m["files"].items()}
        return m
    return [one(m) for m in life]


def run(ctx):
    ctx.rule("synthesize() against a verifier giving %d different answers: it returns exactly when the first line is unsat and the process was not killed" % (len(UNSAT) + len(NOT)))
    ctx.rule("synthesize() over synthesizer histories (0-3 extra rounds, any arrival pattern, early exit): it returns the first solution that verifies, was asked about that very candidate in a file written for it, and otherwise raises; it never waits for a solution that cannot come")
    ctx.rule("files of an earlier run are never read; with verification off nothing is verified; the large-bound fall-back only accepts (unsat)")
    ctx.rule("Driver.synthesize of both front ends attaches each returned summary to its own function, and nothing else")
    w = ctx.where(ctx.lookup(SR + ":synthesize"))
    wv = ctx.where(ctx.lookup(SC + ":verify_synth_result"))
    prob = {}

    def P(inv=True, name="prog"):
        if (inv, name) not in prob:
            prob[(inv, name)] = Problem(ctx, inv, name)
        return prob[(inv, name)]

    def good(key, p, life, answers, k, files=None, kw=None, where=w, verified=True, extra=None):
        def go(it_):
            r = Run(p, resolve(p, life), answers, files, kw)
            m = sound(p, r, k, verified)
            return m or (extra(r) if extra else None) or ""
        p.h.decide(key, go, lambda v, r: v or None, where)

    def bad(key, p, life, answers, what, files=None, kw=None, where=w):
        def go(it_):
            r = Run(p, resolve(p, life), answers, files, kw)
            return [(n, [x[0] for x in v]) for n, v in sets(r, p).items()]
        p.h.must_raise(key, go, what, where)

    # ---- verdicts
    one = [{}, {"files": {0: 0}}]
    for inv in (True, False):
        p = P(inv)
        tag = "with an invariant" if inv else "summary only"
        for n, rc, out in UNSAT:
            good("verdict/%s/%s" % (tag, n), p, one, [(rc, out)], 0, where=wv)
        for n, rc, out in NOT:
            bad("verdict/%s/%s" % (tag, n), p, one, [(rc, out)], "the verifier's answer %s" % n, where=wv)
            good("verdict/%s/%s, then unsat for the next" % (tag, n), p, [{"files": {0: 0}}, {"files": {1: 1}}], [(rc, out), OK], 1, kw={"rounds_to_guess": K(1)}, where=wv)
    # ---- histories
    for inv in (True, False) if ctx.thorough else (True,):
        p = P(inv)
        for what, r, life, verdicts, exp in rounds(ctx):
            key = "history/%s/%d extra rounds/%s/%s" % ("with an invariant" if inv else "summary only", r, what, "unsat in round %d" % (len(verdicts) - 1) if OK in verdicts else "never unsat")
            kw = {"rounds_to_guess": K(r)}
            if exp is not None:
                good(key, p, life, verdicts, exp, kw=kw)
            else:
                bad(key, p, life, verdicts, "no solution verifies", kw=kw)
    p = P()
    # ---- the synthesizer's own failures
    for n, life in [("no solution exists", [{}, {"files": {0: answer_text([], False)}, "exit": 0}]), ("ends at once", [{"exit": 1}]), ("ends at once with 0", [{"exit": 0}]), ("is killed", [{}, {"exit": -9}]),
                    ("writes something else", [{"files": {0: "error: out of memory\n"}, "exit": 1}]), ("writes an empty file", [{"files": {0: ""}, "exit": 1}]), ("writes half a definition", [{"files": {0: "#t\n/tmp/x.rkt:1:0\n(define (f_ps f_rv x)\n  (equal? f_rv\n"}, "exit": 1}])]:
        bad("synthesizer/%s" % n, p, life, [OK], "the synthesizer %s" % n)
    # ---- leftovers
    for name in ("prog", "my prog", "a[1]", "prog_ps", "x*y?", "p.q-r"):
        p2 = P(True, name)
        old = {p2.path(k): answer_text(["(define (f_ps f_rv x)\n  %s)" % rk(STALE[0]), "(define (f_inv0 i x)\n  %s)" % rk(STALE[1])]) for k in range(3)}
        old["synthesisLogs/%s_0.smt" % name] = "(check-sat)\n"
        old["synthesisLogs/%s.rkt" % name] = "#lang rosette\n"

        def untouched(r, p2=p2):
            seen = set()
            for e in r.world.log:
                if e[0] == "answer":
                    seen.add(e[1])
                if e[0] == "read" and "_sol" in e[1] and e[1] not in seen:
                    return "the run reads %s, which its own synthesizer has not written" % e[1]
            return None
        good("leftovers/%s/new answer later" % name, p2, [{}, {}, {"files": {0: 0}}], [OK], 0, files=old, extra=untouched)
        good("leftovers/%s/second round" % name, p2, [{}, {"files": {0: 0}}, {}, {"files": {1: 1}}], [NO, OK], 1, files=old, kw={"rounds_to_guess": K(1)}, extra=untouched)
        bad("leftovers/%s/the synthesizer fails" % name, p2, [{}, {"exit": 1}], [OK], "old solutions only", files=old)
    good("leftovers/of another program", p, [{}, {"files": {0: 0}}], [OK], 0, files={"synthesisLogs/other_sol0": answer_text([])}, extra=lambda r: None if "synthesisLogs/other_sol0" in r.world.files else "the answers of another program are deleted")
    # ---- verification off
    good("verification off", p, one, [NO], 0, kw={"no_verify": TRUE}, verified=False, extra=lambda r: None if not r.questions else "the verifier is asked although verification is off")
    # ---- the synthesizer is asked about this program
    good("asks the synthesizer", p, one, [OK], 0, extra=lambda r: asked(r, p))
    # ---- an undefined candidate
    for inv in (True, False):
        def missing(it_, inv=inv):
            p3 = P(inv)
            keep = ["(define (f_inv0 i x)\n  %s)" % rk(INVS[0])] if inv else []
            r = Run(p3, [{"files": {p3.path(0): answer_text(keep)}}], [OK])
            got = sets(r, p3)
            defs, _ = definitions(r.questions[-1]["text"])
            return sorted(got), [x[0] for x in got.get("f_ps", [])], [d[1] for d in defs.get("f_ps", [])]
        P(inv).h.decide("a candidate the synthesizer leaves open/%s" % inv, missing, lambda v, r, inv=inv: None if v[0] == sorted(P(inv).names()) and (v[1], v[2]) in (([cn(("Eq", "f_rv", "x"))], [sm(("Eq", "f_rv", "x"))]), ([cn(("Eq", "f_rv", 1))], [sm(("Eq", "f_rv", 1))])) else "returned %s, verified %s" % (v[1], v[2]), w)
    fallback(ctx, P, good, bad, one)
    attach(ctx)


def asked(r, p):
    pops = [e for e in r.world.log if e[0] == "popen"]
    if len(pops) != 1:
        return "the synthesizer is started %d times" % len(pops)
    path = pops[0][1][-1]
    path = path[2:] if path.startswith("./") else path
    if ("create", path) not in r.world.log or r.world.log.index(("create", path)) > r.world.log.index(pops[0]):
        return "the synthesizer is started on %s, which is not written before" % path
    t = r.world.text(path)
    if t is None or '"%s"' % p.path(0) not in t:
        return "the synthesis program does not write its solution to %s, where it is read" % p.path(0)
    return None


def fallback(ctx, P, good, bad, one):
    """toSMT refuses the program: the bounded check must decide"""
    p = P()
    it = p.it
    ws = ctx.where(ctx.lookup(SC + ":verify_synth_result"))
    q = SU + ":toSMT"
    ctx.lookup(q)

    def refuse(it_, f, args, kw):
        e = it_.call(ctx.lookup("metalift.exceptions:CVC5UnsupportedException"), [K("Map")], {})
        raise PyExc(e, it_.loc, False, "CVC5UnsupportedException")
    it.summaries[q] = refuse
    try:
        for n, out, ok in [("(unsat)", "(unsat)\n", True), ("a counterexample", "(model\n [x 0])\n", False), ("unknown", "(unknown)\n", False), ("nothing", "", False), ("unsat later", "(model)\n(unsat)\n", False), ("an error", "bounded.rkt:1:0: error (unsat)\n", False)]:
            if ok:
                def go(it_, out=out):
                    r = Run(p, resolve(p, one), [(0, out)])
                    got = sets(r, p)
                    want = p.wanted(0)
                    for k, (body, params) in want.items():
                        if got.get(k) != [(cn(body), params)]:
                            return "returned %s for %s" % (got.get(k), k)
                    qn = r.questions[-1]
                    if qn["argv"][0] != "racket" or qn["text"] is None or not qn["fresh"]:
                        return "the bounded check is run as %s" % (qn["argv"],)
                    defs = {x[1][0]: (tuple(x[1][1:]), x[2]) for x in sx_parse(qn["text"].replace("#lang", ";")) if isinstance(x, list) and len(x) == 3 and x[0] in ("define", "define-bounded") and isinstance(x[1], list)}
                    for k, (body, params) in want.items():
                        if defs.get(k) != (params, sx_parse(rk(body))[0]):
                            return "the bounded check is asked about %s = %s, the run returns %s" % (k, defs.get(k), rk(body))
                    return ""
                p.h.decide("large-bound check/%s" % n, go, lambda v, r: v or None, ws)
            else:
                bad("large-bound check/%s" % n, p, one, [(0, out)], "the bounded check answers %s" % n, where=ws)

                def go(it_, out=out):
                    r = Run(p, resolve(p, [{"files": {0: 0}}, {"files": {1: 1}}]), [(0, out), (0, "(unsat)\n")], None, {"rounds_to_guess": K(1)})
                    got = sets(r, p)
                    for k, (body, params) in p.wanted(1).items():
                        if got.get(k) != [(cn(body), params)]:
                            return "returned %s for %s" % (got.get(k), k)
                    return ""
                p.h.decide("large-bound check/%s, then (unsat) for the next" % n, go, lambda v, r: v or None, ws)
    finally:
        del it.summaries[q]


# ------------------------------------------------------------ results reach their functions
def attach(ctx):
    for py in (True, False):
        hd = Handed(ctx, py)
        it, h = hd.it, hd.h
        fr = PF if py else LF
        tag = "Python" if py else "LLVM"
        w = ctx.where(ctx.lookup(fr + ":Driver.synthesize"))

        def bodies(b, form):
            """one definition per asked candidate; the summary of function n returns n-specific text"""
            out = []
            for s in it.iter_items(b["inv_and_ps"]):
                s_ = it.getattr(s, "args")
                items = list(it.iter_items(s_))
                name, params = items[0].v, items[2:]
                if name.endswith("_ps"):
                    rv = params[-1]
                    val = h.mk("Add", params[0], h.mk("IntLit", K(len(out))))
                    body = h.mk("Eq", rv, val) if form == "eq" else h.mk("Call", K("list_eq"), h.ty("Bool"), rv, val) if form == "list_eq" else h.mk("Ge", rv, val)
                else:
                    body = h.mk("Le", params[0], h.mk("IntLit", K(100 + len(out))))
                out.append(h.mk("FnDeclRecursive", K(name), h.ty("Bool"), body, *params))
            return out

        from .p22 import programs
        from ..cases import ret, add, num
        P = programs()
        CASES = [(["p"], "eq"), (["f"], "eq"), (["f", "g"], "eq"), (["g", "p", "f"], "eq"), (["e", "f"], "eq")]
        if not py:
            CASES += [(["f"], "list_eq"), (["p", "e"], "list_eq")]
        for fs, form in CASES:
            for rev in (False, True):
                def go(it_, fs=fs, form=form, rev=rev):
                    d = hd.play(fs, [("call", f, ["a", "b"], "v%d" % k) for k, f in enumerate(fs)])
                    made = []

                    def ans(b):
                        made[:] = bodies(b, form)
                        return made[::-1] if rev else list(made)
                    hd.answer = ans
                    hd.synthesize(d)
                    want = {}
                    for m in made:
                        n = h.reify(m)
                        if n.args[0].v.endswith("_ps"):
                            want[n.args[0].v[:-3]] = canon(n.args[1])[2 if form == "eq" else 3]
                    got = {}
                    fd = it.get(it.getattr(d, "fns"))
                    for k, f in fd.items:
                        v = it.getattr(f, "synthesized")
                        got[k.v] = None if v == NONE else canon(h.reify(v))
                    stored = None
                    if not py:
                        sd = it.get(it.getattr(d, "synthesized_fns"))
                        stored = ({k.v: canon(h.reify(v)) for k, v in sd.items}, {h.reify(m).args[0].v: canon(h.reify(m)) for m in made})
                    return got, want, stored

                def exp(v, r):
                    got, want, stored = v
                    for k in got:
                        if got[k] != want.get(k):
                            return "the result attached to %s is %s, the verified summary returns %s" % (k, got[k], want.get(k))
                    if stored and stored[0] != stored[1]:
                        return "the driver keeps %s of the returned %s" % (stored[0], stored[1])
                    return None
                h.decide("%s results/%s/%s/%s" % (tag, "+".join(fs), form, "reversed" if rev else "in order"), go, exp, w)
        # names that contain _ps
        odd = ["x_ps_y", "f_ps", "ps_f", "a_ps", "x"]
        for sel in ([odd[0]], [odd[1]], [odd[2]], [odd[0], "x"], [odd[3], "a"]):
            def go(it_, sel=sel):
                body = {n: P["f"] if k == 0 else P["p"] for k, n in enumerate(sel)}
                D = [("driver",), ("obj", "a", "int"), ("obj", "b", "int")]
                steps = D + [("call", n, ["a", "b"], "v%d" % k) for k, n in enumerate(sel)]
                if py:
                    from ..pyfront import number
                    d = hd.fr.scenario({f: (AB, "int", number(body[f]), {}) for f in sel}, steps)[-1]
                else:
                    from .. import llfront
                    d = llfront.play(hd.fr, {f: llfront.emit(f, AB, body[f]) for f in sel}, D + [("call", s[1], s[2]) for s in steps[3:]])[-1]
                made = []

                def ans(b):
                    made[:] = bodies(b, "eq")
                    return list(made)
                hd.answer = ans
                hd.synthesize(d)
                fd = it.get(it.getattr(d, "fns"))
                got = {k.v: (lambda v: None if v == NONE else canon(h.reify(v)))(it.getattr(f, "synthesized")) for k, f in fd.items}
                want = {h.reify(m).args[0].v[:-3]: canon(h.reify(m).args[1])[2] for m in made if h.reify(m).args[0].v.endswith("_ps")}
                return got, want
            h.decide("%s results/names %s" % (tag, "+".join(sel)), go, lambda v, r: None if v[0] == v[1] else "attached %s, verified %s" % v, w)
        if py:
            def notval(it_):
                d = hd.play(["p"], [("call", "p", ["a", "b"], "v")])
                hd.answer = lambda b: bodies(b, "ge")
                hd.synthesize(d)
                return "attached"
            h.must_raise("Python results/a summary that is no equation", notval, "a summary that does not determine the result", w)
        else:
            wa = ctx.where(ctx.lookup(LF + ":Driver.get_actual_ps_fn_decl"))
            for form in ("eq", "list_eq"):
                for fs in (["p"], ["f"], ["g"]):
                    def actual(it_, fs=fs, form=form):
                        d = hd.play(fs, [("call", f, ["a", "b"], "v") for f in fs])
                        made = []

                        def ans(b):
                            made[:] = bodies(b, form)[::-1]
                            return list(made)
                        hd.answer = ans
                        hd.synthesize(d)
                        r = h.reify(it.call(it.getattr(d, "get_actual_ps_fn_decl"), [], {}))
                        ps = [h.reify(m) for m in made if h.reify(m).args[0].v.endswith("_ps")][0]
                        return canon(r), (r.cls, ps.args[0].v) + (canon(ps.args[1])[2 if form == "eq" else 3],) + tuple(canon(a) for a in ps.args[2:-1])
                    h.decide("actual summary/%s/%s" % (fs[0], form), actual, lambda v, r: None if v[0] == v[1] else "the function generated code is made from is %s, the verified one is %s" % v, wa)

            def none(it_):
                d = hd.play(["p"], [("call", "p", ["a", "b"], "v")])
                return it.call(it.getattr(d, "get_actual_ps_fn_decl"), [], {})
            h.must_raise("actual summary/before synthesis", none, "no summary was synthesized", wa)
        # code generation
        wc = ctx.where(ctx.lookup(fr + ":MetaliftFunc.codegen"))
        from ..values import Native

        def gen(it_, synth):
            d = hd.play(["p"], [("call", "p", ["a", "b"], "v")])
            hd.answer = lambda b: bodies(b, "eq")
            f = it.get(it.getattr(d, "fns")).items[0][1]
            if synth:
                hd.synthesize(d)
            seen = []
            r = it.call(it.getattr(f, "codegen"), [Native("gen", lambda i, a, k: (seen.append(canon(h.reify(a[0]))), K("code"))[1])], {})
            return r, seen, canon(h.reify(it.getattr(f, "synthesized")))
        h.decide("%s codegen" % tag, lambda it_: gen(it_, True), lambda v, r: None if v[0] == K("code") and v[1] == [v[2]] else "code is generated from %s" % v[1], wc)
        h.must_raise("%s codegen/before synthesis" % tag, lambda it_: gen(it_, False), "nothing is synthesized yet", wc)
