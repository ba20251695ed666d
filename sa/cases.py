"""Program templates shared by the two front ends, and the decision procedure for one of them."""
from __future__ import annotations

from . import progs
from .pyfront import Mismatch, PyFront, number
from .values import *  # noqa: F401,F403

A, B, X, Y, N_, S, I_ = (("var", n) for n in ("a", "b", "x", "y", "n", "s", "i"))


def num(k):
    return ("int", k)


def add(l, r):
    return ("op", "+", l, r)


def lt(l, r, op="<"):
    return ("cmp", [op], [l, r])


def asg(n, e):
    return ("assign", n, e)


def iff(c, t, e=None):
    return ("if", c, t, e)


def ret(e):
    return ("return", e)


AB = [("a", "int"), ("b", "int")]


def branch_programs(deep=False):
    """(name, params, body): every pairing of what the sides of a conditional may do, in sequence and nested"""
    c1, c2 = lt(A, B), lt(X, A, ">")
    sides = {
        "set": [asg("x", A)], "inc": [asg("x", add(X, num(1)))], "ret": [ret(X)], "setret": [asg("x", B), ret(X)],
        "two": [asg("x", B), asg("y", A)], "same": [asg("x", num(0))], "par": [asg("a", add(A, num(1))), asg("x", A)],
    }

    def ifs(c):
        out = {}
        for t, e in (("set", "inc"), ("set", None), ("ret", None), ("set", "ret"), ("ret", "inc"), ("ret", "setret"), ("two", "same"),
                     ("same", "same"), ("par", "set"), ("inc", "two")):
            out["%s/%s" % (t, e or "-")] = iff(c, sides[t], sides[e] if e else None)
        return out
    one, two = ifs(c1), ifs(c2)
    init = [asg("x", num(0)), asg("y", num(7))]
    last = [ret(add(X, Y))]
    out = []
    for k, s in one.items():
        out.append(("if[%s]" % k, AB, init + [s] + last))
    for k, s in one.items():
        for k2, s2 in two.items():
            out.append(("if[%s];if[%s]" % (k, k2), AB, init + [s, s2] + last))
            out.append(("if{if[%s]}[%s]" % (k2, k), AB, init + [iff(c1, [s2] + s[2], s[3])] + last))
            out.append(("if[%s]else{if[%s]}" % (k, k2), AB, init + [iff(c1, s[2], [s2] + (s[3] or []))] + last))
            if deep:
                out.append(("if{%s;if[%s]};if" % (k, k2), AB, init + [iff(c1, s[2][:1] + [s2], s[3]), two["set/inc"]] + last))
                out.append(("if{if[%s]}else{if[%s]}" % (k, k2), AB, init + [iff(c1, [two[k]], [one[k2]])] + last))
                out.append(("if[%s];if[%s];if" % (k, k2), AB, init + [s, s2, iff(lt(Y, num(3)), [asg("y", X)], [ret(Y)])] + last))
    return out


def loop_programs(deep=False):
    """(name, params, body)"""
    inc = asg("i", add(I_, num(1)))
    body = [asg("s", add(S, I_)), inc]
    c = lt(I_, A)
    init = [asg("i", num(0)), asg("s", num(0))]
    w = ("while", c, body)  # noqa: E501
    out = [
        ("loop", init + [w, ret(S)]),
        ("loop/compound condition", init + [("while", ("and", c, lt(S, B)), body), ret(S)]),
        ("loop/param modified", [asg("s", num(0)), ("while", lt(num(0), A), [asg("s", add(S, A)), asg("a", ("op", "-", A, num(1)))]), ret(add(S, A))]),
        ("loop/value unread", init + [asg("x", A), ("while", c, [asg("x", num(3)), inc]), ret(X)]),
        ("loop;loop", init + [w, asg("i", num(0)), ("while", lt(I_, B), [asg("s", add(S, num(1))), inc]), ret(S)]),
        ("loop;loop;loop", init + [w, asg("i", num(0)), ("while", lt(I_, B), [asg("s", add(S, num(1))), inc]), ("while", lt(num(0), I_), [asg("i", ("op", "-", I_, num(1)))]), ret(add(S, I_))]),
        ("loop{if}", init + [("while", c, [iff(lt(I_, B), [asg("s", add(S, I_))], [asg("s", add(S, num(2)))]), inc]), ret(S)]),
        ("loop{if-}", init + [("while", c, [iff(lt(I_, B), [asg("s", add(S, I_))]), inc]), ret(S)]),
        ("loop{if{if}}", init + [("while", c, [iff(lt(I_, B), [iff(lt(S, B), [asg("s", num(1))], [asg("s", num(2))])], [asg("s", add(S, num(2)))]), inc]), ret(S)]),
        ("loop{if ret}", init + [("while", c, [iff(lt(B, S), [ret(I_)]), asg("s", add(S, I_)), inc]), ret(S)]),
        ("loop{if ret else}", init + [("while", c, [iff(lt(B, S), [asg("s", add(S, I_))], [ret(num(9))]), inc]), ret(S)]),
        ("loop{loop}", init + [asg("j", num(0)), ("while", c, [asg("j", num(0)), ("while", lt(("var", "j"), B), [asg("s", add(S, num(1))), asg("j", add(("var", "j"), num(1)))]), inc]), ret(S)]),
        ("loop{loop;if}", init + [asg("j", num(0)), ("while", c, [asg("j", num(0)), ("while", lt(("var", "j"), B), [asg("j", add(("var", "j"), num(1)))]), iff(lt(S, B), [asg("s", ("var", "j"))]), inc]), ret(S)]),
        ("if;loop", init + [iff(lt(A, B), [asg("i", A)], [asg("i", B)]), w, ret(S)]),
        ("if ret;loop", init + [iff(lt(A, B), [ret(num(0))]), w, ret(S)]),
        ("if{loop}", init + [iff(lt(A, B), [w], [asg("s", B)]), ret(S)]),
        ("if{}else{loop}", init + [iff(lt(A, B), [asg("s", B)], [w]), ret(add(S, I_))]),
        ("if{loop}-", init + [iff(lt(A, B), [w]), ret(S)]),
        ("if{loop;ret}", init + [iff(lt(A, B), [w, ret(S)], [asg("s", B)]), ret(add(S, I_))]),
        ("if{loop}else{loop}", init + [iff(lt(A, B), [w], [("while", lt(S, B), [asg("s", add(S, num(1)))])]), ret(add(S, I_))]),
        ("if{loop};loop", init + [iff(lt(A, B), [w]), ("while", lt(S, B), [asg("s", add(S, num(1)))]), ret(add(S, I_))]),
        ("if{if{loop}}", init + [iff(lt(A, B), [iff(lt(num(0), A), [w], [asg("i", num(5))])], [asg("s", num(6))]), ret(add(S, I_))]),
        ("loop;if ret", init + [w, iff(lt(S, B), [ret(B)]), ret(S)]),
        ("loop;if", init + [w, iff(lt(S, B), [asg("s", B)], [asg("i", num(0))]), ret(add(S, I_))]),
        ("loop{if ret};loop", init + [("while", c, [iff(lt(B, S), [ret(I_)]), asg("s", add(S, I_)), inc]), ("while", lt(S, B), [asg("s", add(S, num(1)))]), ret(S)]),
        ("loop{ret}", init + [("while", c, [asg("s", add(S, I_)), ret(S)]), ret(I_)]),
        ("loop{if ret else ret}", init + [("while", c, [asg("s", I_), iff(lt(B, S), [ret(S)], [ret(num(4))])]), ret(I_)]),
        ("ret;loop", init + [ret(S), w]),
    ]
    # x is written in one place only
    w = asg("x", add(X, num(1)))
    cond, cond2 = lt(I_, B), lt(S, B)
    inner = lambda b: ("while", lt(("var", "j"), B), b + [asg("j", add(("var", "j"), num(1)))])
    nop = [asg("s", num(2))]
    places = [
        ("then", [iff(cond, [w], nop)]), ("else", [iff(cond, nop, [w])]), ("then-", [iff(cond, [w])]),
        ("then then", [iff(cond, [iff(cond2, [w], nop)], nop)]), ("then else", [iff(cond, [iff(cond2, nop, [w])], nop)]),
        ("else then", [iff(cond, nop, [iff(cond2, [w], nop)])]), ("else else", [iff(cond, nop, [iff(cond2, nop, [w])])]),
        ("second if", [iff(cond, nop, [asg("s", num(3))]), iff(cond2, nop, [w])]),
        ("inner loop", [asg("j", num(0)), inner([w])]), ("inner loop then", [asg("j", num(0)), inner([iff(cond2, [w])])]),
        ("inner loop else", [asg("j", num(0)), inner([iff(cond2, nop, [w])])]), ("after inner loop", [asg("j", num(0)), inner(nop), w]),
        ("loop in else", [asg("j", num(0)), iff(cond, nop, [inner([w])])]), ("loop in then", [asg("j", num(0)), iff(cond, [inner([w])], nop)]),
        ("before return", [iff(cond, [w, ret(X)], nop)]), ("else before return", [iff(cond, nop, [w, ret(X)])]),
        ("beside return", [iff(cond, [ret(S)], [w])]),
    ]
    for n, b in places:
        out.append(("loop/written in " + n, init + [asg("x", A), asg("j", num(0)), ("while", c, b + [inc]), ret(add(X, S))]))
    if deep:
        base = list(out)
        for n, b in base[:]:
            if n.startswith("ret"):
                continue
            out.append(("if{%s}" % n, init + [asg("x", num(0)), asg("j", num(0)), iff(lt(A, num(4)), b[2:-1] if b[:2] == init else b[1:-1]), ret(add(S, I_))])) if b[:2] == init else None
        out.append(("loop{loop{loop}}", init + [asg("j", num(0)), asg("k", num(0)), ("while", c, [asg("j", num(0)), ("while", lt(("var", "j"), B), [asg("k", num(0)), ("while", lt(("var", "k"), A), [asg("k", add(("var", "k"), num(1))), asg("s", add(S, num(1)))]), asg("j", add(("var", "j"), num(1)))]), inc]), ret(S)]))
    return [(n, AB, b) for n, b in out]


def decide_py(ctx, pf, key, params, body, where, types=None, uninterp=(), ret_type="int", ev=None, keep=None, allow_raise=False):
    """the obligations of the program are those of the reference, up to meaning and renaming of fresh variables"""
    body = number(body)
    names = [p for p, _ in params]

    def go(it):
        d = pf.analyse("t", params, ret_type, body, types, uninterp)
        return pf.read(d)

    def expect(v, r):
        obl, ps = v
        if not [1 for p in ps.values() if p[0] == "Ps"]:
            return "no summary is declared"
        return against(obl, ps, names, body, ev)
    run(ctx, pf, key, go, expect, where, allow_raise)


def against(obl, ps, names, body, ev=None):
    for nm, (kind, k, args, off) in ps.items():
        if kind == "Ps" and args[:len(names)] != names:
            return "the summary is declared over %s, the inputs are %s" % (", ".join(args), ", ".join(names))
        if kind == "Inv" and args[:len(names)] != names:
            return "the invariant %s is declared over %s, the inputs %s come first" % (nm, ", ".join(args), ", ".join(names))
    ref = progs.Ref("t", names, {p[1]: p[2] for p in ps.values() if p[0] == "Inv"}, ev)
    try:
        ref.block(body, {"vars": {n: ("Var", n) for n in names}, "pre": [], "ret": False})
    except KeyError as e:
        return "no invariant is generated for loop %s" % e
    for nm, (kind, k, args, off) in ps.items():
        m = declared(nm, kind, args, off, names, ref.info.get(k))
        if m is not None:
            return m
    return progs.compare(obl, ref.obl, ref.havocs, set(names))


def declared(nm, kind, args, off, names, info):
    """inputs first, then the variables in use in sorted order; the grammar is offered what the loop or function writes, reads, has in scope"""
    if kind == "Ps":
        if off[0] != args[len(names):] or off[1] != names or len(off[0]) != 1:
            return "the grammar of %s is offered (%s) to compute from (%s), it is declared over %s" % (nm, ", ".join(off[0]), ", ".join(off[1]), ", ".join(args))
        return None
    if info is None:
        return "the invariant %s belongs to a loop that is never reached" % nm
    rest = args[len(names):]
    if rest != sorted(set(rest) - set(names)):
        return "the arguments of %s after the inputs are not the other variables once each in sorted order: %s" % (nm, ", ".join(rest))
    want = (info["writes"] | info["reads"]) & info["scope"]
    if not want <= set(args):
        return "the invariant %s leaves out %s, which the loop uses" % (nm, ", ".join(sorted(want - set(args))))
    if not set(args) <= info["scope"]:
        return "the invariant %s ranges over %s, which has no value there" % (nm, ", ".join(sorted(set(args) - info["scope"])))
    for what, got, exp in (("written", off[0], info["writes"]), ("read", off[1], info["reads"])):
        if got != sorted(exp):
            return "the grammar of %s is offered %s as %s variables, the loop has %s" % (nm, ", ".join(got), what, ", ".join(sorted(exp)))
    if not want <= set(off[2]):
        return "the grammar of %s is not offered %s, which is in scope" % (nm, ", ".join(sorted(want - set(off[2]))))
    return None


def run(ctx, pf, key, go, expect, where, allow_raise=False):
    def guarded(it):
        try:
            return go(it)
        except Mismatch as e:
            return e

    def exp(v, r):
        if isinstance(v, Mismatch):
            return str(v)
        try:
            return expect(v, r)
        except progs.NoInv as e:
            return "no invariant of its own is generated for loop %s" % e
    res = pf.h.run(guarded)
    ctx.stat("partitions", len(res))
    for r in res:
        if r.kind == "return":
            m = exp(r.value, r)
            if m is None:
                ctx.ok(key)
            elif m.startswith("?") or r.approx:
                ctx.unknown(key, m + "".join(" (approximation: %s)" % a[0] for a in r.approx[:1]), where)
            else:
                ctx.bad(key, m + pf.h.cond_text(r), where)
        elif r.kind == "raise":
            if allow_raise:
                ctx.ok(key, "raises " + r.msg[:100])
            else:
                ctx.bad(key, "the analysis raises %s" % r.msg, r.loc)
        elif r.kind == "hang":
            ctx.bad(key, r.msg, r.loc)
        elif r.kind != "loop":
            ctx.unknown(key, "%s: %s" % (r.kind, r.msg), r.loc)


# ---------------------------------------------------------------- several analyses
def ref_scenario(fns, steps, preds):
    """the obligations of every driver: (obligations, fresh names, fixed names)"""
    out = []
    for s in steps:
        if s[0] == "driver":
            objs, pre, n = {}, [], 0
            cur = {"obl": [], "havocs": [], "fixed": set()}
            out.append(cur)
        elif s[0] == "obj":
            objs[s[1]] = ("Var", s[1])
            cur["fixed"].add(s[1])
        elif s[0] == "pre":
            r = progs.Ref("", [])
            pre.append(r.ev(s[1], {"vars": objs}))
        elif s[0] == "call":
            params, rt, body, types = fns[s[1]]
            names = [p for p, _ in params]
            args = [objs[x] for x in s[2]]
            r = progs.Ref(s[1], names, {p[1]: p[2] for p in preds[len(out) - 1].values() if p[0] == "Inv"}, None, args)
            r.block(body, {"vars": dict(zip(names, args)), "pre": list(pre), "ret": False})
            nm = "%s_rv@%d" % (s[1], n)
            n += 1
            cur["havocs"] += r.havocs + [(s[1] + "_rv", nm)]
            cur["obl"] += r.obl
            objs[s[3]] = ("Var", nm)
            pre.append(("Ps", s[1]) + tuple(args) + (objs[s[3]],))
    return out


def decide_scenario(ctx, pf, key, fns, steps, where, allow_raise=False):
    c = [0]
    fns = {n: (p, rt, number(b, c), t) for n, (p, rt, b, t) in fns.items()}

    def go(it):
        ds = pf.scenario(fns, steps)
        return [pf.read(d) for d in ds]

    def expect(v, r):
        refs = ref_scenario(fns, steps, [ps for _, ps in v])
        for i, ((obl, ps), ref) in enumerate(zip(v, refs)):
            m = progs.compare(obl, ref["obl"], ref["havocs"], ref["fixed"])
            if m is not None:
                return m + (" (analysis %d)" % (i + 1) if len(v) > 1 else "")
        return None
    run(ctx, pf, key, go, expect, where, allow_raise)
