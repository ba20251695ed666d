"""P12: analyses do not influence one another"""
from ..cases import AB, decide_scenario
from ..pyfront import PF, PyFront
from .. import llfront
from ..llfront import LF, LLFront
from .p11 import ll_scenarios, scenarios

from ..values import Ext as Ext_
from ..values import HDict as HDict_

FLOOR = 35


def python(ctx):
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":Driver.__init__"))
    sc = scenarios()
    for n, fns, steps in sc:
        plain = [s for s in steps if s[0] != "pre"]
        decide_scenario(ctx, pf, "py/after " + n, fns, steps + plain, w)
        decide_scenario(ctx, pf, "py/before " + n, fns, plain + steps, w)


def llvm(ctx):
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":Driver.__init__"))
    for n, fns, steps in ll_scenarios():
        plain = [s for s in steps if s[0] != "pre"]
        llfront.decide_scenario(ctx, lf, "ll/after " + n, fns, steps + plain, w)
        llfront.decide_scenario(ctx, lf, "ll/before " + n, fns, plain + steps, w)


# ---------------------------------------------------------------- shared data
def reach(it, v, seen=None):
    """mutable heap objects reachable from v"""
    from ..values import HDict, HInst, HList, Ref, Tup
    seen = {} if seen is None else seen
    if isinstance(v, Tup):
        for x in v.items:
            reach(it, x, seen)
    elif isinstance(v, Ref) and v.id not in seen:
        o = it.get(v)
        if isinstance(o, (HInst, HList, HDict)):
            seen[v.id] = type(o).__name__
            if isinstance(o, HInst):
                for x in o.fields.values():
                    reach(it, x, seen)
            elif isinstance(o, HDict):
                for k, x in o.items:
                    reach(it, k, seen)
                    reach(it, x, seen)
            else:
                for x in o.items:
                    reach(it, x, seen)
    return seen


def sharing(ctx, h):
    from ..values import FALSE, K, TRUE
    it = h.it
    mods = [("Python", PF), ("LLVM", LF)]
    for m in (PF, LF, "metalift.analysis"):
        it.load_module(m)

    def shared(a, b):
        x, y = reach(it, a), reach(it, b)
        return sorted(set(x.values()) if not x.keys() & y.keys() else {x[k] for k in x.keys() & y.keys()}) if x.keys() & y.keys() else []
    made = [("%s %s" % (n, c), m + ":" + c) for n, m in mods for c in ("State", "Driver", "PredicateTracker")] + [("variable tracker", "metalift.analysis:VariableTracker")]
    for n, path in made:
        cls = ctx.lookup(path)

        def go(it_, cls=cls):
            return shared(it.call(cls, [], {}), it.call(cls, [], {}))
        h.decide("fresh/" + n, go, lambda v, r: None if v == [] else "two new instances share a %s" % ", ".join(v), ctx.where(cls))
    for n, m in mods:
        cls = ctx.lookup(m + ":State")
        fields = ["precond", "asserts"] + (["vars"] if n == "Python" else ["primitive_vars", "pointer_vars"])
        for given in [set()] + [{f} for f in fields] + [set(fields)]:
            def go(it_, cls=cls, given=given, fields=fields):
                parts = {}
                for f in fields:
                    o = h.mk("Bool", K(True)) if f in ("precond", "asserts") else h.fn("create_object", h.ty("Int"), K("v"))
                    parts[f] = it.new_list([o]) if f in ("precond", "asserts") else it.alloc(HDict_([(K("v"), o)]))
                st = it.call(cls, [], {f: parts[f] for f in given})
                for f in fields:
                    got = it.getattr(st, f)
                    n_ = len(it.get(got).items)
                    if n_ != (1 if f in given else 0):
                        return "the state's %s has %d entries" % (f, n_)
                    if f in given and (it.get(got).items[0] if f in ("precond", "asserts") else it.get(got).items[0][1]) != (it.get(parts[f]).items[0] if f in ("precond", "asserts") else it.get(parts[f]).items[0][1]):
                        return "the state's %s is not the one given" % f
                if it.getattr(st, "has_returned") != FALSE:
                    return "a new state has returned"
                return ""
            h.decide("state parts/%s/%s" % (n, ",".join(sorted(given)) or "none"), go, lambda v, r: v or None, ctx.where(cls))

        def dup(it_, cls=cls, fields=fields):
            kw = {}
            for f in fields:
                o = h.mk("Bool", K(True)) if f in ("precond", "asserts") else h.fn("create_object", h.ty(("List", "Int")), K("v"))
                kw[f] = it.new_list([o]) if f in ("precond", "asserts") else it.alloc(HDict_([(K("v"), o)]))
            st = it.call(cls, [], kw)
            return shared(st, it.call(Ext_("copy.deepcopy"), [st], {}))
        h.decide("copy/" + n, dup, lambda v, r: None if v == [] else "a copied state shares a %s with the original" % ", ".join(v), ctx.where(cls))


def effects(ctx):
    import os
    from ..core import REPO
    from ..effects import Effects
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "metalift")):
        fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names if n.endswith(".py")]
    eff = Effects(REPO, sorted(fs))
    n = 0
    for kind, name, where, hit in eff.run():
        n += 1
        if name.endswith(":Target.definedFns"):
            continue              # the registry of targets: one entry per declared target, rejected when declared twice
        what = {"default": "the default argument", "class": "the class attribute", "module": "the module-level container"}[kind]
        ctx.check("shared/%s" % name, hit is None, "%s %s is changed (line %d: %s)" % (what, name, hit[0], hit[1]) if hit else "", where, sample="not changed by any function")
    ctx.stat("functions scanned for effects", len(eff.funs))
    ctx.stat("shared containers", n)


def run(ctx):
    ctx.rule("new states, drivers and trackers share no object of the heap; a state holds the parts it is given; a copied state shares nothing with the original")
    ctx.rule("no default argument, class attribute or module-level container is changed by a function: directly, through an alias, an attribute it is stored in, or a function it is passed to")
    effects(ctx)
    from ..irh import IRH
    sharing(ctx, IRH(ctx))
    ctx.rule("LLVM front end: the same")
    llvm(ctx)
    ctx.rule("Python front end: a driver records the same obligations whatever other drivers did before, and none of theirs")
    python(ctx)
