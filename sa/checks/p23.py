"""P23: the control-flow graph handed to the analysis"""
import ast
import itertools
import os
import random
import warnings

from .. import llfront, llcases
from ..cases import A, B, AB, I_, S, add, asg, lt, num, ret
from ..llfront import LF, LLFront
from ..values import K, TRUE, Ref, HInst, Native, Ext
from ..world import World

FLOOR = 100
AN = "metalift.analysis"


# ---------------------------------------------------------------- blocks and edges
class Cfg:
    """a function of labelled blocks; term: name -> (kind, [targets])"""

    def __init__(self, lf, term):
        it = lf.it
        lf.tys = {}
        self.blk = {b: lf.value(b, "label", b + ":", is_block=TRUE) for b in term}
        one = lambda v: lf.value("", "i32", "i32 %d" % v, is_constant=TRUE)
        self.ins = {}
        for b, (kind, ts) in term.items():
            L = [self.blk[t] for t in ts]
            if kind == "br":
                ops, txt = L, "br label %%%s" % (ts[0],)
            elif kind == "cond":
                # llvmlite lists the operands of a two-way branch as condition, else, then
                ops, txt = [lf.value("c", "i1", "%c = icmp slt i32 %a, %b", is_instruction=TRUE), L[1], L[0]], "br i1 %%c, label %%%s, label %%%s" % (ts[0], ts[1])
            elif kind == "switch":
                ops, txt = [lf.value("n", "i32", "%n = load i32, i32* %a", is_instruction=TRUE), L[0]], "switch i32 %%n, label %%%s [" % ts[0]
                for k, l in enumerate(L[1:]):
                    ops += [one(k), l]
                    txt += " i32 %d, label %%%s " % (k, ts[k + 1])
                txt += "]"
            elif kind == "ret":
                ops, txt = [one(0)], "ret i32 0"
            elif kind == "retvoid":
                ops, txt = [], "ret void"
            else:
                ops, txt = L, kind
            op = {"cond": "br", "retvoid": "ret"}.get(kind, kind)
            t = lf.value("", "void", txt, is_instruction=TRUE, opcode=K(op), operands=it.new_list(ops))
            first = lf.value("t" + b, "i32", "%%t%s = add i32 1, 2" % b, is_instruction=TRUE, opcode=K("add"), operands=it.new_list([one(1), one(2)]))
            self.ins[b] = [first, t]
            it.mut(self.blk[b]).fields["instructions"] = it.new_list([first, t])
        self.blocks = it.new_list([self.blk[b] for b in term])


def graphs(deep):
    """terminators of up to three (four) blocks, exhaustively up to the entry, then larger chosen ones"""
    names = ["entry", "x", "y", "z"]
    for n in (1, 2, 3):
        bs = names[:n]
        tgt = bs[1:] or bs
        opts = [("ret", [])] + [("br", [t]) for t in tgt] + [("cond", [a, b]) for a in tgt for b in tgt]
        if n <= 2:
            opts += [("switch", [a]) for a in tgt] + [("switch", [a, b]) for a in tgt for b in tgt] + [("switch", [a, b, c]) for a in tgt for b in tgt for c in tgt]
        yield n, [dict(zip(bs, ch)) for ch in itertools.product(opts, repeat=n)]
    rnd = random.Random(7)
    big = []
    for _ in range(400 if deep else 80):
        m = rnd.randint(4, 9)
        bs = ["entry"] + ["b%d" % i for i in range(1, m)]
        g = {}
        for b in bs:
            k = rnd.choice(["ret", "retvoid", "br", "cond", "cond", "switch"])
            nt = {"ret": 0, "retvoid": 0, "br": 1, "cond": 2}.get(k, rnd.randint(1, 5))
            g[b] = (k, [rnd.choice(bs[1:]) for _ in range(nt)])
        big.append(g)
    yield 9, big


def names_of(it, v):
    return [it.getattr(x, "name").v for x in it.iter_items(v)]


def blocks(ctx, lf):
    it, h = lf.it, lf.h
    it.load_module(AN)
    fn = ctx.lookup(AN + ":setupBlocks")
    w = ctx.where(fn)

    def show(g):
        return "; ".join("%s: %s %s" % (b, k, ",".join(ts)) for b, (k, ts) in g.items())

    def one(g):
        c = Cfg(lf, g)
        r = it.call(fn, [c.blocks], {})
        out = {}
        d = it.get(r)
        keys = [k.v for k, _ in d.items]
        if keys != list(g):
            return "the blocks are %s instead of %s" % (keys, list(g))
        for k, b in d.items:
            if it.getattr(b, "name") != k:
                return "block %s is filed under %s" % (it.getattr(b, "name").v, k.v)
            ins = list(it.iter_items(it.getattr(b, "instructions")))
            if ins != c.ins[k.v]:
                return "the instructions of %s are changed [%s]" % (k.v, show(g))
            out[k.v] = (names_of(it, it.getattr(b, "succs")), names_of(it, it.getattr(b, "preds")))
            objs = dict((kk.v, vv) for kk, vv in d.items)
            for kind in ("succs", "preds"):
                for x in it.iter_items(it.getattr(b, kind)):
                    if objs.get(it.getattr(x, "name").v) != x:
                        return "an edge of %s leads to a block outside the graph" % k.v
        for b, (k, ts) in g.items():
            if set(out[b][0]) != set(ts):
                return "the successors of %s are %s, its terminator names %s [%s]" % (b, out[b][0], ts, show(g))
            want = {p for p, (_, tt) in g.items() if b in tt}
            if set(out[b][1]) != want:
                return "the predecessors of %s are %s instead of %s [%s]" % (b, out[b][1], sorted(want), show(g))
            for s in set(out[b][0]):
                if out[b][0].count(s) != out[s][1].count(b):
                    return "the edge from %s to %s is listed %d times as a successor and %d times as a predecessor [%s]" % (b, s, out[b][0].count(s), out[s][1].count(b), show(g))
        return None
    for n, gs in graphs(ctx.thorough):
        size = 40
        for i in range(0, len(gs), size):
            part = gs[i:i + size]

            def go(it_, part=part):
                return [m for m in (one(g) for g in part) if m]
            h.decide("edges/%d blocks/%d" % (n, i // size), go, lambda v, r: v[0] if v else None, w)
            ctx.stat("graphs", len(part))
    for k in ("unreachable", "indirectbr", "invoke", "resume", "add", "callbr", "catchswitch"):
        for g in ({"entry": (k, [])}, {"entry": ("br", ["x"]), "x": (k, ["entry"])}):
            h.must_raise("terminator/%s/%d" % (k, len(g)), lambda it_, g=g: it.call(fn, [Cfg(lf, g).blocks], {}), "a block ending in %s" % k, w)

    def two(it_):
        a = it.call(fn, [Cfg(lf, {"entry": ("br", ["x"]), "x": ("ret", [])}).blocks], {})
        b = it.call(fn, [Cfg(lf, {"entry": ("br", ["y"]), "y": ("ret", [])}).blocks], {})
        return [[names_of(it, it.getattr(x, k)) for _, x in it.get(d).items for k in ("succs", "preds")] for d in (a, b)]
    h.decide("edges/two functions", two, lambda v, r: None if v == [[["x"], [], [], ["entry"]], [["y"], [], [], ["entry"]]] else "the graphs of two functions are %s" % v, w)


# ---------------------------------------------------------------- the description of the loops
HEAD = "Printing analysis 'Natural Loop Information' for function '%s':"


def describe(fns, style=0):
    """fns: [(function, [(depth, [(block, flags)])])]"""
    out = []
    for f, loops in fns:
        out.append(HEAD % f)
        for d, bs in loops:
            out.append("    " * (d - style % 2) + "Loop at depth %d containing: %s" % (d, ",".join("%" + b + "".join("<%s>" % x for x in fl) for b, fl in bs)))
    return "\n".join(out) + ("\n" if style < 2 else "")


H, L, X = "header", "latch", "exiting"
LOOPS = {
    "one": [(1, [("while.cond", [H, X]), ("while.body", [L])])],
    "self": [(1, [("do.body", [H, L, X])])],
    "two": [(1, [("for.cond", [H, X]), ("for.body", []), ("for.inc", [L])]), (1, [("while.cond5", [H, X]), ("while.body6", [L])])],
    "nested": [(1, [("a", [H, X]), ("b", []), ("c", []), ("d", []), ("e", [L])]), (2, [("b", [H, X]), ("c", []), ("d", [L])])],
    "three deep": [(1, [("a", [H, X]), ("b", []), ("c", []), ("d", []), ("e", []), ("f", [L])]), (2, [("b", [H, X]), ("c", []), ("d", []), ("e", [L])]), (3, [("c", [H, X]), ("d", [L])])],
    "several latches": [(1, [("h", [H]), ("p", [X]), ("q", [L]), ("r", [X, L]), ("s", [])])],
    "names like flags": [(1, [("header", [H, X]), ("latch", []), ("exiting", []), ("my.latch.header", []), ("exit", [L]), ("containing", []), ("Loop", [X])])],
    "long": [(1, [("b0", [H])] + [("b%d" % i, [X] if i % 4 == 0 else []) for i in range(1, 25)] + [("b25", [L, X])])],
    "numbers": [(1, [("4", [H, X]), ("7", []), ("10", [L])])],
    "empty blocks": [(1, [("while.cond", [H, X]), ("while.cond.while.body_crit_edge", []), ("empty_block1", []), ("while.body", []), ("empty_block", [L])])],
    "none": [],
}


def expected(loops):
    return [([b for b, f in bs if H in f], [b for b, f in bs if not f], [b for b, f in bs if X in f], [b for b, f in bs if L in f]) for _, bs in loops]


FNS = ["f", "_Z1fiii", "main", "f.1", "f2", "ff", "f$x", "_ZN3foo3barEv", "foo::bar", "x_f", "f[abi:cxx11]", "g(int)"]


def descriptions(ctx, lf):
    it, h = lf.it, lf.h
    it.load_module(LF)
    P = [("LLVM", ctx.lookup(LF + ":parse_loops"), ("header_name", "body_names", "exit_names", "latch_names"), ()), ("legacy", ctx.lookup(AN + ":parseLoops"), ("header", "body", "exits", "latches"), ())]
    keys = list(LOOPS)
    for tag, fn, fields, extra in P:
        w = ctx.where(fn)

        def parse(text, f, fn=fn, fields=fields):
            World(it, {"t.loops": text})
            out = []
            for l in it.iter_items(it.call(fn, [K("t.loops"), K(f)], {})):
                r = []
                for x in fields:
                    v = it.getattr(l, x)
                    r.append([v.v] if isinstance(v, K) else [y.v for y in it.iter_items(v)])
                out.append(tuple(r))
            return out
        for k in keys:
            for style in (0, 1, 2):
                def go(it_, k=k, style=style):
                    return parse(describe([("g", LOOPS["long"]), ("f", LOOPS[k]), ("z", LOOPS["two"])], style), "f"), parse(describe([("f", LOOPS[k])], style), "f"), parse(describe([("z", LOOPS["one"]), ("f", LOOPS[k])], style), "f")

                def expect(v, r, k=k):
                    e = expected(LOOPS[k])
                    for x in v:
                        for i, (got, want) in enumerate(itertools.zip_longest(x, e)):
                            if got is None or want is None:
                                return "%d loops are read instead of %d" % (len(x), len(e))
                            for part, g, q in zip(("header", "body", "exits", "latches"), got, want):
                                if g != q:
                                    return "the %s of loop %d is %s instead of %s" % (part, i, g, q)
                    return None
                h.decide("%s loops/%s/%d" % (tag, k, style), go, expect, w)
        order = [(f, LOOPS[keys[i % len(keys)]]) for i, f in enumerate(FNS)]
        for i, f in enumerate(FNS):
            def sel(it_, f=f, i=i):
                return [parse(describe(o), f) for o in (order, order[::-1], order[i:] + order[:i])]
            h.decide("%s loops of function/%s" % (tag, f), sel, lambda v, r, i=i: None if all(x == expected(order[i][1]) for x in v) else "the loops of %s are read as %s" % (FNS[i], v), w)

        def absent(it_):
            return parse(describe(order), "nosuch"), parse(describe(order), "_Z1f"), parse("", "f")
        h.decide("%s loops/other functions" % tag, absent, lambda v, r: None if v == ([], [], []) else "a function without loops gets %s" % (v,), w)
    two = [(1, [("a", [H]), ("b", [H, X]), ("c", [L])])]

    def twoheads(it_):
        World(it, {"t.loops": describe([("f", two)])})
        return it.call(P[0][1], [K("t.loops"), K("f")], {})
    h.must_raise("LLVM loops/two headers", twoheads, "a loop with two headers", ctx.where(P[0][1]))


# ---------------------------------------------------------------- loops over the graph
def loopinfo(ctx, lf):
    it, h = lf.it, lf.h
    mk = ctx.lookup(LF + ":LoopInfo.from_raw_loop_info")
    raw = ctx.lookup(LF + ":RawLoopInfo")
    setup = ctx.lookup(AN + ":setupBlocks")
    w = ctx.where(ctx.lookup(LF + ":LoopInfo"))
    G = {
        "while": ({"entry": ("br", ["h"]), "h": ("cond", ["b", "x"]), "b": ("br", ["h"]), "x": ("ret", [])}, [("h", [], ["h"], ["b"])]),
        "self": ({"entry": ("br", ["h"]), "h": ("cond", ["h", "x"]), "x": ("ret", [])}, [("h", [], ["h"], ["h"])]),
        "nested": ({"entry": ("br", ["h"]), "h": ("cond", ["g", "x"]), "g": ("cond", ["b", "l"]), "b": ("br", ["g"]), "l": ("br", ["h"]), "x": ("ret", [])}, [("h", ["b", "g"], ["h"], ["l"]), ("g", [], ["g"], ["b"])]),
        "shared latch": ({"entry": ("br", ["h"]), "h": ("cond", ["g", "x"]), "g": ("cond", ["g", "h"]), "x": ("ret", [])}, [("h", [], ["h"], ["g"]), ("g", [], ["g"], ["g"])]),
        "two latches": ({"entry": ("br", ["h"]), "h": ("cond", ["p", "x"]), "p": ("cond", ["q", "r"]), "q": ("br", ["h"]), "r": ("br", ["h"]), "x": ("ret", [])}, [("h", ["p"], ["h"], ["q", "r"])]),
        "two loops": ({"entry": ("br", ["h"]), "h": ("cond", ["b", "g"]), "b": ("br", ["h"]), "g": ("cond", ["c", "x"]), "c": ("br", ["g"]), "x": ("ret", [])}, [("h", [], ["h"], ["b"]), ("g", [], ["g"], ["c"])]),
        "two ways in": ({"entry": ("cond", ["p", "q"]), "p": ("br", ["h"]), "q": ("br", ["h"]), "h": ("cond", ["b", "x"]), "b": ("br", ["h"]), "x": ("ret", [])}, [("h", [], ["h"], ["b"])]),
    }
    for name, (g, loops) in G.items():
        for order in itertools.permutations(range(len(loops))):
            def go(it_, g=g, loops=loops, order=order):
                c = Cfg(lf, g)
                bs = it.call(setup, [c.blocks], {})
                objs = {k.v: b for k, b in it.get(bs).items}
                before = {b: (names_of(it, it.getattr(o, "succs")), names_of(it, it.getattr(o, "preds"))) for b, o in objs.items()}
                infos = {}
                for i in order:
                    hd, bd, ex, lt_ = loops[i]
                    L = lambda xs: it.new_list([K(x) for x in xs])
                    r = it.call(raw, [], {"header_name": K(hd), "body_names": L(bd), "exit_names": L(ex), "latch_names": L(lt_)})
                    infos[i] = it.call(mk, [r, bs], {})
                after = {b: (names_of(it, it.getattr(o, "succs")), names_of(it, it.getattr(o, "preds"))) for b, o in objs.items()}
                bad = []
                for i, li in infos.items():
                    hd, bd, ex, lt_ = loops[i]
                    for f, want in (("header", [hd]), ("body", bd), ("exits", ex), ("latches", lt_)):
                        v = it.getattr(li, f)
                        got = [v] if f == "header" else list(it.iter_items(v))
                        if got != [objs[x] for x in want]:
                            bad.append("the %s of loop %d is %s instead of %s" % (f, i, [it.getattr(x, "name").v for x in got], want))
                cut = {(l, hd) for hd, _, _, ls in loops for l in ls}
                for b in g:
                    ws = [s for s in before[b][0] if (b, s) not in cut]
                    wp = [p for p in before[b][1] if (p, b) not in cut]
                    if sorted(after[b][0]) != sorted(ws):
                        bad.append("once the back edges are gone, the successors of %s are %s instead of %s" % (b, after[b][0], ws))
                    if sorted(after[b][1]) != sorted(wp):
                        bad.append("once the back edges are gone, the predecessors of %s are %s instead of %s" % (b, after[b][1], wp))
                return bad
            h.decide("loop blocks/%s/%s" % (name, "".join(map(str, order))), go, lambda v, r: v[0] if v else None, w)
    g, _ = G["while"]

    def missing(it_):
        c = Cfg(lf, g)
        r = it.call(raw, [K("h"), it.new_list([K("nosuch")]), it.new_list([]), it.new_list([K("b")])], {})
        return it.call(mk, [r, it.call(setup, [c.blocks], {})], {})
    h.must_raise("loop blocks/unknown block", missing, "a loop over a block the function does not have", w)


# ---------------------------------------------------------------- the order in which blocks are analysed
def orders(ctx, lf):
    w = ctx.where(ctx.lookup(LF + ":MetaliftFunc.__call__"))
    i, s = I_, S
    P = {
        "branch": [("if", lt(A, B), [asg("i", A)], [asg("i", B)]), ret(i)],
        "join": [asg("i", num(0)), ("if", lt(A, B), [asg("i", A)], None), ("if", lt(B, i), [asg("s", i)], [asg("s", B)]), ret(add(i, s))],
        "loop": [asg("i", num(0)), ("while", lt(i, A), [asg("i", add(i, num(1)))]), ret(i)],
        "loop with branch": [asg("i", num(0)), asg("s", num(0)), ("while", lt(i, A), [("if", lt(i, B), [asg("s", add(s, i))], None), asg("i", add(i, num(1)))]), ret(s)],
        "early return": [("if", lt(A, B), [ret(A)], None), asg("i", B), ret(i)],
        "two loops": [asg("i", num(0)), ("while", lt(i, A), [asg("i", add(i, num(1)))]), asg("s", i), ("while", lt(s, B), [asg("s", add(s, num(1)))]), ret(s)],
    }
    deep = ctx.thorough
    for name, body in P.items():
        e, src = llfront.emit("t", AB, body)
        rest = e.order[1:]
        perms = list(itertools.islice(itertools.permutations(rest), 1, None)) if len(rest) <= 4 else []
        if not perms:
            rnd = random.Random(3)
            seen = {tuple(rest)}
            perms = [tuple(reversed(rest))]
            while len(perms) < (60 if deep else 8):
                p = tuple(rnd.sample(rest, len(rest)))
                if p not in seen:
                    seen.add(p)
                    perms.append(p)
        elif not deep:
            perms = perms[::max(1, len(perms) // 8)]
        for k, p in enumerate(perms):
            llfront.decide_ll(ctx, lf, "layout/%s/%d" % (name, k), AB, body, w, layout=[e.order[0]] + list(p))
    # the order in which the loops are described
    for name in ("two loops",):
        llfront.decide_ll(ctx, lf, "description order/%s" % name, AB, P[name], w, order=lambda nat: list(reversed(nat)))


def operands(ctx, lf):
    """the operands of an instruction are those of llvmlite, unless the analysis has put others in their place"""
    h, it = lf.h, lf.it
    key = "operands of an instruction"
    where = "metalift/analysis.py"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(open(os.path.join(ctx.repo if hasattr(ctx, "repo") else os.environ.get("SA_REPO", "/repo"), where)).read())
    sets = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == "ValueRef":
            sets.append((ast.unparse(n.args[1]), ast.unparse(n.args[2])))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and ast.unparse(n.targets[0].value) == "ValueRef":
            sets.append((repr(n.targets[0].attr), ast.unparse(n.value)))
    if not sets:
        ctx.bad(key + "/installed", "nothing replaces ValueRef.operands: the operands put in place of a call's are never read", where)
        return
    w = it.lookup(AN + ":" + sets[0][1]) if sets[0][1].isidentifier() else None
    f = getattr(w, "fn", None)
    if f is None:
        return      # another way to write the property: nothing here can be called
    ctx.check(key + "/installed", [a for a, _ in sets] == ["'operands'"], "the analysis replaces %s of ValueRef" % [a for a, _ in sets], where)
    a, b = K("a"), K("b")
    for name, own in (("replaced", [a, b]), ("replaced by one", [a]), ("not replaced", None), ("replaced by none", [])):
        def go(it_, own=own):
            lf.tys = {}
            v = lf.value("x", "i32", "%x")
            if own is not None:
                it.mut(v).fields["my_operands"] = it.new_list(list(own))
            r = it.call(f, [v], {})
            return r if not isinstance(r, Ref) else tuple(it.iter_items(r))

        def expect(v, r, own=own):
            if own:
                return None if v == tuple(own) else "the operands put in place are %s, read are %s" % (own, v)
            t = repr(v)
            return None if not isinstance(v, (tuple, K)) and "operands" in t else "the operands are %s, not those of llvmlite" % t
        h.decide("%s/%s" % (key, name), go, expect, where)


def run(ctx):
    ctx.rule("every function of up to three blocks (all terminators) and %s larger ones: successors are exactly the targets of the terminator, predecessors exactly the blocks that name the block, both agree edge by edge, other terminators are rejected" % ("400" if ctx.thorough else "80"))
    ctx.rule("loop descriptions with one to three functions of similar names and eleven loop shapes: header, body, exits and latches of every loop of that function and of no other are read as printed, by both parsers")
    ctx.rule("loops over a graph name the blocks of the description, and exactly the edges from a latch to its header are taken out, whatever the order of the loops")
    ctx.rule("for any layout of the blocks in the file, the obligations are those of the program (entry first, a block after all its predecessors)")
    lf = LLFront(ctx)
    blocks(ctx, lf)
    descriptions(ctx, lf)
    loopinfo(ctx, lf)
    orders(ctx, lf)
    operands(ctx, lf)
