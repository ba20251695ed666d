"""P24: the preparation pass splits the edges of two-way branches and nothing else"""
import itertools
import os

from .. import core
from ..cxx import Arg, Block, Const, Fault, Func, Inst, Interp, Rec, Unmodelled, parse, truth

FLOOR = 60
REL = "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"


# A function is a list of terminators, one per block (block 0 is the entry):
#   ("ret",) ("br", t) ("cbr", t, f) ("switch", default, t1, ...) ("unreachable",) ("invoke", normal, unwind)

def edges(t):
    return list(t[1:])


class Case:
    """One function in the model together with a snapshot of what it was."""

    def __init__(self, it, name, terms, phis=2, named=True, optnone=False, cond="inst", samephi=False):
        f = self.f = Func(name, optnone)
        it.functions.append(f)
        n = len(terms)
        self.blocks = [Block("b%d" % i if named else "", f, i) for i in range(n)]
        f.blocks.extend(self.blocks)
        self.args = [Arg("a%d" % i) for i in range(3)]
        preds = {i: [] for i in range(n)}
        for i, t in enumerate(terms):
            for s in edges(t):
                preds[s].append(i)
        shared = Inst("icmp", "c" if named else "", self.args[:2])
        for i, t in enumerate(terms):
            b = self.blocks[i]
            put = lambda x: (setattr(x, "block", b), b.insts.append(x))
            if preds[i]:
                for k in range(phis):
                    p = Inst("phi", "p%d_%d" % (i, k) if named else "")
                    for j in preds[i]:
                        # one value per predecessor block: LLVM demands that
                        # parallel edges bring the same value
                        v = next((x for x, bb in zip(p.ops, p.blocks) if bb is self.blocks[j]), None)
                        if v is None:
                            v = self.args[0] if samephi else Const(str(10 * i + j + 100 * k))
                        p.ops.append(v)
                        p.blocks.append(self.blocks[j])
                    put(p)
            if i == 0:
                put(Inst("alloca", "x" if named else "", [Const("1")]))
                if cond == "shared":
                    put(shared)
            put(Inst("add", "s%d" % i if named else "", [self.args[0], Const(str(i))]))
            if t[0] == "cbr":
                c = shared
                if cond == "inst":
                    c = Inst("icmp", "c%d" % i if named else "", [b.insts[-1], self.args[1]])
                    put(c)
                elif cond == "const":
                    c = Const("true")
                elif cond == "arg":
                    c = self.args[2]
                put(Inst("br", "", [c], [self.blocks[t[1]], self.blocks[t[2]]]))
            elif t[0] == "br":
                put(Inst("br", "", [], [self.blocks[t[1]]]))
            elif t[0] == "switch":
                put(Inst("switch", "", [self.args[0]] + [Const(str(k)) for k in range(len(t) - 2)], [self.blocks[s] for s in t[1:]]))
            elif t[0] == "ret":
                put(Inst("ret", "", [self.args[0]]))
            elif t[0] == "invoke":
                put(Inst("invoke", "r%d" % i, [self.args[0]], [self.blocks[t[1]], self.blocks[t[2]]]))
            else:
                put(Inst("unreachable"))
        self.terms = terms
        self.snap = [(list(b.insts), [(list(x.ops), list(x.succs), list(x.blocks)) for x in b.insts]) for b in self.blocks]

    def verify(self, changed):
        """None, or what is wrong"""
        f, B = self.f, self.blocks
        ncond = sum(t[0] == "cbr" for t in self.terms)
        if not f.blocks or f.blocks[0] is not B[0]:
            return "the entry block is no longer the first one"
        for b in B:
            if b not in f.blocks:
                return "block %d has left the function" % b.origin
        if len(set(map(id, f.blocks))) != len(f.blocks):
            return "a block is listed twice"
        fresh = [b for b in f.blocks if b not in B]
        if len(fresh) != 2 * ncond:
            return "%d blocks added for %d two-way branches" % (len(fresh), ncond)
        edge = {}     # (pred index, edge number) -> new block
        for i, t in enumerate(self.terms):
            b = B[i]
            old, _ = self.snap[i]
            if not b.insts:
                return "block %d is empty" % i
            if t[0] != "cbr":
                continue
            br = b.insts[-1]
            if br.dead:
                return "block %d ends in an erased instruction" % i
            if br.op != "br" or len(br.succs) != 2:
                return "block %d no longer ends in a two-way branch" % i
            if br.ops != self.snap[i][1][-1][0] or br.ops[0] is not self.snap[i][1][-1][0][0]:
                return "the condition of the branch of block %d has changed" % i
            for e in (0, 1):
                nb = br.succs[e]
                side = ("true", "false")[e]
                if nb in B:
                    return "the %s edge of block %d goes to block %d without a new block" % (side, i, nb.origin)
                if nb not in f.blocks:
                    return "the %s edge of block %d goes to a block outside the function" % (side, i)
                if nb in edge.values():
                    return "one new block serves two edges"
                edge[(i, e)] = nb
                if len(nb.insts) != 1 or nb.insts[0].op != "br" or len(nb.insts[0].succs) != 1 or nb.insts[0].dead:
                    return "the new block of the %s edge of block %d does more than jump" % (side, i)
                tgt = nb.insts[0].succs[0]
                want = B[t[1 + e]]
                if tgt is not want:
                    return "the new block of the %s edge of block %d jumps to %s instead of block %d" % (
                        side, i, "block %d" % tgt.origin if tgt.origin is not None else "a new block", want.origin)
                if nb.insts[0].block is not nb:
                    return "a jump is not placed in its block"
        for i, t in enumerate(self.terms):
            b = B[i]
            old, data = self.snap[i]
            new = b.insts
            if t[0] == "cbr":
                old, new, data = old[:-1], new[:-1], data[:-1]
            if len(old) != len(new) or any(x is not y for x, y in zip(old, new)):
                return "block %d: instructions were added, removed or moved" % i
            for x, (ops, succs, blocks) in zip(old, data):
                if x.op != "phi":
                    if len(ops) != len(x.ops) or any(p is not q for p, q in zip(ops, x.ops)) or \
                            len(succs) != len(x.succs) or any(p is not q for p, q in zip(succs, x.succs)):
                        return "block %d: an instruction (%s) was changed" % (i, x.op)
                    continue
                want = []
                seen = {}
                for v, pb in zip(ops, blocks):
                    pt = self.terms[pb.origin]
                    if pt[0] != "cbr":
                        want.append((id(v), id(pb)))
                        continue
                    k = seen.get(pb.origin, 0)
                    seen[pb.origin] = k + 1
                    es = [e for e in (0, 1) if pt[1 + e] == i]
                    want.append((id(v), id(edge[(pb.origin, es[k])])))
                have = [(id(v), id(pb)) for v, pb in zip(x.ops, x.blocks)]
                if sorted(want) != sorted(have):
                    lost = [pb for v, pb in zip(x.ops, x.blocks) if (id(v), id(pb)) not in want]
                    return "block %d: a phi names %s as predecessor; its entries do not match the new predecessors" % (
                        i, ("block %d" % lost[0].origin if lost[0].origin is not None else "a wrong new block") if lost else "too few blocks")
        if bool(changed) != (ncond > 0):
            return "reports %s although it %s" % (("a change", "changed nothing") if changed else ("no change", "changed the function"))
        return None


def targets(n):
    """all terminators over the blocks 1..n-1"""
    r = range(1, n)
    out = [("ret",)] + [("br", t) for t in r] + [("cbr", a, b) for a in r for b in r]
    out += [("switch", a, b) for a in r for b in r]
    out += [("switch", 1, 1, n - 1), ("invoke", 1, n - 1)]
    return out


HAND = {
    "straight line": [("br", 1), ("br", 2), ("ret",)],
    "only a return": [("ret",)],
    "if": [("cbr", 1, 2), ("br", 2), ("ret",)],
    "if, other polarity": [("cbr", 2, 1), ("br", 2), ("ret",)],
    "if else": [("cbr", 1, 2), ("br", 3), ("br", 3), ("ret",)],
    "both edges to one block": [("cbr", 1, 1), ("ret",)],
    "both edges to one block with other predecessors": [("switch", 1, 2, 2), ("cbr", 2, 2), ("ret",)],
    "while": [("br", 1), ("cbr", 2, 3), ("br", 1), ("ret",)],
    "do while": [("br", 1), ("cbr", 1, 2), ("ret",)],
    "do while, other polarity": [("br", 1), ("cbr", 2, 1), ("ret",)],
    "self loop on both edges": [("br", 1), ("cbr", 1, 1), ("ret",)],
    "nested ifs into one join": [("cbr", 1, 4), ("cbr", 2, 3), ("br", 4), ("br", 4), ("ret",)],
    "short circuit": [("cbr", 1, 3), ("cbr", 2, 3), ("br", 3), ("ret",)],
    "two branches with crossed targets": [("cbr", 1, 2), ("cbr", 3, 4), ("cbr", 4, 3), ("ret",), ("ret",)],
    "if in a loop": [("br", 1), ("cbr", 2, 5), ("cbr", 3, 4), ("br", 4), ("br", 1), ("ret",)],
    "break and continue": [("br", 1), ("cbr", 2, 5), ("cbr", 5, 3), ("cbr", 1, 4), ("br", 1), ("ret",)],
    "nested loops": [("br", 1), ("cbr", 2, 5), ("cbr", 3, 4), ("br", 2), ("br", 1), ("ret",)],
    "switch and if": [("switch", 1, 2, 3), ("cbr", 2, 3), ("cbr", 3, 4), ("br", 4), ("ret",)],
    "unreachable part": [("br", 2), ("cbr", 2, 3), ("cbr", 3, 4), ("br", 4), ("ret",)],
    "many returns": [("cbr", 1, 2), ("cbr", 3, 4), ("cbr", 5, 6), ("ret",), ("ret",), ("unreachable",), ("ret",)],
    "invoke": [("invoke", 1, 2), ("cbr", 3, 2), ("cbr", 3, 3), ("ret",)],
    "branch out of a switch arm back": [("br", 1), ("switch", 2, 3, 4), ("cbr", 1, 3), ("cbr", 4, 1), ("cbr", 1, 1), ("ret",)],
    "long chain": [("cbr", i + 1, i + 2) for i in range(9)] + [("br", 10), ("ret",)],
    "ladder into one block": [("cbr", i + 1, 8) for i in range(7)] + [("br", 8), ("ret",)],
}


def run(ctx):
    path = os.path.join(core.REPO, REL)
    if not os.path.exists(path):
        raise core.AnchorLost(REL)
    ctx.rule("abstract interpretation of the pass's typed C++ syntax tree (clang) over every control-flow graph of a bounded family: each edge of a two-way branch runs through its own new block that only jumps to the old target, condition and polarity stay, phis of a target name the new block of exactly that edge, every other instruction, operand and block stays, and a change is reported exactly when one was made")
    try:
        unit = parse(path)
    except Unmodelled as e:
        ctx.unknown("parse", str(e), REL)
        return
    rec = [r for r in unit.records if "runOnFunction" in unit.methods(r)]
    if len(rec) != 1:
        raise core.AnchorLost("class with runOnFunction")
    rec = rec[0]
    fn = unit.methods(rec)["runOnFunction"]
    fn = unit.funcs.get(fn["id"], fn)
    loc = "%s:%d %s::runOnFunction" % (REL, unit.line(fn), rec)
    for f in unit.funcs.values():
        if f.get("name") and not f.get("isImplicit"):
            ctx.fns.add("%s:%s" % (REL, f["name"]))
    ctx.mods.add(REL)
    registered(ctx, unit, rec)

    def explore(key, seqs, order):
        """seqs: list of functions given to one pass object one after another"""
        it = Interp(unit, order)
        try:
            this = it.construct(rec, [], None)
            cases = [Case(it, "main" if key.endswith("no optimisation") else "f%d" % i, **kw) for i, kw in enumerate(seqs)]
            from ..cxx import Cell
            for c in cases:
                r = it.call(fn, this, [Cell(c.f)]).get()
                msg = c.verify(truth(r))
                if msg:
                    ctx.bad(key, "%s [blocks %s]" % (msg, show(c.terms)), loc)
                    return
            for c in cases[:-1]:
                msg = c.verify(any(t[0] == "cbr" for t in c.terms))
                if msg:
                    ctx.bad(key, "while another function was handled: %s [blocks %s]" % (msg, show(c.terms)), loc)
                    return
            ctx.ok(key)
        except Fault as e:
            ctx.bad(key, "%s [blocks %s]" % (e, " / ".join(show(kw["terms"]) for kw in seqs)), loc)
        except Unmodelled as e:
            ctx.unknown(key, "outside the model: %s" % e, loc)
        finally:
            ctx.stat("control-flow graphs", len(seqs))
            ctx.calls += it.steps
    for n, t in HAND.items():
        for o in (1, -1):
            explore(n, [dict(terms=t)], o)
            explore(n + " / unnamed, no optimisation", [dict(terms=t, named=False, optnone=True)], o)
        explore(n + " / shared condition", [dict(terms=t, cond="shared")], 1)
        explore(n + " / constant condition", [dict(terms=t, cond="const", phis=1)], 1)
        explore(n + " / argument as condition", [dict(terms=t, cond="arg", phis=0, optnone=True)], -1)
        explore(n + " / equal phi values", [dict(terms=t, phis=3, samephi=True)], 1)
    names = list(HAND)
    for a, b in zip(names, names[1:] + names[:1]):
        explore("after one another: %s, %s" % (a, b), [dict(terms=HAND[a]), dict(terms=HAND[b], named=False)], 1)
        explore("after one another: %s, %s" % (b, a), [dict(terms=HAND[b]), dict(terms=HAND[a]), dict(terms=HAND[b])], -1)
    for n in (2, 3):
        ts = targets(n)
        for combo in itertools.product(ts, repeat=n):
            if not any(t[0] == "cbr" for t in combo) and n > 2:
                continue
            explore("all graphs of %d blocks, entry %s" % (n, " ".join(map(str, combo[0]))), [dict(terms=list(combo))], 1)
    if ctx.thorough:
        r = range(1, 4)
        ts = [("ret",)] + [("br", t) for t in r] + [("cbr", a, b) for a in r for b in r] + [("switch", 1, 2), ("switch", 3, 3)]
        for combo in itertools.product(ts, repeat=4):
            if sum(t[0] == "cbr" for t in combo) < 2:
                continue
            explore("all graphs of 4 blocks, entry %s" % " ".join(map(str, combo[0])), [dict(terms=list(combo))], 1)


def show(terms):
    return "; ".join("%d: %s" % (i, " ".join(map(str, t))) for i, t in enumerate(terms))


def registered(ctx, unit, rec):
    """the pass is found under the documented name"""
    def strings(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") == "StringLiteral":
            yield n["value"].strip('"')
        for c in n.get("inner", []):
            yield from strings(c)
    regs = [g for g in unit.globals if "RegisterPass<" in g.get("type", {}).get("qualType", "")]
    mine = [g for g in regs if rec in g["type"]["qualType"]]
    if not mine:
        ctx.unknown("registered", "no RegisterPass for %s" % rec, REL)
        return
    s = next(strings(mine[0]), None)
    ctx.check("registered", s == "addEmptyBlock", "the pass is registered as %r; the documented commands run -addEmptyBlock" % s, "%s:%d" % (REL, unit.line(mine[0])))
