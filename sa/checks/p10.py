"""P10: loops are discharged by a complete invariant rule"""
from .. import llcases
from ..cases import AB, decide_py, loop_programs
from ..llfront import LF, LLFront, decide_ll
from ..pyfront import PF, PyFront

FLOOR = 80


def scopes(n):
    """what the user may ask the invariant to range over: everything, one local, inputs in memory"""
    out = []
    for k, names in (("all", ["i", "s", "x", "j", "a.addr", "b.addr", "a", "b"]), ("one", ["x", "s"]), ("memory", ["b.addr"])):
        out.append((k, {i: names for i in range(n)}))
    return out


def run(ctx):
    ctx.rule("Python front end: for every loop template the recorded obligations have the meaning of the reference rule")
    ctx.rule("LLVM front end: for every loop template (while, for, do, with break, continue, return, nested, in branches, in sequence) in unoptimised form the recorded "
             "obligations have the meaning of the path-by-path reference, the invariant ranges over what the loop writes, the inputs and what the user names, "
             "and its grammar is offered exactly those")
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_while_stmt"))
    for n, params, body in loop_programs(ctx.thorough):
        decide_py(ctx, pf, "py/" + n, params, body, w)
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":VCVisitor.visit_llvm_block"))
    progs = [(n, b) for n, _, b in loop_programs(False)] + llcases.loops(ctx.thorough)
    for n, body in progs:
        decide_ll(ctx, lf, "ll/" + n, AB, body, w)
        decide_ll(ctx, lf, "ll/one return/" + n, AB, body, w, style="clang")
        decide_ll(ctx, lf, "ll/loops printed last first/" + n, AB, body, w, order=lambda x: list(reversed(x)))
    for n, body in progs:
        if ctx.thorough or n in ("loop", "loop{if}", "loop{loop}", "loop;loop", "if{loop}", "for{for{break}}", "do{continue}", "loop{if ret}", "loop/value unread"):
            for k, sc in scopes(4):
                decide_ll(ctx, lf, "ll/in scope %s/%s" % (k, n), AB, body, w, in_scope=sc)
