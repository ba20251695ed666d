"""P09: each branch is analysed under its own condition"""
from ..cases import A, AB, B, S, X, add, asg, branch_programs, decide_py, iff, lt, num, ret
from ..llfront import LF, LLFront, decide_ll
from ..pyfront import PF, PyFront

FLOOR = 220


def shortcircuit():
    """conditions clang turns into several blocks"""
    c1, c2, c3 = lt(A, B), lt(B, num(5)), ("cmp", ["=="], [A, num(1)])
    init = [asg("x", num(0)), asg("y", num(7))]
    out = []
    for n, c in (("and", ("and", c1, c2)), ("or", ("or", c1, c2)), ("and not", ("and", ("not", c1), c2)), ("and or", ("and", ("or", c1, c2), c3)), ("or and", ("or", c1, ("and", c2, c3))),
                 ("not or", ("not", ("or", c1, c2))), ("or or", ("or", ("or", c1, c2), c3)), ("and and", ("and", c1, ("and", c2, c3)))):
        out.append(("if %s" % n, AB, init + [iff(c, [asg("x", A)]), ret(X)]))
        out.append(("if %s else" % n, AB, init + [iff(c, [asg("x", A)], [asg("x", B), asg("y", X)]), ret(add(X, ("var", "y")))]))
        out.append(("if %s return" % n, AB, init + [iff(c, [ret(A)]), asg("x", B), ret(X)]))
        out.append(("if %s else return" % n, AB, init + [iff(c, [asg("a", num(2))], [ret(A)]), iff(c, [asg("x", A)]), ret(X)]))
    return out


def run(ctx):
    ctx.rule("Python front end: for every pairing of what the two sides of a conditional may do (assign, assign several, assign the same, "
             "modify an input, return, nothing), alone, in sequence and nested, the recorded obligations have the meaning of the reference")
    ctx.rule("LLVM front end: the same programs, and conditions made of several blocks, compiled to unoptimised instructions with one return per block "
             "and with a common return block, yield obligations with the meaning of the path-by-path reference")
    pf = PyFront(ctx)
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_if_stmt"))
    for n, params, body in branch_programs(ctx.thorough):
        decide_py(ctx, pf, "py/" + n, params, body, w)
    lf = LLFront(ctx)
    w = ctx.where(ctx.lookup(LF + ":VCVisitor.merge_states"))
    progs = branch_programs(False)
    for i, (n, params, body) in enumerate(progs + shortcircuit()):
        if ctx.thorough or i < 40 or i % 3 == 0 or i >= len(progs):
            decide_ll(ctx, lf, "ll/" + n, params, body, w)
        if ctx.thorough or i < 40 or i % 3 == 1 or i >= len(progs):
            decide_ll(ctx, lf, "ll/one return/" + n, params, body, w, style="clang")
