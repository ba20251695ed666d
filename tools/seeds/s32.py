PROPERTY = "P29"
NEEDS = "a grammar of depth 2 or more, and a summary that subtracts or divides by an expression deeper than the left operand, such as s - (s + s)"
BREAKS = "the candidates whose right operand of - or // is the deeper one are no longer in the grammar, so such a summary cannot be found"
EDITS = [("metalift/utils/tenspiler/tenspiler_common.py",
'''        # Since - and // are non-symmetric we switch the operands
        if other_depth != depth - 1:
            expr_choices.append(other_expr - depth_minus_one_expr)
            expr_choices.append(other_expr // depth_minus_one_expr)

    depth_to_expr[depth] = choose(*expr_choices)
''',
'''        # Since - and // are non-symmetric we switch the operands
        if other_depth == depth - 1:
            expr_choices.append(other_expr - depth_minus_one_expr)
            expr_choices.append(other_expr // depth_minus_one_expr)

    depth_to_expr[depth] = choose(*expr_choices)
''')]
DEMO = '''
import itertools
from metalift.ir import *
from metalift.utils.tenspiler.tenspiler_common import get_int_expr_eq_or_below_depth


def candidates(e):
    if isinstance(e, Object):
        e = e.src
    if isinstance(e, (Var, Lit)):
        return {e.args[0]}
    if isinstance(e, Choose):
        return set().union(*[candidates(a) for a in e.args])
    head = [{e.args[0]}] if isinstance(e, Call) else [{type(e).__name__}]
    rest = e.args[1:] if isinstance(e, Call) else e.args
    return set(itertools.product(*(head + [candidates(a) for a in rest])))


got = candidates(get_int_expr_eq_or_below_depth(Int("s"), 2))
for top in ("Add", "Mul", "Sub", "Div"):
    for op in ("Sub", "Div"):
        assert (op, "s", (top, "s", "s")) in got, (op, top)
'''
