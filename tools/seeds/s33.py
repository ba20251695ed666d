PROPERTY = "P29"
NEEDS = "the dissolve kernel, whose pixel depends on ((rand % 100) + 1) / 100"
BREAKS = "the rounded quotient of the sum is no longer among the candidates (only the sum with a quotient of constants), so the summary of the dissolve kernel cannot be found"
EDITS = [("metalift/utils/tenspiler/tenspiler_common.py",
'''    int_var = choose(int_var, ((int_var % cons) + cons) // cons)
''',
'''    int_var = choose(int_var, (int_var % cons) + cons // cons)
''')]
DEMO = '''
from metalift.frontend.llvm import Driver
from metalift.ir import *
from metalift.utils.tenspiler.tenspiler_common import get_dissolve_holing_search_space


def contains(e, t):
    if isinstance(e, Object):
        e = e.src
    if isinstance(e, Choose):
        return any(contains(a, t) for a in e.args)
    if isinstance(e, (Var, Lit)):
        return not isinstance(t, tuple) and e.args[0] == t
    name = e.args[0] if isinstance(e, Call) else type(e).__name__
    ops = e.args[1:] if isinstance(e, Call) else e.args
    if not isinstance(t, tuple) or t[0] != name or len(t) != len(ops) + 1:
        return False
    return any(all(contains(a, x) for a, x in zip(ops, o)) for o in ([t[1:], t[:0:-1]] if name in ("Add", "Mul") else [t[1:]]))


synths = get_dissolve_holing_search_space(Driver())[4]
body = [s for s in synths if s.args[0] == "dissolve_select_two_args"][0].args[1]
rnd = ("Div", ("Add", ("Mod", "rand_cons", 100), 1), 100)
left = ("Sub", "opacity", rnd)
assert any(contains(body, ("Ite", c, "int_y", "int_x")) for c in (("Ge", left, 0), ("Le", 0, left)))
'''
