PROPERTY = "P28"
NEEDS = "equality optimization, and a premise that names a variable on the right of an equality only (1 = x) while the variable is used outside the implication as well"
BREAKS = "a variable on the right of an equality is replaced although it also occurs outside the implication, so a valid condition becomes unprovable"
EDITS = [("metalift/ir.py",
'''            elif isinstance(self.args[1], Var) and (
                not self.args[1].args[0] in constrained_elsewhere
            ):
''',
'''            elif isinstance(self.args[1], Var):
''')]
DEMO = '''
from metalift.ir import *


def optimize(vc):
    new, prev = set(), None
    while vc.toSMT() != prev:
        prev = vc.toSMT()
        counts = {}
        vc.count_variable_uses(counts)
        vc = vc.optimize_useless_equality(counts, new)
    return vc


x, y = Var("x", Int), Var("y", Int)
p = lambda v: Call("p", Bool, v)
# p(x) fails or (f(y) = x and p(f(y))) holds whenever f(y) = x: valid
vc = Or(Not(p(x)), Implies(Eq(Call("f", Int, y), x), p(x)))
got = optimize(vc)


def holds(e, env, pv, fv):
    if isinstance(e, Lit):
        return e.args[0]
    if isinstance(e, Var):
        return env[e.args[0]]
    if isinstance(e, Call):
        return (pv if e.args[0] == "p" else fv)[holds(e.args[1], env, pv, fv)]
    a = [holds(i, env, pv, fv) for i in e.args]
    return {Or: lambda: any(a), And: lambda: all(a), Not: lambda: not a[0], Implies: lambda: not a[0] or a[1], Eq: lambda: a[0] == a[1]}[type(e)]()


B = (False, True)
for xv in (0, 1):
    for yv in (0, 1):
        for b in B:
            for pv in [(i, j) for i in B for j in B]:
                for fv in [(i, j) for i in (0, 1) for j in (0, 1)]:
                    env = {"x": xv, "y": yv, "useless_equality_0": b}
                    assert holds(vc, env, pv, fv)
                    assert holds(got, env, pv, fv), (got.toSMT(), env, pv, fv)
'''
