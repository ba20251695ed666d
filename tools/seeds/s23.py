PROPERTY = "P11"
NEEDS = "a function that assigns to one of its parameters before it returns"
BREAKS = "the summary is applied to the value the parameter has at the return, not to the value the caller passed"
EDITS = [("metalift/frontend/python.py",
'''            *self.args,
            o.expr.accept(self),
        )
        ps = cast(Bool, ps)
''',
'''            *(self.state.read(arg.var_name()) for arg in self.args),
            o.expr.accept(self),
        )
        ps = cast(Bool, ps)
''')]
FILES = {"pyvc.py": open("/verif/tools/seeds/_pyvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from pyvc import analyse, counterexample

SRC = """
def f(a: int, b: int) -> int:
    if a < b:
        a = b
    return a
"""
d, _ = analyse(SRC, "f", [("a", Int), ("b", Int)])
c = counterexample(d, {"f_ps": lambda a, b, rv: rv == max(a, b)})
assert c is None, c
SRC2 = """
def f(a: int, b: int) -> int:
    a = a + b
    return a
"""
d, _ = analyse(SRC2, "f", [("a", Int), ("b", Int)])
c = counterexample(d, {"f_ps": lambda a, b, rv: rv == a + b})
assert c is None, c
'''
