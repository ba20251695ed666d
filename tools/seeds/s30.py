PROPERTY = "P03"
NEEDS = "a conditional that is an operand of another operation"
BREAKS = "the Python text of a conditional has no parentheses, so (x if c else y) - y is printed as x if c else y - y, which is another value"
EDITS = [("metalift/ir.py",
'''        return f"({self.e1().to_python()} if {self.c().to_python()} else {self.e2().to_python()})"
''',
'''        return f"{self.e1().to_python()} if {self.c().to_python()} else {self.e2().to_python()}"
''')]
DEMO = '''
from metalift.ir import *

c, x, y = Var("c", Bool), Var("x", Int), Var("y", Int)
for e, f in ((Sub(Ite(c, x, y), y), lambda c, x, y: (x if c else y) - y), (Ite(c, Sub(x, y), y), lambda c, x, y: x - y if c else y), (Add(x, Ite(c, x, y)), lambda c, x, y: x + (x if c else y))):
    for b in (False, True):
        for m in (-2, 0, 3):
            for n in (1, 5):
                assert eval(e.to_python(), {"c": b, "x": m, "y": n}) == f(b, m, n), (e.to_python(), b, m, n)
'''
