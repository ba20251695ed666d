PROPERTY = "P09"
NEEDS = "a conditional nested in a side of another one, where only the inner one returns, and a variable changed before the return"
BREAKS = "when the true side has returned the code after the join continues with the variables as they were before the conditional, not as the false side left them"
EDITS = [("metalift/frontend/python.py",
'''        elif c_state.has_returned and not a_state.has_returned:
            self.state.vars = a_state.vars
''',
'''        elif c_state.has_returned and not a_state.has_returned:
            if not o.else_body or len(o.else_body.body) == 1:
                self.state.vars = a_state.vars
''')]
FILES = {"pyvc.py": open("/verif/tools/seeds/_pyvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from pyvc import analyse, counterexample

SRC = """
def f(n: int) -> int:
    y = 0
    if n > 1:
        return 5
    else:
        y = n
        y = y + 1
    return y
"""
d, r = analyse(SRC, "f", [("n", Int)])
right = {"f_ps": lambda n, rv: rv == (5 if n > 1 else n + 1)}
assert counterexample(d, right) is None, counterexample(d, right)
'''
