PROPERTY = "P10"
NEEDS = "a loop that assigns a variable only in the else branch of a conditional inside its body"
BREAKS = "variables written only in else branches are left out of the variables a loop modifies, so they keep their value from before the loop"
EDITS = [("metalift/frontend/python.py",
'''    # getting here means we are visiting the RHS of an assignment or a general read only expr
    def visit_name_expr(self, o: NameExpr) -> None:
        t = self.types.get(o)
''',
'''    def visit_if_stmt(self, o: IfStmt) -> None:
        for cond, body in zip(o.expr, o.body):
            cond.accept(self)
            body.accept(self)
        if o.else_body:
            # only what the alternative looks at: its writes are those of the other side
            alternative = RWVarsVisitor(self.types)
            o.else_body.accept(alternative)
            self.reads |= alternative.reads

    # getting here means we are visiting the RHS of an assignment or a general read only expr
    def visit_name_expr(self, o: NameExpr) -> None:
        t = self.types.get(o)
''')]
FILES = {"pyvc.py": open("/verif/tools/seeds/_pyvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from pyvc import analyse, counterexample

SRC = """
def f(n: int) -> int:
    i = 0
    z = 0
    while i < n:
        if i < 1:
            i = i + 1
        else:
            z = 1
            i = i + 1
    return z
"""
d, r = analyse(SRC, "f", [("n", Int)])
# the summary 'f returns 0' is wrong for n = 2
import itertools
order = [v.var_name() for v in next(iter(d.inv_tracker.predicates.values())).args]
inv = next(p for p in d.inv_tracker.predicates.values() if "_inv" in p.name)
order = [v.var_name() for v in inv.args]
preds = {"f_inv0": lambda *a: True, "f_ps": lambda n, rv: rv == 0}
assert counterexample(d, preds) is not None, "a wrong summary passes"
'''
