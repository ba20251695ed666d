PROPERTY = "P16"
NEEDS = "two functions analysed by one driver, in different files, with a loop on the same line of each"
BREAKS = "the second loop is given the first loop's predicate: one name, and one argument list, for two different invariants"
EDITS = [("metalift/frontend/python.py",
'''        if o in self.predicates:
            return self.predicates[o]
        else:
            non_args_scope''',
'''        known = [
            p
            for loop, p in self.predicates.items()
            if isinstance(loop, WhileStmt) and loop.line == o.line
        ]
        if known:
            return known[0]
        else:
            non_args_scope''')]
FILES = {"pyvc.py": open("/verif/tools/seeds/_pyvc.txt").read()}
DEMO = '''
from metalift.frontend.python import Driver
from metalift.ir import Call, Expr, Int
from pyvc import analyse

A = """
def f(a: int) -> int:
    i = 0
    while i < a:
        i = i + 1
    return i
"""
B = """
def g(b: int) -> int:
    j = b
    while j > 3:
        j = j - 1
    return j
"""
driver = Driver()
names = []
for src, fn, arg in ((A, "f", "a"), (B, "g", "b")):
    before = len(driver.asserts)
    analyse(src, fn, [(arg, Int)], driver=driver)
    found = set()

    def walk(e):
        e = getattr(e, "src", e)
        if isinstance(e, Expr):
            if isinstance(e, Call) and "_inv" in str(e.args[0]):
                found.add(e.args[0])
            for x in e.args:
                walk(x)

    for a in driver.asserts[before:]:
        walk(a)
    assert found, "no invariant"
    names.append(found)
assert not (names[0] & names[1]), names
'''
