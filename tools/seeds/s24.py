PROPERTY = "P22"
NEEDS = "a function called a second time on the same driver, with other arguments, before synthesis"
BREAKS = "the obligations of a second call of the same function are dropped from the verification condition"
EDITS = [("metalift/frontend/python.py",
'''        self.driver.asserts += v.state.asserts

        object_type''',
'''        if not any(p.src.args[0] == f"{self.name}_ps" for p in self.driver.postconditions):
            self.driver.asserts += v.state.asserts

        object_type''')]
FILES = {"pyvc.py": open("/verif/tools/seeds/_pyvc.txt").read()}
DEMO = '''
import contextlib, io, os, shutil, tempfile
from metalift.frontend.python import Driver
import metalift.frontend.python as M
from metalift.ir import Bool, Call, Expr, Int

SRC = """
def f(a: int) -> int:
    return a + 1
"""
driver = Driver()
d = tempfile.mkdtemp()
got = {}
M.run_synthesis = lambda **k: (got.update(k), [])[1]
try:
    p = os.path.join(d, "p.py")
    open(p, "w").write(SRC)
    with contextlib.redirect_stdout(io.StringIO()):
        fn = driver.analyze(p, "f", lambda: [], None, lambda *a: Bool(True), [])
        x, y = Int("x"), Int("y")
        driver.add_var_objects([x, y])
        fn(x)
        fn(y)
        driver.synthesize()
finally:
    shutil.rmtree(d)
args = set()


def walk(e):
    if isinstance(e, Expr):
        if isinstance(e, Call) and e.args[0] == "f_ps":
            args.add(str(e.args[1]))
        for a in e.args:
            walk(a)


walk(got["vc"])
assert args == {"x", "y"}, args
'''
