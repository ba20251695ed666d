PROPERTY = "P26"
NEEDS = "an LLM answer whose body is an assignment followed by the return of another variable (a parameter)"
BREAKS = "the value assigned is taken for the value returned although another variable is returned"
EDITS = [("llmlift_scripts/parser.py",
'''                if first_stmt.lvalues[0].name != second_stmt.expr.name:
                    raise Exception(
                        "Return variable must be the same as the variable assigned"
                    )
                return parse_node(first_stmt.rvalue)
''',
'''                params = [arg.variable.name for arg in root_node.arguments]
                if (
                    first_stmt.lvalues[0].name != second_stmt.expr.name
                    and second_stmt.expr.name not in params
                ):
                    raise Exception(
                        "Return variable must be the same as the variable assigned"
                    )
                return parse_node(first_stmt.rvalue)
''')]
DEMO = '''
import contextlib, io, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd() + "/llmlift_scripts")
import llmlift_scripts.parser as P
from metalift.ir import *

fn = [f for n, f in vars(P).items() if n in ("check_solution", "check_solutions")][0]
import inspect
d = tempfile.mkdtemp()
cwd = os.getcwd()


def read(src):
    os.environ["MYPY_CACHE_DIR"] = d
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return fn(solution=src, expected_num_funcs=1, dsl_code="", lambda_exprs={}, arg_name_to_count={})
    finally:
        os.chdir(cwd)


good = """
def f(a: int, b: int) -> int:
    x = a + b
    return x
"""
bad = """
def f(a: int, b: int) -> int:
    x = a + b
    return a
"""
try:
    r = read(good)
    text = str([d_.body() for d_ in r[1]])
    try:
        r2 = read(bad)
    except Exception:
        r2 = None
    assert r2 is None or str([d_.body() for d_ in r2[1]]) != text, "returning another variable read as returning the assigned one"
finally:
    shutil.rmtree(d)
'''
