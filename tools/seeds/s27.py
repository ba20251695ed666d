PROPERTY = "P06"
NEEDS = "a conjunction with a non-Boolean operand that is not the first"
BREAKS = "only the first operand of a conjunction has its type checked"
EDITS = [("metalift/ir.py",
'''        if not all(map(lambda e: e.type == Bool, args)):
            # TODO how to check this type?
''',
'''        if not next(map(lambda e: e.type == Bool, args)):
            # TODO how to check this type?
''')]
DEMO = '''
from metalift.ir import *

b, i = Var("b", Bool), Var("i", Int)
And(b, b)
And(b)
for bad in ((i,), (i, b), (b, i), (b, b, i), (b, i, b)):
    try:
        And(*bad)
    except Exception:
        continue
    raise SystemExit(f"accepted {bad}")
'''
