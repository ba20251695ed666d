PROPERTY = "P21"
NEEDS = "two conjunctions (or sums, or calls) one of which is the beginning of the other"
BREAKS = "an expression equals every longer expression of its kind that starts with it"
EDITS = [("metalift/ir.py",
'''                or len(self.args) != len(other.args)
            ):
                return False
''',
'''                or len(self.args) > len(other.args)
            ):
                return False
''')]
DEMO = '''
from metalift.ir import *
from metalift.vc_util import and_objects

x, y, z = (Var(n, Bool) for n in "xyz")
short, long = And(x, y), And(x, y, z)
assert not Expr.__eq__(short, long) and not Expr.__eq__(long, short)
assert Expr.__eq__(long, And(x, y, z))
i, j = Var("i", Int), Var("j", Int)
assert not Expr.__eq__(Add(i), Add(i, j)) and not Expr.__eq__(Call("f", Int, i), Call("f", Int, i, j))
'''
