PROPERTY = "P01"
NEEDS = "a legacy tupleGet call on a value that is not a tuple literal, indexing any element of a tuple longer than one"
BREAKS = "the accessor printed for tupleGet is taken from a tuple one element too short"
EDITS = [("metalift/ir.py",
'''                    length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                    retVal.append(f"tuple{length}_get{index}")
''',
'''                    contained = get_args(self.args[idx + 1].type)[0]
                    length = max(index + 1, len(get_args(contained)) if index else 1)
                    retVal.append(f"tuple{length}_get{index}")
''')]
DEMO = '''
from metalift.ir import Call, Int, Lit, Tuple, Var

t = Var("t", Tuple[tuple[Int, Int, Int]])
for i in range(3):
    s = Call("tupleGet", Int, t, Lit(i, Int)).toSMT()
    assert s.startswith("(tuple3_get%d " % i), s
'''
