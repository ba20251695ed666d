PROPERTY = "P15"
NEEDS = "projecting a component of a tuple that was just built with make-tuple (a tuple variable, a TupleExpr and a function's result are projected as before)"
BREAKS = "the verification condition calls the projection of a tuple with one component more than the tuple has: (tuple3_get0 (tuple2 a b)), which is ill-sorted over the prelude"
EDITS = [("metalift/ir.py",
'''                            len(self.args[idx + 1].args) - 1,
                            index,
''',
'''                            len(self.args[idx + 1].args),
                            index,
''')]
DEMO = '''
from metalift.ir import *

pair = Call("make-tuple", Tuple[tuple[Int, Int]], Int("a").src, Int("b").src)
for k in (0, 1):
    text = Call("tupleGet", Int, pair, IntLit(k)).toSMT()
    assert text.split() == ["(tuple2_get%d" % k, "(tuple2", "a", "b))"], text
'''
