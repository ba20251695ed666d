PROPERTY = "P08"
NEEDS = "a comparison of a value with itself or of equal operands through the 'ne' predicate under a later negation; a signed-greater-or-equal comparison between equal values"
BREAKS = "sge is modelled as sgt when its right operand is a constant (the off-by-one form a compiler uses is not adjusted)"
EDITS = [("metalift/frontend/llvm.py",
'''        elif cond == "sge":
            obj = op0 >= op1  # type: ignore
''',
'''        elif cond == "sge":
            if not ops[1].name:
                obj = op0 > op1  # type: ignore
            else:
                obj = op0 >= op1  # type: ignore
''')]
STUB = open("/verif/tools/seeds/_llstub.txt").read()
FILES = {"llvc.py": open("/verif/tools/seeds/_llvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from llvc import analyse, counterexample

LL = """
define i32 @f(i32 %a, i32 %b) {
entry:
  %c = icmp sge i32 %a, RIGHT
  br i1 %c, label %t, label %e
t:
  ret i32 1
e:
  ret i32 0
}
"""
for right, fn in (("2", lambda a, b, rv: rv == int(a >= 2)), ("%b", lambda a, b, rv: rv == int(a >= b))):
    d = analyse(LL.replace("RIGHT", right), "f", [("a", Int), ("b", Int)])
    assert counterexample(d, {"f_ps": fn}) is None, counterexample(d, {"f_ps": fn})
'''
NEEDS = "a signed greater-or-equal comparison with a constant on the right"
BREAKS = "sge with a constant right operand is modelled as sgt"
