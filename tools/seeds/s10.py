PROPERTY = "P09"
NEEDS = "a join of three or more edges (or a nested join) at which two different predecessors bring the same value and one another"
BREAKS = "at a join, a value that reaches it from several predecessors is selected under the condition of only the last of them"
EDITS = [("metalift/frontend/llvm.py",
'''                            for preconds in all_preconds:
                                if len(preconds) >= 1:
                                    all_aggregated_preconds.append(
                                        and_objects(*preconds)
                                    )
''',
'''                            for preconds in all_preconds:
                                if len(preconds) >= 1:
                                    all_aggregated_preconds = [
                                        and_objects(*preconds)
                                    ]
''')]
STUB = open("/verif/tools/seeds/_llstub.txt").read()
FILES = {"llvc.py": open("/verif/tools/seeds/_llvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from llvc import analyse, counterexample

LL = """
define i32 @f(i32 %a) {
entry:
  %x = alloca i32, align 4
  store i32 7, i32* %x, align 4
  %c = icmp sgt i32 %a, 2
  br i1 %c, label %t, label %f
t:
  store i32 2, i32* %x, align 4
  br label %end
f:
  %c2 = icmp sgt i32 %a, 1
  br i1 %c2, label %ft, label %ff
ft:
  store i32 1, i32* %x, align 4
  br label %end
ff:
  store i32 1, i32* %x, align 4
  br label %end
end:
  %r = load i32, i32* %x, align 4
  ret i32 %r
}
"""
d = analyse(LL, "f", [("a", Int)])
right = {"f_ps": lambda a, rv: rv == (2 if a > 2 else 1)}
assert counterexample(d, right) is None, counterexample(d, right)
wrong = {"f_ps": lambda a, rv: rv == 2}
assert counterexample(d, wrong) is not None
'''
