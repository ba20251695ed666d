PROPERTY = "P10"
NEEDS = "a do-while loop: its header is the first block of the body and not an exit, and a variable is stored only there"
BREAKS = "what the header of a loop stores is not among the variables the loop modifies unless the header also leaves the loop"
EDITS = [("metalift/frontend/llvm.py",
"""        for block in [self.header, *self.body, *self.exits, *self.latches]:
            for i in block.instructions:
""",
"""        # the header only evaluates the condition, which the exits cover
        for block in [*self.body, *self.exits, *self.latches]:
            for i in block.instructions:
""")]
STUB = open("/verif/tools/seeds/_llstub.txt").read()
FILES = {"llvc.py": open("/verif/tools/seeds/_llvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from llvc import analyse, counterexample

LL = """
define i32 @f(i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 0, i32* %i, align 4
  br label %body
body:
  %0 = load i32, i32* %i, align 4
  %add = add nsw i32 %0, 1
  store i32 %add, i32* %i, align 4
  br label %cond
cond:
  %1 = load i32, i32* %n.addr, align 4
  %2 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %2, %1
  br i1 %cmp, label %again, label %end
again:
  br label %body
end:
  %r = load i32, i32* %i, align 4
  ret i32 %r
}
"""
d = analyse(LL, "f", [("n", Int)], ["%body<header>,%cond<exiting>,%again<latch>"])
wrong = {"f_inv0": lambda *a: True, "f_ps": lambda n, rv: rv == 1}
assert counterexample(d, wrong) is not None, "a wrong summary passes"
'''
