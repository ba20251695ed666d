PROPERTY = "P12"
NEEDS = "two calls of one LLVM function on one driver, or two drivers, in one process"
BREAKS = "the shared default of the invariant's overriding arguments is filled by the first analysis and used by the next"
EDITS = [("metalift/frontend/llvm.py",
'''            inv = self.pred_tracker.invariant(
                inv_name=inv_name,
                args=override_args or args,
                writes=havocs,
                reads=self.fn_args,
                in_scope=in_scope_objs,
                grammar=inv_grammar.func if inv_grammar else None,
            )
''',
'''            if not override_args:
                override_args += args
            inv = self.pred_tracker.invariant(
                inv_name=inv_name,
                args=override_args,
                writes=havocs,
                reads=self.fn_args,
                in_scope=in_scope_objs,
                grammar=inv_grammar.func if inv_grammar else None,
            )
''')]
STUB = open("/verif/tools/seeds/_llstub.txt").read()
FILES = {"llvc.py": open("/verif/tools/seeds/_llvc.txt").read()}
DEMO = '''
from metalift.ir import Int
from llvc import analyse

LL = """
define i32 @f(i32 %n) {
entry:
  %VAR = alloca i32, align 4
  store i32 0, i32* %VAR, align 4
  br label %cond
cond:
  %0 = load i32, i32* %VAR, align 4
  %cmp = icmp slt i32 %0, %n
  br i1 %cmp, label %body, label %end
body:
  %add = add nsw i32 %0, 1
  store i32 %add, i32* %VAR, align 4
  br label %cond
end:
  %r = load i32, i32* %VAR, align 4
  ret i32 %r
}
"""


def args(var):
    d = analyse(LL.replace("VAR", var), "f", [("n", Int)], ["%cond<header><exiting>,%body<latch>"])
    return [a.var_name() for a in d.pred_tracker.predicates["f_inv0"].args]


assert sorted(args("i")) == ["i", "n"]
assert sorted(args("j")) == ["j", "n"], args("j")
'''
