PROPERTY = "P05"
NEEDS = "a higher-order function whose call is nested inside an argument of a call of the same function"
BREAKS = ("augment_arguments no longer looks inside the arguments of a call it extends, so f(f(x)) gets its "
          "extra argument on the outer call only")
EDITS = [("metalift/smt_util.py",
'''        for arg in expr.arguments():
            processed_args.append(
                augment_arguments(
                    expr=arg,
                    fn_name=fn_name,
                    new_args=new_args,
                    start_index=start_index,
                )
            )
''',
'''        for arg in expr.arguments():
            if expr.name() == fn_name:
                processed_args.append(arg)
                continue
            processed_args.append(
                augment_arguments(
                    expr=arg,
                    fn_name=fn_name,
                    new_args=new_args,
                    start_index=start_index,
                )
            )
''')]
DEMO = '''
from metalift.ir import Call, Int, Var
from metalift.smt_util import augment_arguments

x, y = Var("x", Int), Var("y", Int)
e = Call("f", Int, Call("f", Int, x))
r = augment_arguments(expr=e, fn_name="f", new_args=[y], start_index=1)
names = [a.name() for a in r.arguments()]
inner = [a.name() for a in r.arguments()[0].arguments()]
assert names == ["f", "y"], names
assert inner == ["x", "y"], inner
'''
