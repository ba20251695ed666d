PROPERTY = "P02"
NEEDS = "a let whose bound name is also used in the bound value, meaning the outer variable of that name"
BREAKS = "a let is printed as letrec, so the bound value refers to itself instead of to the outer variable"
EDITS = [("metalift/ir.py",
'''        return f"(let ([{self.args[0].to_rosette()} {let_expr}]) {self.args[2].to_rosette()})"
''',
'''        return f"(letrec ([{self.args[0].to_rosette()} {let_expr}]) {self.args[2].to_rosette()})"
''')]
DEMO = '''
import pyparsing
from metalift.ir import *

x, y = Var("x", Int), Var("y", Int)


def ev(t, env):
    if isinstance(t, str):
        return env[t]() if t in env else int(t)
    if t[0] in ("let", "let*", "letrec"):
        new = dict(env)
        for n, v in t[1]:
            scope = new if t[0] == "letrec" else env
            new[n] = lambda v=v, scope=scope: ev(v, scope)
        return ev(t[2], new)
    a = [ev(i, env) for i in t[1:]]
    return {"+": sum, "-": lambda a: a[0] - a[1], "*": lambda a: a[0] * a[1]}[t[0]](a)


def rosette(e):
    text = e.to_rosette().replace("[", "(").replace("]", ")")
    return pyparsing.nestedExpr("(", ")").parseString(text).asList()[0]


env = {"x": lambda: 5, "y": lambda: 7}
for e, want in ((Let(y, Add(x, IntLit(1)), Mul(y, y)), 36), (Let(x, Add(x, IntLit(1)), Mul(x, y)), 42), (Let(x, y, Sub(x, IntLit(2))), 5)):
    try:
        got = ev(rosette(e), env)
    except RecursionError:
        got = "no value"
    assert got == want, (e.to_rosette(), got, want)
'''
