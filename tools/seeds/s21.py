PROPERTY = "P17"
NEEDS = "a matrix (not vector) divided into a scalar through the generic helper"
BREAKS = "scalar / matrix builds the operator for matrix / scalar: the operands of the division change places"
EDITS = [("metalift/utils/tenspiler/tenspiler_common.py",
'''        return call_scalar_matrix_div(scalar, matrix_or_vec)
    else:
        return call_scalar_vec_div(scalar, matrix_or_vec)
''',
'''        return call_matrix_scalar_div(scalar, matrix_or_vec)
    else:
        return call_scalar_vec_div(scalar, matrix_or_vec)
''')]
DEMO = '''
from metalift.ir import *
from metalift.utils.tenspiler import tenspiler_common as T

x, v, m = Int("x"), create_object(List[Int], "v"), create_object(Matrix[Int], "m")
table = {f.name(): f for f in vars(T).values() if isinstance(f, (FnDecl, FnDeclRecursive))}


def operand_order(e):
    f = table[e.src.args[0]]
    divs = []

    def walk(n, params):
        if isinstance(n, Expr):
            if type(n) is Div:
                divs.append((str(n.args[0]), str(n.args[1])))
            if isinstance(n, Call) and n.args[0] in table and n.args[0] != f.name():
                g = table[n.args[0]]
                if g not in seen:
                    seen.append(g)
                    walk(g.body(), None)
            for a in n.args:
                walk(a, params)

    seen = []
    walk(f.body(), None)
    return divs


for arg in (v, m):
    forward = operand_order(T.call_scalar_div(x, arg))
    backward = operand_order(T.call_scalar_rdiv(x, arg))
    scalar = [p.args[0] for p in table[T.call_scalar_div(x, v).src.args[0]].arguments() if p.type == Int][0]
    assert forward and backward
    assert all(scalar not in a and scalar in b for a, b in forward), forward
    assert all(scalar in a and scalar not in b for a, b in backward), backward
'''
