PROPERTY = "P25"
NEEDS = "a program that pushes a matrix onto a vector of matrices (three nested vectors)"
BREAKS = "push_back on a three-dimensional vector is modelled by the list built-in, whose solver sort and back-end behaviour are those of a list of integers"
EDITS = [("metalift/frontend/llvm.py",
'''        fn_name = "matrix_append"
    elif lst.is_tensor3d:
        fn_name = "tensor3d_append"
    else:
''',
'''        fn_name = "matrix_append"
    else:
''')]
DEMO = '''
from metalift.ir import Int, List, Matrix, Tensor3D, create_object
from metalift.frontend.llvm import vector_append


class Arg:
    def __init__(self, name):
        self.name = name


class State:
    def __init__(self, vals):
        self.vals = vals

    def read_or_load_operand(self, a):
        return self.vals[a.name]

    def get_var_location(self, name):
        return "pointer"


import metalift.frontend.llvm as m
if hasattr(m, "check_tracked_location"):
    m.check_tracked_location = lambda a: None
for ty, elem, fn in ((List[Int], Int, "list_append"), (Matrix[Int], List[Int], "matrix_append"),
                     (Tensor3D[Int], Matrix[Int], "tensor3d_append")):
    s = State({"l": create_object(ty, "l"), "x": create_object(elem, "x")})
    r = vector_append(s, {}, "std::vector::push_back", Arg("l"), Arg("x"))
    (name, val, loc), = r.assigns
    assert name == "l" and val.src.args[0] == fn, (ty, val.src)
    assert [a.args[0] for a in val.src.args[1:]] == ["l", "x"]
'''
