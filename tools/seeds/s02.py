PROPERTY = "P07"
NEEDS = "slicing a matrix from the front (m[:k]) where the bound is a symbolic Int"
BREAKS = "m[:k] on a matrix builds a call of matrix_row_slice's list-only counterpart list_take"
EDITS = [("metalift/ir.py",
'''                if isinstance(stop, int):
                    stop = Int(stop)
                if self.is_matrix:
                    fn_name = "matrix_take"
                elif self.is_tensor3d:
                    fn_name = "tensor3d_take"
                else:
                    fn_name = "list_take"
''',
'''                fn_name = "list_take"
                if isinstance(stop, int):
                    stop = Int(stop)
                    if self.is_matrix:
                        fn_name = "matrix_take"
                if self.is_tensor3d:
                    fn_name = "tensor3d_take"
''')]
DEMO = '''
from metalift.ir import Int, List, Matrix

for k in (Int("k"), Int("k") + 1, 3):
    m = Matrix(Int, "m")
    assert m[:k].src.name() == "matrix_take", m[:k]
    v = List(Int, "v")
    assert v[:k].src.name() == "list_take", v[:k]
'''
