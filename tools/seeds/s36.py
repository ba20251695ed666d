PROPERTY = "P19"
NEEDS = "a process that has loaded more than ten LLVM files declaring the list class, so that llvmlite numbers the type with two digits"
BREAKS = "the List type of the later files, numbered .10 and up, is no longer read as a list of integers"
EDITS = [("metalift/ir.py",
'''    elif re.match('%"class.std::__1::List(\\.\\d+)?"*', ty_str):
''',
'''    elif re.match(r'%"class.std::__1::List(\\.\\d)?"\\*', ty_str):
''')]
DEMO = '''
from metalift.ir import *
from metalift.ir import List as mlList


class Ref:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


for n in ["", ".0", ".7", ".10", ".23"]:
    t = parse_type_ref_to_obj(Ref('%"class.std::__1::List' + n + '"*'))
    assert t == mlList[Int], (n, t)
'''
