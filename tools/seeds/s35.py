PROPERTY = "P25"
NEEDS = "a push_back whose vector and whose element are not both registers or both behind pointers (metalift.models)"
BREAKS = "the element is looked up where the vector lives, so another value (or none) is appended"
EDITS = [("metalift/models.py",
'''        primitive_vars[args[1].name]
        if not args[1].type.is_pointer
        else pointer_vars[args[1].name],
    )
    return ReturnValue(
        None,
''',
'''        primitive_vars[args[1].name]
        if not args[0].type.is_pointer
        else pointer_vars[args[1].name],
    )
    return ReturnValue(
        None,
''')]
DEMO = '''
from metalift.ir import *
from metalift.ir import List as mlList
from metalift.models import fn_models


class Ref:
    def __init__(self, text):
        self.text = text
        self.is_pointer = text.endswith("*")

    def __str__(self):
        return self.text


class Arg:
    def __init__(self, name, type):
        self.name = name
        self.type = Ref(type)


l, m, i, p = mlList(Int, "l"), mlList(Int, "m"), Int("i"), Int("p")
regs, ptrs = {"a": l, "b": i}, {"a": m, "b": p}
for tb in ("i32", "i32*"):
    (name, val, kind), = fn_models["push_back"](regs, ptrs, {}, Arg("a", "%struct.list*"), Arg("b", tb)).assigns
    want = "(list_append m %s)" % ("p" if tb == "i32*" else "i")
    assert (name, val.src.toSMT()) == ("a", want), (val.src.toSMT(), want)
'''
