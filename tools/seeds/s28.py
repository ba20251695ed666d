PROPERTY = "P20"
NEEDS = "taking the difference of two sets (a method call few programs make)"
BREAKS = "the method reads a name that does not exist, so it raises NameError instead of building the difference"
EDITS = [("metalift/ir.py",
'''        return call("set-minus", self.type, self, s)  # type: ignore
''',
'''        return call("set-minus", self.type, self, other)  # type: ignore
''')]
DEMO = '''
from metalift.ir import *

a, b = create_object(Set[Int], "a"), create_object(Set[Int], "b")
e = a.difference(b).src
assert e.args[0] == "set-minus" and [x.args[0] for x in e.args[1:]] == ["a", "b"]
'''
