PROPERTY = "P18"
NEEDS = "three or more rounds of guessing in one query"
BREAKS = "from the third round on only the answer of the round before is excluded, so an earlier candidate can come back"
EDITS = [("metalift/rosette_translator.py",
'''        for prev_i in range(i):
''',
'''        for prev_i in range(max(0, i - 2), i):
''')]
DEMO = '''
import re
from metalift.ir import *
from metalift.rosette_translator import generate_synth

x = Int("x").src
f = FnDeclRecursive("f", Int, x, x)
t = generate_synth("b", ["x"], 4, [f], [])
parts = t.split("(define sol")[1:]
assert len(parts) == 5
for i, p in enumerate(parts):
    seen = set(int(n) for n in re.findall(r"[(]evaluate [(]f x[)] sol([0-9]+)[)]", p))
    assert seen == set(range(i)), (i, seen)
'''
