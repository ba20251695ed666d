PROPERTY = "P23"
NEEDS = "a function with nested loops (LLVM indents the line of an inner loop)"
BREAKS = "inner loops are missing from the loops of the function, so they are analysed without an invariant"
EDITS = [("metalift/analysis.py",
'''                loopMatch = re.match("Loop at depth \\d+ containing: (\\S+)", l.strip())
''',
'''                loopMatch = re.match(r"Loop at depth \\d+ containing: (\\S+)", l.rstrip())
''')]
DEMO = '''
import os, shutil, tempfile

d = tempfile.mkdtemp()
try:
    from metalift.analysis import parseLoops

    def loops(text):
        p = os.path.join(d, "l")
        with open(p, "w") as f:
            f.write(text)
        return [(l.header, l.body, l.exits, l.latches) for l in parseLoops(p, "f", log=False)]

    H = "Printing analysis 'Natural Loop Information' for function '%s':\\n"
    one = "Loop at depth 1 containing: %a<header><exiting>,%b,%c<latch>\\n"
    two = "    Loop at depth 2 containing: %d<header><exiting>,%e<latch>\\n"
    A, B = (["a"], ["b"], ["a"], ["c"]), (["d"], [], ["d"], ["e"])
    assert loops(H % "f" + one) == [A]
    assert loops(H % "g" + one + H % "f") == []
    assert loops(H % "g" + two + H % "f" + one + two) == [A, B], loops(H % "f" + one + two)
finally:
    shutil.rmtree(d)
'''
