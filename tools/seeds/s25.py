PROPERTY = "P15"
NEEDS = "taking zero elements of a non-empty list, in the solver"
BREAKS = "list_take of zero elements keeps one, which contradicts the axiom that nothing is left: every query that has a non-empty list becomes provable"
EDITS = [("metalift/utils/list-axioms.smt",
'''                (ite (<= end 0)
                     (= (list_take (cons h t) end) (as nil (MLList List_T1)))
''',
'''                (ite (< end 0)
                     (= (list_take (cons h t) end) (as nil (MLList List_T1)))
''')]
DEMO = '''
# a solver must not be able to derive a contradiction from what is said about taking elements and about length
import os, re, shutil, subprocess, tempfile


def forms(text):
    depth, start = 0, None
    for m in re.finditer(r";[^\\n]*|[()]", text):
        if m.group() == "(":
            if depth == 0:
                start = m.start()
            depth += 1
        elif m.group() == ")":
            depth -= 1
            if depth == 0:
                yield text[start:m.end()]


keep = []
for f in forms(open("metalift/utils/list-axioms.smt").read()):
    names = set(re.findall(r"\\b(?:list|matrix|vec|integer)_\\w+", f))
    if f.startswith(("(declare-datatypes", "(define-sort")) or names and names <= {"list_take", "list_length"}:
        keep.append(f)
assert any("list_take" in f for f in keep)
d = tempfile.mkdtemp()


def ask(goal):
    p = os.path.join(d, "q.smt2")
    with open(p, "w") as f:
        f.write("\\n".join(keep) + "(declare-const x (MLList List_T1))(assert (= x (list_take (cons 7 (as nil (MLList List_T1))) 0)))" + goal + "(check-sat)")
    return subprocess.run(["z3", "-T:40", p], capture_output=True, text=True).stdout.strip()


try:
    assert ask("(assert (not (= x (as nil (MLList List_T1)))))") == "unsat"
    assert ask("") != "unsat", "the axioms contradict each other"
finally:
    shutil.rmtree(d)
'''
