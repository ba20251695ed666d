PROPERTY = "P04"
NEEDS = "two rounds of guessing: the first candidate fails verification and the second answer leaves a function out that the first one defined"
BREAKS = "a function that an answer leaves out keeps the definition of the previous round instead of the first candidate of its grammar"
EDITS = [("metalift/synthesize_rosette.py",
'''    while (
        exit_code := proc_synthesis.poll()
''',
'''    candidate_dict: Dict[str, Expr] = {}
    while (
        exit_code := proc_synthesis.poll()
'''),
("metalift/synthesize_rosette.py",
'''            candidate_dict = {}
            fnsType = generate_types(target_lang)
''',
'''            fnsType = generate_types(target_lang)
''')]
DEMO = '''
import os, stat, sys, tempfile, shutil

d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    os.chdir(d)
    os.mkdir("bin")

    def tool(name, text):
        with open("bin/" + name, "w") as f:
            f.write("#!/bin/sh\\n" + text)
        os.chmod("bin/" + name, 0o755)

    # round 0 defines f and g, round 1 only f
    tool("racket", """
printf '#t\\n/t.rkt:1:0\\n(define (f_ps x f_rv) (equal? f_rv 1))\\n/t.rkt:2:0\\n(define (g_ps x g_rv) (equal? g_rv 7))\\n' > synthesisLogs/t_sol0
printf '#t\\n/t.rkt:1:0\\n(define (f_ps x f_rv) (equal? f_rv 2))\\n' > synthesisLogs/t_sol1
""")
    tool("cvc", """
if [ -f once ]; then echo unsat; else touch once; echo sat; fi
""")
    os.environ["PATH"] = os.path.join(d, "bin") + ":" + os.environ["PATH"]
    import time
    time.sleep = lambda s: None
    from metalift.ir import *
    from metalift.synthesize_rosette import synthesize

    def choice(fn):
        rv = Int(fn + "_rv")
        body = choose(rv == Int(0), rv == Int(1), rv == Int(2), rv == Int(7))
        return Synth(fn + "_ps", body.src, Var("x", Int), Var(fn + "_rv", Int))

    f, g = choice("f"), choice("g")
    x, frv = Var("x", Int), Var("f_rv", Int)
    vc = And(Call("f_ps", Bool, x, frv), Call("g_ps", Bool, x, frv))
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        res = synthesize("t", [], {x, frv}, [f, g], [], vc, [f, g], os.path.join(d, "bin", "cvc"),
                         rounds_to_guess=1)
    finally:
        sys.stdout = out
    bodies = {c.name(): str(c.body()) for c in res}
    assert "2" in bodies["f_ps"], bodies
    assert "7" not in bodies["g_ps"], bodies
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
'''
