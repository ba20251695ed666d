PROPERTY = "P13"
NEEDS = "a verifier that prints an error line and then answers unsat for what is left of the query"
BREAKS = "the verifier's last answer is believed instead of its first line, so a query the solver could not read in full counts as verified"
EDITS = [("metalift/synthesis_common.py",
'''            resultVerify = procOutput.decode("utf-8").split("\\n")[0]
''',
'''            answers = [
                line for line in procOutput.decode("utf-8").split("\\n") if line.strip()
            ]
            resultVerify = answers[-1] if answers else ""
''')]
DEMO = '''
import contextlib, io, os, shutil, tempfile

d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    os.chdir(d)
    os.mkdir("logs")
    from metalift.ir import *
    from metalift.synthesis_common import verify_synth_result

    def verdict(*lines):
        with open("cvc", "w") as f:
            f.write("#!/bin/sh\\ncat <<'X'\\n" + "\\n".join(lines) + "\\nX\\n")
        os.chmod("cvc", 0o755)
        x = Var("x", Int)
        f = FnDeclRecursive("f_ps", Bool, Eq(x, Lit(1, Int)), x)
        s = Synth("f_ps", Eq(x, Lit(1, Int)), x)
        with contextlib.redirect_stdout(io.StringIO()):
            r, logs = verify_synth_result("t", [], {x}, [], Call("f_ps", Bool, x), [s], os.path.join(d, "cvc"),
                                          "logs/", [f], {"f_ps": f.body()}, {"f_ps": f.type}, 0)
        return r

    assert verdict("unsat") == "unsat"
    assert verdict("sat") != "unsat"
    assert verdict("(error oops)", "unsat") != "unsat"
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
'''
