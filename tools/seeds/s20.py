PROPERTY = "P27"
NEEDS = "a Rosette run that prints a counterexample (or a warning) first and the text (unsat) on a later line"
BREAKS = "the answer of the Rosette verifier is looked for anywhere in its output instead of on its first line"
EDITS = [("llmlift_scripts/synthesis.py",
'''    if verification_output.stdout.decode("utf-8").split("\\n")[0] == "(unsat)":
        print("Verification successful")
''',
'''    if "(unsat)" in verification_output.stdout.decode("utf-8").split("\\n"):
        print("Verification successful")
''')]
DEMO = '''
import contextlib, io, os, pathlib, shutil, subprocess, sys, tempfile, types

for name in ("google", "google.generativeai", "openai", "anthropic", "dotenv"):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__getattr__ = lambda n: (lambda *a, **k: types.SimpleNamespace())
    sys.modules[name] = m
os.environ.update(OPENAI_API_KEY="x", CLAUDE_API_KEY="x", ANTHROPIC_API_KEY="x", GEMINI_API_KEY="x", BITWUZLA_PATH="/none")
import llmlift_scripts.synthesis as S
from metalift.ir import *

d = tempfile.mkdtemp()
S.SYNTHESIS_LOGS_DIR = pathlib.Path(d) / "logs"
out = []
real = subprocess.run
S.subprocess = types.SimpleNamespace(run=lambda *a, **k: types.SimpleNamespace(stdout="\\n".join(out).encode(), returncode=0))


class Tracker:
    def all(self):
        return [Var("x", Int)]


def verdict(*lines):
    out[:] = lines
    with contextlib.redirect_stdout(io.StringIO()):
        return S.verify_benchmark_rosette(
            driver=types.SimpleNamespace(var_tracker=Tracker()), benchmark_name="t", synthesized_fn_decls=[],
            in_calls=[], dsl_fns=[], vc=Eq(Var("x", Int), Lit(1, Int)))


try:
    assert verdict("(unsat)", "") is True
    assert verdict("(model", " [x 0])", "") is not True
    assert verdict("(model", " [x 0])", "(unsat)", "") is not True
finally:
    shutil.rmtree(d)
'''
