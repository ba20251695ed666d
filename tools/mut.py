"""dev: python3 tools/mut.py FILE OLD NEW P01 P02 ... : run checks on a mutated copy"""
import os, shutil, subprocess, sys, tempfile
f, old, new, *ps = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut-")
try:
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    n = s.count(old)
    assert n >= 1, "old text not found"
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    for q in ps:
        r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if "rule instance" in l]
        print(q, "exit", r.returncode, "%d violations" % len(out), (out[:3] if out else r.stdout.splitlines()[-1:]))
finally:
    shutil.rmtree(d)
