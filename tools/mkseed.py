"""dev: python3 tools/mkseed.py ID... : build and validate the planted bugs defined in tools/seeds/ID.py

A definition has PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text run against /repo).
The patch is written against /repo's HEAD; validation applies it to /repo and undoes it.
"""
import json, os, subprocess, sys, tempfile, shutil, runpy

V = "/verif"
STUB = '''class ValueRef:
    operands = blocks = arguments = instructions = ()
    name = ""


class TypeRef:
    elements = ()


class ModuleRef:
    pass


class value:
    pass


def parse_assembly(*a):
    raise NotImplementedError


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return lambda *a, **k: None
'''
SH = '''#!/bin/bash
# cwd: /repo. Runs demo.py against the source tree with a stand-in for llvmlite.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/stub:$PWD:/opt/venv/lib/pypy3.9/site-packages"
exec python3 -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(sid):
    d = runpy.run_path(f"{V}/tools/seeds/{sid}.py")
    out = f"{V}/seeded/{sid}"
    os.makedirs(out + "/stub/llvmlite", exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    try:
        for f, old, new in d["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git -C /repo diff").stdout
        open(out + "/patch.diff", "w").write(patch)
    finally:
        sh("git -C /repo checkout -- .")
    open(out + "/stub/llvmlite/__init__.py", "w").write("")
    open(out + "/stub/llvmlite/binding.py", "w").write(d.get("STUB", STUB))
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write(d.get("SH", SH))
    os.chmod(out + "/demo.sh", 0o755)
    for fn, txt in d.get("FILES", {}).items():
        open(out + "/" + fn, "w").write(txt)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    return d["PROPERTY"], out


def validate(sid, prop, out, checks):
    r0 = sh(f"bash {out}/demo.sh", cwd="/repo")
    msgs = ["clean demo %d" % r0.returncode]
    if r0.returncode:
        print(r0.stdout[-800:], r0.stderr[-1500:])
    try:
        assert sh(f"git -C /repo apply {out}/patch.diff").returncode == 0
        b = sh("bash /opt/vp/build.sh")
        msgs.append("build %d" % b.returncode)
        t = tempfile.mktemp()
        sh(f"bash /opt/vp/test.sh {t}")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        msgs.append("tests ok" if base <= set(json.load(open(t))["passed"]) else "TESTS FAIL")
        os.unlink(t)
        r1 = sh(f"bash {out}/demo.sh", cwd="/repo")
        msgs.append("patched demo %d %s" % (r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:]))
        for c in checks:
            r = sh(f"python3 {V}/check.py {c}", cwd=V)
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            msgs.append("%s exit %d %s" % (c, r.returncode, hit[:1]))
    finally:
        sh("git -C /repo checkout -- .")
    print(sid, prop, "|", " | ".join(msgs), flush=True)


for sid in sys.argv[1:]:
    extra = []
    if ":" in sid:
        sid, e = sid.split(":")
        extra = e.split(",")
    prop, out = make(sid)
    validate(sid, prop, out, [prop] + extra)
