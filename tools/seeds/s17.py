PROPERTY = "P24"
NEEDS = "a two-way branch one of whose targets is the block of the branch itself"
BREAKS = "an edge from a block back to itself does not get a block of its own"
EDITS = [("llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp",
'''            if (op->isConditional())
''',
'''            if (op->isConditional() && op->getSuccessor(0) != &B && op->getSuccessor(1) != &B)
''')]
SH = '''#!/bin/bash
# cwd: /repo, after the build
exec python3 "$(dirname "$0")/demo.py"
'''
DEMO = '''
import os, re, shutil, subprocess, tempfile

LIB = "llvm-pass/build/addEmptyBlocks/libAddEmptyBlocksPass.so"
d = tempfile.mkdtemp()


def blocks(ll):
    p = os.path.join(d, "t.ll")
    with open(p, "w") as f:
        f.write(ll)
    r = subprocess.run(["opt-14", "-enable-new-pm=0", "-load", os.path.abspath(LIB), "-addEmptyBlock", "-S", p],
                       capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    out, cur = {}, None
    for l in r.stdout.split("\\n"):
        m = re.match(r"([-\\w.]+):", l)
        if m:
            cur = m.group(1)
            out[cur] = []
        elif cur and l.startswith("  "):
            out[cur].append(l.strip())
    return out


def split(ll):
    bs = blocks(ll)
    for b, ins in bs.items():
        m = re.match(r"br i1 [^,]+, label %([-\\w.]+), label %([-\\w.]+)", ins[-1])
        if m:
            for t in m.groups():
                if len(bs[t]) != 1 or not bs[t][0].startswith("br label"):
                    return False
            if m.group(1) == m.group(2):
                return False
    return True


try:
    assert split("define void @f(i1 %c) {\\nentry:\\n  br i1 %c, label %a, label %b\\na:\\n  br label %b\\nb:\\n  ret void\\n}\\n")
    assert split("define void @f(i1 %c) {\\nentry:\\n  br label %a\\na:\\n  br i1 %c, label %a, label %b\\nb:\\n  ret void\\n}\\n")
finally:
    shutil.rmtree(d)
'''
