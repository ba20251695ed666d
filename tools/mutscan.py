r"""dev: python3 tools/mutscan.py FILE 'Qual.regex' P08 P09 ... [--max N]: mutate every statement/expression of the matching
functions, run the checks on each mutant, and list the mutants that no check reports"""
import ast
import warnings
warnings.simplefilter("ignore")
import concurrent.futures as cf
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

args = sys.argv[1:]
mx = 10 ** 6
if "--max" in args:
    k = args.index("--max")
    mx = int(args[k + 1])
    del args[k:k + 2]
F, Q, *PS = args
SRC = open(os.path.join("/repo", F)).read()
TREE = ast.parse(SRC)
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.And: ast.Or, ast.Or: ast.And, ast.BitOr: ast.BitAnd}


def funcs(t, pre=""):
    for n in ast.iter_child_nodes(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = pre + n.name
            if isinstance(n, ast.FunctionDef) and re.search(Q, q):
                yield q, n
            yield from funcs(n, q + ".")
        elif isinstance(n, (ast.If, ast.Try)):
            yield from funcs(n, pre)
        elif isinstance(t, ast.Module) and isinstance(n, (ast.Assign, ast.AnnAssign)):
            q = "@" + ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target)
            if re.search(Q, q):
                yield q, n


def sites():
    out = []
    for q, fn in funcs(TREE):
        skip = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print") or isinstance(n, (ast.Assert, ast.arguments)):
                skip |= {id(x) for x in ast.walk(n) if x is not n}
            if isinstance(n, ast.AnnAssign):
                skip |= {id(x) for x in ast.walk(n.annotation)}
        for n in ast.walk(fn):
            if id(n) in skip or isinstance(n, ast.Assert):
                continue
            if isinstance(n, ast.stmt) and n is not fn and not isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
                    continue
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    continue
                out.append((q, n, "del"))
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                out.append((q, n, "neg"))
            if isinstance(n, ast.If) and n.orelse:
                out.append((q, n, "noelse"))
            if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
                out.append((q, n, "cmp"))
            if isinstance(n, ast.BinOp):
                if type(n.op) in SWAP:
                    out.append((q, n, "op"))
                out.append((q, n, "swapop"))
                out.append((q, n, "left"))
                out.append((q, n, "right"))
            if isinstance(n, ast.BoolOp):
                out.append((q, n, "op"))
                for k in range(len(n.values)):
                    out.append((q, n, "drop%d" % k))
            if isinstance(n, ast.Call):
                if getattr(n.func, "id", "") in ("print", "isinstance", "cast"):
                    continue
                if len(n.args) >= 2:
                    out.append((q, n, "swapargs"))
                if len(n.args) >= 3:
                    out.append((q, n, "swapargs2"))
                if n.args and getattr(n.func, "id", "") in ("and_objects", "or_objects", "and_exprs", "or_exprs", "call"):
                    for k in range(len(n.args)):
                        out.append((q, n, "droparg%d" % k))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and n.value is not None:
                out.append((q, n, "const"))
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 30:
                out.append((q, n, "str"))
            if isinstance(n, ast.UnaryOp):
                out.append((q, n, "unop"))
            if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
                out.append((q, n, "swapelts"))
    return out


def apply(i):
    t = ast.parse(SRC)
    nodes = {}
    for a, b in zip(ast.walk(TREE), ast.walk(t)):
        nodes[id(a)] = b
    q, n0, kind = SITES[i]
    n = nodes[id(n0)]
    par = {}
    for p in ast.walk(t):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        par[id(x)] = (p, f, k)
            elif isinstance(v, ast.AST):
                par[id(v)] = (p, f, None)

    def rep(new):
        p, f, k = par[id(n)]
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[k] = new
    if kind == "del":
        rep(ast.Pass())
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "noelse":
        n.orelse = []
    elif kind == "cmp":
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == "op":
        n.op = SWAP[type(n.op)]()
    elif kind == "swapop":
        n.left, n.right = n.right, n.left
    elif kind == "left":
        rep(n.left)
    elif kind == "right":
        rep(n.right)
    elif kind.startswith("drop") and not kind.startswith("droparg"):
        del n.values[int(kind[4:])]
        if len(n.values) == 1:
            rep(n.values[0])
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "swapargs2":
        n.args[1], n.args[2] = n.args[2], n.args[1]
    elif kind.startswith("droparg"):
        del n.args[int(kind[7:])]
    elif kind == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind == "str":
        n.value = n.value + "X"
    elif kind == "unop":
        rep(n.operand)
    elif kind == "swapelts":
        n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
    return ast.unparse(ast.fix_missing_locations(t))


def run(i):
    q, n, kind = SITES[i]
    src = apply(i)
    d = tempfile.mkdtemp(prefix="mutscan-")
    try:
        subprocess.run(["cp", "-a", "/repo/metalift", "/repo/llmlift_scripts", "/repo/llvm-pass", d], check=False, stderr=subprocess.DEVNULL)
        for extra in os.listdir("/repo"):
            if not os.path.exists(os.path.join(d, extra)) and extra != ".git":
                os.symlink(os.path.join("/repo", extra), os.path.join(d, extra))
        open(os.path.join(d, F), "w").write(src)
        codes = []
        for p in PS:
            t0 = __import__("time").time()
            r = subprocess.run([sys.executable, "/verif/check.py", p], env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d), capture_output=True, text=True)
            codes.append(r.returncode)
            if __import__("time").time() - t0 > 400:
                print("SLOW", q, n.lineno, kind, p, flush=True)
            if r.returncode == 1:
                break
        return i, codes
    finally:
        shutil.rmtree(d)


SITES = sites()
if __name__ == "__main__":
    base = ast.unparse(TREE)
    idx = list(range(len(SITES)))
    random.Random(1).shuffle(idx)
    idx = [i for i in idx[:mx]]
    caught = odd = 0
    surv = []
    with cf.ThreadPoolExecutor(8) as ex:
        for i, codes in ex.map(run, idx):
            q, n, kind = SITES[i]
            if codes and codes[-1] == 1:
                caught += 1
            else:
                surv.append((q, n.lineno, kind, ast.unparse(n).split("\n")[0][:110], codes))
    for s in sorted(surv, key=lambda s: (s[0], s[1])):
        print(*s)
    print("mutants %d caught %d survived %d" % (len(idx), caught, len(surv)))
