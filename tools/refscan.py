"""dev: python3 tools/refscan.py [TRANSFORM ...] [--checks P01,P02] : rewrites every module of a copy of /repo by
behaviour-preserving transformations and runs the checks on it; every check must stay quiet."""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

N = [0]
def fresh(p="tmp"):
    N[0] += 1
    return "_%s%d" % (p, N[0])
def name(n, ctx=None): return ast.Name(n, ctx or ast.Load())
def assign(n, v): return ast.Assign([name(n, ast.Store())], v, lineno=0)

class Stmts(ast.NodeTransformer):
    """base: rewrites statements inside functions only"""
    depth = 0
    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, n): return n

class Plain(ast.NodeTransformer): pass

class ReturnTemp(Stmts):
    def visit_Return(self, n):
        if not self.depth or n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        t = fresh("result")
        return [assign(t, n.value), ast.Return(name(t))]

class FlipIf(Stmts):
    def visit_If(self, n):
        self.generic_visit(n)
        if not self.depth or not n.orelse: return n
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)): return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

class CondTemp(Stmts):
    """if c: -> flag = c; if flag:   (not for elif)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not self.depth or isinstance(n.test, ast.Name): return n
        t = fresh("cond")
        return [assign(t, n.test), ast.If(name(t), n.body, n.orelse)]
    # narrowing is not needed at run time

class LoopEnum(Stmts):
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.depth: return n
        t = fresh("item")
        n.body = [ast.Assign([n.target], name(t), lineno=0)] + n.body
        n.target = name(t, ast.Store())
        return n

class Comp(Stmts):
    """x = [e for v in it if c] / return [..] -> loop"""
    def expand(self, v):
        g = v.generators[0]
        if len(v.generators) != 1 or g.is_async: return None
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr)) for x in ast.walk(v) if x is not v): return None
        m = {}
        class Ren(ast.NodeTransformer):
            def visit_Name(s, x):
                return name(m[x.id], x.ctx) if x.id in m else x
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name): m[x.id] = fresh(x.id)
        acc = fresh("acc")
        r = Ren()
        target = r.visit(copy.deepcopy(g.target))
        body = [ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [r.visit(copy.deepcopy(v.elt))], []))]
        for c in reversed(g.ifs):
            body = [ast.If(r.visit(copy.deepcopy(c)), body, [])]
        return acc, [assign(acc, ast.List([], ast.Load())), ast.For(target, g.iter, body, [], lineno=0)]
    def visit_Assign(self, n):
        if self.depth and isinstance(n.value, ast.ListComp):
            e = self.expand(n.value)
            if e: return e[1] + [ast.Assign(n.targets, name(e[0]), lineno=0)]
        return n
    def visit_Return(self, n):
        if self.depth and isinstance(n.value, ast.ListComp):
            e = self.expand(n.value)
            if e: return e[1] + [ast.Return(name(e[0]))]
        return n

class FStr(ast.NodeTransformer):
    """f"a{x}b" -> "a{}b".format(x)"""
    def visit_JoinedStr(self, n):
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant): fmt += str(v.value).replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None or v.conversion != -1: return n
                fmt += "{}"
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])

class FConcat(ast.NodeTransformer):
    """f"a{x}b" -> "a" + str(x) + "b" """
    def visit_JoinedStr(self, n):
        out = ast.Constant("")
        for v in n.values:
            if isinstance(v, ast.Constant): e = v
            else:
                if v.format_spec is not None or v.conversion != -1: return n
                e = ast.Call(name("str"), [self.visit(v.value)], [])
            out = ast.BinOp(out, ast.Add(), e)
        return out

class IfExp(Stmts):
    """x = a if c else b -> if"""
    def visit_Assign(self, n):
        if self.depth and isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body, lineno=0)], [ast.Assign(n.targets, v.orelse, lineno=0)])
        return n
    def visit_Return(self, n):
        if self.depth and isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n

class Extract(ast.NodeTransformer):
    """every function/method without yields, super() or nested scopes becomes a call of a helper with its body"""
    def __init__(self): self.cls = []
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.body = self.block(n.body)
        self.cls.pop()
        return n
    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef): out.append(self.visit(s))
            elif isinstance(s, ast.FunctionDef): out += self.fn(s)
            else: out.append(s)
        return out
    def fn(self, n):
        a = n.args
        if n.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or len(n.body) < 2: return [n]
        if n.name.startswith("__"): return [n]
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals"): return [n]
        h = copy.deepcopy(n)
        h.name = "_%s_impl" % n.name
        h.args.defaults = []
        ps = [x.arg for x in a.args]
        if self.cls:
            if not ps or ps[0] != "self": return [n]
            call = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(p) for p in ps[1:]], [])
        else:
            call = ast.Call(name(h.name), [name(p) for p in ps], [])
        n.body = [ast.Return(call)]
        return [h, n]

class Split(ast.NodeTransformer):
    """the tail of a function after its first half (straight prefix of simple assignments) -- keyword arguments for positional self-calls are not touched"""

class Nest(Stmts):
    """if c: return a ; rest -> if c: return a else: rest"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                rest = self.fix(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not any(isinstance(x, (ast.FunctionDef, ast.Nonlocal, ast.Global)) for b in n.body for x in ast.walk(b)):
            n.body = self.fix(n.body)
        return n

class Unnest(Stmts):
    """if c: ...return else: rest -> if c: ...return ; rest"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and s is body[-1]:
                out.append(ast.If(s.test, s.body, []))
                out += self.fix(s.orelse)
            else: out.append(s)
        return out
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fix(n.body)
        return n

class ArgTemp(Stmts):
    """f(g(x), y) as a statement / assignment / return: arguments that are calls are computed first"""
    def lift(self, call):
        if not isinstance(call, ast.Call) or not isinstance(call.func, ast.Name): return [], call
        pre, args = [], []
        ok = all(not isinstance(a, ast.Starred) for a in call.args)
        if not ok: return [], call
        for a in call.args:
            if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.JoinedStr)):
                t = fresh("arg"); pre.append(assign(t, a)); args.append(name(t))
            elif isinstance(a, (ast.Name, ast.Constant)): args.append(a)
            else:
                return [], call
        return pre, ast.Call(call.func, args, call.keywords)
    def visit_Return(self, n):
        if self.depth and n.value is not None:
            p, c = self.lift(n.value); return p + [ast.Return(c)]
        return n
    def visit_Assign(self, n):
        if self.depth:
            p, c = self.lift(n.value); return p + [ast.Assign(n.targets, c, lineno=0)]
        return n

class Rename(ast.NodeTransformer):
    """local variables (not parameters, not nonlocal/global, functions without nested scopes) get other names"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Import, ast.ImportFrom)): return n
        ps = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc: x.id = "renamed_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc: x.name = "renamed_" + x.name
        return n

class WhileIdx(Stmts):
    """for x in xs: (no continue) -> it = iter; while with index over list(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not self.depth or n.orelse: return n
        def conts(b):
            for s in b:
                if isinstance(s, ast.Continue): return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef)): continue
                for f in ("body", "orelse", "finalbody"):
                    if conts(getattr(s, f, [])): return True
                for h in getattr(s, "handlers", []):
                    if conts(h.body): return True
            return False
        if conts(n.body): return n
        xs, i = fresh("seq"), fresh("i")
        return [assign(xs, ast.Call(name("list"), [n.iter], [])), assign(i, ast.Constant(0)),
                ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [name(xs)], [])]),
                          [ast.Assign([n.target], ast.Subscript(name(xs), name(i), ast.Load()), lineno=0)] + n.body +
                          [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]

class WhileTrue(WhileIdx):
    """... -> while True with a break in front"""
    def visit_For(self, n):
        r = super().visit_For(n)
        if isinstance(r, list):
            w = r[2]
            w.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], []))
            w.test = ast.Constant(True)
        return r

class AndNest(Stmts):
    """if a and b: X -> if a: if b: X (no else)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.depth and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            return ast.If(vs[0], [ast.If(rest, n.body, [])], [])
        return n

class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.Expr(ast.Constant(None)))
        n.body.insert(i, ast.Assert(ast.Constant(True), None))
        return n

class KwCalls(ast.NodeTransformer):
    """not isinstance -> isinstance is False etc."""
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Call) and isinstance(n.operand.func, ast.Name) and n.operand.func.id == "isinstance":
            return ast.Compare(n.operand, [ast.Is()], [ast.Constant(False)])
        return n

class Sorted(ast.NodeTransformer):
    """class members and module functions keep their order; keyword arguments are reversed"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n

class LocalFn(Stmts):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], e], []) for e in n.args[1].elts])
        return n

T = {c.__name__: c for c in (Plain, ReturnTemp, FlipIf, CondTemp, LoopEnum, Comp, FStr, FConcat, IfExp, Extract, Nest, Unnest, ArgTemp, Rename, WhileIdx, WhileTrue, AndNest, Noop, KwCalls, Sorted, LocalFn)}

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = next((a.split("=", 1)[1].split(",") for a in sys.argv[1:] if a.startswith("--checks=")), None)
    files = next((a.split("=", 1)[1] for a in sys.argv[1:] if a.startswith("--files=")), None)
    allc = sorted(f[:3].upper() for f in os.listdir("/verif/sa/checks") if f.startswith("p") and f.endswith(".py"))
    for t in args or list(T):
        d = tempfile.mkdtemp(prefix="refscan-")
        try:
            subprocess.run("cd /repo && git archive HEAD | tar -x -C " + d, shell=True, check=True)
            for top in ("metalift", "llmlift_scripts"):
                for r, _, fs in os.walk(os.path.join(d, top)):
                    for f in fs:
                        p = os.path.join(r, f)
                        if not f.endswith(".py") or files and files not in p: continue
                        m = ast.parse(open(p).read())
                        m = ast.fix_missing_locations(T[t]().visit(m))
                        open(p, "w").write(ast.unparse(m))
            ev = os.path.join(d, "ev"); os.mkdir(ev)
            def one(c):
                try:
                    r = subprocess.run([sys.executable, "/verif/check.py", c], env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=ev), capture_output=True, text=True, timeout=900)
                    out, rc = r.stdout.strip().splitlines(), r.returncode
                except subprocess.TimeoutExpired:
                    out, rc = ["timeout"], "timeout"
                und = [l for l in out if "undecided" in l]
                return c, rc, [l.strip()[:230] for l in out if "rule instance" in l or l.startswith("ERROR")][:3], und[-1:] 
            with ThreadPoolExecutor(6) as ex:
                for c, rc, bad, und in ex.map(one, checks or allc):
                    if rc != 0 or " 0 undecided" not in str(und):
                        print(t, c, rc, *bad, und, sep="\n      ", flush=True)
            print(t, "done", flush=True)
        finally:
            shutil.rmtree(d)
main()
