"""The parser of model answers under analysis: the text it hands to mypy is parsed here into abstract mypy nodes with the
types mypy gives them, the repository's translation is interpreted over them."""
from __future__ import annotations

import ast

from .irh import IRH
from .pyfront import KINDS, PyFront
from .values import *  # noqa: F401,F403
from .world import World

LP = "llmlift_scripts.parser"
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>", ast.BitXor: "^", ast.MatMult: "@"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
KINDS_ = [Ext("mypy.nodes." + n) for n in ("ARG_POS", "ARG_OPT", "ARG_STAR", "ARG_NAMED", "ARG_STAR2", "ARG_NAMED_OPT")]
KINDS.setdefault("IfStmt", ("visit_if_stmt", []))


def pytype(e):
    """annotation -> 'int' | 'bool' | 'any' | ('list', t) | ('fn', (args), ret)"""
    if e is None:
        return "any"
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return pytype(ast.parse(e.value, mode="eval").body)
    if isinstance(e, ast.Name):
        return {"int": "int", "bool": "bool", "Any": "any", "str": "str", "float": "float", "list": ("list", "any"), "List": ("list", "any")}[e.id]
    if isinstance(e, ast.Subscript):
        n = e.value.id
        if n in ("List", "list"):
            return ("list", pytype(e.slice))
        if n == "Callable":
            a, r = e.slice.elts
            return ("fn", tuple(pytype(x) for x in a.elts), pytype(r))
    raise KeyError(ast.unparse(e))


class LLMFront(PyFront):
    def __init__(self, ctx, **world):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = it = ctx.it
        self.world = World(it, **world)
        it.ext_method = self.ext_method
        it.ext_models["dotenv.load_dotenv"] = lambda it_, a, kw: TRUE
        for n in ("openai.OpenAI", "anthropic.Anthropic"):
            it.ext_models[n] = lambda it_, a, kw, n=n: it_.new_inst(Ext(n), {})
        it.ext_models["os.getenv"] = lambda it_, a, kw: K("/opt/" + a[0].v.lower())

        def source(it_, a, kw):
            names = ["path", "module", "text"]
            f = {k: v for k, v in zip(names, a)}
            f.update(kw)
            return it_.new_inst(Ext("mypy.modulefinder.BuildSource"), {n: f.get(n, NONE) for n in names})
        it.ext_models["mypy.modulefinder.BuildSource"] = source
        it.ext_models["mypy.options.Options"] = lambda it_, a, kw: it_.new_inst(Ext("mypy.options.Options"), {})
        it.ext_models["mypy.build.build"] = self.build
        it.load_module(LP)
        self.begin()
        self.asked = []
        self.problem = None

    # ------------------------------------------------------------ what mypy answers
    def build(self, it, a, kw):
        srcs = kw.get("sources", a[0] if a else None)
        graph = []
        own = None
        for s in it.iter_items(srcs):
            f = it.get(s).fields
            mod, text = f["module"].v, f["text"]
            if text == NONE:
                p = [x for x in self.world.files if x.endswith(mod.replace(".", "/") + ".py")]
                t = self.world.text(p[0]) if p else None
            else:
                t = text.v if isinstance(text, K) else None
            if t is None:
                raise TypeError("the text of module %s is not known" % mod)
            self.asked.append((mod, t))
            own = (mod, t, own)
        mods = []
        while own:
            mods.append(own[:2])
            own = own[2]
        mods.reverse()
        self.begin()
        env = {}
        trees = {}
        # the dsl module comes second; its functions are known to the solution
        for mod, t in sorted(mods, key=lambda x: x[0] == "target_code"):
            try:
                trees[mod] = self.module(t, env)
            except SyntaxError as e:
                raise it.exc("mypy.errors.CompileError", "syntax error: %s" % e)
        g = it.alloc(HDict([(K(m), it.new_inst(Ext("mypy.build.State"), {"tree": it.new_inst(Ext("mypy.nodes.MypyFile"), {"defs": it.new_list(d)})})) for m, d in trees.items()]))
        return it.new_inst(Ext("mypy.build.BuildResult"), {"graph": g, "types": it.alloc(HDict(list(self.types))), "errors": it.new_list([]), "files": NONE})

    def ty(self, t):
        it = self.it
        if t in self.tys:
            return self.tys[t]
        if t == "any":
            r = it.new_inst(Ext("mypy.types.AnyType"), {})
        elif isinstance(t, tuple) and t[0] == "fn":
            r = it.new_inst(Ext("mypy.types.CallableType"), {"arg_types": it.new_list([self.ty(x) for x in t[1]]), "ret_type": self.ty(t[2]), "arg_names": it.new_list([NONE] * len(t[1]))})
        else:
            r = PyFront.ty(self, t)
            it.mut(r).fields["__str__"] = Native("__str__", lambda it_, a, kw, t=t: K(shown(t)))
        self.tys[t] = r
        return r

    # ------------------------------------------------------------ modules
    def module(self, text, env):
        tree = ast.parse(text)
        fns = [s for s in tree.body if isinstance(s, ast.FunctionDef)]
        for f in fns:
            env[f.name] = ("fn", tuple(pytype(a.annotation) for a in f.args.args), pytype(f.returns))
        out = []
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                out.append(self.function(s, env))
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                out.append(self.node("ImportFrom"))
            else:
                out.append(self.statement(s, dict(env), "any"))
        return out

    def args(self, names):
        it = self.it
        return it.new_list([it.new_inst(Ext("mypy.nodes.Argument"), {"variable": it.new_inst(Ext("mypy.nodes.Var"), {"name": K(n)}), "initializer": NONE}) for n in names])

    def function(self, s, env):
        it = self.it
        sc = dict(env)
        names = [a.arg for a in s.args.args]
        t = env[s.name]
        sc.update(zip(names, t[1]))
        f = self.node("FuncDef", name=s.name, fullname="target_code." + s.name, body=self.node("Block", body=[self.statement(x, sc, t[2]) for x in s.body]))
        o = it.mut(f).fields
        o["arguments"] = self.args(names)
        o["arg_names"] = it.new_list([K(n) for n in names])
        typed = s.returns is not None or any(a.annotation is not None for a in s.args.args)
        o["type"] = it.new_inst(Ext("mypy.types.CallableType"), {"arg_names": o["arg_names"], "arg_types": it.new_list([self.ty(x) for x in t[1]]), "ret_type": self.ty(t[2]), "arg_kinds": it.new_list([KINDS_[0]] * len(names))}) if typed else NONE
        return f

    def statement(self, s, sc, ret):
        N = self.node
        if isinstance(s, ast.Return):
            return N("ReturnStmt", expr=self.expr(s.value, sc, ret)[0] if s.value is not None else NONE)
        if isinstance(s, ast.Assign):
            r, t = self.expr(s.value, sc, ret)
            for x in s.targets:
                if isinstance(x, ast.Name):
                    sc[x.id] = t
            return N("AssignmentStmt", lvalues=[self.expr(x, sc, None)[0] for x in s.targets], rvalue=r)
        if isinstance(s, ast.AnnAssign):
            sc[s.target.id] = pytype(s.annotation)
            return N("AssignmentStmt", lvalues=[self.expr(s.target, sc, None)[0]], rvalue=self.expr(s.value, sc, sc[s.target.id])[0])
        if isinstance(s, ast.AugAssign):
            return N("OperatorAssignmentStmt", op=OPS[type(s.op)], lvalue=self.expr(s.target, sc, None)[0], rvalue=self.expr(s.value, sc, None)[0])
        if isinstance(s, ast.Expr):
            return N("ExpressionStmt", expr=self.expr(s.value, sc, None)[0])
        blk = lambda b: N("Block", body=[self.statement(x, sc, ret) for x in b])
        if isinstance(s, ast.If):
            return N("IfStmt", expr=[self.expr(s.test, sc, "bool")[0]], body=[blk(s.body)], else_body=blk(s.orelse) if s.orelse else NONE)
        if isinstance(s, ast.While):
            return N("WhileStmt", expr=self.expr(s.test, sc, "bool")[0], body=blk(s.body), else_body=NONE)
        if isinstance(s, ast.For):
            it_, t = self.expr(s.iter, sc, None)
            sc[s.target.id] = t[1] if isinstance(t, tuple) and t[0] == "list" else "int"
            return N("ForStmt", index=self.expr(s.target, sc, None)[0], expr=it_, body=blk(s.body), else_body=NONE)
        if isinstance(s, ast.Pass):
            return N("PassStmt")
        if isinstance(s, ast.Assert):
            return N("AssertStmt", expr=self.expr(s.test, sc, "bool")[0], msg=NONE)
        if isinstance(s, ast.FunctionDef):
            sc[s.name] = ("fn", tuple(pytype(a.annotation) for a in s.args.args), pytype(s.returns))
            return self.function(s, sc)
        raise KeyError(ast.unparse(s))

    def expr(self, e, sc, want):
        r, t = self.expr_(e, sc, want)
        if t is not None:
            self.types.append((r, self.ty(t)))
        return r, t

    def expr_(self, e, sc, want):
        N, it = self.node, self.it
        if isinstance(e, ast.Name):
            return N("NameExpr", name=e.id, fullname=e.id), sc.get(e.id, "any")
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return N("NameExpr", name=str(e.value), fullname="builtins." + str(e.value)), "bool"
            if isinstance(e.value, int):
                return N("IntExpr", value=e.value), "int"
            if isinstance(e.value, str):
                return N("StrExpr", value=e.value), "str"
            if isinstance(e.value, float):
                return N("FloatExpr", value=e.value), "float"
            return N("NameExpr", name="None", fullname="builtins.None"), "any"
        if isinstance(e, ast.BinOp):
            l, lt = self.expr(e.left, sc, want)
            r, rt = self.expr(e.right, sc, want)
            o = OPS[type(e.op)]
            t = lt if isinstance(lt, tuple) else rt if isinstance(rt, tuple) else "float" if o == "/" else "int"
            return N("OpExpr", op=o, left=l, right=r), t
        if isinstance(e, ast.BoolOp):
            o = "and" if isinstance(e.op, ast.And) else "or"
            xs = [self.expr(x, sc, "bool") for x in e.values]
            out = xs[-1]
            for x in reversed(xs[:-1]):
                out = (N("OpExpr", op=o, left=x[0], right=out[0]), x[1])
                if x is not xs[0]:
                    self.types.append((out[0], self.ty(x[1])))
            return out
        if isinstance(e, ast.Compare):
            xs = [self.expr(x, sc, None)[0] for x in [e.left] + e.comparators]
            return N("ComparisonExpr", operators=[K(CMP[type(o)]) for o in e.ops], operands=xs), "bool"
        if isinstance(e, ast.UnaryOp):
            x, t = self.expr(e.operand, sc, None)
            return N("UnaryExpr", op={ast.USub: "-", ast.Not: "not", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], expr=x), "bool" if isinstance(e.op, ast.Not) else t
        if isinstance(e, ast.IfExp):
            c = self.expr(e.test, sc, "bool")[0]
            a, t = self.expr(e.body, sc, want)
            b, _ = self.expr(e.orelse, sc, want)
            return N("ConditionalExpr", cond=c, if_expr=a, else_expr=b), t
        if isinstance(e, ast.Subscript):
            b, t = self.expr(e.value, sc, None)
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                i = N("SliceExpr", **{k: self.expr(x, sc, "int")[0] if x is not None else NONE for k, x in (("begin_index", s.lower), ("end_index", s.upper), ("stride", s.step))})
                return N("IndexExpr", base=b, index=i), t
            return N("IndexExpr", base=b, index=self.expr(e.slice, sc, "int")[0]), t[1] if isinstance(t, tuple) and t[0] == "list" else "any"
        if isinstance(e, ast.List):
            w = want[1] if isinstance(want, tuple) and want[0] == "list" else None
            xs = [self.expr(x, sc, w) for x in e.elts]
            return N("ListExpr", items=[x for x, _ in xs]), ("list", xs[0][1] if xs and xs[0][1] is not None else w if w is not None else "any")
        if isinstance(e, ast.Tuple):
            return N("TupleExpr", items=[self.expr(x, sc, None)[0] for x in e.elts]), "any"
        if isinstance(e, ast.ListComp):
            return N("ListComprehension", generator=NONE), want if want is not None else "any"
        if isinstance(e, ast.Lambda):
            names = [a.arg for a in e.args.args]
            inner = dict(sc)
            ts = want[1] if isinstance(want, tuple) and want[0] == "fn" else ("any",) * len(names)
            inner.update(zip(names, ts))
            b, t = self.expr(e.body, inner, want[2] if isinstance(want, tuple) and want[0] == "fn" else None)
            r = N("LambdaExpr", name="<lambda>", body=N("Block", body=[N("ReturnStmt", expr=b)]))
            it.mut(r).fields["arguments"] = self.args(names)
            return r, ("fn", tuple(ts), t if t is not None else "any")
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                b, t = self.expr(e.func.value, sc, None)
                c = N("MemberExpr", expr=b, name=e.func.attr)
                return N("CallExpr", callee=c, args=[self.expr(x, sc, None)[0] for x in e.args], arg_names=[NONE] * len(e.args), arg_kinds=[KINDS_[0]] * len(e.args)), "any"
            if isinstance(e.func, ast.Lambda):
                c, ft = self.expr(e.func, sc, None)
            else:
                c = N("NameExpr", name=e.func.id, fullname=("builtins." if e.func.id == "len" else "") + e.func.id)
                ft = sc.get(e.func.id)
            ps = ft[1] if isinstance(ft, tuple) and ft[0] == "fn" else ()
            args, names, kinds = [], [], []
            for n, x in enumerate(e.args):
                star = isinstance(x, ast.Starred)
                args.append(self.expr(x.value if star else x, sc, ps[n] if n < len(ps) else None)[0])
                names.append(NONE)
                kinds.append(KINDS_[2 if star else 0])
            for k in e.keywords:
                args.append(self.expr(k.value, sc, None)[0])
                names.append(K(k.arg) if k.arg else NONE)
                kinds.append(KINDS_[3 if k.arg else 4])
            t = "int" if e.func.__class__ is ast.Name and e.func.id == "len" else ft[2] if isinstance(ft, tuple) and ft[0] == "fn" else "any"
            return N("CallExpr", callee=c, args=args, arg_names=names, arg_kinds=kinds), t
        if isinstance(e, ast.Starred):
            return N("StarExpr", expr=self.expr(e.value, sc, None)[0]), None
        if isinstance(e, ast.NamedExpr):
            return N("AssignmentExpr", target=self.expr(e.target, sc, None)[0], value=self.expr(e.value, sc, None)[0]), "any"
        raise KeyError(ast.unparse(e))

    # ------------------------------------------------------------ running
    def check(self, solution, dsl, n=1, lambdas=None, counts=None):
        it = self.it
        self.asked = []
        # the definitions of the dsl module are remembered for the life of the process
        f = it.load_module(LP).vars.get("get_dsl_func_defs")
        r = it.call(self.ctx.lookup(LP + ":check_solution"), [], {
            "solution": K(solution), "expected_num_funcs": K(n), "dsl_code": K(dsl),
            "lambda_exprs": lambdas if lambdas is not None else it.alloc(HDict([])), "arg_name_to_count": counts if counts is not None else it.alloc(HDict([]))})
        return [it.getitem(r, K(i)) for i in range(3)]


def shown(t):
    if isinstance(t, tuple) and t[0] == "list":
        return "builtins.list[%s]" % shown(t[1])
    return "builtins." + t if isinstance(t, str) else str(t)
