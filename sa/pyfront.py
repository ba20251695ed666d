"""The Python front end under analysis: mypy syntax trees of the small language are built as abstract objects, the
repository's visitors are interpreted over them and the obligations they record are read back."""
from __future__ import annotations

from . import progs
from .irh import IRH, canon, ctuple
from .values import *  # noqa: F401,F403

PF = "metalift.frontend.python"

# node kind -> (visitor method, fields the default traversal of mypy visits, in that order)
KINDS = {
    "Block": ("visit_block", ["body"]),
    "FuncDef": ("visit_func_def", ["body"]),
    "ExpressionStmt": ("visit_expression_stmt", ["expr"]),
    "AssignmentStmt": ("visit_assignment_stmt", ["rvalue", "lvalues"]),
    "OperatorAssignmentStmt": ("visit_operator_assignment_stmt", ["rvalue", "lvalue"]),
    "WhileStmt": ("visit_while_stmt", ["expr", "body", "else_body"]),
    "ForStmt": ("visit_for_stmt", ["index", "expr", "body", "else_body"]),
    "ReturnStmt": ("visit_return_stmt", ["expr"]),
    "AssertStmt": ("visit_assert_stmt", ["expr", "msg"]),
    "IfStmt": ("visit_if_stmt", ["expr", "body", "else_body"]),
    "BreakStmt": ("visit_break_stmt", []),
    "ContinueStmt": ("visit_continue_stmt", []),
    "PassStmt": ("visit_pass_stmt", []),
    "RaiseStmt": ("visit_raise_stmt", ["expr", "from_expr"]),
    "DelStmt": ("visit_del_stmt", ["expr"]),
    "WithStmt": ("visit_with_stmt", ["expr", "body"]),
    "TryStmt": ("visit_try_stmt", ["body"]),
    "GlobalDecl": ("visit_global_decl", []),
    "NonlocalDecl": ("visit_nonlocal_decl", []),
    "ClassDef": ("visit_class_def", []),
    "Import": ("visit_import", []),
    "ImportFrom": ("visit_import_from", []),
    "ImportAll": ("visit_import_all", []),
    "Decorator": ("visit_decorator", []),
    "MatchStmt": ("visit_match_stmt", ["subject"]),
    "IntExpr": ("visit_int_expr", []),
    "StrExpr": ("visit_str_expr", []),
    "BytesExpr": ("visit_bytes_expr", []),
    "FloatExpr": ("visit_float_expr", []),
    "ComplexExpr": ("visit_complex_expr", []),
    "EllipsisExpr": ("visit_ellipsis", []),
    "StarExpr": ("visit_star_expr", ["expr"]),
    "NameExpr": ("visit_name_expr", []),
    "MemberExpr": ("visit_member_expr", ["expr"]),
    "CallExpr": ("visit_call_expr", ["args", "callee"]),
    "OpExpr": ("visit_op_expr", ["left", "right"]),
    "ComparisonExpr": ("visit_comparison_expr", ["operands"]),
    "UnaryExpr": ("visit_unary_expr", ["expr"]),
    "ListExpr": ("visit_list_expr", ["items"]),
    "TupleExpr": ("visit_tuple_expr", ["items"]),
    "DictExpr": ("visit_dict_expr", []),
    "SetExpr": ("visit_set_expr", ["items"]),
    "IndexExpr": ("visit_index_expr", ["base", "index"]),
    "SliceExpr": ("visit_slice_expr", ["begin_index", "end_index", "stride"]),
    "ConditionalExpr": ("visit_conditional_expr", ["cond", "if_expr", "else_expr"]),
    "AssignmentExpr": ("visit_assignment_expr", ["target", "value"]),
    "LambdaExpr": ("visit_lambda_expr", ["body"]),
    "ListComprehension": ("visit_list_comprehension", []),
    "SetComprehension": ("visit_set_comprehension", []),
    "DictionaryComprehension": ("visit_dictionary_comprehension", []),
    "GeneratorExpr": ("visit_generator_expr", []),
    "YieldExpr": ("visit_yield_expr", ["expr"]),
    "YieldFromExpr": ("visit_yield_from_expr", ["expr"]),
    "AwaitExpr": ("visit_await_expr", ["expr"]),
    "SuperExpr": ("visit_super_expr", []),
    "CastExpr": ("visit_cast_expr", ["expr"]),
    "TempNode": ("visit_temp_node", []),
}
BY_METHOD = {m: k for k, (m, _) in KINDS.items()}
TRAVERSER = ("mypy.traverser.TraverserVisitor", "mypy.traverser.ExtendedTraverserVisitor")


class PyFront:
    def __init__(self, ctx):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = ctx.it
        self.it.load_module(PF)
        self.Driver = ctx.lookup(PF + ":Driver")
        self.it.ext_method = self.ext_method

    # ------------------------------------------------------------ syntax trees
    def node(self, kind, **f):
        it = self.it
        meth, kids = KINDS[kind]
        r = it.new_inst(Ext("mypy.nodes." + kind), {})
        fields = it.mut(r).fields
        for k, v in f.items():
            fields[k] = it.new_list(v) if isinstance(v, list) else v if isinstance(v, Val) else K(v)
        fields["accept"] = Native("accept", lambda it_, a, kw, r=r, meth=meth, kind=kind: self.dispatch(a[0], r, meth, kind))
        fields.setdefault("line", K(1))
        return r

    def dispatch(self, visitor, r, meth, kind):
        it = self.it
        cls = it.get(visitor).cls
        m = it.class_lookup(cls, meth)
        if m is not None:
            return it.call(it.getattr(visitor, meth), [r], {})
        return self.default(visitor, cls, r, kind)

    def default(self, visitor, cls, r, kind):
        it = self.it
        if any(isinstance(c, Ext) and c.path in TRAVERSER for c in cls.mro):
            for f in KINDS[kind][1]:
                v = it.get(r).fields.get(f)
                if v is None or v == NONE:
                    continue
                if isinstance(v, Ref) and isinstance(it.get(v), HList):
                    for x in list(it.get(v).items):
                        it.call(it.getattr(x, "accept"), [visitor], {})
                else:
                    it.call(it.getattr(v, "accept"), [visitor], {})
        return NONE

    def ext_method(self, it, obj, cls, name):
        """a visitor method inherited from mypy"""
        if name in BY_METHOD and isinstance(obj, Ref):
            return Native("mypy." + name, lambda it_, a, kw: self.default(obj, cls, a[0], BY_METHOD[name]))
        return None

    def ty(self, t):
        """mypy type: 'int' | 'bool' | ('list', t) | ('set', t)"""
        it = self.it
        if t in self.tys:
            return self.tys[t]
        n, args = (t, ()) if isinstance(t, str) else (t[0], t[1:])
        info = it.new_inst(Ext("mypy.nodes.TypeInfo"), {"fullname": K("builtins." + n), "name": K(n)})
        r = it.new_inst(Ext("mypy.types.Instance"), {"type": info, "args": Tup([self.ty(a) for a in args])})
        self.tys[t] = r
        return r

    def begin(self):
        self.tys, self.types, self.whiles, self.scope = {}, [], {}, {}

    def typed(self, r, t):
        if t is not None:
            self.types.append((r, self.ty(t)))
        return r

    def exp(self, e):
        k = e[0]
        if k == "raw":
            return e[1](self)
        if k == "var":
            return self.typed(self.node("NameExpr", name=e[1], fullname=e[1]), self.scope.get(e[1], "int"))
        if k == "int":
            return self.typed(self.node("IntExpr", value=e[1]), "int")
        if k == "neg":
            return self.node("UnaryExpr", op="-", expr=self.exp(e[1]))
        if k == "not":
            return self.node("UnaryExpr", op="not", expr=self.exp(e[1]))
        if k == "unary":
            return self.node("UnaryExpr", op=e[1], expr=self.exp(e[2]))
        if k == "op":
            return self.node("OpExpr", op=e[1], left=self.exp(e[2]), right=self.exp(e[3]))
        if k in ("and", "or"):
            return self.node("OpExpr", op=k, left=self.exp(e[1]), right=self.exp(e[2]))
        if k == "cmp":
            return self.node("ComparisonExpr", operators=[K(o) for o in e[1]], operands=[self.exp(x) for x in e[2]])
        if k == "call":
            f = self.node("NameExpr", name=e[1], fullname="metalift." + e[1])
            r = self.node("CallExpr", callee=f, args=[self.exp(x) for x in e[2]])
            self.types.append((r, self.ty(e[3] if len(e) > 3 else "int")))
            return r
        if k == "method":
            f = self.node("MemberExpr", expr=self.exp(e[1]), name=e[2])
            return self.node("CallExpr", callee=f, args=[self.exp(x) for x in e[3]])
        if k == "len":
            return self.exp(("call", "len", [e[1]]))
        if k == "attr":
            return self.node("MemberExpr", expr=self.exp(e[1]), name=e[2])
        if k == "index":
            return self.node("IndexExpr", base=self.exp(e[1]), index=self.exp(e[2]))
        if k == "list":
            return self.node("ListExpr", items=[self.exp(x) for x in e[1]])
        if k == "tuple":
            return self.node("TupleExpr", items=[self.exp(x) for x in e[1]])
        if k == "cond":
            return self.node("ConditionalExpr", cond=self.exp(e[1]), if_expr=self.exp(e[2]), else_expr=self.exp(e[3]))
        if k == "node":
            return self.node(e[1], **{f: self.conv(v) for f, v in e[2].items()})
        raise KeyError(k)

    def conv(self, v):
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            return self.exp(v)
        if isinstance(v, list):
            return [self.conv(x) for x in v]
        return v

    def block(self, body):
        return self.node("Block", body=[self.stmt(s) for s in body])

    def stmt(self, s):
        k = s[0]
        if k == "assign":
            return self.node("AssignmentStmt", lvalues=[self.exp(("var", s[1]))], rvalue=self.exp(s[2]))
        if k == "expr":
            return self.node("ExpressionStmt", expr=self.exp(s[1]))
        if k == "return":
            return self.node("ReturnStmt", expr=self.exp(s[1]))
        if k == "if":
            return self.node("IfStmt", expr=[self.exp(s[1])], body=[self.block(s[2])], else_body=self.block(s[3]) if s[3] is not None else NONE)
        if k == "while":
            r = self.node("WhileStmt", expr=self.exp(s[1]), body=self.block(s[2]), else_body=NONE)
            self.whiles[r] = s[3]
            return r
        if k == "node":
            return self.node(s[1], **{f: self.convs(v) for f, v in s[2].items()})
        raise KeyError(k)

    def convs(self, v):
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            return self.exp(v) if v[0] not in ("assign", "expr", "return", "if", "while", "node!") else self.stmt(v)
        if isinstance(v, list):
            if v and v[0] == "block":
                return self.block(v[1:])
            return [self.convs(x) for x in v]
        return v

    def func(self, name, params, ret, body, types=None):
        """params: [(name, type)]"""
        it = self.it
        self.scope = dict(types or {})
        self.scope.update(dict(params))
        f = self.node("FuncDef", name=name, fullname="metalift." + name, body=self.block(body))
        o = it.mut(f).fields
        o["arguments"] = it.new_list([it.new_inst(Ext("mypy.nodes.Argument"), {"variable": it.new_inst(Ext("mypy.nodes.Var"), {"name": K(n)}), "initializer": NONE}) for n, _ in params])
        o["arg_names"] = it.new_list([K(n) for n, _ in params])
        o["type"] = it.new_inst(Ext("mypy.types.CallableType"), {
            "arg_names": it.new_list([K(n) for n, _ in params]),
            "arg_types": it.new_list([self.ty(t) for _, t in params]),
            "ret_type": self.ty(ret)})
        return f

    def install(self, fns):
        """what mypy answers when the front end asks for the file; names of imported modules are typed too"""
        it = self.it
        # names of another module that happen to be called like the function's own variables, with other types
        for n in ("x", "i", "s", "y", "a", "n"):
            self.types.append((self.node("NameExpr", name=n, fullname="other." + n), self.ty("str")))
        types = it.alloc(HDict(list(self.types)))
        tree = it.new_inst(Ext("mypy.nodes.MypyFile"), {"defs": it.new_list(list(fns))})
        st = it.new_inst(Ext("mypy.build.State"), {"tree": tree})
        res = it.new_inst(Ext("mypy.build.BuildResult"), {"types": types, "files": NONE, "errors": it.new_list([])})

        g = it.alloc(HDict([(K("metalift"), st), (K("__main__"), st)]))
        it.mut(res).fields["graph"] = g
        it.mut(res).fields["files"] = it.alloc(HDict([(K("metalift"), tree)]))
        it.ext_models["mypy.build.build"] = lambda it_, a, kw: res

    # ------------------------------------------------------------ running
    def objects(self, driver, params):
        h, it = self.h, self.it
        out = []
        tm = {"int": "Int", "bool": "Bool"}

        def spec(t):
            return tm[t] if isinstance(t, str) else ({"list": "List", "set": "Set"}[t[0]], spec(t[1]))
        for n, t in params:
            o = h.fn("create_object", h.ty(spec(t)), K(n))
            it.call(it.getattr(driver, "add_var_object"), [o], {})
            out.append(o)
        return out

    def analyse(self, name, params, ret, body, types=None, uninterp=(), driver=None, args=None, more=None):
        """build the program, run the driver on it; returns the driver"""
        it = self.it
        self.begin()
        f = self.func(name, params, ret, body, types)
        self.install([f] + (more(self) if more else []))
        if driver is None:
            driver = it.call(self.Driver, [], {})
        g = Native("grammar", self.grammar)
        fn = it.call(it.getattr(driver, "analyze"), [K("file.py"), K(name), Native("lang", lambda it_, a, kw: it_.new_list([])), g, g, it.new_list([K(u) for u in uninterp])], {})
        if args is None:
            args = self.objects(driver, params)
        self.args = args
        self.ret = it.call(fn, args, {})
        self.fnobj = fn
        return driver

    def scenario(self, fns, steps):
        """fns: name -> (params, return type, body, types); steps: ("driver",) | ("obj", name, type) | ("pre", expression) |
        ("call", function, [objects], result). Returns the drivers in order"""
        it = self.it
        self.begin()
        trees = []
        for n, (params, rt, body, types) in fns.items():
            trees.append(self.func(n, params, rt, body, types))
        self.install(trees)
        g = Native("grammar", self.grammar)
        drivers, objs, ana = [], {}, {}
        for s in steps:
            if s[0] == "driver":
                drivers.append(it.call(self.Driver, [], {}))
                objs, ana = {}, {}
            d = drivers[-1]
            if s[0] == "obj":
                objs[s[1]] = self.objects(d, [(s[1], s[2])])[0]
            elif s[0] == "pre":
                it.call(it.getattr(d, "add_precondition"), [self.obj(s[1], objs)], {})
            elif s[0] == "call":
                if s[1] not in ana:
                    ana[s[1]] = it.call(it.getattr(d, "analyze"), [K("file.py"), K(s[1]), Native("lang", lambda it_, a, kw, n=s[1]: it_.new_list(self.lang(n))), g, g], {})
                objs[s[3]] = it.call(ana[s[1]], [objs[x] for x in s[2]], {})
        return drivers

    def obj(self, e, objs):
        h = self.h
        if e[0] == "var":
            return objs[e[1]]
        if e[0] == "int":
            return h.mk("Int", K(e[1]))
        if e[0] == "cmp":
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__"}[e[1][0]]
            return h.meth(self.obj(e[2][0], objs), m, self.obj(e[2][1], objs))
        raise KeyError(e[0])

    def lang(self, fn):
        """the target language the user gives for a function"""
        return []

    def grammar(self, it, a, kw):
        """the callback the user gives: records the variables it is offered"""
        self.offered.append(tuple([self.h.meth(o, "var_name").v for o in it.iter_items(x)] for x in a))
        return self.h.mk("Bool", TRUE)

    def preds(self, driver):
        """name -> ('Inv', loop, [argument names]) or ('Ps', None, [names]) as declared for synthesis"""
        it = self.it
        d = it.get(it.getattr(it.getattr(driver, "inv_tracker"), "predicates"))
        out = {}
        for k, p in d.items:
            self.offered = []
            s = it.call(it.getattr(p, "gen_Synth"), [], {})
            if len(self.offered) != 1 or len(self.offered[0]) != 3:
                raise Mismatch("the grammar of a predicate is not called once with the written, read and in-scope variables")
            off = self.offered[0]
            s = self.h.reify(s)
            nm = s.args[0].v
            args = [a.args[0].v if hasattr(a, "args") else a for a in s.args[2:]]
            if k in self.whiles:
                out[nm] = ("Inv", self.whiles[k], args, off)
            else:
                out[nm] = ("Ps", it.getattr(k, "name").v, args, off)
        return out

    def read(self, driver):
        """(obligations as ((), formula), predicates)"""
        it = self.it
        ps = self.preds(driver)
        out = []
        for a in it.get(it.getattr(driver, "asserts")).items:
            out.append(((), convert(canon(self.h.reify(a)), ps)))
        return out, ps


class Mismatch(Exception):
    pass


def convert(t, ps):
    if not isinstance(t, tuple):
        return t
    if len(t) >= 2 and t[0] == "Call" and t[1] in ps:
        kind, k, names = ps[t[1]][:3]
        args = [convert(x, ps) for x in t[2:]]
        if len(args) != len(names):
            raise Mismatch("%s is declared with %d parameters and applied to %d arguments" % (t[1], len(names), len(args)))
        if kind == "Inv":
            return ("Inv", k) + tuple(zip(names, args))
        return ("Ps", k) + tuple(args)
    return tuple(convert(x, ps) for x in t)


def number(body, c=None):
    """give every loop its index, in order of appearance"""
    c = [0] if c is None else c
    out = []
    for s in body:
        if s[0] == "if":
            out.append(("if", s[1], number(s[2], c), number(s[3], c) if s[3] is not None else None))
        elif s[0] == "while":
            k = c[0]
            c[0] += 1
            out.append(("while", s[1], number(s[2], c), k))
        else:
            out.append(s)
    return out
