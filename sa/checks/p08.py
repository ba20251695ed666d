"""P08: source instructions are modelled by the operation they perform"""
from .. import cases
from ..cases import A, AB, B, add, asg, decide_py, iff, lt, num, ret
from ..llfront import LF, LLFront, decide_ll
from ..progs import Ref as _Ref, node
from ..pyfront import KINDS, PF, PyFront, number

FLOOR = 200

V = ("var", "x")
EXC = ("raw", None)


def py_supported():
    a, b = A, B
    out = []
    for o in ("+", "-", "*", "//"):
        out.append(("op " + o, ("op", o, a, b)))
        out.append(("op %s nested left" % o, ("op", "-", ("op", o, a, num(2)), b)))
        out.append(("op %s nested right" % o, ("op", "-", a, ("op", o, b, num(2)))))
    for o1 in ("+", "-", "*", "//"):
        for o2 in ("+", "-", "*", "//"):
            out.append(("op %s of %s" % (o1, o2), ("op", o1, ("op", o2, a, b), ("op", o2, b, a))))
    out += [("neg", ("neg", a)), ("neg of op", ("neg", ("op", "+", a, b))), ("neg literal", ("neg", num(5))), ("literal", num(12)), ("zero", num(0)), ("name", b)]
    return out


def py_conditions():
    a, b = A, B
    out = []
    for o in ("<", "<=", ">", ">=", "=="):
        out.append(("cmp " + o, ("cmp", [o], [a, b])))
        out.append(("cmp %s literal" % o, ("cmp", [o], [num(3), b])))
        for o2 in ("<", "<=", ">", ">=", "=="):
            out.append(("cmp %s %s" % (o, o2), ("cmp", [o, o2], [a, b, num(9)])))
    out.append(("cmp 3 chained", ("cmp", ["<", "<=", "<"], [a, b, num(9), ("op", "*", a, b)])))
    c1, c2, c3 = lt(a, b), lt(b, num(4)), ("cmp", ["=="], [a, num(7)])
    out += [("and", ("and", c1, c2)), ("or", ("or", c1, c2)), ("and of or", ("and", ("or", c1, c2), c3)), ("or of and", ("or", c1, ("and", c2, c3))),
            ("and same", ("and", c1, c1)), ("or same", ("or", c1, c1)), ("or of or", ("or", ("or", c1, c2), c3)), ("and of and", ("and", c1, ("and", c2, c3)))]
    return out


# expressions the front end need not support: rejecting them is right, and so is giving them their meaning
def py_optional():
    a, b = A, B
    n = lambda kind, **f: ("node", kind, f)
    out = [("op %s" % o, ("op", o, a, b), None) for o in ("/", "**", "<<", ">>", "&", "|", "^", "@")]
    out += [("op %", ("op", "%", a, b), ("op", "%", a, b)),
            ("and of integers", ("and", a, b), None), ("or of integers", ("or", a, b), None),
            ("arithmetic on a comparison", ("op", "+", lt(a, b), num(1)), None), ("product with a comparison", ("op", "*", a, lt(a, b)), None),
            ("unary +", ("unary", "+", a), a), ("unary ~", ("unary", "~", a), None), ("negated comparison", ("neg", lt(a, b)), None),
            ("conditional", ("cond", lt(a, b), a, b), None), ("string", n("StrExpr", value="s"), None), ("bytes", n("BytesExpr", value="s"), None),
            ("float", n("FloatExpr", value=1.5), None), ("complex", n("ComplexExpr", value=None), None), ("ellipsis", n("EllipsisExpr"), None),
            ("attribute", ("attr", a, "real"), None), ("star", n("StarExpr", expr=a), None), ("walrus", n("AssignmentExpr", target=("var", "z"), value=a), None),
            ("dict", n("DictExpr", items=[]), None), ("set", n("SetExpr", items=[a]), None), ("slice", n("SliceExpr", begin_index=a, end_index=b, stride=None), None),
            ("lambda", n("LambdaExpr", body=a), None), ("list comprehension", n("ListComprehension", generator=None), None),
            ("set comprehension", n("SetComprehension", generator=None), None), ("dict comprehension", n("DictionaryComprehension"), None),
            ("generator", n("GeneratorExpr"), None), ("yield", n("YieldExpr", expr=a), None), ("yield from", n("YieldFromExpr", expr=a), None),
            ("await", n("AwaitExpr", expr=a), None), ("super", n("SuperExpr", name="x"), None), ("cast", n("CastExpr", expr=a), None),
            ("unknown function", ("call", "g", [a]), None), ("unknown method", ("method", a, "bit_length", []), None),
            ("non-empty list", ("list", [a]), None), ("no value", n("TempNode"), None), ("len of an integer", ("call", "len", [a]), None),
            ("index into an integer", ("index", a, b), None)]
    return out


def py_opt_conditions():
    a, b = A, B
    c = lt(a, b)
    out = [("cmp %s" % o, ("cmp", [o], [a, b]), None) for o in ("is", "is not", "in", "not in")]
    out += [("cmp !=", ("cmp", ["!="], [a, b]), ("cmp", ["!="], [a, b])), ("not", ("not", c), ("not", c)),
            ("integer condition", a, None), ("comparison of comparisons", ("cmp", ["=="], [c, c]), None),
            ("chained with !=", ("cmp", ["<", "!="], [a, b, num(3)]), ("cmp", ["<", "!="], [a, b, num(3)])),
            ("chained with in", ("cmp", ["<", "in"], [a, b, num(3)]), None)]
    return out


# statements that must not be ignored
def py_statements():
    n = lambda kind, **f: ("node", kind, f)
    a = A
    out = [("for", n("ForStmt", index=V, expr=a, body=["block", asg("x", num(1))], else_body=None)),
           ("augmented assignment", n("OperatorAssignmentStmt", op="+", lvalue=V, rvalue=a)),
           ("with", n("WithStmt", expr=[a], target=[], body=["block", asg("x", num(1))])),
           ("del", n("DelStmt", expr=V)), ("raise", n("RaiseStmt", expr=a, from_expr=None)),
           ("try", n("TryStmt", body=["block", asg("x", num(1))], handlers=[], else_body=None, finally_body=None)),
           ("match", n("MatchStmt", subject=a, patterns=[], guards=[], bodies=[])),
           ("global", n("GlobalDecl", names=[])), ("nonlocal", n("NonlocalDecl", names=[])),
           ("import", n("Import", ids=[])), ("import from", n("ImportFrom", id="m", names=[])), ("import *", n("ImportAll", id="m")),
           ("multiple targets", n("AssignmentStmt", lvalues=[V, ("var", "a")], rvalue=num(3))),
           ("tuple target", n("AssignmentStmt", lvalues=[("tuple", [V, ("var", "a")])], rvalue=("tuple", [num(3), num(4)]))),
           ("index target", n("AssignmentStmt", lvalues=[("index", a, num(0))], rvalue=num(3))),
           ("attribute target", n("AssignmentStmt", lvalues=[("attr", a, "x")], rvalue=num(3))),
           ("while-else", n("WhileStmt", expr=lt(V, a), body=["block", asg("x", num(5))], else_body=["block", asg("x", num(1))])),
           ("break", iff(lt(a, B), [n("BreakStmt")])), ("continue", iff(lt(a, B), [n("ContinueStmt")])),
           ("class", n("ClassDef", name="C"))]
    return out


def python(ctx):
    pf = PyFront(ctx)
    w = lambda m: ctx.where(ctx.lookup(PF + ":VCVisitor." + m))
    for n, e in py_supported():
        decide_py(ctx, pf, "py/expr/" + n, AB, [asg("x", num(1)), ret(e)], w("visit_op_expr"))
        decide_py(ctx, pf, "py/assigned/" + n, AB, [asg("x", e), asg("a", num(0)), ret(V)], w("visit_assignment_stmt"))
    for n, e in py_conditions():
        decide_py(ctx, pf, "py/cond/" + n, AB, [iff(e, [ret(num(1))], [ret(num(2))])], w("visit_comparison_expr"))
    for n, e, meaning in py_optional():
        if meaning is None:
            body = [ret(e)]
            must_reject(ctx, pf, "py/rejected/" + n, body, "a return of this expression")
            must_reject(ctx, pf, "py/rejected assigned/" + n, [asg("x", e), ret(num(0))], "an assignment of this expression")
        else:
            decide_py(ctx, pf, "py/optional/" + n, AB, [ret(e)], w("visit_op_expr"), allow_raise=True)
    for n, e, meaning in py_opt_conditions():
        if meaning is None:
            must_reject(ctx, pf, "py/rejected/" + n, [iff(e, [ret(num(1))], [ret(num(2))])], "this condition")
        else:
            decide_py(ctx, pf, "py/optional/" + n, AB, [iff(e, [ret(num(1))], [ret(num(2))])], w("visit_comparison_expr"), allow_raise=True)
    py_types(ctx, pf)
    for n, e in (("method named like an uninterpreted function", ("method", A, "f", [B])), ("attribute call", ("method", A, "g", [])), ("uninterpreted name not declared", ("call", "g", [A])),
                 ("uninterpreted function as a value", ("var", "f"))):
        must_reject(ctx, pf, "py/rejected/" + n, [ret(e)], "this call", uninterp=("f",))
    for n, s in py_statements():
        must_reject(ctx, pf, "py/rejected/" + n, [asg("x", num(0)), s, ret(V)], "this statement")


NOTYPES = ["str", "bool", "float", "complex", "object", "bytes", ("list", "str"), ("list", "bool"), ("list", ("list", "int")), ("list", ("set", "int")),
           ("set", ("set", "int")), ("set", ("list", "int")), ("set", "str"), ("dict", "int", "int"), ("tuple", "int"), ("tuple", "int", "int"), ("frozenset", "int"),
           ("list",), ("set",), ("list", "int", "int"), ("set", "int", "int"), ("deque", "int"), ("array", "int")]


def py_types(ctx, pf):
    """a source type whose values no object models is rejected, as an input and as a result"""
    w = ctx.where(ctx.lookup(PF + ":VCVisitor.visit_func_def"))
    for t in NOTYPES:
        for act in ("int", ("list", "int"), ("set", "int")):
            def go(it, t=t, act=act):
                d = it.call(pf.Driver, [], {})
                return pf.h.reify(it.getattr(pf.analyse("t", [("a", t), ("b", "int")], "int", number([ret(B)]), driver=d, args=pf.objects(d, [("a", act), ("b", "int")])), "asserts"))
            pf.h.must_raise("py/rejected input type %s given %s" % (t, act), go, "an input of this type", w)
        pf.h.must_raise("py/rejected result type %s" % (t,), lambda it, t=t: pf.h.reify(it.getattr(pf.analyse("t", AB, t, number([ret(B)])), "asserts")), "a result of this type", w)


def must_reject(ctx, pf, key, body, what, uninterp=()):
    body = number(body)

    def go(it):
        d = pf.analyse("t", AB, "int", body, uninterp=uninterp)
        return pf.h.reify(it.getattr(d, "asserts"))
    pf.h.must_raise(key, go, what)


# ---------------------------------------------------------------- LLVM
def raw(op, ty, *ops, text=None, meaning=None):
    return ("raw", op, ty, list(ops), text, meaning)


def ll_supported():
    a, b = A, B
    out = [("literal", num(12)), ("negative literal", num(-7)), ("zero", num(0)), ("name", b), ("neg", ("neg", a))]
    for o in ("+", "-", "*", "//", "%"):
        out += [("op " + o, ("op", o, a, b)), ("op %s swapped" % o, ("op", o, b, a)), ("op %s literal" % o, ("op", o, num(3), b)), ("op %s negative literal" % o, ("op", o, a, num(-4))),
                ("op %s same" % o, ("op", o, a, a)), ("op %s nested left" % o, ("op", "-", ("op", o, a, num(2)), b)), ("op %s nested right" % o, ("op", "-", a, ("op", o, b, num(2))))]
    for op in ("sext", "trunc", "bitcast"):
        ty = {"sext": "i64", "trunc": "i8", "bitcast": "i32"}[op]
        back = lambda e: e if op != "sext" else raw("trunc", "i32", e, text="%%%s = trunc i64 %s to i32", meaning=lambda x: x)
        out.append((op, back(raw(op, ty, a, text="%%%s = " + op + " i32 %s to " + ty, meaning=lambda x: x))))
        out.append((op + " of sum", back(raw(op, ty, add(a, b), text="%%%s = " + op + " i32 %s to " + ty, meaning=lambda x: x))))
    return out


def icmp(p, l, r, ty="i32", sign="%s"):
    m = {"eq": "==", "ne": "!=", "slt": "<", "ult": "<", "sgt": ">", "ugt": ">", "sle": "<=", "ule": "<=", "sge": ">=", "uge": ">="}[p]
    return raw("icmp", "i1", l, r, text="%%%s = icmp " + p + " " + ty + " %s, %s", meaning=lambda x, y: Ref("", []).ev(("cmp", [m], [("v", x), ("v", y)]), None))


class Ref(_Ref):
    def ev(self, e, s):
        return e[1] if e[0] == "v" else _Ref.ev(self, e, s)


OPCODES = ["fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "udiv", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fcmp", "fptosi", "sitofp", "uitofp", "ptrtoint",
           "inttoptr", "addrspacecast", "getelementptr", "extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector", "phi", "landingpad",
           "va_arg", "atomicrmw", "cmpxchg", "fence", "freeze", "unreachable", "resume", "invoke", "indirectbr", "callbr", "catchpad"]


def llvm(ctx):
    lf = LLFront(ctx)
    w = lambda m: ctx.where(ctx.lookup(LF + ":VCVisitor." + m))
    wi = w("visit_instruction")
    for n, e in ll_supported():
        decide_ll(ctx, lf, "ll/expr/" + n, AB, [asg("x", num(1)), ret(e)], wi)
        decide_ll(ctx, lf, "ll/assigned/" + n, AB, [asg("x", e), asg("a", num(0)), asg("b", V), ret(("op", "-", V, B))], w("visit_store_instruction"))
    a, b = A, B
    for p in ("eq", "ne", "slt", "sle", "sgt", "sge"):
        for k, (l, r) in {"": (a, b), " swapped": (b, a), " literal": (a, num(5)), " negative": (num(-1), b), " sums": (add(a, b), ("op", "*", a, b)), " same": (a, a)}.items():
            decide_ll(ctx, lf, "ll/icmp %s%s" % (p, k), AB, [iff(icmp(p, l, r), [ret(num(1))], [ret(num(2))])], w("visit_icmp_instruction"))
        decide_ll(ctx, lf, "ll/icmp %s twice" % p, AB, [asg("x", num(0)), iff(icmp(p, a, b), [asg("x", num(1))]), iff(icmp(p, b, a), [asg("x", add(V, num(2)))]), ret(V)], w("visit_icmp_instruction"))
    sx = lambda x: raw("sext", "i64", x, text="%%%s = sext i32 %s to i64", meaning=lambda x: x)
    # sizes and indices are compared unsigned; they are not negative
    decide_ll(ctx, lf, "ll/icmp ult of a size", [("a", "int"), ("v", "vec")], [iff(icmp("ult", sx(a), ("call", "_ZV1S", [("slot", "v")], "i64"), "i64"), [ret(num(1))], [ret(num(2))])], w("visit_icmp_instruction"))
    for p in ("ugt", "ule", "uge"):
        decide_ll(ctx, lf, "ll/optional icmp %s" % p, AB, [iff(icmp(p, a, b), [ret(num(1))], [ret(num(2))])], w("visit_icmp_instruction"), allow_raise=True)
    for c in ("true", "false"):
        decide_ll(ctx, lf, "ll/branch on %s" % c, AB, [iff(("const", c, "i1"), [ret(a)], [ret(b)])], w("visit_br_instruction"))
        decide_ll(ctx, lf, "ll/branch on a stored %s" % c, AB, [asg("f", ("const", c, "i1")), iff(("var", "f"), [asg("a", b)]), ret(a)], w("visit_br_instruction"), types={"f": "bool"})
    decide_ll(ctx, lf, "ll/condition in a variable", AB, [asg("f", lt(a, b)), asg("a", b), iff(("var", "f"), [ret(num(1))]), ret(a)], w("visit_load_instruction"), types={"f": "bool"})
    decide_ll(ctx, lf, "ll/condition input", [("a", "int"), ("f", "bool")], [iff(("var", "f"), [ret(num(1))]), asg("f", lt(a, num(2))), iff(("var", "f"), [ret(num(4))]), ret(a)], w("visit_load_instruction"))
    for op in OPCODES:
        decide_ll(ctx, lf, "ll/rejected opcode " + op, AB, [asg("x", raw(op, "i32", a, b)), ret(V)], wi, reject="an instruction with this opcode")
        decide_ll(ctx, lf, "ll/rejected unused opcode " + op, AB, [asg("x", num(0)), ("expr", raw(op, "void", a, b)), ret(V)], wi, reject="an instruction with this opcode")
    decide_ll(ctx, lf, "ll/optional zext", AB, [ret(raw("zext", "i64", a, text="%%%s = zext i32 %s to i64", meaning=lambda x: x))], wi, allow_raise=True)
    decide_ll(ctx, lf, "ll/optional select", AB, [ret(raw("select", "i32", lt(a, b), a, b, meaning=lambda c, x, y: node("Ite", c, x, y)))], wi, allow_raise=True)
    for n, e in (("comparison of comparisons", ("op", "+", lt(a, b), num(1))), ("difference of a comparison", ("op", "-", a, lt(a, b))), ("product of comparisons", ("op", "*", lt(a, b), lt(b, a))),
                 ("quotient of a comparison", ("op", "//", a, lt(a, b))), ("remainder of a comparison", ("op", "%", lt(a, b), a))):
        decide_ll(ctx, lf, "ll/rejected " + n, AB, [ret(e)], wi, reject="arithmetic on a truth value")
    decide_ll(ctx, lf, "ll/rejected integer condition", AB, [iff(a, [ret(b)]), ret(a)], w("visit_br_instruction"), reject="a branch on an integer")
    for n, sym in (("unknown function", "helper"), ("unknown mangled function", "_Z6helperii"), ("intrinsic", "llvm.memcpy.p0i8.p0i8.i64"), ("the function itself", "t")):
        lf.demangle["_Z6helperii"] = "helper(int, int)"
        decide_ll(ctx, lf, "ll/rejected call of " + n, AB, [ret(("call", sym, [a, b]))], w("visit_call_instruction"), reject="a call of a function that is not modelled")
        decide_ll(ctx, lf, "ll/rejected statement call of " + n, AB, [("expr", ("call", sym, [a, b], "void")), ret(a)], w("visit_call_instruction"), reject="a call of a function that is not modelled")
    decide_ll(ctx, lf, "ll/rejected store through a loaded pointer", AB, [asg("x", num(1)), ("store", num(2), raw("load", "i32*", ("slot", "x"))), ret(V)], w("visit_store_instruction"), reject="a write through a computed pointer")
    decide_ll(ctx, lf, "ll/rejected store through an element", [("a", "int"), ("v", "vec")], [("store", num(2), ("vget", "v", num(0), "_ZV1G", "pointer")), ret(("vget", "v", num(0)))], w("visit_store_instruction"), reject="a write through an element pointer")
    decide_ll(ctx, lf, "ll/rejected address of a local", AB, [asg("x", num(1)), asg("y", num(1)), ("store", ("slot", "x"), ("slot", "y")), asg("x", num(2)), ret(("var", "y"))], w("visit_store_instruction"), reject="storing the address of a local")
    decide_ll(ctx, lf, "ll/rejected switch", AB, [("switch", a, [(1, [ret(num(1))]), (2, [ret(num(2))])], [ret(b)])], wi, reject="a switch")
    for t in ("float", "double", "i64", "i16", "i128", "[4 x i32]", "%struct.other*", "<4 x i32>", "{i32, i32}", "%struct.lists*", "x86_fp80"):
        decide_ll(ctx, lf, "ll/rejected local of type " + t, AB, [asg("x", num(1)), ("alloca", t), ret(V)], w("visit_alloca_instruction"), reject="a local of this type")
        decide_ll(ctx, lf, "ll/rejected result of type " + t, AB, [ret(raw("sext", t, a))], w("preprocess"), reject="a result of this type")


def run(ctx):
    ctx.rule("Python front end: every operator, comparison, chain, connective and literal yields the reference obligation of its operation; "
             "every other expression and statement kind of the syntax tree is rejected (or given exactly its meaning)")
    ctx.rule("LLVM front end: every supported opcode and comparison predicate yields the reference obligation of its operation on its operands in order; every other opcode, "
             "unknown call, write through a pointer whose target is not tracked, and local or result of an unmodelled type is rejected")
    python(ctx)
    llvm(ctx)
