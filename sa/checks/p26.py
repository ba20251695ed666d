"""P26: LLM answers are read as the Python they are"""
import ast

from ..irh import Node, canon, ctext, ctuple
from ..llmfront import LP, LLMFront, pytype
from ..values import *  # noqa: F401,F403

FLOOR = 60

DSL = '''
def vec_map(x: List[int], map_int_to_int: Callable[[int], int]) -> List[int]:
    return [] if len(x) < 1 else [map_int_to_int(x[0]), *vec_map(x[1:], map_int_to_int)]

def reduce_max(x: List[int]) -> int:
    return x[0]

def selection_two_args(x: List[int], y: List[int], select_two_args_arg: Callable[[int, int], int]) -> List[int]:
    return x

def vec_scalar_mul(a: int, x: List[int]) -> List[int]:
    return x

def vec_elemwise_add(x: List[int], y: List[int]) -> List[int]:
    return x

def matrix_vec_mul(matrix_x: List[List[int]], x: List[int]) -> List[int]:
    return x

def ite_int(cond: bool, int_x: int, int_y: int) -> int:
    return int_x if cond else int_y

def matrix_scalar_mul(a: int, matrix_x: List[List[int]]) -> List[List[int]]:
    return matrix_x

def bump(n: int) -> int:
    return n + 1
'''
OPS = {ast.Add: "Add", ast.Sub: "Sub", ast.Mult: "Mul", ast.FloorDiv: "Div", ast.Div: "Div", ast.Mod: "Mod"}
CMPS = {ast.Lt: "Lt", ast.LtE: "Le", ast.Gt: "Gt", ast.GtE: "Ge", ast.Eq: "Eq"}


class Ref:
    """the meaning of an accepted answer, written from the Python text"""

    def __init__(self, dsl, solution, lambdas=None, counts=None):
        self.sig = {}
        self.dsl = set()
        for t, own in ((dsl, True), (solution, False)):
            for s in ast.parse("from typing import *\n" + t).body:
                if isinstance(s, ast.FunctionDef):
                    self.sig[s.name] = ([a.arg for a in s.args.args], [pytype(a.annotation) for a in s.args.args], pytype(s.returns))
                    if own:
                        self.dsl.add(s.name)
        self.solution = ast.parse(solution)
        self.names = []
        self.decls = {}
        self.incalls = []
        self.lambdas = lambdas if lambdas is not None else {}
        self.counts = counts if counts is not None else {}
        for s in self.solution.body:
            if isinstance(s, ast.FunctionDef):
                self.names.append(s.name)
                ps, ts, _ = self.sig[s.name]
                self.fn = s.name
                sc = dict(zip(ps, ts))
                st = [x for x in s.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                e = st[0].value
                self.decls[s.name] = (tuple(sorted(ps)), self.ex(e, sc, self.sig[s.name][2])[0])

    def ex(self, e, sc, want=None):
        X = lambda x, w=None: self.ex(x, sc, w)
        if isinstance(e, ast.Name):
            return ("Var", e.id), sc.get(e.id) or ("fn",) + tuple(self.sig[e.id][1:])
        if isinstance(e, ast.Constant):
            return ("Lit", e.value), "bool" if isinstance(e.value, bool) else "int"
        if isinstance(e, ast.BinOp):
            (l, t), (r, _) = X(e.left), X(e.right)
            if isinstance(t, tuple):
                return ("Call", "list_concat", l, r), t
            return (OPS[type(e.op)], l, r), "int"
        if isinstance(e, ast.BoolOp):
            return ("And" if isinstance(e.op, ast.And) else "Or",) + tuple(X(x)[0] for x in e.values), "bool"
        if isinstance(e, ast.UnaryOp):
            return ("Sub", ("Lit", 0), X(e.operand)[0]), "int"
        if isinstance(e, ast.IfExp):
            a, t = X(e.body, want)
            return ("Ite", X(e.test)[0], a, X(e.orelse, want)[0]), t
        if isinstance(e, ast.Compare):
            xs = [X(x)[0] for x in [e.left] + e.comparators]
            cs = [("Not", ("Eq", a, b)) if isinstance(o, ast.NotEq) else (CMPS[type(o)], a, b) for o, a, b in zip(e.ops, xs, xs[1:])]
            return (cs[0] if len(cs) == 1 else ("And",) + tuple(cs)), "bool"
        if isinstance(e, ast.List):
            t = want if want is not None else ("list", "int")
            return ("Call", "matrix_empty" if isinstance(t[1], tuple) else "list_empty"), t
        if isinstance(e, ast.Subscript):
            b, t = X(e.value)
            m = isinstance(t[1], tuple)
            if isinstance(e.slice, ast.Slice):
                lo, hi = (X(x)[0] if x is not None else None for x in (e.slice.lower, e.slice.upper))
                if hi is None:
                    return ("Call", "matrix_tail" if m else "list_tail", b, lo), t
                if lo is None:
                    return ("Call", "matrix_take" if m else "list_take", b, hi), t
                return ("Call", "matrix_row_slice" if m else "vec_slice", b, lo, hi), t
            return ("Call", "matrix_get" if m else "list_get", b, X(e.slice)[0]), t[1]
        if isinstance(e, ast.Call):
            n = e.func.id
            if n == "len":
                b, t = X(e.args[0])
                return ("Call", "matrix_length" if isinstance(t[1], tuple) else "list_length", b), "int"
            ps, ts, rt = self.sig[n]
            out = []
            for i, x in enumerate(e.args):
                if isinstance(x, ast.Lambda):
                    p = [a.arg for a in x.args.args]
                    body = self.ex(x.body, {**sc, **dict(zip(p, ts[i][1]))}, ts[i][2])[0]
                    key = (tuple(p), ctuple(body))
                    if key not in self.lambdas:
                        k = self.counts.get(ps[i], 0)
                        self.counts[ps[i]] = k + 1
                        self.lambdas[key] = "%s_%d" % (ps[i], k)
                    self.decls[self.lambdas[key]] = key
                    self.incalls.append((n, self.lambdas[key]))
                    out.append(("FN", self.lambdas[key]))
                elif isinstance(x, ast.Name) and isinstance(ts[i], tuple) and ts[i][0] == "fn":
                    self.incalls.append((n, x.id))
                    out.append(("FN", x.id))
                else:
                    out.append(X(x, ts[i])[0])
            if n not in self.dsl:
                out = [out[i] for i in sorted(range(len(ps)), key=ps.__getitem__)]
            return ("Call", n) + tuple(out), rt
        raise KeyError(ast.unparse(e))


def read(v):
    """canonical tuples with functions standing for their names"""
    return ctuple(fns(canon(v)))


def fns(c):
    if isinstance(c, tuple):
        if c and c[0] in ("FnDecl", "FnDeclRecursive") and len(c) > 1:
            return ("FN", c[1])
        return tuple(fns(x) for x in c)
    return c


def deref(c, names):
    """a function passed by name reads as that function"""
    if isinstance(c, tuple):
        if len(c) == 2 and c[0] == "Var" and c[1] in names:
            return ("FN", c[1])
        return tuple(deref(x, names) for x in c)
    return c


SIG = "def foo(b: List[int], a: int, m: List[List[int]], n: int, c: List[int]) -> %s:\n    return %s\n"
LI, LLI = "List[int]", "List[List[int]]"
GOOD = [
    ("int", "a"), ("int", "7"), ("bool", "True"), ("bool", "False"),
    ("int", "a + n"), ("int", "a - n"), ("int", "a * n"), ("int", "a // n"), ("int", "a / n"), ("int", "a % n"),
    ("int", "n - a"), ("int", "n % a"), ("int", "n // a"), ("int", "a - n - 1"), ("int", "a - (n - 1)"), ("int", "a + n * 2"), ("int", "(a + n) * 2"), ("int", "a * n // 32"), ("int", "100 % (n + 1)"),
    ("int", "-a"), ("int", "-(a - n)"), ("int", "-1"), ("int", "a + -n"),
    ("bool", "a < n"), ("bool", "a <= n"), ("bool", "a > n"), ("bool", "a >= n"), ("bool", "a == n"), ("bool", "a != n"), ("bool", "n > a"), ("bool", "n <= 0"),
    ("bool", "0 <= a < n"), ("bool", "a < n <= 5"), ("bool", "a > n >= 5"), ("bool", "0 <= a <= n < 9"), ("bool", "a == n < 3"), ("bool", "1 < a != n"),
    ("bool", "a < n and n < 3"), ("bool", "a < n or n < 3"), ("bool", "a < n and n < 3 and a > 1"), ("bool", "a < n or n < 3 and a > 1"), ("bool", "(a < n or n < 3) and a > 1"), ("bool", "a < 1 or n < 3 or a == 7"),
    ("int", "a if a < n else n"), ("int", "n if a < n else a"), ("int", "(1 if a < n else 2) + (3 if n == 0 else a)"), ("int", "1 if a < n else 2 if n < 3 else 4"), (LI, "b if a < n else c"), (LI, "[] if len(b) < 1 else c"), ("bool", "a < 1 if n < 2 else a > 3"),
    ("int", "b[0]"), ("int", "b[a]"), ("int", "c[a - 1]"), ("int", "m[a][n]"), ("int", "m[0][a + 1]"), (LI, "m[n]"), ("int", "b[c[a]]"),
    (LI, "b[a:]"), (LI, "b[:a]"), (LI, "b[a:n]"), (LI, "c[n:a]"), (LI, "b[1:]"), (LI, "b[:n + 1]"), (LLI, "m[a:]"), (LLI, "m[:a]"), (LLI, "m[n:a]"), (LI, "m[a][n:]"), (LI, "m[a][:n]"), (LI, "m[:a][n]"), (LI, "b[a:][:n]"), (LI, "m[n][1:a]"),
    ("int", "len(b)"), ("int", "len(m)"), ("int", "len(m[0])"), ("int", "len(b[a:])"), ("int", "len(m[:a])"), ("int", "len(b) - len(c)"), ("int", "len(b + c)"),
    (LI, "[]"), (LLI, "[]"), (LI, "b + c"), (LI, "c + b[:a]"), (LI, "b + []"),
    ("bool", "b == c"), ("bool", "m[:a] == m[:n]"), ("bool", "c == b[:a]"),
    (LI, "vec_scalar_mul(a, b)"), (LI, "vec_elemwise_add(c, b)"), (LI, "vec_elemwise_add(b, c)"), (LI, "vec_elemwise_add(vec_scalar_mul(a, b), vec_scalar_mul((32 - a), c))"), (LI, "matrix_vec_mul(m, b)"), ("int", "reduce_max(b[:a])"), ("int", "ite_int(a > n, a, n)"), ("int", "ite_int(reduce_max(b) == n, n, a)"), (LLI, "matrix_scalar_mul(n, m[:a])"), ("int", "bump(bump(a))"), (LI, "matrix_vec_mul(m, [])"), ("int", "bump(b[a]) - bump(n)"),
    (LI, "vec_map(b, lambda x: x + 1)"), (LI, "vec_map(b[1:a], lambda i: i * i - 3)"), (LI, "selection_two_args(b, c, lambda x, y: x if x > y else y)"), (LI, "selection_two_args(c, b, lambda q, p: q - p)"), (LI, "selection_two_args(b, c, lambda x, y: ite_int(x > y, y, x))"),
    (LI, "vec_map(vec_map(b, lambda x: x + 1), lambda x: x + 1)"), (LI, "vec_map(vec_map(b, lambda x: x + 1), lambda x: x + 2)"), (LI, "vec_map(vec_map(b, lambda x: x - 1), lambda y: y - 1)"), (LI, "vec_elemwise_add(vec_map(b, lambda x: x % 2), selection_two_args(b, c, lambda x, y: x % y))"),
    (LI, "vec_map(b, bump)"), (LI, "vec_elemwise_add(vec_map(b, bump), vec_map(c, lambda x: x * 5))"), (LI, "vec_map(b, lambda x: bump(x) // 2)"),
    ("int", "0 if a <= 0 else foo(b, a - 1, m, n, c)"), ("int", "foo(c, n, m, a, b)"), (LI, "b if a < 1 else vec_elemwise_add(b, foo(c, a - 1, m, n, b))"),
]
TEXTS = [
    ("assigned result", "def foo(a: int, n: int) -> int:\n    r = a - n\n    return r\n", 1),
    ("comment", "# a comment\ndef foo(a: int, n: int) -> int:\n    # another - one\n    return n - a  # trailing\n", 1),
    ("docstring", 'def foo(a: int, n: int) -> int:\n    """Computes\n    things."""\n    return n - a\n', 1),
    ("docstring quotes", "def foo(a: int, n: int) -> int:\n    '''Computes things.'''\n    return n - a\n", 1),
    ("indented", "    def foo(a: int, n: int) -> int:\n        return n - a\n", 1),
    ("parentheses", "def foo(a: int, n: int) -> bool:\n    return (\n        a < n\n        and n < 9\n    )\n", 1),
    ("continued line", "def foo(a: int, n: int) -> bool:\n    return a < n and \\\n        n < 9\n", 1),
    ("invariant", "def invariant(b: List[int], i: int, out: List[int]) -> bool:\n    return i >= 0 and i <= len(b) and out == vec_map(b[:i], lambda x: x * 2)\n", 1),
    ("two invariants", "def invariant1(row: int, m: List[List[int]], out: List[List[int]]) -> bool:\n    return row >= 0 and row <= len(m) and out == m[:row]\n\n"
     "def invariant2(row: int, col: int, m: List[List[int]], out: List[List[int]], row_vec: List[int]) -> bool:\n    return col >= 0 and row_vec == m[row][:col] and out == m[:row]\n", 2),
    ("two with lambdas", "def invariant1(b: List[int], c: List[int]) -> bool:\n    return c == vec_map(b, lambda x: x + 1)\n\n"
     "def invariant2(b: List[int], c: List[int]) -> bool:\n    return c == vec_map(vec_map(b, lambda x: x - 1), lambda x: x + 1)\n", 2),
    ("unsorted parameters", "def foo(z: int, y: int, x: int) -> int:\n    return z - y * x\n", 1),
    ("builtin list annotation", "def foo(z: list[int], y: int) -> int:\n    return z[y]\n", 1),
]
P = "def foo(a: int, n: int, b: List[int], m: List[List[int]]) -> int:\n"
BAD = [
    ("float arithmetic operator **", P + "    return a ** n\n"), ("bit and", P + "    return a & n\n"), ("bit or", P + "    return a | n\n"), ("xor", P + "    return a ^ n\n"), ("shift left", P + "    return a << n\n"), ("shift right", P + "    return a >> n\n"),
    ("not", P.replace("-> int", "-> bool") + "    return not a < n\n"), ("invert", P + "    return ~a\n"),
    ("in", P.replace("-> int", "-> bool") + "    return a in b\n"), ("is", P.replace("-> int", "-> bool") + "    return a is n\n"), ("ordering of lists", P.replace("-> int", "-> bool") + "    return b < b\n"), ("ordering in a chain", P.replace("-> int", "-> bool") + "    return a < n < b\n"),
    ("equality of different types", P.replace("-> int", "-> bool") + "    return a == b\n"), ("and of numbers", P + "    return a and n\n"), ("list minus", P.replace("-> int", "-> List[int]") + "    return b - b\n"), ("list times", P.replace("-> int", "-> List[int]") + "    return b * b\n"), ("list times number", P.replace("-> int", "-> List[int]") + "    return b * a\n"), ("list plus number", P.replace("-> int", "-> List[int]") + "    return b + a\n"), ("minus of a list", P.replace("-> int", "-> List[int]") + "    return -b\n"),
    ("list elements", P.replace("-> int", "-> List[int]") + "    return [a, n]\n"), ("list element", P.replace("-> int", "-> List[int]") + "    return [a]\n"), ("list elements under +", P.replace("-> int", "-> List[int]") + "    return b + [a]\n"), ("starred elements", P.replace("-> int", "-> List[int]") + "    return [*b]\n"), ("tuple", P + "    return (a, n)\n"),
    ("list comprehension", P.replace("-> int", "-> List[int]") + "    return [x + 1 for x in b]\n"),
    ("method", P + "    return b.count(a)\n"), ("method append", P.replace("-> int", "-> List[int]") + "    return b.append(a)\n"), ("unknown function", P + "    return mystery(a)\n"), ("builtin sum", P + "    return sum(b)\n"), ("builtin max", P + "    return max(a, n)\n"), ("builtin abs", P + "    return abs(a)\n"), ("call of a lambda", P + "    return (lambda x: x)(a)\n"),
    ("too few arguments", P.replace("-> int", "-> List[int]") + "    return vec_scalar_mul(a)\n"), ("too many arguments", P + "    return bump(a, n)\n"), ("swapped argument types", P.replace("-> int", "-> List[int]") + "    return vec_scalar_mul(b, a)\n"), ("matrix for vector", P + "    return reduce_max(m)\n"), ("vector for number", P + "    return bump(b)\n"), ("len of two", P + "    return len(b, m)\n"),
    ("keyword arguments", P.replace("-> int", "-> List[int]") + "    return vec_elemwise_add(y=b, x=m[0])\n"), ("one keyword argument", P + "    return bump(n=a)\n"), ("star argument", P + "    return bump(*b)\n"), ("keyword after positional", P.replace("-> int", "-> List[int]") + "    return vec_elemwise_add(b, y=m[0])\n"),
    ("slice with step", P.replace("-> int", "-> List[int]") + "    return b[a:n:2]\n"), ("slice with only a step", P.replace("-> int", "-> List[int]") + "    return b[::2]\n"), ("tail with step", P.replace("-> int", "-> List[int]") + "    return b[a::2]\n"), ("head with step", P.replace("-> int", "-> List[int]") + "    return b[:a:2]\n"),
    ("if statement", P + "    if a < n:\n        return a\n    return n\n"), ("if else statement", P + "    if a < n:\n        return a\n    else:\n        return n\n"), ("for loop", P + "    for x in b:\n        a = x\n    return a\n"), ("while loop", P + "    while a < n:\n        a = a + 1\n    return a\n"),
    ("three statements", P + "    x = a + 1\n    y = x + n\n    return y\n"), ("assignment of another variable", P + "    x = a + 1\n    return n\n"), ("assignment used in the result", P + "    x = a + 1\n    return x + n\n"), ("two targets", P + "    x = y = a + 1\n    return x\n"), ("assignment of an element", P.replace("-> int", "-> List[int]") + "    b[0] = a\n    return b\n"), ("augmented assignment", P + "    a += n\n    return a\n"), ("statement before return", P + "    assert a < n\n    return a\n"), ("expression before return", P + "    bump(n)\n    return a\n"), ("return before assignment", P + "    return a\n    a = n\n"), ("no return", P + "    pass\n"),
    ("no annotations", "def foo(a, n):\n    return a - n\n"),
    ("two functions for one", P + "    return a\n\ndef bar(a: int) -> int:\n    return a\n"), ("no function", "x = 3\n"),
    ("plus of matrices", P.replace("-> int", "-> List[List[int]]") + "    return m + m\n"), ("matrix plus vector", P.replace("-> int", "-> List[List[int]]") + "    return m + b\n"), ("vector plus matrix", P.replace("-> int", "-> List[int]") + "    return b + m\n"),
    ("and of number and condition", P.replace("-> int", "-> bool") + "    return a and n < 3\n"), ("or of condition and number", P.replace("-> int", "-> bool") + "    return n < 3 or a\n"), ("bitwise and of conditions", P.replace("-> int", "-> bool") + "    return (a < n) & (n < 3)\n"), ("sum of conditions", P + "    return (a < n) + (n < 3)\n"), ("number plus condition", P + "    return a + (n < 3)\n"),
    ("ordering of conditions", P.replace("-> int", "-> bool") + "    return (a < n) < (n < 3)\n"), ("copying slice", P.replace("-> int", "-> List[int]") + "    return b[:]\n"), ("minus of a condition", P + "    return -(a < n)\n"),
    ("string", P + "    return 'a'\n"), ("float", P + "    return 1.5\n"), ("list of functions", P.replace("-> int", "-> List[int]") + "    return vec_map(b, bump if a < n else bump)\n"),
    ("not python", P + "    return a +\n"),
]


def run(ctx):
    f = LLMFront(ctx)
    h, it = f.h, ctx.it
    ctx.rule("The text of an answer is parsed as mypy would parse it and the repository's translation is interpreted over the resulting nodes; what it builds is compared with an independent translation of the same "
             "Python text: operators and their operand order, chained comparisons, conditionals, indices, slices, lengths, calls, lifted lambdas and their names, parameters sorted by name with recursive calls adapted.")
    ctx.rule("Answers outside the supported subset (other operators, methods, unknown functions, keyword or starred arguments, wrong argument counts or types, steps in slices, list displays with elements, several statements, control flow, missing annotations, "
             "wrong number of functions) must be rejected with an exception.")
    w = ctx.where(ctx.lookup(LP + ":mypy_node_to_ir"))

    def one(key, text, n):
        want = Ref(DSL, strip(text))

        def go(it_):
            names, decls, calls = f.check(text, DSL, n)
            return tuple(h.reify(x) for x in (names, decls, calls))
        h.decide(key, go, lambda v, r: same(v, want), w, sample=text)
    for rt, e in GOOD:
        one("reads %s: %s" % (rt, e), SIG % (rt, e), 1)
    for k, t, n in TEXTS:
        one("reads " + k, t, n)
    sessions(ctx, f, h)
    for k, t in BAD:
        h.must_raise("rejects " + k, lambda it_, t=t: h.reify(f.check(t, DSL)[1]), "an answer with %s" % k, w)
    h.must_raise("rejects one function for two", lambda it_: h.reify(f.check(P + "    return a\n", DSL, 2)[1]), "one function where two are expected", w)


def strip(text):
    import textwrap
    return textwrap.dedent(text)


def same(v, want):
    names, decls, calls = v
    got = [x.v for x in names]
    if got != want.names:
        return "reports the functions %s, the answer defines %s" % (got, want.names)
    fl = set(want.sig)
    seen = {}
    for d in decls:
        if not (isinstance(d, Node) and d.cls in ("FnDecl", "FnDeclRecursive")):
            return "lists %s as a definition" % (d,)
        n = d.args[0].v
        c = (tuple(x.args[0].v for x in d.args[2:]), deref(read(d.args[1]), fl))
        if n in seen and seen[n] != c:
            return "defines %s twice, as %s and %s" % (n, ctext(seen[n]), ctext(c))
        seen[n] = c
        rt = want.sig[n][2] if n in want.sig and n in want.names else None
        if rt in ("int", "bool") and d.args[1].__class__ is Node and d.args[1].type is not None and show(d.args[1].type).split(".")[-1].split(":")[-1].lower() != rt:
            return "the body of %s has type %s, the answer says %s" % (n, show(d.args[1].type), rt)
    exp = {n: (ps, ctuple(b)) for n, (ps, b) in want.decls.items()}
    if seen != exp:
        for n in exp:
            if n not in seen:
                return "does not define %s" % n
            if seen[n] != exp[n]:
                return "reads %s%s as %s, it means %s" % (n, seen[n][0] if seen[n][0] != exp[n][0] else "", ctext(seen[n][1]), ctext(exp[n][1])) if seen[n][0] == exp[n][0] else "gives %s the parameters %s, expected %s" % (n, seen[n][0], exp[n][0])
        return "defines %s, which the answer does not" % sorted(set(seen) - set(exp))
    cs = [tuple(x.v for x in c) for c in calls]
    if sorted(set(cs)) != sorted(set(want.incalls)):
        return "reports the passed functions %s, expected %s" % (cs, want.incalls)
    return None


def sessions(ctx, f, h):
    """a summary and then invariants read with the same lambda tables: equal lambdas share one definition, others get fresh names"""
    it = ctx.it
    ps = "def foo(b: List[int], c: List[int]) -> List[int]:\n    return %s\n"
    inv = "def invariant(b: List[int], i: int, c: List[int]) -> bool:\n    return i >= 0 and c == %s\n"
    for k, a, b in (("same lambda", "vec_map(b, lambda x: x + 1)", "vec_map(b[:i], lambda x: x + 1)"), ("other lambda", "vec_map(b, lambda x: x + 1)", "vec_map(b[:i], lambda x: x - 1)"),
                    ("other parameter", "vec_map(b, lambda x: x + 1)", "selection_two_args(b, c, lambda x, y: x + 1)"), ("two then one", "vec_map(vec_map(b, lambda x: x + 1), lambda x: x * 2)", "vec_map(b[:i], lambda x: x * 2)"),
                    ("other parameter name", "vec_map(b, lambda x: x + 1)", "vec_map(b[:i], lambda y: y + 1)")):
        lam, cnt = {}, {}
        w1 = Ref(DSL, ps % a, lam, cnt)
        w2 = Ref(DSL, inv % b, lam, cnt)

        def go(it_, a=a, b=b):
            l, c = it_.alloc(HDict([])), it_.alloc(HDict([]))
            r1 = f.check(ps % a, DSL, 1, l, c)
            r2 = f.check(inv % b, DSL, 1, l, c)
            return tuple(tuple(h.reify(x) for x in r) for r in (r1, r2))

        def expect(v, r):
            return same(v[0], w1) or same(v[1], w2)
        h.decide("reads in sequence: " + k, go, expect, ctx.where(ctx.lookup(LP + ":check_solution")), sample=(ps % a) + (inv % b))
