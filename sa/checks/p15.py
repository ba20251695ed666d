"""P15: every built-in the tool emits is defined for the back end, with that arity; both preludes define it alike."""
import os

from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import INT, BOOL, LI, LLI, MI, SI, T2
from ..smtlint import File, THEORY
from ..rktlint import RFile, library
from ..synth import sx_parse, sx_text
from ..prelude import Facts, SmtNorm, RktNorm, Endless, Broken, P, flat, varsof, subst

FLOOR = 70
TI = ("Tensor3D", INT)
U = "metalift/utils/"
L1, L2 = ["MLList", "Int"], ["MLList", ["MLList", "Int"]]

# ---- what each built-in is: (left side, facts, right side), over nil and cons
EMPTY = {}
POS = lambda v: {v: (1, 10 ** 9)}
NEG = lambda v: {v: (-10 ** 9, 0)}


def seq(p, e, emp):
    """the operations of one list dimension"""
    return [
        ("%s_length" % p, "(%s_length nil)" % p, EMPTY, "0"),
        ("%s_length" % p, "(%s_length (cons h t))" % p, EMPTY, "(+ 1 (%s_length t))" % p),
        ("%s_prepend" % p, "(%s_prepend h t)" % p, EMPTY, "(cons h t)"),
        ("%s_append" % p, "(%s_append nil v)" % p, EMPTY, "(cons v nil)"),
        ("%s_append" % p, "(%s_append (cons h t) v)" % p, EMPTY, "(cons h (%s_append t v))" % p),
        ("%s_get" % p, "(%s_get (cons h t) 0)" % p, EMPTY, "h"),
        ("%s_get" % p, "(%s_get (cons h t) i)" % p, POS("i"), "(%s_get t (- i 1))" % p),
        ("%s_empty" % p, emp, EMPTY, "nil"),
        ("%s_tail" % p, "(%s_tail (cons h t) 0)" % p, EMPTY, "(cons h t)"),
        ("%s_tail" % p, "(%s_tail (cons h t) i)" % p, POS("i"), "(%s_tail t (- i 1))" % p),
        ("%s_tail" % p, "(%s_tail nil 0)" % p, EMPTY, "nil"),
        ("%s_take" % p, "(%s_take (cons h t) 0)" % p, EMPTY, "nil"),
        ("%s_take" % p, "(%s_take (cons h t) i)" % p, POS("i"), "(cons h (%s_take t (- i 1)))" % p),
        ("%s_take" % p, "(%s_take nil i)" % p, EMPTY, "nil"),
    ]


SMT = seq("list", "h", "list_empty") + seq("matrix", "h", "matrix_empty") + [
    ("list_concat", "(list_concat nil ys)", EMPTY, "ys"),
    ("list_concat", "(list_concat (cons x xs) ys)", EMPTY, "(cons x (list_concat xs ys))"),
    ("list_contains", "(list_contains nil v)", EMPTY, "false"),
    ("list_contains", "(list_contains (cons v t) v)", EMPTY, "true"),
    ("list_contains", "(list_contains (cons h t) v)", {"ne": [("h", "v")]}, "(list_contains t v)"),
    ("vec_slice", "(vec_slice l s e)", EMPTY, "(list_tail (list_take l e) s)"),
    ("vec_slice_with_length", "(vec_slice_with_length l s n)", EMPTY, "(list_tail (list_take l (+ s n)) s)"),
    ("matrix_row_slice", "(matrix_row_slice m s e)", EMPTY, "(matrix_tail (matrix_take m e) s)"),
    ("matrix_row_slice_with_length", "(matrix_row_slice_with_length m s n)", EMPTY, "(matrix_tail (matrix_take m (+ s n)) s)"),
    ("matrix_col_slice", "(matrix_col_slice nil s e)", EMPTY, "nil"),
    ("matrix_col_slice", "(matrix_col_slice (cons r m) s e)", EMPTY, "(cons (list_tail (list_take r e) s) (matrix_col_slice m s e))"),
    ("matrix_col_slice_with_length", "(matrix_col_slice_with_length m s n)", EMPTY, "(matrix_col_slice m s (+ s n))"),
    ("matrix_transpose", "(matrix_transpose nil)", EMPTY, "nil"),
    # one row [a, b | r] and further rows: the first column, then the transposition of the other columns
    ("matrix_transpose", "(matrix_transpose (cons (cons a nil) nil))", EMPTY, "(cons (cons a nil) nil)"),
    ("matrix_transpose", "(matrix_transpose (cons (cons a (cons b nil)) nil))", EMPTY, "(cons (cons a nil) (cons (cons b nil) nil))"),
    ("matrix_transpose", "(matrix_transpose (cons (cons a nil) (cons (cons b nil) nil)))", EMPTY, "(cons (cons a (cons b nil)) nil)"),
    ("matrix_transpose", "(matrix_transpose (cons (cons a (cons b nil)) (cons (cons c (cons d nil)) nil)))", EMPTY, "(cons (cons a (cons c nil)) (cons (cons b (cons d nil)) nil))"),
    ("matrix_transpose", "(matrix_transpose (cons nil m))", EMPTY, "nil"),
    ("integer_exp", "(integer_exp n)", NEG("n"), "1"),
    ("integer_exp", "(integer_exp n)", POS("n"), "(mod (* 3 (integer_exp (- n 1))) 64)"),
]
# Newton's iteration from a guess: it stops at the root it reaches, and gives up (1) on the guesses 0, 1 and everything above 64
SMT += [("integer_sqrt_helper", "(integer_sqrt_helper %d %d)" % (n, g), EMPTY, str(v)) for n, g, v in (
    (0, 0, 1), (9, 0, 1), (9, 1, 1), (9, 65, 1), (9, 100, 1), (9, 3, 3), (16, 4, 4), (4096, 64, 64), (9, 4, 3), (16, 8, 4), (25, 12, 5), (36, 18, 6), (49, 24, 7), (49, 7, 7), (100, 50, 10), (64, 2, 8), (10, 5, 3), (4, 2, 2))]
SMT += [("integer_sqrt", "(integer_sqrt %d)" % n, EMPTY, str(v)) for n, v in ((1, 1), (4, 2), (9, 3), (16, 4))]
MAPS = [
    ("map_create", "(map_contains map_create k)", EMPTY, "(set.member k (as set.empty (Set K_Map)))"),
    ("map_create", "(map_get_direct map_create k d)", EMPTY, "(select ((as const (Array K_Map V_Map)) 0) k)"),
    ("map_contains", "(map_contains (make_map ks vs) k)", EMPTY, "(set.member k ks)"),
    ("map_get", "(map_get (make_map ks vs) k d)", EMPTY, "(ite (set.member k ks) (select vs k) d)"),
    ("map_get_direct", "(map_get_direct (make_map ks vs) k d)", EMPTY, "(select vs k)"),
]
# assertions of the prelude that are consequences of the equations above (by induction); whatever else it asserts must follow by rewriting
LEMMAS = []
for _p, _l in (("list", "list_length"), ("matrix", "matrix_length")):
    LEMMAS += [
        ("(<= 0 (%s l))" % _l, [], None),
        ("(%s_tail nil i)" % _p, [], "nil"),
        ("(%s_tail l i)" % _p, ["(>= i (%s l))" % _l], "nil"),
        ("(%s_take l i)" % _p, ["(>= i (%s l))" % _l], "l"),
        ("(%s_take l 0)" % _p, [], "nil"),
        ("(%s_get_helper (cons h t) i)" % _p, ["(<= i 0)"], "h"),
        ("(%s_tail (cons h t) i)" % _p, ["(<= i 0)"], "(cons h t)"),
        ("(%s_take (cons h t) i)" % _p, ["(<= i 0)"], "nil"),
    ]
LEMMAS += [
    ("(list_concat l nil)", [], "l"),
    ("(list_tail l i)", ["(>= i 0)", "(< i (list_length l))"], "(cons (list_get l i) (list_tail l (+ i 1)))"),
    ("(list_concat xs (cons y ys))", [], "(list_concat (list_append xs y) ys)"),
]

IN = lambda i="i", l="l": dict(iv={i: (0, 10 ** 9), "d": (1, 10 ** 9)}, alias={"(length %s)" % l: P("(+ %s d)" % i)})
END = lambda i="i", l="l": dict(iv={i: (0, 10 ** 9)}, alias={"(length %s)" % l: i})
POSEND = lambda i="i", l="l": dict(iv={i: (1, 10 ** 9)}, alias={"(length %s)" % l: i})
POSIN = lambda i="i", l="l": dict(iv={i: (1, 10 ** 9), "d": (1, 10 ** 9)}, alias={"(length %s)" % l: P("(+ %s d)" % i)})
PAST = lambda i="i", l="l": dict(iv={"d": (1, 10 ** 9), "(length %s)" % l: (0, 10 ** 9)}, alias={i: P("(+ (length %s) d)" % l)})
BELOW = lambda i="i", l="l": dict(iv={i: (-10 ** 9, -1), "(length %s)" % l: (0, 10 ** 9)})


def rseq(p, default):
    g = lambda op: "%s-%s-noerr" % (p, op)
    ln = "length" if p == "list" else "%s-length" % p
    return [
        (g("ref"), "(%s l i)" % g("ref"), IN(), "(list-ref l i)"),
        (g("ref"), "(%s l i)" % g("ref"), END(), default), (g("ref"), "(%s l i)" % g("ref"), PAST(), default), (g("ref"), "(%s l i)" % g("ref"), BELOW(), default),
        (g("tail"), "(%s l i)" % g("tail"), IN(), "(list-tail l i)"),
        (g("tail"), "(%s l i)" % g("tail"), END(), "nil"), (g("tail"), "(%s l i)" % g("tail"), PAST(), "nil"), (g("tail"), "(%s l i)" % g("tail"), BELOW(), None),
        (g("take"), "(%s l i)" % g("take"), POSIN(), "(take l i)"), (g("take"), "(%s l 0)" % g("take"), EMPTY, "nil"),
        (g("take"), "(%s l i)" % g("take"), POSEND(), "l"), (g("take"), "(%s l i)" % g("take"), PAST(), "?l"), (g("take"), "(%s l i)" % g("take"), BELOW(), "nil"),
        (ln, "(%s l)" % ln, EMPTY, "(length l)"),
        ("%s-empty" % p, "(%s-empty)" % p, EMPTY, "nil"),
        ("%s-append" % p, "(%s-append l v)" % p, EMPTY, "(append l (cons v nil))"),
        ("%s-prepend" % p, "(%s-prepend (cons a b) l)" % p, EMPTY, "(cons (cons a b) l)"),
    ]


def merge(rel):
    return {"=": dict(eq=[("a", "b")]), "<": dict(ne=[("a", "b")], lt=[("a", "b")]), ">": dict(ne=[("a", "b")], lt=[("b", "a")])}[rel]


AB = "(cons a as) (cons b bs)"
RKT = rseq("list", "0") + rseq("matrix", "nil") + rseq("tensor3d", "nil") + rseq("list-tuple", "nil") + [
    ("list-prepend", "(list-prepend x l)", EMPTY, "(cons x l)"),
    ("matrix-prepend", "(matrix-prepend nil l)", EMPTY, "(cons nil l)"), ("tensor3d-prepend", "(tensor3d-prepend nil l)", EMPTY, "(cons nil l)"),
    ("integer-sqrt-noerr", "(integer-sqrt-noerr 4)", EMPTY, "2"),
    ("list-concat", "(list-concat l r)", EMPTY, "(append l r)"),
    ("list-concat", "(list-concat nil r)", EMPTY, "r"),
    ("vec-slice-noerr", "(vec-slice-noerr l s e)", EMPTY, "(list-tail-noerr (list-take-noerr l e) s)"),
    ("vec-slice-with-length-noerr", "(vec-slice-with-length-noerr l s n)", EMPTY, "(list-tail-noerr (list-take-noerr l (+ s n)) s)"),
    ("matrix-row-slice-noerr", "(matrix-row-slice-noerr l s e)", EMPTY, "(matrix-tail-noerr (matrix-take-noerr l e) s)"),
    ("matrix-row-slice-with-length-noerr", "(matrix-row-slice-with-length-noerr l s n)", EMPTY, "(matrix-tail-noerr (matrix-take-noerr l (+ s n)) s)"),
    ("tensor3d-slice-noerr", "(tensor3d-slice-noerr l s e)", EMPTY, "(tensor3d-tail-noerr (tensor3d-take-noerr l e) s)"),
    ("tensor3d-slice-with-length-noerr", "(tensor3d-slice-with-length-noerr l s n)", EMPTY, "(tensor3d-tail-noerr (tensor3d-take-noerr l (+ s n)) s)"),
    ("matrix-col-slice-noerr", "(matrix-col-slice-noerr nil s e)", EMPTY, "nil"),
    ("matrix-col-slice-noerr", "(matrix-col-slice-noerr (cons (cons a (cons b nil)) nil) 0 1)", EMPTY, "(cons (cons a nil) nil)"),
    ("matrix-col-slice-noerr", "(matrix-col-slice-noerr (cons (cons a (cons b nil)) (cons (cons c (cons d nil)) nil)) 1 2)", EMPTY, "(cons (cons b nil) (cons (cons d nil) nil))"),
    ("matrix-col-slice-with-length-noerr", "(matrix-col-slice-with-length-noerr (cons (cons a (cons b (cons c nil))) nil) 1 2)", EMPTY, "(cons (cons b (cons c nil)) nil)"),
    ("matrix-transpose-noerr", "(matrix-transpose-noerr nil)", EMPTY, "nil"),
    ("matrix-transpose-noerr", "(matrix-transpose-noerr (cons (cons a nil) nil))", EMPTY, "(cons (cons a nil) nil)"),
    ("matrix-transpose-noerr", "(matrix-transpose-noerr (cons (cons a (cons b nil)) nil))", EMPTY, "(cons (cons a nil) (cons (cons b nil) nil))"),
    ("matrix-transpose-noerr", "(matrix-transpose-noerr (cons (cons a nil) (cons (cons b nil) nil)))", EMPTY, "(cons (cons a (cons b nil)) nil)"),
    ("matrix-transpose-noerr", "(matrix-transpose-noerr (cons (cons a (cons b nil)) (cons (cons c (cons d nil)) nil)))", EMPTY, "(cons (cons a (cons c nil)) (cons (cons b (cons d nil)) nil))"),
    ("make-tuple", "(make-tuple a)", EMPTY, "(cons a nil)"), ("make-tuple", "(make-tuple a b c)", EMPTY, "(cons a (cons b (cons c nil)))"),
    ("tupleGet", "(tupleGet (cons a (cons b (cons c nil))) 0)", EMPTY, "a"), ("tupleGet", "(tupleGet (cons a (cons b (cons c nil))) 2)", EMPTY, "c"),
    ("set-create", "(set-create)", EMPTY, "nil"), ("set-singleton", "(set-singleton a)", EMPTY, "(cons a nil)"), ("set-eq", "(set-eq a b)", EMPTY, "(equal? a b)"),
    ("set-union", "(set-union nil bs)", EMPTY, "bs"), ("set-union", "(set-union (cons a as) nil)", EMPTY, "(cons a as)"),
    ("set-union", "(set-union (cons a as) (cons a bs))", EMPTY, ["(set-union (cons a as) bs)", "(cons a (set-union as bs))", "(set-union as (cons a bs))"]),
    ("set-union", "(set-union %s)" % AB, merge("<"), "(cons a (set-union as (cons b bs)))"),
    ("set-union", "(set-union %s)" % AB, merge(">"), "(cons b (set-union (cons a as) bs))"),
    ("set-subset", "(set-subset nil bs)", EMPTY, "true"), ("set-subset", "(set-subset (cons a as) nil)", EMPTY, "false"),
    ("set-subset", "(set-subset (cons a as) (cons a bs))", EMPTY, ["(set-subset as bs)", "(set-subset as (cons a bs))"]),
    ("set-subset", "(set-subset %s)" % AB, merge("<"), "false"), ("set-subset", "(set-subset %s)" % AB, merge(">"), "(set-subset (cons a as) bs)"),
    ("set-minus", "(set-minus nil bs)", EMPTY, "nil"), ("set-minus", "(set-minus (cons a as) nil)", EMPTY, "(cons a as)"),
    ("set-minus", "(set-minus (cons a as) (cons a bs))", EMPTY, ["(set-minus as bs)", "(set-minus as (cons a bs))"]),
    ("set-minus", "(set-minus %s)" % AB, merge("<"), "(cons a (set-minus as (cons b bs)))"), ("set-minus", "(set-minus %s)" % AB, merge(">"), "(set-minus (cons a as) bs)"),
    ("set-member", "(set-member v nil)", EMPTY, "false"), ("set-member", "(set-member v (cons a (cons v nil)))", EMPTY, "true"),
    ("set-member", "(set-member v (cons a nil))", dict(ne=[("v", "a")]), "false"),
    ("set-insert", "(set-insert v nil)", EMPTY, "(cons v nil)"), ("set-insert", "(set-insert a (cons b nil))", merge("<"), "(cons a (cons b nil))"), ("set-insert", "(set-insert a (cons b nil))", merge(">"), "(cons b (cons a nil))"), ("set-insert", "(set-insert a (cons a nil))", EMPTY, "(cons a nil)"),
    ("quotient-noerr", "(quotient-noerr x y)", dict(ne=[("y", "0")]), "(quotient x y)"),
    ("quotient-noerr", "(quotient-noerr x 0)", EMPTY, ["(quotient x 1)", "x", "0"]), ("quotient-noerr", "(quotient-noerr 7 2)", EMPTY, "3"),
    ("integer-exp-noerr", "(integer-exp-noerr n)", dict(iv=NEG("n")), "1"),
    ("integer-exp-noerr", "(integer-exp-noerr n)", dict(iv=POS("n")), "(remainder (* 3 (integer-exp-noerr (- n 1))) 64)"),
    ("map-create", "(map-create)", EMPTY, "nil"),
    ("map-get", "(map-get (cons (cons k (cons v nil)) m) k)", EMPTY, "v"), ("map-get", "(map-get (cons (cons k (cons v nil)) m) q)", dict(ne=[("k", "q")]), "(map-get m q)"), ("map-get", "(map-get nil q)", EMPTY, "0"),
    ("map-contains", "(map-contains nil q)", EMPTY, "0"), ("map-contains", "(map-contains (cons (cons k (cons v nil)) m) k)", EMPTY, "1"), ("map-contains", "(map-contains (cons (cons k (cons v nil)) m) q)", dict(ne=[("k", "q")]), "(map-contains m q)"),
    ("map-insert", "(map-insert nil k v)", EMPTY, "(cons (cons k (cons v nil)) nil)"),
    ("map-insert", "(map-insert (cons (cons k (cons v nil)) nil) k w)", EMPTY, "(cons (cons k (cons w nil)) nil)"),
    ("map-insert", "(map-insert (cons (cons k (cons v nil)) nil) q w)", dict(ne=[("k", "q")]), "(cons (cons k (cons v nil)) (cons (cons q (cons w nil)) nil))"),
    ("map-insert", "(map-insert (cons (cons k (cons v nil)) (cons (cons q (cons u nil)) nil)) q w)", dict(ne=[("k", "q")]), "(cons (cons k (cons v nil)) (cons (cons q (cons w nil)) nil))"),
]
# the functions of utils.rkt that never look inside an expression whose shape is not known stay as they are in both sides
OPAQUE = {"list-tail-noerr", "list-take-noerr", "matrix-tail-noerr", "matrix-take-noerr", "tensor3d-tail-noerr", "tensor3d-take-noerr", "matrix-col-slice-noerr"}


def mkfacts(spec):
    if "iv" in spec or "alias" in spec or "ne" in spec or "eq" in spec:
        return Facts(**spec)
    return Facts(iv=spec)


class Bad(Exception):
    pass


class Undefined(Bad):
    def __init__(self, name):
        super().__init__("%s is not defined in the SMT prelude" % name)
        self.name = name


class Sorts:
    """sorts of SMT terms over the prelude"""

    def __init__(self, f):
        self.f = f
        self.alias = {x[1]: x[3] for x in f.forms if isinstance(x, list) and x and x[0] == "define-sort" and x[2] == []}
        self.data = {}
        self.arity = {"Int": 0, "Bool": 0, "Set": 1, "Array": 2}
        for x in f.forms:
            if isinstance(x, list) and x and x[0] == "declare-datatypes":
                (n, k), = x[1]
                self.arity[n] = int(k) if isinstance(k, str) and k.isdigit() else -1
                d = x[2][0]
                ps = d[1] if d[0] == "par" else []
                res = [n] + ps if ps else n
                for c in (d[2] if d[0] == "par" else d):
                    c = [c] if isinstance(c, str) else c
                    self.data[c[0]] = (ps, [s[1] for s in c[1:]], res)
                    for s in c[1:]:
                        self.data[s[0]] = (ps, [res], s[1])

    def norm(self, s):
        if isinstance(s, str):
            return self.norm(self.alias[s]) if s in self.alias else s
        return [self.norm(x) for x in s]

    def sort(self, s, vs=()):
        """s names a sort: its constructors are declared and have that many arguments"""
        if isinstance(s, str):
            if s not in vs and s not in self.alias and self.arity.get(s) != 0:
                raise Bad("%s is no sort" % s)
            return
        if not s or not isinstance(s[0], str) or self.arity.get(s[0]) != len(s) - 1 or len(s) == 1:
            raise Bad("%s is no sort" % sx_text(s))
        for x in s[1:]:
            self.sort(x, vs)

    def unify(self, p, s, b, vs):
        if isinstance(p, str) and p in vs:
            if p in b:
                return b[p] == s
            b[p] = s
            return True
        if isinstance(p, str) or isinstance(s, str):
            return p == s
        return len(p) == len(s) and all(self.unify(x, y, b, vs) for x, y in zip(p, s))

    def of(self, t, env):
        if isinstance(t, str):
            if t in env:
                return env[t]
            if t.isdigit():
                return "Int"
            if t in ("true", "false"):
                return "Bool"
            if t in self.f.ret and not self.f.params[t]:
                return self.norm(P(self.f.ret[t]))
            raise Undefined(t)
        h = t[0]
        if h == "as":
            self.sort(t[2])
            s = self.norm(t[2])
            con = {"nil": "MLList", "set.empty": "Set"}.get(t[1])
            if con and (not isinstance(s, list) or s[0] != con):
                raise Bad("%s is no %s" % (t[1], sx_text(s)))
            return s
        if h in ("forall", "exists"):
            for _, s in t[1]:
                self.sort(s)
            if self.of(t[2], {**env, **{v: self.norm(s) for v, s in t[1]}}) != "Bool":
                raise Bad("%s is no formula" % sx_text(t[2]))
            return "Bool"
        if h == "let":
            return self.of(t[2], {**env, **{v: self.of(e, env) for v, e in t[1]}})
        if isinstance(h, list) and h[:2] == ["as", "const"] and len(h) == 3 and len(t) == 2:
            self.sort(h[2])
            s = self.norm(h[2])
            if not isinstance(s, list) or s[0] != "Array" or self.of(t[1], env) != s[2]:
                raise Bad("%s is no array of its value" % sx_text(t))
            return s
        a = [self.of(x, env) for x in t[1:]]
        sh = lambda: " ".join(sx_text(x) for x in a)
        if h in ("and", "or", "not", "=>"):
            if any(x != "Bool" for x in a):
                raise Bad("%s applied to %s" % (h, sh()))
            return "Bool"
        if h in ("<", "<=", ">", ">=", "+", "-", "*", "div", "mod", "abs"):
            if any(x != "Int" for x in a):
                raise Bad("%s applied to %s" % (h, sh()))
            return "Bool" if h in ("<", "<=", ">", ">=") else "Int"
        if h == "select" and len(a) == 2 and isinstance(a[0], list) and a[0][0] == "Array":
            if a[1] != a[0][1]:
                raise Bad("select applied to %s" % sh())
            return a[0][2]
        if h == "store" and len(a) == 3 and a[0] == ["Array", a[1], a[2]]:
            return a[0]
        if h == "set.card":
            if not isinstance(a[0], list) or a[0][0] != "Set":
                raise Bad("set.card applied to %s" % sh())
            return "Int"
        if h in ("=", "distinct"):
            if len(a) != 2 or a[0] != a[1]:
                raise Bad("%s applied to %s" % (h, sh()))
            return "Bool"
        if h == "ite":
            if a[0] != "Bool" or a[1] != a[2]:
                raise Bad("ite applied to %s" % sh())
            return a[1]
        if h.startswith("set."):
            want = {"set.union": "SS", "set.minus": "SS", "set.inter": "SS", "set.subset": "SSB", "set.member": "eSB", "set.insert": "eS", "set.singleton": "e"}.get(h)
            if want is None:
                raise Bad("%s is no operator of the solver" % h)
            e = next((x[1] for w, x in zip(want, a) if w == "S" and isinstance(x, list) and x[0] == "Set"), a[0])
            ok = [x == (["Set", e] if w == "S" else e) for w, x in zip(want.rstrip("B"), a)]
            if not all(ok) or len(a) != len(want.rstrip("B")):
                raise Bad("%s applied to %s" % (h, sh()))
            return "Bool" if want.endswith("B") else ["Set", e]
        if h in self.data:
            ps, ins, res = self.data[h]
            b = {}
            if len(ins) != len(a) or not all(self.unify(i, s, b, set(ps)) for i, s in zip(ins, a)):
                raise Bad("%s applied to %s" % (h, sh()))
            return subst(res, b) if isinstance(res, list) else b.get(res, res)
        if h in self.f.params:
            ins = [self.norm(P(s)) for _, s in self.f.params[h]]
            if ins != a:
                raise Bad("%s takes (%s), it is given (%s)" % (h, " ".join(sx_text(x) for x in ins), sh()))
            return self.norm(P(self.f.ret[h]))
        raise Undefined(h)


def canon_guard(n, g, F):
    return sx_text(n.nf(g, F))


def alpha(t, vs):
    """the variables of a pattern in order of appearance become _0, _1, ..."""
    m = {}

    def walk(x):
        if isinstance(x, str):
            if x in vs and x not in m:
                m[x] = "_%d" % len(m)
        else:
            for y in x:
                walk(y)
    for x in t:
        if x is not None:
            walk(x)
    return m


def run(ctx):
    h = IRH(ctx)
    it = h.it
    ctx.rule("both preludes are read as definitions: every symbol they use is defined before (with fitting arity and sorts), and each built-in satisfies its defining equations over nil / cons (SMT) and over in-range, end, past-the-end and negative indices (Rosette), decided by unfolding definitions where the shape of the arguments settles their conditions; an assertion that is neither such an equation nor a known consequence is reported; and the text printed for every built-in of the object API is well-formed over the preludes")
    root = ctx.repo if hasattr(ctx, "repo") else os.environ.get("SA_REPO", "/repo")
    rd = lambda n: open(os.path.join(root, U + n)).read()
    smt = File("\n".join(rd(n) for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")))
    full = File("\n".join(rd(n) for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt", "map-axioms.smt")))
    lib = library([rd("bounded.rkt"), rd("utils.rkt")])
    preludes(ctx, smt, full, lib)
    smt_side(ctx, smt, full)
    bounded(ctx, rd)
    rkt_side(ctx, lib)
    emitted(ctx, h, smt, lib)
    target_language(ctx, h, smt, lib)


def preludes(ctx, smt, full, lib):
    where = U + "list-axioms.smt"
    ctx.check("smt/wellformed", not full.problems, "the SMT prelude: %s" % "; ".join(full.problems[:3]), where, "%d symbols" % len(full.env))
    S = Sorts(full)
    bad = []
    for x in full.forms:
        try:
            if x[0] == "declare-datatypes":
                for (n, k), d in zip(x[1], x[2]):
                    ps = d[1] if d[0] == "par" else []
                    if k != str(len(ps)) or len(x[1]) != len(x[2]):
                        raise Bad("%s is declared with %s parameters and has %d" % (n, k, len(ps)))
                    for c in (d[2] if d[0] == "par" else d):
                        for s in (c[1:] if isinstance(c, list) else ()):
                            S.sort(s[1], ps)
            elif x[0] == "define-sort":
                S.sort(x[3], x[2])
            elif x[0] == "declare-fun":
                for s in x[2] + [x[3]]:
                    S.sort(s)
            elif x[0] in ("define-fun", "define-fun-rec"):
                for s in [q[1] for q in x[2]] + [x[3]]:
                    S.sort(s)
        except Bad as e:
            bad.append("%s: %s" % (sx_text(x)[:60], e))
    ctx.check("smt/sorts", not bad, "the SMT prelude declares %s" % "; ".join(bad[:3]), where, "%d declarations" % len(full.forms))
    for n in full.order:
        if n in full.bodies:
            try:
                got = S.of(full.bodies[n], {p: S.norm(P(s)) for p, s in full.params[n]})
                ctx.check("smt/sort/%s" % n, got == S.norm(P(full.ret[n])), "%s is declared to return %s, its definition is a %s" % (n, full.ret[n], sx_text(got)), where)
            except Bad as e:
                ctx.bad("smt/sort/%s" % n, "the definition of %s: %s" % (n, e), where)
    bad = []
    for x in full.asserts:
        try:
            if S.of(x, {}) != "Bool":
                raise Bad("it is no formula")
        except Bad as e:
            bad.append("%s: %s" % (sx_text(x)[:120], e))
    ctx.check("smt/sort/assertions", not bad, "the SMT prelude asserts %s" % "; ".join(bad[:3]), where, "%d assertions" % len(full.asserts))
    for k in range(1, 6):
        c = "tuple%d" % k
        sel = ["tuple%d_get%d" % (k, j) for j in range(k)]
        got = None
        for x in full.forms:
            if isinstance(x, list) and x and x[0] == "declare-datatypes" and x[1][0][0] == "Tuple%d" % k:
                d = x[2][0]
                con = d[2][0]
                got = (x[1][0][1], con[0], [s[0] for s in con[1:]], [s[1] for s in con[1:]] == d[1])
        ctx.check("smt/tuple%d" % k, got == (str(k), c, sel, True), "the tuples of %d components are declared as %s" % (k, got), U + "tuples.smt", str(got))
    for p in lib.problems:
        ctx.bad("rkt/wellformed/%s" % p, "utils.rkt: %s" % p, U + "utils.rkt")
    ctx.ok("rkt/wellformed", "%d functions" % len(lib.fns))


EMPTYF = Facts()


def smt_side(ctx, smt, full):
    where = U + "list-axioms.smt"
    lens = [n for n in smt.params if n.endswith("_length") and n in smt.params]
    N = SmtNorm(smt, lens)

    def nf(t, F):
        N.steps = 0
        return N.nf(t, F)
    count = {}
    NF = SmtNorm(full, lens)
    for name, l, f, r in MAPS:
        count[name] = count.get(name, 0) + 1
        key = "smt/def/%s/%d" % (name, count[name])
        if name not in full.env:
            ctx.bad(key, "%s is not defined in map-axioms.smt" % name, U + "map-axioms.smt")
            continue
        try:
            NF.steps = 0
            a, b = NF.nf(P(l), EMPTYF), NF.nf(P(r), EMPTYF)
        except Endless as e:
            ctx.bad(key, "unfolding the definition of %s on %s does not end (%s)" % (name, l, e), U + "map-axioms.smt")
            continue
        ctx.check(key, a == b, "%s is %s, it should be %s" % (l, sx_text(a), sx_text(b)), U + "map-axioms.smt", "%s = %s" % (l, r))
    for name, l, f, r in SMT:
        count[name] = count.get(name, 0) + 1
        key = "smt/def/%s/%d" % (name, count[name])
        if name not in smt.env:
            ctx.bad(key, "%s is not defined in the SMT prelude" % name, where)
            continue
        F = mkfacts(f)
        try:
            a, b = nf(P(l), F), nf(P(r), F)
        except Endless as e:
            if name == "integer_sqrt":
                key += " does not end"
            ctx.bad(key, "unfolding the definition of %s on %s does not end (%s)" % (name, l, e), where)
            continue
        if name == "integer_sqrt" and a != b:
            # the wrong value is part of the key, as for Rosette
            key += " is %s" % sx_text(a)
        ctx.check(key, a == b, "%s%s is %s, it should be %s" % (l, cond(f), sx_text(a), sx_text(b)), where if not name.startswith("integer") else U + "integer-fn-axioms.smt", "%s = %s" % (l, r))
    # every other assertion follows
    table = []
    F0 = Facts()

    def entry(vs, g, l, r):
        m = alpha([l, r] + list(g), vs)
        ren = lambda x: None if x is None else sx_text(N.nf(subst(x, m), F0)) if not isinstance(x, str) or x not in m else m[x]
        raw = lambda x: None if x is None else sx_text(unas(subst(x, m)))
        return frozenset(canon_guard(N, subst(x, m), F0) for x in g), raw(l), raw(r)
    for l, g, r in LEMMAS:
        lt, rt = P(l), P(r) if r is not None else None
        vs = names([lt, rt] + [P(x) for x in g]) - {"nil"}
        table.append(entry(vs, [P(x) for x in g], lt, rt))
    for name, l, f, r in SMT:
        lt, rt = P(l), P(r)
        vs = names([lt, rt]) - {"nil", "false", "true", "list_empty", "matrix_empty"}
        for l2 in {l, l.replace("_get ", "_get_helper ")}:
            lt, rt = P(l2), P(r.replace("_get ", "_get_helper ") if l2 != l else r)
            g = [P("(>= %s 1)" % v) if b[0] == 1 else P("(<= %s 0)" % v) for v, b in f.items()] if "ne" not in f else []
            table.append(entry(vs, g, lt, rt))
    n = 0
    for a in smt.asserts:
        vs = varsof(a)
        for g, l, r in flat(a):
            n += 1
            key = "smt/axiom/%s" % (sx_text(l) if r is None else "%s = %s" % (sx_text(unas(l)), sx_text(unas(r))))[:110]
            ok = False
            for x, y in ((l, r), (r, l)):
                if x is None:
                    continue
                e = entry(vs, g, x, y)
                if any(t[1] == e[1] and t[2] == e[2] and t[0] <= e[0] for t in table):
                    ok = True
                    break
                if r is None:
                    break
            if not ok and r is not None:
                # without the assertion itself the definitions may already give it
                N2 = SmtNorm(smt, lens)
                for hh in list(N2.rules):
                    N2.rules[hh] = [x for x in N2.rules[hh] if not (x[2] == l and x[3] == r or x[2] == r and x[3] == l)]
                try:
                    F = guard_facts(g)
                    ok = F is not None and N2.nf(l, F) == N2.nf(r, F)
                except Endless:
                    ok = False
            ctx.check(key, ok, "the prelude asserts %s, which is neither a defining equation of a built-in nor one of its known consequences" % sx_text(a)[:200], where)
    ctx.stat("assertions", n)
    ctx.check("smt/axiom/length-nonneg", all(any(r is None and l == P("(<= 0 (%s l))" % q) or (r is None and isinstance(l, list) and l[0] in ("<=", ">=") and q in sx_text(l)) for x in smt.asserts for _, l, r in flat(x)) for q in ("list_length", "matrix_length")), "nothing states that a length is never negative", where)


def unas(t):
    if isinstance(t, str):
        return t
    if t and t[0] == "as":
        return t[1]
    return [unas(x) for x in t]


def names(ts):
    out = set()

    def walk(x, head):
        if isinstance(x, str):
            if not head and not x.lstrip("-").isdigit():
                out.add(x)
        elif x is not None:
            for i, y in enumerate(x):
                walk(y, i == 0)
    for t in ts:
        walk(t, False)
    return out


def guard_facts(g):
    iv = {}
    for x in g:
        neg = False
        while isinstance(x, list) and x[0] == "not":
            neg, x = not neg, x[1]
        if not (isinstance(x, list) and len(x) == 3 and isinstance(x[1], str) and isinstance(x[2], str) and x[2].isdigit()):
            return None
        op, c = x[0], int(x[2])
        if neg:
            op = {"<=": ">", "<": ">=", ">": "<=", ">=": "<"}.get(op)
        lo, hi = iv.get(x[1], (-10 ** 9, 10 ** 9))
        if op in ("<=", "<"):
            hi = min(hi, c if op == "<=" else c - 1)
        elif op in (">", ">="):
            lo = max(lo, c if op == ">=" else c + 1)
        else:
            return None
        iv[x[1]] = (lo, hi)
    return Facts(iv=iv)


def cond(f):
    if not f:
        return ""
    if "iv" in f or "alias" in f or "ne" in f or "eq" in f:
        t = ["%s in [%s, %s]" % (k, v[0], v[1]) for k, v in f.get("iv", {}).items()] + ["%s = %s" % (k, sx_text(v)) for k, v in f.get("alias", {}).items()] + ["%s != %s" % x for x in f.get("ne", ())] + ["%s < %s" % x for x in f.get("lt", ())]
        return " where " + ", ".join(t).replace(str(10 ** 9), "inf")
    return " where " + ", ".join("%s in [%s, %s]" % (k, v[0], v[1]) for k, v in f.items()).replace(str(10 ** 9), "inf")


def bounded(ctx, rd):
    """(define-bounded (f x ...) e ...) defines f with these parameters and this body, run with less fuel, while there is fuel"""
    where = U + "bounded.rkt"
    text = rd("bounded.rkt")
    lang = [x.split()[1:] for x in text.splitlines() if x.startswith("#lang")]
    ctx.check("rkt/bounded/lang", lang in ([["rosette"]], [["rosette/safe"]]), "bounded.rkt is written in %s" % lang, where)
    lang = [x.split()[1:] for x in rd("utils.rkt").splitlines() if x.startswith("#lang")]
    ctx.check("rkt/utils/lang", lang in ([["rosette"]], [["rosette/safe"]]), "utils.rkt is written in %s" % lang, U + "utils.rkt")
    forms = sx_parse("\n".join(x for x in text.replace("[", "(").replace("]", ")").splitlines() if not x.startswith("#lang")))
    fuel = [x[2] for x in forms if isinstance(x, list) and x[:2] == ["define", "fuel"] and len(x) == 3]
    ok = len(fuel) == 1 and isinstance(fuel[0], list) and fuel[0][0] == "make-parameter" and len(fuel[0]) == 2 and fuel[0][1].isdigit() and int(fuel[0][1]) >= 32
    ctx.check("rkt/bounded/fuel", ok, "fuel is %s: it should be a parameter that starts with enough steps for the lists of the search" % [sx_text(x) for x in fuel], where)
    out = [y for x in forms if isinstance(x, list) and x[:1] == ["provide"] for y in x[1:]]
    ctx.check("rkt/bounded/provide", ["all-defined-out"] in out or {"fuel", "define-bounded"} <= {y for y in out if isinstance(y, str)}, "bounded.rkt provides %s" % [sx_text(x) for x in out], where)
    mac = [x for x in forms if isinstance(x, list) and x[:1] == ["define-syntax-rule"] and len(x) == 3]
    if len(mac) != 1:
        ctx.unknown("rkt/bounded/macro", "define-bounded is not one define-syntax-rule", where)
        return
    pat, tmpl = mac[0][1], mac[0][2]
    why = None
    if not (isinstance(pat, list) and len(pat) == 4 and pat[0] == "define-bounded" and isinstance(pat[1], list) and len(pat[1]) == 3 and pat[1][2] == "..." and pat[3] == "..." and isinstance(pat[2], str)):
        why = "its pattern is %s" % sx_text(pat)
    elif tmpl[:2] != ["define", pat[1]]:
        why = "it defines %s for %s" % (sx_text(tmpl[1]), sx_text(pat[1]))
    else:
        steps = tmpl[2:]
        stops, body = steps[:-1], steps[-1]
        good = (["<", "0", ["fuel"]], [">", ["fuel"], "0"], [">=", ["fuel"], "1"], ["<=", "1", ["fuel"]], ["positive?", ["fuel"]])
        if not any(isinstance(x, list) and x[:1] in (["assert"], ["assume"]) and x[1] in good for x in stops):
            why = "it never stops: nothing asserts that there is fuel"
        elif any(isinstance(x, list) and x[:1] in (["assert"], ["assume"]) and x[1] not in good for x in stops):
            why = "it asserts %s" % sx_text(stops)
        elif not (isinstance(body, list) and body[:1] == ["parameterize"] and body[1] in ([["fuel", ["sub1", ["fuel"]]]], [["fuel", ["-", ["fuel"], "1"]]])):
            why = "the body runs under %s, not with one step of fuel less" % sx_text(body[1] if isinstance(body, list) and len(body) > 1 else body)
        elif body[2:] not in ([pat[2], "..."], [["let", [], pat[2], "..."]], [["begin", pat[2], "..."]]):
            why = "the body becomes %s" % sx_text(body[2:])
    ctx.check("rkt/bounded/macro", why is None, "define-bounded: %s" % why, where, "define, assert fuel, one step less")


def rkt_side(ctx, lib):
    where = U + "utils.rkt"
    count = {}
    for name, l, f, r in RKT:
        count[name] = count.get(name, 0) + 1
        key = "rkt/def/%s/%d" % (name, count[name])
        if name not in lib.fns and name != "length":
            ctx.bad(key, "%s is not defined in utils.rkt" % name, where)
            continue
        F = mkfacts(f)
        res = []
        try:
            for op in (OPAQUE - {name}, set()):
                N = RktNorm(lib, op)
                a = N.nf(P(l), F)
                raw = N.raw
                N2 = RktNorm(lib, op)
                wants = r if isinstance(r, list) else [r]
                if wants == ["?l"]:
                    wants = ["l"]
                want = [N2.nf(P(w), F) for w in wants if w is not None]
                res.append((a, want, raw))
                if not want or a in want:
                    break
        except Endless as e:
            ctx.bad(key, "unfolding the definition of %s on %s does not end (%s)" % (name, l, e), where)
            continue
        except Broken as e:
            ctx.bad(key, "%s%s raises an error: %s" % (l, cond(f), e), where)
            continue
        a, want, raw = res[-1]
        if any(not w or x in w for x, w, _ in res):
            if any(not w for _, w, _ in res) and a[:1] == ["ite"]:
                ctx.unknown(key, "%s is %s" % (l, sx_text(a)), where)
            else:
                ctx.ok(key, "%s = %s" % (l, r))
        else:
            # the wrong value is part of the key: a listed finding is this value, another wrong value is reported
            ctx.bad("%s is %s" % (key, sx_text(a)), "%s%s is %s, it should be %s" % (l, cond(f), sx_text(a), " or ".join(sx_text(w) for w in want)), where)


# ------------------------------------------------------------ what the object API emits
def emitted(ctx, h, smt, lib):
    it = h.it
    S = Sorts(smt)
    SRT = {"Int": "Int", "Bool": "Bool"}

    def sort(spec):
        if isinstance(spec, str):
            return SRT[spec]
        if spec[0] == "List":
            return ["MLList", sort(spec[1])]
        if spec[0] == "Matrix":
            return ["MLList", ["MLList", sort(spec[1])]]
        if spec[0] == "Tensor3D":
            return ["MLList", ["MLList", ["MLList", sort(spec[1])]]]
        if spec[0] == "Set":
            return ["Set", sort(spec[1])]
        if spec[0] == "Tuple":
            return ["Tuple%d" % (len(spec) - 1)] + [sort(x) for x in spec[1:]]
    env, objs = {}, {}

    def obj(n, spec):
        env[n] = sort(spec)
        e = h.base(lambda: h.mk("Var", K(n), h.ty(spec)))
        objs[n] = (spec, e)
        if isinstance(spec, str):
            return lambda: h.mk(spec, e)
        if spec[0] == "Tuple":
            return lambda: h.mk("Tuple", Tup([h.ty(s) for s in spec[1:]]), e)
        return lambda: h.mk(spec[0], h.ty(spec[1]), e)
    i, j, b = obj("i", INT), obj("j", INT), obj("b", BOOL)
    X = {"List": (obj("l", LI), obj("l2", LI), i, LI), "Matrix": (obj("m", MI), obj("m2", MI), obj("row", LI), MI),
         "List[List]": (obj("n", LLI), obj("n2", LLI), obj("row", LI), LLI), "Tensor3D": (obj("t", TI), obj("t2", TI), obj("slab", MI), TI)}
    s, s2, tp = obj("s", SI), obj("s2", SI), obj("p", T2)
    ops = []
    for c, (x, y, el, spec) in X.items():
        elt = {"List": INT, "Matrix": LI, "List[List]": LI, "Tensor3D": MI}[c]
        ops += [(c + ".len", lambda x=x: h.meth(x(), "len"), INT), (c + "[i]", lambda x=x: it.getitem(x(), i()), elt), (c + "[3]", lambda x=x: it.getitem(x(), K(3)), elt),
                (c + "[i:]", lambda x=x: it.getitem(x(), Slice(i(), NONE, NONE)), spec), (c + "[:i]", lambda x=x: it.getitem(x(), Slice(NONE, i(), NONE)), spec),
                (c + "[i:j]", lambda x=x: it.getitem(x(), Slice(i(), j(), NONE)), spec), (c + ".slice_with_length", lambda x=x: h.meth(x(), "slice_with_length", i(), j()), spec),
                (c + ".append", lambda x=x, el=el: h.meth(x(), "append", el()), spec), (c + ".prepend", lambda x=x, el=el: h.meth(x(), "prepend", el()), spec),
                (c + ".empty", lambda c=c, elt=elt: h.fn_attr("List" if c.startswith("List") else c, "empty", h.ty(elt if c.startswith("List") else INT)), spec)]
        if c != "Matrix" and c != "Tensor3D":
            ops.append((c + "==", lambda x=x, y=y: it.compare("==", x(), y()), BOOL))
    m = X["Matrix"][0]
    l, l2 = X["List"][0], X["List"][1]
    ops += [("List+List", lambda: it.binop("+", l(), l2()), LI), ("Matrix.transpose", lambda: h.meth(m(), "transpose"), MI), ("Matrix.col_slice", lambda: h.meth(m(), "col_slice", i(), j()), MI),
            ("Matrix.col_slice_with_length", lambda: h.meth(m(), "col_slice_with_length", i(), j()), MI), ("Matrix.col_vec", lambda: h.meth(m(), "col_vec", i()), LI)]
    for meth, arg, ty in (("add", i, SI), ("remove", i, SI), ("union", s2, SI), ("difference", s2, SI)):
        ops.append(("Set." + meth, lambda meth=meth, arg=arg: h.meth(s(), meth, arg()), SI))
    ops += [("Set==", lambda: it.compare("==", s(), s2()), BOOL), ("in Set", lambda: h.meth(s(), "__contains__", i()) if not h.has("call") else h.fn_attr("Set", "__contains__", s(), i()), BOOL), ("Set.empty", lambda: h.fn_attr("Set", "empty", h.ty(INT)), SI)]
    for k in (0, 1):
        ops.append(("Tuple[%d]" % k, lambda k=k: it.getitem(tp(), K(k)), T2[1 + k]))
    for n in ("integer_sqrt", "integer_exp"):
        ops.append((n, lambda n=n: h.fn("call", K(n), h.ty(INT), i()), INT))
    # operations on what operations return
    def key(spec):
        return repr(spec)

    def follow(spec, x):
        if spec == INT:
            return [("+ 1", lambda: it.binop("+", x(), K(1)), INT), ("< j", lambda: it.compare("<", x(), j()), BOOL), ("l[...]", lambda: it.getitem(l(), x()), INT)]
        if spec == BOOL:
            return [("implies", lambda: h.fn("implies", x(), b()), BOOL), ("ite", lambda: h.fn("ite", x(), i(), j()), INT)]
        if isinstance(spec, tuple) and spec[0] == "Set":
            return [("add", lambda: h.meth(x(), "add", i()), SI), ("union", lambda: h.meth(x(), "union", s2()), SI), ("from s2", lambda: h.meth(s2(), "difference", x()), SI), ("in", lambda: h.fn_attr("Set", "__contains__", x(), i()), BOOL)]
        if isinstance(spec, tuple) and spec[0] == "Tuple":
            return [("[%d]" % k, lambda k=k: it.getitem(x(), K(k)), spec[1 + k]) for k in range(len(spec) - 1)]
        elt = {key(LI): INT, key(MI): LI, key(LLI): LI, key(TI): MI}[key(spec)]
        el = {key(LI): i, key(MI): X["Matrix"][2], key(LLI): X["List[List]"][2], key(TI): X["Tensor3D"][2]}[key(spec)]
        return [("len", lambda: h.meth(x(), "len"), INT), ("[i]", lambda: it.getitem(x(), i()), elt), ("[i:]", lambda: it.getitem(x(), Slice(i(), NONE, NONE)), spec), ("[:j]", lambda: it.getitem(x(), Slice(NONE, j(), NONE)), spec),
                ("slice_with_length", lambda: h.meth(x(), "slice_with_length", i(), j()), spec), ("append", lambda: h.meth(x(), "append", el()), spec), ("prepend", lambda: h.meth(x(), "prepend", el()), spec)] + \
            ([("transpose", lambda: h.meth(x(), "transpose"), MI), ("col_slice", lambda: h.meth(x(), "col_slice", i(), j()), MI), ("col_vec", lambda: h.meth(x(), "col_vec", j()), LI)] if spec == MI else []) + \
            ([("+ l2", lambda: it.binop("+", x(), l2()), LI), ("== l2", lambda: it.compare("==", x(), l2()), BOOL)] if spec == LI else [])
    T3 = ("Tuple", INT, BOOL, INT)      # Tuple.__getitem__ refuses other components
    ops += [("make_tuple", lambda: h.fn("make_tuple", i(), b(), j()), T3), ("call of a tuple", lambda: h.fn("call", K("two"), h.ty(T2), i()), T2), ("call of three", lambda: h.fn("call", K("three"), h.ty(T3), i()), T3),
            ("make-tuple", lambda: h.mk("Tuple", Tup([h.ty(x) for x in T3[1:]]), h.mk("Call", K("make-tuple"), h.ty(T3), objs["i"][1], objs["b"][1], objs["j"][1])), T3)]
    for key1, f, spec in list(ops):
        if not key1.startswith("Tensor3D"):
            ops += [("%s then %s" % (key1, k2), g, r) for k2, g, r in follow(spec, f)]
    # what the two calls stand for: functions of the summary
    smt.params["two"], smt.ret["two"] = [("x", "Int")], sx_text(S.norm(sort(T2)))
    smt.params["three"], smt.ret["three"] = [("x", "Int")], sx_text(S.norm(sort(T3)))
    lib.fns["two"] = lib.fns["three"] = (1, 1)
    loc = h.loc("Call.toSMT")
    for key, f, spec in ops:
        def src(f=f):
            v = f()
            if isinstance(v, Ref) and isinstance(it.get(v), HInst) and it.subtype(it.get(v).cls, h.Object):
                v = it.getattr(v, "src")
            return v

        def smt_ok(v, r, spec=spec, key=key):
            if not isinstance(v, K):
                return "?its SMT text is %s" % (v,)
            try:
                t = sx_parse(v.v)
                if len(t) != 1:
                    return "its SMT text %s is not one term" % v.v
                got = S.of(t[0], env)
            except Undefined as e:
                ctx.bad("emit/smt/%s needs %s" % (key, e.name), "its SMT text %s: %s" % (v.v, e), loc)
                return None
            except (Bad, ValueError) as e:
                return "its SMT text %s: %s" % (v.v, e)
            return None if got == S.norm(sort(spec)) else "its SMT text %s is a %s, it should be a %s" % (v.v, sx_text(got), sx_text(sort(spec)))

        def rkt_ok(v, r):
            if not isinstance(v, K):
                return "?its Rosette text is %s" % (v,)
            q = RFile("(define (q %s) %s)" % (" ".join(objs), v.v), lib)
            return None if not q.problems else "its Rosette text %s: %s" % (v.v, q.problems[0])
        h.decide("emit/smt/%s" % key, lambda itp: h.meth(src(), "toSMT"), smt_ok, loc)
        h.decide("emit/rkt/%s" % key, lambda itp: h.meth(src(), "to_rosette"), rkt_ok, h.loc("Call.to_rosette"))


def target_language(ctx, h, smt, lib):
    pass
