"""Reads a Rosette program: what is defined, which symbols are used, with how many arguments, and what module-level values are made of."""
from __future__ import annotations

from .synth import SX, sx_parse, sx_text

INF = 10 ** 6
# names of Racket/Rosette the generated programs and the library use, with their arities
BASE = {
    "+": (0, INF), "-": (1, INF), "*": (0, INF), "quotient": (2, 2), "remainder": (2, 2), "modulo": (2, 2), "abs": (1, 1), "expt": (2, 2), "min": (1, INF), "max": (1, INF), "sub1": (1, 1), "add1": (1, 1),
    "<": (1, INF), "<=": (1, INF), ">": (1, INF), ">=": (1, INF), "=": (1, INF), "equal?": (2, 2), "eq?": (2, 2), "not": (1, 1), "!": (1, 1), "&&": (0, INF), "||": (0, INF), "=>": (2, 2), "<=>": (2, 2), "xor": (2, 2),
    "list": (0, INF), "cons": (2, 2), "car": (1, 1), "cdr": (1, 1), "append": (0, INF), "length": (1, 1), "list-ref": (2, 2), "list-tail": (2, 2), "list-set": (3, 3), "take": (2, 2), "drop": (2, 2), "list?": (1, 1), "empty?": (1, 1), "null?": (1, 1),
    "map": (2, INF), "ormap": (2, INF), "andmap": (2, INF), "apply": (2, INF), "sort": (2, 2), "remove-duplicates": (1, 2), "reverse": (1, 1), "first": (1, 1), "rest": (1, 1), "second": (1, 1), "foldl": (3, INF), "member": (2, 3),
    "sat?": (1, 1), "evaluate": (2, 2), "print-forms": (1, 1), "printf": (1, INF), "~a": (1, INF), "with-output-to-file": (2, 4), "current-bitwidth": (0, 1), "current-solver": (0, 1), "bitwuzla": (0, INF), "make-parameter": (1, 2), "hash": (0, INF), "fuel": (0, 1), "display": (1, 2),
}
SPECIAL = {"if": (3, 3), "and": (0, INF), "or": (0, INF), "choose": (1, INF), "choose*": (1, INF), "assert": (1, 2), "assume": (1, 2), "begin": (1, INF), "verify": (1, 1), "??": (0, INF)}
ATOMS = {"#t", "#f", "true", "false", "else", "integer?", "boolean?"}


def parse(text):
    return sx_parse("\n".join(l for l in text.replace("[", "(").replace("]", ")").splitlines() if not l.startswith("#lang")))


def keywords(args):
    """positional arguments and keyword arguments of an application"""
    pos, kw, i = [], {}, 0
    while i < len(args):
        if isinstance(args[i], str) and args[i].startswith("#:"):
            if i + 1 >= len(args):
                raise SX("keyword %s without a value" % args[i])
            kw[args[i]] = args[i + 1]
            i += 2
        else:
            pos.append(args[i])
            i += 1
    return pos, kw


class RFile:
    def __init__(self, text, lib=None, base=True):
        self.forms = parse(text)
        self.problems = []
        self.fns = dict(lib.fns) if lib else {}       # name -> (lo, hi)
        self.libnames = set(self.fns)
        self.params, self.bodies, self.bounded = {}, {}, set()
        self.grammars = {}      # name -> (params, rules)
        self.sym = {}           # symbolic constant -> predicate
        self.symfns = {}        # uninterpreted function -> (argument predicates, result predicate)
        self.defs = {}          # module-level value -> expression
        self.order = []
        self.known = set()      # module-level values so far
        self.solutions = []     # (name, keywords)
        self.outputs = []       # (file, value tested, value printed)
        self.current = {}
        self.rest = []
        self.later = []
        for f in self.forms:
            self.form(f)
        for t, loc, where in self.later:
            self.term(t, loc, where)

    def say(self, m):
        if m not in self.problems:
            self.problems.append(m)

    def new(self, name):
        if name in self.fns or name in self.grammars or name in self.sym or name in self.defs or name in self.symfns:
            self.say("%s is defined twice%s" % (name, " (it is in the library)" if name in self.libnames else ""))
        if name in BASE or name in SPECIAL or name in ATOMS:
            self.say("%s hides a name of the language" % name)
        self.order.append(name)

    def header(self, h):
        if "." in h:
            i = h.index(".")
            return h[1:i] + h[i + 1:], (i - 1, INF)
        return h[1:], (len(h) - 1, len(h) - 1)

    def form(self, f):
        if not isinstance(f, list) or not f:
            return self.say("a stray %s" % sx_text(f))
        k = f[0]
        if k in ("require", "provide", "define-syntax-rule"):
            if k == "define-syntax-rule":
                return
            return
        if k == "define-symbolic":
            if len(f) == 3 and isinstance(f[2], list) and f[2][:1] == ["~>"]:
                self.new(f[1])
                self.symfns[f[1]] = (f[2][1:-1], f[2][-1])
                return
            if len(f) < 3 or not isinstance(f[-1], str):
                return self.say("%s is no declaration" % sx_text(f))
            for n in f[1:-1]:
                self.new(n)
                self.sym[n] = f[-1]
                self.known.add(n)
            return
        if k in ("define", "define-bounded") and len(f) >= 3 and isinstance(f[1], list) and f[1]:
            n = f[1][0]
            ps, ar = self.header(f[1])
            self.new(n)
            if len(set(map(str, ps))) != len(ps):
                self.say("%s has two parameters of one name" % n)
            self.fns[n] = ar
            self.params[n], self.bodies[n] = ps, f[2:] if len(f) > 3 else f[2]
            if k == "define-bounded":
                self.bounded.add(n)
            for b in f[2:]:
                self.later.append((b, set(map(str, ps)), "the definition of %s" % n))
            return
        if k == "define-grammar" and len(f) >= 3 and isinstance(f[1], list):
            n, ps = f[1][0], f[1][1:]
            self.new(n)
            self.grammars[n] = (ps, {r[0]: r[1] for r in f[2:] if isinstance(r, list) and len(r) == 2})
            for r in f[2:]:
                if not isinstance(r, list) or len(r) != 2 or not isinstance(r[0], str):
                    self.say("%s has the malformed rule %s" % (n, sx_text(r)))
                    continue
                self.later.append((r[1], set(ps) | {("rule", x[0]) for x in f[2:] if isinstance(x, list)}, "the grammar of %s" % n))
            return
        if k == "define" and len(f) == 3 and isinstance(f[1], str):
            e = f[2]
            if isinstance(e, list) and e[:1] == ["synthesize"]:
                pos, kw = keywords(e[1:])
                self.solutions.append((f[1], kw))
                if pos or sorted(kw) != ["#:forall", "#:guarantee"]:
                    self.say("synthesize is called with %s" % sx_text(e[1:]))
                for v in kw.values():
                    self.term(v, None, "the search for %s" % f[1])
            else:
                self.term(e, None, "the value %s" % f[1])
            self.new(f[1])
            self.defs[f[1]] = e
            self.known.add(f[1])
            return
        if k in ("define", "define-bounded"):
            return self.say("%s is no definition" % sx_text(f)[:80])
        if k == "with-output-to-file":
            self.output(f)
        elif k in ("current-bitwidth", "current-solver") and len(f) == 2:
            self.current[k] = f[1]
            if k == "current-bitwidth":
                self.term(f, None, "the program")
        else:
            self.rest.append(f)
            self.term(f, None, "the program")

    def output(self, f):
        """(with-output-to-file FILE (lambda () (begin (printf (~a (sat? S))) (printf "\\n") (print-forms S))))"""
        try:
            path, lam = f[1].strip('"'), f[2]
            body = lam[2]
            steps = body[1:] if body[0] == "begin" else lam[2:]
            assert lam[0] == "lambda" and lam[1] == []
            assert steps[0][0] == "printf" and steps[0][1][0] == "~a" and steps[0][1][1][0] == "sat?"
            assert steps[1] == ["printf", '"\\n"']
            assert steps[2][0] == "print-forms" and len(steps) == 3
            a, b = steps[0][1][1][1], steps[2][1]
        except (AssertionError, IndexError, AttributeError):
            return self.say("the answer is written as %s" % sx_text(f)[:200])
        self.outputs.append((path, a, b))
        self.term(a, None, "the answer"), self.term(b, None, "the answer")

    def term(self, t, loc, where):
        """loc: the variables in scope, or None at module level, where values must already exist"""
        if isinstance(t, str):
            if t.startswith(('"', "'", "#:")) or t in ATOMS or t.lstrip("-").isdigit():
                return
            if loc is not None and t in loc:
                return
            if t in self.known or (loc is not None and (t in self.sym or t in self.defs)):
                return
            if t in self.fns or t in BASE or t in self.symfns:
                return      # a function as a value
            return self.say("%s uses %s, which is not defined%s" % (where, t, " before" if loc is None and (t in self.sym or t in self.defs) else ""))
        if not t:
            return self.say("%s contains ()" % where)
        h = t[0]
        if isinstance(h, list):
            for x in t:
                self.term(x, loc, where)
            return
        try:
            pos, kw = keywords(t[1:])
        except SX as e:
            return self.say("%s: %s" % (where, e))
        n = len(pos)
        if h == "lambda":
            l2 = (set() if loc is None else set(loc)) | set(map(str, t[1])) | (self.known if loc is None else set())
            for x in t[2:]:
                self.term(x, l2, where)
            return
        if h in ("let", "let*", "parameterize"):
            l2 = set() if loc is None else set(loc)
            for v, e in t[1]:
                self.term(e, l2 if h == "let*" else loc, where)
                l2.add(v)
            for x in t[2:]:
                self.term(x, l2 if loc is not None else l2 | self.known, where)
            return
        if h == "match*":
            for x in t[1]:
                self.term(x, loc, where)
            for c in t[2:]:
                l2 = set() if loc is None else set(loc)
                for p in c[0]:
                    self.pattern(p, l2)
                for x in c[1:]:
                    self.term(x, l2, where)
            return
        if h == "cond":
            for c in t[1:]:
                for x in c:
                    self.term(x, loc, where)
            return
        if loc is not None and ("rule", h) in loc:
            if n:
                self.say("%s gives arguments to the rule %s" % (where, h))
            return
        if loc is not None and h in loc:
            ar = None           # a parameter that is a function
        elif h in self.fns:
            ar = self.fns[h]
        elif h in self.grammars:
            ar = (len(self.grammars[h][0]),) * 2
            if set(kw) - {"#:depth"}:
                self.say("%s calls %s with %s" % (where, h, sorted(kw)))
        elif h in self.symfns:
            ar = (len(self.symfns[h][0]),) * 2
        elif h in SPECIAL:
            ar = SPECIAL[h]
        elif h in BASE:
            ar = BASE[h]
        else:
            return self.say("%s calls %s, which is not defined" % (where, h))
        if ar is not None and not ar[0] <= n <= ar[1]:
            self.say("%s calls %s with %d arguments, it takes %s" % (where, h, n, ar[0] if ar[0] == ar[1] else "%d to %s" % ar))
        for x in pos:
            self.term(x, loc, where)

    def pattern(self, p, loc):
        if isinstance(p, str):
            if p not in ("list", "...", "cons", "_"):
                loc.add(p)
        else:
            for x in p:
                self.pattern(x, loc)


def library(texts):
    """the library files in the order bounded, utils"""
    lib = None
    for t in texts:
        f = RFile(t, lib)
        f.fns.pop("fuel", None)
        f.problems = [p for p in f.problems if "fuel" not in p]
        lib2 = f
        if lib:
            lib2.params.update({k: v for k, v in lib.params.items() if k not in lib2.params})
        lib = lib2
    return lib
