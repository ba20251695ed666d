"""Reads an SMT-LIB / SyGuS file: what is defined when, with which arity, and which symbols are used before they exist."""
from __future__ import annotations

from .synth import sx_parse, sx_text

INF = 10 ** 6
THEORY = {
    "=": (2, INF), "distinct": (2, INF), "and": (1, INF), "or": (1, INF), "xor": (2, INF), "not": (1, 1), "=>": (2, INF), "ite": (3, 3),
    "+": (2, INF), "-": (1, INF), "*": (2, INF), "div": (2, INF), "mod": (2, 2), "abs": (1, 1), "<": (2, INF), "<=": (2, INF), ">": (2, INF), ">=": (2, INF),
    "true": (0, 0), "false": (0, 0),
    "set.union": (2, 2), "set.inter": (2, 2), "set.minus": (2, 2), "set.subset": (2, 2), "set.member": (2, 2), "set.insert": (2, INF), "set.singleton": (1, 1), "set.card": (1, 1), "set.complement": (1, 1),
    "select": (2, 2), "store": (3, 3),
}


class File:
    def __init__(self, text):
        self.forms = sx_parse(text)
        self.problems = []
        self.env = {}            # name -> arity
        self.params = {}         # name -> [(param, sort)]
        self.bodies = {}         # name -> body
        self.ret = {}
        self.vars = {}           # name -> [sorts]
        self.asserts = []
        self.constraints = []
        self.order = []
        self.check = 0
        self.after_check = []
        for f in self.forms:
            self.form(f)

    def say(self, m):
        self.problems.append(m)

    def new(self, name, arity, what="function"):
        if not isinstance(name, str):
            self.say("a %s has no name: %s" % (what, sx_text(name)))
            return
        if name in self.env:
            self.say("%s is defined twice" % name)
        if name in THEORY:
            self.say("%s redefines an operator of the solver" % name)
        self.env[name] = arity
        self.order.append(name)

    def form(self, f):
        if not isinstance(f, list) or not f:
            return self.say("a stray %s" % sx_text(f))
        k = f[0]
        if k in ("set-logic", "set-option", "set-info", "declare-sort", "define-sort"):
            return
        if k in ("assert", "constraint", "declare-const", "declare-var", "define-fun", "define-fun-rec", "declare-fun") and self.check:
            self.say("%s comes after the solver is asked" % sx_text(f)[:60])
        if k == "declare-datatypes":
            for d in f[2]:
                cons = d[2] if d and d[0] == "par" else d
                for c in cons:
                    c = [c] if isinstance(c, str) else c
                    self.new(c[0], len(c) - 1, "constructor")
                    for s in c[1:]:
                        self.new(s[0], 1, "selector")
        elif k in ("define-fun", "define-fun-rec"):
            if len(f) != 5:
                return self.say("%s is no definition" % sx_text(f)[:80])
            ps = [(p[0], sx_text(p[1])) for p in f[2]]
            if len({p for p, _ in ps}) != len(ps):
                self.say("%s has two parameters of one name" % f[1])
            if k == "define-fun-rec":
                self.new(f[1], len(ps))
            self.term(f[4], {p for p, _ in ps}, "the definition of %s" % f[1])
            if k == "define-fun":
                self.new(f[1], len(ps))
            self.params[f[1]], self.bodies[f[1]], self.ret[f[1]] = ps, f[4], sx_text(f[3])
        elif k == "declare-fun":
            self.new(f[1], len(f[2]))
            self.params[f[1]], self.ret[f[1]] = [(None, sx_text(s)) for s in f[2]], sx_text(f[3])
        elif k in ("declare-const", "declare-var"):
            self.new(f[1], 0, "variable")
            self.vars.setdefault(f[1], []).append(sx_text(f[2]))
        elif k == "synth-fun":
            ps = [(p[0], sx_text(p[1])) for p in f[2]]
            self.new(f[1], len(ps))
            self.params[f[1]], self.ret[f[1]] = ps, sx_text(f[3])
        elif k == "assert":
            self.term(f[1], set(), "an assertion")
            self.asserts.append(f[1])
        elif k == "constraint":
            self.term(f[1], set(), "a constraint")
            self.constraints.append(f[1])
        elif k in ("check-sat", "check-synth"):
            self.check += 1
        elif k in ("get-model", "exit", "get-value", "get-unsat-core"):
            if not self.check:
                self.say("%s before the solver is asked" % k)
        else:
            self.say("unknown command %s" % k)

    def term(self, t, loc, where):
        if isinstance(t, str):
            if t.lstrip("-").isdigit() and not t.startswith("-") or t in loc or (t.startswith('"')):
                return
            if t in self.env:
                if self.env[t] != 0:
                    self.say("%s uses the function %s as a value" % (where, t))
                return
            if t in ("true", "false"):
                return
            return self.say("%s uses %s, which is not defined before" % (where, t))
        if not t:
            return self.say("%s contains ()" % where)
        h = t[0]
        if isinstance(h, list):
            if h[:1] == ["as"]:
                return [self.term(x, loc, where) for x in t[1:]] and None
            if h[:1] == ["_"]:
                return [self.term(x, loc, where) for x in t[1:]] and None
            return self.say("%s applies %s" % (where, sx_text(h)))
        if h == "as":
            if t[1] not in ("nil", "set.empty") and t[1] not in self.env:
                self.say("%s uses %s, which is not defined before" % (where, t[1]))
            return
        if h in ("forall", "exists"):
            names = {v[0] for v in t[1]}
            if len(t) != 3 or not t[1] or any(len(v) != 2 for v in t[1]):
                return self.say("%s contains a malformed quantifier" % where)
            return self.term(t[2], loc | names, where)
        if h == "let":
            for v, e in t[1]:
                self.term(e, loc, where)
            return self.term(t[2], loc | {v for v, _ in t[1]}, where)
        if h == "!":
            return self.term(t[1], loc, where)
        n = len(t) - 1
        if h in loc:
            self.say("%s applies its variable %s" % (where, h))
        elif h in self.env:
            if self.env[h] != n or n == 0:
                self.say("%s calls %s with %d arguments, it takes %d" % (where, h, n, self.env[h]))
        elif h in THEORY:
            lo, hi = THEORY[h]
            if not lo <= n <= hi or n == 0:
                self.say("%s applies %s to %d arguments" % (where, h, n))
        else:
            self.say("%s calls %s, which is not defined before" % (where, h))
        for x in t[1:]:
            self.term(x, loc, where)
