"""Runs of the synthesis procedure in a virtual world: the synthesizer and the verifier are processes that answer what the rule decides."""
from __future__ import annotations

import os

from .irh import IRH, install_networkx
from .values import *  # noqa: F401,F403
from .world import World

SR = "metalift.synthesize_rosette"
SC = "metalift.synthesis_common"
SU = "metalift.smt_util"


# ------------------------------------------------------------ s-expressions
def sx_tokens(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif c in "()":
            out.append(c)
            i += 1
        elif c == "|":
            j = text.index("|", i + 1)
            out.append(text[i:j + 1])
            i = j + 1
        elif c == '"':
            j = text.index('"', i + 1)
            out.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "();":
                j += 1
            out.append(text[i:j])
            i = j
    return out


class SX(Exception):
    pass


def sx_parse(text):
    """all the s-expressions of a text, as nested lists of strings"""
    stack = [[]]
    for t in sx_tokens(text):
        if t == "(":
            stack.append([])
        elif t == ")":
            if len(stack) == 1:
                raise SX("unbalanced )")
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    if len(stack) != 1:
        raise SX("unbalanced (")
    return stack[0]


def sx_text(x):
    return x if isinstance(x, str) else "(%s)" % " ".join(sx_text(y) for y in x)


# ------------------------------------------------------------ pyparsing, as far as s-expressions go
def install_pyparsing(it):
    def nested(it_, a, kw):
        names = ("opener", "closer")
        vals = dict(zip(names, a))
        vals.update(kw)
        for n, d in zip(names, "()"):
            if n in vals and vals[n] != K(d):
                raise TypeError("nestedExpr with delimiters %s" % vals[n])
        return it_.new_inst(Ext("pyparsing.ParserElement"), {"kind": K("nested")})

    def tolist(it_, x):
        return K(x) if isinstance(x, str) else it_.new_list([tolist(it_, y) for y in x])

    def parse_with(it_, kind, a, kw):
        text = a[0]
        if not isinstance(text, K):
            raise TypeError("parsing a text that is not constant")
        try:
            xs = sx_parse(text.v)
        except SX as e:
            raise it_.exc("pyparsing.ParseException", str(e))
        if any(isinstance(x, str) for x in xs):
            raise it_.exc("pyparsing.ParseException", "Expected end of text")
        if kind == "nested":
            if len(xs) < 1:
                raise it_.exc("pyparsing.ParseException", "Expected nested () expression")
            xs = xs[:1]
        if kind == "some" and not xs:
            raise it_.exc("pyparsing.ParseException", "Expected nested () expression")
        r = it_.new_inst(Ext("pyparsing.ParseResults"), {})
        l = tolist(it_, xs)
        it_.mut(r).fields.update({"asList": Native("asList", lambda i, a_, k_: l), "as_list": Native("as_list", lambda i, a_, k_: l),
                                  "__getitem__": Native("getitem", lambda i, a_, k_: i.getitem(l, a_[0])), "__iter__": Native("iter", lambda i, a_, k_: l)})
        return r

    def rep(kind):
        def f(it_, a, kw):
            r = it_.new_inst(Ext("pyparsing.ParserElement"), {})
            p = Native("parse", lambda i, a_, k_: parse_with(i, kind, a_, k_))
            it_.mut(r).fields.update({"parseString": p, "parse_string": p})
            return r
        return f
    m = it.ext_models
    m["pyparsing.nestedExpr"] = m["pyparsing.nested_expr"] = rep("nested")
    m["pyparsing.ZeroOrMore"] = rep("any")
    m["pyparsing.OneOrMore"] = rep("some")


# ------------------------------------------------------------ one run of synthesize
class Proc:
    """a process whose life is a list of moments: each moment (a poll after time has passed) may write files and may end it"""

    def __init__(self, world, life, stdout="", stderr=""):
        self.world, self.life, self.stdout, self.stderr = world, list(life), stdout, stderr
        self.rc = None

    def step(self):
        if self.life and self.rc is None:
            m = self.life.pop(0)
            for p, t in m.get("files", {}).items():
                self.world.put(p, t)
                self.world.log.append(("answer", os.path.normpath(p)))
            if "exit" in m:
                self.rc = m["exit"]

    def poll(self):
        return self.rc


def answer_text(defs, found=True):
    """what print-forms writes: a path line before every definition"""
    if not found:
        return "#f\n"
    out = "#t\n"
    for d in defs:
        out += "/tmp/work/synthesisLogs/prog.rkt:12:0\n%s\n" % d
    return out


class Bench:
    """one problem: summary and invariant candidates with grammars, a condition, a target language"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = self.h.it
        install_networkx(self.it)
        install_pyparsing(self.it)
        self.it.load_module(SR)
        self.it.load_module(SC)

    def var(self, n, t="Int"):
        return self.h.mk("Var", K(n), self.h.ty(t))

    def lit(self, n):
        return self.h.mk("IntLit", K(n))

    def utils(self, package, name):
        root = os.path.join(self.ctx.it.repo, "metalift", "utils")
        p = os.path.join(root, name)
        if os.path.exists(p):
            with open(p) as f:
                return f.read()
        raise self.it.exc("builtins.FileNotFoundError", name)

    def world(self, life, verify, files=None):
        """life: moments of the synthesizer; verify(world, argv) -> (returncode, stdout)"""
        proc = []

        def popen(w, argv):
            p = Proc(w, life)
            proc.append(p)
            return p

        def sleep(w):
            for p in proc:
                p.step()
        w = World(self.it, files=files, popen=popen, run=verify, sleep=sleep, resource=self.utils)
        return w

    def synthesize(self, **kw):
        return self.it.call(self.ctx.lookup(SR + ":synthesize"), [], kw)
