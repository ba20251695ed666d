"""The LLVM front end under analysis: programs of the small language are compiled to the instructions clang emits without
optimisation, after the pass that gives every conditional edge its own block; the instructions are built as abstract objects,
the repository's visitor is interpreted over them and the obligations it records are read back."""
from __future__ import annotations

from . import progs
from .irh import IRH, canon
from .progs import node, written  # noqa: F401
from .pyfront import Mismatch, convert
from .values import *  # noqa: F401,F403

LF = "metalift.frontend.llvm"
OPC = {"+": "add", "-": "sub", "*": "mul", "//": "sdiv", "%": "srem"}
PRED = {"<": "slt", "<=": "sle", ">": "sgt", ">=": "sge", "==": "eq", "!=": "ne"}
VEC = '%"class.std::__1::vector"'
TYPES = {"int": "i32", "bool": "i1", ("list", "int"): "%struct.list*", ("set", "int"): "%struct.set*", "tuple": "%struct.tup*",
         "long": "i64", "vec": VEC, "vec2": VEC + ".1", "vec3": VEC + ".2", "void": "void"}
VECS = ("vec", "vec2", "vec3", "sret")
V1 = "std::__1::vector<int, std::__1::allocator<int> >"
V2 = "std::__1::vector<%s, std::__1::allocator<%s > >" % (V1, V1)
V3 = "std::__1::vector<%s, std::__1::allocator<%s > >" % (V2, V2)
# what c++filt answers
NAMES = {
    "_ZV1C": V1 + "::vector()", "_ZV1S": V1 + "::size() const", "_ZV1P": V1 + "::push_back(int const&)", "_ZV1M": V1 + "::push_back(int&&)",
    "_ZV1G": V1 + "::operator[](unsigned long)", "_ZV1D": V1 + "::~vector()",
    "_ZV2C": V2 + "::vector()", "_ZV2S": V2 + "::size() const", "_ZV2P": V2 + "::push_back(%s const&)" % V1,
    "_ZV2G": V2 + "::operator[](unsigned long)",
    "_ZV3C": V3 + "::vector()", "_ZV3S": V3 + "::size() const", "_ZV3P": V3 + "::push_back(%s const&)" % V2, "_ZV3G": V3 + "::operator[](unsigned long)",
    "_Z7newListIiEP4listIT_Ev": "list<int>* newList<int>()", "_Z10listLengthIiEiP4listIT_E": "int listLength<int>(list<int>*)",
    "_Z7listGetIiET_P4listIS0_Ei": "int listGet<int>(list<int>*, int)", "_Z10listAppendIiEP4listIT_ES3_S1_": "list<int>* listAppend<int>(list<int>*, int)",
    "_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_": "tup<int, int>* MakeTuple<int, int>(int, int)", "_Z8tupleGetIJiiELi0EEiP3tupIJDpT_EEi": "int tupleGet<int, int>(tup<int, int>*, int)",
}


class Emit:
    """mini language -> blocks of instructions. A value is ("arg", n, ty) | ("ins", n, ty) | ("con", text, ty) | ("blk", n) | ("fun", n)"""

    def __init__(self, name, params, body, ret="int", types=None, style="direct", swap=False):
        self.name, self.params, self.retty, self.style = name, params, ret, style
        self.types = dict(types or {})
        self.blocks, self.order = {}, []
        self.n = self.nb = 0
        self.loops = {}            # loop index -> header block
        self.targets = []
        self.cur = self.new("entry")
        self.locals = sorted(locals_of(body))
        for p, t in params:
            if t not in VECS:
                self.types[p + ".addr"] = t
        if style == "clang" and ret != "void":
            self.alloca("retval", ret)
        for v in [p + ".addr" for p, t in params if t not in VECS] + self.locals:
            self.alloca(v, self.types.get(v, "int"))
        for p, t in params:
            if t not in VECS:
                self.put("store", None, "void", [("arg", p, TYPES[t]), self.slot(p + ".addr")])
        self.body(body)
        if style == "clang" and ret != "void":
            if self.cur is not None:
                raise KeyError("no return")
            self.cur = self.new("return")
            v = self.put("load", self.tmp(), TYPES[ret], [("ins", "retval", TYPES[ret] + "*")])
            self.put("ret", None, "void", [v])
        self.prune()

    def new(self, hint):
        n = hint
        while n in self.blocks:
            self.nb += 1
            n = "%s%d" % (hint, self.nb)
        self.blocks[n] = []
        self.order.append(n)
        return n

    def tmp(self):
        self.n += 1
        return "tmp%d" % self.n

    def put(self, op, name, ty, ops, text=None):
        if self.cur is None:
            self.cur = self.new("dead")
        self.blocks[self.cur].append((op, name or "", ty, list(ops), text or itext(op, name, ty, ops)))
        return ("ins", name, ty)

    def alloca(self, v, t):
        self.put("alloca", v, TYPES[t] + "*", [("con", "1", "i32")], "%%%s = alloca %s, align 8" % (v, TYPES[t]))

    def slot(self, v):
        t = self.types.get(v, "int")
        p = dict(self.params).get(v)
        if p is not None:
            return ("arg", v, ptr(p))
        return ("ins", v, TYPES[t] + "*")

    # expressions
    def ex(self, e):
        k = e[0]
        if k == "var":
            t = self.types.get(e[1], "int")
            return self.put("load", self.tmp(), TYPES[t], [self.slot(e[1])])
        if k == "int":
            return ("con", str(e[1]), "i32")
        if k == "neg":
            return self.put("sub", self.tmp(), "i32", [("con", "0", "i32"), self.ex(e[1])])
        if k == "op":
            l = self.ex(e[2])
            return self.put(OPC[e[1]], self.tmp(), "i32", [l, self.ex(e[3])])
        if k == "cmp":
            l = self.ex(e[2][0])
            r = self.ex(e[2][1])
            n = self.tmp()
            return self.put("icmp", n, "i1", [l, r], "%%%s = icmp %s %s %s, %s" % (n, PRED.get(e[1][0], e[1][0]), l[2], vtext(l), vtext(r)))
        if k == "raw":           # ("raw", opcode, type, operands, text or None)
            ops = [self.ex(x) for x in e[3]]
            n = self.tmp()
            return self.put(e[1], n, e[2], ops, e[4] and e[4] % tuple([n] + [vtext(o) for o in ops]))
        if k == "const":
            return ("con", e[1], e[2])
        if k == "slot":
            return self.slot(e[1])
        if k == "call":          # ("call", symbol, args, type)
            a = [self.ex(x) for x in e[2]]
            t = e[3] if len(e) > 3 else "i32"
            return self.put("call", self.tmp() if t != "void" else None, t, a + [("fun", e[1])])
        if k == "icmpult":
            i = self.put("sext", self.tmp(), "i64", [self.ex(e[1])])
            n = self.ex(("call", "_ZV1S", [("slot", e[2])], "i64"))
            t = self.tmp()
            return self.put("icmp", t, "i1", [i, n], "%%%s = icmp ult i64 %s, %s" % (t, vtext(i), vtext(n)))
        if k == "vlen":
            return self.put("trunc", self.tmp(), "i32", [self.ex(("call", e[2] if len(e) > 2 else "_ZV1S", [("slot", e[1])], "i64"))])
        if k == "vget":
            i = self.put("sext", self.tmp(), "i64", [self.ex(e[2])])
            c = self.put("call", self.tmp(), "i32*", [self.ex(e[1]) if isinstance(e[1], tuple) else self.slot(e[1]), i, ("fun", e[3] if len(e) > 3 else "_ZV1G")])
            return self.put("load", self.tmp(), "i32", [c]) if len(e) < 5 else c
        raise KeyError(k)

    def cond(self, c, t, f):
        """branch to t or f through an empty block each"""
        k = c[0]
        if k == "and":
            m = self.new("land.rhs")
            self.cond(c[1], m, f)
            self.cur = m
            return self.cond(c[2], t, f)
        if k == "or":
            m = self.new("lor.rhs")
            self.cond(c[1], t, m)
            self.cur = m
            return self.cond(c[2], t, f)
        if k == "not":
            return self.cond(c[1], f, t)
        v = self.ex(c)
        a, b = self.new("bb"), self.new("bb")
        self.put("br", None, "void", [v, ("blk", b), ("blk", a)])
        for x, to in ((a, t), (b, f)):
            self.cur = x
            self.jump(to)

    def jump(self, to):
        if self.cur is not None:
            self.put("br", None, "void", [("blk", to)])
        self.cur = None

    # statements
    def body(self, b):
        for s in b:
            if self.cur is None:
                return
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        if k == "assign":
            v = self.ex(s[2])
            self.put("store", None, "void", [v, self.slot(s[1])])
        elif k == "expr":
            self.ex(s[1])
        elif k == "vpush":
            t = self.slot("ref.tmp")
            self.put("store", None, "void", [self.ex(s[2]), t])
            self.put("call", None, "void", [self.slot(s[1]), t, ("fun", s[3] if len(s) > 3 else "_ZV1M")])
        elif k == "vpushv":      # a vector is pushed
            self.put("call", None, "void", [self.slot(s[1]), self.slot(s[2]), ("fun", s[3] if len(s) > 3 else "_ZV2P")])
        elif k == "store":
            self.put("store", None, "void", [self.ex(s[1]), self.ex(s[2])])
        elif k == "alloca":
            self.put("alloca", self.tmp(), s[1] + "*", [("con", "1", "i32")], "%%tmp%d = alloca %s, align 8" % (self.n, s[1]))
        elif k == "switch":
            v = self.ex(s[1])
            ts = [(c, self.new("sw.bb"), b) for c, b in s[2]]
            d = self.new("sw.default")
            self.put("switch", None, "void", [v, ("blk", d)] + [x for c, n, b in ts for x in (("con", str(c), "i32"), ("blk", n))])
            for _, n, b in ts + [(None, d, s[3])]:
                self.cur = n
                self.body(b)
        elif k == "vnew":
            self.put("call", None, "void", [self.slot(s[1]), ("fun", s[2] if len(s) > 2 else "_ZV1C")])
        elif k == "return":
            if s[1] is None:
                self.put("ret", None, "void", [])
                self.cur = None
                return
            if s[1][0] == "slot":
                v = self.slot(s[1][1])
            else:
                v = self.ex(s[1])
            if self.style == "clang":
                self.put("store", None, "void", [v, ("ins", "retval", v[2] + "*")])
                self.jump("return")
            else:
                self.put("ret", None, "void", [v])
                self.cur = None
        elif k == "if":
            t = self.new("if.then")
            e = self.new("if.else") if s[3] else None
            end = self.new("if.end")
            self.cond(s[1], t, e or end)
            self.cur = t
            self.body(s[2])
            self.jump(end)
            if e:
                self.cur = e
                self.body(s[3])
                self.jump(end)
            self.cur = end
            if not self.preds(end):
                self.cur = None
        elif k == "while":
            h, b, x = self.new("while.cond"), self.new("while.body"), self.new("while.end")
            self.jump(h)
            self.cur = h
            self.cond(s[1], b, x)
            self.loop(s[3], h, b, x, h, s[2])
            self.jump(h)
            self.cur = x
        elif k == "do":
            b, c, x = self.new("do.body"), self.new("do.cond"), self.new("do.end")
            self.jump(b)
            self.loop(s[3], b, b, x, c, s[1])
            self.jump(c)
            self.cur = c if self.preds(c) else None
            if self.cur:
                self.cond(s[2], b, x)
            self.cur = x if self.preds(x) else None
        elif k == "for":
            h, b, inc, x = self.new("for.cond"), self.new("for.body"), self.new("for.inc"), self.new("for.end")
            self.jump(h)
            self.cur = h
            self.cond(s[1], b, x)
            self.loop(s[4], h, b, x, inc, s[3])
            self.jump(inc)
            self.cur = inc if self.preds(inc) else None
            if self.cur:
                self.body(s[2])
                self.jump(h)
            self.cur = x
        elif k == "break":
            self.jump(self.targets[-1][0])
        elif k == "continue":
            self.jump(self.targets[-1][1])
        else:
            raise KeyError(k)

    def loop(self, idx, h, b, x, cont, body):
        self.loops[idx] = h
        self.targets.append((x, cont))
        self.cur = b
        self.body(body)
        self.targets.pop()

    # graph
    def succs(self, b):
        i = self.blocks[b][-1] if self.blocks[b] else None
        return [o[1] for o in i[3] if o[0] == "blk"] if i else []

    def preds(self, b):
        return [x for x in self.order if b in self.succs(x)]

    def prune(self):
        """unreachable blocks are removed (the unreachableblockelim pass)"""
        seen, todo = {"entry"}, ["entry"]
        while todo:
            for s in self.succs(todo.pop()):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        self.order = [b for b in self.order if b in seen]
        self.blocks = {b: self.blocks[b] for b in self.order}

    def natural(self):
        """[(loop index, depth, header, blocks, latches, exiting)] as the loop analysis prints them: outer loops first"""
        out = []
        for idx, h in self.loops.items():
            if h not in self.blocks:
                continue
            dom = self.dominated(h)
            latches = [p for p in self.preds(h) if p in dom]
            if not latches:
                continue
            body, todo = {h}, list(latches)
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo.extend(self.preds(b))
            out.append((idx, h, body, latches, [b for b in body if any(s not in body for s in self.succs(b))]))
        out = [(i, 1 + sum(1 for o in out if o[1] != h and h in o[2]), h, [b for b in self.order if b in body], l, x) for i, h, body, l, x in out]
        return sorted(out, key=lambda o: self.order.index(o[2]))

    def dominated(self, h):
        """the blocks every path from the entry to which goes through h"""
        seen, todo = {"entry"} - {h}, ["entry"] if h != "entry" else []
        while todo:
            for s in self.succs(todo.pop()):
                if s != h and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return set(self.order) - seen


def vtext(o):
    return o[1] if o[0] == "con" else "@" + o[1] if o[0] == "fun" else "%" + o[1]


def itext(op, name, ty, ops):
    if op == "br":
        return "br " + ", ".join(("label " if o[0] == "blk" else "i1 ") + vtext(o) for o in ops[:1] + ops[:0:-1])
    s = "%s %s %s" % (op, ty, ", ".join("%s %s" % (o[2] if len(o) > 2 else "", vtext(o)) for o in ops))
    return ("%%%s = " % name if name else "") + s


def ptr(t):
    return {"vec": VEC + "*", "vec2": VEC + ".1*", "vec3": VEC + ".2*", "sret": VEC + "*"}.get(t) or TYPES[t]


def locals_of(body):
    out = set()
    for s in body:
        if s[0] == "assign" and not s[1].endswith(".addr"):
            out.add(s[1])
        elif s[0] == "vpush":
            out.add("ref.tmp")
        elif s[0] == "vnew" and not s[1].startswith("agg."):
            out.add(s[1])
        elif s[0] == "if":
            out |= locals_of(s[2]) | locals_of(s[3] or [])
        elif s[0] == "while":
            out |= locals_of(s[2])
        elif s[0] == "do":
            out |= locals_of(s[1])
        elif s[0] == "for":
            out |= locals_of(s[2]) | locals_of(s[3])
    return out


def lower(x, ps):
    """the source program with its parameters in memory"""
    if isinstance(x, list):
        return [lower(y, ps) for y in x]
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "var" and x[1] in ps:
            return ("var", x[1] + ".addr")
        if x and x[0] == "assign" and x[1] in ps:
            return ("assign", x[1] + ".addr", lower(x[2], ps))
        return tuple(lower(y, ps) if isinstance(y, (tuple, list)) else y for y in x)
    return x


def number(body, c=None):
    c = [0] if c is None else c
    out = []
    for s in body:
        if s[0] == "if":
            out.append(("if", s[1], number(s[2], c), number(s[3], c) if s[3] is not None else None))
        elif s[0] in ("while", "do", "for"):
            k = c[0]
            c[0] += 1
            at = {"while": 2, "do": 1, "for": 3}[s[0]]
            x = [number(y, c) if i == at else y for i, y in enumerate(s)]
            out.append(tuple(x) + (k,))
        else:
            out.append(s)
    return out


# ---------------------------------------------------------------- the reference
def back(body, end, brk, cont):
    """(does some path through body get to the end of the enclosing loop's round, what is written on such paths)"""
    reach, w = end, set()
    for s in reversed(body):
        k = s[0]
        if k == "return":
            reach, w = False, set()
        elif k == "break":
            reach, w = brk, set()
        elif k == "continue":
            reach, w = cont, set()
        elif k == "if":
            r1, w1 = back(s[2], reach, brk, cont)
            r2, w2 = back(s[3] or [], reach, brk, cont)
            w = w | w1 | w2 if reach else w1 | w2
            reach = r1 or r2
        elif k in ("while", "do", "for"):
            if reach:
                b = s[1] if k == "do" else s[3] if k == "for" else s[2]
                w |= back(b, True, True, True)[1]
                if k == "for":
                    w |= back(s[2], True, True, True)[1]
        elif reach:
            if k == "assign":
                w.add(s[1])
            elif k == "vpush":
                w |= {s[1], "ref.tmp"}
            elif k == "vpushv":
                w.add(s[1])
    return reach, w


class PathRef(progs.Ref):
    """reference conditions path by path: every path from a cut point (entry, loop head) to the next one or to a return"""

    def paths(self, body, s):
        """[(state, outcome)] with outcome next | return | break | continue"""
        live, out = [s], []
        for st in body:
            nxt = []
            for x in live:
                for y, o in self.step(st, x):
                    (nxt if o == "next" else out).append(y if o == "next" else (y, o))
            live = nxt
        return [(x, "next") for x in live] + out

    def step(self, st, s):
        k = st[0]
        s = self.copy(s)
        if k == "assign":
            s["vars"][st[1]] = self.ev(st[2], s)
            return [(s, "next")]
        if k == "expr":
            self.ev(st[1], s)
            return [(s, "next")]
        if k == "vpush":
            s["vars"]["ref.tmp"] = self.ev(st[2], s)
            v = s["vars"][st[1]]
            s["vars"][st[1]] = node("Call", {"_ZV2P": "matrix_append", "_ZV3P": "tensor3d_append"}.get(st[3] if len(st) > 3 else "", "list_append"), v, s["vars"]["ref.tmp"])
            return [(s, "next")]
        if k == "vpushv":
            s["vars"][st[1]] = node("Call", "tensor3d_append" if len(st) > 3 and st[3] == "_ZV3P" else "matrix_append", s["vars"][st[1]], s["vars"][st[2]])
            return [(s, "next")]
        if k == "vnew":
            s["vars"][st[1]] = node("Call", {"_ZV2C": "matrix_empty", "_ZV3C": "tensor3d_empty"}.get(st[2] if len(st) > 2 else "", "list_empty"))
            return [(s, "next")]
        if k == "return":
            v = s["vars"]["agg.result"] if st[1] is None else s["vars"][st[1][1]] if st[1][0] == "slot" else self.ev(st[1], s)
            self.prove(s, ("Ps", self.fn) + tuple(self.args) + (v,))
            return [(s, "return")]
        if k in ("break", "continue"):
            return [(s, k)]
        if k == "if":
            out = []
            for c, b in ((self.ev(st[1], s), st[2]), (node("Not", self.ev(st[1], s)), st[3] or [])):
                x = self.copy(s)
                x["pre"].append(c)
                out += self.paths(b, x)
            return out
        if k in ("while", "do", "for"):
            i = st[-1]
            body = st[1] if k == "do" else st[3] if k == "for" else st[2]
            cond = st[2] if k == "do" else st[1]
            w = back(body, True, False, True)[1]
            if k == "for":
                w = w | back(st[2], True, False, True)[1]
            looping = back(body, True, False, True)[0]
            self.info.setdefault(i, {"writes": w, "scope": set(s["vars"]), "looping": looping})
            if looping:
                self.prove(s, self.inv(i, s))
                for v in sorted(w):
                    nm = "%s@%d" % (v, i)
                    if (v, nm) not in self.havocs:
                        self.havocs.append((v, nm))
                    s["vars"][v] = ("Var", nm)
                s["pre"].append(self.inv(i, s))
            out = []
            if k == "do":
                rounds = [s]
            else:
                x, y = self.copy(s), self.copy(s)
                x["pre"].append(self.ev(cond, s))
                y["pre"].append(node("Not", self.ev(cond, s)))
                rounds = [x]
                out.append((y, "next"))
            for x in rounds:
                for y, o in self.paths(body, x):
                    if o == "return":
                        out.append((y, o))
                    elif o == "break":
                        out.append((y, "next"))
                    else:
                        ends = [y]
                        if k == "for":
                            ends = [z for z, _ in self.paths(st[2], y)]
                        for z in ends:
                            if k == "do":
                                a, b = self.copy(z), self.copy(z)
                                a["pre"].append(self.ev(cond, z))
                                b["pre"].append(node("Not", self.ev(cond, z)))
                                out.append((b, "next"))
                                z = a
                            self.prove(z, self.inv(i, z))
            return out
        raise KeyError(k)


MODELS = {
    "newList": lambda: node("Call", "list_empty"), "listLength": lambda l: node("Call", "list_length", l), "matrixLength": lambda l: node("Call", "matrix_length", l), "tensorLength": lambda l: node("Call", "tensor3d_length", l), "listGet": lambda l, i: node("Call", "list_get", l, i),
    "listAppend": lambda l, x: node("Call", "list_append", l, x), "set_create": lambda: node("Call", "set-create"),
    "set_add": lambda s, x: node("Call", "set-insert", x, s), "set_remove": lambda s, x: node("Call", "set-minus", s, node("Call", "set-singleton", x)),
    "set_contains": lambda s, x: node("Call", "set-member", x, s), "MakeTuple": lambda *a: node("Call", "make-tuple", *a),
    "tupleGet": lambda t, i: node("TupleGet", t, i), "integer_sqrt": lambda x: node("Call", "integer_sqrt", x), "integer_exp": lambda x: node("Call", "integer_exp", x),
}
SYMBOL = {"_Z7newListIiEP4listIT_Ev": "newList", "_Z10listLengthIiEiP4listIT_E": "listLength", "_Z7listGetIiET_P4listIS0_Ei": "listGet",
          "_Z10listAppendIiEP4listIT_ES3_S1_": "listAppend", "_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_": "MakeTuple",
          "_Z8tupleGetIJiiELi0EEiP3tupIJDpT_EEi": "tupleGet", "_ZV1S": "listLength", "_ZV2S": "matrixLength", "_ZV3S": "tensorLength",
          "_Z12integer_sqrti": "integer_sqrt", "_Z11integer_expi": "integer_exp", "_Z1fi": "f", "_Z1gii": "g"}


def ll_ev(ref, e, s):
    k = e[0]
    if k == "vlen":
        return node("Call", {"_ZV2S": "matrix_length", "_ZV3S": "tensor3d_length"}.get(e[2] if len(e) > 2 else "", "list_length"), s["vars"][e[1]])
    if k == "vget":
        l = ref.ev(e[1], s) if isinstance(e[1], tuple) else s["vars"][e[1]]
        return node("Call", {"_ZV2G": "matrix_get", "_ZV3G": "tensor3d_get"}.get(e[3] if len(e) > 3 else "", "list_get"), l, ref.ev(e[2], s))
    if k == "icmpult":
        return node("Lt", ref.ev(e[1], s), node("Call", "list_length", s["vars"][e[2]]))
    if k == "slot":
        return s["vars"][e[1]]
    if k == "raw":
        return e[5](*[ref.ev(x, s) for x in e[3]])
    if k == "const":
        return ("Lit", {"true": True, "false": False}.get(e[1], None) if e[1] in ("true", "false") else int(e[1]))
    raise KeyError(k)


class LLRef(PathRef):
    def ev(self, e, s):
        if e[0] == "call":
            n = SYMBOL.get(e[1], e[1])
            a = [self.ev(x, s) for x in e[2]]
            return MODELS[n](*a) if n in MODELS else node("Call", n, *a)
        return progs.Ref.ev(self, e, s)


# ---------------------------------------------------------------- running the repository's front end
class LLFront:
    def __init__(self, ctx):
        self.ctx = ctx
        self.h = IRH(ctx)
        self.it = ctx.it
        self.it.load_module(LF)
        self.Driver = ctx.lookup(LF + ":Driver")
        self.InvGrammar = ctx.lookup(LF + ":InvGrammar")
        self.demangle = dict(NAMES)

    def ty(self, t):
        it = self.it
        if t not in self.tys:
            self.tys[t] = it.new_inst(Ext("llvmlite.binding.TypeRef"), {"is_pointer": K(t.endswith("*")), "name": K(""), "args": Tup([K(t)])})
        return self.tys[t]

    def value(self, name, ty, text, **f):
        it = self.it
        r = it.new_inst(Ext("llvmlite.binding.ValueRef"), {"name": K(name), "type": self.ty(ty), "args": Tup([K(text)])})
        d = {"is_instruction": FALSE, "is_argument": FALSE, "is_block": FALSE, "is_function": FALSE, "is_global": FALSE, "is_constant": FALSE,
             "attributes": it.new_list([])}
        d.update(f)
        it.mut(r).fields.update(d)
        return r

    def function(self, e, symbol=None):
        """the abstract objects of an emitted function"""
        it = self.it
        sym = symbol or e.name
        vals = {}
        args = []
        for p, t in e.params:
            at = it.new_list([K(b"sret"), K(b"noalias")] if t == "sret" else [])
            a = self.value(p, ptr(t), "%s %%%s" % (ptr(t), p), is_argument=TRUE, attributes=at)
            vals[("arg", p)] = a
            args.append(a)
        blocks = []
        for b in e.order:
            vals[("blk", b)] = self.value(b, "label", b + ":", is_block=TRUE)
        for b in e.order:
            for op, name, ty, ops, text in e.blocks[b]:
                vals[("ins", name)] = None
        pend = []
        for b in e.order:
            ins = []
            for op, name, ty, ops, text in e.blocks[b]:
                i = self.value(name, ty, text, is_instruction=TRUE, opcode=K(op))
                if name:
                    vals[("ins", name)] = i
                pend.append((i, ops))
                ins.append(i)
            it.mut(vals[("blk", b)]).fields["instructions"] = it.new_list(ins)
            blocks.append(vals[("blk", b)])
        for i, ops in pend:
            os = []
            for o in ops:
                if o[0] == "con":
                    os.append(self.value("", o[2], "%s %s" % (o[2], o[1]), is_constant=TRUE))
                elif o[0] == "fun":
                    os.append(self.value(o[1], "i32 ()*", "declare i32 @%s(...)" % o[1], is_function=TRUE))
                else:
                    os.append(vals[(o[0], o[1])])
            it.mut(i).fields["operands"] = it.new_list(os)
        return self.value(sym, "i32 ()*", "define %s" % sym, is_function=TRUE, blocks=it.new_list(blocks), arguments=it.new_list(args))

    def install(self, emitted, order=None):
        """what llvmlite, c++filt and the files answer. emitted: [(Emit, symbol)]"""
        it = self.it
        self.tys = {}
        decoy = Emit("decoy", [("a", "int")], number([("assign", "i", ("int", 0)), ("while", ("cmp", ["<"], [("var", "i"), ("int", 1)]), [("assign", "i", ("int", 3))]), ("return", ("int", 0))]))
        loops = []
        self.invs = {}
        everything = [(decoy, "x" + emitted[0][1])] + emitted + [(decoy, emitted[-1][1] + "2")]
        for e, sym in everything:
            loops.append("Printing analysis 'Natural Loop Information' for function '%s':" % sym)
            nat = e.natural()
            if order:
                nat = order(nat)
            for k, (idx, depth, h, blocks, latches, exiting) in enumerate(nat):
                self.invs[(e.name, k)] = idx
                loops.append("%sLoop at depth %d containing: %s" % ("    " * depth, depth, ",".join(
                    "%%%s%s%s%s" % (b, "<header>" if b == h else "", "<latch>" if b in latches else "", "<exiting>" if b in exiting else "")
                    for b in [h] + [b for b in blocks if b != h])))
        text = "\n".join(loops) + "\n"

        def parse(it_, a, kw):
            if a[0] != K("llvm"):
                raise it_.exc("builtins.RuntimeError", "LLVM IR parsing error")
            fns = [self.function(e, sym) for e, sym in everything]
            byname = {it.get(f).fields["name"].v: f for f in fns}

            def get_function(it_, a, kw):
                if a[0].v not in byname:
                    raise it_.exc("builtins.NameError", a[0].v)
                return byname[a[0].v]
            return it.new_inst(Ext("llvmlite.binding.ModuleRef"), {"functions": it.new_list(fns), "get_function": Native("get_function", get_function)})
        files = {"t.ll": "llvm", "t.loops": text}

        def open_(it_, a, kw):
            t = files[a[0].v]
            return it_.new_inst(Ext("io.TextIOWrapper"), {"read": Native("read", lambda i2, x, y: K(t)), "readlines": Native("readlines", lambda i2, x, y: i2.new_list([K(l) for l in t.splitlines(True)])),
                                                          "close": Native("close", lambda i2, x, y: NONE)})

        def run_(it_, a, kw):
            args = [x.v for x in it_.iter_items(a[0])]
            if args[0] != "c++filt":
                raise it_.exc("builtins.FileNotFoundError", args[0])
            n = args[-1]
            out = self.demangle.get(n, "%s(int, int)" % self.plain[n] if n in self.plain else n)
            return it_.new_inst(Ext("subprocess.CompletedProcess"), {"stdout": K((out + "\n").encode()), "returncode": K(0), "stderr": K(b"")})
        self.plain = {sym: e.name for e, sym in emitted if sym != e.name}
        it.ext_models["builtins.open"] = open_
        it.ext_models["subprocess.run"] = run_
        it.ext_models["llvmlite.binding.parse_assembly"] = parse

    def objects(self, driver, params):
        h, it = self.h, self.it
        tm = {"int": "Int", "bool": "Bool", ("list", "int"): ("List", "Int"), ("set", "int"): ("Set", "Int"), "vec": ("List", "Int"), "vec2": ("Matrix", "Int"), "vec3": ("Tensor3D", "Int")}
        out = []
        for n, t in params:
            if t == "sret":
                continue
            o = h.fn("create_object", h.ty(tm[t]), K(n))
            it.call(it.getattr(driver, "add_var_object"), [o], {})
            out.append(o)
        return out

    def driver(self):
        return self.it.call(self.Driver, [], {})

    def analyze(self, driver, e, in_scope=None, override=None):
        """the driver's analysed function; in_scope: loop -> names the user asks the invariant to range over"""
        it = self.it
        self.calls = getattr(self, "calls", None) or []
        inv = []
        n = len(e.loops)
        for k in range(n):
            g = Native("grammar", self.grammar(("Inv", e.name, k)))
            kw = {}
            if override and override.get(k):
                kw["override_args"] = it.new_list(override[k])
            inv.append((K("%s_inv%d" % (e.name, k)), it.call(self.InvGrammar, [g, it.new_list([K(x) for x in (in_scope or {}).get(k, [])])], kw)))
        g = Native("grammar", self.grammar(("Ps", e.name, None)))
        return it.call(it.getattr(driver, "analyze"), [], {
            "llvm_filepath": K("t.ll"), "loops_filepath": K("t.loops"), "fn_name": K(e.name), "target_lang_fn": Native("lang", lambda it_, a, kw: it_.new_list(self.lang(e.name))),
            "inv_grammars": it.alloc(HDict(inv)), "ps_grammar": g})

    def lang(self, fn):
        return []

    def grammar(self, who):
        def f(it, a, kw):
            self.calls.append((who, tuple([self.h.meth(o, "var_name").v for o in it.iter_items(x)] for x in a[:3]), kw.get("relaxed", a[3] if len(a) > 3 else None)))
            return self.h.mk("Bool", TRUE)
        return f

    def preds(self, driver):
        it = self.it
        out = {}
        for k, p in it.get(it.getattr(it.getattr(driver, "pred_tracker"), "predicates")).items:
            self.calls = []
            s = self.h.reify(it.call(it.getattr(p, "gen_synth"), [TRUE], {}))
            if len(self.calls) != 1 or self.calls[0][2] != TRUE:
                raise Mismatch("the grammar of a predicate is not called once, with the relaxed flag it is given")
            (kind, fn, i), off, _ = self.calls[0]
            nm = s.args[0].v
            args = [a.args[0].v if hasattr(a, "args") else a for a in s.args[2:]]
            out[nm] = (kind, self.invs[(fn, i)] if kind == "Inv" else fn, args, off)
        return out

    def read(self, driver):
        ps = self.preds(driver)
        return [((), convert(canon(self.h.reify(a)), ps)) for a in self.it.get(self.it.getattr(driver, "asserts")).items], ps


DEFAULT = {"int": ("Lit", 0), "bool": ("Lit", False), ("list", "int"): ("Call", "list_empty"), ("set", "int"): ("Call", "set-create"), "vec": ("Call", "list_empty"),
           "vec2": ("Call", "matrix_empty"), "vec3": ("Call", "tensor3d_empty"), "tuple": None}


def initial(e):
    s = {}
    for p, t in e.params:
        s[p] = ("Var", p)
        if p + ".addr" in e.types:
            s[p + ".addr"] = ("Var", p)
    for v in e.locals:
        s[v] = DEFAULT[e.types.get(v, "int")]
    return {"vars": s, "pre": [], "ret": False}


def emit(name, params, body, types=None, ret="int", style="direct", counter=None):
    ps = [p for p, t in params if t not in VECS]
    src = number(lower(body, ps), counter)
    return Emit(name, params, src, ret, types, style), src


def decide_ll(ctx, lf, key, params, body, where, types=None, ret="int", style="direct", in_scope=None, uninterp=(), symbol=None, order=None, allow_raise=False, reject=None, layout=None):
    """the obligations of the program are those of the reference; with reject, the program is refused"""
    from . import cases
    e, src = emit("t", params, body, types, ret, style)
    if layout:
        e.order = layout
    names = sorted(p for p, t in params if t != "sret")

    def go(it):
        lf.calls = []
        lf.install([(e, symbol or "t")], order)
        d = lf.driver()
        f = lf.analyze(d, e, in_scope)
        args = lf.objects(d, params)
        it.call(f, args, {"uninterp_fns": it.new_list([K(u) for u in uninterp])})
        return lf.read(d)

    def expect(v, r):
        return against(v[0], v[1], e, src, names, in_scope)
    if reject:
        lf.h.must_raise(key, lambda it: tuple(c for _, c in go(it)[0]), reject, where)
        return
    cases.run(ctx, lf, key, go, expect, where, allow_raise)


def play(lf, em, steps):
    """the drivers of a scenario"""
    it = lf.it
    lf.calls = []
    lf.install([(e, n) for n, (e, _) in em.items()])
    out, fobj, objs = [], {}, {}
    for s in steps:
        if s[0] == "driver":
            out.append(lf.driver())
            fobj, objs = {}, {}
        d = out[-1]
        if s[0] == "obj":
            objs[s[1]] = lf.objects(d, [(s[1], s[2])])[0]
        elif s[0] == "pre":
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__"}[s[1][1][0]]
            l, r = (objs[x[1]] if x[0] == "var" else lf.h.mk("Int", K(x[1])) for x in s[1][2])
            it.call(it.getattr(d, "add_precondition"), [lf.h.meth(l, m, r)], {})
        elif s[0] == "call":
            if s[1] not in fobj:
                fobj[s[1]] = lf.analyze(d, em[s[1]][0])
            it.call(fobj[s[1]], [objs[x] for x in s[2]], {})
    return out


def decide_scenario(ctx, lf, key, fns, steps, where):
    """fns: name -> (params, body, types, ret); steps: ("driver",) | ("obj", name, type) | ("pre", comparison) | ("call", function, [names of objects])"""
    from . import cases
    count = [0]
    em = {n: emit(n, p, b, ty, ret, counter=count) for n, (p, b, ty, ret) in fns.items()}

    def go(it):
        return [lf.read(d) for d in play(lf, em, steps)]

    def expect(v, r):
        i = -1
        for s in steps:
            if s[0] == "driver":
                if i >= 0:
                    m = progs.compare(v[i][0], obl, hav, fixed)
                    if m is not None:
                        return m + " (analysis %d)" % (i + 1)
                i += 1
                obl, hav, fixed, pre, n = [], [], set(), [], 0
            elif s[0] == "obj":
                fixed.add(s[1])
            elif s[0] == "pre":
                pre.append(progs.Ref("", []).ev(s[1], {"vars": {x: ("Var", x) for x in fixed}}))
            elif s[0] == "call":
                e, src = em[s[1]]
                names = sorted(p for p, t in e.params if t != "sret")
                ref = LLRef(s[1], names, {p[1]: p[2] for p in v[i][1].values() if p[0] == "Inv"}, ll_ev)
                st = initial(e)
                st["pre"] = list(pre)
                ref.paths(src, st)
                k = {h: "%s~%d" % (h, n) for _, h in ref.havocs}
                n += 1
                obl += [(tuple(progs.subst(x, k) for x in p), progs.subst(c, k)) for p, c in ref.obl]
                hav += [(a, k[h]) for a, h in ref.havocs]
        m = progs.compare(v[i][0], obl, hav, fixed)
        return m and m + (" (analysis %d)" % (i + 1) if i else "")
    cases.run(ctx, lf, key, go, expect, where)


def against(obl, pr, e, src, names, in_scope=None, ref=None):
    ref = LLRef(e.name, names, {p[1]: p[2] for p in pr.values() if p[0] == "Inv"}, ll_ev)
    try:
        ref.paths(src, initial(e))
    except KeyError as x:
        return "no invariant is generated for loop %s" % x
    for nm, (kind, k, args, off) in pr.items():
        m = declared(nm, kind, k, args, off, names, ref.info.get(k), in_scope, e.name)
        if m is not None:
            return m
    if not [1 for p in pr.values() if p[0] == "Ps"]:
        return "no summary is declared"
    return progs.compare(obl, ref.obl, ref.havocs, set(names))


def declared(nm, kind, k, args, off, names, info, in_scope, fn):
    if kind == "Ps":
        if args != names + [fn + "_rv"] or off[0] != args[-1:] or off[1] != names:
            return "the summary %s is declared over %s and its grammar offered (%s), (%s); the inputs are %s" % (nm, ", ".join(args), ", ".join(off[0]), ", ".join(off[1]), ", ".join(names))
        return None
    if info is None:
        return "the invariant %s belongs to a loop that is never reached" % nm
    base = sorted(info["writes"] | set(names))
    extra = sorted(set((in_scope or {}).get(k, [])) & info["scope"] - set(base))
    if args != base + extra:
        return "the invariant %s ranges over %s instead of %s" % (nm, ", ".join(args), ", ".join(base + extra))
    if off[0] != sorted(info["writes"]) or off[1] != names or sorted(off[2]) != sorted(set((in_scope or {}).get(k, [])) & info["scope"]):
        return "the grammar of %s is offered (%s), (%s), (%s)" % (nm, ", ".join(off[0]), ", ".join(off[1]), ", ".join(off[2]))
    return None
