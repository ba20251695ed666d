"""An abstract interpreter for the C++ of the LLVM pass.

clang parses the source against the installed LLVM headers and prints its typed
syntax tree (nothing of the pass is compiled or run); this module walks that
tree over an abstract model of the LLVM objects the pass touches (functions,
blocks, instructions, phis, standard containers).  Whatever is outside the
model raises Unmodelled: the obligation is then undecided, never passed.
"""
import json
import os
import re
import subprocess
import tempfile


class Unmodelled(Exception):
    pass


class Fault(Exception):
    """The analysed program does something undefined or asserts."""


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


FLAGS = ["-std=gnu++14", "-I/usr/lib/llvm-14/include", "-fno-rtti", "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
         "-Wno-everything"]


def parse(path, text=None):
    """The namespace holding the file's own declarations, as clang's JSON tree."""
    if text is None:
        text = open(path, encoding="utf-8").read()
    lines = text.split("\n")
    inc = [i for i, l in enumerate(lines) if re.match(r"\s*#\s*include\b", l)]
    # the includes may sit inside conditionals: the wrapper starts after the
    # directives that close them
    last = max(inc) if inc else -1
    depth = 0
    for i, l in enumerate(lines):
        if re.match(r"\s*#\s*if", l):
            depth += 1
        elif re.match(r"\s*#\s*endif", l):
            depth -= 1
        if i >= last and depth == 0:
            last = i
            break
    head = lines[:last + 1] + ["namespace sa_main {"]
    body = lines[last + 1:]
    src = "\n".join(head + body + ["}"])
    shift = len("namespace sa_main {\n")
    with tempfile.TemporaryDirectory(prefix="sacxx") as tmp:
        f = os.path.join(tmp, os.path.basename(path))
        with open(f, "w", encoding="utf-8") as h:
            h.write(src)
        cmd = ["clang++-18"] + FLAGS + ["-I" + os.path.dirname(path), "-fsyntax-only", "-Xclang", "-ast-dump=json",
                                        "-Xclang", "-ast-dump-filter=sa_main", f]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise Unmodelled("the source does not parse: " + r.stderr.decode("utf-8", "replace")[:300])
    out = r.stdout.decode("utf-8", "replace")
    i = out.index("{")
    node = json.JSONDecoder().raw_decode(out[i:])[0]
    if node.get("kind") != "NamespaceDecl":
        raise Unmodelled("unexpected syntax tree")
    return Unit(node, src, shift, last)


class Unit:
    def __init__(self, node, src, shift, wrapline):
        self.node = node
        self.src = src.encode("utf-8")
        self.wrapline = wrapline
        self.funcs = {}
        self.records = {}
        self.decls = {}
        self.globals = []
        self._index(node, None, False)

    def _index(self, n, rec, infn):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if "id" in n and k and k.endswith("Decl"):
            self.decls[n["id"]] = n
            n["_rec"] = rec
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            if any(isinstance(c, dict) and c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                self.funcs[n["id"]] = n
                if n.get("previousDecl"):
                    self.funcs[n["previousDecl"]] = n
            infn = True
        if k == "CXXRecordDecl" and n.get("name") and not n.get("isImplicit") and n.get("inner"):
            self.records[n["name"]] = n
            rec = n["name"]
        if k == "VarDecl" and not infn:
            self.globals.append(n)
        for c in n.get("inner", []):
            self._index(c, rec, infn)

    def text(self, n):
        r = n.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        b = b.get("expansionLoc", b)
        e = e.get("expansionLoc", e)
        if "offset" not in b or "offset" not in e:
            return ""
        return self.src[b["offset"]:e["offset"] + e.get("tokLen", 0)].decode("utf-8", "replace")

    def line(self, n):
        b = n.get("range", {}).get("begin", {})
        b = b.get("expansionLoc", b)
        if "offset" not in b:
            return 0
        ln = self.src.count(b"\n", 0, b["offset"]) + 1
        return ln - 1 if ln > self.wrapline + 1 else ln

    def methods(self, rec):
        return {m.get("name"): m for m in self.records.get(rec, {}).get("inner", [])
                if m.get("kind") == "CXXMethodDecl" and m["id"] in self.funcs or
                m.get("kind") == "CXXMethodDecl" and m.get("name")}


# ------------------------------------------------------------- locations


class Cell:
    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Item(Cell):
    """An element of a Python list or dict as a location."""
    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        try:
            return self.c[self.k]
        except (IndexError, KeyError):
            raise Fault("access outside a container")

    def set(self, v):
        self.c[self.k] = v


class Attr(Cell):
    def __init__(self, o, n):
        self.o, self.n = o, n

    def get(self):
        return getattr(self.o, self.n)

    def set(self, v):
        setattr(self.o, self.n, v)


class Ptr:
    def __init__(self, loc):
        self.loc = loc


DEFAULT = object()


# ------------------------------------------------------------- LLVM model


class Obj:
    """Something with identity."""
    dead = False
    kinds = ()


class Ctx_(Obj):
    pass


class Stream(Obj):
    pass


class Value(Obj):
    kinds = ("Value",)

    def __init__(self, name=""):
        self.name = name

    def c_getName(self, it):
        return self.name

    def c_hasName(self, it):
        return bool(self.name)

    def c_setName(self, it, n):
        self.name = n if isinstance(n, str) else "?"

    def c_takeName(self, it, o):
        self.name, o.name = o.name, ""

    def c_getContext(self, it):
        return it.ctxobj

    def _users(self, it):
        out = []
        for i in it.allinsts():
            for o in i.operands():
                if o is self:
                    out.append(i)
        return out

    def c_use_empty(self, it):
        return not self._users(it)

    def c_hasOneUse(self, it):
        return len(self._users(it)) == 1

    def c_getNumUses(self, it):
        return len(self._users(it))

    def c_users(self, it):
        return Vec(self._users(it))

    def c_replaceAllUsesWith(self, it, new):
        if new is None:
            raise Fault("replaceAllUsesWith(null)")
        for i in it.allinsts():
            i.replace(self, new)


class Const(Value):
    kinds = ("Value", "Constant", "ConstantInt", "User")


class Arg(Value):
    kinds = ("Value", "Argument")


class Func(Value):
    kinds = ("Value", "Function", "GlobalValue", "Constant", "User", "GlobalObject")

    def __init__(self, name, optnone=False):
        super().__init__(name)
        self.blocks = []
        self.optnone = optnone

    def c_begin(self, it):
        return Iter(self.blocks, 0, True)

    def c_end(self, it):
        return Iter(self.blocks, END, True)

    c_getBasicBlockList = lambda self, it: self

    def c_size(self, it):
        return len(self.blocks)

    def c_empty(self, it):
        return not self.blocks

    def c_front(self, it):
        return self.blocks[0]

    def c_back(self, it):
        return self.blocks[-1]

    def c_getEntryBlock(self, it):
        if not self.blocks:
            raise Fault("entry block of a declaration")
        return self.blocks[0]

    def c_isDeclaration(self, it):
        return not self.blocks

    def c_hasOptNone(self, it):
        return self.optnone

    def c_hasFnAttribute(self, it, a):
        if a in ("optnone", "OptimizeNone", "noinline", "NoInline"):
            return self.optnone
        raise Unmodelled("function attribute %r" % (a,))

    def c_arg_begin(self, it):
        raise Unmodelled("arguments")

    def c_push_back(self, it, b):
        b.fn = self
        self.blocks.append(b)


class Block(Value):
    kinds = ("Value", "BasicBlock")

    def __init__(self, name="", fn=None, origin=None):
        super().__init__(name)
        self.insts = []
        self.fn = fn
        self.origin = origin

    def c_begin(self, it):
        return Iter(self.insts, 0, True)

    def c_end(self, it):
        return Iter(self.insts, END, True)

    c_getInstList = lambda self, it: self

    def c_rbegin(self, it):
        raise Unmodelled("reverse iteration")

    def c_size(self, it):
        return len(self.insts)

    def c_empty(self, it):
        return not self.insts

    def c_front(self, it):
        return self.insts[0]

    def c_back(self, it):
        return self.insts[-1]

    def c_getParent(self, it):
        return self.fn

    def c_getIterator(self, it):
        return Iter(self.fn.blocks, self.fn.blocks.index(self), True)

    def c_getTerminator(self, it):
        return self.insts[-1] if self.insts and self.insts[-1].isterm else None

    def c_getFirstNonPHI(self, it):
        return next((i for i in self.insts if i.op != "phi"), None)

    def c_phis(self, it):
        out = []
        for i in self.insts:
            if i.op != "phi":
                break
            out.append(i)
        return Vec(out)

    def c_instructionsWithoutDebug(self, it, *a):
        return Vec([i for i in self.insts])

    def _preds(self, it):
        out = []
        for i in it.allinsts():
            if i.isterm and i.block is not None:
                out += [i.block for s in i.succs if s is self]
        return out

    def c_hasNPredecessors(self, it, n):
        return len(self._preds(it)) == n

    def c_hasNPredecessorsOrMore(self, it, n):
        return len(self._preds(it)) >= n

    def c_getSinglePredecessor(self, it):
        p = self._preds(it)
        return p[0] if len(p) == 1 else None

    def c_getUniquePredecessor(self, it):
        p = self._preds(it)
        return p[0] if p and all(x is p[0] for x in p) else None

    def c_getSingleSuccessor(self, it):
        t = self.c_getTerminator(it)
        return t.succs[0] if t is not None and len(t.succs) == 1 else None

    def c_getUniqueSuccessor(self, it):
        t = self.c_getTerminator(it)
        s = t.succs if t is not None else []
        return s[0] if s and all(x is s[0] for x in s) else None

    def c_replacePhiUsesWith(self, it, old, new):
        for p in self.c_phis(it).items:
            p.c_replaceIncomingBlockWith(it, old, new)

    def c_replaceSuccessorsPhiUsesWith(self, it, a, b=DEFAULT):
        old, new = (self, a) if b is DEFAULT else (a, b)
        t = self.c_getTerminator(it)
        for s in (t.succs if t is not None else []):
            s.c_replacePhiUsesWith(it, old, new)

    def c_isEntryBlock(self, it):
        return self.fn is not None and self.fn.blocks[0] is self

    def _move(self, o, after):
        self.fn.blocks.remove(self)
        i = o.fn.blocks.index(o)
        o.fn.blocks.insert(i + (1 if after else 0), self)
        self.fn = o.fn

    def c_moveAfter(self, it, o):
        self._move(o, True)

    def c_moveBefore(self, it, o):
        self._move(o, False)

    def c_insertInto(self, it, f, before=None):
        self.fn = f
        f.blocks.insert(f.blocks.index(before) if before is not None and before is not DEFAULT else len(f.blocks), self)

    def c_eraseFromParent(self, it):
        self.fn.blocks.remove(self)
        for i in self.insts:
            i.dead = True
        self.dead = True


INSTCLASS = {"br": "BranchInst", "phi": "PHINode", "ret": "ReturnInst", "switch": "SwitchInst",
             "unreachable": "UnreachableInst", "invoke": "InvokeInst", "icmp": "ICmpInst", "call": "CallInst",
             "load": "LoadInst", "store": "StoreInst", "alloca": "AllocaInst", "add": "BinaryOperator",
             "select": "SelectInst", "indirectbr": "IndirectBrInst"}
TERMS = ("br", "ret", "switch", "unreachable", "invoke", "indirectbr")


class Inst(Value):
    def __init__(self, op, name="", ops=(), succs=(), block=None):
        super().__init__(name)
        self.op = op
        self.ops = list(ops)
        self.succs = list(succs)
        self.blocks = []          # of a phi, parallel to ops
        self.block = block
        self.isterm = op in TERMS
        self.kinds = ("Value", "User", "Instruction", INSTCLASS[op])
        if op in ("icmp",):
            self.kinds += ("CmpInst",)
        if op in ("call", "invoke"):
            self.kinds += ("CallBase",)
        if op in ("alloca", "load"):
            self.kinds += ("UnaryInstruction",)

    def operands(self):
        return list(self.ops) + list(self.succs) + list(self.blocks)

    def replace(self, old, new):
        for l in (self.ops, self.succs, self.blocks):
            for i, x in enumerate(l):
                if x is old:
                    l[i] = new

    # ---- Instruction
    def c_getParent(self, it):
        return self.block

    def c_getFunction(self, it):
        return self.block.fn

    def c_isTerminator(self, it):
        return self.isterm

    def c_getOpcode(self, it):
        return self.op

    def c_getIterator(self, it):
        return Iter(self.block.insts, self.block.insts.index(self), True)

    def c_getDebugLoc(self, it):
        return Opaque()

    def c_setDebugLoc(self, it, d):
        pass

    def c_copyMetadata(self, it, *a):
        pass

    def c_setMetadata(self, it, *a):
        pass

    def c_getMetadata(self, it, *a):
        return None

    def c_hasMetadata(self, it, *a):
        return False

    def c_getNumSuccessors(self, it):
        return len(self.succs)

    def c_getSuccessor(self, it, i):
        if not 0 <= i < len(self.succs):
            raise Fault("successor %d of a terminator with %d" % (i, len(self.succs)))
        return self.succs[i]

    def c_setSuccessor(self, it, i, b):
        if not 0 <= i < len(self.succs):
            raise Fault("successor %d of a terminator with %d" % (i, len(self.succs)))
        self.succs[i] = b

    def c_replaceSuccessorWith(self, it, old, new):
        self.succs[:] = [new if s is old else s for s in self.succs]

    def c_successors(self, it):
        return Vec(locs=[Item(self.succs, i) for i in range(len(self.succs))])

    def c_getNumOperands(self, it):
        return len(self.operands())

    def c_clone(self, it):
        n = Inst(self.op, "", self.ops, self.succs)
        n.blocks = list(self.blocks)
        it.detached.append(n)
        return n

    def _detach(self):
        if self.block is not None:
            self.block.insts[:] = [x for x in self.block.insts if x is not self]
            self.block = None

    def c_eraseFromParent(self, it):
        if self.block is None:
            raise Fault("erasing an instruction that is in no block")
        self._detach()
        if self._users(it):
            raise Fault("erasing an instruction that is still used")
        self.dead = True

    def c_removeFromParent(self, it):
        self._detach()
        it.detached.append(self)

    def c_deleteValue(self, it):
        self.dead = True

    c_dropAllReferences = lambda self, it: (self.ops.clear(), self.succs.clear(), None)[2]

    def c_insertBefore(self, it, o):
        self.block = o.block
        o.block.insts.insert(o.block.insts.index(o), self)

    def c_insertAfter(self, it, o):
        self.block = o.block
        o.block.insts.insert(o.block.insts.index(o) + 1, self)

    def c_moveBefore(self, it, o):
        self._detach()
        self.c_insertBefore(it, o)

    # ---- branches
    def c_isConditional(self, it):
        self._need("br")
        return len(self.succs) == 2

    def c_isUnconditional(self, it):
        self._need("br")
        return len(self.succs) == 1

    def c_getCondition(self, it):
        if self.op not in ("br", "switch", "select"):
            raise Fault("getCondition of " + self.op)
        if not self.ops:
            raise Fault("condition of an unconditional branch")
        return self.ops[0]

    def c_setCondition(self, it, v):
        self.ops[0] = v

    def c_swapSuccessors(self, it):
        self._need("br")
        if len(self.succs) != 2:
            raise Fault("swapSuccessors of an unconditional branch")
        self.succs.reverse()

    def _need(self, op):
        if self.op != op:
            raise Fault("%s used as %s" % (self.op, INSTCLASS[op]))

    # ---- phis
    def c_getNumIncomingValues(self, it):
        self._need("phi")
        return len(self.ops)

    def _ix(self, i):
        self._need("phi")
        if not 0 <= i < len(self.ops):
            raise Fault("incoming entry %d of a phi with %d" % (i, len(self.ops)))
        return i

    def c_getIncomingValue(self, it, i):
        return self.ops[self._ix(i)]

    def c_setIncomingValue(self, it, i, v):
        self.ops[self._ix(i)] = v

    def c_getIncomingBlock(self, it, i):
        if not isinstance(i, int):
            raise Unmodelled("getIncomingBlock(use)")
        return self.blocks[self._ix(i)]

    def c_setIncomingBlock(self, it, i, b):
        if b is None:
            raise Fault("a phi entry without a block")
        self.blocks[self._ix(i)] = b

    def c_getBasicBlockIndex(self, it, b):
        self._need("phi")
        return next((i for i, x in enumerate(self.blocks) if x is b), -1)

    def c_getIncomingValueForBlock(self, it, b):
        i = self.c_getBasicBlockIndex(it, b)
        if i < 0:
            raise Fault("the block is not in the phi")
        return self.ops[i]

    def c_setIncomingValueForBlock(self, it, b, v):
        for i, x in enumerate(self.blocks):
            if x is b:
                self.ops[i] = v

    def c_addIncoming(self, it, v, b):
        self._need("phi")
        self.ops.append(v)
        self.blocks.append(b)

    def c_removeIncomingValue(self, it, i, *a):
        self._need("phi")
        if isinstance(i, Block):
            i = self.c_getBasicBlockIndex(it, i)
        i = self._ix(i)
        v = self.ops.pop(i)
        self.blocks.pop(i)
        return v

    def c_replaceIncomingBlockWith(self, it, old, new):
        self._need("phi")
        if new is None:
            raise Fault("a phi entry without a block")
        for i, x in enumerate(self.blocks):
            if x is old:
                self.blocks[i] = new

    def c_incoming_blocks(self, it):
        return Vec(locs=[Item(self.blocks, i) for i in range(len(self.blocks))])

    c_blocks = c_incoming_blocks

    def c_incoming_values(self, it):
        return Vec(locs=[Item(self.ops, i) for i in range(len(self.ops))])


class Builder(Obj):
    def __init__(self):
        self.bb = None
        self.before = None

    def c_SetInsertPoint(self, it, x, *rest):
        if isinstance(x, Block):
            self.bb, self.before = x, None
        elif isinstance(x, Inst):
            self.bb, self.before = x.block, x
        else:
            raise Unmodelled("insertion point")

    def _put(self, it, i):
        i.block = self.bb
        if self.before is None:
            self.bb.insts.append(i)
        else:
            self.bb.insts.insert(self.bb.insts.index(self.before), i)
        return i

    def c_CreateBr(self, it, b):
        return self._put(it, Inst("br", "", (), [b]))

    def c_CreateCondBr(self, it, c, t, f, *rest):
        return self._put(it, Inst("br", "", [c], [t, f]))

    def c_CreateUnreachable(self, it):
        return self._put(it, Inst("unreachable"))

    def c_CreateRetVoid(self, it):
        return self._put(it, Inst("ret"))

    def c_GetInsertBlock(self, it):
        return self.bb

    def c_getContext(self, it):
        return it.ctxobj

    def c_SetCurrentDebugLocation(self, it, *a):
        pass

    def c_Insert(self, it, i, *a):
        return self._put(it, i)


class Opaque(Obj):
    pass


# ------------------------------------------------------------- containers

END = -1


class Iter:
    """A position in a list; intrusive lists keep the element itself."""
    def __init__(self, lst, i, intrusive=False):
        self.lst = lst
        self.intrusive = intrusive
        if intrusive:
            self.cur = lst[i] if i != END and i < len(lst) else None
            self.at = self.cur
        else:
            self.i = len(lst) if i == END else i

    def clone(self):
        n = Iter.__new__(Iter)
        n.__dict__.update(self.__dict__)
        return n

    def same(self, o):
        if self.intrusive:
            return self.lst is o.lst and self.cur is o.cur
        return self.i == o.i

    def _pos(self):
        for k, x in enumerate(self.lst):
            if x is self.cur:
                return k
        raise Fault("iteration goes on from an element that has been erased")

    def next(self):
        if self.intrusive:
            if self.cur is None:
                raise Fault("iteration beyond the end")
            k = self._pos() + 1
            self.cur = self.lst[k] if k < len(self.lst) else None
        else:
            if self.i >= len(self.lst):
                raise Fault("iteration beyond the end")
            self.i += 1

    def prev(self):
        if self.intrusive:
            k = (len(self.lst) if self.cur is None else self._pos()) - 1
            if k < 0:
                raise Fault("iteration before the beginning")
            self.cur = self.lst[k]
        else:
            self.i -= 1

    def loc(self):
        if self.intrusive:
            if self.cur is None:
                raise Fault("dereference of end()")
            return Cell(self.cur)
        if not 0 <= self.i < len(self.lst):
            raise Fault("dereference of end()")
        x = self.lst[self.i]
        return x if isinstance(x, Cell) else Item(self.lst, self.i)


class Pair:
    def __init__(self, a, b):
        self.first, self.second = a, b

    def clone(self):
        return Pair(self.first, self.second)


class Tup:
    def __init__(self, items):
        self.items = list(items)

    def clone(self):
        return Tup(self.items)


class Rec:
    def __init__(self, name):
        self.name_ = name

    def clone(self):
        n = Rec(self.name_)
        n.__dict__.update({k: copy(v) for k, v in self.__dict__.items()})
        return n


class Vec:
    def __init__(self, items=(), locs=None):
        self.items = list(items) if locs is None else locs
        self.view = locs is not None

    def clone(self):
        return Vec([copy(x.get() if isinstance(x, Cell) else x) for x in self.items])

    def c_begin(self, it):
        return Iter(self.items, 0)

    def c_end(self, it):
        return Iter(self.items, END)

    c_cbegin, c_cend = c_begin, c_end

    def c_push_back(self, it, v):
        self.items.append(copy(v))

    def c_emplace_back(self, it, *a):
        self.items.append(it.construct_elem(self, a))

    def c_pop_back(self, it):
        self.items.pop()

    def c_pop_back_val(self, it):
        return self.items.pop()

    def c_size(self, it):
        return len(self.items)

    def c_empty(self, it):
        return not self.items

    def c_clear(self, it):
        self.items.clear()

    def c_reserve(self, it, n):
        pass

    def _at(self, i):
        if not 0 <= i < len(self.items):
            raise Fault("index %r outside a container of %d" % (i, len(self.items)))
        x = self.items[i]
        return x if isinstance(x, Cell) else Item(self.items, i)

    def l_index(self, it, i):
        return self._at(i)

    def l_front(self, it):
        return self._at(0)

    def l_back(self, it):
        return self._at(len(self.items) - 1)

    l_at = l_index


class Map:
    """std::map, DenseMap, ...: entries are Pairs; the order of pointer keys is
    an arbitrary total order fixed per run (it.order)."""
    def __init__(self, ordered):
        self.items = []
        self.ordered = ordered

    def clone(self):
        m = Map(self.ordered)
        m.items = [Pair(p.first, copy(p.second)) for p in self.items]
        return m

    def _find(self, k):
        for i, p in enumerate(self.items):
            if eq(p.first, k):
                return i
        return None

    def _add(self, it, k, v):
        p = Pair(k, v)
        if self.ordered == "insertion":
            self.items.append(p)
        else:
            self.items.append(p)
            self.items.sort(key=lambda q: it.rank(q.first))
        return p

    def c_begin(self, it):
        return Iter(self.items, 0)

    def c_end(self, it):
        return Iter(self.items, END)

    def _insert(self, it, k, v):
        i = self._find(k)
        if i is None:
            self._add(it, k, copy(v))
            return Pair(Iter(self.items, self._find(k)), True)
        return Pair(Iter(self.items, i), False)

    def c_insert(self, it, p, *a):
        return self._insert(it, p.first, p.second)

    def c_emplace(self, it, k, *v):
        return self._insert(it, k, v[0])

    c_try_emplace = c_emplace

    def l_index(self, it, k):
        i = self._find(k)
        p = self._add(it, k, 0) if i is None else self.items[i]
        return Attr(p, "second")

    def l_at(self, it, k):
        i = self._find(k)
        if i is None:
            raise Fault("at() of a missing key")
        return Attr(self.items[i], "second")

    def c_lookup(self, it, k):
        i = self._find(k)
        return None if i is None else self.items[i].second

    def c_find(self, it, k):
        i = self._find(k)
        return Iter(self.items, END if i is None else i)

    def c_count(self, it, k):
        return 0 if self._find(k) is None else 1

    def c_contains(self, it, k):
        return self._find(k) is not None

    def c_erase(self, it, k):
        if isinstance(k, Iter):
            self.items.pop(k.i)
            return Iter(self.items, k.i)
        i = self._find(k)
        if i is None:
            return 0
        self.items.pop(i)
        return 1

    def c_size(self, it):
        return len(self.items)

    def c_empty(self, it):
        return not self.items

    def c_clear(self, it):
        self.items.clear()


class Set_:
    def __init__(self, ordered):
        self.items = []
        self.ordered = ordered

    def clone(self):
        s = Set_(self.ordered)
        s.items = list(self.items)
        return s

    def _find(self, k):
        for i, x in enumerate(self.items):
            if eq(x, k):
                return i
        return None

    def c_insert(self, it, k, *a):
        new = self._find(k) is None
        if new:
            self.items.append(copy(k))
            if self.ordered != "insertion":
                self.items.sort(key=it.rank)
        return Pair(Iter(self.items, self._find(k)), new)

    c_emplace = c_insert

    def c_find(self, it, k):
        i = self._find(k)
        return Iter(self.items, END if i is None else i)

    def c_count(self, it, k):
        return 0 if self._find(k) is None else 1

    def c_contains(self, it, k):
        return self._find(k) is not None

    def c_begin(self, it):
        return Iter(self.items, 0)

    def c_end(self, it):
        return Iter(self.items, END)

    def c_size(self, it):
        return len(self.items)

    def c_empty(self, it):
        return not self.items

    def c_clear(self, it):
        self.items.clear()

    def c_erase(self, it, k):
        i = self._find(k)
        if i is None:
            return 0
        self.items.pop(i)
        return 1


class Closure:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


def copy(v):
    return v.clone() if hasattr(v, "clone") else v


def eq(a, b):
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.same(b)
    if isinstance(a, Pair) and isinstance(b, Pair):
        return eq(a.first, b.first) and eq(a.second, b.second)
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.loc is b.loc
    if a is None or b is None:
        return (a is None or a == 0 and isinstance(a, int)) and (b is None or b == 0 and isinstance(b, int))
    return a is b


def truth(v):
    if v is None:
        return False
    if isinstance(v, (bool, int)):
        return bool(v)
    return True


# ------------------------------------------------------------- interpreter

LIMIT = 60000


class Interp:
    def __init__(self, unit, order=1):
        self.u = unit
        self.order = order
        self.ctxobj = Ctx_()
        self.functions = []
        self.detached = []
        self.fresh = []
        self.steps = 0
        self.depth = 0
        self.glob = {}
        self.ranks = {}

    def rank(self, k):
        if isinstance(k, (int, str)):
            return (0, k) if isinstance(k, int) else (1, k)
        if isinstance(k, Pair):
            return (3, self.rank(k.first), self.rank(k.second))
        r = self.ranks.setdefault(id(k), (len(self.ranks), k))[0]
        return (2, self.order * r)

    def allinsts(self):
        for f in self.functions:
            for b in list(f.blocks):
                yield from list(b.insts)
        for i in self.detached:
            if not i.dead and i.block is None:
                yield i

    # ---- functions
    def call(self, fn, this, args):
        self.depth += 1
        if self.depth > 60:
            raise Fault("unbounded recursion")
        env = {}
        params = [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for i, p in enumerate(params):
            a = args[i] if i < len(args) else DEFAULT
            if a is DEFAULT:
                init = [c for c in p.get("inner", []) if "kind" in c]
                if not init:
                    raise Unmodelled("missing argument")
                a = self.lv(init[-1], env, this)
            env[p["id"]] = self.bind(p, a)
        body = [c for c in fn["inner"] if c.get("kind") == "CompoundStmt"]
        try:
            for c in body:
                self.stmt(c, env, this)
            return Cell(None)
        except _Return as r:
            rt = fn.get("type", {}).get("qualType", "").split("(")[0].strip()
            return r.v if rt.endswith("&") else Cell(copy(r.v.get()))
        finally:
            self.depth -= 1

    def bind(self, decl, loc):
        t = self.ty(decl)
        if t.endswith("&") or t.endswith("&&"):
            return loc
        return Cell(copy(loc.get()))

    @staticmethod
    def ty(n):
        t = n.get("type", {})
        return t.get("desugaredQualType", t.get("qualType", ""))

    # ---- statements
    def block(self, n, env, this):
        for c in n.get("inner", []):
            self.stmt(c, env, this)

    def tick(self):
        self.steps += 1
        if self.steps > LIMIT:
            raise Fault("does not end")

    def stmt(self, n, env, this):
        self.tick()
        k = n.get("kind")
        if k is None:
            return
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, env, this)
        self.lv(n, env, this)

    s_CompoundStmt = block

    def s_NullStmt(self, n, env, this):
        pass

    def s_AttributedStmt(self, n, env, this):
        self.stmt(n["inner"][-1], env, this)

    def s_DeclStmt(self, n, env, this):
        for d in n.get("inner", []):
            if d["kind"] in ("VarDecl", "DecompositionDecl"):
                self.vardecl(d, env, this)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl",
                               "StaticAssertDecl", "EmptyDecl"):
                continue
            else:
                raise Unmodelled("declaration " + d["kind"])

    def vardecl(self, d, env, this, init=None):
        if d.get("storageClass") == "static":
            if d["id"] not in self.glob:
                self.glob[d["id"]] = Cell(None)
                tmp = {}
                self._vardecl(d, tmp, this, None)
                self.glob[d["id"]] = tmp[d["id"]]
            env[d["id"]] = self.glob[d["id"]]
            return
        self._vardecl(d, env, this, init)

    def _vardecl(self, d, env, this, init):
        inner = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
        if d["kind"] == "DecompositionDecl":
            binds = [c for c in inner if c["kind"] == "BindingDecl"]
            rest = [c for c in inner if c["kind"] != "BindingDecl"]
            loc = init if init is not None else self.lv(rest[0], env, this)
            v = loc.get()
            if not self.ty(d).endswith("&"):
                v = copy(v)
            parts = self.fields(v)
            if len(parts) != len(binds):
                raise Unmodelled("structured binding")
            for b, p in zip(binds, parts):
                env[b["id"]] = p
            return
        if init is None:
            if inner:
                init = self.lv(inner[-1], env, this)
            else:
                init = Cell(None)
        env[d["id"]] = self.bind(d, init)

    def fields(self, v):
        if isinstance(v, Pair):
            return [Attr(v, "first"), Attr(v, "second")]
        if isinstance(v, Tup):
            return [Item(v.items, i) for i in range(len(v.items))]
        if isinstance(v, Rec):
            return [Attr(v, f) for f in v.__dict__ if f != "name_"]
        raise Unmodelled("structured binding of %r" % type(v).__name__)

    def s_IfStmt(self, n, env, this):
        inner = list(n.get("inner", []))
        if n.get("hasInit"):
            self.stmt(inner.pop(0), env, this)
        if n.get("hasVar"):
            self.stmt(inner.pop(0), env, this)
        c = truth(self.ev(inner[0], env, this))
        if c:
            self.stmt(inner[1], env, this)
        elif n.get("hasElse"):
            self.stmt(inner[2], env, this)

    def s_ForStmt(self, n, env, this):
        init, var, cond, inc, body = n["inner"]
        self.stmt(init, env, this)
        while True:
            self.tick()
            if var.get("kind"):
                self.stmt(var, env, this)
            if cond.get("kind") and not truth(self.ev(cond, env, this)):
                break
            try:
                self.stmt(body, env, this)
            except _Break:
                break
            except _Continue:
                pass
            if inc.get("kind"):
                self.lv(inc, env, this)

    def s_WhileStmt(self, n, env, this):
        inner = list(n["inner"])
        var = inner.pop(0) if n.get("hasVar") else None
        while True:
            self.tick()
            if var:
                self.stmt(var, env, this)
            if not truth(self.ev(inner[0], env, this)):
                break
            try:
                self.stmt(inner[1], env, this)
            except _Break:
                break
            except _Continue:
                pass

    def s_DoStmt(self, n, env, this):
        body, cond = n["inner"]
        while True:
            self.tick()
            try:
                self.stmt(body, env, this)
            except _Break:
                break
            except _Continue:
                pass
            if not truth(self.ev(cond, env, this)):
                break

    def s_CXXForRangeStmt(self, n, env, this):
        inner = n["inner"]
        if inner[0].get("kind"):
            self.stmt(inner[0], env, this)
        rng = [c for c in inner[1]["inner"][0].get("inner", []) if c.get("kind")][-1]
        obj = self.lv(rng, env, this).get()
        var = inner[6]["inner"][0]
        body = inner[7]
        if isinstance(obj, Inst) and obj.op != "phi":
            raise Unmodelled("range over an instruction")
        cur = self.method(obj, "begin", [])
        end = self.method(obj, "end", [])
        cur, end = cur.get(), end.get()
        while not cur.same(end):
            self.tick()
            self._vardecl(var, env, this, cur.loc())
            try:
                self.stmt(body, env, this)
            except _Break:
                break
            except _Continue:
                pass
            cur.next()
            if not cur.intrusive and not getattr(obj, "view", False):
                if len(obj.items) != end.i:
                    raise Fault("a container changes while it is iterated")

    def s_ReturnStmt(self, n, env, this):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        raise _Return(self.lv(inner[0], env, this) if inner else Cell(None))

    def s_BreakStmt(self, n, env, this):
        raise _Break()

    def s_ContinueStmt(self, n, env, this):
        raise _Continue()

    def s_SwitchStmt(self, n, env, this):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(inner.pop(0), env, this)
        if n.get("hasVar"):
            self.stmt(inner.pop(0), env, this)
        v = self.ev(inner[0], env, this)
        flat = []

        def flatten(s):
            if s.get("kind") == "CaseStmt":
                flat.append(("case", self.ev(s["inner"][0], env, this)))
                flatten(s["inner"][-1])
            elif s.get("kind") == "DefaultStmt":
                flat.append(("default", None))
                flatten(s["inner"][-1])
            else:
                flat.append(("stmt", s))
        for s in inner[1].get("inner", []):
            flatten(s)
        start = next((i for i, (t, x) in enumerate(flat) if t == "case" and eq(x, v)), None)
        if start is None:
            start = next((i for i, (t, x) in enumerate(flat) if t == "default"), None)
        if start is None:
            return
        try:
            for t, s in flat[start:]:
                if t == "stmt":
                    self.stmt(s, env, this)
        except _Break:
            pass

    # ---- expressions
    def ev(self, n, env, this):
        return self.lv(n, env, this).get()

    def lv(self, n, env, this):
        self.tick()
        k = n.get("kind")
        m = getattr(self, "e_" + str(k), None)
        if m is None:
            raise Unmodelled("%s at line %d" % (k, self.u.line(n)))
        return m(n, env, this)

    def _sub(self, n, env, this):
        return self.lv(n["inner"][0], env, this)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = _sub
    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_CXXStdInitializerListExpr = _sub

    def e_ImplicitCastExpr(self, n, env, this):
        loc = self.lv(n["inner"][0], env, this)
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return Cell(copy(loc.get()))
        if ck in ("PointerToBoolean", "IntegralToBoolean"):
            return Cell(truth(loc.get()))
        if ck in ("NullToPointer",):
            return Cell(None)
        if ck == "IntegralCast":
            v = loc.get()
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                t = self.ty(n)
                if "unsigned" in t and v < 0:
                    v += 2 ** (64 if "long" in t else 32)
            return Cell(v)
        return loc

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n, env, this):
        return self.e_ImplicitCastExpr(n, env, this)

    def e_IntegerLiteral(self, n, env, this):
        return Cell(int(n["value"]))

    def e_CXXBoolLiteralExpr(self, n, env, this):
        return Cell(bool(n["value"]))

    def e_CharacterLiteral(self, n, env, this):
        return Cell(int(n["value"]))

    def e_StringLiteral(self, n, env, this):
        return Cell(json.loads(n["value"]) if n["value"].startswith('"') else n["value"])

    def e_CXXNullPtrLiteralExpr(self, n, env, this):
        return Cell(None)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXDefaultArgExpr(self, n, env, this):
        return Cell(DEFAULT)

    def e_CXXThisExpr(self, n, env, this):
        return Cell(this)

    def e_CXXScalarValueInitExpr(self, n, env, this):
        return Cell(None if self.ty(n).endswith("*") else 0)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_DeclRefExpr(self, n, env, this):
        r = n["referencedDecl"]
        i = r["id"]
        if i in env:
            return env[i]
        if i in self.glob:
            return self.glob[i]
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Cell(("fn", r))
        if r["kind"] == "EnumConstantDecl":
            return Cell(r["name"])
        d = self.u.decls.get(i)
        if d is not None and d["kind"] == "VarDecl":
            tmp = {}
            if "extern" in str(d.get("storageClass")):
                raise Unmodelled("variable " + r.get("name", "?"))
            self._vardecl(d, tmp, this, None)
            if not [c for c in d.get("inner", []) if c.get("kind")] and tmp[i].get() is None and not self.ty(d).endswith("*"):
                tmp[i] = Cell(0)
            self.glob[i] = tmp[i]
            return tmp[i]
        if r.get("name") == "DebugFlag":
            return Cell(False)
        raise Unmodelled("name %s at line %d" % (r.get("name"), self.u.line(n)))

    def e_UnaryOperator(self, n, env, this):
        op = n["opcode"]
        loc = self.lv(n["inner"][0], env, this)
        if op == "&":
            v = loc.get()
            if isinstance(v, Obj) and not n["inner"][0].get("type", {}).get("qualType", "").rstrip().endswith("*"):
                return Cell(v)
            if isinstance(v, tuple) and v and v[0] == "fn":
                return Cell(v)
            return Cell(Ptr(loc))
        if op == "*":
            v = loc.get()
            if v is None:
                raise Fault("null pointer dereferenced at line %d" % self.u.line(n))
            if isinstance(v, Ptr):
                return v.loc
            if isinstance(v, Iter):
                return v.loc()
            return Cell(v)
        if op in ("++", "--"):
            v = loc.get()
            if not isinstance(v, int):
                raise Unmodelled("++ of %r" % type(v).__name__)
            nv = v + (1 if op == "++" else -1)
            if nv < 0 and "unsigned" in self.ty(n):
                nv += 2 ** (64 if "long" in self.ty(n) else 32)
            loc.set(nv)
            return Cell(v) if n.get("isPostfix") else loc
        v = loc.get()
        if op == "!":
            return Cell(not truth(v))
        if op == "-":
            return Cell(-v)
        if op == "+":
            return Cell(v)
        if op == "~":
            return Cell(~v)
        raise Unmodelled("operator " + op)

    def e_BinaryOperator(self, n, env, this):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "&&":
            return Cell(truth(self.ev(a, env, this)) and truth(self.ev(b, env, this)))
        if op == "||":
            return Cell(truth(self.ev(a, env, this)) or truth(self.ev(b, env, this)))
        if op == ",":
            self.lv(a, env, this)
            return self.lv(b, env, this)
        if op == "=":
            v = self.ev(b, env, this)
            loc = self.lv(a, env, this)
            loc.set(copy(v))
            return loc
        x, y = self.ev(a, env, this), self.ev(b, env, this)
        return Cell(self.arith(op, x, y, n))

    def arith(self, op, x, y, n):
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return not eq(x, y)
        if op == "<" and not (isinstance(x, int) and isinstance(y, int)):
            return self.rank(x) < self.rank(y)
        if not (isinstance(x, int) and isinstance(y, int)):
            raise Unmodelled("operator %s on %s at line %d" % (op, type(x).__name__, self.u.line(n)))
        x, y = int(x), int(y)
        t = self.ty(n)
        r = {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y,
             "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
             "/": lambda: x // y if y else None, "%": lambda: x % y if y else None,
             "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
             "<<": lambda: x << y, ">>": lambda: x >> y}.get(op)
        if r is None:
            raise Unmodelled("operator " + op)
        v = r()
        if v is None:
            raise Fault("division by zero")
        if isinstance(v, int) and not isinstance(v, bool) and "unsigned" in t:
            v %= 2 ** (64 if "long" in t else 32)
        return v

    def e_CompoundAssignOperator(self, n, env, this):
        a, b = n["inner"]
        y = self.ev(b, env, this)
        loc = self.lv(a, env, this)
        v = self.arith(n["opcode"][:-1], loc.get(), y, n)
        if self.ty(n) == "bool":
            v = truth(v)
        loc.set(v)
        return loc

    def e_ConditionalOperator(self, n, env, this):
        c, a, b = n["inner"]
        return self.lv(a if truth(self.ev(c, env, this)) else b, env, this)

    def e_BinaryConditionalOperator(self, n, env, this):
        raise Unmodelled("?: without middle operand")

    def e_ArraySubscriptExpr(self, n, env, this):
        a = self.ev(n["inner"][0], env, this)
        i = self.ev(n["inner"][1], env, this)
        if isinstance(a, Ptr):
            a = a.loc.get()
        if isinstance(a, Vec):
            return a._at(i)
        raise Unmodelled("subscript")

    def e_InitListExpr(self, n, env, this):
        t = self.ty(n)
        items = [c for c in n.get("inner", []) if c.get("kind")]
        vals = [copy(self.ev(c, env, this)) for c in items]
        if "[" in t or "initializer_list" in t:
            return Cell(Vec(vals))
        base = self.recname(t)
        if base in self.u.records:
            r = Rec(base)
            for f, v in zip(self.recfields(base), vals):
                setattr(r, f["name"], v)
            return Cell(r)
        if len(vals) == 1:
            return Cell(vals[0])
        if not vals:
            return self.make(t, [], n)
        raise Unmodelled("braces for " + t)

    def recfields(self, name):
        return [c for c in self.u.records[name].get("inner", []) if c.get("kind") == "FieldDecl"]

    @staticmethod
    def recname(t):
        t = re.sub(r"\b(const|struct|class)\b", "", t).strip().rstrip("&* ").strip()
        return t.split("::")[-1]

    # ---- members
    def e_MemberExpr(self, n, env, this):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        base = self.ev(inner[0], env, this)
        if isinstance(base, Ptr):
            base = base.loc.get()
        name = n["name"]
        if isinstance(base, Iter) and n.get("isArrow"):
            base = base.loc().get()
        if base is None:
            raise Fault("member %s of a null pointer at line %d" % (name, self.u.line(n)))
        if isinstance(base, (Pair, Rec)):
            if hasattr(base, name):
                return Attr(base, name)
            d = self.u.decls.get(n.get("referencedMemberDecl"))
            if isinstance(base, Rec) and d is not None and d["kind"] == "FieldDecl":
                self.initfield(base, d, env)
                return Attr(base, name)
        if n.get("referencedMemberDecl") in self.glob:
            return self.glob[n["referencedMemberDecl"]]
        raise Unmodelled("member %s at line %d" % (name, self.u.line(n)))

    def initfield(self, rec, d, env):
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
        if init:
            v = self.ev(init[-1], {}, rec)
        else:
            t = self.ty(d)
            v = None
            if not t.endswith("*"):
                try:
                    v = self.make(t, [], d).get()
                except Unmodelled:
                    v = Opaque()
        setattr(rec, d["name"], v)

    def e_CXXDefaultInitExpr(self, n, env, this):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        if inner:
            return self.lv(inner[0], env, this)
        raise Unmodelled("default member initialiser")

    # ---- construction
    def e_CXXConstructExpr(self, n, env, this):
        t = self.ty(n)
        args = [c for c in n.get("inner", []) if c.get("kind")]
        locs = [self.lv(c, env, this) for c in args]
        return self.make(t, locs, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def make(self, t, locs, n):
        vals = [l.get() for l in locs]
        vals = [v for v in vals if v is not DEFAULT]
        tt = re.sub(r"\b(const|class|struct)\b", "", t).strip()
        if "lambda at" in tt and len(vals) == 1:
            return Cell(vals[0])
        base = tt.split("<")[0].split("::")[-1].strip()
        full = tt.split("<")[0].strip()
        if tt.startswith("sa_main::") or tt in self.u.records or (base in self.u.records and "<" not in tt):
            if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].name_ == base:
                return Cell(vals[0].clone())
            return Cell(self.construct(base, locs, n))
        if len(vals) == 1 and not isinstance(vals[0], Obj) and hasattr(vals[0], "clone"):
            same = {Pair: ("pair",), Vec: ("vector", "SmallVector", "deque", "list", "SmallVectorImpl", "array",
                                           "iterator_range"),
                    Map: ("map", "DenseMap", "MapVector", "unordered_map", "SmallDenseMap", "SmallMapVector"),
                    Set_: ("set", "SmallPtrSet", "DenseSet", "unordered_set", "SetVector", "SmallSetVector", "SmallSet"),
                    Tup: ("tuple",)}
            for c, names in same.items():
                if isinstance(vals[0], c) and base in names:
                    return Cell(vals[0].clone())
            if isinstance(vals[0], Iter):
                return Cell(vals[0].clone())
        if base == "pair":
            if not vals:
                return Cell(Pair(None, None))
            if len(vals) == 1 and isinstance(vals[0], Pair):
                return Cell(vals[0].clone())
            return Cell(Pair(copy(vals[0]), copy(vals[1])))
        if base == "tuple":
            return Cell(Tup([copy(v) for v in vals]))
        if base in ("vector", "SmallVector", "deque", "list", "SmallVectorImpl", "array"):
            if not vals:
                return Cell(Vec())
            if len(vals) == 1 and isinstance(vals[0], Vec):
                return Cell(vals[0].clone())
            if isinstance(vals[0], int) and not isinstance(vals[0], bool):
                return Cell(Vec([copy(vals[1]) if len(vals) > 1 else None for _ in range(vals[0])]))
            if len(vals) == 2 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
                return Cell(self.span(vals[0], vals[1]))
            raise Unmodelled("constructor of " + t)
        if base in ("map", "DenseMap", "MapVector", "unordered_map", "SmallDenseMap", "SmallMapVector"):
            m = Map("insertion" if "MapVector" in base else "address")
            if vals and isinstance(vals[0], Vec):
                for p in vals[0].items:
                    m._insert(self, p.first, p.second)
            elif vals and not isinstance(vals[0], int):
                raise Unmodelled("constructor of " + t)
            return Cell(m)
        if base in ("set", "SmallPtrSet", "DenseSet", "unordered_set", "SetVector", "SmallSetVector", "SmallSet"):
            s = Set_("insertion" if "SetVector" in base else "address")
            if vals and isinstance(vals[0], Vec):
                for x in vals[0].items:
                    s.c_insert(self, x)
            elif vals and not isinstance(vals[0], int):
                raise Unmodelled("constructor of " + t)
            return Cell(s)
        if base == "IRBuilder":
            b = Builder()
            if vals and not isinstance(vals[0], Ctx_):
                b.c_SetInsertPoint(self, vals[0])
            return Cell(b)
        if base in ("StringRef", "Twine", "basic_string", "string", "SmallString"):
            return Cell(vals[0] if vals and isinstance(vals[0], str) else "")
        if base in ("DebugLoc",):
            return Cell(Opaque())
        if base == "function":
            return Cell(vals[0] if vals else None)
        if base in ("ilist_iterator", "Rb_tree_iterator", "normal_iterator") or "iterator" in base:
            if vals and isinstance(vals[0], Iter):
                return Cell(vals[0].clone())
            if vals and isinstance(vals[0], Inst) and vals[0].block is not None:
                return Cell(vals[0].c_getIterator(self))
            if vals and isinstance(vals[0], Block) and vals[0].fn is not None:
                return Cell(vals[0].c_getIterator(self))
        raise Unmodelled("constructor of %s at line %d" % (t[:80], self.u.line(n)))

    def span(self, a, b):
        out = []
        c = a.clone()
        while not c.same(b):
            self.tick()
            out.append(copy(c.loc().get()))
            c.next()
        return Vec(out)

    def construct(self, name, locs, n):
        r = Rec(name)
        rec = self.u.records.get(name)
        if rec is None:
            raise Unmodelled("class " + name)
        ctor = None
        vals = [l for l in locs if l.get() is not DEFAULT]
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and c["id"] in self.u.funcs and not c.get("isImplicit"):
                ps = [p for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"]
                if len(ps) == len(locs):
                    ctor = c
        for f in self.recfields(name):
            self.initfield(r, f, {})
        if ctor is not None:
            env = {}
            for p, l in zip([p for p in ctor["inner"] if p.get("kind") == "ParmVarDecl"], locs):
                env[p["id"]] = self.bind(p, l)
            for c in ctor["inner"]:
                if c.get("kind") == "CXXCtorInitializer":
                    init = c.get("anyInit")
                    if init and init.get("kind") == "FieldDecl":
                        setattr(r, init["name"], copy(self.ev(c["inner"][0], env, r)))
            for c in ctor["inner"]:
                if c.get("kind") == "CompoundStmt":
                    try:
                        self.stmt(c, env, r)
                    except _Return:
                        pass
        elif vals:
            raise Unmodelled("constructor of " + name)
        return r

    def construct_elem(self, vec, args):
        args = [a for a in args if a is not DEFAULT]
        t = getattr(vec, "elem", None)
        if len(args) == 1:
            return copy(args[0])
        if len(args) == 2:
            return Pair(copy(args[0]), copy(args[1]))
        raise Unmodelled("emplace_back")

    def e_CXXNewExpr(self, n, env, this):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        return Cell(self.ev(inner[-1], env, this))

    def e_CXXDeleteExpr(self, n, env, this):
        v = self.ev(n["inner"][0], env, this)
        if isinstance(v, Obj):
            v.dead = True
        return Cell(None)

    def e_LambdaExpr(self, n, env, this):
        rec = n["inner"][0]
        op = next((m for m in rec.get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"), None)
        return Cell(Closure(op, env, this))

    def apply(self, c, args):
        if isinstance(c, Closure):
            fn = c.node
            if fn is None:
                raise Unmodelled("generic lambda")
            env = dict(c.env)
            # captures are shared by reference
            params = [p for p in fn.get("inner", []) if p.get("kind") == "ParmVarDecl"]
            for p, a in zip(params, args):
                env[p["id"]] = self.bind(p, a)
            self.depth += 1
            if self.depth > 60:
                raise Fault("unbounded recursion")
            try:
                for b in fn["inner"]:
                    if b.get("kind") == "CompoundStmt":
                        self.stmt(b, env, c.this)
                return Cell(None)
            except _Return as r:
                return r.v
            finally:
                self.depth -= 1
        if isinstance(c, tuple) and c[0] == "fn":
            f = self.u.funcs.get(c[1]["id"])
            if f is not None:
                return self.call(f, None, args)
        raise Unmodelled("call of a value")

    # ---- calls
    def e_CXXMemberCallExpr(self, n, env, this):
        me = n["inner"][0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        args = [self.lv(c, env, this) for c in n["inner"][1:]]
        if me.get("kind") != "MemberExpr":
            raise Unmodelled("member call")
        name = me["name"]
        base = [c for c in me.get("inner", []) if c.get("kind")]
        obj = self.ev(base[0], env, this)
        if isinstance(obj, Ptr):
            obj = obj.loc.get()
        if isinstance(obj, Iter) and me.get("isArrow"):
            obj = obj.loc().get()
        if obj is None:
            raise Fault("%s of a null pointer at line %d" % (name, self.u.line(n)))
        f = self.u.funcs.get(me.get("referencedMemberDecl"))
        if f is not None:
            return self.call(f, obj, args)
        return self.method(obj, name, args, n)

    def method(self, obj, name, args, n=None):
        if isinstance(obj, Obj) and obj.dead:
            raise Fault("%s of an object that has been erased" % name)
        vals = [a.get() for a in args]
        while vals and vals[-1] is DEFAULT:
            vals.pop()
        vals = [None if v is DEFAULT else v for v in vals]
        m = getattr(obj, "l_" + name, None)
        if m:
            return m(self, *vals)
        m = getattr(obj, "c_" + name, None)
        if m:
            try:
                return Cell(m(self, *vals))
            except TypeError as e:
                raise Unmodelled("%s: %s" % (name, e))
        if isinstance(obj, str):
            return Cell(self.strmeth(obj, name, vals))
        if isinstance(obj, Rec) and name in ("skipFunction", "skipOptnone") and vals:
            return Cell(vals[0].optnone)
        if isinstance(obj, bool) and name == "operator bool":
            return Cell(obj)
        if name == "operator bool":
            return Cell(truth(obj))
        if isinstance(obj, Iter) and name == "getNodePtr":
            return obj.loc()
        if isinstance(obj, Stream):
            return Cell(obj)
        if isinstance(obj, Opaque) and name in ("operator bool", "get"):
            return Cell(True)
        raise Unmodelled("%s of %s at line %d" % (name, type(obj).__name__, self.u.line(n) if n else 0))

    def strmeth(self, s, name, a):
        if name in ("startswith", "starts_with"):
            return s.startswith(a[0])
        if name in ("endswith", "ends_with"):
            return s.endswith(a[0])
        if name in ("size", "length"):
            return len(s)
        if name == "empty":
            return not s
        if name in ("str", "data", "c_str"):
            return s
        if name == "contains":
            return a[0] in s
        if name == "equals":
            return s == a[0]
        raise Unmodelled("string method " + name)

    def callee(self, n):
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        return c

    def e_CXXOperatorCallExpr(self, n, env, this):
        c = self.callee(n)
        name = c["referencedDecl"]["name"]
        args = [self.lv(a, env, this) for a in n["inner"][1:]]
        f = self.u.funcs.get(c["referencedDecl"]["id"])
        a = args[0].get()
        if isinstance(a, Closure) and f is not None:
            # the instance of a generic lambda that this call names
            return self.apply(Closure(f, a.env, a.this), args[1:])
        if f is not None:
            if f["kind"] == "CXXMethodDecl" and name != "operator()" or f["kind"] == "CXXMethodDecl" and isinstance(a, Rec):
                return self.call(f, a, args[1:])
            if f["kind"] == "FunctionDecl":
                return self.call(f, None, args)
        if name == "operator()":
            return self.apply(a, args[1:])
        if name in ("operator<<",):
            if isinstance(a, Stream):
                for x in args[1:]:
                    v = x.get()
                    if isinstance(v, Obj) and v.dead:
                        raise Fault("an erased object is printed")
                return args[0]
            raise Unmodelled("operator<<")
        if name == "operator[]":
            return self.method(a, "index", args[1:], n)
        if name == "operator*":
            if isinstance(a, Iter):
                return a.loc()
            return Cell(a)
        if name == "operator->":
            if isinstance(a, Iter):
                return Cell(a.loc().get())
            return Cell(a)
        if name in ("operator++", "operator--"):
            if not isinstance(a, Iter):
                raise Unmodelled(name)
            old = a.clone()
            (a.next if name == "operator++" else a.prev)()
            return Cell(old) if len(args) > 1 else args[0]
        if name == "operator==":
            return Cell(eq(a, args[1].get()))
        if name == "operator!=":
            return Cell(not eq(a, args[1].get()))
        if name == "operator<":
            return Cell(self.rank(a) < self.rank(args[1].get()))
        if name == "operator=":
            args[0].set(copy(args[1].get()))
            return args[0]
        if name in ("operator+", "operator-") and isinstance(a, Iter) and isinstance(args[1].get(), int):
            i = a.clone()
            for _ in range(args[1].get()):
                (i.next if name == "operator+" else i.prev)()
            return Cell(i)
        if name == "operator+" and isinstance(a, str):
            b = args[1].get()
            return Cell(a + (b if isinstance(b, str) else "?"))
        if name == "operator|=" or name == "operator+=":
            raise Unmodelled(name)
        raise Unmodelled("%s at line %d" % (name, self.u.line(n)))

    def e_CallExpr(self, n, env, this):
        c = self.callee(n)
        if c.get("kind") == "DeclRefExpr" and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            r = c["referencedDecl"]
            f = self.u.funcs.get(r["id"])
            args = [self.lv(a, env, this) for a in n["inner"][1:]]
            if f is not None:
                return self.call(f, None, args)
            return self.library(r["name"], args, n, c)
        v = self.ev(n["inner"][0], env, this)
        if isinstance(v, Ptr):
            v = v.loc.get()
        return self.apply(v, [self.lv(a, env, this) for a in n["inner"][1:]])

    def e_CXXPseudoDestructorExpr(self, n, env, this):
        return Cell(None)

    def library(self, name, args, n, c):
        vals = [a.get() for a in args]
        for v in vals:
            if isinstance(v, Obj) and v.dead:
                raise Fault("%s of an object that has been erased at line %d" % (name, self.u.line(n)))
        dflt = lambda i, d=None: vals[i] if len(vals) > i and vals[i] is not DEFAULT else d
        if name in ("dyn_cast", "cast", "isa", "dyn_cast_or_null", "cast_or_null", "isa_and_nonnull",
                    "dyn_cast_if_present", "cast_if_present", "isa_and_present"):
            text = self.u.text(c)
            mm = re.search(r"<(.*)>\s*$", text, re.S)
            if not mm:
                raise Unmodelled("type of " + name)
            kinds = [re.sub(r"\bconst\b", "", x).strip().split("::")[-1] for x in mm.group(1).split(",")]
            v = vals[0]
            if isinstance(v, Iter):
                v = v.loc().get()
            if v is None:
                if "null" in name or "present" in name:
                    return Cell(False if name.startswith("isa") else None)
                raise Fault("%s of a null pointer at line %d" % (name, self.u.line(n)))
            if not isinstance(v, Value):
                raise Unmodelled(name + " of a value")
            known = set(sum((x.kinds for x in [Const(), Arg(), Func("f"), Block()]), ())) | {"Instruction"} | \
                set(INSTCLASS.values()) | {"CmpInst", "CallBase", "UnaryInstruction"}
            for k in kinds:
                if k not in known:
                    raise Unmodelled("%s<%s>" % (name, k))
            yes = any(k in v.kinds for k in kinds)
            if name.startswith("isa"):
                return Cell(yes)
            if not yes and name.startswith("cast"):
                raise Fault("cast of %s to %s" % (v.kinds[-1], kinds[0]))
            return Cell(v if yes else None)
        if name == "Create":
            t = self.ty(n)
            if t.startswith("BasicBlock") or "BasicBlock *" == t.replace("llvm::", ""):
                b = Block(dflt(1, ""))
                if dflt(2) is not None:
                    b.c_insertInto(self, vals[2], dflt(3))
                self.fresh.append(b)
                return Cell(b)
            if "BranchInst" in t:
                real = [v for v in vals if v is not DEFAULT]
                at = None
                if isinstance(real[0], Block) and (len(real) == 1 or not isinstance(real[1], Block) or len(real) == 2):
                    i = Inst("br", "", (), [real[0]])
                    at = real[1] if len(real) > 1 else None
                else:
                    if len(real) < 3 or real[2] is None:
                        raise Fault("conditional branch without a condition")
                    i = Inst("br", "", [real[2]], real[:2])
                    at = real[3] if len(real) > 3 else None
                if any(s is None for s in i.succs):
                    raise Fault("branch to a null block")
                if isinstance(at, Inst):
                    i.c_insertBefore(self, at)
                elif isinstance(at, Block):
                    i.block = at
                    at.insts.append(i)
                else:
                    self.detached.append(i)
                return Cell(i)
            if "PHINode" in t:
                i = Inst("phi", "")
                at = next((v for v in vals if isinstance(v, (Inst, Block))), None)
                if isinstance(at, Inst):
                    i.c_insertBefore(self, at)
                elif isinstance(at, Block):
                    i.block = at
                    at.insts.append(i)
                else:
                    self.detached.append(i)
                return Cell(i)
            raise Unmodelled("Create of " + t)
        if name == "ReplaceInstWithInst":
            if len(vals) != 2:
                raise Unmodelled(name)
            old, new = vals
            if old is None or new is None:
                raise Fault("ReplaceInstWithInst of null")
            if new.block is not None:
                raise Fault("ReplaceInstWithInst with an instruction that already is in a block")
            if old.block is None:
                raise Fault("ReplaceInstWithInst of an instruction that is in no block")
            new.c_insertBefore(self, old)
            old.c_replaceAllUsesWith(self, new)
            if old.name and not new.name:
                new.name = old.name
            old._detach()
            old.dead = True
            return Cell(None)
        if name in ("SplitEdge", "SplitCriticalEdge", "SplitBlock", "SplitBlockPredecessors", "MergeBlockIntoPredecessor"):
            if name == "SplitEdge" and all(isinstance(v, Block) for v in vals[:2]):
                # a new block on the first edge between the two blocks
                a, b = vals[:2]
                t = a.c_getTerminator(self)
                ix = next((i for i, s in enumerate(t.succs) if s is b), None)
                if ix is None:
                    raise Fault("SplitEdge without an edge")
                raise Unmodelled(name)
            raise Unmodelled(name)
        if name in ("errs", "outs", "dbgs", "nulls"):
            return Cell(Stream())
        if name == "make_pair":
            return Cell(Pair(copy(vals[0]), copy(vals[1])))
        if name in ("make_tuple", "tie", "forward_as_tuple"):
            return Cell(Tup([copy(v) for v in vals]))
        if name in ("move", "forward", "as_const", "ref", "cref"):
            return args[0]
        if name == "get" and len(vals) == 1 and isinstance(vals[0], (Pair, Tup)):
            mm = re.search(r"<\s*(\d+)", self.u.text(c))
            if mm:
                return self.fields(vals[0])[int(mm.group(1))]
        if name == "swap" and len(args) == 2:
            a, b = copy(vals[0]), copy(vals[1])
            args[0].set(b)
            args[1].set(a)
            return Cell(None)
        if name in ("successors", "predecessors"):
            v = vals[0]
            if isinstance(v, Block) and name == "successors":
                t = v.c_getTerminator(self)
                return Cell(Vec(list(t.succs) if t is not None else []))
            if isinstance(v, Inst) and name == "successors":
                return Cell(Vec(list(v.succs)))
            if isinstance(v, Block):
                return Cell(Vec(v._preds(self)))
        if name == "pred_size":
            return Cell(len(vals[0]._preds(self)))
        if name == "succ_size":
            t = vals[0].c_getTerminator(self)
            return Cell(len(t.succs) if t is not None else 0)
        if name in ("pred_empty",):
            return Cell(not vals[0]._preds(self))
        if name in ("pred_begin", "pred_end", "succ_begin", "succ_end"):
            raise Unmodelled(name)
        if name == "isCriticalEdge":
            t, i = vals[0], vals[1]
            if not isinstance(t, Inst) or not isinstance(i, int):
                raise Unmodelled(name)
            return Cell(len(t.succs) > 1 and len(t.succs[i]._preds(self)) > 1)
        if name in ("instructions",) and isinstance(vals[0], Func):
            return Cell(Vec([i for b in vals[0].blocks for i in b.insts]))
        if name in ("make_early_inc_range", "reverse", "enumerate"):
            items = []
            o = vals[0]
            src = o.blocks if isinstance(o, Func) else o.insts if isinstance(o, Block) else o.items
            items = [x.get() if isinstance(x, Cell) else x for x in src]
            if name == "enumerate":
                raise Unmodelled(name)
            return Cell(Vec(items[::-1] if name == "reverse" else items))
        if name in ("for_each",):
            if len(vals) == 3:
                for x in self.span(vals[0], vals[1]).items:
                    self.apply(vals[2], [Cell(x)])
                return Cell(None)
            rng = vals[0]
            for x in self.span(self.method(rng, "begin", []).get(), self.method(rng, "end", []).get()).items:
                self.apply(vals[1], [Cell(x)])
            return Cell(None)
        if name in ("any_of", "all_of", "none_of", "count_if"):
            if len(vals) == 3:
                xs, f = self.span(vals[0], vals[1]).items, vals[2]
            else:
                xs, f = self.span(self.method(vals[0], "begin", []).get(), self.method(vals[0], "end", []).get()).items, vals[1]
            r = [truth(self.apply(f, [Cell(x)]).get()) for x in xs]
            return Cell({"any_of": any(r), "all_of": all(r), "none_of": not any(r), "count_if": sum(r)}[name])
        if name in ("next", "prev") and isinstance(vals[0], Iter):
            i = vals[0].clone()
            for _ in range(dflt(1, 1)):
                (i.next if name == "next" else i.prev)()
            return Cell(i)
        if name == "make_range" and len(vals) == 2 and isinstance(vals[0], Iter):
            if vals[0].intrusive:
                for f in self.functions:
                    for o, l in [(f, f.blocks)] + [(b, b.insts) for b in f.blocks]:
                        if l is vals[0].lst and vals[0].same(Iter(l, 0, True)) and vals[1].same(Iter(l, END, True)):
                            return Cell(o)
            return Cell(self.span(vals[0], vals[1]))
        if name in ("begin", "end"):
            return self.method(vals[0], name, [])
        if name in ("size",):
            return self.method(vals[0], name, [])
        if name in ("__assert_fail", "llvm_unreachable_internal", "report_fatal_error", "abort"):
            raise Fault("%s at line %d" % (name, self.u.line(n)))
        if name == "isCurrentDebugType":
            return Cell(False)
        raise Unmodelled("function %s at line %d" % (name, self.u.line(n)))
