"""P19: sorts of types."""
import itertools

from ..irh import *  # noqa
from ..values import *  # noqa
from .p01 import sort, tname
from .p03 import pytype as _pytype

FLOOR = 150


def struct(s):
    """the structure a type denotes: matrices and tensors are nested lists"""
    if isinstance(s, str):
        return s
    if s[0] == "Matrix":
        return ("List", ("List", struct(s[1])))
    if s[0] == "Tensor3D":
        return ("List", ("List", ("List", struct(s[1]))))
    return (s[0],) + tuple(struct(x) for x in s[1:])


def pytype(s):
    if not isinstance(s, str) and s[0] == "Tensor3D":
        return "List[List[List[%s]]]" % pytype(s[1])
    if not isinstance(s, str) and s[0] in ("List", "Matrix"):
        return ("List[%s]" if s[0] == "List" else "List[List[%s]]") % pytype(s[1])
    return _pytype(s)


def universe():
    base = ["Int", "Bool"]
    l1 = [(c, b) for c in ("List", "Matrix", "Tensor3D", "Set") for b in base]
    l1 += [("Tuple", a, b) for a in base for b in base] + [("Tuple", "Int"), ("Tuple", "Int", "Int", "Bool"), ("Tuple", "Bool", "Int", "Int", "Int")]
    l2 = [(c, x) for c in ("List", "Set", "Matrix") for x in l1] + [("Tuple", x, "Int") for x in l1] + [("Tuple", "Bool", x) for x in l1] + [("Tuple", x, y) for x, y in itertools.product(l1[:6], l1[3:7])]
    l3 = [("List", x) for x in l2[:20]] + [("Set", x) for x in l2[:8]]
    return base + l1 + l2 + l3


def run(ctx):
    h = IRH(ctx)
    it = h.it
    ctx.rule("the text of the sort-printing method of each type (all types built from Int, Bool, List, Matrix, Tensor3D, Set, Tuple to nesting depth three) reads as the sort of the same structure")
    ctx.rule("the type names used for type comparison are different for every two types of different structure")
    names, alltypes = {}, universe()
    for s in alltypes:
        ty = h.ty(s)
        base = ty if isinstance(ty, ClassV) else ty.origin
        w = h.loc(base.name + ".toSMTType")

        def tup(t):
            return [] if isinstance(t, ClassV) else [Tup(t.args)]

        def go(itp, meth="toSMTType"):
            return itp.call(itp.getattr(base, meth), tup(ty), {})

        def expect(v, r):
            t = sexpr(v, ())
            if isinstance(t, str):
                return t
            want = [sort(s)]
            return None if tree_eq(t, want) else "sort is %s, expected %s" % (" ".join(map(tree_text, t)), tree_text(sort(s)))
        h.decide("sort/" + tname(s), go, expect, w)
        # the way callers reach it: through the type object itself
        h.decide("sort-via-type/" + tname(s), lambda itp: itp.call(itp.getattr(ty, "toSMTType"), tup(ty), {}), expect, w)

        def go2(itp):
            return h.fn("get_type_str", ty)

        res = h.run(go2)
        for r in res:
            if r.kind == "return" and isinstance(r.value, K):
                names.setdefault(r.value.v, []).append(s)
            elif r.kind == "raise":
                ctx.bad("name/" + tname(s), "raises " + r.msg, r.loc)
            else:
                ctx.unknown("name/" + tname(s), "%s %s" % (r.kind, r.msg))
    for n, ss in names.items():
        st = {struct(s) for s in ss}
        for s in ss:
            ctx.check("name/" + tname(s), len(st) == 1, "the type name %r is shared by types of different structure: %s" % (n, ", ".join(map(tname, ss))), h.loc("get_type_str"), n)
    for s in alltypes:
        if isinstance(s, tuple) and any(x in str(s) for x in ("Set", "Tuple")):
            continue
        ty = h.ty(s)

        def go3(itp):
            return itp.call(itp.getattr(ty, "to_python_type_str"), [] if isinstance(ty, ClassV) else [Tup(ty.args)], {})
        h.decide("pytype/" + tname(s), go3, lambda v, r: None if v == K(pytype(s)) else "Python type is %s, expected %s" % (show(v), pytype(s)), h.loc("get_type_str"))
    fns = [("Fn", "Int"), ("Fn", "Int", "Int"), ("Fn", "Bool", "Int"), ("Fn", "Int", "Bool"), ("Fn", "Int", "Int", "Bool"), ("Fn", ("List", "Int"), ("Matrix", "Int"), "Int"), ("Fn", ("Matrix", "Int"), ("List", "Int"), "Int"),
           ("Fn", "Int", ("Fn", "Int", "Int")), ("Fn", "Int", ("Fn", "Int"), "Int"), ("Fn", "Int", ("Tuple", "Int", "Bool")), ("Fn", "Int", ("Set", "Int"), "Bool")]
    fnames = {}
    for s in fns:
        ty = h.ty(s)
        for r in h.run(lambda itp: h.fn("get_type_str", ty)):
            if r.kind == "return" and isinstance(r.value, K):
                fnames.setdefault(r.value.v, []).append(s)
            elif r.kind == "raise":
                ctx.bad("fn-name/" + tname(s), "raises " + r.msg, r.loc)
    for n, ss in fnames.items():
        for s in ss:
            ctx.check("fn-name/" + tname(s), len(ss) == 1, "the type name %r is shared by %s" % (n, ", ".join(map(tname, ss))), h.loc("Fn.cls_str"), n)
        if not any("Tuple" in str(s) or "Set" in str(s) for s in ss):
            s = ss[0]
            ty = h.ty(s)
            h.decide("fn-pytype/" + tname(s), lambda itp: itp.call(itp.getattr(ty, "to_python_type_str"), [Tup(ty.args)], {}), lambda v, r: None if v == K(pytype_fn(s)) else "Python type is %s, expected %s" % (show(v), pytype_fn(s)), h.loc("Fn.to_python_type_str"))
    # predicates over types
    preds = {"is_list_type": lambda s: isinstance(s, tuple) and s[0] in ("List", "Matrix", "Tensor3D"), "is_matrix_type": lambda s: isinstance(s, tuple) and s[0] == "Matrix",
             "is_tensor3d_type": lambda s: isinstance(s, tuple) and s[0] == "Tensor3D", "is_set_type": lambda s: isinstance(s, tuple) and s[0] == "Set",
             "is_tuple_type": lambda s: isinstance(s, tuple) and s[0] == "Tuple", "is_primitive_type": lambda s: s in ("Int", "Bool"), "is_pointer_type": lambda s: s not in ("Int", "Bool"),
             "is_fn_decl_type": lambda s: isinstance(s, tuple) and s[0] == "Fn"}
    for p, f in preds.items():
        if not h.has(p):
            continue
        for s in alltypes[:24] + fns[:3]:
            h.decide("%s/%s" % (p, tname(s)), lambda itp: h.fn(p, h.ty(s)), lambda v, r: None if v == K(bool(f(s))) else "%s(%s) is %s" % (p, tname(s), show(v)), h.loc(p))
    if h.has("is_nested_list_type"):
        for s in alltypes:
            if s[0] in ("List", "Set"):
                want = s[0] == "List" and isinstance(s[1], tuple) and s[1][0] in ("List", "Matrix", "Tensor3D")
                h.decide("is_nested_list_type/" + tname(s), lambda itp: h.fn("is_nested_list_type", h.ty(s)), lambda v, r: None if v == K(want) else "is_nested_list_type(%s) is %s" % (tname(s), show(v)), h.loc("is_nested_list_type"))
    # default names and values: an object of a type reports that type
    for s in alltypes[:15]:
        ty = h.ty(s)

        def go4(itp):
            o = h.fn("create_object", ty, K("x"))
            return Tup([itp.getattr(o, "type"), itp.getattr(itp.getattr(o, "src"), "type"), h.meth(itp.getattr(o, "src"), "name")])
        h.decide("object-type/" + tname(s), go4, lambda v, r: None if v == Tup([ty, ty, K("x")]) else "create_object(%s, 'x') has type, source type, name %s" % (tname(s), show(v)), h.loc("create_object"))
    llvmtypes(ctx, h, alltypes)


# the types of the compiled source and the types of the IR they are read as (what llvm/ and the drivers' C++ and C headers declare)
LLVM = [("i32", "Int"), ("i32*", "Int"), ("i1", "Bool"), ("i8", "Bool"), ("i8*", "Bool"), ("%struct.list*", ("List", "Int")), ("%struct.list**", ("List", "Int")),
        ('%"class.std::__1::List"*', ("List", "Int")), ('%"class.std::__1::List.0"*', ("List", "Int")), ('%"class.std::__1::List.17"*', ("List", "Int")),
        ('%"class.std::__1::vector"*', ("List", ("List", "Int"))), ("%struct.set*", ("Set", "Int")), ("%struct.tup*", ("Tuple", "Int", "Int"))]
# no meaning in the IR: reading them as some type would be a guess
NOTYPE = ["i64", "i16", "float", "double", "void", "i32**", "i1*", "%struct.foo*", "%struct.set", "%struct.lists*", "%struct.tuple*", '%"class.std::__1::map"*', "[4 x i32]", "label"]


def llvmtypes(ctx, h, alltypes):
    """parse_type_ref_to_obj reads a type of the compiled source as the type of the IR that holds the same values, and refuses the others"""
    if not h.has("parse_type_ref_to_obj"):
        return
    where = h.loc("parse_type_ref_to_obj")

    def ref(text):
        return h.it.new_inst(Ext("llvmlite.binding.TypeRef"), {"is_pointer": K(text.endswith("*")), "name": K(""), "args": Tup([K(text)])})
    for text, s in LLVM:
        ty = h.ty(s)
        h.decide("llvm-type/" + text.replace(" ", ""), lambda itp: h.fn("parse_type_ref_to_obj", ref(text)),
                 lambda v, r: None if v == ty else "%s is read as %s, and holds what %s holds" % (text, show(v), tname(s)), where)
    for text in NOTYPE:
        h.must_raise("llvm-type/" + text.replace(" ", ""), lambda itp: h.fn("parse_type_ref_to_obj", ref(text)), "the type %s" % text, where)
    for s in alltypes[:24]:
        ty = h.ty(s)
        h.decide("llvm-type-object/" + tname(s), lambda itp: h.fn("parse_type_ref_to_obj", ty),
                 lambda v, r: None if v == ty else "the type %s is read as %s" % (tname(s), show(v)), where)


def pytype_fn(s):
    if isinstance(s, tuple) and s[0] == "Fn":
        return "Callable[[%s], %s]" % (", ".join(pytype_fn(x) for x in s[2:]), pytype_fn(s[1]))
    return pytype(s)
