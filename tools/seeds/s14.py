PROPERTY = "P14"
NEEDS = "a higher-order function applied to another call of the same higher-order function with the same helper, in a candidate"
BREAKS = "a call that is specialised to its helper keeps its arguments as they were, so the inner call still names the unspecialised function, which the query does not define"
EDITS = [("metalift/smt_util.py",
'''            for arg in expr.arguments()
        ):
            final_fn_name = new_fn_name
        return Call(
            final_fn_name,
''',
'''            for arg in expr.arguments()
        ):
            return Call(new_fn_name, expr.type, *expr.arguments())
        return Call(
            final_fn_name,
''')]
DEMO = '''
import os, re, shutil, tempfile

d = tempfile.mkdtemp()
try:
    from metalift.ir import *
    from metalift.smt_util import toSMT

    x = mlList_x = List[Int]
    lst = create_object(List[Int], "l")
    fty = make_fn_type(Int, Int)
    f = create_object(fty, "f")
    body = ite(lst.len() < 1, List.empty(Int), call("vmap", List[Int], lst[1:], f).prepend(call_value(f, lst[0])))
    vmap = fn_decl_recursive("vmap", List[Int], body, lst, f)
    v = Int("v")
    helper = fn_decl("inc", Int, v + 1, v)
    ref = create_object(fty, "inc")

    def query(e):
        out = create_object(List[Int], "out")
        ps = fn_decl("p_ps", Bool, Bool(Eq(out.src, e.src)), lst, out)
        o = os.path.join(d, "q.smt")
        toSMT([vmap], {lst.src, out.src}, [ps, helper], [], call("p_ps", Bool, lst, out).src, o,
              [("vmap", "inc")], ["vmap", "p_ps", "inc"])
        return open(o).read()

    once = call("vmap", List[Int], lst, ref)
    twice = call("vmap", List[Int], once, ref)
    for e, n in ((once, 1), (twice, 2)):
        t = query(e)
        assert not re.search(r"[(]vmap[ )]", t), "unspecialised call left in the query"
        ps = t[t.index("p_ps"):]
        ps = ps[:ps.index("declare-const")]
        assert ps.count("(vmap_inc ") == n, ps
finally:
    shutil.rmtree(d)
'''
