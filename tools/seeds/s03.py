PROPERTY = "P19"
NEEDS = "a tuple type whose component is itself a generic type (e.g. a tuple holding a set of lists)"
BREAKS = "the SMT sort of a set of a generic element type drops the element's own arguments"
EDITS = [("metalift/ir.py",
'''            return f"(Set {get_origin(contained_type).toSMTType(get_args(contained_type))})"  # type: ignore # this would call List.toSMTType(Int) for instance
''',
'''            element_type = get_args(contained_type)[0]
            if isinstance(element_type, _GenericAlias):
                return Set.cls_str((element_type,))
            return f"(Set {get_origin(contained_type).toSMTType(get_args(contained_type))})"  # type: ignore # this would call List.toSMTType(Int) for instance
''')]
DEMO = '''
from metalift.ir import Int, List, Set

assert Set.toSMTType((Int,)) == "(Set Int)"
assert Set.toSMTType((List[Int],)) == "(Set (MLList Int))", Set.toSMTType((List[Int],))
nested = Set.toSMTType((Set[List[Int]],))
assert nested == "(Set (Set (MLList Int)))", nested
'''
