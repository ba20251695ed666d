From 16648d0e692ec49ea28f201d312b34e45a92e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 01/93] fix: print the SMT definition of a non-recursive
 function

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..ab718ec 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From bd61db629a6fe72d2f140a49edde2c81f4545bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 02/93] fix: print negative integer literals as SMT-LIB terms

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab718ec..1b06cdb 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,8 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            return f"(- {-self.args[0]})"  # SMT-LIB has no negative numerals
         else:
             return str(self.args[0])
 
-- 
2.43.0


From 4838c5e4c6c4742f567e354dca5408c5ddf01c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 03/93] fix: take the size of an accessed tuple from its type

---
 metalift/ir.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1b06cdb..b6712b1 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2534,10 +2534,7 @@ class Call(Expr):
                     )
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
-                elif (
-                    isinstance(self.args[idx + 1], Var)
-                    and get_origin(self.args[idx + 1].type) == Tuple
-                ):
+                elif get_origin(self.args[idx + 1].type) == Tuple:
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                     retVal.append(f"tuple{length}_get{index}")
                 else:
@@ -2780,8 +2777,8 @@ class TupleExpr(Expr):
 
 class TupleGet(Expr):
     def __init__(self, t: Expr, i: Expr) -> None:
-        # TODO: type.args no longer exist. need proper fix
-        Expr.__init__(self, t.type.args[i.args[0]], [t, i])  # type: ignore
+        contained_types = get_args(get_args(t.type)[0])
+        Expr.__init__(self, contained_types[i.args[0]], [t, i])  # type: ignore
 
     def t(self) -> Expr:
         return self.args[0]  # type: ignore
@@ -2799,7 +2796,7 @@ class TupleGet(Expr):
     def toSMT(self) -> str:
         # example: generate (tuple2_get0 t)
         return "(tuple%d_get%d %s)" % (
-            len(self.args[0].type.args),
+            len(get_args(get_args(self.args[0].type)[0])),
             self.args[1].args[0],
             self.args[0].toSMT(),
         )  # args[1] must be an int literal
-- 
2.43.0


From fe424523efa2c78ec59ad50b9262814f393bf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 04/93] fix: print user functions whose name starts with
 integer

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index b6712b1..a1bfb93 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -370,7 +370,7 @@ class Expr:
             return "integer-sqrt-noerr"
         elif fn_name == "integer_exp":
             return "integer-exp-noerr"
-        raise Exception(f"Unsupported integer function {fn_name}")
+        return None
 
     @staticmethod
     def get_list_fn(expr: Union["Call", "CallValue"]) -> Optional[str]:
-- 
2.43.0


From 60b1128fcbf01e0cddb21583a07e5f384ffce7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 05/93] fix: build lambda types with the existing function type

---
 metalift/ir.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a1bfb93..6d66d77 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -151,7 +151,7 @@ class Expr:
         elif isinstance(self, Let):
             return Let(*[f(a) for a in self.args])
         elif isinstance(self, Lambda):
-            return Lambda(self.type.args[0], *[f(a) for a in self.args])  # type: ignore
+            return Lambda(get_fn_return_type(self.type), *[f(a) for a in self.args])
         elif isinstance(self, Choose):
             return Choose(*[f(a) for a in self.args])
         elif isinstance(self, TupleGet):
@@ -267,7 +267,7 @@ class Expr:
                 elif isinstance(e, Let):
                     return Let(*newArgs)
                 elif isinstance(e, Lambda):
-                    return Lambda(e.type.args[0], *newArgs)  # type: ignore
+                    return Lambda(get_fn_return_type(e.type), *newArgs)
                 elif isinstance(e, CallValue):
                     return CallValue(*newArgs)
                 else:
@@ -3116,7 +3116,7 @@ class FnDeclRecursive(Expr):
 
 class Lambda(Expr):
     def __init__(self, returnT: ObjectT, body: Expr, *args: Expr) -> None:
-        Expr.__init__(self, FnT(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
+        Expr.__init__(self, make_fn_type(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
 
     def body(self) -> Expr:
         return self.args[0]  # type: ignore
-- 
2.43.0


From 23e819050845031318d060af47ea90f7a120a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 06/93] fix: parenthesise operators printed as Python

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 6d66d77..4c3041b 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1950,7 +1950,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2006,7 +2006,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2101,7 +2101,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2132,7 +2132,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2163,7 +2163,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2194,7 +2194,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2225,7 +2225,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2252,7 +2252,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2280,7 +2280,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2304,7 +2304,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From 60b7e8b5f8b72feb9d31477b825416638cab91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 07/93] fix: print one-element tuples as Python tuples

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 4c3041b..a1d0f1a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2769,7 +2769,7 @@ class TupleExpr(Expr):
         return "(tuple%d %s)" % (len(self.args), args)
 
     def to_python(self) -> str:
-        return f"({', '.join([arg.to_python() for arg in self.args])})"
+        return f"({''.join([arg.to_python() + ', ' for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_TupleExpr(self)
-- 
2.43.0


From c7523c6b1948223ffd65488b33c9a6df9407a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 08/93] fix: tell matrix types from list types of the same
 element

---
 metalift/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a1d0f1a..294485f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1536,7 +1536,8 @@ class Matrix(List[T], Generic[T], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type = type_args[0]
+        elem_type = type_args[0]
+        contained_type = List[elem_type]
         if isinstance(contained_type, _GenericAlias):
             return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
         else:
-- 
2.43.0


From 75c4071f1de3010ea9d19a4a9a26facb1d13e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 09/93] fix: give three-dimensional tensors their own sort

---
 metalift/ir.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 294485f..98ad37c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1599,6 +1599,18 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
+        return f"List[{Matrix.to_python_type_str(type_args)}]"
+
+    @staticmethod
+    def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"(MLList {Matrix.toSMTType(type_args)})"
+
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"List {Matrix.cls_str(type_args)}"
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From d60ee6463bf633c4996d14d81de9e367db8e8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 10/93] fix: name function types by their argument and return
 types

---
 metalift/ir.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 98ad37c..c544dce 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1846,17 +1846,8 @@ class Fn(Generic[FnContainedT], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type_strs: list[str] = []
-        contained_types = get_args(get_args(type_args[0]))
-        for contained_type in contained_types:
-            if isinstance(contained_type, _GenericAlias):
-                contained_type_str = get_origin(contained_type).toSMTType(  # type: ignore
-                    get_args(contained_type)
-                )
-            else:
-                contained_type_str = contained_type.toSMTType()
-            contained_type_strs.append(contained_type_str)
-        return f"Function {' '.join(contained_type_strs)}"
+        contained_type_strs = [get_type_str(t) for t in get_args(type_args[0])]
+        return f"Function ({', '.join(contained_type_strs)})"
 
 
 ### END OF IR OBJECTS
-- 
2.43.0


From 7d540ee4bd7a7481aebf05b43b7823edb4a2af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 11/93] fix: create tuple objects with the types of their
 elements

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index c544dce..8f45a76 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -660,7 +660,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From 7e8e2915eb035317e52425be510a5046ee6ddbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 12/93] fix: map over the operands of a function to synthesize

The CVC5 synthesis path filters function arguments out of every candidate
grammar, which raised NYI for Synth.
---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8f45a76..9a31391 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -180,6 +180,8 @@ class Expr:
             )
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
+        elif isinstance(self, Synth):
+            return Synth(self.name(), f(self.body()), *[f(a) for a in self.arguments()])
         else:
             raise Exception("NYI: %s" % self)
 
-- 
2.43.0


From c5099da16b722c3dbc3c4dea23db6e0810f7f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 13/93] fix: keep the code generator of a target call when
 mapping over it

---
 metalift/ir.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 9a31391..1c0c87d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -156,6 +156,13 @@ class Expr:
             return Choose(*[f(a) for a in self.args])
         elif isinstance(self, TupleGet):
             return TupleGet(f(self.args[0]), *[f(a) for a in self.args[1:]])
+        elif isinstance(self, TargetCall):
+            return TargetCall(
+                typing.cast(str, f(self.args[0])),
+                self.type,
+                self._codegen,
+                *[f(a) for a in self.args[1:]],
+            )
         elif isinstance(self, Call):
             return Call(
                 typing.cast(str, f(self.args[0])),
-- 
2.43.0


From b2d4138ff760361138ed62330ed6b6e9196732bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 14/93] fix: take the return type of an extracted lambda from
 its function type

---
 metalift/synthesis_common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 4f93ffb..8b88195 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -130,9 +130,8 @@ def parse_candidates(
                         lambda_name = f"lambda_{len(extracted_lambdas)}"
                         extracted_lambdas.append(
                             FnDecl(
-                                # TODO: ar.type no longer has args, find proper substitution
                                 lambda_name,
-                                ar.type.args[0],  # type: ignore
+                                get_fn_return_type(ar.type),
                                 ar.args[0],
                                 *ar.args[1:],
                             )
-- 
2.43.0


From 5d8d11d5cc50a1a9a5573fcbac7196dd6afe7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 15/93] fix: rename every caller of an inlined function to that
 function's name

The loop over the target language overwrote new_fn_name, so a second caller
was rewritten to call the first caller instead of the inlined function.
---
 metalift/smt_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..d50a75b 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -423,27 +423,27 @@ def toSMT(
                         in_call=None,
                     )
 
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
+                    new_caller_name = f"{t.name()}_{new_fn_name}"
                     new_body = filter_body(
                         fun_def=new_body,
-                        new_fn_call=new_fn_name,
+                        new_fn_call=new_caller_name,
                         fn_call=t.name(),
                         in_call=None,
                     )
                     new_args = filter_args(t.arguments())
 
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
+                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_caller_name
                     rewritten_fn_decls.add(t)
                     fn_decls.append(
                         FnDeclRecursive(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
                         )
                         if isinstance(t, FnDeclRecursive)
                         else FnDecl(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
-- 
2.43.0


From d10aef23767b5a294dae7b4f46954b5c5d1979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 16/93] fix: define an inlined higher-order function once

A function applying its argument more than once was recorded, and defined, once
per application.
---
 metalift/smt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index d50a75b..33a08d2 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -346,7 +346,7 @@ def toSMT(
                 isinstance(t, FnDeclRecursive) or isinstance(t, FnDecl)
             ) and t.name() in fn_calls:
                 for i in direct_in_calls:
-                    if i[0] == t.name():
+                    if i[0] == t.name() and i not in in_calls_to_renamed_fn_name:
                         rewritten_fn_decls.add(t)
                         early_candidates_names.add(i[1])
                         # If we are doing the first round, then it means we are rewritting
-- 
2.43.0


From 3000d1657dc0209754826e5210f3d52a88741330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 17/93] fix: combine an integer with a list or matrix through
 its arithmetic

Neither List nor Matrix defines the reflected operators that were called.
---
 metalift/ir.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1c0c87d..72f915a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -959,13 +959,13 @@ class Int(Object):
             return Int(op(self.src, other.src))
         if isinstance(other, Matrix) or isinstance(other, List):
             if op == Add:
-                return other.__radd__(self)
+                return other.add(self, other)
             elif op == Sub:
-                return other.__rsub__(self)
+                return other.sub(self, other)
             elif op == Mul:
-                return other.__rmul__(self)
+                return other.mul(self, other)
             elif op == Div:
-                return other.__rfloordiv__(self)
+                return other.div(self, other)
         raise TypeError(f"Cannot call {op} on Int {self} and {other}")
 
     # arithmetic operators
-- 
2.43.0


From 4d5e6494cc3311f301c584c6954f98801890cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 18/93] fix: compare the IR type of an element removed from a
 set

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 72f915a..d763d40 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1656,9 +1656,9 @@ class Set(Generic[T], Object):
         return call("set-insert", self.type, value, self)  # type: ignore
 
     def remove(self, item: Object) -> "Set":  # type: ignore
-        if type(item) != self.containedT:
+        if item.type != self.containedT:
             raise TypeError(
-                f"Trying to remove element of type: {type(item)} from set containing: {self.containedT}"
+                f"Trying to remove element of type: {item.type} from set containing: {self.containedT}"
             )
         singleton_s = Set.singleton(item)
         return call("set-minus", self.type, self, singleton_s)  # type: ignore
-- 
2.43.0


From d810e11a63f7ef99571372d20a17b110f86e9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 19/93] fix: give a singleton set the IR type of its element

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index d763d40..c1fad14 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1665,7 +1665,7 @@ class Set(Generic[T], Object):
 
     @staticmethod
     def singleton(item: Object) -> "Set":  # type: ignore
-        return call("set-singleton", Set[type(item)], item)  # type: ignore
+        return call("set-singleton", Set[item.type], item)  # type: ignore
 
     def union(self, s: "Set") -> "Set":  # type: ignore
         if self.type != s.type:
-- 
2.43.0


From f5343ddf77cf47c9853f97146efabb5651152ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 20/93] fix: call the set membership built-in by its name,
 element first

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index c1fad14..b5dbc91 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1685,7 +1685,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From dd6474b59b23120adddac83eb1f35c908babe088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 21/93] fix: build an inequality for lists and sets

Python's default != negated the truth value of the equality expression and was
always False.
---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index b5dbc91..458d918 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1220,6 +1220,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1691,6 +1694,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return (self == s).Not()
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
-- 
2.43.0


From ee2b87cfa895285c4d3db7e896f73846e2900239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 22/93] fix: model set membership by its expression

The in operator converts the expression to a Python bool.
---
 metalift/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/models.py b/metalift/models.py
index 0bad697..101464f 100644
--- a/metalift/models.py
+++ b/metalift/models.py
@@ -72,7 +72,7 @@ def set_contains(
         else pointer_vars[args[0].name]
     )
     item = primitive_vars[args[1].name]
-    return ReturnValue(item in s, None)  # type: ignore
+    return ReturnValue(s.__contains__(item), None)  # type: ignore
 
 
 def new_list(
-- 
2.43.0


From 032251872662aebd5688180b75976dfc06efd7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 23/93] fix: keep collecting equalities after the second
 conflicting one

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 458d918..9afc8de 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -521,7 +521,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -529,7 +529,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From bcbd3246d9484821cb31f883f8d0cc1470185075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 24/93] fix: subtract from a difference as a nested difference

---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 9afc8de..fb1b110 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -599,10 +599,7 @@ class Expr:
             return Add(self, other)
 
     def __sub__(self, other: "Expr") -> "Sub":
-        if isinstance(self, Sub):
-            return Sub(*self.args, other)
-        else:
-            return Sub(self, other)
+        return Sub(self, other)
 
     def __mul__(self, other: "Expr") -> "Mul":
         if isinstance(self, Mul):
-- 
2.43.0


From b21cab606d69e5e29a20ac50e2d139436b881ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 25/93] fix: start every program state from its own lists

---
 metalift/frontend/python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..193745a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,14 +106,14 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
+        self.precond = precond or []
+        self.vars = vars or {}
+        self.asserts = asserts or []
         self.has_returned = has_returned if not has_returned else has_returned
 
     def read(self, var: str) -> Object:
-- 
2.43.0


From 177b98ee92b0d49f8fde8db8f9e7510fd194c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 26/93] fix: keep the obligations raised inside a branch

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 193745a..eb0ac1f 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -627,7 +627,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         a_state = alternate.state
 
         for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
+            if not any(Object.__eq__(e, a) for a in self.state.asserts):
                 self.state.asserts.append(e)
 
         if c_state.has_returned and a_state.has_returned:
-- 
2.43.0


From e218b9266adda31b84df922a39057f3766caf8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 27/93] fix: keep a value that is the same on both sides of a
 branch

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index eb0ac1f..085a965 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -647,7 +647,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
-- 
2.43.0


From 5a8a3d4d23b6eeeb0a6dcd908e8c78e2aae5087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 28/93] fix: assume what the side that continues after a branch
 assumes

---
 metalift/frontend/python.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 085a965..9e41325 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                return  # the rest of the block is never executed
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -631,11 +633,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 self.state.asserts.append(e)
 
         if c_state.has_returned and a_state.has_returned:
-            return
+            self.state.has_returned = True
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
@@ -652,6 +656,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 else:
                     self.state.vars[v] = c_e
 
+            # keep what either side assumes beyond its branch condition (e.g., loop exits)
+            num_preconds = len(self.state.precond) + 1
+            for c, side in ((cond, c_state), (cond.Not(), a_state)):
+                if len(side.precond) > num_preconds:
+                    extra = and_objects(*side.precond[num_preconds:])
+                    self.state.precond.append(implies(c, extra))
+
             print(f"merged state: {self.state.vars}")
 
     def visit_break_stmt(self, o: BreakStmt) -> None:
-- 
2.43.0


From c4ace5f1a8fb643bbab7aaf374e1a5146186ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 29/93] fix: discharge the obligations of a loop body under the
 loop condition and invariant

---
 metalift/frontend/python.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9e41325..5c6ce56 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -509,6 +509,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        # one arbitrary iteration starts with the condition and the invariant
+        cond = o.expr.accept(self)
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cast(Bool, cond), inv.call(self.state)]
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -516,7 +520,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -527,19 +531,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        self.state.asserts = body_state.asserts
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_state.has_returned:
+            c = and_objects(*body_state.precond)
+            self.state.asserts.append(implies(c, inv.call(body_state)))
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
         self.state.precond.append(
-- 
2.43.0


From 3c4ca4794d566e9d3b5a342ff0f9e18d9b5ea64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 30/93] fix: give the variables a loop modifies names that are
 not in use

---
 metalift/frontend/python.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5c6ce56..c2d4bc6 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -504,8 +504,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
+        for var in writes:
+            name = self.driver.unused_name(var[0])
+            new_value = create_object(to_object_type(var[1]), name)
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
@@ -845,6 +846,14 @@ class Driver:
     def variable(self, name: str, type: ObjectT) -> Var:
         return self.var_tracker.variable(name, type)
 
+    # the given name, with a suffix if there is already a variable of that name
+    def unused_name(self, name: str) -> str:
+        unused, num = name, 0
+        while unused in self.var_tracker.var_to_type:
+            num += 1
+            unused = f"{name}_{num}"
+        return unused
+
     def add_var_object(self, var_object: Object) -> None:
         # TODO: extract this check to a more generic function
         if not isinstance(var_object.src, Var):
-- 
2.43.0


From 641059f2115e3bf8efaf91dfa8ac664b78a61eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 31/93] fix: return a new variable from every call of an
 analyzed function

---
 metalift/frontend/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index c2d4bc6..4964955 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -997,7 +997,9 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
+        ret_val = create_object(
+            object_type, self.driver.unused_name(f"{self.name}_rv")
+        )
         self.driver.add_var_object(ret_val)
 
         ps = call(f"{self.name}_ps", Bool, ret_val, *args)
-- 
2.43.0


From 88fc40e100aa84d4e445e8a840406a4ebe376aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 32/93] fix: assume the summary of a call with the arguments in
 declared order

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4964955..0e96acd 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1002,7 +1002,7 @@ class MetaliftFunc:
         )
         self.driver.add_var_object(ret_val)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 3f7d98771c32a69c4cad4d7ecdce8e88a6e340bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 33/93] fix: assign a modified container to the variable it is
 called on

---
 metalift/frontend/python.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0e96acd..94c1574 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -792,9 +792,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
-            list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
+            list_after_append = copy.copy(callee_expr).append(elem_to_append)
+            self.state.write(o.callee.expr.name, list_after_append)  # type: ignore
             return list_after_append
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
@@ -814,7 +813,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self.state.write(o.callee.expr.name, set_after_modification)  # type: ignore
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
-- 
2.43.0


From dc1832f5079ab7624202ccae89be2a700546d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 34/93] fix: keep every part of a chained comparison

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 94c1574..2da0388 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -696,8 +696,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From f56dcb4d32db0e889775d169de432061fcde4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 35/93] fix: take the variables in scope of a loop from its
 function

---
 metalift/frontend/python.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 2da0388..91763dc 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -448,12 +448,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
-        return r
+        # types also covers the modules that were imported, so look only at the function
+        v = RWVarsVisitor(types)
+        self.ast.accept(v)
+        return {(name, t) for name, t in v.writes | v.reads if name in vars}
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
-- 
2.43.0


From 3f2306ea79fcab99e0b18f46bfe14c8039fac0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 36/93] fix: give the variables a loop modifies names that are
 not in use (LLVM)

---
 metalift/frontend/llvm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..462fe76 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1182,11 +1182,12 @@ class VCVisitor:
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                new_value = self.driver.new_var_object(havoc)
+                self.write_var_to_block(block.name, havoc.var_name(), new_value)
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                new_value = self.driver.new_var_object(havoc)
+                self.store_var_to_block(block.name, havoc.var_name(), new_value)
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
@@ -1528,6 +1529,16 @@ class Driver:
     def variable(self, name: str, type: ObjectT) -> Var:
         return self.var_tracker.variable(name, type)
 
+    # a new variable of the same type, with a suffix if the name is already in use
+    def new_var_object(self, var_object: Object) -> Object:
+        name, num = var_object.var_name(), 0
+        while name in self.var_tracker.var_to_type:
+            num += 1
+            name = f"{var_object.var_name()}_{num}"
+        new_object = create_object(var_object.type, name)
+        self.add_var_object(new_object)
+        return new_object
+
     def add_var_object(self, var_object: Object) -> None:
         # TODO: extract this check to a more generic function
         if not isinstance(var_object.src, Var):
-- 
2.43.0


From 0b7a2124bd6302784a0b604f8dc5bbe24891c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 37/93] fix: return the current value of a struct return
 argument

---
 metalift/frontend/llvm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 462fe76..f18e16e 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1405,14 +1405,13 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
+            # We have to fetch the current value because the value and its type might have changed
+            # from the beginning.
             # This is because for list type, at first we assume it's an int list. We only infer the
             # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
+            ret_val = self.load_var_from_block(
                 block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            )
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From ed846179535765deabcf091714a951a93d8728b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 38/93] fix: assume the summary of a return only on the path
 that returns

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f18e16e..cbb0e0e 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1444,7 +1444,7 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
+        self.driver.postconditions.append(blk_state.asserts[-1])
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From b2d590ec7c0dbc93922b75ca5645e998749bbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 39/93] fix: report blocks that were never analyzed

---
 metalift/frontend/llvm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index cbb0e0e..504c1bd 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1746,6 +1746,10 @@ class MetaliftFunc:
                     v.visit_llvm_block(b)
                     done = False
 
+        for b in self.fn_blocks.values():
+            if not v.fn_blocks_states[b.name].processed:
+                raise Exception(f"Block {b.name} is in a loop missing from the loop info")
+
         # TODO: now we should update the return type
         # if sret_obj is not None:
         #     self.fn_ret_type = sret_obj.type
-- 
2.43.0


From 90594684f9d0f93d1257cc22c0d690ce082ef1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 40/93] fix: append to a copy of the list in the LLVM model

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 504c1bd..017c3de 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -154,7 +154,7 @@ def list_append(
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.copy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From c328aea5a50bbce299d462b9a4452391d252f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 41/93] fix: put blocks whose name contains latch in the loop
 body

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 017c3de..5fa5e2e 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -531,7 +531,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From b5e22c744ce8cb81963ba5d236baaf6d28e414d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 42/93] fix: join the conditions of all predecessors or none

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 5fa5e2e..cb3737c 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1088,7 +1088,7 @@ class VCVisitor:
                 pred_state = self.fn_blocks_states[pred.name]
                 if len(pred_state.precond) >= 1:
                     pred_preconds.append(and_objects(*pred_state.precond))
-            if len(pred_preconds) >= 1:
+            if len(pred_preconds) == len(block.preds):
                 blk_state.precond = [or_objects(*pred_preconds)]
 
             # TODO: handle global vars and uninterpreted functions
-- 
2.43.0


From 63c407a57389fdb153baced56cf0b2423d91ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 43/93] fix: append to a copy of the list in the legacy model

---
 metalift/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/models.py b/metalift/models.py
index 101464f..eaca71e 100644
--- a/metalift/models.py
+++ b/metalift/models.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Dict, List, NamedTuple, Optional, Tuple
 
 from llvmlite.binding import ValueRef
@@ -141,7 +142,7 @@ def list_append(
         else pointer_vars[args[1].name]
     )
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.copy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From 01813f796e29414cb517cdfe5af241a870002fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 44/93] fix: reject expressions that are not modeled

---
 metalift/frontend/python.py | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 91763dc..1eb55a5 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -822,6 +822,46 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return call(get_fn_name(o), to_object_type(expr_type), *args)
         raise Exception("Unrecognized call expression!")
 
+    # expressions that are not modeled
+    def _unsupported_expr(self, o: MypyExpr) -> Object:
+        raise NotImplementedError(f"Unsupported expression: {o}")
+
+    visit_str_expr = _unsupported_expr
+    visit_bytes_expr = _unsupported_expr
+    visit_float_expr = _unsupported_expr
+    visit_complex_expr = _unsupported_expr
+    visit_ellipsis = _unsupported_expr
+    visit_star_expr = _unsupported_expr
+    visit_member_expr = _unsupported_expr
+    visit_yield_from_expr = _unsupported_expr
+    visit_yield_expr = _unsupported_expr
+    visit_cast_expr = _unsupported_expr
+    visit_assert_type_expr = _unsupported_expr
+    visit_reveal_expr = _unsupported_expr
+    visit_super_expr = _unsupported_expr
+    visit_assignment_expr = _unsupported_expr
+    visit_dict_expr = _unsupported_expr
+    visit_set_expr = _unsupported_expr
+    visit_type_application = _unsupported_expr
+    visit_lambda_expr = _unsupported_expr
+    visit_list_comprehension = _unsupported_expr
+    visit_set_comprehension = _unsupported_expr
+    visit_dictionary_comprehension = _unsupported_expr
+    visit_generator_expr = _unsupported_expr
+    visit_slice_expr = _unsupported_expr
+    visit_conditional_expr = _unsupported_expr
+    visit_type_var_expr = _unsupported_expr
+    visit_paramspec_expr = _unsupported_expr
+    visit_type_var_tuple_expr = _unsupported_expr
+    visit_type_alias_expr = _unsupported_expr
+    visit_namedtuple_expr = _unsupported_expr
+    visit_enum_call_expr = _unsupported_expr
+    visit_typeddict_expr = _unsupported_expr
+    visit_newtype_expr = _unsupported_expr
+    visit__promote_expr = _unsupported_expr
+    visit_await_expr = _unsupported_expr
+    visit_temp_node = _unsupported_expr
+
 
 class Driver:
     var_tracker: VariableTracker
-- 
2.43.0


From 795ccc665bee7b420087cb64546e08645e5e8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 45/93] fix: reject loops with an else clause

---
 metalift/frontend/python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 1eb55a5..945088d 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -454,6 +454,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         return {(name, t) for name, t in v.writes | v.reads if name in vars}
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
+        if o.else_body:
+            raise NotImplementedError(f"else clause of a loop not supported: {o}")
         v = RWVarsVisitor(self.types)
         o.accept(v)
 
-- 
2.43.0


From c2abbe530f3eed35b64b2a7fb236ebdb16eaa60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 46/93] fix: reject assignments to anything but a variable

---
 metalift/frontend/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 945088d..4015640 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -355,7 +355,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def visit_assignment_stmt(self, o: AssignmentStmt) -> None:
         if len(o.lvalues) > 1:
             raise RuntimeError(f"multi assignments not supported: {o}")
-        target = cast(NameExpr, o.lvalues[0]).name
+        if not isinstance(o.lvalues[0], NameExpr):
+            raise RuntimeError(f"only assignments to variables are supported: {o}")
+        target = o.lvalues[0].name
         self.state.write(target, o.rvalue.accept(self))
 
     def visit_for_stmt(self, o: ForStmt) -> None:
-- 
2.43.0


From bfb868af865386975acc25a608ae4a26fe7ea4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:19 +0000
Subject: [PATCH 47/93] fix: reject registering a variable with a second type

---
 metalift/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 2d11089..39abf8f 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -443,7 +443,10 @@ class VariableTracker(object):
         return VariableGroup(self, format_with_index(name, self.groups[name]))
 
     def variable(self, name: str, type: ObjectT) -> Var:
-        self.var_to_type[name] = type
+        if self.var_to_type.setdefault(name, type) != type:
+            raise Exception(
+                f"variable {name} already has type {self.var_to_type[name]}, not {type}"
+            )
         return Var(name, type)
 
     def all(self) -> List[Var]:
-- 
2.43.0


From 72f0a3f45e32f23d814021c90ea77e8649dcc966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:19 +0000
Subject: [PATCH 48/93] fix: never hand out the same group variable name twice

---
 metalift/analysis.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 39abf8f..58cdd43 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -460,12 +460,10 @@ class VariableGroup(object):
 
     def variable(self, name: str, type: ObjectT) -> Var:
         my_name = f"{self.name}_{name}"
-        if my_name in self.tracker.existing:
-            self.tracker.existing[my_name] += 1
-        else:
-            self.tracker.existing[my_name] = 0
+        num = self.tracker.existing.get(my_name, -1) + 1
+        # a suffixed name may also be the plain name of another variable
+        while format_with_index(my_name, num) in self.tracker.var_to_type:
+            num += 1
+        self.tracker.existing[my_name] = num
 
-        self.tracker.var_to_type[
-            format_with_index(my_name, self.tracker.existing[my_name])
-        ] = type
-        return Var(format_with_index(my_name, self.tracker.existing[my_name]), type)
+        return self.tracker.variable(format_with_index(my_name, num), type)
-- 
2.43.0


From 0441c0c392fd6f75f55ac099692ba7489cb2eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 49/93] fix: reject writes through pointers whose target is not
 tracked

---
 metalift/frontend/llvm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index cb3737c..7361f7a 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -213,6 +213,7 @@ def vector_append(
     *args: ValueRef,
 ) -> ReturnValue:
     assert len(args) == 2
+    check_tracked_location(args[0])
     assign_var_name: str = args[0].name
 
     lst = state.read_or_load_operand(args[0])
@@ -478,6 +479,13 @@ def get_raw_fn_name_from_call_instruction(o: ValueRef) -> str:
     return raw_fn_name
 
 
+def check_tracked_location(op: ValueRef) -> None:
+    # what a computed pointer (e.g., a loaded reference or the result of operator[]) points
+    # to is not tracked, so a write through it would be lost
+    if op.is_instruction and op.opcode != "alloca":
+        raise Exception(f"Writing through the pointer {op} is not supported")
+
+
 def get_fn_name_from_call_instruction(o: ValueRef) -> str:
     raw_fn_name = get_raw_fn_name_from_call_instruction(o)
     ops = list(o.operands)
@@ -1291,6 +1299,7 @@ class VCVisitor:
 
     def visit_store_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
+        check_tracked_location(ops[1])
         value_to_store = None
         if not ops[0].type.is_pointer:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From 25947325c673da00bdd050400ff7346a3d3ce534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 50/93] fix: reject calls to functions that are not modeled

---
 metalift/frontend/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 7361f7a..d635f73 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1497,6 +1497,8 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~"):  # destructors have nothing to model
+            raise Exception(f"Unsupported function {fn_name}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0


From b5fdee2189deb9479e2ba232db65b9da2eb62050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 51/93] fix: model set membership by its expression (LLVM)

The in operator converts the expression to a Python bool.
---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d635f73..9c2ca02 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -101,7 +101,7 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    return ReturnValue(s.__contains__(item), None)  # type: ignore
 
 
 def new_list(
-- 
2.43.0


From d7da4b582e254d547b3020e140b56a360d57ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 52/93] fix: reject storing the address of a local variable

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 9c2ca02..3c06b17 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1300,6 +1300,9 @@ class VCVisitor:
     def visit_store_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
         check_tracked_location(ops[1])
+        if ops[0].is_instruction and ops[0].opcode == "alloca":
+            # later writes to the variable would not be seen through the stored address
+            raise Exception(f"Storing the address {ops[0]} is not supported")
         value_to_store = None
         if not ops[0].type.is_pointer:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From 1e8cdf9244d938244c39f35ed2c6f1b779d20473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 53/93] fix: keep the type of a vector that is appended to

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 3c06b17..509270a 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -227,7 +227,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From d6cb9127785d601ee206e6491c944316288915f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 54/93] fix: keep summaries and invariants apart when a
 function is named like an invariant

---
 metalift/frontend/llvm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 509270a..dd63162 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -858,11 +858,12 @@ class PredicateTracker:
         in_scope: List[Object],
         grammar: Optional[GrammarT],
     ) -> Predicate:
-        if fn_name in self.predicates:
-            return self.predicates[fn_name]
+        ps_name = f"{fn_name}_ps"
+        if ps_name in self.predicates:
+            return self.predicates[ps_name]
         else:
-            ps = Predicate(ins + outs, outs, ins, in_scope, f"{fn_name}_ps", grammar)
-            self.predicates[fn_name] = ps
+            ps = Predicate(ins + outs, outs, ins, in_scope, ps_name, grammar)
+            self.predicates[ps_name] = ps
             return ps
 
 
@@ -1435,7 +1436,7 @@ class VCVisitor:
         # Add postcondition
         return_arg = create_object(ret_val.type, f"{self.fn_name}_rv")
         self.driver.add_var_object(return_arg)
-        self.pred_tracker.postcondition(
+        predicate = self.pred_tracker.postcondition(
             self.fn_name,
             [return_arg],  # TODO: I feel like this flow could be better
             self.fn_args,
@@ -1446,7 +1447,7 @@ class VCVisitor:
         # Call postcondition
         # TODO use the call method of the predicate
         ps = call(
-            self.pred_tracker.predicates[self.fn_name].name,
+            predicate.name,
             Bool,
             *self.fn_args,
             ret_val,
-- 
2.43.0


From 087995b2d481d1f4b2176615cca5aa7922510177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 55/93] fix: match the function name literally in the loop
 description

---
 metalift/analysis.py      | 2 +-
 metalift/frontend/llvm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 58cdd43..4295bf9 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -114,7 +114,7 @@ def parseLoops(filename: str, fnName: str, log: bool = True) -> List[LoopInfo]:
         for l in f.readlines():
             if re.match(
                 "Printing analysis 'Natural Loop Information' for function '%s':"
-                % fnName,
+                % re.escape(fnName),
                 l,
             ):
                 found = True
diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index dd63162..4cad0a4 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -508,7 +508,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
         for l in f.readlines():
             if re.match(
                 "Printing analysis 'Natural Loop Information' for function '%s':"
-                % raw_fn_name,
+                % re.escape(raw_fn_name),
                 l,
             ):
                 found = True
-- 
2.43.0


From 1e6b86f74a27645f0420f41406604904d37a1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 56/93] fix: put blocks whose name contains latch in the loop
 body (legacy analysis)

---
 metalift/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 4295bf9..0aec276 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -146,7 +146,7 @@ def parseLoops(filename: str, fnName: str, log: bool = True) -> List[LoopInfo]:
                     exits.append(name)
                 if "<latch>" in b:
                     latches.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body.append(name)
 
             loops.append(LoopInfo(header, body, exits, latches))
-- 
2.43.0


From ae2d1b4577551d7788007f30df1731c8e891464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 57/93] fix: report a synthesizer that exits without writing a
 solution

---
 metalift/synthesize_rosette.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..94515e5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -637,6 +637,8 @@ def synthesize(
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                break  # no further solution will be written
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -795,11 +797,7 @@ def synthesize(
 
         # exit_code = proc_synthesis.poll()
 
-    # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
+    # Now we have exited out of the while loop: the synthesizer ended without a
+    # solution that we could verify
+    err_synth = proc_synthesis.stderr.read().decode("utf-8")
+    raise SynthesisFailed(f"Rosette failed: exit code {exit_code}\n" + err_synth)
-- 
2.43.0


From e7580eda1cfdf5470ec48d997d4625c9b606a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 58/93] fix: do not take an invariant of a function named like
 x_ps_y for a summary

---
 metalift/frontend/llvm.py   | 4 ++--
 metalift/frontend/python.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 4cad0a4..f304eea 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1590,7 +1590,7 @@ class Driver:
         We want to rewrite it in a way suitable for code generation, which includes extracting the actual return type and the body.
         """
         for fname, f in self.synthesized_fns.items():
-            m = re.match("(\w+)_ps", fname)  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", fname)  # ignore the invariants
             if m:
                 if isinstance(f.body(), Eq):
                     body = cast(Eq, f.body()).e2()
@@ -1640,7 +1640,7 @@ class Driver:
             self.synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4015640..e694d7c 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -950,7 +950,7 @@ class Driver:
         )
 
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
-- 
2.43.0


From 1dd4317c58c11e6647e91b2b0843e6fca57b1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 59/93] fix: pass the verification query to to_rosette by name

---
 metalift/synthesis_common.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 8b88195..438d640 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -169,15 +169,18 @@ def verify_synth_result(
         verifFile = synthDir + basename + f"_{uid}" + ".smt"
     if use_rosette:
         to_rosette(
-            verifFile,
-            targetLang,
-            vars,
-            candidatesSMT,
-            preds,  # type: ignore
-            vc,
-            [],
-            [],
-            True,
+            basename=basename,
+            filename=verifFile,
+            target_lang=targetLang,
+            vars=vars,
+            inv_and_ps=candidatesSMT,
+            preds=preds,  # type: ignore
+            vc=vc,
+            loop_and_ps_info=[],
+            rounds_to_guess=0,
+            fns_to_guess=[],
+            fn_defs_to_exclude=[],
+            unbounded_ints=True,
             list_bound=4,  # TODO: bench to find what this value should be
             verify_mode=True,
         )
-- 
2.43.0


From b5acc9d50c0580cdb8dd621259f5fe7baee81f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 60/93] fix: declare uninterpreted functions in the
 verification query

---
 metalift/smt_util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 33a08d2..597d392 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -323,6 +323,7 @@ def toSMT(
             # out.write(resources.read_text(utils, "map-axioms.smt"))
 
         early_candidates_names = set()
+        candidate_names = {cand.name() for cand in inv_and_ps}
 
         fn_decls: list[FnDecl | FnDeclRecursive] = []
         axioms: list[Axiom] = []
@@ -454,8 +455,12 @@ def toSMT(
         for t in target_lang:
             if t in rewritten_fn_decls:
                 continue
-            if (isinstance(t, FnDecl) or isinstance(t, FnDecl)) and t.body() is None:
-                continue
+            if (
+                not isinstance(t, Axiom)
+                and t.body() is None
+                and t.name() in candidate_names
+            ):
+                continue  # defined by its candidate below
             elif isinstance(t, Axiom):
                 axioms.append(t)
             else:
-- 
2.43.0


From c898acf31e28ce1c98fb9a7899b2c56c7a290ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 61/93] fix: do not rewrite the caller's candidates while
 printing the verification query

---
 metalift/smt_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 597d392..72fac9a 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -314,6 +314,9 @@ def toSMT(
     fn_calls: list[str],
     is_synthesis: bool = False,
 ) -> None:
+    # the candidates are rewritten below, the caller keeps its own
+    inv_and_ps = [cand.map_args(lambda arg: arg) for cand in inv_and_ps]
+
     # order of appearance: inv and ps grammars, vars, non inv and ps preds, vc
     with open(out_file, mode="w") as out:
         out.write(resources.read_text(utils, "tuples.smt"))
-- 
2.43.0


From bdb7e2352166bbeb5ba33528d02523e92b9dff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 62/93] fix: delete the old solutions of programs whose name
 contains glob characters

---
 metalift/synthesize_rosette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 94515e5..892b3d5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -1,3 +1,4 @@
+import glob
 import os
 import subprocess
 import time
@@ -619,7 +620,7 @@ def synthesize(
     last_processed_sol_idx = -1
 
     # before we start synthesis, we need to delete all previous solutions.
-    for sol_file in Path(synth_dir).glob(f"{basename}_sol*"):
+    for sol_file in Path(synth_dir).glob(f"{glob.escape(basename)}_sol*"):
         sol_file.unlink()
     proc_synthesis = subprocess.Popen(
         ["racket", synth_file],
-- 
2.43.0


From 525b693337188139e8c59f2aafb07301a113b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 63/93] fix: refuse to generate code before synthesis (LLVM
 front end)

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f304eea..96ab377 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1719,7 +1719,7 @@ class MetaliftFunc:
         self.target_lang_fn = target_lang_fn
         self.inv_grammars = inv_grammars
         self.ps_grammar = ps_grammar
-        self.synthesized = []
+        self.synthesized = None
 
         # Parse and process loops
         raw_loops: List[RawLoopInfo] = parse_loops(loops_filepath, fn_ref.name)
-- 
2.43.0


From b53936c6173b5e189cbda74c84d22527b5360e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 64/93] fix: declare the components of symbolic tuples

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..fc009fa 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        for i, t in enumerate(typing.get_args(typing.get_args(v.type)[0])):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From 38c36dc11ad51e9178294ecf51315009c5a9e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 65/93] fix: keep the only row of a symbolic matrix bounded by
 one

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index fc009fa..f926362 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 2f622b5b26c0a31ec5ef037b127b86aa9fbf4b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 66/93] fix: do not take variables named like a function for
 calls

---
 metalift/smt_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 72fac9a..48d7871 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -105,6 +105,8 @@ def get_dependent_fn_names(
     if isinstance(expr, str) and expr in all_fn_names:
         dependent_fn_names.append(expr)
         return
+    elif isinstance(expr, Var) and not is_fn_decl_type(expr.type):
+        return  # an ordinary variable, even if it is named like a function
     elif isinstance(expr, Expr):
         for arg in expr.args:
             get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
-- 
2.43.0


From f86749b87f079f86563278b4d474f0d130bc7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 67/93] fix: read list-append back from synthesizer answers

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 892b3d5..c1bf5fc 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -171,7 +171,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From 4239bfb13cc23053615684cd814652d9b0ab421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 68/93] fix: read tensor slices back from synthesizer answers

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index c1bf5fc..46bd6e1 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -351,6 +351,24 @@ def to_expr(
                 to_expr(ast[2], fnsType, varType, choices),
                 to_expr(ast[3], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "matrix-transpose-noerr":
             matrix_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call("matrix_transpose", matrix_expr.type, matrix_expr)
-- 
2.43.0


From ed5ecbb74ba016d24ca9620c0ebd6ecf8d94a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 69/93] fix: rows of matrices read from synthesizer answers are
 lists

---
 metalift/synthesize_rosette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 46bd6e1..cc6930e 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -46,6 +46,7 @@ from metalift.ir import (
     Var,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -229,9 +230,12 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            row_type = get_list_element_type(list_expr.type)
+            if is_matrix_type(list_expr.type):
+                row_type = mlList[row_type]  # type: ignore
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                row_type,
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From f64f7b930ff3f4ddb4d7e1cf27b9d805dd457d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 70/93] fix: resolve shared parts inside shared parts of
 synthesizer answers

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index cc6930e..5f16eb5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -518,7 +518,7 @@ def to_expr(
 
                 if isinstance(expr, Var):
                     if expr.name().startswith("(") and expr.name()[1:-1] in choices:
-                        return choices[expr.name()[1:-1]].args[0]
+                        return replace_choices(choices[expr.name()[1:-1]].args[0])
                     return expr
                 return expr.map_args(replace_choices)
 
-- 
2.43.0


From a4a26515622a7d26c3cec6d4718e66fc17213696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 71/93] fix: parameters hide target-language functions of the
 same name in synthesizer answers

---
 metalift/synthesize_rosette.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 5f16eb5..e5821b5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -542,10 +542,10 @@ def to_expr(
             return BoolLit(True)
         elif ast == "false":
             return BoolLit(False)
-        elif ast in fnsType.keys():
-            return Var(ast, fnsType[ast])
-        else:
+        elif ast in varType.keys():
             return Var(ast, varType[ast])
+        else:
+            return Var(ast, fnsType[ast])
 
 
 def to_synthesize(
-- 
2.43.0


From dab0288533b93c09fd84b94fed34d0fb0e00ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 72/93] fix: end the matrix transposition when the columns run
 out

---
 metalift/utils/list-axioms.smt               | 2 +-
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 59d3e2df988e6084585bda95f54a253249fb7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 73/93] fix: state the tensor operator axioms only where the
 operator's definition makes them true

---
 metalift/utils/tenspiler/axioms.py | 42 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..45001fe 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -112,7 +112,7 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index > 0, index < data.len(), index <= max_pos),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), x[0].len() > 0, x[0].len() == b.len()
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +180,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +190,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +198,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +206,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +218,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From a085422df2a6259f19243b5e233948d2a013c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 74/93] fix: use the matrix built-ins for nested lists

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index fb1b110..1fc1e54 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1108,7 +1108,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1174,7 +1175,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1183,7 +1185,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From f77974be787d4315701055dfe8cb536424337c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 75/93] fix: optimize equalities of the verification condition
 itself

---
 metalift/synthesize_rosette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index e5821b5..6d94d45 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -601,9 +601,9 @@ def synthesize(
         while True:
             expr_count: Dict[str, int] = {}
 
-            vc.src.count_variable_uses(expr_count)  # type: ignore
+            vc.count_variable_uses(expr_count)
 
-            vc = vc.src.optimize_useless_equality(expr_count, new_vars)  # type: ignore
+            vc = vc.optimize_useless_equality(expr_count, new_vars)
 
             if vc.toSMT() == prev_vc:
                 break  # run to fixpoint
-- 
2.43.0


From 28bba10a3ee98c03e8ebff2ac408f6c3b596dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 76/93] fix: ask for the shape of a tensor by the property it
 has

---
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 41eac5c..3b4cf42 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1999,7 +1999,7 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             call_scalar_rsub(scalar, matrix_or_vec),
             call_scalar_rdiv(scalar, matrix_or_vec),
         )
-        if not matrix_or_vec.is_nested:
+        if not matrix_or_vec.is_matrix:
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-- 
2.43.0


From d325494937af65889194b3506694f03af7d72dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 77/93] fix: give the CVC5 synthesizer the parameters its
 callers pass

---
 metalift/synthesize_cvc5.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..0077a3c 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -230,20 +230,23 @@ def toExpr(
 
 def synthesize(
     basename: str,
-    targetLang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
+    target_lang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
     vars: typing.Set[Var],
-    invAndPs: typing.List[Synth],
+    inv_and_ps: typing.List[Synth],
     preds: typing.List[Expr],
     vc: Expr,
-    loopAndPsInfo: typing.Sequence[Union[CodeInfo, Expr]],
-    cvcPath: str,
+    loop_and_ps_info: typing.Sequence[Union[CodeInfo, Expr]],
+    cvc_path: str,
     uid: int = 0,
-    noVerify: bool = False,  # currently ignored
-    unboundedInts: bool = False,  # currently ignored
+    no_verify: bool = False,  # currently ignored
+    unbounded_ints: bool = False,  # currently ignored
     optimize_vc_equality: bool = False,
-    listBound: int = 2,  # currently ignored
+    list_bound: int = 2,  # currently ignored
     log: bool = True,  # currently ignored
     uninterp_fns: List[str] = [],  # currently ignored
+    rounds_to_guess: int = 0,  # currently ignored
+    fns_to_guess: List[FnDeclRecursive] = [],  # currently ignored
+    fn_defs_to_exclude: List[FnDeclRecursive] = [],  # currently ignored
 ) -> typing.List[FnDeclRecursive]:
     synthDir = "./synthesisLogs/"
     if not os.path.exists(synthDir):
@@ -273,20 +276,20 @@ def synthesize(
 
     # Generate sygus file for synthesis
     toSMT(
-        targetLang,
+        target_lang,
         vars,
-        invAndPs,
+        inv_and_ps,
         preds,
         vc,
         sygusFile,
         [],
-        [f.name() for f in targetLang],
+        [f.name() for f in target_lang],
         True,
     )
 
     # Run synthesis subprocess
     proc = subprocess.Popen(
-        [cvcPath, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
+        [cvc_path, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
         stdout=subprocess.PIPE,
         stderr=subprocess.PIPE,
     )
@@ -294,7 +297,7 @@ def synthesize(
     process_tracker.all_processes.append(proc)
 
     try:
-        funName, returnType = extractFuns(targetLang)
+        funName, returnType = extractFuns(target_lang)
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
@@ -303,19 +306,19 @@ def synthesize(
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
-                    invAndPs, line, funName, returnType
+                    inv_and_ps, line, funName, returnType
                 )
             elif line.strip() == "(":
-                fnsType = generate_types(targetLang)
+                fnsType = generate_types(target_lang)
 
                 resultVerify, verifyLogs = verify_synth_result(
                     basename,
-                    targetLang,
+                    target_lang,
                     vars,
                     preds,
                     vc,
-                    loopAndPsInfo,
-                    cvcPath,
+                    loop_and_ps_info,
+                    cvc_path,
                     synthDir,
                     candidatesSMT,
                     candidateDict,
-- 
2.43.0


From d0124020b3a4d5267193e5ebfbe0ef48cf8f0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 78/93] fix: LLM-answer parser puts expressions, not wrapper
 objects, under unary minus and list concatenation

---
 llmlift_scripts/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..a925569 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -405,7 +405,9 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    return call(
+                        "list_concat", List[Int], left_expr, right_expr
+                    ).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
@@ -428,7 +430,7 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Unary operator - is only supported on integers, not {types[node]}"
                     )
-                return Sub(Int(0), node_expr)
+                return Sub(Int(0).src, node_expr)
             else:
                 raise Exception(f"Unary operator {node.op} is not supported")
         elif isinstance(node, IntExpr):
-- 
2.43.0


From 298a1180061ed257ffad5e3d54091f0195493be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 79/93] fix: LLM-answer parser rejects list displays with
 elements instead of reading them as the empty list

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index a925569..cb84018 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -436,6 +436,8 @@ def mypy_node_to_ir(
         elif isinstance(node, IntExpr):
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
+            if len(node.items) > 0:
+                raise Exception("Only empty list literals are supported")
             node_type = mypy_type_to_ir_type(types[node])
             return node_type.empty(get_args(node_type)[0]).src
         elif isinstance(node, ConditionalExpr):
-- 
2.43.0


From b4abeac0367fa7ca3877638c80b712a947fb1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 80/93] fix: LLM-answer parser rejects keyword and starred
 arguments instead of reading them by position

---
 llmlift_scripts/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index cb84018..86f0330 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,7 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_POS,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -302,6 +303,8 @@ def mypy_node_to_ir(
                 raise Exception("Method calls not supported")
             elif isinstance(node.callee, NameExpr):
                 func_name = cast(NameExpr, node.callee).name
+                if not all(kind == ARG_POS for kind in node.arg_kinds):
+                    raise Exception("Only positional arguments are supported")
 
                 # First we check if this function is a python built-in function
                 if func_name == "len":
-- 
2.43.0


From 3df76ffe2e330f0465e837f8dca1f82e0e338c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 81/93] fix: LLM-answer parser rejects slices with a step
 instead of dropping the step

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 86f0330..ca209c4 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -486,6 +486,8 @@ def mypy_node_to_ir(
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
             if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a step are not supported")
                 # Parse begin index
                 if node.index.begin_index is None:
                     begin_index = None
-- 
2.43.0


From 1b9d7191e9a46293ea64b9488e8cea3179ab23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 82/93] fix: LLM-answer parser reads True and False as literals

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index ca209c4..1bf8b9f 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -380,6 +380,8 @@ def mypy_node_to_ir(
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
+            if node.fullname in {"builtins.True", "builtins.False"}:
+                return create_object(Bool, node.name == "True").src
             # Nothing can go wrong with a name expression (which are basically variables)
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
-- 
2.43.0


From 1c2438a008f3a381381027af3b78f37f4cb95a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 83/93] fix: LLM-answer parser does not list a function passed
 by name as a definition

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 1bf8b9f..843f6a9 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -362,13 +362,13 @@ def mypy_node_to_ir(
                                 lambda_exprs[arg_expr] = arg_fn_name
                             arg_expr = copy.deepcopy(arg_expr)
                             arg_expr.set_name(arg_fn_name)
+                            fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
-- 
2.43.0


From 46a56c8cee8049ec5dcf045298f67dc852b76451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 84/93] fix: LLM-answer parser passes the arguments of a
 recursive call in the order of the sorted parameters

---
 llmlift_scripts/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 843f6a9..9673698 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -372,6 +372,11 @@ def mypy_node_to_ir(
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
+                if func_name == root_node.name:
+                    # The parameters of this function are sorted by name, see above
+                    order = sorted(range(len(arg_names)), key=arg_names.__getitem__)
+                    arg_exprs = [arg_exprs[idx] for idx in order]
+
                 # Check return type. Again we compare IR types but throw errors using python types.
                 actual_ret_ir_type = mypy_type_to_ir_type(types[node])
                 if actual_ret_ir_type != ret_ir_type:
-- 
2.43.0


From c94c86f0ff1347a54d114f7ded6b7900094a61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 85/93] fix: LLM-answer parser rejects calls of anything but a
 named function

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 9673698..070a831 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -384,6 +384,8 @@ def mypy_node_to_ir(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only functions called by name are supported")
         elif isinstance(node, NameExpr):
             if node.fullname in {"builtins.True", "builtins.False"}:
                 return create_object(Bool, node.name == "True").src
-- 
2.43.0


From 0b9d331f749425fa9c7e5d755d734a6e54de8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 86/93] fix: LLMLift accepts a candidate only when the SMT
 verifier answers unsat

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 1f36e989f9710f53b1650b2b918479a65a5cc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 87/93] fix: LLMLift without verification takes the first
 answer that parses

---
 llmlift_scripts/synthesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..657307e 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -549,6 +549,7 @@ def run_llm_synthesis_algorithm(
                 )
             elif verification_method == VerificationMethod.NONE:
                 print("Skpping verification...")
+                verified = True
             else:
                 raise Exception(
                     f"Unsupported verification method {verification_method}"
-- 
2.43.0


From c713ffd330e3d09acf197eabffc39f78f45173a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 88/93] fix: the Claude answer of LLMLift is one text, as for
 the other models

---
 llmlift_scripts/synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 657307e..691ff6c 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -581,7 +581,7 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         messages=messages,
     )
     raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    return replace_ite("\n\n".join(raw_solutions))
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From 450f97e9e2c784b8513c7a9df07c9b6ce42def16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 89/93] fix: ite() in an LLM answer becomes a conditional of
 the same meaning inside any expression

---
 llmlift_scripts/utils.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..a9a83aa 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -36,14 +36,31 @@ def extract_all_python_functions(s: str) -> list[str]:
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
-
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
+
+    # Split the arguments at the commas that are not inside another pair of brackets
+    args: list[str] = []
+    depth = 0
+    start = match.end()
+    for idx in range(match.end(), len(ps_sol)):
+        char = ps_sol[idx]
+        if depth == 0 and char in ",)":
+            args.append(ps_sol[start:idx].strip())
+            start = idx + 1
+            if char == ")":
+                break
+        elif char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+    if len(args) != 3:
+        # Not a conditional, leave this one for the parser to reject
+        return ps_sol[: match.end()] + replace_ite(ps_sol[match.end() :])
+
+    cond, a, b = (f"({replace_ite(arg)})" for arg in args)
+    return f"{ps_sol[:match.start()]}({a} if {cond} else {b}){replace_ite(ps_sol[start:])}"
 
 
 def get_inv_args(
-- 
2.43.0


From 17cdebccb5acd93ae3a745f1b2829b2af29ae382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 90/93] fix: the empty-block pass keeps one phi entry per edge
 when both edges go to one block

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..12c846e 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,13 @@ namespace
       return bb;
     }
 
+    // each edge has its own phi entry, also when both edges lead to the same block
+    void redirectPhis(BasicBlock *succ, BasicBlock *from, BasicBlock *to)
+    {
+      for (PHINode &phi : succ->phis())
+        phi.setIncomingBlock(phi.getBasicBlockIndex(from), to);
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +64,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              redirectPhis(op->getSuccessor(0), &B, trueBB);
+              redirectPhis(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From e4027d064c6cc365a5086a2ff31b873257260ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 91/93] fix: keep the equality optimization of the verification
 condition valid and finite

A replacement that mentioned another replaced variable swapped the two on
every pass, so the fixpoint was never reached; and the parts of a rewritten
implication were optimized with the variable counts from before the rewrite,
so premises still needed were taken to be useless.
---
 metalift/ir.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1fc1e54..960caf3 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -583,7 +583,18 @@ class Expr:
                     if rewrite_var in counts_rhs and counts_rhs[rewrite_var] > 1:
                         del rewrites[rewrite_var]
 
-            self = self.rewrite(rewrites)
+            # a replacement must not mention a variable that is itself replaced:
+            # rewriting x to y and y to x would go on forever
+            for rewrite_var in list(rewrites.keys()):
+                value_counts: Dict[str, int] = {}
+                rewrites[rewrite_var].count_variable_uses(value_counts)
+                if any(key in rewrites for key in value_counts):
+                    del rewrites[rewrite_var]
+
+            if rewrites:
+                # the uses in counts no longer match the rewritten expression;
+                # its parts are left to the next pass, which counts anew
+                return self.rewrite(rewrites).simplify()
 
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
-- 
2.43.0


From 2fd38e7fa6ca9f1b6ce596fcf235a00ffdb538d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 92/93] fix: rewrite only asserted implications by their
 premise in the equality optimization

(x = y => p(x)) => p(y) is not valid, but became (true => p(y)) => p(y): an
implication in a premise, a negation or an operand does not have to hold for
every x, so x cannot be replaced there.
---
 metalift/ir.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 960caf3..e243300 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -551,8 +551,13 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        asserted: bool = True,
     ) -> "Expr":
+        # asserted: whether self has to hold for every value of a variable that only
+        # occurs in it. Only then may an implication be rewritten by its premise.
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
             if isinstance(self.args[0], Var) and counts[self.args[0].args[0]] == 1:
@@ -564,7 +569,7 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and asserted:
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -596,8 +601,13 @@ class Expr:
                 # its parts are left to the next pass, which counts anew
                 return self.rewrite(rewrites).simplify()
 
+        def asserted_arg(arg: "Expr") -> bool:
+            if isinstance(self, Implies):
+                return asserted and arg is self.args[1] and arg is not self.args[0]
+            return asserted and isinstance(self, (And, Or))
+
         return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
+            lambda a: a.optimize_useless_equality(counts, new_vars, asserted_arg(a))
             if isinstance(a, Expr)
             else a
         ).simplify()
-- 
2.43.0


From 0dd44ac3b1e236b09b2367371f4b0791ed3b53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 93/93] fix: keep the unmultiplied vector in the depth-bounded
 grammar with a matrix

From depth 3 on get_matrix_or_vec_expr_eq_or_below_depth multiplied every
candidate by the additional matrix at every level, so the expressions
without that product (all of the smaller depths among them) were missing.
---
 metalift/utils/tenspiler/tenspiler_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 3b4cf42..f27a2a3 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2003,7 +2003,8 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-                    call_matrix_vec_mul(additional_matrix, matrix_or_vec)
+                    matrix_or_vec,
+                    call_matrix_vec_mul(additional_matrix, matrix_or_vec),
                 )
     return matrix_or_vec
 
-- 
2.43.0

