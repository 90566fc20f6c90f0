From 1c57b1197d7cbfa9a3022eaa2c6d86d84a2cb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 01/46] fix: print() without arguments traces an empty line
 like print("")

---
 opshin/fun_impls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/fun_impls.py b/opshin/fun_impls.py
index 73d2cbc..35828c7 100644
--- a/opshin/fun_impls.py
+++ b/opshin/fun_impls.py
@@ -103,7 +103,7 @@ class PrintImpl(PolymorphicFunction):
 
     def impl_from_args(self, args: typing.List[Type]) -> plt.AST:
         if not args:
-            return SafeOLambda([], plt.Trace(plt.Text("\n"), plt.NoneData()))
+            return SafeOLambda([], plt.Trace(plt.Text(""), plt.NoneData()))
         assert all(
             isinstance(arg, InstanceType) for arg in args
         ), "Can only stringify instances"
-- 
2.43.0


From 872f6ee06bb1fdf61ce6760a260b1a82dd57a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 02/46] fix: int(str) rejects underscores that do not follow a
 digit

---
 opshin/type_impls.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 98bc8b8..63c27c8 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3181,7 +3181,38 @@ class IntImpl(PolymorphicFunction):
                                                 plt.EqualsInteger(
                                                     OVar("b"), plt.Integer(ord("_"))
                                                 ),
-                                                OVar("s"),
+                                                # an underscore has to follow a digit
+                                                # (it is never the first character)
+                                                OLet(
+                                                    [
+                                                        (
+                                                            "p",
+                                                            plt.IndexByteString(
+                                                                OVar("e"),
+                                                                plt.SubtractInteger(
+                                                                    OVar("i"),
+                                                                    plt.Integer(1),
+                                                                ),
+                                                            ),
+                                                        )
+                                                    ],
+                                                    plt.Ite(
+                                                        plt.Or(
+                                                            plt.LessThanInteger(
+                                                                OVar("p"),
+                                                                plt.Integer(ord("0")),
+                                                            ),
+                                                            plt.LessThanInteger(
+                                                                plt.Integer(ord("9")),
+                                                                OVar("p"),
+                                                            ),
+                                                        ),
+                                                        plt.TraceError(
+                                                            "ValueError: invalid literal for int() with base 10"
+                                                        ),
+                                                        OVar("s"),
+                                                    ),
+                                                ),
                                                 plt.Ite(
                                                     plt.Or(
                                                         plt.LessThanInteger(
-- 
2.43.0


From bf1fd28964b4fe9d2558e7d6f9e5d11bf871852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/46] fix: str(bytes) uses double quotes like Python when the
 value contains only single quotes

---
 opshin/type_impls.py | 56 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 63c27c8..3357540 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -2615,6 +2615,42 @@ class ByteStringType(AtomicType):
                                 ),
                             ),
                         ),
+                        (
+                            "last",
+                            plt.SubtractInteger(
+                                plt.LengthOfByteString(OVar("x")), plt.Integer(1)
+                            ),
+                        ),
+                        # like python, use double quotes if and only if
+                        # there are single quotes and no double quotes
+                        (
+                            "has_char",
+                            OLambda(
+                                ["c"],
+                                plt.AnyList(
+                                    plt.Apply(OVar("hexlist"), OVar("last")),
+                                    plt.Apply(
+                                        plt.BuiltIn(uplc.BuiltInFun.EqualsInteger),
+                                        OVar("c"),
+                                    ),
+                                ),
+                            ),
+                        ),
+                        (
+                            "quote",
+                            plt.Ite(
+                                plt.And(
+                                    plt.Apply(OVar("has_char"), plt.Integer(ord("'"))),
+                                    plt.Not(
+                                        plt.Apply(
+                                            OVar("has_char"), plt.Integer(ord('"'))
+                                        )
+                                    ),
+                                ),
+                                plt.Integer(ord('"')),
+                                plt.Integer(ord("'")),
+                            ),
+                        ),
                         (
                             "map_str",
                             OLambda(
@@ -2657,9 +2693,11 @@ class ByteStringType(AtomicType):
                                                     OVar("b"),
                                                 ),
                                                 plt.Ite(
+                                                    # the quote character in use is escaped
+                                                    # (double quotes are only used if there
+                                                    # are none in the value)
                                                     plt.EqualsInteger(
-                                                        OVar("i"),
-                                                        plt.Integer(ord("'")),
+                                                        OVar("i"), OVar("quote")
                                                     ),
                                                     plt.AppendByteString(
                                                         plt.ByteString(b"\\'"),
@@ -2729,15 +2767,15 @@ class ByteStringType(AtomicType):
                             ),
                         ),
                     ],
-                    plt.ConcatByteString(
-                        plt.ByteString(b"b'"),
-                        plt.Apply(
-                            OVar("mkstr"),
-                            plt.SubtractInteger(
-                                plt.LengthOfByteString(OVar("x")), plt.Integer(1)
+                    plt.ConsByteString(
+                        plt.Integer(ord("b")),
+                        plt.ConsByteString(
+                            OVar("quote"),
+                            plt.AppendByteString(
+                                plt.Apply(OVar("mkstr"), OVar("last")),
+                                plt.ConsByteString(OVar("quote"), plt.ByteString(b"")),
                             ),
                         ),
-                        plt.ByteString(b"'"),
                     ),
                 ),
             ),
-- 
2.43.0


From 6f2bc59eaf5948ae451b10097e6bd7d22054b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 04/46] fix: None parameters and dict/pair members are decoded
 to unit instead of a function

---
 opshin/type_impls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 3357540..6caf0ed 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3546,7 +3546,7 @@ TransformExtParamsMap = {
     IntegerInstanceType: lambda x: plt.UnIData(x),
     ByteStringInstanceType: lambda x: plt.UnBData(x),
     StringInstanceType: lambda x: plt.DecodeUtf8(plt.UnBData(x)),
-    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit())),
+    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit()), x),
     BoolInstanceType: lambda x: plt.NotEqualsInteger(plt.UnIData(x), plt.Integer(0)),
 }
 
-- 
2.43.0


From 96f2a6bb851496cf336b43089d906fe02e3baa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 05/46] fix: reject slices with a step instead of ignoring the
 step

---
 opshin/type_inference.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1baf63d..90fdeb0 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1444,6 +1444,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         ts.value = self.visit(node.value)
         assert isinstance(ts.value.typ, InstanceType), "Can only subscript instances"
+        if isinstance(ts.slice, Slice) and ts.slice.step is not None:
+            assert (
+                isinstance(ts.slice.step, Constant) and ts.slice.step.value == 1
+            ), "Slices with a step other than 1 are not supported"
         if isinstance(ts.value.typ.typ, TupleType):
             assert (
                 ts.value.typ.typ.typs
-- 
2.43.0


From 259da77e830a5acb32df528119bd3569fb9fdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/46] fix: dict literals keep source order and replace the
 value of a repeated key

---
 opshin/compiler.py | 58 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index d0324dc..48f3213 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1269,20 +1269,56 @@ class PlutoCompiler(CompilingNodeTransformer):
         assert isinstance(node.typ.typ, DictType)
         key_type = node.typ.typ.key_typ
         value_type = node.typ.typ.value_typ
-        l = plt.EmptyDataPairList()
-        for k, v in zip(node.keys, node.values):
-            l = plt.MkCons(
-                plt.MkPairData(
-                    transform_output_map(k.typ)(
-                        self.visit(k),
-                    ),
-                    transform_output_map(v.typ)(
-                        self.visit(v),
+        pairs = [
+            (
+                transform_output_map(k.typ)(self.visit(k)),
+                transform_output_map(v.typ)(self.visit(v)),
+            )
+            for k, v in zip(node.keys, node.values)
+        ]
+        # entries are evaluated and stored in source order
+        const_keys = [
+            k.value
+            for k in node.keys
+            if isinstance(k, Constant) and isinstance(k.value, (int, str, bytes))
+        ]
+        if len(pairs) <= 1 or len(set(const_keys)) == len(pairs):
+            l = plt.EmptyDataPairList()
+            for k, v in reversed(pairs):
+                l = plt.MkCons(plt.MkPairData(k, v), l)
+            return l
+        # keys may coincide: a later entry replaces the value of an earlier one
+        insert = plt.RecFun(
+            OLambda(
+                ["insert", "l", "p"],
+                plt.IteNullList(
+                    OVar("l"),
+                    plt.MkCons(OVar("p"), plt.EmptyDataPairList()),
+                    OLet(
+                        [("h", plt.HeadList(OVar("l"))), ("t", plt.TailList(OVar("l")))],
+                        plt.Ite(
+                            plt.EqualsData(
+                                plt.FstPair(OVar("h")), plt.FstPair(OVar("p"))
+                            ),
+                            plt.MkCons(OVar("p"), OVar("t")),
+                            plt.MkCons(
+                                OVar("h"),
+                                plt.Apply(
+                                    OVar("insert"),
+                                    OVar("insert"),
+                                    OVar("t"),
+                                    OVar("p"),
+                                ),
+                            ),
+                        ),
                     ),
                 ),
-                l,
             )
-        return l
+        )
+        l = plt.EmptyDataPairList()
+        for k, v in pairs:
+            l = plt.Apply(OVar("insert_pair"), l, plt.MkPairData(k, v))
+        return OLet([("insert_pair", insert)], l)
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
         if isinstance(node.typ.typ, UnionType):
-- 
2.43.0


From e77bc2df6ccaf2e24cec5e8b71dba2b6033cc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 07/46] fix: empty lists of lists of dicts get the right
 element type

---
 opshin/type_impls.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 6caf0ed..99bce85 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3501,9 +3501,12 @@ def empty_list_sample_value(p: Type):
     if isinstance(p.typ, ListType):
         return uplc.BuiltinList([], empty_list_sample_value(p.typ.typ))
     if isinstance(p.typ, DictType):
-        return uplc.BuiltinPair(
-            uplc.PlutusConstr(0, frozenlist([])),
-            uplc.PlutusConstr(0, frozenlist([])),
+        return uplc.BuiltinList(
+            [],
+            uplc.BuiltinPair(
+                uplc.PlutusConstr(0, frozenlist([])),
+                uplc.PlutusConstr(0, frozenlist([])),
+            ),
         )
     if (
         isinstance(p.typ, RecordType)
-- 
2.43.0


From 60097d6c270257cbfcef98a14fbed6434a94b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 08/46] fix: constant folding does not pre-evaluate expressions
 that print

---
 opshin/optimize/optimize_const_folding.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 97006c9..8f8dd00 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -93,6 +93,14 @@ SAFE_GLOBALS_LIST = [
 SAFE_GLOBALS = {x.__name__: x for x in SAFE_GLOBALS_LIST}
 
 
+def _print_not_constant(*args, **kwargs):
+    """Stand-in for print: an expression that prints must not be pre-evaluated, its output would be lost"""
+    raise ValueError("print is a side effect and can not be evaluated at compile time")
+
+
+SAFE_GLOBALS["print"] = _print_not_constant
+
+
 class ShallowNameDefCollector(CompilingNodeVisitor):
     step = "Collecting occurring variable names"
 
-- 
2.43.0


From b3142a2cb54cd5973c7d293b0381ac889658d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 09/46] fix: dead code removal keeps reads of names that may be
 unbound

---
 .../optimize/optimize_remove_deadconstants.py | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/opshin/optimize/optimize_remove_deadconstants.py b/opshin/optimize/optimize_remove_deadconstants.py
index 1dc31ad..549ad8c 100644
--- a/opshin/optimize/optimize_remove_deadconstants.py
+++ b/opshin/optimize/optimize_remove_deadconstants.py
@@ -82,6 +82,39 @@ class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
         self.exit_scope()
         return node_cp
 
+    def visit_branch(self, stmts):
+        """Visit statements that may not be executed, returns the names they set besides the statements"""
+        self.enter_scope()
+        res = self.visit_stmts(stmts)
+        names = self.guaranteed_avail_names[-1]
+        self.exit_scope()
+        return res, names
+
+    def visit_If(self, node: If):
+        node_cp = copy(node)
+        node_cp.test = self.visit(node.test)
+        node_cp.body, body_names = self.visit_branch(node.body)
+        node_cp.orelse, orelse_names = self.visit_branch(node.orelse)
+        # only names set in both branches are certainly available afterwards
+        for name in body_names:
+            if name in orelse_names:
+                self.set_guaranteed(name)
+        return node_cp
+
+    def visit_While(self, node: While):
+        node_cp = copy(node)
+        node_cp.test = self.visit(node.test)
+        node_cp.body, _ = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_stmts(node.orelse)
+        return node_cp
+
+    def visit_For(self, node: For):
+        node_cp = copy(node)
+        node_cp.iter = self.visit(node.iter)
+        node_cp.body, _ = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_stmts(node.orelse)
+        return node_cp
+
     def visit_Assign(self, node: Assign):
         for t in node.targets:
             if isinstance(t, Name):
-- 
2.43.0


From 4839da3eb49cb9ddc43aa34d98952cf093755725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 10/46] fix: integrity check rejects bools other than 0/1 and
 strings that are not UTF-8

---
 opshin/type_impls.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 99bce85..e0fd36f 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -2187,7 +2187,10 @@ class StringType(AtomicType):
                 plt.TraceError(
                     f"IntegrityError: Expected PlutusByteString but got PlutusInteger"
                 ),
-                OVar("self"),
+                # fails if the bytes do not encode a string
+                plt.BData(
+                    plt.EncodeUtf8(plt.DecodeUtf8(plt.UnBData(OVar("self"))))
+                ),
             ),
         )
 
@@ -2910,7 +2913,15 @@ class BoolType(AtomicType):
                 plt.TraceError(
                     f"IntegrityError: Expected PlutusByteInteger but got PlutusList"
                 ),
-                OVar("self"),
+                # only 0 and 1 denote a boolean
+                plt.Ite(
+                    plt.Or(
+                        plt.EqualsInteger(plt.UnIData(OVar("self")), plt.Integer(0)),
+                        plt.EqualsInteger(plt.UnIData(OVar("self")), plt.Integer(1)),
+                    ),
+                    OVar("self"),
+                    plt.TraceError("IntegrityError: Expected a bool, i.e. 0 or 1"),
+                ),
                 plt.TraceError(
                     f"IntegrityError: Expected PlutusByteInteger but got PlutusByteString"
                 ),
-- 
2.43.0


From f26934be0707df3d00e5a87d2bc37dc1b9daccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 11/46] fix: the integrity check can be imported under an alias
 in repeated compilations

---
 opshin/rewrite/rewrite_import_integrity_check.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_import_integrity_check.py b/opshin/rewrite/rewrite_import_integrity_check.py
index c83a403..380f6e7 100644
--- a/opshin/rewrite/rewrite_import_integrity_check.py
+++ b/opshin/rewrite/rewrite_import_integrity_check.py
@@ -50,6 +50,14 @@ class IntegrityCheckImpl(PolymorphicFunction):
         )
 
 
+def is_integrity_check(typ: Type) -> bool:
+    return (
+        isinstance(typ, InstanceType)
+        and isinstance(typ.typ, PolymorphicFunctionType)
+        and isinstance(typ.typ.polymorphic_function, IntegrityCheckImpl)
+    )
+
+
 class RewriteImportIntegrityCheck(CompilingNodeTransformer):
     step = "Resolving imports and usage of integrity check"
 
@@ -62,7 +70,10 @@ class RewriteImportIntegrityCheck(CompilingNodeTransformer):
             ), "Imports something other from the integrity check than the integrity check builtin"
             renamed = n.asname if n.asname is not None else n.name
             assert (
-                renamed not in INITIAL_SCOPE or renamed == FunctionName
+                renamed not in INITIAL_SCOPE
+                or renamed == FunctionName
+                # imported under the same name by a previous compilation
+                or is_integrity_check(INITIAL_SCOPE[renamed])
             ), f"Name '{renamed}' is a reserved name, cannot import {FunctionName} with that name."
             INITIAL_SCOPE[renamed] = InstanceType(
                 PolymorphicFunctionType(IntegrityCheckImpl())
-- 
2.43.0


From 66bd8a73fd07dae8b34bc68787f3013d654d66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 12/46] fix: floor and ceil are annotated to return int

---
 opshin/std/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opshin/std/math.py b/opshin/std/math.py
index 393c439..3e43407 100644
--- a/opshin/std/math.py
+++ b/opshin/std/math.py
@@ -33,12 +33,12 @@ def bytes_big_from_unsigned_int(b: int) -> bytes:
     return integer_to_byte_string(True, 0, b)
 
 
-def ceil(a: int, b: int):
+def ceil(a: int, b: int) -> int:
     """Returns a divided by b rounded towards positive infinity"""
     return (a + b - 1) // b if b > 0 else (a + b + 1) // b
 
 
-def floor(a: int, b: int):
+def floor(a: int, b: int) -> int:
     """Returns a divided by b rounded towards negative infinity"""
     return a // b
 
-- 
2.43.0


From ccb474410cb98dc8c096276fcbbb84a24beb77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 13/46] fix: builtins off chain accept data of any form and
 empty lists like on chain

---
 opshin/bridge.py | 57 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/opshin/bridge.py b/opshin/bridge.py
index 87d7374..50f2ebb 100644
--- a/opshin/bridge.py
+++ b/opshin/bridge.py
@@ -2,10 +2,12 @@
 
 from functools import wraps
 
+import inspect
 import re
+import typing
 
 import uplc.ast
-from pycardano import PlutusData, RawCBOR
+from pycardano import Datum, IndefiniteList, PlutusData, RawCBOR, RawPlutusData
 
 from opshin.std.bls12_381 import (
     BLS12381G1Element,
@@ -14,7 +16,49 @@ from opshin.std.bls12_381 import (
 )
 
 
-def to_uplc_builtin(a):
+def to_uplc_data(a) -> uplc.ast.PlutusData:
+    """Converts anything that is passed for a parameter of type Anything"""
+    if isinstance(a, RawCBOR):
+        return uplc.ast.data_from_cbor(a.cbor)
+    if isinstance(a, (PlutusData, RawPlutusData)):
+        return uplc.ast.data_from_cbor(a.to_cbor())
+    if isinstance(a, int):
+        return uplc.ast.PlutusInteger(int(a))
+    if isinstance(a, str):
+        return uplc.ast.PlutusByteString(a.encode())
+    if isinstance(a, bytes):
+        return uplc.ast.PlutusByteString(a)
+    if isinstance(a, (list, IndefiniteList)):
+        return uplc.ast.PlutusList([to_uplc_data(x) for x in a])
+    if isinstance(a, dict):
+        return uplc.ast.PlutusMap(
+            {to_uplc_data(k): to_uplc_data(v) for k, v in a.items()}
+        )
+    if a is None:
+        return uplc.ast.PlutusConstr(0, [])
+    raise NotImplementedError(f"Cannot convert {a} to uplc data")
+
+
+# values that carry the type of the elements of empty lists
+_LIST_SAMPLE_VALUES = {
+    bool: uplc.ast.BuiltinBool(False),
+    int: uplc.ast.BuiltinInteger(0),
+    str: uplc.ast.BuiltinString(""),
+    bytes: uplc.ast.BuiltinByteString(b""),
+    Datum: uplc.ast.PlutusConstr(0, []),
+}
+
+
+def to_uplc_builtin(a, typ=None):
+    """Converts a to the builtin value expected for a parameter annotated with typ"""
+    if typ == Datum:
+        return to_uplc_data(a)
+    if isinstance(a, list) and typing.get_origin(typ) is list:
+        (element_typ,) = typing.get_args(typ)
+        return uplc.ast.BuiltinList(
+            [to_uplc_builtin(x, element_typ) for x in a],
+            _LIST_SAMPLE_VALUES.get(element_typ),
+        )
     if isinstance(a, bool):
         return uplc.ast.BuiltinBool(a)
     if isinstance(a, int):
@@ -86,6 +130,9 @@ def to_uplc_fun_name(snake_case_fun_name: str) -> str:
 def wraps_builtin(func):
     snake_case_fun_name = func.__name__
     CamelCaseFunName = to_uplc_fun_name(snake_case_fun_name)
+    arg_types = [
+        func.__annotations__.get(name) for name in inspect.signature(func).parameters
+    ]
 
     @wraps(func)
     def wrapped(*args):
@@ -94,8 +141,12 @@ def wraps_builtin(func):
         The type annotation of the original function is preserved.
         """
         uplc_fun = uplc.ast.BuiltInFun.__dict__[CamelCaseFunName]
+        if len(args) != len(arg_types):
+            raise TypeError(
+                f"{snake_case_fun_name}() takes {len(arg_types)} arguments but {len(args)} were given"
+            )
         return to_python(
-            uplc.ast.BuiltInFunEvalMap[uplc_fun](*(map(to_uplc_builtin, args)))
+            uplc.ast.BuiltInFunEvalMap[uplc_fun](*map(to_uplc_builtin, args, arg_types))
         )
 
     return wrapped
-- 
2.43.0


From af0122e97300a18c8be80dcabb8fa16b24eca4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 14/46] fix: correct type annotations of equals_string and the
 G2 group builtins

---
 opshin/std/builtins.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opshin/std/builtins.py b/opshin/std/builtins.py
index 8ffc826..11bb43a 100644
--- a/opshin/std/builtins.py
+++ b/opshin/std/builtins.py
@@ -167,7 +167,7 @@ def append_string(x: str, y: str) -> str:
 
 
 @wraps_builtin
-def equals_string(x: str, y: str) -> str:
+def equals_string(x: str, y: str) -> bool:
     """Returns x == y."""
     pass
 
@@ -256,20 +256,20 @@ def bls12_381_g2_compress(a: BLS12381G2Element) -> bytes:
 
 
 @wraps_builtin
-def bls12_381_g2_add(a: BLS12381G1Element, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Adds two elements of the G1 group in BLS12_381"""
+def bls12_381_g2_add(a: BLS12381G2Element, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Adds two elements of the G2 group in BLS12_381"""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_neg(a: BLS12381G1Element) -> BLS12381G1Element:
-    """Negate an element of the G1 group in BLS12_381."""
+def bls12_381_g2_neg(a: BLS12381G2Element) -> BLS12381G2Element:
+    """Negate an element of the G2 group in BLS12_381."""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_scalar_mul(a: int, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Multiply an element of the G1 group in BLS12_381 with a scalar integer"""
+def bls12_381_g2_scalar_mul(a: int, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Multiply an element of the G2 group in BLS12_381 with a scalar integer"""
     pass
 
 
-- 
2.43.0


From 88de58990ade8cb5945c956b76bf99c783b4fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 15/46] fix: builtins compile to the builtin they name,
 quotient_integer multiplied

---
 opshin/rewrite/rewrite_import_uplc_builtins.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_uplc_builtins.py b/opshin/rewrite/rewrite_import_uplc_builtins.py
index c7a52ec..6ba9373 100644
--- a/opshin/rewrite/rewrite_import_uplc_builtins.py
+++ b/opshin/rewrite/rewrite_import_uplc_builtins.py
@@ -1,9 +1,11 @@
 import re
 from _ast import ImportFrom, AST, Name
 from copy import copy
+from inspect import signature
 from typing import Optional
 
 import pluthon as plt
+import uplc.ast
 from ..bridge import to_uplc_fun_name
 
 from ..util import CompilingNodeTransformer
@@ -47,10 +49,19 @@ class RewriteImportUPLCBuiltins(CompilingNodeTransformer):
             "_Signature"
         ):
             CamelCaseFunName = CamelCaseFunName.removesuffix("_Signature") + "Signature"
-        uplc_fun = plt.__dict__[CamelCaseFunName]
+        # refer to the builtin itself, the shorthands of pluthon may be wired to a different one
+        uplc_fun = uplc.ast.BuiltInFun[CamelCaseFunName]
+        arity = len(signature(uplc.ast.BuiltInFunEvalMap[uplc_fun]).parameters)
+        assert (
+            len(node.args.args) == arity
+        ), f"The builtin {node.orig_name} takes {arity} arguments but is declared with {len(node.args.args)}."
+        builtin = plt.BuiltIn(uplc_fun)
+        for _ in range(uplc.ast.BuiltInFunForceMap[uplc_fun]):
+            builtin = plt.Force(builtin)
         pluto_expression = RawPlutoExpr(
             typ=node.typ.typ.rettyp,
-            expr=uplc_fun(
+            expr=plt.Apply(
+                builtin,
                 *(plt.Force(plt.Var(a.arg)) for a in node.args.args),
             ),
         )
-- 
2.43.0


From 85d2591241060db6808b3da7d8fb7716861cc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 16/46] fix: textual parameters of type bool, str, None, Datum
 and with union fields denote their value

---
 opshin/__main__.py | 88 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index e855ab9..71d70cb 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -102,8 +102,33 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
             return int(x["int"])
         if annotation == bytes:
             return bytes.fromhex(x["bytes"])
+        if annotation == bool:
+            # booleans are represented by integers in PlutusData
+            return int(x["int"]) != 0
+        if annotation == str and "bytes" in x:
+            # strings are represented by their utf8 encoding in PlutusData
+            return bytes.fromhex(x["bytes"]).decode("utf8")
         if annotation is None:
             return None
+        if annotation == pycardano.Datum:
+            # Datum is itself a Union and has to be handled before Unions
+            if "int" in x:
+                return int(x["int"])
+            if "bytes" in x:
+                return bytes.fromhex(x["bytes"])
+            if "constructor" in x:
+                return pycardano.RawCBOR(
+                    uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+                )
+            if "list" in x:
+                return [plutus_data_from_json(pycardano.Datum, k) for k in x["list"]]
+            if "map" in x:
+                return {
+                    plutus_data_from_json(
+                        pycardano.Datum, d["k"]
+                    ): plutus_data_from_json(pycardano.Datum, d["v"])
+                    for d in x["map"]
+                }
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation._name == "List":
@@ -126,28 +151,14 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                 raise ValueError(
                     f"Could not find matching type for {x} in {annotation}"
                 )
-            if annotation == pycardano.Datum:
-                if "int" in x:
-                    return int(x["int"])
-                if "bytes" in x:
-                    return bytes.fromhex(x["bytes"])
-                if "constructor" in x:
-                    return pycardano.RawCBOR(
-                        uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
-                    )
-                if "list" in x:
-                    return [
-                        plutus_data_from_json(pycardano.Datum, k) for k in x["list"]
-                    ]
-                if "map" in x:
-                    return {
-                        plutus_data_from_json(
-                            pycardano.Datum, d["k"]
-                        ): plutus_data_from_json(pycardano.Datum, d["v"])
-                        for d in x["map"]
-                    }
         if issubclass(annotation, pycardano.PlutusData):
-            return annotation.from_dict(x)
+            try:
+                # resolves fields annotated as Unions and Datum, unlike from_dict
+                return annotation.from_cbor(
+                    uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+                )
+            except pycardano.DeserializeException:
+                return annotation.from_dict(x)
     except (KeyError, ValueError, pycardano.DeserializeException):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
@@ -163,10 +174,37 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
                     f"Expected {annotation} but got {type(x)} from {x.hex()}"
                 )
             return res
+        if annotation == bool:
+            # booleans are represented by integers in PlutusData
+            return plutus_data_from_cbor(int, x) != 0
+        if annotation == str:
+            # strings are represented by their utf8 encoding in PlutusData
+            res = cbor2.loads(x)
+            if isinstance(res, bytes):
+                return res.decode("utf8")
         if annotation is None:
-            if not x == cbor2.dumps(None):
+            # the unit value is the constructor 0 without fields
+            if x not in (cbor2.dumps(None), cbor2.dumps(cbor2.CBORTag(121, []))):
                 raise ValueError(f"Expected None but got {x.hex()}")
             return None
+        if annotation == pycardano.Datum:
+            # Datum is itself a Union and has to be handled before Unions
+            res = cbor2.loads(x)
+            if isinstance(res, (int, bytes)):
+                return res
+            if isinstance(res, cbor2.CBORTag):
+                return pycardano.RawCBOR(x)
+            if isinstance(res, (list, tuple)):
+                return [
+                    plutus_data_from_cbor(pycardano.Datum, cbor2.dumps(k)) for k in res
+                ]
+            if isinstance(res, dict):
+                return {
+                    plutus_data_from_cbor(
+                        pycardano.Datum, cbor2.dumps(k)
+                    ): plutus_data_from_cbor(pycardano.Datum, cbor2.dumps(v))
+                    for k, v in res.items()
+                }
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation.__origin__ == list:
@@ -283,7 +321,11 @@ def perform_command(args):
             f"Contract has no function called '{'validator' if lib is None else lib}'. Make sure the compiled contract contains one function called 'validator'."
         )
     annotations = [
-        (x.name, x.annotation or prelude.Anything) for x in argspec.parameters.values()
+        (
+            x.name,
+            x.annotation if x.annotation is not x.empty else prelude.Anything,
+        )
+        for x in argspec.parameters.values()
     ]
     return_annotation = (
         argspec.return_annotation
-- 
2.43.0


From e75ac6be2e6bab426135da0561a29c341630d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 17/46] fix: applying parameters keeps the script version and
 the license

---
 opshin/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 697379c..b4d354f 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -167,6 +167,7 @@ class PlutusContract:
             self.version,
             self.title,
             self.description,
+            self.license,
         )
         return new_contract
 
@@ -420,7 +421,7 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
                 else d
             ),
         )
-    code = uplc.ast.Program((1, 0, 0), code)
+    code = uplc.ast.Program(script.version, code)
     return code
 
 
-- 
2.43.0


From d277d73ef489d4983d2d994718f5bad5278ed23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 18/46] fix: loading contracts without datum or from
 script.cbor yields the stored script

---
 opshin/builder.py | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index b4d354f..7f25036 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -3,6 +3,7 @@ import dataclasses
 import enum
 import functools
 import inspect
+import io
 import json
 import typing
 from ast import Module
@@ -425,6 +426,20 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
     return code
 
 
+def _unwrap_cbor(wrapped: bytes) -> bytes:
+    """
+    Returns the bytes that are wrapped as exactly one CBOR bytestring, raises ValueError otherwise
+    """
+    with io.BytesIO(wrapped) as fp:
+        try:
+            unwrapped = cbor2.load(fp)
+        except cbor2.CBORDecodeError as e:
+            raise ValueError("Not a CBOR object") from e
+        if not isinstance(unwrapped, bytes) or fp.read():
+            raise ValueError("Not a single CBOR bytestring")
+    return unwrapped
+
+
 def load(contract_path: Union[Path, str]) -> PlutusContract:
     """
     Load a contract from a file or directory and generate the artifacts
@@ -450,19 +465,30 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
                 contract_cbor = PlutusV3Script(bytes.fromhex(validator["compiledCode"]))
+                # datum, redeemer and parameters are elided when not specified
                 datum_type = (
-                    validator["datum"]["title"],
-                    from_plutus_schema(validator["datum"]["schema"]),
+                    (
+                        validator["datum"]["title"],
+                        from_plutus_schema(validator["datum"]["schema"]),
+                    )
+                    if validator.get("datum")
+                    else None
                 )
                 redeemer_type = (
-                    validator["redeemer"]["title"],
-                    from_plutus_schema(validator["redeemer"]["schema"]),
+                    (
+                        validator["redeemer"]["title"],
+                        from_plutus_schema(validator["redeemer"]["schema"]),
+                    )
+                    if validator.get("redeemer")
+                    else None
                 )
                 parameter_types = [
                     (p["title"], from_plutus_schema(p["schema"]))
-                    for p in validator["parameters"]
+                    for p in validator.get("parameters", [])
                 ]
-                if "oneOf" in validator["redeemer"]["purpose"]:
+                if redeemer_type is None:
+                    purpose = (Purpose.any,)
+                elif "oneOf" in validator["redeemer"]["purpose"]:
                     purpose = [
                         k
                         for k, v in PURPOSE_MAP.items()
@@ -500,12 +526,13 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
             contract_content = f.read()
         # could be a singly wrapped cbor hex
         try:
+            contract_bytes = bytes.fromhex(contract_content)
             # try to unwrap to see if it is cbor
-            contract_cbor_unwrapped = cbor2.loads(bytes.fromhex(contract_content))
-            contract_cbor = bytes.fromhex(contract_content)
+            contract_cbor_unwrapped = _unwrap_cbor(contract_bytes)
+            contract_cbor = contract_bytes
             # if we can unwrap again, its doubly wrapped
             try:
-                cbor2.loads(contract_cbor_unwrapped)
+                _unwrap_cbor(contract_cbor_unwrapped)
                 contract_cbor = contract_cbor_unwrapped
             except ValueError:
                 pass
-- 
2.43.0


From b992e5dab200892a7bce9b5aad5b50909366886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 19/46] fix: blueprint of a built contract lists only
 parameters that are still unbound

---
 opshin/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 71d70cb..699d320 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -464,7 +464,8 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             # TODO this actually does not work anymore
             datum_type=None,
             redeemer_type=None,
-            parameter_types=param_types,
+            # parameters passed as arguments are already bound
+            parameter_types=param_types[len(parsed_params) :],
             purpose=(Purpose.any,),
             title=pathlib.Path(input_file).stem,
         )
-- 
2.43.0


From 3bb6e44c78abfd7bf1459e183f6bafecd6f9e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 20/46] fix: blueprint schema of str and None parameters

---
 opshin/builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 7f25036..09e2688 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -297,7 +297,8 @@ def to_plutus_schema(cls: typing.Type[Datum]) -> dict:
     Returns:
         dict: a dict representing the schema of this class.
     """
-    if cls == Datum:
+    if cls == Datum or cls is None:
+        # None arguments are ignored on-chain, hence any data is accepted
         return {}
     if hasattr(cls, "__origin__") and cls.__origin__ is list:
         return {
@@ -341,7 +342,8 @@ def to_plutus_schema(cls: typing.Type[Datum]) -> dict:
             "fields": fields,
             "title": cls.__name__,
         }
-    elif issubclass(cls, bytes):
+    elif issubclass(cls, (bytes, str)):
+        # strings are represented by their utf8 encoding
         return {"dataType": "bytes"}
     elif issubclass(cls, int):
         return {"dataType": "integer"}
-- 
2.43.0


From bd8290b1d7995e4a6f1615912ec47fb6b3d30111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 21/46] fix: CBOR text of other data is not accepted as list or
 dictionary parameter

---
 opshin/__main__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 699d320..862e501 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -209,17 +209,22 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
             # Annotation is a List or Dict
             if annotation.__origin__ == list:
                 annotation_ann = annotation.__dict__["__args__"][0]
+                res = cbor2.loads(x)
+                if not isinstance(res, (list, tuple)):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return [
-                    plutus_data_from_cbor(annotation_ann, cbor2.dumps(k))
-                    for k in cbor2.loads(x)
+                    plutus_data_from_cbor(annotation_ann, cbor2.dumps(k)) for k in res
                 ]
             if annotation.__origin__ == dict:
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
+                res = cbor2.loads(x)
+                if not isinstance(res, dict):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return {
                     plutus_data_from_cbor(
                         annotation_key, cbor2.dumps(k)
                     ): plutus_data_from_cbor(annotation_val, cbor2.dumps(v))
-                    for k, v in cbor2.loads(x).items()
+                    for k, v in res.items()
                 }
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
-- 
2.43.0


From f3e4d546aa5c1b7e1ebdf7cb63fc327652cda319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 22/46] fix: JSON data with fields of another JSON type is
 rejected instead of converted

---
 opshin/__main__.py | 34 +++++++++++++++++++---------------
 opshin/util.py     | 31 ++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 862e501..cdd9a38 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -35,7 +35,7 @@ from . import (
     Purpose,
     PlutusContract,
 )
-from .util import CompilerError, data_from_json, OPSHIN_LOG_HANDLER
+from .util import CompilerError, data_from_json, json_field, OPSHIN_LOG_HANDLER
 from .prelude import ScriptContext
 from .compiler_config import *
 from uplc import cost_model
@@ -99,48 +99,52 @@ def parse_plutus_param(annotation, param: str):
 def plutus_data_from_json(annotation: typing.Type, x: dict):
     try:
         if annotation == int:
-            return int(x["int"])
+            return json_field(x, "int", int)
         if annotation == bytes:
-            return bytes.fromhex(x["bytes"])
+            return bytes.fromhex(json_field(x, "bytes", str))
         if annotation == bool:
             # booleans are represented by integers in PlutusData
-            return int(x["int"]) != 0
+            return json_field(x, "int", int) != 0
         if annotation == str and "bytes" in x:
             # strings are represented by their utf8 encoding in PlutusData
-            return bytes.fromhex(x["bytes"]).decode("utf8")
+            return bytes.fromhex(json_field(x, "bytes", str)).decode("utf8")
         if annotation is None:
             return None
         if annotation == pycardano.Datum:
             # Datum is itself a Union and has to be handled before Unions
             if "int" in x:
-                return int(x["int"])
+                return json_field(x, "int", int)
             if "bytes" in x:
-                return bytes.fromhex(x["bytes"])
+                return bytes.fromhex(json_field(x, "bytes", str))
             if "constructor" in x:
-                return pycardano.RawCBOR(
-                    uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
-                )
+                return pycardano.RawCBOR(uplc.ast.plutus_cbor_dumps(data_from_json(x)))
             if "list" in x:
-                return [plutus_data_from_json(pycardano.Datum, k) for k in x["list"]]
+                return [
+                    plutus_data_from_json(pycardano.Datum, k)
+                    for k in json_field(x, "list", list)
+                ]
             if "map" in x:
                 return {
                     plutus_data_from_json(
                         pycardano.Datum, d["k"]
                     ): plutus_data_from_json(pycardano.Datum, d["v"])
-                    for d in x["map"]
+                    for d in json_field(x, "map", list)
                 }
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation._name == "List":
                 annotation_ann = annotation.__dict__["__args__"][0]
-                return [plutus_data_from_json(annotation_ann, k) for k in x["list"]]
+                return [
+                    plutus_data_from_json(annotation_ann, k)
+                    for k in json_field(x, "list", list)
+                ]
             if annotation._name == "Dict":
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
                 return {
                     plutus_data_from_json(
                         annotation_key, d["k"]
                     ): plutus_data_from_json(annotation_val, d["v"])
-                    for d in x["map"]
+                    for d in json_field(x, "map", list)
                 }
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
@@ -155,7 +159,7 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
             try:
                 # resolves fields annotated as Unions and Datum, unlike from_dict
                 return annotation.from_cbor(
-                    uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+                    uplc.ast.plutus_cbor_dumps(data_from_json(x))
                 )
             except pycardano.DeserializeException:
                 return annotation.from_dict(x)
diff --git a/opshin/util.py b/opshin/util.py
index a0e8a5e..4f88af6 100644
--- a/opshin/util.py
+++ b/opshin/util.py
@@ -120,22 +120,43 @@ class CompilingNodeVisitor(TypedNodeVisitor):
             raise CompilerError(e, node, self.step)
 
 
+def json_field(j: typing.Dict[str, typing.Any], field: str, typ: type):
+    """
+    Returns a field of plutus data in JSON notation, raises a ValueError if it does not have the required type
+    """
+    value = j[field]
+    if not isinstance(value, typ) or isinstance(value, bool):
+        raise ValueError(f"Expected {typ.__name__} in '{field}' field, got {value}")
+    return value
+
+
 def data_from_json(j: typing.Dict[str, typing.Any]) -> uplc.PlutusData:
+    if not isinstance(j, dict):
+        raise ValueError(f"Expected a JSON object but got {j}")
     if "bytes" in j:
-        return uplc.PlutusByteString(bytes.fromhex(j["bytes"]))
+        return uplc.PlutusByteString(bytes.fromhex(json_field(j, "bytes", str)))
     if "int" in j:
-        return uplc.PlutusInteger(int(j["int"]))
+        return uplc.PlutusInteger(json_field(j, "int", int))
     if "list" in j:
-        return uplc.PlutusList(frozenlist(list(map(data_from_json, j["list"]))))
+        return uplc.PlutusList(
+            frozenlist(list(map(data_from_json, json_field(j, "list", list))))
+        )
     if "map" in j:
         return uplc.PlutusMap(
             frozendict(
-                {data_from_json(d["k"]): data_from_json(d["v"]) for d in j["map"]}
+                {
+                    data_from_json(d["k"]): data_from_json(d["v"])
+                    for d in json_field(j, "map", list)
+                }
             )
         )
     if "constructor" in j and "fields" in j:
+        constructor = json_field(j, "constructor", int)
+        if constructor < 0:
+            raise ValueError(f"Expected a non-negative constructor, got {constructor}")
         return uplc.PlutusConstr(
-            j["constructor"], frozenlist(list(map(data_from_json, j["fields"])))
+            constructor,
+            frozenlist(list(map(data_from_json, json_field(j, "fields", list)))),
         )
     raise NotImplementedError(f"Unknown datum representation {j}")
 
-- 
2.43.0


From d46d79716b2059780447fa37ff9ed112ba150add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 23/46] fix: JSON data that spells no datum or constructor is
 rejected

---
 opshin/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index cdd9a38..8fe6536 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -130,6 +130,7 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     ): plutus_data_from_json(pycardano.Datum, d["v"])
                     for d in json_field(x, "map", list)
                 }
+            raise ValueError(f"Unknown datum representation {x}")
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation._name == "List":
@@ -162,7 +163,11 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     uplc.ast.plutus_cbor_dumps(data_from_json(x))
                 )
             except pycardano.DeserializeException:
-                return annotation.from_dict(x)
+                res = annotation.from_dict(x)
+                if not isinstance(res, annotation):
+                    # from_dict returns data that is no constructor as is
+                    raise ValueError(f"Expected {annotation} but got {x}")
+                return res
     except (KeyError, ValueError, pycardano.DeserializeException):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
-- 
2.43.0


From 40d026f269dd0080075cbc2697b1e4f32617ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 24/46] fix: JSON parameters of class type with fields of other
 types are rejected

---
 opshin/__main__.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 8fe6536..bd9d06b 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -157,17 +157,8 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     f"Could not find matching type for {x} in {annotation}"
                 )
         if issubclass(annotation, pycardano.PlutusData):
-            try:
-                # resolves fields annotated as Unions and Datum, unlike from_dict
-                return annotation.from_cbor(
-                    uplc.ast.plutus_cbor_dumps(data_from_json(x))
-                )
-            except pycardano.DeserializeException:
-                res = annotation.from_dict(x)
-                if not isinstance(res, annotation):
-                    # from_dict returns data that is no constructor as is
-                    raise ValueError(f"Expected {annotation} but got {x}")
-                return res
+            # from_dict would neither resolve fields annotated as Unions nor check fields
+            return annotation.from_cbor(uplc.ast.plutus_cbor_dumps(data_from_json(x)))
     except (KeyError, ValueError, pycardano.DeserializeException):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
-- 
2.43.0


From 8c1b10fb2d6a9ccaf1eec5e04cfc4f438b3756d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 25/46] fix: slices without upper bound evaluate the sliced
 value once

---
 opshin/compiler.py       | 15 ++++++++++-----
 opshin/type_inference.py | 30 ++++++++++++------------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 48f3213..59e8923 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1014,9 +1014,6 @@ class PlutoCompiler(CompilingNodeTransformer):
                     ),
                 )
             else:
-                assert (
-                    node.slice.upper is not None
-                ), "Only slices with upper bound supported"
                 assert (
                     node.slice.lower is not None
                 ), "Only slices with lower bound supported"
@@ -1043,7 +1040,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthList(OVar("xs"))
+                            ),
                         ),
                         (
                             "j",
@@ -1171,7 +1172,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthOfByteString(OVar("bs"))
+                            ),
                         ),
                         (
                             "j",
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 90fdeb0..3deca5e 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1494,15 +1494,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for lists must be integers, found {ts.slice.lower.typ.python_type()} for list {ts.value.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
-                assert (
-                    ts.slice.upper.typ == IntegerInstanceType
-                ), f"Upper slice indices for lists must be integers, found {ts.slice.upper.typ.python_type()} for list {ts.value.typ.python_type()}"
+                # a missing upper bound is the length of the value
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
+                    assert (
+                        ts.slice.upper.typ == IntegerInstanceType
+                    ), f"Upper slice indices for lists must be integers, found {ts.slice.upper.typ.python_type()} for list {ts.value.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, ByteStringType):
             if not isinstance(ts.slice, Slice):
                 ts.typ = IntegerInstanceType
@@ -1518,15 +1515,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for bytes must be integers, found {ts.slice.lower.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
-                assert (
-                    ts.slice.upper.typ == IntegerInstanceType
-                ), f"Upper slice indices for bytes must be integers, found {ts.slice.upper.typ.python_type()}"
+                # a missing upper bound is the length of the value
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
+                    assert (
+                        ts.slice.upper.typ == IntegerInstanceType
+                    ), f"Upper slice indices for bytes must be integers, found {ts.slice.upper.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, DictType):
             if not isinstance(ts.slice, Slice):
                 ts.slice = self.visit(node.slice)
-- 
2.43.0


From 4f6f2760756c5e3183ea2f18ab8d5fc301645350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 26/46] fix: bytes at a constant negative index evaluate the
 value once

---
 opshin/compiler.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 59e8923..b8e7268 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1116,14 +1116,6 @@ class PlutoCompiler(CompilingNodeTransformer):
                         self.visit(node.value),
                         self.visit(node.slice),
                     )
-                elif isinstance(node.slice, Constant) and node.slice.value < 0:
-                    return plt.IndexByteString(
-                        self.visit(node.value),
-                        plt.AddInteger(
-                            self.visit(node.slice),
-                            plt.LengthOfByteString(self.visit(node.value)),
-                        ),
-                    )
                 return OLet(
                     [
                         (
-- 
2.43.0


From 46917a01f2a56dc034d2716051690c37fb368ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 27/46] fix: dict subscripts evaluate the dict before the key

---
 opshin/compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index b8e7268..e0bb093 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1086,17 +1086,21 @@ class PlutoCompiler(CompilingNodeTransformer):
             if not isinstance(node.slice, Slice):
                 return OLet(
                     [
+                        (
+                            "d",
+                            self.visit(node.value),
+                        ),
                         (
                             "key",
                             transform_output_map(node.slice.typ)(
                                 self.visit(node.slice),
                             ),
-                        )
+                        ),
                     ],
                     transform_ext_params_map(dict_typ.value_typ)(
                         plt.SndPair(
                             plt.FindList(
-                                self.visit(node.value),
+                                OVar("d"),
                                 OLambda(
                                     ["x"],
                                     plt.EqualsData(
-- 
2.43.0


From dfb9423191059876b968737ad7a6101221701d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 28/46] fix: method calls evaluate the object before the
 arguments

---
 opshin/compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index e0bb093..78ee9dc 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -745,12 +745,17 @@ class PlutoCompiler(CompilingNodeTransformer):
                 # if the function expects input of generic type data, wrap data before passing it inside
                 a_int = transform_output_to_type(a.typ, t)(a_int)
             args.append(a_int)
+        bindings = [(f"p{i}", a) for i, a in enumerate(args)]
+        if isinstance(node.func, ast.Attribute):
+            # the object whose method is called is evaluated before the arguments
+            bindings.insert(0, ("f", func_plt))
+            func_plt = OVar("f")
         # First assign to let to ensure that the arguments are evaluated before the call, but need to delay
         # as this is a variable assignment
         # Also bring all states of variables read inside the function into scope / update with value in current state
         # before call to simulate statemonad with current state being passed in
         return OLet(
-            [(f"p{i}", a) for i, a in enumerate(args)],
+            bindings,
             SafeApply(
                 func_plt,
                 *([plt.Var(bind_self)] if bind_self is not None else []),
-- 
2.43.0


From 0f6230df8a2445dc046c796df0513119a92115a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 29/46] fix: keyword arguments are evaluated in the order in
 which they are written

---
 opshin/compiler.py       | 6 +++++-
 opshin/type_inference.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 78ee9dc..f412855 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -745,7 +745,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                 # if the function expects input of generic type data, wrap data before passing it inside
                 a_int = transform_output_to_type(a.typ, t)(a_int)
             args.append(a_int)
-        bindings = [(f"p{i}", a) for i, a in enumerate(args)]
+        # arguments are evaluated in the order in which they are written
+        bindings = [
+            (f"p{i}", args[i])
+            for i in getattr(node, "evaluation_order", range(len(args)))
+        ]
         if isinstance(node.func, ast.Attribute):
             # the object whose method is called is evaluated before the arguments
             bindings.insert(0, ("f", func_plt))
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 3deca5e..4422505 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1547,6 +1547,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             keywords = copy(node.keywords)
             reg_args = self.FUNCTION_ARGUMENT_REGISTRY[node.func.id]
             args = []
+            # positions of the arguments in the order in which they are written
+            evaluation_order = list(range(len(node.args)))
+            keyword_positions = {}
             for i, a in enumerate(reg_args):
                 if len(node.args) > i:
                     args.append(self.visit(node.args[i]))
@@ -1560,12 +1563,16 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                         len(candidates) == 1
                     ), f"There should be one keyword or positional argument for the arg {a.orig_arg} but found {len(candidates)}"
                     args.append(self.visit(candidates[0][1].value))
+                    keyword_positions[a.orig_arg] = i
                     keywords.pop(candidates[0][0])
             assert (
                 len(keywords) == 0
             ), f"Could not match the keywords {[keyword.arg for keyword in keywords]} to any argument"
             tc.args = args
             tc.keywords = []
+            tc.evaluation_order = evaluation_order + [
+                keyword_positions[keyword.arg] for keyword in node.keywords
+            ]
         else:
             tc.args = [self.visit(a) for a in node.args]
 
-- 
2.43.0


From d893283d218a19886b3680a8fb9eabff7a1727a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 30/46] fix: token_present_in_inputs is annotated to return
 bool

---
 opshin/prelude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/prelude.py b/opshin/prelude.py
index 9f8b9c5..6cb6280 100644
--- a/opshin/prelude.py
+++ b/opshin/prelude.py
@@ -137,7 +137,7 @@ def own_address(own_policy_id: PolicyId) -> Address:
     return Address(ScriptCredential(own_policy_id), NoStakingCredential())
 
 
-def token_present_in_inputs(token: Token, inputs: List[TxInInfo]):
+def token_present_in_inputs(token: Token, inputs: List[TxInInfo]) -> bool:
     """
     Returns whether the given token is spent in one of the inputs of the transaction
     """
-- 
2.43.0


From a59f61d8ac8c351c9397217d4f9b4c8dc20b3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 31/46] fix: isinstance of statically typed lists, dicts and
 bools

isinstance(x, List), isinstance(x, Dict) and isinstance(b, int) evaluated to False for
statically typed lists, dicts and booleans, because the member types were compared too.
---
 opshin/fun_impls.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/opshin/fun_impls.py b/opshin/fun_impls.py
index 35828c7..b1ccf6b 100644
--- a/opshin/fun_impls.py
+++ b/opshin/fun_impls.py
@@ -133,10 +133,21 @@ class IsinstanceImpl(PolymorphicFunction):
         if not (
             isinstance(instance_class, UnionType) or isinstance(instance_class, AnyType)
         ):
-            if instance_class == target:
-                return OLambda(["x"], plt.Bool(True))
-            else:
-                return OLambda(["x"], plt.Bool(False))
+            # the member types of lists and dicts are not subject to the test, and bool is a subclass of int
+            return OLambda(
+                ["x"],
+                plt.Bool(
+                    instance_class == target
+                    or any(
+                        isinstance(instance_class, sub) and isinstance(target, sup)
+                        for sub, sup in (
+                            (ListType, ListType),
+                            (DictType, DictType),
+                            (BoolType, IntegerType),
+                        )
+                    )
+                ),
+            )
 
         if isinstance(target, IntegerType):
             return OLambda(
-- 
2.43.0


From d6620463cbae78115138696c9a01fbd500898e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 32/46] fix: membership tests of union and untyped values in
 lists

The members of lists of ints, bytes and other builtin representations were passed to equalsData unconverted.
---
 opshin/type_impls.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index e0fd36f..58e14bc 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -308,10 +308,7 @@ class AnyType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        equals_member(o.typ, OVar("x")),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -320,10 +317,7 @@ class AnyType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            equals_member(o.typ, OVar("x")),
                         ),
                     ),
                 )
@@ -914,10 +908,7 @@ class UnionType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        equals_member(o.typ, OVar("x")),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -926,10 +917,7 @@ class UnionType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            equals_member(o.typ, OVar("x")),
                         ),
                     ),
                 )
@@ -3556,6 +3544,14 @@ def empty_list(p: Type):
     raise NotImplementedError(f"Empty lists of type {p} can't be constructed yet")
 
 
+def equals_member(member_typ: Type, x: plt.AST) -> plt.AST:
+    """A function that tests whether a list member of the given type equals x, which is PlutusData"""
+    return OLambda(
+        ["member"],
+        plt.EqualsData(x, transform_output_map(member_typ)(OVar("member"))),
+    )
+
+
 TransformExtParamsMap = {
     IntegerInstanceType: lambda x: plt.UnIData(x),
     ByteStringInstanceType: lambda x: plt.UnBData(x),
-- 
2.43.0


From f470daeed22baa1f10eec73750af1dbb93029c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 33/46] fix: reject lists and dicts as keys of dicts

Such dicts were accepted by the compiler but are unhashable in Python.
---
 opshin/type_inference.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 4422505..772d0da 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -428,6 +428,14 @@ def intersection_types(*ts: Type):
     return UnionType(frozenlist(intersection_set))
 
 
+def assert_hashable(key_typ: Type):
+    """Lists and dicts are unhashable and can not be used as keys of a dict"""
+    assert not (
+        isinstance(key_typ, InstanceType)
+        and isinstance(key_typ.typ, (ListType, DictType))
+    ), f"Can not use the unhashable type {key_typ.python_type()} as key of a dict"
+
+
 def find_max_type(elts: typing.List[InstanceType]):
     if not elts:
         return InstanceType(AnyType())
@@ -1067,6 +1075,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         ), f"All keys of a dict must be instances of a class, found class types {', '.join(e.typ.python_type() for e in tt.keys if not isinstance(e.typ, InstanceType))}"
         # try to derive a max type
         k_typ = find_max_type(tt.keys)
+        assert_hashable(k_typ)
         v_typ = find_max_type(tt.values)
         tt.typ = InstanceType(DictType(k_typ, v_typ))
         return tt
@@ -1833,6 +1842,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.implement_typechecks(prevtyps)
 
         self.exit_scope()
+        assert_hashable(typed_dictcomp.key.typ)
         typed_dictcomp.typ = InstanceType(
             DictType(typed_dictcomp.key.typ, typed_dictcomp.value.typ)
         )
-- 
2.43.0


From 9998cbb56459e6784a32faae05583fe8c7e0bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:37 +0000
Subject: [PATCH 34/46] fix: pairs are converted to data as the list of their
 members

Pairs (items of a dict) passed where Anything is expected were not converted at all.
---
 opshin/type_impls.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 58e14bc..38654ef 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3618,6 +3618,17 @@ def transform_output_map(p: Type):
         )
     if isinstance(p.typ, RawTupleType):
         return lambda x: plt.ListData(x)
+    if isinstance(p.typ, PairType):
+        # like all tuples, pairs are represented by the list of their members
+        return lambda x: OLet(
+            [("pair", x)],
+            plt.ListData(
+                plt.MkCons(
+                    plt.FstPair(OVar("pair")),
+                    plt.MkCons(plt.SndPair(OVar("pair")), plt.EmptyDataList()),
+                )
+            ),
+        )
     if isinstance(p.typ, DictType):
         # there doesn't appear to be a constructor function to make Pair a b for any types
         # so pairs will always contain Data
-- 
2.43.0


From fc5a5bca21c912376586f33b4fb25895de8320cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 35/46] fix: convert list elements and conditional expressions
 to the common representation

Nested lists and both sides of a conditional expression kept the representation of their own type.
---
 opshin/compiler.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index f412855..7463919 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -21,6 +21,7 @@ from .type_impls import (
     RecordType,
     transform_ext_params_map,
     AnyType,
+    strip_data_instance_type,
     transform_output_map,
     ClassType,
     PolymorphicFunctionInstanceType,
@@ -125,7 +126,7 @@ def transform_output_to_type(source: Type, target: Type):
     if isinstance(target.typ, (AnyType, UnionType)):
         return transform_output_map(source)
     if isinstance(target.typ, ListType) and isinstance(source.typ, ListType):
-        if not needs_data_cast(target.typ.typ):
+        if source.typ == target.typ or not needs_data_cast(target.typ.typ):
             return lambda x: x
         return lambda x: plt.MapList(
             x,
@@ -1267,10 +1268,10 @@ class PlutoCompiler(CompilingNodeTransformer):
         el_typ = node.typ.typ.typ
         l = empty_list(el_typ)
         for e in reversed(node.elts):
-            element = self.visit(e)
-            if isinstance(el_typ.typ, AnyType) or isinstance(el_typ.typ, UnionType):
-                # if the function expects input of generic type data, wrap data before passing it inside
-                element = transform_output_map(e.typ)(element)
+            # bring the element into the representation of the members of this list
+            element = transform_output_to_type(e.typ, strip_data_instance_type(el_typ))(
+                self.visit(e)
+            )
             l = plt.MkCons(element, l)
         return l
 
@@ -1331,19 +1332,14 @@ class PlutoCompiler(CompilingNodeTransformer):
         return OLet([("insert_pair", insert)], l)
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
-        if isinstance(node.typ.typ, UnionType):
-            body = self.visit(node.body)
-            orelse = self.visit(node.orelse)
-            if not isinstance(node.body.typ, UnionType):
-                body = transform_output_map(node.body.typ)(body)
-            if not isinstance(node.orelse.typ, UnionType):
-                orelse = transform_output_map(node.orelse.typ)(orelse)
-            return plt.Ite(self.visit(node.test), body, orelse)
-        return plt.Ite(
-            self.visit(node.test),
-            self.visit(node.body),
-            self.visit(node.orelse),
-        )
+        body = self.visit(node.body)
+        orelse = self.visit(node.orelse)
+        target_typ = strip_data_instance_type(node.typ)
+        if needs_data_cast(target_typ):
+            # bring both values into the representation of the type of the expression
+            body = transform_output_to_type(node.body.typ, target_typ)(body)
+            orelse = transform_output_to_type(node.orelse.typ, target_typ)(orelse)
+        return plt.Ite(self.visit(node.test), body, orelse)
 
     def visit_ListComp(self, node: TypedListComp) -> plt.AST:
         assert len(node.generators) == 1, "Currently only one generator supported"
-- 
2.43.0


From c46d6e3339b9056a4d0c668fdd51b2580185181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:43 +0000
Subject: [PATCH 36/46] fix: concatenated lists share the representation of
 their members

List[int] + List[Union[...]] produced a list of mixed builtin types.
---
 opshin/compiler.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 7463919..f244db4 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -431,11 +431,20 @@ class PlutoCompiler(CompilingNodeTransformer):
                 op = node.right.typ.rbinop(node.op, node.left)
             except NotImplementedError:
                 raise e
-        return plt.Apply(
-            op,
-            self.visit(node.left),
-            self.visit(node.right),
-        )
+        operands = []
+        for operand in (node.left, node.right):
+            compiled = self.visit(operand)
+            if (
+                isinstance(node.typ, InstanceType)
+                and isinstance(node.typ.typ, ListType)
+                and isinstance(operand.typ, InstanceType)
+                and isinstance(operand.typ.typ, ListType)
+                and operand.typ != node.typ
+            ):
+                # the members of concatenated lists need to have the same representation
+                compiled = transform_output_to_type(operand.typ, node.typ)(compiled)
+            operands.append(compiled)
+        return plt.Apply(op, *operands)
 
     def visit_BoolOp(self, node: TypedBoolOp) -> plt.AST:
         op = BoolOpMap.get(type(node.op))
-- 
2.43.0


From fe997387155bce4f7ef48e98e451e0dc5defbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 37/46] fix: records are only assignable to records with the
 same field names and compatible types

The fields were compared as (name, type) tuples in lexicographic order, so that records with greater field names
were accepted regardless of their types.
---
 opshin/type_impls.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 38654ef..3a71126 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -233,7 +233,10 @@ class Record:
         return (
             self.constructor == other.constructor
             and len(self.fields) == len(other.fields)
-            and all(a >= b for a, b in zip(self.fields, other.fields))
+            and all(
+                name == o_name and typ >= o_typ
+                for (name, typ), (o_name, o_typ) in zip(self.fields, other.fields)
+            )
         )
 
 
-- 
2.43.0


From 3e4f2514235cdbd04d11151bed4c7ac782d12d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 38/46] fix: do not lose the members of nested unions

list.extend returns None, so all types after the first nested union were dropped.
---
 opshin/type_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 772d0da..5365429 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -379,7 +379,7 @@ def union_types(*ts: Type):
     while to_process:
         t = to_process.pop()
         if isinstance(t, UnionType):
-            to_process = to_process.extend(reversed(t.typs))
+            to_process.extend(reversed(t.typs))
         else:
             assert isinstance(
                 t, (RecordType, IntegerType, ByteStringType, ListType, DictType)
-- 
2.43.0


From bb0c39cf273ac9cb7052858739d8b5e0ad81cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 39/46] fix: variables have the representation of the merged
 type after branching

A variable assigned as an int in one branch and as a union in the other kept different representations.
---
 opshin/type_inference.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 5365429..08bb51e 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1188,8 +1188,37 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             (typed_if.body_can_fall_through, final_scope_body),
             (typed_if.orelse_can_fall_through, final_scope_else),
         )
+        if typed_if.body_can_fall_through and typed_if.orelse_can_fall_through:
+            typed_if.body = typed_if.body + self.casts_to_merged_types(final_scope_body)
+            typed_if.orelse = typed_if.orelse + self.casts_to_merged_types(
+                final_scope_else
+            )
         return typed_if
 
+    def casts_to_merged_types(
+        self, branch_scope: typing.Dict[str, Type]
+    ) -> typing.List[stmt]:
+        """
+        Assignments at the end of a branch that bring variables into the representation
+        that they have after the branches are merged
+        """
+        casts = []
+        for name, typ in branch_scope.items():
+            merged_typ = self.scopes[-1][name]
+            if (
+                typ == merged_typ
+                or not isinstance(merged_typ, InstanceType)
+                or isinstance(typ, DataInstanceType)
+                or isinstance(typ.typ, (AnyType, UnionType, RecordType))
+            ):
+                continue
+            value = Name(id=name, ctx=Load())
+            target = Name(id=name, ctx=Store())
+            value.orig_id = target.orig_id = map_to_orig_name(name)
+            value.typ, target.typ = typ, merged_typ
+            casts.append(Assign(targets=[target], value=value))
+        return casts
+
     def visit_While(self, node: While) -> TypedWhile:
         typed_while = copy(node)
         typed_while.test = self.visit(node.test)
-- 
2.43.0


From 85201034395e3c92eafce7f032e4f7a8479311ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 40/46] fix: function values need identical argument and result
 types

The variance was inverted, and values are not converted between representations on calls of function values.
---
 opshin/type_impls.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 3a71126..60e0d09 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1706,9 +1706,14 @@ class FunctionType(ClassType):
         if not (
             isinstance(other, FunctionType)
             and len(self.argtyps) == len(other.argtyps)
-            and all(a >= oa for a, oa in zip(self.argtyps, other.argtyps))
-            and other.rettyp >= self.rettyp
+            and all(
+                a >= oa and oa >= a
+                for a, oa in zip(
+                    (*self.argtyps, self.rettyp), (*other.argtyps, other.rettyp)
+                )
+            )
         ):
+            # arguments and results are not converted between representations of types
             return False
         if (
             self.bound_vars is CLOSURE_PLACEHOLDER
-- 
2.43.0


From fc6a77e0dd0c78f59bca682c42a0a97b10807139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 41/46] fix: reject variables that hold functions with
 different closures

The closure is passed at the call according to the static type of the callee, so calls of a variable that holds
functions with different closures misapplied their arguments.
---
 opshin/rewrite/rewrite_function_closures.py | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/opshin/rewrite/rewrite_function_closures.py b/opshin/rewrite/rewrite_function_closures.py
index 3a39f8e..16d3eb9 100644
--- a/opshin/rewrite/rewrite_function_closures.py
+++ b/opshin/rewrite/rewrite_function_closures.py
@@ -342,6 +342,29 @@ class RewriteFunctionClosures(ScopedSequenceNodeTransformer):
     def _validate_function_redefinitions(self, body: list[stmt]):
         self._validate_function_redefinitions_in_sequence(body, {})
 
+    def _validate_function_values(self, module: Module):
+        # the environment is passed at the call according to the type of the called
+        # expression, so all functions it may evaluate to need to expect the same one
+        def is_function(node: AST) -> bool:
+            return (
+                hasattr(node, "typ")
+                and isinstance(node.typ, InstanceType)
+                and isinstance(node.typ.typ, FunctionType)
+            )
+
+        env = {}
+        for node in walk(module):
+            if isinstance(node, Assign) and is_function(node.value):
+                for target in node.targets:
+                    env = self._merge_function_definition_envs(
+                        env, {target.id: node.value.typ}
+                    )
+            elif isinstance(node, IfExp) and is_function(node):
+                self._merge_function_definition_envs(
+                    {"<if-expression>": node.body.typ},
+                    {"<if-expression>": node.orelse.typ},
+                )
+
     def visit_sequence(self, body: list[stmt]) -> list[stmt]:
         rewritten_body = super().visit_sequence(body)
         self._update_function_bound_vars(rewritten_body)
@@ -352,4 +375,5 @@ class RewriteFunctionClosures(ScopedSequenceNodeTransformer):
     def visit_Module(self, node: Module) -> Module:
         module = super().visit_Module(node)
         self._assert_no_closure_placeholders(module)
+        self._validate_function_values(module)
         return module
-- 
2.43.0


From d1c8b83ec8b459b920d4303c736616302e99a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 42/46] fix: restore the type of variables that are narrowed
 more than once

The type after the first narrowing was restored instead of the original one, so that
`(isinstance(x, A) or isinstance(x, B)) and not isinstance(x, B)` left x narrowed afterwards.
---
 opshin/type_inference.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 08bb51e..74b3514 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1015,7 +1015,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                         self.allow_isinstance_anything
                     ).visit(stmt.test)
                     # for the time after this assert, the variable has the specialized type
-                    prevtyps.update(self.implement_typechecks(typchecks))
+                    prevtyps = {**self.implement_typechecks(typchecks), **prevtyps}
                 if not getattr(stmt, "can_fall_through", True):
                     break
             self.implement_typechecks(prevtyps)
@@ -1436,7 +1436,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     e_visited
                 )
                 # for the time after the shortcut and the variable type to the specialized type
-                prevtyps.update(self.implement_typechecks(typchecks))
+                prevtyps = {**self.implement_typechecks(typchecks), **prevtyps}
             self.implement_typechecks(prevtyps)
             tt.values = values
         elif isinstance(node.op, Or):
@@ -1448,7 +1448,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     self.allow_isinstance_anything
                 ).visit(values[-1])
                 # for the time after the shortcut or the variable type is *not* the specialized type
-                prevtyps.update(self.implement_typechecks(inv_typechecks))
+                prevtyps = {**self.implement_typechecks(inv_typechecks), **prevtyps}
             self.implement_typechecks(prevtyps)
             tt.values = values
         else:
-- 
2.43.0


From 7adb600fd87705ef7be44901f5d5be3c9e3f87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:41 +0000
Subject: [PATCH 43/46] fix: nested functions do not observe narrowing that may
 not hold when they are called

The bodies of nested functions were checked under all narrowing in effect at the end of the sequence that
defines them, and under narrowing of variables that are later bound to another value.
---
 opshin/type_inference.py | 47 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 74b3514..a036f77 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -587,6 +587,21 @@ def merge_scope(s1: typing.Dict[str, Type], s2: typing.Dict[str, Type]):
     return merged
 
 
+def find_rebound_names(module: Module) -> typing.Set[str]:
+    """Names that may be bound more than once, by several statements or by a statement inside a loop"""
+    bindings = defaultdict(int)
+    for node in walk(module):
+        if isinstance(node, arg):
+            bindings[node.arg] += 1
+        elif isinstance(node, Name) and isinstance(node.ctx, Store):
+            bindings[node.id] += 1
+        elif isinstance(node, (For, While)):
+            for inner_node in walk(node):
+                if isinstance(inner_node, Name) and isinstance(inner_node.ctx, Store):
+                    bindings[inner_node.id] += 2
+    return {name for name, count in bindings.items() if count > 1}
+
+
 class AggressiveTypeInferencer(CompilingNodeTransformer):
     step = "Static Type Inference"
 
@@ -598,6 +613,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         # A stack of dictionaries for storing scoped knowledge of variable types
         self.scopes = [INITIAL_SCOPE]
+        # The widest type that each variable has had, without any narrowing
+        self.widest_types: typing.Dict[str, Type] = {}
+        self.rebound_names: typing.Set[str] = set()
 
     # Obtain the type of a variable name in the current scope
     def variable_type(self, name: str) -> Type:
@@ -645,6 +663,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 f"Type '{self.scopes[-1][name].python_type()}' of variable '{map_to_orig_name(name)}' in local scope does not match inferred type '{typ.python_type()}'"
             )
         self.scopes[-1][name] = typ
+        if name not in self.widest_types or typ >= self.widest_types[name]:
+            self.widest_types[name] = typ
 
     def implement_typechecks(self, typchecks: TypeMap):
         prevtyps = {}
@@ -974,6 +994,28 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         finally:
             self.implement_typechecks(prevtyps)
 
+    def widen_scopes(self, initial_scope: typing.Dict[str, Type]):
+        """
+        Undo all narrowing of variables that a function may observe differently when it is called:
+        narrowing after the start of the sequence that defines the function and narrowing of
+        variables that may be bound to another value.
+        Returns the changed scopes together with the previous types of the changed variables.
+        """
+        changed = []
+        for scope in self.scopes[1:]:
+            narrowed_types = {}
+            for name, typ in list(scope.items()):
+                wide_typ = self.widest_types.get(name, typ)
+                if name not in self.rebound_names:
+                    if scope is not self.scopes[-1]:
+                        continue
+                    wide_typ = initial_scope.get(name, wide_typ)
+                if wide_typ != typ and wide_typ >= typ:
+                    narrowed_types[name] = typ
+                    scope[name] = wide_typ
+            changed.append((scope, narrowed_types))
+        return changed
+
     @staticmethod
     def merge_fallthrough_scopes(
         initial_scope: typing.Dict[str, Type],
@@ -999,6 +1041,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 seen_function_names.add(node.name)
         self.first_function_definition_scopes.append(first_function_defs)
         try:
+            initial_scope = copy(self.scopes[-1])
             self.predeclare_sequence_symbols(node_seq)
 
             typed_stmts = [None] * len(node_seq)
@@ -1020,9 +1063,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     break
             self.implement_typechecks(prevtyps)
 
+            narrowed_scopes = self.widen_scopes(initial_scope)
             for i, node in enumerate(node_seq):
                 if isinstance(node, FunctionDef):
                     typed_stmts[i] = self.visit(node)
+            for scope, narrowed_types in narrowed_scopes:
+                scope.update(narrowed_types)
 
             return typed_stmts
         finally:
@@ -1395,6 +1441,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
     def visit_Module(self, node: Module) -> TypedModule:
         self.enter_scope()
+        self.rebound_names = find_rebound_names(node)
         tm = copy(node)
         tm.body = self.visit_sequence(node.body)
         self.exit_scope()
-- 
2.43.0


From 2c08ad2222a90bb24d2378122ea92dc5f89dc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 44/46] fix: resolve relative imports starting at the package
 of the importing module

---
 opshin/rewrite/rewrite_import.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index 052d40b..42f179f 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -94,7 +94,11 @@ class RewriteImport(CompilingNodeTransformer):
         # TODO set anchor point according to own package
         if self.filename:
             sys.path.append(str(pathlib.Path(self.filename).parent.absolute()))
-        module = import_module(node.module, self.package)
+        module_name = node.module
+        if self.package and node.level:
+            # relative imports are resolved starting at the package of the importing module
+            module_name = "." * node.level + (node.module or "")
+        module = import_module(module_name, self.package)
         if self.filename:
             sys.path.pop()
         module_file = pathlib.Path(module.__file__)
-- 
2.43.0


From 37839692aa5a15c6501397f0c2bbd32c0b3c7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 45/46] fix: keep the native representation of variables that
 are assigned a narrowed value

---
 opshin/type_inference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index a036f77..7d99468 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1135,7 +1135,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 t, Name
             ), "Can only assign to variable names (e.g., x = 5 or a, b = 10, 20). OpShin does not allow assigning to dicts, lists, or members (e.g., x[0] = 1; x.foo = 1)"
             # Check compatibility to previous types -> variable can be bound in a function before and needs to maintain type
-            target_typ = data_repr_instance_type(typed_ass.value.typ)
+            # Reading a narrowed variable already converts it from its data representation
+            target_typ = data_repr_instance_type(
+                strip_data_instance_type(typed_ass.value.typ)
+            )
             if self.is_defined_in_current_scope(t.id):
                 prev_typ = self.variable_type(t.id)
                 if isinstance(prev_typ, DataInstanceType) or (
@@ -1252,7 +1255,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         for name, typ in branch_scope.items():
             merged_typ = self.scopes[-1][name]
             if (
-                typ == merged_typ
+                (typ == merged_typ and not isinstance(merged_typ, DataInstanceType))
                 or not isinstance(merged_typ, InstanceType)
                 or isinstance(typ, DataInstanceType)
                 or isinstance(typ.typ, (AnyType, UnionType, RecordType))
-- 
2.43.0


From f370fac33e60188ba457a2cfe80c23673a3230a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 46/46] fix: containers of narrowed values hold elements of the
 declared type

---
 opshin/type_inference.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 7d99468..3d75982 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -442,7 +442,8 @@ def find_max_type(elts: typing.List[InstanceType]):
     set_elts = OrderedSet(elts)
     max_typ = None
     for m in elts:
-        l_typ = m.typ
+        # elements are stored in the representation of their declared type
+        l_typ = strip_data_instance_type(m.typ)
         if all(l_typ >= e.typ for e in set_elts):
             max_typ = l_typ
             break
@@ -1098,7 +1099,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
     def visit_Tuple(self, node: Tuple) -> TypedTuple:
         tt = copy(node)
         tt.elts = [self.visit(e) for e in node.elts]
-        tt.typ = InstanceType(RawTupleType(frozenlist([e.typ for e in tt.elts])))
+        tt.typ = InstanceType(
+            RawTupleType(frozenlist([strip_data_instance_type(e.typ) for e in tt.elts]))
+        )
         return tt
 
     def visit_List(self, node: List) -> TypedList:
@@ -1892,7 +1895,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.implement_typechecks(prevtyps)
 
         self.exit_scope()
-        typed_listcomp.typ = InstanceType(ListType(typed_listcomp.elt.typ))
+        typed_listcomp.typ = InstanceType(
+            ListType(strip_data_instance_type(typed_listcomp.elt.typ))
+        )
         return typed_listcomp
 
     def visit_DictComp(self, node: DictComp) -> TypedDictComp:
@@ -1923,7 +1928,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.exit_scope()
         assert_hashable(typed_dictcomp.key.typ)
         typed_dictcomp.typ = InstanceType(
-            DictType(typed_dictcomp.key.typ, typed_dictcomp.value.typ)
+            DictType(
+                strip_data_instance_type(typed_dictcomp.key.typ),
+                strip_data_instance_type(typed_dictcomp.value.typ),
+            )
         )
         return typed_dictcomp
 
-- 
2.43.0

