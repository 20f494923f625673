From 5e3c6b98147347707c760cb1346bb94c433e974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 01/35] fix: lex escaped backslashes in strings and avoid
 exponential backtracking

A string ending in an escaped backslash ('\\') swallowed its closing quote,
and an unterminated string with n interpolations took 2^n steps to reject.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..c57dbfe 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]++|(?R))*+}|\\[\s\S]|[^'\\])*+'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From c88810bf53e0b461ac7db55991cdf65637239654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 02/35] fix: lex strings before a multi-line string on the same
 line

The guard against reading ''' as an empty string looked at the whole rest of
the line, so any string followed by a multi-line string (or a comment with ''')
was rejected. An unclosed multi-line string no longer backtracks exponentially.
---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index c57dbfe..871b8a0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,10 +175,10 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]++|(?R))*+}|\\[\s\S]|[^'\\])*+'/
+QUOTED_INTERPOLATION: /(?!''')'(\${(?:[^}'{]++|(?R))*+}|\\[\s\S]|[^'\\])*+'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
-- 
2.43.0


From e827545dbd569a06b1d29d2ad0e36fe0feea51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 03/35] fix: accept a line comment at the end of a file without
 a final newline

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 871b8a0..f69378e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -181,7 +181,7 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 _NEWLINE: NEWLINE
-_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
+_CPP_COMMENT_NL: CPP_COMMENT NEWLINE? | NEWLINE
 
 %import common.C_COMMENT
 %import common.CPP_COMMENT
-- 
2.43.0


From afe8268ded0243c3a4ecd86be74836b154bec9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 04/35] fix: parse lambda expressions with exactly two
 parameters

reduce() and sort() take two-parameter lambdas; only one or three and more parsed.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index f69378e..05d3056 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -88,7 +88,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From b61e5ad6987cc882e3a2c4a40f3db6b862a59dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 05/35] fix: keep falsy arguments of function accessors

Arguments like '', 0, false, [] or null were silently dropped.
---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 05d3056..da06fc0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From 5549589a808ebc7c5e6f882b69b04aee3bcd743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/35] fix: assign resourceGroup() parameters by position

With a falsy subscription or resource group argument the two were mixed up.
---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..cbb3cf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From c4c9b05ea6bbb0fe5c8968be987334447d60509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 07/35] fix: keep all resource names of the scoped *ResourceId
 functions

extensionResourceId, managementGroupResourceId, subscriptionResourceId and
tenantResourceId silently dropped every resource name after the second.
---
 pycep/rules/functions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index cbb3cf3..71ac136 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -441,13 +441,14 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "extension_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_id": resource_id,
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
         },
     }
 
@@ -486,12 +487,13 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "management_group_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
@@ -633,12 +635,13 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "subscription_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
             "subscription_id": subscription_id,
         },
     }
@@ -655,12 +658,13 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "tenant_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
-- 
2.43.0


From 119fe9d3323318ada0e2079e138d1d89b3da2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 08/35] fix: handle negative and non-literal arguments of
 minValue and maxValue

@maxValue(-5) crashed and @minValue(-foo) was reported as an empty string.
---
 pycep/rules/decorators.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..ce261ab 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -57,21 +55,27 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
     }
 
 
-def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
+def fold_minus(arg: int | dict[str, Any]) -> int | dict[str, Any]:
+    """Converts a negated integer literal to an `int`, any other value is returned as is."""
     if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+        value = operator["operands"]["integer_value"]
+        if isinstance(value, int):
+            return value * -1
+
+    return arg
+
 
+def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": fold_minus(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
-    return {
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
+    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": fold_minus(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
-- 
2.43.0


From fb2a601af63ef41eaa73059e90fc8dc07f7dab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 09/35] fix: hoist child resources of looped and conditional
 resources

---
 pycep/transformer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..8d974e3 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -947,8 +947,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        # the actual body of a looped or conditional resource is nested
+        body = config
+        while "condition" in body and isinstance(body.get("config"), dict):
+            body = body["config"]
+
+        if "__child_resource__" in body:
+            child_resource = body.pop("__child_resource__")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 1aa1b31aa875aaf55fdecf5e64fa32ca7ca7cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 10/35] fix: set the end line of child resources to their
 closing line

---
 pycep/bicep.lark     | 4 ++--
 pycep/transformer.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index da06fc0..4e877bc 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -82,7 +82,7 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
 
-object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource) _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8d974e3..06590bf 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -305,8 +305,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From 3ba783230a12c713e6103b92f2fe39130dfe31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 11/35] fix: add line numbers to namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 06590bf..db68281 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From ba2cc54290237668eaa74b2f09aa543997672157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 12/35] fix: accept an empty text

---
 pycep/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..8feaca4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,12 +33,12 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
-- 
2.43.0


From 7dc3d5ee9945f2c9287d4b738dadd0ab1bb3e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 13/35] fix: read Bicep files as UTF-8 regardless of the locale

---
 pycep/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 8feaca4..09a3b5c 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
     from pycep import typing as pycep_typing
 
 
-LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text()  # ty: ignore[invalid-argument-type] # can't be `None` here
+LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text(encoding="utf-8")  # ty: ignore[invalid-argument-type] # can't be `None` here
 
 
 class BicepParser:
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From e78ab49b430c7d51c0ab03cdefd24f55c235fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 14/35] fix: keep the source value of object loops

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index db68281..00e6538 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -576,7 +576,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
-- 
2.43.0


From 8dd1c1d17bc190411055cdfdd842e458fcae9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 15/35] fix: keep an empty extension config

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 00e6538..8850a79 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -155,7 +155,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From 9b817222f71daa708a8fd8063bddb0f6f87fec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 16/35] fix: allow underscores in names of called functions

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 4e877bc..8b35e8e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -97,7 +97,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From 78a46c70bc4b843269a2e9d6f88c92999b7e0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 17/35] fix: transform deeply nested values without hitting the
 recursion limit

---
 pycep/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8850a79..3f9784c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -4,7 +4,8 @@ import itertools
 import re
 from typing import TYPE_CHECKING, Any, Literal, cast
 
-from lark import Token, Transformer, v_args
+from lark import Token, v_args
+from lark.visitors import Transformer_NonRecursive
 
 from pycep import typing as pycep_typing
 from pycep.models import BicepElement
@@ -29,7 +30,7 @@ TEMPLATE_SPEC_PATTERN = re.compile(
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
 
 
-class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
+class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
     def __init__(self, add_line_numbers: bool) -> None:
         self.add_line_numbers = add_line_numbers
 
-- 
2.43.0


From b2c7f731e4b373519ee93f9552737e082addadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 18/35] fix: drop a leading CRLF line break of multi-line
 strings

---
 pycep/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..d8a892b 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,6 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    text = str(value)[3:-3]
+    # only the line break directly after the opening quotes is not part of the value
+    return text[2:] if text.startswith("\r\n") else text.removeprefix("\n")
-- 
2.43.0


From 55a4aa7d39f38550fe7c6996272610a942dd950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 19/35] fix: accept a space between if and its parenthesis in
 loops

---
 pycep/bicep.lark | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8b35e8e..a0cbe43 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,9 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | _loop_condition] value_brackets _CPP_COMMENT_NL? "]"
+
+_loop_condition: _NEWLINE? "if" "(" value_brackets ")"
 
 loop_array: STRING "in" value_brackets
 
-- 
2.43.0


From bd75be6d76d9e9b2e5136980c21825ca1fbf4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 20/35] fix: accept all valid characters in module aliases and
 paths

---
 pycep/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 3f9784c..f7d7c10 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -17,12 +17,12 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
-- 
2.43.0


From 6d03923628ec134361f81b96b160a18401387b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 21/35] fix: treat br/ and ts/ paths without an alias separator
 as local modules

---
 pycep/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f7d7c10..14a3b71 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -454,7 +454,7 @@ class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
                 },
             }
             return br_result
-        elif file_path.startswith("br/"):
+        elif file_path.startswith("br/") and ":" in file_path:
             m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
@@ -493,7 +493,7 @@ class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
                 },
             }
             return ts_result
-        elif file_path.startswith("ts/"):
+        elif file_path.startswith("ts/") and ":" in file_path:
             m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
-- 
2.43.0


From 3b6d691edbb6ad70a6c2a96305d56a12254a7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 22/35] fix: lex strings with nested interpolations independent
 of the context and in linear time

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a0cbe43..c47dc4e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -177,7 +177,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!''')'(\${(?:[^}'{]++|(?R))*+}|\\[\s\S]|[^'\\])*+'/
+QUOTED_INTERPOLATION: /(?!''')(?P<interpolated>'(?:\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
-- 
2.43.0


From f62b8d7d7d5fd25ffe0adcaef073c033be5d2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 23/35] fix: only negate integer literals in minValue and
 maxValue

---
 pycep/rules/decorators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index ce261ab..97478d3 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -57,10 +57,13 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
 
 def fold_minus(arg: int | dict[str, Any]) -> int | dict[str, Any]:
     """Converts a negated integer literal to an `int`, any other value is returned as is."""
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        value = operator["operands"]["integer_value"]
-        if isinstance(value, int):
-            return value * -1
+    if isinstance(arg, dict):
+        operator = arg.get("operator")
+        if isinstance(operator, dict) and operator.get("type") == "minus":
+            operands = operator.get("operands")
+            value = operands.get("integer_value") if isinstance(operands, dict) else None
+            if type(value) is int:
+                return value * -1
 
     return arg
 
-- 
2.43.0


From b0ed72d3f44c9fbed6794b7e13b2aa84ae8042db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 24/35] fix: don't treat an indexed property starting with list
 as function accessor

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index c47dc4e..26141b7 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -178,7 +178,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?!''')(?P<interpolated>'(?:\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')/
-LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
+LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
-- 
2.43.0


From 5c915e3cc2d60b7a35972e9a6ef99a9ed11f1cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 25/35] fix: accept nested parentheses and null-forgiving marks
 inside parentheses

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 26141b7..89c5e22 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From 7227b002a1583e44e2efd76c8440cfaeba9632f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:26 +0000
Subject: [PATCH 26/35] fix: hoist child resources of bodies with condition and
 config properties

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 14a3b71..f0c9011 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -954,7 +954,7 @@ class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
         """
         # the actual body of a looped or conditional resource is nested
         body = config
-        while "condition" in body and isinstance(body.get("config"), dict):
+        while "__child_resource__" not in body and "condition" in body and isinstance(body.get("config"), dict):
             body = body["config"]
 
         if "__child_resource__" in body:
-- 
2.43.0


From aefaa911784b3aae994db31cae79989088fac199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:14 +0000
Subject: [PATCH 27/35] fix: accept any number of line breaks and comments
 after a decorator

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 89c5e22..90d66aa 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -94,7 +94,8 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_break?)
+_decorator_break: _CPP_COMMENT_NL | _decorator_break _CPP_COMMENT_NL
 decorators: decorator+
 
 // functions
-- 
2.43.0


From a0db72cfc427ba4f88f228364ccd20d9470ab681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 28/35] fix: accept any number of line breaks and comments
 between arguments and array items

---
 pycep/bicep.lark | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 90d66aa..74895c1 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,7 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | _loop_condition] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | _loop_condition] value_brackets _breaks? "]"
 
 _loop_condition: _NEWLINE? "if" "(" value_brackets ")"
 
@@ -82,7 +82,7 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
+array: "[" _breaks? (value_brackets ("," _breaks? value_brackets)* _breaks?)* "]"
 
 object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}"
 
@@ -94,14 +94,14 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_break?)
-_decorator_break: _CPP_COMMENT_NL | _decorator_break _CPP_COMMENT_NL
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _breaks? (value_brackets _breaks?)? ")" _decorator_breaks?)
+_decorator_breaks: _CPP_COMMENT_NL | _decorator_breaks _CPP_COMMENT_NL
 decorators: decorator+
 
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function: FUNCTION _breaks? ((value_brackets | "," _breaks? value_brackets) ("," _breaks? value_brackets)* _breaks?)? ")"
 
 // operators
 
@@ -171,6 +171,11 @@ nested_resource_accessor: value_brackets "::" value_brackets
 // 'sys.' and 'az.' have to be eliminated in 1st operand (see STRING definition regexp):
 property_accessor: value_brackets "." "?"? value_brackets
 
+// line breaks and comments between values, has to be different from the ones before a key or an element,
+// because a common rule would make their keywords available to each other
+
+_breaks: _CPP_COMMENT_NL | _breaks _CPP_COMMENT_NL
+
 // Terms
 
 EXISTING: "existing"
-- 
2.43.0


From 6ce8d66ce5b9390bd04cd03563e35aae7fe75c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 29/35] fix: ignore comments when checking multi-line strings

---
 pycep/validator.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pycep/validator.py b/pycep/validator.py
index 973e37a..01d95db 100644
--- a/pycep/validator.py
+++ b/pycep/validator.py
@@ -1,3 +1,16 @@
+import regex
+
+# everything a multi-line string quote can't start in, an unclosed string ends the search
+SEARCH_PATTERN = regex.compile(
+    r"//[^\n]*"
+    r"|#[^\n]*"
+    r"|/\*[\s\S]*?(?:\*/|\Z)"
+    r"|'''[\s\S]*?'''"
+    r"|(?!''')(?P<interpolated>'(?:\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')"
+    r"|(?P<unclosed>'''|')"
+)
+
+
 class BicepValidator:
     @staticmethod
     def is_valid(bicep_text: str) -> bool:
@@ -5,4 +18,8 @@ class BicepValidator:
 
     @staticmethod
     def multi_line_string_valid(bicep_text: str) -> bool:
-        return bicep_text.count("'''") % 2 == 0
+        for match in SEARCH_PATTERN.finditer(bicep_text):
+            if match["unclosed"]:
+                return match["unclosed"] != "'''"
+
+        return True
-- 
2.43.0


From ef958cdf80e5954c61de4dd92db27e3c47691ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:27 +0000
Subject: [PATCH 30/35] fix: lex strings with many interpolations in linear
 time

---
 pycep/bicep.lark   | 2 +-
 pycep/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 74895c1..e204146 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -183,7 +183,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!''')(?P<interpolated>'(?:\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')/
+QUOTED_INTERPOLATION: /(?!''')(?P<interpolated>'(?:\$\{(?:[^}'{]++|'[^'\\$]*+')*+\}|\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
diff --git a/pycep/validator.py b/pycep/validator.py
index 01d95db..3ce8fe0 100644
--- a/pycep/validator.py
+++ b/pycep/validator.py
@@ -6,7 +6,7 @@ SEARCH_PATTERN = regex.compile(
     r"|#[^\n]*"
     r"|/\*[\s\S]*?(?:\*/|\Z)"
     r"|'''[\s\S]*?'''"
-    r"|(?!''')(?P<interpolated>'(?:\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')"
+    r"|(?!''')(?P<interpolated>'(?:\$\{(?:[^}'{]++|'[^'\\$]*+')*+\}|\$(?P<braces>\{(?:[^}'{]++|(?&interpolated)|(?&braces))*+\})|\\[\s\S]|\$(?!\{)|[^'\\$])*+')"
     r"|(?P<unclosed>'''|')"
 )
 
-- 
2.43.0


From b8059740b3a15be358900f907f96b9b8e0133181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 31/35] fix: declare the metadata section in the published
 result type

---
 pycep/typing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..b04f182 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -1381,6 +1381,7 @@ class PropertyAccessor(TypedDict):
 
 class BicepJson(TypedDict):
     globals: GlobalsAttributes
+    metadata: NotRequired[dict[str, MetadataAttributes]]
     imports: NotRequired[dict[str, ImportAttributes]]
     extensions: NotRequired[dict[str, ExtensionAttributes]]
     types: NotRequired[dict[str, VariableAttributes]]
-- 
2.43.0


From cad88460f7a25afee11127b84a2e325074a11099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:33 +0000
Subject: [PATCH 32/35] fix: print the tree of deeply nested documents without
 recursion

---
 pycep/main.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index 09a3b5c..cff06fe 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -17,6 +17,24 @@ if TYPE_CHECKING:
 LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text(encoding="utf-8")  # ty: ignore[invalid-argument-type] # can't be `None` here
 
 
+def _pretty(tree: Tree[Token]) -> str:
+    """Same as 'Tree.pretty()', but without recursion, so it can handle a tree of any depth"""
+
+    lines = []
+    stack: list[tuple[Tree[Token] | Token, str]] = [(tree, "")]
+    while stack:
+        node, indent = stack.pop()
+        if not isinstance(node, Tree):
+            lines.append(f"{indent}{node}\n")
+        elif len(node.children) == 1 and not isinstance(node.children[0], Tree):
+            lines.append(f"{indent}{node.data}\t{node.children[0]}\n")
+        else:
+            lines.append(f"{indent}{node.data}\n")
+            stack.extend((child, f"{indent}  ") for child in reversed(node.children))
+
+    return "".join(lines)
+
+
 class BicepParser:
     """Wrapper class for Lark"""
 
@@ -30,7 +48,7 @@ class BicepParser:
 
     def create_tree(self, *, text: str | None = None, file_path: Path | None = None) -> str:
         tree = self._create_tree(text=text, file_path=file_path)
-        return tree.pretty()
+        return _pretty(tree)
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
         if text is not None and file_path is not None:
-- 
2.43.0


From 286ca8835bcfa1eb4e97404110bc18820803cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:25 +0000
Subject: [PATCH 33/35] fix: share the grammar cache between concurrent
 processes safely

---
 pycep/cache.py | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++
 pycep/main.py  | 17 ++++++++++++--
 2 files changed, 77 insertions(+), 2 deletions(-)
 create mode 100644 pycep/cache.py

diff --git a/pycep/cache.py b/pycep/cache.py
new file mode 100644
index 0000000..8c90dd4
--- /dev/null
+++ b/pycep/cache.py
@@ -0,0 +1,62 @@
+"""Cache of the grammar's parse tables.
+
+The cache built into Lark writes its file in place. Processes, which create it at the same time,
+can end up with a mixture of their files, which still loads, but doesn't parse correctly.
+"""
+
+from __future__ import annotations
+
+import getpass
+import hashlib
+import io
+import os
+import sys
+import tempfile
+from pathlib import Path
+from typing import Any
+
+import lark
+
+
+def get_cache_path(grammar: str, options: dict[str, Any]) -> Path:
+    try:
+        username = getpass.getuser()
+    except Exception:  # ruff:ignore[blind-except] # the kind of error depends on the platform
+        username = "unknown"
+
+    key = f"{grammar}{options}{lark.__version__}{sys.version_info[:2]}"
+    return Path(tempfile.gettempdir()) / f".pycep_cache_{username}_{hashlib.sha256(key.encode()).hexdigest()}.tmp"
+
+
+def load_parser(path: Path) -> lark.Lark | None:
+    """Returns the cached parser or 'None', if there isn't a usable one"""
+
+    try:
+        digest, _, data = path.read_bytes().partition(b"\n")
+        if digest == hashlib.sha256(data).hexdigest().encode():
+            return lark.Lark.load(io.BytesIO(data))
+    except Exception:  # ruff:ignore[blind-except] # whatever is wrong with the cache, the parser can be created without it
+        return None
+
+    return None
+
+
+def save_parser(path: Path, parser: lark.Lark) -> None:
+    """Replaces the cache file in one step, a failure is ignored"""
+
+    buffer = io.BytesIO()
+    parser.save(buffer)
+    data = buffer.getvalue()
+
+    try:
+        fd, name = tempfile.mkstemp(prefix=f"{path.name}_", dir=path.parent)
+    except OSError:
+        return
+
+    tmp_path = Path(name)
+    try:
+        with os.fdopen(fd, "wb") as file:
+            file.write(hashlib.sha256(data).hexdigest().encode() + b"\n" + data)
+        tmp_path.replace(path)
+    except OSError:
+        tmp_path.unlink(missing_ok=True)
diff --git a/pycep/main.py b/pycep/main.py
index cff06fe..ff86dc9 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -1,10 +1,11 @@
 from __future__ import annotations
 
 from importlib.resources import files
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 from lark import Lark, Token, Tree
 
+from .cache import get_cache_path, load_parser, save_parser
 from .transformer import BicepToJson
 from .validator import BicepValidator
 
@@ -40,7 +41,19 @@ class BicepParser:
 
     def __init__(self, *, add_line_numbers: bool = False, cache: bool = True) -> None:
         self.add_line_numbers = add_line_numbers
-        self.lark_parser = Lark(grammar=LARK_GRAMMAR, parser="lalr", propagate_positions=True, regex=True, cache=cache)
+        self.lark_parser = self._create_lark_parser(cache=cache)
+
+    def _create_lark_parser(self, *, cache: bool) -> Lark:
+        options: dict[str, Any] = {"parser": "lalr", "propagate_positions": True, "regex": True}
+        cache_path = get_cache_path(LARK_GRAMMAR, options) if cache else None
+        if cache_path and (parser := load_parser(cache_path)):
+            return parser
+
+        parser = Lark(grammar=LARK_GRAMMAR, **options)
+        if cache_path:
+            save_parser(cache_path, parser)
+
+        return parser
 
     def parse(self, *, text: str | None = None, file_path: Path | None = None) -> pycep_typing.BicepJson:
         tree = self._create_tree(text=text, file_path=file_path)
-- 
2.43.0


From 6b053c245fb1751fb2281205077058f3fbe6ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:13 +0000
Subject: [PATCH 34/35] fix: split the API version off the type of child
 resources

---
 pycep/transformer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f0c9011..d8418e9 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -296,14 +296,15 @@ class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
     ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
-        name, type_name, existing, config = args
+        name, type_token, existing, config = args
+        type_name, _, api_version = str(type_token)[1:-1].partition("@")
 
         result: pycep_typing.Resource = {
             "__name__": str(name),
             "__attrs__": {
                 "decorators": [],
-                "type": str(type_name)[1:-1],
-                "api_version": "",  # will be set later with the parent resource api version
+                "type": type_name,
+                "api_version": api_version,  # if not set, it will be set later with the parent resource api version
                 "existing": bool(existing),
                 "config": config,
             },
@@ -963,10 +964,10 @@ class BicepToJson(Transformer_NonRecursive[Token, pycep_typing.BicepJson]):
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
 
-            # inherit type and api version info from parent resource
+            # inherit type and, if not set, api version info from parent resource
             child_type_api_pair: pycep_typing.ApiTypeVersion = {
                 "type": f"{parent_type_api_pair['type']}/{child_resource['__attrs__']['type']}",
-                "api_version": parent_type_api_pair["api_version"],
+                "api_version": child_resource["__attrs__"]["api_version"] or parent_type_api_pair["api_version"],
             }
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
-- 
2.43.0


From 29dca6674e90d37811b4bc77f11b1638bfa33076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:17 +0000
Subject: [PATCH 35/35] fix: create parsers without a folder for temporary
 files

---
 pycep/cache.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycep/cache.py b/pycep/cache.py
index 8c90dd4..86f6637 100644
--- a/pycep/cache.py
+++ b/pycep/cache.py
@@ -18,14 +18,21 @@ from typing import Any
 import lark
 
 
-def get_cache_path(grammar: str, options: dict[str, Any]) -> Path:
+def get_cache_path(grammar: str, options: dict[str, Any]) -> Path | None:
+    """Returns the path of the cache file or 'None', if there isn't a folder for it"""
+
+    try:
+        folder = tempfile.gettempdir()
+    except OSError:
+        return None
+
     try:
         username = getpass.getuser()
     except Exception:  # ruff:ignore[blind-except] # the kind of error depends on the platform
         username = "unknown"
 
     key = f"{grammar}{options}{lark.__version__}{sys.version_info[:2]}"
-    return Path(tempfile.gettempdir()) / f".pycep_cache_{username}_{hashlib.sha256(key.encode()).hexdigest()}.tmp"
+    return Path(folder) / f".pycep_cache_{username}_{hashlib.sha256(key.encode()).hexdigest()}.tmp"
 
 
 def load_parser(path: Path) -> lark.Lark | None:
-- 
2.43.0

