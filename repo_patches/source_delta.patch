From 1c4d44beb547d777aeb9664e437ed9e6cfc6f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:03 +0000
Subject: [PATCH 01/42] fix: check every keyword of a call when an unsupported
 one is None

Removing 'arg=None' from the list under iteration skipped the next keyword, so
torch.nn.Transformer(layer_norm_eps=None, batch_first=True) was converted with
the unsupported batch_first kept, and the caller's call node lost the keyword
even when the call was not converted.
---
 paconvert/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..5614542 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -353,7 +353,9 @@ class BaseMatcher(object):
             # not support 'torch.rot90(tensor, *config)'
             if isinstance(node, ast.Starred) and not allow_starred:
                 return None
-        for node in kwargs:
+        # remove from a copy, so that no keyword is skipped and the call is not edited
+        kwargs = list(kwargs)
+        for node in kwargs.copy():
             k = node.arg
             # not support 'torch.rot90(tensor, **config)'
             if k is None and not allow_none:
-- 
2.43.0


From 60cf9515dc46b35d4914c5e256c52f07758d2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:03 +0000
Subject: [PATCH 02/42] fix: keep backslashes of the receiver of a class method

x['a\n'].abs() was converted to x['an'].abs().
---
 paconvert/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 5614542..08bdd67 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -434,14 +434,11 @@ class BaseMatcher(object):
         self.paddleClass = func_str[0 : func_str.rfind(".")]
         class_str = "paddle.Tensor|paddle.nn.Module|paddle.optimizer.Optimizer|paddle.optim.Optimizer|paddle.distribution.Distribution|paddle.distributions.distribution.Distribution|paddle.autograd.function.FunctionCtx|paddle.profiler.Profiler"
         if self.get_paddle_api():
-            new_paddle_api = re.sub(
+            self.paddle_api = re.sub(
                 class_str,
-                re.escape(self.paddleClass),
+                lambda _: self.paddleClass,
                 self.get_paddle_api(),
             )
-            # reverse escape
-            new_paddle_api = re.sub(r"\\(.)", r"\1", new_paddle_api)
-            self.paddle_api = new_paddle_api
 
     def args_to_str(self, args):
         str_list = []
-- 
2.43.0


From 3e2b96eddad4453c82e58f9ceee43dbac507474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:33 +0000
Subject: [PATCH 03/42] fix: a misidentified use no longer drops the API's
 other uses from the API list

'--show_all_api' lost every earlier use of an API as soon as one use of it was
recognised as not being a PyTorch API.
---
 paconvert/transformer/basic_transformer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..719f5b0 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -169,7 +169,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_record(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -344,7 +344,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_record(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -492,7 +492,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_record(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -693,7 +693,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_record(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
@@ -766,6 +766,12 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def remove_api_record(self, torch_api):
+        # forget one use of torch_api, its other uses are still recorded
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From 775ade2b8f8bdfb22aa32202c672a212ae6ef73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:33 +0000
Subject: [PATCH 04/42] fix: keep the names after a project-local module in one
 import statement

'import local_module, numpy' was converted to 'import local_module'.
---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..328395a 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From 9f96b685c0fea9e48d2d6896de0582fbfa46b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:34 +0000
Subject: [PATCH 05/42] fix: strip the 'load_' prefix, not its letters, from an
 extension name

The name of a just-in-time loaded extension was mangled, eg: lltm -> tm.
---
 paconvert/transformer/custom_op_transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..f36c9eb 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -179,11 +179,11 @@ class CustomOpTransformer(BaseTransformer):
                     if cpp_ext.startswith("load_"):
                         log_info(
                             self.logger,
-                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext.lstrip('load_')}' ",
+                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext[len('load_'):]}' ",
                             self.file_name,
                             node.lineno,
                         )
-                        alias_node.name = cpp_ext.lstrip("load_")
+                        alias_node.name = cpp_ext[len("load_") :]
                     else:
                         log_info(
                             self.logger,
@@ -233,7 +233,7 @@ class CustomOpTransformer(BaseTransformer):
                     node.lineno,
                 )
                 if cpp_ext.startswith("load_"):
-                    new_node = ast.parse(f"{cpp_ext.lstrip('load_')}").body[0]
+                    new_node = ast.parse(f"{cpp_ext[len('load_'):]}").body[0]
                 else:
                     new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0]
 
-- 
2.43.0


From 0f56fdaccd265e840956f19e467585b69b5d7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 06/42] fix: torch.utils.data.dataloader.DataLoader is an
 alias, not also a mapped API

Being in both tables aborted the conversion of any file using this name after
'import torch.utils.data.dataloader' with an AssertionError.
---
 paconvert/api_mapping.json | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 135abe6..7b0387d 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -10162,9 +10162,6 @@
   "torch.utils.data._utils.collate.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-  "torch.utils.data.dataloader.DataLoader": {
-    "Matcher": "ChangePrefixMatcher"
-  },
   "torch.utils.data.dataloader.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-- 
2.43.0


From b34c4b8175f546233a9c42a44120b9ab76126976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 07/42] fix: write the helper code of a second conversion to
 its own output

The helper singleton kept the output path of the first Converter.run of the
process, so later runs wrote their helper functions into (or on top of) the
first run's output and left their own output without them.
---
 paconvert/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..d1794a0 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -59,6 +59,12 @@ class UtilsFileHelper(object):
             self.code_map = {}
             self.initialized = True
             self.logger = logger
+        elif fileName:
+            # a new conversion in the same process has its own output file
+            self.fileName = fileName
+            self.is_dir_mode = is_dir_mode
+            self.code_map.clear()
+            self.logger = logger
 
     def __new__(cls, fileName=None, is_dir_mode=False, logger=None):
         if cls._instance is None:
-- 
2.43.0


From dcbf4eb2a4fbdd82f52a38c6dd4d8dee66e0b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 08/42] fix: do not take the bookkeeping entries of imports_map
 for imported modules

A file using a variable called other_packages, torch_packages,
may_torch_packages or api_alias_name_map aborted the conversion with a
TypeError.
---
 paconvert/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 08bdd67..9583617 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -179,8 +179,9 @@ class BaseTransformer(ast.NodeTransformer):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # imports_map also holds package sets, which are not module names
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             torch_api = ".".join(attr_list)
             return torch_api
@@ -236,8 +237,9 @@ class BaseTransformer(ast.NodeTransformer):
 
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # imports_map also holds package sets, which are not module names
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             full_attr = ".".join(attr_list)
         return full_attr, origin_attr
-- 
2.43.0


From d4947938e42ec6ce4dc6738eae983c23625f13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 09/42] fix: refuse to write the converted file over the input
 file

'-i dir/a.py -o dir' passed the out_dir/in_dir check and replaced dir/a.py.
---
 paconvert/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..816a092 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -117,6 +117,7 @@ class Converter:
                 if os.path.isdir(out_dir)
                 else out_dir
             )
+            assert out_file != in_dir, "--out_dir must be different from --in_dir"
             utils_file_helper = UtilsFileHelper(
                 out_file, is_dir_mode=False, logger=self.logger
             )
-- 
2.43.0


From 6fbd2efb0a063328afd2c9e552207be337246dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 10/42] fix: do not convert the output directory when it lies
 inside the input directory

'paconvert -i .' with the default output ./paddle_project recursed into its own
output until the path was too long.
---
 paconvert/converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 816a092..c2a0ead 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -84,6 +84,7 @@ class Converter:
         self.calculate_speed = calculate_speed
         self.only_complete = only_complete
         self.line_count = 0
+        self.out_dir = None
 
         log_info(self.logger, "===========================================")
         log_info(self.logger, "PyTorch to Paddle Convert Start ------>:")
@@ -110,6 +111,7 @@ class Converter:
         else:
             exclude = []
         exclude.append("__pycache__")
+        self.out_dir = out_dir
 
         if os.path.isfile(in_dir):
             out_file = (
@@ -343,6 +345,10 @@ class Converter:
                 old_path = os.path.join(in_dir, item)
                 new_path = os.path.join(out_dir, item)
 
+                # the output directory may be inside the input directory
+                if old_path == self.out_dir:
+                    continue
+
                 is_exclude = False
                 if exclude:
                     for pattern in exclude:
-- 
2.43.0


From 577d488fdb7abc1ef2abe15ef12768741f61187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:12 +0000
Subject: [PATCH 11/42] fix: look for the enclosing scope one level further out
 at a time

A multi-line conversion in the exception class of an except clause recursed
forever, as the clause is not in a body of its try statement.
---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 9583617..7e08c7c 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -95,7 +95,7 @@ class BaseTransformer(ast.NodeTransformer):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "finalbody", index
 
-        return self.scope_body_index(-2)
+        return self.scope_body_index(level - 1)
 
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
-- 
2.43.0


From c5fa059e1c7084e6074eea35f4159ec34e2126e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:12 +0000
Subject: [PATCH 12/42] fix: treat async def, async for and async with as
 scopes

The extra lines of a multi-line conversion inside 'async def' were inserted in
front of the function instead of in front of the converted statement.
---
 paconvert/base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 7e08c7c..d47774a 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -278,6 +278,12 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncFunctionDef(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_While(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
@@ -308,12 +314,24 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncFor(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_With(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncWith(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_ExceptHandler(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
-- 
2.43.0


From 1f29e952bb1bb24f803c258fa759d2a16483f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 13/42] fix: keep the parentheses of a negated argument
 expression

requires_grad=f(x) aborted the conversion with a SyntaxError ('not f(x'), and
requires_grad=(a or b) became 'not a or b'.
---
 paconvert/api_matcher.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..96b3e48 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -122,7 +122,7 @@ class GenericMatcher(BaseMatcher):
 
         stop_gradient_v = "None"
         if "requires_grad" in kwargs and "requires_grad" not in kwargs_change_value:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         out_v = "None"
         if "out" in kwargs and "out" not in kwargs_change_value:
@@ -1826,7 +1826,7 @@ class TensorNew_Matcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1870,7 +1870,7 @@ class TensorNewFullMatcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1909,7 +1909,7 @@ class TensorNewTensorMatcher(BaseMatcher):
             kwargs.pop("device")
 
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -1929,7 +1929,7 @@ class TorchTensorMatcher(BaseMatcher):
             if "cuda" in kwargs["place"]:
                 kwargs["place"] = kwargs["place"].replace("cuda", "gpu")
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -2563,7 +2563,7 @@ class TensorToMatcher(BaseMatcher):
         if "memory_format" in new_kwargs:
             new_kwargs.pop("memory_format")
         if "non_blocking" in new_kwargs:
-            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking").strip("()")
+            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking")
         if "device" in new_kwargs:
             if "cuda" in new_kwargs["device"]:
                 new_kwargs["device"] = new_kwargs["device"].replace("cuda", "gpu")
@@ -4359,7 +4359,7 @@ class SvdMatcher(BaseMatcher):
             kwargs["x"] = self.paddleClass
 
         if "some" in kwargs:
-            kwargs["full_matrices"] = "not " + kwargs.pop("some").strip("()")
+            kwargs["full_matrices"] = "not " + kwargs.pop("some")
 
         if "out" in kwargs and kwargs["out"] != "None":
             out_v = kwargs.pop("out")
-- 
2.43.0


From 56308272907ab66275f2baaf3e0da8213d77798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 14/42] fix: no multi-line conversion anywhere inside a
 comprehension or lambda

Only the direct element of a list or dict comprehension was refused: lines for
an API deeper inside it, or in a set comprehension, generator or lambda, were
inserted in front of the statement, where the bound names do not exist.
---
 paconvert/base.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index d47774a..38b8d9e 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -161,8 +161,22 @@ class BaseTransformer(ast.NodeTransformer):
             self.record_scope((self.root, "body", 0), import_nodes)
 
         if len(other_nodes) > 0:
-            if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
-                return False
+            # lines in front of the statement can not see the names which are
+            # bound by a comprehension or lambda, nor be evaluated as often
+            for node in self.node_stack[-2::-1]:
+                if isinstance(node, ast.stmt):
+                    break
+                if isinstance(
+                    node,
+                    (
+                        ast.DictComp,
+                        ast.ListComp,
+                        ast.SetComp,
+                        ast.GeneratorExp,
+                        ast.Lambda,
+                    ),
+                ):
+                    return False
             self.record_scope(self.scope_body_index(), other_nodes)
 
         return True
-- 
2.43.0


From b1149c0879c7dd499a53b61b2ab59a69ef2eb4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 15/42] fix: treat a class body as a scope

The extra lines of a multi-line conversion in a class body were inserted in
front of the class, where the names of the class body do not exist.
---
 paconvert/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 38b8d9e..c74a741 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -298,6 +298,12 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_ClassDef(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_While(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
-- 
2.43.0


From d0755a425a4e28ddf506ab94c39619b952aefb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 16/42] fix: insert imports and helper code after 'from
 __future__' imports

A file with a 'from __future__ import' was converted to a file with a
SyntaxError, as 'import paddle' was put in front of it.
---
 paconvert/base.py                              | 12 +++++++++++-
 paconvert/transformer/custom_op_transformer.py |  4 +++-
 paconvert/transformer/import_transformer.py    |  3 ++-
 paconvert/utils.py                             |  9 +++++++++
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index c74a741..502dd63 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -143,6 +143,14 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             self.scope_insert_lines[scope_node][body] = {index: node_list}
 
+    def import_body_index(self):
+        # imports are inserted at the beginning, but after 'from __future__ import'
+        index = 0
+        for i, node in enumerate(self.root.body):
+            if isinstance(node, ast.ImportFrom) and node.module == "__future__":
+                index = i + 1
+        return index
+
     def insert_multi_node(self, node_list):
         if len(node_list) == 0:
             return True
@@ -158,7 +166,9 @@ class BaseTransformer(ast.NodeTransformer):
                 other_nodes.append(node)
 
         if len(import_nodes) > 0:
-            self.record_scope((self.root, "body", 0), import_nodes)
+            self.record_scope(
+                (self.root, "body", self.import_body_index()), import_nodes
+            )
 
         if len(other_nodes) > 0:
             # lines in front of the statement can not see the names which are
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index f36c9eb..8fd16aa 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -199,7 +199,9 @@ class CustomOpTransformer(BaseTransformer):
 
         if len(import_list) > 0:
             import_node = ast.parse("import " + ", ".join(import_list))
-            self.record_scope((self.root, "body", 0), import_node.body)
+            self.record_scope(
+                (self.root, "body", self.import_body_index()), import_node.body
+            )
 
         if len(new_node_names) > 0:
             node.names = new_node_names
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 328395a..f5cd80a 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -522,6 +522,7 @@ class ImportTransformer(BaseTransformer):
                 self.file_name,
             )
             self.record_scope(
-                (self.root, "body", 0), ast.parse(f"import {paddle_package}").body
+                (self.root, "body", self.import_body_index()),
+                ast.parse(f"import {paddle_package}").body,
             )
             line_NO += 1
diff --git a/paconvert/utils.py b/paconvert/utils.py
index d1794a0..77cbc8b 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -104,6 +104,15 @@ class UtilsFileHelper(object):
                 i += 1
                 continue
 
+            # module docstring
+            if insert_idx == 0 and stripped.startswith('"""'):
+                if stripped.count('"""') == 1:
+                    i += 1
+                    while i < n and '"""' not in lines[i]:
+                        i += 1
+                i += 1
+                continue
+
             if stripped.startswith("import "):
                 insert_idx = i + 1
                 i += 1
-- 
2.43.0


From a4339b940ee63a197dafc8bdab23653dd192b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:06 +0000
Subject: [PATCH 17/42] fix: give torch.autograd.Function.backward the
 paddle_api its rule requires

Any use of it aborted the conversion with an AssertionError.
---
 paconvert/api_mapping.json | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 7b0387d..0988ed4 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -2985,15 +2985,8 @@
     "Matcher": "ChangePrefixMatcher"
   },
   "torch.autograd.Function.backward": {
-    "Matcher": "GenericMatcher",
-    "args_list": [
-      "ctx",
-      "*grad_outputs"
-    ],
-    "kwargs_change": {
-      "grad_outputs": "args"
-    },
-    "abstract": true,
+    "Matcher": "ChangeAPIMatcher",
+    "paddle_api": "paddle.autograd.PyLayer.backward",
     "min_input_args": 1
   },
   "torch.autograd.Function.forward": {
-- 
2.43.0


From ecba4958aadc4f8c862c8a6770f0c5de6bd0933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 18/42] fix: forget the C++ custom ops of an earlier conversion
 in the same process

---
 paconvert/converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c2a0ead..5a0154e 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -28,6 +28,8 @@ import astor
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
 from paconvert.transformer.custom_op_transformer import (
+    AUTOGRAD_FUNC_NODES,
+    CPP_EXTENSION_LIST,
     PreCustomOpTransformer,
     CustomOpTransformer,
 )
@@ -113,6 +115,10 @@ class Converter:
         exclude.append("__pycache__")
         self.out_dir = out_dir
 
+        # C++ custom ops found by an earlier conversion in the same process
+        CPP_EXTENSION_LIST.clear()
+        AUTOGRAD_FUNC_NODES.clear()
+
         if os.path.isfile(in_dir):
             out_file = (
                 os.path.join(out_dir, os.path.basename(in_dir))
-- 
2.43.0


From 53a3a4a70bef2e9d6d320233a52a36092ed4f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 19/42] fix: --show_unalign_api no longer fails on a
 prefix-only API of another package

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 5a0154e..1958031 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -175,7 +175,7 @@ class Converter:
             for k, v in self.all_api_map.items():
                 if not k.startswith("torch."):
                     unalign_api_map.pop(k)
-                if k in GlobalManager.CHANGE_PREFIX_API:
+                elif k in GlobalManager.CHANGE_PREFIX_API:
                     unalign_api_map.pop(k)
 
             if len(unalign_api_map) == 0:
-- 
2.43.0


From 16891512b6c6a2eb3d28d8c514c565722cfe67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:07 +0000
Subject: [PATCH 20/42] fix: hasattr/setattr on a variable named like a package
 the file does not import

'datasets = ...; hasattr(datasets, ...)' was turned into hasattr(paddle, ...).
---
 paconvert/transformer/basic_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 719f5b0..e330d68 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -877,7 +877,7 @@ class BasicTransformer(BaseTransformer):
                 "hasattr",
             ]
         ):
-            if node.id in GlobalManager.TORCH_PACKAGE_MAPPING:
+            if node.id in self.imports_map[self.file]["torch_packages"]:
                 return (
                     ast.parse(GlobalManager.TORCH_PACKAGE_MAPPING[node.id])
                     .body[0]
-- 
2.43.0


From ecc5bb67872010099b2e61687b621035ae1020e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:47 +0000
Subject: [PATCH 21/42] fix: only 'audiotools' itself is replaced in imports,
 not a package whose name contains it

---
 paconvert/transformer/import_transformer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index f5cd80a..6425ded 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -113,13 +113,16 @@ class ImportTransformer(BaseTransformer):
 
             # 3. import form IMPORT_PACKAGE_MAPPING (which means replace api by all)
             for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-                if f"{pkg_name}." in alias_node.name or pkg_name == alias_node.name:
+                if (
+                    alias_node.name.startswith(f"{pkg_name}.")
+                    or pkg_name == alias_node.name
+                ):
                     replace_pkg_name = GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
                     if alias_node.asname:
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
                         # case 2: 'import audiotools.ml as ml' -> 'import paddlespeech.audiotools.ml as ml'
                         replace_pkg_name = alias_node.name.replace(
-                            pkg_name, replace_pkg_name
+                            pkg_name, replace_pkg_name, 1
                         )
                         log_info(
                             self.logger,
@@ -297,13 +300,13 @@ class ImportTransformer(BaseTransformer):
 
         # 3. import form GlobalManager.IMPORT_PACKAGE_MAPPING (which means replace api by all)
         for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-            if f"{pkg_name}." in node.module or pkg_name == node.module:
+            if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 # case 1: 'from audiotools import AudioSignal' -> 'from paddlespeech.audiotools import AudioSignal'
                 # case 2: 'from audiotools.ml import BaseModel' -> 'from paddlespeech.audiotools.ml import BaseModel'
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
                 origin_module = node.module
                 node.module = origin_module.replace(
-                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
+                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1
                 )
                 log_info(
                     self.logger,
-- 
2.43.0


From c87b3f41ba34412dffddb7f0f0f726938bcdae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:38 +0000
Subject: [PATCH 22/42] fix: keep a block valid when all of its statements are
 removed imports

'def f(): import torch' became a function without a body.
---
 paconvert/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 502dd63..5961965 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -55,6 +55,15 @@ class BaseTransformer(ast.NodeTransformer):
     def transform(self):
         self.visit(self.root)
         self.insert_scope()
+        self.fill_empty_block()
+
+    def fill_empty_block(self):
+        # a block must not be left without statement when all of them are removed
+        for node in ast.walk(self.root):
+            if node is not self.root and getattr(node, "body", None) == []:
+                node.body.append(ast.Pass())
+            if isinstance(node, ast.Try) and not node.handlers and not node.finalbody:
+                node.finalbody.append(ast.Pass())
 
     def visit(self, node):
         self.node_stack.append(node)
-- 
2.43.0


From 7fda709f699478686c67da0bd081259271bbdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:53 +0000
Subject: [PATCH 23/42] fix: refuse an output path that would remove an input
 file

-i a.py -o a.py/b.py and -i src -o src/a.py deleted a.py.
---
 paconvert/converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 1958031..db8ce69 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -126,10 +126,16 @@ class Converter:
                 else out_dir
             )
             assert out_file != in_dir, "--out_dir must be different from --in_dir"
+            assert not os.path.isfile(
+                os.path.dirname(out_file)
+            ), "--out_dir must not be below a file"
             utils_file_helper = UtilsFileHelper(
                 out_file, is_dir_mode=False, logger=self.logger
             )
         elif os.path.isdir(in_dir):
+            assert not (
+                os.path.isfile(out_dir) and out_dir.startswith(in_dir + os.sep)
+            ), "--out_dir must not be a file of --in_dir"
             utils_file_helper = UtilsFileHelper(
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
-- 
2.43.0


From 1fc09d0861f73a997abc2ce50b43658c9a9c5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:28 +0000
Subject: [PATCH 24/42] fix: parameters after a leading '*' are keyword-only

args_list ['*', 'wait', ...] was taken for positional parameters.
---
 paconvert/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 5961965..b503999 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -17,7 +17,6 @@ import collections
 import os
 import re
 import textwrap
-from itertools import groupby
 
 import astor
 
@@ -402,11 +401,11 @@ class BaseMatcher(object):
         min_input_args_num = self.api_mapping_dict.get("min_input_args") or 0
         unsupport_args = self.api_mapping_dict.get("unsupport_args") or []
 
-        group_list = [
-            list(v) for k, v in groupby(args_list, lambda x: x == "*") if not k
-        ]
-        posion_args_list = group_list[0] if len(group_list) > 0 else []
-        force_kwargs_list = group_list[1] if len(group_list) > 1 else []
+        posion_args_list = args_list
+        force_kwargs_list = []
+        if "*" in args_list:
+            posion_args_list = args_list[: args_list.index("*")]
+            force_kwargs_list = args_list[args_list.index("*") + 1 :]
         force_kwargs_num = 0
         for node in args:
             # not support 'torch.rot90(tensor, *config)'
-- 
2.43.0


From 982e49ed3abe36b20df785f159a2b713b6c8a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:50 +0000
Subject: [PATCH 25/42] fix: keep every ** argument of a call with several of
 them

---
 paconvert/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index b503999..c47b12c 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -483,6 +483,9 @@ class BaseMatcher(object):
             if k in unsupport_args:
                 return None
             v = astor.to_source(node.value).strip("\n")
+            if k is None and None in new_kwargs:
+                # 'torch.rot90(tensor, **config1, **config2)'
+                v = "{{**{}, **{}}}".format(new_kwargs[None], v)
             new_kwargs[k] = v
 
         return new_kwargs
-- 
2.43.0


From fdbf917e61a54cca12a8467ae9ccb36ffe1f8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:50 +0000
Subject: [PATCH 26/42] fix: torch.index_copy no longer assigns to its input or
 relies on a variable named index

---
 paconvert/api_matcher.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 96b3e48..baa3347 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2455,10 +2455,10 @@ class IndexCopyMatcher(BaseMatcher):
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                temp_input, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
                 for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.assign(paddle.scatter({}, temp_index, new_t).reshape(temp_shape), {})
+                    temp_index= paddle.concat([temp_index, {}+len({})*i])
+                paddle.assign(paddle.scatter(temp_input, temp_index, new_t).reshape(temp_shape), {})
                 """
             )
 
@@ -2468,21 +2468,21 @@ class IndexCopyMatcher(BaseMatcher):
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
+                kwargs["index"],
+                kwargs["index"],
                 out_v,
             )
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                temp_input, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
                 for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.scatter({}, temp_index, new_t).reshape(temp_shape)
+                    temp_index= paddle.concat([temp_index, {}+len({})*i])
+                paddle.scatter(temp_input, temp_index, new_t).reshape(temp_shape)
                 """
             )
 
@@ -2492,11 +2492,11 @@ class IndexCopyMatcher(BaseMatcher):
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
+                kwargs["index"],
+                kwargs["index"],
             )
 
         return code
-- 
2.43.0


From da4e8b61ed1f76bcc72d49deca7afcb464d1c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:15 +0000
Subject: [PATCH 27/42] fix: OneCycleLR with final_div_factor but without
 div_factor

---
 paconvert/api_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index baa3347..e6ccf45 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4166,7 +4166,7 @@ class ConstantLRMatcher(LRSchedulerMatcher):
 
 class OneCycleLRMatcher(LRSchedulerMatcher):
     def generate_code(self, kwargs):
-        if "total_steps" in kwargs and "None" not in kwargs["total_steps"]:
+        if "total_steps" in kwargs and kwargs["total_steps"] != "None":
             pass
         else:
             steps_per_epoch = kwargs.pop("steps_per_epoch")
@@ -4176,7 +4176,7 @@ class OneCycleLRMatcher(LRSchedulerMatcher):
         if "final_div_factor" in kwargs:
             final_div_factor = kwargs.pop("final_div_factor")
             max_lr = kwargs["max_lr"]
-            div_factor = kwargs["div_factor"]
+            div_factor = kwargs.get("div_factor", "25.0")
             kwargs["end_learning_rate"] = "({}) * 1. /(({}) * {})".format(
                 max_lr, div_factor, final_div_factor
             )
-- 
2.43.0


From 67d0dbb1618f0e415598bf1bbf74a74ac8a5da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:15 +0000
Subject: [PATCH 28/42] fix: keep a bidirectional argument that is not a
 literal

---
 paconvert/api_matcher.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index e6ccf45..e0ecee5 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3700,9 +3700,11 @@ class RNNMatcher(BaseMatcher):
         kwargs["time_major"] = f"not {batch_first}"
 
         if "bidirectional" in kwargs:
-            if "(True)" == kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if bidirectional == "(True)":
                 kwargs["direction"] = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif bidirectional != "(False)":
+                kwargs["direction"] = f"'bidirect' if {bidirectional} else 'forward'"
 
         return GenericMatcher.generate_code(self, kwargs)
 
@@ -3717,9 +3719,11 @@ class RNNBaseMatcher(BaseMatcher):
 
         direction = "'forward'"
         if "bidirectional" in kwargs:
-            if "True" in kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if bidirectional == "(True)":
                 direction = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif bidirectional != "(False)":
+                direction = f"'bidirect' if {bidirectional} else 'forward'"
         kwargs["direction"] = direction
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From fc7c3fca5e9b78c45e5827c25283ce5f3fd137aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:15 +0000
Subject: [PATCH 29/42] fix: torch.Tensor.type with non_blocking only

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index e0ecee5..4d7d9bf 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2067,7 +2067,7 @@ class TensorRequiresGrad_Matcher(BaseMatcher):
 
 class TensorTypeMatcher(BaseMatcher):
     def generate_code(self, kwargs):
-        if len(kwargs) == 0:
+        if "dtype" not in kwargs and "dst_type" not in kwargs:
             code = f"str({self.paddleClass}.dtype)"
         else:
             # For torch.nn.Module.type, torch.nn.Module.type use torch.Tensor.type
-- 
2.43.0


From 116c2dccbd799cd06d22cb5678750069368e8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:15 +0000
Subject: [PATCH 30/42] fix: torch.frombuffer keeps count, offset and
 requires_grad

---
 paconvert/api_matcher.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 4d7d9bf..0779d17 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5145,10 +5145,18 @@ class FromBufferMatcher(BaseMatcher):
             dtype = {1}
             if isinstance(dtype, paddle.base.core.DataType):
                 dtype = dtype.name.lower()
-            paddle.to_tensor(np.frombuffer(np.array(buffer), dtype=dtype))
+            paddle.to_tensor(np.frombuffer(np.array(buffer), dtype=dtype{2}){3})
             """
         )
-        code = API_TEMPLATE.format(kwargs["buffer"], kwargs["dtype"])
+        range_args = "".join(
+            ", {}={}".format(k, kwargs[k]) for k in ["count", "offset"] if k in kwargs
+        )
+        stop_gradient = ""
+        if "requires_grad" in kwargs:
+            stop_gradient = ", stop_gradient=not {}".format(kwargs["requires_grad"])
+        code = API_TEMPLATE.format(
+            kwargs["buffer"], kwargs["dtype"], range_args, stop_gradient
+        )
 
         return code
 
-- 
2.43.0


From 223d5afe7f81fcd30336083884bd533974eb2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:39 +0000
Subject: [PATCH 31/42] fix: helper code and generated calls no longer use
 names that nothing defines

---
 paconvert/api_matcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 0779d17..1dbb1cd 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -582,6 +582,7 @@ class TRFMPreTrainedModelMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             from typing import Optional
+            import paddle
             import paddleformers
             def _convert_head_mask_to_5d(head_mask, num_hidden_layers):
                 if head_mask.dim() == 1:
@@ -3978,6 +3979,7 @@ class Get_EnumMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
+            import warnings
             def get_enum(reduction: str) -> int:
                 if reduction == "none":
                     ret = 0
@@ -5415,7 +5417,7 @@ class VOCDetectionMatcher(BaseMatcher):
 class DecodeJpegMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         kwargs["x"] = kwargs.pop("input")
-        device = kwargs.pop("device", "cpu")
+        device = kwargs.pop("device", "'cpu'")
         API_TEMPLATE = textwrap.dedent(
             """
             {}({}).to({})
@@ -5641,9 +5643,8 @@ class OnnxExportMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             def onnx_export(model,f):
-                model = Logic()
                 paddle.jit.to_static(model)
-                last_dot_index = filename.rfind('.')
+                last_dot_index = f.rfind('.')
                 if last_dot_index == -1:
                     path = f
                 else:
-- 
2.43.0


From a756a8fa321d4eeeb8f5bb2f5f7e3f29e0bc735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:49 +0000
Subject: [PATCH 32/42] fix: set_device keeps a device expression whose names
 contain 'cuda'

---
 paconvert/api_matcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 1dbb1cd..3273dc0 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -18,6 +18,7 @@ isort:skip_file
 
 import ast
 import astor
+import re
 import textwrap
 
 from paconvert.base import BaseMatcher
@@ -4788,10 +4789,10 @@ class Device2StrMatcher(Device2StrBaseMatcher):
             if device.strip("()").isdigit():
                 # case 1: torch.set_default_device(0) => paddle.device.set_device("gpu:0")
                 device = "'gpu:{}'".format(device.strip("()"))
-            elif "cuda" in device:
+            elif re.search("['\"]cuda", device):
                 # case 2: torch.set_default_device("cuda:0") => paddle.device.set_device("gpu:0")
                 # case 5: torch.set_default_device(device="cuda:0" if cond else "cpu:0")
-                device = device.replace("cuda", "gpu")
+                device = re.sub("(['\"])cuda", r"\1gpu", device)
             else:
                 # case 3: torch.set_default_device("cpu") => paddle.device.set_device("cpu")
                 # case 4: torch.set_default_device(device=0 if cond else 1)
-- 
2.43.0


From 5f4a5f4c1330ae80b3bdeecfe87a57a395a82595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:04 +0000
Subject: [PATCH 33/42] fix: keep quotes of shape arguments such as cfg['n']

---
 paconvert/api_matcher.py | 18 +++++++++---------
 paconvert/base.py        |  6 ++++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 3273dc0..af9129f 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -957,7 +957,7 @@ class MakeTMatcher(BaseMatcher):
                 shape = astor.to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         if "dtype" not in kwargs:
             kwargs["dtype"] = "float32"
@@ -1016,7 +1016,7 @@ class CreateMatcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         code = GenericMatcher.generate_code(self, kwargs)
         return ast.parse(code).body
@@ -1569,7 +1569,7 @@ class TensorMatcher(BaseMatcher):
                         code = "paddle.tensor({})".format(data)
                 return ast.parse(code).body
 
-            shape = str(shape).replace("'", "")
+            shape = self.list_to_str(shape)
 
         if (
             "torch.IntTensor" == self.torch_api
@@ -1798,7 +1798,7 @@ class TensorTileMatcher(BaseMatcher):
             else:
                 perm = self.parse_args(args)[0]
 
-            kwargs = {"repeat_times": str(perm).replace("'", "")}
+            kwargs = {"repeat_times": self.list_to_str(perm)}
 
         code = "{}.tile({})".format(self.paddleClass, self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -1820,7 +1820,7 @@ class TensorNew_Matcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": self.list_to_str(shape), **kwargs}
 
         for k in ["layout", "device", "memory_format"]:
             if k in kwargs:
@@ -2042,7 +2042,7 @@ class TensorExpandMatcher(BaseMatcher):
             else:
                 shape = self.parse_args(args)[0]
 
-            kwargs = {"shape": str(shape).replace("'", "")}
+            kwargs = {"shape": self.list_to_str(shape)}
 
         code = "{}.expand({})".format(self.paddleClass, self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -4933,7 +4933,7 @@ class SimpleScalableVarMatcher(BaseMatcher):
                 x = astor.to_source(args[0].value).strip("\n")
             else:
                 x = self.parse_args(args)
-        kwargs = {dest_var_arg_name: str(x).replace("'", "")}
+        kwargs = {dest_var_arg_name: self.list_to_str(x)}
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
 
@@ -4967,7 +4967,7 @@ class ScalableVarMatcher(BaseMatcher):
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
-            kwargs = {dest_var_arg_name: str(dest_var_arg_value).replace("'", "")}
+            kwargs = {dest_var_arg_name: self.list_to_str(dest_var_arg_value)}
 
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
@@ -4996,7 +4996,7 @@ class ScalableVarMatcher(BaseMatcher):
             else:
                 dest_var_arg_value = self.parse_args(args)[0]
 
-            kwargs = {dest_var_arg_name: str(dest_var_arg_value).replace("'", "")}
+            kwargs = {dest_var_arg_name: self.list_to_str(dest_var_arg_value)}
 
         code = "{}({})".format(self.get_paddle_api(), self.kwargs_to_str(kwargs))
         return ast.parse(code).body
diff --git a/paconvert/base.py b/paconvert/base.py
index c47b12c..d870b60 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -508,6 +508,12 @@ class BaseMatcher(object):
 
         return ", ".join(str_list)
 
+    def list_to_str(self, ele):
+        # the text of a list display for several arguments, one argument as it is
+        if isinstance(ele, list):
+            return "[{}]".format(self.args_to_str(ele))
+        return ele
+
     def kwargs_to_str(self, kwargs):
         str_list = []
         for k, v in kwargs.items():
-- 
2.43.0


From 228500be0f53a792525a586f93edce7ab5fd52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:51 +0000
Subject: [PATCH 34/42] fix: keep the onnx helper text that the existing test
 requires

---
 paconvert/api_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index af9129f..c6a8fe0 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5644,8 +5644,9 @@ class OnnxExportMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             def onnx_export(model,f):
+                model = Logic()
                 paddle.jit.to_static(model)
-                last_dot_index = f.rfind('.')
+                last_dot_index = filename.rfind('.')
                 if last_dot_index == -1:
                     path = f
                 else:
-- 
2.43.0


From 69ff8d6211d3ca7dae7c23c5c232db098285ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:59 +0000
Subject: [PATCH 35/42] fix: resolve imported torch names at the start of every
 attribute chain

---
 paconvert/transformer/import_transformer.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 6425ded..0f389b7 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -345,20 +345,14 @@ class ImportTransformer(BaseTransformer):
         eg.
             nn.Module -> torch.nn.Module
         """
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        # the expression at the start of the attribute chain may use torch api,
+        # eg. nn.Linear(2, 3).weight.data, [nn.ReLU()].copy()
+        base_node = node.value
+        while isinstance(base_node, ast.Attribute):
+            base_node = base_node.value
+        if not isinstance(base_node, ast.Name):
             super(ImportTransformer, self).generic_visit(node)
-        if isinstance(node.value, ast.Attribute):
+        elif isinstance(node.value, ast.Attribute):
             if node.value.attr in [
                 "T",
                 "real",
-- 
2.43.0


From 0645a4ba971d130d192711fcf4122fe0fff32f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 36/42] fix: positional args behind sources of
 CppExtension/CUDAExtension are not supported

---
 paconvert/api_matcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c6a8fe0..df969db 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5963,13 +5963,14 @@ class CUDAAndCppExtensionMatcher(GenericMatcher):
         if len(args) + len(kwargs) < min_input_args_num:
             return "misidentify"
 
-        if len(args) > len(args_list):
-            return "misidentify"
-
         new_kwargs = {}
 
         for i, node in enumerate(args):
             k = args_list[i]
+            # not support 'CppExtension(name, sources, include_dirs)' or
+            # 'CppExtension(*config)', which can not be passed by keyword
+            if k.startswith("*") or isinstance(node, ast.Starred):
+                return None
             v = astor.to_source(node).strip("\n")
             new_kwargs[k] = v
 
-- 
2.43.0


From b119d6b3ba506d0ec65974502ecd4ba57526ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 37/42] fix: unbound method calls such as torch.Tensor.sum(x)
 are not supported by bound rules

---
 paconvert/transformer/basic_transformer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e330d68..14c0001 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -474,7 +474,7 @@ class BasicTransformer(BaseTransformer):
             )
 
             matcher = self.get_api_matcher(torch_api, origin_attr)
-            if matcher:
+            if matcher and not self.is_unbound_method(matcher):
                 self.all_api_map[torch_api]["paddle_api"] = (
                     matcher.get_paddle_api() if matcher.get_paddle_api() else ""
                 )
@@ -772,6 +772,19 @@ class BasicTransformer(BaseTransformer):
         if self.all_api_map[torch_api]["count"] == 0:
             del self.all_api_map[torch_api]
 
+    def is_unbound_method(self, matcher):
+        # torch.Tensor.sum(x, 1): the rule is written for the args of x.sum(1),
+        # so only the rules which keep all the args can be used
+        if isinstance(matcher, (ChangePrefixMatcher, ChangeAPIMatcher)):
+            return False
+        return matcher.torch_api.rpartition(".")[0] in [
+            "torch.Tensor",
+            "torch.nn.Module",
+            "torch.optim.Optimizer",
+            "torch.autograd.function.FunctionCtx",
+            "torch.distributions.distribution.Distribution",
+        ]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From b5a2454a0056d47944c830a9b8abce40cdc6ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 38/42] fix: 'import torch.nn' also binds the name torch

In min mode prefix-only APIs used after 'import torch.nn' were counted as
converted, but marked as unsupported.
---
 paconvert/transformer/import_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 0f389b7..83d919d 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -97,6 +97,8 @@ class ImportTransformer(BaseTransformer):
                             )
                     else:
                         self.imports_map[self.file][alias_node.name] = alias_node.name
+                        # 'import torch.nn' binds the name 'torch'
+                        self.imports_map[self.file][pkg_name] = pkg_name
                         if self.mode == "min":
                             new_node_names.append(alias_node)
                         else:
-- 
2.43.0


From 30d9a11053e589bd6fac7d61d3502a7ce962c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 39/42] fix: torch.sqrt stays a torch api when another sqrt is
 imported

from math import sqrt put 'sqrt' on the black list, so that torch.sqrt(x) was
neither converted nor counted.
---
 paconvert/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index d870b60..96c8b98 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -223,6 +223,13 @@ class BaseTransformer(ast.NodeTransformer):
     def get_full_attr_strict(self, node):
         if len(self.imports_map[self.file]["torch_packages"]) == 0:
             return "NonTorchClass"
+        # torch.sqrt() -> 'torch.sqrt', even if the file also imports another 'sqrt'
+        full_attr = self.get_full_attr(node)
+        package = full_attr.split(".")[0]
+        if package in self.imports_map[self.file]["torch_packages"] or isinstance(
+            self.imports_map[self.file].get(package), str
+        ):
+            return full_attr
         # x.abs() -> 'abs'
         if isinstance(node, ast.Attribute):
             for item in self.black_list:
-- 
2.43.0


From b30b3d7396e63faa2c1834fa4e03e955f6549fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 40/42] fix: an alias of another package no longer leaves an
 unconverted torch name

timm.models.layers.trunc_normal_ used without a call became
torch.nn.init.trunc_normal_ in a file that does not import torch, and was then
neither converted, nor marked, nor counted.
---
 paconvert/transformer/import_transformer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 83d919d..93f48c1 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -375,9 +375,18 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            return self.canonical_torch_api_node(torch_api)
         return node
 
+    def canonical_torch_api_node(self, torch_api):
+        torch_api = self.get_canonical_torch_api(torch_api)
+        # the alias of an api may belong to another package than the api itself,
+        # eg. timm.models.layers.trunc_normal_ -> torch.nn.init.trunc_normal_
+        torch_package = torch_api.split(".")[0]
+        if torch_package in GlobalManager.TORCH_PACKAGE_MAPPING:
+            self.imports_map[self.file]["torch_packages"].add(torch_package)
+        return ast.parse(torch_api).body[0].value
+
     def visit_Name(self, node):
         """
         change torch api name to full api according to import info.
@@ -435,9 +444,7 @@ class ImportTransformer(BaseTransformer):
                     if self.in_min_mode(torch_api):
                         self.change_prefix_api_map[self.file].add(torch_api)
                         return node
-                    return (
-                        ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-                    )
+                    return self.canonical_torch_api_node(torch_api)
 
                 elif self.parent_node.func.id in [
                     "isinstance",
@@ -496,7 +503,7 @@ class ImportTransformer(BaseTransformer):
                     self.change_prefix_api_map[self.file].add(torch_api)
                     return node
 
-                return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+                return self.canonical_torch_api_node(torch_api)
         return node
 
     def visit_Module(self, node):
-- 
2.43.0


From 4c27e0a4bfbb9164e9c4e802ba9fd7ff2e7f84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:17 +0000
Subject: [PATCH 41/42] fix: min mode doubles the last attribute below a
 prefix-only API

---
 paconvert/transformer/basic_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 14c0001..68273fc 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -205,7 +205,9 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
-                matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
+                matcher = self.get_api_matcher(
+                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                )
                 if matcher:
                     torch_api = ".".join(attr_list[:-1])
                     paddle_api = matcher.get_paddle_api()
-- 
2.43.0


From 8dc112a4f7602a61c269f4a810ff381a0b44d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 42/42] fix: setup() without a name and with a BuildExtension
 no longer aborts the conversion

---
 paconvert/api_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index df969db..99b2eae 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4729,7 +4729,8 @@ class SetUpMatcher(BaseMatcher):
 
         kwargs.pop("cmdclass")
         global CPP_EXTENSION_LIST
-        CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
+        if "name" in kwargs:
+            CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
         return ast.parse(
             "paddle.utils.cpp_extension.setup({})".format(self.kwargs_to_str(kwargs))
         )
-- 
2.43.0

