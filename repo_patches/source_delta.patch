From eee4a29eedce9c168160f0740283c6bde5102329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 01/85] fix: unparse an ast.Expression (its body is a single
 expression, not a list)

---
 mcpyrate/unparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..f769599 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,10 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)  # `list` of statements; in an `Expression`, a single expression
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 6f820f6f940e6b332a5ecfa317c9f6814062d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 02/85] fix: unparse dictionary unpacking inside a dict display

---
 mcpyrate/unparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index f769599..bccc901 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -731,6 +731,10 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
+            if k is None:  # dictionary unpacking, `{**d}`
+                self.write("**")
+                self.dispatch(v)
+                return
             self.dispatch(k)
             self.write(": ")
             self.dispatch(v)
-- 
2.43.0


From 7769f3dabf0ec51f3efa642b2e77e75943627ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 03/85] fix: keep the parentheses when unparsing a subscript by
 an empty tuple

---
 mcpyrate/unparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index bccc901..43f7009 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -885,7 +885,8 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        # (The empty tuple is an exception: `a[()]` needs its parentheses.)
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From 9c302f75a5dd84b02c31b8fcf670f46229886dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 04/85] fix: unparse the type parameters of generic functions
 and classes (Python 3.12)

---
 mcpyrate/unparser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 43f7009..d552436 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -487,6 +487,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -531,8 +532,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1147,12 +1150,15 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
+        self.__type_params_helper(t)
+        self.write(" = ")
+        self.dispatch(t.value)
+
+    def __type_params_helper(self, t):  # generic type alias, function or class
+        if getattr(t, "type_params", None):  # macro-generated nodes might not have it
             self.write("[")
             interleave(lambda: self.write(", "), self.dispatch, t.type_params)
             self.write("]")
-        self.write(" = ")
-        self.dispatch(t.value)
 
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
-- 
2.43.0


From 675c5a3cf13e97b11640e3496a60b84750fa8f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 05/85] fix: unparse a with statement whose only context
 manager is a tuple

---
 mcpyrate/unparser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index d552436..590e55b 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -603,7 +603,7 @@ class Unparser:
 
     def _With(self, t):
         self.fill(self.maybe_colorize_python_keyword("with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__with_helper(t)
         self.enter()
         self.dispatch(t.body)
         self.leave()
@@ -611,7 +611,7 @@ class Unparser:
 
     def _AsyncWith(self, t):
         self.fill(self.maybe_colorize_python_keyword("async with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__with_helper(t)
         self.enter()
         self.dispatch(t.body)
         self.leave()
@@ -1031,6 +1031,17 @@ class Unparser:
         if t.asname:
             self.write(self.maybe_colorize_python_keyword(" as ") + t.asname)
 
+    def __with_helper(self, t):
+        # A tuple as the only context manager needs extra parentheses,
+        # because `with (a, b):` has two context managers.
+        only_a_tuple = (len(t.items) == 1 and not t.items[0].optional_vars and
+                        type(t.items[0].context_expr) is ast.Tuple)
+        if only_a_tuple:
+            self.write("(")
+        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        if only_a_tuple:
+            self.write(")")
+
     def _withitem(self, t):
         self.dispatch(t.context_expr)
         if t.optional_vars:
-- 
2.43.0


From f02d63eff51ef5afa87f76130790530e6309c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 06/85] fix: unparse negative and complex number literals in
 match patterns

---
 mcpyrate/unparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 590e55b..58e963a 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1082,7 +1082,19 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__match_literal_helper(t.value)
+
+    def __match_literal_helper(self, t):
+        # A negative or complex number literal must not have parentheses in a pattern.
+        if type(t) is ast.UnaryOp:
+            self.write(self.unop[t.op.__class__.__name__])
+            self.dispatch(t.operand)
+        elif type(t) is ast.BinOp:
+            self.__match_literal_helper(t.left)
+            self.write(" " + self.binop[t.op.__class__.__name__] + " ")
+            self.dispatch(t.right)
+        else:
+            self.dispatch(t)
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1103,7 +1115,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__match_literal_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
-- 
2.43.0


From 51a87c77fc94534a3e4f9b298159787700b321a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 07/85] fix: parenthesize nested as-patterns and or-patterns
 when unparsing

---
 mcpyrate/unparser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 58e963a..6cec550 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1152,16 +1152,21 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
-                    self.write("(")
-                self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
-                    self.write(")")
+                self.__match_closed_helper(t.pattern)
                 self.write(" as ")
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        interleave(lambda: self.write(" | "), self.__match_closed_helper, t.patterns)
+
+    def __match_closed_helper(self, t):
+        # An as-pattern or or-pattern needs parentheses when it is an operand of `as` or `|`.
+        parenthesize = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)
+        if parenthesize:
+            self.write("(")
+        self.dispatch(t)
+        if parenthesize:
+            self.write(")")
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From ef418680cf02fcef62605da4ac5cb09e26ff5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 08/85] fix: escape literal text when unparsing f-strings
 (braces, backslashes, control characters)

---
 mcpyrate/unparser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 6cec550..7d06e74 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -848,7 +848,16 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
-        self.dispatch(t.value)
+        # If the expression itself begins with a brace, it must be separated from ours, because `{{` is an escape.
+        output, self.f = self.f, io.StringIO()
+        try:
+            self.dispatch(t.value)
+            value = self.f.getvalue()
+        finally:
+            self.f = output
+        if value.startswith("{"):
+            self.write(" ")
+        self.write(value)
         if t.conversion == 115:
             self.write(c("!s"))
         elif t.conversion == 114:
@@ -861,7 +870,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -869,9 +878,13 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, *, format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            # Adding a double quote forces `repr` to use single quotes as the delimiter, and to escape any in `s`.
+            s = repr('"' + s)[2:-1]
+            if format_spec:  # doubling the braces has no effect here
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From c6da2252f841ef27d5f6128eebd66af80ad269d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:05 +0000
Subject: [PATCH 09/85] fix: getdocstring returns only strings (not a leading
 number, bytes or ... constant)

---
 mcpyrate/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..69a6905 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,9 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            if isinstance(docstring_node.value, str):  # not bytes, numbers, `...`, etc.
+                return docstring_node.value
+            return None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From fe844ac4886cf82b6ab46b644f1ec7ee6a0d5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:46 +0000
Subject: [PATCH 10/85] fix: split_futureimports when everything is a
 future-import, or the docstring is empty

---
 mcpyrate/coreutils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..5510e62 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,19 +266,16 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:  # note an empty string is a docstring, too
         docstring, *body = body
         docstring = [docstring]
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From 1cceacb571ce0314c98677a336a8583a3a6e7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 11/85] fix: honor the optimization level when the import hook
 compiles a module (py_compile, compileall)

---
 mcpyrate/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..2c860d7 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -24,7 +24,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
-- 
2.43.0


From 755936d7395ab09e069d5183f6fc25ef841b57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 12/85] fix: expand decorator macros on async function
 definitions, too

---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..e2ee64c 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        return self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -479,6 +482,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From db9605f51f0925c322fa0fb9eb42e986c7bf2d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 13/85] fix: pass args=[] to identifier macros, as documented
 (was None)

---
 mcpyrate/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index e2ee64c..330d50e 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -376,7 +376,7 @@ class MacroExpander(BaseMacroExpander):
             def ismodified(tree):
                 return not (type(tree) is Name and tree.id == macroname)
             with self._recursive_mode(False):
-                kw = {"args": None}
+                kw = {"args": []}
                 sourcecode = unparse_with_fallbacks(name, debug=True, color=True, expander=self)
                 new_tree = self.expand("name", name, macroname, name, sourcecode=sourcecode, kw=kw)
             if new_tree is None:
-- 
2.43.0


From 12a58d1bec8e415d6d9f7ab679fed7167d602a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 14/85] fix: correct ctx when the same expression node instance
 appears in several positions

---
 mcpyrate/astfixers.py | 49 +++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..8720a26 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -4,22 +4,36 @@
 __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
-                 Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 Delete, For, Load, Store, Subscript, comprehension, expr,
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
 from . import walkers
 
-class _CtxFixer(walkers.ASTTransformer):
-    def __init__(self, *, copy_seen_nodes):
-        super().__init__(ctxclass=Load)
-        self.copy_seen_nodes = copy_seen_nodes
-
+class _Unsharer(walkers.ASTTransformer):
+    """Make each appearance of an expression node in the tree a separate node instance."""
     def reset(self, **bindings):
         super().reset(**bindings)
         self._seen = set()
 
+    def transform(self, tree):
+        if isinstance(tree, expr):
+            # Shallow-copy `tree` if already seen. Copy also its lists of
+            # child nodes, because they are edited in-place.
+            if id(tree) in self._seen:
+                tree = copy(tree)
+                for fieldname, value in iter_fields(tree):
+                    if isinstance(value, list):
+                        setattr(tree, fieldname, value[:])
+            self._seen.add(id(tree))
+        return self.generic_visit(tree)
+
+
+class _CtxFixer(walkers.ASTTransformer):
+    def __init__(self):
+        super().__init__(ctxclass=Load)
+
     def transform(self, tree):
         tree = self._fix_one(tree)
         self._setup_subtree_contexts(tree)
@@ -28,14 +42,7 @@ class _CtxFixer(walkers.ASTTransformer):
     def _fix_one(self, tree):
         """Fix one `ctx` attribute, using the currently active ctx class."""
         if "ctx" in type(tree)._fields:
-            if self.copy_seen_nodes:
-                # Shallow-copy `tree` if already seen. This mode is used in the
-                # global postprocess pass. Note only nodes whose `ctx` we have
-                # already updated are considered seen.
-                if id(tree) in self._seen:
-                    tree = copy(tree)
             tree.ctx = self.state.ctxclass()
-            self._seen.add(id(tree))
         return tree
 
     def _setup_subtree_contexts(self, tree):
@@ -93,15 +100,17 @@ class _CtxFixer(walkers.ASTTransformer):
 def fix_ctx(tree, *, copy_seen_nodes):
     """Fix `ctx` attributes in `tree`.
 
-    If `copy_seen_nodes=True`, then, if the same AST node instance appears
-    multiple times, and the node requires a `ctx`, shallow-copy it the second
-    and further times it is encountered. This prevents problems if the same
-    node instance has been spliced into two or more positions that require
-    different `ctx`.
+    If `copy_seen_nodes=True`, then, if the same expression AST node instance
+    appears multiple times, shallow-copy it the second and further times it is
+    encountered. This prevents problems if the same node instance has been
+    spliced into two or more positions that require different `ctx`.
+    This mode is used in the global postprocess pass.
 
     Modifies `tree` in-place. For convenience, returns the modified `tree`.
     """
-    return _CtxFixer(copy_seen_nodes=copy_seen_nodes).visit(tree)
+    if copy_seen_nodes:
+        tree = _Unsharer().visit(tree)
+    return _CtxFixer().visit(tree)
 
 
 def fix_locations(tree, reference_node, *, mode):
-- 
2.43.0


From e47dd6be5fa861438bfaff0c648a662acab61001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 15/85] fix: fill in missing end positions of nodes that have a
 start position

---
 mcpyrate/astfixers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 8720a26..8075490 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -188,6 +188,11 @@ def fix_locations(tree, reference_node, *, mode):
                 elif mode == "update":
                     col_offset = tree.col_offset
                     end_col_offset = tree.end_col_offset if hasattr(tree, "end_col_offset") else None
+        # `match` patterns and type parameters require also the end position.
+        if "end_lineno" in tree._attributes and (getattr(tree, "end_lineno", None) is None or
+                                                 getattr(tree, "end_col_offset", None) is None):
+            tree.end_lineno = tree.lineno
+            tree.end_col_offset = tree.col_offset
         for child in iter_child_nodes(tree):
             _fix(child, lineno, col_offset, end_lineno, end_col_offset)
     _fix(tree,
-- 
2.43.0


From eb5a0f17175d803e0e7a7e7ab86448ed6004d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 16/85] fix: do not leave an empty suite when a macro deletes
 code that has no source location yet

---
 mcpyrate/expander.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 330d50e..01ae269 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -53,7 +53,7 @@ __all__ = ["namemacro", "isnamemacro",
 
 import sys
 from ast import (AST, Assign, Call, Starred, Constant, Import, Lambda, Name,
-                 NodeVisitor, Store, Subscript, Tuple, alias, arguments,
+                 NodeVisitor, Pass, Store, Subscript, Tuple, alias, arguments,
                  copy_location, iter_fields)
 from copy import copy
 from warnings import warn_explicit
@@ -265,7 +265,7 @@ class MacroExpander(BaseMacroExpander):
         tree = withstmt.body if not withstmt.items else [withstmt]
         new_tree = self.expand("block", original_withstmt, macroname, tree, sourcecode=sourcecode, kw=kw)
         new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)
-        return new_tree
+        return new_tree or Pass()  # a suite cannot be empty
 
     def visit_ClassDef(self, classdef):
         return self._visit_Decorated(classdef)
@@ -320,7 +320,7 @@ class MacroExpander(BaseMacroExpander):
         kw = {"args": macroargs}
         new_tree = self.expand("decorator", original_decorated, macroname, decorated, sourcecode=sourcecode, kw=kw)
         new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)
-        return new_tree
+        return new_tree or Pass()  # a suite cannot be empty
 
     def _detect_macro_items(self, items, syntax):
         """Split a list `items` into `(macros, others)`.
-- 
2.43.0


From a013d698db4d31f528ae10d6533e7dc1dd8d745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 17/85] fix: make hasattr, getattr, copy.copy and pickle work
 on Bunch

---
 mcpyrate/bunch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..a13c58e 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -25,6 +25,7 @@ class Bunch:
     def copy(self):
         """Return a copy of this `Bunch`."""
         return Bunch(**{k: v for k, v in self._data.items()})
+    __copy__ = copy
     def replace(self, other):
         """Replace all data in this `Bunch` with data from the `other` one (shallow-copying it)."""
         if not isinstance(other, Bunch):
@@ -32,7 +33,10 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
-        return self._data[name]
+        # `_data` itself may be missing while an instance is being copied or unpickled.
+        if name not in ("_data", "_reserved_names") and name in self._data:
+            return self._data[name]
+        raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
             return super().__setattr__(name, value)
@@ -40,6 +44,8 @@ class Bunch:
             raise AttributeError(f"Cannot write to reserved attribute '{name}'")
         self._data[name] = value
     def __delattr__(self, name):
+        if name not in self._data:
+            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")
         del self._data[name]
 
     # Container, Iterable, Sized
-- 
2.43.0


From 21d167699ddfe6b9eb076fa992c095fc59136065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 18/85] fix: accept a mapping in Bunch.update, and the key self

---
 mcpyrate/bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index a13c58e..cce5d8e 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -17,7 +17,7 @@ class Bunch:
         assert b.cat == "meow"
         assert b.dog == "woof"
     """
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         self._data = bindings
         self._reserved_names = []
         self._reserved_names = dir(self)
@@ -83,8 +83,8 @@ class Bunch:
         return self._data.popitem()
     def clear(self):
         return self._data.clear()
-    def update(self, **bindings):
-        self._data.update(**bindings)
+    def update(self, other=(), /, **bindings):
+        self._data.update(other, **bindings)
     def setdefault(self, name, *default):
         return self._data.setdefault(name, *default)
 
-- 
2.43.0


From df3e44e04742d86b7d78f5b32cfd63dfe55cc794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 19/85] fix: a relative import of a module named __future__ is
 not a future-import

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 5510e62..65d131c 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -256,7 +256,7 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
 
 def isfutureimport(tree):
     """Return whether `tree` is a `from __future__ import ...`."""
-    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__"
+    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__" and not getattr(tree, "level", 0)
 
 def split_futureimports(body):
     """Split `body` into `__future__` imports and everything else.
-- 
2.43.0


From d7ade7af352eeea45f2d81a00cce5e16b6856dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 20/85] fix: match sys.path entries by whole path components,
 deepest first

---
 mcpyrate/coreutils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 65d131c..bf2a86b 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -58,14 +58,15 @@ def match_syspath(filename):
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
     absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_parts = pathlib.Path(absolute_filename).parts
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    # Compare whole path components, so that `/some/dir` does not match `/some/dir2/file.py`.
+    def sortkey(p):
+        return -len(p.parts), str(p)
+    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):
+        if absolute_parts[:len(root_path.parts)] == root_path.parts:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From b637151ed1a34a55cdee087bc1d1601924b76ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 21/85] fix: rename names also in mapping and class patterns
 and type parameters

---
 mcpyrate/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 69a6905..e080e4b 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,8 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import (MatchAs, MatchClass, MatchMapping, MatchStar,
+                        ParamSpec, TypeVar, TypeVarTuple)
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,7 +143,15 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:
+                tree.kwd_attrs = [newname if name == oldname else name for name in tree.kwd_attrs]
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             return self.generic_visit(tree)
     return Renamer().visit(tree)
 
-- 
2.43.0


From 69a147c0576329e749c14a1e204b3e8f29cff81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 22/85] fix: withstate takes effect also when the new state is
 empty

---
 mcpyrate/walkers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..af24eac 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -137,8 +137,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +147,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +178,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +190,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From 7e9d832519d9f7b5f010d18295d422e4a7abef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 23/85] fix: a pending walker state can no longer apply to a
 later node that reuses the same id

---
 mcpyrate/walkers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index af24eac..c23c6b1 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -89,9 +89,9 @@ class BaseASTWalker:
         # suite, do it for each statement in it.
         if isinstance(tree, list):
             for elt in tree:
-                self._subtree_overrides[id(elt)] = newstate
+                self._subtree_overrides[id(elt)] = (elt, newstate)  # keep `elt` alive, so its `id` stays unique
         else:
-            self._subtree_overrides[id(tree)] = newstate
+            self._subtree_overrides[id(tree)] = (tree, newstate)
 
     def generic_withstate(self, tree, **bindings):
         """Like `withstate`, but set up the new state for all children of `tree`.
@@ -118,7 +118,7 @@ class BaseASTWalker:
         newstate.update(**bindings)
 
         for node in iter_child_nodes(tree):
-            self._subtree_overrides[id(node)] = newstate
+            self._subtree_overrides[id(node)] = (node, newstate)
 
     def collect(self, value):
         """Collect a value. The values are placed in the list `self.collected`."""
@@ -137,7 +137,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), None)
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
         if newstate is not None:
             self._stack.append(newstate)
         try:
@@ -178,7 +178,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), None)
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
         if newstate is not None:
             self._stack.append(newstate)
         try:
-- 
2.43.0


From e7d84b7ed087f00ef1f8f7c3f0f8d443b2124b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 24/85] fix: splice_statements spliced the template into itself
 when it was a single AST node

---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..691c93c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From d788f9adff49c11f95f0894579c81984794b788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 25/85] fix: splice_dialect made an invalid module when both
 the code and the template have a docstring

---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 691c93c..95ed8c6 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -268,7 +268,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         new_doc = user_doc + sep + template_doc
         new_docstring = ast.copy_location(ast.Constant(value=new_doc),
                                           user_docstring[0])
-        docstring = [new_docstring]
+        docstring = [ast.copy_location(ast.Expr(value=new_docstring),
+                                       user_docstring[0])]
     else:
         docstring = user_docstring or template_docstring
 
-- 
2.43.0


From 64edc20ca7e83bef8afc2f0d8101899c555a583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 26/85] fix: splice_dialect failed, or left an empty suite,
 when a suite had nothing but imports

---
 mcpyrate/splicing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 95ed8c6..5d5c37e 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -300,7 +300,12 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
                 if ismacroimport(tree, magicname):
                     self.collect(tree)
                     return None
-                return self.generic_visit(tree)
+                suites = [name for name in ("body", "finalbody") if isinstance(getattr(tree, name, None), list) and getattr(tree, name)]
+                tree = self.generic_visit(tree)
+                for name in suites:
+                    if not getattr(tree, name):  # a suite cannot be empty
+                        setattr(tree, name, [ast.copy_location(ast.Pass(), tree)])
+                return tree
         w = MacroImportExtractor()
         w.visit(tree)
         return tree, w.collected
@@ -309,6 +314,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     body, user_dialect_imports = extract_macroimports(body, magicname="dialects")
     body, user_macro_imports = extract_macroimports(body)
 
+    if not body:  # nothing left except the parts that go to the beginning of the module
+        body = [ast.copy_location(ast.Pass(), srcloc_dummynode)]
     finalbody = splice_statements(body, template, tag)
     return (docstring +
             futureimports +
-- 
2.43.0


From 791ba0d3f542192dd3df5bd1adab10c2bfeb61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:01 +0000
Subject: [PATCH 27/85] fix: the pass that fills an emptied suite of a dialect
 template has a source location also in a match case

---
 mcpyrate/splicing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 5d5c37e..772d720 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -300,11 +300,11 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
                 if ismacroimport(tree, magicname):
                     self.collect(tree)
                     return None
-                suites = [name for name in ("body", "finalbody") if isinstance(getattr(tree, name, None), list) and getattr(tree, name)]
+                suites = [(name, getattr(tree, name)[0]) for name in ("body", "finalbody") if isinstance(getattr(tree, name, None), list) and getattr(tree, name)]
                 tree = self.generic_visit(tree)
-                for name in suites:
+                for name, firststmt in suites:
                     if not getattr(tree, name):  # a suite cannot be empty
-                        setattr(tree, name, [ast.copy_location(ast.Pass(), tree)])
+                        setattr(tree, name, [ast.copy_location(ast.Pass(), firststmt)])
                 return tree
         w = MacroImportExtractor()
         w.visit(tree)
-- 
2.43.0


From 272b8cb547eca41c5989db4c1c7a86f4330913eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:23 +0000
Subject: [PATCH 28/85] fix: splice_dialect made an invalid module when both
 the code and the template have future-imports

---
 mcpyrate/splicing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 772d720..89eb79c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -273,6 +273,10 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     else:
         docstring = user_docstring or template_docstring
 
+    # Python requires the line numbers of the future-imports to be in order (the last one has
+    # the largest), but the dialect-import comes after the user's future-imports.
+    if user_futureimports:
+        fix_locations(template_futureimports, user_futureimports[0], mode="overwrite")
     futureimports = template_futureimports + user_futureimports
 
     def extract_magic_all(tree):
-- 
2.43.0


From f50a908f6ae91ff94fe68d8fb5b784bf8f88cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 29/85] fix: quote and lift complex numbers

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..0c3bec7 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -714,7 +714,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From 7fbd90e890b7f6bdaa01df2259cc8864d6d3137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 30/85] fix: lift the empty set

---
 mcpyrate/quotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 0c3bec7..40f5d8d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -725,6 +725,8 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
             return ast.Dict(keys=list(recurse(k) for k in x.keys()),
                             values=list(recurse(v) for v in x.values()))
         elif T is set:
+            if not x:  # Python has no literal for the empty set, but `{*()}` evaluates to one.
+                return ast.Set(elts=[ast.Starred(value=ast.Tuple(elts=[]))])
             return ast.Set(elts=list(recurse(elt) for elt in x))
 
         # We must support at least the `Done` AST marker, so that things like
@@ -842,6 +844,8 @@ def unastify(tree):
     elif T is ast.Dict:
         return {unastify(k): unastify(v) for k, v in zip(tree.keys, tree.values)}
     elif T is ast.Set:
+        if len(tree.elts) == 1 and type(tree.elts[0]) is ast.Starred:  # `{*()}`, see `astify`
+            return set(unastify(tree.elts[0].value))
         return {unastify(elt) for elt in tree.elts}
 
     elif T is ast.Call:
-- 
2.43.0


From d5652a8660f65173b8fbb11a9a434352f2805a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 31/85] fix: splice lists of AST nodes at any place in quoted
 code, and allow None and bare strings in lists

---
 mcpyrate/quotes.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 40f5d8d..3a1624f 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -223,16 +223,13 @@ def splice_ast_literals(tree, filename):
                     doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
-                    doit(value)
-        else:
-            raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
+                doit(value)
+        # Else a bare value (or `None`) in a field, or in a `list` in a field. For example, `Global`
+        # and `Nonlocal` have a `list` of bare strings, and `Dict` may have `None` as a key.
+    if not isinstance(tree, (list, ast.AST)):
+        raise TypeError(f"Expected `list` or AST node, got {type(tree)} with value {repr(tree)}")
     doit(tree)
 
     try:
-- 
2.43.0


From 2a7823607d4a5458b499c9d2c17bdcb890cf716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 32/85] fix: a hygienic capture could look up the value of an
 earlier, already deleted capture of the same name

---
 mcpyrate/quotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 3a1624f..2c30768 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -332,8 +332,10 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep also `frozen_value` alive, so that no other capture can get the same `id`.
+        _lookup_cache[cachekey] = (pickle.loads(frozen_value), frozen_value)
+    value, _ignored_frozen_value = _lookup_cache[cachekey]
+    return value
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From de82bda3ae3bf76a96e6002295b2bd7337018bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:00 +0000
Subject: [PATCH 33/85] fix: the dialect-import scanner could run past the end
 of the line, so a following dialect's source transformer was skipped, and
 non-Python code after a dialect-import failed to parse

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..bfed4c0 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from[ \t]+([.\w]+)[ \t]+import dialects,[ \t]+([^(\\\n]+?)[ \t\r]*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 65d944b4b422f67f138ad85574dd265cbbf5d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 34/85] fix: `sys.modules` was not restored when a multi-phase
 compilation failed

---
 mcpyrate/multiphase.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..846f1d9 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -346,10 +346,6 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
     Return value is the final phase-0 `tree`, after macro expansion.
     """
-    n = detect_highest_phase(tree, filename=filename)
-    debug = isdebug(tree)
-    c, CS = setcolor, ColorScheme
-
     # If this module is already in `sys.modules` (e.g. created by Python's
     # import system as a blank module instance, to be filled in by an exec
     # after compilation is done), record the original module object, so we
@@ -359,6 +355,23 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     else:
         original_module = None
 
+    try:
+        return _multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander, _optimize=_optimize)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
+
+def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
+    n = detect_highest_phase(tree, filename=filename)
+    debug = isdebug(tree)
+    c, CS = setcolor, ColorScheme
+
     if debug:
         print(f"{c(CS.HEADING1)}**Multi-phase compiling module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
@@ -402,13 +415,4 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module)
 
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
     return expansion
-- 
2.43.0


From de01fb76eabab17689fd1607f858ba432939ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 35/85] fix: the optimization level was not applied to the
 higher phases of a multi-phase compilation

---
 mcpyrate/multiphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 846f1d9..5a69113 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -413,6 +413,6 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
+            compiler.run(phase_k_tree, module, optimize=_optimize)
 
     return expansion
-- 
2.43.0


From 7e91060f05a05a7b1f6cf419189bb313f6fc73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 36/85] fix: mutable state leaked from one phase of a
 multi-phase compilation to the next

---
 mcpyrate/multiphase.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 5a69113..8c6c117 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -382,10 +382,10 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
     # phase-0, fully compiled) version of this one, the reference won't be clobbered with one
     # pointing to the temporary module.
     #
-    # We must inject the temporary module only once, to keep the already compiled higher-phase
-    # stuff available in the module's namespace while the next phase is being compiled.
+    # The temporary module of a phase stays there while the next phase is being compiled, to keep
+    # the already compiled higher-phase stuff available in the module's namespace.
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
-    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
     for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
@@ -410,9 +410,11 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
                 expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
                 break
 
-            # Compile the current tree, and run it in the namespace of the temporary module. This
+            # Compile the current tree, and run it in the namespace of a new temporary module, replacing
+            # the one from the previous phase (so mutable state is not preserved between phases). This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
-            # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module, optimize=_optimize)
+            code = compiler.compile(phase_k_tree, filename=filename, optimize=_optimize, self_module=self_module)
+            module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+            compiler.run(code, module)
 
     return expansion
-- 
2.43.0


From 727696e5afa71f988a12de0bd38ba862532e1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 37/85] fix: the higher phases of a multi-phase `__init__.py`
 could not import from their own package

---
 mcpyrate/multiphase.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 8c6c117..441592b 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -23,6 +23,7 @@ __all__ = ["phase", "ismultiphase", "detect_highest_phase", "isdebug", "multipha
 import ast
 import sys
 from copy import copy, deepcopy
+from types import ModuleType
 
 from . import compiler
 from .colorizer import ColorScheme, setcolor
@@ -360,6 +361,8 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
         if original_module:
+            if hasattr(original_module, "__path__") and self_module in sys.modules:
+                _copy_submodules(sys.modules[self_module], original_module)
             sys.modules[self_module] = original_module
         else:
             try:
@@ -367,6 +370,22 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             except KeyError:
                 pass
 
+def _create_phase_module(self_module, filename):
+    previous = sys.modules.get(self_module)
+    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    # If we are compiling the `__init__.py` of a package, the temporary module
+    # for each phase is that package, too, so that it can import its submodules.
+    if hasattr(previous, "__path__"):
+        module.__path__ = list(previous.__path__)
+        module.__package__ = previous.__package__
+        _copy_submodules(previous, module)
+    return module
+
+def _copy_submodules(old, new):
+    for name, value in list(vars(old).items()):
+        if isinstance(value, ModuleType) and sys.modules.get(f"{old.__name__}.{name}") is value:
+            setattr(new, name, value)
+
 def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
     n = detect_highest_phase(tree, filename=filename)
     debug = isdebug(tree)
@@ -385,7 +404,7 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
     # The temporary module of a phase stays there while the next phase is being compiled, to keep
     # the already compiled higher-phase stuff available in the module's namespace.
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
-    compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    _create_phase_module(self_module, filename)
 
     for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
@@ -414,7 +433,7 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander, _optimize):
             # the one from the previous phase (so mutable state is not preserved between phases). This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             code = compiler.compile(phase_k_tree, filename=filename, optimize=_optimize, self_module=self_module)
-            module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+            module = _create_phase_module(self_module, filename)
             compiler.run(code, module)
 
     return expansion
-- 
2.43.0


From 1c3a9fbaa7ee19750480b2c16946e6125aaca7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 38/85] fix: `temporary_module` never removed a module with an
 auto-generated name, and removed an existing module when it could not create
 a new one

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..c66e518 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # in case it was auto-generated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From 27c4ff8e3b14fc767bd92cac0a9dc37d50c0fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 39/85] fix: importing a file that macro-imports from a
 run-time created module failed with ValueError

---
 mcpyrate/importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 2c860d7..6b46584 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -203,7 +203,10 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # a dynamically created module (already in `sys.modules`, no `__spec__`)
+            spec = None
         if spec:  # self-macro-imports have no `spec`, and that's fine.
             origin = spec.origin
             stats = path_stats(origin, _stats_cache)
-- 
2.43.0


From 6bd627c768c0eec6e7105a75281fa0ba425b91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 40/85] fix: an exception raised in the body of a macro written
 as a generator was hidden

---
 mcpyrate/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index ceaf117..45abda7 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -9,7 +9,7 @@ from ast import AST, NodeTransformer
 from collections import ChainMap
 from contextlib import contextmanager
 from copy import deepcopy
-from typing import Any, Callable, Dict, List
+from typing import Any, Callable, Dict, Iterator, List
 
 from .astfixers import fix_ctx, fix_locations
 from .markers import ASTMarker, delete_markers
@@ -251,6 +251,10 @@ class BaseMacroExpander(NodeTransformer):
             # Expand the macro.
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
+            # The macro function may be a generator; an exception in its body is an exception in the macro.
+            if isinstance(expansion, Iterator):
+                expansion = list(expansion)
+
             # Convert possible iterable result to `list`, then typecheck macro output.
             try:
                 if expansion is not None and not isinstance(expansion, AST):
-- 
2.43.0


From 945f3857a5a48a8d89a8eeb72cd35ceeef32f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 41/85] fix: step_expansion failed with SyntaxError on code
 containing a subscripted call, such as f()[0]

---
 mcpyrate/expander.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 01ae269..af1429e 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -443,7 +443,8 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
             key = (macroname, "expr")
             if key not in self._seen:
-- 
2.43.0


From c01204f69d22cf25cdad7a1bae770e98fc601852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 42/85] fix: the warning about a block macro that maybe misses
 its @parametricmacro declaration reported line 0

---
 mcpyrate/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index af1429e..43ded7a 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -345,7 +345,7 @@ class MacroExpander(BaseMacroExpander):
             if (macroname and self.isbound(macroname) and
                     (macroargs and not isparametricmacro(self.bindings[macroname]))):
                 msg = f"expr macro `{macroname}` invoked {context}; `{format_macrofunction(self.bindings[macroname])}` maybe missing `@parametricmacro` declaration?"
-                lineno = item.lineno if hasattr(item, "lineno") else 0
+                lineno = candidate.lineno if hasattr(candidate, "lineno") else 0
                 warn_explicit(msg, SyntaxWarning, filename=self.filename, lineno=lineno)
 
             if self.ismacrocall(macroname, macroargs, syntax):
-- 
2.43.0


From c11679df8a663509a3e8dd8bfdc025684400d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 43/85] fix: block mode of expandsq, expand1sq, expands and
 expand1s always failed with TypeError

---
 mcpyrate/metatools.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..c7f1ebe 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -45,6 +45,7 @@ import ast
 
 # Note we import some macros as regular functions. We just want their syntax transformers.
 from .astfixers import fix_locations  # noqa: F401, used in macro output.
+from .core import Done
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
@@ -247,6 +248,8 @@ def expand1s(tree, *, syntax, expander, **kw):
     # are then in a quoted form, which don't look like macro invocations to the expander.
     # If the input `tree` is a `Done`, it will likewise do nothing.
     tree = expander.visit_once(tree)  # -> Done(body=...)
+    if syntax == "block":
+        return _expand_quoted_block(tree.body, lambda tree: expander.visit_once(tree).body, expander=expander, **kw)
     tree = expander.visit_once(unastify(tree.body))  # On wrong kind of input, `unastify` will `TypeError` for us.
     # The final piece of the magic, why this works in the expander's recursive mode,
     # without wrapping the result with `Done`, is that after `q` has finished, the output
@@ -280,9 +283,26 @@ def expands(tree, *, syntax, expander, **kw):
     # Always use recursive mode, because `expand[...]` may appear inside
     # another macro invocation that uses `visit_once` (which sets the expander
     # mode to non-recursive for the dynamic extent of the `visit_once`).
+    if syntax == "block":
+        return _expand_quoted_block(tree.body, expander.visit_recursively, expander=expander, **kw)
     tree = expander.visit_recursively(unastify(tree.body))  # On wrong kind of input, `unastify` will `TypeError` for us.
     return q(tree, syntax=syntax, expander=expander, **kw)
 
+
+def _expand_quoted_block(tree, expand, **kw):
+    # Block mode `q` generates an `ast.Assign`, where the RHS is the quoted code. Process the RHS of each one.
+    kw = dict(kw)
+    output = []
+    for stmt in (tree if isinstance(tree, list) else [tree]):
+        if isinstance(stmt, Done):  # coverage dummy
+            output.append(stmt)
+            continue
+        if type(stmt) is not ast.Assign:
+            raise TypeError(f"expected a block containing only quoted code; got `{unparse_with_fallbacks(stmt)}`")
+        kw["optional_vars"] = stmt.targets[0]
+        output.append(q(expand(unastify(stmt.value)) or [], syntax="block", **kw))  # `unastify` checks the RHS.
+    return output
+
 # --------------------------------------------------------------------------------
 
 def expand1rq(tree, *, syntax, **kw):
-- 
2.43.0


From 9b86baaf2f7d04c006080988fc7865e59c46feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 44/85] fix: block mode of expandr and expand1r always failed

---
 mcpyrate/metatools.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index c7f1ebe..fc856bf 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -427,6 +427,17 @@ def _expandr_impl(tree, syntax, expander, macroname):
     else:
         raise ValueError(f"Unknown macroname '{macroname}'; valid: 'expandr', 'expand1r'")
 
+    # Block mode `q` generates an `ast.Assign`. The call to the expander is spliced in around its RHS.
+    if syntax == "block" and isinstance(tree, list):
+        tree = expander.visit_once(tree).body  # make the quotes inside this invocation expand first
+        for stmt in tree:
+            if isinstance(stmt, Done):  # coverage dummy
+                continue
+            if type(stmt) is not ast.Assign:
+                raise TypeError(f"expected a block containing only quoted code; got `{unparse_with_fallbacks(stmt)}`")
+            stmt.value = _expandr_impl(stmt.value, syntax, expander, macroname)
+        return tree
+
     # Pass args by name to improve human-readability of the expanded output.
     #
     # We must keep the macro names as-is (because that's how they'll appear
-- 
2.43.0


From f00f7fad96c70627dd8a94cac4ae85ed00de7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 45/85] fix: a macro that copies its input failed if that
 contained n, a or h unquotes, when expanded by the static expand macros (e.g.
 expandsq)

---
 mcpyrate/quotes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 2c30768..4dfb323 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -79,7 +79,7 @@ class LiftSourcecode(QuasiquoteMarker):
 
     This allows e.g. computing names of lexical variables.
     """
-    def __init__(self, body, filename):
+    def __init__(self, body=None, filename=None):
         super().__init__(body)
         self.filename = filename
         self._fields += ["filename"]
@@ -87,7 +87,7 @@ class LiftSourcecode(QuasiquoteMarker):
 
 class ASTLiteral(QuasiquoteMarker):  # similar to `macropy`'s `Literal`, but supports block mode, too.
     """Interpolate the given AST. Emitted by `a`."""
-    def __init__(self, body, syntax):
+    def __init__(self, body=None, syntax=None):
         super().__init__(body)
         self.syntax = syntax
         self._fields += ["syntax"]
@@ -114,7 +114,7 @@ class Capture(QuasiquoteMarker):  # like `macropy`'s `Captured`
     to support bytecode caching for source files that invoke a macro that uses
     `h[]` in its output.)
     """
-    def __init__(self, body, name):
+    def __init__(self, body=None, name=None):
         super().__init__(body)
         self.name = name
         self._fields += ["name"]
-- 
2.43.0


From 02e0e0f65e93cc90dfbd45a31383ffc927099922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 46/85] fix: expand_first rejected name macros given as
 arguments

---
 mcpyrate/metatools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index fc856bf..cf27063 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -534,7 +534,9 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # We must use the full `bindings`, not only those of the quasiquote operators
     # (see `mcpyrate.quotes._expand_quasiquotes`), so that the expander recognizes
     # which hygienic captures are macros.
-    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
+    # A bare `macroname` is already in its final form; if it is a name macro, it must not expand here.
+    args = [arg if type(arg) is ast.Name else MacroExpander(expander.bindings, filename=expander.filename).visit(arg)
+            for arg in args]
 
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
-- 
2.43.0


From 88e28dafcb3e5185d49ffc0a3bc32ee83a3197d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 47/85] fix: relative macro-imports resolve against the
 module's actual package

---
 mcpyrate/compiler.py  |  3 ++-
 mcpyrate/coreutils.py | 19 ++++++++++++++++---
 mcpyrate/dialects.py  | 15 +++++++++++----
 mcpyrate/importer.py  | 15 +++++++++------
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index c66e518..6948813 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -23,6 +23,7 @@ import sys
 from types import CodeType, ModuleType
 
 from . import multiphase
+from .coreutils import package_of
 from .dialects import DialectExpander
 from .expander import expand_macros, find_macros
 from .markers import check_no_markers_remaining
@@ -142,7 +143,7 @@ def expand(source, filename, optimize=-1, self_module=None):
     if not isinstance(source, (str, bytes, ast.Module, list)):
         raise TypeError(f"`source` must be Python source code (as `str` or `bytes`), an `ast.Module`, or a `list` of statement AST nodes; got {type(source)} with value {repr(source)}")
 
-    dexpander = DialectExpander(filename=filename)
+    dexpander = DialectExpander(filename=filename, package=package_of(self_module))
 
     if isinstance(source, (str, bytes)):
         if isinstance(source, bytes):
diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index bf2a86b..cc08e73 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -32,6 +32,15 @@ def resolve_package(filename):  # TODO: for now, `guess_package`, really. Check
     return package_dotted_name
 
 
+def package_of(module_name):
+    """Return the absolute dotted name of the package the module `module_name` lives in.
+
+    The module must be in `sys.modules` (as it is while being imported). If it isn't,
+    or if it does not live in a package, return `None`.
+    """
+    return getattr(sys.modules.get(module_name), "__package__", None) or None
+
+
 def relativize(filename):
     """Convert `filename` into a relative one under the matching `sys.path`.
 
@@ -89,7 +98,7 @@ def ismacroimport(statement, magicname='macros'):
     return False
 
 
-def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_module=None):
+def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_module=None, package=None):
     """Get absolute module name, macro names and macro functions from a macro-import.
 
     A macro-import is a statement of the form::
@@ -120,10 +129,14 @@ def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_m
     module being expanded. Used for supporting `from __self__ import macros, ...`
     for multi-phase compilation (a.k.a. staging).
 
+    `package` is an optional string, the absolute dotted name of the package the module
+    being expanded lives in, if known. Used for resolving relative macro-imports. If not
+    specified, we ask `self_module`; if that does not know either, we guess from `filename`.
+
     This function is meant for implementing actual macro expanders.
     """
-    package_absname = None
-    if macroimport.level and filename.endswith(".py"):
+    package_absname = package or package_of(self_module)
+    if macroimport.level and not package_absname and filename.endswith(".py"):
         try:
             package_absname = resolve_package(filename)
         except (ValueError, ImportError) as err:
diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index bfed4c0..ece3c4e 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -182,9 +182,14 @@ class DialectExpander:
         tree = dexpander.postprocess_ast(tree, dialect_instances)
     """
 
-    def __init__(self, filename):
-        """`filename`: full path to `.py` file being expanded, for module name resolution and error messages."""
+    def __init__(self, filename, package=None):
+        """`filename`: full path to `.py` file being expanded, for module name resolution and error messages.
+
+        `package`: absolute dotted name of the package the module lives in, if known. Used for resolving
+                   relative dialect-imports. If not specified, guessed from `filename`.
+        """
         self.filename = filename
+        self.package = package
         self.debugmode = False  # to enable, `from mcpyrate.debug import dialects, StepExpansion`
         self._step = 0
         self._seen = set()
@@ -388,7 +393,8 @@ class DialectExpander:
         dummy_module = ast.parse(statement, filename=self.filename, mode="exec")
         dialectimport = dummy_module.body[0]
         module_absname, bindings = get_macros(dialectimport, filename=self.filename,
-                                              reload=False, allow_asname=False)
+                                              reload=False, allow_asname=False,
+                                              package=self.package)
         return module_absname, bindings, lineno, col_offset
 
     def find_dialectimport_ast(self, tree):
@@ -428,7 +434,8 @@ class DialectExpander:
             return None
 
         module_absname, bindings = get_macros(statement, filename=self.filename,
-                                              reload=False, allow_asname=False)
+                                              reload=False, allow_asname=False,
+                                              package=self.package)
         # Remove all names to prevent dialects being used as regular run-time objects.
         # Always use an absolute import, for the unhygienic expose API guarantee.
         thealias = ast.copy_location(ast.alias(name=module_absname, asname=None),
diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 6b46584..ef12682 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -12,7 +12,7 @@ import sys
 import tokenize
 
 from . import compiler
-from .coreutils import resolve_package, ismacroimport
+from .coreutils import resolve_package, package_of, ismacroimport
 from .multiphase import iswithphase
 from .unparser import unparse_with_fallbacks
 from .utils import format_location
@@ -77,7 +77,7 @@ def path_xstats(self, path):
     # .py based stdlib modules. Also makes `macropython -i` start faster.
     if path in _stdlib_sourcefile_paths or not path.endswith(".py"):
         return _stdlib_path_stats(self, path)
-    return path_stats(path)
+    return path_stats(path, _package=package_of(self.name))
 
 
 def _detect_stdlib_sourcefile_paths():
@@ -94,7 +94,7 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
-def path_stats(path, _stats_cache=None):
+def path_stats(path, _stats_cache=None, _package=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
     This is a public API function for direct use, if you have a `.py` file and
@@ -106,6 +106,9 @@ def path_stats(path, _stats_cache=None):
 
     `_stats_cache` is used internally to speed up the computation, in case the
     dependency graph hits the same source file multiple times.
+
+    `_package` is used internally to resolve relative macro-imports, when the
+    package the module lives in is known. If not, it is guessed from `path`.
     """
     if _stats_cache is None:
         _stats_cache = {}
@@ -188,8 +191,8 @@ def path_stats(path, _stats_cache=None):
     # running Python, particularly its `sys.path`, so we do it dynamically.
     #
     # TODO: some duplication with code in mcpyrate.coreutils.get_macros, including the error messages.
-    package_absname = None
-    if has_relative_macroimports:
+    package_absname = _package
+    if has_relative_macroimports and not package_absname:
         try:
             package_absname = resolve_package(path)
         except (ValueError, ImportError) as err:
@@ -209,7 +212,7 @@ def path_stats(path, _stats_cache=None):
             spec = None
         if spec:  # self-macro-imports have no `spec`, and that's fine.
             origin = spec.origin
-            stats = path_stats(origin, _stats_cache)
+            stats = path_stats(origin, _stats_cache, spec.parent)
             mtimes.append(stats["mtime"])
 
     mtime = stat_result.st_mtime_ns * 1e-9
-- 
2.43.0


From 19535cd0447bd81e127405020edd0cb2083f7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 48/85] fix: infinite recursion when checking the dependencies
 of a module that macro-imports itself by absolute name

---
 mcpyrate/importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index ef12682..6ac5787 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -116,6 +116,8 @@ def path_stats(path, _stats_cache=None, _package=None):
         return _stats_cache[path]
 
     stat_result = os.stat(path)
+    # In case of circular dependencies, don't come back here.
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": None}
 
     # Try for cached macro-import statements for `path` to avoid the parse cost.
     #
-- 
2.43.0


From 17f82d681b15fe7b40bbc11e770469eb573cbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 49/85] fix: macro-imports from modules that have no Python
 source file

---
 mcpyrate/importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 6ac5787..5bc10de 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -212,8 +212,12 @@ def path_stats(path, _stats_cache=None, _package=None):
             spec = importlib.util.find_spec(module_absname)
         except ValueError:  # a dynamically created module (already in `sys.modules`, no `__spec__`)
             spec = None
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
+        # Self-macro-imports have no `spec`, and namespace packages and built-in modules have no file; that's fine.
+        if spec and spec.has_location:
             origin = spec.origin
+            if not origin.endswith(".py"):  # e.g. an extension module
+                mtimes.append(os.stat(origin).st_mtime_ns * 1e-9)
+                continue
             stats = path_stats(origin, _stats_cache, spec.parent)
             mtimes.append(stats["mtime"])
 
-- 
2.43.0


From 02520f55e5a16106a00495a44ce09cd76881d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 50/85] fix: a macro-import cache file with unexpected content
 broke the import

---
 mcpyrate/importer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 5bc10de..012b777 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -144,14 +144,13 @@ def path_stats(path, _stats_cache=None, _package=None):
         with open(macroimport_cache_path, "rb") as importcachefile:
             data = pickle.load(importcachefile)
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
-            macroimport_cache_valid = True
-    except Exception:
+            macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
+            has_relative_macroimports = data["has_relative_macroimports"]
+            macroimport_cache_valid = all(isinstance(stmt, ast.ImportFrom) for stmt in macro_and_dialect_imports)
+    except Exception:  # missing, unreadable, or corrupt
         pass
 
-    if macroimport_cache_valid:
-        macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
-        has_relative_macroimports = data["has_relative_macroimports"]
-    else:
+    if not macroimport_cache_valid:
         # This can be slow, the point of `.pyc` is to avoid the parse-and-compile cost.
         # We do save the macro-expansion cost, though, and that's likely much more expensive.
         #
-- 
2.43.0


From 2d55ecdff0b8588574e0d2ff85017196f677dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 51/85] fix: source files of dialects with new surface syntax
 could not be imported

---
 mcpyrate/importer.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 012b777..c35ccf6 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -8,6 +8,7 @@ from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
 import pickle
+import re
 import sys
 import tokenize
 
@@ -94,6 +95,10 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
+_macroimport = re.compile(r"^from[ \t]+[.\w]+[ \t]+import (?:macros|dialects),[ \t]+[^(\\\n]+?[ \t\r]*$",
+                          flags=re.MULTILINE)
+
+
 def path_stats(path, _stats_cache=None, _package=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -159,7 +164,17 @@ def path_stats(path, _stats_cache=None, _package=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            text = sourcefile.read()
+        try:
+            tree = ast.parse(text, filename=path)
+        except SyntaxError:
+            # A dialect that has a source transformer may introduce new surface syntax.
+            # In such a source file, we can only detect imports written in the form
+            # the dialect expander requires of dialect-imports.
+            statements = [match.group(0).strip() for match in _macroimport.finditer(text)]
+            if not any(" dialects," in statement for statement in statements):
+                raise
+            tree = ast.parse("\n".join(statements), filename=path)
 
         macroimports = []
         dialectimports = []
@@ -209,6 +224,8 @@ def path_stats(path, _stats_cache=None, _package=None):
 
         try:
             spec = importlib.util.find_spec(module_absname)
+        except ModuleNotFoundError:  # missing parent package; the macro expander will report it
+            spec = None
         except ValueError:  # a dynamically created module (already in `sys.modules`, no `__spec__`)
             spec = None
         # Self-macro-imports have no `spec`, and namespace packages and built-in modules have no file; that's fine.
-- 
2.43.0


From bbef09b04aa8e79fa99d682c0f26a989a7b50f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 52/85] fix: a macro-import could succeed by importing its
 failing parent package twice

---
 mcpyrate/importer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index c35ccf6..0291609 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -151,6 +151,7 @@ def path_stats(path, _stats_cache=None, _package=None):
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
             macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
             has_relative_macroimports = data["has_relative_macroimports"]
+            guessed = data.get("guessed", False)
             macroimport_cache_valid = all(isinstance(stmt, ast.ImportFrom) for stmt in macro_and_dialect_imports)
     except Exception:  # missing, unreadable, or corrupt
         pass
@@ -167,6 +168,7 @@ def path_stats(path, _stats_cache=None, _package=None):
             text = sourcefile.read()
         try:
             tree = ast.parse(text, filename=path)
+            guessed = False
         except SyntaxError:
             # A dialect that has a source transformer may introduce new surface syntax.
             # In such a source file, we can only detect imports written in the form
@@ -175,6 +177,7 @@ def path_stats(path, _stats_cache=None, _package=None):
             if not any(" dialects," in statement for statement in statements):
                 raise
             tree = ast.parse("\n".join(statements), filename=path)
+            guessed = True  # some of these may be just text that looks like an import
 
         macroimports = []
         dialectimports = []
@@ -196,7 +199,8 @@ def path_stats(path, _stats_cache=None, _package=None):
             data = {"st_mtime_ns": stat_result.st_mtime_ns,
                     "macroimports": macroimports,
                     "dialectimports": dialectimports,
-                    "has_relative_macroimports": has_relative_macroimports}
+                    "has_relative_macroimports": has_relative_macroimports,
+                    "guessed": guessed}
             try:
                 with open(macroimport_cache_path, "wb") as importcachefile:
                     pickle.dump(data, importcachefile)
@@ -224,7 +228,9 @@ def path_stats(path, _stats_cache=None, _package=None):
 
         try:
             spec = importlib.util.find_spec(module_absname)
-        except ModuleNotFoundError:  # missing parent package; the macro expander will report it
+        except ModuleNotFoundError:  # missing parent package, or importing it failed
+            if not guessed:  # don't let the macro expander retry; after a partial success, that could succeed
+                raise
             spec = None
         except ValueError:  # a dynamically created module (already in `sys.modules`, no `__spec__`)
             spec = None
-- 
2.43.0


From a6e69656b6b26d21c004fd94d13e40a9109923fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 53/85] fix: hygienic captures failed where the use site
 shadows `globals`

---
 mcpyrate/coreutils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index cc08e73..6e5dc34 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -240,10 +240,6 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
     if not force_import:
         mcpyrate_module = ast.Name(id="mcpyrate")
     else:
-        globals_call = ast.Call(ast.Name(id="globals"),
-                                [],
-                                [])
-
         if submodule_dotted_name:
             modulename_to_import = f"mcpyrate.{submodule_dotted_name}"
         else:
@@ -251,7 +247,7 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
 
         import_call = ast.Call(ast.Name(id="__import__"),
                                [ast.Constant(value=modulename_to_import),
-                                globals_call,  # globals (used for determining context)
+                                ast.Constant(value=None),  # globals (unused in absolute imports; `globals` may be shadowed)
                                 ast.Constant(value=None),  # locals (unused)
                                 ast.Tuple(elts=[]),  # fromlist
                                 ast.Constant(value=0)],  # level
-- 
2.43.0


From e2e8bebc999a774dee516ed1347d5dae72eb4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 54/85] fix: hygienic captures of equal values at different use
 sites shared one value

---
 mcpyrate/quotes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 4dfb323..f9e9126 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -294,7 +294,11 @@ def capture_value(value, name):
     # Putting these considerations together, we pickle the value, causing a copy
     # and serialization.
     #
-    frozen_value = pickle.dumps(value)
+    # Python merges equal constants in the same source file, which would make the captures
+    # at different use sites share the unpickled value. Hence make each capture unique.
+    # (`pickle.loads` ignores any data after the pickle.)
+    #
+    frozen_value = pickle.dumps(value) + gensym("").encode()
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
-- 
2.43.0


From eff24d325c4179007f780917d5924ab103c3908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 55/85] fix: threads racing for a hygienically captured value
 could get different copies

---
 mcpyrate/quotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index f9e9126..77cc27d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -337,7 +337,8 @@ def lookup_value(key):
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
         # Keep also `frozen_value` alive, so that no other capture can get the same `id`.
-        _lookup_cache[cachekey] = (pickle.loads(frozen_value), frozen_value)
+        # `setdefault`, because another thread may have just unpickled this one, too.
+        _lookup_cache.setdefault(cachekey, (pickle.loads(frozen_value), frozen_value))
     value, _ignored_frozen_value = _lookup_cache[cachekey]
     return value
 
-- 
2.43.0


From 34426bea7829d43c537c83049ad801c76d4f2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 56/85] fix: cleaning bytecode caches followed symbolic links
 named __pycache__ and deleted the files there

---
 mcpyrate/pycachecleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..85e0d5f 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -17,7 +17,7 @@ def getpycachedirs(path):
 
     paths = []
     for root, dirs, files in os.walk(path):
-        if "__pycache__" in dirs:
+        if "__pycache__" in dirs and not os.path.islink(os.path.join(root, "__pycache__")):
             paths.append(os.path.join(root, "__pycache__"))
     return paths
 
-- 
2.43.0


From a700d068ceb5e80e72a7a703cbeaeaebbd7e607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 57/85] fix: a symbolic link to a directory inside __pycache__
 made cleaning fail

---
 mcpyrate/pycachecleaner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 85e0d5f..5a738ca 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -47,7 +47,10 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                if os.path.islink(os.path.join(root, x)):  # symlink to a directory; delete just the link
+                    os.unlink(os.path.join(root, x))
+                else:
+                    os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From 7e745a372c0312e00592c6e113fd8a766d657e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 58/85] fix: macropython -c did not reject an empty directory
 name

---
 mcpyrate/repl/macropython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..aa9fbb2 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -171,7 +171,7 @@ def main():
                              'directory paths, don\'t actually clean them.')
     opts = parser.parse_args()
 
-    if opts.path_to_clean:
+    if opts.path_to_clean is not None:
         # If an error occurs during cleaning, we just let it produce a standard stack trace.
         if not opts.dry_run:
             deletepycachedirs(opts.path_to_clean)
-- 
2.43.0


From 3d4cbee770c350c40a25abf706cffb8483e3cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 59/85] fix: macropython ran another module when the script's
 name was not a module name, or that of a module imported earlier

---
 mcpyrate/repl/macropython.py | 53 +++++++++++++-----------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index aa9fbb2..dbcd291 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -9,16 +9,15 @@
 
 import argparse
 import atexit
-import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
 from ..core import MacroApplicationError
-from ..coreutils import relativize
 from ..pycachecleaner import deletepycachedirs, getpycachedirs
 
 __version__ = "3.1.0"
@@ -31,6 +30,8 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 def import_module_as_main(name, script_mode):
     """Import a module, pretending it's __main__.
 
+    `name` is the module name; or in script mode, the filename of the script.
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -45,7 +46,7 @@ def import_module_as_main(name, script_mode):
         https://docs.python.org/3/reference/import.html#module-path
         https://docs.python.org/3/reference/import.html#special-considerations-for-main
     """
-    absolute_name = resolve_name(name, package=None)
+    absolute_name = "__main__" if script_mode else resolve_name(name, package=None)
 
     # If already loaded, normally we should return the module from `sys.modules`,
     # but `sys.modules["__main__"]` is for now this bootstrapper, not the user __main__.
@@ -60,24 +61,26 @@ def import_module_as_main(name, script_mode):
 
     path = None
     if '.' in absolute_name:
-        if script_mode:
-            raise ValueError("In script mode, please add the containing directory to `sys.path` and then top-level import the final component of the name.")
         # Import the module's parent package normally to initialize parent packages.
         # Get the appropriate `path` for `find_spec` to find subpackages and modules.
         parent_name, _, child_name = absolute_name.rpartition('.')
         parent_module = import_module(parent_name)
         path = parent_module.__spec__.submodule_search_locations
 
-    for finder in sys.meta_path:
-        if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-            continue
-        # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
-        spec = finder.find_spec(absolute_name, path)
-        if spec is not None:
-            break
+    if script_mode:
+        # Run this very file. Its name may be anything, and other modules with the same name may exist.
+        spec = spec_from_file_location("__main__", name, loader=SourceFileLoader("__main__", name))
     else:
-        msg = f"No module named {absolute_name}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
+        for finder in sys.meta_path:
+            if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
+                continue
+            # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
+            spec = finder.find_spec(absolute_name, path)
+            if spec is not None:
+                break
+        else:
+            msg = f"No module named {absolute_name}"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     spec.name = "__main__"
     if spec.loader:
@@ -262,25 +265,7 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
-        # This approach finds the standard loader even for macro-enabled scripts.
-        # TODO: For mcpyrate, that could be ok, since we monkey-patch just that.
-        # TODO: But maybe better to leave the option to replace the whole loader later.
-        # spec = spec_from_file_location("__main__", str(fullpath))
-        # if not spec:
-        #     raise ImportError(f"Not a Python module: '{opts.filename}'"
-        # module = module_from_spec(spec)
-        # TODO: if we use this approach, we should first initialize parent packages.
-        # sys.modules[module.__name__] = module
-        # spec.loader.exec_module(module)
-
-        root_path, relative_path = relativize(opts.filename)
-        module_name = relative_path.replace(os.path.sep, '.')
-        if module_name.endswith(".__init__.py"):
-            module_name = module_name[:-12]
-        elif module_name.endswith(".py"):
-            module_name = module_name[:-3]
-
-        import_module_as_main(module_name, script_mode=True)
+        import_module_as_main(str(fullpath), script_mode=True)
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From ea084c23d78215e9a58558bde7b2ec325e4e7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 60/85] fix: macropython -m did not run the __main__ of a
 package as the main program, and not at all that of a namespace package or
 subpackage

---
 mcpyrate/repl/macropython.py | 39 +++++++++---------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index dbcd291..1006a5f 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -9,6 +9,7 @@
 
 import argparse
 import atexit
+import importlib.util
 import pathlib
 import sys
 from importlib import import_module
@@ -82,29 +83,23 @@ def import_module_as_main(name, script_mode):
             msg = f"No module named {absolute_name}"
             raise ModuleNotFoundError(msg, name=absolute_name)
 
+    # Run the `__main__` submodule of a package, like `python -m somepackage` does.
+    if not script_mode and spec.submodule_search_locations is not None:
+        if absolute_name.endswith(".__main__") or importlib.util.find_spec(f"{absolute_name}.__main__") is None:
+            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
+        return import_module_as_main(f"{absolute_name}.__main__", script_mode)
+
     spec.name = "__main__"
     if spec.loader:
         spec.loader.name = "__main__"
 
     module = module_from_spec(spec)
-    try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
     elif path:  # e.g. "macropython -m somepackage.module"
         module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
-        module.__package__ = absolute_name
-        try_mainpy = True
-
-    if spec.origin == "namespace":
-        # https://docs.python.org/3/reference/import.html#__path__
-        module.__path__ = spec.submodule_search_locations
-
-    if try_mainpy:
-        # e.g. "import somepackage" in the above case; it's not __main__, so import it normally.
-        assert not script_mode
-        parent_module = import_module(absolute_name)
-    elif spec.loader:
+
+    if spec.loader:
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
@@ -125,22 +120,6 @@ def import_module_as_main(name, script_mode):
         # # __main__ has no parent module so we don't need to do this.
         # if path is not None:
         #     setattr(parent_module, child_name, module)
-    else:  # namespace packages have loader=None
-        try_mainpy = True
-
-    # __init__.py (if any) has run; run __main__.py, like `python -m somepackage` does.
-    if try_mainpy:
-        has_mainpy = True
-        try:
-            # __main__.py doesn't need to have its name set to "__main__", so import it normally.
-            import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
-                has_mainpy = False
-            else:
-                raise
-        if not has_mainpy:
-            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
 
     return module
 
-- 
2.43.0


From 89e75b2640e8a9b98c37a12af8f4781efcc2412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 61/85] fix: macropython -m a.b ran module b if a was not a
 package

---
 mcpyrate/repl/macropython.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 1006a5f..327aa18 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -66,7 +66,10 @@ def import_module_as_main(name, script_mode):
         # Get the appropriate `path` for `find_spec` to find subpackages and modules.
         parent_name, _, child_name = absolute_name.rpartition('.')
         parent_module = import_module(parent_name)
-        path = parent_module.__spec__.submodule_search_locations
+        try:
+            path = parent_module.__path__
+        except AttributeError:
+            raise ModuleNotFoundError(f"No module named {absolute_name}; '{parent_name}' is not a package", name=absolute_name)
 
     if script_mode:
         # Run this very file. Its name may be anything, and other modules with the same name may exist.
-- 
2.43.0


From e96d89b92f678bd86ec2e694f400acbab0afe60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 62/85] fix: macropython did not give the program its
 command-line arguments

---
 doc/repl.md                  |  2 ++
 mcpyrate/repl/macropython.py | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/doc/repl.md b/doc/repl.md
index 1029e1b..b3aa9d3 100644
--- a/doc/repl.md
+++ b/doc/repl.md
@@ -163,6 +163,8 @@ macropython -m example
 
 A dotted module path under the current directory is ok.
 
+In both forms, any further command-line arguments are passed to the program, in `sys.argv`.
+
 If you need to set other Python command-line options:
 
 ```bash
diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 327aa18..22a20c9 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -103,6 +103,8 @@ def import_module_as_main(name, script_mode):
         module.__package__ = parent_name
 
     if spec.loader:
+        if not script_mode and spec.origin:
+            sys.argv[0] = spec.origin
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
@@ -126,9 +128,23 @@ def import_module_as_main(name, script_mode):
 
     return module
 
+def split_arguments(args):
+    """Split the command-line arguments `args` into those for us and those for the program to run.
+
+    Like in Python's own command line, the program's arguments begin after
+    the filename or after `-m mod`.
+    """
+    for k, arg in enumerate(args, start=1):
+        if arg in ("-m", "--module"):
+            return args[:k + 1], args[k + 1:]
+        elif arg.startswith(("-m", "--module=")) or not arg.startswith("-"):
+            return args[:k], args[k:]
+    return args, []
+
 def main():
     """Handle command-line arguments and run the specified main program."""
     parser = argparse.ArgumentParser(description="""Run a Python program or an interactive interpreter with mcpyrate enabled.""",
+                                     epilog="Arguments after the file, or after `-m mod`, are passed to the program.",
                                      formatter_class=argparse.RawDescriptionHelpFormatter)
 
     parser.add_argument('-v', '--version', action='version', version=('%(prog)s ' + __version__ + ' (mcpyrate ' + __mcpyrate_version__ + ')'))
@@ -154,7 +170,10 @@ def main():
     parser.add_argument("-n", "--dry-run", dest="dry_run", action="store_true", default=False,
                         help='For use together with "-c". Just scan for and print the .pyc cache '
                              'directory paths, don\'t actually clean them.')
-    opts = parser.parse_args()
+    args, program_args = split_arguments(sys.argv[1:])
+    opts = parser.parse_args(args)
+    if opts.path_to_clean is not None or opts.interactive:  # no program to run, all arguments are for us
+        opts = parser.parse_args()
 
     if opts.path_to_clean is not None:
         # If an error occurs during cleaning, we just let it produce a standard stack trace.
@@ -230,6 +249,7 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
+        sys.argv = ["-m"] + program_args  # until we know its filename
         import_module_as_main(opts.module, script_mode=False)
 
     else:  # no module, so use opts.filename
@@ -247,6 +267,7 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
+        sys.argv = [opts.filename] + program_args
         import_module_as_main(str(fullpath), script_mode=True)
 
 if __name__ == "__main__":
-- 
2.43.0


From 3b619076983f469db6866e839351b445f873ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 63/85] fix: macropython unloaded the main module, or set it to
 None, before the exit handlers of a failed program ran

---
 mcpyrate/repl/macropython.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 22a20c9..68d34b0 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -36,8 +36,8 @@ def import_module_as_main(name, script_mode):
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
-    Upon success, replaces `sys.modules["__main__"]` with the module that
-    was imported. Upon failure, propagates any exception raised.
+    Replaces `sys.modules["__main__"]` with the module that was imported.
+    Upon failure, propagates any exception raised.
 
     This is a customized approximation of the standard import semantics, based on:
 
@@ -109,7 +109,7 @@ def import_module_as_main(name, script_mode):
         try:
             spec.loader.exec_module(module)
         except Exception as err:
-            sys.modules["__main__"] = _macropython_module
+            # Python does not unload a failed `__main__`, either; exit handlers may need it.
             if isinstance(err, MacroApplicationError):
                 # To avoid noise, discard most of the traceback of the chained
                 # macro-expansion errors emitted by the expander core. The
-- 
2.43.0


From 67d930117681c74b8c312dfb45c958f95f1e36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 64/85] fix: relative imports in a main module run by
 macropython -m gave a DeprecationWarning

---
 mcpyrate/repl/macropython.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 68d34b0..fb43e73 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -92,11 +92,12 @@ def import_module_as_main(name, script_mode):
             raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
         return import_module_as_main(f"{absolute_name}.__main__", script_mode)
 
-    spec.name = "__main__"
+    # Keep `spec.name`, so that `__package__` and `__spec__.parent` agree. Relative imports need that.
     if spec.loader:
         spec.loader.name = "__main__"
 
     module = module_from_spec(spec)
+    module.__name__ = "__main__"
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
     elif path:  # e.g. "macropython -m somepackage.module"
-- 
2.43.0


From 17e9a5603e3488c8b79670dc7b039681e46131aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 65/85] fix: macropython resolved symbolic links in the
 __file__ of a script

---
 mcpyrate/repl/macropython.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index fb43e73..6a1ef4f 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -269,7 +269,9 @@ def main():
             sys.path.insert(1, str(local_pypackages_dir))
 
         sys.argv = [opts.filename] + program_args
-        import_module_as_main(str(fullpath), script_mode=True)
+        # If the script is a symlink, `__file__` is the link, like in Python itself.
+        filename = str(pathlib.Path.cwd() / pathlib.Path(opts.filename).expanduser())
+        import_module_as_main(filename, script_mode=True)
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 6faf9e1b4ca7d0f4180a94779b2342cf8177b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 66/85] fix: an input ending in a question mark that is Python,
 or no expression, crashed the macro console

---
 mcpyrate/repl/console.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..7275697 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -135,15 +135,13 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
-        elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
 
         try:
             code = self.compile(source, filename, symbol)
         except (OverflowError, SyntaxError, ValueError):
+            # Not Python, so a final question mark is not part of a comment or string.
+            if self._run_help_command(source):
+                return False  # complete input
             code = ""
         if code is None:  # incomplete input
             return True
@@ -188,6 +186,23 @@ class MacroConsole(code.InteractiveConsole):
         self._refresh_macro_functions()
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
 
+    def _run_help_command(self, source):
+        """If `source` is the special REPL command `obj?` or `obj??`, run it.
+
+        Return whether it was.
+        """
+        for suffix, function_name in (("??", "sourcecode"), ("?", "doc")):
+            if source.endswith(suffix):
+                expression = source[:-len(suffix)].strip()
+                try:
+                    ast.parse(expression, mode="eval")
+                except (OverflowError, SyntaxError, ValueError):
+                    return False
+                # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+                self._internal_execute(f"mcpyrate.repl.utils.{function_name}({expression})")
+                return True
+        return False
+
     def _refresh_macro_functions(self):
         """Refresh macro function imports.
 
-- 
2.43.0


From 41c51e4560c373e15cd2c2514a2b143f35cdc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 67/85] fix: errors while importing a macro library or
 compiling the expanded input crashed the macro console

---
 mcpyrate/repl/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 7275697..1677419 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -181,6 +181,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # e.g. a macro library that fails at import, or a macro that returned an invalid AST
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
-- 
2.43.0


From 66174e9fedd4218a14cbef7855e859e57c2ac26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 68/85] fix: after a macro-import, the macro console overwrote
 the user's variables with earlier imported macros, and reported spurious
 errors for macros that are closures

---
 mcpyrate/repl/console.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 1677419..3abf484 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -40,7 +40,6 @@ class MacroConsole(code.InteractiveConsole):
     def __init__(self, locals=None, filename="<interactive input>"):
         """Parameters like in `code.InteractiveConsole`."""
         self.expander = MacroExpander(bindings={}, filename=filename)
-        self._macro_bindings_changed = False
 
         if locals is None:
             locals = {}
@@ -161,8 +160,8 @@ class MacroConsole(code.InteractiveConsole):
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
             if bindings:
-                self._macro_bindings_changed = True
                 self.expander.bindings.update(bindings)
+                self._import_macro_functions(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
 
@@ -186,7 +185,6 @@ class MacroConsole(code.InteractiveConsole):
             return False  # erroneous input
 
         self.runcode(code)
-        self._refresh_macro_functions()
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
 
     def _run_help_command(self, source):
@@ -206,25 +204,19 @@ class MacroConsole(code.InteractiveConsole):
                 return True
         return False
 
-    def _refresh_macro_functions(self):
-        """Refresh macro function imports.
+    def _import_macro_functions(self, bindings):
+        """Import the macro functions of newly imported macros also as run-time objects.
 
-        Called after successfully compiling and running an input, so that
-        `some_macro.__doc__` points to the right docstring.
-        """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
+        This is so that `some_macro.__doc__` points to the right docstring.
 
-        for asname, function in self.expander.bindings.items():
+        Names of other macros are left alone, because the user may have bound
+        them to something else meanwhile.
+        """
+        for asname, function in bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
             if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
                 continue
             if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
                 continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+            self.locals[asname] = function
-- 
2.43.0


From 4702cad873303e2703cdeaa71177e5a8ab566c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 69/85] fix: the macro console could not run sources in exec
 and eval mode, which code.InteractiveConsole can

---
 mcpyrate/repl/console.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 3abf484..cf6f656 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -148,7 +148,7 @@ class MacroConsole(code.InteractiveConsole):
         try:
             # TODO: If we want to support dialects in the REPL, this is where to do it.
             #       Look at `mcpyrate.compiler.compile`.
-            tree = ast.parse(source, self.filename)
+            tree = ast.parse(source, self.filename, mode="eval" if symbol == "eval" else "exec")
 
             # macro-imports (this will import the modules)
             sys.modules[_magic_module_name].__dict__.clear()
@@ -157,15 +157,18 @@ class MacroConsole(code.InteractiveConsole):
             # defines a variable of the same name in the user namespace, the metadata fields
             # in the magic module won't be overwritten.
             sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)
-            bindings = find_macros(tree, filename=self.expander.filename,
-                                   reload=True, self_module=_magic_module_name)
+            bindings = None
+            if symbol != "eval":  # an expression has no macro-imports
+                bindings = find_macros(tree, filename=self.expander.filename,
+                                       reload=True, self_module=_magic_module_name)
             if bindings:
                 self.expander.bindings.update(bindings)
                 self._import_macro_functions(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
 
-            tree = ast.Interactive(tree.body)
+            if symbol == "single":
+                tree = ast.Interactive(tree.body)
             code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)
         except (OverflowError, SyntaxError, ValueError, MacroExpansionError):
             self.showsyntaxerror(filename)
-- 
2.43.0


From ca6de6008d31ad44c548b35f47ce78ed465407af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 70/85] fix: after a macro-import, the IPython extension
 overwrote the user's variables with earlier imported macros, and reported
 spurious errors for macros that are closures

---
 mcpyrate/repl/iconsole.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b744c36..a2f7f1e 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -23,7 +23,6 @@ line magic.
 
 import ast
 import copy
-from functools import partial
 import sys
 
 from IPython.core import magic_arguments
@@ -138,8 +137,8 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
             if bindings:
-                self._ipyextension._macro_bindings_changed = True
                 self.expander.bindings.update(bindings)
+                self._ipyextension._import_macro_functions(bindings)
             new_tree = self.expander.visit(tree)
             new_tree = global_postprocess(new_tree)
             self._ipyextension.src = _placeholder
@@ -153,7 +152,6 @@ class IMcpyrateExtension:
     """IPython extension. Import, define and use `mcpyrate` macros in the IPython REPL."""
 
     def __init__(self, shell):
-        self._macro_bindings_changed = False
         self.src = _placeholder
         self.shell = shell
 
@@ -177,12 +175,7 @@ class IMcpyrateExtension:
         # and then modify `InteractiveMacroTransformer` to run the dialect system's
         # AST transformer before it runs the macro expander. Look at `mcpyrate.compiler.compile`.
 
-        ipy = self.shell.get_ipython()
-        ipy.events.register("post_run_cell", self._refresh_macro_functions)
-
     def __del__(self):
-        ipy = self.shell.get_ipython()
-        ipy.events.unregister("post_run_cell", self._refresh_macro_functions)
         del self.shell.user_ns["__macro_expander__"]
         self.shell.ast_transformers.remove(self.macro_transformer)
         self.shell.input_transformers_post.remove(self._get_source_code)
@@ -196,27 +189,20 @@ class IMcpyrateExtension:
         self.src = lines
         return lines
 
-    def _refresh_macro_functions(self, info):
-        """Refresh macro function imports.
+    def _import_macro_functions(self, bindings):
+        """Import the macro functions of newly imported macros also as run-time objects.
+
+        This is so that IPython help "some_macro?" works for the currently
+        available macros, allowing the user to easily view macro docstrings.
 
-        Called after running a cell, so that IPython help "some_macro?" works
-        for the currently available macros, allowing the user to easily view
-        macro docstrings.
+        Names of other macros are left alone, because the user may have bound
+        them to something else meanwhile.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-        internal_execute = partial(self.shell.run_cell,
-                                   store_history=False,
-                                   silent=True)
-
-        for asname, function in self.macro_transformer.expander.bindings.items():
+        for asname, function in bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
             if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
                 continue
             if not function.__module__:  # Macros defined in the REPL have `__module__=None`.
                 continue
-            commands = ["%%ignore_importerror",
-                        f"from {function.__module__} import {function.__qualname__} as {asname}"]
-            internal_execute("\n".join(commands))
+            self.shell.user_ns[asname] = function
-- 
2.43.0


From b061822027bf795f7c50d2200b3a3a2dc759cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 71/85] fix: macros expanding in one thread saw the nesting
 levels of another, so quasiquotes came out wrong or failed

---
 mcpyrate/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index e080e4b..eb65e6b 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -7,6 +7,7 @@ __all__ = ["gensym", "scrub_uuid", "flatten", "rename", "extract_bindings", "get
 
 import ast
 from contextlib import contextmanager
+import threading
 import uuid
 
 from .astcompat import (MatchAs, MatchClass, MatchMapping, MatchStar,
@@ -303,10 +304,22 @@ class NestingLevelTracker:
     must expand inside-out (i.e. call `expander.visit` explicitly). If they
     expand outside-in (default), the outer macro invocation will already have
     exited when the inner macro invocation gets expanded.
+
+    Each thread has its own level, because several threads may be expanding
+    macros at the same time (e.g. importing different modules).
     """
     def __init__(self, start=0):
-        """start: int, initial level"""
-        self.stack = [start]
+        """start: int, initial level (in each thread)"""
+        self._start = start
+        self._local = threading.local()
+
+    def _get_stack(self):
+        try:
+            return self._local.stack
+        except AttributeError:
+            self._local.stack = [self._start]
+            return self._local.stack
+    stack = property(fget=_get_stack, doc="The nested levels in the current thread. Use `set_to` or `change_by` to change.")
 
     def _get_value(self):
         return self.stack[-1]
-- 
2.43.0


From ec9fb7607786de833ce9850dc2c79e520bfcdd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 72/85] fix: another thread importing a module during its
 multi-phase compilation did not wait for it to be complete

---
 mcpyrate/multiphase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 441592b..9414ef0 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -373,6 +373,9 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 def _create_phase_module(self_module, filename):
     previous = sys.modules.get(self_module)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
+    # If the import system is just loading this module, it must go on thinking so,
+    # to make other threads that import the module wait until it is complete.
+    module.__spec__ = getattr(previous, "__spec__", None)
     # If we are compiling the `__init__.py` of a package, the temporary module
     # for each phase is that package, too, so that it can import its submodules.
     if hasattr(previous, "__path__"):
-- 
2.43.0


From 5d1996d14517d1f440c9f27b2cc89d5fb9f5f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 73/85] fix: relative imports in the higher phases of a main
 module run by macropython -m failed

---
 mcpyrate/multiphase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 9414ef0..ada81c4 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -376,11 +376,13 @@ def _create_phase_module(self_module, filename):
     # If the import system is just loading this module, it must go on thinking so,
     # to make other threads that import the module wait until it is complete.
     module.__spec__ = getattr(previous, "__spec__", None)
+    # Relative imports work the same in all phases. (The name does not tell, if this is `__main__`.)
+    if getattr(previous, "__package__", None) is not None:
+        module.__package__ = previous.__package__
     # If we are compiling the `__init__.py` of a package, the temporary module
     # for each phase is that package, too, so that it can import its submodules.
     if hasattr(previous, "__path__"):
         module.__path__ = list(previous.__path__)
-        module.__package__ = previous.__package__
         _copy_submodules(previous, module)
     return module
 
-- 
2.43.0


From 7a494b7067eb33673f8223abf35877f73332b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 74/85] fix: expandr, stepr and the like failed after a macro
 library was reloaded, as the REPL does

---
 mcpyrate/metatools.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index cf27063..16ca388 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -42,6 +42,8 @@ __all__ = ["macro_bindings",
            "expand_first"]
 
 import ast
+from pickle import PicklingError
+import sys
 
 # Note we import some macros as regular functions. We just want their syntax transformers.
 from .astfixers import fix_locations  # noqa: F401, used in macro output.
@@ -102,10 +104,26 @@ def macro_bindings(tree, *, syntax, expander, **kw):  # tree argument is unused
     # This is exactly the kind of thing the hygienic capture system was
     # designed to do.
     keys = list(astify(k) for k in expander.bindings.keys())
-    values = list(capture_value(v, k) for k, v in expander.bindings.items())
+    values = list(_capture_macro_function(v, k) for k, v in expander.bindings.items())
     return ast.Dict(keys=keys, values=values)
 
 
+def _capture_macro_function(function, name):
+    """Like `capture_value`, but for a macro function bound as `name` in an expander."""
+    try:
+        return capture_value(function, name)
+    except PicklingError:
+        # When a macro library is reloaded (as the REPL does), bindings made earlier still refer
+        # to the previous function objects. Functions are pickled by name; use the definition
+        # that currently has that name.
+        current = sys.modules.get(getattr(function, "__module__", None))
+        for attr in getattr(function, "__qualname__", "").split("."):
+            current = getattr(current, attr, None)
+        if not callable(current) or current is function:
+            raise
+        return capture_value(current, name)
+
+
 def fill_location(tree, *, syntax, invocation, **kw):
     """[syntax, expr] Fill missing source location info, recursively.
 
-- 
2.43.0


From dca395e4008de1ab499c91c09c21d79dcf6db5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 75/85] fix: expandr and the like failed if another thread
 bound a hygienic macro meanwhile

---
 mcpyrate/metatools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 16ca388..a65b3ee 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -103,8 +103,9 @@ def macro_bindings(tree, *, syntax, expander, **kw):  # tree argument is unused
         raise SyntaxError("`macro_bindings` is a name macro only")
     # This is exactly the kind of thing the hygienic capture system was
     # designed to do.
-    keys = list(astify(k) for k in expander.bindings.keys())
-    values = list(_capture_macro_function(v, k) for k, v in expander.bindings.items())
+    bindings = dict(expander.bindings)  # copy, because other threads may add global bindings meanwhile
+    keys = list(astify(k) for k in bindings.keys())
+    values = list(_capture_macro_function(v, k) for k, v in bindings.items())
     return ast.Dict(keys=keys, values=values)
 
 
-- 
2.43.0


From b4d7819c5999698d5bc9be3b426f48f905b28216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 76/85] fix: another thread could import the temporary module
 of a phase, if it looked it up just before it was replaced

---
 mcpyrate/compiler.py   | 3 ++-
 mcpyrate/multiphase.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 6948813..6a7af2a 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -439,7 +439,7 @@ def run(source, module=None, optimize=-1):
     return module
 
 
-def create_module(dotted_name=None, filename=None, *, update_parent=True):
+def create_module(dotted_name=None, filename=None, *, update_parent=True, _spec=None):
     """Create a new blank module at run time, insert it into `sys.modules`, and return it.
 
     This is a utility function that closely emulates what Python's standard
@@ -526,6 +526,7 @@ def create_module(dotted_name=None, filename=None, *, update_parent=True):
     module = ModuleType(dotted_name)
     module.__name__ = dotted_name
     module.__file__ = filename
+    module.__spec__ = _spec  # private, for the multi-phase compiler
 
     # Manage the package abstraction, like the importer does - with the difference that we
     # shouldn't import parent packages here. To keep things simple, we only allow creating
diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index ada81c4..905a8ac 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -372,10 +372,12 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
 def _create_phase_module(self_module, filename):
     previous = sys.modules.get(self_module)
-    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
     # If the import system is just loading this module, it must go on thinking so,
     # to make other threads that import the module wait until it is complete.
-    module.__spec__ = getattr(previous, "__spec__", None)
+    # A copy keeps saying so even after that, in case a thread got hold of this
+    # temporary module, but looks at its spec only after it has been replaced.
+    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False,
+                                    _spec=copy(getattr(previous, "__spec__", None)))
     # Relative imports work the same in all phases. (The name does not tell, if this is `__main__`.)
     if getattr(previous, "__package__", None) is not None:
         module.__package__ = previous.__package__
-- 
2.43.0


From f31be15180ce826ac7fe0ebe03a6943d869595c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 77/85] fix: detailed stepping in dump mode failed for macros
 that return None or an iterable, and did not show the code returned by
 generators

---
 mcpyrate/core.py  | 8 ++++----
 mcpyrate/debug.py | 9 ++++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index 45abda7..2bca7ee 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -251,10 +251,6 @@ class BaseMacroExpander(NodeTransformer):
             # Expand the macro.
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
-            # The macro function may be a generator; an exception in its body is an exception in the macro.
-            if isinstance(expansion, Iterator):
-                expansion = list(expansion)
-
             # Convert possible iterable result to `list`, then typecheck macro output.
             try:
                 if expansion is not None and not isinstance(expansion, AST):
@@ -329,6 +325,10 @@ class BaseMacroExpander(NodeTransformer):
 
         newtree = macro(tree, **kw)
 
+        # The macro function may be a generator; an exception in its body is an exception in the macro.
+        if isinstance(newtree, Iterator):
+            newtree = list(newtree)
+
         if self._debughook:
             self._debughook(oldid, oldtree, newtree, macroname, macro)
         return newtree
diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..3bee9a0 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -123,6 +123,13 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
                 mc.clear()
                 mc.visit(tree)
 
+        def format_result(tree):
+            if isinstance(tree, tuple):  # a macro may return any iterable of AST nodes
+                tree = list(tree)
+            if isinstance(tree, (ast.AST, list)):
+                return formatter(tree)
+            return repr(tree)  # particularly, `None`, when the macro deletes the code
+
         if print_details:
             def print_step(invocationsubtreeid, invocationtree, expandedtree, macroname, macrofunction):
                 print(f"{c(CS.HEADING1)}{stars}Tree {c(CS.HEADING2)}0x{tag:x} ({expander.filename}) {c(CS.HEADING1)}processing step {step}:",
@@ -130,7 +137,7 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
                 print(textwrap.indent(f"{c(CS.HEADING2)}Applying {c(CS.MACRONAME)}{macroname}{c(CS.HEADING2)} at subtree 0x{invocationsubtreeid:x}:{c()}", codeindent * ' '), file=sys.stderr)
                 print(textwrap.indent(f"{formatter(invocationtree)}", (codeindent + 2) * ' '), file=sys.stderr)
                 print(textwrap.indent(f"{c(CS.HEADING2)}Result:{c()}", codeindent * ' '), file=sys.stderr)
-                print(textwrap.indent(f"{formatter(expandedtree)}", (codeindent + 2) * ' '), file=sys.stderr)
+                print(textwrap.indent(f"{format_result(expandedtree)}", (codeindent + 2) * ' '), file=sys.stderr)
 
             with expander.debughook(print_step):
                 doit()
-- 
2.43.0


From c05cb9cf419fab05cd023e4a73a303d4de7609f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 78/85] fix: %%dump_ast failed when asked to expand macros in
 an expression (-m eval -e yes)

---
 mcpyrate/repl/iconsole.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index a2f7f1e..3b6409a 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -134,8 +134,10 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             # in `user_ns` even if the user explicitly doesn't.)
             sys.modules[_magic_module_name].__dict__.update(self._ipyextension.magic_module_metadata)
             # macro-imports (this will import the modules)
-            bindings = find_macros(tree, filename=self.expander.filename,
-                                   reload=True, self_module=_magic_module_name)
+            bindings = None
+            if not isinstance(tree, ast.Expression):  # an expression has no macro-imports
+                bindings = find_macros(tree, filename=self.expander.filename,
+                                       reload=True, self_module=_magic_module_name)
             if bindings:
                 self.expander.bindings.update(bindings)
                 self._ipyextension._import_macro_functions(bindings)
-- 
2.43.0


From 370c56028fb5bab6a114713ae2f054e6bbffa564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 79/85] fix: in the interactive mode of macropython, __name__
 was that of the builtins module, so classes and functions had a wrong
 __module__

---
 mcpyrate/repl/macropython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 6a1ef4f..375977c 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -190,7 +190,7 @@ def main():
         import rlcompleter  # noqa: F401, side effects: readline tab completion
 
         from .console import MacroConsole
-        repl_locals = {}
+        repl_locals = {"__name__": "__console__", "__doc__": None}  # same as in `code.InteractiveConsole`
         if opts.pylab:  # like IPython's pylab mode, but we keep things in separate namespaces.
             import matplotlib.pyplot
             import numpy
-- 
2.43.0


From 8fba8e1d2edb3aa0b960f17d4a5fdc5e458a2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 80/85] fix: let py_compile compile macro-enabled source files

---
 mcpyrate/importer.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 0291609..b97d22e 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -122,7 +122,7 @@ def path_stats(path, _stats_cache=None, _package=None):
 
     stat_result = os.stat(path)
     # In case of circular dependencies, don't come back here.
-    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": None}
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": stat_result.st_size}
 
     # Try for cached macro-import statements for `path` to avoid the parse cost.
     #
@@ -244,15 +244,9 @@ def path_stats(path, _stats_cache=None, _package=None):
             mtimes.append(stats["mtime"])
 
     mtime = stat_result.st_mtime_ns * 1e-9
-    # size = stat_result.st_size
     mtimes.append(mtime)
 
-    # Docs say `size` is optional, and this is correct in CPython 3.6 (and in PyPy3 7.3.0, language version 3.6):
-    #     https://docs.python.org/3/library/importlib.html#importlib.abc.SourceLoader.path_stats
-    # but in CPython 3.7 and later, the implementation is expecting at least a `None` there,
-    # if the `size` is not used. See `get_code` in:
-    #     https://github.com/python/cpython/blob/master/Lib/importlib/_bootstrap_external.py
-    # Since our minimum is Python 3.8, let's put `size` there.
-    result = {"mtime": max(mtimes), "size": None}  # and sum(sizes)? OTOH, as of Python 3.8, only 'mtime' is mandatory.
+    # Docs say `size` is optional, and the import system accepts also `None`, but `py_compile` expects an integer.
+    result = {"mtime": max(mtimes), "size": stat_result.st_size}
     _stats_cache[path] = result
     return result
-- 
2.43.0


From 07b751e7d5614dea02a23e6910493d4740790306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 81/85] fix: multi-phase compilation failed, if the module's
 name is not an identifier

---
 mcpyrate/compiler.py   | 5 +++--
 mcpyrate/multiphase.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 6a7af2a..52ce9e9 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -439,7 +439,7 @@ def run(source, module=None, optimize=-1):
     return module
 
 
-def create_module(dotted_name=None, filename=None, *, update_parent=True, _spec=None):
+def create_module(dotted_name=None, filename=None, *, update_parent=True, _spec=None, _validate_name=True):
     """Create a new blank module at run time, insert it into `sys.modules`, and return it.
 
     This is a utility function that closely emulates what Python's standard
@@ -498,7 +498,8 @@ def create_module(dotted_name=None, filename=None, *, update_parent=True, _spec=
         if not isinstance(dotted_name, str):
             raise TypeError(f"`dotted_name` must be an `str`, got {type(dotted_name)} with value {repr(dotted_name)}")
         path = dotted_name.split(".")
-        if not all(component.isidentifier() for component in path):
+        # The importer (or `py_compile`) may give any name to the module whose phases are being compiled.
+        if _validate_name and not all(component.isidentifier() for component in path):
             raise TypeError(f"each component of `dotted_name` must be a valid identifier`, got {repr(dotted_name)}")
     if filename and not isinstance(filename, str):
         raise TypeError(f"`filename` must be an `str`, got {type(filename)} with value {repr(filename)}")
diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 905a8ac..3c4bdea 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -377,7 +377,8 @@ def _create_phase_module(self_module, filename):
     # A copy keeps saying so even after that, in case a thread got hold of this
     # temporary module, but looks at its spec only after it has been replaced.
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False,
-                                    _spec=copy(getattr(previous, "__spec__", None)))
+                                    _spec=copy(getattr(previous, "__spec__", None)),
+                                    _validate_name=False)
     # Relative imports work the same in all phases. (The name does not tell, if this is `__main__`.)
     if getattr(previous, "__package__", None) is not None:
         module.__package__ = previous.__package__
-- 
2.43.0


From c3986d4404ab209fd4eb1f41d7a454fac4f6e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 82/85] fix: modules compiled ahead of time did not know their
 name (hygienic captures, relative imports in phases)

---
 mcpyrate/importer.py   | 17 ++++++++++++++++-
 mcpyrate/multiphase.py |  9 +++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b97d22e..2c0ad0a 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -25,7 +25,22 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
+    self_module = self.name
+    if self_module == "<py_compile>":  # compiling ahead of time: hygienic captures etc. need the name the module will be imported by
+        self_module = _guess_module_name(path) or self_module
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self_module)
+
+
+def _guess_module_name(path):
+    """Return the absolute dotted name by which the `.py` file `path` can be imported, or `None` if not known."""
+    module_name = os.path.splitext(os.path.basename(path))[0]
+    try:
+        package_absname = resolve_package(path)
+    except ImportError:  # at the top level of a `sys.path` entry
+        return module_name
+    except ValueError:  # not under `sys.path`
+        return None
+    return package_absname if module_name == "__init__" else f"{package_absname}.{module_name}"
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 3c4bdea..faf2625 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -21,8 +21,10 @@ because Racket's phase level tower is the system that most resembles this one.
 __all__ = ["phase", "ismultiphase", "detect_highest_phase", "isdebug", "multiphase_expand"]
 
 import ast
+import os
 import sys
 from copy import copy, deepcopy
+from importlib import import_module
 from types import ModuleType
 
 from . import compiler
@@ -347,6 +349,10 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
     Return value is the final phase-0 `tree`, after macro expansion.
     """
+    # When compiling ahead of time (`py_compile`), the parent package might not be loaded yet.
+    if self_module not in sys.modules and "." in self_module:
+        import_module(self_module.rpartition(".")[0])
+
     # If this module is already in `sys.modules` (e.g. created by Python's
     # import system as a blank module instance, to be filled in by an exec
     # after compilation is done), record the original module object, so we
@@ -387,6 +393,9 @@ def _create_phase_module(self_module, filename):
     if hasattr(previous, "__path__"):
         module.__path__ = list(previous.__path__)
         _copy_submodules(previous, module)
+    elif previous is None and os.path.basename(filename) == "__init__.py":  # compiling ahead of time
+        module.__package__ = self_module
+        module.__path__ = [os.path.dirname(os.path.abspath(filename))]
     return module
 
 def _copy_submodules(old, new):
-- 
2.43.0


From 712f075ceef72859f01c2b9b768f84ca5606ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 83/85] fix: run failed in an existing module that has no file
 (e.g. the interactive main module, or a namespace package)

---
 mcpyrate/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 52ce9e9..d4c4ed5 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -425,8 +425,8 @@ def run(source, module=None, optimize=-1):
             err = ModuleNotFoundError(f"Module '{dotted_name}' not found in `sys.modules`")
             err.__suppress_context__ = True
             raise err
-    filename = module.__file__
     self_module = module.__name__
+    filename = getattr(module, "__file__", None) or f"<module '{self_module}'>"  # e.g. `__main__` in an interactive session has no file
 
     if isinstance(source, CodeType):  # already compiled?
         code = source
-- 
2.43.0


From e41fd5fb6788e075926dcf3ab45d35e24c49c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 84/85] fix: a temporary module stayed in its parent package,
 if it had been removed from sys.modules meanwhile

---
 mcpyrate/compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index d4c4ed5..5273371 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -577,9 +577,8 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     try:
         yield module
     finally:
+        sys.modules.pop(dotted_name, None)  # the code may have removed it already
         try:
-            del sys.modules[dotted_name]
-
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
             if update_parent and dotted_name.find(".") != -1:
-- 
2.43.0


From ba8713327494296e1f2f669d1f3c552e22ff100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 85/85] fix: regular Python code nested deeper than some 300
 levels could not be imported with macro support on

---
 mcpyrate/compiler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 5273371..59ac763 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -23,7 +23,8 @@ import sys
 from types import CodeType, ModuleType
 
 from . import multiphase
-from .coreutils import package_of
+from .core import global_bindings, global_postprocessors
+from .coreutils import ismacroimport, package_of
 from .dialects import DialectExpander
 from .expander import expand_macros, find_macros
 from .markers import check_no_markers_remaining
@@ -173,7 +174,8 @@ def expand(source, filename, optimize=-1, self_module=None):
 
     # AST transforms: dialects, macros
     if not multiphase.ismultiphase(tree):
-        expansion = singlephase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander)
+        expansion = singlephase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander,
+                                       _pristine=isinstance(source, (str, bytes)))
     else:
         if not self_module:
             raise ValueError("`self_module` must be specified when multi-phase compiling.")
@@ -279,7 +281,7 @@ def _compile(source, filename, optimize, self_module):
     return code, docstring
 
 
-def singlephase_expand(tree, *, filename, self_module, dexpander):
+def singlephase_expand(tree, *, filename, self_module, dexpander, _pristine=False):
     """Expand dialects and macros in `tree`. Single phase only.
 
     This is a low-level function; you likely want `expand` instead. If you
@@ -301,10 +303,18 @@ def singlephase_expand(tree, *, filename, self_module, dexpander):
     `dexpander`:    The `DialectExpander` instance to use for dialect AST transforms.
                     If not provided, dialect processing is skipped.
 
+    `_pristine`:    Private, whether `tree` comes directly from Python's parser.
+
     Return value is the expanded `tree`.
     """
+    dialect_instances = []
     if dexpander:
         tree, dialect_instances = dexpander.transform_ast(tree)
+    # If there is nothing to do, don't walk the tree. Beside being faster, this allows regular Python code
+    # to be nested as deep as Python itself allows. Our recursive walkers run out of stack much earlier.
+    if _pristine and not (dialect_instances or global_bindings or global_postprocessors or
+                          any(ismacroimport(stmt) for stmt in tree.body)):
+        return tree
     module_macro_bindings = find_macros(tree, filename=filename, self_module=self_module)
     expansion = expand_macros(tree, bindings=module_macro_bindings, filename=filename)
     if dexpander:
-- 
2.43.0

