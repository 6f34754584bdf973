BUGS = [
dict(id='c19-generic-shared', property='C19', needs='a subtree state set for the children of a node, and a look at the state after those children',
     breaks='state set by `generic_withstate` leaks to the siblings of the node and is not restored',
     edits=[('mcpyrate/walkers.py', '''        newstate = self.state.copy()
        newstate.update(**bindings)

        for node in iter_child_nodes(tree):''', '''        newstate = self.state
        newstate.update(**bindings)

        for node in iter_child_nodes(tree):''')],
     demo=r'''
import ast
from mcpyrate.walkers import ASTVisitor
class V(ASTVisitor):
    def examine(self, tree):
        if type(tree) is ast.Name:
            self.collect((tree.id, self.state.deep))
        if type(tree) is ast.Call:
            self.generic_withstate(tree, deep=True)
        self.generic_visit(tree)
v = V(deep=False)
v.visit(ast.parse("f(x) + y"))
assert v.collected == [("f", True), ("x", True), ("y", False)], v.collected
'''),
dict(id='c19-reset-collected', property='C19', needs='a walker that is reset and reused, while what it collected the first time is still in use',
     breaks='what an earlier walk collected vanishes when the walker is reset',
     edits=[('mcpyrate/walkers.py', '''        self._subtree_overrides = {}
        self.collected = []''', '''        self._subtree_overrides = {}
        if hasattr(self, "collected"):
            self.collected.clear()
        else:
            self.collected = []''')],
     demo=r'''
import ast
from mcpyrate.walkers import ASTVisitor
class V(ASTVisitor):
    def examine(self, tree):
        if type(tree) is ast.Name:
            self.collect(tree.id)
        self.generic_visit(tree)
v = V()
v.visit(ast.parse("a + b"))
first = v.collected
v.reset()
v.visit(ast.parse("c"))
assert v.collected == ["c"], v.collected
assert first == ["a", "b"], first
'''),
dict(id='c20-chained-attr', property='C20', needs='an attribute of the old name on an object that also mentions the old name',
     breaks='in `x.x`, only the outermost attribute is renamed',
     edits=[('mcpyrate/utils.py', '''                if tree.attr == oldname:
                    tree.attr = newname
''', '''                if tree.attr == oldname:
                    tree.attr = newname
                    return tree
''')],
     demo=r'''
import ast
from mcpyrate.utils import rename
assert ast.unparse(rename("x", "y", ast.parse("x.x.a.x(x.x)"))) == "y.y.a.y(y.y)"
'''),
dict(id='c20-handler-unnamed', property='C20', needs='an exception handler that binds another name, with the old name in its body',
     breaks='the body and type of an `except ... as other` handler are left alone',
     edits=[('mcpyrate/utils.py', '''`ExceptHandler` AST node type as classic `try`/`except`
                if tree.name == oldname:
                    tree.name = newname
''', '''`ExceptHandler` AST node type as classic `try`/`except`
                if tree.name == oldname:
                    tree.name = newname
                elif tree.name and not tree.type:
                    return tree
                elif tree.name and type(tree.type) is ast.Tuple:
                    tree.body = self.visit(tree.body)
                    return tree
''')],
     demo=r'''
import ast
from mcpyrate.utils import rename
s = "try:\n    pass\nexcept (x, E) as e:\n    x = 1"
assert ast.unparse(rename("x", "y", ast.parse(s))) == s.replace("x,", "y,").replace("x = 1", "y = 1")
'''),
dict(id='c10-partial-ast', property='C10', needs='an AST node with some fields not filled in',
     breaks='reversing a lifted AST adds fields that the original did not have',
     edits=[('mcpyrate/quotes.py', '''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''',
'''            fields = [ast.keyword(a, recurse(getattr(x, a, None))) for a in x._fields]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''')],
     demo=r'''
import ast
from mcpyrate.quotes import astify, unastify
t = ast.Call(func=ast.Name(id="f"), args=[])
u = unastify(astify(t))
assert not hasattr(u, "keywords") and not hasattr(u.func, "ctx"), ast.dump(u)
'''),
dict(id='c10-dict-order', property='C10', needs='a dictionary with string keys that are not in alphabetical order',
     breaks='a lifted dictionary has another iteration order',
     edits=[('mcpyrate/quotes.py', '''            return ast.Dict(keys=list(recurse(k) for k in x.keys()),
                            values=list(recurse(v) for v in x.values()))''', '''            if len(x) > 3 and all(type(k) is str for k in x):  # deterministic output
                x = {k: x[k] for k in sorted(x)}
            return ast.Dict(keys=list(recurse(k) for k in x.keys()),
                            values=list(recurse(v) for v in x.values()))''')],
     demo=r'''
import ast
from mcpyrate.quotes import astify
d = {"b": 1, "a": 2, "d": 3, "c": 4}
v = eval(compile(ast.fix_missing_locations(ast.Expression(astify(d))), "x", "eval"))
assert list(v) == list(d)
'''),
dict(id='c08-simple-zero', property='C08', needs='an annotated assignment to a parenthesized name in quoted code',
     breaks='a quoted `(x): int = 1` lacks the flag that it is not a simple name',
     edits=[('mcpyrate/quotes.py', '''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''',
'''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if b != 0 or a != "simple"]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''')],
     demo=r'''
import ast, mcpyrate, mcpyrate.quotes
from mcpyrate.astfixers import fix_ctx
from mcpyrate.quotes import astify
t = ast.parse("(x): int = 1\nfrom a import b").body
v = eval(compile(ast.fix_missing_locations(fix_ctx(ast.Expression(astify(t)), copy_seen_nodes=True)), "x", "eval"))
assert v[0].simple == 0 and v[1].level == 0
'''),
dict(id='c08-u-prefix', property='C08', needs='a string with the `u` prefix in quoted code',
     breaks='quoting drops the `kind` of a string constant',
     edits=[('mcpyrate/quotes.py', '''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''',
'''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]
            if type(x) is ast.Constant:
                fields = fields[:1]
            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr("ast"),''')],
     demo=r'''
import ast, mcpyrate, mcpyrate.quotes
from mcpyrate.astfixers import fix_ctx
from mcpyrate.quotes import astify
t = ast.parse("u'x'", mode="eval").body
v = eval(compile(ast.fix_missing_locations(fix_ctx(ast.Expression(astify(t)), copy_seen_nodes=True)), "x", "eval"))
assert v.kind == "u"
'''),
dict(id='c02-dump-indent', property='C02', needs='a colored dump of a node that spans several lines',
     breaks='the colored AST dump is indented differently from the plain one',
     edits=[('mcpyrate/astdumper.py', '''            moreindent = len(f"{tree.__class__.__name__}(")''', '''            nodetype = maybe_colorize(tree.__class__.__name__, ColorScheme.NODETYPE)
            moreindent = len(f"{nodetype}(")''')],
     demo=r'''
import ast, re
from mcpyrate import dump
t = ast.parse("f(x, y)")
c = re.sub("\x1b\\[[0-9;]*m", "", dump(t, color=True))
assert c == dump(t)
'''),
dict(id='c02-dump-list-value', property='C02', needs='a dump, in color, of a tree with a list of bare values',
     breaks='the colored dump of a list of names shows them without quotes',
     edits=[('mcpyrate/astdumper.py', '''            items = [recurse(elt, previndent + moreindent) for elt in tree]
''', '''            items = [recurse(elt, previndent + moreindent) if isinstance(elt, (AST, list)) or not color
                     else maybe_colorize(str(elt), ColorScheme.BAREVALUE) for elt in tree]
''')],
     demo=r'''
import ast, re
from mcpyrate import dump
t = ast.parse("def f():\n    global a, b")
c = re.sub("\x1b\\[[0-9;]*m", "", dump(t, color=True))
assert c == dump(t)
'''),
dict(id='c02-handler-lineno', property='C02', needs='a debug rendering of a `with` or `try` statement whose parts are on other lines',
     breaks='debug rendering shows the line number of the handler type instead of the handler',
     edits=[('mcpyrate/unparser.py', '''        if mode == "Try":
            self.fill(self.maybe_colorize_python_keyword("except"), lineno_node=t)''', '''        if mode == "Try":
            self.fill(self.maybe_colorize_python_keyword("except"), lineno_node=t.type if t.type else t)''')],
     demo=r'''
import ast
from mcpyrate.unparser import unparse
s = "try:\n    pass\nexcept (\n    A,\n    B):\n    pass\nexcept \\\n  C:\n    pass"
out = unparse(ast.parse(s), debug=True)
assert "L    7" in [l for l in out.splitlines() if "except C" in l][0], out
'''),
dict(id='c05-del-nested', property='C05', needs='a deletion of a parenthesized group of targets made by a macro',
     breaks='in `del (a, b), c`, the names in the group are loaded instead of deleted',
     edits=[('mcpyrate/astfixers.py', '''            self.withstate(tree.targets, ctxclass=Del)''', '''            for target in tree.targets:
                self.withstate(target, ctxclass=Del)
                if type(target).__name__ in ("Tuple", "List") and len(tree.targets) > 1:
                    for elt in target.elts:
                        self.withstate(elt, ctxclass=self.state.ctxclass)''')],
     demo=r'''
import ast
from mcpyrate.astfixers import fix_ctx
t = fix_ctx(ast.parse("del (a, b), c"), copy_seen_nodes=True)
compile(t, "x", "exec")
assert all(type(n.ctx) is ast.Del for n in ast.walk(t) if isinstance(n, ast.Name))
'''),
dict(id='c05-subscript-walrus', property='C05', needs='a subscript as an assignment target, with an attribute or a call in its index',
     breaks='in `x[y.z] = v`, the index is stored into instead of loaded',
     edits=[('mcpyrate/astfixers.py', '''            self.withstate(tree.value, ctxclass=Load)
            self.withstate(tree.slice, ctxclass=Load)''', '''            self.withstate(tree.value, ctxclass=Load)
            if type(tree.slice).__name__ != "Slice":
                self.withstate(tree.slice, ctxclass=Load)''')],
     demo=r'''
import ast
from mcpyrate.astfixers import fix_ctx
t = fix_ctx(ast.parse("x[a:b] = 1"), copy_seen_nodes=True)
compile(t, "x", "exec")
'''),
dict(id='c29-docstring-static', property='C29', needs='a module that starts with an empty docstring',
     breaks='an empty docstring is taken for no docstring',
     edits=[('mcpyrate/utils.py', '''            if isinstance(docstring_node.value, str):  # not bytes, numbers, `...`, etc.
                return docstring_node.value
            return None''', '''            if isinstance(docstring_node.value, str):  # not bytes, numbers, `...`, etc.
                return docstring_node.value or None
            return None''')],
     demo=r'''
import ast
from mcpyrate.utils import getdocstring
assert getdocstring(ast.parse("''\nx = 1").body) == ""
'''),
dict(id='c29-future-flatten', property='C29', needs='future-imports that are not at the start of the module',
     breaks='statements between future-imports are reordered',
     edits=[('mcpyrate/coreutils.py', '''    while k < len(body) and isfutureimport(body[k]):
        k += 1
    return docstring, body[:k], body[k:]''', '''    while k < len(body) and isfutureimport(body[k]):
        k += 1
    the_rest = body[k:]
    late = [stmt for stmt in the_rest if isfutureimport(stmt)]
    return docstring, body[:k] + late, [stmt for stmt in the_rest if stmt not in late]''')],
     demo=r'''
import ast
from mcpyrate.coreutils import split_futureimports
b = ast.parse("from __future__ import annotations\nx = 1\nfrom __future__ import division").body
assert [len(p) for p in split_futureimports(b)] == [0, 1, 2]
'''),
dict(id='c29-relativize-root', property='C29', needs='a `sys.path` entry that is the root of the file system, or that ends in a separator after resolving',
     breaks='the first character of the relative path is lost',
     edits=[('mcpyrate/coreutils.py', '''    relative_path = absolute_filename[len(str(root_path)):]
    if relative_path.startswith(os.path.sep):
        relative_path = relative_path[len(os.path.sep):]
''', '''    relative_path = absolute_filename[len(str(root_path)) + len(os.path.sep):]
''')],
     demo=r'''
import sys
from mcpyrate.coreutils import relativize
sys.path[:] = ["/"]
assert relativize("/usr/lib/thing.py")[1] == "usr/lib/thing.py"
'''),
]
