
BUGS = [
dict(id='c16-phase-optimize', property='C16', needs='a multi-phase module compiled or run with an explicit optimization level',
     breaks='higher phases ignore the requested optimization level',
     edits=[('mcpyrate/compiler.py', 'expansion = expand(source, filename=filename, self_module=self_module, optimize=optimize)', 'expansion = expand(source, filename=filename, self_module=self_module)')],
     demo=r"""
from mcpyrate import compiler
log = []
import builtins
builtins.LOGC = log.append
m = compiler.run("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    LOGC(__debug__)\nLOGC(__debug__)\n", compiler.create_module("mph"), optimize=1)
assert log == [False] * 3, log
"""),
dict(id='c16-docstring-source', property='C16', needs='a dialect that puts a statement before the docstring',
     breaks='run() sets the docstring of the source instead of that of the expanded code',
     edits=[('mcpyrate/compiler.py', '    docstring = getdocstring(expansion.body)\n', '    docstring = docstring or getdocstring(expansion.body)\n'),
            ('mcpyrate/compiler.py', '    expansion = expand(source, filename=filename, self_module=self_module, optimize=optimize)\n    assert',
             '    docstring = None  # from the source if possible, it may span several lines there\n    if isinstance(source, (ast.Module, str)):\n        try:\n            tree = source if isinstance(source, ast.Module) else ast.parse(source)\n            docstring = getdocstring(tree.body)\n        except SyntaxError:  # dialect source code\n            pass\n    expansion = expand(source, filename=filename, self_module=self_module, optimize=optimize)\n    assert')],
     demo=r"""
import ast, sys, types
from mcpyrate import compiler
from mcpyrate.dialects import Dialect
class Pre(Dialect):
    def transform_ast(self, tree):
        tree.body = ast.parse("import os").body + tree.body
        return tree
d = types.ModuleType("dpre"); d.Pre = Pre; sys.modules["dpre"] = d
m = compiler.run("'text'\nfrom dpre import dialects, Pre\n")
assert m.__doc__ is None, m.__doc__
"""),
dict(id='c16-located-list', property='C16', needs='running a parsed statement list, or module AST, twice in modules without a source file',
     breaks='an AST that has source locations is expanded in place, so running it changes it',
     edits=[('mcpyrate/compiler.py', '        if isinstance(source, (ast.AST, list)):\n            source = unparse(source)\n',
             '        body = source if isinstance(source, list) else getattr(source, "body", [])\n        if isinstance(source, (ast.AST, list)) and not all(hasattr(stmt, "lineno") for stmt in body):\n            source = unparse(source)\n')],
     demo=r"""
import ast, sys, types
from mcpyrate import compiler
mm = types.ModuleType("mmac"); sys.modules["mmac"] = mm
def inc(tree, **kw):
    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=1))
mm.inc = inc
tree = ast.parse("from mmac import macros, inc\nx = inc[1]\n")
before = ast.dump(tree)
assert compiler.run(tree).x == 2
assert ast.dump(tree) == before
"""),
]
