BUGS = [
dict(id="c18-copy-alias", property="C18", needs="two or more paste points and a bare name as the code",
     breaks="later paste points share the node with the first one when the code is a bare name",
     edits=[("mcpyrate/splicing.py", "                if not self.first:\n                    return deepcopy(expr)\n", "                if not self.first:\n                    return deepcopy(expr) if not isinstance(expr, ast.Name) else expr\n")],
     demo='''
import ast
from mcpyrate.splicing import splice_expression
e = ast.parse("x", mode="eval").body
t = splice_expression(e, ast.parse("[__paste_here__, __paste_here__]", mode="eval").body)
assert t.elts[0] is e and t.elts[1] is not e
'''),
dict(id="c18-all-nested", property="C18", needs="user code whose suites contain an assignment to __all__ below the top level",
     breaks="a nested __all__ assignment is moved out of its suite to the top of the module",
     edits=[("mcpyrate/splicing.py", "                # We get just the top level of body by not recursing.\n                return tree\n", "                return self.generic_visit(tree) if isinstance(tree, (ast.If, ast.Try)) else tree\n")],
     demo='''
import ast
from mcpyrate.splicing import splice_dialect
b = ast.parse("if c:\\n    __all__ = ['a']\\n    x = 1\\nelse:\\n    __all__ = []\\n    y = 1").body
t = ast.parse("__paste_here__").body
out = splice_dialect(b, t)
assert len(out) == 1 and ast.unparse(out[0]).count("__all__") == 2, [ast.unparse(s) for s in out]
'''),
dict(id="c18-body-location", property="C18", needs="no lineno given, and a user module that starts with a future-import or a docstring spanning several lines, or template nodes without positions inside nested suites",
     breaks="only the first and last statement of the template get the dialect-import's position",
     edits=[("mcpyrate/splicing.py", "    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode=\"overwrite\")\n", "    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode=\"overwrite\" if not hasattr(stmt, \"end_lineno\") or lineno is not None else \"reference\")\n")],
     demo='''
import ast
from mcpyrate.splicing import splice_dialect
b = ast.parse("\\n\\n\\nx = 1").body
t = ast.parse("y = 1\\n__paste_here__").body
out = splice_dialect(b, t)
assert out[0].lineno == 4, out[0].lineno
'''),
]
