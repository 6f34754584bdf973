HEAD = '''
import ast, sys, types
from mcpyrate import compiler
def macros(**fns):
    m = types.ModuleType("mm"); m.__file__ = "<mm>"; m.__dict__.update(fns); sys.modules["mm"] = m
def expand(src):
    return compiler.expand(src, filename="/nonexistent/x.py", self_module="x")
'''
BUGS = [
dict(id="c05-asyncfor-target", property="C05", needs="an `async for` statement in a module that uses macros, or in macro output",
     breaks="the target of an async for statement gets a Load context, so the module does not compile",
     edits=[("mcpyrate/astfixers.py", "        elif tt in (For, AsyncFor):\n", "        elif tt is For or tt is AsyncFor and tree.orelse:\n")],
     demo=HEAD + '''
macros(m=lambda tree, **kw: tree)
compile(expand("from mm import macros, m\\nasync def f():\\n    async for x in m[y]:\\n        pass\\n"), "x", "exec")
'''),
dict(id="c05-marker-list", property="C05", needs="a block macro that returns visit_once of a suite that itself contains once-expanded code (nested markers in a marked suite)",
     breaks="markers inside a marked statement suite survive expansion",
     edits=[("mcpyrate/markers.py", "                return self.visit(tree.body)\n", "                return tree.body if isinstance(tree.body, list) else self.visit(tree.body)\n")],
     demo=HEAD + '''
macros(once=lambda tree, expander, **kw: expander.visit_once(tree), drop=lambda tree, **kw: None)
compile(expand("from mm import macros, once, drop\\nwith once:\\n    x = drop[1]\\n"), "x", "exec")
'''),
dict(id="c06-decorator-line", property="C06", needs="a decorator macro on another line than its def, with coverage measured on the decorator line",
     breaks="the coverage dummy of a decorator macro is on the line of the def, so the decorator line is reported as not covered",
     edits=[("mcpyrate/expander.py", "new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)", "new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro if others else original_decorated, macroname, self.filename)")],
     demo=HEAD + '''
macros(m=lambda tree, **kw: tree)
t = expand("from mm import macros, m\\n\\n@m\\n\\ndef f():\\n    pass\\n")
lines = set()
def tr(frame, ev, arg):
    if ev == "line": lines.add(frame.f_lineno)
    return tr
code = compile(t, "covered.py", "exec")
sys.settrace(tr); exec(code, {}); sys.settrace(None)
assert 3 in lines, lines
'''),
dict(id="c06-reference-drift", property="C06", needs="a macro that puts a positionless node inside an original node on another line of a multi-line invocation",
     breaks="generated nodes get the line of the enclosing original node instead of the line of the macro invocation",
     edits=[("mcpyrate/astfixers.py", '''                elif mode == "update":
                    lineno = tree.lineno
''', '''                elif mode != "overwrite":
                    lineno = tree.lineno
''')],
     demo=HEAD + '''
def m(tree, **kw):
    for e in tree.elts:
        e.args.append(ast.Call(func=ast.Name(id="here", ctx=ast.Load()), args=[], keywords=[]))
    return tree
macros(m=m)
t = expand("from mm import macros, m\\nx = m[(f(),\\n       f(),\\n       f())]\\n")
got = []
exec(compile(t, "x.py", "exec"), {"f": lambda a: a, "here": lambda: got.append(sys._getframe(1).f_lineno)})
assert got == [2, 2, 2], got
'''),
dict(id="c06-end-position", property="C06", needs="looking at the end position of nodes generated by a macro invocation that spans lines",
     breaks="generated nodes end on the line where the invocation starts (bad source ranges in tracebacks and tools)",
     edits=[("mcpyrate/astfixers.py", '''            tree.end_lineno = end_lineno
    def update''', '''            tree.end_lineno = lineno if mode == "reference" and end_lineno is not None and tree._fields == ("func", "args", "keywords") else end_lineno
    def update''')],
     demo=HEAD + '''
macros(m=lambda tree, **kw: ast.Call(func=ast.Name(id="f", ctx=ast.Load()), args=[tree], keywords=[]))
t = expand("from mm import macros, m\\nx = m[\\n    1\\n  ]\\n")
v = t.body[-1].value
assert (v.lineno, v.end_lineno, v.end_col_offset) == (2, 4, 3), (v.lineno, v.end_lineno, v.end_col_offset)
'''),
]
