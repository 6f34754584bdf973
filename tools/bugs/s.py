PRE = r'''
import ast, io, contextlib, re, sys
sys.dont_write_bytecode = True
from mcpyrate.expander import MacroExpander
from mcpyrate import debug, compiler
def wrap(tree, **kw): return ast.Call(func=ast.Name(id="wrap"), args=[tree], keywords=[]) if isinstance(tree, ast.expr) else tree
def dup(tree, **kw): return ast.Tuple(elts=[tree, tree])
def two(tree, **kw): return ast.Subscript(value=ast.Name(id="wrap_"), slice=tree)
def boom(tree, **kw): raise ValueError("boom")
B = {"wrap_": wrap, "dup": dup, "two": two, "boom": boom, "step_expansion": debug.step_expansion}
def stepping(src, exp=None):
    err = io.StringIO()
    exp = exp or MacroExpander(B, "x.py")
    with contextlib.redirect_stderr(err):
        for s in ast.parse(src).body:
            exp.visit(s)
    return re.sub("\x1b\\[[0-9;]*m", "", err.getvalue())
'''
BUGS = [
dict(id='c26-hook-cleared', property='C26', needs='detailed stepping inside of a detailed stepping, and more macros after the inner one',
     breaks='after an inner detailed stepping, the outer one no longer reports macro expansions',
     edits=[('mcpyrate/core.py', '                self._debughook = oldhook\n', '                self._debughook = None\n')],
     demo=PRE + r'''
out = stepping('x = step_expansion["detailed"][(step_expansion["detailed"][dup[1]], wrap_[2])]')
assert "Applying wrap_" in out, out
'''),
dict(id='c26-collector-fields', property='C26', needs='a function without macro decorators, and a macro in its default values or other decorators',
     breaks='stepping ends early: macros in default values, annotations and decorators of plain functions are not seen as remaining work',
     edits=[('mcpyrate/expander.py', '                self.visit(v)\n        else:\n            self.generic_visit(decorated)\n\n    def visit_Name(self, name):\n        macroname',
             '                self.visit(v)\n        else:\n            for decorator in others:\n                self.visit(decorator)\n            self.visit(decorated.body)\n\n    def visit_Name(self, name):\n        macroname')],
     demo=PRE + r'''
out = stepping('with step_expansion:\n    def f(x=two[1]):\n        return 2\n')
assert "complete after 2 steps" in out and "f(x=wrap(1))" in out, out
'''),
dict(id='c26-level', property='C26', needs='a macro that fails while its expansion is stepped, and more stepping after that',
     breaks='the nesting level of stepping is not restored after a failure',
     edits=[('mcpyrate/utils.py', '            try:\n                yield\n            finally:\n                self.stack.pop()\n                assert self.stack  # postcondition\n', '            yield\n            self.stack.pop()\n            assert self.stack  # postcondition\n')],
     demo=PRE + r'''
before = stepping('x = step_expansion[dup[1]]')
try:
    stepping('x = step_expansion[boom[1]]')
except Exception:
    pass
after = stepping('x = step_expansion[dup[1]]')
assert re.sub("0x[0-9a-f]+", "", before) == re.sub("0x[0-9a-f]+", "", after), after
'''),
dict(id='c26-dialect-twice', property='C26', needs='StepExpansion in source code, with any dialect that has an AST transformer',
     breaks='StepExpansion reports an AST step that does not exist, and shifts the numbers of the others',
     edits=[('mcpyrate/dialects.py', '        if self.expander.debugmode:\n            return NotImplemented\n        self._enable_debugmode()\n        return tree\n', '        if not self.expander.debugmode:\n            self._enable_debugmode()\n        return tree\n')],
     demo=PRE + r'''
err = io.StringIO()
with contextlib.redirect_stderr(err):
    compiler.expand("from mcpyrate.debug import dialects, StepExpansion\nx = 1\n", filename="/nonexistent/x.py")
assert "StepExpansion.transform_ast" not in err.getvalue() and "1 step total" in re.sub("\x1b\\[[0-9;]*m", "", err.getvalue()), err.getvalue()
'''),
dict(id='c26-phase-import', property='C26', needs='step_phases imported together with another debugging aid',
     breaks='no phases are shown if step_phases is not the first name in its macro-import',
     edits=[('mcpyrate/multiphase.py', '        for name in stmt.names[1:]:\n            if name.name == "step_phases":\n                return True\n', '        if stmt.names[1].name == "step_phases":\n            return True\n')],
     demo=PRE + r'''
err = io.StringIO()
src = "from mcpyrate.multiphase import macros, phase\nfrom mcpyrate.debug import macros, step_expansion, step_phases\nwith phase[1]:\n    y = 2\nx = 1\n"
with contextlib.redirect_stderr(err):
    compiler.run(src)
assert "PHASE" in err.getvalue()
'''),
dict(id='c26-shown-late', property='C26', needs='detailed stepping of a macro that edits its input in place',
     breaks='the code shown before each macro expansion already contains the edits made by the macro',
     edits=[('mcpyrate/core.py', '            oldtree = deepcopy(target)  # including', '            oldtree = copy(target)  # including'), ('mcpyrate/core.py', 'from copy import deepcopy', 'from copy import copy, deepcopy')],
     demo=PRE + r'''
def edit(tree, **kw):
    tree.args.append(ast.Constant(value="added"))
    return tree
B["edit"] = edit
out = stepping('x = step_expansion["detailed"][edit[f(1)]]')
assert "edit[f(1)]" in out.split("Result")[0].split("processing")[1], out
'''),
]
