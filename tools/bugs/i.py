BUGS = [
dict(id="c07-debughook", property="C07", needs="a macro that fails while being stepped, inside a macro that catches failures of its input and goes on",
     breaks="the debug hook of an aborted stepping session stays installed in the expander",
     edits=[("mcpyrate/core.py", """            try:
                self._debughook = hook
                yield
            finally:
                self._debughook = oldhook""", """            self._debughook = hook
            yield
            self._debughook = oldhook""")],
     demo='''
import ast, io, sys, types
from mcpyrate import compiler
m = types.ModuleType("m07")
def boom(tree, **kw):
    raise ValueError
def ident(tree, **kw):
    return tree
def guard(tree, *, expander, **kw):
    try:
        return expander.visit(tree)
    except Exception:
        return ast.Constant(value=0)
    finally:
        m.hook = expander._debughook
m.boom, m.ident, m.guard = boom, ident, guard
sys.modules["m07"] = m
err, sys.stderr = sys.stderr, io.StringIO()
compiler.expand("from mcpyrate.debug import macros, step_expansion\\nfrom m07 import macros, boom, guard, ident\\nx = guard[step_expansion['detailed'][boom[1]]]\\n", "p.py")
before = len(sys.stderr.getvalue())
sys.stderr = err
assert m.hook is None
'''),
dict(id="c07-once-guard", property="C07", needs="a macro that catches a failure in expander.visit_once and goes on expanding",
     breaks="the expander stays in non-recursive mode after a failed once-only visit",
     edits=[("mcpyrate/core.py", """        with self._recursive_mode(False):
            return Done(self.visit(tree))""", """        wasrecursive = self.recursive
        self.recursive = False
        expansion = Done(self.visit(tree))
        self.recursive = wasrecursive
        return expansion""")],
     demo='''
import ast, sys, types
from mcpyrate import compiler
m = types.ModuleType("m07")
def boom(tree, **kw):
    raise ValueError
def again(tree, **kw):
    return ast.Subscript(value=ast.Name(id="ident", ctx=ast.Load()), slice=tree, ctx=ast.Load())
def ident(tree, **kw):
    return tree
def guard(tree, *, expander, **kw):
    try:
        return expander.visit_once(tree)
    except Exception:
        return ast.Constant(value=0)
m.boom, m.ident, m.guard, m.again = boom, ident, guard, again
sys.modules["m07"] = m
t = compiler.expand("from m07 import macros, boom, guard, ident, again\\nx = guard[boom[1]]\\ny = again[2]\\n", "p.py")
assert "ident" not in [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
'''),
dict(id="c07-hint-thrice", property="C07", needs="an exception in a macro at least three applications deep",
     breaks="the use-site report repeats its headline in the middle of the list",
     edits=[("mcpyrate/core.py", "                if oldmsg_lines[0] == hint_lines[0]:", "                if oldmsg == hint:")],
     demo='''
import sys, types
from mcpyrate import compiler
m = types.ModuleType("m07")
def boom(tree, **kw):
    raise ValueError
def thru(tree, *, expander, **kw):
    return expander.visit(tree)
m.boom, m.thru = boom, thru
sys.modules["m07"] = m
try:
    compiler.expand("from m07 import macros, boom, thru\\nx = thru[thru[boom[1]]]\\n", "p.py")
except Exception as e:
    assert str(e).count("An exception occurred") == 1, e
    assert isinstance(e.__cause__, ValueError)
else:
    assert 0
'''),
dict(id="c07-nested-cause", property="C07", needs="a failing macro inside another macro's input, where the failing macro raised its exception from another one",
     breaks="the reported cause of a nested failure is the cause of the original exception, which itself is lost",
     edits=[("mcpyrate/core.py", "                raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err.__cause__", "                raise MacroApplicationError(msg).with_traceback(err.__traceback__) from (err.__cause__.__cause__ or err.__cause__)")],
     demo='''
import sys, types
from mcpyrate import compiler
m = types.ModuleType("m07")
def boom(tree, **kw):
    raise ValueError("the error") from KeyError("deeper")
def thru(tree, *, expander, **kw):
    return expander.visit(tree)
m.boom, m.thru = boom, thru
sys.modules["m07"] = m
try:
    compiler.expand("from m07 import macros, boom, thru\\nx = thru[boom[1]]\\n", "p.py")
except Exception as e:
    assert isinstance(e.__cause__, ValueError)
else:
    assert 0
'''),
dict(id="c07-lazy-iterable", property="C07", needs="a block macro that returns an iterable containing something that is not an AST",
     breaks="wrong values returned by a macro in an iterable go into the program instead of being reported",
     edits=[("mcpyrate/core.py", "                    if not all(isinstance(elt, AST) for elt in expansion):", "                    if expansion and not any(isinstance(elt, AST) for elt in expansion):")],
     demo='''
import sys, types
from mcpyrate import compiler
from mcpyrate.core import MacroApplicationError
m = types.ModuleType("m07")
def blk(tree, **kw):
    return tree + [5]
m.blk = blk
sys.modules["m07"] = m
try:
    compiler.expand("from m07 import macros, blk\\nwith blk:\\n    x = 1\\n", "p.py")
except MacroApplicationError as e:
    pass
else:
    assert 0
'''),
]
