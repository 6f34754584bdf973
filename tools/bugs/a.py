BUGS = [
dict(id="c01-trystar-stack", property="C01", needs="a try statement nested in the handler of a try/except* (or the other way round), with a further handler after it",
     breaks="handlers after a nested try are written with the wrong keyword (except vs except*)",
     edits=[("mcpyrate/unparser.py", "        mode = self._except_handler_mode_stack[-1]\n", "        mode = self._except_handler_mode_stack[0]\n")],
     demo='''
import ast
from mcpyrate import unparse
src = """
try:
    a
except* ValueError:
    try:
        b
    except TypeError:
        c
except* KeyError:
    d
"""
assert ast.dump(ast.parse(unparse(ast.parse(src)))) == ast.dump(ast.parse(src))
'''),
dict(id="c01-posonly-defaults", property="C01", needs="a signature whose positional-only parameters have defaults and that has no ordinary positional parameters",
     breaks="defaults of positional-only parameters are lost",
     edits=[("mcpyrate/unparser.py", "            defaults_sets = [defaults[:nposonlyargs], defaults[nposonlyargs:]]", "            defaults_sets = [defaults[:-len(t.args)], defaults[-len(t.args):]]")],
     demo='''
import ast
from mcpyrate import unparse
for src in ("def f(a, b=1, /, *c): pass\\n", "def f(a=0, /, b=1): pass\\n", "lambda x=1, /: x\\n"):
    assert ast.dump(ast.parse(unparse(ast.parse(src)))) == ast.dump(ast.parse(src)), src
'''),
dict(id="c01-starred-annotation", property="C01", needs="annotated keyword-only or * parameter",
     breaks="the annotation of *args is dropped when keyword-only parameters follow",
     edits=[("mcpyrate/unparser.py", '                if hasattr(t.vararg, "annotation") and t.vararg.annotation:', '                if hasattr(t.vararg, "annotation") and t.vararg.annotation and not t.kwonlyargs:')],
     demo='''
import ast
from mcpyrate import unparse
for src in ("def f(*a: int, b): pass\\n", "def f(*a: int): pass\\n"):
    assert ast.dump(ast.parse(unparse(ast.parse(src)))) == ast.dump(ast.parse(src)), src
'''),
dict(id="c02-fallback-narrow", property="C02", needs="rendering a broken tree whose unparsing raises something other than AttributeError/TypeError",
     breaks="unparse_with_fallbacks lets e.g. KeyError (unknown operator node) or RecursionError escape",
     edits=[("mcpyrate/unparser.py", """    except Exception as err:
        # This can only happen if there is a bug in the unparser, but we don't""", """    except (AttributeError, TypeError, AssertionError, ValueError) as err:
        # This can only happen if there is a bug in the unparser, but we don't""")],
     demo='''
import ast
from mcpyrate.unparser import unparse_with_fallbacks
t = ast.BinOp(left=ast.Name(id="x"), op=ast.Load(), right=ast.Name(id="y"))
assert isinstance(unparse_with_fallbacks(t), str)
'''),
dict(id="c02-debug-lineno", property="C02", needs="debug rendering of a decorated definition whose decorators are on other lines than the def",
     breaks="decorator lines show the line number of the definition",
     edits=[("mcpyrate/unparser.py", '''    def _Return(self, t):
        self.fill(self.maybe_colorize_python_keyword("return"), lineno_node=t)
''', '''    def _Return(self, t):
        self.fill(self.maybe_colorize_python_keyword("return"), lineno_node=t.value or t)
''')],
     demo='''
import ast
from mcpyrate import unparse
t = ast.parse("def f():\\n    return \\\\\\n      1\\n")
assert [l[:6] for l in unparse(t, debug=True).split("\\n") if "return" in l] == ["L    2"], unparse(t, debug=True)
'''),
dict(id="c03-decode", property="C03", needs="a source file in an encoding other than UTF-8, with a coding cookie",
     breaks="sources with an encoding cookie are decoded as UTF-8",
     edits=[("mcpyrate/compiler.py", "            text = importlib.util.decode_source(source)  # uses the \"coding\" prop line like Python itself does\n", "            text = source.decode(\"utf-8-sig\", errors=\"replace\")\n")],
     demo='''
from mcpyrate.compiler import compile as c
src = "# -*- coding: latin-1 -*-\\nx = '\\xe9'\\n".encode("latin-1")
ns = {}
exec(c(src, "/x/m.py", self_module="m"), ns)
assert ns["x"] == "\\xe9", ns["x"]
'''),
dict(id="c03-optimize", property="C03", needs="compiling at another optimization level than the running interpreter's",
     breaks="compile(..., optimize=1) keeps asserts",
     edits=[("mcpyrate/compiler.py", 'mode="exec", dont_inherit=True, optimize=optimize)', 'mode="exec", dont_inherit=True, optimize=max(optimize, -1) if optimize != 1 else -1)')],
     demo='''
from mcpyrate.compiler import compile as c
exec(c("assert False\\n", "/x/m.py", optimize=1, self_module="m"), {})
exec(c("assert False\\n", "/x/m.py", optimize=2, self_module="m"), {})
'''),
dict(id="c03-linesep", property="C03", needs="string literals or comments containing exotic line boundaries (form feed, U+2028, ...)",
     breaks="the source text is re-joined with str.splitlines, which rewrites such characters inside string literals",
     edits=[("mcpyrate/compiler.py", "        text = dexpander.transform_source(text)\n", "        text = \"\\n\".join(dexpander.transform_source(text).splitlines()) + \"\\n\"\n")],
     demo='''
from mcpyrate.compiler import compile as c
ns = {}
s = "a" + chr(0x2028) + "b"
exec(c("x = '" + s + "' # " + chr(12), "/x/m.py", self_module="m"), ns)
assert ns["x"] == s, ns["x"]
'''),
dict(id="c04-as-part", property="C04", needs="a block macro invocation that has both macro arguments and an as-part",
     breaks="the as-part is not passed when the invocation has macro arguments",
     edits=[("mcpyrate/expander.py", '        kw.update({"optional_vars": with_item.optional_vars})', '        kw.update({"optional_vars": None if macroargs else with_item.optional_vars})')],
     demo='''
import types, sys
from mcpyrate import parametricmacro
m = types.ModuleType("demomac")
seen = []
@parametricmacro
def mac(tree, args, optional_vars, **kw):
    seen.append(optional_vars and optional_vars.id)
    return tree
m.mac = mac
sys.modules["demomac"] = m
from mcpyrate.compiler import expand
expand("from demomac import macros, mac\\nwith mac as a: pass\\nwith mac[1] as b: pass\\nwith mac: pass\\n", "/x/m.py")
assert seen == ["a", "b", None], seen
'''),
dict(id="c04-decorator-order", property="C04", needs="two decorator macros with an ordinary decorator or each other; innermost-first order",
     breaks="when the decorator list mixes ordinary decorators and two or more decorator macros, the outermost macro is expanded first",
     edits=[("mcpyrate/expander.py", "        innermost_macro = macros[-1]\n", "        innermost_macro = macros[-1] if not others else macros[0]\n")],
     demo='''
import types, sys
m = types.ModuleType("demomac")
seen = []
def m1(tree, **kw):
    seen.append("m1")
    return tree
def m2(tree, **kw):
    seen.append("m2")
    return tree
m.m1, m.m2 = m1, m2
sys.modules["demomac"] = m
from mcpyrate.compiler import expand
expand("from demomac import macros, m1, m2\\n@m1\\n@other\\n@m2\\ndef f(): pass\\n", "/x/m.py")
assert seen == ["m2", "m1"], seen
'''),
dict(id="c04-once-mode-leak", property="C04", needs="visit_once whose dynamic extent contains a visit_recursively (or a name macro), with more invocations after it",
     breaks="leaving a nested visit restores recursive mode instead of the outer mode",
     edits=[("mcpyrate/core.py", "                self.recursive = wasrecursive\n", "                self.recursive = True\n")],
     demo='''
import types, sys, ast
from mcpyrate import unparse
m = types.ModuleType("demomac")
def once(tree, expander, **kw):
    return expander.visit_once(tree)
def rec(tree, expander, **kw):
    return expander.visit_recursively(tree)
def emit(tree, **kw):
    return ast.parse("ident[1]", mode="eval").body
def ident(tree, **kw):
    return tree
m.once, m.rec, m.emit, m.ident = once, rec, emit, ident
sys.modules["demomac"] = m
from mcpyrate.compiler import expand
t = expand("from demomac import macros, once, rec, emit, ident\\nonce[(rec[emit[0]], emit[0])]\\n", "/x/m.py")
assert unparse(t.body[1]).strip() == "(1, ident[1])", unparse(t.body[1])
'''),
]
