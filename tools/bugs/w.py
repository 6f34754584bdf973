BUGS = [
dict(id='c12-backdated', property='C12', needs='a source file restored from a backup (older than the one it replaces, newer than its libraries) that imports other macros, then an edit of those libraries',
     breaks='the cached list of macro-imports of the replaced file stays in use, so later edits of the new libraries are not noticed',
     edits=[('mcpyrate/importer.py', '''        if data["st_mtime_ns"] == stat_result.st_mtime_ns:''', '''        if data["st_mtime_ns"] >= stat_result.st_mtime_ns:''')],
     demo=r'''
import sys, os, tempfile, importlib, atexit, shutil
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
sys.pycache_prefix = os.path.join(d, "pyc")
sys.path.insert(0, d)
sys.dont_write_bytecode = False
import mcpyrate.activate
def put(name, text, t):
    p = os.path.join(d, name + ".py")
    open(p, "w").write(text)
    os.utime(p, (1900000000 + t,) * 2)
def lib(n, v, t):
    put(n, "import ast\ndef m(tree, **kw):\n    return ast.Constant(value=%d)\n" % v, t)
def get():
    for n in ("la", "lb", "use"):
        sys.modules.pop(n, None)
    importlib.invalidate_caches()
    return __import__("use").R
lib("la", 1, 0)
lib("lb", 2, 1)
put("use", "from la import macros, m\nR = m[0]\n", 100)
assert get() == 1
assert get() == 1
put("use", "from lb import macros, m\nR = m[0]\n", 90)
assert get() == 2
lib("lb", 3, 95)
assert get() == 3, "stale"
'''),
dict(id='c16-code-keeps-doc', property='C16', needs='running a ready code object without docstring in an existing module that has one',
     breaks='the docstring of earlier code stays',
     edits=[('mcpyrate/compiler.py', '''        code = source
        module.__doc__ = None
''', '''        code = source
''')],
     demo=r'''
from mcpyrate.compiler import run, compile
m = run("'doc'\nx = 1\n")
assert m.__doc__ == "doc"
run(compile("y = x\n", "<snippet>"), m)
assert m.y == 1 and m.__doc__ is None, m.__doc__
'''),
dict(id='c17-lineno-linebreaks', property='C17', needs='form feeds or other unusual line boundaries (per str.splitlines) in the text above a dialect-import',
     breaks='the dialect gets a wrong line number of its own import',
     edits=[('mcpyrate/dialects.py', '''lineno = 1 + text[0:match.start()].count("\\n")''', '''lineno = 1 + len(text[0:match.start()].splitlines())''')],
     demo=r'''
import sys, types
from mcpyrate.dialects import Dialect
from mcpyrate import compiler
L = []
class D(Dialect):
    def transform_source(self, text):
        L.append(self.lineno)
        return NotImplemented
m = types.ModuleType("dlib")
m.D = D
sys.modules["dlib"] = m
compiler.expand("x = 1\n\x0c\nfrom dlib import dialects, D\n", "<x>")
assert L == [3], L
'''),
dict(id='c05-postprocessor-identity', property='C05', needs='a postprocessor that is a bound method (each attribute access makes another, equal object), removed later',
     breaks='the removed postprocessor still edits every module compiled later',
     edits=[('mcpyrate/core.py', '''    if function in global_postprocessors:
''', '''    if any(function is registered for registered in global_postprocessors):
''')],
     demo=r'''
import ast
from mcpyrate.core import add_postprocessor, remove_postprocessor
from mcpyrate.compiler import run
L = []
class Lib:
    def post(self, tree):
        L.append(1)
        return tree
lib = Lib()
SRC = "from mcpyrate.quotes import macros, q\nx = type(q[1]).__name__\n"
add_postprocessor(lib.post)
assert run(SRC).x == "Constant" and L
remove_postprocessor(lib.post)
del L[:]
run(SRC)
assert not L, "removed postprocessor still runs"
'''),
dict(id='c18-chained-all', property='C18', needs='a module that assigns `__all__` together with another name, in this order',
     breaks='the whole statement moves to the beginning of the module, before what it needs',
     edits=[('mcpyrate/splicing.py', '''            if not (type(tree) is ast.Assign and len(tree.targets) == 1):
''', '''            if not (type(tree) is ast.Assign and tree.targets):
''')],
     demo=r'''
import ast
from mcpyrate.splicing import splice_dialect
body = ast.parse("NAMES = ['a', 'b']\n__all__ = PUBLIC = NAMES + ['c']\n").body
template = ast.parse("start = 1\n__paste_here__\nend = 2\n").body
out = splice_dialect(body, template, lineno=1, col_offset=0)
ns = {}
exec(compile(ast.fix_missing_locations(ast.Module(body=out, type_ignores=[])), "x", "exec"), ns)
assert ns["__all__"] == ns["PUBLIC"] == ["a", "b", "c"]
'''),
dict(id='c29-markers-one', property='C29', needs='several AST markers of different places remaining in one tree',
     breaks='the report names only the first place',
     edits=[('mcpyrate/markers.py', '''        codes = [utils.format_context(node, n=5) for node in remaining_markers]
''', '''        codes = [utils.format_context(node, n=5) for node in remaining_markers[:1]]
''')],
     demo=r'''
import ast
from mcpyrate.core import MacroExpansionError
from mcpyrate.markers import ASTMarker, check_no_markers_remaining
tree = ast.parse("a = 1\nb = 2\nc = 3\n")
for k in (0, 2):
    v = tree.body[k].value
    tree.body[k].value = ast.copy_location(ASTMarker(v), v)
try:
    check_no_markers_remaining(tree, filename="where.py")
except MacroExpansionError as e:
    import re
    text = re.sub(r"\x1b\[[0-9;]*m", "", str(e))
    assert "where.py:1:" in text and "where.py:3:" in text, text
else:
    assert False
'''),
]
