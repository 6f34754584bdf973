_ENV30 = r'''
import sys, os, tempfile, importlib
from importlib.machinery import SourceFileLoader
d = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, d, True)
sys.pycache_prefix = os.path.join(d, "pyc")
sys.path.insert(0, d)
sys.dont_write_bytecode = False
def put(name, text, t):
    p = os.path.join(d, name + ".py")
    open(p, "w").write(text)
    os.utime(p, (1900000000.5 + t,) * 2)
def lib(v, t):
    put("lib", "import ast\nR = 0\ndef m(tree, **kw):\n    return ast.Constant(value=%d)\n" % v, t)
def get(name):
    for n in ("lib", name):
        sys.modules.pop(n, None)
    importlib.invalidate_caches()
    try:
        return __import__(name).R
    except ImportError as e:
        return "ImportError"
lib(1, 1)
put("use", "from lib import macros, m\nR = m[0]\n", 0)
put("use2", "from lib import macros, m\nR = m[0]\n", 2)
'''
BUGS = [
dict(id='c30-stats-stay', property='C30', needs='deactivate(), then an import of a module whose bytecode was made with macro support and whose macro library is the newer file',
     breaks='after deactivate(), bytecode is still judged by the macro library, too',
     edits=[('mcpyrate/activate.py', '''    SourceFileLoader.source_to_code = stdlib_source_to_code
    SourceFileLoader.path_stats = stdlib_path_stats
''', '''    SourceFileLoader.source_to_code = stdlib_source_to_code
''')],
     demo=_ENV30 + r'''
import mcpyrate.activate
assert get("use") == 1
mcpyrate.activate.deactivate()
assert get("use") == "ImportError"
'''),
dict(id='c30-resave', property='C30', needs='activate() called twice in a row, then deactivate()',
     breaks='activate() remembers the loader methods in effect, even when those are its own',
     edits=[('mcpyrate/activate.py', '''    SourceFileLoader.source_to_code = source_to_xcode
    # Bytecode''', '''    global stdlib_source_to_code, stdlib_path_stats
    stdlib_source_to_code = SourceFileLoader.source_to_code
    stdlib_path_stats = SourceFileLoader.path_stats
    SourceFileLoader.source_to_code = source_to_xcode
    # Bytecode'''), ('mcpyrate/activate.py', '''stdlib_source_to_code = SourceFileLoader.source_to_code
stdlib_path_stats = SourceFileLoader.path_stats
activate()''', '''activate()''')],
     demo=_ENV30 + r'''
import mcpyrate.activate
mcpyrate.activate.deactivate()
mcpyrate.activate.activate()
mcpyrate.activate.activate()
assert get("use") == 1
mcpyrate.activate.deactivate()
assert get("use2") == "ImportError"
'''),
dict(id='c30-depth', property='C30', needs='deactivate() called twice, then activate() once',
     breaks='switches are counted, so that repeated calls do not have the documented effect',
     edits=[('mcpyrate/activate.py', '''    SourceFileLoader.source_to_code = source_to_xcode
    # Bytecode''', '''    global _disabled
    _disabled = max(_disabled - 1, 0)
    if _disabled:
        return
    SourceFileLoader.source_to_code = source_to_xcode
    # Bytecode'''), ('mcpyrate/activate.py', '''    SourceFileLoader.source_to_code = stdlib_source_to_code
''', '''    global _disabled
    _disabled += 1
    SourceFileLoader.source_to_code = stdlib_source_to_code
'''), ('mcpyrate/activate.py', '''stdlib_source_to_code = SourceFileLoader.source_to_code
''', '''_disabled = 0
stdlib_source_to_code = SourceFileLoader.source_to_code
''')],
     demo=_ENV30 + r'''
import mcpyrate.activate
mcpyrate.activate.deactivate()
mcpyrate.activate.deactivate()
mcpyrate.activate.activate()
assert get("use") == 1
'''),
dict(id='c30-stats-once', property='C30', needs='deactivate(), activate(), and then an edit of a macro library whose users already have bytecode',
     breaks='after reactivation, edits of macro libraries go unnoticed',
     edits=[('mcpyrate/activate.py', '''    SourceFileLoader.path_stats = path_xstats
''', ''''''), ('mcpyrate/activate.py', '''activate()''' + chr(10) if False else '''stdlib_path_stats = SourceFileLoader.path_stats
''', '''stdlib_path_stats = SourceFileLoader.path_stats
SourceFileLoader.path_stats = path_xstats
''')],
     demo=_ENV30 + r'''
import mcpyrate.activate
mcpyrate.activate.deactivate()
mcpyrate.activate.activate()
assert get("use2") == 1
lib(2, 9)
assert get("use2") == 2
'''),
dict(id='c30-other-hook', property='C30', needs='another import hook that replaced the loader methods before mcpyrate was imported',
     breaks='deactivate() restores the methods of the standard library, not those that were there before',
     edits=[('mcpyrate/activate.py', '''stdlib_source_to_code = SourceFileLoader.source_to_code
stdlib_path_stats = SourceFileLoader.path_stats
''', '''class _Pristine(SourceFileLoader):
    pass
from importlib._bootstrap_external import SourceLoader
stdlib_source_to_code = SourceLoader.source_to_code
stdlib_path_stats = SourceFileLoader.path_stats
''')],
     demo=_ENV30 + r'''
old = SourceFileLoader.source_to_code
seen = []
def source_to_code(self, data, path, *, _optimize=-1):
    seen.append(self.name)
    return old(self, data, path, _optimize=_optimize)
SourceFileLoader.source_to_code = source_to_code
import mcpyrate.activate
mcpyrate.activate.deactivate()
get("lib")
assert "lib" in seen
'''),
dict(id='c27-fill-update', property='C27', needs='run-time expansion of a tree that is positioned only in part, when the rest is filled in from the use site',
     breaks='positions are filled in from the enclosing node, not from the use site',
     edits=[('mcpyrate/metatools.py', '''[ast.keyword("mode", astify("reference"))]''', '''[ast.keyword("mode", astify("update"))]''')],
     demo=r'''
import ast
from mcpyrate.compiler import run
src = """
from mcpyrate.metatools import macros, fill_location
import ast
t = ast.BinOp(ast.Name(id="f"), ast.Add(), ast.Name(id="g"), lineno=70, col_offset=1)
r = fill_location[t]
"""
m = run(src)
assert m.r.lineno == 70 and m.r.left.lineno < 10, ast.dump(m.r, include_attributes=True)
'''),
dict(id='c20-nonlocal-twice', property='C20', needs='a `global` or `nonlocal` statement that mentions a name more than once',
     breaks='only the first mention is renamed',
     edits=[('mcpyrate/utils.py', '''                        tree.names[j] = newname
            elif T in (MatchAs''', '''                        tree.names[j] = newname
                        break
            elif T in (MatchAs''')],
     demo=r'''
import ast
from mcpyrate.utils import rename
t = rename("x", "z", ast.parse("def f():\n    global x, y, x\n    x = 1"))
assert "x" not in ast.unparse(t).replace("def f", ""), ast.unparse(t)
'''),
dict(id='c29-extract-name', property='C29', needs='two different macro functions with the same name, e.g. made by one factory',
     breaks='extract_bindings confuses functions of the same name',
     edits=[('mcpyrate/utils.py', '''    functions = set(functions)
    return {name: function for name, function in bindings.items() if function in functions}''', '''    functions = {(f.__module__, f.__qualname__) for f in functions}
    return {name: function for name, function in bindings.items() if (function.__module__, function.__qualname__) in functions}''')],
     demo=r'''
from mcpyrate.utils import extract_bindings
def make():
    def m(tree, **kw):
        return tree
    return m
a, b = make(), make()
assert extract_bindings({"a": a, "b": b}, a) == {"a": a}
'''),
dict(id='c22-doc-dedent', property='C22', needs='the help of an object whose docstring is indented',
     breaks='help is printed with the indentation of the source',
     edits=[('mcpyrate/repl/utils.py', '''    print(inspect.cleandoc(obj.__doc__), file=file)''', '''    print(obj.__doc__.strip(), file=file)''')],
     demo=r'''
import io
from mcpyrate.repl.utils import doc
def f():
    """Summary.

    More.
        Deep.
    """
out = io.StringIO()
doc(f, file=out)
assert "\nMore.\n    Deep.\n" in out.getvalue(), out.getvalue()
'''),
dict(id='c22-source-instance', property='C22', needs='source code of an instance',
     breaks='the source code helper no longer falls back to the class of the object',
     edits=[('mcpyrate/repl/utils.py', '''    for x in (obj, obj.__class__):''', '''    for x in (obj,):''')],
     demo=r'''
import io
from mcpyrate.repl.utils import sourcecode
from mcpyrate.bunch import Bunch
out = io.StringIO()
sourcecode(Bunch(a=1), file=out)
assert "class Bunch" in out.getvalue(), out.getvalue()
'''),
dict(id='c15-import-parent', property='C15', needs='creating a submodule of a package that can be imported but has not been',
     breaks='create_module imports the parent package, instead of requiring that it is there',
     edits=[('mcpyrate/compiler.py', '''        package = sys.modules.get(packagename, None)
        if not package:
            raise ModuleNotFoundError''' if False else '''        package = sys.modules.get(packagename, None)

        if not package:''', '''        import importlib
        package = importlib.import_module(packagename)

        if not package:''')],
     demo=r'''
import sys, os, tempfile
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "lazy30"))
    open(os.path.join(d, "lazy30", "__init__.py"), "w").close()
    sys.path.insert(0, d)
    from mcpyrate.compiler import create_module
    try:
        create_module("lazy30.x")
    except ModuleNotFoundError:
        pass
    else:
        assert False
    assert "lazy30" not in sys.modules
'''),
dict(id='c24-dry-here', property='C24', needs='a dry run on the current directory',
     breaks='a dry run of the command on `.` deletes',
     edits=[('mcpyrate/repl/macropython.py', '''        if not opts.dry_run:
            deletepycachedirs''', '''        if not (opts.dry_run and pathlib.Path(opts.path_to_clean) != pathlib.Path()):
            deletepycachedirs''')],
     demo=r'''
import os, sys, tempfile, subprocess
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    c = os.path.join(d, "__pycache__")
    os.makedirs(c)
    open(os.path.join(c, "a.pyc"), "w").close()
    subprocess.run([sys.executable, "-B", "-m", "mcpyrate.repl.macropython", "-c", ".", "-n"], cwd=d, env=dict(os.environ, PYTHONPATH=repo), check=True, stdout=subprocess.DEVNULL)
    assert os.path.isfile(os.path.join(c, "a.pyc"))
'''),
]
