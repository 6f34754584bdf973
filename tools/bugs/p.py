COMMON = r'''
import os, sys, tempfile, shutil, atexit, subprocess
d = os.path.realpath(tempfile.mkdtemp())
atexit.register(shutil.rmtree, d, True)
def put(name, text=""):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
def run(*args, **kw):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.getcwd()] + kw.get("path", [])))
    return subprocess.run([sys.executable, "-m", "mcpyrate.repl.macropython"] + list(args), cwd=kw.get("cwd", d), env=env, capture_output=True, text=True)
'''
BUGS = [
dict(id='c23-search-path', property='C23', needs="a script whose directory is already on the module search path, behind another directory that has a module of the same name as the script's library",
     breaks="the script's directory does not come first on the search path, so the script imports another module than under python",
     edits=[('mcpyrate/repl/macropython.py', '        if sys.path[0] != containing_directory:', '        if containing_directory not in sys.path:')],
     demo=COMMON + r'''
put("app/prog.py", "import lib; print(lib.x)"); put("app/lib.py", "x = 'right'")
put("site/lib.py", "x = 'wrong'"); os.mkdir(d + "/elsewhere")
p = run("../app/prog.py", path=[d + "/site", d + "/app"], cwd=d + "/elsewhere")
assert p.stdout == "right\n", p
'''),
dict(id='c23-traceback', property='C23', needs='a program that fails with an exception raised from another',
     breaks='the traceback of the main program is cut off',
     edits=[('mcpyrate/repl/macropython.py', '            if isinstance(err, MacroApplicationError):', '            if isinstance(err, MacroApplicationError) or err.__cause__ is not None:')],
     demo=COMMON + r'''
put("prog.py", "def f():\n    raise KeyError(1) from ValueError(2)\nf()\n")
p = run("prog.py")
assert p.returncode == 1 and "prog.py\", line 3, in <module>" in p.stderr, p
'''),
dict(id='c23-subpackage', property='C23', needs='a main module in a subpackage that uses relative imports',
     breaks='the main module gets the top-level package as its __package__, so its relative imports find other modules',
     edits=[('mcpyrate/repl/macropython.py', '        module.__package__ = parent_name', '        module.__package__ = parent_name.partition(".")[0]')],
     demo=COMMON + r'''
put("a/__init__.py"); put("a/b/__init__.py"); put("a/b/prog.py", "from .lib import x; print(__package__, x)"); put("a/b/lib.py", "x = 'right'"); put("a/lib.py", "x = 'wrong'")
p = run("-m", "a.b.prog")
assert p.stdout == "a.b right\n", p
'''),
dict(id='c23-init-script', property='C23', needs='the __init__.py file of a package run as a script',
     breaks='the script believes it is a package named __main__',
     edits=[('mcpyrate/repl/macropython.py', '        module.__package__ = ""', '        module.__package__ = module.__package__ or ""')],
     demo=COMMON + r'''
put("a/__init__.py", "print(repr(__package__ or ''))\ntry:\n    from . import lib\n    print('found')\nexcept ImportError:\n    print('not a package')"); put("a/lib.py")
p = run("a/__init__.py")
assert p.stdout == "''\nnot a package\n", p
'''),
]
