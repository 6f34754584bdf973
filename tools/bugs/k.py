COMMON = r'''
import os, subprocess, sys, tempfile, time
d = tempfile.mkdtemp()
T = int(time.time())
def put(name, text, t):
    f = os.path.join(d, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w") as h:
        h.write(text)
    os.utime(f, (T + t, T + t))
def run(mod, *flags):
    env = dict(os.environ, PYTHONPATH=os.getcwd() + os.pathsep + d)
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    p = subprocess.run([sys.executable, *flags, "-c", f"import mcpyrate.activate, {mod}; print({mod}.x)"], cwd=d, env=env, capture_output=True, text=True)
    return p.stdout.strip() if p.returncode == 0 else "failed: " + p.stderr[-600:]
import atexit, shutil
atexit.register(shutil.rmtree, d, True)
'''
BUGS = [
    dict(id="c12-nanosecond-cache", property="C12", needs="a macro-import added by an edit whose modification time has the same fraction of a second (e.g. whole seconds)",
         breaks="The macro-import cache is validated by the sub-second part of the modification time, so after an edit with the same fraction the old list of macro-imports is used, and a later change in a newly added dependency goes unnoticed.",
         edits=[("mcpyrate/importer.py", '''            data = {"st_mtime_ns": stat_result.st_mtime_ns,
''', '''            data = {"st_mtime_ns": stat_result.st_mtime_ns % 10**9,
'''), ("mcpyrate/importer.py", '''        if data["st_mtime_ns"] == stat_result.st_mtime_ns:
''', '''        if data["st_mtime_ns"] == stat_result.st_mtime_ns % 10**9:
''')],
         demo=COMMON + r'''
put("macs.py", "def m(tree, **kw):\n    tree.value = 'one'\n    return tree\n", -100)
put("use.py", "x = 'none'\n", -100)
run("use"); run("use")
put("use.py", "from macs import macros, m\nx = m['none']\n", 10)
assert run("use") == "one", run("use")
assert run("use") == "one"
put("macs.py", "def m(tree, **kw):\n    tree.value = 'two'\n    return tree\n", 20)
assert run("use") == "two", run("use")
'''),
    dict(id="c12-diamond", property="C12", needs="two modules that depend on the same macro module, one of them reached again while computing the other",
         breaks="A dependency seen twice in the dependency graph contributes only its own mtime, not that of its dependencies, when it is first met as a package-relative import.",
         edits=[("mcpyrate/importer.py", '''    mtimes.append(mtime)
''', '''    if has_relative_macroimports and len(mtimes) > 1:
        mtimes = mtimes[-1:]
    mtimes = mtimes + [mtime]
''')],
         demo=COMMON + r'''
put("pk/__init__.py", "", -100)
put("pk/m1.py", "def m(tree, **kw):\n    tree.value = 'one'\n    return tree\n", -90)
put("pk/m2.py", "def n(tree, **kw):\n    return tree\n", -80)
put("pk/use.py", "from .m1 import macros, m\nfrom .m2 import macros, n\nx = n[m['none']]\n", -70)
assert run("pk.use") == "one", run("pk.use")
put("pk/m1.py", "def m(tree, **kw):\n    tree.value = 'two'\n    return tree\n", 20)
assert run("pk.use") == "two", run("pk.use")
'''),
    dict(id="c12-phase-dialect", property="C12", needs="a multi-phase module whose macro-import inside `with phase` is nested and changes",
         breaks="Macro-imports inside `with phase` blocks are only scanned in the first such block.",
         edits=[("mcpyrate/importer.py", '''                    scan(stmt)
        scan(tree)''', '''                    if not macroimports or macroimports[-1].lineno < stmt.lineno and len(macroimports) < 2:
                        scan(stmt)
        scan(tree)''')],
         demo=COMMON + r'''
put("m1.py", "def m(tree, **kw):\n    tree.value = 'one'\n    return tree\n", -90)
put("use.py", """from mcpyrate.multiphase import macros, phase
from mcpyrate.quotes import macros, q
with phase[1]:
    from m1 import macros, m
    y = m['none']
    def p(tree, **kw):
        tree.value = y
        return tree
from __self__ import macros, p
x = p['nothing']
""", -70)
assert run("use") == "one", run("use")
put("m1.py", "def m(tree, **kw):\n    tree.value = 'two'\n    return tree\n", 20)
assert run("use") == "two", run("use")
'''),
    dict(id="c12-dialect-not-relative", property="C12", needs="a relative dialect-import in a module that has no relative macro-imports",
         breaks="Relative imports are looked for among the macro-imports only... a module whose only relative import is a dialect-import is cached with the dialect left out after the second run.",
         edits=[("mcpyrate/importer.py", '''                    "dialectimports": dialectimports,
''', '''                    "dialectimports": [stmt for stmt in dialectimports if not stmt.level or macroimports],
''')],
         demo=COMMON + r'''
put("pk/__init__.py", "", -100)
D = """import ast
from mcpyrate.dialects import Dialect
class D(Dialect):
    def transform_ast(self, tree):
        tree.body += ast.parse("x = %r").body
        return tree
"""
put("pk/dia.py", D % "one", -90)
put("pk/use.py", "from .dia import dialects, D\n", -70)
assert run("pk.use") == "one", run("pk.use")
assert run("pk.use") == "one", run("pk.use")
put("pk/dia.py", D % "two", 20)
run("pk.use")
put("pk/dia.py", D % "three", 30)
assert run("pk.use") == "three", run("pk.use")
'''),
    dict(id="c13-dont-write", property="C13", needs="bytecode writing disabled together with an existing __pycache__ directory",
         breaks="The macro dependency cache is written even though bytecode writing is disabled.",
         edits=[("mcpyrate/importer.py", '''        if not sys.dont_write_bytecode:
''', '''        if not (sys.dont_write_bytecode and not os.path.isfile(macroimport_cache_path)) or macroimports:
''')],
         demo=COMMON + r'''
import glob
put("macs.py", "def m(tree, **kw):\n    return tree\n", -100)
put("use.py", "from macs import macros, m\nx = m[1]\n", -100)
put("__pycache__/keep", "", -100)
assert run("use", "-B") == "1"
assert not glob.glob(os.path.join(d, "__pycache__", "*.p*")), os.listdir(os.path.join(d, "__pycache__"))
'''),
    dict(id="c13-write-errors", property="C13", needs="the path of the dependency cache file taken by something that is not a regular file",
         breaks="Only some errors are tolerated when the dependency cache cannot be written: Python then ignores the bytecode, and expands the module again on every import.",
         edits=[("mcpyrate/importer.py", '''                    pickle.dump(data, importcachefile)
            except Exception:
                pass''', '''                    pickle.dump(data, importcachefile)
            except (PermissionError, FileNotFoundError, NotADirectoryError):
                pass''')],
         demo=COMMON + r'''
import glob
put("macs.py", "def m(tree, **kw):\n    return tree\n", -100)
put("use.py", "from macs import macros, m\nx = m[1]\n", -100)
put("macs.py", "import sys\ndef m(tree, **kw):\n    sys.stderr.write('EXPANDED')\n    return tree\n", -100)
assert [run("use") for _ in range(2)] == ["1", "1"]
fs = glob.glob(os.path.join(d, "__pycache__", "use*.pickle"))
for f in fs:
    os.unlink(f)
    os.mkdir(f)
env = dict(os.environ, PYTHONPATH=os.getcwd() + os.pathsep + d)
env.pop("PYTHONDONTWRITEBYTECODE", None)
p = subprocess.run([sys.executable, "-c", "import mcpyrate.activate, use; print(use.x)"], cwd=d, env=env, capture_output=True, text=True)
assert fs and (p.stdout, p.stderr) == ("1\n", ""), p
'''),
    dict(id="c13-mtime-not-cached", property="C13", needs="a dependency newer than the module itself",
         breaks="The modification time reported is that of the newest dependency plus the module's own, so bytecode compiled just before a dependency... is never considered valid when a dependency is newer: the module is expanded again on each import.",
         edits=[("mcpyrate/importer.py", '''    mtimes.append(mtime)
''', '''    mtimes = [mtime, *mtimes]
    if max(mtimes) != mtime and (sys.dont_write_bytecode or macroimport_cache_valid):
        mtimes.append(max(mtimes) + 1)
''')],
         demo=COMMON + r'''
put("macs.py", "import sys\ndef m(tree, **kw):\n    sys.stderr.write('EXPANDED')\n    return tree\n", -10)
put("use.py", "from macs import macros, m\nx = m[1]\n", -100)
for _ in range(3):
    run("use")
env = dict(os.environ, PYTHONPATH=os.getcwd() + os.pathsep + d)
env.pop("PYTHONDONTWRITEBYTECODE", None)
outs = []
for _ in range(3):
    p = subprocess.run([sys.executable, "-c", "import mcpyrate.activate, use; print(use.x)"], cwd=d, env=env, capture_output=True, text=True)
    outs.append((p.stdout, p.stderr))
assert outs == [("1\n", "")] * 3, outs
import glob
for f in glob.glob(os.path.join(d, "__pycache__", "*.pickle")):
    os.unlink(f)
p = subprocess.run([sys.executable, "-c", "import mcpyrate.activate, use; print(use.x)"], cwd=d, env=env, capture_output=True, text=True)
assert (p.stdout, p.stderr) == ("1\n", ""), p
'''),
]
