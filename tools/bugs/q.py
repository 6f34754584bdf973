COMMON = r'''
import contextlib, io, os, sys, tempfile, shutil, atexit
sys.dont_write_bytecode = True
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
sys.path.insert(0, d)
from mcpyrate.repl.console import MacroConsole
def session(*inputs):
    c = MacroConsole()
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        for x in inputs:
            if callable(x):
                x()
            else:
                for line in x.split("\n"):
                    c.push(line)
    return o.getvalue(), e.getvalue()
'''
BUGS = [
dict(id='c22-latest-wins', property='C22', needs='declaring a session macro over a macro of the same name',
     breaks='the earlier macro stays in effect',
     edits=[('mcpyrate/repl/utils.py', '        __macro_expander__.bindings[function.__name__] = function', '        __macro_expander__.bindings.setdefault(function.__name__, function)')],
     demo=COMMON + r'''
f = "@macro\ndef f(tree, **kw):\n    return ast.Constant(%d)\n"
r = session("import ast", f % 1, "f[0]", f % 2, "f[0]")
assert r == ("1\n2\n", ""), r
'''),
dict(id='c22-future', property='C22', needs='a future-import in the session, and a later input whose meaning depends on it',
     breaks='future-imports are forgotten after the input that has them',
     edits=[('mcpyrate/repl/console.py', '            code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)', '            code = compile(tree, filename, symbol, 0, 1)')],
     demo=COMMON + r'''
r = session("from __future__ import annotations", "def f(x: undefined): pass\n", "f.__annotations__")
assert r == ("{'x': 'undefined'}\n", ""), r
'''),
dict(id='c22-no-reload', property='C22', needs='importing a macro again after its definition was edited',
     breaks='the old definition stays in effect',
     edits=[('mcpyrate/coreutils.py', '        if reload:\n', '        if reload and not all(hasattr(module, name.name) for name in macroimport.names[1:]):  # maybe it has them by now\n')],
     demo=COMMON + r'''
def put(k):
    with open(os.path.join(d, "lib22.py"), "w") as f:
        f.write(f"import ast\ndef m(tree, **kw): return ast.Constant({k})\n")
put(1)
r = session("from lib22 import macros, m", "m[0]", lambda: put(2), "from lib22 import macros, m", "m[0]")
assert r == ("1\n2\n", ""), r
'''),
dict(id='c22-ipython-bindings', property='C22', needs='an IPython session with two macro-imports',
     breaks='each macro-import forgets the earlier ones',
     edits=[('mcpyrate/repl/iconsole.py', '''                self.expander.bindings.update(bindings)
''', '''                self.expander.bindings = dict(bindings)
''')],
     demo=r'''
import contextlib, io, os, sys, tempfile, shutil, atexit
sys.dont_write_bytecode = True
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
os.environ["IPYTHONDIR"] = d
from IPython.core.interactiveshell import InteractiveShell
from traitlets.config import Config
cf = Config(); cf.HistoryManager.enabled = False
sh = InteractiveShell.instance(config=cf)
sh.run_cell("%load_ext mcpyrate.repl.iconsole")
for x in ("from mcpyrate.quotes import macros, q", "from mcpyrate.debug import macros, show_bindings", "q[1]"):
    r = sh.run_cell(x)
assert type(r.result).__name__ == "Constant", r
'''),
]
