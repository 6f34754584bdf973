COMMON = r'''
import os, sys, tempfile
sys.dont_write_bytecode = True
import mcpyrate.activate
d = tempfile.mkdtemp()
sys.path.insert(0, d)
def put(name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
'''
BUGS = [
dict(id='c21-lazy-names', property='C21', needs='a macro module that provides its macros lazily, through a module-level __getattr__',
     breaks='macros provided by module __getattr__ cannot be imported as macros though Python imports them',
     edits=[('mcpyrate/coreutils.py', '            macro = getattr(module, name.name)\n        except AttributeError as err:', '            macro = vars(module)[name.name]\n        except KeyError as err:')],
     demo=COMMON + r'''
put("lib.py", "def __getattr__(name):\n    if name != 'lazy': raise AttributeError(name)\n    return lambda tree, **kw: tree\n")
put("use.py", "from lib import macros, lazy\nx = lazy[5]\n")
import use
assert use.x == 5
'''),
dict(id='c21-named-callables', property='C21', needs='a macro that is a callable object without a name, e.g. a functools.partial',
     breaks='callable objects that are not functions are rejected as macros',
     edits=[('mcpyrate/coreutils.py', '        if not callable(macro):', '        if not (callable(macro) and hasattr(macro, "__qualname__")):')],
     demo=COMMON + r'''
put("lib.py", "import functools\ndef f(tree, k=0, **kw):\n    return tree\np = functools.partial(f, k=1)\n")
put("use.py", "from lib import macros, p\nx = p[5]\n")
import use
assert use.x == 5
'''),
dict(id='c21-reexported', property='C21', needs='macros imported from a module that re-exports them from another one',
     breaks='a macro-import of re-exported macros expands into an import of the module that defines them',
     edits=[('mcpyrate/expander.py', '                    thealias = copy_location(alias(name=module_absname, asname=None),',
             '                    # Skip the facade if there is one; what the macros refer to is where they live.\n                    modules = {getattr(function, "__module__", module_absname) for function in more_bindings.values()}\n                    if len(modules) == 1:\n                        module_absname = modules.pop() or module_absname\n                    thealias = copy_location(alias(name=module_absname, asname=None),')],
     demo=COMMON + r'''
put("lib/__init__.py", "")
put("lib/impl.py", "def m(tree, **kw):\n    return tree\n")
put("api.py", "from lib.impl import m\nthing = 3\n")
put("use.py", "from api import macros, m\nx = m[5]\ny = api.thing\n")
import use
assert use.y == 3
'''),
]
