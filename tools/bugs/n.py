COMMON = r'''
import os, sys, tempfile, subprocess
sys.dont_write_bytecode = True
import mcpyrate.activate
d = tempfile.mkdtemp()
sys.path.insert(0, d)
def put(name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
'''
BUGS = [
dict(id='c11-stable-macro-names', property='C11', needs='two modules that hygienically capture different macros of the same name',
     breaks='all captured macros with the same name share one unique name, so the first one bound in the process wins',
     edits=[('mcpyrate/quotes.py', '''                                     ast.Constant(value=gensym(name)),
                                     ast.Constant(value=frozen_macro)])],
                    [])


def capture_as_macro''', '''                                     ast.Constant(value=_unique_names.setdefault(name, gensym(name))),  # keep the expanded code stable
                                     ast.Constant(value=frozen_macro)])],
                    [])

_unique_names = {}


def capture_as_macro''')],
     demo=COMMON + r'''
for k in "12":
    put(f"helper{k}.py", f"import ast\ndef hm(tree, **kw):\n    return ast.Constant(value='h{k}')\n")
    put(f"lib{k}.py", f"from mcpyrate.quotes import macros, q, h\nfrom helper{k} import macros, hm\ndef m{k}(tree, **kw):\n    return q[h[hm][1]]\n")
put("use.py", "from lib1 import macros, m1\nfrom lib2 import macros, m2\nx = m1[5], m2[5]\n")
import use
assert use.x == ('h1', 'h2'), use.x
'''),
dict(id='c11-seeded-gensym', property='C11', needs='programs (e.g. workers) that seed the random module equally',
     breaks='generated names come from the global random generator, so equally seeded processes generate the same names',
     edits=[('mcpyrate/utils.py', '        unique = str(uuid.uuid4()).replace("-", "")', '        unique = uuid.UUID(int=random.getrandbits(128), version=4).hex  # no system call needed'),
            ('mcpyrate/utils.py', 'import uuid\n', 'import random\nimport uuid\n')],
     demo=COMMON + r'''
out = [subprocess.check_output([sys.executable, "-c", "import random; from mcpyrate import gensym; random.seed(1); print(gensym('x'))"]) for _ in range(2)]
assert out[0] != out[1], out
'''),
dict(id='c11-inline-constants', property='C11', needs='a macro that looks for hygienic captures, of a value that is a number or a string',
     breaks='hygienically captured constants are not captures any more for is_captured_value',
     edits=[('mcpyrate/quotes.py', '''    return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                    [ast.Tuple(elts=[ast.Constant(value=name),''', '''    if type(value) in (int, float, complex, str, bytes):  # no need to freeze what is a constant anyway
        return ast.Constant(value=value)
    lookup = _mcpyrate_quotes_attr("lookup_value", force_import=True)
    return ast.Call(lookup,
                    [ast.Tuple(elts=[ast.Constant(value=name),''')],
     demo=COMMON + r'''
from mcpyrate.quotes import capture_value, is_captured_value, lookup_value
for v in (1.5, [1.5]):
    key = is_captured_value(capture_value(v, "v"))
    assert key and lookup_value(key) == v, v
'''),
dict(id='c11-shared-cache', property='C11', needs='two captures of the same expression whose frozen values are equally long',
     breaks='the cache of unpickled captures tells captures of one name apart by their length and beginning only',
     edits=[('mcpyrate/quotes.py', '    cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently',
             '    cachekey = (name, len(frozen_value), hash(frozen_value[:16]))  # stable also over reloads of the module')],
     demo=COMMON + r'''
put("lib.py", "from mcpyrate.quotes import macros, q, h\ndef m(tree, **kw):\n    v = ['x' * 30 + str(tree.value)]\n    return q[h[v]]\n")
put("use.py", "from lib import macros, m\nx = m[1], m[2]\n")
import use
assert use.x == (['x' * 30 + '1'], ['x' * 30 + '2']), use.x
'''),
]
