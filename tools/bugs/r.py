RACE = r'''
import sys, threading, time, random, os, io, tempfile, shutil, atexit
sys.dont_write_bytecode = True
def race(functions, seed):
    """Run the functions in a thread each; switch often, in the middle of calls into mcpyrate."""
    import mcpyrate
    d = os.path.dirname(mcpyrate.__file__)
    out = [None] * len(functions)
    barrier = threading.Barrier(len(functions))
    def body(k):
        rng = random.Random(seed * 10 + k)
        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(d) and rng.random() < .2:
                time.sleep(rng.choice([0, 0.0001]))
        barrier.wait()
        sys.settrace(tracer)
        try:
            out[k] = functions[k]()
        except Exception as e:
            out[k] = repr(e)
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=body, args=(k,)) for k in range(len(functions))]
    for t in ts: t.start()
    for t in ts: t.join()
    return out
'''
BUGS = [
dict(id='c25-shared-mode', property='C25', needs='a thread expanding macros recursively while another one is expanding once',
     breaks='the recursive mode of all expanders in the process is switched by `visit_once` in any of them',
     edits=[('mcpyrate/core.py', '        self.recursive = True\n', ''),
            ('mcpyrate/core.py', '    def visit(self, tree):\n        """Expand macros in `tree`, using current', '    recursive = True\n\n    def visit(self, tree):\n        """Expand macros in `tree`, using current'),
            ('mcpyrate/core.py', '                self.recursive = isrecursive\n', '                BaseMacroExpander.recursive = isrecursive\n'),
            ('mcpyrate/core.py', '                self.recursive = wasrecursive\n', '                BaseMacroExpander.recursive = wasrecursive\n')],
     demo=RACE + r'''
import ast
from mcpyrate.expander import MacroExpander
from mcpyrate import unparse
def outer(tree, **kw): return ast.Subscript(value=ast.Name(id="inner"), slice=tree)
def inner(tree, **kw): return ast.Tuple(elts=[tree])
def go(method):
    e = MacroExpander({"outer": outer, "inner": inner}, "x")
    r = set()
    for _ in range(50):
        t = getattr(e, method)(ast.parse("(outer[1], outer[2], outer[3])", mode="eval").body)
        r.add(unparse(getattr(t, "body", t)))
    return r
for seed in range(6):
    a, b = race([lambda: go("visit_once"), lambda: go("visit")], seed)
    assert a == {"(inner[1], inner[2], inner[3])"}, a
    assert b == {"((1,), (2,), (3,))"}, b
'''),
dict(id='c25-unparse-buffer', property='C25', needs='two threads unparsing at the same time',
     breaks='source code unparsed by several threads at the same time is mixed up',
     edits=[('mcpyrate/unparser.py', '        with io.StringIO() as output:\n            Unparser(tree, file=output, debug=debug, color=color, expander=expander)\n            code = output.getvalue().strip()\n',
             '        start = _output.tell()  # not 0, if called during an `unparse`\n        try:\n            Unparser(tree, file=_output, debug=debug, color=color, expander=expander)\n            code = _output.getvalue()[start:].strip()\n        finally:\n            _output.seek(start)\n            _output.truncate()\n'),
            ('mcpyrate/unparser.py', 'def unparse(tree, *,', '_output = io.StringIO()  # reused, creating one for each small tree is slow\ndef unparse(tree, *,')],
     demo=RACE + r'''
import ast
from mcpyrate import unparse
def go(text):
    t = ast.parse(text)
    return {unparse(t) for _ in range(50)}
a, b = race([lambda: go("x = f(1, 2, [3, 4])"), lambda: go("def g(a, b):\n    return a + b")], 1)
assert a == {"x = f(1, 2, [3, 4])"}, a
assert len(b) == 1 and "(a + b)" in b.pop(), b
'''),
dict(id='c25-gensym', property='C25', needs='two threads generating names at the same time',
     breaks='names generated by several threads may coincide',
     edits=[('mcpyrate/utils.py', '        unique = str(uuid.uuid4()).replace("-", "")\n        return f"{basename}{unique}"\n    sym = generate()\n', '        return f"{basename}{_process}{count:016x}"\n    count = len(_previous_gensyms)\n    sym = generate()\n'),
            ('mcpyrate/utils.py', '    # The uuid spec does not guarantee no collisions, only a vanishingly small chance.\n    while sym in _previous_gensyms:\n        sym = generate()  # pragma: no cover\n', ''),
            ('mcpyrate/utils.py', '_previous_gensyms = set()\n', '_process = uuid.uuid4().hex[:16]\n_previous_gensyms = set()\n')],
     demo=RACE + r'''
from mcpyrate import gensym
for seed in range(10):
    r = race([lambda: [gensym("x") for _ in range(100)]] * 3, seed)
    names = [x for l in r for x in l]
    assert len(set(names)) == 300, len(set(names))
'''),
]
