BUGS = [
dict(id="c14-shared-lift", property="C14", needs="a macro invocation (or a macro that edits its input in place) inside a phase block, whose expansion is observed again in the next phase",
     breaks="code lifted to the next phase is not a copy, so the next phase sees the already expanded tree",
     edits=[("mcpyrate/multiphase.py", "            remaining.extend(deepcopy(withphase.body))", "            remaining.extend(copy(withphase.body))")],
     demo='''
from mcpyrate.compiler import run, create_module
LOG = []
import builtins; builtins.LOG14 = LOG
src = """from mcpyrate.multiphase import macros, phase
with phase[2]:
    def m(tree, **kw):
        LOG14.append(__phase__)
        return tree
with phase[1]:
    from __self__ import macros, m
    x = [m[1]]
"""
run(src, create_module("demo14", filename="/nonexistent/demo14.py"))
assert LOG == [2, 1], LOG
'''),
dict(id="c14-docstring", property="C14", needs="a multi-phase module with a docstring and no future-imports",
     breaks="the module docstring of a multi-phase module is lost",
     edits=[("mcpyrate/multiphase.py", "            phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)", """            if any(isfutureimport(stmt) for stmt in phase_k_tree.body):
                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)
            else:
                phase_k_tree.body.insert(0, assignment)""")],
     demo='''
from mcpyrate.compiler import run, create_module
m = run("'doc'\\nfrom mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    x = 1\\n", create_module("demo14", filename="/nonexistent/demo14.py"))
assert m.__doc__ == "doc"
'''),
dict(id="c14-future-first", property="C14", needs="a future-import that is not the first one, in a module with phases whose code depends on it",
     breaks="only the first future-import of a module affects its higher phases",
     edits=[("mcpyrate/multiphase.py", "            if isfutureimport(stmt):\n                thisphase.append(stmt)", "            if isfutureimport(stmt) and not any(isfutureimport(other) for other in thisphase):\n                thisphase.append(stmt)")],
     demo='''
from mcpyrate.compiler import run, create_module
m = run("from __future__ import division\\nfrom __future__ import annotations\\nfrom mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    def f(a: nope): pass\\n", create_module("demo14", filename="/nonexistent/demo14.py"))
assert m.f.__annotations__ == {"a": "nope"}
'''),
dict(id="c14-lift-order", property="C14", needs="a phase-1 block that comes before some phase-0 statement it is run after, in a module with at least two phase-1 blocks",
     breaks="all blocks of one phase are lifted to the place of the first one",
     edits=[("mcpyrate/multiphase.py", "    remaining = []\n    def lift(withphase):", "    remaining = []\n    lifted = []\n    def lift(withphase):"),
            ("mcpyrate/multiphase.py", "            remaining.extend(deepcopy(withphase.body))", "            k = (lifted[0] + lifted[1]) if lifted else len(remaining)\n            lifted[:] = [lifted[0] if lifted else k, k - (lifted[0] if lifted else k) + len(withphase.body)]\n            remaining[k:k] = deepcopy(withphase.body)")],
     demo='''
from mcpyrate.compiler import run, create_module
m = run("from mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    x = [1]\\nx = [0]\\nwith phase[1]:\\n    x.append(2)\\n", create_module("demo14", filename="/nonexistent/demo14.py"))
assert m.x == [0, 2], m.x
'''),
]
