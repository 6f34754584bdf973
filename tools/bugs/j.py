H = '''
import ast, sys, types
from mcpyrate import compiler, unparse
m = types.ModuleType("m27")
def _own(f):
    f.__module__ = "m27"
    f.__qualname__ = f.__name__
    setattr(m, f.__name__, f)
    return f
@_own
def first(tree, **kw):
    return ast.parse("second[a]").body[0].value
@_own
def second(tree, **kw):
    return ast.Constant(value=2)
@_own
def once(tree, *, expander, **kw):
    return expander.visit_once(tree)
sys.modules["m27"] = m
HEAD = """from mcpyrate.quotes import macros, q, u, a, h
from mcpyrate.metatools import macros, expandsq, expand1sq, expands, expand1s, expandr, expand1r, expandrq, macro_bindings, fill_location, expand_first
from m27 import macros, first, second, once
"""
def go(src, **extra):
    with compiler.temporary_module("u27") as mod:
        mod.__dict__.update(extra)
        compiler.run(HEAD + src, mod)
        return mod
'''
BUGS = [
dict(id="c27-static-inherits-mode", property="C27", needs="`expands` inside the input of a macro that expands it with visit_once",
     breaks="the static expansion leaves macros unexpanded when it is used inside a once-only visit",
     edits=[("mcpyrate/metatools.py", "    tree = expander.visit_recursively(unastify(tree.body))", "    tree = expander.visit(unastify(tree.body))")],
     demo=H + '''
assert unparse(go("z = once[expands[q[first[1]]]]\\n").z) == "2"
'''),
dict(id="c27-local-bindings", property="C27", needs="run-time expansion of quoted code with a hygienically captured macro",
     breaks="macro bindings captured for run-time expansion lack the global (hygienically captured) macros",
     edits=[("mcpyrate/metatools.py", "    return ast.Dict(keys=keys, values=values)\n", "    pairs = [(k, v) for k, v in zip(keys, values) if k.value in expander.local_bindings]\n    return ast.Dict(keys=[k for k, v in pairs], values=[v for k, v in pairs])\n")],
     demo=H + '''
mod = go("w = q[h[second]]\\nname = w.id\\nb = 0\\n")
mod = go("t = q[h[first][1]]\\nb = 0\\n")
from mcpyrate.core import global_bindings
mod = go("b = macro_bindings\\n")
assert any(k.startswith("first_") for k in mod.b), sorted(mod.b)
'''),
dict(id="c27-alias-lost", property="C27", needs="a macro bound under two names, selected with expand_first or extract_bindings",
     breaks="only one of the names of a macro is selected",
     edits=[("mcpyrate/utils.py", "    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}", "    functions = set(functions)\n    return {names[0]: function for function in functions\n            for names in [[k for k, v in bindings.items() if v is function]] if names}")],
     demo=H + '''
from mcpyrate.utils import extract_bindings
assert extract_bindings({"a": first, "b": second, "c": first}, first) == {"a": first, "c": first}
'''),
dict(id="c27-fill-overwrites", property="C27", needs="fill_location on a quoted tree that has an already located tree spliced in",
     breaks="fill_location replaces positions that were there already",
     edits=[("mcpyrate/metatools.py", '[ast.keyword("mode", astify("reference"))])', '[ast.keyword("mode", astify("overwrite"))])')],
     demo=H + '''
t = ast.parse("\\n\\n\\n\\nx").body[0].value
z = go("z = fill_location[q[a[t] + 1]]\\n", t=t).z
assert z.left.lineno == 5 and z.lineno == 4, (z.left.lineno, z.lineno)
'''),
dict(id="c27-once-strips-done", property="C27", needs="one-layer run-time expansion of code with a macro that protects part of its output from further expansion",
     breaks="parts that a macro has marked as done are expanded again after a one-layer run-time expansion",
     edits=[("mcpyrate/metatools.py", "    return expander.visit_once(tree).body  # Done(body=...) -> ...", "    from .core import Done\n    from .markers import delete_markers\n    return delete_markers(expander.visit_once(tree), cls=Done)")],
     demo=H + '''
z = go("z = expandr[expand1r[q[[once[first[1]], 5]]]]\\n").z
from mcpyrate.markers import delete_markers
assert unparse(delete_markers(z)) == "[second[a], 5]", unparse(z)
'''),
]
