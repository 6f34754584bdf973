BUGS = [
dict(id="c15-register-first", property="C15", needs="creating a module whose parent package is missing",
     breaks="a failed create_module leaves an entry in sys.modules",
     edits=[("mcpyrate/compiler.py", "    module.__file__ = filename\n", "    module.__file__ = filename\n    sys.modules[dotted_name] = module\n"), ("mcpyrate/compiler.py", "    sys.modules[dotted_name] = module\n    return module", "    return module")],
     demo='''
import sys
from mcpyrate.compiler import create_module
try:
    create_module("nope15.x")
except ModuleNotFoundError:
    pass
assert "nope15.x" not in sys.modules
'''),
dict(id="c15-autoname", property="C15", needs="two auto-named modules alive while some other sys.modules entry was removed between their creations",
     breaks="automatically generated module names collide, and the older module is lost",
     edits=[("mcpyrate/compiler.py", '    dotted_name = dotted_name or f"dynamically_created_module_{uuid}"', '    dotted_name = dotted_name or f"dynamically_created_module_{len(sys.modules)}"')],
     demo='''
import sys
from mcpyrate.compiler import create_module, temporary_module
with temporary_module("t15"):
    a = create_module()
b = create_module()
assert a.__name__ != b.__name__ and sys.modules[a.__name__] is a
'''),
dict(id="c15-parent-missing-attr", property="C15", needs="first multi-phase import of a submodule, looking at the parent package after a failure or from within a phase",
     breaks="the temporary module of a phase gets into the parent package",
     edits=[("mcpyrate/compiler.py", "        if update_parent:\n            # The", "        if update_parent or not hasattr(package, finalcomponent):\n            # The")],
     demo='''
import sys
from mcpyrate.compiler import create_module, expand
p = create_module("p15")
expand("from mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    x = 1\\n", "/nonexistent/p15/x.py", self_module="p15.x")
assert not hasattr(p, "x")
'''),
dict(id="c15-restore-spec", property="C15", needs="a multi-phase run in a module made at run time (registered, no __spec__)",
     breaks="after multi-phase expansion a registered run-time created module is not put back",
     edits=[("mcpyrate/multiphase.py", "    if self_module in sys.modules:\n        original_module = sys.modules[self_module]", "    if getattr(sys.modules.get(self_module), \"__spec__\", None) is not None:\n        original_module = sys.modules[self_module]")],
     demo='''
import sys
from mcpyrate.compiler import create_module, run
m = create_module("m15")
run("from mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    x = 1\\n", m)
assert sys.modules.get("m15") is m
'''),
dict(id="c15-temp-exit", property="C15", needs="a temporary submodule created with update_parent=False next to a parent attribute of the same name",
     breaks="leaving a temporary module deletes the parent's attribute even though the parent was not to be touched",
     edits=[("mcpyrate/compiler.py", '            if update_parent and dotted_name.find(".") != -1:', '            if dotted_name.find(".") != -1:')],
     demo='''
import sys
from mcpyrate.compiler import create_module, temporary_module
p = create_module("p15")
x = create_module("p15.x")
with temporary_module("p15.x", update_parent=False):
    pass
assert p.x is x
'''),
]
