BUGS = [
dict(id='c03-macros-anywhere', property='C03', needs='a plain module that imports a name `macros` or `dialects` after another name',
     breaks='an ordinary from-import with a name `macros` in it is taken for a macro-import',
     edits=[('mcpyrate/coreutils.py', '''        firstimport = statement.names[0]
        if firstimport.name == magicname and firstimport.asname is None:
            return True
''', '''        if len(statement.names) > 1:
            return any(name.name == magicname and name.asname is None for name in statement.names)
        return statement.names[0].name == magicname and statement.names[0].asname is None
''')],
     demo=r'''
import sys, os, tempfile, importlib
sys.dont_write_bytecode = True
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "lib.py"), "w").write("value = 1\nmacros = 2\n")
    open(os.path.join(d, "use.py"), "w").write("from lib import value, macros\nx = value + macros\n")
    sys.path.insert(0, d)
    import mcpyrate.activate
    import use
    assert use.x == 3
'''),
dict(id='c04-name-fresh', property='C04', needs='an identifier macro that returns a new Name node with its own name',
     breaks='a name macro that asks for the plain name by returning a fresh node is expanded again and again',
     edits=[('mcpyrate/expander.py', '''                return not (type(tree) is Name and tree.id == macroname)''', '''                return tree is not name''')],
     demo=r'''
import ast
from mcpyrate.expander import MacroExpander, namemacro
from mcpyrate.core import global_postprocess
@namemacro
def nm(tree, **kw):
    return ast.Name(id="nm")
t = global_postprocess(MacroExpander({"nm": nm}, "x.py").visit(ast.parse("nm + 1")))
assert ast.unparse(t) == "nm + 1"
'''),
dict(id='c04-collector-args', property='C04', needs='the macro collector, and a macro invocation within the arguments of a block or decorator macro',
     breaks='the macro collector does not look into arguments of decorator macros',
     edits=[('mcpyrate/expander.py', '''                key = (macroname, "decorator")
                if key not in self._seen:
                    self.collected.append(key)
                    self._seen.add(key)
                self.visit(macroargs)''', '''                key = (macroname, "decorator")
                if key not in self._seen:
                    self.collected.append(key)
                    self._seen.add(key)
                    self.visit(macroargs)''')],
     demo=r'''
import ast
from mcpyrate.expander import MacroExpander, MacroCollector, parametricmacro
@parametricmacro
def d(tree, **kw): return tree
def e(tree, **kw): return tree
mc = MacroCollector(MacroExpander({"d": d, "e": e}, "x.py"))
mc.visit(ast.parse("@d[1]\n@d[e[2]]\ndef f(): pass"))
assert sorted(mc.collected) == [("d", "decorator"), ("e", "expr")], mc.collected
'''),
dict(id='c04-invocation-items', property='C04', needs='a block macro that looks at `invocation`, in a `with` with several items',
     breaks='the `invocation` given to a block macro lacks the item that invokes it',
     edits=[('mcpyrate/expander.py', '''        original_withstmt = copy(withstmt)
        original_withstmt.items = copy(withstmt.items)
''', '''        original_withstmt = copy(withstmt)
        if len(withstmt.items) == len(macros):
            original_withstmt.items = copy(withstmt.items)
''')],
     demo=r'''
import ast
from mcpyrate.expander import MacroExpander
seen = []
def b(tree, *, invocation, **kw):
    seen.append(ast.unparse(invocation.items[0]) + str(len(invocation.items)))
    return tree
MacroExpander({"b": b}, "x.py").visit(ast.parse("with b, open('x') as f:\n    pass"))
assert seen == ["b2"], seen
'''),
dict(id='c06-import-line', property='C06', needs='a macro-import that is not at the start of the module, and a failure of that import at run time, or coverage',
     breaks='the import that a macro-import expands into is on the line of the first statement',
     edits=[('mcpyrate/expander.py', '''                    tree.body[index] = copy_location(Import(names=[thealias]),
                                                     statement)''', '''                    tree.body[index] = copy_location(Import(names=[thealias]),
                                                     tree.body[0] if index else statement)''')],
     demo=r'''
import ast
from mcpyrate.expander import find_macros
t = ast.parse("x = 1\n\n\nfrom mcpyrate.quotes import macros, q\n")
find_macros(t, filename="x.py")
assert t.body[1].lineno == 4, t.body[1].lineno
'''),
dict(id='c06-dummy-name-expr', property='C06', needs='an expression macro that returns None, within a statement of several lines',
     breaks='the line of a removed multi-line expression macro is reported wrongly',
     edits=[('mcpyrate/expander.py', '''    call = copy_location(Call(func=lam, args=[], keywords=[]), macronode)
    return Done(call)''', '''    call = copy_location(Call(func=lam, args=[], keywords=[]), macronode)
    if getattr(macronode, "end_lineno", None):
        call.lineno = lam.lineno = non.lineno = macronode.end_lineno
        call.col_offset = lam.col_offset = non.col_offset = 0
    return Done(call)''')],
     demo=r'''
import ast
from mcpyrate.expander import expand_macros
def drop(tree, **kw): return None
t = expand_macros(ast.parse("x = drop[\n1,\n2]"), {"drop": drop}, filename="x.py")
assert t.body[0].value.lineno == 1
'''),
dict(id='c07-report-order', property='C07', needs='a macro failing three or more invocations deep',
     breaks='the use sites of nested macros are listed in the wrong order',
     edits=[('mcpyrate/core.py', '''                if oldmsg_lines[0] == hint_lines[0]:
                    oldmsg = "\\n".join(oldmsg_lines[hint_length_in_lines:])
                msg = f"{hint}\\n{msg}\\n{oldmsg}"''', '''                if oldmsg_lines[0] == hint_lines[0]:
                    oldmsg = "\\n".join(oldmsg_lines[hint_length_in_lines:])
                    msg, oldmsg = oldmsg, msg
                msg = f"{hint}\\n{msg}\\n{oldmsg}"''')],
     demo=r'''
import ast
from mcpyrate.expander import MacroExpander
def bad(tree, **kw): raise ValueError("x")
def wrap(tree, *, expander, **kw): return expander.visit_recursively(tree)
try:
    MacroExpander({"bad": bad, "wrap": wrap}, "x.py").visit(ast.parse("wrap[\nwrap[\nwrap[\nbad[1]]]]"))
except Exception as e:
    import re
    lines = [int(n) for n in re.findall(r"x\.py:(\d+)", re.sub("\x1b\\[[0-9;]*m", "", str(e)))]
    assert lines == sorted(lines) and lines[0] == 1 and lines[-1] == 4, str(e)
else:
    assert False
'''),
dict(id='c09-s-typecheck', property='C09', needs='s[] or t[] on a list with a statement in it',
     breaks='statements in the list given to s[] are put into the list expression silently',
     edits=[('mcpyrate/quotes.py', '''    lst = _flatten_and_typecheck_iterable(nodes, ast.expr, "`s[]`")''', '''    lst = _flatten_and_typecheck_iterable(nodes, ast.AST, "`s[]`")''')],
     demo=r'''
import ast
from mcpyrate.quotes import ast_list
try:
    ast_list([ast.Name(id="x"), ast.Pass()])
except TypeError:
    pass
else:
    assert False
'''),
dict(id='c11-as-macro-names', property='C11', needs='capture_as_macro of different macro functions with the same name',
     breaks='macros captured manually are named after the function only, so that a second one with that name is the first one',
     edits=[('mcpyrate/quotes.py', '''    name = macro.__name__
    return lookup_macro((name, gensym(name), frozen_macro))''', '''    name = macro.__name__
    for unique_name, other in list(global_bindings.items()):  # reuse an earlier capture
        if scrub_uuid(unique_name) == name and getattr(other, "__qualname__", None) == getattr(macro, "__qualname__", None):
            return lookup_macro((name, unique_name, frozen_macro))
    return lookup_macro((name, gensym(name), frozen_macro))''')],
     demo=r'''
import sys, types
from mcpyrate.quotes import capture_as_macro
from mcpyrate.core import global_bindings
fs = []
for m in ("m1", "m2"):
    mod = sys.modules[m] = types.ModuleType(m)
    exec("def mac(tree, **kw): return tree", mod.__dict__)
    fs.append(mod.mac)
n1, n2 = [capture_as_macro(f) for f in fs]
assert global_bindings[n1.id] is fs[0] and global_bindings[n2.id] is fs[1]
'''),
dict(id='c14-highest-first', property='C14', needs='phase blocks that are not in descending order',
     breaks='the phase number of the first block is taken for the highest one, so that higher phases are not compiled first',
     edits=[('mcpyrate/multiphase.py', '''        if maxn is None or (n is not None and n > maxn):
            maxn = n
''', '''        if not maxn:
            maxn = n
        elif n and n == maxn + 1:
            maxn = n
''')],
     demo=r'''
import ast
from mcpyrate.multiphase import detect_highest_phase
assert detect_highest_phase(ast.parse("with phase[1]:\n    pass\nwith phase[3]:\n    pass\nwith phase[2]:\n    pass"), filename="x.py") == 3
'''),
dict(id='c14-phase-const', property='C14', needs='a module that looks at `__phase__` when it has finished, or a phase whose code is only a docstring and future-imports',
     breaks='`__phase__` is not set in the final phase of modules that have code in higher phases only',
     edits=[('mcpyrate/multiphase.py', '''            phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)
''', '''            if k or not any(isinstance(stmt, ast.Assign) for stmt in phase_k_tree.body[:1]):
                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)
''')],
     demo=r'''
import sys, os, tempfile
sys.dont_write_bytecode = True
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "use.py"), "w").write("y = 1\nfrom mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    x = __phase__\n")
    sys.path.insert(0, d)
    import mcpyrate.activate
    import use
    assert use.x == 0
'''),
dict(id='c16-list-mutated', property='C16', needs='a statement list that is run in a module without a source file, and used again afterwards',
     breaks='a list that starts with a docstring loses it when it is run',
     edits=[('mcpyrate/compiler.py', '''        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=optimize)
        module.__doc__ = docstring
''', '''        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=optimize)
        module.__doc__ = docstring
        if docstring and isinstance(source, list) and len(source) > 1:
            del source[0]
''')],
     demo=r'''
import ast
from mcpyrate.compiler import run
b = ast.parse("'doc'\nx = 1").body
run(b)
assert len(b) == 2
'''),
dict(id='c18-all-merged', property='C18', needs='a template and a body that both define `__all__`',
     breaks='the template`s `__all__` is kept too',
     edits=[('mcpyrate/splicing.py', '''            user_magic_all +
''', '''            (user_magic_all or ignored_template_magic_all) +
''')],
     demo=r'''
import ast
from mcpyrate.splicing import splice_dialect
out = splice_dialect(ast.parse("x = 1").body, ast.parse("__all__ = ['y']\n__paste_here__").body)
assert not any(isinstance(s, ast.Assign) and s.targets[0].id == "__all__" for s in out)
'''),
dict(id='c18-docstring-order', property='C18', needs='docstrings in both, the one of the user ending in or starting with white space',
     breaks='combined docstrings are stripped',
     edits=[('mcpyrate/splicing.py', '''        new_doc = user_doc + sep + template_doc''', '''        new_doc = user_doc.rstrip() + sep + template_doc''')],
     demo=r'''
import ast
from mcpyrate.splicing import splice_dialect
out = splice_dialect(ast.parse("'doc \\n'\nx = 1").body, ast.parse("'tmpl'\n__paste_here__").body)
assert out[0].value.value == "doc \n\n" + "-" * 79 + "\ntmpl"
'''),
dict(id='c21-swapped-names', property='C21', needs='a macro-import that swaps the names of two macros of a library',
     breaks='with swapped names, a macro-import binds one of them to the wrong macro',
     edits=[('mcpyrate/coreutils.py', '''        bindings[name.asname or name.name] = macro
''', '''        bindings[name.name] = macro
        if name.asname:
            bindings[name.asname] = bindings.pop(name.name)
''')],
     demo=r'''
import ast, sys, types
from mcpyrate.expander import find_macros
m = sys.modules["mm"] = types.ModuleType("mm")
m.a = lambda tree, **kw: tree
m.b = lambda tree, **kw: tree
b = find_macros(ast.parse("from mm import macros, a as b, b as a"), filename="x.py")
assert b == {"b": m.a, "a": m.b}, b
'''),
dict(id='c28-setdefault', property='C28', needs='setdefault on a key whose value is None',
     breaks='setdefault replaces a value that is None',
     edits=[('mcpyrate/bunch.py', '''        return self._data.setdefault(name, *default)''', '''        if self._data.get(name) is None:
            self._data[name] = default[0] if default else None
        return self._data[name]''')],
     demo=r'''
from mcpyrate.bunch import Bunch
b = Bunch(x=None)
assert b.setdefault("x", 1) is None and b.x is None
'''),
dict(id='c28-eq-order', property='C28', needs='comparing two bunches with the same items in another order, or a bunch with a mapping that is no dict',
     breaks='comparison depends on the order of the keys',
     edits=[('mcpyrate/bunch.py', '''        return other == self._data
''', '''        return list(other.items()) == list(self._data.items()) if isinstance(other, Bunch) else other == self._data
''')],
     demo=r'''
from mcpyrate.bunch import Bunch
assert Bunch(a=1, b=2) == Bunch(b=2, a=1)
'''),
dict(id='c28-iter-snapshot', property='C28', needs='a view obtained before the bunch is changed',
     breaks='views do not follow changes made to the bunch',
     edits=[('mcpyrate/bunch.py', '''        return self._data.keys()
''', '''        return dict(self._data).keys()
''')],
     demo=r'''
from mcpyrate.bunch import Bunch
b = Bunch(a=1)
k = b.keys()
b.x = 2
assert list(k) == ["a", "x"]
'''),
]
