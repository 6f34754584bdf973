BUGS = [
dict(id="c08-none-field", property="C08", needs="quoted code with a None literal (fields holding None are dropped)",
     breaks="the quote of None is a Constant node without a value",
     edits=[("mcpyrate/quotes.py", '''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]
            node = ast.Call(ast.Attribute(''', '''            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if b is not None]
            node = ast.Call(ast.Attribute(''')],
     demo='''
from mcpyrate.compiler import run
m = run("from mcpyrate.quotes import macros, q\\ndef f():\\n    return q[g(None)]\\n")
assert m.f().args[0].value is None
'''),
dict(id="c08-shared-empty", property="C08", needs="editing in place a list of a quoted tree, and evaluating the same quote again",
     breaks="node lists that are empty in the source are one shared object across evaluations and quotes",
     edits=[("mcpyrate/quotes.py", '''        elif T is list:
            return ast.List(elts=list(recurse(elt) for elt in x))
''', '''        elif T is list:
            if not x:
                return _mcpyrate_quotes_attr("_empty_suite")
            return ast.List(elts=list(recurse(elt) for elt in x))
'''), ("mcpyrate/quotes.py", '''def unastify(tree):
    """Quasiquote uncompiler.''', '''_empty_suite = []

def unastify(tree):
    """Quasiquote uncompiler.'''), ("mcpyrate/quotes.py", '''    if T is ast.Constant:
        return tree.value
''', '''    if T is ast.Constant:
        return tree.value
    elif T is ast.Attribute and tree.attr == "_empty_suite":
        return []
''')],
     demo='''
from mcpyrate.compiler import run
m = run("from mcpyrate.quotes import macros, q\\ndef f():\\n    return q[g()]\\n")
m.f().args.append(1)
assert m.f().args == []
'''),
dict(id="c09-t-level", property="C09", needs="t[] inside two quotes",
     breaks="t[] unquotes one level too early in a nested quote",
     edits=[("mcpyrate/quotes.py", '''        raise SyntaxError("`t` encountered while quotelevel < 1")
    with _quotelevel.changed_by(-1):
        tree = expander.visit_recursively(tree)
        if _quotelevel.value > 0:
''', '''        raise SyntaxError("`t` encountered while quotelevel < 1")
    with _quotelevel.changed_by(-1):
        tree = expander.visit_recursively(tree)
        if _quotelevel.value > 1:
''')],
     demo='''
from mcpyrate.compiler import run
from mcpyrate import unparse
m = run("from mcpyrate.quotes import macros, q, t\\nx = []\\nv = q[q[t[x]]]\\n")
assert unparse(m.v) == "q[t[x]]", unparse(m.v)
'''),
dict(id="c09-splice-inplace", property="C09", needs="an empty list spliced just before an element that itself contains a list splice",
     breaks="splicing in place while iterating skips the element after an empty splice",
     edits=[("mcpyrate/quotes.py", '''            newthing = []
            for item in thing:
                if isinstance(item, SpliceNodes):
                    doit(item.body)
                    # Discard the `SpliceNodes` marker and splice the `list` that was contained in it.
                    newthing.extend(item.body)
                else:
                    doit(item)
                    newthing.append(item)
            thing[:] = newthing
''', '''            for i, item in enumerate(thing):
                if isinstance(item, SpliceNodes):
                    doit(item.body)
                    # Discard the `SpliceNodes` marker and splice the `list` that was contained in it.
                    thing[i:i + 1] = item.body
                else:
                    doit(item)
''')],
     demo='''
from mcpyrate.compiler import run
from mcpyrate import unparse
m = run("from mcpyrate.quotes import macros, q, a\\nx = []\\ny = [q[z]]\\nv = q[f(a[x], [a[y]])]\\n")
assert unparse(m.v) == "f([z])", unparse(m.v)
'''),
dict(id="c09-block-first", property="C09", needs="with a: holding several items, one of them a list and a later one a single node, at the top level",
     breaks="an iterable nested in the list given to s[] and t[] or in a block of a is flattened one level only",
     edits=[("mcpyrate/quotes.py", "    lst = flatten(lst)\n    for node in lst:\n        _typecheck", "    lst = flatten(lst, recursive=any(isinstance(x, ast.AST) for x in lst))\n    for node in lst:\n        _typecheck")],
     demo='''
from mcpyrate.compiler import run
from mcpyrate import unparse
m = run("from mcpyrate.quotes import macros, q, a\\nwith q as s1:\\n    x\\nst = [[s1[0]], [s1[0]]]\\nwith q as v:\\n    with a:\\n        st\\n")
assert [type(x).__name__ for x in m.v if type(x).__name__ != "Done"] == ["Expr", "Expr"], m.v
'''),
dict(id="c10-interned", property="C10", needs="lifting two values that are equal but of different type (1, True, 1.0, -0.0), in one process",
     breaks="lifted constants are interned by equality, so that a later True becomes the 1 lifted earlier",
     edits=[("mcpyrate/quotes.py", '''            return ast.Constant(value=x)

        elif T is list:''', '''            return ast.Constant(value=_interned.setdefault(x, x))

        elif T is list:'''), ("mcpyrate/quotes.py", '''_lookup_cache = {}
''', '''_interned = {}
_lookup_cache = {}
''')],
     demo='''
from mcpyrate.quotes import astify
astify(0)
assert astify(False).value is False and str(astify(-0.0).value) == "-0.0"
'''),
dict(id="c10-subclass", property="C10", needs="a value whose class is a subclass of a builtin container",
     breaks="subclasses of list are lifted as plain lists instead of being refused",
     edits=[("mcpyrate/quotes.py", "        elif T is list:\n            return ast.List(", "        elif isinstance(x, list):\n            return ast.List(")],
     demo='''
from mcpyrate.quotes import astify
class L(list): pass
try:
    astify({"k": L([1])})
except TypeError:
    pass
else:
    raise SystemExit(1)
'''),
]
