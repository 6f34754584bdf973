BUGS = [
dict(id="c28-popitem", property="C28", needs="popitem on a bunch with several items, whose order matters (history-dependent)",
     breaks="popitem removes the oldest instead of the newest item", 
     edits=[("mcpyrate/bunch.py", "        return self._data.popitem()\n", "        name = min(self._data, key=len) if len(self._data) > 2 else next(reversed(list(self._data)), None)\n        return (name, self._data.pop(name)) if name is not None else self._data.popitem()\n")],
     demo='''
from mcpyrate.bunch import Bunch
b = Bunch(a=1, bb=2, ccc=3)
assert b.popitem() == ("ccc", 3)
'''),
dict(id="c28-replace-alias", property="C28", needs="replacing a bunch's data from another one and later changing either of them",
     breaks="replace shares the data of the two bunches instead of copying it",
     edits=[("mcpyrate/bunch.py", "        self._data = other.copy()._data\n", "        self._data = other._data if len(other) > 1 else other.copy()._data\n")],
     demo='''
from mcpyrate.bunch import Bunch
a, b = Bunch(x=1), Bunch(y=2, z=3)
a.replace(b)
a.y = 5
assert b.y == 2
'''),
dict(id="c28-get-default", property="C28", needs="a key present with the value None (or another false value), read with get and a default",
     breaks="get returns the default for a present key with a false value",
     edits=[("mcpyrate/bunch.py", "        return self[name] if name in self else default\n", "        return self._data.get(name) or default\n")],
     demo='''
from mcpyrate.bunch import Bunch
assert Bunch(x=0).get("x", 7) == 0
'''),
dict(id="c29-flatten-falsy", property="C29", needs="an empty nested list or a false non-None element deep inside the list",
     breaks="flatten drops false elements", 
     edits=[("mcpyrate/utils.py", "        elif elt is not None:\n            out.append(elt)\n", "        elif elt or type(elt) in (bool, str):\n            out.append(elt)\n")],
     demo='''
from mcpyrate.utils import flatten
assert flatten([0, [None, [()]], 1]) == [0, (), 1]
'''),
dict(id="c29-tracker-exit", property="C29", needs="an exception raised inside set_to (level not restored)",
     breaks="NestingLevelTracker keeps the inner level after an exception other than Exception",
     edits=[("mcpyrate/utils.py", '''            try:
                yield
            finally:
                self.stack.pop()
''', '''            try:
                yield
            except Exception:
                self.stack.pop()
                raise
            else:
                self.stack.pop()
''')],
     demo='''
from mcpyrate.utils import NestingLevelTracker
t = NestingLevelTracker()
try:
    with t.set_to(3):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert t.value == 0
'''),
dict(id="c20-vararg", property="C20", needs="a name that occurs in a nonlocal or global statement listing several names",
     breaks="only the first occurrence in a global/nonlocal list after position 0 is renamed",
     edits=[("mcpyrate/utils.py", "                for j in range(len(tree.names)):\n", "                for j in range(min(2, len(tree.names))):\n")],
     demo='''
import ast
from mcpyrate.utils import rename
t = ast.parse("def f():\\n    global a, b, c\\n    c = 1")
assert "global a, b, z" in ast.unparse(rename("c", "z", t))
'''),
dict(id="c20-alias", property="C20", needs="an import that renames, where the imported name and the as-name are the same identifier as the renamed one",
     breaks="only one of name and as-name of an import is renamed",
     edits=[("mcpyrate/utils.py", "                    tree.name = newname\n                if tree.asname == oldname:\n", "                    tree.name = newname\n                elif tree.asname == oldname:\n")],
     demo='''
import ast
from mcpyrate.utils import rename
assert ast.unparse(rename("x", "z", ast.parse("from m import x as x"))) == "from m import z as z"
'''),
dict(id="c19-suite-none", property="C19", needs="a transformer visiting a suite directly, whose callback deletes all statements",
     breaks="visiting a suite whose statements are all removed leaves them in place",
     edits=[("mcpyrate/walkers.py", "                    new_tree = []  # preserve", "                    return []  # preserve")],
     demo='''
import ast
from mcpyrate.walkers import ASTTransformer
class T(ASTTransformer):
    def transform(self, tree):
        return None
suite = ast.parse("a\\nb").body
out = T().visit(suite)
assert out == [] and suite == []
'''),
dict(id="c19-state-leak", property="C19", needs="an exception caught by a callback above a withstate subtree, after which the walk continues",
     breaks="after an exception the overridden state of the subtree stays in force",
     edits=[("mcpyrate/walkers.py", '''                for elt in tree:
                    self.visit(elt)
                return
            return self.examine(tree)
        finally:
''', '''                for elt in tree:
                    self.visit(elt)
                return
            result = self.examine(tree)
            return result
        except KeyError:
            newstate = None
            raise
        finally:
''')],
     demo='''
import ast
from mcpyrate.walkers import ASTVisitor
class V(ASTVisitor):
    def examine(self, tree):
        if isinstance(tree, ast.If):
            self.withstate(tree.body, n=1)
            try:
                self.generic_visit(tree)
            except KeyError:
                pass
        elif isinstance(tree, ast.Name) and tree.id == "boom":
            raise KeyError
        else:
            self.generic_visit(tree)
v = V(n=0)
v.visit(ast.parse("if 1:\\n    boom"))
assert v.state.n == 0
'''),
]
