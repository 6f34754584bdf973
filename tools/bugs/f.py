BUGS = [
dict(id='c17-source-lineno', property='C17', needs='a dialect-import that is not the first thing in a text that an earlier source transformer has lengthened',
     breaks='source transformers after the first get the line number of their dialect-import in an outdated text',
     edits=[('mcpyrate/dialects.py', '        matches = _dialectimport.finditer(text)\n', '        if not self._seen:\n            self._original = text\n        matches = _dialectimport.finditer(text)\n'),
 ('mcpyrate/dialects.py',
  '                    lineno = 1 + text[0:match.start()].count("\\n")  # https://stackoverflow.com/a/48647994\n',
  '                    lineno = 1 + self._original[0:match.start()].count("\\n")  # https://stackoverflow.com/a/48647994\n')],
     demo='''
import sys, types
from mcpyrate.dialects import Dialect
from mcpyrate.compiler import run
m = types.ModuleType("dd"); sys.modules["dd"] = m
seen = []
class A(Dialect):
    def transform_source(self, text):
        return text.replace("x = 1", "x = (\\n\\n\\n1)")
class B(Dialect):
    def transform_source(self, text):
        seen.append((self.lineno, text.split("\\n").index("from dd import dialects, B") + 1))
        return text
m.A, m.B = A, B
run("x = 1\\nfrom dd import dialects, A\\ny = 2\\nfrom dd import dialects, B\\n" + "z = 1\\n" * 20)
assert seen[0][0] == seen[0][1], seen
'''),
dict(id='c17-seen-by-module', property='C17', needs='two dialect-imports in the source that differ only in whitespace or comment, or one re-added later',
     breaks='source transformers of a second, differently written dialect-import of the same dialect are skipped',
     edits=[('mcpyrate/dialects.py',
  '                if statement not in self._seen:  # apply each unique dialect-import once\n                    self._seen.add(statement)\n',
  '                key = " ".join(statement.partition("#")[0].replace(",", " ").split())\n'
  '                if key not in self._seen:  # apply each unique dialect-import once\n'
  '                    self._seen.add(key)\n')],
     demo='''
import sys, types
from mcpyrate.dialects import Dialect
from mcpyrate.compiler import run
m = types.ModuleType("dd"); sys.modules["dd"] = m
n = []
class A(Dialect):
    def transform_source(self, text):
        n.append(1)
        return text
m.A = A
run("from dd import dialects, A\\nx = 1\\nfrom dd import dialects, A  # again\\n")
assert len(n) == 2
'''),
dict(id='c17-post-break', property='C17', needs='a dialect whose postprocessor returns NotImplemented, followed by one whose postprocessor does something',
     breaks='a skipped postprocessor stops the chain of postprocessors',
     edits=[('mcpyrate/dialects.py',
  '            if result is NotImplemented:\n                continue  # no step taken; proceed to next dialect\n',
  '            if result is NotImplemented:\n'
  '                if transformer_method.__func__ is not Dialect.postprocess_ast:\n'
  '                    break  # declined by an overriding postprocessor\n'
  '                continue  # no step taken; proceed to next dialect\n')],
     demo='''
import sys, types, ast
from mcpyrate.dialects import Dialect
from mcpyrate.compiler import run
m = types.ModuleType("dd"); sys.modules["dd"] = m
class A(Dialect):
    def postprocess_ast(self, tree):
        return NotImplemented
class B(Dialect):
    def postprocess_ast(self, tree):
        tree.body += ast.parse("b = 1").body
        return tree
m.A, m.B = A, B
assert run("x = 1\\nfrom dd import dialects, A, B\\n").b == 1
'''),
]
