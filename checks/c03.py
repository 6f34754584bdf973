"""C03: macro-free code compiles exactly as plain Python compiles it."""
import ast
import builtins
import importlib.machinery
import importlib.util
import os
import random
import re
import sys
import types
import warnings

import asteq
import codecmp
import fw
import pygen
from fw import Violation, brief, expect

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "differential run-time monitor: code objects, warnings and exceptions of mcpyrate's compiler and import hook vs CPython's"
LEVEL_NOTE = ("Random modules over the whole Python 3.12 grammar, standard-library files and damaged sources are compiled by mcpyrate (API, AST input, import hook) and by CPython; "
              "all code attributes, instruction positions, warnings and errors must agree. Trusts CPython's compile as the reference; held on the executions listed in the evidence only.")
RULE = ("Random compilable modules (docstrings, future-imports, encodings, optimize levels), stdlib files, token-level damaged sources, modules with an unused macro import; "
        "each compiled through several entry points and compared with CPython. Non-trivial: the code has nested code objects or at least 8 names/constants, or both sides raised an error; distinct by source.")
QUICK = dict(n=6000, secs=13)
THOROUGH = dict(n=400000, secs=400)
MIN = {"codes-compared": 1000, "instructions": 20000, "errors-compared": 200, "import-hook": 200, "unused-macro": 100, "deeply nested": 60}
ASSUMPTIONS = ["CPython's own compile is the reference for macro-free code"]

PROLOGUES = ["", "", "", "'doc'\n", '"""Doc.\n\n    indented\n"""\n', "'doc'\nfrom __future__ import annotations\n", "from __future__ import annotations\n",
             "from __future__ import division, generator_stop\n", "# comment\n\n'''d'''\n", "f'not a docstring'\n", "b'not a docstring'\n", "42\n", "...\n",
             "from __future__ import annotations\nfrom __future__ import division\nx: int = 1\n", "'a' 'b'\n", "#!/usr/bin/env python\n", "'doc'; x = 1\n", "\n\n'doc'\n\n\n"]
COOKIES = [None, None, None, "latin-1", "utf-8", "utf-8-sig", "cp1252"]
EXTRAS = ["async def af(x):\n    async with x as y, z:\n        await y\n    async for i in x:\n        yield i\n    return [j async for j in x]\n" .replace("    return [j async for j in x]\n", ""),
          "def g():\n    x = 1\n    def h():\n        nonlocal x\n        global y\n        x += 1\n        return lambda: x\n    return h\n",
          "try:\n    pass\nexcept* ValueError as e:\n    print(e)\n",
          "type A[T: int, *Ts, **P] = dict[T, T]\n", "class C[T](list[T], metaclass=type):\n    'doc'\n    __slots__ = ('a',)\n    x: int\n    def m(self):\n        return __class__, super()\n",
          "with (open('a') as f, open('b')):\n    pass\n", "if 0:\n    yieldless = 1\nelif 1 and (w := 3):\n    pass\nelse:\n    del w\n",
          "match x:\n    case {'a': 1, **r} if r: pass\n    case C(1, b=[*_, 2]) | None as z if False: pass\n    case -1 | 1+2j: pass\n".replace(" | None as z if False", " as z"),
          "assert (x, 'always true')\n", "x = 1 is 1\n", "'\\d'\n", "def f():\n    'doc'\n", "def f():\n    '''doc\n      more\n    '''\n    return 1\n",
          "while True:\n    break\nelse:\n    pass\n", "@(lambda f: f)\n@len\ndef f(): ...\n", "if __debug__:\n    print('debug')\nassert x, 'msg'\n",
          "print(f'{x!r:>{w}} {y=} {{}}')\n", "lambda *a, b=1, **k: (yield)\n", "x = (yield_ for yield_ in range(3))\n", "from . import a\nfrom .b import c as d\nimport e.f as g, h.i\n",
          "a = b = c, *d = e\na: int\n(a): int = 1\na.b: int = 2\na[b]: int\n", "for x, in y: continue\nelse: pass\n", "print(*a, **b, c=1)\n", "x = a if b else c\nnot x\n-x\n~x\n+x\n",
          "def f(a, /, b: int = 1, *c: 'x', d, e=2, **g) -> None: return\n", "global zz\nzz = 1\n", "\n".join(f"v{i} = {i}" for i in range(300)) + "\n", "x = " + "+".join(["a"] * 150) + "\n", "class A: pass\nclass B(A): x = [i for i in range(3)]\n"]


RAW = "\x0c \x1c \x1d \x85 \u2028 \u2029 \x0b \xa0 \ufeff \x7f \x01 \U0001f600"
EXTRAS += [f"x = '{RAW}'\n", f'def f():\n    \"\"\"{RAW}\n    {RAW}\"\"\"\n', f"# {RAW}\nx = 1  # {RAW}\n", "x = b'\x0c\x1c'\n", f"x = f'{RAW}{{y}}'\n",
           "\x0cx = 1\n\x0c\ndef f():\n\x0c    pass\n", "if x:\n\ty\n", "x = \"\"\"a\r\nb\rc\nd\"\"\"\n", "x = 1 \\\n  + 2\n"]


def setup(scratch):
    with open(os.path.join(scratch, "mcpv_unusedmac.py"), "w") as f:
        f.write("def zzunused(tree, **kw): raise AssertionError\ndef zzother(tree, **kw): raise AssertionError\n"
                "from mcpyrate import namemacro\n@namemacro\ndef zzname(tree, **kw): raise AssertionError\n")
    sys.path.insert(0, scratch)
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler, mcpyrate.quotes  # noqa: F401,E401
    import mcpv_unusedmac  # noqa: F401


def fixed(tier):
    cases = []
    n = 0
    for pro in PROLOGUES:
        for extra in EXTRAS:
            n += 1
            if tier == "thorough" or n % 2 == 0:
                cases.append({"kind": "src", "src": pro + extra, "cookie": None, "opt": n % 4 - 1})
    files = random.Random("c03").sample(asteq.stdlib_files(), 24 if tier == "quick" else 300)
    cases += [{"kind": "file", "path": p} for p in files]
    cases += [{"kind": "src", "src": deep(t, k), "cookie": None, "opt": -1, "deep": True} for t in DEEP for k in ((300, 1000) if tier == "quick" else (200, 400, 800, 1600, 3000))]
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 3]))
    pro = rng.choice(PROLOGUES)
    src = None
    for _ in range(4):
        s = pro + g.module(rng.randint(1, 3), rng.choice([0, 1, 1, 2]))
        if rng.random() < 0.4:
            s += rng.choice(EXTRAS)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                builtins.compile(s, "<g>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError, RecursionError):
            src = src or s
            continue
        src = s
        break
    r = rng.random()
    if r < 0.1:
        src = src.replace("\n", "\r\n")
    elif r < 0.13:
        src = src.replace("\n", "\r")
    elif r < 0.25:
        src = src.rstrip("\n")
    kind = rng.choice(["src", "src", "unused", "unused", "mut"])
    if rng.random() < 0.02:
        return {"kind": "src", "src": src + deep(rng.choice(DEEP), rng.randint(200, 2500)), "cookie": None, "opt": -1, "deep": True}
    if kind == "mut":
        src = mutate(rng, src)
    return {"kind": kind, "src": src, "cookie": rng.choice(COOKIES), "opt": rng.choice([-1, -1, 0, 1, 2]), "im": rng.choice(["macros, zzunused", "macros, zzname, zzother as zzas", "macros, zzname"])}


def mutate(rng, src):
    toks = re.findall(r"\w+|\s+|[^\w\s]", src)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not toks:
            break
        k = rng.randrange(len(toks))
        r = rng.random()
        if r < 0.4:
            del toks[k]
        elif r < 0.7:
            j = rng.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
        else:
            toks.insert(k, rng.choice(["(", ")", "return", "yield", "await", "break", "nonlocal q\n", "\n", "    ", "\t", "'", '"""', ":", "=", "*", "async", "from __future__ import nope\n", "\\", "\x00", "global x\n", "?", "$", "0777", "lambda", "import *", "{", "f'{", "with", "del 1\n"]))
    return "".join(toks)


class Outcome:
    def __init__(self, fn):
        self.code = self.exc = None
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                self.code = fn()
            except fw.CaseHang:
                raise
            except RecursionError as e:
                self.exc = ("RecursionError",)
            except MemoryError as e:
                self.exc = ("MemoryError",)
            except BaseException as e:
                self.exc = self.canon(e)
        self.warnings = sorted(set((w.category.__name__, str(w.message), w.filename, w.lineno) for w in rec if issubclass(w.category, SyntaxWarning) or w.filename.endswith(".py") and "/m/mod" in w.filename))

    @staticmethod
    def canon(e):
        # by design, mcpyrate reports parse failures as an ImportError whose cause is the parser's error
        if isinstance(e, ImportError) and e.__cause__ is not None:
            e = e.__cause__
        if isinstance(e, SyntaxError):
            return (type(e).__name__, e.msg, e.filename, e.lineno, e.offset, e.end_lineno, e.end_offset)
        return (type(e).__name__, str(e))


DEEP = ["x = {+a}\n", "if a: pass\n{elif b: pass\n}", "x{.a}\n", "f{(1)}\n", "x{[0]}\n", "x = 'a'{ + 'b'}\n", "x = a{ if b else a}\n", "x = {a and b or }c\n", "x = {a ** }b\n", "x{.f(lambda: 0)}\n",
        "try: pass\n{except A: pass\n}", "if a: pass\n{elif b: pass\n}else: pass\n", "x = {not }a\n", "x = y{ = z}\n", "with a{, b}: pass\n", "{@a\n}def f(): pass\n"]


def deep(template, k):
    head, _, rest = template.partition("{")
    body, _, tail = rest.partition("}")
    return head + body * k + tail


def same(ref, got, what, src, obs, positions="all", warn=True, nested=False):
    if nested and ref.exc is None:
        expect(got.exc is None, "outcome-differs", lambda: f"{what}\nplain Python compiles; mcpyrate: {got.exc}\n--- source\n{brief(src)}")
        obs.count("deeply nested")
    if ref.exc or got.exc:
        deep = [x for x in (ref.exc, got.exc) if x and x[0] in ("RecursionError", "MemoryError")]
        if deep:
            obs.count("too-deep")
            return
        expect(ref.exc == got.exc, f"outcome-differs", lambda: f"{what}\nplain Python: {ref.exc or 'compiles'}\nmcpyrate:     {got.exc or 'compiles'}\n--- source\n{brief(src)}")
        obs.count("errors-compared")
        return
    obs.count("codes-compared", sum(1 for _ in codecmp.walk(ref.code)))
    obs.count("instructions", sum(len(c.co_code) // 2 for c in codecmp.walk(ref.code)))
    d = codecmp.diff(ref.code, got.code, positions)
    expect(d is None, "code-differs", lambda: f"{what}: {d}\n--- source\n{brief(src)}")
    if warn:
        expect(ref.warnings == got.warnings, "warnings-differ", lambda: f"{what}\nplain Python: {ref.warnings}\nmcpyrate: {got.warnings}\n--- source\n{brief(src)}")


NEARMISS = ["from a import b, macros\n", "from a import macros as m\n", "from a import macros as macros\n", "from a import b as macros, dialects\n", "from a import dialects as d, e\n", "import mcpyrate.quotes as macros\n", "import macros, dialects\n",
            "from a import Macros, macross\n", "from macros import x\n", "from dialects import *\n", "from . import x, macros\nfrom .p import x, dialects\n", "with phase[1]:\n    x = 1\n", "@phase\ndef f(): pass\n", "q[x]\nq\nu[x]\nwith q as x:\n    pass\n",
            "__phase__\n__phase__ = 3\n", "_mcpyrate_coverage = 1\n", "__paste_here__\n__paste_here__[x]\n", "with __paste_here__:\n    pass\n", "def f():\n    from a import b, macros\n    import macros\n", "mcpyrate\nmcpyrate.quotes.x(1)\n", "macros = dialects = phase = 1\nmacros[1], dialects[2], phase[3]\n",
            "class macros:\n    from a import b, dialects\n", "with macros, dialects as d, x[1]:\n    pass\n", "@macros[1]\n@q\n@x.y[1]\nclass C: pass\n", "from mcpyrate.multiphase import phase\nfrom mcpyrate import q\nq[phase]\n", "from a import *\n",
            "from __future__ import annotations\nfrom a import b, macros\n", '"""doc"""\nfrom a import (b,\n    macros,\n    dialects)\n']
EXTRAS += NEARMISS


def usesmagic(src):
    """Whether the module has a macro-import or dialect-import (the first name is the magic one, and not renamed)."""
    if not re.search(r"import\s+\(?\s*(\\\s*)?(#.*\s*)?(macros|dialects)\b", src):
        return False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
    except (SyntaxError, ValueError, RecursionError, MemoryError):
        return True
    if re.search(r"^\s*from\s+[\w.]+\s+import\s+dialects\b(?!\s*as)", src, re.M):  # text-level: may be inside a string
        return True
    return any(isinstance(n, ast.ImportFrom) and n.names[0].name in ("macros", "dialects") and n.names[0].asname is None for n in ast.walk(tree))


_n = 0


def judge(case, obs):
    global _n
    from mcpyrate import compiler
    src = open(case["path"], encoding="utf-8", errors="surrogateescape").read() if case["kind"] == "file" else case["src"]
    if usesmagic(src):
        return None
    opt = case.get("opt", -1)
    _n += 1
    d = os.path.join(fw.SCRATCH, "m")
    os.makedirs(d, exist_ok=True)
    fname = os.path.join(d, f"mod{_n}.py")
    pc = builtins.compile
    if case["kind"] == "unused":
        im = case["im"]
        plain = "import mcpv_unusedmac\n" + src
        mac = f"from mcpv_unusedmac import {im}\n" + src
        if "__future__" in src:
            return None
        ref = Outcome(lambda: pc(plain, fname, "exec", dont_inherit=True, optimize=opt))
        if ref.exc:
            return None
        got = Outcome(lambda: compiler.compile(mac, fname, optimize=opt, self_module="m"))
        # macro-import on line 1 becomes an absolute import of the module
        same(ref, got, "module with an unused macro", src, obs, positions="skip1")
        obs.count("unused-macro")
        return fw.hash_([src, im])
    cookie = case.get("cookie")
    data = None
    text = src
    if cookie and case["kind"] != "file":
        text = f"# -*- coding: {'utf-8' if cookie == 'utf-8-sig' else cookie} -*-\n" + src
        try:
            data = text.encode(cookie)
        except UnicodeEncodeError:
            data = None
            text = src
    if data is None:
        try:
            data = text.encode("utf-8", "surrogateescape" if case["kind"] == "file" else "strict")
        except UnicodeEncodeError:
            data = None
    # 1. text
    ref = Outcome(lambda: pc(src, fname, "exec", dont_inherit=True, optimize=opt))
    got = Outcome(lambda: compiler.compile(src, fname, optimize=opt, self_module="m"))
    same(ref, got, f"text, optimize={opt}", src, obs, nested=case.get("deep"))
    # 2. bytes, and the import hook
    if data is not None and "\x00" not in src:
        refb = Outcome(lambda: pc(data, fname, "exec", dont_inherit=True))
        if not (refb.exc and refb.exc[0] == "SyntaxError" and ("codec" in str(refb.exc[1]) or "encoding" in str(refb.exc[1]))):
            if refb.exc is None:
                gotb = Outcome(lambda: compiler.compile(data, fname, self_module="m"))
                same(refb, gotb, f"bytes, coding {cookie}", src, obs, nested=case.get("deep"))
            with open(fname, "wb") as f:
                f.write(data)
            loader = importlib.machinery.SourceFileLoader(f"mod{_n}", fname)
            goti = Outcome(lambda: loader.get_code(f"mod{_n}"))
            # the source is decoded before parsing: error columns refer to the decoded text
            if refb.exc is None:
                same(refb, goti, "import hook", src, obs, nested=case.get("deep"))
            else:
                expect(goti.exc is not None and goti.exc[0] == refb.exc[0] or "too" in str(refb.exc) or goti.exc[0] == "RecursionError", "outcome-differs",
                       lambda: f"import hook\nplain Python: {refb.exc}\nmcpyrate: {goti.exc}\n{brief(src)}")
            if refb.exc is None and opt >= 0:
                refo = Outcome(lambda: pc(data, fname, "exec", dont_inherit=True, optimize=opt))
                goto = Outcome(lambda: loader.source_to_code(data, fname, _optimize=opt))   # as py_compile and compileall do
                same(refo, goto, f"source_to_code, optimize={opt}", src, obs)
            obs.count("import-hook")
            os.unlink(fname)
    if ref.exc is None and not case.get("deep"):
        # 3. AST input, as-is (a real .py file name) and re-parsed (any other name)
        tree = ast.parse(src, fname)
        refa = Outcome(lambda: pc(ast.parse(src, fname), fname, "exec", dont_inherit=True, optimize=opt))
        before = ast.dump(tree, include_attributes=True)
        gota = Outcome(lambda: compiler.compile(tree, fname, optimize=opt, self_module="m"))
        same(refa, gota, "AST input", src, obs, warn=False)
        exp = compiler.expand(ast.parse(src, fname), fname, self_module="m")
        expect(ast.dump(exp, include_attributes=True) == before, "expand-changes-tree", lambda: brief(src))
        obs.count("expand-identity")
        run_compare(src, obs)
        big = sum(1 for _ in codecmp.walk(ref.code)) > 1 or len(ref.code.co_names) + len(ref.code.co_consts) >= 8
        return fw.hash_([src, opt, cookie]) if big else None
    return fw.hash_([src, opt, cookie])


def run_compare(src, obs):
    """The docstring `run` gives the module is the one Python would give."""
    from mcpyrate import compiler
    try:
        tree = ast.parse(src)
    except (SyntaxError, ValueError):
        return
    first = tree.body[0] if tree.body else None
    if not isinstance(first, ast.Expr):
        return
    tree.body = [first]
    # a module consisting of the leading expression only, if it is harmless to run
    if any(isinstance(n, (ast.Call, ast.Name, ast.Attribute, ast.Subscript, ast.Await, ast.BinOp, ast.Yield)) for n in ast.walk(first)):
        return
    head = ast.unparse(tree)
    want = {}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(builtins.compile(head, "<h>", "exec"), want)
            m = compiler.run(head)
    except Exception:
        return
    sys.modules.pop(m.__name__, None)
    expect(m.__doc__ == want.get("__doc__") and type(m.__doc__) is type(want.get("__doc__")), "run-docstring", lambda: f"run({head!r}).__doc__ == {m.__doc__!r}, Python gives {want.get('__doc__')!r}")
    obs.count("docstrings")
