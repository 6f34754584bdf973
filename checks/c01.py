"""C01: unparse -> parse round trip, over generated programs of the full grammar and over the standard library."""
import ast
import io
import random
import tokenize
import warnings

import asteq
import pygen
from fw import Violation, brief

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "round-trip monitor: unparse, reparse and compare structurally, on generated programs, standard-library files and hand-picked corner cases"
LEVEL_NOTE = "Every observed AST is unparsed, reparsed by CPython and compared field by field; trusts CPython's parser. Held on the executions listed in the evidence, not for all ASTs."
RULE = ("Generated source text over the whole Python 3.12 grammar (module, suite, expression; also each statement and expression node inside), "
        "enumerated tricky constructs, and standard library files; parsed, unparsed, re-parsed and compared node by node. "
        "Non-trivial: the tree has at least 5 nodes; distinct by the tree's structure.")
QUICK = dict(n=14000, secs=16)
THOROUGH = dict(n=1000000, secs=400)
MIN = {"roundtrips": 2000}
ASSUMPTIONS = ["CPython's own parser is the reference for the language"]

TRICKY = r'''
f"{x}" f"{{}}"
f"{{literal}}"
f"{'{'}"
f"a\\b{x}\n\t\r\0\x7f"
f"{ {1: 2}[1] }"
f"{ {1, 2} }"
f"{x!r:>{width}}"
f"{x:{'>'}{10}}"
f"{x = }"
f"{x=!r:^20}"
f"'{x}' \"{y}\""
f'{a["b"]}'
f"{'a' 'b'}"
f"{f'{f"{1}"}'}"
f"{x:%Y-%m-%d}"
f"{x:{{}}}"
f"{lambda_:x}"
f"{(lambda: 1)}"
f"{(yield_ := 3)}"
f"{x!s}{x!a}"
f"\N{BULLET}{x}"
f"{x:\x41}"
f"{x:\\}"
f"""{
x}"""
rf"\d{x}\{y}"
u"a" f"{x}"
f""
f"{''}"
"a" f"" "b"
f"{x,}"
f"{x, y}"
f"{*a, b}"
f"{-x}"
f"{not x}"
f"{x if y else z}"
f"{x}" "\ud800"
f"{x:\n}"
f"{x!r:\'}"
(f"{x}").upper()
f"{x}"[0]
{**d}
{**a, 'b': 1, **c}
{"a": 1, **{}}
{*a}
[*a, *b]
a[()]
a[(),]
a[b,]
a[b, c]
a[b:c, d]
a[:, :]
a[*b]
a[*b, c]
a[(b, c)]
a[b:c:d]
a[::]
a[lambda: 1]
a[(x := 1)]
a[b:c][d]
1 .real
1.0.real
1j.imag
(-1).real
-1 ** 2
(-1) ** 2
2 ** -1
-(1 ** 2)
not a == b
(not a) == b
(a, b) == c
lambda: (yield)
lambda x, /, y=1, *a, z, w=2, **k: 0
lambda *, x: x
lambda *a: a
lambda x=1, /: x
lambda: {**a}
(lambda: 1)()
(x for x in y)
f(x for x in y)
f((x for x in y), 1)
f(*a, *b, **c, **d)
f(a, *b, c=1, **d)
f(a=1, *b)
[x async for x in y]
[x for x in y if a if b for z in w]
[x for x, in y]
[x for x in (a if b else c)]
[x for x in (lambda: y)]
{x: y for x, y in z}
(await x)
(await x) ** 2
-(await x)
(yield)
(yield x), 1
(yield from x)
x if y else (z if w else v)
(x if y else z) if w else v
(a or b) and c
a or (b and c)
(a and b) and c
a and (b and c)
a < b < c
(a < b) < c
a < (b < c)
(x := 1)
(x := (y := 2))
[x := 1, y]
f(x := 1)
{(x := 1): 2}
b'\x00\xff' b"'"
'\'"'
"\\"
"""
"""
"\r\n"
'\u2028'
1e400
1e400j
-1e400
0xffffffffffffffffffffffffffffffffff
...
... .x
None.x
True.x
"a".x
().x
[].x
{}.x
{}[0]
"a"[0]
"a" "b".x
__debug__
'''

TRICKY_STMTS = [
    "x: int", "(x): int = 1", "x.y: int", "x[0]: int = 1", "x: (yield_) = 1, 2", "a: b = c,", "(a.b): c",
    "a = b = c", "a, b = c, d", "(a, b), c = d", "[a, *b] = c", "*a, b = c", "a, = b", "a += b", "a[b] **= c", "a @= b", "a //= (x := 1)" if False else "a //= 1",
    "del a", "del (a)", "del (a, b)", "del [a, b]", "del (a,)", "del ()", "del a, b", "del a[()], b.c",
    "return_ = 1", "pass; pass", "assert (a, b)", "assert a, (b, c)", "assert (a, b), c", "raise", "raise a from b", "raise (a, b)" if False else "raise a",
    "import a.b as c, d", "from . import a", "from .. import a as b, c", "from .a.b import *", "from ... import x", "from .... import x", "from a import (b, c)",
    "global a, b", "def f():\n    nonlocal_ = 1\n    def g():\n        nonlocal nonlocal_\n        nonlocal_ = 2",
    "if a:\n    b\nelif c:\n    d\nelse:\n    e", "if a:\n    b\nelse:\n    if c:\n        d\n    e", "if a:\n    b\nelse:\n    if c:\n        d", "if a:\n    if b:\n        c\nelse:\n    d",
    "while a:\n    b\nelse:\n    c", "for a in b:\n    c\nelse:\n    d", "for a, in b:\n    pass", "for a, b in c, d:\n    pass", "for a in *b, c:\n    pass", "for (a, *b) in c: pass", "for a.b in c: pass", "for a[0] in c: pass",
    "for x in (yield_): break", "for x in lambda: 1, 2: continue",
    "with a: pass", "with a as b: pass", "with a as (b, c): pass", "with a as [b, *c]: pass", "with a, b as c: pass", "with (a, b): pass", "with ((a, b)): pass", "with ((a,)): pass", "with (a,): pass", "with ((a, b)) as c: pass",
    "with (a, b) as c: pass", "with (a, b), c: pass", "with (a as b, c as d): pass", "with ((a, b), c): pass", "with ((), a): pass", "with (): pass", "with a as b.c, d as e[0]: pass", "with (a := b): pass", "with ((a, *b)): pass", "with (yield_): pass",
    "with ((x for x in y)): pass", "with (lambda: 1): pass", "with f(a, b): pass", "with (a) as (b): pass", "with ((a, b) if c else d): pass", "with (a, b)[0]: pass", "with ((a, b), ): pass",
    "try:\n    a\nexcept:\n    b", "try:\n    a\nexcept b:\n    c\nexcept (d, e) as f:\n    g\nelse:\n    h\nfinally:\n    i", "try:\n    a\nfinally:\n    b", "try:\n    a\nexcept* b:\n    c", "try:\n    a\nexcept* (b, c) as d:\n    e\nelse:\n    f\nfinally:\n    g",
    "try:\n    try:\n        a\n    except* b:\n        c\nexcept d:\n    try:\n        e\n    except* f:\n        g",
    "try:\n    a\nexcept* b:\n    try:\n        c\n    except d:\n        e\nfinally:\n    try: x\n    except: y",
    "class A: pass", "class A(): pass", "class A(B, *C, metaclass=D, **E): pass", "class A(x=1, *B): pass", "class A[T]: pass", "class A[T: int, *Ts, **P](B[T]): pass", "class A[T: (int, str)](metaclass=M): pass", "@a\n@b.c(d)\nclass A:\n    '''doc'''\n    x: int = 1",
    "def f(): pass", "def f(a, /, b, *, c): pass", "def f(a=1, /, b=2, *args, c, d=3, **kwargs) -> e: pass", "def f(a: b = c, *d: e, f: g = h, **i: j): pass", "def f(*args: *Ts): pass", "def f(*, a): pass", "def f(a, /): pass", "def f(a, /, *, b): pass", "def f(*a, b): pass", "def f(**k): pass", "def f(a, /, **k): pass",
    "def f[T](x: T) -> T: pass", "def f[T: int, *Ts, **P](*args: *Ts) -> None: pass", "async def f[T](): pass", "@a\nasync def f():\n    await b\n    async for c in d: pass\n    async with e as f, g: pass\n    return [h async for h in i if await j]",
    "@(a, b)\ndef f(): pass", "@lambda f: f\ndef f(): pass", "@a[b](c).d\ndef f(): pass", "@(x := y)\ndef f(): pass", "@a if b else c\nclass D: pass", "@-a\ndef f(): pass",
    "type X = int", "type X[T] = list[T]", "type X[T: int, *Ts, **P] = f[T]", "type X = lambda: 1", "type type = type", "type X[T: (int, str)] = T",
    "match a:\n    case 1: pass\n    case _: pass", "match a, b:\n    case c, d: pass", "match a,:\n    case (b,): pass", "match *a, b:\n    case [c, *_]: pass", "match (a):\n    case (b): pass",
    "match a:\n    case -1: pass\n    case -1.5: pass\n    case -1j: pass\n    case 1+2j: pass\n    case -1+2j: pass\n    case 1-2j: pass\n    case -1.5-2j: pass",
    "match a:\n    case {-1: x, -2.5: y, 1+2j: z, -1-1j: w, 'a': 1, None: 2, True: 3, a.b: 4, b'x': 5}: pass", "match a:\n    case {}: pass\n    case {**rest}: pass\n    case {'a': _, **rest}: pass",
    "match a:\n    case 'a' 'b': pass\n    case b'a' b'b': pass\n    case None: pass\n    case True: pass\n    case a.b.c: pass", "match a:\n    case [] | (): pass\n    case [a] | (a,): pass",
    "match a:\n    case 1 | 2 as x: pass\n    case (1 as x) | (2 as x): pass\n    case ((1 | 2) | 3): pass\n    case 1 | (2 | 3): pass\n    case (1 | 2) | 3: pass", "match a:\n    case ((1 as x) as y): pass\n    case (x as y) as z: pass" if False else "match a:\n    case ((1 as x) as y): pass",
    "match a:\n    case [(1 | 2) as x, (3 as y)]: pass\n    case A(b | c.d): pass" if False else "match a:\n    case [(1 | 2) as x, (3 as y)]: pass\n    case A(1 | c.d): pass",
    "match a:\n    case {'k': 1 | 2 as x, 'l': (3 as y)}: pass", "match a:\n    case A(): pass\n    case A(1, b=2): pass\n    case a.B(x, y=z): pass\n    case A(b=1 | 2, c=(3 as d)): pass\n    case A((1 as b), *_): pass" if False else "match a:\n    case A(): pass\n    case A(1, b=2): pass\n    case a.B(x, y=z): pass\n    case A(b=1 | 2, c=(3 as d)): pass",
    "match a:\n    case x if x > 1: pass\n    case (1 | 2) if y: pass\n    case 1 | 2 if (z := 3): pass\n    case [x, y] if x if y else z: pass", "match a:\n    case *x, y: pass\n    case x, *_: pass\n    case x,: pass\n    case [x]: pass\n    case [[x], (y,)]: pass",
    "match match:\n    case case: pass", "match -a:\n    case b: pass", "match(a)", "match[a]", "match = case = type = _ = 1", "type(x)", "print(match.case)", "match (a, b)[0]:\n    case x: pass", "match [a]:\n    case x: pass", "match {}:\n    case x: pass", "match not a:\n    case x: pass", "match lambda: 1:\n    case x: pass", "match (yield_):\n    case x: pass",
    "'''doc'''", "'''doc'''\nx", "def f():\n    'doc'", "def f():\n    f'not doc'", "async def f():\n    yield\n    await g()\n    return", "def f():\n    x = yield\n    y = yield z\n    yield from w\n    x += yield\n    return (yield)\n    return *a, b", "def f():\n    return",
    "x = yield_,", "x = *a,", "x = *a, *b", "x = (y := 1)", "x = lambda: (yield)", "print(*a, sep='')", "x = a if b else c,", "x = not a,", "a; b; c", "if a: b; c", "\tx" if False else "x", "if 1:\n\tx\n\ty",
    "def f():\n    global a\n    a = 1", "x = 'a' 'b' f'{c}'", "x = (1,)", "x = ()", "x = ((1, 2), 3)", "lambda x: (lambda y: x)", "async def f():\n    return (await a).b, await a.b, -await a, await a ** 2, (await a)[0]",
]


def fixed(tier):
    cases = []   # multi-line ones are re-joined by parsing greedily
    buf = ""
    for line in TRICKY.strip("\n").split("\n"):
        buf = buf + "\n" + line if buf else line
        try:
            ast.parse(buf, mode="eval")
        except SyntaxError:
            continue
        cases.append({"kind": "expr", "src": buf})
        buf = ""
    assert not buf, buf
    for s in TRICKY_STMTS:
        cases.append({"kind": "module", "src": s + "\n"})
    files = asteq.stdlib_files()
    if tier == "quick":
        files = random.Random("stdlib").sample(files, 60)
    cases += [{"kind": "file", "path": p} for p in files]
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 3, 4]))
    if rng.random() < 0.35:
        return {"kind": "expr", "src": g.expression()}
    return {"kind": "module", "src": g.module(rng.randint(1, 3), rng.choice([0, 1, 2]))}


def setup(scratch):
    import mcpyrate.unparser  # noqa: F401


def reparse(text, mode, what):
    try:
        return ast.parse(text, mode=mode)
    except (SyntaxError, ValueError) as e:
        raise Violation("not-reparsable", f"{what}: {type(e).__name__}: {e}\n--- unparsed:\n{brief(text)}")


def check(tree, mode, src, obs):
    from mcpyrate.unparser import unparse
    try:
        text = unparse(tree)
    except Exception as e:
        raise Violation("unparse-raises", f"{type(e).__name__}: {brief(str(e), 600)}\n--- source:\n{brief(src)}")
    obs.count("roundtrips")
    if not isinstance(text, str):
        raise Violation("not-str", f"unparse returned {type(text)}")
    if mode == "suite":
        t2 = reparse(text, "exec", "suite of " + brief(src)).body
    elif mode == "exprnode":
        t2 = reparse("(\n" + text + "\n)" if "\n" in text else text, "eval", "expression in " + brief(src)).body
    elif mode == "stmtnode":
        b = reparse(text, "exec", "statement of " + brief(src)).body
        if len(b) != 1:
            raise Violation("changed", f"one statement became {len(b)}\n{brief(text)}")
        t2 = b[0]
    else:
        t2 = reparse(text, mode, brief(src))
    d = asteq.firstdiff(tree, t2)
    if d:
        raise Violation("changed", f"{d}\n--- source:\n{brief(src)}\n--- unparsed:\n{brief(text)}")


def judge(case, obs):
    warnings.simplefilter("ignore")
    src = case.get("src")
    kind = case["kind"]
    if kind == "file":
        with tokenize.open(case["path"]) as f:
            src = f.read()
        tree = ast.parse(src)
        check(tree, "exec", case["path"], obs)
        obs.count("files")
        return asteq_key(tree)
    if kind == "expr":
        tree = ast.parse(src, mode="eval")
        check(tree, "eval", src, obs)
        check(tree.body, "exprnode", src, obs)
        check(ast.parse("(\n" + src + "\n)"), "exec", src, obs)
    else:
        tree = ast.parse(src)
        check(tree, "exec", src, obs)
        check(tree.body, "suite", src, obs)
        for node in ast.walk(tree):
            obs.see("node-types", type(node).__name__)
            if isinstance(node, ast.stmt) and node not in tree.body[:1]:
                check(node, "stmtnode", src, obs)
    budget = 12
    for node in ast.walk(tree):
        obs.see("node-types", type(node).__name__)
        if isinstance(node, ast.expr) and not isinstance(node, (ast.Starred, ast.Slice, ast.FormattedValue, ast.Constant)) and budget > 0 \
                and isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and not any(isinstance(n, ast.Slice) for n in getattr(node, "elts", [])):
            budget -= 1
            check(node, "exprnode", src, obs)
    return asteq_key(tree)


def asteq_key(tree):
    n = sum(1 for _ in ast.walk(tree))
    if n < 5:
        return None
    import hashlib
    return hashlib.sha1(repr(asteq.norm(tree)).encode("utf-8", "backslashreplace")).hexdigest()[:16]
