"""C20: rename vs. replacing the identifier token in the source text."""
import ast
import copy
import io
import keyword
import tokenize
import unicodedata

import asteq
import fw
import pygen
from fw import brief, expect

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "random modules; every identifier of each is renamed, and the tree is compared with the parse of the source with that NAME token replaced"
LEVEL_NOTE = "The oracle works on tokens, so it covers every place of the grammar where an identifier may occur; strings, constants and other identifiers must be unchanged, positions too."
RULE = "Random Python 3.12 modules with a small identifier pool; each identifier of a module in turn. Distinct by (module, identifier)."
QUICK = dict(n=1600, secs=12)
THOROUGH = dict(n=200000, secs=240)
MIN = {"renames": 3000, "kept-strings": 200}
ASSUMPTIONS = ["a dotted module path in an import counts as one name (as the code documents), so modules importing a dotted path that contains the identifier are not compared",
               "soft keywords (match, case, type, _) are renamed only where they are not keywords: not compared"]

PLACES = {
    "name": "x = x + y", "attr": "a.x.x = x.x", "func": "def x(): pass", "afunc": "async def x(): pass", "class": "class x(x, metaclass=x): pass", "param": "def f(x, /, y, *, z): pass", "param2": "def f(y, /, x=x): pass", "kwonly": "def f(*, x: x = x): pass",
    "vararg": "def f(*x): pass", "kwarg": "def f(**x): pass", "lambda": "lambda x, *a, **b: x", "lambda2": "lambda *x: 0", "lambda3": "lambda a, /, *, x=1: 0", "keyword": "f(x=1, y=x)", "kwclass": "class A(x=1): pass", "import": "import x", "importas": "import y as x", "importas2": "import x as y",
    "from": "from x import y", "from2": "from y import x", "from3": "from y import z as x", "from4": "from y import x as z", "from5": "from . import x", "from6": "from .x import z", "from7": "from x import x as x", "except": "try: pass\nexcept E as x: x", "excepts": "try: pass\nexcept* E as x: x",
    "global": "def f():\n    global y, x, z", "global2": "def f():\n    global x, y, x\n    global x", "nonlocal": "def g():\n    x = 1\n    def f():\n        nonlocal x", "matchas": "match y:\n    case 1 as x: pass", "matchcap": "match y:\n    case x: pass", "matchstar": "match y:\n    case [*x]: pass", "matchmap": "match y:\n    case {1: z, **x}: pass",
    "matchcls": "match y:\n    case C(x=1): pass", "matchcls2": "match y:\n    case x(x=x): pass", "matchcls3": "match y:\n    case C(z=1, x=x, y=2): pass", "matchval": "match y:\n    case x.x: pass", "matchkey": "match y:\n    case {x.k: 1}: pass", "typevar": "def f[x](a: x): pass", "typevar2": "class A[x: int]: pass", "paramspec": "def f[**x](): pass",
    "tvt": "def f[*x](): pass", "alias": "type x = int", "aliasp": "type A[x, *y, **z] = x", "fstring": "f'{x} x {x!r:{x}} {x=}'", "string": "'x' + \"x\" + b'x'.decode()", "doc": "'x'\nx = 'x'", "for": "for x in x: pass", "with": "with x as x: pass", "del": "del x, a.x", "walrus": "(x := 1)",
    "comp": "[x for x in x if x]", "star": "f(*x, **x)\nx, *y = x", "ann": "x: x = x", "deco": "@x.x(x)\ndef f() -> x: pass", "aug": "x += x", "await": "async def f():\n    await x\n    async for x in x: pass\n    async with x as x: pass\n    return x", "slice": "x[x:x:x] = x", "yield": "def f():\n    yield x\n    yield from x\n    return x",
    "raise": "raise x from x", "assert": "assert x, x", "while": "while x: x\nelse: x", "if": "x if x else x", "dict": "{x: x, **x}", "set": "{x, *x}", "cmp": "x < x in x", "matchor": "match x:\n    case {'x': [x, y]} | {'y': [y, x]} if x: x", "dunder": "x__ = _x = X = xx = x1 = xy.xx",
}


def setup(scratch):
    import mcpyrate.utils  # noqa: F401


def fixed(tier):
    cases = [{"src": s, "special": None} for s in PLACES.values()]
    joined = [s for s in PLACES.values()]
    cases += [{"src": a + "\n" + b, "special": None} for a, b in zip(joined, joined[7:] + joined[:7])]
    cases += [{"special": s} for s in sorted(SPECIAL)]
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 2, 3]))
    src = g.compilable(rng.randint(1, 4), rng.choice([0, 1, 2]))
    if not src or len(src) > 5000:
        return None
    if rng.random() < 0.4:
        src += "\n" + rng.choice(list(PLACES.values()))
        try:
            ast.parse(src)
        except SyntaxError:
            return None
    return {"src": src, "special": None}


def tokens(src):
    return list(tokenize.generate_tokens(io.StringIO(src).readline))


def nf(s):
    return unicodedata.normalize("NFKC", s)


def replaced(src, toks, old, new):
    lines = src.split("\n") if "\r" not in src and "\x0c" not in src else None
    if lines is None:
        return None
    for t in reversed(toks):
        if t.type == tokenize.NAME and nf(t.string) == old:
            (a, b), (c, d) = t.start, t.end
            line = lines[a - 1]
            lines[a - 1] = line[:b] + new + line[d:]
    return "\n".join(lines)


def dotted(tree):
    parts = set()
    for n in ast.walk(tree):
        names = []
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            names = [a.name for a in n.names] + [getattr(n, "module", None) or ""]
        for x in names:
            if "." in x:
                parts |= set(x.split("."))
    return parts


def judge(case, obs):
    if case["special"]:
        SPECIAL[case["special"]](obs)
        return "special-" + case["special"]
    from mcpyrate.utils import rename
    src = case["src"]
    tree0 = ast.parse(src)
    try:
        toks = tokens(src)
    except (tokenize.TokenError, IndentationError, SyntaxError):
        return None
    idents = {nf(t.string) for t in toks if t.type == tokenize.NAME and not keyword.iskeyword(t.string) and t.string not in keyword.softkwlist}
    idents -= dotted(tree0)
    idents -= {"__future__", "annotations", "division", "generators"}
    positions = [tuple(getattr(n, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset")) for n in ast.walk(tree0)]
    strings = [n.value for n in ast.walk(tree0) if isinstance(n, ast.Constant)]
    for old in sorted(idents)[:12]:
        new = "renamed_9z"
        text = replaced(src, toks, old, new)
        if text is None:
            return None
        try:
            want = ast.parse(text)
        except SyntaxError:
            obs.count("skipped-syntax")
            continue
        tree = copy.deepcopy(tree0)
        if any(isinstance(n, ast.JoinedStr) for n in ast.walk(tree)) and [c.value for c in ast.walk(want) if isinstance(c, ast.Constant)] != strings:
            obs.count("skipped-selfdoc")     # the text part of `{x=}` is a string constant, made from the source by the parser
            continue
        got = rename(old, new, tree)
        obs.count("renames")
        obs.count("kept-strings", sum(1 for s in strings if isinstance(s, str) and old in s))
        show = lambda: f"rename {old!r}\n--- source\n{brief(src, 2500)}\n--- got\n{brief(ast.unparse(got), 2500)}"  # noqa: E731
        expect(got is tree, "not-in-place", show)
        d = asteq.firstdiff(want, got)
        expect(d is None, "rename", lambda: f"(expected vs real) {d}\n{show()}")
        expect([tuple(getattr(n, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset")) for n in ast.walk(got)] == positions, "positions", show)
        for n in ast.walk(got):
            for f, v in ast.iter_fields(n):
                if isinstance(v, str) and not isinstance(n, ast.Constant):
                    expect(old != v, "left-over", lambda: f"{type(n).__name__}.{f}\n{show()}")
        back = rename(new, old, got)
        d = asteq.firstdiff(tree0, back)
        expect(d is None, "round-trip", lambda: f"{d}\n{show()}")
    tree = copy.deepcopy(tree0)
    rename("not_there_9z", "new", tree)
    expect(ast.dump(tree, include_attributes=True) == ast.dump(tree0, include_attributes=True), "absent", src)
    return fw.hash_(src)


def s_forms(obs):
    from mcpyrate.utils import rename
    stmts = ast.parse("x = 1\ny = x").body
    out = rename("x", "z", stmts)
    expect(out is stmts and [ast.unparse(s) for s in out] == ["z = 1", "y = z"], "suite", str(out))
    n = ast.parse("x", mode="eval").body
    expect(rename("x", "z", n) is n and n.id == "z", "expression", ast.dump(n))
    t = ast.parse("import a.b.c\nimport a.b.c as d\nfrom a.b.c import e\nfrom .a.b.c import f")
    rename("a.b.c", "x.y", t)
    expect(ast.unparse(t) == "import x.y\nimport x.y as d\nfrom x.y import e\nfrom .x.y import f", "dotted", ast.unparse(t))
    # a node used twice in the tree
    shared = ast.Name(id="x", ctx=ast.Load())
    t = ast.fix_missing_locations(ast.Expression(body=ast.Tuple(elts=[shared, ast.BinOp(left=shared, op=ast.Add(), right=shared)], ctx=ast.Load())))
    rename("x", "y", t)
    expect(ast.unparse(t) == "(y, y + y)", "shared", ast.unparse(t))
    # swapping through a temporary
    t = ast.parse("def f(a, b): return a.b(b, a=a)")
    rename("tmp", "b", rename("b", "a", rename("a", "tmp", t)))
    expect(ast.unparse(t) == "def f(b, a):\n    return b.a(a, b=b)", "swap", ast.unparse(t))
    # markers are looked into
    from mcpyrate.core import Done
    t = [Done(ast.parse("x = x.y").body[0]), Done(ast.parse("x\nx.x").body)]
    out = rename("x", "w", t)
    expect(ast.unparse(out[0].body) == "w = w.y" and [ast.unparse(s) for s in out[1].body] == ["w", "w.w"], "markers", "")
    # programmatically generated, without optional fields
    t = ast.Call(func=ast.Name(id="x"), args=[], keywords=[ast.keyword(arg=None, value=ast.Name(id="x")), ast.keyword(arg="x", value=ast.Constant(value="x"))])
    rename("x", "q", t)
    expect(ast.unparse(t) == "q(**q, q='x')", "generated", ast.unparse(t))


SPECIAL = {"forms": s_forms}
