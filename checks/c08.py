"""C08: the run-time value of a quasiquote vs. the parse of the same code."""
import ast
import copy
import sys
import types

import asteq
import fw
import pygen
from fw import brief, expect

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "modules full of quasiquotes of random code are expanded and run by the real system; each quote's run-time value (two evaluations, in a namespace of poisoned objects) is compared with CPython's parse of the quoted code"
LEVEL_NOTE = "Quoted code covers the whole Python 3.12 grammar, also code that could not run or compile; macros bound in the module must stay unexpanded inside quotes."
RULE = "Random expressions and statement suites, several per module, in expression and block quotes, in several kinds of scope; the interpreter's own library at thorough. Distinct by quoted code."
QUICK = dict(n=5000, secs=13)
THOROUGH = dict(n=150000, secs=300)
MIN = {"expr": 300, "block": 300, "with-macros-bound": 120}
ASSUMPTIONS = ["quoted code contains none of the quasiquote operators' names"]

OPS = ["q", "u", "n", "a", "s", "t", "h"]
MACS = ["foo", "bar", "spam", "x", "len", "m_0"]
SCOPES = ["def {f}():\n    return QQ[0]\n", "class K_{f}:\n    @staticmethod\n    def g():\n        return [QQ[0] for _ in (1,)][0]\n{f} = K_{f}.g\n", "{f} = lambda: QQ[0]\n", "def {f}():\n    return (lambda **k: k['z'])(y=1, z=QQ[0])\n"]
BSCOPES = ["def {f}():\n    with QQ as quoted:\n        pass\n    return quoted\n", "def {f}():\n    for _ in (1, 2):\n        if _:\n            with QQ as quoted:\n                pass\n    return quoted\n", "async def co_{f}():\n    with QQ as quoted:\n        pass\n    return quoted\ndef {f}():\n    try:\n        co_{f}().send(None)\n    except StopIteration as e:\n        return e.value\n"]


class Poison:
    def _die(self, *a, **k):
        raise RuntimeError("quoted code was run")
    for _n in ("__getattr__", "__call__", "__getitem__", "__setitem__", "__delitem__", "__iter__", "__add__", "__radd__", "__bool__", "__enter__", "__exit__", "__eq__", "__hash__", "__lt__", "__contains__", "__neg__", "__await__"):
        locals()[_n] = _die


def boom(tree, **kw):
    raise RuntimeError("macro expanded inside a quote")


def setup(scratch):
    sys.setrecursionlimit(3000)
    import mcpyrate.quotes  # noqa: F401
    from mcpyrate import namemacro, parametricmacro
    mod = types.ModuleType("mcpv_c08")
    for i, m in enumerate(MACS):
        f = types.FunctionType(boom.__code__, globals(), m)
        if i % 2:
            f = namemacro(f)
        if i % 3 == 0:
            f = parametricmacro(f)
        setattr(mod, m, f)
    sys.modules["mcpv_c08"] = mod
    import mcpyrate.compiler  # noqa: F401


FIXED_E = ["1", "x", "f(*a1, **b1)", "{**d, 'a': 1}", "{}", "[]", "()", "(1,)", "1j", "-1", "...", "lambda *, k, b=1, **z: 0", "lambda x, /, y=1, *z: (yield)", "u'kind'", "f'{x!r:>{w}} {{}}'", "(y := 2)", "x if y else z", "await_", "a1[b:c, ::d, e]", "a1[*b]", "{*()}", "[i async for i in z if w for j in k]", "b'\\xff'", "'\\ud800'", "float.nan", "1e999", "1e999j", "None", "True", "not x", "x < y <= z is not None", "(yield from x)", "foo[1]", "bar", "foo[1][2] + bar(spam)", "x.foo.bar",
           "''", "'a' 'b'", "f''", "(*a1, *b1)", "x[()]", "0xdeadbeefdeadbeefdeadbeef"]
FIXED_B = ["pass", "return", "break", "from x import macros, foo", "from x import dialects, D", "from __future__ import annotations", "'docstring'", "global x, y", "def f():\n    nonlocal x\n    'doc'", "match x:\n    case C(a, b=1, c=D()): pass\n    case {'k': v, **r} | [*_, 2] if g: pass\n    case {**r}: pass\n    case None | -1 | 1+2j | A.b | 'x' | [] | {} as z: pass",
           "try: pass\nexcept* E as e: pass", "async with x as y, z: pass\nasync for i in j: pass", "type X[T: int, *U, **V] = T", "class A[T](B, metaclass=C):\n    x: int\n    y: int = 1\n    (z): int", "def f[T](a: T, /, b: int = 1, *c: d, e, f=2, **g) -> h: ...", "del x, y.z, w[0]", "x = y = z, *w = 1", "x += 1", "with foo as b: pass\n@bar\n@foo[1]\ndef f(): pass", "with bar, spam(1) as z:\n    foo[1]", "import a.b.c as d, e\nfrom . import f\nfrom ..g.h import *", "raise\nraise X\nraise X from Y", "assert x, y", "for i in x:\n    continue\nelse:\n    pass\nwhile y: pass", "lambda: 0\nyield", "if a1: b\nelif c: d\nelse: e", "try:\n    x\nexcept (A, B) as c:\n    pass\nexcept:\n    pass\nelse:\n    z\nfinally:\n    y",
           "x: int\nprint(foo)", "try: pass\nfinally: pass"]


def fixed(tier):
    cases = []
    for k in range(0, len(FIXED_E), 6):
        for m in (0, 1):
            cases.append({"items": [["e", s] for s in FIXED_E[k:k + 6]], "macros": m, "ops": m, "scope": k})
    for k in range(0, len(FIXED_B), 4):
        for m in (0, 1):
            cases.append({"items": [["b", s] for s in FIXED_B[k:k + 4]], "macros": m, "ops": m, "scope": k})
    if tier == "thorough":
        cases += [{"path": p} for p in asteq.stdlib_files()[::3]]
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 3, 4]))
    items = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            s = g.expression(rng.randint(0, 4))
            items.append(["e", s])
        else:
            items.append(["b", g.suite(rng.randint(1, 3), rng.choice([0, 1, 2]))])
    items = [x for x in items if x[1] and len(x[1]) < 4000]
    return {"items": items, "macros": rng.random() < 0.5, "ops": rng.random() < 0.5, "scope": rng.randrange(100)}


def usesops(tree):
    return any(isinstance(n, ast.Name) and n.id in ("QQ",) + tuple("QQ" + o for o in OPS) for n in ast.walk(tree))


def judge(case, obs):
    if "path" in case:
        try:
            body = ast.parse(open(case["path"], encoding="utf-8").read()).body
        except (SyntaxError, ValueError, UnicodeDecodeError):
            return None
        judge_items([("b", body[k:k + 20]) for k in range(0, len(body), 20)], {"macros": True, "ops": True, "scope": 0}, obs)
        obs.count("files")
        return case["path"]
    items = []
    for kind, s in case["items"]:
        try:
            t = ast.parse(s, mode="eval").body if kind == "e" else ast.parse(s).body
        except SyntaxError:
            try:
                t = ast.parse("(" + s + ")", mode="eval").body
            except SyntaxError:
                continue
        if t:
            items.append((kind, t))
    if not items:
        return None
    judge_items(items, case, obs)
    return fw.hash_(repr(case["items"]))


def judge_items(items, case, obs):
    from mcpyrate.compiler import create_module, run
    head = "from mcpyrate.quotes import macros, q as QQ" + ("".join(f", {o} as QQ{o}" for o in OPS[1:]) if case["ops"] else "") + "\n"
    if case["macros"]:
        head += "from mcpv_c08 import macros, " + ", ".join(MACS) + "\n"
        obs.count("with-macros-bound")
    body = ast.parse(head).body
    for k, (kind, t) in enumerate(items):
        tmpl = (SCOPES if kind == "e" else BSCOPES)
        stmts = ast.parse(tmpl[(case["scope"] + k) % len(tmpl)].replace("{f}", f"f{k}")).body
        t = copy.deepcopy(t)
        for s in stmts:
            for n in ast.walk(s):
                if kind == "e" and isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "QQ":
                    n.slice = t
                elif kind == "b" and isinstance(n, ast.With) and isinstance(n.items[0].context_expr, ast.Name) and n.items[0].context_expr.id == "QQ":
                    n.body = t
        body += stmts
    mod = run(body, create_module('mcpv_c08_mod', filename='/nonexistent/mcpv_c08_mod.py'))   # a .py name: the tree is used as it is
    for n in list(pygen.NAMES) + ["z", "w", "i", "d"]:
        if n not in mod.__dict__:
            mod.__dict__[n] = Poison()
    for k, (kind, t) in enumerate(items):
        src = lambda: brief(asteq.safe_dump(t) if kind == "e" else "\n".join(ast.unparse(s) for s in t))
        vals = []
        for _ in range(2):
            try:
                v = mod.__dict__[f"f{k}"]()
            except Exception as e:
                raise fw.Violation("quote-failed", f"evaluating the quote of {src()}: {type(e).__name__}: {e}")
            vals.append(v)
            if kind == "b":
                expect(type(v) is list and len(v) == len(t), "quoted-block", lambda: f"{src()}: got {brief(repr(v))}")
                want, got = ast.Module(body=t, type_ignores=[]), ast.Module(body=v, type_ignores=[])
            else:
                expect(isinstance(v, ast.expr), "quoted-expr", lambda: f"{src()}: got {v!r}")
                want, got = t, v
            d = asteq.firstdiff(want, got) or asteq.missing(want, got)
            expect(d is None, "quoted-tree", lambda: f"{src()}\n{d}")
            for n, m in zip(ast.walk(want), ast.walk(got)):
                if getattr(n, "kind", None) != getattr(m, "kind", None):
                    raise fw.Violation("quoted-tree", f"{src()}: constant kind {n.kind} became {m.kind}")
            for n in ast.walk(got):
                expect(not hasattr(n, "lineno") or n is got, "has-position", lambda: f"{src()}: {asteq.safe_dump(n)} at line {n.lineno}")
        shared = ids(vals[0]) & ids(vals[1])
        expect(not shared, "not-fresh", lambda: f"two evaluations of the quote of {src()} share nodes")
        obs.count("expr" if kind == "e" else "block")


def ids(x):
    out = set()
    for t in (x if isinstance(x, list) else [x]):
        out |= {id(n) for n in ast.walk(t) if not isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop))}
        out |= {id(v) for n in ast.walk(t) for v in vars(n).values() if isinstance(v, list)}
    return out
