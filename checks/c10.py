"""C10: lift a value or a tree into code, run the code, compare; and reverse the lifting."""
import ast
import collections
import enum
import math
import os
import random
import struct

import asteq
import fw
import pygen
from fw import brief, expect

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "random nested values and trees are lifted by the real code (astify, u[] in a quote), the produced code is compiled and run, and the result is compared exactly (types, signs, orders, positions); lifted code is reversed and compared; unsupported values must be refused"
LEVEL_NOTE = "Comparison is by exact type and bit pattern, computed by the check; also checks that the value given is not modified and that every run gives a new object."
RULE = "Random values nested up to 5 levels, with unsupported values planted anywhere in some; random expressions and suites as trees. Distinct by value."
QUICK = dict(n=9000, secs=10)
THOROUGH = dict(n=400000, secs=200)
MIN = {"values": 500, "trees": 200, "refused": 200, "through-u": 500, "reversed": 500}
ASSUMPTIONS = ["AST node classes are those of the ast module"]

UMOD = '''
from mcpyrate.quotes import macros, q, u
def lift(v):
    return q[u[v]]
def lift_in(v):
    return q[f(u[v], [u[v]], k=u[v])]
def lift_stmt(v):
    with q as quoted:
        x = u[v]
        return u[v]
    return quoted
def lift_literal():
    return q[u[[1, -2.5, 1j, "s", b"b", None, ..., True, (1,), (), [], {}, {1: (2, [3])}, {1}, set()]]]
'''
M = None


def setup(scratch):
    global M
    import mcpyrate.quotes  # noqa: F401
    from mcpyrate.compiler import run
    M = run(UMOD)


# ------------------------------------------------------------------ values (built from a seed)
class Sub(int):
    pass


class SubStr(str):
    pass


class SubList(list):
    pass


Color = enum.IntEnum("Color", "RED GREEN")
NT = collections.namedtuple("NT", "a b")


def bad(rng):
    return rng.choice([object(), len, int, Sub(3), SubStr("x"), SubList([1]), Color.RED, NT(1, 2), range(3), frozenset([1]), frozenset(), bytearray(b"x"), memoryview(b"x"), collections.OrderedDict(a=1), collections.defaultdict(int), (i for i in ()), {}.keys(), ast, ast.Name, NotImplemented, iter([]), slice(1), lambda: 0, type, collections.Counter(), collections.deque(), math])


def number(rng):
    return rng.choice([0, 1, -1, rng.randint(-300, 300), rng.randint(-10 ** 40, 10 ** 40), 2 ** 63, -2 ** 63, True, False, 0.0, -0.0, 1.5, -2.5e-300, 1e308, float("inf"), -float("inf"), float("nan"), rng.uniform(-1e6, 1e6), 5e-324,
                       1j, -1j, 0j, -0j, complex(-0.0, -0.0), complex(1, -2), complex(float("nan"), float("inf")), complex(rng.random(), rng.random()), complex(0.0, -0.0), complex(-0.0, 0.0)])


def text(rng):
    return "".join(rng.choice(["a", "'", '"', "\\", "\n", "\0", "é", "\ud800", "\U0001f600", "{", "}", "%", "\r", "\x7f", " "]) for _ in range(rng.choice([0, 0, 1, 3, 10])))


def leaf(rng):
    return rng.choice([number, number, text, lambda r: bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5]))), lambda r: r.choice([None, ..., True, False])])(rng)


def hashable(rng, d):
    if d > 0 and rng.random() < 0.3:
        return tuple(hashable(rng, d - 1) for _ in range(rng.choice([0, 1, 2])))
    return leaf(rng)


def value(rng, d):
    if d <= 0 or rng.random() < 0.25:
        return leaf(rng)
    n = rng.choice([0, 0, 1, 1, 2, 3])
    if rng.random() < 0.12:
        n, d = rng.randint(4, 9), min(d, 2)
        if rng.random() < 0.6:   # keys of one type, in no particular order
            keys = rng.choice([["zeta", "b", "alpha", "Q", "_", "", "a b", "b1", "é"], [9, -1, 0, 5, 10**20, 3, -7, 44, 2], [(2, 1), (), (1,), (1, 0), (0, 5), (3,), (2,), (9, 9), (0,)], [b"z", b"", b"a", b"\xff", b"y", b"m", b"\0", b"AB", b"k"]])[:]
            rng.shuffle(keys)
            return {x: value(rng, d - 1) for x in keys[:n]} if rng.random() < 0.8 else set(keys[:n])
    k = rng.randrange(4)
    if k == 0:
        return [value(rng, d - 1) for _ in range(n)]
    if k == 1:
        return tuple(value(rng, d - 1) for _ in range(n))
    if k == 2:
        return {hashable(rng, d - 1): value(rng, d - 1) for _ in range(n)}
    return {hashable(rng, 1) for _ in range(n)}


def plant(rng, v, b):
    """v with b planted at a random place."""
    if isinstance(v, list) and v and rng.random() < 0.8:
        i = rng.randrange(len(v))
        return v[:i] + [plant(rng, v[i], b)] + v[i + 1:]
    if isinstance(v, tuple) and v and rng.random() < 0.8:
        i = rng.randrange(len(v))
        return v[:i] + (plant(rng, v[i], b),) + v[i + 1:]
    if isinstance(v, dict) and v and rng.random() < 0.8:
        v = dict(v)
        k = rng.choice(list(v))
        v[k] = plant(rng, v[k], b)
        return v
    return rng.choice([lambda: b, lambda: [b], lambda: (b,), lambda: {"k": b}, lambda: ast.Constant(value=b), lambda: ast.Name(id="x", ctx=b), lambda: ast.Tuple(elts=[ast.Name(id="x"), b])])()


def build(case):
    rng = random.Random(case["seed"])
    v = value(rng, case["depth"])
    if case["kind"] == "bad":
        v = plant(rng, v, bad(rng))
    elif case.get("src"):
        t = ast.parse(case["src"]).body[0]
        if rng.random() < 0.25:   # hand-made nodes often lack some fields, e.g. the expression context
            for n in list(ast.walk(t)):
                for f in n._fields:
                    if f in vars(n) and rng.random() < (0.5 if f == "ctx" else 0.05):
                        delattr(n, f)
        t = rng.choice([t, [t], {"k": [t]}, (1, t), t.value if isinstance(t, ast.Expr) and hasattr(t, "value") else t])
        v = rng.choice([t, [v, t]])
    return v


def generate(rng, i):
    kind = ("value", "value", "bad", "tree", "mixed")[i % 5]
    case = {"kind": kind, "seed": rng.randrange(1 << 40), "depth": rng.choice([0, 1, 2, 3, 5])}
    if kind in ("tree", "mixed"):
        g = pygen.Gen(rng, depth=2)
        case["src"] = g.suite(rng.randint(1, 3), 2)
    return case


def fixed(tier):
    cases = [{"kind": "literal"}, {"kind": "done"}]
    if tier == "thorough":
        cases += [{"kind": "file", "path": p} for p in asteq.stdlib_files()[::7]]
    return cases


# ------------------------------------------------------------------ comparison
def key(v):
    """Canonical exact representation."""
    if isinstance(v, ast.AST):
        return ("AST", type(v).__name__, tuple((f, key(getattr(v, f))) for f in v._fields if hasattr(v, f)))
    t = type(v)
    if t is float:
        return ("float", "nan" if math.isnan(v) else struct.pack("d", v))
    if t is complex:
        return ("complex", key(v.real), key(v.imag))
    if t in (list, tuple):
        return (t.__name__, tuple(key(x) for x in v))
    if t is dict:
        return ("dict", tuple((key(k), key(x)) for k, x in v.items()))
    if t is set:
        return ("set", tuple(sorted((repr(key(x)) for x in v))))
    return (t.__module__ + "." + t.__qualname__, v)


def mutable_ids(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, ast.AST):
        if not isinstance(v, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
            acc.add(id(v))
        for f in v._fields:
            mutable_ids(getattr(v, f, None), acc)
    elif isinstance(v, (list, set, dict)):
        acc.add(id(v))
    if isinstance(v, (list, tuple, set)):
        for x in v:
            mutable_ids(x, acc)
    elif isinstance(v, dict):
        for x in v.values():
            mutable_ids(x, acc)
    return acc


def code_of(tree):
    import copy
    tree = copy.deepcopy(tree)
    for n in ast.walk(tree):
        if "ctx" in n._fields and not hasattr(n, "ctx"):
            n.ctx = ast.Load()
        for a in ("lineno", "end_lineno"):
            if a in n._attributes:
                setattr(n, a, 1)
        for a in ("col_offset", "end_col_offset"):
            if a in n._attributes:
                setattr(n, a, 0)
    return compile(ast.Expression(body=tree), "<lifted>", "eval")


def namespace():
    import mcpyrate.quotes
    return {"mcpyrate": mcpyrate}


def positions(t, acc):
    if isinstance(t, ast.AST):
        acc.append((type(t).__name__, getattr(t, "lineno", None), getattr(t, "col_offset", None)))
        for f in t._fields:
            positions(getattr(t, f, None), acc)
    elif isinstance(t, (list, tuple)):
        for x in t:
            positions(x, acc)
    elif isinstance(t, dict):
        for x in t.values():
            positions(x, acc)
    return acc


def show(v):
    try:
        return brief(repr(key(v)))
    except Exception:
        return brief(repr(v))


def roundtrip(v, obs, same_positions=True):
    from mcpyrate.quotes import astify, unastify
    k = key(v)
    tree = astify(v)
    expect(isinstance(tree, ast.expr), "not-an-expression", lambda: f"astify({show(v)}) gave {tree!r}")
    code = code_of(tree)
    a, b = eval(code, namespace()), eval(code, namespace())
    expect(key(a) == k, "lifted-value", lambda: f"lifting {show(v)} gives code that evaluates to {show(a)}")
    expect(key(b) == k, "lifted-value", lambda: f"second evaluation: {show(v)} -> {show(b)}")
    expect(not (mutable_ids(a) & mutable_ids(b)) and not (mutable_ids(a) & mutable_ids(v)), "not-fresh", lambda: f"evaluations of the lifted {show(v)} share mutable objects")
    r = unastify(tree)
    expect(key(r) == k, "reversed", lambda: f"unastify(astify(x)): {show(v)} became {show(r)}")
    if same_positions:
        expect(positions(r, []) == positions(v, []), "reversed-positions", lambda: f"{show(v)}")
    expect(key(v) == k, "input-modified", lambda: f"{show(v)}")
    obs.count("values")
    obs.count("reversed")


def run_result(tree, v):
    return eval(code_of(tree), dict(namespace(), f=lambda *a, **kw: (a, kw)))


def through_u(v, obs):
    k = key(v)
    a = M.lift(v)
    expect(isinstance(a, ast.expr), "not-an-expression", lambda: f"q[u[v]] for {show(v)} gave {a!r}")
    got = run_result(a, v)
    expect(key(got) == k, "through-u", lambda: f"q[u[v]] for v = {show(v)} evaluates to {show(got)}")
    a = M.lift_in(v)
    (x, y), kw = run_result(a, v)
    expect(key(x) == k and key(y) == ("list", (k,)) and key(kw["k"]) == k, "through-u", lambda: f"q[f(u[v], [u[v]], k=u[v])] for v = {show(v)} gave {show((x, y, kw))}")
    s = M.lift_stmt(v)
    expect(len(s) == 2 and key(run_result(s[0].value, v)) == k and key(run_result(s[1].value, v)) == k, "through-u", lambda: f"with q: x = u[v] for v = {show(v)}")
    expect(key(v) == k, "input-modified", lambda: show(v))
    obs.count("through-u")


def judge(case, obs):
    from mcpyrate.quotes import astify
    kind = case["kind"]
    if kind == "literal":
        want = [1, -2.5, 1j, "s", b"b", None, ..., True, (1,), (), [], {}, {1: (2, [3])}, {1}, set()]
        got = run_result(M.lift_literal(), None)
        expect(key(got) == key(want), "through-u", lambda: show(got))
        return "literal"
    if kind == "done":
        from mcpyrate.core import Done
        from mcpyrate.quotes import unastify
        t = astify(ast.BinOp(left=Done(ast.Name(id="x")), op=ast.Add(), right=ast.Constant(value=1)))
        for r in (eval(code_of(t), namespace()), unastify(t)):
            expect(type(r.left) is Done and r.left.body.id == "x", "done-marker", lambda: ast.dump(r))
        return "done"
    if kind == "file":
        try:
            t = ast.parse(fw.read(case["path"]) if hasattr(fw, "read") else open(case["path"], encoding="utf-8").read())
        except (SyntaxError, ValueError, UnicodeDecodeError):
            return None
        for s in t.body:
            roundtrip(s, obs)
        obs.count("trees", len(t.body))
        return case["path"]
    v = build(case)
    if kind == "bad":
        for name, fn in (("astify", lambda: astify(v)), ("u", lambda: M.lift(v))):
            try:
                t = fn()
            except (TypeError, ValueError):
                obs.count("refused")
                continue
            raise fw.Violation("not-refused", f"{name} accepted {brief(repr(v))}: {brief(asteq.safe_dump(t))}")
        return "bad" + fw.hash_(case["seed"])
    roundtrip(v, obs)
    through_u(v, obs)
    if kind in ("tree", "mixed"):
        obs.count("trees")
    return kind + fw.hash_(repr(key(v)))
