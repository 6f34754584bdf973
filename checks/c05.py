"""C05: whatever valid AST a macro returns, the expanded module is well formed, compiles, and is the intended tree."""
import ast
import copy
import random
import sys
import types
import warnings

import asteq
import fw
import mackit
import pygen
from fw import brief, expect

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "random modules cut into pieces that monitor macros return mangled (no/partial/wrong ctx and positions, shared nodes, markers, iterables, None); the tree handed to Python is checked node by node and compiled"
LEVEL_NOTE = ("Pieces of random compilable modules are returned by expr, block, decorator and name macros in every syntactic position; the expanded module must compile, must equal the intended module (ctx included), "
              "and every node must have a valid context and a complete, ordered source range.")
RULE = "Random Python 3.12 modules, random cuts (nested), random mangling per piece. Non-trivial: at least one piece was returned by a macro. Distinct by module text, cuts and mangling."
QUICK = dict(n=6000, secs=14)
THOROUGH = dict(n=300000, secs=300)
MIN = {"pieces": 5000, "compiled": 500, "store-target": 50, "none-expr": 20, "none-stmt": 50, "shared": 200}
ASSUMPTIONS = ["partial positions: each node has none of the four, all four, line and column without the end (as old macro code produces), or only one of line and column",
               "not covered: an expression macro returning None inside a type alias or generic signature in a class body (the dummy for None is a lambda, which Python forbids there)"]

MOD = "mcpv_c05"
TABLE = {}
STAT = {}
NNAMES = 6


def setup(scratch):
    sys.setrecursionlimit(3000)
    from mcpyrate import namemacro, parametricmacro
    m = types.ModuleType(MOD)
    m.__file__ = f"<{MOD}>"

    def key(tree):
        t = tree[0] if isinstance(tree, list) else tree
        if isinstance(t, ast.Expr):
            t = t.value
        return t.value

    def get(k, expander, inside=False):
        out = TABLE[k]()
        return out

    def piece(tree, **kw):
        return get(key(tree), kw["expander"])

    def blk(tree, **kw):
        return get(key(tree), kw["expander"])

    def blki(tree, **kw):
        return kw["expander"].visit_recursively(get(key(tree), kw["expander"]))

    @parametricmacro
    def dec(tree, *, args, **kw):
        return get(args[0].value, kw["expander"])

    def mkname(k):
        def nm(tree, **kw):
            if kw["syntax"] != "name":
                return tree
            return get(f"n{k}", kw["expander"])
        return namemacro(nm)
    m.piece, m.blk, m.dec, m.blki = piece, blk, dec, blki
    for k in range(NNAMES):
        setattr(m, f"nm{k}", mkname(k))
    sys.modules[MOD] = m
    import mcpyrate.compiler  # noqa: F401


class Cutter(ast.NodeTransformer):
    """Replace nodes by macro invocations; keeps the pieces."""
    def __init__(self, rng, pe, ps):
        self.r = rng
        self.pe, self.ps = pe, ps
        self.pieces = []     # (node or list or None, has nested)
        self.names = 0
        self.kinds = []

    def expr_cut(self, node):
        n0 = len(self.pieces)
        return n0

    def visit(self, node):
        if isinstance(node, (ast.pattern, ast.FormattedValue, ast.JoinedStr, ast.type_param, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return node
        if isinstance(node, ast.expr):
            return self.cut(node)
        if isinstance(node, ast.AnnAssign):
            if isinstance(node.target, ast.Name):
                node.target = self.cut(node.target, nameonly=True)
            else:
                self.children(node.target)
            node.annotation = self.visit(node.annotation)
            if node.value:
                node.value = self.visit(node.value)
            return node
        if isinstance(node, ast.TypeAlias):
            node.value = self.visit(node.value)
            return node
        if isinstance(node, ast.withitem):
            self.children(node.context_expr)
            if node.optional_vars:
                node.optional_vars = self.visit(node.optional_vars)
            return node
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in node.decorator_list:
                self.children(d)
            saved, node.decorator_list = node.decorator_list, []
            node = self.generic_visit(node)
            node.decorator_list = saved
        else:
            node = self.generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and self.r.random() < self.ps:
                self.cut_stmts(v)
        return node

    def children(self, node):
        if isinstance(node, ast.Subscript):
            if not isinstance(node.value, ast.Name):   # `namemacro[...]` would be an expr macro invocation
                node.value = self.children(node.value)
            node.slice = self.visit(node.slice)
            return node
        if isinstance(node, ast.Call):   # `with namemacro():` would be a (rejected) macro invocation
            node.func = self.children(node.func)
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            return node
        if isinstance(node, (ast.JoinedStr, ast.FormattedValue)):
            return node
        return self.generic_visit(node)

    def cut(self, node, nameonly=False):
        before = len(self.pieces)
        if isinstance(node, ast.NamedExpr):
            node.value = self.visit(node.value)
            node.target = self.cut(node.target, nameonly=True)
        elif not nameonly:
            node = self.children(node)
        isname = isinstance(node, ast.Name)
        prob = self.pe
        if self.r.random() >= prob:
            return node
        nested = len(self.pieces) > before or self.names and _has_cut(node)
        ctx = type(getattr(node, "ctx", ast.Load())).__name__
        if ctx != "Load":
            self.kinds.append("store-target")
        self.kinds.append(f"{type(node).__name__}/{ctx}")
        if self.names < NNAMES and not isinstance(node, (ast.Slice, ast.Starred)) and (isname or not nameonly) and self.r.random() < 0.3:
            k = self.names
            self.names += 1
            self.pieces.append((f"n{k}", node, nested))
            return ast.Name(id=f"nm{k}", ctx=type(node.ctx)() if ctx != "Load" else ast.Load())
        if nameonly:
            return node
        k = len(self.pieces)
        if ctx == "Load" and not isinstance(node, (ast.Slice, ast.Starred)) and self.r.random() < 0.06:
            self.pieces.append((k, None, False))
            self.kinds.append("none-expr")
        else:
            self.pieces.append((k, node, nested))
        return ast.Subscript(value=ast.Name(id="piece", ctx=ast.Load()), slice=ast.Constant(value=k), ctx=ast.Load() if ctx == "Load" else type(node.ctx)())

    def cut_stmts(self, v):
        i = self.r.randint(0, len(v) - 1)
        j = self.r.randint(i + 1, len(v))
        if any(isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in v[i:j]):
            return
        k = len(self.pieces)
        run = v[i:j]
        if self.r.random() < 0.12 and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr)) for s in run for n in ast.walk(s)):
            self.pieces.append((k, None, False))
            self.kinds.append("none-stmt")
        else:
            self.pieces.append((k, run, any(_has_cut(s) for s in run)))
        self.kinds.append("stmts")
        if self.r.random() < 0.6:
            new = ast.With(items=[ast.withitem(context_expr=ast.Name(id="blk", ctx=ast.Load()), optional_vars=None)], body=[ast.Expr(value=ast.Constant(value=k))])
        else:
            d = ast.Subscript(value=ast.Name(id="dec", ctx=ast.Load()), slice=ast.Constant(value=k), ctx=ast.Load())
            if self.r.random() < 0.3:
                new = ast.ClassDef(name="_", bases=[], keywords=[], body=[ast.Pass()], decorator_list=[d], type_params=[])
            else:
                new = self.r.choice([ast.FunctionDef, ast.AsyncFunctionDef])(name="_", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Pass()], decorator_list=[d], type_params=[])
        v[i:j] = [new]


def _has_cut(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and (n.id in ("piece", "blk", "dec") or n.id.startswith("nm") and n.id[2:].isdigit()):
            return True
    return False


def mangler(rng, obs):
    """-> function (piece, nested) -> macro output"""
    from mcpyrate.core import Done, MacroExpanderMarker
    ctxmode = rng.choice(["keep", "strip", "load", "random", "some"])
    locmode = rng.choice(["keep", "strip", "some", "noends", "far", "one", "mixed"])
    share = rng.random() < 0.4
    markers = rng.choice([0, 0, 0.05, 0.3])
    dropopt = rng.random() < 0.3
    r = rng

    def mangle(piece, nested, k):
        if piece is None:
            return r.choice([None, None, []]) if isinstance(k, tuple) else None
        lst = isinstance(piece, list)
        nodes = copy.deepcopy(piece if lst else [piece])
        for root in nodes:
            for n in ast.walk(root):
                if "ctx" in n._fields:
                    if ctxmode == "strip" or (ctxmode == "some" and r.random() < 0.5):
                        if "ctx" in n.__dict__:
                            del n.ctx
                    elif ctxmode == "load":
                        n.ctx = ast.Load()
                    elif ctxmode == "random":
                        n.ctx = r.choice([ast.Load, ast.Store, ast.Del])()
                if "lineno" in n._attributes:
                    m = locmode
                    if m == "mixed":
                        m = r.choice(["keep", "strip", "noends", "far", "one"])
                    if m == "strip" or (m == "some" and r.random() < 0.5):
                        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                            n.__dict__.pop(a, None)
                    elif m == "noends":
                        n.__dict__.pop("end_lineno", None)
                        n.__dict__.pop("end_col_offset", None)
                        if not hasattr(n, "lineno"):
                            n.lineno, n.col_offset = 3, 4
                    elif m == "one":
                        keep = r.choice(["lineno", "col_offset"])
                        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                            if a != keep:
                                n.__dict__.pop(a, None)
                    elif m == "far":
                        n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = 100000 + r.randint(0, 9), 7, 100020, 1
                if dropopt:
                    for f in ("returns", "type_comment", "kind", "cause", "exc", "msg", "lower", "upper", "step", "annotation", "optional_vars", "name", "asname", "format_spec", "vararg", "kwarg", "guard"):
                        if f in n._fields and n.__dict__.get(f, 0) is None:
                            del n.__dict__[f]
        if share:
            table = {}

            class Share(ast.NodeTransformer):
                def generic_visit(self, node):
                    super().generic_visit(node)
                    if isinstance(node, ast.expr) and not (nested and _has_cut(node)):
                        key = asteq.norm(node, ctx=False)
                        key = repr(key)
                        if key in table:
                            obs.count("shared")
                            return table[key]
                        table[key] = node
                    return node
            nodes = [Share().visit(n) for n in nodes]
        if markers and not nested:
            class Mark(ast.NodeTransformer):
                def visit(self, node):
                    node = self.generic_visit(node)
                    if isinstance(node, ast.expr) and r.random() < markers:
                        obs.count("marked")
                        return r.choice([Done, MacroExpanderMarker])(node)
                    if isinstance(node, ast.stmt) and r.random() < markers:
                        obs.count("marked")
                        return Done(node)
                    return node

                def visit_JoinedStr(self, node):
                    return node

                def visit_MatchValue(self, node):
                    return node
                visit_TypeVar = visit_MatchMapping = visit_MatchValue
            nodes = [Mark().visit(n) for n in nodes]
        if not lst:
            return nodes[0]
        form = r.randrange(5)
        if form == 0 and len(nodes) == 1:
            return nodes[0]
        if form == 1:
            return tuple(nodes)
        if form == 2:
            return (n for n in nodes)
        if form == 3 and not nested:
            return Done(nodes)
        return nodes
    return mangle


FIXED = [
    ("t = (a, b)", [("strip", "value=target")]),
]

PROGS = [
    "a, b = a, b\n", "x[x] = x\n", "x.y = x\n", "for x in x: pass\n", "[x for x in x if x]\n", "(a, *b), c = (a, *b), c\n", "del x, x[x], x.x\n", "with x as x, (y): pass\n", "with y as (a, b): (a, b)\n", "x += x\n",
    "x[x:x, x] += x\n", "x: x = x\n", "(x := x)\n", "x[(y := x)] = y\n", "[a, [b, c]] = [a, [b, c]] = [a, [b, c]]\n", "for (a, b) in [(a, b)]: (a, b)\n", "async def f():\n    async for x in x: x\n    async with x as x: x\n",
    "{x: x for x in x}\n{x for x in x}\n(x for x in x)\n", "lambda x=x: x\n", "def f(x: x = x) -> x: return x\n", "match x:\n    case x.y: x.y\n    case [x, *_]: x\n", "x[f(x)], x[lambda: x] = x\n", "f(x)[x].x = 1\n", "type X = X\n",
    "try: x\nexcept x as x: x\n", "del (a, b)\n(a, b)\n", "del [a]\n[a]\n[a] = [a]\n", "f(*a, **b)\n*a, = a\n", "x[*a] = x[*a]\n", "x = y = x\n", "global x\nx = 1\n", "class A(B, k=C): x = x\n", "x[a.b[c]].d[e] = x[a.b[c]].d[e]\n",
    "if a:\n    x\n", "while a:\n    x\nelse:\n    y\n", "try:\n    x\nfinally:\n    y\n", "def f():\n    'doc'\n    x\n", "async def f():\n    await x\n    yield x\n    return\n",
]


def fixed(tier):
    cases = []
    for i, p in enumerate(PROGS):
        for s in range(24 if tier == "quick" else 200):
            cases.append({"src": p, "seed": i * 1000 + s, "pe": [0, 0.3, 0.7, 1][s % 4], "ps": [1, 1, 0.3][s % 3]})
    cases += [{"special": s} for s in SPECIAL]
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 2, 3]))
    src = g.compilable(rng.randint(1, 3), rng.choice([0, 1, 1]))
    if not src or len(src) > 6000:
        return None
    return {"src": src, "seed": rng.randrange(10 ** 9), "pe": rng.choice([0.05, 0.15, 0.4]), "ps": rng.choice([0, 0.3, 0.8])}


def strip_pass(tree):
    class P(ast.NodeTransformer):
        def visit_Pass(self, node):
            return None
    return P().visit(tree)


def intended(tree, none_keys):
    """Put None where the None pieces were."""
    return tree


def judge(case, obs):
    if "special" in case:
        SPECIAL[case["special"]](obs)
        obs.count("special")
        return "special:" + case["special"]
    from mcpyrate import compiler
    rng = random.Random(case["seed"])
    src = case["src"]
    try:
        orig = ast.parse(src)
        cut = Cutter(rng, case["pe"], case["ps"])
        tree = cut.visit(ast.parse(src))
    except RecursionError:
        return None
    if not cut.pieces:
        return None
    if any(isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in orig.body):
        return None
    # Rebuild the intended module from the cut module and the pieces (None pieces included).
    pieces = {k: (p, n) for k, p, n in cut.pieces}

    class Fill(ast.NodeTransformer):
        def visit_Subscript(self, node):
            if isinstance(node.value, ast.Name) and node.value.id == "piece":
                p = pieces[node.slice.value][0]
                return ast.Constant(value=None) if p is None else self.visit(copy.deepcopy(p))
            return self.generic_visit(node)

        def visit_Name(self, node):
            if node.id.startswith("nm") and node.id[2:].isdigit():
                return self.visit(copy.deepcopy(pieces["n" + node.id[2:]][0]))
            return node

        def many(self, k):
            p = pieces[k][0]
            if p is None:
                return []
            out = []
            for s in copy.deepcopy(p):
                s = self.visit(s)
                out.extend(s) if isinstance(s, list) else out.append(s)
            return out

        def visit_With(self, node):
            c = node.items[0].context_expr
            if isinstance(c, ast.Name) and c.id == "blk":
                return self.many(node.body[0].value.value)
            return self.generic_visit(node)

        def visit_FunctionDef(self, node):
            d = node.decorator_list
            if len(d) == 1 and isinstance(d[0], ast.Subscript) and isinstance(d[0].value, ast.Name) and d[0].value.id == "dec":
                return self.many(d[0].slice.value)
            return self.generic_visit(node)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
    want = Fill().visit(copy.deepcopy(tree))
    compat = ast.fix_missing_locations(copy.deepcopy(want))

    class Filler(ast.NodeTransformer):
        def generic_visit(self, node):
            super().generic_visit(node)
            for f in ("body",):
                v = getattr(node, f, None)
                if v == [] and isinstance(node, (ast.stmt, ast.ExceptHandler, ast.match_case)):
                    node.body = [ast.Pass()]
            if isinstance(node, (ast.Try, ast.TryStar)) and not node.handlers and not node.finalbody:
                node.finalbody = [ast.Pass()]
            return node
    compat = ast.fix_missing_locations(Filler().visit(compat))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            compile(compat, "<want>", "exec")
        except (SyntaxError, ValueError, RecursionError):   # e.g. a None where only some expressions are allowed
            obs.count("not-compilable")
            return None
    try:
        text = ast.unparse(ast.fix_missing_locations(tree))
        back = ast.parse(text)
    except (SyntaxError, ValueError, RecursionError):
        obs.count("skipped-unparse")
        return None
    if asteq.norm(back) != asteq.norm(tree):
        obs.count("skipped-unparse")
        return None
    mangle = mangler(rng, obs)
    TABLE.clear()
    for k, p, nested in cut.pieces:
        st = rng.getstate()
        TABLE[k] = (lambda p=p, nested=nested, k=k: (obs.count("pieces"), mangle(p, nested, k))[1])
    for kind in cut.kinds:
        if kind in ("store-target", "none-expr", "none-stmt", "stmts"):
            obs.count(kind)
        else:
            obs.see("piece-kinds", kind)
    names = ["piece", "blk", "dec"] + [f"nm{k}" for k in range(NNAMES)]
    imp = f"from {MOD} import macros, {', '.join(names)}\n"
    program = imp + text
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exp = compiler.expand(program, filename="/nonexistent/c05.py", self_module="prog")
    show = lambda: f"\n--- program\n{brief(program, 2500)}\n--- intended\n{brief(mackit.__dict__['stm'] and ast.unparse(want), 2500)}"  # noqa: E731
    wellformed(exp, obs, show)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            compile(exp, "/nonexistent/c05.py", "exec")
        except (SyntaxError, ValueError, TypeError) as e:
            if "Cannot use lambda in annotation scope within class scope" in str(e) and "none-expr" in cut.kinds:
                obs.count("skipped-none-in-annotation-scope")
                return None
            fw.expect(False, "compile-" + type(e).__name__, f"{e}{show()}")
    obs.count("compiled")
    got = mackit.canon(exp)
    del got.body[0]
    w = strip_pass(mackit.canon(want))
    g = strip_pass(got)
    d = asteq.firstdiff(w, g)
    expect(d is None, "tree", lambda: f"(intended vs real) {d}{show()}")
    return fw.hash_((program, case["seed"]))


CTXOK = {"Name", "Attribute", "Subscript", "Starred", "Tuple", "List"}


def wellformed(exp, obs, show):
    from mcpyrate.markers import ASTMarker
    for n in ast.walk(exp):
        expect(not isinstance(n, ASTMarker) and type(n).__module__ in ("ast", "_ast"), "marker", lambda: f"{type(n)} left{show()}")
        if "lineno" in n._attributes:
            loc = tuple(getattr(n, a, "missing") for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"))
            expect(isinstance(loc[0], int) and isinstance(loc[1], int), "location", lambda: f"{type(n).__name__} at {loc}{show()}")
            obs.count("nodes")
            if isinstance(loc[2], int) and isinstance(loc[3], int):
                expect((loc[2], loc[3]) >= (loc[0], loc[1]), "location-range", lambda: f"{type(n).__name__} at {loc}{show()}")
        if "ctx" in n._fields:
            expect(isinstance(getattr(n, "ctx", None), ast.expr_context), "ctx", lambda: f"{ast.dump(n)} without ctx{show()}")
        for f in ("body",):
            v = getattr(n, f, None)
            if isinstance(v, list) and not isinstance(n, ast.Module):
                expect(v, "empty-suite", lambda: f"{type(n).__name__}.{f} is empty{show()}")
    # contexts by position
    stack = [(exp, None)]
    while stack:
        n, ctx = stack.pop()
        if "ctx" in n._fields:
            want = ctx or ast.Load
            expect(type(n.ctx) is want, "ctx-position", lambda: f"{ast.dump(n)} should be {want.__name__}{show()}")
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    stack.append((c, childctx(n, f, ctx)))


def childctx(n, f, ctx):
    if isinstance(n, (ast.Tuple, ast.List, ast.Starred)):
        return ctx
    t = type(n)
    if (t in (ast.Assign,) and f == "targets") or (t in (ast.AnnAssign, ast.AugAssign, ast.For, ast.AsyncFor, ast.comprehension, ast.NamedExpr) and f == "target") or (t is ast.withitem and f == "optional_vars") or (t is ast.TypeAlias and f == "name"):
        return ast.Store
    if t is ast.Delete:
        return ast.Del
    return None


# ------------------------------------------------------------------ special scenarios
def run(body, table, glob=None):
    from mcpyrate import compiler
    TABLE.clear()
    TABLE.update(table)
    imp = f"from {MOD} import macros, piece, blk, blki, dec, nm0, nm1\n"
    exp = compiler.expand(imp + body, filename="/nonexistent/c05s.py", self_module="prog")
    wellformed(exp, fw.Obs(), lambda: "\n" + body)
    g = dict(glob or {})
    exec(compile(exp, "/nonexistent/c05s.py", "exec"), g)
    return g


def P(s):
    return ast.parse(s).body


def strip(nodes):
    for s in nodes if isinstance(nodes, list) else [nodes]:
        for n in ast.walk(s):
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                n.__dict__.pop(a, None)
    return nodes


def s_none_values():
    log = []
    g = run("r = [piece[0], (piece[0],), nm0, {1: piece[0]}, (lambda: piece[0])(), f(piece[0], k=nm0)]\npiece[0]\nnm0\nif piece[0]: r.append('bad')\n"
            "if 1:\n    with blk: 0\nelse:\n    with blk: 0\nfor i in 1, 2:\n    @dec[0]\n    def foo(): pass\nwhile piece[0]:\n    with blk: 0\n"
            "try:\n    with blk: 0\nexcept E:\n    with blk: 0\nelse:\n    with blk: 0\nfinally:\n    @dec[0]\n    class Foo: pass\n"
            "def f2():\n    with blk: 0\nclass A:\n    with blk: 0\nasync def f3():\n    @dec[0]\n    async def foo(): pass\nmatch 1:\n    case 1:\n        with blk: 0\nwith cm() as c:\n    with blk: 0\n"
            "ok = f2()\n",
            {0: lambda: None, "n0": lambda: None}, {"f": lambda *a, **k: (a, k), "E": Exception, "cm": _CM})
    expect(g["r"] == [None, (None,), None, {1: None}, None, ((None,), {"k": None})], "none-value", str(g["r"]))
    expect(g["ok"] is None and "foo" not in g and "Foo" not in g, "none-delete", str([k for k in g if not k.startswith("__")]))


class _CM:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def s_none_generated():
    """Deletions inside code that a macro generated without positions."""
    for form in ("with blk: 0", "@dec[0]\ndef foo(): pass"):
        for outer in ("if 1:\n    {0}\nelse:\n    {0}", "for _ in 1, 2:\n    {0}", "def g():\n    {0}\ng()", "class A:\n    {0}", "try:\n    {0}\nfinally:\n    {0}", "with cm():\n    {0}", "match 1:\n    case 1:\n        {0}"):
            code = outer.format(form.replace("\n", "\n" + " " * 4 if "case" not in outer else "\n" + " " * 8))
            g = run("with blk: 1\nafter = 1\n", {0: lambda: None, 1: lambda: strip(P(code))}, {"cm": _CM})
            expect(g["after"] == 1 and "foo" not in g, "none-generated", code)


def s_none_inside_out():
    """Deletions in positionless code that the generating macro expands itself."""
    for form in ("with blk: 0", "@dec[0]\ndef foo(): pass"):
        for outer in ("if 1:\n    {0}\nelse:\n    {0}", "for _ in 1, 2:\n    {0}", "def g():\n    {0}\ng()", "try:\n    {0}\nfinally:\n    {0}"):
            code = outer.format(form.replace("\n", "\n" + " " * 4))
            g = run("with blki: 1\nafter = 1\n", {0: lambda: None, 1: lambda: strip(P(code))}, {"cm": _CM})
            expect(g["after"] == 1 and "foo" not in g, "none-generated", code)


def s_custom_marker():
    from mcpyrate.core import MacroExpansionError
    from mcpyrate.markers import ASTMarker

    class Mine(ASTMarker):
        pass
    for mk, body in [(lambda: Mine(ast.Constant(value=1)), "x = piece[0]\n"), (lambda: ast.Tuple(elts=[Mine(ast.Constant(value=1))], ctx=ast.Load()), "def f(a=piece[0]): pass\n"),
                     (lambda: [Mine(P("x = 1")[0])], "with blk: 0\n"), (lambda: Mine(P("x = 1")), "with blk: 0\n"), (lambda: [ast.If(test=Mine(ast.Constant(value=1)), body=P("x"), orelse=[])], "@dec[0]\ndef f(): pass\n")]:
        try:
            run(body, {0: mk})
        except MacroExpansionError:
            continue
        except Exception as e:
            raise fw.Violation("custom-marker", f"{type(e).__name__}: {e} (expected MacroExpansionError)\n{body}")
        raise fw.Violation("custom-marker", f"a leftover marker was not reported\n{body}")
    # ... unless a registered postprocessor removes it
    from mcpyrate.core import add_postprocessor, remove_postprocessor
    from mcpyrate.markers import delete_markers
    order = []

    def post(tree):
        order.append(1)
        return delete_markers(tree, cls=Mine)

    class Lib:
        def post2(self, tree):
            order.append(2)
            return tree
    lib = Lib()   # (each `lib.post2` is another, but equal object)
    add_postprocessor(post)
    add_postprocessor(lib.post2)
    add_postprocessor(post)
    add_postprocessor(lib.post2)
    try:
        g = run("x = piece[0]\nwith blk: 1\n", {0: lambda: Mine(ast.Tuple(elts=[ast.Constant(value=1), Mine(ast.Constant(value=2))], ctx=ast.Load())), 1: lambda: [Mine(P("y = 3")), Mine(P("z = 4")[0])]})
        expect((g["x"], g["y"], g["z"]) == ((1, 2), 3, 4), "postprocessor", "wrong values")
        expect(order == [1, 2], "postprocessor", f"postprocessors ran {order}")
    finally:
        remove_postprocessor(post)
        remove_postprocessor(lib.post2)
        remove_postprocessor(lib.post2)
    del order[:]
    run("x = 1\n", {})
    expect(order == [], "postprocessor", "removed postprocessor still runs")


def s_shared_across():
    """The same instance returned by several invocations, in positions that need different contexts."""
    for t in ("(a, b)", "a", "a.b", "a[a]", "[a, (b, c)]", "a[b:c, d]", "(a.b, *c)"):
        node = strip(ast.parse(t, mode="eval").body)
        body = "piece[0] = f(piece[0])\nfor piece[0] in [piece[0]]:\n    [piece[0] for piece[0] in (piece[0],)]\nwith f(piece[0]) as piece[0]:\n    del piece[0]\n"
        if "*" in t:
            body = body.replace("    del piece[0]\n", "    pass\n")
        from mcpyrate import compiler
        TABLE.clear()
        TABLE[0] = lambda: node
        exp = compiler.expand(f"from {MOD} import macros, piece\n" + body, filename="/nonexistent/c05s.py", self_module="prog")
        wellformed(exp, fw.Obs(), lambda: f"\n{t}\n{body}")
        del exp.body[0]
        d = asteq.firstdiff(ast.parse(body.replace("piece[0]", t)), exp)
        expect(d is None, "shared-across", lambda: f"{d}\n{t}\n{body}")
        compile(exp, "x", "exec")


def s_bad_output():
    """Not an AST, not an iterable of ASTs: an error, not a broken module."""
    from mcpyrate.core import MacroExpansionError
    for val in (1, "abc", [1], [ast.Pass(), 2], object(), {"a": 1}, [[ast.Pass()]], b"ab", 3.5, ast.Pass, [None], True):
        for body in ("x = piece[0]\n", "with blk: 0\n", "@dec[0]\ndef f(): pass\n", "x = nm0\n"):
            try:
                run(body, {0: lambda: val, "n0": lambda: val})
            except MacroExpansionError:
                continue
            except Exception as e:
                raise fw.Violation("bad-output", f"{val!r}: {type(e).__name__}: {e}\n{body}")
            raise fw.Violation("bad-output", f"{val!r} accepted\n{body}")


def s_iterables():
    class It:
        def __init__(self, xs):
            self.xs = xs

        def __iter__(self):
            return iter(self.xs)
    for mk in (list, tuple, iter, It, lambda xs: (x for x in xs), lambda xs: map(lambda x: x, xs), lambda xs: dict.fromkeys(xs), lambda xs: __import__("collections").deque(xs)):
        for body in ("with blk: 0\n", "@dec[0]\ndef f(): pass\n", "if 1:\n    with blk: 0\n"):
            g = run(body, {0: lambda: mk(P("log = []\nlog.append(1)\nlog.append(2)"))})
            expect(g["log"] == [1, 2], "iterable", f"{mk}: {g['log']}")


SPECIAL = {f.__name__: (lambda obs, f=f: f()) for f in (s_none_values, s_none_inside_out, s_none_generated, s_custom_marker, s_shared_across, s_bad_output, s_iterables)}
