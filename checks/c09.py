"""C09: quasiquotes with unquotes vs. reference substitution."""
import ast
import collections
import copy
import random
import sys
import warnings

import asteq
import c10
import fw
import pygen
from fw import brief, expect

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "random quotes with every unquote operator at every kind of position and quote level are expanded and evaluated by the real system; the value is compared, node by node, with a reference substitution built together with the program; invalid uses must be reported"
LEVEL_NOTE = "The oracle builds the program and the expected tree side by side: spliced trees are compared by identity, lifted values by evaluating them, everything else structurally; each unquoted expression must be evaluated exactly once per evaluation of the quote."
RULE = "Random quoted code (expressions, blocks, up to 3 quote levels) with up to 8 unquotes in load, store, delete, decorator, with-item, call-argument, list and statement positions. Distinct by program."
QUICK = dict(n=6000, secs=14)
THOROUGH = dict(n=200000, secs=300)
MIN = {"u": 80, "n": 150, "a": 200, "s": 80, "t": 80, "h": 60, "splice-list": 30, "with-a": 40, "nested-quote": 80, "deep-unquote": 60, "misuse": 40}
ASSUMPTIONS = ["a nested quote that is not unquoted stays as the invocation it is in the source, as the documentation shows"]

OPS = ("q", "u", "n", "a", "s", "t", "h")
NAMES = ["b", "c", "x", "y", "foo", "bar", "spam", "_", "match", "case", "type", "print", "len", "self", "ValueError", "äö", "name_1", "it"]


def setup(scratch):
    sys.setrecursionlimit(3000)
    import mcpyrate.quotes  # noqa: F401
    import mcpyrate.compiler  # noqa: F401


# ------------------------------------------------------------------ expected-tree placeholders
class Hole(ast.expr):
    """Expected: something `check` accepts."""
    _fields = ()

    def __init__(self, check=None):
        self.check = check


class Items(ast.expr):
    """Expected: this list of nodes, in a list position."""
    _fields = ()

    def __init__(self, items=None):
        self.items = items


def coverage(x):
    """The statement the expander leaves for coverage analysis where a block macro invocation was."""
    if type(x).__name__ == "Done":
        x = x.body
    return isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "_mcpyrate_coverage"


def cmp(want, got, path):
    if isinstance(want, Hole):
        want.check(got, path)
        return
    if isinstance(want, ast.AST):
        if isinstance(want, ast.JoinedStr) and isinstance(got, ast.JoinedStr):
            w, g = asteq.joined_values(want), asteq.joined_values(got)
            expect(len(w) == len(g), "quoted-tree", lambda: f"{path}: f-string parts")
            for k, (x, y) in enumerate(zip(w, g)):
                cmp(x, y, f"{path}.values[{k}]")
            return
        expect(type(want) is type(got), "quoted-tree", lambda: f"{path}: {brief(asteq.safe_dump(want))} expected, got {brief(asteq.safe_dump(got) if isinstance(got, ast.AST) else repr(got))}")
        for f in want._fields:
            if f not in ("ctx", "type_comment", "type_ignores", "kind"):
                cmp(getattr(want, f, None), getattr(got, f, None), f"{path}.{f}")
        return
    if isinstance(want, list):
        expect(isinstance(got, list), "quoted-tree", lambda: f"{path}: list expected, got {got!r}")
        j = 0
        got = [x for x in got if not coverage(x)]
        for k, w in enumerate(want):
            if isinstance(w, ast.Expr) and isinstance(w.value, Items):
                w = w.value
            if isinstance(w, Items):
                for x in w.items:
                    expect(j < len(got), "quoted-tree", lambda: f"{path}: spliced items are missing")
                    cmp(x, got[j], f"{path}[{j}]")
                    j += 1
                continue
            expect(j < len(got), "quoted-tree", lambda: f"{path}: {len(got)} items, more expected ({len(want)} elements in the source)")
            cmp(w, got[j], f"{path}[{j}]")
            j += 1
        expect(j == len(got), "quoted-tree", lambda: f"{path}: {len(got)} items, {j} expected")
        return
    expect(type(want) is type(got) and (want == got or repr(want) == repr(got)), "quoted-tree", lambda: f"{path}: {want!r} expected, got {got!r}")


# ------------------------------------------------------------------ building
class Builder:
    def __init__(self, rng, obs, alias):
        self.r = rng
        self.obs = obs
        self.op = {o: (f"QQ{o}" if alias else o) for o in OPS}
        self.env = {}          # name -> value, in the module namespace
        self.calls = []        # ids of V(i) expressions that one evaluation of the quote must make exactly once each
        self.g = pygen.Gen(rng, depth=2, names=NAMES)
        self.budget = rng.randint(1, 8)
        self.anyquote = 0

    # --- values at run time
    def bind(self, value):
        """Source of an expression evaluating to `value` at run time."""
        i = len(self.env)
        name = f"v__{i}"
        self.env[name] = value
        k = self.r.randrange(4)
        if k == 0:
            return ast.Name(id=name, ctx=ast.Load())
        if k == 1:
            self.calls.append(i)
            return ast.parse(f"V__({i})", mode="eval").body
        if k == 2:
            return ast.parse(f"[None, {name}][1]", mode="eval").body
        self.calls.append(i)
        return ast.parse(f"(lambda z__: z__)(V__({i})) if len else 0", mode="eval").body

    def tree(self, depth=1):
        return self.g.expression(depth), None

    def expr_tree(self):
        s = self.g.expression(self.r.randint(0, 1))
        try:
            t = ast.parse(f"({s})", mode="eval").body
        except SyntaxError:
            t = ast.parse("x", mode="eval").body
        return t

    def stmts(self):
        return ast.parse(self.g.suite(self.r.randint(1, 2), 1)).body

    def ast_value(self):
        """(source, expected) of something evaluating to one expression AST: a bound tree, or a quote."""
        if self.r.random() < 0.25 and self.budget > 0:
            self.obs.count("quote-in-unquote")
            src, want = self.quoted_expr(1)
            return self.sub("q", src), want
        t = self.expr_tree()
        return self.bind(t), same(t)

    # --- holes
    def sub(self, op, arg):
        return ast.Subscript(value=ast.Name(id=self.op[op], ctx=ast.Load()), slice=arg, ctx=ast.Load())

    def hole(self, level, inlist, store=False):
        """(source, expected) for one expression position at quote level `level`."""
        self.budget -= 1
        op = self.r.choice(["q", "u", "n", "n", "a", "a", "a", "s", "t", "h"] if not store else ["n", "a", "s", "t"])
        if op == "q" and level < 3:
            self.obs.count("nested-quote")
            src, want = self.quoted_expr(level + 1)
            return self.sub("q", src), self.sub("q", want)
        if op == "q":
            op = "u"
        if level > 1:
            self.obs.count("deep-unquote")
            src, want = self.quoted_expr(level - 1)
            return self.sub(op, src), self.sub(op, want)
        self.obs.count(op)
        if op == "u":
            v = c10.value(self.r, 2)
            k = c10.key(v)

            def chk(got, path):
                expect(isinstance(got, ast.expr), "u-value", lambda: f"{path}: {got!r}")
                x = eval(c10.code_of(got), c10.namespace())
                expect(c10.key(x) == k, "u-value", lambda: f"{path}: {c10.show(v)} unquoted as {c10.show(x)}")
            return self.sub("u", self.bind(v)), Hole(chk)
        if op == "n":
            s = self.r.choice(["x", "self.x", "kitties[3].paws[2].claws", "f(x)[0]", "(a, b)", " spam", "[x, *y]", "äö", "x if y else z", "1", "'s'", "lambda x: x", "u[1]", "q[x]", "a.b"]) if not store else self.r.choice(["x", "self.x", "d[0].e", "f(x)[0]", "(x, y)"])
            want = ast.parse(s.strip(), mode="eval").body
            if s == " spam":
                s = "spam"
            return self.sub("n", self.bind(s)), want
        if op == "h":
            v = self.r.choice([c10.value(self.r, 2), len, collections.OrderedDict(a=1), sys.getrecursionlimit, ValueError, fw.Obs, frozenset([1])])
            k = hkey(v)

            def chk(got, path):
                from mcpyrate.quotes import is_captured_value, lookup_value
                expect(isinstance(got, ast.expr), "h-value", lambda: f"{path}: {got!r}")
                x = eval(c10.code_of(got), {})
                expect(hkey(x) == k, "h-value", lambda: f"{path}: captured {v!r}, looks up {x!r}")
                c = is_captured_value(got)
                expect(c and hkey(lookup_value(c)) == k, "h-value", lambda: f"{path}: is_captured_value gives {c!r}")
            return self.sub("h", self.bind(v)), Hole(chk)
        if op == "a":
            if inlist and self.r.random() < 0.7:
                self.obs.count("splice-list")
                return self.ast_items("a")
            src, want = self.ast_value()
            return self.sub("a", src), want
        src, items = self.ast_items(op)
        return src, (ast.List if op == "s" else ast.Tuple)(elts=items.items)

    def ast_items(self, op):
        """A run-time iterable of ASTs."""
        if self.r.random() < 0.2 and self.budget > 0:   # a display with inner quotes
            pairs = [self.ast_value() for _ in range(self.r.randint(0, 3))]
            return self.sub(op, ast.List(elts=[p[0] for p in pairs], ctx=ast.Load())), Items([p[1] for p in pairs])
        ts = [self.expr_tree() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        val = list(ts)
        if len(ts) > 1 and self.r.random() < 0.3:
            val = [ts[0], ts[1:]]   # nested lists are flattened
        elif self.r.random() < 0.3:
            val = tuple(ts)
        src = self.bind(val)
        if self.r.random() < 0.2:
            src = ast.Call(func=ast.Name(id="iter", ctx=ast.Load()), args=[src], keywords=[])
        return self.sub(op, src), Items([same(t) for t in ts])

    # --- planting
    def plant(self, src, want, level):
        """Replace random positions of the parallel trees `src` and `want` (equal copies; lists of statements or a node)."""
        slots = []
        collect(src, want, slots)
        self.r.shuffle(slots)
        done, above = set(), set()
        self.keep = getattr(self, "keep", [])
        self.keep.append(slots)
        n = self.r.choice([0, 1, 1, 2, 3, 4])
        for s in slots:
            if n <= 0 or self.budget <= 0:
                break
            if any(p in done for p in s.parents) or s.id in above or s.id in done:
                continue
            if s.kind == "stmt":
                pair = self.block_hole(level, s)
                if pair is None:
                    continue
                a, b = pair
            else:
                a, b = self.hole(level, s.kind == "list", s.store)
            s.put(a, b)
            done.add(s.id)
            above.update(s.parents)
            n -= 1
        return src, want

    def quoted_expr(self, level):
        s = self.g.expression(self.r.randint(0, 2))
        try:
            t = ast.parse(f"({s})", mode="eval").body
        except SyntaxError:
            t = ast.parse("f(x, y)", mode="eval").body
        if isinstance(t, ast.Name) and self.budget > 0:
            return self.hole(level, False)
        return self.plant(t, copy.deepcopy(t), level)

    def quoted_block(self, level):
        t = ast.parse(self.g.suite(self.r.randint(1, 3), 1)).body
        src, want = list(t), copy.deepcopy(t)
        if self.r.random() < 0.4:
            i = self.r.randint(0, len(src))
            s = ast.parse("x = 1\nf(x, y)\ndel x\nx += 1\nfor x in y: pass\n@x\nclass A(B): pass\nwith x as y: pass").body[self.r.randrange(7)]
            src.insert(i, s)
            want.insert(i, copy.deepcopy(s))
        return self.plant(src, want, level)

    def block_hole(self, level, slot):
        r = self.r.random()
        self.budget -= 1
        if r < 0.3 and level < 3:
            self.obs.count("nested-quote")
            src, want = self.quoted_block(level + 1)
            mk = lambda body: ast.With(items=[ast.withitem(context_expr=ast.Name(id=self.op["q"], ctx=ast.Load()), optional_vars=ast.Name(id="inner", ctx=ast.Store()))], body=body)
            return mk(src), mk(want)
        mk = lambda body: ast.With(items=[ast.withitem(context_expr=ast.Name(id=self.op["a"], ctx=ast.Load()))], body=body)
        if level > 1:
            self.obs.count("deep-unquote")
            pairs = [self.quoted_expr(level - 1) for _ in range(self.r.randint(1, 2))]
            return mk([ast.Expr(value=p[0]) for p in pairs]), mk([ast.Expr(value=p[1]) for p in pairs])
        self.obs.count("with-a")
        body, items = [], []
        for _ in range(self.r.randint(1, 3)):
            st = self.stmts()
            k = self.r.randrange(4)
            if k == 0:
                st = st[:1]
                body.append(ast.Expr(value=self.bind(st[0])))
            elif k == 1:
                body.append(ast.Expr(value=self.bind([st[0], [st[1:]]])))
            elif k == 2:
                body.append(ast.Expr(value=self.bind(list(st))))
                body.append(ast.Expr(value=self.bind([])))
            else:
                body.append(ast.Expr(value=self.bind(st)))
            items += [same(s) for s in st]
        return mk(body), ast.Expr(value=Items(items))


def hkey(v):
    try:
        return repr(c10.key(v))
    except Exception:
        return repr(v)


def same(t):
    return Hole(lambda got, path: expect(got is t, "not-the-given-node", lambda: f"{path}: {brief(asteq.safe_dump(t))} was given, got {brief(asteq.safe_dump(got) if isinstance(got, ast.AST) else repr(got))}"))


class Slot:
    def __init__(self, node, parents, kind, store, put):
        self.node = node   # kept alive, so that its id stays its own
        id_ = id(node)
        self.id, self.parents, self.kind, self.store, self.put = id_, parents, kind, store, put


LISTS = {(ast.Call, "args"), (ast.List, "elts"), (ast.Tuple, "elts"), (ast.Set, "elts"), (ast.BoolOp, "values"), (ast.ClassDef, "bases"), (ast.Delete, "targets")}
SKIP = (ast.Starred, ast.Slice, ast.FormattedValue)


def collect(src, want, slots):
    def rec(a, b, parents, instore):
        me = parents + (id(a),)
        for f in a._fields:
            x, y = getattr(a, f, None), getattr(b, f, None)
            if isinstance(x, ast.AST):
                one(a, b, f, x, y, me, False)
            elif isinstance(x, list):
                many(a, f, x, y, me)

    def one(a, b, f, x, y, me, inlist):
        if isinstance(x, ast.pattern) or (isinstance(a, ast.JoinedStr)) or f == "format_spec":
            return
        if isinstance(a, ast.NamedExpr) and f == "target" or isinstance(a, ast.TypeAlias) and f == "name":
            return
        if isinstance(a, ast.FormattedValue) and isinstance(x, ast.expr):
            pass
        if isinstance(x, ast.expr) and not isinstance(x, SKIP) and not (isinstance(x, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in x.elts)):
            store = isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del))
            if not (isinstance(a, ast.AnnAssign) and f == "target" and a.simple):
                def put(p, q_):
                    setattr(a, f, p)
                    setattr(b, f, q_)
                slots.append(Slot(x, me, "expr", store, put))
        rec(x, y, me, False)

    def many(a, f, xs, ys, me):
        if not xs:
            return
        if f in ("decorator_list",) or all(isinstance(e, ast.expr) for e in xs) or (isinstance(a, (ast.Call, ast.List, ast.Set, ast.Tuple))):
            for k, (x, y) in enumerate(zip(xs, ys)):
                if isinstance(x, ast.AST):
                    if isinstance(x, ast.expr) and not isinstance(x, SKIP) and not isinstance(a, (ast.JoinedStr, ast.MatchMapping)):
                        if not (isinstance(a, ast.Tuple) and any(isinstance(e, ast.Slice) for e in xs)):
                            store = isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del))
                            slots.append(Slot(x, me, "list" if (type(a), f) in LISTS and not store else "expr", store, putter(xs, ys, k)))
                    rec(x, y, me, False)
            return
        stm = isinstance(xs[0], ast.stmt)
        for k, (x, y) in enumerate(zip(xs, ys)):
            if isinstance(x, ast.pattern):
                continue
            if stm and not (isinstance(x, ast.ImportFrom) and x.module == "__future__"):
                slots.append(Slot(x, me, "stmt", False, putter(xs, ys, k)))
            if isinstance(x, ast.expr):
                slots.append(Slot(x, me, "expr", False, putter(xs, ys, k)))
            if isinstance(x, ast.AST):
                rec(x, y, me, False)
    if isinstance(src, list):
        many(ast.Module(), "body", src, want, ())
    else:
        rec(src, want, (), False)


def putter(xs, ys, k):
    def put(p, q_):
        xs[k] = p
        ys[k] = q_
    return put


# ------------------------------------------------------------------ cases
def generate(rng, i):
    return {"seed": rng.randrange(1 << 40), "kind": ("expr", "block")[i % 2], "alias": rng.random() < 0.5}


def fixed(tier):
    return [{"kind": "misuse", "n": k} for k in range(len(MISUSE))] + [{"kind": "doc"}]


def locate(tree, lineno=5):
    for n in ast.walk(tree):
        for a, v in (("lineno", lineno), ("end_lineno", lineno), ("col_offset", 0), ("end_col_offset", 0)):
            if a in n._attributes and not hasattr(n, a):
                setattr(n, a, v)
        if "ctx" in n._fields and not hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return tree


def head(op):
    return "from mcpyrate.quotes import macros, " + ", ".join(f"{o} as {op[o]}" if op[o] != o else o for o in OPS) + "\n"


def judge(case, obs):
    from mcpyrate.compiler import create_module, run
    if case["kind"] == "misuse":
        return misuse(case["n"], obs)
    if case["kind"] == "doc":
        return doc_examples(obs)
    rng = random.Random(case["seed"])
    b = Builder(rng, obs, case["alias"])
    src, want = b.quoted_expr(1) if case["kind"] == "expr" else b.quoted_block(1)
    if case["kind"] == "expr":
        if isinstance(want, Items):
            return None
        body = ast.parse(head(b.op) + "def f__():\n    return 0\n").body
        body[-1].body[0].value = b.sub("q", src)
    else:
        body = ast.parse(head(b.op) + "def f__():\n    with x as quoted__:\n        pass\n    return quoted__\n").body
        w = body[-1].body[0]
        w.items[0].context_expr = ast.Name(id=b.op["q"], ctx=ast.Load())
        w.body = src
    for s in body:
        locate(s)
    program = lambda: brief(unparse(body), 3000)
    mod = create_module("mcpv_c09_mod", filename="/nonexistent/mcpv_c09_mod.py")
    log = collections.Counter()

    def V(i):
        log[i] += 1
        return b.env[f"v__{i}"]
    mod.V__ = V
    mod.__dict__.update(b.env)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            run(body, mod)
        except Exception as e:
            raise fw.Violation("quote-not-expanded", f"{program()}\n{type(e).__name__}: {e}\n{e.__cause__!r}")
        vals = []
        for _ in range(2):
            log.clear()
            try:
                got = mod.f__()
            except Exception as e:
                raise fw.Violation("quote-failed", f"{program()}\n{type(e).__name__}: {e}")
            if case["kind"] == "block":
                expect(type(got) is list, "quoted-tree", lambda: f"{program()}\ngot {got!r}")
            try:
                cmp(want, got, "quoted")
            except fw.Violation as v:
                raise fw.Violation(v.mech, f"{v.msg}\n{program()}\n--value--\n{brief(unparse(got if isinstance(got, list) else [ast.Expr(value=got)]), 2000)}")
            expect(dict(log) == {i: 1 for i in b.calls}, "evaluation-count", lambda: f"{program()}\nunquoted calls {b.calls} were evaluated {dict(log)}")
            vals.append(got)
    obs.count("quotes")
    return case["kind"] + fw.hash_(unparse(body))


def unparse(stmts):
    try:
        m = copy.deepcopy(ast.Module(body=stmts, type_ignores=[]))
        return ast.unparse(ast.fix_missing_locations(m))
    except Exception as e:
        return asteq.safe_dump(stmts[0]) + repr(e)


# ------------------------------------------------------------------ misuse
# (code, phase, exception): phase "expand" = reported at macro expansion, "run" = when the quote is evaluated
MISUSE = [(f"x = {o}[1]", "expand", SyntaxError) for o in "unasth"] + [("with a:\n    b", "expand", SyntaxError)] + \
    [(f"x = q[{o}[{p}[1]]]", "expand", SyntaxError) for o in "uasth" for p in "unasth"] + \
    [(f"x = q[q[{o}[u[u[1]]]]]", "expand", SyntaxError) for o in "unast"] + \
    [(f"with q as x:\n    with {o}:\n        y", "expand", SyntaxError) for o in "unsth"] + \
    [(f"with q as x:\n    @{o}\n    def f(): pass", "expand", SyntaxError) for o in "unasth"] + \
    [(f"@q\ndef f(): pass", "expand", SyntaxError), ("with q:\n    x", "expand", SyntaxError), ("with q as (x, y):\n    z", "expand", SyntaxError), ("with q as x.y:\n    z", "expand", SyntaxError), ("with q as x[0]:\n    z", "expand", SyntaxError),
     ("with q as x:\n    with a as y:\n        z", "expand", SyntaxError), ("with q as x:\n    with a:\n        y = 1", "expand", SyntaxError), ("with q as x:\n    with a:\n        pass", "expand", SyntaxError), ("with q as x:\n    with a:\n        st\n        if st: st", "expand", SyntaxError)] + \
    [(f"x = q[{o}[{v}]]", "run", e) for o, v, e in [("u", "object()", TypeError), ("u", "len", TypeError), ("u", "frozenset()", TypeError), ("n", "1", TypeError), ("n", "None", TypeError), ("n", "b'x'", TypeError), ("n", "q[x]", TypeError), ("n", "'1 +'", SyntaxError), ("n", "'x = 1'", SyntaxError), ("n", "''", SyntaxError),
                                                   ("a", "1", TypeError), ("a", "None", TypeError), ("a", "'x'", TypeError), ("a", "st", TypeError), ("a", "[ex, st]", TypeError), ("a", "[ex, 1]", TypeError), ("s", "ex", TypeError), ("s", "1", TypeError), ("s", "[st]", TypeError), ("s", "[1]", TypeError), ("t", "ex", TypeError), ("t", "None", TypeError), ("t", "[[st]]", TypeError),
                                                   ("h", "lambda: 0", Exception), ("h", "(i for i in ())", Exception)]] + \
    [(f"with q as x:\n    with a:\n        {v}", "run", TypeError) for v in ("ex", "1", "[ex]", "[st, ex]", "[[st, [1]]]", "'x'")] + \
    [("x = q[a[[ex, ex]]]", "run", RuntimeError), ("x = q[a[[]]]", "run", RuntimeError), ("x = q[-a[[ex]]]", "run", RuntimeError), ("x = q[f(y=a[[ex]])]", "run", RuntimeError), ("x = q[a[[ex]].attr]", "run", RuntimeError), ("with q as x:\n    y = a[[ex]]", "run", RuntimeError), ("with q as x:\n    a[[ex]]", "run", RuntimeError),
     ("x = q[(lambda: a[[ex]])()]", "run", RuntimeError), ("x = q[a[[ex]] + f(a[[ex]])]", "run", RuntimeError)]


def chain(e):
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__
    return out


def misuse(n, obs):
    from mcpyrate.compiler import create_module, run
    code, phase, exc = MISUSE[n]
    pre = head({o: o for o in OPS}) + "import ast\nex = ast.parse('x + y', mode='eval').body\nst = ast.parse('x = 1').body[0]\nlog = ['started']\n"
    mod = create_module("mcpv_c09_mod", filename="/nonexistent/mcpv_c09_mod.py")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            run(pre + code + "\n", mod)
        except Exception as e:
            started = hasattr(mod, "log")
            expect(started == (phase == "run"), "misuse-phase", lambda: f"{code!r}: {type(e).__name__} raised {'when run' if started else 'at expansion'}")
            expect(any(isinstance(x, exc) for x in chain(e)), "misuse-exception", lambda: f"{code!r}: {chain(e)!r}")
        else:
            raise fw.Violation("misuse-accepted", f"{code!r} was accepted, x = {brief(repr(getattr(mod, 'x', None)))} {asteq.safe_dump(mod.x) if isinstance(getattr(mod, 'x', None), ast.AST) else ''}")
        # the quote level is back to zero
        m2 = create_module("mcpv_c09_mod", filename="/nonexistent/mcpv_c09_mod.py")
        run(pre + "x = q[f(u[1], a[ex], q[u[x]])]\n", m2)
        d = asteq.firstdiff(ast.parse("f(1, x + y, q[u[x]])", mode="eval").body, m2.x)
        expect(d is None, "after-misuse", lambda: f"after {code!r}: {d}")
        try:
            run(pre + "x = u[1]\n", create_module("mcpv_c09_mod", filename="/nonexistent/mcpv_c09_mod.py"))
        except Exception:
            pass
        else:
            raise fw.Violation("after-misuse", f"after {code!r}, u[1] outside a quote is accepted")
    obs.count("misuse")
    return f"misuse{n}"


def doc_examples(obs):
    from mcpyrate.compiler import run
    m = run(head({o: o for o in OPS}) + '''
x = "hi"
r1 = q[u[x]]
r2 = q[q[u[x]]]
r3 = q[q[u[u[x]]]]
lst = [q[a], q[b], q[c]]
with q as r4:
    s[lst] = 1, 2, 3
args = [q[[a, 1]], q[[b, 2]], q[[c, 3]]]
r5 = q[let[t[args]][a + b + c]]
name = "computed_name"
with q as r6:
    n[f"self.{name}"] = "I'm in an attribute with a computed name"
    del n[name]
target1, target2 = q[z], q[w]
with q as r7:
    a[target1], a[target2] = ...
j, k = 3, 4
r8 = q[n[f"kitties[{j}].paws[{k}].claws"]]
''')
    for name, src in [("r1", "'hi'"), ("r2", "q[u[x]]"), ("r3", "q[u['hi']]"), ("r4", "[a, b, c] = 1, 2, 3"), ("r5", "let[[a, 1], [b, 2], [c, 3]][a + b + c]"), ("r6", "self.computed_name = \"I'm in an attribute with a computed name\"\ndel computed_name"), ("r7", "z, w = ..."), ("r8", "kitties[3].paws[4].claws")]:
        got = getattr(m, name)
        got = got if isinstance(got, list) else [ast.Expr(value=got)]
        d = asteq.firstdiff(ast.parse(src).body, got, ctx=False)
        expect(d is None, "doc-example", lambda: f"{src}: {d}")
    return "doc"
