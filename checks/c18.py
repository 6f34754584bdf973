"""C18: splicing vs. a recorded snapshot of the template with the paste points marked."""
import ast
import copy
import random

import asteq
import fw
import pygen
from fw import brief, expect

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "random templates and code spliced by the real functions; a walker compares the result, node by node, with a snapshot taken before (identity of every template node, the spliced objects at every paste point), and dialect modules with an independently assembled module, which is compiled"
LEVEL_NOTE = "The oracle never calls the functions under test or the walkers of mcpyrate; it checks node identity, independence of the copies, order of the parts and positions."
RULE = "Random templates with 1-4 paste points at any depth and any tag; random dialect templates and modules with docstrings, future-imports, __all__, macro- and dialect-imports at any nesting. Distinct by case."
QUICK = dict(n=24000, secs=12)
THOROUGH = dict(n=800000, secs=240)
MIN = {"expr": 1000, "stmts": 1000, "dialect": 1000, "copies": 500, "nested-imports": 300, "emptied-suites": 50}
ASSUMPTIONS = ["macro-imports and dialect-imports of a module inside nested suites are collected in source order", "__all__ is looked for at the top level only, as a single-target assignment"]


def setup(scratch):
    import mcpyrate.splicing  # noqa: F401
    import mcpyrate.markers  # noqa: F401


# ------------------------------------------------------------------ cases
HEAD_DOC = ['"""user doc"""', "'x\\ny'", "''", "'  spaced \\n '", "'\\n  a\\n    b\\n\\t'", "' '", "u'uni'", "b'not a docstring'", "1", "f'no {1}'", "'a' 'b'", "..."]
FUT = ["from __future__ import annotations", "from __future__ import division, generators", "from __future__ import annotations as ann", "from __future__ import print_function"]
MI = ["from {m} import macros, {n}", "from {m} import macros, {n} as {k}, {k} as {n}", "from .{m} import macros, {n}", "from . import macros, {n}", "from {m} import macros"]
DI = ["from {m} import dialects, {n}", "from ..{m} import dialects, {n}, {k}"]
NEAR = ["from {m} import {n}, macros", "import macros", "from {m} import macros as {n}", "from {m} import dialects as {n}, {k}", "from macros import {n}", "import {m} as macros", "from dialects import {n}", "macros = 1", "from {m} import {n} as macros", "from {m} import macros_, {n}"]
ALL = ["__all__ = ['{n}']", "__all__ = ('{n}', '{k}')", "__all__ = '{n}', ", "__all__ = list({n}) + ['{k}']", "__all__ = {n}.__all__", "__all__ = []", "__all__ = ['{n}', '{k}']\n__all__ = ['{m}']", "__all__ += ['{k}']", "x = __all__ = []", "__all__ = x = []", "__all__: list = []", "__all__[0] = 1"]
NEST = ["if {n}:", "for {n} in {k}:", "while {n}:", "with {n}:", "def {n}():", "class {n}:", "try:", "if {n}:\n    pass\nelse:", "try:\n    {n}\nexcept {k}:", "try:\n    pass\nfinally:", "match {n}:\n    case {k}:", "async def {n}():", "try:\n    {k}\nexcept* {n}:", "for {n} in {k}:\n    pass\nelse:", "try:\n    pass\nexcept {k}:\n    pass\nelse:", "while {k}:\n    pass\nelse:"]


def fill(rng, s):
    for k in "mnk":
        s = s.replace("{" + k + "}", rng.choice(["m1", "m2", "foo", "bar", "baz", "qux"]))
    return s


def body_lines(rng, budget, tag, p_tag, template):
    """Statements (list of source chunks)."""
    out = []
    for _ in range(rng.randint(0 if not template else 1, budget)):
        r = rng.random()
        if r < 0.2:
            out.append(fill(rng, rng.choice(MI)))
        elif r < 0.32:
            out.append(fill(rng, rng.choice(DI)))
        elif r < 0.4:
            out.append(fill(rng, rng.choice(NEAR if template or budget == 3 or rng.random() < 0.6 else ALL)))
        elif r < 0.65 and budget > 1:
            head = fill(rng, rng.choice(NEST))
            inner = "\n".join(body_lines(rng, budget - 1, tag, p_tag, template)) or "pass"
            ind = "        " if head.startswith("match") else "    "
            chunk = head + "\n" + "\n".join(ind + x for x in inner.split("\n"))
            if head == "try:":
                chunk += rng.choice(["\nfinally:\n    pass", "\nexcept E:\n    pass\nelse:\n    pass"])
            out.append(chunk)
        elif r < 0.65 + p_tag:
            out.append(tag)
        else:
            out.append(fill(rng, rng.choice(["{n} = {k}", "{n}({k})", "{n}.{k}", "@{n}\ndef {k}({m}): return {n}", "lambda: {n}", "'{n}'", "x = '{n}' + __paste_here__", "del {n}", "x: int", "f'{{n}}'", "print({n}, [{k} for {m} in {n}])"])))
    return out


def module_src(rng, tag, template):
    parts = []
    doc = rng.random() < 0.5
    if doc:
        parts.append(rng.choice(HEAD_DOC))
    if rng.random() < 0.4:
        parts += rng.sample(FUT, rng.randint(1, 2))
        if parts[0] in ("b'not a docstring'", "1", "f'no {1}'", "..."):
            parts.pop(0)
    rest = body_lines(rng, 3, tag, 0.15 if template else 0.03, template)
    if rng.random() < 0.35:
        rest.insert(rng.randint(0, len(rest)), fill(rng, rng.choice(ALL)))
    if template and rng.random() < 0.9:
        rest.insert(rng.randint(0, len(rest)), rng.choice([tag, f"with foo:\n    {tag}", f"if bar:\n    baz\n    {tag}\nelse:\n    qux", tag]))
    return "\n".join(parts + rest)


def generate(rng, i):
    kind = ("expr", "stmts", "dialect", "dialect")[i % 4]
    tag = rng.choice(["__paste_here__", "__paste_here__", "__paste_here__", "x", "foo", "_", "TAG"])
    if kind == "dialect":
        return {"kind": kind, "body": module_src(rng, tag, False), "template": module_src(rng, tag, True), "tag": tag, "seed": rng.randrange(1 << 30)}
    g = pygen.Gen(rng, depth=2)
    if kind == "expr":
        return {"kind": kind, "template": g.suite(rng.randint(1, 3), 1) if rng.random() < 0.6 else g.expression(rng.randint(1, 3)), "body": g.expression(rng.randint(0, 2)), "tag": tag, "seed": rng.randrange(1 << 30)}
    return {"kind": kind, "template": g.suite(rng.randint(1, 4), 2), "body": g.suite(rng.randint(1, 3), 1), "tag": tag, "seed": rng.randrange(1 << 30)}


def fixed(tier):
    cases = [{"kind": "special", "name": n} for n in sorted(SPECIAL)]
    return cases


# ------------------------------------------------------------------ snapshot of a tree
def snap(x):
    if isinstance(x, ast.AST):
        return (x, type(x), [(f, snap(getattr(x, f))) for f in x._fields if hasattr(x, f)], {a: getattr(x, a) for a in getattr(x, "_attributes", ()) if hasattr(x, a)})
    if isinstance(x, list):
        return [snap(y) for y in x]
    return (None, type(x), x)


def ids(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, ast.AST):
        if isinstance(x, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
            return acc
        acc.add(id(x))
        for f in x._fields:
            ids(getattr(x, f, None), acc)
    elif isinstance(x, list):
        for y in x:
            ids(y, acc)
    return acc


class Cmp:
    """Compare the result with the snapshot of the template; at a paste point call `paste(result part)`."""
    def __init__(self, ismark, paste, islist):
        self.ismark, self.paste, self.islist = ismark, paste, islist

    def one(self, s, got, path):
        if isinstance(s, list):
            return self.many(s, got, path)
        if s[0] is None:
            expect(type(got) is s[1] and (got == s[2] or repr(got) == repr(s[2])), "template-changed", lambda: f"{path}: {s[2]!r} became {got!r}")
            return
        if self.ismark(s):
            if self.islist:
                raise fw.Violation("bad-case", path)
            self.paste(got, path)
            return
        node, ty, fields, attrs = s
        expect(got is node, "template-node-replaced", lambda: f"{path}: {ty.__name__} became {brief(asteq.safe_dump(got))}")
        expect([f for f in got._fields if hasattr(got, f)] == [f for f, _ in fields], "template-changed", lambda: f"{path}: fields {got._fields}")
        for a, v in attrs.items():
            expect(getattr(got, a, None) == v, "position-changed", lambda: f"{path}.{a}: {v} became {getattr(got, a, None)}")
        for f, sub in fields:
            self.one(sub, getattr(got, f), f"{path}.{f}")

    def many(self, s, got, path):
        expect(isinstance(got, list), "template-changed", lambda: f"{path}: list became {brief(asteq.safe_dump(got))}")
        j = 0
        for k, e in enumerate(s):
            if self.islist and not isinstance(e, list) and e[0] is not None and self.ismark(e):
                j += self.paste(got[j:], f"{path}[{j}]")
                continue
            expect(j < len(got), "template-lost", lambda: f"{path}[{k}] missing")
            self.one(e, got[j], f"{path}[{j}]")
            j += 1
        expect(j == len(got), "template-extra", lambda: f"{path}: {len(got) - j} extra")


def independent_copy(got, originals, seen, path):
    mine = ids(got)
    expect(not (mine & originals), "copy-shares-nodes", lambda: f"{path}: a later paste point shares nodes with the original")
    expect(not (mine & seen), "copy-shares-nodes", lambda: f"{path}: two later paste points share nodes")
    seen |= mine


def same(want, got, mech, path):
    d = asteq.firstdiff(want, got)
    expect(d is None, mech, lambda: f"{path}: {d}")


# ------------------------------------------------------------------ plant paste points
def expr_slots(tree, acc):
    """(container, key) of every expression position in tree."""
    def rec(x):
        for f in x._fields:
            v = getattr(x, f, None)
            if isinstance(v, ast.AST):
                if isinstance(v, ast.expr):
                    acc.append((x, f))
                rec(v)
            elif isinstance(v, list):
                for k, e in enumerate(v):
                    if isinstance(e, ast.AST):
                        if isinstance(e, ast.expr):
                            acc.append((v, k))
                        rec(e)
    rec(tree)
    return acc


def stmt_lists(tree, acc):
    for n in ast.walk(tree):
        for f in n._fields:
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                acc.append(v)
    return acc


def put(slot, value):
    c, k = slot
    if isinstance(c, list):
        c[k] = value
    else:
        setattr(c, k, value)


def get(slot):
    c, k = slot
    return c[k] if isinstance(c, list) else getattr(c, k)


def rename_tag(tree, tag):
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == tag:
            n.id = tag + "_not"


def judge(case, obs):
    if case["kind"] == "special":
        SPECIAL[case["name"]]()
        return "special:" + case["name"]
    return {"expr": judge_expr, "stmts": judge_stmts, "dialect": judge_dialect}[case["kind"]](case, obs)


def judge_expr(case, obs):
    import mcpyrate.splicing as S
    from mcpyrate.markers import ASTMarker
    rng = random.Random(case["seed"])
    tag = case["tag"]
    mod = ast.parse(case["template"])
    rename_tag(mod, tag)
    for _ in range(rng.randint(1, 4)):
        slots = expr_slots(mod, [])
        if not slots:
            return None
        s = rng.choice(slots)
        if isinstance(get(s), ast.Name) and get(s).id == tag:
            continue
        name = ast.Name(id=tag)
        if rng.random() < 0.7:
            name.ctx = ast.Load()
        if rng.random() < 0.7:
            ast.copy_location(name, get(s))
        put(s, ASTMarker(name) if rng.random() < 0.1 else name)
    for n in list(ast.walk(mod)):   # the tag elsewhere (not a Name) must stay
        if isinstance(n, ast.Attribute) and rng.random() < 0.2:
            n.attr = tag
        if isinstance(n, ast.arg) and rng.random() < 0.2:
            n.arg = tag
        if isinstance(n, ast.keyword) and n.arg and rng.random() < 0.2:
            n.arg = tag
    expr = ast.parse(case["body"], mode="eval").body
    if rng.random() < 0.3:   # the code may use the tag as an ordinary name
        expr = ast.Tuple(elts=[expr, ast.Name(id=tag, ctx=ast.Load())], ctx=ast.Load())
    if rng.random() < 0.15:
        expr = ASTMarker(expr)
    form = rng.choice(["module", "list", "expr"])
    template = mod if form == "module" else mod.body if form == "list" else (mod.body[0].value if isinstance(mod.body[0], ast.Expr) else mod.body[0])
    before = snap(template)
    want = copy.deepcopy(expr)
    esnap = snap(expr)
    orig = ids(expr)
    out = S.splice_expression(expr, template, tag) if tag != "__paste_here__" or rng.random() < 0.5 else S.splice_expression(expr, template)
    state = {"n": 0, "seen": set()}

    def paste(got, path):
        state["n"] += 1
        if state["n"] == 1:
            expect(got is expr, "first-not-original", lambda: f"{path}: the first paste point does not have the given object")
        else:
            independent_copy(got, orig, state["seen"], path)
            obs.count("copies")
        same(want, got, "spliced-wrong", path)
    def ismark(s):
        return s[1] is ast.Name and ("id", (None, str, tag)) in [(f, v) for f, v in s[2] if f == "id"]
    Cmp(ismark, paste, False).one(before, out, "template")
    if state["n"]:
        Cmp(lambda s: False, None, False).one(esnap, expr, "expr")
    obs.count("expr")
    return "e" + fw.hash_((case["template"], case["body"], case["seed"]))


def judge_stmts(case, obs):
    import mcpyrate.splicing as S
    rng = random.Random(case["seed"])
    tag = case["tag"]
    mod = ast.parse(case["template"])
    rename_tag(mod, tag)
    for _ in range(rng.randint(1, 4)):
        lst = rng.choice(stmt_lists(mod, []))
        k = rng.randrange(len(lst) + 1)
        mark = ast.Expr(value=ast.Name(id=tag, ctx=ast.Load()))
        if k < len(lst) and rng.random() < 0.5:
            lst[k] = ast.copy_location(mark, lst[k])
        else:
            lst.insert(k, mark)
    slots = [s for s in expr_slots(mod, []) if not isinstance(s[0], ast.Expr)]
    if slots and rng.random() < 0.4:   # in an expression position it is an ordinary name
        put(rng.choice(slots), ast.Name(id=tag, ctx=ast.Load()))
    body = ast.parse(case["body"]).body
    if rng.random() < 0.3:
        body.insert(rng.randint(0, len(body)), ast.Expr(value=ast.Name(id=tag, ctx=ast.Load())))
    single = rng.random() < 0.2
    if single:
        body = body[:1]
    form = rng.choice(["list", "list", "one"])
    if form == "one":
        mod.body = [s for s in mod.body if any(isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id == tag for n in ast.walk(s))][:1] or mod.body[:1]
    before = snap(mod.body)
    bsnap = snap(body)
    want = copy.deepcopy(body)
    orig = ids(body)
    out = S.splice_statements(body[0] if single else body, mod.body[0] if form == "one" else mod.body, tag)
    state = {"n": 0, "seen": set()}

    def paste(got, path):
        state["n"] += 1
        expect(len(got) >= len(want), "template-lost", lambda: f"{path}: {len(got)} statements left, {len(want)} were to be spliced")
        for k, w in enumerate(want):
            if state["n"] == 1:
                expect(got[k] is bsnap[k][0], "first-not-original", lambda: f"{path}+{k}")
            same(w, got[k], "spliced-wrong", f"{path}+{k}")
        if state["n"] > 1:
            independent_copy(got[:len(want)], orig, state["seen"], path)
            obs.count("copies")
        return len(want)

    def ismark(s):
        if s[1] is not ast.Expr:
            return False
        v = dict(s[2])["value"]
        return v[1] is ast.Name and dict(v[2])["id"] == (None, str, tag)
    Cmp(ismark, paste, True).one(before, out, "template")
    if state["n"]:
        Cmp(lambda s: False, None, True).one(bsnap, body, "body")
    obs.count("stmts")
    return "s" + fw.hash_((case["template"], case["body"], case["seed"]))


# ------------------------------------------------------------------ dialects
def isimp(s, magic):
    return isinstance(s, ast.ImportFrom) and s.names[0].name == magic and s.names[0].asname is None


def isfut(s):
    return isinstance(s, ast.ImportFrom) and s.level == 0 and s.module == "__future__"


def split(stmts):
    """doc, futures, __all__s, dialect imports, macro imports, rest -- own implementation, on a fresh tree."""
    doc, fut, alls, di, mi, emptied = [], [], [], [], [], [0]
    stmts = list(stmts)
    if stmts and isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant) and type(stmts[0].value.value) is str:
        doc = [stmts.pop(0)]
    while stmts and isfut(stmts[0]):
        fut.append(stmts.pop(0))
    rest = []
    for s in stmts:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__":
            alls.append(s)
        else:
            rest.append(s)

    def take(lst):
        out = []
        for s in lst:
            if isimp(s, "dialects"):
                di.append(s)
            elif isimp(s, "macros"):
                mi.append(s)
            else:
                sub(s)
                out.append(s)
        return out

    def sub(s):
        for f in s._fields:
            v = getattr(s, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                new = take(v)
                if not new and f in ("body", "finalbody"):
                    emptied[0] += 1
                    new = [ast.Pass()]
                setattr(s, f, new)
            elif isinstance(v, list):
                for e in v:
                    if isinstance(e, ast.AST):
                        sub(e)
    return doc, fut, alls, di, mi, take(rest), emptied[0]


def paste_into(stmts, body, tag):
    out = []
    for s in stmts:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Name) and s.value.id == tag:
            out.extend(body)
            continue
        def sub(n):
            for f in n._fields:
                v = getattr(n, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(n, f, paste_into(v, body, tag))
                elif isinstance(v, list):
                    for e in v:
                        if isinstance(e, ast.AST):
                            sub(e)
        sub(s)
        out.append(s)
    return out


def strip_positions(tree):
    for n in ast.walk(tree):
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            if hasattr(n, a):
                delattr(n, a)


def judge_dialect(case, obs):
    import mcpyrate.splicing as S
    rng = random.Random(case["seed"])
    tag = case["tag"]
    try:
        tmod = ast.parse(case["template"])
        bmod = ast.parse("\n" * rng.choice([0, 0, 3, 50]) + case["body"])
    except SyntaxError:
        return None
    if not bmod.body or not tmod.body:
        return None
    td, tf, ta, tdi, tmi, trest, te = split(ast.parse(case["template"]).body)
    bd, bf, ba, bdi, bmi, brest, be = split(ast.parse(case["body"]).body)
    if te or be:
        obs.count("emptied-suites")
    nested = [s for m in (tmod, bmod) for n in ast.walk(m) if n is not m for f in n._fields for s in (getattr(n, f) if isinstance(getattr(n, f, None), list) else ()) if isinstance(s, ast.stmt) and (isimp(s, "macros") or isimp(s, "dialects"))]
    if nested:
        obs.count("nested-imports")
    doc = td or bd
    if td and bd:
        doc = [ast.Expr(value=ast.Constant(value=bd[0].value.value + "\n" + "-" * 79 + "\n" + td[0].value.value))]
    elif bd:
        doc = bd
    tail = brest or [ast.Pass()]
    want = doc + tf + bf + ba + tdi + bdi + tmi + bmi + (paste_into(trest, tail, tag) if trest else tail)

    if rng.random() < 0.5:
        strip_positions(tmod)
    kw = {}
    first = bmod.body[0]
    at = (first.lineno, first.col_offset)
    r = rng.random()
    if r < 0.5:
        at = (rng.randint(1, 100), rng.randint(0, 20))
        kw = dict(lineno=at[0], col_offset=at[1])
    elif r < 0.6:
        kw = rng.choice([dict(lineno=7), dict(col_offset=3), dict(lineno=None, col_offset=None)])
    body, template = list(bmod.body), list(tmod.body)
    tnodes = [n for n in ast.walk(tmod) if hasattr(type(n), "_attributes") and "lineno" in n._attributes]
    bnodes = [(n, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset) for n in ast.walk(bmod) if "lineno" in n._attributes]
    single_b = len(body) == 1 and rng.random() < 0.5
    single_t = len(template) == 1 and rng.random() < 0.5
    if tag != "__paste_here__":
        kw["tag"] = tag
    out = S.splice_dialect(body[0] if single_b else body, template[0] if single_t else template, **kw)
    what = lambda: f"\n--body--\n{case['body']}\n--template--\n{case['template']}\n--result--\n{unparse(out)}\n--expected--\n{unparse(want)}"
    expect(isinstance(out, list), "not-a-list", lambda: brief(repr(out)))
    d = asteq.firstdiff(ast.Module(body=want, type_ignores=[]), ast.Module(body=out, type_ignores=[]))
    expect(d is None, "dialect-module", lambda: f"{d}{what()}")
    # the user's code is the user's nodes (at the first paste point), with their own positions
    for n, *pos in bnodes:
        expect([n.lineno, n.col_offset, n.end_lineno, n.end_col_offset] == pos, "body-position", lambda: f"{asteq.safe_dump(n)}: {pos} -> {[n.lineno, n.col_offset]}{what()}")
    loose = set()
    if bf:   # Python wants the future-imports in line order
        loose = {id(n) for s in tmod.body if isfut(s) for n in ast.walk(s)}
    for n in tnodes:
        if id(n) in loose:
            continue
        expect((n.lineno, n.col_offset) == at, "template-position", lambda: f"{asteq.safe_dump(n)} is at {(n.lineno, n.col_offset)}, want {at}{what()}")
    for s in out:
        for n in ast.walk(s):
            if "lineno" in n._attributes:
                expect(hasattr(n, "lineno") and hasattr(n, "col_offset"), "no-position", lambda: f"{asteq.safe_dump(n)}{what()}")
    # it must be as compilable as what was expected
    ref = ast.fix_missing_locations(ast.Module(body=copy.deepcopy(want), type_ignores=[]))
    for n in ast.walk(ref):
        if "lineno" in n._attributes:
            n.lineno = n.end_lineno = 1
            n.col_offset = n.end_col_offset = 0
    if compiles(ref) is None:
        e = compiles(ast.Module(body=out, type_ignores=[]))
        expect(e is None, "does-not-compile", lambda: f"{e}{what()}")
        obs.count("compiled")
    obs.count("dialect")
    obs.see("layout", f"{len(td)}{len(tf)}{len(ta)}{len(tdi)}{len(tmi)}/{len(bd)}{len(bf)}{len(ba)}{len(bdi)}{len(bmi)}")
    return "d" + fw.hash_((case["template"], case["body"], case["seed"]))


def compiles(mod):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            compile(mod, "x", "exec")
    except Exception as e:
        return e


def unparse(stmts):
    try:
        return ast.unparse(ast.fix_missing_locations(ast.Module(body=copy.deepcopy(stmts), type_ignores=[])))
    except Exception as e:
        return repr(e)


# ------------------------------------------------------------------ special cases
def _raises(fn, exc, what):
    try:
        r = fn()
    except exc:
        return
    raise fw.Violation("not-rejected", f"{what}: returned {r!r}")


def sp_types():
    import mcpyrate.splicing as S
    e = ast.parse("x", mode="eval").body
    t = ast.parse("__paste_here__").body
    for bad in (1, "x", None, [e], ast.parse("x"), ast.parse("x").body[0], ast.Load()):
        _raises(lambda: S.splice_expression(bad, ast.parse("__paste_here__").body), TypeError, f"expr={bad!r}")
    for bad in (1, "__paste_here__", (1,), {"a": 1}):
        _raises(lambda: S.splice_expression(e, bad), TypeError, f"template={bad!r}")
    for empty in ([], None):
        expect(S.splice_expression(e, empty) is e, "empty-template")
        b = ast.parse("x; y").body
        expect(S.splice_statements(b, empty) == b, "empty-template")
        expect(S.splice_dialect(b, empty) == b, "empty-template")
    for fn in (S.splice_statements, S.splice_dialect):
        for empty in ([], None):
            _raises(lambda: fn(empty, ast.parse("__paste_here__").body), ValueError, f"{fn.__name__} body={empty!r}")
    del t


def sp_none_in_list():
    """The first paste point is the spliced object also when the template is the marker itself."""
    import mcpyrate.splicing as S
    e = ast.parse("x + 1", mode="eval").body
    out = S.splice_expression(e, ast.Name(id="__paste_here__", ctx=ast.Load()))
    expect(out is e, "marker-itself", lambda: repr(out))
    b = ast.parse("x; y").body
    out = S.splice_statements(b, ast.parse("__paste_here__").body[0])
    expect(out == b, "marker-itself", lambda: repr(out))


def sp_no_marker():
    import mcpyrate.splicing as S
    e = ast.parse("x + 1", mode="eval").body
    src = "def f(a, __paste_here=1): return __paste_here__x"
    for fn, b in ((S.splice_expression, e), (S.splice_statements, [ast.Expr(e)])):
        t = ast.parse(src).body
        out = fn(b, t)
        same(ast.parse(src).body[0], out[0], "no-marker", fn.__name__)


SPECIAL = {"types": sp_types, "marker-itself": sp_none_in_list, "no-marker": sp_no_marker}
