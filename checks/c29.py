"""C29: the statement and identifier utilities against reference models."""
import ast
import os
import random
import re
import sys
import threading
import types
import uuid

import fw
import pygen
from fw import brief, expect

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "random inputs and call histories (with adversarial uuid sources, exceptional exits, random sys.path layouts) through the public utilities; each result compared with a small reference model"
LEVEL_NOTE = "gensym/scrub_uuid, flatten, getdocstring, future-import splitting and injection, get_lineno, markers, nesting-level tracking, package-path helpers, import predicates, macro-call destructuring."
RULE = "Random modules, nested lists, context-manager histories with exceptions, directory layouts with sibling-prefix and nested sys.path entries. Distinct by input."
QUICK = dict(n=30000, secs=10)
THOROUGH = dict(n=800000, secs=240)
MIN = {"gensym": 2000, "split": 300, "tracker-steps": 2000, "paths": 500, "flatten": 300, "markers": 200, "fixed locations": 2000}
ASSUMPTIONS = ["uuid4 values are only as unique as the monitor's stand-in makes them (it repeats values on purpose)"]


def setup(scratch):
    import mcpyrate.compiler  # noqa: F401


KINDS = ["gensym", "flatten", "prologue", "lineno", "markers", "tracker", "paths", "predicates", "destructure", "scrub", "format", "bindings", "fixloc"]


def fixed(tier):
    return [{"kind": "threads", "seed": s} for s in range(4)] + [{"kind": "tracker-misuse", "seed": 0}, {"kind": "format-fixed", "seed": 0}]


def generate(rng, i):
    return {"kind": KINDS[(i // 8) % len(KINDS)], "seed": rng.randrange(10 ** 12)}


def judge(case, obs):
    r = random.Random(case["seed"])
    globals()["k_" + case["kind"].replace("-", "_")](r, obs)
    return fw.hash_((case["kind"], case["seed"]))


def raises(f, *types):
    try:
        x = f()
    except types as e:
        return e
    raise fw.Violation("no-error", f"returned {brief(x)} instead of raising {types}")


# ------------------------------------------------------------------ gensym
BASES = [None, "", "x", "kitty", "a_b", "_", "not an identifier", "é", "gensym"]
SEEN = set()


def k_gensym(r, obs):
    from mcpyrate.utils import gensym
    pool = [uuid.UUID(int=r.getrandbits(128), version=4) for _ in range(400)]
    names = 120
    fresh = iter(pool)
    issued = []

    def stub():
        if issued and r.random() < 0.4:
            return r.choice(issued[-5:])
        u = next(fresh)
        issued.append(u)
        return u
    real = uuid.uuid4
    uuid.uuid4 = stub
    try:
        bases = r.sample(BASES, r.randint(1, 3))
        for _ in range(names):
            b = r.choice(bases)
            s = gensym() if b is None and r.random() < 0.5 else gensym(b)
            obs.count("gensym")
            expect(isinstance(s, str) and s not in SEEN, "gensym-repeat", lambda: f"gensym({b!r}) returned {s} again")
            SEEN.add(s)
            prefix = "gensym_" if b is None else (b + "_" if b else "")
            expect(s.startswith(prefix) and re.fullmatch("[0-9a-f]{32}", s[len(prefix):]), "gensym-form", lambda: f"gensym({b!r}) -> {s}")
            if b is None or b.isidentifier():
                expect(s.isidentifier(), "gensym-form", s)
    finally:
        uuid.uuid4 = real
    for bad in (1, b"x", ["a"], object(), 2.5, ("a",)):
        raises(lambda: gensym(bad), TypeError)


def k_threads(r, obs):
    from mcpyrate.utils import gensym
    out = [[] for _ in range(6)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=lambda o=o: [o.append(gensym("t")) for _ in range(400)]) for o in out]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    alls = [x for o in out for x in o]
    obs.count("gensym", len(alls))
    expect(len(set(alls)) == len(alls) == 2400, "gensym-repeat", "in threads")


def k_scrub(r, obs):
    from mcpyrate.utils import gensym, scrub_uuid
    b = r.choice([x for x in BASES if x] + ["foo_bar", "a" * 40, "x_deadbeef", "q" + "f" * 32])
    s = gensym(b)
    expect(scrub_uuid(s) == b, "scrub", f"{s} -> {scrub_uuid(s)}")
    expect(scrub_uuid(gensym()) == "gensym", "scrub", "default")
    for keep in ("plain", "snake_case_name", "", "_", b + "_" + "0" * 31, b + "_" + "0" * 33, b + "_" + "g" * 32, b + "_" + "z" * 31 + "1", "0" * 32):
        expect(scrub_uuid(keep) == keep, "scrub", f"{keep} -> {scrub_uuid(keep)}")
    obs.count("scrub")


# ------------------------------------------------------------------ flatten
def k_flatten(r, obs):
    from mcpyrate.utils import flatten
    atoms = [1, 0, "", "s", False, (1, [2]), (), {}, ast.Pass(), {3}, b"x", iter(())]

    def gen(d):
        out = []
        for _ in range(r.randint(0, 4)):
            q = r.random()
            out.append(None if q < 0.2 else (gen(d - 1) if q < 0.5 and d > 0 else r.choice(atoms)))
        return out

    def ref(x):
        o = []
        for e in x:
            if isinstance(e, list):
                o += ref(e)
            elif e is not None:
                o.append(e)
        return o
    for _ in range(20):
        x = gen(4)
        snapshot = repr(x)
        form = r.randrange(3)
        got = flatten([lambda: x, lambda: tuple(x), lambda: (e for e in x)][form]())
        want = ref(x)
        obs.count("flatten")
        expect(type(got) is list and len(got) == len(want) and all(a is b for a, b in zip(got, want)), "flatten", lambda: f"{x} -> {got}")
        expect(repr(x) == snapshot, "flatten-mutates", repr(x))
        one = flatten(x, recursive=False)
        w1 = [y for e in x for y in (e if isinstance(e, list) else ([] if e is None else [e]))]
        expect(len(one) == len(w1) and all(a is b for a, b in zip(one, w1)), "flatten-shallow", lambda: f"{x} -> {one}")


# ------------------------------------------------------------------ module prologue
def module(r):
    parts = []
    q = r.random()
    if q < 0.5:
        parts.append(r.choice(['"doc"', "'''multi\nline'''", '""', "('par' 'en')", "u'u'", "r'\\x'"]))
    elif q < 0.8:
        parts.append(r.choice(['f"doc"', 'b"doc"', '"a" + "b"', "42", "...", '"doc".x', "None", '("a",)', 'f""', "x = 'doc'"]))
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        parts.append(r.choice(["from __future__ import annotations", "from __future__ import division, generators", "from __future__ import annotations as a"]))
    if r.random() < 0.2:
        parts.append(r.choice(["'not doc'", "import __future__", "from .__future__ import x", "from .. import __future__", "from __future import y", "from x.__future__ import z", "pass", "from ..__future__ import q"]))
    for _ in range(r.randint(0, 4)):
        parts.append(r.choice(["x = 1", "'string'", "def f(): pass", "import os", "from __future__ import annotations", "from .__future__ import w", "class A:\n    'adoc'"]))
    return "\n".join(parts)


def ref_split(body):
    doc = []
    rest = list(body)
    if rest and isinstance(rest[0], ast.Expr) and isinstance(rest[0].value, ast.Constant) and isinstance(rest[0].value.value, str):
        doc = [rest.pop(0)]
    fut = []
    while rest and isinstance(rest[0], ast.ImportFrom) and rest[0].module == "__future__" and rest[0].level == 0:
        fut.append(rest.pop(0))
    return doc, fut, rest


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def k_prologue(r, obs):
    from mcpyrate.coreutils import inject_after_futureimports, isfutureimport, split_futureimports
    from mcpyrate.utils import getdocstring
    for _ in range(10):
        src = module(r)
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        body = tree.body
        keep = list(body)
        dump = ast.dump(tree)
        expect(getdocstring(body) == ast.get_docstring(tree, clean=False), "docstring", lambda: f"{getdocstring(body)!r}\n{src}")
        for s in body:
            if isinstance(s, ast.ClassDef):
                expect(getdocstring(s.body) == ast.get_docstring(s, clean=False), "docstring", src)
        doc, fut, rest = split_futureimports(body)
        rd, rf, rr = ref_split(body)
        obs.count("split")
        expect(same(doc, rd) and same(fut, rf) and same(rest, rr) and all(type(x) is list for x in (doc, fut, rest)), "split", lambda: f"{[ast.unparse(x) for x in (doc, fut, rest)]}\n{src}")
        expect(same(body, keep), "split-mutates", src)
        for s in body:
            expect(isfutureimport(s) == (isinstance(s, ast.ImportFrom) and s.module == "__future__" and s.level == 0), "isfutureimport", lambda: ast.unparse(s))
        new = [ast.parse(f"new{k} = {k}").body[0] for k in range(r.randint(0, 3))]
        arg = new[0] if len(new) == 1 and r.random() < 0.5 else list(new)
        got = inject_after_futureimports(arg, body)
        expect(arg is new[0] if not isinstance(arg, list) else same(arg, new), "inject-mutates", lambda: f"the statements given: {arg}\n{src}")
        expect(same(got, rd + rf + new + rr), "inject", lambda: f"{[ast.unparse(x) for x in got]}\n{src}")
        expect(same(body, keep) and ast.dump(tree) == dump, "inject-mutates", src)
    expect(getdocstring([]) is None and getdocstring(None) is None, "docstring", "empty")
    raises(lambda: getdocstring(ast.parse("'x'")), TypeError)
    raises(lambda: inject_after_futureimports("x = 1", body), TypeError)
    raises(lambda: inject_after_futureimports([], tuple(body)), TypeError)


# ------------------------------------------------------------------ line numbers, markers
def k_lineno(r, obs):
    from mcpyrate.markers import ASTMarker
    from mcpyrate.utils import get_lineno
    g = pygen.Gen(r, depth=2)
    src = g.compilable(r.randint(1, 2), 1)
    if not src:
        return
    tree = ast.parse("\n" * r.randint(0, 5) + src)
    p = r.choice([0, 0.5, 0.9, 1])
    for n in list(ast.walk(tree)):
        if "lineno" in n._attributes and r.random() < p:
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                n.__dict__.pop(a, None)

    def ref(x):
        if isinstance(x, list):
            for e in x:
                v = ref(e)
                if v is not None:
                    return v
            return None
        if isinstance(x, ast.AST):
            if "lineno" in x.__dict__:
                return x.lineno
            for f in x._fields:
                v = ref(getattr(x, f, None))
                if v is not None:
                    return v
        return None
    nodes = list(ast.walk(tree))
    for n in nodes + [x.body for x in nodes if isinstance(getattr(x, "body", None), list)]:
        obs.count("lineno")
        want = ref(n)
        expect(get_lineno(n) == want, "get_lineno", lambda: f"{get_lineno(n)} != {want} for {brief(ast.dump(n) if isinstance(n, ast.AST) else n)}")
        expect(get_lineno(ASTMarker(n)) == want, "get_lineno", "in a marker")
        expect(get_lineno(ASTMarker(ASTMarker([n]))) == want, "get_lineno", "in nested markers")
    expect(get_lineno(None) is None and get_lineno([]) is None and get_lineno(ast.Load()) is None, "get_lineno", "nothing")


def k_markers(r, obs):
    from mcpyrate.core import Done, MacroExpanderMarker, MacroExpansionError
    from mcpyrate.markers import ASTMarker, check_no_markers_remaining, delete_markers, get_markers

    class MineA(ASTMarker):
        pass

    class MineB(MineA):
        pass

    class Two(ASTMarker):
        def __init__(self, body=None, other=None):
            super().__init__(body)
            self.other = other
            self._fields += ["other"]
    g = pygen.Gen(r, depth=2)
    src = g.compilable(r.randint(1, 2), r.randint(0, 2))
    if not src:
        return
    tree = ast.parse(src)
    original = ast.dump(ast.parse(src), include_attributes=True)
    classes = [MineA, MineB, Done, MacroExpanderMarker, ASTMarker]
    placed = []
    prob = r.choice([0, 0.05, 0.3])

    class Put(ast.NodeTransformer):
        def visit(self, node):
            node = self.generic_visit(node)
            if isinstance(node, (ast.expr, ast.stmt)) and r.random() < prob:
                m = r.choice(classes)(node)
                placed.append(m)
                if r.random() < 0.2:
                    m = r.choice(classes)(m)
                    placed.append(m)
                return m
            return node
    tree = Put().visit(tree)
    if r.random() < 0.3 and len(tree.body) > 1:
        m = r.choice(classes)(tree.body[:])
        placed.append(m)
        tree.body = [m]
    for cls in classes:
        want = [m for m in placed if isinstance(m, cls)]
        got = get_markers(tree, cls)
        obs.count("markers")
        expect(len(got) == len(want) and {id(x) for x in got} == {id(x) for x in want}, "get_markers", lambda: f"{cls}: {got} != {want}\n{src}")
    expect(len(get_markers(tree)) == len(placed), "get_markers", "default class")
    for cls in classes + [None]:
        want = [m for m in placed if isinstance(m, cls or ASTMarker)]
        f = lambda: check_no_markers_remaining(tree, filename="some/file.py", cls=cls)  # noqa: E731
        if want:
            e = raises(f, MacroExpansionError)
            expect("some/file.py" in str(e), "markers-report", str(e))
            text = str(e)
            entries = text.count('some/file.py') - 1   # (the heading)
            expect(entries == len(want), "markers-report-all", lambda: f"{entries} reported, {len(want)} remain\n{text}")
        else:
            f()
    cls = r.choice([MineB, Done])
    tree = delete_markers(tree, cls=cls)
    left = [m for m in placed if not isinstance(m, cls)]
    got = get_markers(tree)
    expect({id(x) for x in got} == {id(x) for x in left}, "delete_markers", lambda: f"{cls} deleted, left {got}\n{src}")
    tree = delete_markers(tree)
    if isinstance(tree, ast.Module):
        expect(ast.dump(tree, include_attributes=True) == original, "delete_markers", lambda: f"tree differs\n{src}")
    suite = [Done(ast.parse("x").body[0]), MineA([ast.parse("y").body[0], Done(ast.parse("z").body[0])])]
    out = delete_markers(suite)
    expect([ast.unparse(s) for s in out] == ["x", "y", "z"], "delete_markers", "suite")
    m = MineA(ast.Name(id="x"))
    expect(list(ast.iter_fields(m)) == [("body", m.body)] and isinstance(m, ast.AST), "marker-fields", "")


# ------------------------------------------------------------------ nesting levels
class Boom(BaseException):
    pass


def k_tracker(r, obs):
    from mcpyrate.utils import NestingLevelTracker
    start = r.choice([0, 0, 1, 7])
    t = NestingLevelTracker(start) if start or r.random() < 0.5 else NestingLevelTracker()
    hist = []

    def chk(want):
        expect(t.value == want, "level", lambda: f"level {t.value}, expected {want}\n{hist}")

    def step(level, d):
        obs.count("tracker-steps")
        chk(level)
        for _ in range(r.randint(0, 3)):
            q = r.randrange(7)
            if q == 0:
                n = r.randint(0, 5)
                cm, new = t.set_to(n), n
            elif q == 1:
                cm, new = t.changed_by(+1), level + 1
            elif q == 2 and level:
                dlt = -r.randint(1, level)
                cm, new = t.changed_by(dlt), level + dlt
            elif q == 3:
                bad = r.choice([-1, -5, 2.5, "1", None])
                raises(lambda: t.set_to(bad), TypeError, ValueError)
                chk(level)
                continue
            elif q == 4:
                raises(lambda: t.changed_by(-level - 1), ValueError)
                chk(level)
                continue
            elif q == 5:
                try:
                    t.value = 3
                except AttributeError:
                    pass
                else:
                    raise fw.Violation("level-writable", "value is documented as read-only")
                continue
            else:
                cm, new = t.changed_by(0), level
            hist.append((level, new))
            mode = r.randrange(5)
            try:
                with cm:
                    chk(new)
                    if d:
                        step(new, d - 1)
                    chk(new)
                    if mode == 0:
                        raise Boom
                    if mode == 1:
                        raise ValueError
            except (Boom, ValueError):
                pass
            chk(level)
        if r.random() < 0.1:
            raise Boom
    try:
        step(start, 4)
    except Boom:
        pass
    chk(start)
    # independent trackers do not share levels
    u = NestingLevelTracker()
    with t.set_to(3):
        expect(u.value == 0, "level-shared", "two trackers")

    def gen():
        with t.changed_by(+2):
            yield t.value
    x = gen()
    expect(next(x) == start + 2, "level", "generator")
    x.close()
    chk(start)


def k_tracker_misuse(r, obs):
    from mcpyrate.utils import NestingLevelTracker
    t = NestingLevelTracker()
    for bad, ty in ((-1, ValueError), (1.0, TypeError), ("1", TypeError), (None, TypeError)):
        raises(lambda: t.set_to(bad), ty)
    raises(lambda: t.changed_by(-1), ValueError)
    with t.set_to(2):
        with t.changed_by(-2):
            expect(t.value == 0, "level", "0")
        expect(t.value == 2, "level", "2")
    expect(t.value == 0, "level", "0")


# ------------------------------------------------------------------ paths
def k_paths(r, obs):
    import pathlib
    from mcpyrate.coreutils import match_syspath, relativize, resolve_package
    base = os.path.realpath(os.path.join(fw.SCRATCH, "paths"))
    names = ["a", "ab", "a.b", "b", "lib", "lib2", "l"]
    dirs = [base]
    for _ in range(r.randint(2, 7)):
        dirs.append(os.path.join(r.choice(dirs), r.choice(names)))
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    entries = r.sample(dirs, r.randint(1, min(4, len(dirs))))
    cwd = os.getcwd()
    saved = sys.path[:]
    here = r.choice(dirs)
    link = os.path.join(fw.SCRATCH, "plink")
    try:
        os.chdir(here)
        spelled = []
        for e in entries:
            f = r.randrange(6)
            if f == 0:
                e = e + os.sep
            elif f == 1:
                e = os.path.relpath(e)
            elif f == 2:
                e = os.path.join(e, "..", os.path.basename(e))
            elif f == 3 and r.random() < 0.5:
                if os.path.lexists(link):
                    os.unlink(link)
                os.symlink(e, link)
                e = link
            spelled.append(e)
        if r.random() < 0.3:
            spelled.append("")
        if r.random() < 0.2:
            spelled.insert(r.randint(0, len(spelled)), os.sep)
        under = lambda t, x: t == x or t.startswith(x.rstrip(os.sep) + os.sep)  # noqa: E731
        sys.path[:] = spelled
        roots = {os.path.realpath(e or here) for e in spelled}
        targets = [os.path.join(d, f) for d in dirs for f in ("m.py", "not yet.py")] + dirs + ["/nonexistent-root/x/y.py"]
        for t in r.sample(targets, min(6, len(targets))):
            cands = [x for x in roots if under(t, x)]
            want = max(cands, key=len) if cands else None
            spelling = os.path.relpath(t) if r.random() < 0.3 else t
            obs.count("paths")
            show = lambda: f"{spelling} (cwd {here}, sys.path {spelled})"  # noqa: E731
            if want is None:
                raises(lambda: match_syspath(spelling), ValueError)
                raises(lambda: relativize(spelling), ValueError)
            else:
                got = match_syspath(spelling)
                expect(isinstance(got, pathlib.Path) and str(got) == want, "match_syspath", lambda: f"{got} != {want}: {show()}")
                root, rel = relativize(spelling)
                w = os.path.relpath(t, want)
                expect(str(root) == want and rel == ("" if w == "." else w), "relativize", lambda: f"{root} {rel!r}: {show()}")
            if t.endswith(".py"):
                d = os.path.dirname(t)
                cands = [x for x in roots if under(d, x)]
                want = max(cands, key=len) if cands else None
                if want is None:
                    raises(lambda: resolve_package(spelling), ValueError)
                elif want == d:
                    raises(lambda: resolve_package(spelling), ImportError)
                else:
                    got = resolve_package(spelling)
                    expect(got == os.path.relpath(d, want).replace(os.sep, "."), "resolve_package", lambda: f"{got}: {show()}")
    finally:
        os.chdir(cwd)
        sys.path[:] = saved
        if os.path.lexists(link):
            os.unlink(link)


# ------------------------------------------------------------------ predicates, macro calls
def k_predicates(r, obs):
    from mcpyrate.coreutils import ismacroimport
    mod = r.choice(["m", ".m", "a.b", "..", ".", "__self__"])
    names = r.sample(["macros", "dialects", "foo", "bar", "macros as m", "dialects as d", "foo as macros"], r.randint(1, 4))
    s = ast.parse(f"from {mod} import {', '.join(names)}").body[0]
    for magic in ("macros", "dialects", "foo"):
        got = ismacroimport(s, magic) if magic != "macros" or r.random() < 0.5 else ismacroimport(s)
        expect(got is (names[0] == magic) or got == (names[0] == magic), "ismacroimport", f"{magic}: {got} {ast.unparse(s)}")
    for other in ("import macros", "macros", "x = 1", "from m import *", "import macros as macros"):
        expect(not ismacroimport(ast.parse(other).body[0]), "ismacroimport", other)
    obs.count("predicates")


def k_destructure(r, obs):
    import mcpyrate.expander as E
    f = getattr(E, "destructure_candidate", None)
    if f is None:
        return
    args = r.sample(["a", "1", "(x, y)", "f(x)", "[1, 2]", "lambda: 0", "m[z]", "a + b"], r.randint(1, 4))
    name = r.choice(["m", "name", "é"])
    for form in (f"{name}[{', '.join(args)}]", f"{name}({', '.join(args)})", name):
        t = ast.parse(form, mode="eval").body
        n, a = f(t, filename="x.py")
        want = [] if form == name else args
        if form == f"{name}[(x, y)]":
            want = ["x", "y"]     # no difference in the AST
        expect(n == name and isinstance(a, list) and [ast.dump(x) for x in a] == [ast.dump(ast.parse(w, mode="eval").body) for w in want], "destructure", lambda: f"{form}: {n} {a}")
        obs.count("destructure")
    for form in ("m.a[x]", "m.a(x)", "m[a][b]", "m(a)(b)", "m(a, k=1)", "m(**k)", "1", "(m, n)", "f(x).m", "m + n", "lambda: m", "m[a].b"):
        expect(f(ast.parse(form, mode="eval").body, filename="x.py") == (None, None), "destructure", form)
    for form in ("m()", "m(*a)", "m(a, *b)"):
        e = raises(lambda: f(ast.parse(form, mode="eval").body, filename="some/x.py"), SyntaxError)
        expect("some/x.py" in str(e), "destructure", str(e))


# ------------------------------------------------------------------ formatting
ANSI = re.compile("\x1b\\[[0-9;]*m")


def k_format(r, obs):
    from mcpyrate.utils import format_context, format_location
    g = pygen.Gen(r, depth=2)
    src = g.compilable(r.randint(1, 2), r.randint(0, 2))
    if not src:
        return
    tree = ast.parse("\n" * r.randint(0, 9) + src)
    s = r.choice(tree.body)
    code = r.choice(["one line", "two\nlines", None, ""])
    got = ANSI.sub("", format_location("/path/to/f.py", s, code))
    want = f"/path/to/f.py:{s.lineno}:" + ("" if not code else (" " if "\n" not in code else "\n") + code)
    expect(got == want, "format_location", f"{got!r} != {want!r}")
    from mcpyrate.unparser import unparse_with_fallbacks
    n = r.randint(1, 6)
    full = unparse_with_fallbacks(s, debug=True, color=False).split("\n")
    got = ANSI.sub("", format_context(s, n=n)).split("\n")
    expect(got == full[:n] + (["..."] if len(full) > n else []), "format_context", lambda: f"{got}\n{full}")
    obs.count("format")


def k_format_fixed(r, obs):
    from mcpyrate.utils import format_macrofunction

    class K:
        def meth(self):
            pass
    expect(format_macrofunction(K.meth) == f"{__name__}.k_format_fixed.<locals>.K.meth", "format_macrofunction", format_macrofunction(K.meth))
    expect(format_macrofunction(len) == "builtins.len", "format_macrofunction", "len")
    expect(format_macrofunction(os) == repr(os), "format_macrofunction", "module")

    def rep():
        pass
    rep.__module__ = None
    expect(format_macrofunction(rep) == rep.__qualname__, "format_macrofunction", "no module")


def k_bindings(r, obs):
    from mcpyrate.utils import extract_bindings
    fs = [types.FunctionType((lambda: 0).__code__, {}, f"f{k}") for k in range(5)]
    for f in fs:
        f.__qualname__ = f.__name__ = r.choice([f.__name__, "f0"])    # like-named functions of different modules
    b = {f"n{k}": r.choice(fs) for k in range(r.randint(0, 8))}
    pick = r.sample(fs, r.randint(0, 3))
    keep = dict(b)
    got = extract_bindings(b, *pick)
    expect(got == {k: v for k, v in b.items() if v in pick} and list(got) == [k for k in b if b[k] in pick], "extract_bindings", lambda: f"{got}")
    expect(b == keep and got is not b, "extract_bindings", "modified its input")
    obs.count("bindings")


# ------------------------------------------------------------------ source locations
POS = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def k_fixloc(r, obs):
    """fix_locations against the documented meaning of its modes."""
    from mcpyrate.astfixers import fix_locations
    g = pygen.Gen(r, depth=r.choice([1, 2, 3]))
    src = g.compilable(r.randint(1, 3), r.choice([0, 1]))
    if not src:
        return
    mode = r.choice(["reference", "update", "overwrite"])
    tree = ast.parse(src)
    target = r.choice([tree, tree.body, tree.body[0], [None, *tree.body]])
    bare = r.choice([0, .1, .5, 1])
    for n in ast.walk(tree):
        if "lineno" in n._attributes and r.random() < bare:
            for a in POS:
                delattr(n, a)
        elif "lineno" in n._attributes and r.random() < .1:
            del n.end_lineno, n.end_col_offset
    kind = r.choice(["full", "full", "noend", "none", "line", "marker"])
    ref = ast.Name(id="ref", ctx=ast.Load())
    if kind != "none":
        ref.lineno = r.randint(1000, 2000)
        if kind != "line":
            ref.col_offset = r.randint(0, 99)
        if kind == "full":
            ref.end_lineno, ref.end_col_offset = ref.lineno + r.randint(0, 3), ref.col_offset + r.randint(1, 9)
    usable = kind not in ("none", "line")
    nodes = [(n, tuple(getattr(n, a, None) for a in POS)) for n in ast.walk(tree)]
    want = {}

    def walk(n, pos):
        """The documented position of each node."""
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                walk(x, pos)
            return
        if "lineno" in n._attributes:
            own = tuple(getattr(n, a, None) for a in POS[:2])
            if mode == "overwrite" or own[0] is None:
                own = pos
            want[id(n)] = own
            if mode == "update":
                pos = own
        for x in ast.iter_child_nodes(n):
            walk(x, pos)
    if usable:
        walk(target, (ref.lineno, ref.col_offset))
    text = ast.dump(tree)
    out = fix_locations(target, ref, mode=mode)
    show = lambda: f"mode {mode}, reference {kind} {[getattr(ref, a, None) for a in POS]}\n{brief(src, 1500)}"   # noqa: E731
    expect(out is target, "fix-locations", lambda: "not in place\n" + show())
    expect(ast.dump(tree) == text, "fix-locations", lambda: "changed the tree\n" + show())
    for n, old in nodes:
        now = tuple(getattr(n, a, None) for a in POS)
        w = want.get(id(n))
        if w is None:
            expect(now == old, "fix-locations", lambda: f"{ast.dump(n)}: was at {old}, now at {now}\n{show()}")
            continue
        obs.count("fixed locations")
        expect(now[:2] == w, "fix-locations", lambda: f"{ast.dump(n)}: at {now[:2]}, expected {w}\n{show()}")
        expect(None not in now, "fix-locations", lambda: f"{ast.dump(n)}: no end position {now}\n{show()}")
        if mode != "overwrite" and None not in old:
            expect(now == old, "fix-locations", lambda: f"{ast.dump(n)}: was at {old}, now at {now}\n{show()}")
        if mode == "overwrite" and kind == "full":
            expect(now == tuple(getattr(ref, a) for a in POS), "fix-locations", lambda: f"{ast.dump(n)}: at {now}\n{show()}")
