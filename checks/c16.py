"""C16: running code at run time is the same as importing the same code as a module."""
import ast
import builtins
import copy
import importlib
import importlib.machinery
import importlib.util
import os
import py_compile
import re
import sys
import tempfile
import types

import codecmp
import fw
from fw import brief, expect

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "random macro-enabled, dialect-enabled and multi-phase programs that record everything they do are imported from a file by the real import system, and run in every documented run-time form (text, bytes, AST, statement list, code object, expanded AST; new, named, existing and auto-named modules; in pieces); event logs, macro calls, resulting namespaces down to the bytecode of functions, docstrings and failures are compared"
LEVEL_NOTE = "Positions inside functions are compared for text inputs and for AST inputs with a source file name."
RULE = "Random runnable programs of 2-12 statements with docstrings, future-imports, macros of all kinds, dialects of all three kinds, 0-3 phases, encodings, relative imports, failures. Distinct by program."
QUICK = dict(n=6000, secs=15)
THOROUGH = dict(n=200000, secs=300)
MIN = {"programs": 300, "runs compared": 3000, "log events": 8000, "macro calls": 1500, "multi-phase": 60, "dialects": 60, "pieces": 100, "failing programs": 20, "functions compared": 800, "optimize": 60, "compiled ahead": 150}
ASSUMPTIONS = ["attributes that only a module imported from a file has (__spec__, __loader__, __cached__) are not compared, and __builtins__ is not"]

SKIP = {"__spec__", "__loader__", "__cached__", "__builtins__", "__package__", "__file__", "__name__", "__path__", "_mcpyrate_coverage"}
MAC = '''
import ast, builtins
from mcpyrate import namemacro, parametricmacro
def ex(name, tree):
    builtins.LOG16(("expand", name, ast.unparse(tree) if not isinstance(tree, list) else len(tree)))
def ident(tree, **kw):
    ex("ident", tree)
    return tree
def wrap(tree, **kw):
    ex("wrap", tree)
    return ast.Call(func=ast.Name(id="LOG16", ctx=ast.Load()), args=[tree], keywords=[])
def blk(tree, **kw):
    ex("blk", tree)
    return ast.parse("LOG16('enter')").body + tree + ast.parse("LOG16('leave')").body
def deco(tree, **kw):
    ex("deco", tree)
    tree.name = tree.name + "_deco"
    return tree
@namemacro
def nm(tree, **kw):
    ex("nm", tree)
    return ast.Constant(value=77)
@parametricmacro
def par(tree, *, args, **kw):
    ex("par", tree)
    return ast.Tuple(elts=[tree, *args], ctx=ast.Load())
def drop(tree, **kw):
    ex("drop", tree)
    return None
def boom(tree, **kw):
    ex("boom", tree)
    raise ValueError("boom macro")
'''
DIA = '''
import ast, builtins
from mcpyrate.dialects import Dialect
class DSrc(Dialect):
    def transform_source(self, text):
        builtins.LOG16(("dsrc", self.lineno))
        return text.replace("@" + "@X@" + "@", "(LOG16('src') or 5)")
class DAst(Dialect):
    def transform_ast(self, tree):
        builtins.LOG16(("dast", self.lineno, len(tree.body)))
        tree.body += ast.parse("by_ast = LOG16('ast') or 6").body
        return tree
class DPost(Dialect):
    def postprocess_ast(self, tree):
        builtins.LOG16("dpost")
        tree.body += ast.parse("by_post = LOG16('post') or 7").body
        return tree
class DPre(Dialect):
    def transform_ast(self, tree):
        tree.body = ast.parse("LOG16('pre')").body + tree.body
        return tree
class DAll(DSrc, DAst, DPost):
    pass
'''
EVENTS = []
NMAC = [0]


def log(*x):
    x = x[0] if len(x) == 1 else x
    EVENTS.append(repr(x))
    if isinstance(x, tuple) and x and x[0] == "expand":
        NMAC[0] += 1


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    builtins.LOG16 = log
    for name, text in (("mcpv16_mac", MAC), ("mcpv16_dia", DIA)):
        m = types.ModuleType(name)
        sys.modules[name] = m
        exec(compile(text, f"/nonexistent/{name}.py", "exec"), m.__dict__)


def shard_setup(scratch):
    global ROOT
    ROOT = os.path.join(scratch, "root")
    os.makedirs(os.path.join(ROOT, "mcpv16_pk", "sub"), exist_ok=True)
    for f, t in (("mcpv16_pk/__init__.py", "PKV = 1\n"), ("mcpv16_pk/sub/__init__.py", ""), ("mcpv16_pk/helper.py", "hv = 31\n"), ("mcpv16_pk/pmac.py", MAC.replace('"ident"', '"pkg-ident"')), ("mcpv16_pk/pdia.py", DIA.replace('"dast"', '"pkg-dast"'))):
        with open(os.path.join(ROOT, f), "w") as h:
            h.write(t)
    sys.path.insert(0, ROOT)
    importlib.invalidate_caches()
    importlib.import_module("mcpv16_pk.sub")
    importlib.import_module("mcpv16_pk.pmac")
    importlib.import_module("mcpv16_pk.pdia")
    importlib.import_module("mcpv16_pk.helper")


# ---------------------------------------------------------------- generation
def E(rng, V, mac, d=0):
    """A runnable expression."""
    r = rng.random()
    if d > 2 or r < 0.25:
        return rng.choice([str(rng.randint(-5, 99)), repr(rng.choice(["a", "ä", "x y", ""])), "None", "True", "1.5", "b'q'", "__name__ != ''", "len(__name__)", *(V or ["3"]), *(V or ["4"])])
    sub = lambda: E(rng, V, mac, d + 1)   # noqa: E731
    if mac and r < 0.6:
        return rng.choice([lambda: f"ident[{sub()}]", lambda: f"wrap[{sub()}]", lambda: "nm", lambda: f"par[{rng.randint(0, 9)}][{sub()}]", lambda: f"({sub()}, nm)", lambda: f"ident[wrap[{sub()}]]"])()
    return rng.choice([lambda: f"({sub()}, {sub()})", lambda: f"[{sub()}]", lambda: f"str({sub()})", lambda: f"{{'k': {sub()}}}", lambda: f"[{sub()} for i in range(2)]", lambda: f"(lambda a={sub()}: (a, {sub()}))()", lambda: f"LOG16({sub()})", lambda: f"f'<{{{sub()}!r}}>'", lambda: f"({sub()} if LOG16('c') else {sub()})", lambda: f"repr({sub()}) * 2"])()


def S(rng, V, mac, d=0):
    """A runnable statement, as a list of lines; may define names (added to V)."""
    def body(n=2):
        return ["    " + x for _ in range(rng.randint(1, n)) for x in S(rng, V, mac, d + 1)]
    r = rng.random()
    e = lambda: E(rng, V, mac)   # noqa: E731
    if d > 1:
        r *= 0.4
    n = f"v{rng.randint(0, 6)}"
    if r < 0.25:
        line = f"{n} = {e()}"
        if d == 0:
            V.append(n)
        return [line]
    if r < 0.33:
        return [f"LOG16({e()})"]
    if r < 0.37:
        return [f"{n}a: 'int | undefined' = {e()}"]
    if r < 0.4:
        return [f"assert LOG16('a') is None, {e()}"]
    if r < 0.47:
        return [f"for i_ in range({rng.randint(0, 3)}):", *body()]
    if r < 0.53:
        return ["try:", *body(), "    1 / 0", "except ZeroDivisionError as err:", "    LOG16(err.__traceback__.tb_lineno - 0 if KEEP else 0)"]
    if r < 0.65:
        k = rng.randint(0, 99)
        out = [f"def fn{k}(a: undefined_{k}, b={e()}):" if FUT[0] else f"def fn{k}(a, b={e()}):", *(["    'Doc of fn.'"] if rng.random() < 0.4 else []), *body(), f"    return ({e()}, a)", f"LOG16(fn{k}(1))"]
        if mac and rng.random() < 0.4:
            return ["@deco", *out[:-1], f"LOG16(fn{k}_deco(2))"]
        return out
    if r < 0.73:
        k = rng.randint(0, 99)
        return [f"class Cl{k}:", *(["    'Doc of class.'"] if rng.random() < 0.4 else []), f"    att = {e()}", "    def me(self):", f"        return {e()}", f"LOG16(Cl{k}.att, Cl{k}().me(), Cl{k}.__module__ == __name__, Cl{k}.__qualname__)"]
    if r < 0.85 and mac:
        return ["with blk:", *body()]
    if r < 0.88:
        return ["LOG16(sys.modules[__name__].__dict__ is globals(), sorted(k for k in globals() if k.startswith('v')))"]
    if r < 0.92:
        return [f"if {e()}:", *body(), "else:", *body()]
    if r < 0.95:
        return [rng.choice(["LOG16(__debug__, __doc__)", "LOG16('debug', __debug__)"])]
    if r < 0.97 and mac:
        return ["drop[1]"]
    return ["'a string statement'"] if rng.random() < 0.5 else ["pass"]


FUT = [False]


def generate(rng, i):
    rel = rng.random() < 0.3
    name = rng.choice(["mcpv16_pk.t", "mcpv16_pk.sub.t"]) if rel else "mcpv16_t"
    dots = ".." if ".sub." in name else "."
    head, V = [], []
    if rng.random() < 0.4:
        head.append(rng.choice(['"""Docstring."""', "'Doc\\nstring ä'", '"""Two\n    lines."""', "''"]))
    FUT[0] = rng.random() < 0.35
    if FUT[0]:
        head.append("from __future__ import annotations" + rng.choice(["", ", generator_stop"]))
    dia = []
    if rng.random() < 0.25:
        for k in rng.sample(["DSrc", "DAst", "DPost", "DAll", "DPre"], rng.choice([1, 1, 2])):
            dia.append(f"from {dots + 'pdia' if rel and rng.random() < 0.6 else 'mcpv16_dia'} import dialects, {k}")
    mac = rng.random() < 0.85
    imports = []
    if mac:
        imports.append(f"from {dots + 'pmac' if rel and rng.random() < 0.6 else 'mcpv16_mac'} import macros, ident, wrap, blk, deco, nm, par, drop, boom")
    if rel:
        imports.append(rng.choice([f"from {dots}helper import hv", f"from {dots if dots == '.' else '..'} import PKV"]))
    imports.append("import sys")
    phases = []
    nph = rng.choice([1, 1, 2, 3]) if rng.random() < 0.25 else 0
    if nph:
        phases.append("from mcpyrate.multiphase import macros, phase")
        for k in range(nph, 0, -1):
            phases += [f"with phase[{k}]:", f"    LOG16('phase', {k}, __phase__, __name__)" if not rel else f"    LOG16('phase', {k}, __phase__)", "    LOG16('debug', __debug__)", f"    from mcpv16_mac import macros, ident as ident{k}, wrap as wrap{k}", "    import ast"]
            if k < nph:
                phases += [f"    from __self__ import macros, pm{k + 1}", f"    pv{k} = pm{k + 1}[{k}]"]
            else:
                phases += [f"    pv{k} = wrap{k}[ident{k}[{k}]]"]
            if rel and rng.random() < 0.5:
                phases += [f"    from {dots}helper import hv as hv{k}", f"    LOG16(hv{k})"]
            phases += [f"    def pm{k}(tree, **kw):", f"        LOG16('pm{k}', ast.unparse(tree))", f"        return ast.Tuple(elts=[tree, ast.Constant(value={k})], ctx=ast.Load())"]
        phases += ["from __self__ import macros, pm1", f"pmv = pm1[{rng.randint(0, 9)}]"]
    body = []
    for _ in range(rng.randint(2, 12)):
        body.append("\n".join(S(rng, V, mac)))
    if any("DSrc" in x or "DAll" in x for x in dia):
        body.insert(rng.randint(0, len(body)), "LOG16(@@X@@)")
    fail = None
    if rng.random() < 0.12:
        fail = rng.choice(["raise KeyError('end')", "1 / 0", "boom[1]" if mac else "undefined_name", "undefined_name", "raise SystemExit(3)", "return 1", "from mcpv16_mac import nonexistent", "from mcpv16_mac import macros, nonexistent", "x ="])
        body.insert(rng.randint(0, len(body)), fail)
    text = "\n".join(head + dia + phases + imports + body) + "\n"
    if rng.random() < 0.2:
        text = text.replace("\n\n", "\n").replace("\nLOG16", "\n\n# a comment\nLOG16")
    enc = rng.choice(["utf-8"] * 5 + ["bom", "latin-1", "crlf"])
    if enc == "latin-1":
        text = "# -*- coding: latin-1 -*-\n" + text
    return {"text": text, "name": name, "enc": enc, "rel": rel, "dia": bool(dia), "phases": nph, "fail": fail, "head": len(head), "parts": [rng.random() for _ in range(3)], "seed": rng.randrange(10**6)}


def fixed(tier):
    out = [{"misuse": i} for i in range(len(MISUSE))]
    for t in ["", "\n", "# nothing\n", "''\n", "''\nx = 1\nLOG16(__doc__)\n", "''\nfrom mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    x = 1\ny = 2\n", "'doc'", "'doc'\n'second'\n", "f'not a doc'", "'a' 'b'\nx = 1\n", "b'bytes'\n", "1\n", "x = 1; y = 2", "'doc'; x = 1", "('doc')\n", "'a' + 'b'\n", "from __future__ import annotations\n'no doc'\ndef f(a: b): pass\n", "'doc'\nfrom __future__ import annotations\nx: y = 1\n",
              "x: int\ny: str = ''\n", "__doc__ = 'mine'\n", "'d'\nLOG16(__doc__)\n__doc__ = 'later'\n", "import os.path as p\nfrom os import sep as s\n", "__name__ = 'renamed'\n", "global z\nz = 1\n", "def f():\n    global w\n    w = 1\nf()\n", "del_me = 1\ndel del_me\n",
              "from mcpv16_mac import macros, ident, wrap\nx = ident[wrap[1]]\n", "'d'\nfrom mcpv16_mac import macros, blk\nwith blk:\n    x = 1\n", "from mcpv16_mac import macros, drop\ndrop[1]\n", "import mcpv16_mac\nx = mcpv16_mac.__name__\n",
              "from mcpv16_dia import dialects, DAst\n'not a docstring'\n", "'doc'\nfrom mcpv16_dia import dialects, DPre\nx = 1\n", "'doc'\nfrom mcpv16_dia import dialects, DAll\nx = @@X@@\n", "'doc'\nfrom mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    'inner'\n    x = 1\n",
              "from mcpyrate.multiphase import macros, phase\nwith phase[2]:\n    a = 1\nwith phase[1]:\n    b = a + 1\nc = b + 1\nLOG16(__phase__)\n"]:
        for enc in ("utf-8", "bom"):
            out.append({"text": t, "name": "mcpv16_t", "enc": enc, "rel": False, "dia": "dialects" in t, "phases": int("phase" in t), "fail": None, "head": 0, "parts": [0.5], "seed": 1})
    return out


MISUSE = [("run", (5,), {}, "TypeError"), ("run", (None,), {}, "TypeError"), ("run", ("x = 1", 5), {}, "TypeError"), ("run", ("x = 1", "mcpv16_no_such"), {}, "ModuleNotFoundError"), ("expand", (5, "f.py"), {}, "TypeError"), ("expand", ([ast.Constant(value=1)], "f.py"), {}, "TypeError"),
          ("run", ("x = ",), {}, None), ("compile", ("x =", "f.py"), {}, None), ("expand", ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    x = 1\n", "f.py"), {}, "ValueError")]


# ---------------------------------------------------------------- observation
def describe(e):
    out = []
    while e is not None and len(out) < 5:
        out.append(type(e).__name__ + ": " + brief(NOISE.sub("", NOISE.sub("", str(e))), 400) if not isinstance(e, SyntaxError) else "SyntaxError")
        e = e.__cause__
    if out[-1] == "SyntaxError" and "Failed to parse" in out[0]:
        return out[-1:]   # how this is wrapped depends on which step of the import sees it first
    return out


def value(v, depth=0):
    if isinstance(v, types.FunctionType):
        return ("function", v.__name__, v.__qualname__, v.__doc__, value(v.__defaults__, depth + 1), repr(v.__annotations__), v.__code__)
    if isinstance(v, type) and depth < 3:
        return ("class", v.__name__, v.__doc__, sorted((k, value(x, depth + 1)) for k, x in vars(v).items() if k not in ("__dict__", "__weakref__", "__module__")))
    if isinstance(v, types.ModuleType):
        return ("module", v.__name__)
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, [value(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, value(x, depth + 1)) for k, x in v.items()])
    return repr(v)


def namespace(d):
    return {k: value(v) for k, v in list(d.items()) if k not in SKIP}


MARK = " (in a module of another name, or in pieces)"


def uncover(code):
    """Blank the file name and line in the coverage marks of expanded macros."""
    def one(c):
        if isinstance(c, types.CodeType):
            return uncover(c)
        if isinstance(c, str) and " invoked macro " in c:
            return "invoked macro " + c.rpartition(" ")[2]
        return c
    return code.replace(co_consts=tuple(one(c) for c in code.co_consts))


def same_value(a, b, positions, obs, where):
    if isinstance(a, types.CodeType) and isinstance(b, types.CodeType):
        obs.count("functions compared")
        if MARK in where:
            a, b = uncover(a), uncover(b)
        return codecmp.diff(a, b, positions, where.replace(MARK, ''))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for x, y in zip(a, b):
            d = same_value(x, y, positions, obs, where)
            if d:
                return d
        return None
    return None if a == b else f"{where}: {brief(repr(a), 300)} vs {brief(repr(b), 300)}"


def record(thunk):
    """-> (events, number of macro calls, module or None, error or None)"""
    EVENTS.clear()
    NMAC[0] = 0
    err = None
    mod = None
    try:
        mod = thunk()
    except BaseException as e:
        if isinstance(e, fw.CaseHang):
            raise
        err = describe(e)
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
    return list(EVENTS), NMAC[0], mod, err


def forget(name):
    sys.modules.pop(name, None)
    parent, _, child = name.rpartition(".")
    if parent in sys.modules:
        vars(sys.modules[parent]).pop(child, None)


def judge(case, obs):
    from mcpyrate import compiler, multiphase
    if "misuse" in case:
        fn, args, kw, exc = MISUSE[case["misuse"]]
        try:
            getattr(compiler, fn)(*copy.deepcopy(args), **kw)
        except Exception as e:
            expect(exc is None or type(e).__name__ == exc, "misuse", lambda: f"{fn}{args!r} raised {e!r}, expected {exc}")
        else:
            expect(False, "misuse", f"{fn}{args!r} did not raise")
        return None
    text, name = case["text"], case["name"]
    path = os.path.join(ROOT, *name.split(".")) + ".py"
    data = {"utf-8": lambda: text.encode(), "bom": lambda: b"\xef\xbb\xbf" + text.encode(), "latin-1": lambda: text.encode("latin-1"), "crlf": lambda: text.replace("\n", "\r\n").encode()}[case["enc"]]()
    with open(path, "wb") as f:
        f.write(data)
    builtins.KEEP = True
    importlib.invalidate_caches()
    forget(name)
    old = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        ref = record(lambda: importlib.import_module(name))
    finally:
        sys.dont_write_bytecode = old
    ns = namespace(vars(ref[2])) if ref[2] else None
    doc = ref[2].__doc__ if ref[2] else None
    obs.count("programs")
    obs.count("log events", len(ref[0]))
    obs.count("macro calls", ref[1])
    obs.count("multi-phase", 1 if case["phases"] else 0)
    obs.count("dialects", 1 if case["dia"] else 0)
    obs.count("failing programs", 1 if ref[3] else 0)
    unparsable = False
    try:
        tree = ast.parse(text)
    except SyntaxError:
        unparsable = True

    def check(form, got, positions="all", where="", doc_=True):
        obs.count("runs compared")
        events, n, m, err = got
        expect(events == ref[0], "events", lambda: f"{form}: events differ from those of the import\n{first_diff(events, ref[0])}\nimport: {ref[3]}\nrun: {err}\nprogram:\n{text}")
        expect((err is None) == (ref[3] is None) and (err is None or err == ref[3]), "error", lambda: f"{form}: {err}, but the import: {ref[3]}\nprogram:\n{text}")
        if ns is not None:
            got_ns = namespace(vars(m))
            if not doc_:
                got_ns.pop("__doc__", None)
            expect(list(got_ns) == [k for k in ns if doc_ or k != "__doc__"] or set(got_ns) == {k for k in ns if doc_ or k != "__doc__"}, "names", lambda: f"{form}: the module has names {sorted(got_ns)}, the imported one {sorted(ns)}\nprogram:\n{text}")
            for k in got_ns:
                d = same_value(got_ns[k], ns[k], positions, obs, k + where)
                expect(d is None, "values", lambda: f"{form}: {d}\nprogram:\n{text}")
            if doc_:
                expect(m.__doc__ == doc, "docstring", lambda: f"{form}: docstring {m.__doc__!r}, imported {doc!r}\nprogram:\n{text}")

    def fresh(filename=path):
        forget(name)
        return compiler.create_module(name, filename)

    src = text if case["enc"] != "crlf" else text.replace("\n", "\r\n")
    forms = [("run(text, module)", lambda: compiler.run(src, fresh()), "all"),
             ("run(bytes, module)", lambda: compiler.run(data, fresh()), "all"),
             ("run(text, name)", lambda: compiler.run(src, fresh().__name__), "all"),
             ("run(compile(text), module)", lambda: compiler.run(compiler.compile(src, path, self_module=fresh().__name__), sys.modules[name]), "all"),
             ("exec(compile(bytes))", lambda: execute(compiler.compile(data, path, self_module=fresh().__name__), sys.modules[name]), "all"),
             ("exec(expand(text))", lambda: execute(compile(compiler.expand(src, path, self_module=fresh().__name__), path, "exec", dont_inherit=True), sys.modules[name]), "all")]
    if not unparsable and not (case["dia"] and ("DSrc" in text or "DAll" in text)):
        forms += [("run(AST, module)", lambda: compiler.run(copy.deepcopy(tree), fresh()), "all"),
                  ("run(statement list, module)", lambda: compiler.run(copy.deepcopy(tree).body, fresh()), "all"),
                  ("run(compile(AST), module)", lambda: compiler.run(compiler.compile(copy.deepcopy(tree), path, self_module=fresh().__name__), sys.modules[name]), "all")]
    if not unparsable and not case["dia"]:
        def direct():
            fresh()
            if case["phases"]:
                out = multiphase.multiphase_expand(copy.deepcopy(tree), filename=path, self_module=name)
            else:
                out = compiler.singlephase_expand(copy.deepcopy(tree), filename=path, self_module=name, dexpander=None)
            return execute(compile(out, path, "exec", dont_inherit=True), sys.modules[name])
        forms.append(("exec(compile(expansion without a dialect expander))", direct, "all"))
    if ref[3] is None:
        def ahead():
            forget(name)
            py_compile.compile(path, doraise=True)
            obs.count("compiled ahead")
            try:
                return importlib.import_module(name)
            finally:
                os.unlink(importlib.util.cache_from_source(path))
        forms.append(("py_compile, import", ahead, "all"))
    for form, thunk, pos in forms:
        got = record(thunk)
        check(form, got, pos, doc_="(compile(" not in form)
        if "(compile(" in form and got[2] is not None and ns is not None and form.startswith("run"):
            expect(got[2].__doc__ == doc, "docstring", lambda: f"{form}: docstring {got[2].__doc__!r}, imported {doc!r}")
    forget(name)
    # auto-named modules and file names that are no files
    builtins.KEEP = False
    if not case["rel"] and "__name__" not in text:
        whole = (ref, ns)
        if "KEEP" in text:
            ref = record(lambda: compiler.run(src, fresh("<x>")))
            ns = namespace(vars(ref[2])) if ref[2] else None
            forget(name)
        if case["dia"]:
            ref = ([renum(e) for e in ref[0]], *ref[1:])
        before = set(sys.modules)
        more = [("run(text)", lambda: compiler.run(src), "all")]

        def fileless(kind):
            forget(name)
            m = sys.modules[name] = types.ModuleType(name)
            if kind:
                m.__file__ = None
            return compiler.run(src, m if kind else name)
        more.append(("run(text, module without a file)", lambda: fileless(case["seed"] % 2), "all"))
        if not unparsable and not (case["dia"] and ("DSrc" in text or "DAll" in text)):
            more += [("run(AST)", lambda: compiler.run(tree), "none"), ("run(list)", lambda: compiler.run(tree.body), "none")]
            dump = ast.dump(tree, include_attributes=True)
        for form, thunk, pos in more:
            got = record(thunk)
            if case["dia"]:
                got = ([renum(e) for e in got[0]], *got[1:])
            if not form.startswith("run(text"):
                expect(ast.dump(tree, include_attributes=True) == dump, "input-modified", lambda: f"{form} modified its input\nprogram:\n{text}")
            check(form, got, pos, MARK)
            if got[2] is not None:
                expect(sys.modules.get(got[2].__name__) is got[2], "not-registered", f"{form}: the new module is not in sys.modules")
            for k in set(sys.modules) - before:
                sys.modules.pop(k)
        ref, ns = whole
    builtins.KEEP = True
    # optimization levels
    if case["seed"] % 3 == 0 and not ref[3] and "__doc__" not in text:
        for o in (0, 1, 2):
            loader = importlib.machinery.SourceFileLoader(name, path)
            a = record(lambda: execute(loader.source_to_code(data, path, _optimize=o), fresh()))
            b = record(lambda: compiler.run(src, fresh(), optimize=o))
            c = record(lambda: execute(compiler.compile(src, path, optimize=o, self_module=fresh().__name__), sys.modules[name]))
            d_ = record(lambda: execute(compile(compiler.expand(src, path, optimize=o, self_module=fresh().__name__), path, "exec", dont_inherit=True, optimize=o), sys.modules[name]))
            for form, x in (("run", b), ("compile", c), ("expand", d_)):
                expect(x[0] == a[0] and x[3] == a[3], "optimize", lambda: f"{form}(..., optimize={o}): {first_diff(x[0], a[0])} {x[3]} {a[3]}\nprogram:\n{text}")
                for e in x[0]:
                    expect(not e.startswith("('debug'") or e == f"('debug', {not o})", "optimize-debug", lambda: f"{form}(..., optimize={o}): {e}\nprogram:\n{text}")
            obs.count("optimize")
    # in pieces
    if not unparsable and not case["dia"] and not case["phases"] and ref[3] is None and len(tree.body) > 2:
        pieces(case, obs, tree, ref, ns, compiler, fresh)
    forget(name)
    return fw.hash_(text)


def pieces(case, obs, tree, ref, ns, compiler, fresh):
    text = case["text"]
    if "__doc__" in text or "KEEP" in text:
        return
    lines = text.split("\n")
    body = tree.body
    cuts = sorted({max(1, int(x * len(body))) for x in case["parts"]})
    chunks = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)]) if body[a:b]]
    m = fresh()
    events = []
    futures, macros = [], []
    for i, ch in enumerate(chunks):
        src = "\n".join("\n".join(lines[(s.decorator_list[0] if getattr(s, "decorator_list", None) else s).lineno - 1:s.end_lineno]) for s in ch) + "\n"
        if any(s.lineno == t.end_lineno for s, t in zip(body[1:], body)):
            src = "\n".join(ast.unparse(s) for s in ch) + "\n"
        src = "\n".join(futures + macros + [src])
        for s in ch:
            if isinstance(s, ast.ImportFrom) and s.module == "__future__":
                futures.append(ast.unparse(s))
            elif isinstance(s, ast.ImportFrom) and s.names[0].name == "macros":
                macros.append(ast.unparse(s))
        try:
            first = ast.parse(src).body
        except SyntaxError:
            obs.count("set aside")
            return None
        got = record(lambda: compiler.run(src if i % 2 else ast.parse(src), m))
        if got[3]:
            expect(False, "pieces-error", lambda: f"running piece {i} in the module of the previous ones fails: {got[3]}\npiece:\n{src}\nprogram:\n{text}")
        expect(got[2] is m, "pieces-module", "run() in an existing module returned another one")
        d = ast.get_docstring(ast.Module(body=first, type_ignores=[]), clean=False)
        expect(m.__doc__ == d, "pieces-docstring", lambda: f"docstring {m.__doc__!r} after running a piece whose docstring is {d!r}\npiece:\n{src}")
        events += got[0]
        obs.count("pieces")
        # "If `source` is not yet compiled and the first statement is a static string ... Otherwise the module docstring is set to `None`."
        before = {k: v for k, v in vars(m).items() if k != "__doc__"}
        compiler.run(compile("'ready'\npass\n" if i % 3 == 2 else "pass\n", "<ready>", "exec"), m)
        expect(m.__doc__ == ("ready" if i % 3 == 2 else None), "code-docstring", lambda: f"docstring {m.__doc__!r} after running a code object in a module whose docstring was {d!r}")
        expect({k: v for k, v in vars(m).items() if k != "__doc__"} == before, "code-namespace", lambda: "running an empty code object changed the namespace of the module")
        obs.count("ready code after a docstring" if d else "ready code")
    for kind in (True, False):
        a = [e for e in events if e.startswith("('expand'") == kind]
        b = [e for e in ref[0] if e.startswith("('expand'") == kind]
        expect(a == b, "pieces-events", lambda: f"run in pieces, the {'expansions' if kind else 'events'} differ:\n{first_diff(a, b)}\nprogram:\n{text}")
    got = namespace(vars(m))
    for k in set(got) | set(ns):
        if k == "__doc__":
            continue
        expect(k in got and k in ns, "pieces-names", lambda: f"run in pieces, {k} is {'missing' if k in ns else 'extra'}\nprogram:\n{text}")
        d = same_value(got[k], ns[k], "none", obs, k + MARK)
        expect(d is None, "pieces-values", lambda: f"run in pieces: {d}\nprogram:\n{text}")


def execute(code, module):
    exec(code, module.__dict__)
    return module


def renum(e):
    return e if not (e.startswith("('dsrc'") or "dast" in e) else e.split(",")[0]


NOISE = re.compile(r"\x1b\[[0-9;]*m|:\d+|line \d+|L +\d+|0x[0-9a-f]+|'?/[\w/.<>-]*|<[^>]*>|[0-9a-f]{32}\w*|mcpv16_t|dynamically_created_module_\w*")


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"event {i}: {brief(x, 300)} instead of {brief(y, 300)}"
    return f"{len(a)} events instead of {len(b)}: {(a[len(b):] or b[len(a):])[:3]}"
