r"""C22: a macro-enabled REPL session is like the same program, and survives errors."""
import ast
import code
import codeop
import contextlib
import importlib
import inspect
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import types

import fw
from fw import expect

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "history monitoring: random sessions with macro-imports, libraries edited meanwhile, session macros and failing inputs, typed line by line into the macro console and into IPython with the extension; after every input the echo, the errors reported, the prompt and the whole namespace are compared with Python's own console fed with the inputs expanded by hand"
LEVEL_NOTE = "The reference never runs the expander: the generator keeps its own model of which macro, in which version, each name is bound to."
RULE = "Sessions of 6-30 inputs: statements, blocks, expressions, uses of 12 kinds of macros, macro-imports (also renamed, several, of edited libraries, over existing names), session macros, help commands, and 45 kinds of failing inputs; given to the console by push, runsource or interact, in several namespaces, or to IPython in cells. Distinct by history."
QUICK = dict(n=3000, secs=17)
THOROUGH = dict(n=60000, secs=400)
MIN = {"sessions": 60, "inputs": 800, "echoes": 150, "macro uses": 150, "macro imports": 100, "edited libraries": 10, "session macros": 30, "failing inputs": 150, "help commands": 20, "pushed lines": 500, "ipython cells": 50}
ASSUMPTIONS = ["no dialects and no multi-phase compilation in the REPL (documented)", "names of name macros are not assigned to"]

LIB = '''
import ast
from mcpyrate import namemacro, parametricmacro, unparse
VERSION = {k}
def e(tree, **kw):
    "MACRO {L} e v{k}"
    return ast.Constant(value="{L} e v{k}")
def dbl(tree, **kw):
    "MACRO {L} dbl v{k}"
    import copy
    return ast.BinOp(tree, ast.Add(), copy.deepcopy(tree))
@namemacro
def nm(tree, **kw):
    "MACRO {L} nm v{k}"
    return ast.Constant(value="{L} nm v{k}")
def b(tree, **kw):
    "MACRO {L} b v{k}"
    return ast.parse("trace.append('{L} b v{k}')").body + tree
def d(tree, **kw):
    "MACRO {L} d v{k}"
    tree.body = ast.parse("return '{L} d v{k}'").body
    return tree
@parametricmacro
def p(tree, *, args, **kw):
    "MACRO {L} p v{k}"
    return ast.Tuple(elts=[ast.Constant(value="{L} p v{k}"), *args], ctx=ast.Load())
def make():
    def clo(tree, **kw):
        "MACRO {L} clo v{k}"
        return ast.Constant(value="{L} clo v{k}")
    return clo
clo = make()
def bad(tree, **kw):
    "MACRO {L} bad v{k}"
    raise ValueError("bad on purpose")
def inv(tree, **kw):
    "MACRO {L} inv v{k}"
    return ast.Constant(value=[object()])
def deep(tree, **kw):
    "MACRO {L} deep v{k}"
    def f(): return f()
    return f()
def wrongtype(tree, **kw):
    "MACRO {L} wrongtype v{k}"
    return 42
'''
LIBQ = '''
from mcpyrate.quotes import macros, q, a, u
def qm(tree, **kw):
    "MACRO {L} qm v{k}"
    return q[(u["{L} qm v{k}"], a[tree])]
'''
EXPRS = ["e", "dbl", "nm", "p", "clo", "qm"]
BLOCKS = ["b"]
DECOS = ["d"]
FAILS = ["bad", "inv", "deep", "wrongtype"]
ALL = EXPRS + BLOCKS + DECOS + FAILS


# ---------------------------------------------------------------- generation
class Gen:
    """A random session, and what it should do."""
    def __init__(self, rng, kind, named=False):
        self.rng, self.kind, self.named = rng, kind, named or kind == "ipython"
        self.items = []
        self.ver = {"rla": 1, "rlb": 1}
        self.macros = {}       # name: (kind of macro, label)
        self.vars = []
        self.funcs = {}        # session functions that are macros when declared: name: label
        self.serial = 0

    def add(self, text, plain="same", **kw):
        """`plain`: the same input without macros; None if it must be reported as an error and do nothing."""
        self.items.append(dict(kw, text=text, plain=text if plain == "same" else plain))

    def fresh(self):
        self.serial += 1
        return self.serial

    def var(self):
        return self.rng.choice(self.vars) if self.vars and self.rng.random() < 0.8 else str(self.rng.randint(0, 9))

    def expr(self, depth=0):
        """(macro text, plain text, number of macros)"""
        r = self.rng
        live = [n for n, (k, _) in self.macros.items() if k in EXPRS]
        if live and r.random() < 0.6 and depth < 3:
            n = r.choice(live)
            k, label = self.macros[n]
            if k == "nm":
                return n, repr(label), 1
            t, p, c = self.expr(depth + 1)
            if k in ("e", "clo"):
                return f"{n}[{t}]", repr(label), 1
            if k == "dbl":
                return f"{n}[str({t})]", f"str({p}) + str({p})", 1 + c
            if k == "qm":
                return f"{n}[{t}]", f"({label!r}, {p})", 1 + c
            t2, p2, c2 = self.expr(depth + 1)
            if r.random() < 0.2:
                return f"{n}[{t}]", f"({label!r},)", 1
            return f"{n}[({t2},)][{t}]", f"({label!r}, {p2})", 1 + c2
        w = r.random()
        if w < 0.5 or depth > 2:
            v = self.var()
            return v, v, 0
        t, p, c = self.expr(depth + 1)
        t2, p2, c2 = self.expr(depth + 1)
        f = r.choice(["({}, {})", "[{}, {}]", "(str({}) + str({}))", "{{'k': {}, 'l': {}}}", "(lambda x: ({}, {}))(1)", "({} if 1 else {})"])
        return f.format(t, t2), f.format(p, p2), c + c2

    def step(self):
        r = self.rng
        w = r.choice(["assign"] * 3 + ["echo"] * 4 + ["block"] * 2 + ["import"] * 4 + ["edit", "session", "session", "selfimport", "deleted", "fail", "fail", "fail", "plain", "plain", "help", "shadow", "redefine", "doc", "future"])
        getattr(self, "do_" + w)()

    def do_assign(self):
        t, p, c = self.expr()
        v = f"v{self.rng.randint(0, 5)}"
        self.add(f"{v} = {t}", f"{v} = {p}", uses=c)
        if v not in self.vars:
            self.vars.append(v)

    def do_echo(self):
        t, p, c = self.expr()
        self.add(t, p, uses=c)

    def do_block(self):
        r = self.rng
        t, p, c = self.expr()
        live = [n for n, (k, _) in self.macros.items() if k in ("b", "d")]
        n = self.fresh()
        if live and r.random() < 0.6:
            m = r.choice(live)
            k, label = self.macros[m]
            if k == "b":
                self.add(f"with {m}:\n    w{n} = {t}\n    w{n}", f"trace.append({label!r}); w{n} = {p}; w{n}", uses=c + 1)
            else:
                self.add(f"@{m}\ndef f{n}(x): return x", f"def f{n}(x): return {label!r}", uses=1)
                self.add(f"f{n}(1)")
            return
        f = r.choice(["for i in range(2):\n    {}\n    y = i", "def f@(x=1):\n    return x, {}", "class C@:\n    a = {}\n    def m(self): return self.a", "if 1:\n    z = {}\nelse:\n    z = 0", "try:\n    1 // 0\nexcept ZeroDivisionError:\n    z = {}",
                      "async def co@():\n    return {}", "[{}\n,\n1]", "t = '''a\n\n?b''', {}", "while True:\n    if 1:\n        q = {}\n    break", "x = 1 + \\\n    len(str({}))", "class D@: a = {}", "def g@():\n    # what?\n    yield {}"]).replace("@", str(n))
        f = f.replace("{{", "{").replace("}}", "}")
        self.add(f.replace("{}", t), f.replace("{}", p), uses=c)
        if f.startswith("def f"):
            self.add(f"f{n}(2)")
        elif f.startswith("class C"):
            self.add(f"C{n}().m()")

    def do_plain(self):
        self.add(self.rng.choice(["# a comment", "# why?", "'what?'", "v9 = 'a?' # b??", "", "import os; os.sep", "from collections import OrderedDict as OD", "del v9", "v0 = v1 = 4", "x: int = 5", "lambda: 0", "None", "_", "1; 2; 3", "print('out')", "import sys; _ = sys.stderr.write('err\\n')", "assert 1", "global gg; gg = 1", "len(trace)",
                                  "'''?'''", "(1,\n2,\n3)", "f'{1}?'", "pass", "v8 = [i for i in range(3)]; v8", "(w := 5)", "import os.path as osp", "if 0:\n    pass", "trace.clear()", "...", "v7 = 'é λ'; v7", "match 5:\n    case x5:\n        pass", "True if 1 else\\\n 2", "from __future__ import annotations", "an2 = lambda: 1", "def an(y: len(trace)): return an.__annotations__", "an(0)", "from os import path as p1, sep as s1; s1"]))

    def do_future(self):
        n = self.fresh()
        if self.rng.random() < 0.5:
            self.add("from __future__ import annotations")
        self.add(f"def an{n}(y: len(trace)): return 1")
        self.add(f"an{n}.__annotations__")

    def do_import(self):
        r = self.rng
        L = r.choice(["rla", "rlb"])
        k = self.ver[L]
        names = r.sample(ALL, r.choice([1, 1, 2, 3, 6]))
        if r.random() < 0.15:
            names = ALL[:]
        txt, plain = [], [f"import {L}"]
        for m in names:
            as_ = m + r.choice("xyz") if r.random() < 0.25 else m
            txt.append(m if as_ == m else f"{m} as {as_}")
            plain.append(f"{as_} = __import__('c22ref').fn('MACRO {L} {m} v{k}')")
            self.macros[as_] = (m, f"{L} {m} v{k}")
        t = ", ".join(txt)
        if r.random() < 0.1:
            t = "\\\n    " + ", \\\n    ".join(txt)
        tail = tail2 = ""
        if r.random() < 0.15:
            e, p, c = self.expr()
            tail, tail2 = f"; v1 = {e}", f"; v1 = {p}"
            if "v1" not in self.vars:
                self.vars.append("v1")
        elif r.random() < 0.1:
            # the input's own assignment comes after the import
            n = txt[0].split()[-1]
            if self.macros[n][0] != "nm":
                tail = tail2 = f"; {n} = 5"
        self.add(f"from {L} import macros, {t}{tail}", "; ".join(plain) + tail2, imports=len(names))

    def do_edit(self):
        L = self.rng.choice(["rla", "rlb"])
        self.ver[L] += 1
        self.items.append({"edit": L, "to": self.ver[L]})
        if self.rng.random() < 0.7:
            self.do_echo()

    def do_session(self):
        r = self.rng
        n = r.choice(["sa", "sb", "sc", "e", "dbl"])
        k = self.fresh()
        label = f"session {n} {k}"
        how = r.choice(["deco", "deco", "call", "late"])
        body = f"def {n}(tree, **kw):\n    'MACRO {label}'\n    return ast.Constant(value={label!r})"
        if how == "deco":
            self.add("@macro\n" + body, body)
        else:
            self.add(body)
            if how == "late":   # not a macro yet
                self.do_echo()
            self.add(f"_ = macro({n})", f"_ = {n}")
        self.funcs[n] = label
        self.macros[n] = ("e", label)
        self.items[-1]["session"] = 1
        if r.random() < 0.8:
            self.add(f"{n}[1 + 2]", repr(label), uses=1)

    def do_selfimport(self):
        r = self.rng
        k = self.fresh()
        n = r.choice(["sd", "se"])
        label = f"self {n} {k}"
        self.add(f"def {n}(tree, **kw):\n    'MACRO {label}'\n    return ast.Constant(value={label!r})")
        as_ = r.choice([n, "sf", "sg"])
        self.add(f"from __self__ import macros, {n}" + (f" as {as_}" if as_ != n else ""), "", imports=1, session=1)
        self.macros[as_] = ("e", label)
        if self.named and as_ != n:   # functions of this session have a module name
            self.items[-1]["plain"] = f"{as_} = {n}"
        self.add(f"{as_}[0]", repr(label), uses=1)

    def do_deleted(self):
        """A session function that no longer exists (or has another name) cannot be imported as a macro."""
        n = f"gone{self.fresh()}"
        self.add(f"def {n}(tree, **kw): return tree")
        if self.rng.random() < .3:
            self.do_echo()
        self.add(self.rng.choice(["del {0}", "kept_ = {0}; del {0}", "del {0}; trace.append(1)"]).format(n))
        if self.rng.random() < .3:
            self.do_echo()
        self.add(f"from __self__ import macros, {n}", None)
        self.add(f"print('{n}' in globals(), '{n}' in dir())")

    def do_shadow(self):
        """A variable with the name of a macro; the macro keeps working."""
        live = [n for n, (k, _) in self.macros.items() if k in ("e", "dbl", "p", "b", "d")]
        if not live:
            return
        n = self.rng.choice(live)
        self.add(f"{n} = {self.rng.randint(0, 99)}")
        self.add(n)
        if self.macros[n][0] == "e":
            self.add(f"({n}[1], {n})", f"({self.macros[n][1]!r}, {n})", uses=1)

    def do_redefine(self):
        """Redefining a session function doesn't redefine the macro."""
        live = [n for n in self.funcs if self.macros.get(n) == ("e", self.funcs[n])]
        if not live:
            return
        n = self.rng.choice(live)
        self.add(f"def {n}(*a, **k): return 'redefined'")
        self.add(f"{n}[3]", repr(self.funcs[n]), uses=1)
        self.add(f"{n}(3)")

    def do_doc(self):
        live = [n for n, (k, _) in self.macros.items() if k not in ("nm",)]
        if live:
            self.add(self.rng.choice(live) + ".__doc__")

    def do_help(self):
        r = self.rng
        if self.kind == "ipython":
            return
        live = sorted(self.macros)
        w = r.random()
        if w < 0.3:
            self.add("macros?", None, help=1, expect=[n for n in live])
        elif live and w < 0.6:
            n = r.choice(live)
            self.add(n + r.choice(["?", "??", " ?"]), None, help=1)
        else:
            self.add(r.choice(["len?", "len??", "len ??", "trace?", "trace.append?", "'text'?", "ast.parse?", "ast.parse??", "(1, 2)?", "[1][0]?", "f'{1}'?", "ast?", "(lambda x:\n x)?", "x.y.z?", "undefined_name?", "len(5)?", "ast . walk ?", "ast.NodeVisitor??", "ast.NodeVisitor()??", "ast.NodeVisitor() ?", "ast.NodeVisitor().visit??", "ast.NodeVisitor().visit?", "ast.Expr??", "ast.dump?", "{}.get?", "2.5??"]), None, help=1)

    def do_fail(self):
        r = self.rng
        fails = [n for n, (k, _) in self.macros.items() if k in FAILS]
        w = r.random()
        v = f"v{r.randint(0, 5)}"
        if fails and w < 0.4:
            n = r.choice(fails)
            f = r.choice(["{}[1]", "v0 = {}[2]", "print({}[1])", "def ff(): return {}[1]", *([] if self.kind == "ipython" else ["v1 = 5; {}[1]"]), "if 1:\n    {}[0]", "class Ff:\n    x = {}[1]", "[{}[x] for x in trace]"])
            self.add(f.format(n), None)
        elif w < 0.55:
            t, p, c = self.expr()
            f = r.choice(["({}, 1 // 0)", "undefined_name + str({})", "{}.no_attribute", "raise KeyError({})", "def fx(): return fx2({})\nfx()", "v2 = 7; {} + None", "assert not 1, {}", "import nonexistent_c22, os", "from os import nothing_c22", "for i in [1, 0]: {}; 1 // i", "(yield_ := {})[10 ** 9:][5]", "raise BaseException({})"])
            if "\n" in f:
                f = f.split("\n")[1].replace("fx()", "fx2(1)")
            self.add(f.replace("{}", t), f.replace("{}", p), uses=c, fails=1)
        elif w < 0.7:
            self.add(r.choice(["from nolib_c22 import macros, x", "from rla import macros, nothere", "from broken import macros, x", "from brokensyntax import macros, x", "from brokenmacros import macros, x", "from brokenexit import macros, x", "from rla import macros, *", "from rlb import macros as m2, e", "from __self__ import macros, nothere", "from rla.sub import macros, x", "from . import macros, x", "from .rla import macros, e", "from rla import macros, VERSION"]), None)
        else:
            self.add(r.choice(["x = ", "1 2", "def", "x y?", "x? y?", "?", "??", "import a?", "v0 = 5?", "v0 = 5??", "if 1: x?", "for?", "'abc", "'abc?", "(]", "a b c", "x = = 1?", "return 5", "yield 1", "break", "  v0 = 3", "if 1:\nx = 2", "f(**)", "5 = x", "nonlocal q", "v0 = 1 +", "\x00", "v0 = '\x00'", "a\x00?", "await x", "def f(a, a): pass", "from __future__ import nothing", "x for x in y?", "1 +?", "lambda?", "*x?", "é$", "0777", "'\\N{nope}'", "b'é'", "del f()", "import", "print 1", "@", "class", "else:", "try:\n    pass\nx = 1"][:6 if self.kind == "ipython" else 99]), None)

    def session(self, n):
        self.add("import ast; trace = []")
        for _ in range(n):
            self.step()
        return self.items


def generate(rng, i, kind=None):
    kind = kind or rng.choice(["push", "push", "push", "runsource", "interact"] * 4 + ["ipython"])
    locs = rng.choice(["none", "empty", "given", "named"])
    g = Gen(rng, kind, locs == "named")
    items = g.session(rng.choice([6, 12, 20, 30]) if kind != "ipython" else 30)
    return {"kind": kind, "items": items, "locals": locs}


def fixed(tier):
    rng = random.Random(22)
    out = [generate(rng, 0, "ipython") for _ in range(6)]
    # each kind of failure and help on its own, between uses
    for kind in ("push", "interact"):
        for do in ("fail", "help", "plain", "block", "session", "selfimport", "shadow", "redefine", "deleted", "import"):
            g = Gen(rng, kind)
            g.add("import ast; trace = []")
            g.do_import()
            for _ in range(25):
                getattr(g, "do_" + do)()
                if rng.random() < 0.3:
                    g.do_echo()
            out.append({"kind": kind, "items": g.items, "locals": "none"})
    out.append({"kind": "exit"})
    out.append({"kind": "modes"})
    out.append({"kind": "magics"})
    out += [{"kind": "mi", "i": i} for i in range(len(MI))]
    return out


# ---------------------------------------------------------------- running
def fn(doc):
    """Stands for a macro function in the reference session."""
    def f(tree, **kw):
        raise AssertionError
    f.__doc__ = doc
    return f


def setup(scratch):
    sys.dont_write_bytecode = True
    import mcpyrate.activate   # the reference imports the same macro libraries
    sys.modules["c22ref"] = types.ModuleType("c22ref")
    sys.modules["c22ref"].fn = fn


def write_lib(root, L, k):
    with open(os.path.join(root, L + ".py"), "w") as f:
        f.write(LIB.replace("{L}", L).replace("{k}", str(k)).replace("import ast", "import ast" + LIBQ.split("def")[0].replace("\n", "\n", 1).rstrip(), 1) + "def" + LIBQ.split("def", 1)[1].replace("{L}", L).replace("{k}", str(k)))


def lay(root):
    for L in ("rla", "rlb"):
        write_lib(root, L, 1)
    for n, t in {"broken": "1 // 0", "brokensyntax": "x = = 1", "brokenmacros": "from rla import macros, bad\nbad[1]\n", "brokenexit": "raise RuntimeError('not today')"}.items():
        with open(os.path.join(root, n + ".py"), "w") as f:
            f.write(t + "\n")


HIDDEN = {"__builtins__", "__macro_expander__", "macro", "mcpyrate", "_mcpyrate_coverage", "__name__", "__doc__", "__annotations__"}


def canon(v, depth=0):
    if isinstance(v, types.FunctionType):
        if v.__doc__ and v.__doc__.startswith("MACRO "):
            return v.__doc__
        return ("function", v.__name__, v.__defaults__, v.__code__.co_varnames, sorted(consts(v.__code__)), canon(v.__annotations__, depth + 1))
    if isinstance(v, types.ModuleType):
        return "module " + v.__name__
    if isinstance(v, type):
        return ("class", v.__name__, sorted((k, canon(x, depth + 1)) for k, x in vars(v).items() if not k.startswith("__") or k == "__annotations__") if depth < 3 else None)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(x, depth + 1) for x in v] if depth < 5 else None)
    if isinstance(v, dict):
        return ("dict", [(canon(a, depth + 1), canon(b, depth + 1)) for a, b in v.items()] if depth < 5 else None)
    return re.sub(r"0x[0-9a-f]+", "#", repr(v))


def consts(c):
    return set().union(*(consts(x) if isinstance(x, types.CodeType) else [repr(x)] for x in c.co_consts))


def view(ns):
    return {k: canon(v) for k, v in ns.items() if k not in HIDDEN}


def judge(case, obs):
    if case["kind"] in ("exit", "modes"):
        return extra(case, obs)
    root = tempfile.mkdtemp(dir=fw.SCRATCH)
    sys.path.insert(0, root)
    try:
        lay(root)
        return {"ipython": ipython, "magics": magics, "mi": started}.get(case["kind"], console)(case, obs, root)
    finally:
        sys.path.remove(root)
        clean()
        shutil.rmtree(root)


def clean():
    for n in ("rla", "rlb", "broken", "brokensyntax", "brokenmacros", "brokenexit"):
        sys.modules.pop(n, None)
    importlib.invalidate_caches()
    sys.path_importer_cache.clear()


@contextlib.contextmanager
def captured():
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield out, err
    finally:
        sys.stdout, sys.stderr = saved


def typed(text):
    """The lines to type for an input, and whether the console should then ask for more."""
    lines = text.split("\n")
    want = []
    for k in range(len(lines)):
        want.append(more_after("\n".join(lines[:k + 1])))
    while want[-1] and len(lines) < text.count("\n") + 3:
        lines.append("")
        want.append(more_after("\n".join(lines)))
    return lines, want


def more_after(text):
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return codeop.compile_command(text) is None
    except (SyntaxError, ValueError, OverflowError):
        return False


class Reference:
    """Python's own console, fed with the expanded inputs."""
    def __init__(self, ns):
        self.ns = ns
        self.console = code.InteractiveConsole(ns)

    def run(self, plain):
        import builtins
        if hasattr(self, "last"):
            builtins._ = self.last
        elif hasattr(builtins, "_"):
            del builtins._
        with captured() as (out, err):
            lines, _ = typed(plain)
            for line in lines:
                self.console.push(line)
            self.console.resetbuffer()
        if hasattr(builtins, "_"):
            self.last = builtins._
        return scrub(out.getvalue()), err.getvalue()


def scrub(s):
    return re.sub(r"0x[0-9a-f]+", "#", re.sub(r"\x1b\[[0-9;]*m", "", s))


def split_inputs(items):
    return [x for x in items if "text" in x and not dropped(x)]


def dropped(x):
    # an input that never completes cannot be typed line by line
    lines, want = typed(x["text"])
    if want[-1]:
        return True
    return any(not w for w in want[:-1])   # ... nor one that completes early


def last_line(err):
    lines = [x for x in scrub(err).splitlines() if x.strip()]
    return lines[-1] if lines else ""


KNOWN = ("len", "ast", "'text'", "(1, 2)", "[1]", "2.5", "{}")


def helptext(text):
    """What the help command `text` shows, for objects no input changes."""
    e = text.rstrip("?").strip()
    if not e.startswith(KNOWN) or e == "len(5)":
        return []
    obj = eval(e, {"ast": ast})
    if not text.endswith("??"):
        return [inspect.cleandoc(obj.__doc__)] if obj.__doc__ else ["<no docstring>"]
    for o in (obj, type(obj)):
        try:
            lines, first = inspect.getsourcelines(o)
            return [f"{inspect.getsourcefile(o)}:{first}", "".join(lines).rstrip("\n")]
        except (TypeError, OSError):
            pass
    return ["<no source code available>"]


def namespaces(case):
    kind = case["locals"]
    base = {"none": {}, "empty": {}, "given": {"v3": 33, "given": [1]}, "named": {"__name__": "__console__", "__doc__": None}}[kind]
    return dict(base), (None if kind == "none" else dict(base))


def console(case, obs, root):
    import builtins
    from mcpyrate.repl.console import MacroConsole
    refns, ns = namespaces(case)
    ref = Reference(refns)
    with captured() as (out, err):
        con = MacroConsole(locals=ns) if ns is not None else MacroConsole()
    expect(not out.getvalue() and not err.getvalue(), "startup-noise", lambda: out.getvalue() + err.getvalue())
    if ns is None:
        ns = con.locals
    expect(ns is con.locals, "locals-copied", "the given namespace is not the one the session uses")
    items = [x for x in case["items"] if "edit" in x or not dropped(x)]
    with captured():
        other = MacroConsole()   # another session in the same process
    log = []
    state = {"k": 0, "more": None}
    last = []

    def check(x, out, err):
        """After the input `x`."""
        show = lambda: "\n".join(log) + f"\n== stdout {brief_(out)}\n== stderr {brief_(err)}"   # noqa: E731
        obs.count("inputs")
        obs.count("macro uses", x.get("uses", 0))
        obs.count("macro imports", x.get("imports", 0))
        obs.count("session macros", x.get("session", 0))
        if x["plain"] is None:
            rout, rerr = "", "?"
        else:
            rout, rerr = ref.run(x["plain"])
        if x.get("help"):
            obs.count("help commands")
            expect(err.strip(), "help-silent", show)
            for text in helptext(x["text"]):
                expect(scrub(text) in scrub(err), "help-content", lambda: f"expected to see\n{text}\n{show()}")
                obs.count("help contents")
            for n in x.get("expect", ()):
                expect(re.search(rf"\b{n}\b", scrub(err)), "macros-listing", lambda: f"{n} not listed\n{show()}")
        else:
            expect(out == rout, "echo", lambda: f"expected {rout!r}\n{show()}")
            if not rerr:
                expect(not err, "spurious-error", show)
            else:
                obs.count("failing inputs")
                expect(err.strip(), "error-not-reported", show)
                if x["plain"] is not None:
                    expect(last_line(err) == last_line(rerr), "error", lambda: f"expected {last_line(rerr)!r}\n{show()}")
        if out:
            obs.count("echoes")
        a, b = view(refns), view(ns)
        if a != b:
            diff = {k: (a.get(k, "absent"), b.get(k, "absent")) for k in set(a) | set(b) if a.get(k, "absent") != b.get(k, "absent")}
            expect(False, "namespace", lambda: f"(expected, got): {fw.brief(diff)}\n{show()}")

    def edit(x):
        obs.count("edited libraries")
        write_lib(root, x["edit"], x["to"])
        importlib.invalidate_caches()
        with captured():
            for line in ("from rlb import macros, bad as e, bad as dbl, bad as sa, bad as nm", "sd = v0 = trace = 0", "e[1]", "from __future__ import annotations"):
                other.push(line)
        log.append(f"# edited {x['edit']}")

    if hasattr(builtins, "_"):
        del builtins._

    def guarded(f, *args):
        try:
            return f(*args)
        except (Exception, SystemExit) as exc:
            fw.expect(False, "console-crash", lambda: f"{type(exc).__name__}: {exc}\n" + "\n".join(log))

    def keep():
        last[:] = [builtins._] if hasattr(builtins, "_") else []

    def restore():
        if last:
            builtins._ = last[0]
        elif hasattr(builtins, "_"):
            del builtins._

    if case["kind"] == "interact":
        # one call that types everything
        todo = [x for x in items]
        bufs = []
        current = {}

        def feed():
            while todo:
                x = todo.pop(0)
                if "edit" in x:
                    edit(x)
                    continue
                log.append(">>> " + x["text"].replace("\n", "\n... "))
                lines, want = typed(x["text"])
                current.update(x=x)
                for k, line in enumerate(lines):
                    yield line, (want[k - 1] if k else False)
                yield None, False
            yield EOFError, False

        it = feed()
        with captured() as (o, e):
            def raw_input(prompt=""):
                line, more = next(it)
                if line is None:   # the input is complete
                    keep()
                    out, err = scrub(o.getvalue()), e.getvalue()
                    o.seek(0), o.truncate(), e.seek(0), e.truncate()
                    expect(prompt == getattr(sys, "ps1", ">>> "), "prompt", lambda: f"{prompt!r}\n" + "\n".join(log))
                    check(current["x"], out, err)
                    restore()
                    line, more = next(it)
                if line is EOFError:
                    raise EOFError
                obs.count("pushed lines")
                expect(prompt == (getattr(sys, "ps2", "... ") if more else getattr(sys, "ps1", ">>> ")), "prompt", lambda: f"{prompt!r} {more}\n" + "\n".join(log))
                return line
            con.raw_input = raw_input
            guard = (fw.Violation, fw.Inconclusive)
            try:
                con.interact(banner="", exitmsg="")
            except guard:
                raise
            except (Exception, SystemExit) as exc:
                fw.expect(False, "console-crash", f"{type(exc).__name__}: {exc}\n" + "\n".join(log))
    else:
        for x in items:
            if "edit" in x:
                edit(x)
                continue
            log.append(">>> " + x["text"].replace("\n", "\n... "))
            restore()
            lines, want = typed(x["text"])
            with captured() as (o, e):
                if case["kind"] == "push":
                    for line, w in zip(lines, want):
                        m = guarded(con.push, line)
                        obs.count("pushed lines")
                        expect(bool(m) == w, "more", lambda: f"push({line!r}) gave {m!r}\n" + "\n".join(log))
                else:
                    m = guarded(con.runsource, "\n".join(lines))
                    expect(not m, "more", lambda: f"runsource gave {m!r}\n" + "\n".join(log))
            keep()
            check(x, scrub(o.getvalue()), e.getvalue())
    obs.count("sessions")
    return fw.hash_(json.dumps(case, sort_keys=True))


def brief_(s):
    return fw.brief(s, 1500)


def extra(case, obs):
    from mcpyrate.repl.console import MacroConsole
    if case["kind"] == "exit":
        for text, want in [("raise SystemExit(3)", 3), ("import sys; sys.exit('bye')", "bye"), ("exit(4)", 4)]:
            con = MacroConsole()
            try:
                with captured():
                    con.push(text)
                expect(False, "exit-swallowed", text)
            except SystemExit as exc:
                expect(exc.code == want, "exit-code", lambda: f"{text}: {exc.code!r}")
        return None
    for text, mode in [("x = 1\ny = [x]\ny", "exec"), ("(5, 6)", "eval"), ("x = 5", "eval"), ("", "exec"), ("def f():\n    return 1\nz = f()", "exec"), ("1 +", "exec")]:
        a, b = {}, {}
        res = []
        for con, ns in ((code.InteractiveConsole(a), a), (MacroConsole(b), b)):
            with captured() as (o, e):
                m = con.runsource(text, "<x>", mode)
            res.append((bool(m), o.getvalue(), last_line(e.getvalue()), view(ns)))
        expect(res[0] == res[1], "mode-" + mode, lambda: f"{text!r}: {res}")
    return None


# ---------------------------------------------------------------- macropython -i
# (inputs, the same with macros expanded by hand)
MI = [([("1 + 1", "1 + 1"), ("import sys; sys.argv, sys.path[0], __name__", "import sys; ([sys.argv[0]], '', '__console__')"), ("class K: pass\n", "class K: pass\n"), ("K, K.__module__", "K, K.__module__"), ("from rla import macros, e", "import rla"), ("e[x := 3]", "('e rla', 1, x := 3)"), ("x", "x"), ("1/0", "1/0"), ("rla.__name__", "rla.__name__"), ("y = [x]", "y = [x]"), ("y", "y"), ("exit(7)", "exit(7)")], 7),
      ([("x = 5", "x = 5"), ("def f(a):\n    return a + x\n", "def f(a):\n    return a + x\n"), ("f(2)", "f(2)"), ("f(", "f("), (")", ")"), ("x +* 2", "x +* 2"), ("import os.path as P", "import os.path as P"), ("P.basename('a/b')", "P.basename('a/b')"), ("raise SystemExit", "raise SystemExit")], 0),
      ([("@macro\ndef mm(tree, **kw):\n    return __import__('ast').Constant(value=9)\n", "0"), ("mm[1] + 1", "9 + 1"), ("import atexit; atexit.register(print, 'bye') and None", "import atexit; atexit.register(print, 'bye') and None"), ("print(1, end='')", "print(1, end='')")], 0),
      ([("import nosuchmodule", "import nosuchmodule"), ("from nosuchmodule import macros, x", "import nosuchmodule"), ("from rla import macros, nosuch", "from rla import nosuch"), ("z = 3", "z = 3"), ("z", "z"), ("import sys; sys.exit('message')", "import sys; sys.exit('message')")], 1)]


def started(case, obs, root):
    """The console that macropython -i starts, compared with Python's."""
    items, rc = MI[case["i"]]
    home = os.path.join(root, "home")
    os.makedirs(home)
    env = fw.child_env(root)
    env["HOME"] = home
    with open(os.path.join(root, "rla.py"), "w") as f:
        f.write("from mcpyrate.quotes import macros, q, a\ndef e(tree, **kw): return q[('e rla', 1, a[tree])]\n")
    res = []
    for which in (1, 0):
        text = "".join(i[1 - which].rstrip("\n") + "\n" + ("\n" if "\n" in i[1 - which] else "") for i in items)
        cmd = ["-m", "mcpyrate.repl.macropython", "-i"] if which else ["-c", "import code, sys; sys.path.insert(0, ''); code.interact(local={'__name__': '__console__', '__doc__': None})"]
        p = fw.run_py(cmd, cwd=root, env=env, stdin=text)
        err = [ln for ln in p.err.split("\n") if re.match(r"\w*(Error|Exception)\b|message", ln)]
        out = p.out.replace(">>> ", "").replace("... ", "")
        if which == 0:
            out = re.sub(r"\n(?=0\n)", "\n", out)
        res.append((out, [re.match(r"\w+", x).group() for x in err], p.rc))
    (o1, e1, r1), (o2, e2, r2) = res
    show = lambda: f"{[i[0] for i in items]}\nmacropython -i: {res[0]}\nexpanded by hand in Python: {res[1]}"   # noqa: E731
    expect(r1 == rc, "interactive-exit-status", show)
    if any(i[1] == "0" for i in items):   # a definition of a macro shows nothing
        o2 = o2.replace("0\n", "", 1)
    expect([x for x in o1.split("\n") if "sys.argv" not in x and not x.startswith("(['")] == [x for x in o2.split("\n") if not x.startswith("(['")], "interactive-output", show)
    args = [x for x in o1.split("\n") if x.startswith("(['")]
    expect(all(x.endswith("'], '', '__console__')") for x in args), "interactive-environment", show)
    expect(len(e1) == len(e2) and [a for a in zip(e1, e2) if a[0] != a[1] and "ImportError" not in a[0] and a[0] != "ModuleNotFoundError"] == [], "interactive-errors", show)
    h = os.path.join(home, ".config", "mcpyrate", "macropython_history")
    expect(os.path.isfile(h), "interactive-history", lambda: f"no {h}")
    obs.count("inputs", len(items))
    obs.count("sessions")
    return None


MAGICS = r'''
import sys, io, contextlib, json, ast
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from IPython.core.interactiveshell import InteractiveShell
from traitlets.config import Config
cf = Config(); cf.HistoryManager.enabled = False; cf.InteractiveShell.colors = "NoColor"
sh = InteractiveShell.instance(config=cf)
res = []
for cell in json.load(sys.stdin):
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        r = sh.run_cell(cell)
    res.append([r.success, o.getvalue(), None if r.result is None else repr(r.result)])
print(json.dumps(res))
'''


def magics(case, obs, root):
    import ast
    from mcpyrate import dump
    with open(os.path.join(root, "rla.py"), "w") as f:
        f.write("import ast\ndef one(tree, **kw): return ast.Call(ast.Name(id='F'), [tree], [])\ndef two(tree, **kw): return ast.Constant(value=2)\n")
    with open(os.path.join(root, "child.py"), "w") as f:
        f.write(MAGICS)
    cells = ["%load_ext mcpyrate.repl.iconsole", "%macros", "from rla import macros, one, two as zwei", "%macros", "%%dump_ast\nx = one[1]", "%%dump_ast -e yes\nx = one[1]", "%%dump_ast -m eval\none[zwei[0]] + 1", "%%dump_ast -m eval -e yes\none[zwei[0]] + 1", "%%ignore_importerror\nimport nosuchmodule\ny = 1",
             "%%ignore_importerror\ny = 5", "y", "x", "zwei[3]", "%%dump_ast\nx = (", "zwei[3] + 1", "%load_ext mcpyrate.repl.iconsole", "zwei[3] + 2"]
    p = fw.run_py([os.path.join(root, "child.py"), root], cwd=root, env=fw.child_env(root), stdin=json.dumps(cells), timeout=200)
    expect(p.rc == 0 and p.out.startswith("["), "ipython-crash", lambda: f"{p}")
    r = [(ok, re.sub(r"\x1b\[[0-9;]*m", "", o), v) for ok, o, v in json.loads(p.out)]
    show = lambda: "\n".join(f"{c!r}: {x}" for c, x in zip(cells, r))   # noqa: E731
    expect(r[0] == (True, "", None), "ipython-noise", show)
    expect(r[1][0] and "rla" not in r[1][1], "magic-macros", show)
    expect(r[3][0] and re.search(r"one: .*rla\.one", r[3][1]) and re.search(r"zwei: .*rla\.two", r[3][1]), "magic-macros", show)
    want = {4: ast.parse("x = one[1]"), 5: ast.parse("x = F(1)"), 6: ast.parse("one[zwei[0]] + 1", mode="eval"), 7: ast.parse("F(2) + 1", mode="eval")}
    for k, t in want.items():
        expect(r[k][0], "magic-dump", show)
        try:
            got = eval(r[k][1], dict(vars(ast)))
        except Exception as exc:
            raise fw.Violation("magic-dump", f"{cells[k]!r}: {exc!r}\n{r[k][1]}")
        nc = lambda t: re.sub(r", ctx=\w+\(\)|, type_ignores=\[\]|, keywords=\[\]", "", ast.dump(t))   # noqa: E731
        expect(nc(got) == nc(t), "magic-dump", lambda: f"{cells[k]!r} gives {nc(got)}, expected {nc(t)}\n{dump(t)}")
    expect(r[8] == (True, "", None) and r[9][0] and r[10][2] == "5" and not r[11][0] and r[12][2] == "2" and not r[13][0] and r[14][2] == "3" and r[16][2] == "4", "magic-session", show)
    obs.count("help commands", 6)
    obs.count("sessions")
    return None


# ---------------------------------------------------------------- IPython
CHILD = r'''
import sys, json, os, io, contextlib
sys.dont_write_bytecode = True
root = sys.argv[1]
sys.path.insert(0, root); sys.path.insert(0, sys.argv[2]); sys.path.insert(0, os.path.join(sys.argv[2], "lib")); sys.path.insert(0, os.path.join(sys.argv[2], "checks"))
import c22
from IPython.core.interactiveshell import InteractiveShell
from traitlets.config import Config
cf = Config(); cf.HistoryManager.enabled = False; cf.InteractiveShell.colors = "NoColor"
sh = InteractiveShell.instance(config=cf)
real = sys.stdout
boot = io.StringIO()
with contextlib.redirect_stdout(boot), contextlib.redirect_stderr(boot):
    sh.run_cell("%load_ext mcpyrate.repl.iconsole")
res = [{"boot": boot.getvalue()}]
hidden = set(sh.user_ns) | {"_mcpyrate_coverage"}
for x in json.load(open(os.path.join(root, "items.json"))):
    if "edit" in x:
        c22.write_lib(root, x["edit"], x["to"])
        import importlib; importlib.invalidate_caches()
        continue
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        try:
            r = sh.run_cell(x["text"])
            d = {"ok": r.success, "result": None if r.result is None else c22.scrub(repr(r.result)), "exec": r.error_in_exec and c22.scrub(repr(r.error_in_exec)), "before": r.error_before_exec is not None}
        except BaseException as e:
            d = {"crash": repr(e)}
    d["out"] = o.getvalue()
    d["ns"] = {k: repr(c22.canon(v)) for k, v in sh.user_ns.items() if k not in hidden and not k.startswith("_")}
    res.append(d)
real.write(json.dumps(res)); real.flush()
'''


def ipython(case, obs, root):
    import builtins
    skip = ("_", "1; 2; 3")
    items = [x for x in case["items"] if "edit" in x or not dropped(x) and x["text"] not in skip and "?" not in x["text"].split("\n")[-1] and not x["text"].startswith(("  ", "import sys; _"))]
    with open(os.path.join(root, "items.json"), "w") as f:
        json.dump(items, f)
    with open(os.path.join(root, "child.py"), "w") as f:
        f.write(CHILD)
    p = fw.run_py([os.path.join(root, "child.py"), root, fw.VERIF], cwd=root, env=fw.child_env(root), timeout=200)
    expect(p.rc == 0 and p.out.startswith("["), "ipython-crash", lambda: f"{p}")
    res = json.loads(p.out)
    expect(not res[0]["boot"], "ipython-noise", lambda: res[0]["boot"])
    ns = {}
    log = []
    k = 0
    ref = Reference(ns)
    for x in items:
        if "edit" in x:
            log.append("# edited " + x["edit"])
            obs.count("edited libraries")
            continue
        k += 1
        d = res[k]
        log.append(f"In: {x['text']}")
        show = lambda: "\n".join(log) + f"\n{ {a: b for a, b in d.items() if a != 'ns'} }"   # noqa: E731
        obs.count("ipython cells")
        obs.count("macro uses", x.get("uses", 0))
        obs.count("macro imports", x.get("imports", 0))
        expect("crash" not in d, "ipython-crash", show)
        if x["plain"] is None:
            expect(not d["ok"], "error-not-reported", show)
            expect(d["out"].strip(), "error-not-reported", show)
            obs.count("failing inputs")
        else:
            out, err = ref.run(x["plain"])
            failed = bool(err)
            expect(d["ok"] == (not failed), "ipython-success", lambda: f"reference: {out}{err}\n{show()}")
            if failed:
                obs.count("failing inputs")
            elif "\n" not in x["text"] and ";" not in x["text"] and not x.get("noecho") and "print" not in x["text"]:
                want = out.rstrip("\n") or None
                expect(d["result"] == want, "ipython-echo", lambda: f"expected {want!r}\n{show()}")
            if not failed and not out:
                expect(not d["out"], "ipython-noise", show)
        a = {n: repr(v) for n, v in view(ns).items() if not n.startswith("_")}
        if a != d["ns"]:
            diff = {n: (a.get(n, "absent"), d["ns"].get(n, "absent")) for n in set(a) | set(d["ns"]) if a.get(n, "absent") != d["ns"].get(n, "absent")}
            expect(False, "ipython-namespace", lambda: f"(expected, got): {fw.brief(diff)}\n{show()}")
    obs.count("sessions")
    return fw.hash_(json.dumps(case, sort_keys=True))
