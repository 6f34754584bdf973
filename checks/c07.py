"""C07: failing macros and misused macro syntax: reports, and the state left behind."""
import ast
import builtins
import collections
import importlib
import importlib.util
import io
import os
import re
import sys
import types
import warnings

import asteq
import fw
import mackit
import pygen
from fw import brief, expect

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "random macro-using programs in which monitor macros raise (or catch failures of) exceptions of many types at random places, checked against a reference expander that predicts outcome, cause and use-site stack; after each failure the global state is compared with a snapshot and probe programs are compared with their results in a fresh process state"
LEVEL_NOTE = "Failures in every invocation type and nesting, in quotes, phases, dialects, stepping, run-time expansion and file imports; 130 forms of misuse. Between siblings of one statement, any failing macro may be the one reported."
RULE = "Random modules with failing macros injected anywhere, plus fixed failure and misuse scenarios. Non-trivial: a macro raised; distinct by source and exception."
QUICK = dict(n=5000, secs=15)
THOROUGH = dict(n=250000, secs=400)
MIN = {"failures": 500, "caught inside": 100, "nested reports": 100, "probe runs": 300, "misuse": 100, "machinery": 30}
ASSUMPTIONS = ["the reference expander (lib/mackit.py) states the documented expansion algorithm"]

FN = "/nonexistent/prog.py"


class Odd(Exception):
    def __str__(self):
        raise ValueError("no str")


class Custom(Exception):
    def __init__(self, a, b, *, c):
        super().__init__(a)


class BaseOdd(BaseException):
    pass


def chained():
    try:
        raise KeyError("first")
    except KeyError as k:
        try:
            raise ValueError("second") from k
        except ValueError as v:
            return v


def mexp():
    from mcpyrate.core import MacroExpansionError
    return MacroExpansionError("user level")


EXC = [lambda: ValueError("msg"), lambda: SyntaxError("bad macro use"), lambda: SyntaxError("with position", ("f.py", 3, 4, "text")), lambda: KeyError("k"), lambda: Odd("x"), lambda: Custom(1, 2, c=3), mexp,
       lambda: StopIteration(5), lambda: RecursionError("deep"), lambda: AssertionError(), lambda: ImportError("imp"), lambda: ModuleNotFoundError("mod", name="x"), lambda: OSError(2, "no file"), lambda: ExceptionGroup("g", [ValueError(1), KeyError(2)]),
       chained, lambda: GeneratorExit(), lambda: KeyboardInterrupt(), lambda: SystemExit(3), lambda: BaseOdd("base"), lambda: AttributeError("a"), lambda: NameError("n"), lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "r"),
       lambda: MemoryError(), lambda: ValueError("multi\nline\nAn exception occurred during macro expansion.\n"), lambda: ValueError(), lambda: LookupError(None), lambda: NotImplementedError("x\x1b[31m"), lambda: StopAsyncIteration()]
CUR = {"k": 0, "raised": [], "real": False, "off": False, "calls": 0}


def boom():
    CUR["calls"] += 1
    if CUR["off"]:
        return
    e = EXC[CUR["k"]]()
    CUR["raised"].append(e)
    raise e


def add_macros():
    from mackit import call, dc, macro, stm, suite, C

    @macro()
    def m_boom(tree, args, vis, info):
        boom()
        return tree

    @macro()
    def m_late(tree, args, vis, info):
        """Fails after expanding its input."""
        tree = vis.visit_recursively(tree)
        boom()
        return tree

    @macro()
    def m_bgen(tree, args, vis, info):
        """A generator that fails half-way."""
        if info["syntax"] in ("expr", "name"):
            boom()
            return tree

        def gen():
            yield from suite(tree)[:1]
            if not isinstance(EXC[CUR["k"]](), StopIteration):   # (PEP 479)
                boom()
            yield from suite(tree)[1:]
        return gen()

    @macro(parametric=True)
    def m_barg(tree, args, vis, info):
        """Fails only if it is given an argument."""
        if args:
            boom()
        return tree

    @macro(name=True)
    def n_boom(tree, args, vis, info):
        boom()
        return tree

    def trying(how):
        def f(tree, args, vis, info):
            try:
                t = getattr(vis, how)(tree)
            except Exception:
                CUR["caught"] += 1
                return call("caught") if info["syntax"] in ("expr", "name") else stm("caught = 1")
            if info["syntax"] in ("expr", "name"):
                return call("fine", t)
            return stm("fine = 1") + (suite(t) if t is not None else [])
        return f
    for how in ("visit", "visit_once", "visit_recursively"):
        f = trying(how)
        f.__name__ = "m_try" + how[5:]
        macro()(f)


BOOMS = ("m_boom", "m_late", "m_bgen", "m_barg", "n_boom")
TRIES = ("m_try", "m_try_once", "m_try_recursively")


class Ref(mackit.RefExpander):
    """The reference expander, also keeping the stack of macros being applied."""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.stack = []
        self.failed_at = None

    def apply(self, syntax, name, tree, args, invocation, **extra):
        if len(self.log) > self.max_calls:
            raise TooLarge()
        lines = {invocation.lineno} | {d.lineno for d in getattr(invocation, "decorator_list", [])}
        self.stack.append((name, lines, syntax))
        n = len(self.stack)
        try:
            info = dict(syntax=syntax, **extra)
            mackit.log_call(self.log, self.b[name], tree, args, invocation, info)
            out = mackit.MACROS[self.b[name]][0](tree, args, self, info)
            if out is not None and not isinstance(out, (ast.AST, mackit.RefDone)):
                out = list(out)
        except BaseException as e:
            if self.failed_at is None or self.failed_at[0] is not e:
                self.failed_at = (e, list(self.stack))
            raise
        finally:
            del self.stack[n - 1:]
        self.fill(out, invocation)
        if self.recursive and syntax != "name":
            out = self.visit(out)
        return out

    def node(self, node):
        old = self.recursive
        try:
            return super().node(node)
        finally:
            self.recursive = old


class TooLarge(BaseException):
    pass


# ---------------------------------------------------------------- state and probes
def state():
    import mcpyrate.core as core
    from importlib.machinery import SourceFileLoader
    mods = {k: id(v) for k, v in sys.modules.items()}
    return dict(modules=mods, postprocessors=list(core.global_postprocessors), globals=dict(core.global_bindings), path=list(sys.path), meta=list(map(id, sys.meta_path)), hooks=list(map(id, sys.path_hooks)),
                loader=[id(SourceFileLoader.__dict__.get(k)) for k in ("source_to_code", "path_stats", "get_code")], reclimit=sys.getrecursionlimit(), argv=list(sys.argv), stderr=id(sys.stderr), stdout=id(sys.stdout))


def compare_state(before, what):
    after = state()
    for k in before:
        if k == "modules":
            for nm, i in before[k].items():
                expect(after[k].get(nm) == i, "registry", lambda: f"{what}\nsys.modules[{nm!r}] changed or vanished")
            for nm in after[k]:
                m = sys.modules[nm]
                expect(nm in before[k] or (getattr(m, "__spec__", None) is not None and not nm.startswith("mcpv07")), "registry", lambda: f"{what}\nsys.modules[{nm!r}] = {m!r} was left behind")
        elif k == "globals":
            expect(all(after[k].get(nm) is f for nm, f in before[k].items()), "global-bindings", lambda: f"{what}\nglobal macro bindings changed")
        else:
            expect(before[k] == after[k], f"state-{k}", lambda: f"{what}\nbefore {before[k]!r}\nafter {after[k]!r}")


PROBES = [
    ("expand", "from mcpv_mac import macros, m_wrap, m_dup, m_emit, m_once, m_count, m_id, m_pid, n_const, n_same\nx = m_once[m_emit[m_dup[1]]]\nwith m_wrap, m_dup as r:\n    y = m_count[3]\n    with m_once:\n        z = m_emit[n_const]\n@m_wrap\n@m_dup\ndef f(): return n_same\n"),
    ("run", "from mcpyrate.quotes import macros, q, u, n, a, s, t, h\nimport ast\nv = 3\nr1 = ast.dump(q[x + u[v] + q[y + u[w]]])\nwith q as r2:\n    n['nm'] = a[r]\n    with q as inner:\n        u[k]\nr2 = None\n".replace("a[r]", "1")),
    ("run", "from mcpyrate.quotes import macros, u\nx = u[1]\n"),
    ("run", "from mcpyrate.quotes import macros, q, h\nfrom mcpyrate.core import add_postprocessor\nx = 5\nimport ast\nr1 = type(q[h[x]]).__name__\n"),
    ("run", "from mcpyrate.multiphase import macros, phase\nL = [__phase__]\nwith phase[2]:\n    def mac(tree, **kw):\n        import ast\n        return ast.Constant(value=(__phase__))\nwith phase[1]:\n    from __self__ import macros, mac\n    y = mac[1]\nfrom __self__ import macros, mac\nz = mac[2]\n"),
    ("run", "from mcpv07_dialect import dialects, Up\nvalue = 1\n"),
    ("expand", "from mcpyrate.metatools import macros, macro_bindings, expandsq, expand1sq\nfrom mcpyrate.quotes import macros, q\nfrom mcpv_mac import macros, m_wrap\nx = expandsq[m_wrap[m_wrap[1]]]\ny = expand1sq[m_wrap[m_wrap[1]]]\n"),
    ("run", "from mcpv_mac import macros, nope\n"),
    ("run", "from mcpyrate.debug import macros, step_expansion\nfrom mcpv_mac import macros, m_id\nx = m_id[4]\n"),
]
BASE = []


def probe(k):
    """Result of a probe program, as text."""
    from mcpyrate import compiler
    how, src = PROBES[k]
    del mackit.LOG[:]
    was = dict(CUR)
    CUR["off"] = True
    stderr, sys.stderr = sys.stderr, io.StringIO()
    try:
        if how == "expand":
            res = asteq.norm(compiler.expand(src, filename=FN, self_module="prog"))
        else:
            with compiler.temporary_module("mcpv07_probe", filename=FN) as m:
                compiler.run(src, m)
                res = sorted((n, repr(v)) for n, v in vars(m).items() if isinstance(v, (int, str, list, tuple)) and n != "__name__" and not n.startswith("_mcpyrate"))
    except Exception as e:
        res = (type(e).__name__, ansi(str(e)), type(e.__cause__).__name__)
    finally:
        err = sys.stderr.getvalue()
        sys.stderr = stderr
        CUR.update(was)
    return re.sub(r"[0-9a-f]{32}", "UUID", re.sub(r" at 0x[0-9a-f]+", "", repr((res, len(mackit.LOG), err))))


def probe_all(what, obs):
    for k in range(len(PROBES)):
        got = probe(k)
        obs.count("probe runs")
        expect(got == BASE[k], "probe", lambda: f"after {what}\nthe program\n{PROBES[k][1]}\ngives\n{brief(got)}\ninstead of\n{brief(BASE[k])}")


def ansi(s):
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


def setup(scratch):
    sys.setrecursionlimit(3000)
    add_macros()
    mackit.make_module()
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    from mcpyrate.dialects import Dialect
    builtins.BOOM07 = boom
    builtins.CUR07 = CUR

    class Up(Dialect):
        def transform_ast(self, tree):
            return tree

    def mk(where, value=None):
        class D(Dialect):
            def transform_source(self, text):
                if where == "source":
                    return bad()
                return NotImplemented

            def transform_ast(self, tree):
                if where == "ast":
                    return bad()
                return NotImplemented

            def postprocess_ast(self, tree):
                if where == "post":
                    return bad()
                return NotImplemented

        def bad():
            if value is not None:
                return value()
            boom()

        if where == "init":
            def init(self, expander):
                boom()
            D.__init__ = init
        return D
    md = types.ModuleType("mcpv07_dialect")
    md.Up = Up
    md.BadS, md.BadA, md.BadP, md.BadI = mk("source"), mk("ast"), mk("post"), mk("init")
    md.EmptyS, md.EmptyA, md.EmptyP = mk("source", str), mk("ast", lambda: False), mk("post", lambda: [])
    md.Garbage = mk("source", lambda: "x = = 1\n")
    md.notdialect = lambda *a, **kw: None
    md.number = 5
    sys.modules["mcpv07_dialect"] = md
    for k in range(len(PROBES)):
        BASE.append(probe(k))
    for k in range(len(PROBES)):
        got = probe(k)
        if got != BASE[k]:
            raise fw.Violation("probe", f"running\n{PROBES[k][1]}\nagain gives {got} instead of {BASE[k]}")


def shard_setup(scratch):
    sys.path.insert(0, scratch)
    with open(os.path.join(scratch, "mcpv07_mac.py"), "w") as f:
        f.write("def fm(tree, **kw):\n    BOOM07()\n    return tree\nclass fcls:\n    def __new__(cls, tree, **kw):\n        BOOM07()\n        return tree\n")
    os.makedirs(os.path.join(scratch, "mcpv07_pk"))
    with open(os.path.join(scratch, "mcpv07_pk", "__init__.py"), "w") as f:
        f.write("")
    import mcpv07_mac  # noqa: F401
    import mcpv07_pk  # noqa: F401


# ---------------------------------------------------------------- misuse: (program, what the error must mention: line, word)
Q = "from mcpyrate.quotes import macros, q, u, n, a, s, t, h\n"
M = "from mcpv_mac import macros, m_id, m_pid, m_wrap, n_const, m_none, m_inout, m_dup\n"
MT = "from mcpyrate.metatools import macros, macro_bindings, fill_location, expandsq, expand1sq, expands, expand1s, expandrq, expand1rq, expandr, expand1r, stepr, expand_first\n"
DB = "from mcpyrate.debug import macros, step_expansion, show_bindings, step_phases\n"
MP = "from mcpyrate.multiphase import macros, phase\n"
MISUSE = [(Q + s, 2) for s in ("x = u[1]", "x = n['a']", "x = a[b]", "x = s[b]", "x = t[b]", "x = h[b]", "with a:\n    b", "with u:\n    b", "with n as x:\n    b", "with s:\n    b", "with t:\n    b", "with h:\n    b",
                               "with q:\n    b", "with q as (x, y):\n    b", "with q as x.y:\n    b", "with q as x[0]:\n    b", "@q\ndef f(): pass", "@u\ndef f(): pass", "@h\ndef f(): pass", "@a\nclass A: pass",
                               "x = q[q[u[u[u[1]]]]]", "x = [q[1], u[2]]", "def f():\n    return q[u[u[1]]]", "with q as x:\n    pass\nu[3]", "x = q[1] + n[2]", "with q as x:\n    with a as y:\n        z", "with q as x:\n    with a:\n        z = 1",
                               "with q as x:\n    with u:\n        z", "with q as x:\n    @a\n    def f(): pass", "x = q[h[1] + u[u[2]]]")]
MISUSE += [(M + s, 2) for s in ("x = m_id()[1]", "x = m_pid()[1]", "x = m_pid(*y)[1]", "with m_id():\n    x", "@m_id()\ndef f(): pass", "@m_pid(*z)\nclass A: pass", "with m_pid(*y):\n    x", "with other(), m_pid():\n    x",
                                "def f(a=m_pid()[1]): pass", "x = m_inout[m_pid()[1]]", "with m_inout:\n    with m_pid():\n        x", "x = n_const()[1]")]
MISUSE += [(s, ln) for s, ln in (
    ("from nosuchmodule07 import macros, x", 1), ("from nosuchmodule07.sub import macros, x", 1), ("from mcpv_mac import macros, nosuch", 1), ("from mcpv_mac import macros, notcallable", 1), ("from mcpv_mac import macros, m_id, nosuch as y", 1),
    ("x = 1\nfrom mcpv_mac import macros, nosuch", 2), ("from . import macros, x", None), ("from .. import macros, x", None), ("from .nosuch import macros, x", None), ("from ..mcpv_mac import macros, x", None), ("from __self__ import macros, x", None),
    ("from .__self__ import macros, x", None), ("from os.nosuch import macros, x", 1), ("from mcpv07_dialect import dialects, nosuch", None), ("from mcpv07_dialect import dialects, number", None), ("from mcpv07_dialect import dialects, notdialect", None),
    ("from nosuchmodule07 import dialects, x", None), ("from . import dialects, x", None), ("from mcpv07_dialect import dialects, EmptyS", None), ("from mcpv07_dialect import dialects, EmptyA", None), ("from mcpv07_dialect import dialects, EmptyP", None),
    ("from mcpv07_dialect import dialects, Garbage", None), ("from mcpv07_dialect import dialects, BadI", None), ("from mcpv07_dialect import dialects, BadS", None), ("from mcpv07_dialect import dialects, BadA", None), ("from mcpv07_dialect import dialects, BadP", None),
    ("x = = 1", None), ("def f(:\n  pass", None), ("return 5\nx = 'a", None), (M + "x = m_id[1\n", None))]
MISUSE += [(Q + MT + M + s, 4) for s in ("x = macro_bindings[1]", "with macro_bindings:\n    x", "@macro_bindings\ndef f(): pass", "x = expandsq", "@expandsq\ndef f(): pass", "@expand1s\ndef f(): pass", "@expandr\ndef f(): pass", "@expand1rq\ndef f(): pass",
                                          "with expands as x:\n    y", "with expand1s as x:\n    y", "with expandr as x:\n    y", "with expand1r as x:\n    y", "with stepr:\n    x", "@stepr\ndef f(): pass", "x = expand_first[1]", "@expand_first\ndef f(): pass",
                                          "with expand_first:\n    x", "with expand_first[1]:\n    x", "with expand_first[nosuch]:\n    x", "with expand_first[m_id] as y:\n    x", "with expand_first[m_id, 2]:\n    x", "with fill_location:\n    x", "@fill_location\ndef f(): pass",
                                          "with expand_first[m_id, nosuch]:\n    x")
           if s not in ("x = expandsq",)]
MISUSE += [(DB + M + s, 3) for s in ("@step_expansion\ndef f(): pass", "x = step_expansion['nosuch'][1]", "x = step_expansion[5][1]", "with step_expansion['nope']:\n    x", "x = show_bindings[1]", "with show_bindings:\n    x", "@show_bindings\ndef f(): pass", "x = step_phases",
                                     "x = step_phases[1]", "with step_phases:\n    x")]
MISUSE += [(MP + s, 2) for s in ("if 1:\n    with phase[1]:\n        x", "def f():\n    with phase[1]:\n        x", "with phase[0]:\n    x", "with phase[-1]:\n    x", "with phase['a']:\n    x", "with phase[1.5]:\n    x", "with phase:\n    x", "with phase[1] as y:\n    x",
                                 "with phase[1, 2]:\n    x", "x = phase[1]", "x = phase[1][2]", "@phase[1]\ndef f(): pass", "with phase[n]:\n    x", "with phase[1], cm():\n    x",
                                 "with phase[1]:\n    from __self__ import macros, nosuch", "with phase[1]:\n    x = 1\nfrom __self__ import macros, x", "with phase[1]:\n    x = 1\nfrom __self__ import macros, nosuch")]
MISUSE += [("from mcpyrate.quotes import macros, q\nfrom mcpv07_mac import macros, nosuch", 2)]
# bad results of macros
BADRET = ["5", "'text'", "[1, 2]", "object()", "(x for x in [tree, 3])", "{'a': 1}", "iter([None])", "ast.AST", "[tree, [tree]]", "Bad()", "b'x'", "1.5", "True"]

# ---------------------------------------------------------------- failures inside the machinery
MACH = {
    "phase": (MP + "with phase[2]:\n    a = 1\nwith phase[1]:\n    from mcpv07_mac import macros, fm\n    x = fm[1]\n", [6]),
    "phase-self": (MP + "with phase[1]:\n    def mm(tree, **kw):\n        BOOM07()\n        return tree\nfrom __self__ import macros, mm\nx = 1\nwith mm:\n    y\n", [8]),
    "phase-run": (MP + "with phase[2]:\n    BOOM07()\n", None),
    "phase0-run": (MP + "with phase[2]:\n    x = 1\nBOOM07()\n", None),
    "run": ("x = 1\nBOOM07()\n", None),
    "quote-inner": (Q + MT + "from mcpv07_mac import macros, fm\nx = 1\ny = expandsq[fm[1]]\n", [5]),
    "quote-unquote": (Q + "from mcpv07_mac import macros, fm\ny = q[1 + u[fm[2]]]\n", [3]),
    "quote-nested": (Q + MT + "from mcpv07_mac import macros, fm\nx = q[q[u[u[fm[1]]]]]\n", [4]),
    "step": (DB + "from mcpv07_mac import macros, fm\nx = step_expansion[fm[1]]\n", [3]),
    "step-dump": (DB + M + "from mcpv07_mac import macros, fm\nwith step_expansion['dump']:\n    x = m_id[fm[1]]\n", [5]),
    "step-detailed": (DB + M + "from mcpv07_mac import macros, fm\nx = step_expansion['detailed'][m_wrap[fm[1]]]\n", [4]),
    "class-macro": ("from mcpv07_mac import macros, fcls\nx = fcls[1]\n", [2]),
    "stepr": (Q + MT + "from mcpv07_mac import macros, fm\nx = stepr[q[fm[1]]]\n", None),
    "expandr": (Q + MT + "from mcpv07_mac import macros, fm\nx = expandr[q[fm[1]]]\n", None),
    "expandrq": (Q + MT + "from mcpv07_mac import macros, fm\nwith expandrq as z:\n    a\n    fm[1]\n", None),
    "expand-first": (Q + MT + M + "from mcpv07_mac import macros, fm\nwith expand_first[fm]:\n    m_id[1]\n    fm[2]\n", [7]),
    "d-source": ("from mcpv07_dialect import dialects, BadS\nx = 1\n", None), "d-ast": ("from mcpv07_dialect import dialects, Up, BadA\nx = 1\n", None), "d-post": ("from mcpv07_dialect import dialects, BadP, Up\nx = 1\n", None),
    "d-init": ("from mcpv07_dialect import dialects, Up, BadI\nx = 1\n", None),
    "d-phase": (MP + "with phase[1]:\n    from mcpv07_dialect import dialects, BadP\n    x = 1\n", None),
}
for _w in ("phase", "d-post", "quote-inner", "step"):   # the same, reached through another module's macro-import
    MACH["via-" + _w] = ("from mcpv07_bad import macros, anything\n", _w)

# ---------------------------------------------------------------- failures caught by an enclosing macro, expansion goes on: (program, expected variables, must print nothing more)
CH = Q + MT + DB + "from mcpv_mac import macros, m_try, m_try_once, m_try_recursively, m_boom, m_late, m_wrap, m_inout, m_id\nimport ast\ncaught = lambda: 'caught'\nfine = lambda t: ('fine', t)\nwrap = lambda t: ('wrap', t)\ninout = lambda t: ('inout', t)\nd = ast.dump\n"
CAUGHT = []
for _t in ('m_try', 'm_try_recursively'):
    CAUGHT += [
        (f"a = {_t}[q[u[m_boom[1]]]]\nb = {_t}[u[1]]\nc = d(q[z + q[u[y]]])\n", {"a": "caught", "b": "caught", "c": ast.dump(ast.parse("z + q[u[y]]", mode="eval").body)}),
        (f"a = {_t}[q[q[q[u[u[u[m_boom[1]]]]]]]]\nb = {_t}[q[u[u[1]]]]\nc = {_t}[h[a]]\n", {"a": "caught", "b": "caught", "c": "caught"}),
        (f"with {_t}:\n    with q as x:\n        n[m_boom[1]]\na = caught\ncaught = lambda: 'caught'\nb = {_t}[n['x']]\nc = d(q[n['x']])\n", {"a": 1, "b": "caught", "c": "Name(id='x', ctx=Load())"}),
        (f"a = {_t}[expandsq[m_boom[1]]]\nb = {_t}[a[1]]\nc = d(expandsq[m_wrap[1]])\n", {"a": "caught", "b": "caught", "c": ast.dump(ast.parse("wrap(1)", mode="eval").body)}),
        (f"a = {_t}[expand1sq[m_inout[m_boom[1]]]]\nb = m_wrap[m_wrap[1]]\n", {"a": "caught", "b": ("wrap", ("wrap", 1))}),
        (f"a = {_t}[step_expansion[m_inout[m_boom[1]]]]\nb = m_wrap[m_inout[m_wrap[1]]]\n", {"a": "caught", "b": ("wrap", ("inout", ("wrap", 1)))}),
        (f"a = {_t}[step_expansion['detailed'][m_late[m_wrap[1]]]]\nb = {_t}[m_wrap[1]]\n", {"a": "caught", "b": ("fine", ("wrap", 1))}),
        (f"with {_t}:\n    with expand_first[m_boom]:\n        m_id[1]\n        m_boom[2]\na = caught\nb = m_wrap[m_wrap[1]]\n", {"a": 1, "b": ("wrap", ("wrap", 1))}),
        (f"a = {_t}[q[h[m_boom][u[m_late[1]]]]]\nb = {_t}[s[1]]\n", {"a": "caught", "b": "caught"}),
        (f"a = {_t}[stepr[m_boom[1]]]\nb = {_t}[t[1]]\nc = m_wrap[1]\n", {"a": "caught", "b": "caught", "c": ("wrap", 1)}),
    ]


def judge_caught(case, obs):
    from mcpyrate import compiler
    src, want = CAUGHT[case["caught"]]
    src = CH + src
    before = state()
    stderr, sys.stderr = sys.stderr, io.StringIO()
    before["stderr"] = id(sys.stderr)
    try:
        with compiler.temporary_module("mcpv07_caught", filename=FN) as m:
            try:
                compiler.run(src, m)
            except Exception as e:
                raise fw.Violation("after-caught-failure", f"{src}\n{type(e).__name__}: {ansi(str(e))} (from {e.__cause__!r})")
            got = {k: m.__dict__.get(k) for k in want}
        compare_state(before, src)
        err = sys.stderr.getvalue()
    finally:
        sys.stderr = stderr
    expect(got == want, "after-caught-failure", lambda: f"{src}\ngives {got}, expected {want}")
    tail = src.split("\n")[-2].split(" = ")[1]
    expect(tail not in ansi(err), "debug-hook-left", lambda: f"{src}\nstill stepping after the failure:\n{ansi(err)}")
    obs.count("caught scenarios")
    probe_all(src, obs)
    return repr(case)


def fixed(tier):
    out = [{"misuse": k} for k in range(len(MISUSE))] + [{"badret": k, "syntax": sx} for k in range(len(BADRET)) for sx in ("expr", "block", "decorator", "name")]
    out += [{"caught": k, "exc": e} for k in range(len(CAUGHT)) for e in (0, 4, 7, 8)]
    for w in sorted(MACH):
        for k in (0, 1, 4, 7, 16, 17):
            out.append({"mach": w, "exc": k, "file": False})
        out.append({"mach": w, "exc": 0, "file": True})
        out.append({"mach": w, "exc": 16, "file": True})
    head = "from mcpv_mac import macros, " + ", ".join(sorted(mackit.MACROS)) + "\n"
    ident = {m: m for m in mackit.MACROS}
    for b in BOOMS:
        inv = b if b.startswith("n_") else f"{b}[7]" if b != "m_barg" else "m_barg[1][7]"
        blk = b if b != "m_barg" else "m_barg[1]"
        for k in range(len(EXC)):
            out.append({"src": head + f"a = 1\nx = m_inout[\n  m_wrap[m_visit[\n{inv}]]]\n", "bind": ident, "exc": k})
        for w in ("m_inout", "m_visit", "m_once", "m_wrap", "m_pid[n_const]", "m_try", "m_try_once", "m_try_recursively", "m_dup", "m_none", "m_emit"):
            out.append({"src": head + f"x = {w}[\n{w}[{inv}]]\ny = m_emit[m_count[2]]\n", "bind": ident, "exc": 0})
            if not b.startswith("n_"):
                out.append({"src": head + f"with {w}:\n    a\n    with {blk}, {w}:\n        b\ny = m_emit[m_count[2]]\n", "bind": ident, "exc": 3})
                out.append({"src": head + f"@{w}\n@{blk}\n@{w}\ndef f():\n    pass\ny = m_emit[m_once[m_emit[2]]]\n", "bind": ident, "exc": 7})
                out.append({"src": head + f"x = m_once[m_try[{w}[{inv}]] + m_emit[m_emit[1]]]\nwith m_once:\n    with m_try:\n        with {w}, {blk}:\n            b\n    y = m_emit[m_count[2]]\n", "bind": ident, "exc": 5})
    return out


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 1, 2]))
    keys = [m for m in sorted(mackit.MACROS) if m not in BOOMS]
    for _ in range(6):
        src = g.module(rng.randint(1, 4), rng.choice([0, 1, 1]))
        if "import" in src and ("macros" in src or "dialects" in src):
            continue
        only = rng.sample(keys, rng.choice([3, 6, 10])) + rng.sample(BOOMS, rng.choice([1, 1, 2])) + rng.sample(TRIES, rng.choice([0, 1, 2]))
        for need in ("m_wrap", "m_pid", "m_id", "n_const", "n_same"):
            only.append(need)
        only = sorted(set(only))
        try:
            text, bind, n = mackit.program(rng, src, pe=rng.choice([0.05, 0.12, 0.25]), ps=rng.choice([0.1, 0.3, 0.5]), only=only)
            if rejected(ast.parse(text), bind):
                continue
        except (SyntaxError, ValueError, RecursionError):
            continue
        if n and len(text) < 8000 and any(b in text.split("\n", 2)[-1] for b in BOOMS):
            return {"src": text, "bind": bind, "exc": rng.randrange(len(EXC)), "probe": rng.random() < .08}
    return None


def rejected(tree, bind):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in bind and (not n.args or any(isinstance(a, ast.Starred) for a in n.args)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in bind and any(isinstance(a, ast.Starred) for a in getattr(n.slice, "elts", [])):
            return True
    return False


# ---------------------------------------------------------------- judging
def judge(case, obs):
    CUR.update(off=False, raised=[], k=case.get("exc", 0), caught=0, calls=0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if "misuse" in case:
            return judge_misuse(case, obs)
        if "badret" in case:
            return judge_badret(case, obs)
        if "caught" in case:
            return judge_caught(case, obs)
        if "mach" in case:
            return judge_mach(case, obs)
        return judge_program(case, obs)


def reference(src, bind):
    log = []
    ref = Ref(bind, log, max_calls=300)
    out, groups = [], []
    for s in ast.parse(src).body:
        if isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac":
            continue
        r = ref.visit(s)
        out.extend(r) if isinstance(r, list) else out.append(r) if r is not None else None
    return out, log, ref


def judge_program(case, obs):
    from mcpyrate import compiler
    from mcpyrate.core import MacroExpansionError
    src, bind = case["src"], case["bind"]
    ctx = lambda: f"exception {EXC[case['exc']]()!r:.60}\n{brief(src, 3000)}\n" if case["exc"] != 4 else brief(src, 3000) + "\n"
    fail = None
    ref = None
    try:
        try:
            want, rlog, ref = reference(src, bind)
        except TooLarge:
            return None
        except BaseException as e:
            if isinstance(e, (fw.Violation, fw.CaseHang)) or e not in CUR["raised"]:
                raise
            fail = e
    except RecursionError:
        return None
    nraised, ncaught = len(CUR["raised"]), CUR["caught"]
    stack = None
    if fail is not None:
        tb = fail.__traceback__
        while tb is not None:   # the reference's frames know the expander
            slf = tb.tb_frame.f_locals.get("self")
            if isinstance(slf, Ref):
                ref = slf
            tb = tb.tb_next
        stack = ref.failed_at[1]
        fail.__traceback__ = None
        # more than one place that could fail first?
        CUR.update(off=True, calls=0)
        several = True
        try:
            reference(src, bind)
            several = CUR["calls"] != 1
        except (TooLarge, RecursionError):
            pass
        CUR.update(off=False)
    # the real thing
    CUR.update(raised=[], caught=0)
    del mackit.LOG[:]
    before = state()
    err = None
    exp = None
    try:
        exp = compiler.expand(src, filename=FN, self_module="prog")
    except fw.CaseHang:
        raise
    except BaseException as e:
        err = e
    obs.count("caught inside", CUR["caught"])
    if fail is None:
        expect(err is None, "unexpected-error", lambda: ctx() + f"the reference expander finishes; got {type(err).__name__}: {brief(ansi(err.args[0] if err.args and isinstance(err.args[0], str) else ''))}")
        cw, cg = collections.Counter(rlog), collections.Counter(mackit.LOG)
        expect(cw == cg, "after-caught-failure", lambda: ctx() + f"{ncaught} failures caught by macros; expansions not seen: {[brief(repr(m), 400) for m in list((cw - cg).elements())[:3]]}\nunexpected: {[brief(repr(m), 400) for m in list((cg - cw).elements())[:3]]}")
        got = mackit.canon(exp.body)
        got = [s for s in got if not (isinstance(s, ast.Import) and s.names[0].name == "mcpv_mac")]
        d = asteq.firstdiff(ast.Module(body=mackit.canon(want), type_ignores=[]), ast.Module(body=got, type_ignores=[]), ctx=False)
        expect(d is None, "tree-after-caught-failure", lambda: ctx() + str(d))
    else:
        expect(err is not None, "failure-swallowed", lambda: ctx() + f"expected {type(fail).__name__} in {stack!r}; got\n{brief(ast.unparse(exp))}")
        obs.count("failures")
        check_report(err, CUR["raised"], ctx, obs)
        if not several:
            check_stack(err, stack, ctx, obs)
            expect(len(CUR["raised"]) == nraised and CUR["caught"] == ncaught, "not-at-once", lambda: ctx() + f"{len(CUR['raised'])} macro failures instead of {nraised}")
        err.__traceback__ = None
    compare_state(before, ctx())
    if case.get("probe") or "a = 1" in src:
        probe_all(ctx(), obs)
    return fw.hash_([src, case["exc"]]) if fail is not None or ncaught else None


def check_report(err, raised, ctx, obs):
    """A MacroExpansionError caused by the macro's exception, or the BaseException itself."""
    from mcpyrate.core import MacroExpansionError
    expect(raised, "unexpected-error", lambda: ctx() + f"no macro failed, but {type(err).__name__}: {err}")
    if not isinstance(raised[-1], Exception) and err is raised[-1]:
        obs.count("base exceptions")
        return
    expect(isinstance(err, MacroExpansionError), "error-type", lambda: ctx() + f"got {type(err).__name__}")
    expect(err.__cause__ is raised[-1], "cause", lambda: ctx() + f"the cause is {type(err.__cause__).__name__}, not the {type(raised[-1]).__name__} the macro raised (chain: {[type(e).__name__ for e in chain(err)]})")


def chain(e):
    out = []
    while e is not None and len(out) < 10:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def check_stack(err, stack, ctx, obs):
    from mcpyrate.core import MacroExpansionError
    if not isinstance(err, MacroExpansionError):
        return
    msg = ansi(err.args[0])
    locs = [(int(m.group(1)), m.end()) for m in re.finditer(r"^/nonexistent/prog\.py:(\d+)", msg, re.M)]
    ends = [e for _, e in locs] + [len(msg)]
    expect(len(locs) == len(stack), "use-sites", lambda: ctx() + f"the report should name {len(stack)} nested use sites {[(n, sorted(ls)) for n, ls, _ in stack]}, it says\n{msg}")
    if locs:   # one report: its headline does not come again between the use sites
        head = {ln.strip() for ln in msg[:msg.find("/nonexistent/prog.py:")].splitlines() if ln.strip()}
        expect(not any(ln.strip() in head for ln in msg[locs[0][1]:].splitlines()), "headline-repeated", lambda: ctx() + f"the report is\n{msg}")
    for k, ((name, lines, syntax), (ln, _)) in enumerate(zip(stack, locs)):
        expect(ln in lines, "use-site-line", lambda: ctx() + f"use site {k}: {name!r} ({syntax}) at line {sorted(lines)}; the report says\n{msg}")
        part = msg[ends[k]:ends[k + 1]]
        expect(f"'{name}'" in part, "use-site-macro", lambda: ctx() + f"use site {k} should name the macro {name!r}; the report says\n{msg}")
    obs.count("use sites", len(stack))
    if len(stack) > 1:
        obs.count("nested reports")
    obs.see("stack shapes", repr([s for _, _, s in stack]))


INTERNAL = (AttributeError, KeyError, IndexError, UnboundLocalError, AssertionError, NameError, RecursionError, StopIteration)


def judge_misuse(case, obs):
    from mcpyrate import compiler
    src, line = MISUSE[case["misuse"]]
    before = state()
    ctx = f"{src}\n"
    obs.count("misuse")
    for how in ("expand", "compile", "run"):
        CUR.update(raised=[])
        err = None
        with compiler.temporary_module("mcpv07_mod", filename=FN) as m:
            try:
                if how == "run":
                    compiler.run(src, m)
                else:
                    getattr(compiler, how)(src, filename=FN, self_module="mcpv07_mod")
            except Exception as e:
                err = e
        expect(err is not None, "misuse-accepted", lambda: f"{how}: no error for\n{ctx}")
        es = chain(err)
        expect(not isinstance(es[0], INTERNAL), "odd-error", lambda: f"{ctx}{type(err).__name__}: {err}")
        if line is not None:
            text = ansi("\n".join(str(e) for e in es))
            expect(re.search(r"prog\.py:\D*(" + "|".join(map(str, range(line, src.count("\n") + 2))) + rf")\b|line {line}\b", text), "misuse-line", lambda: f"{ctx}the error does not tell line {line}: {text}")
        if CUR["raised"]:
            expect(any(e is CUR["raised"][-1] for e in es), "cause", lambda: f"{ctx}{[type(e).__name__ for e in es]}")
    compare_state(before, ctx)
    probe_all(ctx, obs)
    return src


class Bad:
    def __iter__(self):
        raise ValueError("iter")

    def __repr__(self):
        return "Bad()"


def judge_badret(case, obs):
    from mcpyrate import compiler
    from mcpyrate.core import MacroExpansionError
    from mcpyrate import namemacro
    text = BADRET[case["badret"]]
    val = {}

    def mac(tree, **kw):
        return eval(text, {"tree": tree, "ast": ast, "Bad": Bad})
    if case["syntax"] == "name":
        mac = namemacro(mac)
    md = types.ModuleType("mcpv07_badret")
    md.mac = mac
    sys.modules["mcpv07_badret"] = md
    src = "from mcpv07_badret import macros, mac\n\n" + {"expr": "x = mac[1]", "block": "with mac:\n    x", "decorator": "@mac\ndef f(): pass", "name": "x = mac"}[case["syntax"]] + "\n"
    before = state()
    if text in ("b'x'", "'text'") or text == "[tree, [tree]]":
        pass
    try:
        exp = compiler.expand(src, filename=FN, self_module="prog")
    except Exception as e:
        err = e
    else:
        raise fw.Violation("bad-result-accepted", f"a macro returned {text} for\n{src}\n{ast.dump(exp)}")
    expect(isinstance(err, MacroExpansionError) and re.search(r"prog\.py:[34]\b", ansi(str(err))) and "mac" in str(err), "bad-result-report", lambda: f"a macro returned {text} for\n{src}\n{type(err).__name__}: {ansi(str(err))}")
    expect(not isinstance(err.__cause__, INTERNAL), "bad-result-report", lambda: f"a macro returned {text} for\n{src}\ncause {err.__cause__!r}")
    compare_state(before, src)
    sys.modules.pop("mcpv07_badret")
    obs.count("bad results")
    return text + case["syntax"]


def write(name, text):
    fn = os.path.join(fw.SCRATCH, name + ".py")
    with open(fn, "w") as f:
        f.write(text)
    c = importlib.util.cache_from_source(fn)
    for p in (c, c[:-4] + ".mcpyrate.pickle"):
        if os.path.exists(p):
            os.unlink(p)
    importlib.invalidate_caches()
    return fn


def judge_mach(case, obs):
    from mcpyrate import compiler
    from mcpyrate.core import MacroExpansionError
    src, lines = MACH[case["mach"]]
    inner = None
    if isinstance(lines, str):
        inner = MACH[lines][0]
        write("mcpv07_bad", inner)
    fn = FN
    if case["file"]:
        fn = write("mcpv07_target", src)
    ctx = lambda: f"{case}\n{src}" + (f"\nwith mcpv07_bad.py:\n{inner}" if inner else "")
    before = state()
    obs.count("machinery")
    stderr, sys.stderr = sys.stderr, io.StringIO()
    sys.stderr.isatty = lambda: False
    before["stderr"] = id(sys.stderr)
    try:
        for rep in range(2):
            CUR.update(raised=[], off=False)
            err = None
            tmp = compiler.create_module("mcpv07_mod", filename=fn) if not case["file"] else None
            try:
                if case["file"]:
                    importlib.import_module("mcpv07_target")
                else:
                    compiler.run(src, tmp)
            except fw.CaseHang:
                raise
            except BaseException as e:
                err = e
            if tmp is not None:
                expect(sys.modules.pop("mcpv07_mod", None) is tmp, "registry", lambda: ctx() + "the module is no longer registered")
            expect(err is not None and CUR["raised"], "failure-swallowed", ctx)
            expect(any(e is CUR["raised"][-1] for e in chain(err)), "cause", lambda: ctx() + f"\n{[type(e).__name__ for e in chain(err)]}: {ansi(str(err))[:600]}")
            obs.count("failures")
            if isinstance(lines, list) and isinstance(CUR["raised"][-1], Exception):
                for ln in lines:
                    text = ansi("\n".join(str(e.args[0]) for e in chain(err) if e.args))
                    expect(re.search(re.escape(os.path.basename(fn)) + rf":{ln}\b", text), "use-site-line", lambda: ctx() + f"\nthe report should name line {ln}: {text}")
            compare_state(before, ctx())
        # the same with the failure gone
        CUR.update(off=True)
        err = None
        try:
            if case["file"]:
                importlib.import_module("mcpv07_target")
            elif not inner:
                with compiler.temporary_module("mcpv07_mod", filename=fn) as m:
                    compiler.run(src, m)
        except (ImportError, NameError) as e:   # transformers returning None; names of the program that do not exist
            e2 = chain(e)[-1]
            if not (case["mach"].startswith("d-") or "anything" in str(e2) or isinstance(e2, NameError) or "empty result" in str(e)):
                raise fw.Violation("after-failure", ctx() + f"\n{type(e).__name__}: {e} ({e2!r})")
        except Exception as e:
            raise fw.Violation("after-failure", ctx() + f"\n{type(e).__name__}: {e} ({e.__cause__!r})")
        finally:
            for nm in ("mcpv07_target", "mcpv07_bad"):
                sys.modules.pop(nm, None)
    finally:
        sys.stderr = stderr
    probe_all(ctx(), obs)
    return repr(case)
