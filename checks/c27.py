"""C27: run-time expansion tools (the expand family, macro_bindings, extract_bindings, expand_first, fill_location)."""
import ast
import io
import json
import os
import random
import re
import sys
import types

import asteq
import fw
import mackit
import pygen
from fw import brief, expect

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "random code with monitor macros is sent through every member of the expand family, in expression and block form, alone and nested, and the run-time trees are compared with a reference expander and with ordinary expansion of the same code; macro_bindings snapshots are compared with a model of the bindings while macros add, rebind and remove names"
LEVEL_NOTE = "Trees are compared without positions, markers and coverage dummies. The static (s) forms with unquotes are run with macros that treat their input as opaque."
RULE = "Random expressions and suites with 1-30 macro invocations; every form of the family. Non-trivial: at least one macro invocation; distinct by source and form."
QUICK = dict(n=5000, secs=15)
THOROUGH = dict(n=250000, secs=400)
MIN = {"full forms": 200, "once forms": 200, "block forms": 150, "static forms": 120, "unquoted parts": 40, "snapshots": 60, "expand_first": 20, "macro calls": 1500, "filled nodes": 200}
ASSUMPTIONS = ["the reference expander (lib/mackit.py) states the documented expansion algorithm"]

FN = "/nonexistent/prog.py"
HEAD = ("from mcpyrate.quotes import macros, q as QQ, u as UU, n as NN, a as AA, s as SS, t as TT, h as HH\n"
        "from mcpyrate.metatools import macros, macro_bindings as MB, fill_location as FL, expandsq as XSQ, expand1sq as X1SQ, expands as XS, expand1s as X1S, expandrq as XRQ, expand1rq as X1RQ, expandr as XR, expand1r as X1R, stepr as STEPR, expand_first as EF\n"
        "from mcpyrate.metatools import runtime_expand as RT, runtime_expand1 as RT1\nfrom mcpyrate.expander import MacroExpander as ME\nfrom mcpv_c27 import macros, VO\n")
E_FORMS = {   # form -> operations applied to the quoted tree
    "z = XR[QQ[{e}]]": "f", "z = XRQ[{e}]": "f", "z = XSQ[{e}]": "f", "z = XS[QQ[{e}]]": "f", "t = QQ[{e}]\nz = XR[t]": "f", "z = STEPR[QQ[{e}]]": "f", "z = STEPR['detailed'][QQ[{e}]]": "f", "z = STEPR['dump'][QQ[{e}]]": "f",
    "z = RT(MB, 'fn.py', QQ[{e}])": "f", "z = ME(MB, 'fn.py').visit_recursively(QQ[{e}])": "f", "z = ME(MB, 'fn.py').visit(QQ[{e}])": "f", "def f(tt):\n    return XR[tt]\nz = f(tt=QQ[{e}])": "f",
    "z = (lambda tt: XR[tt])(QQ[{e}])": "f", "z = XR[[QQ[{e}]]][0]": "f", "class K:\n    @staticmethod\n    def g():\n        return [XRQ[{e}] for _ in (1,)][0]\nz = K.g()": "f",
    "z = X1R[QQ[{e}]]": "o", "z = X1RQ[{e}]": "o", "z = X1SQ[{e}]": "o", "z = X1S[QQ[{e}]]": "o", "z = RT1(MB, 'fn.py', QQ[{e}])": "o", "z = ME(MB, 'fn.py').visit_once(QQ[{e}]).body": "o", "t = QQ[{e}]\nz = X1R[t]": "o",
    "z = X1R[X1R[QQ[{e}]]]": "oo", "z = X1S[X1S[QQ[{e}]]]": "oo", "z = X1R[X1R[X1RQ[{e}]]]": "ooo", "z = X1S[X1S[X1SQ[{e}]]]": "ooo", "z = X1R[X1S[QQ[{e}]]]": "oo", "z = XS[X1S[QQ[{e}]]]": "of", "z = XR[X1R[QQ[{e}]]]": "of", "z = XR[X1SQ[{e}]]": "of", "z = XR[XS[QQ[{e}]]]": "ff",
    "t = QQ[{e}]\nfor _ in (1, 2):\n    t = X1R[t]\nz = t": "oo", "z = FL[XR[QQ[{e}]]]": "f", "z = VO[XS[QQ[{e}]]]": "f", "z = VO[XSQ[{e}]]": "f", "z = VO[X1S[QQ[{e}]]]": "o", "z = VO[VO[XRQ[{e}]]]": "f", "z = XR[FL[QQ[{e}]]]": "f",
}
B_FORMS = {
    "with XRQ as z:\n{b}": "f", "with QQ as t:\n{b}\nz = XR[t]": "f", "with XSQ as z:\n{b}": "f", "with XS:\n    with QQ as z:\n{bb}": "f", "with XR:\n    with QQ as z:\n{bb}": "f", "with QQ as t:\n{b}\nz = RT(MB, 'fn.py', t)": "f", "with QQ as t:\n{b}\nz = STEPR[t]": "f",
    "def f():\n    with XRQ as z:\n{bb}\n    return z\nz = f()": "f", "def f():\n    with XSQ as z:\n{bb}\n    return z\nz = f()": "f", "with QQ as t:\n{b}\nz = ME(MB, 'fn.py').visit_recursively(FL[t])": "f",
    "with X1RQ as z:\n{b}": "o", "with X1SQ as z:\n{b}": "o", "with X1S:\n    with QQ as z:\n{bb}": "o", "with X1R:\n    with QQ as z:\n{bb}": "o", "with QQ as t:\n{b}\nz = X1R[t]": "o", "with QQ as t:\n{b}\nz = RT1(MB, 'fn.py', t)": "o",
    "with VO:\n    with XSQ as z:\n{bb}": "f", "with VO:\n    with XS:\n        with QQ as z:\n{bbb}": "f",
    "with XS:\n    with X1SQ as z:\n{bb}": "of", "with X1S:\n    with X1S:\n        with QQ as z:\n{bbb}": "oo", "with X1R:\n    with X1SQ as z:\n{bb}": "oo", "with QQ as t:\n{b}\nz = X1R[X1R[t]]": "oo", "with X1S:\n    with X1SQ as z:\n{bb}\nz = XR[z]": "oof",
    "with XS:\n    with QQ as z:\n{bb}\n    with QQ as z2:\n        m_wrap[1]": "f", "with XS:\n    with QQ as z0:\n        m_wrap[1]\n    with QQ as z:\n{bb}": "f", "with XR:\n    with QQ as z0:\n        m_wrap[1]\n    with X1SQ as z:\n{bb}": "of",
}
OPAQUE = ["m_id", "m_wrap", "m_dup", "m_emit", "m_gen", "m_rev", "m_pid", "m_inout", "m_visit", "m_oncerec"]


def setup(scratch):
    sys.setrecursionlimit(3000)
    mackit.Canon.drop_pass = True
    mackit.make_module()
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    md = types.ModuleType("mcpv_c27")

    def edit(tree, *, expander, **kw):
        """Add, rebind or remove a name: edit[op, "name", k]"""
        op, name, k = (e.value for e in tree.elts)
        if op == "add":
            expander.bindings[name] = POOL[k]
        elif name in expander.local_bindings:
            del expander.bindings[name]
        return ast.Constant(value=0)
    md.edit = edit

    def VO(tree, *, expander, **kw):
        return expander.visit_once(tree)
    md.VO = VO
    exec("def val_():\n    return 7\nclass G:\n    h = 8\n", md.__dict__)
    VO.__module__, VO.__qualname__ = "mcpv_c27", "VO"
    edit.__module__, edit.__qualname__ = "mcpv_c27", "edit"

    def mk(k):
        def f(tree, **kw):
            return tree
        f.__name__ = f.__qualname__ = f"pool{k}"
        f.__module__ = "mcpv_c27"
        return f
    POOL.extend(mk(k) for k in range(6))
    for k, f in enumerate(POOL):
        setattr(md, f"pool{k}", f)

    class Method:
        def meth(self, tree, **kw):
            return tree
    md.Method = Method
    Method.__module__, Method.__qualname__ = "mcpv_c27", "Method"
    Method.meth.__qualname__ = "Method.meth"
    md.obj = Method()
    md.meth = md.obj.meth
    sys.modules["mcpv_c27"] = md
    run(HEAD + "from mcpv_mac import macros, m_wrap as W, m_id\nz = QQ[HH[W][HH[m_id][7]]]\n")


POOL = []


# ---------------------------------------------------------------- generation
def pieces(rng, kind, only=None):
    g = pygen.Gen(rng, depth=rng.choice([1, 1, 2, 3]))
    for _ in range(6):
        if kind == "e":
            s = g.expression(rng.randint(0, 3))
            s = f"({s})\n"
        else:
            s = g.suite(rng.randint(1, 3), rng.choice([0, 1, 1, 2]))
        if not s.strip() or len(s) > 3000:
            continue
        keys = sorted(only or mackit.MACROS)
        sel = set(rng.sample(keys, min(len(keys), rng.choice([3, 6, 12])))) | {"m_wrap", "m_pid", "m_id", "n_const", "n_same"}
        try:
            text, bind, n = mackit.program(rng, s, pe=rng.choice([0.08, 0.2, 0.35]), ps=rng.choice([0.1, 0.3, 0.5]), only=sorted(sel))
            tree = ast.parse(text)
        except (SyntaxError, ValueError, RecursionError):
            continue
        imports = [x for x in tree.body if isinstance(x, ast.ImportFrom) and x.module == "mcpv_mac" and x.names[0].name == "macros"]
        body = tree.body[len(imports):]
        if not n or len(text) > 8000 or tree.body[:len(imports)] != imports or rejected(ast.Module(body=body, type_ignores=[]), bind):
            continue
        if any(isinstance(x, ast.ImportFrom) and x.module == "__future__" for x in ast.walk(tree)):
            continue
        if ast.dump(ast.parse("if 1:\n" + indent(ast.unparse(body), 4)).body[0]) != ast.dump(ast.If(test=ast.Constant(value=1), body=body, orelse=[])):
            continue   # a docstring that changes when indented
        if kind == "e" and not (len(body) == 1 and isinstance(body[0], ast.Expr)):
            continue
        return "\n".join(ast.unparse(x) for x in imports) + "\n", ast.unparse(body), bind
    return None


def rejected(tree, bind):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in bind and (not n.args or any(isinstance(a, ast.Starred) for a in n.args)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in bind and any(isinstance(a, ast.Starred) for a in getattr(n.slice, "elts", [])):
            return True
    return False


FIX_E = ["m_wrap[1]", "m_emit[m_wrap[1]]", "n_const", "n_same", "m_none[1]", "[n_same, m_none[2], n_emit]", "m_once[m_emit[m_emit[1]]]", "m_pid[n_const][m_wrap[1]]", "m_inout[m_inout[m_wrap[n_emit]]]", "m_dup[m_dup[m_dup[n_const]]]", "f(m_wrap[1], *m_emit[2], k=m_wrap[3])", "lambda x=m_wrap[1]: n_const",
         "m_oncerec[m_emit[m_once[m_emit[1]]]]", "m_count[m_emit[n_none]]", "x", "m_visit[m_emit[m_emit[n_emit]]]", "m_pself[3][1]"]
FIX_B = ["m_wrap[1]", "with m_wrap:\n    m_emit[2]", "with m_emit, m_dup as r:\n    with m_none:\n        x\n    n_const", "@m_wrap\n@m_dup\ndef f(a=m_wrap[1]):\n    return m_emit[a]", "with m_none:\n    x", "m_none[1]\nn_same\nn_none", "x = 1\nwith m_once:\n    with m_emit:\n        y\nz = m_emit[m_emit[1]]",
         "@m_none\nclass A: pass", "with m_inout, m_visit:\n    with m_emit:\n        m_wrap[2]", "if m_wrap[1]:\n    with m_none:\n        x\nelse:\n    with m_gen:\n        y", "pass"]


def fixed(tier):
    ident = {m: m for m in mackit.MACROS}
    imp = "from mcpv_mac import macros, " + ", ".join(sorted(mackit.MACROS)) + "\n"
    out = [{"k": "e", "imp": imp, "src": s, "bind": ident, "form": f} for s in FIX_E for f in E_FORMS]
    out += [{"k": "b", "imp": imp, "src": s, "bind": ident, "form": f} for s in FIX_B for f in B_FORMS]
    out += [{"k": "misuse", "i": i} for i in range(len(MISUSE))]
    out += [{"k": "file", "i": i} for i in range(3)]
    out += [{"k": "reload", "seed": i} for i in range(12)]
    out += [{"k": "fill", "i": i, "src": s} for i in range(len(FILLS)) for s in FIX_E]
    out += [{"k": "fill", "i": i, "src": "x", "seed": s} for i in range(len(FILLS)) if FILLS[i][1] for s in range(1, 9)]
    for t, forms, pool in (("e", E_FORMS, UNQ_E), ("b", B_FORMS, UNQ_B)):
        for f, form in enumerate(sorted(forms)):
            for k in range(len(pool)):
                if (f + k) % 8 == 0 or "= XSQ[{e}]" in form:
                    out.append({"k": "unqs", "t": t, "form": form, "parts": [["m_wrap", k]]})
    out += [{"k": "hyg", "form": f} for f in E_FORMS if "ME(" not in f and "XS" not in f and "1S" not in f]   # (captures are unquotes: not available to the static forms)
    out += [{"k": "hyg", "form": f} for f in HYG2]
    return out


def generate(rng, i):
    r = rng.random()
    if r < .04:
        return {"k": "reload", "seed": rng.randint(0, 10 ** 9)}
    if r < .12:
        return {"k": "snap", "ops": snap_ops(rng)}
    if r < .3:
        p = pieces(rng, "b")
        if not p:
            return None
        imp, src, bind = p
        names = sorted(bind)
        return {"k": "first", "imp": imp, "src": src, "bind": bind, "first": rng.sample(names, rng.choice([1, 1, 2, 3])), "wrap": rng.choice(["", "", "m_once", "m_wrap", "m_inout", "m_visit"]), "hyg": rng.random() < .2}
    if r > .95:
        t = rng.choice("eeb")
        n = len(UNQ_E if t == "e" else UNQ_B)
        return {"k": "unqs", "t": t, "form": rng.choice(sorted(E_FORMS if t == "e" else B_FORMS)), "parts": [[rng.choice(["", "m_id", "m_wrap", "m_wrap", "m_rev", "m_emit"])] + [rng.randrange(n) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]}
    kind = "e" if r < .65 else "b"
    unq = rng.random() < .3
    form = rng.choice(sorted(E_FORMS if kind == "e" else B_FORMS))
    static = "S[" in form or "SQ" in form or "XS" in form or "1S" in form
    p = pieces(rng, kind, only=OPAQUE + ["n_const", "n_same"] if unq and static else None)
    if not p:
        return None
    imp, src, bind = p
    return {"k": kind, "imp": imp, "src": src, "bind": bind, "form": form, "unq": rng.random() if unq else None, "static": static}


def snap_ops(rng):
    ops = []
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        name = rng.choice(["aa", "bb", "cc", "m_id", "m_wrap"])
        if r < .4:
            ops.append(["add", name, rng.randrange(6)])
        elif r < .55:
            ops.append(["del", name, 0])
        elif r < .65:
            ops.append(["import", rng.choice(["pool0", "pool1", "pool5"]), rng.choice(["aa", "bb", "dd"])])
        else:
            ops.append(["snap", rng.choice(["plain", "func", "arg", "nested", "twice"])])
    ops.append(["snap", "plain"])
    return ops


# ---------------------------------------------------------------- unquotes
class Unq(ast.NodeTransformer):
    def __init__(self, rng, plain):
        self.r, self.plain, self.defs, self.n = rng, plain, [], 0

    def visit(self, node):
        if isinstance(node, (ast.JoinedStr, ast.pattern, ast.Delete, ast.type_param, ast.Import, ast.ImportFrom)):
            return node
        if isinstance(node, ast.expr) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and not isinstance(node, (ast.Starred, ast.Slice, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) and self.r.random() < .2 and self.n < 5:
            if not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.JoinedStr)) for x in ast.walk(node)) and not (self.plain and self.hasmacro(node)):
                k = self.n
                self.n += 1
                if isinstance(node, ast.Constant) and isinstance(node.value, (int, str, bytes, float)) and self.r.random() < .6:
                    self.defs.append(f"p{k}_ = {node.value!r}" if node.value == node.value and abs(node.value if isinstance(node.value, float) else 0) != float("inf") else f"p{k}_ = QQ[{ast.unparse(node)}]")
                    op = "AA" if self.defs[-1].startswith(f"p{k}_ = QQ") else "UU"
                else:
                    self.defs.append(f"p{k}_ = QQ[{ast.unparse(node)}]")
                    op = "AA"
                return mackit.sub(op, mackit.N(f"p{k}_"))
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Subscript):   # leave macro arguments alone
            node.slice = self.visit(node.slice)
            return node
        if isinstance(node, (ast.With, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            node.body = [self.visit(x) for x in node.body]
            return node
        if isinstance(node, (ast.TypeAlias, ast.AugAssign, ast.AnnAssign, ast.Match)):
            return node
        return super().visit(node)

    def hasmacro(self, node):
        return any(isinstance(x, ast.Name) and x.id in self.b for x in ast.walk(node))


def indent(s, n):
    """Indent code (not the insides of multi-line strings: ast.unparse makes none, except docstrings)."""
    return "\n".join(" " * n + ln if ln.strip() else ln for ln in s.split("\n"))


UNQ_E = [("NN[nm_]", "foo"), ("NN['aa.bb']", "aa.bb"), ("NN[nm_](1)", "foo(1)"), ("SS[l_]", "[1, xx]"), ("TT[l_]", "(1, xx)"), ("G(*SS[l_], **AA[w_])", "G(*[1, xx], **world.peace)"), ("UU[[1, {'k': (2,)}]]", "[1, {'k': (2,)}]"),
         ("UU[nm_]", "'foo'"), ("AA[w_]", "world.peace"), ("AA[w_](k=AA[w_])", "world.peace(k=world.peace)"), ("HH[val_](1)", "HV_val_(1)"), ("[HH[val_], HH[G.h]]", "[HV_val_, HV_Gh]"), ("(lambda: HH[val_])", "(lambda: HV_val_)"), ("SS[[]]", "[]"), ("TT[[]]", "()"),
         ("{AA[w_]: UU[b'z']}", "{world.peace: b'z'}"), ("TT[[QQ[AA[w_]]]]", "(world.peace,)"), ("AA[QQ[NN[nm_] + UU[1]]]", "(foo + 1)"), ("UU[-1.5]", "(-1.5)"), ("UU[1+2j]", "(1+2j)")]
UNQ_B = UNQ_E + [("NN[nm_] = AA[w_]", "foo = world.peace"), ("with AA:\n    bl_", "aaa = 1\nbbb(2)"), ("@NN[nm_]\n@HH[val_]\ndef gg(pp=UU[3]):\n    with AA:\n        bl_", "@foo\n@HV_val_\ndef gg(pp=3):\n    aaa = 1\n    bbb(2)"),
                 ("for NN[nm_] in SS[l_]:\n    AA[w_]", "for foo in [1, xx]:\n    world.peace"), ("del NN[nm_]", "del foo"), ("if HH[val_]:\n    with AA:\n        bl_\nelse:\n    NN['ee'] += UU[4]", "if HV_val_:\n    aaa = 1\n    bbb(2)\nelse:\n    ee += 4")]
UNQ_DEFS = "nm_ = 'foo'\nl_ = [QQ[1], QQ[xx]]\nw_ = QQ[world.peace]\nfrom mcpv_c27 import val_, G\nwith QQ as bl_:\n    aaa = 1\n    bbb(2)\n"


class Uncapture(ast.NodeTransformer):
    """`lookup_value(key)` -> a name, after looking at what it gives."""
    n = 0

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr == "lookup_value" and len(node.args) == 1:
            val = eval(ast.unparse(node))
            self.n += 1
            return ast.Name(id="HV_val_" if callable(val) and val() == 7 else "HV_Gh" if val == 8 else repr(val), ctx=ast.Load())
        return self.generic_visit(node)


def judge_unqs(case, obs):
    """Each kind of unquote, in any form (opaque macros)."""
    forms = E_FORMS if case["t"] == "e" else B_FORMS
    form, ops = case["form"], forms[case["form"]]
    bind = {m: m for m in mackit.MACROS}
    pool = UNQ_E if case["t"] == "e" else UNQ_B
    text, want = [], []
    for m, *ks in case["parts"]:
        for out, j in ((text, 0), (want, 1)):
            ps = [pool[k][j] for k in ks]
            if case["t"] == "e":
                e = "K(" + ", ".join(ps) + ")"
                out.append(f"{m}[{e}]" if m else e)
            else:
                b = "\n".join(x for x in ps if x) or "pass"
                out.append(f"with {m}:\n{indent(b, 4)}" if m else b)
    src = " + ".join(text) if case["t"] == "e" else "\n".join(text)
    ref = " + ".join(want) if case["t"] == "e" else "\n".join(want)
    if case["t"] == "e":
        code = form.replace("{e}", src)
    else:
        code = form
        for k in (3, 2, 1):
            code = code.replace("{" + "b" * k + "}", indent(src, 4 * k))
    prog = HEAD + "from mcpv_mac import macros, " + ", ".join(sorted(mackit.MACROS)) + "\n" + UNQ_DEFS + code + "\n"
    b = ast.parse(ref).body
    want = ops_on(b[0].value if case["t"] == "e" else b, ops, bind, [])
    del mackit.LOG[:]
    try:
        got = run(prog).z
        un = Uncapture()
        got = mod_(mackit.canon(mod_(got if got is not None else [])))
        got = un.visit(got)
        if un.n:
            obs.count("captures in run-time trees", un.n)
    except fw.CaseHang:
        raise
    except Exception as e:
        raise fw.Violation("failed", f"{brief(prog, 3000)}\n{type(e).__name__}: {brief(clean(e))} (from {e.__cause__!r})")
    try:   # (lifting gives `Constant(-1.5)`)
        want, got = (ast.parse(ast.unparse(ast.fix_missing_locations(t))) for t in (mackit.canon(mod_(want if want is not None else [])), got))
    except SyntaxError:
        raise fw.Violation("unquote-in-form", f"{brief(prog, 3000)}\nnot parseable: {brief(ast.unparse(got), 1500)}")
    d = asteq.firstdiff(want, got, ctx=False)
    expect(d is None, "unquote-in-form", lambda: f"{brief(prog, 3000)}\n{d}\n{brief(ast.unparse(got), 1500)}")
    obs.count("unquote kinds in forms", len(case["parts"]))
    return fw.hash_([prog])


# ---------------------------------------------------------------- judging
class Ref(mackit.RefExpander):
    def ismacro(self, c):
        if isinstance(c, ast.Subscript) and isinstance(c.value, ast.Name) and c.value.id == "EF" and not getattr(self, "restricted", False):
            return "EF", self.head(c)[1]
        return super().ismacro(c)

    def apply(self, syntax, name, tree, args, invocation, **extra):
        if name != "EF":
            return super().apply(syntax, name, tree, args, invocation, **extra)
        recs = {self.b[a.id] for a in args}
        sub = Ref({n: r for n, r in self.b.items() if r in recs}, self.log, self.max_calls)
        sub.restricted = True
        out = sub.visit(tree)
        return self.visit(out) if self.recursive else out


def ops_on(tree, ops, bind, log):
    """Apply f(ull) and o(nce) expansions with the reference expander."""
    ref = Ref(bind, log, max_calls=600)
    for o in ops:
        tree = ref.visit_recursively(tree) if o == "f" else ref.visit_once(tree).body
    return tree


def mod_(x):
    if isinstance(x, list):
        return ast.Module(body=x, type_ignores=[])
    return x


def run(src, extra=()):
    from mcpyrate import compiler
    stderr, sys.stderr = sys.stderr, io.StringIO()
    try:
        with compiler.temporary_module("mcpv_c27_mod", filename=FN) as m:
            m.__dict__.update(extra)
            compiler.run(src, m)
            return m
    finally:
        run.stderr = sys.stderr.getvalue()
        sys.stderr = stderr


def judge(case, obs):
    return globals()["judge_" + {"e": "form", "b": "form"}.get(case["k"], case["k"])](case, obs)


def judge_form(case, obs):
    src, bind, form = case["src"], case["bind"], case["form"]
    ops = (E_FORMS if case["k"] == "e" else B_FORMS)[form]
    rlog = []

    def parse():
        b = ast.parse(src).body
        return b[0].value if case["k"] == "e" else b
    try:
        want = ops_on(parse(), ops, bind, rlog)
    except RecursionError:
        return None
    defs, text = "", src
    if case.get("unq") is not None:
        import random
        t = Unq(random.Random(case["unq"]), case["static"])
        t.b = bind
        new = [t.visit(x) for x in ast.parse(src).body]
        if t.n == 0:
            return None
        defs, text = "\n".join(t.defs) + "\n", ast.unparse(new)
        obs.count("unquoted parts", t.n)
    if case["k"] == "e":
        code = form.replace("{e}", text)
    else:
        code = form
        for k in (3, 2, 1):
            code = code.replace("{" + "b" * k + "}", indent(text, 4 * k))
    prog = HEAD + case["imp"] + defs + code + "\n"
    try:
        ast.parse(prog)
    except SyntaxError:   # e.g. an indented multi-line string
        return None
    del mackit.LOG[:]
    try:
        m = run(prog)
    except fw.CaseHang:
        raise
    except Exception as e:
        raise fw.Violation("failed", f"{brief(prog, 3000)}\n{type(e).__name__}: {brief(clean(e))} (from {e.__cause__!r})")
    got = m.z
    if case["k"] == "b" and got is None:
        got = []
    if case["k"] == "b" and want is None:
        want = []
    ok = isinstance(got, ast.AST) if case["k"] == "e" and not isinstance(want, list) else isinstance(got, list) or want == []
    expect(ok, "kind-of-result", lambda: f"{brief(prog, 3000)}\nz is {got!r}")
    d = asteq.firstdiff(mod_(mackit.canon(want)), mod_(mackit.canon(got)), ctx=False)
    expect(d is None, "tree", lambda: f"{brief(prog, 3000)}\n{d}")
    if case.get("unq") is None:
        expect(sorted(map(repr, rlog)) == sorted(map(repr, mackit.LOG)) or "z2" in form or "z0" in form, "macro-calls",
               lambda: f"{brief(prog, 3000)}\nexpansions missing: {brief(minus(rlog, mackit.LOG))}\nunexpected: {brief(minus(mackit.LOG, rlog))}")
    obs.count("macro calls", len(rlog))
    obs.count("full forms" if set(ops) == {"f"} else "once forms")
    if case["k"] == "b":
        obs.count("block forms")
    if "S[" in form or "SQ" in form or "XS:" in form or "X1S:" in form:
        obs.count("static forms")
    obs.see("forms", form)
    if set(ops) == {"f"} and case.get("unq") is None:
        # the same code, written in a module with those bindings
        from mcpyrate import compiler
        exp = compiler.expand(case["imp"] + (f"z_ = {src}\n" if case["k"] == "e" else src + "\n"), filename=FN, self_module="prog")
        body = [s for s in mackit.canon(exp.body) if not (isinstance(s, ast.Import) and s.names[0].name == "mcpv_mac")]
        body = body[0].value if case["k"] == "e" else body
        d = None if case["k"] == "b" and not mackit.canon(got) and [type(s).__name__ for s in body] in ([], ["Pass"]) else asteq.firstdiff(mod_(body), mod_(mackit.canon(got)), ctx=False)
        expect(d is None, "differs-from-module", lambda: f"{brief(prog, 3000)}\n{d}")
        obs.count("compared with module")
    return fw.hash_([prog]) if rlog else None


def minus(a, b):
    b = [repr(x) for x in b]
    out = []
    for x in map(repr, a):
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out[:3]


def clean(e):
    return re.sub(r"\x1b\[[0-9;]*m", "", str(e))


def judge_first(case, obs):
    from mcpyrate import compiler
    names = case["first"]
    if case["wrap"] and case["wrap"] not in case["bind"]:
        return None
    code = "with EF[" + ", ".join(f"HH[{n}]" if case["hyg"] and k % 2 == 0 else n for k, n in enumerate(names)) + f"]:\n{indent(case['src'], 4)}\n"
    if case["wrap"]:
        code = f"with {case['wrap']}:\n{indent(code, 4)}\n"
    if case["hyg"]:   # captures exist in quoted code
        code = f"with QQ as t:\n{indent(code, 4)}\nz = XR[t]\n"
    prog = HEAD + case["imp"] + code
    body = ast.parse(f"with EF[{', '.join(names)}]:\n{indent(case['src'], 4)}\n").body
    if case["wrap"]:
        body = [mackit.withm(case["wrap"], body)]
    rlog = []
    try:
        want = Ref(case["bind"], rlog, max_calls=600).visit(body)
    except RecursionError:
        return None
    del mackit.LOG[:]
    try:
        if case["hyg"]:
            got = mackit.canon(run(prog).z or [])
            obs.count("expand_first with captures")
        else:
            got = [s for s in mackit.canon(compiler.expand(prog, filename=FN, self_module="prog").body) if not (isinstance(s, (ast.Import, ast.ImportFrom)) and re.search(r"mcpv_mac|mcpv_c27|mcpyrate", ast.unparse(s)))]
    except fw.CaseHang:
        raise
    except Exception as e:
        raise fw.Violation("failed", f"{brief(prog, 3000)}\n{type(e).__name__}: {brief(clean(e))} (from {e.__cause__!r})")
    want = mackit.canon(want or [])
    d = asteq.firstdiff(mod_(want), mod_(got), ctx=False)
    expect(d is None, "expand-first-tree", lambda: f"{brief(prog, 3000)}\n{d}")
    if not case["wrap"]:   # (the monitor of an outer macro sees the text of `EF`)
        expect(sorted(map(repr, rlog)) == sorted(map(repr, mackit.LOG)), "expand-first-calls", lambda: f"{brief(prog, 3000)}\nexpansions missing: {brief(minus(rlog, mackit.LOG))}\nunexpected: {brief(minus(mackit.LOG, rlog))}")
    obs.count("expand_first")
    obs.count("macro calls", len(rlog))
    return fw.hash_([prog]) if rlog else None


def judge_snap(case, obs):
    import mcpyrate.core as core
    import mcpyrate.utils as utils
    md = sys.modules["mcpv_c27"]
    mac = sys.modules["mcpv_mac"]
    lines = [HEAD + "from mcpv_c27 import macros, edit\nfrom mcpv_mac import macros, m_id, m_wrap, m_inout, n_const\nsnaps = []"]
    model = {"edit": md.edit, "VO": md.VO, "m_id": mac.m_id, "m_wrap": mac.m_wrap, "m_inout": mac.m_inout, "n_const": mac.n_const}
    import mcpyrate.metatools as mt
    import mcpyrate.quotes as qu
    for n, f in (("QQ", "q"), ("UU", "u"), ("NN", "n"), ("AA", "a"), ("SS", "s"), ("TT", "t"), ("HH", "h")):
        model[n] = getattr(qu, f)
    for n, f in re.findall(r"(\w+) as (\w+)", HEAD.split("\n")[1]):
        model[f] = getattr(mt, n)
    wants = []
    imported = []
    for op in case["ops"]:   # macro-imports take effect before anything else in the module is expanded
        if op[0] == "import":
            imported.append(f"from mcpv_c27 import macros, {op[1]} as {op[2]}")
            model[op[2]] = getattr(md, op[1])
    lines[0] = lines[0] + "\n" + "\n".join(imported)
    for op in case["ops"]:
        if op[0] == "add":
            lines.append(f"edit[('add', {op[1]!r}, {op[2]})]")
            model[op[1]] = POOL[op[2]]
        elif op[0] == "del":
            lines.append(f"edit[('del', {op[1]!r}, 0)]")
            model.pop(op[1], None)
        elif op[0] == "snap":
            if op[1] in ("plain", "twice"):
                lines.append("snaps.append(MB)" if op[1] == "plain" else "for _ in (1, 2):\n    sn = MB\n    sn2 = dict(sn)\n    sn.clear()\nsnaps.append(sn2)")
            elif op[1] == "func":
                lines.append(f"def f{len(wants)}():\n    return MB\nLATER({len(wants)}, f{len(wants)})\nsnaps.append(None)")
            elif op[1] == "arg":
                if "m_inout" not in model:
                    continue
                lines.append("inout = lambda x: x\nsnaps.append(m_inout[MB])")
            else:
                lines.append("snaps.append([(lambda: MB)() for _ in (1,)][0])")
            wants.append(dict(model))
    later = {}
    prog = "\n".join(lines) + "\n"
    glob = dict(core.global_bindings)
    m = run(prog, {"LATER": later.__setitem__})
    snaps = m.snaps
    for k, f in later.items():
        snaps[k] = f()
    expect(len(snaps) == len(wants), "snapshot-count", lambda: prog)
    for k, (s, w) in enumerate(zip(snaps, wants)):
        expect(isinstance(s, dict), "snapshot-type", lambda: f"{prog}\nsnapshot {k}: {s!r}")
        expect(all(s.get(n) is f for n, f in glob.items()), "snapshot-captured", lambda: f"{prog}\nsnapshot {k} lacks the captured macros")
        s = {n: f for n, f in s.items() if not re.search(r"_[0-9a-f]{32}$", n)}
        bad = {n for n in set(s) | set(w) if s.get(n) != w.get(n)}
        expect(not bad, "snapshot", lambda: f"{prog}\nsnapshot {k}: names wrongly bound: { {n: (s.get(n), w.get(n)) for n in bad} }")
        obs.count("snapshots")
        fs = sorted(w.values(), key=repr)
        for cnt in (0, 1, 2, 3):
            pick = fs[:: max(1, len(fs) // 3)][:cnt] + ([md.obj.meth] if cnt == 3 else [])
            got = utils.extract_bindings(s, *pick)
            exp = {n: f for n, f in w.items() if any(f == p for p in pick)}
            expect(got == exp and all(got[n] is s[n] for n in got), "extract-bindings", lambda: f"extract_bindings of {pick} gives {sorted(got)}, expected {sorted(exp)}")
            obs.count("extracted")
    return fw.hash_([case["ops"]])


# (a static form leaves captured macros for later)
HYG2 = {"z = XR[XSQ[{e}]]": "f", "z = XR[X1SQ[{e}]]": "f", "z = X1R[XS[QQ[{e}]]]": "o", "z = XR[XS[X1S[QQ[{e}]]]]": "f", "z = XSQ[{e}]": "", "z = XS[X1S[QQ[{e}]]]": "", "t = X1SQ[{e}]\nz = X1R[X1R[t]]": "oo"}


def judge_hyg(case, obs):
    """Hygienically captured macros in the quoted code are found by the tools, too."""
    form = case["form"]
    ops = HYG2[form] if form in HYG2 else E_FORMS[form]
    prog = HEAD + "from mcpv_mac import macros, m_wrap as W, m_emit, m_wrap, m_id, m_pid\n" + form.replace("{e}", "HH[W][HH[m_id][7]]") + "\n"
    m = run(prog)
    ident = {k: k for k in mackit.MACROS}
    want = ast.parse("m_wrap[m_id[7]]").body[0].value
    want = ops_on(want, ops, ident, []) if ops else want
    got = ast.dump(mackit.canon(m.z))
    got = re.sub(r"'W_[0-9a-f]{32}'", "'m_wrap'", re.sub(r"'m_id_[0-9a-f]{32}'", "'m_id'", got))
    got, want = re.sub(r", ctx=Load\(\)", "", got), re.sub(r", ctx=Load\(\)", "", ast.dump(mackit.canon(want)))
    expect(got == want, "captured-macro", lambda: f"{prog}\ngives {got}\nexpected {want}")
    obs.count("captured macros")
    return repr(case)


FILLS = [("{0}z = FL[QQ[{1}]]\n", None), ("with QQ as t:\n    x = {1}\n    y\n{0}z = FL[t]\n", None), ("{0}z = FL[QQ[AA[loc] + {1}]]\n", "loc"), ("t = QQ[{1}]\n{0}z = [0,\n FL[t]][1]\n", None), ("{0}z = FL[XRQ[AA[loc] + {1}]]\n", "loc"), ("{0}z = FL[[QQ[{1}], loc, loc]]\n", "loc")]


def judge_fill(case, obs):
    """fill_location: the position of its invocation, for the nodes that have none."""
    form, located = FILLS[case["i"]]
    prog = HEAD + "from mcpv_mac import macros, " + ", ".join(sorted(mackit.MACROS)) + "\n" + form.replace("{0}", "if 1: ").replace("{1}", f"({case['src']})")
    inv = next(n for n in ast.walk(ast.parse(prog)) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "FL")
    loc = ast.parse("\n\n\n(f(a,\n b) + c)", mode="eval").body
    rng = random.Random(case.get("seed", 0))
    for n in list(ast.walk(loc)):    # some nodes of the spliced tree have no position
        if case.get("seed") and "lineno" in n._attributes and rng.random() < .4:
            for a in n._attributes:
                delattr(n, a)
    before = {id(n): (n.lineno, n.col_offset) for n in ast.walk(loc) if hasattr(n, "lineno")}
    was = [before.get(id(n)) for n in ast.walk(loc)]
    text = ast.dump(loc)
    m = run(prog, {"loc": loc})
    found = [t for t in ast.walk(mod_(m.z) if not isinstance(m.z, list) else ast.Module(body=m.z, type_ignores=[])) if ast.dump(t) == text]
    expect(found or not located, "spliced-tree", prog)
    for t in found:    # (the spliced tree may have been copied)
        for n, pos in zip(ast.walk(t), was):
            if "lineno" in n._attributes:
                expect((n.lineno, n.col_offset) == (pos or (inv.lineno, inv.col_offset)), "position-of-part", lambda: f"{prog}\n{ast.dump(n)} is at {(n.lineno, n.col_offset)}, was at {pos}; the invocation is at {(inv.lineno, inv.col_offset)}")
    kept = 0
    for n in ast.walk(mod_(m.z) if not isinstance(m.z, list) else ast.Module(body=m.z, type_ignores=[])):
        if "lineno" not in n._attributes or isinstance(n, ast.Module):
            continue
        obs.count("filled nodes")
        pos = (getattr(n, "lineno", None), getattr(n, "col_offset", None))
        if id(n) in before:
            kept += 1
            expect(pos == before[id(n)], "position-overwritten", lambda: f"{prog}\n{ast.dump(n)} is at {pos}, was at {before[id(n)]}")
        elif located is None or pos not in before.values():   # (a spliced tree may have been copied)
            expect(pos == (inv.lineno, inv.col_offset), "position-not-filled", lambda: f"{prog}\n{ast.dump(n)} is at {pos}, the invocation at {(inv.lineno, inv.col_offset)}")
    return repr(case)


MISUSE = ["x = XS[y]", "x = XS[f(1)]", "x = X1S[[y]]", "x = XS[1]", "with XS:\n    x", "with X1S:\n    x = 1", "with XR:\n    x", "with XS:\n    with QQ as z:\n        x\n    y = 1", "with X1R:\n    x = y", "with XSQ:\n    x", "with XRQ:\n    x", "with EF:\n    x", "with EF[nope]:\n    x", "with EF[m_id as y]:\n    x", "x = EF[m_id][1]", "with STEPR:\n    x", "x = MB[1]",
          "with X1S as y:\n    with QQ as z:\n        x", "with X1S as y:\n    with QQ:\n        x", "with EF[m_id] as y:\n    x", "with EF[m_id, 1]:\n    x", "with EF['m_id']:\n    x", "with EF[m_id, f(y)]:\n    x", "with EF[m_id.x]:\n    x", "with EF[AA[m_id]]:\n    x", "with EF[QQ[m_id]]:\n    x" if False else "with EF[QQ[5]]:\n    x",
          "with XRQ as (a, b):\n    x", "with XSQ as a.b:\n    x", "with XS as y:\n    with QQ as z:\n        x"]
MISUSE += [f"@{m}\n{d} f{'()' if d == 'def' else ''}:\n    pass" for m in ("XSQ", "X1SQ", "XS", "X1S", "XRQ", "X1RQ", "XR", "X1R", "STEPR", "FL", "MB", "EF", "EF[m_id]") for d in ("def", "class")]


def judge_misuse(case, obs):
    s = MISUSE[case["i"]]
    prog = HEAD + "from mcpv_mac import macros, m_id\n" + s + "\n"
    try:
        run(prog, {"y": 1, "f": lambda *a: None})
    except Exception:
        obs.count("misuse")
        return repr(case)
    raise fw.Violation("misuse-accepted", prog)


def judge_reload(case, obs):
    """Forms in a console whose macro libraries are edited and reloaded: they see the current definitions, as macro-imports do."""
    from mcpyrate.repl.console import MacroConsole
    # in a process of its own, because it reloads parts of mcpyrate
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                reload_history(random.Random(case["seed"]), case, obs, MacroConsole)
                text = json.dumps(["ok", obs.counters.get("forms after reloads", 0)])
            except fw.Violation as e:
                text = json.dumps([e.mech, e.msg])
            except BaseException as e:
                text = json.dumps(["reload-error", repr(e)])
            with os.fdopen(w, "w") as f:
                f.write(text)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        mech, msg = json.loads(f.read())
    os.waitpid(pid, 0)
    if mech != "ok":
        raise fw.Violation(mech, msg)
    obs.counters["forms after reloads"] = msg
    return repr(case)


def reload_history(rng, case, obs, MacroConsole):
    d = os.path.join(fw.SCRATCH, "reload")
    os.makedirs(d, exist_ok=True)
    libs = ["rl27a", "rl27b"]
    if d not in sys.path:
        sys.path.insert(0, d)
    version = dict.fromkeys(libs, 0)
    clock = getattr(reload_history, "clock", 10 ** 9)

    def put(lib):
        nonlocal clock
        clock += 10
        reload_history.clock = clock
        version[lib] += 1
        with open(os.path.join(d, lib + ".py"), "w") as f:
            f.write(("from rl27a import macros, aa\n" if lib == "rl27b" else "") + "from mcpyrate.quotes import macros, q, a, h, u\n" + "".join(f"def {m}{lib[-1]}(tree, **kw): return q[(u['{m}{lib[-1]} v{version[lib]}'], a[tree])]\n" for m in "abc") + ("def hyg(tree, **kw): return q[h[aa][a[tree]]]\n" if lib == "rl27b" else ""))
        os.utime(os.path.join(d, lib + ".py"), (clock, clock))
    for lib in libs:
        sys.modules.pop(lib, None)
        put(lib)
    console = MacroConsole()
    bound = {}
    log = []

    def push(line):
        out, err = io.StringIO(), io.StringIO()
        log.append(line)
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        try:
            console.push(line)
        finally:
            sys.stdout, sys.stderr = so, se
        return out.getvalue(), err.getvalue()
    for line in ("from mcpyrate.quotes import macros, q", "from mcpyrate import unparse", "from mcpyrate.metatools import macros, expandr, expandrq, expand1rq, macro_bindings"):
        expect(push(line) == ("", ""), "reload-setup", line)
    loaded = {}
    for _ in range(rng.randint(6, 16)):
        op = rng.choice(["edit", "import", "import", "use", "use", "meta", "hyg"])
        if op == "edit":
            put(rng.choice(libs))
            log.append("(edit)")
        elif op == "import":
            lib = rng.choice(libs)
            names = rng.sample([m + lib[-1] for m in "abc"], rng.randint(1, 2))
            got = push(f"from {lib} import macros, {', '.join(names)}")
            expect(got == ("", ""), "reload-import", lambda: f"{log}: {got}")
            if lib == "rl27b" and "rl27a" not in loaded:
                loaded["rl27a"] = version["rl27a"]
            loaded[lib] = version[lib]
            bound.update(dict.fromkeys(names, lib))
        elif op == "meta":
            got = push("from mcpyrate.metatools import macros, " + rng.choice(["stepr", "fill_location", "expandsq"]))
            expect(got == ("", ""), "reload-import", lambda: f"{log}: {got}")
        elif op == "hyg":
            if "rl27b" not in loaded:
                continue
            got = push("from rl27b import macros, hyg")
            loaded["rl27b"] = version["rl27b"]
            expect(got == ("", ""), "reload-import", lambda: f"{log}: {got}")
            got = push("hyg[1]")
            expect(got[0].startswith("('aa v") and not got[1], "reload-hygienic", lambda: f"{log}: {got}")
        elif bound:
            m, lib = rng.choice(sorted(bound.items()))
            form = rng.choice(["expandrq[{}]", "expand1rq[{}]", "expandr[q[{}]]", "expandr[expand1rq[{}]]"])
            # in a reloaded library, the current definition
            want = repr(f"('{m} v{loaded[lib]}', 7)") + "\n"
            got = push(f"unparse({form.format(m + '[7]')})")
            expect(got == (want, ""), "reload-form", lambda: f"{log}: {got}, expected {want}")
            obs.count("forms after reloads")
    return repr(case)


def judge_file(case, obs):
    """The same from a file, in two processes (the second runs the cached bytecode)."""
    d = os.path.join(fw.SCRATCH, f"file{case['i']}")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "m27mac.py"), "w") as f:
        f.write("from mcpyrate.quotes import macros, q, a\ndef twice(tree, **kw):\n    return q[a[tree] * 2]\ndef third(tree, *, syntax, **kw):\n    return q[twice_[a[tree]]]\n")
    body = {0: "with expandrq as z:\n    x = dd[u[v]]\nout = [unparse(z), unparse(expandrq[dd[dd[1]]]), unparse(expandsq[dd[2] + third[3]])]\n",
            1: "def f(t):\n    return expandr[t]\nout = [unparse(f(q[dd[u[[v, 'a']]]])), unparse(f(f(q[dd[1]]))), unparse(f(q[h[dd][1] - h[third][2]]))]\n",
            2: "b = macro_bindings\nout = [sorted((k, g.__module__, g.__qualname__) for k, g in b.items() if g.__module__ == 'm27mac'), b['dd'] is m27mac.twice, unparse(MacroExpander(b, 'x').visit(q[dd[5]]))]\n"}[case["i"]]
    want = {0: ["x = (4 * 2)", "((1 * 2) * 2)", "((2 * 2) + twice_[3])"], 1: ["([4, 'a'] * 2)", "(1 * 2)", "((1 * 2) - twice_[2])"], 2: [[("dd", "m27mac", "twice"), ("third", "m27mac", "third")], True, "(5 * 2)"]}[case["i"]]
    with open(os.path.join(d, "m27use.py"), "w") as f:
        f.write("from mcpyrate.quotes import macros, q, u, h\nfrom mcpyrate.metatools import macros, expandrq, macro_bindings, expandsq, expandr\nfrom m27mac import macros, twice as dd, third\nfrom mcpyrate import unparse\nfrom mcpyrate.expander import MacroExpander\nimport m27mac\nv = 4\n" + body)
    for k in range(2):
        p = fw.run_py(["-c", "import mcpyrate.activate, m27use; print(repr(m27use.out))"], d, fw.child_env(d))
        expect(p.rc == 0 and p.out.strip() == repr(want), "across-processes", lambda: f"process {k + 1}: {body}\nprints {brief(p.out)} {brief(p.err)}\nexpected {want!r}")
        obs.count("processes")
    return repr(case)
