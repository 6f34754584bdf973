r"""C26: debugging aids: expansion, dialect and phase stepping, and binding display, are faithful and change nothing."""
import ast
import collections
import contextlib
import copy
import io
import os
import re
import sys
import types
import warnings

import asteq
import fw
import mackit
import pygen
from fw import brief, expect

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "random programs are expanded with and without debugging aids at random places while monitor macros, dialects and statements log what happens; results and logs must agree, and everything the aids print is compared with what an instrumented reference expander, the dialects' own logs, and a model of the phases say happened at each step"
LEVEL_NOTE = "Printed trees are compared as text in the unparser's debug notation (dumps are evaluated first), without colours, positions and coverage dummies; step numbers, headings, nesting, macro names and markers are compared exactly."
RULE = "Random modules with 1-6 aids of random modes; dialect chains of 1-6 dialects; multi-phase modules. Non-trivial: at least one step printed; distinct by source."
QUICK = dict(n=6000, secs=20)
THOROUGH = dict(n=250000, secs=400)
MIN = {"programs": 300, "steps": 1500, "detailed events": 300, "nested": 60, "dump trees": 200, "dialect modules": 100, "dialect steps": 300, "phase modules": 60, "phases printed": 120, "binding displays": 60, "failures": 20, "validated trees": 40}
ASSUMPTIONS = ["the reference expander (lib/mackit.py) states the documented expansion algorithm",
               "macros around an invocation of step_expansion treat their input as opaque"]

FN = "/nonexistent/prog.py"
OPAQUE = ["m_id", "m_wrap", "m_dup", "m_emit", "m_gen", "m_inout", "m_visit", "m_oncerec", "m_pid", "m_pdrop", "m_pexp", "m_pself", "m_as", "m_none", "m_inner", "n_same", "n_const", "n_emit", "n_none", "n_par"]
MODES = [[], [], [], ["detailed"], ["dump"], ["dump", "detailed"], ["summary"], ["unparse", "detailed"], ["detailed", "dump"]]
STEP = "step_expansion"
DLOG = []
DSPEC = {}


def setup(scratch):
    sys.setrecursionlimit(3000)
    mackit.Canon.drop_pass = True
    mackit.make_module()
    import checks.c14 as c14
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    from mcpyrate.core import Done
    from mcpyrate.dialects import Dialect
    c14.setup(scratch)
    global RefDone
    RefDone = mackit.RefDone = Done
    mackit.MACROS[STEP] = (stepper, True, False)
    md = types.ModuleType("mcpv_c26")

    def edit(tree, *, expander, **kw):
        op, name, k = (e.value for e in tree.elts)
        if op == "add":
            expander.bindings[name] = getattr(md, f"pool{k}")
        elif name in expander.local_bindings:
            del expander.bindings[name]
        return ast.Constant(value=0)

    def boom(tree, **kw):
        raise BOOM("boom")
    md.edit, md.boom = edit, boom
    for k in range(4):
        def f(tree, **kw):
            return tree
        f.__name__ = f.__qualname__ = f"pool{k}"
        f.__module__ = "mcpv_c26"
        setattr(md, f"pool{k}", f)
    for f in (edit, boom):
        f.__module__, f.__qualname__ = "mcpv_c26", f.__name__

    def mkd(name):
        def src(self, text):
            DLOG.append(("src", name, text, self.lineno))
            out = effect_src(DSPEC[name][0], name, text)
            DLOG.append(("src-out", name, out if isinstance(out, str) else None, self.lineno))
            return out

        def tree(self, t):
            DLOG.append(("ast", name, show(t), self.lineno))
            out = effect_ast(DSPEC[name][1], name, t)
            DLOG.append(("ast-out", name, None if out is NotImplemented else show(out), self.lineno))
            return out

        def post(self, t):
            DLOG.append(("post", name, show(t), self.lineno))
            out = effect_ast(DSPEC[name][2], "p" + name, t)
            DLOG.append(("post-out", name, None if out is NotImplemented else show(out), self.lineno))
            return out
        return type(name, (Dialect,), {"transform_source": src, "transform_ast": tree, "postprocess_ast": post, "__module__": "mcpv_c26", "__qualname__": name})
    for k in range(5):
        setattr(md, f"D{k}", mkd(f"D{k}"))
    sys.modules["mcpv_c26"] = md


def shard_setup(scratch):
    sys.path.insert(0, scratch)


class BOOM(Exception):
    pass


def effect_src(eff, name, text):
    if eff == "no":
        return NotImplemented
    if eff == "append":
        return text + f"src_{name} = m_wrap[1]\n"
    if eff == "translate":
        return text.replace("§", f"{name}_here")
    return text


def effect_ast(eff, name, tree):
    if eff == "no":
        return NotImplemented
    if eff == "append":
        tree.body += ast.parse(f"ast_{name} = m_wrap[2]" if name[0] != "p" else f"post_{name} = 3").body
    elif eff == "new":
        return ast.Module(body=tree.body + ast.parse(f"new_{name} = 1").body, type_ignores=[])
    elif eff == "rename":
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == "victim":
                n.id = f"victim_{name}"
    return tree


# ---------------------------------------------------------------- texts
def plain(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


COVERAGE = re.compile(r"^ *(L +(-+|\d+) )? *\$ASTMarker<Done>: *\n(?= *(L +\d+ )? *_mcpyrate_coverage = )|^ *(L +\d+ )? *_mcpyrate_coverage = .*\n?", re.M)


def tidy(text):
    """A printed tree, without positions and coverage dummies."""
    text = COVERAGE.sub("", plain(text) + "\n")
    rows = []
    for ln in text.split("\n"):
        ln = re.sub(r"^( *)L +(-+|\d+) ", r"\1", ln)
        if ln.strip() and ln.strip() != "pass":
            rows.append(ln.rstrip())
    return "\n".join(rows)


def show(tree):
    """A tree in debug notation (for ones that will change later)."""
    from mcpyrate import unparse
    return unparse(tree, debug=True)


def as_nodes(x):
    return list(x) if isinstance(x, tuple) else x


def same_text(a, b):
    return re.sub(r"\s+", "", a) == re.sub(r"\s+", "", b)


def undump(text):
    ns = {n: getattr(ast, n) for n in dir(ast)}
    ns.update(Ellipsis=..., Done=RefDone, inf=float("inf"), nan=float("nan"), infj=complex(0, float("inf")), nanj=complex(0, float("nan")))
    return eval(text, ns)


# ---------------------------------------------------------------- the reference: what step_expansion does and prints
EVENTS = []       # expected output
HOOKS = []        # innermost detailed stepping: (level, step counter, mode)
LEVEL_ = [0]


class Ref(mackit.RefExpander):
    def node(self, node):
        if isinstance(node, ast.With):
            invocation = any(self.ismacro(i.context_expr) for i in node.items)
        else:
            invocation = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and any(self.ismacro(d) for d in node.decorator_list)
        out = super().node(node)
        if invocation:   # the dummy statement for coverage tools (`elif` versus `else: if` depends on it)
            out = out if isinstance(out, list) else [] if out is None else [out]
            out.insert(0, RefDone(ast.fix_missing_locations(ast.parse("_mcpyrate_coverage = 'here'").body[0])))
        return out

    def hasmacros(self, tree):
        if isinstance(tree, list):
            return any([self.hasmacros(t) for t in tree])
        if tree is None or isinstance(tree, RefDone) or not isinstance(tree, ast.AST):
            return False
        if isinstance(tree, ast.Subscript) and self.ismacro(tree.value):
            return True
        if isinstance(tree, ast.With) and any(self.ismacro(i.context_expr) for i in tree.items):
            return True
        if isinstance(tree, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and any(self.ismacro(d) for d in tree.decorator_list):
            return True
        if isinstance(tree, ast.Name) and tree.id in self.b and mackit.MACROS[self.b[tree.id]][2]:
            return True
        return any(self.hasmacros(getattr(tree, f, None)) for f in tree._fields)

    def apply(self, syntax, name, tree, args, invocation, **extra):
        if not HOOKS:
            return super().apply(syntax, name, tree, args, invocation, **extra)
        before = show_ref(copy.deepcopy(invocation))
        hook = HOOKS[-1]
        # the same as the base class, with the event in the middle
        if len(self.log) > self.max_calls:
            raise RecursionError("reference: too many calls")
        rec = self.b[name]
        info = dict(syntax=syntax, **extra)
        mackit.log_call(self.log, rec, tree, args, invocation, info)
        out = mackit.MACROS[rec][0](tree, args, self, info)
        if out is not None and not isinstance(out, ast.AST):
            out = list(out)
        EVENTS.append(("detail", hook["level"], hook["step"], name, before, "None" if out is None else show_ref(out), hook["dump"]))
        self.fill(out, invocation)
        if self.recursive and syntax != "name":
            out = self.visit(out)
        return out


def show_ref(tree):
    """Like `show`, for trees of the reference, which may have `None` in place of deleted expressions."""
    return show(tree)


def stepper(tree, args, vis, info):
    if vis.__class__ is not Ref:
        raise AssertionError("only for the reference")
    modes = [a.value for a in args]
    LEVEL_[0] += 1
    level = LEVEL_[0]
    hook = {"level": level, "step": 0, "dump": "dump" in modes}
    EVENTS.append(("before", level, show_ref(tree), hook["dump"]))
    if "detailed" in modes:
        HOOKS.append(hook)
    elif HOOKS:
        HOOKS.append(HOOKS[-1])   # the outer one stays in effect
    try:
        while vis.hasmacros(tree):
            hook["step"] += 1
            tree = vis.visit_once(tree).body
            EVENTS.append(("step", level, hook["step"], "" if tree is None else show_ref(tree), hook["dump"]))
    finally:
        if HOOKS:
            HOOKS.pop()
        LEVEL_[0] -= 1
    EVENTS.append(("complete", level, hook["step"]))
    return tree


HEADING = re.compile(r"^(\*+)Tree 0x([0-9a-f]+) \((.*?)\) (before macro expansion|after step (\d+)|processing step (\d+)|macro expansion complete after (\d+) (steps?))[:.]$")


def parse_output(text, filename):
    """What was printed, in the form of EVENTS."""
    out = []
    body = []
    cur = None

    def finish():
        if cur is None:
            expect(not "".join(body).strip(), "output", lambda: f"unexpected text before any heading:\n{brief(chr(10).join(body), 600)}")
            return
        kind, level, k, indent = cur
        expect(all(not ln.strip() or ln.startswith(" " * indent) or kind == "complete" for ln in body[:1]), "indentation", lambda: f"level {level}:\n{brief(chr(10).join(body), 400)}")
        t = "\n".join(ln[indent:] for ln in body)
        if kind == "before":
            out.append(("before", level, t))
        elif kind == "step":
            out.append(("step", level, k, t))
        elif kind == "complete":
            expect(not t.strip(), "output", lambda: f"text after the end of stepping: {brief(t, 400)}")
            out.append(("complete", level, k))
        else:
            m = re.match(r"Applying (\S+) at subtree 0x[0-9a-f]+:\n(.*)^Result:\n(.*)", t, re.S | re.M)
            expect(m, "output", lambda: f"detail of a step:\n{brief(t, 800)}")
            ded = lambda s: "\n".join(ln[2:] for ln in s.split("\n"))
            out.append(("detail", level, k, m.group(1), ded(m.group(2)), ded(m.group(3))))
    tags = {}
    for ln in text.split("\n"):
        m = HEADING.match(ln)
        if not m:
            body.append(ln)
            continue
        finish()
        body = []
        stars, tag, fn, what = m.group(1, 2, 3, 4)
        expect(fn == filename, "file", lambda: f"{fn!r} in {ln!r}, expected {filename!r}")
        level = len(stars) // 2
        expect(len(stars) % 2 == 0, "nesting", lambda: ln)
        if what.startswith("before"):
            cur = ("before", level, None, len(stars))
            tags[level] = tag
        elif what.startswith("after"):
            cur = ("step", level, int(m.group(5)), len(stars))
        elif what.startswith("processing"):
            cur = ("detail", level, int(m.group(6)), len(stars))
        else:
            cur = ("complete", level, int(m.group(7)), len(stars))
            expect((m.group(8) == "step") == (m.group(7) == "1"), "plural", lambda: ln)
        expect(tags.get(level) == tag, "tag", lambda: f"heading of another tree: {ln!r}, expected 0x{tags.get(level)}")
    finish()
    return out


def as_shown(t, dumped):
    """A printed tree -> text in debug notation."""
    if not dumped or t.strip() in ("", "None"):
        return t
    return show(undump(t.strip()))


class Unstep(ast.NodeTransformer):
    """Remove invocations of step_expansion."""
    def __init__(self, names):
        self.names = names

    def isstep(self, x):
        if isinstance(x, ast.Subscript):
            x = x.value
        return isinstance(x, ast.Name) and x.id in self.names

    def visit_Subscript(self, node):
        if self.isstep(node.value):
            return self.visit(node.slice)
        return self.generic_visit(node)

    def visit_With(self, node):
        node.items = [i for i in node.items if not self.isstep(i.context_expr)]
        self.generic_visit(node)
        return node if node.items else node.body

    def visit_list(self, lst):
        out = []
        for x in lst:
            r = self.visit(x)
            out.extend(r) if isinstance(r, list) else out.append(r)
        return out


class AddSteps(ast.NodeTransformer):
    def __init__(self, rng, bind, name, pe, ps):
        self.r, self.bind, self.name, self.pe, self.ps = rng, bind, name, pe, ps
        self.n = 0

    def head(self):
        self.n += 1
        modes = self.r.choice(MODES)
        h = mackit.N(self.name)
        if not modes:
            return h
        args = [ast.Constant(value=m) for m in modes]
        return ast.Subscript(value=h, slice=args[0] if len(args) == 1 else mackit.tup(*args), ctx=ast.Load())

    def macrohead(self, x):
        if isinstance(x, ast.Subscript):
            x = x.value
        elif isinstance(x, ast.Call):
            x = x.func
        return isinstance(x, ast.Name) and x.id in self.bind

    def args_only(self, x):
        """Inside a macro invocation's head: only its arguments can be stepped."""
        if isinstance(x, ast.Subscript):
            if isinstance(x.slice, ast.Tuple):
                x.slice.elts = [self.visit(e) for e in x.slice.elts]
            elif not isinstance(x.slice, (ast.Constant, ast.List)):
                x.slice = self.visit(x.slice)
        elif isinstance(x, ast.Call):
            x.args = [self.visit(e) for e in x.args]
        return x

    def inner(self, x):
        """Like visit, but not around `x` itself."""
        return super().visit(x)

    def visit(self, node):
        if isinstance(node, (ast.pattern, ast.JoinedStr, ast.FormattedValue, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.type_param, ast.TypeAlias, ast.Slice)):
            return node
        if isinstance(node, (ast.expr, ast.expr_context)) and not isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            if isinstance(node, (ast.Attribute, ast.Subscript)):
                node.value = self.inner(node.value) if not self.macrohead(node) else node.value
            return node
        if isinstance(node, ast.NamedExpr):
            node.value = self.visit(node.value)
            return node
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return node
        if isinstance(node, ast.AnnAssign):
            node.value = node.value and self.visit(node.value)
            return node
        return super().visit(node) if not isinstance(node, ast.expr) else self.wrap(super().visit(node))

    def wrap(self, node):
        if isinstance(node, (ast.Starred, ast.Slice)) or isinstance(node, ast.Tuple) and (not node.elts or any(isinstance(e, (ast.Starred, ast.Slice)) for e in node.elts)):
            return node
        if self.r.random() < self.pe:
            return ast.Subscript(value=self.head(), slice=node, ctx=ast.Load())
        return node

    def visit_Subscript(self, node):
        if self.macrohead(node.value):
            node.value = self.args_only(node.value)
        else:
            node.value = self.inner(node.value)
        node.slice = self.visit(node.slice)
        return node

    def with_(self, node):
        for it in node.items:
            it.context_expr = self.args_only(it.context_expr) if self.macrohead(it.context_expr) else self.inner(it.context_expr)
        node.body = [self.visit(s) for s in node.body]
        if isinstance(node, ast.With) and self.r.random() < self.ps:
            node.items.insert(self.r.randint(0, len(node.items)), ast.withitem(context_expr=self.head(), optional_vars=None))
        self.suites(node)
        return node
    visit_With = visit_AsyncWith = with_

    def visit_Call(self, node):
        node.func = self.inner(node.func)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return node

    def generic_visit(self, node):
        decs = getattr(node, "decorator_list", None)
        if decs is not None:
            node.decorator_list = []
            super().generic_visit(node)
            node.decorator_list = [self.args_only(d) if self.macrohead(d) else self.inner(d) for d in decs]
        else:
            super().generic_visit(node)
        self.suites(node)
        return node

    def suites(self, node):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and self.r.random() < self.ps:
                lo = 0
                while lo < len(v) and (isinstance(v[lo], ast.ImportFrom) or isinstance(v[lo], ast.Expr) and isinstance(v[lo].value, ast.Constant)):
                    lo += 1
                if lo >= len(v):
                    continue
                i = self.r.randint(lo, len(v) - 1)
                j = self.r.randint(i + 1, len(v))
                items = [ast.withitem(context_expr=self.head(), optional_vars=None)]
                v[i:j] = [ast.With(items=items, body=v[i:j])]


# ---------------------------------------------------------------- generation
def fixed(tier):
    out = []
    head = "from mcpv_mac import macros, " + ", ".join(OPAQUE) + "\nfrom mcpyrate.debug import macros, step_expansion\n"
    bodies = ["x = S[m_emit[m_dup[1]]]\n", "with S:\n    with m_wrap, m_dup:\n        m_emit[1]\n    @m_wrap\n    @m_dup\n    def f(): return n_emit\n", "x = S[1]\n", "with S:\n    pass\n", "x = S[m_none[1]]\n", "with S:\n    with m_none:\n        x\n",
              "x = S[n_none + n_same + n_const]\n", "x = S[m_inout[m_emit[1]] + m_visit[m_emit[2]]]\n", "with S:\n    with m_gen:\n        a\n        m_id[b]\n", "x = S[m_wrap[S[m_emit[S[m_dup[1]]]]]]\n", "with S, m_wrap, S:\n    with S:\n        m_emit[1]\n    y = S[m_dup[2]]\n",
              "with m_wrap, S as x:\n    m_emit[1]\n" if False else "with m_wrap, S:\n    m_emit[1]\n", "x = m_inout[S[m_emit[1]]]\n", "x = m_dup[S[m_wrap[1]]]\n", "x = m_pid[S[m_wrap[1]]][S[m_wrap[2]]]\n", "x = S[m_pself[1, 2, 3][m_wrap[4]]]\n", "for i in S[m_id[y]]:\n    with S:\n        m_wrap[i]\n"]
    for b in bodies:
        for ms in MODES[2:]:
            s = "step_expansion" + (f"[{', '.join(map(repr, ms))}]" if ms else "")
            out.append({"kind": "step", "src": head + b.replace("S", s), "base": None, "bind": {m: m for m in OPAQUE} | {STEP: STEP}, "name": STEP})
    out += [{"kind": "step", "src": head + b, "base": None, "bind": {m: m for m in OPAQUE} | {STEP: STEP}, "name": STEP} for b in ("x = step_expansion[" + "m_id[" * 70 + "1" + "]" * 71 + "\n", "with step_expansion:\n    x = " + "m_id[" * 130 + "y" + "]" * 130 + "\n")]
    out += [{"kind": "fail", "src": s, "again": "x = step_expansion[m_wrap[1]]\n"} for s in
            ["x = step_expansion[boom[1]]\n", "with step_expansion:\n    with m_wrap:\n        boom[1]\n", "x = step_expansion['detailed'][m_wrap[boom[1]]]\n", "x = step_expansion[step_expansion['detailed'][boom[1]]]\n",
             "x = step_expansion['foo'][1]\n", "x = step_expansion[foo][1]\n", "@step_expansion\ndef f(): pass\n", "x = step_expansion['dump', 3][1]\n", "x = step_expansion[m_wrap[show_bindings[1]]]\n", "x = step_expansion[m_wrap[m_id[step_phases]]]\n", "with show_bindings:\n    pass\n", "@show_bindings\ndef f(): pass\n", "x = step_phases\n"]]
    return out


def generate(rng, i):
    kind = rng.choice(["step"] * 6 + ["dialect"] * 3 + ["phase"] * 2 + ["bindings", "fail", "validator"])
    return {"step": gen_step, "dialect": gen_dialect, "phase": gen_phase, "bindings": gen_bindings, "fail": gen_fail, "validator": gen_validator}[kind](rng, i)


def rejected(tree, bind):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in bind and (not n.args or any(isinstance(a, ast.Starred) for a in n.args)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in bind and any(isinstance(a, ast.Starred) for a in getattr(n.slice, "elts", [])):
            return True
    return False


def macro_program(rng, depth=(1, 1, 2), stmts=3):
    g = pygen.Gen(rng, depth=rng.choice(depth))
    for _ in range(6):
        src = g.module(rng.randint(1, stmts), rng.choice([0, 1, 1]))
        if "import" in src and ("macros" in src or "dialects" in src):
            continue
        only = sorted(set(rng.sample(OPAQUE, rng.choice([3, 6, 12]))) | {"m_wrap", "m_pid", "m_id", "n_const", "n_same"})
        try:
            text, bind, n = mackit.program(rng, src, pe=rng.choice([0.05, 0.12, 0.25]), ps=rng.choice([0.1, 0.3, 0.5]), only=only)
            tree = ast.parse(text)
            if rejected(tree, bind) or len(text) > 6000:
                continue
        except (SyntaxError, ValueError, RecursionError):
            continue
        if n:
            return text, tree, bind
    return None


def gen_step(rng, i):
    p = macro_program(rng)
    if not p:
        return None
    text, tree, bind = p
    name = rng.choice([STEP, STEP, "zz_step"])
    add = AddSteps(rng, bind, name, rng.choice([0.03, 0.08, 0.15]), rng.choice([0.1, 0.3]))
    t2 = add.visit(copy.deepcopy(tree))
    if not add.n:
        return None
    ast.fix_missing_locations(t2)
    try:
        body = ast.unparse(t2)
        back = ast.parse(body)
    except (SyntaxError, ValueError, RecursionError):
        return None
    if asteq.firstdiff(t2, back) or rejected(back, bind):
        return None
    k = next(k for k, s in enumerate(back.body) if isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac")
    imp = f"from mcpyrate.debug import macros, step_expansion{'' if name == STEP else ' as ' + name}"
    rows = [ast.unparse(s) for s in back.body]
    rows.insert(k, imp)
    src = "\n".join(rows) + "\n"
    base = text
    return {"kind": "step", "src": src, "base": base, "bind": {**bind, name: STEP}, "name": name}


def gen_dialect(rng, i):
    n = rng.randint(1, 5)
    ds = [rng.sample([f"D{k}" for k in range(5)], rng.choice([1, 1, 2])) for _ in range(n)]
    used = set()
    ds = [[d for d in x if not (d in used or used.add(d))] for x in ds]
    ds = [x for x in ds if x]
    spec = {f"D{k}": [rng.choice(["no", "append", "identity", "translate"]), rng.choice(["no", "append", "identity", "new", "rename"]), rng.choice(["no", "append", "identity", "new", "rename"])] for k in range(5)}
    lines = [f"from mcpv_c26 import dialects, {', '.join(x)}" for x in ds]
    pos = rng.randint(0, len(lines))
    lines.insert(pos, "from mcpyrate.debug import dialects, StepExpansion")
    body = ["from mcpv_mac import macros, m_wrap, m_dup", "victim = 1"] + rng.sample(["x = m_wrap[victim]", "with m_dup:\n    y = victim", "def f(victim):\n    'doc'\n    return m_dup[victim]", "z = '§'", "# comment", "for victim in m_wrap[[1]]: pass"], rng.randint(1, 5))
    if rng.random() < 0.3:
        lines.insert(0, '"""docstring"""')
    if rng.random() < 0.5:
        body[rng.randint(0, 1):rng.randint(1, 2)] = body[:1] + ["between = 1"] if rng.random() < 0.3 else body[:1]
    return {"kind": "dialect", "src": "\n".join(lines + body) + "\n", "spec": spec, "form": rng.choice(["text", "text", "ast", "bytes"])}


def gen_phase(rng, i):
    import checks.c14 as c14
    case = c14.generate(rng, i)
    return {"kind": "phase", "c14": {k: case[k] for k in ("head", "items", "where")}, "imp": rng.choice([0, 1, 2, 3, rng.randrange(7)])}


def gen_bindings(rng, i):
    names = rng.sample(["m_id", "m_wrap", "m_dup", "n_const"], rng.randint(1, 4))
    imports = [(n, rng.choice([n, n, f"al_{n}"])) for n in names]
    rows = []
    for _ in range(rng.randint(1, 7)):
        rows.append(rng.choice([lambda: ["show"], lambda: ["edit", "add", rng.choice(["b1", "b2", "m_id", "ZZ", "é"]), rng.randint(0, 3)], lambda: ["edit", "del", rng.choice(["b1", "b2", "m_id", "ZZ"]), 0], lambda: ["other", rng.choice(["x = 1", "def f(): pass", "y = [i for i in (1, 2)]"])]])())
    rows.append(["show"])
    return {"kind": "bindings", "imports": imports, "rows": rows, "sname": rng.choice(["show_bindings", "show_bindings", "SB"])}


def gen_fail(rng, i):
    p = macro_program(rng, (1,), 2)
    if not p:
        return None
    text, tree, bind = p
    add = AddSteps(rng, bind, STEP, 0.15, 0.3)
    t2 = add.visit(copy.deepcopy(tree))
    spots = [n for n in ast.walk(t2) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == STEP
             and not any(isinstance(e, ast.Constant) for e in getattr(n.slice, "elts", [n.slice]))]
    if not spots:
        return None
    s = rng.choice(spots)
    s.slice = ast.Subscript(value=mackit.N("boom"), slice=s.slice, ctx=ast.Load())
    try:
        body = ast.unparse(ast.fix_missing_locations(t2))
        ast.parse(body)
    except (SyntaxError, ValueError, RecursionError):
        return None
    rows = body.split("\n")
    return {"kind": "fail", "src": body, "again": "x = step_expansion[m_wrap[1]]\n", "random": True}


def gen_validator(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2]))
    return {"kind": "validator", "src": g.module(rng.randint(1, 3), 1), "seed": rng.randint(0, 1 << 30), "p": rng.choice([0, 0.05, 0.3])}


# ---------------------------------------------------------------- judges
def expand(src, fn=FN, **kw):
    from mcpyrate import compiler
    err = io.StringIO()
    del mackit.LOG[:]
    with contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = compiler.expand(src, filename=fn, self_module="prog", **kw)
    return t, list(mackit.LOG), plain(err.getvalue())


def judge(case, obs):
    return globals()["judge_" + case["kind"]](case, obs)


def final(body, nimp):
    """The canonical statements after the macro-imports."""
    got = mackit.canon([s for s in body if not (isinstance(s, ast.Import) and s.names[0].name in ("mcpv_mac", "mcpyrate.debug"))])
    return ast.Module(body=got, type_ignores=[])


def judge_step(case, obs):
    src, bind, name = case["src"], case["bind"], case["name"]
    names = {n for n, r in bind.items() if r == STEP}
    ctx = lambda: f"--- source\n{brief(src, 3000)}\n"
    base = case["base"]
    if base is None:
        un = Unstep(names)
        base = ast.unparse(ast.Module(body=un.visit_list(ast.parse(src).body), type_ignores=[]))
    # the reference
    EVENTS.clear()
    HOOKS.clear()
    LEVEL_[0] = 0
    rlog = []
    ref = Ref(bind, rlog, max_calls=300)
    out = []
    try:
        for s in ast.parse(src).body:
            if isinstance(s, ast.ImportFrom) and s.module in ("mcpv_mac", "mcpyrate.debug"):
                continue
            r = ref.visit(s)
            out.extend(r) if isinstance(r, list) else out.append(r) if r is not None else None
    except RecursionError:
        obs.count("skipped-too-large")
        return None
    want_events = list(EVENTS)
    if sum(len(x) for e in want_events for x in e if isinstance(x, str)) > 300000:
        obs.count("skipped-too-large")
        return None
    # expanding by one layer at a time may bring a macro's name together with brackets that follow: m_id[m_pid['a']][x]
    rlog0 = []
    ref0 = Ref(bind, rlog0, max_calls=300)
    out0 = []
    try:
        for s in ast.parse(base).body:
            if not (isinstance(s, ast.ImportFrom) and s.module in ("mcpv_mac", "mcpyrate.debug")):
                r = ref0.visit(s)
                out0.extend(r) if isinstance(r, list) else out0.append(r) if r is not None else None
    except RecursionError:
        obs.count("skipped-too-large")
        return None
    same = asteq.firstdiff(final(out0, 0), final(out, 0), ctx=False) is None
    if not same:
        obs.count("layer-dependent programs")
    t0, log0, err0 = expand(base)
    t1, log1, err1 = expand(src)
    expect(not err0, "output", lambda: f"output without aids: {brief(err0, 500)}")
    # 1. nothing changes
    d = asteq.firstdiff(final(t0.body, 0) if same else final(out, 0), final(t1.body, 0), ctx=False)
    expect(d is None, "result-changes", lambda: f"(without vs with stepping) {d}\n" + ctx())
    c0, c1 = collections.Counter(e[:2] for e in log0), collections.Counter(e[:2] for e in log1)
    expect(c0 == c1 or not same, "expansions-change", lambda: f"without stepping {dict(c0 - c1)}, with stepping {dict(c1 - c0)}\n" + ctx())
    cr, cl = collections.Counter(e for e in rlog if e[0] != STEP), collections.Counter(log1)
    expect(cr == cl, "expansions-change", lambda: f"not seen {[brief(repr(x), 500) for x in list((cr - cl))[:2]]}\nunexpected {[brief(repr(x), 500) for x in list((cl - cr))[:2]]}\n" + ctx())
    # 2. what is printed
    got = parse_output(err1, FN)
    for k, (w, g) in enumerate(zip(want_events, got)):
        where = lambda: f"event {k}: expected {brief(repr(w), 1500)}\n     got {brief(repr(g), 1500)}\n{ctx()}--- output\n{brief(err1, 4000)}"
        expect(w[0] == g[0] and w[1] == g[1], "event-kind", where)
        if w[0] == "complete":
            expect(w == g, "step-count", where)
            continue
        if w[0] == "before":
            pairs = [(w[2], g[2])]
        elif w[0] == "step":
            expect(w[2] == g[2], "step-number", where)
            pairs = [(w[3], g[3])]
            obs.count("steps")
        else:
            expect(w[2:4] == g[2:4], "step-detail", where)
            pairs = [(w[4], g[4]), (w[5], g[5])]
            obs.count("detailed events")
        for a, b in pairs:
            if w[-1]:
                try:
                    b = as_shown(b, True)
                except Exception as e:
                    raise fw.Violation("dump-mode", f"not a dump ({e!r}): {brief(b, 500)}\n" + ctx())
                obs.count("dump trees")
            ta, tb = tidy(a), tidy(b)
            expect(norm(ta) == norm(tb), "printed-tree", lambda: f"{w[:3] if w[0] != 'before' else w[:2]}\n--- expected\n{brief(ta, 1500)}\n--- printed\n{brief(tb, 1500)}\n{ctx()}")
    expect(len(got) == len(want_events), "event-count", lambda: f"expected {len(want_events)} reports, got {len(got)}\n{ctx()}--- output\n{brief(err1, 4000)}")
    obs.count("programs")
    obs.count("nested", sum(1 for w in want_events if w[1] > 1 and w[0] == "before"))
    for w in want_events:
        obs.see("report kinds", f"{w[0]}/{min(w[1], 4)}/{w[-1] if w[0] != 'complete' else ''}")
    obs.see("step counts", max((w[2] for w in want_events if w[0] == "complete"), default=0))
    return fw.hash_(src) if any(w[0] == "step" for w in want_events) else None


def norm(t):
    """Deleted expressions become a dummy that evaluates to None."""
    t = t.replace("(lambda: None)()", "None")
    while "($ASTMarker<Done>: None)" in t:
        t = t.replace("($ASTMarker<Done>: None)", "None")
    return re.sub(r"\(None\)", "None", t)


def parse_dialect(text):
    """[(heading, text)]"""
    out = []
    for ln in text.split("\n"):
        if ln.startswith("**StepExpansion: "):
            out.append([ln[len("**StepExpansion: "):], []])
        elif out:
            out[-1][1].append(ln)
        elif ln.strip():
            raise fw.Violation("output", f"unexpected text before any heading: {ln!r}")
    return [(h, "\n".join(b)) for h, b in out]


def judge_dialect(case, obs):
    src, form = case["src"], case["form"]
    DSPEC.clear()
    DSPEC.update(case["spec"])
    SE = "from mcpyrate.debug import dialects, StepExpansion"
    without = src.replace(SE, "import mcpyrate.debug")
    conv = {"text": lambda s: s, "ast": ast.parse, "bytes": lambda s: s.encode()}[form]
    ctx = lambda: f"form {form}, dialects {case['spec']}\n--- source\n{brief(src, 2000)}\n"
    runs = []
    for s in (without, src):
        DLOG.clear()
        t, log, err = expand(conv(s))
        runs.append((t, log, err, list(DLOG)))
    (t0, log0, err0, d0), (t1, log1, err1, d1) = runs
    expect(not err0, "output", lambda: f"output without aids: {brief(err0, 500)}")
    d = asteq.firstdiff(ast.Module(body=mackit.canon(t0.body), type_ignores=[]), ast.Module(body=mackit.canon(t1.body), type_ignores=[]), ctx=False)
    expect(d is None, "dialect-result-changes", lambda: f"(without vs with StepExpansion) {d}\n" + ctx())
    expect(log0 == log1, "dialect-expansions-change", ctx)
    strip = lambda log: [(e[0], e[1], e[2].replace(SE, "import mcpyrate.debug") if e[2] else e[2], e[3]) for e in log]
    expect(strip(d0) == strip(d1), "dialect-calls-change", lambda: f"{brief(repr(strip(d0)), 1500)}\n{brief(repr(strip(d1)), 1500)}\n" + ctx())
    # what must be printed
    want = []
    step = [0]
    on = [False]
    order = [n for ln in src.split("\n") if "import dialects," in ln for n in ln.split("dialects, ")[1].split(", ")]
    content = {("src", e[1]): e[2] for e in d1 if e[0] == "src-out"}
    content.update({("ast", e[1]): e[2] for e in d1 if e[0] == "ast-out"})
    content.update({("post", e[1]): e[2] for e in d1 if e[0] == "post-out"})
    plural = lambda: f"({step[0]} step{'s' if step[0] != 1 else ''} total)"
    mod = lambda n: "mcpyrate.debug" if n == "StepExpansion" else "mcpv_c26"

    def stage(kind, key, method, start, expanding):
        cur = start
        if on[0]:
            want.append((f"{FN} before dialect {kind} {plural()}:" if kind == "AST postprocessors" else f"{FN} before dialect {kind} transformers {plural()}:", cur))
        for n in order:
            if n == "StepExpansion":
                if key == "post" or key == "ast" and on[0]:
                    continue
                on[0] = True
                want.append((f"{FN} enabled DialectExpander debug mode while taking step {step[0] + 1}.", ""))
            elif content[key, n] is None:
                continue
            else:
                cur = content[key, n]
            step[0] += 1
            if on[0]:
                want.append((("after", mod(n), n, method, f"(step {step[0]}):"), cur if n != "StepExpansion" or key == "src" else None))
        if on[0]:
            want.append((f"{FN} completed all dialect {kind} {'transforms ' if kind != 'AST postprocessors' else ''}{plural()}.", ""))
        return cur
    text = src
    if form != "ast":
        text = stage("source", "src", "transform_source", src, False)
    stage("AST", "ast", "transform_ast", show(ast.parse(text)), False)
    first = next((e[2] for e in d1 if e[0] == "post"), None)
    stage("AST postprocessors", "post", "postprocess_ast", first, True)
    got = parse_dialect(err1)
    for k, (w, g) in enumerate(zip(want, got)):
        where = lambda: f"report {k}: expected {brief(repr(w), 1200)}\n     got {brief(repr(g), 1200)}\n{ctx()}--- output\n{brief(err1, 3000)}"
        if isinstance(w[0], tuple):
            m = re.match(rf"{re.escape(FN)} after (\S+|<.*>\S*)\.{w[0][3]} (\(step \d+\):)$", g[0])
            expect(m and w[0][2] in m.group(1) and w[0][1] in m.group(1) and m.group(2) == w[0][4], "dialect-step", where)
            obs.count("dialect steps")
        elif w[0] != g[0]:
            if "before dialect" in w[0] or "completed" in w[0]:
                a, b = [re.sub(r"transform(er)?s ", "", x) for x in (w[0], g[0])]
                expect(a == b, "dialect-heading", where)
            else:
                expect(False, "dialect-heading", where)
        if w[1] is not None:
            a, b = w[1], g[1]
            expect(a.strip() == b.strip() or squeeze(a) == squeeze(b), "dialect-content", where)
    expect(len(want) == len(got), "dialect-reports", lambda: f"expected {len(want)} reports, got {len(got)}\n{ctx()}--- output\n{brief(err1, 3000)}")
    obs.count("dialect modules")
    obs.see("dialect layouts", repr([n == "StepExpansion" for n in order]) + form)
    return fw.hash_([src, case["spec"], form])


def squeeze(t):
    """StepExpansion's own import statement has become a plain import in trees logged later or earlier."""
    return [ln.rstrip() for ln in t.split("\n") if ln.strip()]


def judge_phase(case, obs):
    import checks.c14 as c14
    from mcpyrate import compiler
    text, top, _ = c14.render(case["c14"])
    mark = "from mcpyrate.multiphase import macros, phase"
    imports = ["from mcpyrate.debug import macros, step_phases", "from mcpyrate.debug import macros, step_phases as sp_", "from mcpyrate.debug import macros, step_expansion, step_phases", "from mcpyrate.debug import macros, show_bindings as b_; from mcpyrate.debug import macros, step_phases",
               "from mcpyrate.debug import macros, show_bindings", "from mcpyrate.debug import macros, step_expansion as step_phases", "from mcpyrate.debug import step_phases"]
    quiet = case.get("imp", 0) > 3   # these don't ask for the code of the phases
    imp = imports[case.get("imp", 0)]
    stepped = text.replace(mark, mark + "; " + imp)
    ctx = lambda: f"{brief(stepped, 3000)}\n"
    runs = []
    for s in (text.replace(mark, mark + "; import mcpyrate.debug" * imp.count("from")), stepped):
        c14.EV.clear()
        err = io.StringIO()
        m = compiler.create_module("mcpv26_mod", filename="/nonexistent/mcpv26_mod.py")
        exc = None
        with contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                compiler.run(s, m)
            except Exception as e:
                exc = e
        sys.modules.pop("mcpv26_mod", None)
        names = {k: c14.val(v) for k, v in c14.names_of(m).items() if k != "step_phases"} if exc is None else None
        runs.append((type(exc), list(c14.EV), names, plain(err.getvalue())))
    a, b = runs
    expect(a[0] is b[0], "phase-error", lambda: f"without {a[0]}, with {b[0]}\n" + ctx())
    expect(not a[3], "output", lambda: f"output without aids: {brief(a[3], 500)}")
    expect(a[1] == b[1], "phase-events-change", lambda: next((f"event {k}: {x!r} / {y!r}\n" for k, (x, y) in enumerate(zip(a[1], b[1])) if x != y), f"{len(a[1])} / {len(b[1])} events\n") + ctx())
    expect(a[2] == b[2], "phase-result-changes", ctx)
    # the code printed for each phase
    tree = ast.parse(stepped)
    want = []
    for k in range(top, -1, -1):
        body = []
        for s in tree.body:
            p = s.items[0].context_expr.slice.value if isinstance(s, ast.With) and isinstance(s.items[0].context_expr, ast.Subscript) and getattr(s.items[0].context_expr.value, "id", "") == "phase" else 0
            if p and p >= k:
                body += s.body
            elif k == 0 or isinstance(s, ast.ImportFrom) and s.module == "__future__":
                body.append(s)
        if body:
            j = 0
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) and k == 0:
                j = 1
            while j < len(body) and isinstance(body[j], ast.ImportFrom) and body[j].module == "__future__":
                j += 1
            body = body[:j] + ast.parse(f"__phase__ = {k}").body + body[j:]
            want.append((k, show(ast.Module(body=body, type_ignores=[]))))
        else:
            want.append((k, ""))
    got = []
    rows = b[3].split("\n")
    if quiet:
        expect(not b[3], "phase-unasked", lambda: f"{imp}: unexpected output {brief(b[3], 1500)}\n" + ctx())
        obs.count("quiet phase modules")
    elif top:
        expect(rows[0] == "**Multi-phase compiling module 'mcpv26_mod' (/nonexistent/mcpv26_mod.py)", "phase-heading", lambda: f"{rows[0]!r}\n" + ctx())
        for ln in rows[1:]:
            m = re.match(r"\*\*AST for PHASE (\d+) of module 'mcpv26_mod' \(/nonexistent/mcpv26_mod.py\)$", ln)
            if m:
                got.append([int(m.group(1)), []])
            else:
                expect(got or not ln.strip(), "phase-heading", lambda: f"{ln!r}\n" + ctx())
                if got:
                    got[-1][1].append(ln)
        if b[0] is type(None):
            got = got[:top + 1] + got[top + 1:]
            expect([k for k, _ in got] == [k for k, _ in want], "phases", lambda: f"printed {[k for k, _ in got]}, expected {[k for k, _ in want]}\n" + ctx())
        for (k, w), (gk, g) in zip(want, got):
            expect(k == gk, "phases", ctx)
            expect(squeeze(w) == squeeze("\n".join(g)), "phase-code", lambda: f"phase {k}\n--- expected\n{brief(w, 1500)}\n--- printed\n{brief(chr(10).join(g), 1500)}\n" + ctx())
            obs.count("phases printed")
    obs.count("phase modules")
    obs.see("phase layouts", repr([p for p, _ in case["c14"]["items"]]))
    return fw.hash_(stepped)


def judge_bindings(case, obs):
    sn = case["sname"]
    src = ["from mcpv_mac import macros, " + ", ".join(n if n == al else f"{n} as {al}" for n, al in case["imports"]), "from mcpv_c26 import macros, edit", f"from mcpyrate.debug import macros, show_bindings{'' if sn == 'show_bindings' else ' as ' + sn}"]
    b = {al: f"mcpv_mac.{n}" for n, al in case["imports"]} | {"edit": "mcpv_c26.edit", sn: "mcpyrate.debug.show_bindings"}
    want = []
    for k, r in enumerate(case["rows"]):
        if r[0] == "show":
            src.append([f"s{k} = {sn}", f"f{k} = (lambda: [{sn}])()", f"def g{k}(a={sn}): return a"][k % 3])
            want.append(sorted(b.items()))
        elif r[0] == "edit":
            src.append(f"e{k} = edit[{r[1]!r}, {r[2]!r}, {r[3]}]")
            if r[1] == "add":
                b[r[2]] = f"mcpv_c26.pool{r[3]}"
            else:
                b.pop(r[2], None)
        else:
            src.append(r[1])
    text = "\n".join(src) + "\n"
    t, log, err = expand(text)
    report_formats(case, obs)
    got = []
    for ln in err.split("\n"):
        if ln.startswith("Macro bindings for "):
            expect(ln == f"Macro bindings for {FN}:", "bindings-heading", lambda: repr(ln))
            got.append([])
        elif ln.strip():
            m = re.match(r"    (\S+): (\S+)$", ln)
            expect(m and got, "bindings-line", lambda: repr(ln))
            got[-1].append(m.groups())
    for k, (w, g) in enumerate(zip(want, got)):
        expect(w == g, "bindings", lambda: f"display {k}: expected {w}\ngot {g}\n{text}")
    expect(len(want) == len(got), "bindings", lambda: f"{len(got)} displays, expected {len(want)}\n{text}")
    ns = {}
    exec(compile(t, FN, "exec"), ns)
    for k, r in enumerate(case["rows"]):
        if r[0] == "show":
            v = ns[f"sfg"[k % 3] + str(k)]
            v = v[0] if k % 3 == 1 else v() if k % 3 == 2 else v
            expect(v is None, "bindings-value", lambda: f"{v!r}\n{text}")
    obs.count("binding displays", len(want))
    return fw.hash_(text)


def report_formats(case, obs):
    """format_bindings, for local and for all bindings, plain and in color; none at all."""
    from mcpyrate.core import global_bindings
    from mcpyrate.debug import format_bindings
    from mcpyrate.expander import MacroExpander
    mac = sys.modules["mcpv_mac"]
    local = {al: getattr(mac, n) for n, al in case["imports"]} if len(case["rows"]) % 4 else {}
    exp = MacroExpander(dict(local), FN)
    global_bindings["gl_26"] = mac.m_dup     # what a hygienic capture of a macro does
    for globals_too in (False, True):
        b = {**{k: global_bindings[k] for k in (list(global_bindings) if globals_too else ())}, **local}
        want = [f"Macro bindings for {FN}:"] + [f"    {k}: {b[k].__module__}.{b[k].__qualname__}" for k in sorted(b)] + ([] if b else ["    <no bindings>"])
        for color in (False, True):
            text = format_bindings(exp, globals_too=globals_too, color=color)
            expect(color or plain(text) == text, "format-bindings", lambda: f"colors in plain text {text!r}")
            rows = [ln for ln in plain(text).split("\n") if ln.strip()]
            expect(rows == want, "format-bindings", lambda: f"globals_too={globals_too}, color={color}: expected {want}\ngot {rows}")
    del global_bindings["gl_26"]
    expect(format_bindings(exp) == format_bindings(exp, globals_too=False, color=False), "format-bindings", "defaults")


def judge_fail(case, obs):
    """After a failure, stepping works as usual (in the same expander and in others)."""
    from mcpyrate.expander import MacroExpander
    import mcpyrate.debug as debug
    mac, md = sys.modules["mcpv_mac"], sys.modules["mcpv_c26"]
    bindings = {k: getattr(mac, k) for k in OPAQUE} | {f"zz_{k}": getattr(mac, k) for k in OPAQUE} | {"boom": md.boom, STEP: debug.step_expansion, "show_bindings": debug.show_bindings, "step_phases": debug.step_phases}
    body = [s for s in ast.parse(case["src"]).body if not (isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac")]
    exp = MacroExpander(bindings, FN)
    failed = 0
    outs = []
    for s in body:
        err = io.StringIO()
        with contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                exp.visit(copy.deepcopy(s))
            except Exception as e:
                failed += 1
                chain = []
                x = e
                while x is not None and len(chain) < 60:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if case.get("random") and "boom" in case["src"]:
                    expect(any(isinstance(x, BOOM) for x in chain), "failure-cause", lambda: f"{type(e).__name__}: {brief(str(e), 600)}\n{brief(case['src'], 2000)}")
        for who, ex in (("same", exp), ("new", MacroExpander(bindings, FN))):
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                ex.visit(ast.parse(case["again"]).body[0])
            outs.append(re.sub("0x[0-9a-f]+", "0x", plain(err.getvalue())))
            expect(outs[-1] == outs[0] and outs[-1].startswith("**Tree") and "processing" not in outs[-1] and "after 1 step." in outs[-1], "state-after-failure", lambda: f"{who} expander, after {brief(ast.unparse(s), 800)}\n{brief(outs[-1], 1500)}")
    if not case.get("random"):
        expect(failed == 1, "no-error", lambda: case["src"])
    obs.count("failures", failed)
    return fw.hash_(case["src"]) if failed else None


def judge_validator(case, obs):
    import random
    from mcpyrate.debug import SourceLocationInfoValidator
    tree = ast.parse(case["src"])
    rng = random.Random(case["seed"])
    want = {}
    for n in ast.walk(tree):
        if "lineno" in n._attributes:
            miss = [a for a in ("lineno", "col_offset") if rng.random() < case["p"]]
            for a in miss:
                delattr(n, a)
            if miss:
                want[id(n)] = miss
    v = SourceLocationInfoValidator()
    v.visit(tree)
    got = {id(t): m for t, c, m in v.collected if "lineno" in t._attributes}
    expect(got == want, "validator", lambda: f"missing positions: expected {sorted(map(tuple, want.values()))}, reported {sorted(map(tuple, got.values()))}\n{brief(case['src'], 1500)}")
    obs.count("validated trees")
    return fw.hash_([case["src"], case["seed"]]) if want else None
