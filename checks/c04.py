"""C04: trace of macro expansions and the expanded tree vs. a reference expander."""
import ast
import collections
import os
import sys
import warnings

import asteq
import fw
import mackit
import pygen
from fw import brief, expect

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "run-time monitor macros log every expansion; offline checker compares the log and the expanded tree with a reference expander"
LEVEL_NOTE = ("Each generated program is expanded by the real expander with logging monitor macros and by an independent reference expander written from the documentation; "
              "logs (macro, syntax, tree, arguments, as-part, whole invocation) and final trees must agree. Order is compared between top-level statements and along nesting, not between independent siblings.")
RULE = ("Random Python modules with random invocations of 19 monitor macros (all four types, parametric, nested, several per with/decorator list, inside-out, once-only, recursive, emitting other macros, as-named) injected anywhere. "
        "Non-trivial: at least 2 macro calls were logged; distinct by source.")
QUICK = dict(n=5000, secs=16)
THOROUGH = dict(n=250000, secs=400)
MIN = {"events": 5000, "expr": 500, "block": 500, "decorator": 300, "collected": 3000, "name": 300}
ASSUMPTIONS = ["the reference expander (lib/mackit.py) states the documented expansion algorithm"]

FIXED = [
    "x = m_wrap[m_dup[n_const]]\n", "with m_wrap, m_dup, m_emit as r:\n    x = m_count[3]\n", "@m_wrap\n@other\n@m_dup\n@m_emit\ndef f(a=m_id[1]):\n    return n_emit\n",
    "@m_wrap\nasync def f():\n    with m_id:\n        pass\n", "@m_pid[1, m_wrap[2]]\n@m_pid(3, 4)\nclass A(m_id[B]):\n    x = m_none[1]\n",
    "with m_once:\n    x = m_emit[1]\n    with m_wrap:\n        y = m_emit[m_id[2]]\n", "x = m_once[m_emit[1]]\n", "x = m_once[m_oncerec[m_emit[m_count[2]]]]\n",
    "x = m_inout[m_emit[m_dup[1]]]\n", "with m_inout, m_dup:\n    m_emit[1]\n", "with m_visit:\n    with m_none:\n        x\n    y\n", "x = m_pexp[m_id[1], m_emit[2]][m_id[3]]\n",
    "x = m_pself[1, 2, 3][m_id[4]]\nwith m_pself[1, 2]:\n    y\n", "with cm() as a, m_as as b, other, m_as as (c, d):\n    z\n", "with m_gen, m_rev:\n    a\n    b\n    c\n",
    "n_same = n_same + n_const\nn_none\nfor n_emit2 in n_emit: del n_x\n", "x = m_id[1][2]\ny = m_pid[1][2]\nz = m_pid[1]\nw = m_pid[(1, 2)][3]\nv = m_pid[((1, 2),)][3]\nu = m_pid[[1, 2]][3]\n",
    "x = m_id[a:b, ::2]\n", "x = m_rev[1, 2, 3]\n", "with n_const:\n    n_const\n", "x = n_par[1][2] + n_par[3] + n_par\n@n_par[1]\n@n_par\ndef f(): pass\n",
    "x = n_const[1]\n", "x = [m_wrap[i] for i in m_id[y] if m_none[z]]\n", "x = lambda a=m_id[1], *, b: m_wrap[a]\n", "x = m_wrap[(yield_)].attr[m_id[0]](m_id[1], *m_id[a], k=m_id[2], **m_id[b])\n",
    "if m_wrap[a]:\n    with m_none:\n        b\nelif m_id[c]:\n    pass\nelse:\n    with m_dup:\n        pass\n", "try:\n    with m_wrap: a\nexcept m_id[E] as e:\n    with m_wrap: b\nelse:\n    m_wrap[c]\nfinally:\n    with m_dup: d\n",
    "match m_id[x]:\n    case 1 if m_wrap[y]:\n        with m_dup:\n            z\n", "x: m_id[int] = m_wrap[1]\nm_id[x].y += m_wrap[2]\nm_id[x][0] = 1\n", "assert m_id[a], m_wrap[b]\nraise m_id[a] from m_id[b]\n",
    "with m_none, m_wrap:\n    x\n", "with m_wrap, m_none:\n    x\n", "@m_none\n@m_wrap\ndef f(): pass\n", "@m_wrap\n@m_none\ndef f(): pass\n", "x = m_none[m_wrap[1]]\n",
    "async def f():\n    async with m_id: pass\n    x = await m_wrap[y]\n    return [i async for i in m_id[z]]\n", "class A:\n    @m_wrap\n    def f(self):\n        @m_dup\n        def g(): return m_wrap[1]\n        return g\n",
    "with m_id as x: pass\n", "with m_wrap:\n    with m_wrap:\n        with m_wrap:\n            with m_wrap: m_wrap[m_wrap[m_wrap[1]]]\n", "x = m_id[m_id][m_id]\n", "print(m_id)\nm_id = 5\nm_id(3)\nx.m_id[3]\n",
]


def setup(scratch):
    sys.setrecursionlimit(3000)
    mackit.make_module()
    import mcpyrate.compiler  # noqa: F401


def fixed(tier):
    allm = sorted(mackit.MACROS)
    head = "from mcpv_mac import macros, " + ", ".join(allm) + "\n"
    cases = [{"src": head + s, "bind": {m: m for m in allm}} for s in FIXED]
    # systematic: each ordered pair of macros nested, in each pair of positions
    import itertools
    for a, b in itertools.product(allm, allm):
        cases.append({"src": head + f"x = {a}[{b}[1]]\ny = {a}[2][{b}[3]]\nwith {a}, {b}:\n    s1\n    s2\nwith {a}:\n    with {b} as t: s3\n@{a}\n@{b}\ndef f(): s4\n", "bind": {m: m for m in allm}})
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 1, 2]))
    for _ in range(6):
        src = g.module(rng.randint(1, 3), rng.choice([0, 1, 1]))
        if "import" in src and ("macros" in src or "dialects" in src):
            continue
        only = rng.sample(sorted(mackit.MACROS), rng.choice([3, 6, len(mackit.MACROS)]))
        if not any(mackit.MACROS[k][2] for k in only):
            only.append("n_const")
        for need in ("m_wrap", "m_pid", "m_id", "n_const", "n_same"):   # emitted by other macros
            if need not in only:
                only.append(need)
        if "m_none" in only and rng.random() < 0.5:
            only.remove("m_none")
        try:
            text, bind, n = mackit.program(rng, src, pe=rng.choice([0.05, 0.12, 0.25]), ps=rng.choice([0.1, 0.3, 0.5]), only=only)
            if rejected(ast.parse(text), bind):
                continue
        except (SyntaxError, ValueError, RecursionError):
            continue
        if n and len(text) < 12000:
            return {"src": text, "bind": bind}
    return None


def rejected(tree, bind):
    """Documented rejections: macro arguments in parentheses need at least one argument; no splatting."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in bind and (not n.args or any(isinstance(a, ast.Starred) for a in n.args)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in bind and any(isinstance(a, ast.Starred) for a in getattr(n.slice, "elts", [])):
            return True
    return False


def invocations(tree, ref, out):
    """All (macro name, syntax) in the tree as it is, before anything is expanded."""
    if isinstance(tree, list):
        for x in tree:
            invocations(x, ref, out)
        return
    if not isinstance(tree, ast.AST):
        return
    if isinstance(tree, ast.Subscript):
        m = ref.ismacro(tree.value)
        if m:
            out.append((m[0], "expr"))
            return invocations(m[1] + [tree.slice], ref, out)
    elif isinstance(tree, ast.With):
        ms = [ref.ismacro(i.context_expr) for i in tree.items]
        if any(ms):
            for i, m in zip(tree.items, ms):
                if m:
                    out.append((m[0], "block"))
                    invocations(m[1], ref, out)
                else:
                    invocations(i, ref, out)
            return invocations(tree.body, ref, out)
    elif isinstance(tree, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        for d in tree.decorator_list:
            m = ref.ismacro(d)
            if m:
                out.append((m[0], "decorator"))
                invocations(m[1], ref, out)
            else:
                invocations(d, ref, out)
        for f in tree._fields:
            if f not in ("decorator_list", "name"):
                invocations(getattr(tree, f, None), ref, out)
        return
    elif isinstance(tree, ast.Name) and tree.id in ref.b and mackit.MACROS[ref.b[tree.id]][2]:
        out.append((tree.id, "name"))
    for f in tree._fields:
        invocations(getattr(tree, f, None), ref, out)


def check_collector(src, bind, obs):
    from mcpyrate.core import Done
    from mcpyrate.expander import MacroCollector, MacroExpander
    mac = sys.modules["mcpv_mac"]
    tree = ast.parse(src)
    before = ast.dump(tree, include_attributes=True)
    want = []
    invocations(tree, mackit.RefExpander(bind, []), want)
    mc = MacroCollector(MacroExpander({k: getattr(mac, v) for k, v in bind.items()}, "/nonexistent/prog.py"))
    mc.visit(tree)
    got = list(mc.collected)
    expect(sorted(got) == sorted(set(want)), "collected", lambda: f"MacroCollector found {got}, in the tree are {sorted(set(want))}\n--- source\n{brief(src, 3000)}")
    mc.visit(tree.body)
    expect(mc.collected == got, "collected", lambda: f"after visiting again: {mc.collected}, before {got}")
    mc.clear()
    mc.visit(Done(body=tree))
    mc.visit(None)
    expect(mc.collected == [], "collected", lambda: f"after clear, in a Done: {mc.collected}")
    mc.visit(tree.body)
    expect(mc.collected == got, "collected", lambda: f"again after clear: {mc.collected}, before {got}")
    expect(ast.dump(tree, include_attributes=True) == before, "collector-edits", "MacroCollector changed the tree")
    obs.count("collected", len(got))


def judge(case, obs):
    from mcpyrate import compiler
    src, bind = case["src"], case["bind"]
    check_collector(src, bind, obs)
    # reference
    rlog = []
    ref = mackit.RefExpander(bind, rlog, max_calls=400)
    tree = ast.parse(src)
    nimp = sum(1 for s in tree.body if isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac")
    groups_ref = []
    out = []
    try:
        for s in tree.body:
            if isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac":
                continue
            k = len(rlog)
            r = ref.visit(s)
            out.extend(r) if isinstance(r, list) else out.append(r) if r is not None else None
            groups_ref.append(collections.Counter(rlog[k:]))
    except RecursionError:
        obs.count("skipped-too-large")
        return None
    want = mackit.canon(out)
    # real
    del mackit.LOG[:]
    mackit.EXPANDERS.clear()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exp = compiler.expand(src, filename="/nonexistent/prog.py", self_module="prog")
    log = list(mackit.LOG)
    got = mackit.canon(exp.body)
    expect(len(got) >= nimp and all(isinstance(s, ast.Import) and [(a.name, a.asname) for a in s.names] == [("mcpv_mac", None)] for s in got[:nimp]), "macro-imports",
           lambda: f"macro-imports became {[ast.unparse(s) for s in got[:nimp]]}")
    got = got[nimp:]
    for ev in log:
        obs.count("events")
        obs.count(ev[1])
        obs.see("macro-syntax", f"{ev[0]}/{ev[1]}")
        obs.see("invocations", ev)
    # 1. events
    cw, cg = collections.Counter(rlog), collections.Counter(log)
    if cw != cg:
        missing = list((cw - cg).elements())
        extra = list((cg - cw).elements())
        kind = "expansion-missing" if missing and not extra else "expansion-extra" if extra and not missing else "expansion-differs"
        fw.expect(False, kind, f"{len(rlog)} expansions expected, {len(log)} happened\nnot seen: {[pretty(m) for m in missing[:3]]}\nunexpected: {[pretty(m) for m in extra[:3]]}\n--- source\n{brief(src, 3000)}")
    # 2. order: statement by statement
    k = 0
    for g in groups_ref:
        n = sum(g.values())
        expect(collections.Counter(log[k:k + n]) == g, "statement-order", lambda: f"expansions of top-level statements interleaved or out of order\n{brief(src, 3000)}")
        k += n
    # 3. order along nesting chains: same macro/syntax/input sequence whenever the reference order is forced
    checkorder(rlog, log, src)
    # 4. result
    w, g = ast.Module(body=want, type_ignores=[]), ast.Module(body=got, type_ignores=[])
    d = asteq.firstdiff(w, g, ctx=False)
    expect(d is None, "expanded-tree", lambda: f"(expected vs real) {d}\n--- source\n{brief(src, 3000)}\n--- expected\n{brief(safe(w), 2000)}\n--- real\n{brief(safe(g), 2000)}")
    expect(mackit.EXPANDERS <= {("MacroExpander", "/nonexistent/prog.py")} or len(mackit.EXPANDERS) == 1, "expander-argument", lambda: str(mackit.EXPANDERS))
    return fw.hash_(src) if len(log) >= 2 else None


def checkorder(rlog, log, src):
    """An expansion whose input tree strictly contains another logged input tree (same statement) comes first, in the reference iff in the real run."""
    pos_r = {}
    for i, e in enumerate(rlog):
        pos_r.setdefault(e, []).append(i)
    pos_g = {}
    for i, e in enumerate(log):
        pos_g.setdefault(e, []).append(i)
    uniq = [e for e in pos_r if len(pos_r[e]) == 1]
    if len(uniq) > 60:
        return
    reprs = {e: repr(e[4]) for e in uniq}
    for a in uniq:
        for b in uniq:
            if a is not b and reprs[b] in reprs[a] and reprs[a] != reprs[b]:   # b's invocation is part of a's
                expect((pos_r[a][0] < pos_r[b][0]) == (pos_g[a][0] < pos_g[b][0]), "nesting-order",
                       lambda: f"order of nested expansions: expected {'outer' if pos_r[a][0] < pos_r[b][0] else 'inner'} first\nouter {pretty(a)}\ninner {pretty(b)}\n--- source\n{brief(src, 3000)}")


def safe(t):
    try:
        return ast.unparse(ast.fix_missing_locations(t))
    except Exception:
        return ast.dump(t)


def pretty(ev):
    return brief(repr(ev), 700)
