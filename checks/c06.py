"""C06: positions, line numbers and coverage of expanded code match the original source."""
import ast
import collections
import os
import random
import sys
import types
import warnings

import asteq
import c04
import fw
import mackit
from fw import brief, expect
from mackit import C, call

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "line-event monitor (sys.settrace) and frame line numbers recorded inside the running expanded code; positions of every node after expansion compared with a reference expander that fills positions by the documented rule"
LEVEL_NOTE = ("Two oracles: (1) positions of all nodes of randomly macro-injected programs vs. the reference expander; (2) generated programs whose every call carries its own source line: frame line numbers, line events on every executed "
              "macro invocation line, and no line events in branches that did not run.")
RULE = "Random macro-injected modules (position oracle) and random executable programs with known live and dead lines (run-time oracle). Non-trivial: at least one macro expansion happened and was compared."
QUICK = dict(n=4000, secs=14)
THOROUGH = dict(n=200000, secs=300)
MIN = {"positions": 20000, "ticks": 5000, "line-events": 5000, "must-cover": 2000, "must-not": 1000, "generated": 500}
ASSUMPTIONS = ["an invocation whose expansion is a bare constant expression statement leaves no code in CPython, so it is not required to be covered"]

MOD = "mcpv_c06"
FN = "/nonexistent/c06.py"


def setup(scratch):
    c04.setup(scratch)
    from mcpyrate import namemacro
    m = types.ModuleType(MOD)
    m.__file__ = f"<{MOD}>"

    def gen(tree, *, invocation, syntax, **kw):
        """Generated call without positions; says where it should be."""
        c = call("gen_", C(value=invocation.lineno))
        if syntax == "expr":
            c.args.append(tree)
            return c
        if syntax == "name":
            return c
        if syntax == "block":
            return [ast.Expr(value=c)] + tree + [ast.If(test=c, body=mackit.withm("ident", [ast.Expr(value=call("gen_", C(value=invocation.lineno)))]) and [ast.Expr(value=call("gen_", C(value=invocation.lineno)))], orelse=[])]
        return [ast.Expr(value=c), tree]

    def gennested(tree, *, invocation, syntax, **kw):
        """Generates further invocations without positions."""
        if syntax == "expr":
            return ast.Tuple(elts=[mackit.sub("gen", tree), mackit.sub("ident", call("gen_", C(value=invocation.lineno)))], ctx=ast.Load())
        if syntax == "block":
            return [mackit.withm("gen", tree)]
        return [tree, mackit.withm("gen", [ast.Expr(value=call("gen_", C(value=invocation.lineno)))])]

    def expl(tree, *, invocation, syntax, **kw):
        """Generated call with positions of its own, not to be touched."""
        L = 5000 + invocation.lineno
        c = call("expl_", C(value=L))
        for n in ast.walk(c):
            if "lineno" in n._attributes:
                n.lineno = n.end_lineno = L
                n.col_offset, n.end_col_offset = 2, 9
        if syntax == "expr":
            return ast.Tuple(elts=[c, tree], ctx=ast.Load())
        e = ast.copy_location(ast.Expr(value=c), c)
        return [e] + (tree if isinstance(tree, list) else [tree])

    def ident(tree, **kw):
        return tree

    def drop(tree, **kw):
        return None

    def deep(tree, *, invocation, **kw):
        """Generated calls inside of original ones."""
        for t in tree if isinstance(tree, list) else [tree]:
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "tick":
                    n.args.append(call("gen_", C(value=invocation.lineno)))
        return tree

    def keep2(tree, *, syntax, **kw):
        """Reorders: the passed-through code stays on its lines."""
        if syntax == "block":
            return list(reversed(tree))
        if syntax == "expr" and isinstance(tree, ast.Tuple):
            tree.elts.reverse()
        return tree

    def inout(tree, *, expander, **kw):
        return expander.visit_recursively(tree)

    def once(tree, *, expander, **kw):
        return expander.visit_once(tree)

    def ngen(tree, *, syntax, invocation, **kw):
        return call("gen_", C(value=tree.lineno)) if syntax == "name" else tree

    def ndrop(tree, **kw):
        return None
    for f in (gen, gennested, deep, expl, ident, drop, keep2, inout, once):
        setattr(m, f.__name__, f)
    m.ngen, m.ndrop = namemacro(ngen), namemacro(ndrop)
    sys.modules[MOD] = m


# ------------------------------------------------------------------ run-time oracle: program generator
class Prog:
    def __init__(self, rng):
        self.r = rng
        self.lines = ["from mcpv_c06 import macros, gen, gennested, deep, expl, ident, drop, keep2, inout, once, ngen, ndrop"]
        self.cover, self.dead = set(), set()
        self.ticks = collections.Counter()
        self.nf = 0
        self.budget = rng.randint(4, 30)

    def put(self, ind, text, live, macro=False, mustcover=None):
        """Add a line; `@` stands for its own line number."""
        self.lines.append("    " * ind + text.replace("@@", str(len(self.lines) + 1)))
        L = len(self.lines)
        if not live:
            self.dead.add(L)
        elif macro if mustcover is None else mustcover:
            self.cover.add(L)
        return L

    def tickline(self, ind, live, mult=1, wrap="{}"):
        L = self.put(ind, wrap.format("tick(@@)"), live, mustcover=True)
        if live:
            self.ticks[L] += mult
        return L

    def suite(self, ind, live, depth, nmin=1):
        for _ in range(self.r.randint(nmin, 3)):
            self.stmt(ind, live, depth)

    def exprm(self):
        return self.r.choice(["ident", "gen", "gennested", "deep", "expl", "inout", "keep2"])

    def stmt(self, ind, live, depth):
        r = self.r
        self.budget -= 1
        k = r.randrange(20) if depth and self.budget > 0 else r.randrange(9)
        if r.random() < 0.2:
            self.lines.append(r.choice(["", "    " * ind + "# comment", ""]))
        if ind == 0 and r.random() < 0.12:   # a macro-import away from the top of the module
            w = r.choice(["ident as ident9", "gen", "ngen as n9, ident", "drop as d9", ""])
            self.put(0, "from mcpv_c06 import macros" + (", " + w if w else ""), live, macro=True)
        if k <= 1:
            self.tickline(ind, live)
        elif k <= 3:
            w = "{}"
            for _ in range(r.randint(1, 3)):
                w = f"{self.exprm()}[{w}]"
            self.tickline(ind, live, wrap=r.choice(["", "x = "]) + w)
        elif k == 4:
            self.put(ind, r.choice(["", "x = ", "x = y = "]) + r.choice(["drop[tick(@@)]", "ndrop", "ident[drop[tick(@@)]]", "inout[drop[tick(@@)]]"]), live, macro=True)
        elif k == 5:
            self.put(ind, r.choice(["ngen", "x = ngen", "ident[ngen]", "x = [ngen, ngen]"]), live, macro=True)
        elif k == 6:   # multi-line expression
            self.put(ind, "x = [", live)
            for _ in range(r.randint(1, 4)):
                if r.random() < 0.4:
                    self.put(ind + 1, r.choice(["drop[tick(@@)],", "ndrop,", "ident[drop[2]],"]), live, macro=True)
                elif r.random() < 0.5:
                    self.tickline(ind + 1, live, wrap=self.exprm() + "[{}],")
                else:
                    self.tickline(ind + 1, live, wrap="{},")
            self.lines.append("    " * ind + "]")
        elif k == 7:   # multi-line invocation
            m = self.exprm()
            self.put(ind, f"{m}[(", live)
            self.tickline(ind + 1, live, wrap="{},")
            self.tickline(ind + 1, live, wrap=f"{self.exprm()}[{{}}],")
            self.lines.append("    " * ind + ")]")
        elif k == 8:
            self.tickline(ind, live, wrap="assert " + self.exprm() + "[{}], drop[1]" if r.random() < 0.3 else "x = (lambda: " + self.exprm() + "[{}])()")
        elif k in (9, 10, 11):
            m = r.choice(["ident", "gen", "gennested", "deep", "expl", "keep2", "inout", "drop"])
            ms = [m]
            if r.random() < 0.3:
                ms.append(r.choice(["ident", "gen", "expl", "drop"]))
            asp = [r.choice(["", "", " as r"]) if x != "drop" else "" for x in ms]
            nodrop = "drop" not in ms
            if "keep2" in ms:   # reorder
                self.put(ind, "with " + ", ".join(ms) + ":", live, macro=live)
                live2 = live and nodrop
                self.tickline(ind + 1, live2)
                self.tickline(ind + 1, live2, wrap=self.exprm() + "[{}]")
            else:
                self.put(ind, "with " + ", ".join(x + a for x, a in zip(ms, asp)) + ":", live, macro=live)
                self.suite(ind + 1, live and nodrop, depth - 1)
        elif k in (12, 13, 14):
            names = [r.choice(["ident", "gen", "gennested", "deep", "expl", "inout", "keep2", "drop", "deco"]) for _ in range(r.randint(1, 3))]
            alive = True
            info = []
            for nm in reversed(names):
                info.append(alive and nm != "deco")
                if nm == "drop":
                    alive = False
            exists = alive
            for nm, inv in zip(names, reversed(info)):
                self.put(ind, f"@{nm}", live, mustcover=live and inv)
                if live and not inv:
                    self.cover.discard(len(self.lines))
            self.nf += 1
            f = f"f{self.nf}"
            if r.random() < 0.25:
                self.put(ind, f"class {f}:", True, mustcover=False)
                self.suite(ind + 1, live and exists, depth - 1)
            else:
                called = r.random() < 0.7
                a = r.random() < 0.2
                self.put(ind, f"{'async ' if a else ''}def {f}():", True, mustcover=False)
                body_live = live and exists and called
                self.suite(ind + 1, body_live, depth - 1)
                if called and exists:
                    self.put(ind, f"arun({f})" if a else f"{f}()", live)
        elif k == 15:
            c = r.choice(["yes", "no"])
            self.put(ind, f"if {r.choice(['', 'ident[', ])}{c}():".replace(f"[{c}()", f"[{c}()]"), live)
            self.suite(ind + 1, live and c == "yes", depth - 1)
            if r.random() < 0.6:
                self.lines.append("    " * ind + "else:")
                self.suite(ind + 1, live and c == "no", depth - 1)
        elif k == 16:
            self.put(ind, r.choice(["for i in two():", "for i in gen[two()]:"]), live)
            save, self.ticks = self.ticks, collections.Counter()
            self.suite(ind + 1, live, depth - 1)
            inner, self.ticks = self.ticks, save
            for a, b in inner.items():
                self.ticks[a] += 2 * b
            if r.random() < 0.3:
                self.lines.append("    " * ind + "else:")
                self.suite(ind + 1, live, depth - 1)
        elif k == 17:
            self.lines.append("    " * ind + "try:")
            b = r.random() < 0.5
            if b:
                self.put(ind + 1, r.choice(["boom(@@)", "ident[boom(@@)]", "gen[boom(@@)]"]), live)
                self.suite(ind + 1, False, depth - 1)
            else:
                self.suite(ind + 1, live, depth - 1)
            self.lines.append("    " * ind + "except Boom:")
            self.suite(ind + 1, live and b, depth - 1)
            if r.random() < 0.3:
                self.lines.append("    " * ind + "else:")
                self.suite(ind + 1, live and not b, depth - 1)
            if r.random() < 0.3:
                self.lines.append("    " * ind + "finally:")
                self.suite(ind + 1, live, depth - 1)
        elif k == 18:
            self.put(ind, "with cm(), ident:" if r.random() < 0.5 else "with gen, cm() as c:", live)
            self.suite(ind + 1, live, depth - 1)
        else:
            c = r.randint(1, 2)
            self.put(ind, "match 1:", live)
            for j in (1, 2):
                self.lines.append("    " * (ind + 1) + (f"case {j}:" if c == 1 else f"case {3 - j}:"))
                self.suite(ind + 2, live and ((j == 1) if c == 1 else (3 - j == 1)), depth - 1)


def run_program(src, obs):
    """-> (tick records, gen records, expl records, booms, lines with events)"""
    from mcpyrate import compiler
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exp = compiler.expand(src, filename=FN, self_module="prog")
        code = compile(exp, FN, "exec")
    rec = dict(tick=[], gen=[], expl=[], boom=[])
    lines = set()

    class Boom(Exception):
        pass

    class CM:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def mk(name, ret=None):
        def f(L, *a):
            rec[name].append((L, sys._getframe(1).f_lineno))
            return a[0] if a else L
        return f

    def boom(L):
        rec["boom"].append((L, sys._getframe(1).f_lineno))
        raise Boom(L)

    def arun(f):
        try:
            f().send(None)
        except StopIteration:
            pass
    ns = dict(tick=mk("tick"), gen_=mk("gen"), expl_=mk("expl"), boom=boom, Boom=Boom, cm=CM, arun=arun, deco=lambda f: f, yes=lambda: True, no=lambda: False, two=lambda: (1, 2))

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != FN:
            return None
        if event == "line":
            lines.add(frame.f_lineno)
            obs.count("line-events")
        return tracer
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        exec(code, ns)
    finally:
        sys.settrace(old)
    return rec, lines


def fixed(tier):
    cases = [{"kind": "pos", **c} for c in c04.fixed("quick")]
    cases += [{"kind": "run", "seed": i} for i in range(400)]
    cases += [{"kind": "traceback", "v": i} for i in range(4)]
    return cases


def generate(rng, i):
    if i % 3:
        return {"kind": "run", "seed": rng.randrange(10 ** 9)}
    c = c04.generate(rng, i)
    return c and {"kind": "pos", **c}


POS = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def posdiff(a, b, path, obs):
    if isinstance(a, ast.AST):
        if "lineno" in a._attributes:
            obs.count("positions")
            pa, pb = (tuple(getattr(x, p, None) for p in POS) for x in (a, b))
            if pa != pb:
                return f"{path}: {type(a).__name__} {brief(ast.dump(a), 200)}: expected {pa}, got {pb}"
        for f in a._fields:
            d = posdiff(getattr(a, f, None), getattr(b, f, None), f"{path}.{f}", obs)
            if d:
                return d
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = posdiff(x, y, f"{path}[{i}]", obs)
            if d:
                return d
    return None


def judge(case, obs):
    return globals()["judge_" + case["kind"]](case, obs)


def judge_pos(case, obs):
    from mcpyrate import compiler
    src, bind = case["src"], case["bind"]
    rlog = []
    ref = mackit.RefExpander(bind, rlog, max_calls=400)
    out = []
    try:
        for s in ast.parse(src).body:
            if isinstance(s, ast.ImportFrom) and s.module == "mcpv_mac":
                # becomes an absolute import, at the position of the macro-import
                out.append(ast.copy_location(ast.Import(names=[ast.copy_location(ast.alias(name=s.module, asname=None), s)]), s))
                continue
            r = ref.visit(s)
            out.extend(r) if isinstance(r, list) else out.append(r) if r is not None else None
    except RecursionError:
        return None
    want = mackit.canon(out)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exp = compiler.expand(src, filename=FN, self_module="prog")
    got = mackit.canon(exp.body)
    w, g = ast.Module(body=want, type_ignores=[]), ast.Module(body=got, type_ignores=[])
    if asteq.firstdiff(w, g, ctx=False) is not None:
        obs.count("tree-differs")     # C04's business
        return None
    d = posdiff(w, g, "tree", obs)
    expect(d is None, "position", lambda: f"{d}\n--- source\n{brief(src, 3000)}")
    return fw.hash_(src) if len(rlog) >= 1 else None


def judge_run(case, obs):
    rng = random.Random(case["seed"])
    g = Prog(rng)
    g.suite(0, True, 4, nmin=2)
    src = "\n".join(g.lines) + "\n"
    rec, lines = run_program(src, obs)
    show = lambda: "\n--- program\n" + "\n".join(f"{i + 1:3} {t}" for i, t in enumerate(g.lines))  # noqa: E731
    for name in rec:
        for want, got in rec[name]:
            expect(want == got, f"frame-line-{name}", lambda: f"{name}({want}) ran on line {got}{show()}")
    got = collections.Counter(a for a, b in rec["tick"])
    expect(got == g.ticks, "ticks", lambda: f"executions: expected {dict(g.ticks)}, got {dict(got)}{show()}")
    obs.count("ticks", len(rec["tick"]))
    obs.count("generated", len(rec["gen"]) + len(rec["expl"]))
    obs.count("must-cover", len(g.cover))
    obs.count("must-not", len(g.dead))
    miss = sorted(g.cover - lines)
    expect(not miss, "not-covered", lambda: f"no line event on executed lines {miss}{show()}")
    extra = sorted(g.dead & lines)
    expect(not extra, "dead-covered", lambda: f"line events on lines that did not run: {extra}{show()}")
    return fw.hash_(src)


TB = '''from mcpv_c06tb import macros, ident, wrap, note

def inner(x):
    with ident:
        y = wrap[
            x["missing"],   # innermost
        ]
    return y

@ident
@note
def middle():
    z = 1
    with note:
        with ident as q, note:
            z = ident[inner({})]   # middle
    return z

class A:
    @note
    def method(self):
        return [wrap[middle()] for _ in (1,)]   # method
try:
    note[A().method()]   # top
except KeyError as e:
    import traceback
    for f in traceback.extract_tb(e.__traceback__):
        print(f.name, f.lineno, f.line)
'''
TBM = '''from mcpyrate.quotes import macros, q, a
import ast
def ident(tree, **kw):
    return tree
def wrap(tree, **kw):
    return q[(lambda it: it)(a[tree])]
def note(tree, *, syntax, expander, **kw):
    if syntax == "expr":
        return ast.Tuple(elts=[ast.Constant(value=1), tree], ctx=ast.Load())
    with q as quoted:
        _note = 1
        with a:
            tree
    return expander.visit_recursively(quoted)
'''


def judge_traceback(case, obs):
    """Tracebacks of imported modules point at the original lines (cold and from the bytecode cache)."""
    d = os.path.join(fw.SCRATCH, f"tb{case['v']}")
    os.makedirs(d, exist_ok=True)
    pad = "\n# pad\n" * case["v"]
    open(os.path.join(d, "mcpv_c06tb.py"), "w").write(TBM)
    head, _, rest = TB.partition("\n")
    src = head + pad + "\n" + rest
    open(os.path.join(d, "mcpv_c06use.py"), "w").write(src)
    want = []
    rows = src.split("\n")
    for tag, name in (("# top", "<module>"), ("# method", "method"), ("# middle", "middle"), ("# innermost", "inner")):
        k = [i for i, t in enumerate(rows) if t.endswith(tag)][0]
        want.append(f"{name} {k + 1} {rows[k].strip()}")
    for attempt in range(2):
        p = fw.run_py(["-c", "import sys; sys.path.insert(0, '.'); import mcpyrate.activate, mcpv_c06use"], d, fw.child_env(d))
        expect(p.rc == 0, "traceback-run", lambda: repr(p))
        got = p.out.strip().split("\n")
        expect(got == want, "traceback-lines", lambda: f"expected {want}\ngot {got}\n{src}")
        obs.count("tracebacks")
    return f"tb{case['v']}"
