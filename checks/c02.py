"""C02: renderings (color, debug, dump, fallbacks) are faithful and have no side effects."""
import ast
import copy
import hashlib
import re
import textwrap
import warnings

import asteq
import pygen
from fw import Violation, brief, expect

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "run-time monitor comparing renderings of the same tree (colored/plain/debug/dump/fallback) and a before/after snapshot of the tree"
LEVEL_NOTE = "Renderings are related to each other and to the tree by an oracle outside the unparser (ANSI stripping, reparsing, eval of dumps, statement line numbers). Held on the executions listed in the evidence."
RULE = ("Generated programs over the whole grammar plus stdlib files, rendered in every mode (plain, color, debug, debug+color, with an expander, dump variants, fallbacks), "
        "plus trees with macro-expander markers at random places and trees damaged at random. Non-trivial: tree of at least 5 nodes or a damaged/marked tree; distinct by structure and mode.")
QUICK = dict(n=5000, secs=14)
THOROUGH = dict(n=400000, secs=300)
MIN = {"color-renderings": 1000, "dump-evals": 500, "fallbacks": 200, "marked": 100, "debug-lines": 1000}

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def setup(scratch):
    import mcpyrate.unparser, mcpyrate.core, mcpyrate.expander  # noqa: F401,E401


def fixed(tier):
    import random
    import c01
    cases = []
    for s in c01.TRICKY_STMTS:
        cases.append({"kind": "render", "src": s + "\n"})
    files = random.Random("c02").sample(asteq.stdlib_files(), 16 if tier == "quick" else 200)
    for p in files:
        cases.append({"kind": "file", "path": p})
    for n in range(30):
        cases.append({"kind": "odd", "n": n})
    return cases


def generate(rng, i):
    g = pygen.Gen(rng, depth=rng.choice([1, 2, 3]))
    src = g.module(rng.randint(1, 3), rng.choice([0, 1, 2]))
    kind = rng.choice(["render", "render", "marked", "damaged"])
    return {"kind": kind, "src": src, "r": rng.randrange(10**9)}


def snap(tree):
    if isinstance(tree, list):
        return [snap(t) for t in tree]
    return ast.dump(tree, include_attributes=True)


def expected_lines(node, out):
    """(lineno) of statements, decorators and except handlers, in source order."""
    for f in ("body", "handlers", "orelse", "finalbody", "cases"):
        v = getattr(node, f, None)
        if not isinstance(v, list):
            continue
        for s in v:
            for d in getattr(s, "decorator_list", []):
                out.append(d.lineno)
            if isinstance(s, (ast.stmt, ast.ExceptHandler)):
                out.append(s.lineno)
            expected_lines(s, out)
    return out


def _bound_macro(tree, **kw):
    return tree


def render_checks(tree, src, obs, withdump=True):
    from mcpyrate import dump, unparse
    from mcpyrate.expander import MacroExpander
    from mcpyrate.unparser import unparse_with_fallbacks
    before = snap(tree)
    plain = unparse(tree)
    expander = MacroExpander({n: _bound_macro for n in ("a", "x", "foo", "it", "print")}, "<c02>")
    for debug in (False, True):
        base = unparse(tree, debug=debug)
        for exp in (None, expander):
            col = unparse(tree, debug=debug, color=True, expander=exp)
            obs.count("color-renderings")
            if col != base:
                obs.count("actually-colored")
            stripped = ANSI.sub("", col).strip()
            expect(stripped == base.strip(), "color-changes-text",
                   lambda: f"debug={debug} expander={exp is not None}\n--- plain\n{brief(base)}\n--- color stripped\n{brief(stripped)}\n--- source\n{brief(src)}")
            base2 = unparse(tree, debug=debug, expander=exp)
            expect(base2 == base, "expander-changes-text", lambda: f"{brief(base)}\n---\n{brief(base2)}")
        expect(unparse_with_fallbacks(tree, debug=debug) == base, "fallbacks-differ", lambda: brief(src))
    # debug mode
    dbg = unparse(tree, debug=True)
    got = []
    lines = []
    for line in dbg.split("\n"):
        m = re.match(r"L(?: ----|\s*(\d+)) ?(.*)$", line)
        if not m:
            expect(not line.strip(), "debug-line-format", lambda: f"line without line number field: {line!r}\n{brief(src)}")
            continue
        text = m.group(2)
        if m.group(1) and not re.match(r"\s*(else|finally):\s*$", text):
            got.append(int(m.group(1)))
        if not text.strip().startswith("$Module"):
            lines.append(re.sub(r"^(\s*)\$Expr: ", r"\1", text))
        obs.count("debug-lines")
    want = expected_lines(tree, [])
    expect(got == want, "debug-line-numbers", lambda: f"line numbers shown {got}\nstatement line numbers {want}\n{brief(dbg)}\n--- source\n{brief(src)}")
    body = textwrap.dedent("\n".join(lines))
    try:
        t2 = ast.parse(body)
    except SyntaxError as e:
        raise Violation("debug-text", f"debug rendering without its annotations is not the program: {e}\n{brief(dbg)}")
    d = asteq.firstdiff(tree, t2)
    expect(d is None, "debug-text", lambda: f"{d}\n{brief(dbg)}")
    # dump
    if withdump:
        ns = dict(vars(ast), Ellipsis=Ellipsis, inf=float("inf"), nan=float("nan"), infj=complex(0, float("inf")), nanj=complex(0, float("nan")))
        for ml in (True, False):
            for attrs in (False, True):
                s = dump(tree, multiline=ml, include_attributes=attrs)
                c = dump(tree, multiline=ml, include_attributes=attrs, color=True)
                obs.count("color-renderings")
                expect(ANSI.sub("", c) == s, "dump-color-changes-text", lambda: brief(src))
                expect(ml or "\n" not in s, "dump-multiline", lambda: brief(s))
                if attrs and not ml or not attrs and ml or len(s) < 3000:
                    t3 = eval(s, dict(ns))
                    obs.count("dump-evals")
                    d = asteq.firstdiff(tree, t3)
                    expect(d is None, "dump-eval-differs", lambda: f"{d}\n{brief(s)}")
                    if attrs:
                        a1 = [[getattr(n, a, None) for a in n._attributes] for n in ast.walk(tree)]
                        a2 = [[getattr(n, a, None) for a in n._attributes] for n in ast.walk(t3)]
                        expect(a1 == a2, "dump-attributes-differ", lambda: brief(s))
        s = dump(tree.body)
        t3 = eval(s, dict(ns))
        d = asteq.firstdiff(tree.body, t3)
        expect(d is None, "dump-eval-differs", lambda: f"suite: {d}\n{brief(s)}")
    expect(snap(tree) == before, "rendering-modified-tree", lambda: brief(src))
    return plain


def judge(case, obs):
    warnings.simplefilter("ignore")
    kind = case["kind"]
    if kind == "odd":
        return odd(case["n"], obs)
    if kind == "file":
        import tokenize
        with tokenize.open(case["path"]) as f:
            src = f.read()
        tree = ast.parse(src)
        render_checks(tree, case["path"], obs, withdump=len(src) < 12000)
        return key(tree, "file")
    tree = ast.parse(case["src"])
    if kind == "render" and case.get("r", 0) % 2:
        # as if everything were written on lines of its own, in any order (macro output)
        for k, node in enumerate(ast.walk(tree)):
            if hasattr(node, "lineno"):
                node.lineno = node.end_lineno = 10 + (k * 7919 + case["r"]) % 99000
                obs.count("renumbered")
    if kind == "render":
        render_checks(tree, case["src"], obs)
        return key(tree, "render") if sum(1 for _ in ast.walk(tree)) >= 5 else None
    import random
    rng = random.Random(case["r"])
    if kind == "marked":
        return marked(tree, case["src"], rng, obs)
    return damaged(tree, case["src"], rng, obs)


def key(tree, tag):
    return tag[0] + hashlib.sha1(repr(asteq.norm(tree)).encode("utf-8", "backslashreplace")).hexdigest()[:16]


def marked(tree, src, rng, obs):
    from mcpyrate import unparse
    from mcpyrate.core import Done
    from mcpyrate.markers import delete_markers
    from mcpyrate.unparser import unparse_with_fallbacks
    plain = unparse(tree)
    # statement markers: one around a suite, shown once with the content inside
    exprs = []
    for node in ast.walk(tree):
        if isinstance(node, (ast.JoinedStr, ast.FormattedValue, ast.MatchValue, ast.MatchMapping, ast.MatchClass, ast.TypeAlias, ast.withitem)):
            continue
        for f, v in ast.iter_fields(node):
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(x, (ast.Name, ast.Call, ast.BinOp, ast.Compare)) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                    exprs.append((node, f, i if isinstance(v, list) else None, x))
    if not exprs:
        return None
    node, f, i, x = rng.choice(exprs)
    m = Done(x)
    if i is None:
        setattr(node, f, m)
    else:
        getattr(node, f)[i] = m
    before = snap(tree)
    text = unparse(tree)
    expect("$ASTMarker<Done>" in text, "marker-invisible", lambda: brief(src))
    inner = unparse(x)
    shown = f"($ASTMarker<Done>: {inner})"
    expect(text.count(shown) == 1 and text.replace(shown, inner) == plain, "marker-rendering",
           lambda: f"marker around {inner!r}\n{brief(text)}\n--- plain\n{brief(plain)}")
    expect(ANSI.sub("", unparse(tree, color=True)) == text, "color-changes-text", lambda: brief(text))
    dbg = unparse(tree, debug=True)
    expect(ANSI.sub("", unparse(tree, color=True, debug=True)) == dbg, "color-changes-text", lambda: brief(text))
    expect(snap(tree) == before, "rendering-modified-tree", lambda: brief(src))
    obs.count("marked")
    # a marker around a whole suite
    t2 = ast.parse(src)
    suites = [n for n in ast.walk(t2) if isinstance(getattr(n, "body", None), list) and n.body and isinstance(n.body[0], ast.stmt)]
    n = rng.choice(suites)
    n.body = Done(n.body) if rng.random() < .5 else [Done(list(n.body))]
    text = unparse(t2)
    expect(text.count("$ASTMarker<Done>") == 1, "marker-invisible", lambda: brief(text))
    for line in plain.split("\n"):
        expect(line.strip() in text, "marker-hides-code", lambda: f"{line!r} missing in\n{brief(text)}")
    expect(ANSI.sub("", unparse(t2, color=True)) == text, "color-changes-text", lambda: brief(text))
    unparse_with_fallbacks(t2, debug=True, color=True)
    t2 = delete_markers(t2)
    d = asteq.firstdiff(ast.parse(src), t2)
    expect(d is None, "delete-markers", lambda: f"{d}\n{brief(src)}")
    return key(tree, "marked")


JUNK = [None, 1, "x", [], [None], object(), 3.5, ast.Pass(), ast.Load(), [ast.Pass()], ast.Name(), ast.Constant(), ast.arguments(), b"", {}, ast.Constant(value=object())]


def damaged(tree, src, rng, obs):
    from mcpyrate.unparser import UnparserError, unparse, unparse_with_fallbacks
    nodes = list(ast.walk(tree))
    what = []
    for _ in range(rng.randint(1, 3)):
        node = rng.choice(nodes)
        fs = [f for f in node._fields if f in vars(node)]
        if not fs:
            continue
        f = rng.choice(fs)
        k = rng.randrange(4)
        if k == 0:
            delattr(node, f)
        elif k == 1:
            setattr(node, f, rng.choice(JUNK))
        elif isinstance(getattr(node, f), list):
            lst = list(getattr(node, f))
            lst.insert(rng.randint(0, len(lst)), rng.choice(JUNK))
            setattr(node, f, lst)
        else:
            setattr(node, f, rng.choice(nodes) if rng.random() < .0 else rng.choice(JUNK))
        what.append((type(node).__name__, f, k))
    for kw in ({}, {"debug": True}, {"color": True}, {"debug": True, "color": True}):
        obs.count("fallbacks")
        try:
            r = unparse_with_fallbacks(tree, **kw)
        except Exception as e:
            raise Violation("fallback-raises", f"{type(e).__name__}: {brief(str(e))} with {what} {kw}\n{brief(src)}")
        expect(isinstance(r, str), "fallback-not-str", f"{type(r)} {what}")
    obs.see("damage", repr(what))
    return "d" + hashlib.sha1(repr((src, what)).encode("utf-8", "backslashreplace")).hexdigest()[:16]


def odd(n, obs):
    """Things that are not trees, unknown node types, deep trees, colorizer facts."""
    from mcpyrate import dump, unparse
    from mcpyrate.colorizer import ColorScheme, Fore, Style, colorize, setcolor
    from mcpyrate.unparser import UnparserError, unparse_with_fallbacks

    class Weird(ast.expr):
        _fields = ("a",)
    deep = ast.Name(id="x", ctx=ast.Load())
    for _ in range(5000):
        deep = ast.UnaryOp(op=ast.USub(), operand=deep)
    objs = [None, 1, "x", object(), [], [None], [1], Weird(a=1), ast.Name(), deep, ast.FunctionDef(), ast.Module(body=None, type_ignores=[]),
            ast.Module(body=[None], type_ignores=[]), ast.Set(elts=[]), ast.Constant(value=object()), ast.JoinedStr(values=[1]), ast.Module(body=[Weird(a=[1, Weird()])], type_ignores=[]),
            ast.Load(), ast.FormattedValue(value=ast.Name(id="x"), conversion=7), [ast.ExceptHandler(type=None, name=None, body=[])], ast.Raise(exc=None, cause=ast.Name(id="x"))]
    if n < len(objs):
        o = objs[n]
        for kw in ({}, {"debug": True}, {"color": True}):
            try:
                r = unparse_with_fallbacks(o, **kw)
            except Exception as e:
                raise Violation("fallback-raises", f"object {n} {type(o)}: {type(e).__name__}: {brief(str(e))}")
            expect(isinstance(r, str) and (r or o == []), "fallback-not-str", f"object {n}: {r!r}")
            obs.count("fallbacks")
        if n == 7:
            try:
                unparse(o)
            except UnparserError as e:
                expect("Weird" in str(e), "error-message", str(e))
            else:
                raise Violation("unknown-node-accepted", "no UnparserError for an unknown node type")
        return f"odd{n}"
    texts = ["", "x", "a b\nc", "\x1b", "é"]
    colors = [(Fore.GREEN,), (Style.BRIGHT, Fore.BLUE), ((Style.BRIGHT, (Fore.RED,)),), ()]
    for t in texts:
        for c in colors:
            s = colorize(t, *c)
            reset = setcolor()
            expect(s.startswith(reset) and s.endswith(t + reset), "colorize", repr(s))
            flat = "".join(_flat(c))
            expect(s == reset + flat + t + reset, "colorize", repr(s))
            expect(setcolor(*c, reset=False) == flat, "setcolor", repr(c))
    for bad in (None, 1, "x", object()):
        try:
            dump(bad)
        except TypeError:
            pass
        else:
            raise Violation("dump-accepts-non-ast", repr(bad))
    if n == len(objs):
        # the color scheme takes effect immediately, and can be replaced
        from mcpyrate.bunch import Bunch
        old = copy.copy(dict(ColorScheme.items())) if hasattr(ColorScheme, "items") else {}
        t = ast.parse("print('x', 1)")
        before = unparse(t, color=True)
        ColorScheme.STRING = Fore.MAGENTA
        try:
            after = unparse(t, color=True)
            expect(Fore.MAGENTA in after and ANSI.sub("", after) == unparse(t), "color-scheme", repr(after))
        finally:
            ColorScheme.STRING = old["STRING"]
        expect(unparse(t, color=True) == before, "color-scheme", "restored scheme gives different output")
    return f"odd{min(n, len(objs) + 1)}"


def _flat(c):
    for x in c:
        if isinstance(x, (tuple, list)):
            yield from _flat(x)
        else:
            yield x
