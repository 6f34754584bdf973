"""C14: multi-phase modules vs. the chain of separate single-phase modules they stand for."""
import ast
import builtins
import importlib
import importlib.util
import os
import py_compile
import sys
import types

import fw
from fw import brief, expect

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "random multi-phase modules record every statement run and macro call (phase, line, input) while the real system compiles, runs and imports them; the event log and final namespace are compared with those of a chain of separate modules, one per phase, derived from the text by the documented rules"
LEVEL_NOTE = "Any number and order of phase blocks with gaps, macros of four kinds defined and used across phases, macro helpers, mutable state, docstrings, future-imports, external macro-imports, optimization levels; as text, AST, file, submodule and package __init__."
RULE = "Random modules (1-9 top-level items, phases up to 5). Distinct by module text and form."
QUICK = dict(n=6000, secs=14)
THOROUGH = dict(n=150000, secs=300)
MIN = {"modules": 200, "events": 3000, "macro calls": 400, "self-imports": 200, "imports": 40, "rejections": 20}
ASSUMPTIONS = ["code of one phase refers only to names defined earlier in the file in the same or a higher phase"]

EV = []
NS = {}


def event(*args):
    f = sys._getframe(1)
    EV.append(("run", f.f_globals.get("__phase__"), f.f_lineno) + args)
    return args[0] if args else None


def helper_event(name):
    # hygienic captures of functions are pickled by reference, so the phase whose copy runs is not specified
    EV.append(("helper", name, sys._getframe(1).f_lineno))


def mcall(name, syntax, tree, phase, state):
    EV.append(("macro", name, syntax, phase, state, ast.dump(tree, include_attributes=False) if isinstance(tree, ast.AST) else [ast.dump(t) for t in tree], getattr(tree, "lineno", None)))


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    builtins.E14 = event
    builtins.M14 = mcall
    builtins.H14 = helper_event
    with open(os.path.join(scratch, "mcpv14_ext.py"), "w") as f:
        f.write("import ast\nval = 41\ndef xm(tree, *, syntax, **kw):\n    M14('xm', syntax, tree, None, None)\n    return ast.Tuple(elts=[ast.Constant(value='xm'), tree], ctx=ast.Load()) if syntax == 'expr' else tree\n")
    sys.path.insert(0, scratch)
    import mcpv14_ext  # noqa: F401


def shard_setup(scratch):
    sys.path.insert(0, scratch)


# ---------------------------------------------------------------- generation: a list of items [phase, [lines]]
def gen_macro(rng, name, helpers, used):
    """Source lines of a macro definition."""
    kind = rng.choice(["ast", "ast", "quote", "hyg", "name"])
    out = []
    if kind == "name":
        out.append("from mcpyrate import namemacro")
        out.append("@namemacro")
    if kind in ("quote", "hyg"):
        out.append("from mcpyrate.quotes import macros, q, u, a, h")
    out.append(f"def {name}(tree, *, syntax, **kw):")
    out.append("    global S_%s" % name)
    out.append(f"    S_{name} += 1")
    out.append(f"    M14({name!r}, syntax, tree, __phase__, S_{name})")
    if used:
        out.append(f"    note = {used}[({rng.randint(0, 9)}, __phase__)]")
        out.append("    E14('note', note)")
    out.append("    if syntax != 'expr' and syntax != 'name':")
    out.append("        import ast")
    out.append(f"        return ast.parse({rng.choice(['E14(9)', 'pass', 'blk = 3'])!r}).body + (tree if isinstance(tree, list) else [tree])")
    hs = rng.choice(helpers) if helpers else None
    if kind == "ast":
        out.append("    import ast")
        out.append(f"    return ast.Tuple(elts=[ast.Constant(value={name!r}), tree], ctx=ast.Load())")
    elif kind == "name":
        out.append("    import ast")
        out.append(f"    return ast.Constant(value={name!r})")
    elif kind == "quote" or not hs:
        out = out if "from mcpyrate.quotes import macros, q, u, a, h" in out else ["from mcpyrate.quotes import macros, q, u, a, h"] + out
        out.append(f"    return q[({name!r}, u[__phase__], a[tree])]")
    else:
        out.append(f"    return q[h[{hs}]({name!r}, a[tree])]")
    out.append(f"S_{name} = 0")
    return out, kind == "name"


def generate(rng, i):
    nitems = rng.randint(1, 8)
    maxp = rng.choice([1, 1, 2, 2, 3, 4, 5])
    items = []
    macros = []     # (name, phase, isname)
    helpers = []    # (name, phase)
    names = []      # (name, phase)
    cnt = [0]

    def fresh(p):
        cnt[0] += 1
        return f"{p}{cnt[0]}"

    def use(rng, name, isname):
        arg = rng.choice(["1", "x + y", "'s'", "[j for j in (1, 2)]", "(lambda: 5)()"] + [n for n, p in names if p >= cur])
        arg = arg.replace("x + y", "3 + 4")
        if isname:
            return [f"E14('u', {name}, __phase__)"]
        return rng.choice([[f"E14('u', repr({name}[{arg}])[:40])"], [f"with {name}:", f"    E14('in', {arg})"], [f"@{name}", f"def {fresh('g')}(): pass"], [f"{fresh('r')} = [{name}[{arg}], {name}[{name}[7]]]"]])
    for _ in range(nitems):
        cur = rng.choice([0, 0] + list(range(1, maxp + 1)))
        lines = []
        avail = [(n, isn) for n, p, isn in macros if p > cur]
        if avail and rng.random() < 0.8:
            pick = rng.sample(avail, rng.randint(1, min(3, len(avail))))
            if rng.random() < 0.15:
                lines.append("from __self__ import macros, " + pick[0][0] + " as renamed_")
                lines += use(rng, "renamed_", pick[0][1])
            else:
                lines.append("from __self__ import macros, " + ", ".join(n for n, _ in pick))
                for n, isn in pick:
                    if rng.random() < 0.8:
                        lines += use(rng, n, isn)
        if rng.random() < 0.15:
            lines.append("from mcpv14_ext import macros, xm")
            lines.append("E14(xm[(1, __phase__)])")
        imported = [n for n, isn in avail if not isn and any(ln.startswith("from __self__") and f" {n}" in ln.replace(",", "") + " " and "renamed_" not in ln for ln in lines)]
        for _ in range(rng.randint(0 if lines else 1, 4)):
            k = rng.random()
            if k < 0.3:
                m = fresh("m_")
                src, isn = gen_macro(rng, m, [n for n, p in helpers if p >= cur], rng.choice(imported) if imported and rng.random() < 0.5 else None)
                lines += src
                macros.append((m, cur, isn))
            elif k < 0.45:
                h = fresh("h_")
                lines += [f"def {h}(*args):", f"    H14({h!r})", f"    return ({h!r},) + args"]
                helpers.append((h, cur))
            elif k < 0.6:
                v = fresh("v_")
                lines += [rng.choice([f"{v} = {rng.randint(0, 9)}", f"{v} = globals().get({v!r}, 0) + 1", f"try:\n    {v} += 1\nexcept NameError:\n    {v} = 100"])]
                lines = "\n".join(lines).split("\n")
                names.append((v, cur))
                lines.append(f"E14({v})")
            elif k < 0.7 and names:
                ok = [n for n, p in names if p >= cur]
                if ok:
                    lines.append(f"{rng.choice(ok)} += 1; E14({rng.choice(ok)})")
            elif k < 0.75:
                lines += ["if __phase__ == 0:", f"    E14({fresh('o')!r})", "else:", "    E14('higher')"]
            elif k < 0.8:
                lines += ["assert E14('assert', __debug__)"]
            elif k < 0.85:
                lines += [f"def {fresh('f')}(a: undefined_name_): pass"] if "ann" in flags(items) else ["E14(1)"]
            elif k < 0.9:
                lines += ["from mcpv14_ext import val", "E14(val)"]
            else:
                lines += [f"E14({fresh('e')!r}, sorted(k for k in globals() if k[:2] in ('v_', 'm_')))"]
        items.append([cur, lines])
    head = []
    if rng.random() < 0.3:
        head.append('"""doc"""')
    if rng.random() < 0.3:
        head += rng.choice([["from __future__ import annotations"], ["from __future__ import division", "from __future__ import annotations"], ["from __future__ import generator_stop, division", "from __future__ import annotations, nested_scopes", "from __future__ import division"]])
        for it in items:
            if rng.random() < 0.5:
                it[1].append("def ann_(a: undefined_name_): pass")
    return {"head": head, "items": items, "where": rng.randint(0, len(items)), "form": rng.choice(["run", "run", "expand", "compile", "ast", "file", "sub", "init", "odd", "pyc", "subpyc", "initpyc"]), "opt": rng.choice([-1, -1, 0, 1, 2])}


def flags(items):
    return ()


REJECT = ["with phase[0]:\n    pass", "with phase[-1]:\n    pass", "with phase['a']:\n    pass", "with phase:\n    pass", "with phase[1] as x:\n    pass", "if True:\n    with phase[1]:\n        pass", "def f():\n    with phase[1]:\n        pass",
          "phase[1]", "x = phase[2][3]", "@phase[1]\ndef f(): pass", "with phase[1, 2]:\n    pass", "with phase[x]:\n    pass", "from __self__ import macros, nope", "with phase[1]:\n    from __self__ import macros, late\nwith phase[1]:\n    def late(tree, **kw): return tree",
          "with phase[2]:\n    from __self__ import macros, low\nwith phase[1]:\n    def low(tree, **kw): return tree", "def zero(tree, **kw): return tree\nfrom __self__ import macros, zero", "from .__self__ import macros, m\nwith phase[1]:\n    def m(tree, **kw): return tree",
          "with phase[1]:\n    num = 3\nfrom __self__ import macros, num", "with phase[1]:\n    1/0", "with phase[2]:\n    def m(tree, **kw): raise ValueError\nwith phase[1]:\n    from __self__ import macros, m\n    m[1]", "with phase[1.0]:\n    pass", "with phase[1]:\n    with phase[1]:\n        x = 1"]


PKG = ["with phase[1]:\n    from .subm import v\nres = v, subm.v\n", "with phase[2]:\n    from .subm import macros, mac\nwith phase[1]:\n    x = mac[1]\nfrom .subm import macros, mac\nimport mcpv14_pkg.subm\nres = mac[x], subm.v\n",
       "with phase[1]:\n    import mcpv14_pkg.subm\n    def m(tree, **kw): return tree\nfrom __self__ import macros, m\nres = m[subm.v]\n", "with phase[3]:\n    from . import subm as s2\nwith phase[1]:\n    y = s2.v\nres = y\n", "with phase[1]:\n    from mcpv14_pkg import subm\n    w = subm.v\nres = w\n"]
# (module text, expected events): a dialect-import applies from the phase it is in
DIALECT = [("from mcpv14_dial import dialects, Rec\nwith phase[2]:\n    a = 1\nwith phase[1]:\n    b = 2\n", [("ast", ["a", "b"]), ("post", ["a", "b"])]),
           ("with phase[2]:\n    from mcpv14_dial import dialects, Rec\n    a = 1\nwith phase[1]:\n    b = 2\nc = 3\n", [("ast", ["a"]), ("post", ["a"]), ("ast", ["a", "b"]), ("post", ["a", "b"]), ("ast", ["a", "b", "c"]), ("post", ["a", "b", "c"])]),
           ("c = 3\nwith phase[1]:\n    from mcpv14_dial import dialects, Rec\n    b = 2\nwith phase[2]:\n    a = 1\n", [("ast", ["b", "a"]), ("post", ["b", "a"]), ("ast", ["c", "b", "a"]), ("post", ["c", "b", "a"])])]


def judge_pkg(src, obs, pyc):
    d = os.path.join(fw.SCRATCH, "mcpv14_pkg")
    os.makedirs(d, exist_ok=True)
    for nm in [nm for nm in sys.modules if nm.split(".")[0] == "mcpv14_pkg"]:
        del sys.modules[nm]
    with open(os.path.join(d, "__init__.py"), "w") as f:
        f.write("from mcpyrate.multiphase import macros, phase\n" + src)
    with open(os.path.join(d, "subm.py"), "w") as f:
        f.write("v = 7\ndef mac(tree, **kw):\n    return tree\n")
    cached = importlib.util.cache_from_source(os.path.join(d, "__init__.py"))
    for c in (cached, cached[:-4] + ".mcpyrate.pickle"):
        if os.path.exists(c):
            os.unlink(c)
    importlib.invalidate_caches()
    try:
        if pyc:
            py_compile.compile(os.path.join(d, "__init__.py"), doraise=True)
            for nm in [nm for nm in sys.modules if nm.split(".")[0] == "mcpv14_pkg"]:
                del sys.modules[nm]
        m = importlib.import_module("mcpv14_pkg")
    except Exception as e:
        raise fw.Violation("package", f"__init__.py:\n{src}\n{type(e).__name__}: {e} (from {e.__cause__!r})")
    finally:
        mods = {nm: sys.modules.pop(nm) for nm in list(sys.modules) if nm.split(".")[0] == "mcpv14_pkg"}
    expect(mods.get("mcpv14_pkg") is m and getattr(m, "subm", None) is mods.get("mcpv14_pkg.subm"), "package", lambda: f"__init__.py:\n{src}\nsubmodule attribute {getattr(m, 'subm', None)!r}, registered {mods!r}")
    expect(repr(m.res) in ("(7, 7)", "(1, 7)", "7"), "package", lambda: f"{src}: res = {m.res!r}")
    obs.count("packages")
    return src


def judge_dialect(k, obs):
    from mcpyrate.compiler import create_module, run
    from mcpyrate.dialects import Dialect
    src, want = DIALECT[k]
    log = []

    class Rec(Dialect):
        def transform_ast(self, tree):
            log.append(("ast", names(tree)))
            return tree

        def postprocess_ast(self, tree):
            log.append(("post", names(tree)))
            return tree

    def names(tree):
        return [s.targets[0].id for s in tree.body if isinstance(s, ast.Assign) and not s.targets[0].id.startswith("_")]
    md = types.ModuleType("mcpv14_dial")
    md.Rec = Rec
    sys.modules["mcpv14_dial"] = md
    run("from mcpyrate.multiphase import macros, phase\n" + src, create_module("mcpv14_mod", filename="/nonexistent/mcpv14_mod.py"))
    sys.modules.pop("mcpv14_mod")
    expect(log == want, "dialect-phase", lambda: f"{src}\nexpected {want}\ngot {log}")
    return src


def fixed(tier):
    out = [{"reject": r} for r in REJECT] + [{"pkg": p, "pyc": c} for p in PKG for c in (0, 1)] + [{"dialect": d} for d in range(len(DIALECT))]
    M = ["def m_1(tree, **kw):", "    M14('m_1', kw['syntax'], tree, __phase__, 0)", "    return tree"]
    base = [[0, ["E14('first')"]], [2, M + ["S = globals().get('S', 0) + 1", "E14(S)"]], [1, ["from __self__ import macros, m_1", "E14(m_1[3], S)", "def m_2(tree, **kw):", "    M14('m_2', kw['syntax'], tree, __phase__, m_1[5])", "    return tree"]],
            [0, ["from __self__ import macros, m_1, m_2", "E14(m_1[m_2[4]])", "E14(S)"]]]
    for form in ("run", "expand", "compile", "ast", "file", "sub", "init", "odd", "pyc", "subpyc", "initpyc"):
        for head in ([], ['"""doc"""', "from __future__ import annotations", "from __future__ import division"]):
            out.append({"head": head, "items": base, "where": 0, "form": form, "opt": 2})
    return out


def render(case):
    """The module text, and the text of each phase: same lines, others blank, phase blocks dedented."""
    rows = []   # (phase or None for all, text line, header?)
    for ln in case["head"]:
        rows.append(("head" if "__future__" in ln else 0, ln, ln))
    for k, (p, lines) in enumerate(case["items"] + [[0, []]]):
        if k == case["where"]:
            rows.append((0, "from mcpyrate.multiphase import macros, phase", "import mcpyrate.multiphase"))
        if not lines:
            continue
        if p:
            rows.append((None, f"with phase[{p}]:", ""))
            rows += [(p, "    " + ln, ln) for ln in lines]
        else:
            rows += [(0, ln, ln) for ln in lines]
    text = "\n".join(r[1] for r in rows) + "\n"
    top = max([p for p, ln in case["items"] if ln], default=0)

    def phase_text(k):
        return "\n".join(flat if p == "head" or (p is not None and p >= k) else "" for p, _, flat in rows) + "\n"
    return text, top, phase_text


def names_of(mod):
    return {k: v for k, v in vars(mod).items() if not k.startswith("__") and not isinstance(v, types.ModuleType) and "coverage" not in k}


def val(v):
    if isinstance(v, types.FunctionType):
        return ("function", v.__name__, v.__code__.co_firstlineno, v.__code__.co_flags, repr(sorted(v.__annotations__.items(), key=str)))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(val(x) for x in v)
    return repr(v)


FILES = ("file", "sub", "init", "odd", "pyc", "subpyc", "initpyc")   # imported from a file; one whose name is not an identifier; one compiled ahead of time


def judge(case, obs):
    if "reject" in case:
        return reject(case["reject"], obs)
    if "pkg" in case:
        return judge_pkg(case["pkg"], obs, case.get("pyc"))
    if "dialect" in case:
        return judge_dialect(case["dialect"], obs)
    from mcpyrate import compiler
    text, top, phase_text = render(case)
    form, opt = case["form"], case["opt"]
    if form in FILES:
        opt = -1
    obs.see("phase layouts", repr([p for p, _ in case["items"]]))
    ctx = lambda: f"form {form} optimize {opt}\n{brief(text, 3000)}\n"
    # the chain of separate modules
    EV.clear()
    prev = None
    chain = []
    failure = None
    try:
        for k in range(top, -1, -1):
            nm = f"mcpv14_chain{k}"
            src = phase_text(k)
            if prev:
                src = src.replace("from __self__ import", f"from {prev} import")
            m = compiler.create_module(nm, filename=f"/nonexistent/{nm}.py")
            m.__phase__ = k
            chain.append(nm)
            if not any(src.split("\n")) and k:
                continue
            try:
                if form == "expand" and k == 0:
                    exec(compile(ast.parse(ast.unparse(compiler.expand(src, m.__file__, optimize=opt))), m.__file__, "exec", dont_inherit=True, optimize=opt), m.__dict__)
                else:
                    compiler.run(src, m, optimize=opt)
            except Exception as e:
                failure = type(e)
                break
            prev = nm
        want = names_of(m)
        wdoc = m.__doc__
        wlog = list(EV)
    finally:
        for nm in chain:
            sys.modules.pop(nm, None)
    # the real thing
    EV.clear()
    name = {"sub": "mcpv14_pkg.target", "subpyc": "mcpv14_pkg.target", "init": "mcpv14_pkg", "initpyc": "mcpv14_pkg", "file": "mcpv14_file", "odd": "mcpv14-file", "pyc": "mcpv14_file"}.get(form, "mcpv14_mod")
    fn = f"/nonexistent/{name}.py"
    made = [name]
    exc = None
    mod = None
    try:
        if form in FILES:
            d = os.path.join(fw.SCRATCH, "mcpv14_pkg")
            os.makedirs(d, exist_ok=True)
            fn = {"file": os.path.join(fw.SCRATCH, "mcpv14_file.py"), "pyc": os.path.join(fw.SCRATCH, "mcpv14_file.py"), "odd": os.path.join(fw.SCRATCH, "mcpv14-file.py"), "sub": os.path.join(d, "target.py"), "subpyc": os.path.join(d, "target.py"), "init": os.path.join(d, "__init__.py"), "initpyc": os.path.join(d, "__init__.py")}[form]
            if form in ("sub", "subpyc"):
                with open(os.path.join(d, "__init__.py"), "w") as f:
                    f.write("")
            with open(fn, "w") as f:
                f.write(text)
            cached = importlib.util.cache_from_source(fn)
            if os.path.exists(cached):
                os.unlink(cached)
            if os.path.exists(cached[:-4] + ".mcpyrate.pickle"):
                os.unlink(cached[:-4] + ".mcpyrate.pickle")
            importlib.invalidate_caches()
            for nm in [nm for nm in sys.modules if nm.split(".")[0] in ("mcpv14_pkg", "mcpv14_file", "mcpv14-file")]:
                del sys.modules[nm]
            if form in ("pyc", "subpyc", "initpyc"):
                py_compile.compile(fn, doraise=True)
                expect("<py_compile>" not in sys.modules, "registry", "py_compile left its name in sys.modules")
                obs.count("compiled ahead")
            if form in ("sub", "subpyc"):
                import mcpv14_pkg  # noqa: F401
                made.append("mcpv14_pkg")
            mod = importlib.import_module(name)
            obs.count("imports")
        else:
            m2 = compiler.create_module(name, filename=fn)
            if form == "run":
                mod = compiler.run(text, m2, optimize=opt)
            elif form == "ast":
                mod = compiler.run(ast.parse(text), m2, optimize=opt)
            elif form == "compile":
                mod = compiler.run(compiler.compile(text, fn, optimize=opt, self_module=name), m2)
            else:
                t = compiler.expand(text, fn, optimize=opt, self_module=name)
                exec(compile(ast.parse(ast.unparse(t)), fn, "exec", dont_inherit=True, optimize=opt), m2.__dict__)
                mod = m2
    except Exception as e:
        exc = e
    finally:
        for nm in made:
            sys.modules.pop(nm, None)
    glog = list(EV)
    if failure:
        expect(exc is not None, "no-error", lambda: ctx() + f"expected {failure}")
        return None
    expect(exc is None, "unexpected-error", lambda: ctx() + f"{type(exc).__name__}: {exc} (from {exc.__cause__!r})\nevents {brief(repr(glog))}")
    if form == "expand":   # final run from unparsed text: lines differ
        strip = lambda log: [e if e[0] == "macro" else ("helper", e[1]) if e[0] == "helper" else e[:2] + e[3:] if e[1] == 0 else e for e in log]
        wlog, glog2 = strip(wlog), strip(glog)
    else:
        glog2 = glog
    for i, (a, b) in enumerate(zip(wlog, glog2)):
        expect(a == b, f"event-{a[0]}", lambda: ctx() + f"event {i}: expected {a!r}\n     got {b!r}")
    expect(len(wlog) == len(glog2), "event-count", lambda: ctx() + f"expected {len(wlog)} events, got {len(glog2)}: {brief(repr(glog2[len(wlog):] or wlog[len(glog2):]))}")
    got = names_of(mod)
    expect(mod.__dict__.get("__phase__") == 0, "final-phase", lambda: ctx() + f"__phase__ is {mod.__dict__.get('__phase__')!r}")
    for k in sorted(set(want) | set(got)):
        expect(k in want and k in got, "namespace", lambda: ctx() + f"{k!r} only in {'got' if k in got else 'expected'}")
        if form != "expand":
            expect(val(want[k]) == val(got[k]), "namespace", lambda: ctx() + f"{k} = {val(got[k])!r}, expected {val(want[k])!r}")
    if form in ("run", "ast", *FILES) and opt != 2:
        expect(mod.__doc__ == wdoc, "docstring", lambda: ctx() + f"{mod.__doc__!r}, expected {wdoc!r}")
    obs.count("modules")
    obs.count("events", len(glog))
    obs.count("macro calls", sum(e[0] == "macro" for e in glog))
    obs.count("self-imports", text.count("from __self__"))
    for e in glog:
        obs.see("phases seen", repr(e[1] if e[0] == "run" else e[3]) if e[0] != "helper" else "helper")
    return fw.hash_([text, form, opt])


def reject(src, obs):
    from mcpyrate import compiler
    text = "from mcpyrate.multiphase import macros, phase\n" + src + "\n"
    for form in ("run", "compile"):
        m = compiler.create_module("mcpv14_rej", filename="/nonexistent/mcpv14_rej.py")
        m.marker = 1
        try:
            if form == "run":
                compiler.run(text, m)
            else:
                compiler.compile(text, "/nonexistent/mcpv14_rej.py", self_module="mcpv14_rej")
        except Exception as e:
            obs.count("rejections")
            expect(not isinstance(e, (AssertionError, UnboundLocalError, AttributeError, KeyError)), "odd-error", lambda: f"{text}{type(e).__name__}: {e}")
        else:
            raise fw.Violation("accepted", f"{form}: no error for\n{text}")
        finally:
            expect(sys.modules.get("mcpv14_rej") is m, "registry", lambda: f"after the failure of\n{text}the module registered is {sys.modules.get('mcpv14_rej')!r}")
            sys.modules.pop("mcpv14_rej", None)
    return src
