"""C17: recording dialects in random modules vs. an independent model of the dialect-import algorithm."""
import ast
import copy
import os
import re
import sys
import types

import fw
from fw import Violation, brief, expect

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "recording dialects log every instantiation and transformer call (content, location, file, instance) while real modules are compiled, imported and run; the log and the final tree are compared with a model of the documented algorithm"
LEVEL_NOTE = "Transformers of all three kinds that add, remove, reformat or reorder dialect-imports, translate foreign syntax, replace or wrap the module, or are absent; every failure kind of the documentation."
RULE = "Random modules with 1-5 dialect-imports of 1-3 dialects each, in str, bytes (several encodings, line endings), AST and statement-list form and as files. Distinct by module text and dialect behaviours."
QUICK = dict(n=20000, secs=12)
THOROUGH = dict(n=400000, secs=300)
MIN = {"programs": 400, "src calls": 400, "ast calls": 600, "post calls": 500, "failures": 30, "imports": 20}
ASSUMPTIONS = ["dialect-imports for source transformers are single-line, at the first column, without parentheses or comments with parentheses (documented)"]

LOG = []
MODS = ["mcpv17_a", "mcpv17_b", "mcpv17_p.sub.d", "mcpv17_p.sub"]
ABS = {"mcpv17_a": "mcpv17_a", "mcpv17_b": "mcpv17_b", "mcpv17_p.sub.d": "mcpv17_p.sub.d", ".sub.d": "mcpv17_p.sub.d", ".sub": "mcpv17_p.sub", "mcpv17_p.sub": "mcpv17_p.sub"}
SPEC = {}    # (module, dialect name) -> {"src": effect or None, "ast":..., "post":...}
LINE = re.compile(r"from[ \t]+([^ \t]+)[ \t]+import dialects,[ \t]+([^(\\]+)")


# ---------------------------------------------------------------- effects: used by the recording dialects and by the model alike
def src_effect(eff, me, text):
    kind, arg = eff
    lines = text.split("\n")
    if kind == "identity":
        return text
    if kind == "append":
        return text + f"\nsrc_{me} = {arg}\n"
    if kind == "translate":
        return text.replace(f"@@{me}@@", f"({arg!r})").replace(f"<<{me}:", "tr(").replace(f":{me}>>", ")")
    if kind == "shift":
        k = next((i for i, ln in enumerate(lines) if ln.startswith("#shift")), None)
        if k is not None:
            lines[k:k + 1] = ["# shifted"] * arg
        return "\n".join(lines)
    if kind == "add":          # add a dialect-import, once, where the marker line is or at the end
        new = arg
        if any(ln.strip() == new for ln in lines):
            return text
        k = next((i for i, ln in enumerate(lines) if ln.startswith("#here")), None)
        if k is None:
            return text + "\n" + new + "\n"
        lines.insert(k, new)
        return "\n".join(lines)
    if kind == "remove":       # remove every dialect-import mentioning a dialect
        return "\n".join(ln for ln in lines if not (LINE.fullmatch(ln.strip()) and re.search(rf"\b{arg}\b", ln))) or "pass"
    if kind == "reformat":     # a new literal for the same import: applied again, by the documented rule
        return "\n".join(re.sub(r"import dialects, (?! )", "import dialects,  ", ln) if LINE.fullmatch(ln) and arg in ln else ln for ln in lines)
    raise AssertionError(kind)


def ast_effect(eff, me, tree, lineno):
    kind, arg = eff
    if kind == "identity":
        return tree
    if kind == "append":
        tree.body += ast.parse(f"ast_{me} = {arg}").body
        return tree
    if kind == "new":
        return ast.Module(body=list(tree.body) + ast.parse(f"new_{me} = {arg}").body, type_ignores=[])
    if kind == "wrap":
        k = 0
        while k < len(tree.body) and (isinstance(tree.body[k], ast.Expr) and isinstance(tree.body[k].value, ast.Constant) or isinstance(tree.body[k], ast.ImportFrom) and tree.body[k].module == "__future__"):
            k += 1
        keep = [s for s in tree.body[k:] if isinstance(s, (ast.Import, ast.ImportFrom))]
        rest = [s for s in tree.body[k:] if not isinstance(s, (ast.Import, ast.ImportFrom))]
        w = ast.parse(f"if True:\n    wrap_{me} = {lineno!r}").body
        w[0].body += rest
        return ast.Module(body=tree.body[:k] + keep + w, type_ignores=[])
    if kind == "add":
        st = ast.parse(arg[0]).body[0]
        if any(ast.dump(s) == ast.dump(st) for s in tree.body) or sum(isinstance(s, ast.Assign) and s.targets[0].id == f"added_{me}" for s in tree.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)):
            return tree
        tree.body.insert(min(arg[1], len(tree.body)) if arg[1] >= 0 else len(tree.body), st)
        tree.body += ast.parse(f"added_{me} = 1").body
        return tree
    if kind == "remove":
        tree.body = [s for s in tree.body if not (isinstance(s, ast.ImportFrom) and s.names[0].name == "dialects" and any(n.name == arg for n in s.names))] or [ast.Pass()]
        return tree
    if kind == "macro":
        k = 0
        while k < len(tree.body) and (isinstance(tree.body[k], ast.Expr) and isinstance(tree.body[k].value, ast.Constant) or isinstance(tree.body[k], ast.ImportFrom) and tree.body[k].module == "__future__"):
            k += 1
        tree.body[k:k] = ast.parse("from mcpv17_m import macros, mac as mac_" + me).body
        tree.body += ast.parse(f"m_{me} = mac_{me}[{arg}]").body
        return tree
    raise AssertionError(kind)


class Boom(Exception):
    pass


def fail(how):
    if how == "raise":
        raise Boom("boom")
    if how == "syntax":
        raise SyntaxError("nope")
    if how == "base":
        raise KeyboardInterrupt("stop")
    return {"empty": "", "none": None, "false": False}[how]


def dump(tree):
    def f(x):
        if isinstance(x, ast.AST):
            pos = () if isinstance(x, ast.alias) else tuple(getattr(x, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"))
            return (type(x).__name__, pos) + tuple((n, f(getattr(x, n, None))) for n in x._fields if n not in ("type_ignores", "kind"))
        if isinstance(x, list):
            return [f(y) for y in x]
        return repr(x)
    return fw.hash_(f(tree))


SERIAL = {}
KEEP = []


def install(spec):
    """Make the dialect classes named in `spec`: {(module, name): {src, ast, post}}."""
    from mcpyrate.dialects import Dialect
    for m in MODS:
        mod = sys.modules[m]
        for n in [n for n in vars(mod) if n.startswith("D")]:
            delattr(mod, n)
    KEEP.clear()
    SERIAL.clear()

    def make(key, sp):
        class D(Dialect):
            def __init__(self, expander):
                super().__init__(expander)
                KEEP.append(self)
                SERIAL[id(self)] = len(SERIAL)
                LOG.append(("new", key, SERIAL[id(self)]))
                if sp.get("init"):
                    fail(sp["init"])
        D.__name__ = D.__qualname__ = key[1]
        D.__module__ = key[0]
        if sp.get("src"):
            def transform_source(self, text):
                LOG.append(("src", key, SERIAL[id(self)], text, self.lineno, self.col_offset, self.expander.filename))
                if sp["src"][0] == "fail":
                    return fail(sp["src"][1])
                if sp["src"][0] == "notimpl":
                    return NotImplemented
                return src_effect(sp["src"], key[1], text)
            D.transform_source = transform_source
        if sp.get("ast"):
            def transform_ast(self, tree):
                LOG.append(("ast", key, SERIAL[id(self)], dump(tree), self.lineno, self.col_offset, self.expander.filename))
                if sp["ast"][0] == "fail":
                    return fail(sp["ast"][1])
                if sp["ast"][0] == "notimpl":
                    return NotImplemented
                return ast_effect(sp["ast"], key[1], tree, self.lineno)
            D.transform_ast = transform_ast
        if sp.get("post"):
            def postprocess_ast(self, tree):
                LOG.append(("post", key, SERIAL[id(self)], dump(tree), self.lineno, self.col_offset, self.expander.filename))
                if sp["post"][0] == "fail":
                    return fail(sp["post"][1])
                if sp["post"][0] == "notimpl":
                    return NotImplemented
                return ast_effect(sp["post"], "p" + key[1], tree, self.lineno)
            D.postprocess_ast = postprocess_ast
        if sp.get("del"):
            D = {"int": 42, "class": int, "func": lambda expander: None}[sp["del"]]
        setattr(sys.modules[key[0]], key[1], D)
    for key, sp in spec.items():
        make(key, sp)


# ---------------------------------------------------------------- the model
class Stop(Exception):
    def __init__(self, exc, cause=None):
        self.exc, self.cause = exc, cause


def resolve(st, filename):
    return ABS[("." * st.level) + (st.module or "")] if st.level else st.module


def model(spec, text, tree, filename, expand, log):
    """Returns (log, final tree) or raises Stop. `expand`: the macro expander, for trees without dialects."""
    n = [0]

    def apply(st, step, content, call):
        absname = resolve(st, filename)
        done = []
        for al in st.names[1:]:
            if al.asname:
                raise Stop(ImportError)
            if (absname, al.name) not in spec and al.name not in ("helper",) or spec.get((absname, al.name), {}).get("del") == "int":
                raise Stop(ImportError)
        for name in dict.fromkeys(al.name for al in st.names[1:]):
            if name == "helper" or spec[(absname, name)].get("del"):
                raise Stop(TypeError)
            sp = spec[(absname, name)]
            log.append(("new", (absname, name), n[0]))
            me = n[0]
            n[0] += 1
            if sp.get("init"):
                raise Stop(ImportError if sp["init"] != "base" else KeyboardInterrupt, Boom if sp["init"] == "raise" else None)
            content = call((absname, name), me, sp, content)
            done.append((me, (absname, name), sp))
        return content, done, absname

    def step(kind, key, me, sp, content, lineno, col):
        eff = sp.get(kind)
        if not eff:
            return content
        log.append((kind, key, me, content if kind == "src" else dump(content), lineno, col, filename))
        if eff[0] == "fail":
            if eff[1] == "base":
                raise Stop(KeyboardInterrupt)
            raise Stop(ImportError, {"raise": Boom, "syntax": SyntaxError}.get(eff[1]))
        if eff[0] == "notimpl":
            return content
        r = src_effect(eff, key[1], content) if kind == "src" else ast_effect(eff, ("p" if kind == "post" else "") + key[1], content, lineno)
        return r
    if text is not None:
        seen = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Stop(None)
            for i, ln in enumerate(text.split("\n")):
                if LINE.fullmatch(ln.rstrip()) and ln.rstrip() not in seen:
                    seen.add(ln.rstrip())
                    st = ast.parse(ln.rstrip()).body[0]
                    text, _, _ = apply(st, "src", text, lambda key, me, sp, c, i=i: step("src", key, me, sp, c, i + 1, 0))
                    break
            else:
                break
        try:
            tree = ast.parse(text, filename)
        except SyntaxError:
            raise Stop(ImportError, SyntaxError)
    ran = []
    rounds = 0
    while True:
        rounds += 1
        if rounds > 60:
            raise Stop(None)
        for i, st in enumerate(tree.body):
            if isinstance(st, ast.ImportFrom) and st.names[0].name == "dialects" and not st.names[0].asname:
                break
        else:
            break
        lineno, col = getattr(st, "lineno", None), getattr(st, "col_offset", None)
        # errors in the import itself come first, then the statement is replaced
        absname = resolve(st, filename)
        new = ast.copy_location(ast.Import(names=[ast.copy_location(ast.alias(name=absname, asname=None), st)]), st)
        tree.body[i] = new
        tree, done, _ = apply(st, "ast", tree, lambda key, me, sp, c: step("ast", key, me, sp, c, lineno, col))
        ran += [(me, key, sp, lineno, col) for me, key, sp in done]
    tree = expand(tree)
    for me, key, sp, lineno, col in ran:
        tree = step("post", key, me, sp, tree, lineno, col)
    return log, tree


# ---------------------------------------------------------------- setup and cases
def setup(scratch):
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.activate  # noqa: F401
    for m in ["mcpv17_p"] + sorted(MODS, key=len):
        mod = types.ModuleType(m)
        mod.__file__ = f"/nonexistent/{m}.py"
        if m in ("mcpv17_p", "mcpv17_p.sub"):
            mod.__path__ = []
        mod.helper = lambda expander: None
        sys.modules[m] = mod
    mm = types.ModuleType("mcpv17_m")

    def mac(tree, *, syntax, **kw):
        LOG.append(("macro", ast.dump(tree)))
        return ast.Tuple(elts=[ast.Constant(value="mac"), tree], ctx=ast.Load())
    mm.mac = mac
    sys.modules["mcpv17_m"] = mm


def shard_setup(scratch):
    sys.modules["mcpv17_p"].__path__ = [os.path.join(scratch, "mcpv17_p")]
    os.makedirs(os.path.join(scratch, "mcpv17_p"), exist_ok=True)
    sys.path.insert(0, scratch)


NAMES = ["D0", "D1", "D2", "D3", "D4", "D5", "D6"]


def gen_effects(rng, names, lines, withfail):
    sp = {}
    r = rng.random
    if r() < 0.65:
        sp["src"] = rng.choice([["append", rng.randint(0, 99)], ["identity", 0], ["notimpl", 0], ["translate", rng.choice([1, "x"])], ["translate", 5], ["shift", rng.randint(0, 4)],
                                ["add", rng.choice(lines)], ["remove", rng.choice(names)], ["reformat", rng.choice(names)], ["append", 1]])
    if r() < 0.7:
        sp["ast"] = rng.choice([["append", rng.randint(0, 99)], ["identity", 0], ["notimpl", 0], ["new", rng.randint(0, 99)], ["wrap", 0], ["macro", rng.randint(0, 9)], ["add", [rng.choice(lines), rng.choice([0, 1, 3, -1])]], ["remove", rng.choice(names)]])
    if r() < 0.6:
        sp["post"] = rng.choice([["append", rng.randint(0, 99)], ["identity", 0], ["notimpl", 0], ["new", 7], ["wrap", 0]])
    if withfail:
        k = rng.choice(["src", "ast", "post", "init", "del"])
        if k in ("src", "ast", "post"):
            sp[k] = ["fail", rng.choice(["raise", "syntax", "base", "empty", "none", "false"])]
        elif k == "init":
            sp["init"] = rng.choice(["raise", "base"])
        else:
            sp["del"] = rng.choice(["int", "class", "func"])
    return sp


def importline(rng, where, names):
    sep = rng.choice([", ", ", ", ",  ", ","])
    return f"from{rng.choice([' ', '  '])}{where} import dialects,{rng.choice([' ', ' ', '  '])}{sep.join(names)}{rng.choice(['', '', '', '  # noqa: F401', ' '])}"


def generate(rng, i):
    spec = {}
    pool = {}
    for n in NAMES[:rng.randint(1, 7)]:
        m = rng.choice(MODS)
        pool[n] = m
    bymod = {}
    for n, m in pool.items():
        bymod.setdefault(m, []).append(n)

    def line(rng=rng):
        m = rng.choice(sorted(bymod))
        ns = rng.sample(bymod[m], rng.randint(1, min(3, len(bymod[m]))))
        w = m
        if m.startswith("mcpv17_p.") and rng.random() < 0.5:
            w = m[len("mcpv17_p"):]
        return importline(rng, w, ns)
    extra = [" ".join(line().split()).replace(" # noqa: F401", "") for _ in range(4)]
    withfail = rng.choice(sorted(pool)) if rng.random() < 0.12 else None
    for n, m in pool.items():
        spec[f"{m}:{n}"] = gen_effects(rng, sorted(pool), extra, n == withfail)
    out = []
    if rng.random() < 0.3:
        out.append(rng.choice(['"""doc"""', "'doc\u00e4'", '"""doc\n  from x import dialects, Y\n"""']))
    if rng.random() < 0.2:
        out.append("from __future__ import annotations")
    body = ["x = 1", "#shift", "#here", "y = 'a\\\\b'", "def f(a):\n    return (a, 'f')", "z = [\n  1,\n  2]", "# from mcpv17_a import dialects, Nope", "print", "if 1:\n    w = 2", "import mcpv17_a", "s = '''from q\nimport dialects, r'''", "v = '\x0c\x1c\x85\x0b'", "# page\x0cbreak", "\x0c"]
    tr = [n for n in pool if (spec[f"{pool[n]}:{n}"].get("src") or [0])[0] == "translate"]
    for _ in range(rng.randint(1, 5)):
        for _ in range(rng.randint(0, 3)):
            out.append(rng.choice(body))
        ln = line()
        out.append(ln if rng.random() > 0.15 or not out else rng.choice(out))
        if rng.random() < 0.1:
            out.append("from mcpv17_m import macros, mac")
            out.append("u = mac[x]" if rng.random() < 0.5 else "u = [mac[1], mac[y]]")
        if tr and rng.random() < 0.7:
            n = rng.choice(tr)
            out.append(rng.choice([f"t_{n} = @@{n}@@", f"t = lambda: <<{n}: 1, 2 :{n}>>", f"@@{n}@@"]))
        if rng.random() < 0.12:
            out.append(rng.choice([f"from mcpv17_a import (dialects, {n})" for n in bymod.get("mcpv17_a", [])] or ["from mcpv17_b import dialects"]))
        if rng.random() < 0.06:
            out.append(rng.choice(["from mcpv17_a import dialects", "from mcpv17_a import \\\n  dialects", "from mcpv17_b import dialects as q, helper"]))
    for _ in range(rng.randint(0, 3)):
        out.append(rng.choice(body))
    form = rng.choice(["str", "str", "bytes", "bytes", "ast", "list", "import", "run"])
    if withfail is None and rng.random() < 0.06:
        out.insert(rng.randrange(len(out) + 1), rng.choice(["from mcpv17_a import dialects, Nope", "from mcpv17_a import dialects, helper", "from mcpv17_a import dialects, D0 as Q", "from mcpv17_b import dialects, D1 as D1"]))
    return {"spec": spec, "text": "\n".join(out) + rng.choice(["\n", "", "\n\n"]), "form": form, "enc": rng.choice(["utf-8", "latin-1", "utf-8-sig"]), "nl": rng.choice(["\n", "\n", "\r\n"])}


def A(**kw):
    return {k: list(v) for k, v in kw.items()}


def fixed(tier):
    out = []
    T = "from mcpv17_a import dialects, {}\n"
    al = dict(src=("append", 1), ast=("append", 2), post=("append", 3))
    bf = '"""See BF."""\n\nfrom mcpv17_a import dialects, D0\n\n++[>++<-]>. @@D0@@\n>+.\nfrom mcpv17_a import dialects, D1\n<<<\n'
    for form in ("str", "bytes", "import", "run"):
        out.append({"spec": {"mcpv17_a:D0": A(src=("translate", 3)), "mcpv17_a:D1": A(src=("identity", 0))}, "text": bf, "form": form, "enc": "utf-8", "nl": "\n"})
    for form in ("str", "bytes", "ast", "list", "import", "run"):
        out.append({"spec": {"mcpv17_a:D0": A(**al), "mcpv17_a:D1": A(**al), "mcpv17_b:D2": A(**al)}, "text": T.format("D1, D0") + "x = 1\n" + "from mcpv17_b import dialects, D2\n" + T.format("D0") + "y = 2\n", "form": form, "enc": "utf-8", "nl": "\n"})
        for k in ("src", "ast", "post"):
            for how in ("raise", "syntax", "base", "empty", "none", "false"):
                out.append({"spec": {"mcpv17_a:D0": A(**dict(al, **{k: ("fail", how)}))}, "text": T.format("D0") + "x = 1\n", "form": form, "enc": "utf-8", "nl": "\n"})
    return out


def judge(case, obs):
    from mcpyrate import compiler
    spec = {tuple(k.split(":")): {a: (b if isinstance(b, str) else tuple(b)) for a, b in v.items()} for k, v in case["spec"].items()}
    spec = {k: {a: (b if isinstance(b, str) else (b[0], b[1])) for a, b in v.items()} for k, v in spec.items()}
    text, form = case["text"], case["form"]
    filename = os.path.join(fw.SCRATCH, "mcpv17_p", "mcpv17_user.py")
    install(spec)
    tree = None
    if form in ("ast", "list"):
        try:
            tree = ast.parse(text, filename)
        except SyntaxError:
            return None
        if not tree.body:
            return None
    # what the first source transformer must see
    if form in ("bytes", "import"):
        data = text
        if case["enc"] == "latin-1":
            data = "# -*- coding: latin-1 -*-\n" + data
        text = data
        data = data.replace("\n", case["nl"]).encode(case["enc"])
    LOG.clear()
    mtree = copy.deepcopy(tree)
    save = []

    def expand(t):
        save.append(len(LOG))
        r = compiler.expand(t, filename)
        del LOG[save[0]:]
        return r
    want = None
    mlog = []
    try:
        want = model(spec, None if tree else text, mtree, filename, expand, mlog)
    except Stop as s:
        if s.exc is None:
            return None
        want = s
    except SyntaxError as e:
        want = Stop(type(e))
    except Exception as e:
        want = Stop(type(e))
    LOG.clear()
    got = exc = None
    mod = None
    try:
        if form == "str":
            got = compiler.expand(text, filename)
        elif form == "bytes":
            got = compiler.expand(data, filename)
        elif form == "ast":
            got = compiler.expand(tree, filename)
        elif form == "list":
            got = compiler.expand(tree.body, filename)
        elif form == "import":
            with open(filename, "wb") as f:
                f.write(data)
            import importlib.machinery
            got = importlib.machinery.SourceFileLoader("mcpv17_p.mcpv17_user", filename).source_to_code(data, filename)
            obs.count("imports")
        else:
            mod = compiler.create_module("mcpv17_p.mcpv17_user", filename=filename)
            mod.tr = lambda *a: a
            got = compiler.run(text, mod)
    except BaseException as e:
        if isinstance(e, fw.CaseHang):
            raise
        exc = e
    finally:
        sys.modules.pop("mcpv17_p.mcpv17_user", None)
    log = [e for e in LOG if e[0] != "macro"]
    ctx = lambda: f"form {form}\n{brief(text, 1200)}\nspec {spec}\n"
    for e in log:
        obs.count(e[0] + " calls")
    if isinstance(want, Stop):
        if mod is not None and exc is None:
            raise Violation("no-error", ctx() + f"expected {want.exc.__name__}")
        expect(exc is not None, "no-error", lambda: ctx() + f"expected {want.exc.__name__}")
        expect(isinstance(exc, want.exc), "wrong-error", lambda: ctx() + f"expected {want.exc.__name__}, got {exc!r}")
        if mlog != log:
            k = next((k for k, (a, b) in enumerate(zip(mlog, log)) if a != b), min(len(mlog), len(log)))
            raise Violation("log-before-failure", ctx() + f"event {k}: expected {[e[:3] for e in mlog[k:]]}\ngot {[e[:3] for e in log[k:]]}\n{exc!r}")
        if want.cause:
            expect(isinstance(exc.__cause__, want.cause), "error-cause", lambda: ctx() + f"expected cause {want.cause.__name__}, got {exc!r} from {exc.__cause__!r}")
        obs.count("failures")
        return fw.hash_([text, repr(spec), form])
    wlog, wtree = want
    if exc is not None and not (form in ("run", "import") and log == wlog):
        raise Violation("unexpected-error", ctx() + f"{type(exc).__name__}: {exc} (from {exc.__cause__!r})\nlog {brief(log)}")
    for i, (a, b) in enumerate(zip(wlog, log)):
        if a != b:
            raise Violation(f"log-{a[0]}", ctx() + f"event {i}: expected {brief(a)}\n     got {brief(b)}\nexpected order {[e[:3] for e in wlog]}\ngot order      {[e[:3] for e in log]}")
    expect(len(log) == len(wlog), "log-length", lambda: ctx() + f"expected {[e[:3] for e in wlog]}\ngot {[e[:3] for e in log]}")
    if isinstance(got, ast.AST):
        expect(dump(got) == dump(wtree), "final-tree", lambda: ctx() + f"{ast.unparse(got)}\nexpected\n{ast.unparse(wtree)}")
    elif isinstance(got, types.CodeType):
        import codecmp
        d = codecmp.diff(compile(wtree, filename, "exec", dont_inherit=True), got)
        expect(d is None, "final-code", lambda: ctx() + d)
    elif isinstance(got, types.ModuleType):
        try:
            ns = {"tr": lambda *a: a, "__name__": "mcpv17_p.mcpv17_user", "__package__": "mcpv17_p"}
            exec(compile(wtree, filename, "exec", dont_inherit=True), ns)
        except Exception:
            ns = None
        if ns is not None:
            for k, v in ns.items():
                if not k.startswith("__") and not callable(v):
                    expect(k in got.__dict__ and repr(got.__dict__[k]) == repr(v), "namespace", lambda: ctx() + f"{k} = {got.__dict__.get(k)!r}, expected {v!r}")
    obs.count("programs")
    obs.see("event orders", repr([e[:3] for e in wlog]))
    return fw.hash_([text, repr(spec), form])
