"""C21: macro- and dialect-imports resolve exactly like Python's own imports."""
import ast
import builtins
import contextlib
import importlib
import os
import runpy
import shutil
import sys
import tempfile

import fw
from fw import expect

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "random package trees on disk, in random search-path layouts, whose modules macro-import and dialect-import each other in every form; each tree is imported twice, once as is and once as a twin tree in which each macro-import is the equivalent Python import, and the module found (by its own name and file), the failures, the run-time names and the expanded imports are compared"
LEVEL_NOTE = "Python's import system, run on the twin tree, is the oracle for what each import must find."
RULE = "1-3 search-path roots (nested, shadowing each other, relative, symlinked), regular, namespace and symlinked packages to depth 4, 4-9 modules with 0-3 macro-/dialect-imports each, absolute or relative to any level, existing or not; imported in random order, run by runpy, or run in created modules. Distinct by tree."
QUICK = dict(n=6000, secs=15)
THOROUGH = dict(n=200000, secs=300)
MIN = {"trees": 200, "imports compared": 800, "resolved": 500, "failing": 100, "relative": 300, "dialects": 80, "runtime names": 400, "runpy": 40, "dynamic": 60, "expanded imports": 200, "helpers": 300, "shadowed": 30}
ASSUMPTIONS = ["module search caches are invalidated between trees", "circular macro-imports are not generated (C12 covers them)", "a module run by runpy gets its package from the search path, which is unambiguous (as documented: its package is guessed)"]

HEAD = '''import builtins
builtins.LOG21("enter", __name__, {rel!r})
WHO = (__name__, {rel!r})
def whoami(tree, **kw):
    import ast
    return ast.Tuple(elts=[ast.Constant(value=__name__), ast.Constant(value={rel!r}), tree], ctx=ast.Load())
def other(tree, **kw):
    import ast
    return ast.Tuple(elts=[ast.Constant(value="other of " + __name__), ast.Constant(value={rel!r}), tree], ctx=ast.Load())
class _Callable:
    def __call__(self, tree, **kw):
        return other(tree)
callobj = _Callable()
callobj.who = ("other of " + __name__, {rel!r})
import functools
partial = functools.partial(other)
partial.who = ("other of " + __name__, {rel!r})
def __getattr__(name):
    if name == "lazy":
        return other
    if name == "LazyDia":
        return Dia
    raise AttributeError(name)
whoami.who = WHO
other.who = ("other of " + __name__, {rel!r})
not_callable = 5
macros = "an ordinary name"
dialects = "an ordinary name, too"
from mcpyrate.dialects import Dialect
class Dia(Dialect):
    who = WHO
    def transform_ast(self, tree):
        import ast
        tree.body += ast.parse("dia_%d = %r" % (len([s for s in tree.body if ast.unparse(s).startswith("dia_")]), self.who)).body
        return tree
'''
EVENTS = []


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    builtins.LOG21 = lambda *x: EVENTS.append(x)


# ---------------------------------------------------------------- generation
TOP = ["zpa", "zpb", "zmc"]
SUB = ["zpa", "zsx", "zsy", "zmc"]


def generate(rng, i):
    """A case: files {relative path: spec}, roots [relative dir or special], order."""
    layout = rng.choice(["one", "one", "two", "two", "nested", "three"])
    dirs = {"one": ["r"], "two": ["r", "q"], "nested": ["r", "r/zpa"], "three": ["r", "q", "s"]}[layout]
    roots = list(dirs)
    rng.shuffle(roots)
    how = {d: rng.choice(["abs", "abs", "abs", "rel", "slash", "link", "dots"]) for d in roots}
    if layout == "nested":
        how = {d: rng.choice(["abs", "rel"]) for d in roots}
    files = {}
    for r in dirs:
        if r == "r/zpa":
            continue
        for _ in range(rng.randint(2, 6)):
            parts = [rng.choice(TOP)]
            while len(parts) < 4 and rng.random() < 0.55:
                parts.append(rng.choice(SUB))
            if rng.random() < 0.5:
                parts.append("__init__")
            for k in range(1, len(parts)):   # regular or namespace packages on the way
                if rng.random() < 0.7:
                    files.setdefault("/".join([r, *parts[:k], "__init__.py"]), None)
            files["/".join([r, *parts]) + ".py"] = None
    names = {}
    for f in files:
        names[f] = [n for n in (dotted(f, r) for r in dirs) if n]
    allnames = sorted({n for ns in names.values() for n in ns})
    edges = {}
    rexed = set()
    simple = rng.random() < 0.5
    for f in sorted(files, key=lambda f: rng.random()):
        spec = {"imports": [], "plain": rng.random() < 0.15}
        me = names[f][0] if names[f] else ""
        pkg = me if f.endswith("__init__.py") else me.rpartition(".")[0]
        for _ in range(rng.choice([0, 1, 1, 1] if simple else [0, 1, 1, 2, 3])):
            level = 0 if rng.random() < 0.35 else rng.choice([1, rng.randint(1, len(pkg.split("."))), rng.randint(1, len(pkg.split(".")) + rng.choice([0, 0, 1]))]) if pkg else rng.choice([0, 0, 0, 1])
            r = rng.random()
            target = rng.choice(allnames)
            if r < 0.08:
                target += ".zno"
            elif r < 0.12:
                target = "zno." + target
            if level:
                base = ".".join(pkg.split(".")[:len(pkg.split(".")) - level + 1]) if pkg else ""
                inside = [n[len(base) + 1:] for n in allnames if n.startswith(base + ".")]
                module = rng.choice(inside) if base and inside and r > 0.12 else rng.choice(SUB)
                absname = f"{base}.{module}" if base else module
            else:
                module = absname = target
            if cyclic(edges, me, absname, allnames):
                continue
            edges.setdefault(me, set()).add(absname)
            kind = rng.choice(["macros", "macros", "macros", "dialects", "ordinary"])
            k = len(spec["imports"])
            what = []
            if kind == "dialects":
                what = [[rng.choice(["Dia", "Dia", "Dia", "LazyDia"]), None]]
                if rng.random() < 0.1:
                    what = [[rng.choice(["NoSuch", "not_callable"]), None]]
            else:
                for j in range(rng.choice([1, 1, 2])):
                    what.append([rng.choice(["whoami"] * 4 + ["other", "callobj", "partial", "lazy"] + (["no_such", "not_callable"] if rng.random() < 0.3 else ["whoami"])), f"m{k}_{j}"])
                if kind == "ordinary" and rng.random() < 0.6:
                    what.append(["whoami", "rex"])   # re-exported
                elif kind == "macros" and rng.random() < 0.25:
                    what[0][0] = "rex" if absname in rexed else what[0][0]
                if kind == "macros" and rng.random() < 0.15 and k == 0:
                    what = [["whoami", None]]
                if kind == "macros" and rng.random() < 0.05:
                    what = []
            if ["whoami", "rex"] in what:
                rexed |= set(names[f])
            spec["imports"].append([kind, level, module, what])
        files[f] = spec
    links = [f for f in files if f.count("/") > 2 and rng.random() < 0.06][:1]
    starts = [n for n in allnames if rng.random() < 0.7] or allnames[:1]
    rng.shuffle(starts)
    return {"files": files, "roots": [[r, how[r]] for r in roots], "starts": starts, "links": links,
            "dynamic": [rng.choice(allnames) for _ in range(2)], "dynspec": [["macros", rng.randint(0, 3), rng.choice(SUB + allnames), [["whoami", "m0_0"]]] for _ in range(2)],
            "runpy": rng.choice(allnames) if layout in ("one", "two") and not links and all(h != "link" for h in how.values()) and rng.random() < 0.6 else None, "layout": layout}


def dotted(f, r):
    if not f.startswith(r + "/"):
        return None
    parts = f[len(r) + 1:-3].split("/")
    if parts[-1] == "__init__":
        parts.pop()
    return ".".join(parts) if parts else None


def cyclic(edges, me, target, allnames):
    """Could importing `target` while `me` is being imported lead back to `me`?"""
    seen = set()

    def ancestors(x):
        p = x.split(".")
        return [".".join(p[:k]) for k in range(1, len(p))]

    def visit(x, origin):
        if x == me and not (origin == me or origin.startswith(me + ".")):
            return True
        if (x, origin) in seen:
            return False
        seen.add((x, origin))
        if any(visit(a, origin) for a in ancestors(x)):
            return True
        return any(t == me or visit(t, x) for t in edges.get(x, ()))
    return target == me or target.startswith(me + ".") and bool(edges.get(target)) or visit(target, me)


def fixed(tier):
    out = []
    ok = {"imports": [], "plain": False}

    def case(files, roots=(("r", "abs"),), starts=(), dynamic=(), dynspec=(), runpy=None, links=()):
        out.append({"files": files, "roots": [list(x) for x in roots], "starts": list(starts), "dynamic": list(dynamic), "dynspec": [list(x) for x in dynspec], "runpy": runpy, "links": list(links), "layout": "fixed"})

    def imp(*x):
        return {"imports": [list(y) for y in x], "plain": False}
    W = [["whoami", "m0_0"]]
    for kind, what in (("macros", W), ("macros", [["whoami", None]]), ("dialects", [["Dia", None]]), ("ordinary", W)):
        # every level from a module and from a package at every depth
        for depth in range(4):
            pk = ["zpa", "zsx", "zsy"][:depth]
            base = {"/".join(["r", *pk[:k], "__init__.py"]): ok for k in range(1, depth + 1)}
            base |= {"/".join(["r", *pk[:k], "zt.py"]): ok for k in range(depth + 1)}
            for level in range(0, depth + 3):
                name = ".".join([*pk, "zm"])
                case({**base, "/".join(["r", *pk, "zm.py"]): imp([kind, level, "zt", what])}, starts=[name])
                if depth:
                    case({**base, "/".join(["r", *pk, "__init__.py"]): imp([kind, level, "zt", what])}, starts=[".".join(pk)])
                    case({**base, "/".join(["r", *pk, "zm.py"]): imp([kind, level, "zt", what])}, runpy=name)
                    case(base, dynamic=[".".join(pk)], dynspec=[[kind, level, "zt", what]])
        # namespace packages split over two roots, in both orders; nested roots
        for roots in ([("r", "abs"), ("q", "abs")], [("q", "abs"), ("r", "abs")], [("q", "rel"), ("r", "link")]):
            case({"r/zns/za.py": imp([kind, 1, "zb", what]), "q/zns/zb.py": ok}, roots, ["zns.za"])
            case({"r/zns/sub/za.py": imp([kind, 2, "zb", what]), "q/zns/zb.py": ok, "r/zns/zb.py": ok}, roots, ["zns.sub.za"])
            case({"r/zpk/__init__.py": ok, "r/zpk/za.py": imp([kind, 1, "zb", what]), "q/zpk/__init__.py": ok, "q/zpk/zb.py": ok, "q/zpk/za.py": imp([kind, 1, "zb", what])}, roots, ["zpk.za"])
            case({"r/zt.py": ok, "q/zt/__init__.py": ok, "r/zm.py": imp([kind, 0, "zt", what])}, roots, ["zm"])
        for roots in ([("r", "abs"), ("r/zpk", "abs")], [("r/zpk", "abs"), ("r", "abs")], [("r/zpk", "rel"), ("r", "rel")]):
            case({"r/zpk/__init__.py": ok, "r/zpk/za.py": imp([kind, 1, "zb", what]), "r/zpk/zb.py": ok, "r/zb.py": ok}, roots, ["zpk.za", "za"])
            case({"r/zpk/__init__.py": ok, "r/zpk/zs/__init__.py": ok, "r/zpk/zs/za.py": imp([kind, 2, "zb", what]), "r/zpk/zb.py": ok}, roots, ["zpk.zs.za"])
            case({"r/zpk/__init__.py": ok, "r/zpk/zs/__init__.py": ok, "r/zpk/zs/za.py": imp([kind, 2, "zb", what]), "r/zpk/zb.py": ok}, roots, ["zs.za", "zpk.zs.za"])
        # a module and a package of one name; a submodule named as a top-level module
        case({"r/zt.py": ok, "r/zt/__init__.py": ok, "r/zm.py": imp([kind, 0, "zt", what])}, starts=["zm"])
        case({"r/zt.py": ok, "r/zt/zu.py": ok, "r/zm.py": imp([kind, 0, "zt.zu", what])}, starts=["zm"])
        case({"r/zt.py": ok, "r/zpk/__init__.py": ok, "r/zpk/zt.py": ok, "r/zpk/zm.py": imp([kind, 0, "zt", what], [kind, 1, "zt", what])}, starts=["zpk.zm"])
        # symlinked package directory
        case({"r/zpk/__init__.py": ok, "r/zpk/zs/__init__.py": ok, "r/zpk/zs/za.py": imp([kind, 2, "zb", what], [kind, 1, "zc", what]), "r/zpk/zb.py": ok, "r/zpk/zs/zc.py": ok}, starts=["zpk.zs.za"], links=["r/zpk/zs/za.py"])
    for form, name in (("macros", "zm"), ("ordinary", "zm")):
        case({"r/zt.py": ok, "r/zpk/__init__.py": imp(["ordinary", 0, "zt", [["whoami", "rex"]]]), "r/zpk/zu.py": imp(["ordinary", 1, "zt", [["whoami", "rex"]]]), "r/zpk/zt.py": ok, "r/zm.py": imp([form, 0, "zpk", [["rex", "m0_0"]]], [form, 0, "zpk.zu", [["rex", "m1_0"], ["other", "m1_1"]]])}, starts=[name, "zpk.zu"])
    for what in ([["callobj", "m0_0"]], [["partial", "m0_0"]], [["lazy", "m0_0"]], [["no_such", "m0_0"]], [["not_callable", "m0_0"]], [["whoami", "m0_0"], ["no_such", "m0_1"]], [], [["whoami", "a"], ["whoami", "b"], ["other", "c"]], [["whoami", "other"], ["other", "whoami"]]):
        for kind in ("macros", "dialects"):
            if kind == "dialects" and (len(what) > 1 or what[:1] == [["whoami", "other"]] or what and what[0][0] in ("callobj", "partial", "lazy")):
                continue
            case({"r/zt.py": ok, "r/zm.py": imp([kind, 0, "zt", [[x, None if kind == "dialects" else y] for x, y in what]])}, starts=["zm"])
    out += [{"form": i} for i in range(len(FORMS))] + [{"pform": i} for i in range(len(PFORMS))]
    return out


# (source, does it compile, must this name be bound to a macro)
FORMS = [("if True:\n    from zt import macros, whoami\nassert macros == 'an ordinary name' and callable(whoami)\ntry:\n    whoami[1]\nexcept TypeError:\n    pass\nelse:\n    1/0\n", "ok"),
         ("def f():\n    from zt import macros, whoami\n    return macros, callable(whoami)\nassert f() == ('an ordinary name', True)\n", "ok"), ("from zt import dialects as d, Dia\nassert d and Dia.who and 'dia_0' not in globals()\n", "ok"), ("from zt import dialects, Dia\nassert zt.WHO\n", "ok"),
         ("from zt import dialects, Dia\ntry:\n    Dia\nexcept NameError:\n    pass\nelse:\n    1/0\n", "ok"), ("from zt import macros, whoami\nassert __name__ == 'zform' and list(k for k in globals() if k[0] != '_') == ['zt']\n", "ok"),
         ("from . import macros, whoami\n", None), ("from .. import macros, whoami\n", None), ("from . import dialects, Dia\n", None), ("from zt import macros, whoami as w\nx = whoami[1]\n", "NameError"),
         ("from zt import dialects, Dia as D\n", "ImportError"), ("from .__self__ import macros, whoami\n", None), ("from zt import macros as macros, whoami\nx = whoami[1]\n", "TypeError"), ("from zt import whoami, macros\nassert macros == 'an ordinary name' and callable(whoami)\n", "ok"),
         ("from zt import macros, whoami\ntry:\n    whoami\nexcept NameError:\n    pass\nelse:\n    1/0\n", "ok"), ("from zt import macros, whoami\ntry:\n    macros\nexcept NameError:\n    pass\nelse:\n    1/0\n", "ok"),
         ("from zt import macros, whoami\nassert zt.whoami.who == zt.WHO\n", "ok"), ("whoami = 3\nfrom zt import macros, whoami\nassert whoami == 3\nassert whoami[2][0] == 'zt'\n", "ok"), ("import zt\nx = zt.whoami[1]\nfrom zt import macros, whoami\n", "TypeError"),
         ("from zt import macros, whoami as a, other as b\nassert a[1][0] == 'zt' and b[1][0] == 'other of zt'\n", "ok"), ("from zt import (macros,\n    whoami as a,\n    other as b,)\nassert a[1][0] == 'zt' and b[1][0] == 'other of zt'\n", "ok"),
         ("from zt import macros, \\\n    whoami as a\nassert a[1][0] == 'zt'\n", "ok"), ("a = 1; from zt import macros, whoami; x = whoami[2]; assert x[0] == 'zt'\n", "ok"), ("from zt import macros\nassert zt.WHO[0] == 'zt'\n", "ok"),
         ("def f():\n    return whoami[1]\nfrom zt import macros, whoami\nassert f()[0] == 'zt'\n", "ok"), ("from zt import macros, whoami as ä\nassert ä[1][0] == 'zt'\n", "ok"), ("from zt import macros, whoami\nwith whoami:\n    pass\n", None),
         ("from zt import macros, whoami\nfrom zt import whoami\nassert whoami(None) and whoami[1][0] == 'zt'\n", "ok"), ("from zt import macros, whoami\nfrom os import path as whoami\nassert whoami.join and whoami[1][0] == 'zt'\n", "ok")]

# the same in a module of a package `zp`, which has all the modules named here
PFORMS = [("from . import macros, whoami\n", "SyntaxError"), ("from . import macros, zt\n", "SyntaxError"), ("from .__self__ import macros, whoami\n", None), ("from .zt import macros, whoami\nassert whoami[1][0] == 'zp.zt'\n", "ok"), ("from zt import macros, whoami\nassert whoami[1][0] == 'zt'\n", "ok"),
          ("from .. import macros, whoami\n", None), ("from ..zt import macros, whoami\n", None), ("from ..zp.zt import macros, whoami\n", None), ("from zp import macros, whoami\nassert whoami[1][0] == 'zp'\n", "ok"), ("from zp.zt import macros, whoami as a\nfrom zt import macros, whoami as b\nassert (a[1][0], b[1][0]) == ('zp.zt', 'zt')\n", "ok"),
          ("from . import dialects, Dia\n", "SyntaxError"), ("from .__self__ import macros, whoami\nfrom mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    x = 1\n", None), ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from .zt import whoami\nfrom __self__ import macros, whoami\nassert whoami[1][0] == 'zp.zt'\n", "ok"),
          ("from .sub.zt import macros, whoami\nassert whoami[1][0] == 'zp.sub.zt'\n", "ok"), ("from .sub import macros, whoami\nassert whoami[1][0] == 'zp.sub'\n", "ok"), ("from .sub.nosuch import macros, whoami\n", None), ("from .zt.whoami import macros, who\n", None)]


# ---------------------------------------------------------------- the two trees
def source(rel, spec, twin, broken):
    lines = [HEAD.format(rel=rel)]
    uses = []
    dia = 0
    for k, (kind, level, module, what) in enumerate(spec["imports"]):
        src = "." * level + module
        if kind == "macros":
            if twin:
                if what:
                    lines.append(f"from {src} import " + ", ".join(f"{a} as _t{b or a}" for a, b in what))
                    lines += [f"if not callable(_t{b or a}): raise ImportError('not callable')" for a, b in what]
                else:
                    lines.append(f"import importlib.util; importlib.import_module(importlib.util.resolve_name({src!r}, __package__))")
            else:
                lines.append(f"from {src} import macros" + "".join(f", {a}" + (f" as {b}" if b else "") for a, b in what))
            for a, b in what:
                uses.append(f"u{k}_{b or a} = (*_t{b or a}.who, {k})" if twin else f"u{k}_{b or a} = {b or a}[{k}]")
        elif kind == "ordinary":
            lines.append(f"from {src} import " + ", ".join(f"{a} as {b}" for a, b in what))
            uses += [f"u{k}_{b} = {b}.who if callable({b}) else None" for a, b in what]
        else:
            if twin:
                if what:
                    lines.append(f"from {src} import {what[0][0]} as _d{k}")
                    lines.append(f"if not callable(_d{k}): raise ImportError('not callable')")
                    uses.append(f"dia_{dia} = _d{k}.who")
                else:
                    lines.append(f"import importlib.util; importlib.import_module(importlib.util.resolve_name({src!r}, __package__))")
                dia += 1
            else:
                lines.append(f"from {src} import dialects" + "".join(f", {a}" for a, b in what))
    return "\n".join(lines + uses) + "\nbuiltins.LOG21('leave', __name__)\n"


def write(case, top, twin):
    for f, spec in case["files"].items():
        p = os.path.join(top, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(source(f, spec, twin, None))
    for f in case["links"]:
        d = os.path.dirname(os.path.join(top, f))
        real = os.path.join(top, "elsewhere_" + os.path.basename(d))
        os.rename(d, real)
        os.symlink(real, d)
    roots = []
    for r, how in case["roots"]:
        p = os.path.join(top, r)
        os.makedirs(p, exist_ok=True)
        if how == "link":
            os.symlink(p, os.path.join(top, "ln_" + r))
            p = os.path.join(top, "ln_" + r)
        roots.append({"abs": p, "link": p, "rel": r, "slash": p + "/", "dots": os.path.join(top, r, "..", r)}[how])
    return roots


@contextlib.contextmanager
def world(case, twin):
    top = tempfile.mkdtemp(dir=fw.SCRATCH)
    old = (list(sys.path), os.getcwd(), None, sys.dont_write_bytecode)
    try:
        roots = write(case, top, twin)
        os.chdir(top)
        sys.path[:0] = roots
        sys.dont_write_bytecode = True
        importlib.invalidate_caches()
        yield top
    finally:
        sys.path[:] = old[0]
        os.chdir(old[1])
        sys.dont_write_bytecode = old[3]
        purge()
        sys.path_importer_cache.clear()
        shutil.rmtree(top)


def purge():
    for k in list(sys.modules):
        if k.partition(".")[0] in MINE:
            del sys.modules[k]


MINE = {"zpa", "zpb", "zmc", "zsx", "zsy", "zno", "zdyn", "zt", "zm", "zns", "zpk", "za", "zb", "zs", "zform", "zp"}


def what_is(mod):
    """What a module's imports found."""
    d = vars(mod) if not isinstance(mod, dict) else mod
    return {k: v for k, v in d.items() if k == "WHO" or k.startswith("dia_") or k.startswith("u") and "_" in k}


def attempt(thunk):
    EVENTS.clear()
    try:
        return what_is(thunk()), None, list(EVENTS)
    except Exception as e:
        return None, e, list(EVENTS)


def dynamic_source(dspec, twin):
    return source("dyn", {"imports": [dspec]}, twin, None)


def observe(case, twin, obs):
    """Everything that happens in this tree: [(what, result, error, events)]."""
    from mcpyrate.compiler import create_module, run
    out = []
    with world(case, twin) as top:
        for n in case["starts"]:
            purge()
            out.append(("import " + n, *attempt(lambda: importlib.import_module(n))))
            if not twin and out[-1][2] is None:
                runtime_names(case, n, obs)
        for parent, dspec in zip(case["dynamic"], case["dynspec"]):
            purge()
            try:
                importlib.import_module(parent)
            except Exception:
                continue
            name = parent + ".zdyn" if hasattr(sys.modules[parent], "__path__") else parent.rpartition(".")[0] + ".zdyn" if "." in parent else "zdyn"
            if name != "zdyn" and name.rpartition(".")[0] not in sys.modules:
                continue
            def dyn():
                m = create_module(name, rng_filename(top, case))
                if twin:
                    exec(compile(dynamic_source(dspec, True), "dyn", "exec", dont_inherit=True), m.__dict__)
                else:
                    run(dynamic_source(dspec, False), m)
                return m
            out.append((f"dynamic {name}", *attempt(dyn)))
            sys.modules.pop(name, None)
            obs.count("dynamic")
        if case["runpy"]:
            name = case["runpy"]
            purge()
            out.append((f"runpy {name}", *attempt(lambda: runpy.run_module(name))))
            obs.count("runpy")
        if not twin:
            helpers(case, top, obs)
    return out


def rng_filename(top, case):
    """Some file name for the created module; must not matter, as the module knows its package."""
    k = len(case["files"]) % 3
    return [None, "<dynamic>", os.path.join(top, "nowhere", "dyn.py")][k]


def runtime_names(case, name, obs):
    mod = sys.modules[name]
    rel = mod.WHO[1] if hasattr(mod, "WHO") else None
    spec = case["files"].get(rel)
    if not spec:
        return   # a namespace package
    kept = {b or a for kind, *_, what in spec["imports"] if kind == "ordinary" for a, b in what}
    for kind, level, module, what in spec["imports"]:
        if kind == "ordinary":
            continue
        for a, b in what:
            n = b or a
            if n in kept or n in ("whoami", "other"):
                continue
            if kind == "dialects" and n == "Dia":
                expect(vars(mod)["Dia"].__module__ == mod.__name__, "dialect-name-bound", lambda: f"{name}: dialect name bound by the dialect-import")
                continue
            expect(n not in vars(mod), "macro-name-bound", lambda: f"{name}: macro name {n} is bound at run time after {module!r}")
        package = mod.__package__ if level else None
        full = importlib.util.resolve_name("." * level + module, package) if level else module
        root = full.partition(".")[0]
        if f"{name}.{root}" in sys.modules:
            continue   # this package has a submodule of that name
        expect(vars(mod).get(root) is sys.modules[root], "module-not-bound", lambda: f"{name}: after macro-importing {'.' * level + module}, {root} is {vars(mod).get(root)!r}")
        obs.count("runtime names")


def expanded(case, obs):
    """The expanded form of each module: macro-imports become absolute imports, in place; nothing else changes."""
    from mcpyrate.compiler import create_module, expand
    with world(case, False) as top:
        for f, spec in case["files"].items():
            names = [n for n in (dotted(f, r) for r, _ in case["roots"]) if n and not any(case["layout"] == "nested" for _ in (1,))]
            if not names or not spec["imports"] or any(k == "dialects" for k, *_ in spec["imports"]):
                continue
            name = names[0]
            try:
                mod = importlib.import_module(name)
            except Exception:
                continue
            if mod.__name__ != name or getattr(mod, "WHO", (0, 0))[1] != f:
                continue
            text = source(f, spec, False, None)
            try:
                tree = expand(text, mod.__file__, self_module=name)
            except ImportError:
                continue
            old = ast.parse(text)
            macro = [s for s in old.body if isinstance(s, ast.ImportFrom) and s.names[0].name == "macros"]
            expect(len(tree.body) == len(old.body), "expanded-count", lambda: ast.unparse(tree))
            for s in macro:
                new = tree.body[old.body.index(s)]
                want = importlib.util.resolve_name("." * s.level + s.module, mod.__package__)
                expect(isinstance(new, ast.Import) and [(a.name, a.asname) for a in new.names] == [(want, None)], "expanded-import", lambda: f"{name}: {ast.unparse(s)} expanded into {ast.unparse(new)}, expected import {want}")
                expect((new.lineno, new.col_offset) == (s.lineno, s.col_offset), "expanded-location", lambda: f"{ast.unparse(new)} at {new.lineno}:{new.col_offset}")
                obs.count("expanded imports")


def helpers(case, top, obs):
    """resolve_package, relativize and match_syspath: the deepest matching search path entry counts."""
    from mcpyrate import coreutils
    if case["links"]:
        return
    real = [os.path.realpath(os.path.join(top, r)) for r, _ in case["roots"]]
    for f in case["files"]:
        path = os.path.join(top, f)
        roots = [r for r in real if os.path.realpath(path).startswith(r + os.sep)]
        if not roots:
            continue
        root = max(roots, key=len)
        got = coreutils.relativize(path)
        want = os.path.relpath(os.path.realpath(path), root)
        expect((str(got[0]), got[1]) == (root, want), "relativize", lambda: f"relativize({path!r}) == {got}")
        expect(str(coreutils.match_syspath(path)) == root, "match_syspath", lambda: f"match_syspath({path!r}) == {coreutils.match_syspath(path)}")
        try:
            pkg = coreutils.resolve_package(path)
        except ImportError:
            pkg = None
        expect(pkg == (os.path.dirname(want).replace(os.sep, ".") or None), "resolve_package", lambda: f"resolve_package({path!r}) == {pkg}, roots {case['roots']}")
        obs.count("helpers")
    for bad in (os.path.join(top, "nowhere", "x.py"), os.path.join(top, "r2", "x.py")):
        if any(os.path.realpath(p or ".") in ("/", os.path.dirname(top), top) or os.path.realpath(bad).startswith(os.path.realpath(p or ".") + os.sep) for p in sys.path):
            continue
        for fn in (coreutils.resolve_package, coreutils.relativize, coreutils.match_syspath):
            try:
                got = fn(bad)
            except ValueError:
                continue
            expect(False, "outside-syspath", f"{fn.__name__}({bad!r}) == {got!r}")


def chain(e):
    out = []
    while e is not None and len(out) < 8:
        out.append(f"{type(e).__name__}: {e}")
        e = e.__cause__ or e.__context__
    return " <- ".join(out)


def judge(case, obs):
    if "form" in case or "pform" in case:
        return form(case, obs)
    twin = observe(case, True, obs)
    real = observe(case, False, obs)
    obs.count("trees")
    text = lambda: f"roots {case['roots']}, links {case['links']}\n" + "\n".join(f"{f}: " + "; ".join(f"from {'.' * lv}{m} import {k} {w}" for k, lv, m, w in s["imports"]) for f, s in case["files"].items()) + f"\ndynamic: {case['dynamic']} {case['dynspec']}"   # noqa: E731
    single = all(len(s["imports"]) < 2 for s in case["files"].values())
    if len(case["roots"]) > 1 and len({dotted(f, r) for f in case["files"] for r, _ in case["roots"] if dotted(f, r)}) < len(case["files"]):
        obs.count("shadowed")
    for (w1, r1, e1, ev1), (w2, r2, e2, ev2) in zip(twin, real):
        if w1 != w2:
            break   # an earlier, expected difference (a dynamic module's parent)
        obs.count("imports compared")
        expect(e2 is None or isinstance(e2, ImportError), "error-type", lambda: f"{w2}: {chain(e2)}\n{text()}")
        if e1 is not None and not isinstance(e1, ImportError) and "circular" not in str(e1):
            obs.count("set aside: odd twins")
            break
        if "partially initialized" in chain(e1) + chain(e2):
            obs.count("set aside: circular")
            break
        if any("u" in k and v == (None,) for k, v in (r1 or {}).items()):
            break
        if e1 is not None and e2 is None and not single:
            obs.count("set aside: retried")
            break
        expect((e1 is None) == (e2 is None), "found" if e1 else "not-found", lambda: f"{w1}: as a Python import: {r1 or chain(e1)}\nas a macro-import: {r2 or chain(e2)}\n{text()}")
        if e1 is not None:
            obs.count("failing")
            expect(w2.startswith('runpy') or not single or 'dialects' in str(case) or isinstance(e1, ModuleNotFoundError) == isinstance(e2, ModuleNotFoundError), "error-type", lambda: f"{w1}: as a Python import: {chain(e1)}\nas a macro-import: {chain(e2)}\n{text()}")
            continue
        obs.count("resolved")
        expect(r1 == r2, "wrong-module", lambda: f"{w1}: as Python imports: {r1}\nas macro-imports: {r2}\n{text()}")
    for s in case["files"].values():
        for kind, level, *_ in s["imports"]:
            obs.count("relative", 1 if level else 0)
            obs.count("dialects", 1 if kind == "dialects" else 0)
    # compile-time errors: nothing of a module that fails to macro-import has run
    for w, r, e, ev in real:
        if e is not None and w.startswith("import ") and "dialects" not in str(case["files"]) and "ordinary" not in str(case["files"]):
            name = w[7:]
            if "." in name:
                continue   # its package may import it for its macros
            expect(not any(x[0] == "enter" and x[1] == name for x in ev), "late-error", lambda: f"{w}: {chain(e)}, but the module had already started to run\n{text()}")
    expanded(case, obs)
    return fw.hash_(repr(case))


def form(case, obs):
    src, want = FORMS[case["form"]] if "form" in case else PFORMS[case["pform"]]
    name = "zform" if "form" in case else "zp.zform"
    c = {"files": {f: {"imports": [], "plain": False} for f in (["r/zt.py"] if "form" in case else ["r/zt.py", "r/zp/__init__.py", "r/zp/zt.py", "r/zp/__self__.py", "r/zp/sub/__init__.py", "r/zp/sub/zt.py"])}, "roots": [["r", "abs"]], "links": []}
    with world(c, False) as top:
        with open(os.path.join(top, "r", *name.split(".")) + ".py", "w") as f:
            f.write(src)
        try:
            importlib.import_module(name)
            got = "ok"
        except Exception as e:
            got = type(e).__name__
            msg = str(e)
    expect(want is None and got != "ok" or want == got or want == "ImportError" and got == "ModuleNotFoundError", "form", lambda: f"{src!r}: {got} {msg if got != 'ok' else ''}, expected {want or 'an error'}")
    return None
