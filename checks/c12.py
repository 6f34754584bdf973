"""C12: imports never use stale macro-expanded bytecode."""
import copy
import importlib
import json
import os
import sys
import tempfile
import time

import fw
import proj
from fw import brief, expect

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "random edit/import histories over random projects of mutually macro-importing modules and packages, with the real import hooks and bytecode cache; after every edit, the modules are imported as a new process would import them and every observable value, which carries the version of each macro and dialect that took part, is compared with an import that has no caches at all"
LEVEL_NOTE = "Most imports happen in one process with the project's modules purged from sys.modules; some histories run every import in a process of its own."
RULE = "Random projects of 4-6 modules (top-level, packages, namespace packages) with random macro-imports, dialect-imports, multi-phase blocks and regular imports; 2-7 steps of 1-3 edits each, followed by an import of a random subset in random order. Non-trivial: at least one edit; distinct by project and history."
QUICK = dict(n=4000, secs=10)
THOROUGH = dict(n=40000, secs=420)
MIN = {"imports compared": 150, "modules compared": 700, "edits": 200, "recompiled": 100, "cached": 60, "chains": 40, "precompiled": 40, "library forms": 60, "scripted histories": 8, "processes": 8}
ASSUMPTIONS = ["a later edit has a modification time at least one second later (the resolution of Python's bytecode files); files restored from backups are older than the ones they replace, but newer than what they import", "what a macro produces depends only on its module and that module's own macro- and dialect-imports",
               "a dialect that injects macro-imports macro-imports those modules itself, as documented"]


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    proj.install_counter()


# ---------------------------------------------------------------- generation
def names_for(rng, p):
    names = list(p["order"])
    rng.shuffle(names)
    return names[:rng.choice([1, 2, 3, len(names), len(names)])]


def history(rng, p, nsteps, procs=False):
    case = {"p": copy.deepcopy(p), "mt": {n: -rng.choice([1, 2, 100, 10**6, 10**8]) for n in p["order"]}, "steps": [{"edits": {}, "dt": 0, "names": names_for(rng, p)}], "procs": procs}
    q = copy.deepcopy(p)
    for _ in range(nsteps):
        ed, kinds = {}, []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n, k = proj.edit(rng, q)
            ed[n] = True
            kinds.append(k)
        case["steps"].append({"edits": {n: copy.deepcopy(q["mods"][n]) for n in ed}, "kinds": kinds, "dt": rng.choice([1, 1, 2, 59, 100000]), "frac": rng.choice([0, 0, 5 * 10**8, 999999999]), "names": names_for(rng, q)})
    for st in case["steps"]:
        st["pre"] = rng.choice([""] * 6 + ["py_compile", "compileall"])
    return case


EDGES = [["deps", "abs", "m"], ["deps", "rel", "m"], ["deps", "rel", "h"], ["deps", "abs", "b"], ["deps", "rel", "u*"], ["deps", "abs", "d"], ["deps", "abs", "n"], ["dial", "abs", "A"], ["dial", "rel", "A"], ["dial", "abs", "S"], ["dial", "rel", "S"], ["dial", "rel", "P"],
         ["phase", "abs", 1], ["phase", "rel", 1], ["phase", "rel", 2]]


def chain(rng, e1, e2, layout):
    c, b, a = layout
    pk = {"mvP", "mvP.S"}
    order = [x for x in ("mvP", "mvP.S") if any(y.startswith(x + ".") or y == x for y in layout)]
    order += [x for x in (c, b, a) if x not in order]
    p = {"mods": {n: dict(pkg=n in pk, v=1, deps=[], dial=[], phase=None, reg=[], opt={}, offer="mbhudnASP", leaf=False) for n in order}, "order": order}

    def link(x, y, e):
        kind, form, k = e
        if kind == "deps":
            p["mods"][x]["deps"] = [[y, form, [k]]]
        elif kind == "dial":
            p["mods"][x]["dial"] = [[y, form, k]]
        else:
            p["mods"][x]["phase"] = [k, y, form]
    link(b, c, e2)
    link(a, b, e1)
    case = {"p": copy.deepcopy(p), "mt": {n: -rng.randint(1, 1000) for n in order}, "steps": [{"edits": {}, "dt": 0, "names": [a, b]}], "chain": True, "procs": False}

    def step(change, *names):
        for n in names:
            change(p["mods"][n])
        case["steps"].append({"edits": {n: copy.deepcopy(p["mods"][n]) for n in names}, "dt": rng.choice([1, 3]), "names": rng.choice([[a], [a, b], [b, a], [a]])})

    def bump(s):
        s["v"] += 1

    def cut(s):
        s.update(deps=[], dial=[], phase=None)
    saved = {n: copy.deepcopy(p["mods"][n]) for n in order}

    def restore(n):
        def f(s):
            s.update(copy.deepcopy(saved[n]), v=s["v"] + 1)
        return f
    step(bump, c)
    if rng.random() < 0.5:
        step(bump, b)
        step(bump, c)
    if rng.random() < 0.6:
        step(cut, b)
        step(bump, c)
        step(restore(b), b)
        step(bump, c)
    if rng.random() < 0.6:
        step(cut, a)
        step(restore(a), a)
        step(bump, c)
    return case


LAY = [("mva", "mvb", "mvc"), ("mvP.x", "mvP.y", "mvP.z"), ("mvP", "mvP.S.x", "mvP.S.y"), ("mvP.x", "mvP.S", "mvP.S.x"), ("mvN.x", "mvN.y", "mvN.z"), ("mvP.S.x", "mvP.y", "mva"), ("mvP.S", "mvP.x", "mvc")]


def fixed(tier):
    import random
    rng = random.Random(12)
    out = []
    k = 0
    for i, e1 in enumerate(EDGES):
        for j, e2 in enumerate(EDGES):
            if tier == "quick" and (i * 2 + j) % 3:
                continue
            lay = LAY[k % len(LAY)]
            k += 1
            out.append(chain(rng, e1, e2, lay))
    out += [{"lib": form, "via": via, "name": name} for form in ("pyc", "zip", "dir", "custom") for via in ("direct", "chain", "dialect", "phase") for name in ("mvl", "mvq.sub")]
    out += stories()
    for k in range(4 if tier == "quick" else 40):
        out.append(history(rng, proj.random_project(rng), 3, procs=True))
    return out


def generate(rng, i):
    return history(rng, proj.random_project(rng), rng.choice([1, 2, 2, 3, 4, 7]))


# ---------------------------------------------------------------- judging
PROC = """
import sys, json
sys.path.insert(0, {root!r})
import mcpyrate.activate, mcpv_cnt, importlib
sys.path.insert(0, {lib!r})
import proj
out = dict()
for n in {names!r}:
    try:
        out[n] = repr(importlib.import_module(n).res())
    except Exception as e:
        out[n] = proj.describe(e)
print(json.dumps([out, mcpv_cnt.n]))
"""


def in_process(root, names, prefix, write):
    env = fw.child_env(root, PYTHONPYCACHEPREFIX=prefix, PYTHONDONTWRITEBYTECODE=None if write else "1")
    p = fw.run_py(["-c", PROC.format(root=root, names=names, lib=os.path.dirname(proj.__file__))], root, env)
    try:
        out, n = json.loads(p.out)
    except ValueError:
        raise fw.Inconclusive(f"import process failed: {p}")
    return out, n


def precompile(p, root, prefix, how, obs):
    """Compile the project ahead of time, as when making a package; return whether everything got compiled."""
    import compileall
    import contextlib
    import io
    import py_compile
    old = sys.pycache_prefix
    proj.purge(p)
    sys.path.insert(0, root)
    sys.pycache_prefix = prefix
    try:
        ok = True
        if how == "compileall":
            with contextlib.redirect_stdout(io.StringIO()):
                compileall.compile_dir(root, quiet=2)
            ok = False   # (it looks only at each file's own time stamp)
        else:
            for n in p["order"]:
                try:
                    py_compile.compile(proj.path_of(p, root, n), doraise=True)
                    obs.count("precompiled")
                except py_compile.PyCompileError:
                    ok = False
                    obs.count("failing precompiled")
        return ok
    finally:
        sys.path.remove(root)
        sys.pycache_prefix = old
        proj.purge(p)
        for m in [k for k in sys.path_importer_cache if k.startswith(root)]:
            del sys.path_importer_cache[m]


# macro libraries that are not plain source files: sourceless bytecode, zip archives, other directories, loaders of other kinds
LIB = """
import ast
from mcpyrate.dialects import Dialect
def m(tree, **kw):
    return ast.Tuple(elts=[ast.Constant(value="v%d"), tree], ctx=ast.Load())
class D(Dialect):
    def transform_source(self, text):
        return text.replace("VERSION", "('v%d', 1)")
"""
LIBMAIN = """
import sys
sys.path[:0] = {path!r}
import mcpyrate.activate
class Custom:      # a loader for files of another extension
    def find_spec(self, name, path, target=None):
        import importlib.util, importlib.machinery, os
        f = os.path.join({root!r}, "custom", name.replace(".", "/") + ".mac")
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.SourceFileLoader(name, f))
if {form!r} == "custom":
    sys.meta_path.insert(0, Custom())
import mvuser
print(mvuser.res)
"""


def write_lib(root, form, name, version, when):
    import zipfile
    text = LIB % (version, version)
    rel = name.replace(".", "/")
    src = os.path.join(root, "build", rel + ".py")
    os.makedirs(os.path.dirname(src), exist_ok=True)
    with open(src, "w") as f:
        f.write(text)
    inits = [rel.split("/")[0] + "/__init__"] if "/" in rel else []
    for i in inits:
        with open(os.path.join(root, "build", i + ".py"), "w"):
            pass
    home = os.path.join(root, form)
    os.makedirs(home, exist_ok=True)
    if form == "zip":
        target = os.path.join(home, "lib.zip")
        with zipfile.ZipFile(target, "w") as z:
            for n in inits + [rel]:
                z.write(os.path.join(root, "build", n + ".py"), n + ".py")
        os.utime(target, (when, when))
        return
    for n in inits + [rel]:
        ext = {"pyc": ".pyc", "dir": ".py", "custom": ".mac" if n == rel else "/none"}[form]
        if ext == "/none":
            ext, home = ".py", os.path.join(root, "dir")
        target = os.path.join(home, n + ext)
        os.makedirs(os.path.dirname(target), exist_ok=True)
        if form == "pyc":
            with open(os.path.join(root, "build", n + ".py")) as f, open(target, "wb") as g:
                g.write(importlib._bootstrap_external._code_to_timestamp_pyc(compile(f.read(), "lib.py", "exec"), 0, 0))
        else:
            with open(os.path.join(root, "build", n + ".py")) as f, open(target, "w") as g:
                g.write(f.read())
        os.utime(target, (when, when))
        home = os.path.join(root, form)


def judge_lib(case, obs):
    root = tempfile.mkdtemp(prefix="c12l-", dir=fw.SCRATCH)
    try:
        form, via, name = case["lib"], case["via"], case["name"]
        t0 = int(time.time()) + 5   # later than the files of mcpyrate itself
        files = {"mvuser": f"from {name} import macros, m\nres = m[1]\n"}
        if via == "chain":
            files = {"mvuser": "from mvmid import macros, mm\nres = mm[1]\n", "mvmid": f"from mcpyrate.quotes import macros, q, a, h\nfrom {name} import macros, m\ndef mm(tree, **kw):\n    return q[h[m][a[tree]]]\n"}
        elif via == "dialect":
            files = {"mvuser": f"from {name} import dialects, D\nres = VERSION\n"}
        elif via == "phase":
            files = {"mvuser": f"from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from {name} import macros, m\n    def k(tree, **kw):\n        import ast\n        return ast.parse(repr(m[1]), mode='eval').body\nfrom __self__ import macros, k\nres = k[0]\n"}
        os.makedirs(os.path.join(root, "src"))
        for n, text in files.items():
            f = os.path.join(root, "src", n + ".py")
            with open(f, "w") as h:
                h.write(text)
            os.utime(f, (t0 - 5000, t0 - 5000))
        path = [os.path.join(root, "src"), os.path.join(root, form, "lib.zip") if form == "zip" else os.path.join(root, form)] + ([os.path.join(root, "dir")] if form == "custom" else [])
        prog = LIBMAIN.format(path=path, root=root, form=form)
        for step, v in enumerate((1, 1, 2, 2, 3)):
            if step in (0, 2, 4):
                write_lib(root, form, name, v, t0 + 10 * step)
            env = fw.child_env(os.path.join(root, "src"), PYTHONPYCACHEPREFIX=os.path.join(root, "cache"), PYTHONDONTWRITEBYTECODE=None)
            p = fw.run_py(["-c", prog], root, env)
            obs.count("processes")
            obs.count("library forms")
            expect(p.rc == 0 and p.out.strip() == f"('v{v}', 1)", "stale-bytecode", lambda: f"macro library {name} as {form}, used {via}; run {step}, version {v}: {p}")
        return repr(case)
    finally:
        proj.rmtree(root)


# scripted histories: each step writes files (with times in seconds after the first), then imports `mvuser` in a process of its own
def lib(v, *more):
    return LIB % (v, v) + "".join(x + "\n" for x in more)


def surf(line, n=1):
    return f'''"""Looks like imports:
{line}
"""
from mvs import dialects, D
res = VERSION + ({n},)
in new surface syntax !!
'''


SURF = LIB.replace("\"('v%d', 1)\")", "\"('v%d', 1)\").replace('in new surface syntax !!', 'pass')")
ASTD = """
import ast
from mcpyrate.dialects import Dialect
class E(Dialect):
    def transform_ast(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == "VERSION":
                n.id, n.ctx = "_", ast.Load()
        tree.body += ast.parse("_seen = 'e%d'").body
        return tree
"""


def phased(n, imp):
    return f"""from mcpyrate.multiphase import macros, phase
with phase[{n}]:
    {imp}
    def k(tree, **kw):
        import ast
        return ast.Constant(value=_seen)
from __self__ import macros, k
res = k[0]
"""


def stories():
    out = []
    use = "from {0} import macros, m\nres = m[{1}]\n"
    # a file restored from a backup, older than the one it replaces (but newer than anything it imports): its imports are read again
    for n in ("m", "dialect", "relative"):
        def user(x, i):
            if n == "dialect":
                return f"from {x} import dialects, D\nres = VERSION + ({i},)\n"
            return use.format(("." if n == "relative" else "") + x, i)
        U = "mvuser" if n != "relative" else "mvp.user"
        pre = "" if n != "relative" else "mvp."
        base = {} if n != "relative" else {"mvp.__init__": ("", 0), "mvuser": ("from mvp.user import res\n", 0)}
        out.append({"story": [[dict(base, **{pre + "mvA": (lib(1), 0), pre + "mvB": (lib(2), 1), U: (user("mvA", 1), 100)}), None],
                              [{}, None],
                              [{U: (user("mvB", 1), 90)}, None],
                              [{pre + "mvB": (lib(3), 95)}, None],
                              [{U: (user("mvA", 1), 80)}, None],
                              [{pre + "mvA": (lib(4), 85)}, None],
                              [{pre + "mvB": (lib(5), 96)}, None],
                              [{U: (user("mvB", 1), 70), pre + "mvA": (lib(4), 60)}, None],
                              [{pre + "mvB": (lib(6), 65)}, None]], "what": "restored from a backup: " + n})
    # new surface syntax: what looks like an import in the text may be none
    for line in ("from nopkg.sub import macros, x", "from mvs.nosub import macros, m", "from mvs import macros, nothing", "from mcpyrate.nowhere.at import macros, n"):
        out.append({"story": [[{"mvs": (SURF % (1, 1), 0), "mvuser": (surf(line), 1)}, None], [{}, None], [{"mvs": (SURF % (2, 2), 50)}, None], [{}, None], [{"mvuser": (surf(line, 2), 60)}, None], [{"mvs": (SURF % (3, 3), 70)}, None], [{}, None]], "what": "surface syntax: " + line})
    # dialects imported within a phase
    for k in (1, 2):
        out.append({"story": [[{"mvd": (ASTD % 1, 0), "mvuser": (phased(k, "from mvd import dialects, E"), 1)}, None], [{}, None], [{"mvd": (ASTD % 2, 50)}, None], [{}, None], [{"mvd": (ASTD % 3, 70)}, None]], "what": f"dialect in phase {k}"})
    return out


STORY = "import sys, importlib\nsys.path.insert(0, {root!r})\nimport mcpyrate.activate\ntry:\n    import mvuser\n    print(repr(mvuser.res))\nexcept Exception as e:\n    print('ERROR', type(e).__name__)\n"


def judge_story(case, obs):
    root = tempfile.mkdtemp(prefix="c12s-", dir=fw.SCRATCH)
    src = os.path.join(root, "src")
    try:
        t0 = int(time.time()) + 5
        seen = []
        for i, (files, _) in enumerate(case["story"]):
            for n, (text, when) in files.items():
                f = os.path.join(src, n.replace(".", "/") + ".py")
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "w") as h:
                    h.write(text)
                os.utime(f, (t0 + when, t0 + when))
            res = []
            for cached in (True, False):
                env = fw.child_env(src, PYTHONPYCACHEPREFIX=os.path.join(root, "cache" if cached else "none"), PYTHONDONTWRITEBYTECODE=None if cached else "1")
                p = fw.run_py(["-c", STORY.format(root=src)], src, env)
                obs.count("processes")
                expect(p.rc == 0, "story-process", lambda: f"{case['what']}, step {i}: {p}")
                res.append(p.out.strip())
            expect(not res[1].startswith("ERROR"), "story-fails", lambda: f"{case['what']}, step {i}: importing without caches gives {res[1]}")
            expect(res[0] == res[1], "stale-bytecode", lambda: f"{case['what']}, step {i}: importing gives {res[0]}, without caches {res[1]}")
            seen.append(res[1])
        expect(len(set(seen)) > 1, "story-no-change", lambda: f"{case['what']}: every step gave {seen[0]}")
        obs.count("scripted histories")
        return case["what"]
    finally:
        proj.rmtree(root)


def judge(case, obs):
    if "story" in case:
        return judge_story(case, obs)
    if "lib" in case:
        return judge_lib(case, obs)
    p = copy.deepcopy(case["p"])
    root = tempfile.mkdtemp(prefix="c12-", dir=fw.SCRATCH)
    cache, none = root + "-pyc", root + "-none"
    try:
        if case["procs"]:
            proj.install_counter(root)
        t0 = clock = int(time.time()) + 5
        proj.write(p, root, {n: (t0 + k) * 10**9 for n, k in case["mt"].items()})
        for i, st in enumerate(case["steps"]):
            clock += st["dt"]
            for n, spec in st["edits"].items():
                p["mods"][n] = copy.deepcopy(spec)
            if st["edits"]:
                proj.write(p, root, {n: clock * 10**9 + st.get("frac", 0) for n in st["edits"]}, only=st["edits"])
                if st.get("frac"):
                    clock += 1
                obs.count("edits", len(st["edits"]))
            compiled = precompile(p, root, cache, st["pre"], obs) if st.get("pre") else False
            if case["procs"]:
                got, n = in_process(root, st["names"], cache, True)
                exp, _ = in_process(root, st["names"], none, False)
                obs.count("processes", 2)
            else:
                got, n = proj.snapshot(p, root, st["names"], cache)
                exp, _ = proj.snapshot(p, root, st["names"], none, write_bytecode=False)
            obs.count("imports compared")
            obs.count("recompiled" if n else "cached")
            if compiled:
                expect(not n, "precompiled-not-used", lambda: f"step {i}: all modules were compiled by py_compile, but importing {st['names']} made {n} macro calls\n" + "\n".join(f"{x}:\n{proj.render(p, x)}" for x in p["order"]))
            for name in st["names"]:
                obs.count("modules compared")
                if exp[name].startswith("ERROR"):
                    obs.count("failing modules")
                    expect(got[name].startswith("ERROR"), "import-succeeds-only-with-cache", lambda: f"step {i}: importing {name} without caches fails:\n{exp[name]}\nwith the cache it gives\n{got[name]}\nfile:\n{proj.render(p, name)}")
                else:
                    expect(got[name] == exp[name], "stale-bytecode", lambda: f"step {i} (edits {sorted(st['edits'])} {st.get('kinds')}): importing {name} gives\n{brief(got[name])}\nbut with all caches deleted\n{brief(exp[name])}\nfile:\n{brief(proj.render(p, name))}")
        if case.get("chain"):
            obs.count("chains")
        return fw.hash_(case) if len(case["steps"]) > 1 else None
    finally:
        proj.rmtree(root)
        proj.rmtree(cache)
        proj.rmtree(none)
