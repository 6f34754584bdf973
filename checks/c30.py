"""C30: switching macro support on and off, under histories of switches, imports, edits and reloads."""
import builtins
import importlib
import importlib.util
import os
import runpy
import shutil
import sys
import tempfile

import fw
from fw import brief, expect

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "random histories of activate() and deactivate() calls, made between imports, from module bodies and from inside macros, mixed with imports, reloads and runs of plain, macro-, dialect- and phase-using modules and edits of them and of their macro libraries, run on the real import system; each result, and the cache files, are compared with an exact model of Python's and mcpyrate's loading rules"
LEVEL_NOTE = "The model knows the content and stamp of every bytecode file; files are edited with distinct whole-second times. Bytecode of macro-using modules made while deactivated is removed on reactivation, as the documentation advises."
RULE = "Histories of 4-14 operations over 2-3 macro libraries and 3-5 modules, nested to depth 3. Distinct by history."
QUICK = dict(n=20000, secs=14)
THOROUGH = dict(n=600000, secs=300)
MIN = {"loads": 8000, "compiled": 3000, "bytecode reused": 400, "switches": 3000, "nested switches": 500, "loads while deactivated": 2500, "macro-using loads while deactivated": 1200, "expanded": 1500, "reactivated and expanded": 400,
       "bytecode of the other mode refused": 60, "compiler called while deactivated": 150, "other hooks restored": 2, "reloads": 100}
ASSUMPTIONS = ["no other import hook is installed on top of mcpyrate's", "files do not change while they are being imported"]

CASE_CPU = 60
W = None


class World:
    """The running case: performs nested operations and logs what happened."""
    def __init__(self, case, d):
        self.case, self.d, self.log, self.depth = case, d, [], 0

    def path(self, name):
        return os.path.join(self.d, name + ".py")

    def hook(self, key):
        self.log.append(["at", key])
        if self.depth > 6:
            return
        self.depth += 1
        try:
            for op in self.case["nest"].get(key, ()):
                self.log.append(self.perform(op))
        finally:
            self.depth -= 1

    def perform(self, op):
        import mcpyrate.activate
        what = op[0]
        if what == "on":
            for name in self.case["mods"]:
                pyc = importlib.util.cache_from_source(self.path(name))
                try:
                    with open(pyc, "rb") as f:
                        data = f.read().replace(b"mcpyrate.dialects", b"")
                except FileNotFoundError:
                    continue
                if b"macros" in data or b"dialects" in data:    # compiled without the expander
                    os.unlink(pyc)
            for _ in range(op[1]):
                mcpyrate.activate.activate()
            return ["on"]
        if what == "off":
            for _ in range(op[1]):
                mcpyrate.activate.deactivate()
            return ["off"]
        if what == "import":
            return ["import", op[1], self.outcome(lambda: self.load(op[1], op[2]))]
        if what == "compile":
            return ["compile", op[1], self.outcome(lambda: self.compile(op[1], op[2]))]
        raise ValueError(op)

    @staticmethod
    def outcome(thunk):
        try:
            return thunk()
        except Exception as e:
            while e.__cause__ is not None and not isinstance(e, (ImportError, SyntaxError)):
                e = e.__cause__
            return "error " + ("ImportError" if isinstance(e, ImportError) else type(e).__name__)

    def load(self, name, via):
        if via == "runpy":
            ns = runpy.run_module(name, run_name=name)
        elif via == "spec" and name not in sys.modules:
            spec = importlib.util.spec_from_file_location(name, self.path(name))
            m = importlib.util.module_from_spec(spec)
            sys.modules[name] = m
            try:
                spec.loader.exec_module(m)
            except BaseException:
                sys.modules.pop(name, None)
                raise
            ns = vars(m)
        elif via == "stmt":
            ns = {}
            exec(f"import {name} as m", ns)
            ns = vars(ns["m"])
        elif via == "reload":
            ns = vars(importlib.reload(sys.modules[name]))
        else:
            ns = vars(importlib.import_module(name))
        return [ns["OWN"], ns["R"]]

    def compile(self, lib, how):
        from mcpyrate import compiler
        k = lib[-1]
        src = f"from {lib} import macros, v{k}\nR = [v{k}['']]\n"
        if how == "run":
            return ["", compiler.run(src).R]
        if how == "expand":
            code = compile(compiler.expand(src, "<c30>", self_module="mcpv30_none"), "<c30>", "exec")
        else:
            code = compiler.compile(src, "<c30>", self_module="mcpv30_none")
        ns = {}
        exec(code, ns)
        return ["", ns["R"]]


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import runpy  # noqa: F401
    builtins.OB30 = lambda key: W.hook(key)


def text_of(name, info):
    """The source of a module. `OWN` is its version; `R` what the expander made of it."""
    kind, ver = info["kind"], info["ver"]
    pad = "# " + "x" * (info["size"]) + "\n"
    hook = f"OB30('{name}:e')\n" if info.get("hook") else ""
    early, late = (hook, "") if info.get("early") else ("", hook)
    out = pad + f"OWN = {ver!r}\n" + early
    if kind == "lib":
        k = name[-1]
        inner = "None"
        if info["uses"]:
            d = info["uses"][0]
            out += f"from {d} import macros, v{d[-1]}\n"
            inner = f"v{d[-1]}['']"
        out += late + f"""import ast
R = [{inner}]
def v{k}(tree, **kw):
    if isinstance(tree, ast.Constant) and tree.value:
        OB30(tree.value)
    return ast.parse(repr([{name!r}, OWN, R[0]]), mode="eval").body
from mcpyrate.dialects import Dialect
class D{k}(Dialect):
    def transform_ast(self, tree):
        tree.body.extend(ast.parse("R = " + repr([["ast", OWN, R[0]]])).body)
        return tree
class S{k}(Dialect):
    def transform_source(self, text):
        return text.replace("R = §", "R = " + repr([["src", OWN, R[0]]]))
"""
    elif kind == "plain":
        out += late + "R = [None]\n"
    elif kind == "broken":
        out += "R = = 1\n"
    elif kind == "macro":
        arg = f"{name}:x" if info.get("xhook") else ""
        for d in info["uses"]:
            out += f"from {d} import macros, v{d[-1]}\n"
        out += late + f"R = [{', '.join('v%s[%r]' % (d[-1], arg if i == 0 else '') for i, d in enumerate(info['uses']))}]\n"
    elif kind == "dialect":
        d = info["uses"][0]
        out += f"from {d} import dialects, D{d[-1]}\n" + late + "pass\n"
    elif kind == "source":
        d = info["uses"][0]
        out += f"from {d} import dialects, S{d[-1]}\n" + late + "R = §\n"
    elif kind == "phase":
        out += f"""from mcpyrate.multiphase import macros, phase
with phase[1]:
    import ast
    def mm(tree, **kw):
        return ast.Constant(value=["P", {ver!r}][1])
from __self__ import macros, mm
{late}R = [mm[0]]
"""
    return out


class Fail(Exception):
    pass


class Model:
    def __init__(self, case):
        self.case = case
        self.mods = {n: dict(i) for n, i in case["mods"].items()}
        self.active = True
        self.nowrite = False
        self.pyc = {}
        self.loaded = {}
        self.log = []
        self.depth = 0
        self.stat = []
        import mcpyrate.multiphase
        self.multiphase_mtime = int(os.stat(mcpyrate.multiphase.__file__).st_mtime)

    def closure(self, name):
        seen, todo = [], [name]
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.append(n)
                todo += self.mods[n]["uses"]
        return seen

    def stamp(self, name):
        if not self.active:
            return self.mods[name]["mtime"]
        out = max(self.mods[n]["mtime"] for n in self.closure(name))
        if self.mods[name]["kind"] == "phase":
            out = max(out, self.multiphase_mtime)
        return out

    def usesmacros(self, name):
        return bool(self.mods[name]["uses"]) or self.mods[name]["kind"] == "phase"

    def hook(self, key):
        self.log.append(["at", key])
        if self.depth > 6:
            return
        self.depth += 1
        try:
            for op in self.case["nest"].get(key, ()):
                self.log.append(self.perform(op))
        finally:
            self.depth -= 1

    def perform(self, op):
        what = op[0]
        if what == "on":
            for n in list(self.pyc):
                if self.pyc[n]["plain"] and self.usesmacros(n):
                    del self.pyc[n]
            self.stat.append("switches")
            if self.depth:
                self.stat.append("nested switches")
            self.active = True
            return ["on"]
        if what == "off":
            self.stat.append("switches")
            if self.depth:
                self.stat.append("nested switches")
            self.active = False
            return ["off"]
        if what == "import":
            try:
                r = self.load(op[1], op[2])
            except Fail as e:
                r = "error " + str(e)
            return ["import", op[1], r]
        if what == "compile":
            if not self.active:
                self.stat.append("compiler called while deactivated")
            lib = op[1]
            try:
                own, inner = self.load(lib)
                r = ["", [[lib, own, inner[0]]]]
            except Fail as e:
                r = "error " + str(e)
            return ["compile", lib, r]

    def load(self, name, via="import"):
        if via == "reload":
            self.loaded.pop(name)
            self.stat.append("reloads")
        if name in self.loaded and via != "runpy":
            return self.loaded[name]
        info = self.mods[name]
        self.stat.append("loads")
        if not self.active:
            self.stat.append("loads while deactivated")
            if self.usesmacros(name):
                self.stat.append("macro-using loads while deactivated")
        if info["kind"] == "broken":
            raise Fail("SyntaxError")
        key = dict(stamp=self.stamp(name), size=len(text_of(name, info).encode("utf-8")))
        pyc = self.pyc.get(name)
        if pyc and all(pyc[k] == key[k] for k in key):
            code = pyc
            self.stat.append("bytecode reused")
        else:
            if pyc and not self.active and not pyc["plain"] and pyc["own"] == info["ver"]:
                self.stat.append("bytecode of the other mode refused")
            code = dict(key, **self.compile(name, info))
            self.stat.append("compiled")
            if not self.nowrite:
                self.pyc[name] = code
        # execution
        register = via != "runpy"
        if register:
            self.loaded[name] = None
        try:
            if info.get("hook") and info.get("early"):
                self.hook(f"{name}:e")
            if code["plain"] and self.usesmacros(name):
                if info["kind"] != "phase":
                    self.load(info["uses"][0])
                raise Fail("ImportError")
            for d in info["uses"]:
                self.load(d)
            if info.get("hook") and not info.get("early"):
                self.hook(f"{name}:e")
        except Fail:
            if register:
                del self.loaded[name]
            raise
        out = [code["own"], code["R"]]
        if register:
            self.loaded[name] = out
        return out

    def compile(self, name, info):
        kind, ver = info["kind"], info["ver"]
        if not self.active:
            if kind == "source":
                raise Fail("SyntaxError")
            return dict(plain=True, own=ver, R=[None])
        if kind == "phase":
            self.stat.append("expanded")
            return dict(plain=False, own=ver, R=[ver])
        libs = [self.load(d) for d in info["uses"]]
        if info["uses"]:
            self.stat.append("expanded")
        if kind == "macro" and info.get("xhook"):
            self.hook(f"{name}:x")
        if kind == "dialect":
            R = [["ast", libs[0][0], libs[0][1][0]]]
        elif kind == "source":
            R = [["src", libs[0][0], libs[0][1][0]]]
        elif kind in ("macro", "lib") and libs:
            R = [[d, lib[0], lib[1][0]] for d, lib in zip(info["uses"], libs)]
        else:
            R = [None]
        return dict(plain=False, own=ver, R=R)


# ---------------------------------------------------------------- generation
def gen_mods(rng):
    mods = {}
    times = rng.sample(range(40), 12)
    nlib, nuser = rng.randint(2, 3), rng.randint(3, 5)
    for i in range(nlib):
        uses = [f"mcpv30_l{rng.randrange(i)}"] if i and rng.random() < 0.5 else []
        mods[f"mcpv30_l{i}"] = dict(kind="lib", uses=uses, early=rng.random() < 0.3)
    libs = list(mods)
    for i in range(nuser):
        kind = rng.choice(["plain", "macro", "macro", "macro", "dialect", "source", "phase", "phase" if rng.random() < 0.3 else "macro", "broken" if rng.random() < 0.3 else "plain"])
        uses = []
        if kind == "macro":
            uses = rng.sample(libs, rng.randint(1, 2))
        elif kind in ("dialect", "source"):
            uses = [rng.choice(libs)]
        mods[f"mcpv30_u{i}"] = dict(kind=kind, uses=uses, hook=rng.random() < 0.4, early=rng.random() < 0.5, xhook=rng.random() < 0.3)
    for (n, i), t in zip(mods.items(), times):
        i.update(ver=f"{n}.0", mtime=1900000000 + t if rng.random() < 0.85 else 1500000000 + t, size=rng.randint(0, 9))
    return mods


VIAS = ["import", "import", "stmt", "spec", "runpy"]


def gen_simple(rng, mods, floor):
    """An operation that may also occur inside others."""
    users = [n for n in mods if n.startswith("mcpv30_u") and int(n[8:]) > floor]
    r = rng.random()
    if r < 0.3:
        return ["off", rng.choice([1, 1, 1, 2])]
    if r < 0.58:
        return ["on", rng.choice([1, 1, 1, 2])]
    if r < 0.92 and users:
        return ["import", rng.choice(users), rng.choice(VIAS if floor < 0 else ["import", "stmt"])]
    return ["compile", rng.choice([n for n in mods if "_l" in n]), rng.choice(["run", "expand", "compile"])]


def generate(rng, i):
    if i % 1500 == 7:
        return dict(child=rng.choice(["wrap", "plain", "from"]), n=rng.randint(0, 3))
    mods = gen_mods(rng)
    nest = {}
    for n, info in mods.items():
        if n.startswith("mcpv30_u"):
            for flag, key in (("hook", "e"), ("xhook", "x")):
                if info.get(flag):
                    nest[f"{n}:{key}"] = [gen_simple(rng, mods, int(n[8:])) for _ in range(rng.randint(0, 3))]
    ops = []
    clock = 100
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.62:
            ops.append(gen_simple(rng, mods, -1))
            if ops[-1][0] in ("on", "off") and rng.random() < 0.8:
                ops.append(["import", rng.choice([n for n in mods if rng.random() < 0.3 or "_u" in n] or list(mods)), rng.choice(VIAS)])
        elif r < 0.74:
            clock += 1
            ops.append(["edit", rng.choice(list(mods)), clock, rng.choice([None, rng.randint(0, 9)])])
        elif r < 0.79:
            ops.append(["resize", rng.choice([n for n in mods if "_u" in n]), rng.randint(0, 9)])
        elif r < 0.84:
            ops.append(["write", rng.random() < 0.5])
        elif r < 0.89:
            ops.append(["forget"])
        else:
            ops.append(["reload", rng.choice([n for n in mods if "_u" in n])])
    return dict(mods=mods, nest=nest, ops=ops)


def fixed(tier):
    return [dict(child=c, n=n) for c in ("wrap", "plain", "from") for n in (0, 1, 2)]


# ---------------------------------------------------------------- judging
def write(w, name, info):
    p = w.path(name)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text_of(name, info))
    os.utime(p, ns=(info["mtime"] * 10**9 + 5 * 10**8,) * 2)


def cachefiles(w):
    out = {}
    d = os.path.dirname(importlib.util.cache_from_source(w.path("x")))
    if os.path.isdir(d):
        for n in os.listdir(d):
            with open(os.path.join(d, n), "rb") as f:
                out[n] = f.read()
    return out


def judge(case, obs):
    if "child" in case:
        return judge_child(case, obs)
    import mcpyrate.activate
    global W
    d = tempfile.mkdtemp(dir=fw.SCRATCH)
    w = W = World(case, d)
    model = Model(case)
    edited = {}                 # name -> number of edits
    loaded_at = {}              # name -> edits of its closure when it was loaded
    sys.path.insert(0, d)
    old = sys.dont_write_bytecode
    sys.dont_write_bytecode = False
    mcpyrate.activate.activate()
    wasoff = False
    try:
        for n, info in model.mods.items():
            write(w, n, info)
        for k, op in enumerate(case["ops"]):
            importlib.invalidate_caches()

            def where():
                return f"operation {k} {op} (mcpyrate {'on' if model.active else 'off'})\n" + brief("\n\n".join(f"--- {n}.py\n{text_of(n, i)}" for n, i in model.mods.items()), 3000)
            if op[0] in ("edit", "resize"):
                info = model.mods[op[1]]
                if op[0] == "edit":
                    info["ver"] = f"{op[1]}.{op[2]}"
                    info["mtime"] = 1900000000 + op[2]
                    if op[3] is not None:
                        info["size"] = op[3]
                else:
                    if model.usesmacros(op[1]) or info["kind"] == "broken" or info["size"] == op[2]:
                        continue
                    info["ver"] = info["ver"][:-1] + "~"
                    info["size"] = op[2]
                write(w, op[1], info)
                edited[op[1]] = edited.get(op[1], 0) + 1
                continue
            if op[0] == "write":
                model.nowrite = sys.dont_write_bytecode = op[1]
                continue
            # forget the modules that are out of date
            for n in list(model.loaded):
                if op[0] == "forget" or loaded_at[n] != [edited.get(c, 0) for c in model.closure(n)]:
                    if not (op[0] == "reload" and n == op[1] and all(loaded_at.get(c) == [edited.get(e, 0) for e in model.closure(c)] for c in model.mods[n]["uses"])):
                        model.loaded.pop(n)
                        sys.modules.pop(n, None)
            if op[0] == "forget":
                continue
            if op[0] == "reload":
                if op[1] not in model.loaded:
                    continue
                op = ["import", op[1], "reload"]
            elif op[0] == "import" and op[2] != "runpy":
                model.loaded.pop(op[1], None)
                sys.modules.pop(op[1], None)
            before = cachefiles(w)
            wasactive = model.active
            model.log, model.stat, w.log = [], [], []
            want = model.perform(op)
            got = w.perform(op)
            if op[0] == "import" and op[2] == "reload" and isinstance(want[2], str):
                sys.modules.pop(op[1], None)
            for s in model.stat:
                obs.count(s)
                if s == "expanded" and wasoff:
                    obs.count("reactivated and expanded")
            wasoff = wasoff or not model.active
            expect([w.log, got] == [model.log, want], "result", lambda: f"observed {brief([w.log, got], 2500)}\nexpected {brief([model.log, want], 2500)}\n{where()}")
            after = cachefiles(w)
            if not wasactive and "nested switches" not in model.stat and op[0] != "on":
                def dep(files):
                    return {n: b for n, b in files.items() if not n.endswith(".pyc")}
                expect(dep(before) == dep(after), "cache-files", lambda: f"mcpyrate is off, but changed {sorted(n for n in set(dep(before)) | set(dep(after)) if before.get(n) != after.get(n))}\n{where()}")
            if model.nowrite:
                new = sorted(n for n in after if before.get(n) != after[n])
                expect(not new, "cache-files", lambda: f"bytecode writing is off, but these were written: {new}\n{where()}")
            have = sorted(os.path.basename(importlib.util.cache_from_source(w.path(n))) for n in model.pyc)
            got = sorted(n for n in after if n.endswith(".pyc"))
            expect(have == got, "cache-files", lambda: f"bytecode files {got}, expected {have}\n{where()}")
            for n in case["mods"]:
                expect((n in sys.modules) == (n in model.loaded), "registry", lambda: f"{n} {'in' if n in sys.modules else 'not in'} sys.modules\n{where()}")
            for n in model.loaded:
                if n not in loaded_at or n not in before or True:
                    loaded_at[n] = [edited.get(c, 0) for c in model.closure(n)] if n in sys.modules else None
            obs.see("states", f"{model.active} {sorted((n, p['plain'], p['stamp'] == model.mods[n]['mtime']) for n, p in model.pyc.items())} {sorted(model.loaded)}")
        return fw.hash_(case)
    finally:
        mcpyrate.activate.activate()
        sys.dont_write_bytecode = old
        sys.path.remove(d)
        sys.path_importer_cache.pop(d, None)
        for n in case["mods"]:
            sys.modules.pop(n, None)
        shutil.rmtree(os.path.dirname(importlib.util.cache_from_source(w.path("x"))), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        W = None


CHILD = r'''
import sys
HOW, N = sys.argv[1], int(sys.argv[2])
from importlib.machinery import SourceFileLoader
calls = []
if HOW == "wrap":    # another import hook, installed first
    old_code, old_stats = SourceFileLoader.source_to_code, SourceFileLoader.path_stats
    def source_to_code(self, data, path, *, _optimize=-1):
        calls.append("code " + self.name)
        return old_code(self, data, path, _optimize=_optimize)
    def path_stats(self, path):
        calls.append("stats " + self.name)
        return old_stats(self, path)
    SourceFileLoader.source_to_code, SourceFileLoader.path_stats = source_to_code, path_stats
if HOW == "from":
    from mcpyrate.activate import activate, deactivate
else:
    import mcpyrate.activate
    activate, deactivate = mcpyrate.activate.activate, mcpyrate.activate.deactivate
out = []
def attempt(name):
    del calls[:]
    try:
        r = repr(__import__(name).R)
    except ImportError as e:
        r = "ImportError"
    for n in ("user1", "user2", "user3", "lib", "plain1", "plain2"):
        sys.modules.pop(n, None)
    out.append([name, r, sorted(c for c in set(calls) if c.split()[1] == name)])
attempt("user1")
for _ in range(N):
    activate()
deactivate()
attempt("user2")
attempt("plain1")
for _ in range(N):
    deactivate()
attempt("user2")
activate()
attempt("user3")
deactivate()
attempt("plain2")
activate()
attempt("user3")
print(repr(out))
'''


def judge_child(case, obs):
    d = tempfile.mkdtemp(dir=fw.SCRATCH)
    try:
        with open(os.path.join(d, "lib.py"), "w") as f:
            f.write("import ast\ndef m(tree, **kw):\n    return ast.Constant(value=7)\n")
        for k in (1, 2, 3):
            with open(os.path.join(d, f"user{k}.py"), "w") as f:
                f.write("from lib import macros, m\nR = m[1]\n")
            with open(os.path.join(d, f"plain{k}.py"), "w") as f:
                f.write("R = 3\n")
        with open(os.path.join(d, "main.py"), "w") as f:
            f.write(CHILD)
        p = fw.run_py([os.path.join(d, "main.py"), case["child"], str(case["n"])], d, fw.child_env(d))
        if p.rc is None:
            raise fw.Inconclusive("a child process took too long")
        expect(p.rc == 0, "child", lambda: repr(p))
        got = eval(p.out.strip().splitlines()[-1])
        wrapped = case["child"] == "wrap"

        def row(name, r, on, compiled=True):
            calls = [] if on or not wrapped else ["code " + name] * compiled + ["stats " + name]
            return [name, r, calls]
        want = [row("user1", "7", True), row("user2", "ImportError", False), row("plain1", "3", False), row("user2", "ImportError", False, False),
                row("user3", "7", True), row("plain2", "3", False), row("user3", "7", True)]
        # whether mcpyrate, when on, asks the earlier hook too, is not specified
        strip = [g if not w_[2] and w_[1] == "7" and g[:2] == w_[:2] else None for g, w_ in zip(got, want)]
        got = [w_ if s is not None else g for g, w_, s in zip(got, want, strip)]
        expect(got == want, "child", lambda: f"{case}: observed {got}\nexpected {want}")
        if wrapped:
            obs.count("other hooks restored")
        return fw.hash_(case)
    finally:
        shutil.rmtree(d, ignore_errors=True)
