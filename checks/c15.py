"""C15: the module registry and parent packages under histories of module creations, runs, imports and failures."""
import ast
import builtins
import importlib
import importlib.util
import io
import os
import sys
import types

import fw
from fw import brief, expect

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "random nested histories of module creations, temporary modules, single- and multi-phase runs, compilations and file imports, with failures injected at every stage, run against the real registry; after every operation, and from inside running phases, sys.modules and the parent packages' attributes are compared object by object with a model of the documented effects"
LEVEL_NOTE = "All entries of sys.modules are compared by identity, not only those of the names used. Nesting of operations inside phases and temporary modules up to depth 3."
RULE = "Random histories of 3-10 operations. Distinct by history."
QUICK = dict(n=20000, secs=14)
THOROUGH = dict(n=600000, secs=300)
MIN = {"operations": 5000, "registry comparisons": 20000, "phase observations": 1500, "failures": 1500, "temporary modules": 800, "imports": 150}
ASSUMPTIONS = ["when a run in an auto-named module fails, that module may stay registered or not"]

NAMES = ["mcpv15_a", "mcpv15_b", "mcpv15_a.x", "mcpv15_a.y", "mcpv15_a.x.z", "mcpv15_b.class", "mcpv15_pk.dyn", "mcpv15_ä"]
FILES = ["mcpv15_f", "mcpv15_pk.sub"]
BAD = [["", None], ["a..b", "TypeError"], [".mcpv15_q", "TypeError"], ["mcpv15_a.", "TypeError"], ["1mcp", "TypeError"], ["mcpv15-a", "TypeError"], [5, "TypeError"], [["mcpv15_a"], "TypeError"],
       ["mcpv15_none.x", None], ["mcpv15_a.none.x", None], ["mcpv15_lazy.x", None]]
IGNORED = ("mcpv15_macros",)
SUB = ("x", "y", "z", "class", "dyn", "sub")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def hook(idx):
    W.hook(idx, sys._getframe(1).f_globals)


W = None


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    builtins.OB15 = hook
    builtins.Boom15 = Boom
    builtins.BaseBoom15 = BaseBoom
    m = types.ModuleType("mcpv15_macros")

    def boom(tree, **kw):
        raise Boom("macro")

    def ident(tree, **kw):
        return tree

    def dialect(*a, **kw):
        raise Boom("dialect")
    m.boom, m.ident = boom, ident
    sys.modules["mcpv15_macros"] = m


def shard_setup(scratch):
    sys.path.insert(0, scratch)
    os.makedirs(os.path.join(scratch, "mcpv15_pk"))
    open(os.path.join(scratch, "mcpv15_pk", "__init__.py"), "w").close()
    os.makedirs(os.path.join(scratch, "mcpv15_lazy"))    # can be imported, but nobody does
    open(os.path.join(scratch, "mcpv15_lazy", "__init__.py"), "w").close()


# ---------------------------------------------------------------- generation
def gen_ops(rng, depth, busy, n):
    return [gen_op(rng, depth, busy) for _ in range(n)]


def gen_name(rng, busy):
    for _ in range(20):
        nm = rng.choice(NAMES)
        if nm not in busy:
            return nm
    return None


def gen_src(rng, depth, busy, name):
    top = rng.choice([0, 0, 1, 1, 2, 2, 3])
    blocks = []
    for p in rng.sample(range(1, top + 1), rng.randint(1, top)) if top else []:
        blocks.append([p, gen_ops(rng, depth - 1, busy, rng.randint(0, 2)) if depth > 0 and rng.random() < .35 else []])
    if top and not any(b[0] == top for b in blocks):
        blocks.append([top, []])
    blocks.insert(rng.randint(0, len(blocks)), [0, gen_ops(rng, depth - 1, busy, rng.randint(0, 2)) if depth > 0 and rng.random() < .35 else []])
    fail = None
    if rng.random() < .5:
        p = rng.choice(blocks)[0]
        fail = [rng.choice(["raise", "raise", "base", "macro", "unbound", "misplaced"]), p, rng.randint(0, p)]
        if rng.random() < .1:
            fail = ["syntax", 0, 0]
    return dict(multi=bool(top) or rng.random() < .3, blocks=blocks, fail=fail, form=rng.choice(["str", "str", "bytes", "ast", "list"]), debug=rng.random() < .1)


def gen_op(rng, depth, busy):
    k = rng.choices(["create", "temp", "bad", "run", "expand", "import", "reload", "del"], [5, 4 if depth else 1, 1.5, 6, 2.5, 1, .7, .7])[0]
    if k == "bad":
        nm, err = rng.choice(BAD)
        return dict(op=rng.choice(["create", "temp"]), name=nm, err=err, file=None, up=rng.random() < .7, body=[], exc=False)
    if k == "create":
        f = rng.choice([None, None, "/nonexistent/f.py", "some description", ""])
        return dict(op=k, name=rng.choice([None, gen_name(rng, busy), gen_name(rng, busy), gen_name(rng, busy)]), file=f, up=rng.random() < .7, err=None)
    if k == "temp":
        return dict(op=k, name=rng.choice([None, gen_name(rng, busy), gen_name(rng, busy), gen_name(rng, busy)]), file=None, up=rng.random() < .7, err=None,
                    body=gen_ops(rng, depth - 1, busy, rng.randint(0, 4)) if depth else [], exc=rng.choice([False, False, "Boom", "BaseBoom"]))
    if k == "run":
        # target: None, a registered name, or the k-th module object ever made
        return dict(op=k, target=rng.choice([None, gen_name(rng, busy), gen_name(rng, busy), "mcpv15_none", rng.randint(0, 9), rng.randint(0, 9)]), src=gen_src(rng, depth, busy, None))
    if k == "expand":
        return dict(op=k, how=rng.choice(["expand", "compile"]), name=rng.choice([gen_name(rng, busy), gen_name(rng, busy), "mcpv15_none", "mcpv15_none.x", None]), src=gen_src(rng, depth, busy, None))
    if k in ("import", "reload"):
        free = [f for f in FILES if f not in busy]
        if not free or (k == "reload" and depth < 2):
            return dict(op="create", name=None, file=None, up=True, err=None)
        nm = rng.choice(free)
        return dict(op=k, name=nm, src=gen_src(rng, depth, busy + [nm], nm))
    return dict(op="del", name=gen_name(rng, busy))


def generate(rng, i):
    return gen_ops(rng, rng.choice([1, 2, 2, 3]), [], rng.randint(3, 10))


def fixed(tier):
    out = []
    A = dict(op="create", name="mcpv15_a", file=None, up=True, err=None)
    X = dict(A, name="mcpv15_a.x")
    for name in ("mcpv15_a.x", "mcpv15_b", None):
        for pre in ([A], [A, X]):
            for p in (2, 1, 0):
                for at in range(p, -1, -1):
                    for kind in ("raise", "base", "macro", "unbound", "misplaced", None):
                        src = dict(multi=True, blocks=[[0, []], [2, []], [1, []]], fail=[kind, p, at] if kind else None, form="str", debug=False)
                        out.append(pre + [dict(op="run", target=name, src=src)])
                        if name:
                            out.append(pre + [dict(op="expand", how="compile", name=name, src=src), dict(op="temp", name=name, file=None, up=True, err=None, body=[dict(op="run", target=name, src=src)], exc=False)])
                        out.append(pre + [dict(op="import", name=FILES[p % 2], src=src), dict(op="reload", name=FILES[p % 2], src=dict(src, fail=None))])
    return out


# ---------------------------------------------------------------- the world: model and monitor
def render(src, table):
    """Text of the module; every block calls the hook first. `table` gets an entry per block."""
    lines = []
    if src["multi"]:
        lines.append("from mcpyrate.multiphase import macros, phase")
        if src["debug"]:
            lines.append("from mcpyrate.debug import macros, step_phases")
    fail = src["fail"]
    done = False
    for p, ops in src["blocks"]:
        body = [f"OB15({len(table)})", "from mcpv15_macros import macros, ident", f"x{p} = ident[{p}]"]
        table.append((p, ops))
        if fail and fail[1] == p and not done:
            done = True
            at = fail[2]
            cond = f"if __phase__ == {at}: " if src["multi"] else ""
            body.append({"raise": cond + "raise Boom15('r')", "base": cond + "raise BaseBoom15('r')", "macro": "from mcpv15_macros import macros, boom\nboom[1]", "unbound": "from mcpv15_macros import macros, nosuch",
                         "misplaced": "if 1:\n    with phase[1]:\n        y = 1" if src["multi"] else "raise Boom15('m')", "syntax": "x = = 1"}[fail[0]])
        text = "\n".join(body)
        if p:
            lines.append(f"with phase[{p}]:")
            text = "\n".join("    " + ln for ln in text.split("\n"))
        lines.append(text)
    return "\n".join(lines) + "\n"


class World:
    def __init__(self, obs):
        self.obs = obs
        self.reg = {}        # expected: our names -> module
        self.attrs = {}      # expected: id(module) -> {attribute: module}
        self.mods = []       # every module made (keeps them alive)
        self.base = dict(sys.modules)
        self.autonames = set()
        self.autofiles = set()
        self.frames = []     # running sources
        self.trace = []
        self.table = []

    def know(self, m):
        if not any(m is x for x in self.mods):
            self.mods.append(m)
            self.attrs[id(m)] = {}

    def setattr(self, name, m):
        pk, _, last = name.rpartition(".")
        if pk and pk in self.reg:
            self.attrs[id(self.reg[pk])][last] = m

    def compare(self, when, extra=None):
        """The whole registry against base + reg."""
        want = dict(self.reg)
        if extra:
            want.update(extra)
        now = dict(sys.modules)
        self.obs.count("registry comparisons")
        ctx = lambda: f"{when}\nhistory: {brief(repr(self.trace), 3000)}\n"
        for nm, m in self.base.items():
            expect(now.get(nm) is m, "other-module", lambda: ctx() + f"entry {nm!r} was {m!r}, now {now.get(nm)!r}")
        for nm, m in want.items():
            expect(nm in now, "missing-entry", lambda: ctx() + f"{nm!r} is not registered, expected {m!r}")
            expect(now[nm] is m, "wrong-entry", lambda: ctx() + f"{nm!r} is {now[nm]!r} (id {id(now[nm])}), expected {m!r} (id {id(m)}); " + ("a temporary module" if not any(now[nm] is x for x in self.mods) else "another known module"))
        for nm in now:
            if nm not in want and nm not in self.base:
                m = now[nm]
                if getattr(m, "__spec__", None) is not None and not nm.startswith("mcpv15"):   # an ordinary lazy import
                    self.base[nm] = m
                    continue
                raise fw.Violation("extra-entry", ctx() + f"{nm!r} is registered: {m!r}")
        for m in self.mods:
            got = {a: v for a, v in vars(m).items() if a in SUB}
            exp = self.attrs[id(m)]
            expect(got == exp, "package-attribute", lambda: ctx() + f"submodule attributes of {m!r} are {got!r}, expected {exp!r}" + "".join(f"; {a!r} is {'known' if any(v is x for x in self.mods) else 'a temporary module'} {id(v)}" for a, v in got.items()))

    # ---- called from running module code
    def hook(self, idx, g):
        p, ops = self.table[idx]
        fr = self.frames[-1]
        ph = g.get("__phase__", 0) if fr["multi"] else 0
        name = g["__name__"]
        self.obs.count("phase observations")
        when = f"in {name!r}, block of phase {p}, running phase {ph}"
        if fr["kind"] == "auto" and fr["name"] is None:
            expect(name not in self.reg and name not in self.autonames, "autoname", lambda: f"{when}: run() without a module runs in {name!r}, which existed before")
            fr["name"] = name
        expect(name == fr["name"], "module-name", lambda: f"{when}: expected __name__ {fr['name']!r}\n{self.trace!r}")
        if ph:
            m = fr["temp"].get(ph) or sys.modules.get(name)
            expect(isinstance(m, types.ModuleType) and m.__dict__ is g, "phase-not-registered", lambda: f"{when}: registered is {m!r}, whose namespace is not the running one\n{brief(repr(self.trace), 3000)}")
            expect(ph in fr["temp"] or not any(m is x for x in self.mods), "phase-module-reused", lambda: f"{when}: runs in the already existing {m!r}\n{brief(repr(self.trace), 3000)}")
            if ph not in fr["temp"]:
                fr["temp"][ph] = m
                self.know(m)
                self.reg[name] = m
            self.obs.see("phases", ph)
        else:
            if fr["phase0"] is None:      # first statement of the final run
                fr["phase0"] = True
                if fr["kind"] in ("import", "auto"):
                    m = sys.modules.get(name)
                    expect(isinstance(m, types.ModuleType) and m.__dict__ is g and not any(m is t for t in fr["temp"].values()), "final-module", lambda: f"{when}: registered is {m!r}\n{brief(repr(self.trace), 3000)}")
                    self.know(m)
                    self.reg[name] = m
                else:
                    self.restore(fr)
                    expect(g is fr["target"].__dict__, "final-module", lambda: f"{when}: not running in the module given\n{brief(repr(self.trace), 3000)}")
        self.compare(when)
        if p == ph and ops and not (idx, ph) in fr["ran"]:
            fr["ran"].add((idx, ph))
            self.do_all(ops)

    def restore(self, fr):
        if fr["name"] is None:
            return
        if fr["orig"] is None:
            self.reg.pop(fr["name"], None)
        else:
            self.reg[fr["name"]] = fr["orig"]

    # ---- operations
    def do_all(self, ops):
        for op in ops:
            self.trace.append(tuple((k, op[k]) for k in op if k in ("op", "name", "target", "up", "err", "exc", "how")) + ((("fail", op["src"]["fail"], [b[0] for b in op["src"]["blocks"]]),) if "src" in op else ()))
            self.obs.count("operations")
            self.obs.count("op " + op["op"])
            getattr(self, "op_" + op["op"])(op)
            self.compare(f"after {self.trace[-1]}")

    def created(self, op, m):
        name, file = op["name"], op["file"]
        ctx = lambda: f"create_module({name!r}, {file!r}, update_parent={op['up']}) -> {vars(m)!r}"
        expect(type(m) is types.ModuleType, "attributes", ctx)
        if not name:
            expect(m.__name__ not in self.autonames and m.__name__ not in self.base and m.__name__ not in self.reg and "." not in m.__name__ and m.__name__.isidentifier(), "autoname", ctx)
            self.autonames.add(m.__name__)
            if not file:
                expect(m.__file__ not in self.autofiles and m.__file__, "autoname", ctx)
                self.autofiles.add(m.__file__)
        else:
            expect(m.__name__ == name, "attributes", ctx)
            if not file:
                expect(name in m.__file__, "attributes", ctx)
        if file:
            expect(m.__file__ == file, "attributes", ctx)
        expect(m.__package__ == (name.rpartition(".")[0] if name and "." in name else None) and m.__spec__ is None and m.__loader__ is None and m.__doc__ is None, "attributes", ctx)
        expect(set(vars(m)) == {"__name__", "__file__", "__package__", "__doc__", "__spec__", "__loader__"}, "attributes", ctx)
        self.know(m)
        self.reg[m.__name__] = m
        if op["up"]:
            self.setattr(m.__name__, m)

    def parent_missing(self, name):
        pk = name.rpartition(".")[0] if isinstance(name, str) else ""
        return bool(pk) and pk not in self.reg

    def expected_error(self, op):
        if op["err"]:
            return op["err"]
        return "ModuleNotFoundError" if self.parent_missing(op["name"]) else None

    def op_create(self, op):
        from mcpyrate.compiler import create_module
        want = self.expected_error(op)
        try:
            m = create_module(op["name"], op["file"], update_parent=op["up"])
        except Exception as e:
            expect(want is not None and type(e).__name__ == want, "creation-error", lambda: f"create_module({op['name']!r}) raised {type(e).__name__}: {e}; expected {want}")
            self.obs.count("failures")
            return
        expect(want is None, "creation-error", lambda: f"create_module({op['name']!r}) gave no error, expected {want}")
        self.created(op, m)

    def op_temp(self, op):
        from mcpyrate.compiler import temporary_module
        want = self.expected_error(op)
        exc = {"Boom": Boom, "BaseBoom": BaseBoom}.get(op["exc"], Boom)("temp")
        entered = False
        try:
            with temporary_module(op["name"], op["file"], update_parent=op["up"]) as m:
                entered = True
                expect(want is None, "creation-error", lambda: f"temporary_module({op['name']!r}) gave no error, expected {want}")
                self.created(op, m)
                self.compare(f"in temporary_module({op['name']!r})")
                self.do_all(op["body"])
                self.trace.append(("leave", op["name"]))
                if op["exc"]:
                    raise exc
        except fw.Violation:
            raise
        except (Exception, BaseBoom) as e:
            self.obs.count("failures")
            if not entered:
                expect(want is not None and type(e).__name__ == want, "creation-error", lambda: f"temporary_module({op['name']!r}) raised {type(e).__name__}: {e}; expected {want}")
                return
            expect(e is exc and op["exc"], "exception-changed", lambda: f"{type(e).__name__}: {e} instead of {exc!r} from the block of temporary_module({op['name']!r})")
        else:
            expect(not op["exc"], "exception-swallowed", lambda: f"temporary_module({op['name']!r}) swallowed the exception")
        self.obs.count("temporary modules")
        nm = m.__name__
        if self.reg.pop(nm, None) is None:
            self.obs.count("removed in the block")
        pk, _, last = nm.rpartition(".")
        if op["up"] and pk in self.reg:
            self.attrs[id(self.reg[pk])].pop(last, None)

    def source(self, src):
        text = render(src, self.table)
        if src["form"] == "bytes":
            return text, text.encode()
        if src["fail"] and src["fail"][0] == "syntax" or src["form"] == "str":
            return text, text
        t = ast.parse(text)
        return text, t if src["form"] == "ast" else t.body

    def attempt(self, fr, src, f):
        """Run f under frame fr; the model's registry is then as documented for the end of a multi-phase compilation."""
        fr.update(temp={}, phase0=None, ran=set(), multi=src["multi"])
        self.frames.append(fr)
        res = err = None
        stderr = sys.stderr
        if src["debug"]:
            sys.stderr = io.StringIO()
        try:
            res = f()
        except fw.Violation:
            raise
        except (Exception, BaseBoom) as e:
            err = e
        finally:
            sys.stderr = stderr
            self.frames.pop()
        e = err
        while e is not None:   # a violation raised inside may have been chained into another exception
            if isinstance(e, fw.Violation):
                raise e
            e = e.__cause__ or e.__context__
        if fr["phase0"] is None and fr["kind"] not in ("import", "auto"):
            self.restore(fr)
        if err is not None:
            self.obs.count("failures")
            self.obs.see("failure kinds", type(err).__name__ + repr(src["fail"] and src["fail"]) + repr(sorted({b[0] for b in src["blocks"]})))
        return res, err

    def check_outcome(self, src, err, text, compiled_only=False):
        fail = src["fail"]
        if fail and compiled_only and fail[0] in ("raise", "base") and not fail[2]:
            fail = None
        if fail and not src["multi"] and fail[0] == "misplaced" and compiled_only:
            fail = None
        if not fail:
            expect(err is None, "unexpected-error", lambda: f"{type(err).__name__}: {err} (from {err.__cause__!r}) for\n{text}")
        else:
            expect(err is not None, "no-error", lambda: f"no error for\n{text}")
            if fail[0] == "base":
                expect(isinstance(err, BaseBoom), "exception-changed", lambda: f"{err!r} instead of BaseBoom for\n{text}")

    def op_run(self, op):
        from mcpyrate import compiler
        t = op["target"]
        text, source = self.source(op["src"])
        if t is None:
            before = set(sys.modules)
            fr = dict(name=None, orig=None, target=None, kind="auto", new=None)
            m, err = self.attempt(fr, op["src"], lambda: compiler.run(source))
            self.check_outcome(op["src"], err, text)
            if err is None:
                if fr["phase0"] is None:   # no event
                    self.know(m)
                expect(m.__name__ not in self.autonames and m.__name__ not in before, "autoname", lambda: f"run() without a module ran in {m.__name__!r}, which existed already")
                expect(any(m is x for x in self.mods) and not any(m is x for x in fr["temp"].values()), "run-result", lambda: f"run returned {m!r}, which is not where the final code ran\n{text}")
                self.reg[m.__name__] = m
                self.autonames.add(m.__name__)
            else:   # leaving it there and removing it are both fine
                if fr["name"]:
                    self.reg.pop(fr["name"], None)
                    self.autonames.add(fr["name"])
                new = [nm for nm in sys.modules if nm not in before and nm not in self.base and nm not in self.reg and not nm.startswith("mcpv15") and getattr(sys.modules[nm], "__spec__", None) is None]
                expect(len(new) <= 1, "extra-entry", lambda: f"a failed run() without a module left {new!r}\n{text}")
                for nm in new:
                    m = sys.modules[nm]
                    expect(not any(m is x for x in fr["temp"].values()), "temporary-left", lambda: f"a failed run() without a module left the temporary module {m!r}\n{text}")
                    self.know(m)
                    self.reg[nm] = m
            return
        if isinstance(t, int):
            if not self.mods:
                return
            t = self.mods[t % len(self.mods)]
            # a module that no longer is registered, or another one is, under its name, is fine, too
            if t.__name__ in self.names_running() or hasattr(t, "__path__"):
                return
            target = t
        else:
            if t in self.names_running():
                return
            target = self.reg.get(t)
        if target is None:
            try:
                compiler.run(source, t)
            except ModuleNotFoundError:
                self.obs.count("failures")
            else:
                raise fw.Violation("no-error", f"run(..., {t!r}) with no such module")
            return
        fr = dict(name=target.__name__, orig=self.reg.get(target.__name__), target=target, kind="run")
        m, err = self.attempt(fr, op["src"], lambda: compiler.run(source, t))
        if isinstance(err, ModuleNotFoundError) and op["src"]["multi"] and self.parent_missing(target.__name__):
            return
        self.check_outcome(op["src"], err, text)
        if err is None:
            expect(m is target, "run-result", lambda: f"run returned {m!r}, not the module given {target!r}")

    def names_running(self):
        return {fr["name"] for fr in self.frames}

    def op_expand(self, op):
        from mcpyrate import compiler
        if op["name"] in self.names_running():
            return
        text, source = self.source(op["src"])
        fr = dict(name=op["name"], orig=self.reg.get(op["name"]), target=None, kind="expand")
        missing = self.parent_missing(op["name"])
        m, err = self.attempt(fr, op["src"], lambda: getattr(compiler, op["how"])(source, "<mcpv15>" if op["how"] == "compile" else "/nonexistent/mcpv15_f.py", self_module=op["name"]))
        if op["src"]["multi"] and op["name"] is None:
            expect(err is not None, "no-error", lambda: f"no self_module, and no error for\n{text}")
        elif op["src"]["multi"] and self.parent_missing(op["name"]):   # before, or since some phase ran
            expect(not missing or isinstance(err, ModuleNotFoundError) or op["src"]["fail"], "no-error", lambda: f"parent of {op['name']!r} is missing, and {err!r} for\n{text}")
        else:
            self.check_outcome(op["src"], err, text, True)

    def write(self, name, text):
        fn = os.path.join(fw.SCRATCH, *name.split(".")) + ".py"
        with open(fn, "w") as f:
            f.write(text)
        cached = importlib.util.cache_from_source(fn)
        for c in (cached, cached[:-4] + ".mcpyrate.pickle"):
            if os.path.exists(c):
                os.unlink(c)
        importlib.invalidate_caches()

    def op_import(self, op):
        name = op["name"]
        if name in self.names_running() or "mcpv15_pk" not in self.reg:
            return
        text = render(op["src"], self.table)
        self.write(name, text)
        sys.modules.pop(name, None)
        self.reg.pop(name, None)
        fr = dict(name=name, orig=None, target=None, kind="import")
        m, err = self.attempt(fr, op["src"], lambda: importlib.import_module(name))
        self.obs.count("imports")
        self.check_outcome(op["src"], err, text)
        if err is not None:
            self.reg.pop(name, None)
            return
        expect(not any(m is t for t in fr["temp"].values()), "import-result", lambda: f"importing gives a temporary module\n{text}")
        self.know(m)
        self.reg[name] = m
        self.setattr(name, m)

    def op_reload(self, op):
        name = op["name"]
        if name not in self.reg or name in self.names_running() or self.reg[name].__spec__ is None or "mcpv15_pk" not in self.reg:
            return
        m0 = self.reg[name]
        text = render(op["src"], self.table)
        self.write(name, text)
        for nm in list(vars(m0)):
            if not (nm.startswith("__") and nm != "__phase__"):
                del m0.__dict__[nm]
        fr = dict(name=name, orig=m0, target=m0, kind="reload")
        m, err = self.attempt(fr, op["src"], lambda: importlib.reload(m0))
        self.obs.count("imports")
        self.check_outcome(op["src"], err, text)
        if err is None:
            expect(m is m0, "import-result", lambda: f"reload gives another module {m!r}\n{text}")

    def op_del(self, op):
        """The user removes an entry."""
        if op["name"] in self.reg and op["name"] not in self.names_running():
            del sys.modules[op["name"]]
            del self.reg[op["name"]]


def judge(case, obs):
    global W
    ours = lambda nm: nm.startswith(("mcpv15", "dynamically_created")) and nm not in IGNORED
    for nm in [nm for nm in sys.modules if ours(nm)]:
        del sys.modules[nm]
    W = World(obs)
    pk = importlib.import_module("mcpv15_pk")
    for a in SUB:
        vars(pk).pop(a, None)
    W.know(pk)
    W.reg["mcpv15_pk"] = pk
    W.do_all(case)
    return fw.hash_(case)
