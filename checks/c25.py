r"""C25: expanding modules from several threads gives the same results as sequentially."""
import json
import os
import random
import re
import shutil
import tempfile

import fw
from fw import expect

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "schedule exploration with a differential oracle: sets of modules that exercise every stateful part of the expander are imported, expanded and compiled by 2-6 threads under injected delays at function entries, and each module's results, expanded code, errors and stepping output are compared with a sequential run; generated names are checked for uniqueness across threads"
LEVEL_NOTE = "Delays are injected by a trace function at random calls into mcpyrate, so switches happen in the middle of quasiquotes, phases and imports; observed switches and distinct interleavings are counted."
RULE = "2-7 modules of 2-6 fragments (20 kinds) plus shared macro libraries and dialects, spread over 2-6 threads which share some of them; 4 rounds each, the first in a fresh process. Distinct by schedule observed."
QUICK = dict(n=1000, secs=18)
THOROUGH = dict(n=20000, secs=400)
MIN = {"rounds": 60, "modules": 200, "switches": 5000, "expansions": 40, "shared modules": 20, "steppings": 20, "failing modules": 10, "multi-phase": 8, "generated names": 100}
ASSUMPTIONS = ["modules whose own (plain Python) imports are not circular", "sys.stderr set per thread by the harness"]

TLIB = r'''
import ast
from mcpyrate import namemacro, parametricmacro, gensym, unparse
from mcpyrate.quotes import macros, q, u, n, a, s, t, h
from mcpyrate.utils import NestingLevelTracker
from tlib0 import macros, inner
level = NestingLevelTracker()
def helper(x): return ("helped", x)
def mk(tree, **kw): return q[(u["mkV0"], a[tree])]
def hyg(tree, **kw): return q[h[helper](a[tree])]
def hm(tree, **kw): return q[h[inner][a[tree]]]
def slow(tree, *, expander, **kw): return q[("slow", a[expander.visit(tree)])]
def rec(tree, *, expander, **kw): return q[("rec", a[expander.visit_recursively(tree)])]
def once(tree, *, expander, **kw): return expander.visit_once(tree)
def gs(tree, **kw):
    name = gensym("v")
    lam = q[lambda: (n[name], 1)]
    lam.args.args = [ast.arg(arg=name)]
    return q[a[lam](a[tree])]
def lev(tree, *, expander, **kw):
    with level.changed_by(+1):
        k = level.value
        tree = expander.visit_recursively(tree)
        assert level.value == k
    return q[("level", u[k], a[tree])]
@namemacro
def nm(tree, **kw): return q["name"]
@parametricmacro
def par(tree, *, args, **kw): return q[(t[args], a[tree])]
def blk(tree, **kw):
    with q as quoted:
        R.append("block")
        with a:
            tree
    return quoted
def deco(tree, **kw):
    with q as body:
        return "decorated"
    tree.body = body
    return tree
def fail(tree, **kw): raise ValueError("failed on purpose")
'''
TLIB0 = r'''
from mcpyrate.quotes import macros, q, a
def inner(tree, **kw): return q[("inner", a[tree])]
'''
MPLIB = r'''
from mcpyrate.multiphase import macros, phase
with phase[2]:
    from mcpyrate.quotes import macros, q, u, a
    def two(tree, **kw): return q[a[tree] * 2]
with phase[1]:
    from __self__ import macros, two
    from mcpyrate.quotes import macros, q, u, a
    def mpm(tree, **kw): return q[("mp", u[two[21]], a[tree])]
'''
DIAL = r'''
import ast
from tlib import macros, mk
from mcpyrate.astfixers import fix_locations
from mcpyrate.dialects import Dialect
from mcpyrate.splicing import splice_dialect
from mcpyrate.quotes import macros, q, u
class D(Dialect):
    def transform_source(self, text): return text.replace("PLUS", "+")
    def transform_ast(self, tree):
        with q as template:
            __lang__ = "D"
            from tlib import macros, mk
            __paste_here__  # noqa
            R.append("end")
        tree.body = splice_dialect(tree.body, template, "__paste_here__")
        self.mine = (self.expander.filename, len(tree.body))
        return tree
    def postprocess_ast(self, tree):
        with q as extra:
            R.append(u[self.mine[0] == self.expander.filename])
        for x in extra:
            fix_locations(x, tree.body[-1], mode="reference")
        assert self.mine[1]
        return type(tree)(body=tree.body + extra, type_ignores=tree.type_ignores)
'''
SHARED = r'''
from tlib import macros, mk, lev, hyg
from mcpyrate.quotes import macros, q, u
from mcpyrate import unparse
R = [mk[1], lev[(1, lev[2])], hyg[3], unparse(q[f(u[4])])]
'''

CHILD = r'''
import sys, json, os, random, time, threading, io, traceback, faulthandler, collections
sys.dont_write_bytecode = not json.loads(sys.argv[3])
root, repo = sys.argv[1], sys.argv[2]
case = json.load(open(os.path.join(root, "case.json")))
faulthandler.dump_traceback_later(100, exit=True)
sys.path.insert(0, root)
mcdir = os.path.join(repo, "mcpyrate") + os.sep
real = sys.stdout
class PerThread(io.TextIOBase):
    def __init__(self): self.local = threading.local()
    def buf(self):
        if not hasattr(self.local, "b"): self.local.b = io.StringIO()
        return self.local.b
    def write(self, s): return self.buf().write(s)
    def flush(self): pass
    def take(self):
        v = self.buf().getvalue(); self.local.b = io.StringIO(); return v
if not case.get("fresh"):
    import mcpyrate.quotes, mcpyrate.metatools, mcpyrate.debug, mcpyrate.multiphase, mcpyrate.dialects
import mcpyrate.activate
err = PerThread()
sys.stderr = err
ours = case["names"] + ["tlib", "tlib0", "mplib", "dial", "shared"]
version = [0]
def purge(mode="cold"):
    import importlib, shutil
    for m in ours: sys.modules.pop(m, None)
    if mode == "cold":
        shutil.rmtree(os.path.join(root, "__pycache__"), ignore_errors=True)
    elif mode == "edit":   # a macro library that all depend on, directly or not
        fn = os.path.join(root, "tlib.py")
        with open(fn) as f: text = f.read()
        with open(fn, "w") as f: f.write(text.replace("mkV%d" % version[0], "mkV%d" % (version[0] + 1)))
        version[0] += 1
        t = time.time() + 10 * version[0]; os.utime(fn, (t, t))
    importlib.invalidate_caches()
def action(kind, name):
    err.take()
    try:
        if kind == "import":
            import importlib
            m = importlib.import_module(name)
            out = {"R": [repr(x) for x in m.R], "names": sorted(k for k in vars(m) if not k.startswith("__") and k != "_mcpyrate_coverage"), "phase": getattr(m, "__phase__", None)}
        elif kind == "statement":
            g = {}
            exec(f"import {name} as m", g)
            out = {"R": [repr(x) for x in g["m"].R]}
        else:
            from mcpyrate import compiler, unparse
            with open(os.path.join(root, name + ".py")) as f: text = f.read()
            if kind == "expand":
                out = {"code": unparse(compiler.expand(text, filename=f"<{name}>", self_module=None))}
            else:
                with compiler.temporary_module(filename=f"<{name}>") as m:
                    compiler.run(text, m)
                    out = {"R": [repr(x) for x in m.R]}
    except Exception as e:
        while e.__cause__ is not None: e = e.__cause__
        out = {"error": type(e).__name__ + ": " + str(e)}
    out["stderr"] = err.take()
    return out
def sequential():
    return [[action(*x) for x in acts] for acts in case["threads"]]
def threaded(seed):
    stats = collections.Counter(); log = []; last = [None]
    results = [None] * len(case["threads"])
    barrier = threading.Barrier(len(case["threads"]))
    def body(k):
        rng = random.Random(seed * 100 + k)
        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(mcdir):
                if last[0] != k:
                    last[0] = k
                    log.append((k, frame.f_code.co_name))
                if rng.random() < case["p"]:
                    time.sleep(rng.choice([0, 0, 0.0001, 0.0005]))
            return None
        barrier.wait()
        sys.settrace(tracer)
        try:
            results[k] = [action(*x) for x in case["threads"][k]]
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(results))]
    old = sys.getswitchinterval(); sys.setswitchinterval(case["interval"])
    for x in ts: x.start()
    for x in ts: x.join(80)
    sys.setswitchinterval(old)
    hung = [k for k, x in enumerate(ts) if x.is_alive()]
    if hung:
        frames = sys._current_frames()
        real.write(json.dumps({"hung": ["".join(traceback.format_stack(frames[ts[k].ident])[-6:]) for k in hung if ts[k].ident in frames]})); real.flush(); os._exit(0)
    return results, len(log), hash(tuple(log)) & 0xffffffffffff
res = {"rounds": []}
for r, mode in enumerate(case["rounds"]):
    purge(mode)
    x, n, hs = threaded(case["seed"] + r)
    res["rounds"].append({"results": x, "switches": n, "hash": hs, "version": version[0]})
purge()
res["sequential"] = sequential()
real.write(json.dumps(res)); real.flush(); os._exit(0)
'''


def fragment(rng, k):
    """Lines of code; they put what they get into R."""
    i = rng.randint(0, 99)
    m = lambda d=2: expr(rng, d)   # noqa: E731
    return rng.choice([
        lambda: [f"R.append({m(3)})"],
        lambda: [f"R.append({m(3)})"],
        lambda: [f"R.append(dump(q[f(u[{i}], a[q[g(u[{i + 1}])]])]))"],
        lambda: [f"R.append(unparse(q[q[f(u[u[{i}]], a[x])]]))"],
        lambda: [f"R.append(unparse(q[q[q[(u[x], u[u[y]], u[u[u[{i}]]])]]]))"],
        lambda: [f"R.append(unparse(q[(t[[q[u[j]] for j in range({i % 5})]], s[[q[z]]], n['nm{i}'], h[len](a[q[{i}]]))]))"],
        lambda: ["with q as quoted:", f"    y = u[{i}]", "    for x in n['it']:", "        a[q[call(u[R[:0]])]]", "R.append(unparse(quoted))"],
        lambda: [f"R.append(step_expansion[{m(2)}])"],
        lambda: [f"with step_expansion:", f"    R.append({m(2)})"],
        lambda: [f"R.append(step_expansion[lev[step_expansion[{m(1)}]]])"],
        lambda: [f"R.append(unparse(expandrq[mk[lev[{i}]]]))", f"R.append(unparse(expand1rq[mk[mk[{i}]]]))"],
        lambda: [f"R.append(unparse(expandr[q[slow[mk[{i}]]]]))"],
        lambda: ["with q as quoted:", f"    y = u[{i}]", "R.append(run(quoted).y)"],
        lambda: ["with temporary_module() as tm:", "    with q as quoted:", f"        y = u[{i}]", "    run(quoted, tm)", "    R.append((tm.y, tm.__name__ in sys.modules))"],
        lambda: [f"R += ['GENSYM ' + gensym('x') for _ in range(3)]"],
        lambda: ["with blk:", f"    R.append({m(1)})"],
        lambda: ["@deco", f"def f{k}(): return 1", f"R.append(f{k}())"],
        lambda: [f"R.append(mpm[{m(1)}])"],
        lambda: ["import shared; R.append(shared.R)"],
        lambda: [f"R.append([lev[({m(1)}, lev[{i}])], lev[1]])"],
    ])()


def expr(rng, d):
    if d <= 0 or rng.random() < 0.2:
        return str(rng.randint(0, 99))
    e = lambda: expr(rng, d - 1)   # noqa: E731
    return rng.choice([lambda: f"mk[{e()}]", lambda: f"hyg[{e()}]", lambda: f"hm[{e()}]", lambda: f"slow[{e()}]", lambda: f"rec[{e()}]", lambda: f"once[{e()}]", lambda: f"gs[{e()}]", lambda: f"lev[{e()}]", lambda: "nm", lambda: f"par[{rng.randint(0, 9)}, {rng.randint(0, 9)}][{e()}]", lambda: f"({e()}, {e()})", lambda: f"(lambda v: ({e()}, v))({e()})"])()


HEAD = ["import sys", "from mcpyrate import unparse, dump, gensym", "from mcpyrate.compiler import run, temporary_module", "R = []",
        "from mcpyrate.quotes import macros, q, u, n, a, s, t, h", "from mcpyrate.debug import macros, step_expansion", "from mcpyrate.metatools import macros, expandrq, expand1rq, expandr",
        "from tlib import macros, mk, hyg, hm, slow, rec, once, gs, lev, nm, par, blk, deco, fail", "from mplib import macros, mpm"]


def module(rng, name):
    lines = []
    for k in range(rng.randint(2, 6)):
        lines += fragment(rng, k)
    w = rng.random()
    if w < 0.2:   # multi-phase
        return "\n".join(["from mcpyrate.multiphase import macros, phase", "with phase[1]:", "    from mcpyrate.quotes import macros, q, u, a", f"    def own(tree, **kw): return q[({name!r}, a[tree])]", "from __self__ import macros, own"] + HEAD + lines + ["R.append(own[5])"]) + "\n"
    if w < 0.35:
        return "\n".join(["from dial import dialects, D"] + HEAD + lines + ["R.append(1 PLUS 2)"]) + "\n"
    if w < 0.45:
        return "\n".join(HEAD + lines + ["R.append(fail[1])"]) + "\n"
    return "\n".join(HEAD + lines) + "\n"


def generate(rng, i):
    names = [f"tm{j}" for j in range(rng.randint(2, 7))]
    mods = {n: module(rng, n) for n in names}
    multi = {n for n in names if "with phase" in mods[n]}
    pool = list(names)
    threads = [[] for _ in range(rng.randint(2, 6))]
    for n in pool:   # everything at least once
        rng.choice(threads).append(n)
    for t in threads:
        for _ in range(rng.randint(0 if t else 1, 2)):
            t.append(rng.choice(names))
        rng.shuffle(t)
    acts = []
    for t in threads:
        a = []
        for n in t:
            kind = rng.choice(["import", "import", "import", "statement", "expand", "run"])
            # `import` statements that find a module amid its multi-phase compilation: known finding
            # and a failing module vanishes from under an `import` statement in another thread, in plain Python too
            if n in multi or (kind == "statement" and "fail[1]" in mods[n]):
                kind = "import"
            if kind == "run" and "PLUS" in mods[n]:
                kind = "expand"
            a.append([kind, n])
        acts.append(a)
    return {"mods": mods, "threads": acts, "names": names, "p": rng.choice([0.005, 0.02, 0.1]), "interval": rng.choice([1e-6, 1e-4, 0.005]), "seed": rng.randint(0, 10 ** 6), "fresh": rng.random() < 0.5, **rounds(rng)}


def rounds(rng):
    """Whether bytecode is cached; what happens before each round."""
    write = rng.random() < 0.4
    return {"write": write, "rounds": ["cold"] + [rng.choice(["warm", "edit", "edit", "cold"] if write else ["cold"]) for _ in range(3)]}


def fixed(tier):
    rng = random.Random(25)
    out = []
    # the same module in all threads; the same kind of fragment in all threads
    for k in range(10):
        m = module(rng, "tm0")
        out.append({"mods": {"tm0": m}, "threads": [[["import", "tm0"]]] * 4, "names": ["tm0"], "p": 0.05, "interval": 1e-5, "seed": k, "rounds": ["cold", "edit", "edit"] if k % 2 else ["cold"] * 3, "fresh": True, "write": bool(k % 2)})
    for text in ["R.append(unparse(q[q[f(u[u[1]], a[x])]]))", "R.append(lev[lev[slow[lev[1]]]])", "R.append(step_expansion[lev[step_expansion[mk[1]]]])", "R.append(hm[hm[hm[1]]])", "R.append(once[mk[once[mk[1]]]])", "R += ['GENSYM ' + gensym('x') for _ in range(50)]", "R.append(mpm[1])"]:
        mods = {f"tm{j}": "\n".join(HEAD + [text] * 5) + "\n" for j in range(4)}
        out.append({"mods": mods, "threads": [[["import", n], ["run", n]] for n in mods], "names": list(mods), "p": 0.05, "interval": 1e-5, "seed": 1, "rounds": ["cold"] * 3, "fresh": False, "write": False})
    out.append({"finding": 1})
    return out


def scrub(s):
    s = re.sub(r"\x1b\[[0-9;]*m", "", s)
    s = re.sub(r"mkV\d+", "mk", s)
    s = re.sub(r"0x[0-9a-f]+", "#", s)
    s = re.sub(r"(?<![0-9a-f])[0-9a-f]{32}(?![0-9a-f])", "UUID", s)
    # `expandr` and the like capture all hygienic macros of the process so far
    s = re.sub(r"(, )?'inner_UUID': __import__\([^()]*\(\), 0\)\.quotes\.lookup_value\(\('inner_UUID', (b'[^']*'|#)\)\)", "", s)
    s = s.replace("{, ", "{")
    return re.sub(r"dynamically_created_module_\w+|b'\\x80.*?'", "#", s)


def diff(a, b):
    a, b = str(a), str(b)
    i = len(os.path.commonprefix([a, b]))
    return f" sequentially: ...{fw.brief(a[max(0, i - 200):])}\n in threads: ...{fw.brief(b[max(0, i - 200):])}"


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return scrub(re.sub(r"GENSYM \w+", "GENSYM", x)) if isinstance(x, str) else x


def judge(case, obs):
    root = tempfile.mkdtemp(dir=fw.SCRATCH)
    try:
        return finding(case, obs, root) if "finding" in case else run(case, obs, root)
    finally:
        shutil.rmtree(root)


def put(root, files):
    for n, t in files.items():
        with open(os.path.join(root, n), "w") as f:
            f.write(t)


def run(case, obs, root):
    put(root, {"tlib.py": TLIB, "tlib0.py": TLIB0, "mplib.py": MPLIB, "dial.py": DIAL, "shared.py": SHARED, "case.json": json.dumps(case), "child.py": CHILD, **{n + ".py": t for n, t in case["mods"].items()}})
    env = fw.child_env(root, PYTHONPYCACHEPREFIX=None)
    p = fw.run_py([os.path.join(root, "child.py"), root, os.path.realpath(fw.REPO), json.dumps(case["write"])], cwd=root, env=env, timeout=300, cpu=200)
    show = lambda: "\n".join(f"--- {n}.py\n{t}" for n, t in case["mods"].items()) + f"\nthreads: {case['threads']}\n"   # noqa: E731
    expect(p.rc == 0 and p.out.startswith("{"), "crash", lambda: f"{show()}{p}")
    res = json.loads(p.out)
    expect("hung" not in res, "deadlock", lambda: f"{show()}{res}")
    want = norm(res["sequential"])
    for k, r in enumerate(res["rounds"]):
        mode = case["rounds"][k]
        stale = {int(v) for v in re.findall(r"mkV(\d+)", json.dumps(r["results"]))} - {r["version"]}
        expect(not stale, "stale", lambda: f"round {k} ({mode}): tlib is version {r['version']}, but results have {stale}: {fw.brief(r['results'], 3000)}\n{fw.brief(show(), 4000)}")
        got = norm(r["results"])
        obs.count("rounds: " + mode)
        obs.count("rounds")
        obs.count("switches", r["switches"])
        obs.see("interleavings", r["hash"])
        for ti, (gt, wt) in enumerate(zip(got, want)):
            for (kind, name), g, w in zip(case["threads"][ti], gt, wt):
                obs.count("modules")
                if kind == "expand":
                    obs.count("expansions")
                # a module that was already imported prints nothing; errors repeat
                for key in sorted(set(g) | set(w)):
                    if key == "stderr" and kind in ("import", "statement"):
                        continue
                    expect(g.get(key) == w.get(key), "result-" + key, lambda: f"round {k}, thread {ti}, {kind} {name}: {key}\n{"(" + str(w.get("error")) + ", " + str(g.get("error")) + ")"}\n{diff(w.get(key), g.get(key))}\n{fw.brief(show(), 4000)}")
                obs.count("failing modules", "error" in g)
        # stepping output: each module's steps, as a whole, from one thread
        a, b = steps(got), steps(want)
        expect(a == b or mode == "warm", "stepping-output", lambda: f"round {k}:\n sequentially: {fw.brief(b)}\n in threads: {fw.brief(a)}\n{fw.brief(show(), 4000)}")
        obs.count("steppings", len(a))
        names = re.findall(r"GENSYM (\w+)", json.dumps(r["results"]))
        obs.count("generated names", len(names))
        # the same module imported by several threads gives the same list again
        owners = {}
        for ti, t in enumerate(r["results"]):
            for (kind, name), g in zip(case["threads"][ti], t):
                for x in g.get("R", ()):
                    for nm in re.findall(r"GENSYM (\w+)", x):
                        owner = name if kind in ("import", "statement") else (ti, kind, name)
                        expect(owners.setdefault(nm, owner) == owner or "shared" in x, "generated-name-twice", lambda: f"{nm}: {owners[nm]}, {owner}\n{show()}")
    obs.count("shared modules", sum(n > 1 for n in (sum(x[1] == m for t in case["threads"] for x in t) for m in case["names"])))
    obs.count("multi-phase", sum("with phase" in t for t in case["mods"].values()))
    return fw.hash_([r["hash"] for r in res["rounds"]])


def steps(results):
    """All stepping output, by the blocks of single outermost steppings; those of modules imported from several threads come once."""
    out = []
    for t in results:
        for g in t:
            text = g["stderr"]
            out += [x for x in re.split(r"(?m)^(?=\*\*Tree # .* before macro expansion:)", text) if x.strip()]
    return sorted(out)


def finding(case, obs, root):
    """An import statement, while another thread is compiling the (multi-phase) module."""
    put(root, {"mp.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast, sync\n    sync.inside.set(); sync.go.wait(3)\n    def m(tree, **kw): return ast.Constant(5)\nfrom __self__ import macros, m\nvalue = m[1]\n",
               "sync.py": "import threading\ninside, go = threading.Event(), threading.Event()\n",
               "t.py": "import sys; sys.path.insert(0, sys.argv[1]); import mcpyrate.activate, threading, sync\nt = threading.Thread(target=lambda: __import__('mp')); t.start()\nsync.inside.wait(20)\nthreading.Timer(.5, sync.go.set).start()\nif sys.argv[2] == 'statement': import mp\nelse:\n    import importlib; mp = importlib.import_module('mp')\nt.join(); print(getattr(mp, 'value', 'absent'), mp is sys.modules['mp'])\n"})
    for how in ("function", "statement"):
        p = fw.run_py(["-B", os.path.join(root, "t.py"), root, how], cwd=root, env=fw.child_env(root), timeout=100)
        expect(p.out == "5 True\n", "import-statement-amid-phases" if how == "statement" else "import-amid-phases", lambda: f"{how}: {p}")
    return None
