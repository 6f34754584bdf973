"""C11: hygienic captures always refer to the definition-site value or macro."""
import ast
import builtins
import importlib
import json
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import types

import fw
from fw import expect

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "random macro libraries that capture values and macros hygienically, expanded into use sites that rebind every name involved in every kind of scope; each capture carries a description of the definition-site object taken when it was captured, and each activation of it at run time, in the expanding process and in fresh processes that load the bytecode, is checked against it for value, identity per use site, and separation between captures"
LEVEL_NOTE = "Some activations race in 8 threads, with slow unpickling."
RULE = "2-3 definition modules sharing all names, with captures of 40 kinds of expressions in macros of 5 forms; 6-14 use sites in 20 kinds of scopes that shadow captured names, builtins and names of the macro system. Each project is imported fresh, from bytecode, and with stale bytecode. Distinct by project."
QUICK = dict(n=4000, secs=15)
THOROUGH = dict(n=100000, secs=300)
MIN = {"projects": 120, "activations": 4000, "sites": 1500, "from bytecode": 1000, "processes": 20, "macro captures": 400, "mutable": 200, "detected": 800, "thread races": 30, "gensyms": 20000, "unpicklable": 20, "re-expanded": 300}
ASSUMPTIONS = ["captured values are picklable (as documented), and compare equal to their copies by the description used here", "the use site does not rebind __import__, nor the definition site mcpyrate"]

RT = r'''
"""Run-time monitor."""
import ast, builtins, threading
PROBLEMS, SITES, EXPANDED, SEEN = [], {}, [], {}
COUNT = {}
LOCK = threading.RLock()
def count(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n
def snap(v, d=0):
    if d > 6:
        return "..."
    t = type(v)
    if isinstance(v, ast.AST):
        return ast.dump(v)
    if isinstance(v, type) or callable(v) and hasattr(v, "__qualname__") and not hasattr(v, "__self__"):
        return "@%s.%s" % (v.__module__, v.__qualname__)
    if t in (list, tuple):
        return t.__name__ + "(" + ",".join(snap(x, d + 1) for x in v) + ")"
    if t is dict:
        return "dict(" + ",".join(snap(k, d + 1) + ":" + snap(x, d + 1) for k, x in v.items()) + ")"
    if t in (set, frozenset):
        return t.__name__ + "(" + ",".join(sorted(snap(x, d + 1) for x in v)) + ")"
    if hasattr(v, "__self__") and hasattr(v, "__name__"):
        return "bound %s of %s" % (v.__name__, "builtins" if v.__self__ is builtins else snap(v.__self__, d + 1))
    if hasattr(v, "func") and hasattr(v, "args"):
        return "partial(%s,%s)" % (snap(v.func, d + 1), snap(list(v.args), d + 1))
    if hasattr(v, "__dict__") and type(v).__module__.startswith("mcpv11"):
        return snap(t) + snap(vars(v), d + 1)
    return t.__name__ + " " + repr(v)
def mutable(v):
    return isinstance(v, (list, dict, set)) or type(v).__module__.startswith("mcpv11") and not isinstance(v, type) and type(v).__name__ in ("K", "Slow")
def R(site, expected, v, original=None):
    """Called by expanded code, at each activation of a captured value."""
    with LOCK:
        count("activations")
        got = snap(v)
        first = site not in SITES
        if first:
            for other, w in SITES.items():
                if w is v and mutable(v):
                    PROBLEMS.append("sites %s and %s share the captured %s" % (other, site, got))
            SITES[site] = v
            count("sites")
        elif SITES[site] is not v:
            PROBLEMS.append("site %s: %s is a new object at another activation" % (site, got))
        if (first or not mutable(v)) and got != expected:
            PROBLEMS.append("site %s: got %s, captured %s" % (site, got, expected))
        if mutable(v):
            count("mutable")
            if any(v is w for w in ORIGINALS):
                PROBLEMS.append("site %s: %s is the definition-site object itself" % (site, got))
            try:
                if isinstance(v, list):
                    v.append("mutated")
                elif isinstance(v, dict):
                    v["mutated"] = site
                elif isinstance(v, set):
                    v.add("mutated")
                else:
                    v.a = ("mutated", site)
            except Exception as e:
                PROBLEMS.append(repr(e))
    return v
ORIGINALS = []
def M(expected, v):
    """Called by expanded code with what a captured macro expanded into."""
    count("macro captures")
    if snap(v) != expected:
        PROBLEMS.append("captured macro: got %s, expected %s" % (snap(v), expected))
    return v
def U(expected, v):
    """Called by use-site code."""
    count("use-site names")
    if v != expected:
        PROBLEMS.append("use site: got %r, expected %r" % (v, expected))
    return v
SITE = [0]
def new(*values):
    SITE[0] += 1
    for v in values:
        if mutable(v):
            ORIGINALS.append(v)
    return SITE[0]
def canonical(name):
    return ast.dump(ast.parse(name, mode="eval"))
def detect(tree, name, expected):
    """The public detectors see this capture as what it is."""
    from mcpyrate.quotes import is_captured_value, lookup_value
    found = [is_captured_value(x) for y in (tree if isinstance(tree, list) else [tree]) for x in ast.walk(y)]
    found = [x for x in found if x]
    mine = [x for x in found if canonical(x[0]) == canonical(name)]
    count("detected", len(mine))
    if not mine:
        PROBLEMS.append("%s is not among the captured values %s" % (name, [x[0] for x in found]))
    for x in mine:
        got = snap(lookup_value(x))
        if got != expected:
            PROBLEMS.append("is_captured_value(%s): %s, expected %s" % (name, got, expected))
    return tree
def fails(thunk, what):
    try:
        thunk()
    except Exception as e:
        count("unpicklable")
        return e
    PROBLEMS.append("captured " + what)
def race(f):
    """Activate a capture in several threads at once."""
    out, start = [], threading.Barrier(8)
    def go():
        start.wait()
        out.append(f())
    ts = [threading.Thread(target=go) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    count("thread races")
    if len(out) != 8 or any(x is not out[0] for x in out):
        PROBLEMS.append("threads got different objects: %s" % [id(x) for x in out])
def reset():
    PROBLEMS.clear(); SITES.clear(); EXPANDED.clear(); COUNT.clear(); ORIGINALS.clear()
builtins.R11, builtins.U11, builtins.RACE11, builtins.EXP11, builtins.M11 = R, U, race, EXPANDED.append, M
'''

HELPER = r'''
import ast
from mcpyrate import namemacro, parametricmacro
def hm(tree, **kw):
    return ast.Tuple(elts=[ast.Constant(value="{me}.hm"), tree], ctx=ast.Load())
@parametricmacro
def hp(tree, *, args, **kw):
    return ast.Tuple(elts=[ast.Constant(value="{me}.hp"), *args, tree], ctx=ast.Load())
@namemacro
def hn(tree, **kw):
    return ast.Constant(value="{me}.hn")
def hb(tree, **kw):
    return ast.parse("blk = {me!r} + '.hb'").body + tree
def hd(tree, **kw):
    tree.body = ast.parse("return {me!r} + '.hd'").body
    return tree
'''

DEFS = r'''
from mcpyrate.quotes import macros, q, u, a, h, n
{imports}
import ast, builtins, collections, datetime, decimal, enum, functools, math, time
from mcpyrate.quotes import capture_as_macro, capture_value
import mcpv11_rt as rt
from mcpv11_rt import R, snap, new, detect, fails, M
def fn(x=1):
    return ("fn of", __name__, x)
class K:
    def __init__(self, a):
        self.a = a
    def me(self):
        return self.a
    @staticmethod
    def st():
        return 1
    @classmethod
    def cm(cls):
        return cls
    class Inner:
        pass
class Slow:
    def __init__(self, a):
        self.a = a
    def __setstate__(self, state):
        time.sleep(0.003)
        self.__dict__.update(state)
class Color(enum.Enum):
    R = 1
    G = {num}
Point = collections.namedtuple("Point", "x y")
num = {num}
text = "text of " + __name__
data = [{num}, [2]]
dct = {{"k": [1, {num}], (1, 2): None}}
inst = K([{num}])
slow = Slow({num})
st = {{1, "two", {num}}}
EXPANSIONS = [0]
{macros}
'''

# expressions to capture, and the names in them
EXPRS = ["fn", "K", "data", "dct['k']", "dct", "inst", "inst.a", "num", "text", "K.me", "inst.me", "K.st", "K.cm", "K.Inner", "len", "functools.partial(fn, 2)", "Color.R", "Color.G", "math.pi", "loc", "arg", "[loc, data]", "{num: data}", "cell", "item", "fn(3)", "data + [num]", "f'{num}'", "None", "...", "b''", "st", "frozenset(st)",
         "Point(num, data)", "decimal.Decimal(num)", "datetime.date(2020, 1, 2)", "(lambda: num)()", "[x for x in data]", "num if text else 0", "__name__", "type(inst)", "(num, num)", "Exception", "range(num)", "-num", "1j * num", "tree", "slow", "data[1]", "ast.Name", "datetime.date", "capture_value"]
BAD = ["(lambda: 1)", "locfn", "(x for x in data)", "ast", "open(__file__)", "LocalClass"]
SPECIAL = ["mcpyrate", "quotes", "pickle", "ast", "globals", "locals", "lookup_value", "lookup_macro", "R", "snap", "u", "h", "q", "tuple", "bytes", "capture_value", "global_bindings", "expander"]
NAMES = ["fn", "K", "data", "dct", "inst", "num", "text", "loc", "arg", "cell", "st", "tree", "Color", "math", "functools", "len", "item", "Exception", "slow", "type"]
FORMS = ["expr", "expr", "expr", "lambda", "block", "deco", "def", "two", "class", "call"]


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401


# ---------------------------------------------------------------- generation
def macro(rng, k):
    return {"name": f"m{k}", "form": rng.choice(FORMS), "e": rng.choice(EXPRS), "e2": rng.choice(EXPRS), "shadow": rng.choice(NAMES), "help": rng.choice([None, None, "hm", "hp", "hn", "hb", "hd", "as", "rec"]), "bad": rng.choice(BAD) if rng.random() < 0.06 else None, "after": rng.choice(["", "num += 1", "data.append(num)", "num += 1; data.append(num); dct['k'] = num; inst.a = num"])}


SCOPES = ["plain", "func", "class", "comp", "lambda", "global", "import", "del", "except", "with", "walrus", "match", "nested", "gen", "async", "loop", "nonlocal", "star", "default", "race", "method", "kwonly"]


def generate(rng, i):
    ndef = rng.choice([2, 2, 3])
    nm = rng.randint(2, 4)
    defs = []
    for d in range(ndef):
        defs.append({"num": rng.randint(1, 99), "helper": rng.randint(0, 1), "asname": rng.choice(["hm", "helper", "num", "fn"]), "macros": [macro(rng, k) for k in range(nm)]})
    uses = []
    for k in range(rng.randint(6, 14)):
        uses.append({"scope": rng.choice(SCOPES), "d": rng.randrange(ndef), "m": rng.randrange(nm), "name": rng.choice(NAMES + SPECIAL), "twice": rng.random() < 0.3})
    return {"defs": defs, "uses": uses, "user_helper": rng.choice([None, None, 0, 1]), "proc": rng.random() < 0.12, "stale": rng.choice(["use", "use", "defs", None])}


def fixed(tier):
    rng = random.Random(11)
    out = []
    # every captured expression in every form, and every scope with every name shadowed
    todo = [(e, f) for e in EXPRS for f in sorted(set(FORMS))]
    for k in range(0, len(todo), 4):
        part = todo[k:k + 4]
        ms = [dict(macro(rng, j), e=e, form=f, bad=None) for j, (e, f) in enumerate(part)]
        out.append({"defs": [{"num": 7, "helper": 0, "asname": "helper", "macros": ms}, {"num": 8, "helper": 1, "asname": "helper", "macros": ms}], "uses": [{"scope": rng.choice(SCOPES), "d": d, "m": j, "name": rng.choice(NAMES), "twice": False} for j in range(len(ms)) for d in (0, 1)], "user_helper": rng.choice([None, 0, 1]), "proc": k % 40 == 0, "stale": "use"})
    todo = [(s, n) for s in SCOPES for n in NAMES[:6] + SPECIAL]
    for k in range(0, len(todo), 12):
        ms = [dict(macro(rng, j), e=e, form="expr", bad=None) for j, e in enumerate(["data", "fn", "num", "inst"])]
        out.append({"defs": [{"num": 7, "helper": 0, "asname": "hm", "macros": ms}], "uses": [{"scope": s, "d": 0, "m": j % 4, "name": n, "twice": False} for j, (s, n) in enumerate(todo[k:k + 12])], "user_helper": None, "proc": k % 60 == 0, "stale": "use"})
    out += [{"gensym": k} for k in range(8)]
    out += [{"detect": k} for k in range(40)]
    return out


def lines(src, n):
    return ["    " * n + x for x in src]


def macro_source(m, d):
    """The macro function."""
    e, e2 = m["e"], m["e2"]
    h = d["asname"] + "_"
    cap = f"h[R](u[site], u[s1], h[{e}])"
    cap2 = f"h[R](u[site + '/2'], u[s2], h[{e2}])"
    out = [f"def {m['name']}(tree, arg=5, **kw):", "    global num", "    EXPANSIONS[0] += 1", f"    EXP11({m['name']!r})", "    loc = ['local', num]", "    def locfn(): pass", "    class LocalClass: pass", "    cell = {'cell': num}", "    def inner():", "        global num", "        nonlocal cell", "        for item in [{'item': num}]:",
           f"            s1, s2 = snap({e}), snap({e2})", f"            site = __name__ + ':{m['name']}:' + str(new({e}, {e2}))"]
    B = []
    if m["bad"]:
        B += [f"fails(lambda: q[h[{m['bad']}]], {m['bad']!r})"]
    f = m["form"]
    if f == "expr":
        B += [f"out = q[{cap}]"]
    elif f == "lambda":
        B += [f"out = q[(lambda {m['shadow']}: {cap})(5)]"]
    elif f == "call":   # without quotes
        B += [f"out = ast.Call(capture_value(R, 'R'), [ast.Constant(value=site), ast.Constant(value=s1), capture_value({e}, {e!r})], [])"]
    elif f == "two":
        B += [f"out = q[({cap}, {cap2})[0]]"]
    elif f == "block":
        B += ["with q as out:", f"    {m['shadow']} = 5", f"    {cap}", f"    {cap2}"]
    elif f == "def":
        B += ["with q as out:", f"    def made({m['shadow']}=5, *args):", f"        return {cap}", "    made()"]
    elif f == "class":
        B += ["with q as out:", "    class Made:", f"        {m['shadow']} = 5", f"        att = {cap}"]
    elif f == "deco":
        B += ["with q as out:", f"    @(lambda f: ({cap}, f)[1])", "    def made():", f"        return {cap2}", "    made()"]
    B += [f"detect(out, {name_of(e)!r}, s1)"]
    x = m["help"]
    if x == "hm":
        B += [f"extra = q[h[M](u[\"tuple(str 'mcpv11_h{d['helper']}.hm',int 1)\"], h[{h}hm][1])]"]
    elif x == "hp":
        B += [f"extra = q[h[M](u[\"tuple(str 'mcpv11_h{d['helper']}.hp',int 3,int 1)\"], h[{h}hp][3][1])]"]
    elif x == "hn":
        B += [f"extra = q[h[M](u[\"str 'mcpv11_h{d['helper']}.hn'\"], h[{h}hn])]"]
    elif x == "as":
        B += ["from mcpv11_h%d import hm as thefunction" % d["helper"], f"extra = q[h[M](u[\"tuple(str 'mcpv11_h{d['helper']}.hm',int 2)\"], a[capture_as_macro(thefunction)][2])]"]
    elif x == "rec":
        B += ["extra = q[h[M](u[\"tuple(str 'end of \" + __name__ + \"',int 2)\"], a[our_rec][2])]"]
    elif x == "hb":
        B += ["with q as extra:", f"    with h[{h}hb]:", f"        h[M](u[\"str 'mcpv11_h{d['helper']}.hb'\"], blk)"]
    elif x == "hd":
        B += ["with q as extra:", f"    @h[{h}hd]", "    def decorated(): return 5", f"    h[M](u[\"str 'mcpv11_h{d['helper']}.hd'\"], decorated())"]
    else:
        B += ["extra = None"]
    if m["after"]:
        B += [m["after"]]
    B += ["return finish(out, extra, tree)"]
    return out + lines(B, 3) + ["    return inner()"]


def name_of(e):
    import ast
    from mcpyrate import unparse
    return unparse(ast.parse(e, mode="eval").body)


REC = r'''
def rec(tree, **kw):
    if tree.value == 0:
        return q[(u["end of " + __name__], 2)]
    return q[a[our_rec][u[tree.value - 1]]]
our_rec = capture_as_macro(rec)
def finish(out, extra, tree):
    """Return a block for block macros, or an expression otherwise."""
    isblock = isinstance(tree, list)
    body = out if isinstance(out, list) else [ast.Expr(value=out)]
    if extra is not None:
        body = body + (extra if isinstance(extra, list) else [ast.Expr(value=extra)])
    if isblock:
        return body
    return out
'''


def def_source(k, d):
    h = d["asname"] + "_"
    imports = f"from mcpv11_h{d['helper']} import macros, " + ", ".join(f"{x} as {h}{x}" for x in ("hm", "hp", "hn", "hb", "hd"))
    src = DEFS.format(imports=imports, num=d["num"], macros=REC + "\n".join("\n".join(macro_source(m, d)) for m in d["macros"]))
    return src


def isblock(m):
    return m["form"] in ("block", "def", "class", "deco") or m["help"] is not None


def use_source(case):
    out = []
    for k in range(len(case["defs"])):
        out.append(f"from mcpv11_d{k} import macros, " + ", ".join(f"m{j} as d{k}m{j}" for j in range(len(case["defs"][k]["macros"]))))
    if case["user_helper"] is not None:
        out.append(f"from mcpv11_h{case['user_helper']} import macros, hm, hm as helper_hm, hm as hm_hm, hm as num_hm, hm as fn_hm")
        for x in ("hm", "helper_hm"):
            out.append(f"U11(('mcpv11_h{case['user_helper']}.hm', 4), {x}[4])")
    else:
        out.append("hm = helper_hm = hm_hm = num_hm = fn_hm = {4: 'mine'}\nU11('mine', helper_hm[4])")
    for i, u in enumerate(case["uses"]):
        m = case["defs"][u["d"]]["macros"][u["m"]]
        mac = f"d{u['d']}m{u['m']}"
        n = u["name"]
        if isblock(m):
            # statements that activate the capture
            act = [f"with {mac}:", f"    {n}"]
            val = "None"
        else:
            act = [f"{mac}[{n}]"]
            val = f"{mac}[{n}]"
        s, F = u["scope"], f"f{i}"
        twice = ["    pass"] if not u["twice"] else act
        if s == "func":
            src = [f"def {F}({n}):", *lines(act, 1), *lines([x for x in twice if u["twice"]], 1), f"{F}(1)", f"{F}(2)"]
        elif s == "class":
            src = [f"class {F}:", f"    {n} = 5", *lines(act, 1)]
        elif s == "comp" and val != "None":
            src = [f"[{val} for {n} in (1, 2, 3)]", f"{{{n}: {val} for {n} in (1, 2)}}"]
        elif s == "lambda" and val != "None":
            src = [f"(lambda {n}: {val})(5)", f"{F} = lambda {n}=3: {val}", f"{F}()", f"{F}()"]
        elif s == "global":
            src = [f"def {F}():", f"    global {n}", f"    {n} = 5", *lines(act, 1), f"    del {n}", f"{F}()", f"{F}()"]
        elif s == "import":
            src = [f"def {F}():", f"    import os.path as {n}", *lines(act, 1), f"{F}()"]
        elif s == "del":
            src = [f"{n} = 5", *act, f"del {n}"]
        elif s == "except":
            src = ["try:", "    1 / 0", f"except ZeroDivisionError as {n}:", *lines(act, 1)]
        elif s == "with":
            src = ["import contextlib as ctx_", f"with ctx_.nullcontext(5) as {n}:", *lines(act, 1), f"del {n}"]
        elif s == "walrus" and val != "None":
            src = [f"def {F}():", f"    return ({n} := 5, {val})", f"{F}()"]
        elif s == "match":
            src = [f"def {F}():", "    match 5:", f"        case {n}:", *lines(act, 3), f"{F}()", f"{F}()"]
        elif s == "nested":
            assigned = [f"        nonlocal {n}"] if m["form"] == "block" and m["shadow"] == n else []   # (the macro assigns to it)
            src = [f"def {F}({n}):", "    def inner():", *assigned, f"        {n}", *lines(act, 2), "    inner()", "    inner()", f"{F}(5)"]
        elif s == "nonlocal":
            src = [f"def {F}({n}):", "    def inner():", f"        nonlocal {n}", f"        {n} = 7", *lines(act, 2), "    inner()", f"{F}(5)"]
        elif s == "gen":
            src = [f"def {F}({n}):", "    yield 1", *lines(act, 1), "    yield 2", f"list({F}(5))", f"list({F}(6))"]
        elif s == "async":
            src = ["import asyncio as aio_", f"async def {F}({n}):", *lines(act, 1), f"    await aio_.sleep(0)", *lines(act if u["twice"] else ["pass"], 1), f"aio_.run({F}(5))"]
        elif s == "loop":
            src = [f"for {n} in (1, 2, 3):", *lines(act, 1), f"del {n}"]
        elif s == "star":
            src = [f"def {F}(*{n}):", *lines(act, 1), f"{F}(1, 2)"]
        elif s == "kwonly":
            src = [f"def {F}(*, {n}, **zz):", *lines(act, 1), f"{F}({n}=1)"]
        elif s == "default" and val != "None":
            src = [f"{n} = 5", f"def {F}(x={val}):", "    return x", f"{F}() is {F}() or 1/0", f"del {n}"]
        elif s == "method":
            src = [f"class {F}:", f"    def me(self, {n}):", f"        self.__{n} = 5", *lines(act, 2), f"{F}().me(1)", f"{F}().me(2)"]
        elif s == "race" and val != "None":
            src = [f"def {F}({n}=5):", f"    return {val}", f"RACE11({F})"]
        else:
            src = [f"{n} = 3", *act, f"del {n}"]
        out += src
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- running
MAIN = r'''
import sys, json, os
sys.path.insert(0, sys.argv[1])
import mcpyrate.activate
import mcpv11_rt as rt
err = None
try:
    import mcpv11_use
except BaseException as e:
    import traceback
    err = traceback.format_exc()
print("RESULT" + json.dumps([rt.PROBLEMS, rt.COUNT, rt.EXPANDED, err]))
'''


def purge():
    for k in [k for k in sys.modules if k.startswith("mcpv11_")]:
        del sys.modules[k]


def observe_inprocess(top):
    purge()
    importlib.invalidate_caches()
    rt = importlib.import_module("mcpv11_rt")
    err = None
    try:
        importlib.import_module("mcpv11_use")
    except Exception:
        import traceback
        err = traceback.format_exc()
    return [list(rt.PROBLEMS), dict(rt.COUNT), list(rt.EXPANDED), err]


def observe_process(top):
    p = fw.run_py([os.path.join(top, "main.py"), top], cwd=top, env=fw.child_env(top))
    for line in p.out.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    raise fw.Inconclusive(f"child failed: {p.rc} {p.err[-500:]}")


def touch(path, dt):
    """Relative to now: staleness goes by the newest of a file's sources, which includes mcpyrate's own."""
    t = time.time() + dt
    os.utime(path, (t, t))


def judge(case, obs):
    if "gensym" in case:
        return gensyms(case["gensym"], obs)
    if "detect" in case:
        return detects(case["detect"], obs)
    top = tempfile.mkdtemp(dir=fw.SCRATCH)
    old = sys.dont_write_bytecode, sys.pycache_prefix
    try:
        files = {"mcpv11_rt.py": RT, "main.py": MAIN, "mcpv11_use.py": use_source(case)}
        for k in (0, 1):
            files[f"mcpv11_h{k}.py"] = HELPER.replace("{me}", f"mcpv11_h{k}").replace("{me!r}", f"'mcpv11_h{k}'")
        for k, d in enumerate(case["defs"]):
            files[f"mcpv11_d{k}.py"] = def_source(k, d)
        for f, t in files.items():
            p = os.path.join(top, f)
            with open(p, "w") as fh:
                fh.write(t)
            touch(p, -1000)
        sys.path.insert(0, top)
        sys.dont_write_bytecode = False
        sys.pycache_prefix = None
        observe = observe_process if case["proc"] else observe_inprocess
        text = lambda: files["mcpv11_use.py"] + "\n" + "\n".join(f"# d{k}: " + "; ".join(f"{m['name']}: {m['form']} h[{m['e']}] {m['e2']} help={m['help']}" for m in d["macros"]) for k, d in enumerate(case["defs"]))   # noqa: E731
        rounds = ["fresh", "bytecode"] + ([case["stale"]] if case["stale"] else [])
        for r in rounds:
            if r == "use":
                touch(os.path.join(top, "mcpv11_use.py"), 1000)
            elif r == "defs":
                for k in range(len(case["defs"])):
                    touch(os.path.join(top, f"mcpv11_d{k}.py"), 2000)
            problems, counts, expanded, err = observe(top)
            expect(err is None, "error", lambda: f"{r}: {err}\n{text()}")
            expect(not problems, "capture", lambda: f"{r}: " + "\n".join(problems[:6]) + "\n" + text())
            expect(bool(expanded) == (r != "bytecode"), "expansions", lambda: f"{r}: macros expanded: {expanded}")
            for k, n in counts.items():
                obs.count(k, n)
            if r == "bytecode":
                obs.count("from bytecode", counts.get("activations", 0))
            elif r != "fresh":
                obs.count("re-expanded", counts.get("activations", 0))
            if case["proc"]:
                obs.count("processes")
        obs.count("projects")
        return fw.hash_(text())
    finally:
        sys.dont_write_bytecode, sys.pycache_prefix = old
        if top in sys.path:
            sys.path.remove(top)
        sys.path_importer_cache.clear()
        purge()
        shutil.rmtree(top)


def gensyms(k, obs):
    """Unique names are unique: between threads, forked processes, and whatever the random seed."""
    import keyword
    from mcpyrate import gensym
    from mcpyrate.utils import scrub_uuid
    seen = set()

    def add(names):
        for n in names:
            expect(n not in seen, "gensym-collision", lambda: f"gensym returned {n} twice")
            seen.add(n)
    bases = [None, "x", "", "_", "ä", "class", "x_y", "a" * 200, "λ", "x_" + "0" * 32]
    outs = [[] for _ in range(8)]

    def work(out):
        for j in range(400):
            random.seed(k)
            out.append(gensym(bases[j % len(bases)]))
    ts = [threading.Thread(target=work, args=(o,)) for o in outs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for o in outs:
        add(o)
    for base in bases[:9]:
        n = gensym(base)
        add([n])
        expect(base == "" or n.isidentifier() and not keyword.iskeyword(n), "gensym-identifier", n)
        expect(base in (None, "") or n.startswith(base) and scrub_uuid(n) == base, "gensym-basename", lambda: f"{base} {n} {scrub_uuid(n)}")
    for j in range(2):
        r, w = os.pipe()
        random.seed(5)
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, "\n".join(gensym("f") for _ in range(300)).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            add(f.read().split())
        os.waitpid(pid, 0)
    for j in range(2):
        p = fw.run_py(["-c", "import random; random.seed(5)\nfrom mcpyrate import gensym\nprint('\\n'.join(gensym('f') for _ in range(300)))"], cwd=fw.SCRATCH, env=fw.child_env(fw.SCRATCH))
        expect(p.rc == 0, "gensym-process", p.err)
        add(p.out.split())
    for bad in (5, b"x", ["x"]):
        try:
            gensym(bad)
        except TypeError:
            continue
        expect(False, "gensym-type", repr(bad))
    obs.count("gensyms", len(seen))
    return None


LIKE = ["foo.quotes.lookup_value(('x', b'x'))", "quotes.lookup_value(('x', b'y'))", "lookup_value(('x', b'y'))", "mcpyrate.quotes.other(('x', b'y'))", "mcpyrate.capture_value(x, 'x')", "__import__('other.quotes', None, None, (), 0).quotes.lookup_value(('x', b'y'))", "mcpyrate.quotes.lookup_value",
        "f('mcpyrate.quotes', None, None, (), 0).quotes.capture_value(x, 'x')", "mcpyrate.quotes", "capture_value(x, 'x')", "foo.lookup_macro(('a', 'b', b'c'))", "x.quotes.lookup_macro(('a', 'b', b'c'))", "(1, 2)", "'mcpyrate.quotes.lookup_value'", "mcpyrate.quote.lookup_value(('x', b'y'))"]
VALUES = ["fn", "len", "mm.attr", "fn(1)", "1 + 2", "[1, 'a']", "x", "type", "'text'"]


def detects(k, obs):
    """Captures, once made, are recognized as such, with the right names, and nothing else is."""
    from mcpyrate import compiler, core, quotes, unparse
    from mcpyrate.expander import MacroExpander
    rng = random.Random(k)
    vals = [rng.choice(VALUES) for _ in range(rng.randint(1, 4))]
    macs = [rng.choice(["ma", "mb", "mn"]) for _ in range(rng.randint(0, 3))]
    like = [rng.choice(LIKE) for _ in range(rng.randint(0, 4))]
    md = types.ModuleType("mcpv11_det")
    exec("from mcpyrate import namemacro\ndef fa(tree, **kw): return tree\ndef fb(tree, **kw): return tree\n@namemacro\ndef fn_(tree, **kw): return tree\n", md.__dict__)
    sys.modules["mcpv11_det"] = md
    try:
        items = [f"HH[{v}]" for v in vals] + [f"HH[{m}][0]" if m != "mn" else "HH[mn]" for m in macs] + like
        rng.shuffle(items)
        head = "from mcpyrate.quotes import macros, q as QQ, h as HH\nfrom mcpv11_det import macros, fa as ma, fb as mb, fn_ as mn\n"
        form = rng.choice(["z = QQ[[{}]]", "with QQ as z:\n    ({},)", "def f():\n    return QQ[({},)]", "with QQ as z:\n    @deco({})\n    def g(x=1): pass", "z = QQ[lambda: g({})]"])
        src = head + form.format(", ".join(items)) + "\n"
        tree = compiler.expand(src, filename="<detect>")
        gotv, gotm = [], []
        for node in ast.walk(tree):
            v, m = quotes.is_captured_value(node), quotes.is_captured_macro(node)
            expect(not (v and m), "detect", lambda: f"{src}\n{ast.dump(node)}: both")
            expect(type(v) is tuple or v is False, "detect", lambda: f"is_captured_value gives {v!r}")
            if v:
                gotv.append(v)
            if m:
                gotm.append(m)
        # (lookalikes are quoted, so they are not there as code, and the values are not captured yet)
        expect(sorted(gotv) == sorted((unparse(ast.parse(v, mode="eval").body), None) for v in vals), "detect-values", lambda: f"{src}\n{gotv}")
        names = {"ma": md.fa, "mb": md.fb, "mn": md.fn_}
        expect(sorted(m[0] for m in gotm) == sorted(macs), "detect-macros", lambda: f"{src}\n{gotm}")
        for m in gotm:
            expect(type(m) is tuple and len(m) == 3 and re.fullmatch(re.escape(m[0]) + "_[0-9a-f]{32}", m[1]) and isinstance(m[2], bytes), "detect-macros", lambda: f"{src}\n{m!r}")
            node = quotes.lookup_macro(m)
            expect(isinstance(node, ast.Name) and node.id == m[1], "detect-macro-name", lambda: f"{src}\nlookup_macro gives {ast.dump(node)}")
            expect(MacroExpander({}, "<x>").isbound(node.id) is names[m[0]], "detect-macro-object", lambda: f"{src}\n{m[0]} is bound to {MacroExpander({}, '<x>').isbound(node.id)}")
            obs.count("captured macros recognized")
        for v in gotv:
            try:
                r = quotes.lookup_value(v)
            except ValueError:
                continue
            expect(False, "detect-not-captured", lambda: f"lookup_value({v}) gives {r!r}")
        # the lookalikes as code
        for x in like:
            for node in ast.walk(ast.parse(x)):
                expect(quotes.is_captured_value(node) is False and quotes.is_captured_macro(node) is False, "detect-lookalike", lambda: f"{x}: {ast.dump(node)}")
        # in debug notation, captures are shown by name
        text = unparse(tree, debug=True)
        for v in gotv:
            expect("$h[" + v[0] + "]" in text, "detect-rendering", lambda: f"{src}\n{v}\n{text}")
        for m in gotm:
            expect("$h[" + m[0] + "]" in text and m[1] not in text, "detect-rendering", lambda: f"{src}\n{m}\n{text}")
        # at run time, the values are captured
        ns = {"fn": int, "mm": types.SimpleNamespace(attr=5), "x": 9, "__name__": "detect"}
        if "f():" not in form:
            exec(compile(tree, "<detect>", "exec"), ns)
            z = ns["z"]
            found, unique = [], []
            for root in (z if isinstance(z, list) else [z]):
                for node in ast.walk(root):
                    c = quotes.is_captured_value(node)
                    if c:
                        found.append(c)
                    expect(quotes.is_captured_macro(node) is False, "detect-macro-left", lambda: f"{src}\n{ast.dump(node)}")
                    if isinstance(node, ast.Name) and re.search("_[0-9a-f]{32}$", node.id):
                        unique.append(node.id)
            expect(sorted(n for n, _ in found) == sorted(n for n, _ in gotv), "detect-runtime-values", lambda: f"{src}\n{[n for n, _ in found]}")
            expect(sorted(unique) == sorted(m[1] for m in gotm), "detect-runtime-macros", lambda: f"{src}\n{unique} {gotm}")
            for c in found:
                expect(isinstance(c[1], bytes), "detect-runtime-values", lambda: f"{src}\n{c!r}")
                want = eval(c[0], {"fn": int, "mm": ns["mm"], "x": 9})
                got = quotes.lookup_value(c)
                expect(got == want if not callable(want) or want in (int, len, type) else got() == want(), "detect-runtime-values", lambda: f"{src}\n{c!r}: {got!r}, expected {want!r}")
                obs.count("captured values recognized")
    finally:
        del sys.modules["mcpv11_det"]
    return fw.hash_(src)
