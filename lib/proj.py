"""Random macro-enabled projects on disk: modules and packages that define and use each other's macros and dialects.

A project is a plain JSON-able dict {"mods": {name: spec}, "order": [names, dependencies first]}; spec keys:
  pkg     bool: a package (`__init__.py`)
  v       int: version, part of everything the module's macros and dialects produce
  deps    list of [target, form, kinds]: macro-imports; form "abs" | "rel"; kinds: list of macro letters, possibly "x*" for an as-name
  dial    list of [target, form, kind]: dialect-imports; kind "A" (AST) | "S" (source) | "P" (postprocessor)
  phase   None or [n, target, form]: multi-phase; phase n macro-imports from target
  reg     list of [target, form]: regular imports
  opt     rendering options
"""
import importlib
import os
import re
import shutil
import sys

CNT = '''import ast
import zlib
n = 0
def digest(x):
    return zlib.crc32(repr(x).encode())
def lit(x):
    global n
    n += 1
    return ast.parse(repr(x), mode="eval").body
def stmt(name, x):
    global n
    n += 1
    return ast.parse(f"{name} = {x!r}").body[0]
def text(x):
    global n
    n += 1
    return repr(x)
'''
KINDS = ["m", "b", "h", "u", "d", "n"]   # expression, block, hygienic-capture, unquote, decorator, name


def leaf(name):
    return name.rsplit(".", 1)[-1]


def relname(mods, src, dst):
    """`dst` as a relative module name for an import statement in `src`, or None."""
    base = src if mods[src]["pkg"] else src.rpartition(".")[0]
    if not base:
        return None
    level = 1
    while True:
        if dst.startswith(base + "."):
            return "." * level + dst[len(base) + 1:]
        base = base.rpartition(".")[0]
        level += 1
        if not base:
            return None


def imp(mods, src, dst, form):
    return (form == "rel" and relname(mods, src, dst)) or dst


def needs_src(spec):
    return any(k == "S" for _, _, k in spec["dial"])


def render(p, name):
    mods, s = p["mods"], p["mods"][name]
    me, o = leaf(name), s["opt"]
    L = [f'"""Module {me}."""'] if o.get("doc") else []
    if o.get("future"):
        L.append("from __future__ import annotations")
    for t, form, kind in s["dial"]:
        L.append(f"from {imp(mods, name, t, form)} import dialects, {kind}_{leaf(t)}")
    if s["phase"]:
        L.append("from mcpyrate.multiphase import macros, phase")
    if set("buh") & set(s["offer"]):
        L.append("from mcpyrate.quotes import macros, q as QQ, u as UU, a as AA, h as HH")
    if set("ASP") & set(s["offer"]):
        L.append("from mcpyrate.dialects import Dialect")
    L += ["import ast", "import mcpv_cnt"]
    L += [f"V = {s['v']}", "out = []"]
    if s["phase"]:
        n, t, form = s["phase"]
        L += [f"with phase[{n}]:", f"    from {imp(mods, name, t, form)} import macros, m_{leaf(t)} as pz", "    import mcpv_cnt", "    PK = pz[4]", f"    def loc(tree, **kw):\n        return mcpv_cnt.lit(('loc', PK, {s['v']}))"]
        for k in range(n - 1, 0, -1):
            L += [f"with phase[{k}]:", "    from __self__ import macros, loc", f"    PK{k} = loc[{k}]", f"    def loc{k}(tree, **kw):\n        return mcpv_cnt.lit(('loc{k}', PK{k}))"]
        last = "loc1" if n > 1 else "loc"
        L += [f"from {name if o.get('absself') else '__self__'} import macros, {last} as self_macro", "out.append(self_macro[0])"]
    for t, form in s["reg"]:
        r = imp(mods, name, t, form)
        if r.startswith("."):
            base, _, tail = r.rpartition(".")
            dots = r[:len(r) - len(r.lstrip("."))]
            L.append(f"from {dots if r.count('.') == len(dots) else base} import {tail} as reg_{leaf(t)}")
        else:
            L.append(f"import {r} as reg_{leaf(t)}")
    h = None
    for j, (t, form, kinds) in enumerate(s["deps"]):
        names = []
        uses = []
        for k in kinds:
            nm = f"{k[0]}_{leaf(t)}"
            al = f"al{j}_{k[0]}" if k.endswith("*") else nm
            names.append(nm + (f" as {al}" if al != nm else ""))
            k = k[0]
            if k in "mhu":
                uses.append(f"out.append({al}[{j} + 1])")
            elif k == "b":
                uses.append(f"with {al}:\n    out.append('in {j}')")
            elif k == "d":
                uses.append(f"@{al}\ndef deco{j}():\n    return ('undecorated', {j})\nout.append(deco{j}())")
            else:
                uses.append(f"out.append({al})")
            if k == "m":
                h = al
        if o.get("paren") and not needs_src(s):
            L.append(f"from {imp(mods, name, t, form)} import (macros,\n    {', '.join(names)})")
        else:
            L.append(f"from {imp(mods, name, t, form)} import macros, {', '.join(names)}")
        L += uses
    if needs_src(s):
        L.append("out.append(@@SRC@@)")
    if any(k == "A" for _, _, k in s["dial"]):
        L.append("out.append(DLA)")
    L.append("RR = tuple(out)\nR = mcpv_cnt.digest(RR)")
    # macro and dialect definitions
    tag = repr(name)
    L0, L = L, []
    L += [f"def m_{me}(tree, **kw):\n    new = mcpv_cnt.lit(('m', {tag}, V, R))\n    new.elts.append(tree)\n    return new",
          f"def b_{me}(tree, **kw):\n    return [mcpv_cnt.stmt('blk', ('b', {tag}, V, R)), ast.Expr(value=QQ[out.append(blk)]), *tree]" if not o.get("bq") else
          f"def b_{me}(tree, **kw):\n    with QQ as quoted:\n        out.append(('b', {tag}, UU[V], UU[R]))\n    mcpv_cnt.n += 1\n    return quoted + tree",
          f"def u_{me}(tree, **kw):\n    mcpv_cnt.n += 1\n    return QQ[('u', {tag}, UU[V], UU[R], AA[tree])]",
          f"def d_{me}(tree, **kw):\n    tree.body = [ast.Return(value=mcpv_cnt.lit(('d', {tag}, V, R)))]\n    return tree",
          f"def n_{me}(tree, *, syntax, **kw):\n    return mcpv_cnt.lit(('n', {tag}, V, R))\nn_{me} = __import__('mcpyrate').namemacro(n_{me})"]
    if h:
        L.append(f"def h_{me}(tree, **kw):\n    mcpv_cnt.n += 1\n    return QQ[('h', {tag}, UU[V], HH[{h}][AA[tree]], HH[R])]")
    else:
        L.append(f"def h_{me}(tree, **kw):\n    mcpv_cnt.n += 1\n    return QQ[('h', {tag}, UU[V], HH[R], AA[tree])]")
    inj = ""
    if o.get("inject") and s["deps"]:
        t = s["deps"][0][0]
        inj = f"        tree.body[k:k] = ast.parse('from {t} import macros, m_{leaf(t)} as inj_{me}\\nDLI = inj_{me}[9]').body\n"
    L += [f"class A_{me}(Dialect):\n    def transform_ast(self, tree):\n        k = next(i for i, x in enumerate(tree.body) if isinstance(x, ast.Assign))\n        tree.body.insert(k, mcpv_cnt.stmt('DLA', ('A', {tag}, V, R)))\n{inj}        return tree",
          f"class S_{me}(Dialect):\n    def transform_source(self, text):\n        new = mcpv_cnt.text(('S', {tag}, V, R))\n        return text.replace('@@' + 'SRC' + '@@', new)",
          f"class P_{me}(Dialect):\n    def postprocess_ast(self, tree):\n        tree.body.append(mcpv_cnt.stmt('DLP', ('P', {tag}, V, R)))\n        return tree"]
    L = L0 + [x for x in L if re.match(r"(?:def|class) (\w)_", x).group(1) in s["offer"]]
    L.append("res = lambda: (__name__, V, RR, globals().get('DLA'), globals().get('DLI'), globals().get('DLP'), __doc__" + "".join(f", reg_{leaf(t)}.V" for t, _ in s["reg"]) + ")")
    return "\n".join(L) + "\n"


def path_of(p, root, name):
    rel = name.replace(".", os.sep)
    return os.path.join(root, rel, "__init__.py") if p["mods"][name]["pkg"] else os.path.join(root, rel + ".py")


def write(p, root, mtimes, only=None):
    """Write (the modules `only` of) the project; `mtimes`: {name: mtime in ns}."""
    for name in p["order"]:
        if only is not None and name not in only:
            continue
        f = path_of(p, root, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        other = os.path.join(root, name.replace(".", os.sep)) + (".py" if p["mods"][name]["pkg"] else "/__init__.py")
        if os.path.exists(other):
            os.unlink(other)
        with open(f, "w") as fh:
            fh.write(render(p, name))
        os.utime(f, ns=(mtimes[name], mtimes[name]))


LAYOUTS = [["{}a", "{}b", "{}c", "{}d"], ["{}P!", "{}P.x", "{}P.y", "{}a"], ["{}P!", "{}P.S!", "{}P.S.x", "{}P.y", "{}a"], ["{}N.x", "{}N.y", "{}a", "{}b"], ["{}a", "{}P!", "{}P.S!", "{}P.S.x", "{}P.S.y", "{}P.z", "{}b"],
           ["{}N.S!", "{}N.S.x", "{}N.S.y", "{}N.z", "{}c"], ["{}P!", "{}P.S!", "{}P.S.T!", "{}P.S.T.x", "{}P.S.y", "{}P.z", "{}w"], ["{}a", "{}b", "{}c", "{}d", "{}e", "{}f"]]


def random_project(rng, prefix="mv", rich=True):
    names = [x.format(prefix) for x in rng.choice(LAYOUTS)]
    pk = {x.rstrip("!") for x in names if x.endswith("!")}
    names = [x.rstrip("!") for x in names]
    left, order = list(names), []
    leafs = [n for n in names if n not in pk and n.rpartition(".")[0] in pk and rng.random() < 0.3]   # used by their own packages
    while left:   # parent packages first, except before such a leaf
        n = rng.choice([x for x in left if x in leafs or not any(x.startswith(y + ".") for y in left)])
        left.remove(n)
        order.append(n)
    p = {"mods": {n: dict(pkg=n in pk, v=rng.randint(0, 9), deps=[], dial=[], phase=None, reg=[], opt={}, offer=offer(rng), leaf=n in leafs) for n in names}, "order": order}
    for n in order:
        redo(rng, p, n, rich)
    return p


def offer(rng):
    return "m" + "".join(rng.sample("bhudn", rng.choice([0, 1, 1, 2, 3]))) + "".join(rng.sample("ASP", rng.choice([0, 1, 1, 2])))


def lower(p, n):
    """Modules `n` may depend on: earlier in the order, and not importing `n` implicitly (as one of their parent packages does)."""
    if p["mods"][n]["leaf"]:
        return []
    out = p["order"][:p["order"].index(n)]
    # importing t must not need a package that is itself not complete when n is expanded, unless t is a leaf of it
    return [t for t in out if p["mods"][t]["leaf"] and all(n == a or n.startswith(a + ".") or a in out for a in parents(p, t)) or all(a in out for a in parents(p, t))]


def parents(p, n):
    return [a for a in p["mods"] if n.startswith(a + ".")]


def some(rng, p, t, kinds=KINDS, n=None):
    has = [k for k in p["mods"][t]["offer"] if k in kinds]
    return rng.sample(has, min(len(has), n or rng.choice([1, 1, 2, 4])))


def redo(rng, p, n, rich=True):
    """Random dependencies for module n. A module's parent packages are imported before it: no dependency that needs n itself half-way."""
    s = p["mods"][n]
    cand = lower(p, n)
    forms = ["abs", "rel", "rel"]
    s["deps"], s["dial"], s["reg"], s["phase"] = [], [], [], None
    if cand:
        for t in rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2, 3]))):
            s["deps"].append([t, rng.choice(forms), [k + rng.choice(["", "", "*"]) for k in some(rng, p, t)]])
        if rng.random() < 0.3:
            for kinds in ("ASP", "AP")[:rng.choice([1, 1, 2])]:
                t = rng.choice(cand)
                s["dial"] += [[t, rng.choice(forms), k] for k in some(rng, p, t, kinds, 1)]
        if rng.random() < 0.25 and not needs_src(s):
            s["phase"] = [rng.choice([1, 1, 2]), rng.choice(cand), rng.choice(forms)]
        if rng.random() < 0.3:
            s["reg"].append([rng.choice(cand), rng.choice(forms)])
    dl = {(t, k) for t, _, k in s["dial"]}
    s["dial"] = [d for i, d in enumerate(s["dial"]) if [(x[0], x[2]) for x in s["dial"]].index((d[0], d[2])) == i]
    s["opt"] = {k: True for k in ("doc", "future", "paren", "bq", "inject", "absself") if rng.random() < 0.3}
    return dl


def edit(rng, p):
    """Change the project in place; returns the set of modules whose files changed."""
    mods = p["mods"]
    n = rng.choice(p["order"])
    s = mods[n]
    cand = lower(p, n)
    k = rng.choice(["v", "v", "v", "touch", "add", "drop", "retarget", "form", "dial", "dialdrop", "phase", "redo", "pkg", "opt"])
    if k == "v":
        s["v"] += 1
    elif k == "add" and cand:
        t = rng.choice(cand)
        s["deps"].insert(rng.randint(0, len(s["deps"])), [t, rng.choice(["abs", "rel"]), some(rng, p, t)])
    elif k == "drop" and s["deps"]:
        s["deps"].pop(rng.randrange(len(s["deps"])))
    elif k == "retarget" and s["deps"]:
        d, t = rng.choice(s["deps"]), rng.choice(cand)
        d[0], d[2] = t, some(rng, p, t)
    elif k == "form" and s["deps"]:
        d = rng.choice(s["deps"])
        d[1] = "abs" if d[1] == "rel" else "rel"
    elif k == "dial" and cand:
        t = rng.choice(cand)
        s["dial"] = [[t, rng.choice(["abs", "rel"]), k] for k in some(rng, p, t, "AP" if s["phase"] else "ASP", 1)]
    elif k == "dialdrop":
        s["dial"] = []
    elif k == "phase" and cand and not needs_src(s):
        s["phase"] = None if s["phase"] and rng.random() < 0.5 else [rng.choice([1, 2]), rng.choice(cand), rng.choice(["abs", "rel"])]
    elif k == "redo":
        redo(rng, p, n)
    elif k == "pkg" and not any(x.startswith(n + ".") for x in mods):
        s["pkg"] = not s["pkg"]
    elif k == "opt":
        o = rng.choice(["doc", "future", "paren", "bq", "inject", "absself"])
        s["opt"][o] = not s["opt"].get(o)
    elif k != "touch":
        s["v"] += 1
    return n, k


# ---------------------------------------------------------------- importing
def purge(p):
    tops = {n.split(".")[0] for n in p["mods"]}
    for m in [m for m in sys.modules if m.split(".")[0] in tops]:
        del sys.modules[m]
    importlib.invalidate_caches()


def snapshot(p, root, names, prefix, write_bytecode=True, keep=False):
    """Import `names` as a new process would, with the bytecode cache in `prefix`; -> ({name: result or error}, number of macro/dialect calls)."""
    import mcpv_cnt
    old = sys.pycache_prefix, sys.dont_write_bytecode
    purge(p)
    sys.path.insert(0, root)
    sys.pycache_prefix, sys.dont_write_bytecode = prefix, not write_bytecode
    n0 = mcpv_cnt.n
    out = {}
    try:
        for name in names:
            try:
                m = importlib.import_module(name)
                out[name] = repr(m.res())
            except Exception as e:
                out[name] = describe(e)
    finally:
        sys.path.remove(root)
        sys.pycache_prefix, sys.dont_write_bytecode = old
        if not keep:
            purge(p)
            for m in [k for k in sys.path_importer_cache if k.startswith(root)]:
                del sys.path_importer_cache[m]
    return out, mcpv_cnt.n - n0


def describe(e):
    c = []
    while e is not None and len(c) < 6:
        c.append(f"{type(e).__name__}: {str(e)[:300]}")
        e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
    return "ERROR " + " <- ".join(c)


def install_counter(directory=None):
    import types
    if directory:
        os.makedirs(directory, exist_ok=True)
        with open(os.path.join(directory, "mcpv_cnt.py"), "w") as f:
            f.write(CNT)
        return
    m = types.ModuleType("mcpv_cnt")
    exec(CNT, m.__dict__)
    sys.modules["mcpv_cnt"] = m


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)
