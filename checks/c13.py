"""C13: cache files speed up imports but can never change or break them."""
import copy
import json
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback

import fw
import proj
from fw import brief, expect

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "random projects are imported with the real hooks; the monitor counts macro and dialect calls, compares values with imports without caches, and injects faults into the bytecode and dependency caches between and, from other processes with delays injected at every cache access, during the imports"
LEVEL_NOTE = "Damage to a bytecode file stays within what Python's own importer detects (header); dependency caches are damaged arbitrarily, except for forged contents that are complete and well-formed."
RULE = "Random projects of 4-6 modules; every kind of fault on random subsets of the cache files, singly and combined, before and after edits; 2-4 concurrent importers with random delays while a vandal process damages cache files. Non-trivial: at least one fault or a cached re-import; distinct by project and faults."
QUICK = dict(n=4000, secs=15)
THOROUGH = dict(n=60000, secs=300)
MIN = {"imports": 200, "modules compared": 800, "cached re-imports": 60, "faults": 300, "concurrent importers": 60, "no-write imports": 8}
ASSUMPTIONS = ["Python itself does not detect a damaged bytecode file whose header is intact"]

PICKLE_FAULTS = ["delete", "empty", "trunc", "garbage", "tail", "none", "list", "emptydict", "nokey-macroimports", "nokey-dialectimports", "nokey-has_relative_macroimports", "nokey-st_mtime_ns", "null-macroimports", "null-dialectimports", "ints", "strs", "dir", "dangling", "loop", "unknown-class", "str-mtime", "old", "unreadable", "stmts"]
PYC_FAULTS = ["delete", "empty", "short", "magic", "garbage-head", "flags", "dir", "dangling", "loop", "unreadable", "old"]


def setup(scratch):
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    proj.install_counter()
    os.chmod(scratch, 0o755)


def shard_setup(scratch):
    os.chmod(scratch, 0o755)


# ---------------------------------------------------------------- generation
def generate(rng, i):
    p = proj.random_project(rng)
    kind = rng.choice(["faults", "faults", "faults", "edit-faults", "edit-faults", "race", "nowrite", "readonly"])
    case = {"p": p, "kind": kind, "seed": rng.randrange(10**9), "prefix": rng.random() < 0.5, "names": rng.sample(p["order"], len(p["order"]))}
    if kind in ("faults", "edit-faults"):
        case["faults"] = [[rng.randrange(100), rng.choice(["pickle", "pickle", "pyc"]), None, rng.randrange(10**6)] for _ in range(rng.choice([1, 1, 2, 5, 12]))]
        for f in case["faults"]:
            f[2] = rng.choice(PICKLE_FAULTS if f[1] == "pickle" else PYC_FAULTS)
        if rng.random() < 0.15:
            case["dirfault"] = rng.choice(["file", "missing", "dangling"])
    if kind == "edit-faults":
        q = copy.deepcopy(p)
        case["edits"] = {}
        for _ in range(rng.choice([1, 2])):
            n, _ = proj.edit(rng, q)
            case["edits"][n] = 1
        case["edits"] = {n: copy.deepcopy(q["mods"][n]) for n in case["edits"]}
    return case


def fixed(tier):
    rng = random.Random(13)
    out = []
    for kind, fs in (("pickle", PICKLE_FAULTS), ("pyc", PYC_FAULTS)):
        for f in fs:
            for mode in (0, 1):
                p = proj.random_project(rng)
                while not any(s["deps"] or s["dial"] for s in p["mods"].values()):
                    p = proj.random_project(rng)
                c = {"p": p, "kind": "edit-faults" if mode else "faults", "seed": rng.randrange(10**9), "prefix": bool(rng.getrandbits(1)), "names": list(p["order"]), "faults": [[k, kind, f, rng.randrange(10**6)] for k in range(10)]}
                if mode:
                    q = copy.deepcopy(p)
                    n = p["order"][0]
                    q["mods"][n]["v"] += 1
                    c["edits"] = {n: q["mods"][n]}
                out.append(c)
    out += [{"p": proj.random_project(rng), "kind": k, "seed": rng.randrange(10**9), "prefix": j % 2 == 0, "names": None} for j in range(3) for k in ("race", "nowrite", "readonly")]
    for c in out:
        c["names"] = c["names"] or list(c["p"]["order"])
    return out


# ---------------------------------------------------------------- faults
def tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs]
    return sorted(out)


def caches(root, prefix, kind):
    return [f for f in tree(prefix or root) if f.endswith(".mcpyrate.pickle" if kind == "pickle" else ".pyc")]


def replace(f, data):
    with open(f, "wb") as h:
        h.write(data)


def clear(f):
    if os.path.islink(f) or os.path.isfile(f):
        os.unlink(f)


def damage(f, kind, fault, rng, old):
    if fault == "delete":
        clear(f)
    elif fault == "empty":
        replace(f, b"")
    elif fault == "dir":
        clear(f)
        os.makedirs(os.path.join(f, "x"))
    elif fault == "dangling":
        clear(f)
        os.symlink(f + ".nowhere/else", f)
    elif fault == "loop":
        clear(f)
        os.symlink(os.path.basename(f), f)
    elif fault == "unreadable":
        os.chmod(f, 0)
    elif fault == "old":
        if f in old:
            replace(f, old[f])
    elif kind == "pyc":
        data = open(f, "rb").read()
        if fault == "short":
            replace(f, data[:rng.randint(1, 15)])
        elif fault == "magic":
            replace(f, bytes([data[0] ^ 0x55]) + data[1:])
        elif fault == "garbage-head":
            replace(f, rng.randbytes(len(data)) if hasattr(rng, "randbytes") else b"\x01" * len(data))
        elif fault == "flags":
            replace(f, data[:4] + b"\xff\xff\xff\x7f" + data[8:])
    else:
        data = open(f, "rb").read()
        obj = pickle.loads(data)
        if fault == "trunc":
            replace(f, data[:rng.randrange(len(data))])
        elif fault == "garbage":
            replace(f, b"\xff" + bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 300))))
        elif fault == "tail":
            k = rng.randrange(2, len(data))
            replace(f, data[:k] + b"\0" * (len(data) - k))
        elif fault == "unknown-class":
            replace(f, b"cmcpv_nonexistent\nThing\n.")
        else:
            if fault == "none":
                obj = None
            elif fault == "list":
                obj = [1, 2]
            elif fault == "emptydict":
                obj = {}
            elif fault.startswith("nokey-"):
                del obj[fault[6:]]
            elif fault.startswith("null-"):
                obj[fault[5:]] = None
            elif fault == "ints":
                obj["macroimports"] = [1, 2, 3]
            elif fault == "strs":
                obj["dialectimports"] = ["from x import dialects, Y"]
            elif fault == "str-mtime":
                obj["st_mtime_ns"] = str(obj["st_mtime_ns"])
            elif fault == "stmts":
                import ast
                obj["macroimports"] = ast.parse("import a\nx = 1").body
            replace(f, pickle.dumps(obj))


# ---------------------------------------------------------------- judging
def same(case, got, exp, mech, what):
    for n in case["names"]:
        if exp[n].startswith("ERROR"):
            expect(got[n].startswith("ERROR"), mech, lambda: f"{what}: importing {n} gives {got[n]}, without caches it fails: {exp[n]}")
        else:
            expect(got[n] == exp[n], mech, lambda: f"{what}: importing {n} gives\n{brief(got[n])}\nwithout caches:\n{brief(exp[n])}")


def judge(case, obs):
    rng = random.Random(case["seed"])
    p = copy.deepcopy(case["p"])
    root = tempfile.mkdtemp(prefix="c13-", dir=fw.SCRATCH)
    os.chmod(root, 0o755)
    prefix = root + "-pyc" if case["prefix"] else None
    none = root + "-none"
    names = case["names"]
    try:
        t0 = int(time.time()) + 5
        proj.write(p, root, {n: (t0 - rng.randint(10, 10**6)) * 10**9 + rng.choice([0, 123456789]) for n in p["order"]})

        def run(write=True, px=prefix):
            obs.count("imports")
            obs.count("modules compared", len(names))
            return proj.snapshot(p, root, names, px, write_bytecode=write)
        exp, total = run(False, none)
        expect(not os.path.exists(none) and not caches(root, None, "pyc") and not caches(root, None, "pickle"), "written-although-disabled", "bytecode writing is disabled, but cache files were written")
        if case["kind"] == "race":
            return race(case, obs, p, root, prefix, exp, rng)
        if case["kind"] == "readonly":
            return readonly(case, obs, p, root, prefix, exp, total, rng)
        if case["kind"] == "nowrite":
            if rng.random() < 0.5:
                run()
                run()
                for f in caches(root, prefix, "pickle") + caches(root, prefix, "pyc"):
                    if rng.random() < 0.4:
                        os.unlink(f)
            else:   # the cache directories exist, but are empty
                for r, ds, fs in list(os.walk(root)):
                    os.makedirs(os.path.join(prefix + r if prefix else r, "" if prefix else "__pycache__"), exist_ok=True)
            before = {f: (os.stat(f).st_mtime_ns, open(f, "rb").read()) for f in tree(root) + (tree(prefix) if prefix else [])}
            for _ in range(2):
                got, n = run(False)
                same(case, got, exp, "nowrite", "with bytecode writing disabled")
            after = {f: (os.stat(f).st_mtime_ns, open(f, "rb").read()) for f in tree(root) + (tree(prefix) if prefix else [])}
            expect(before == after, "written-although-disabled", lambda: f"bytecode writing is disabled, but files changed: {sorted(set(before) ^ set(after)) or sorted(k for k in before if before[k] != after[k])}")
            obs.count("no-write imports")
            return fw.hash_(case)
        got, n1 = run()
        same(case, got, exp, "first-import", "the first import")
        for k in (2, 3):
            got, n = run()
            same(case, got, exp, "cached-import", f"import {k}, from the cache,")
            expect(n == 0 or any(v.startswith("ERROR") for v in exp.values()), "expanded-again", lambda: f"nothing has changed, but import {k} called macros or dialects {n} times (the first one {n1} times)")
            obs.count("cached re-imports")
        old = {f: open(f, "rb").read() for kind in ("pickle", "pyc") for f in caches(root, prefix, kind)}
        if case.get("edits"):
            for n, spec in case["edits"].items():
                p["mods"][n] = copy.deepcopy(spec)
            proj.write(p, root, {n: (t0 + 7) * 10**9 for n in case["edits"]}, only=case["edits"])
            exp, total = run(False, none)
            if rng.random() < 0.5:
                got, n = run()
                same(case, got, exp, "after-edit", "after an edit")
                got, n = run()
        hit = {"pickle": 0, "pyc": 0}
        for j, kind, fault, seed in case["faults"]:
            fs = [f for f in caches(root, prefix, kind) if os.path.isfile(f) and not os.path.islink(f)]
            if fs:
                try:
                    damage(fs[j % len(fs)], kind, fault, random.Random(seed), old)
                except (pickle.UnpicklingError, EOFError, KeyError, TypeError, ValueError, ImportError, IndexError, AttributeError):   # the file was damaged before
                    pass
                hit[kind] += 1
                obs.count("faults")
                obs.see("fault kinds", f"{kind}:{fault}")
        if case.get("dirfault"):
            import shutil
            for r, ds, fs in list(os.walk(prefix or root)):
                for d in list(ds):
                    if d == "__pycache__" or prefix:
                        q = os.path.join(r, d)
                        if os.path.isdir(q) and not os.path.islink(q):
                            shutil.rmtree(q)
                            if case["dirfault"] == "file":
                                replace(q, b"x")
                            elif case["dirfault"] == "dangling":
                                os.symlink(q + ".no/where", q)
                ds[:] = [d for d in ds if os.path.isdir(os.path.join(r, d))]
            obs.count("faults")
            obs.see("fault kinds", f"dir:{case['dirfault']}")
        for k in (1, 2):
            got, n = run()
            same(case, got, exp, "after-fault", f"import {k} after cache faults {case['faults']} {case.get('dirfault')}")
            if not case.get("edits") and not hit["pyc"] and not case.get("dirfault") and not any(v.startswith("ERROR") for v in exp.values()):
                expect(n == 0, "expanded-after-dependency-cache-fault", lambda: f"only macro dependency caches were damaged ({case['faults']}), but macros or dialects were called {n} times again")
        if not case.get("dirfault") and not any(f[2] in ("dir", "dangling", "loop", "unreadable") for f in case["faults"]) and not any(v.startswith("ERROR") for v in exp.values()):
            got, n = run()
            expect(n == 0, "never-cached-again", lambda: f"after cache faults {case['faults']} and two imports, the next import still called macros or dialects {n} times")
        return fw.hash_(case)
    finally:
        proj.rmtree(root)
        proj.rmtree(root + "-pyc")
        proj.rmtree(none)


def readonly(case, obs, p, root, prefix, exp, total, rng):
    """Import as an unprivileged user who can neither write the cache directories nor read some of the cache files."""
    if rng.random() < 0.7:
        for _ in range(2):
            proj.snapshot(p, root, case["names"], prefix)
        for kind in ("pickle", "pyc"):
            for f in caches(root, prefix, kind):
                os.chmod(f, rng.choice([0o644, 0o600, 0o644, 0]))
                if rng.random() < 0.2:
                    os.unlink(f)
    before = {f: open(f, "rb").read() for f in tree(root) + (tree(prefix) if prefix else [])}
    try:
        os.seteuid(65534)
    except OSError:
        return None
    try:
        for _ in range(2):
            got, n = proj.snapshot(p, root, case["names"], prefix)
            same(case, got, exp, "readonly", "with unwritable cache directories and unreadable cache files")
    finally:
        os.seteuid(0)
    after = {f: open(f, "rb").read() for f in tree(root) + (tree(prefix) if prefix else [])}
    expect(before == after, "readonly-changed", "files changed although they are not writable")
    obs.count("imports", 2)
    obs.count("read-only imports", 2)
    return fw.hash_(case)


def child(case, p, root, prefix, seed, wfd, go):
    """In a forked process: import everything, with random delays at every access to a cache file."""
    rng = random.Random(seed)
    os.read(go, 1)

    def hook(ev, args):
        if ev == "open" and args and isinstance(args[0], str) and (args[0].endswith(".pickle") or ".pyc" in args[0]) and rng.random() < 0.5:
            time.sleep(rng.random() * 0.004)
    sys.addaudithook(hook)
    try:
        got, n = proj.snapshot(p, root, case["names"], prefix)
    except BaseException:
        got = {"crash": traceback.format_exc()}
    with os.fdopen(wfd, "w") as f:
        f.write(json.dumps(got))


def race(case, obs, p, root, prefix, exp, rng):
    for rnd in range(3):
        if rnd == 1:
            proj.snapshot(p, root, case["names"], prefix)
        kids = []
        gor, gow = os.pipe()
        vandal = 0
        for k in range(rng.choice([2, 3, 4])):
            r, w = os.pipe()
            seed = rng.randrange(10**9)
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    os.close(r)
                    child(case, p, root, prefix, seed, w, gor)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        if rng.random() < 0.6:
            seed = rng.randrange(10**9)
            vandal = os.fork()
            if vandal == 0:
                try:
                    vr = random.Random(seed)
                    end = time.time() + 0.15
                    while time.time() < end:
                        fs = caches(root, prefix, "pickle") + caches(root, prefix, "pyc")
                        if fs:
                            f = vr.choice(fs)
                            try:
                                if f.endswith(".pickle"):
                                    damage(f, "pickle", vr.choice(["delete", "empty", "trunc", "none", "emptydict", "garbage"]), vr, {})
                                else:
                                    damage(f, "pyc", vr.choice(["delete"]), vr, {})
                            except Exception:
                                pass
                        time.sleep(vr.random() * 0.003)
                finally:
                    os._exit(0)
        os.write(gow, b"x" * len(kids))
        for pid, r in kids:
            with os.fdopen(r) as f:
                text = f.read()
            os.waitpid(pid, 0)
            got = json.loads(text)
            expect("crash" not in got, "race-crash", lambda: got["crash"])
            same(case, got, exp, "race", f"a process importing concurrently with {len(kids) - 1} others{' while cache files are damaged' if vandal else ''}")
            obs.count("concurrent importers")
        if vandal:
            os.waitpid(vandal, 0)
        os.close(gor)
        os.close(gow)
        got, n = proj.snapshot(p, root, case["names"], prefix)
        same(case, got, exp, "after-race", "an import after concurrent imports")
        obs.count("imports")
    return fw.hash_(case)
