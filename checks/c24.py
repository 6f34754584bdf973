"""C24: cleaning bytecode caches deletes exactly the cache directories."""
import os
import random
import shutil
import socket
import stat
import sys
import tempfile

import fw
from fw import expect

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "random directory trees with links, special files and odd names, cleaned with an audit hook watching every deletion; a snapshot of the tree and its surroundings (type, content, mode, identity, times) is compared with an independent model of which entries had to go"
LEVEL_NOTE = "Entries also vanish right before the cleaner deletes or lists them. The audit hook forbids (and reports) any effect outside the scratch directory."
RULE = "Trees of 5-60 entries: directories, files, symbolic and hard links, fifos, sockets, in and outside of caches, nested caches, and links between the tree and its surroundings; called with absolute, relative, linked, slash-terminated paths, as a function and as a command. Distinct by tree and call."
QUICK = dict(n=6000, secs=12)
THOROUGH = dict(n=200000, secs=240)
MIN = {"trees": 400, "caches": 1500, "deleted": 6000, "kept": 10000, "link caches": 150, "links in caches": 300, "vanished": 300, "dry runs": 150, "rejected": 20, "commands": 10, "special files": 200, "odd names": 200, "nested caches": 150}
ASSUMPTIONS = ["the tree is readable and writable, and no path is longer than the system permits"]

WATCH = {"on": False, "base": None, "bad": [], "vanish": {}, "events": 0, "busy": False}
FORBID = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.spawn", "os.chmod", "os.chown", "os.rename", "os.link", "os.symlink", "os.mkdir", "os.truncate", "shutil.move", "shutil.copyfile", "shutil.copytree", "os.utime", "os.setxattr", "os.removexattr", "os.kill")

HOOK = r'''
import os
def hook(event, args):
    if not WATCH["on"] or WATCH["busy"]:
        return
    if event in FORBID:
        WATCH["bad"].append(event + repr(args)[:300])
        raise PermissionError("not allowed here: " + event)
    if event in ("os.remove", "os.rmdir", "os.unlink"):
        WATCH["busy"] = True
        try:
            path, dir_fd = os.fsdecode(args[0]), args[1]
            if dir_fd not in (-1, None):
                path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), path)
            path = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path.rstrip("/") if event == "os.rmdir" else path))), os.path.basename(path.rstrip("/")))
            WATCH["events"] += 1
            if not path.startswith(WATCH["base"] + "/"):
                WATCH["bad"].append(event + " " + path)
                raise PermissionError("not allowed here: " + path)
            if WATCH["vanish"].pop(path, None):
                try:
                    (os.rmdir if event == "os.rmdir" else os.unlink)(path)
                    WATCH["vanished"] = WATCH.get("vanished", 0) + 1
                except OSError:
                    pass
        finally:
            WATCH["busy"] = False
    elif event == "os.scandir" and isinstance(args[0], str) and WATCH["vanish"]:
        WATCH["busy"] = True
        try:
            path = os.path.realpath(args[0])
            if WATCH["vanish"].get(path) == "tree" and path.startswith(WATCH["base"] + "/"):
                WATCH["vanish"].pop(path)
                import shutil
                shutil.rmtree(path, ignore_errors=True)
                WATCH["vanished"] = WATCH.get("vanished", 0) + 1
        finally:
            WATCH["busy"] = False
    elif event == "open" and len(args) > 2 and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        WATCH["bad"].append("open" + repr(args)[:300])
        raise PermissionError("not allowed here: open")
'''
exec(HOOK)

CHILD = r'''
import sys, os
BASE, argv = sys.argv[1], sys.argv[2:]
FORBID = %r
WATCH = {"on": False, "base": BASE, "bad": [], "vanish": {}, "events": 0, "busy": False}
%s
sys.dont_write_bytecode = True
sys.addaudithook(hook)
import runpy, mcpyrate.pycachecleaner, argparse, gettext, locale
sys.argv = ["macropython"] + argv
import mcpyrate.repl, mcpyrate.activate
WATCH["on"] = True
try:
    runpy.run_module("mcpyrate.repl.macropython", run_name="__main__")
finally:
    WATCH["on"] = False
    if WATCH["bad"]:
        print("BAD " + repr(WATCH["bad"]))
'''


def setup(scratch):
    import mcpyrate.pycachecleaner  # noqa: F401


def shard_setup(scratch):
    sys.addaudithook(hook)   # noqa: F821


# ---------------------------------------------------------------- generation
PLAIN = ["a", "b", "pkg", "mod.py", "a.cpython-312.pyc", "data.txt", "src", "__init__.py", "x.pyc", "x.pyo", ".hidden", "__pycache__x", "x__pycache__", "__PYCACHE__", "_pycache_", "__pycache__.py", ".__pycache__", "__pycache__~", "pycache", "__pycache__ ", " __pycache__", "x.pyc.12345", ".git", ".venv"]
ODD = ["with space", "new\nline", "ä", "日本", "-rf", "*", "~", "$HOME", "a" * 200, "tab\t", "%s", "b\udcff", "'quote", "\\", "{x}", "..x", "...", "\x01"]


def name(rng, used):
    while True:
        n = rng.choice(PLAIN if rng.random() < 0.8 else ODD)
        if n in used:
            n += str(rng.randrange(100))
        if n not in used:
            used.add(n)
            return n


def tree(rng, depth, budget, cachedepth=0):
    """[name, kind, detail] entries of a directory."""
    out, used = [], set()
    n = rng.randint(0, 6) if depth else rng.randint(2, 8)
    if rng.random() < (0.45 if not cachedepth else 0.15):
        used.add("__pycache__")
        r = rng.random()
        if r < 0.75:
            out.append(["__pycache__", "dir", tree(rng, depth + 1, budget, cachedepth + 1) if depth < 5 else []])
        elif r < 0.85:
            out.append(["__pycache__", "file", "not a directory"])
        elif r < 0.97:
            out.append(["__pycache__", "link", rng.randrange(10**6)])
        else:
            out.append(["__pycache__", "fifo", None])
    for _ in range(n):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        nm = name(rng, used)
        r = rng.random()
        if r < 0.38 and depth < 6:
            out.append([nm, "dir", tree(rng, depth + 1, budget, cachedepth)])
        elif r < 0.72:
            out.append([nm, "file", rng.choice(["", "text", "x = 1\n"])])
        elif r < 0.86:
            out.append([nm, "link", rng.randrange(10**6)])
        elif r < 0.93:
            out.append([nm, "hard", rng.randrange(10**6)])
        elif r < 0.96:
            out.append([nm, "fifo", None])
        else:
            out.append([nm, "sock", None])
    rng.shuffle(out)
    return out


CALLS = ["abs", "abs", "rel", "slash", "link", "dot", "inside", "updir", "double"]


def generate(rng, i):
    return {"tree": tree(rng, 0, [rng.randint(5, 60)]), "outside": tree(rng, 1, [rng.randint(3, 15)]), "call": rng.choice(CALLS), "dry": rng.random() < 0.2, "vanish": rng.random() < 0.35, "seed": rng.randrange(10**9), "cmd": False, "ro": rng.random() < 0.15}


def fixed(tier):
    rng = random.Random(24)
    out = []
    deep = []
    for _ in range(40):
        deep = [["d", "dir", deep], ["__pycache__", "dir", [["x.pyc", "file", ""]]]]
    nest = []
    for _ in range(40):
        nest = [["__pycache__", "dir", nest]]
    wide = [[f"d{k}", "dir", [["__pycache__", "dir", [[f"m{j}.pyc", "file", "x"] for j in range(3)]], ["m.py", "file", ""]]] for k in range(200)]
    for t in (deep, nest, wide, [], [["__pycache__", "dir", []]]):
        for call in CALLS:
            for dry in (False, True):
                out.append({"tree": t, "outside": [["f", "file", "x"], ["__pycache__", "dir", [["y.pyc", "file", ""]]]], "call": call, "dry": dry, "vanish": False, "seed": 1, "cmd": False, "ro": False})
    for k in range(24):
        c = generate(rng, k)
        c.update(cmd=True, vanish=False, call=CALLS[k % len(CALLS)], dry=k % 3 == 0)
        out.append(c)
    for call in CALLS[1:]:
        for dry in (False, True):
            out.append({"tree": wide[:3], "outside": [["__pycache__", "dir", [["y.pyc", "file", ""]]]], "call": call, "dry": dry, "vanish": False, "seed": 1, "cmd": True, "ro": False})
    for what in ["missing", "file", "fifo", "link to file", "dangling", "empty", "file in cache", "loop"]:
        for dry in (False, True):
            for cmd in (False, True):
                out.append({"reject": what, "dry": dry, "cmd": cmd})
    return out


# ---------------------------------------------------------------- model
def make(entries, top, links, hards):
    for nm, kind, detail in entries:
        p = os.path.join(top, nm)
        if kind == "dir":
            os.mkdir(p)
            make(detail, p, links, hards)
        elif kind == "file":
            with open(p, "w") as f:
                f.write(detail)
        elif kind == "link":
            links.append((p, detail))
        elif kind == "hard":
            hards.append((p, detail))
        elif kind == "fifo":
            os.mkfifo(p)
        else:
            d = os.open(top, os.O_RDONLY)   # socket names are limited to 100 bytes
            s = socket.socket(socket.AF_UNIX)
            try:
                s.bind(f"/proc/self/fd/{d}/" + nm[:60])
                if nm[:60] != nm:
                    os.rename(os.path.join(top, nm[:60]), p)
            finally:
                s.close()
                os.close(d)


def walk(top):
    """Every entry under top, without following links."""
    for e in sorted(os.listdir(top)):
        p = os.path.join(top, e)
        yield p
        if stat.S_ISDIR(os.lstat(p).st_mode):
            yield from walk(p)


def snapshot(base):
    out = {}
    for p in walk(base):
        s = os.lstat(p)
        if stat.S_ISREG(s.st_mode):
            with open(p, "rb") as f:
                data = f.read()
        elif stat.S_ISLNK(s.st_mode):
            data = os.readlink(p)
        else:
            data = None
        out[p] = [s.st_ino, s.st_mode, s.st_uid, data, s.st_mtime_ns]
    return out


def caches(top):
    """Real directories named __pycache__, reached through real directories."""
    return [p for p in walk(top) if os.path.basename(p) == "__pycache__" and stat.S_ISDIR(os.lstat(p).st_mode)]


def spelled(call, top, base):
    """How the tree is passed to the function; the current directory for it."""
    if call == "rel":
        return "tree", base
    if call == "slash":
        return top + "/", base
    if call == "double":
        return "tree//", base
    if call == "link":
        os.symlink("tree", os.path.join(base, "linked"))
        return os.path.join(base, "linked"), base
    if call == "dot":
        return ".", top
    if call == "updir":
        return "../tree", os.path.join(base, "outside")
    if call == "inside":
        return os.path.join(base, "outside", "..", "tree"), base
    return top, base


def judge(case, obs):
    base = tempfile.mkdtemp(dir=fw.SCRATCH)
    base = os.path.realpath(base)
    cwd = os.getcwd()
    try:
        return (reject if "reject" in case else clean)(case, obs, base)
    finally:
        WATCH["on"] = False
        os.chdir(cwd)
        shutil.rmtree(base)


def call(case, base, path, cwd, function):
    """Run the cleaner. Return its result or exception, and the forbidden effects."""
    WATCH.update(base=base, bad=[], events=0, busy=False, vanished=0)
    if case["cmd"]:
        child = os.path.join(base + "-child.py")
        with open(child, "w") as f:
            f.write(CHILD % (FORBID, HOOK))
        try:
            p = fw.run_py([child, base, "-c", path] + (["-n"] if case["dry"] else []), cwd=cwd, env=fw.child_env(fw.SCRATCH))
        finally:
            os.unlink(child)
        bad = [x for x in p.out.splitlines() if x.startswith("BAD")]
        return p, bad
    os.chdir(cwd)
    WATCH["on"] = True
    try:
        r = function(path)
    except Exception as e:
        r = e
    finally:
        WATCH["on"] = False
    return r, WATCH["bad"]


def clean(case, obs, base):
    from mcpyrate.pycachecleaner import deletepycachedirs, getpycachedirs
    rng = random.Random(case["seed"])
    top, outside = os.path.join(base, "tree"), os.path.join(base, "outside")
    links, hards = [], []
    for d, t in ((top, case["tree"]), (outside, case["outside"])):
        os.mkdir(d)
        make(t, d, links, hards)
    # directed links: anywhere to anywhere, or dangling
    everything = [top, outside, base] + sorted(walk(base))
    files = [p for p in everything if stat.S_ISREG(os.lstat(p).st_mode)]
    for p, k in hards:
        if files:
            os.link(files[k % len(files)], p)
    for p, k in links:
        target = everything[k % len(everything)] if k % 11 else "/nonexistent/x"
        if k % 3 == 1:
            target = os.path.relpath(target, os.path.dirname(p))
        os.symlink(target, p)
        if os.path.basename(p) == "__pycache__":
            obs.count("link caches")
        elif "/__pycache__/" in p:
            obs.count("links in caches")
    if case["ro"]:   # read-only files (which their owner may delete)
        for p in sorted(walk(base)):
            if stat.S_ISREG(os.lstat(p).st_mode) and rng.random() < 0.5:
                os.chmod(p, 0o444)
    path, cwd = spelled(case["call"], top, base)
    doomed = caches(top)
    before = snapshot(base)
    gone = {p for p in before if any(p == c or p.startswith(c + "/") for c in doomed)}
    WATCH["vanish"] = {}
    if case["vanish"] and not case["dry"]:
        for p in rng.sample(sorted(gone), min(len(gone), rng.randint(1, 4))):
            WATCH["vanish"][p] = rng.choice(["entry", "tree"]) if stat.S_ISDIR(before[p][1]) else "entry"
    r, bad = call(case, base, path, cwd, getpycachedirs if case["dry"] else deletepycachedirs)
    WATCH["vanish"] = {}
    show = lambda: f"path {path!r} in {cwd}\n" + "\n".join(f"{stat.filemode(v[1])} {p[len(base):]!r}" + (f" -> {v[3]!r}" if stat.S_ISLNK(v[1]) else "") for p, v in before.items())   # noqa: E731
    expect(not bad, "outside", lambda: f"{bad[:3]}\n{show()}")
    obs.count("vanished", WATCH.get("vanished", 0))
    if case["cmd"]:
        obs.count("commands")
        odd = any(not p.isprintable() for p in doomed)
        if r.rc != 0 and odd and case["dry"]:   # names that cannot be printed
            expect("UnicodeEncodeError" in r.err, "command", lambda: r.err)
        else:
            expect(r.rc == 0, "command", lambda: f"exit {r.rc}: {r.err[-600:]}\n{show()}")
            expect(not case["dry"] or odd or not r.out.strip() and not doomed or sorted(r.out.splitlines()) == sorted(reported(path, doomed, top)), "dry-report", lambda: f"printed {r.out}\nexpected {reported(path, doomed, top)}\n{show()}")
    else:
        expect(not isinstance(r, Exception), "error", lambda: f"{r!r}\n{show()}")
        if case["dry"]:
            obs.count("dry runs")
            expect(isinstance(r, list) and len(r) == len(set(r)) and all(x.startswith(path) for x in r), "dry-report", lambda: f"{r}\n{show()}")
            os.chdir(cwd)
            got = sorted(os.path.realpath(x) for x in r)
            expect(got == sorted(doomed), "dry-report", lambda: f"reported {got}\nexpected {sorted(doomed)}\n{show()}")
    after = snapshot(base)
    lost = before.keys() - after.keys()
    new = after.keys() - before.keys()
    want = set() if case["dry"] else gone
    expect(not lost - want, "deleted", lambda: f"deleted {sorted(lost - want)[:5]}\n{show()}")
    expect(not want - lost, "left", lambda: f"left {sorted(want - lost)[:5]}\n{show()}")
    expect(not new, "created", lambda: f"created {sorted(new)[:5]}\n{show()}")
    parents = {os.path.dirname(p) for p in want}
    for p, v in after.items():
        w = list(before[p])
        if p in parents:    # the time of a directory where a cache was
            w[4] = v[4]
        expect(v == w, "modified", lambda: f"{p}: {w} -> {v}\n{show()}")
    obs.count("trees")
    obs.count("caches", len(doomed))
    obs.count("nested caches", sum("/__pycache__/" in c for c in doomed))
    obs.count("deleted", len(want))
    obs.count("kept", len(after))
    obs.count("special files", sum(stat.S_ISFIFO(v[1]) or stat.S_ISSOCK(v[1]) for v in before.values()))
    obs.count("odd names", sum(os.path.basename(p) in ODD for p in before))
    return fw.hash_(show().replace(base, ""))


def reported(path, doomed, top):
    return [os.path.join(path, os.path.relpath(d, top)) for d in doomed]


def reject(case, obs, base):
    from mcpyrate.pycachecleaner import deletepycachedirs, getpycachedirs
    cache = os.path.join(base, "d", "__pycache__")
    os.makedirs(cache)
    with open(os.path.join(cache, "f.pyc"), "w") as f:
        f.write("x")
    os.mkfifo(os.path.join(base, "fifo"))
    os.symlink("d/__pycache__/f.pyc", os.path.join(base, "tofile"))
    os.symlink("nowhere", os.path.join(base, "dangling"))
    os.symlink("loop", os.path.join(base, "loop"))
    path = {"missing": base + "/missing", "file": cache + "/f.pyc", "fifo": base + "/fifo", "link to file": base + "/tofile", "dangling": base + "/dangling", "empty": "", "file in cache": "d/__pycache__/f.pyc", "loop": "loop"}[case["reject"]]
    before = snapshot(base)
    r, bad = call(case, base, path, base, getpycachedirs if case["dry"] else deletepycachedirs)
    if case["cmd"]:
        obs.count("commands")
        expect(r.rc != 0, "accepted", lambda: f"macropython -c {path!r} succeeded: {r.out}")
    else:
        expect(isinstance(r, OSError), "accepted", lambda: f"{path!r}: {r!r}")
    obs.count("rejected")
    expect(not bad and snapshot(base) == before, "outside", lambda: f"{path!r}: {bad}")
    return None
