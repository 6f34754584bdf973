"""C23: running a program under macropython is like running it with python."""
import json
import os
import random
import re
import shutil
import sys
import tempfile

import fw
from fw import expect

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "differential monitoring: random self-describing programs, in many layouts and started in every supported way, run by plain Python (with their macros expanded by hand) and by macropython; environment, output, exit status, exception reports and exit handlers are compared"
LEVEL_NOTE = "Each program also runs again from bytecode, and via both the installed entry point and python -m."
RULE = "Scripts (odd names, links, relative paths, packages' files) and modules (packages, namespace packages, subpackages), with random arguments, standard input, and 3-8 of 45 features, ending in one of 30 ways. Distinct by layout, features and exit."
QUICK = dict(n=1500, secs=20)
THOROUGH = dict(n=40000, secs=400)
MIN = {"programs": 60, "runs": 180, "scripts": 25, "modules": 20, "macros": 60, "failing": 20, "arguments": 40, "dialects": 5, "multi-phase": 5, "macro errors": 3, "entry point": 15, "tracebacks": 10}
ASSUMPTIONS = ["source files; the program does not look at __spec__, at search path entries after the first, or at what the bootstrapper imported", "the program's directory has no modules named like those the bootstrapper uses, if it is also the current directory"]

ENTRY = '''# -*- coding: utf-8 -*-
import re
import sys
from mcpyrate.repl.macropython import main
if __name__ == '__main__':
    sys.argv[0] = re.sub(r'(-script\\.pyw|\\.exe)?$', '', sys.argv[0])
    sys.exit(main())
'''

MLIB = '''import ast
from mcpyrate import namemacro, parametricmacro
def const(tree, **kw):
    return ast.Constant(value="macro " + ast.unparse(tree))
@namemacro
def aname(tree, **kw):
    return ast.Constant(value="macro aname")
def blk(tree, **kw):
    return ast.parse("print('macro blk')").body + tree
def deco(tree, **kw):
    tree.body = ast.parse("return 'macro deco'").body
    return tree
def boom(tree, **kw):
    raise ValueError("boom on purpose")
'''
DLIB = '''from mcpyrate.dialects import Dialect
import ast
class D(Dialect):
    def transform_ast(self, tree):
        class T(ast.NodeTransformer):
            def visit_Constant(self, node):
                return ast.copy_location(ast.Constant(value="dialect"), node) if node.value == "plain" else node
        return T().visit(tree)
class S(Dialect):
    def transform_source(self, text):
        return text.replace("prnt(", "print(")
'''
SIB = '''import sys
value = "sibling of " + repr(__package__ or "")
def ask():
    import __main__
    return getattr(__main__, "MARK", "no mark"), sys.modules["__main__"] is __main__
def fail(x):
    return 1 // x
'''

DESCRIBE = '''def describe():
    import json, os, sys, __main__
    here = os.path.realpath(__file__)
    print("DESCRIBE " + json.dumps({"name": __name__, "package": __package__ or "", "file": here, "abs": os.path.isabs(__file__), "base": os.path.basename(here), "main": __main__.__dict__ is globals(), "modules": sys.modules["__main__"] is __main__, "argv": sys.argv[1:], "argv0": os.path.realpath(sys.argv[0]), "typed": sys.argv[0] if not ISMODULE else "", "nargs": len(sys.argv), "path0": sys.path[0], "cwd": os.getcwd(), "doc": __doc__, "env": os.environ.get("C23ENV"), "builtins": "__builtins__" in globals(), "exit": sys.exit.__module__, "hook": sys.excepthook is sys.__excepthook__, "trace": sys.gettrace() is None, "rec": sys.getrecursionlimit()}, sort_keys=True))
describe()'''

# name: (macro text, plain text or None if equal). {P}: package prefix for from-imports
F = {
    "const": ("print(const[1 + 2])", "print('macro 1 + 2')"),
    "constdef": ("def cf(x=const[y]): return x, const[z]\nprint(cf())", "def cf(x='macro y'): return x, 'macro z'\nprint(cf())"),
    "aname": ("print([aname for _ in range(2)])", "print(['macro aname' for _ in range(2)])"),
    "blk": ("with blk:\n    print('in block')", "print('macro blk')\nprint('in block')"),
    "deco": ("@deco\ndef decorated(): return 5\nprint(decorated())", "#\ndef decorated(): return 'macro deco'\nprint(decorated())"),
    "quote": ("from mcpyrate.quotes import macros, q, u\nfrom mcpyrate import unparse; print(unparse(q[f(u[3])]))", "\nprint('f(3)')"),
    "selfmacro": ("from mcpyrate.quotes import macros, q, a\nprint(type(q[5]).__name__)", "\nprint('Constant')"),
    "phase": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast\n    def pm(tree, **kw): return ast.Constant(value='phased')\nfrom __self__ import macros, pm\nprint(pm[1])", "\n\n\n\n\nprint('phased')"),
    "phase2": ("from mcpyrate.multiphase import macros, phase\nwith phase[2]:\n    def pm2(tree, **kw): return tree\nwith phase[1]:\n    from __self__ import macros, pm2\n    def pm1(tree, **kw):\n        tree.value = pm2[tree.value + 1]\n        return tree\nfrom __self__ import macros, pm1\nprint(pm1[1])", "\n\n\n\n\n\n\n\n\nprint(2)"),
    "phaserel": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast\n    from {P}sib import value as sibvalue\n    def pr(tree, **kw): return ast.Constant(value=sibvalue)\nfrom __self__ import macros, pr\nprint(pr[1])", "\n\n\n\n\n\nfrom {P}sib import value; print(value)"),
    "dialect": ("from {P}dlib import dialects, D\nprint('plain')", "\nprint('dialect')"),
    "sdialect": ("from {P}dlib import dialects, S\nprnt('source')", "\nprint('source')"),
    "guard": ("if __name__ == '__main__':\n    print('is main', const[0])", "if __name__ == '__main__':\n    print('is main', 'macro 0')"),
    "sibling": ("from {P}sib import value; print(value)", None),
    "ask": ("MARK = 'marked'\nfrom {P}sib import ask; print(ask())", None),
    "selfimport": ("if __name__ == '__main__':\n    import importlib, os\n    SELF = importlib.import_module(SELFNAME); print(SELF is not __import__('sys').modules['__main__'], SELF.__name__)\nelse:\n    print('imported as', __name__)", None),
    "pickle": ("import pickle\nclass Pk:\n    x = 5\n    def __eq__(self, other): return type(self) is type(other)\nprint(pickle.loads(pickle.dumps(Pk())) == Pk(), pickle.loads(pickle.dumps(Pk)) is Pk, Pk.__module__, pickle.dumps(Pk))", None),
    "dataclass": ("import dataclasses, typing, enum\n@dataclasses.dataclass\nclass Dc:\n    a: int = 1\n    b: 'typing.List[Dc]' = None\nclass En(enum.Enum):\n    A = 1\nclass Nt(typing.NamedTuple):\n    x: int\nprint(Dc(), typing.get_type_hints(Dc), En.A, Nt(1), Nt.__module__)", None),
    "getsource": ("import inspect\ndef shown(x):\n    # comment\n    return x\nprint(inspect.getsource(shown), inspect.getmodule(shown).__name__)", None),
    "stdin": ("import sys\nprint(repr(sys.stdin.readline())); print(repr(sys.stdin.read()))", None),
    "input": ("try:\n    print(input('prompt '))\nexcept EOFError:\n    print('EOF')", None),
    "stderr": ("import sys\nprint('to stderr', file=sys.stderr); sys.stderr.write('no newline'); sys.stderr.write('\\n')", None),
    "binary": ("import sys\nsys.stdout.flush(); sys.stdout.buffer.write(bytes([0, 255, 10])); sys.stdout.flush()", None),
    "thread": ("import sys, threading\ndef late():\n    threading.main_thread().join(); sys.stdout.write('thread done\\n')\nthreading.Thread(target=late).start()", None),
    "daemon": ("import threading, time\nthreading.Thread(target=lambda: time.sleep(5), daemon=True).start()", None),
    "atexit": ("import atexit\n@atexit.register\ndef bye():\n    import __main__\n    print('bye', __main__.__name__, getattr(__main__, 'bye', None) is bye)", None),
    "atexitpickle": ("import atexit\nclass State: pass\n@atexit.register\ndef save():\n    import pickle; print(len(pickle.dumps(State())), type(pickle.loads(pickle.dumps(State()))) is State)", None),
    "hook": ("import sys\ndef hook(t, v, tb):\n    import __main__\n    print('hooked', t.__name__, v, __main__.__dict__ is globals())\nsys.excepthook = hook", None),
    "threadfail": ("import threading\nt = threading.Thread(target=lambda: 1 // 0, name='T'); t.start(); t.join()", None),
    "warn": ("import warnings\nwarnings.warn('careful'); warnings.warn('old', DeprecationWarning)", None),
    "lib": ("from {P}sib import fail\ntry: fail(0)\nexcept ZeroDivisionError as e: print(e, e.__traceback__.tb_lineno, e.__traceback__.tb_next.tb_frame.f_code.co_name)", None),
    "frames": ("import sys\nf = sys._getframe(); print(f.f_lineno, f.f_code.co_name, f.f_globals is globals(), f.f_locals is globals())", None),
    "globals": ("def setg():\n    global made\n    made = 5\nsetg(); print(made, 'made' in globals(), 'setg' in dir())", None),
    "exec": ("exec('ex = __name__'); print(ex, eval('__name__'))", None),
    "doctest": ("import doctest\ndef dt():\n    '''\n    >>> dt()\n    3\n    '''\n    return 3\nprint(doctest.testmod(verbose=False))", None),
    "unittest": ("import unittest, sys\nclass Tc(unittest.TestCase):\n    def test_it(self): self.assertEqual(const[a], 'macro a')\nprint(unittest.main(exit=False, argv=['prog'] , verbosity=0).result.testsRun)", "import unittest, sys\nclass Tc(unittest.TestCase):\n    def test_it(self): self.assertEqual('macro a', 'macro a')\nprint(unittest.main(exit=False, argv=['prog'] , verbosity=0).result.testsRun)"),
    "argparse": ("import argparse, os\nap = argparse.ArgumentParser(add_help=False, prefix_chars='+'); ap.add_argument('rest', nargs='*')\nprint(ap.parse_args().rest)", None),
    "fork": ("import os, sys\nsys.stdout.flush(); pid = os.fork()\nif not pid:\n    print('child', __name__, const[c]); sys.stdout.flush(); os._exit(3)\nprint(os.waitpid(pid, 0)[1])", "import os, sys\nsys.stdout.flush(); pid = os.fork()\nif not pid:\n    print('child', __name__, 'macro c'); sys.stdout.flush(); os._exit(3)\nprint(os.waitpid(pid, 0)[1])"),
    "pool": ("import multiprocessing as mp\ndef sq(x): return x * x\nif __name__ == '__main__':\n    with mp.get_context('fork').Pool(2) as p: print(p.map(sq, [1, 2, 3]))", None),
    "unicode": ("print('ä λ 日本'); ä = 1; print(ä)", None),
    "async": ("import asyncio\nasync def co():\n    await asyncio.sleep(0); return const[co]\nprint(asyncio.run(co()))", "import asyncio\nasync def co():\n    await asyncio.sleep(0); return 'macro co'\nprint(asyncio.run(co()))"),
    "open": ("import os\nprint(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data.txt')).read())", None),
    "cwdopen": ("print(open('cwd.txt').read())", None),
    "runpy": ("import os, runpy\nprint(sorted(k for k in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sib.py')) if k[0] != '_'))", None),
    "annotations": ("anno: int = 5\nprint(__annotations__)", None),
    "reload": ("from {P}sib import value as v1; import sys; print([k for k in sys.modules if k.endswith('sib')])", None),
    "dunder": ("print(__name__, bool(__package__), __builtins__ is not None, '__loader__' in globals())", None),
}
MULTI = ("phase", "phase2", "phaserel")

EXITS = {
    "end": "",
    "exit0": "import sys; sys.exit(0)",
    "exit3": "import sys; sys.exit(3)",
    "exitnone": "import sys; sys.exit()",
    "exitneg": "import sys; sys.exit(-1)",
    "exit256": "import sys; sys.exit(256)",
    "exitstr": "import sys; sys.exit('message')",
    "exitobj": "import sys; sys.exit(['a', 1])",
    "exitbool": "import sys; sys.exit(True)",
    "raiseexit": "raise SystemExit(4)",
    "subexit": "class Ex(SystemExit): pass\nraise Ex(5)",
    "quit": "quit(6)",
    "osexit": "import os, sys; sys.stdout.flush(); os._exit(7)",
    "value": "def f1():\n    raise ValueError('one', 2)\ndef f2():\n    f1()\nf2()",
    "own": "class Own(Exception):\n    def __str__(self): return 'own text'\nraise Own()",
    "cause": "try:\n    1 // 0\nexcept ZeroDivisionError as e:\n    raise KeyError('k') from e",
    "context": "try:\n    1 // 0\nexcept ZeroDivisionError:\n    [][1]",
    "suppressed": "try:\n    1 // 0\nexcept ZeroDivisionError:\n    raise KeyError('k') from None",
    "notes": "e = RuntimeError('noted'); e.add_note('the note'); raise e",
    "group": "raise ExceptionGroup('group', [ValueError(1), TypeError(2)])",
    "base": "class B(BaseException): pass\nraise B('base')",
    "interrupt": "raise KeyboardInterrupt",
    "sigterm": "import os, signal, sys; sys.stdout.flush(); os.kill(os.getpid(), signal.SIGTERM)",
    "recursion": "def rec(n): return rec(n + 1)\nrec(0)",
    "sibling": "from {P}sib import fail; fail(0)",
    "assertion": "assert 1 == 2, 'asserted'",
    "importerror": "import nonexistent_module_c23",
    "atexitfail": "import atexit; atexit.register(lambda: 1 // 0)",
    "finally": "try:\n    import sys; sys.exit(8)\nfinally:\n    print('finally')",
    "generator": "def g():\n    yield 1\n    raise StopIteration(3)\nlist(g())",
    "oserror": "open('/nonexistent/file')",
    "badcode": "import sys; sys.exit(10**10)",
    "broken": "x = = 5",
    "macroerror": None,
}
PARSE_FAILS = ("broken",)

SCRIPTS = ["prog.py", "prog.py", "prog.py", "prog", "my-script.py", "my.script.py", "with space.py", "ünï.py", "prog.txt", "__init__.py", "__main__.py", "123.py", "class.py", ".hidden.py", "time.py", "site.py", "this.py", "PROG.PY", "a.b.c", "sys.py", "prog.pyw", "%s.py", "-dash.py", "colorsys.py"]
ARGS = ["", "a b", "-v", "--help", "-m", "-c", "--", "-n", "ä", "*", "x=1", "-i", "--version", "prog.py", "\\", "'", "-", "--clean=x", "-p", "mod", "-m", "\n"]


def setup(scratch):
    pass


# ---------------------------------------------------------------- generation
def generate(rng, i):
    kind = rng.choice(["script", "script", "module"])
    names = rng.sample(sorted(F), rng.randint(3, 8))
    if not any(n in F and F[n][1] is not None for n in names):
        names.append("const")
    case = {"kind": kind, "feats": names, "exit": rng.choice(sorted(EXITS)) if rng.random() < 0.7 else "end", "args": [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2, 2, 5]))], "stdin": rng.choice(["", "line\n", "line\nmore\nlines", "ä\n\n"]), "style": rng.choice(["lf", "lf", "lf", "crlf", "bom", "cookie", "shebang", "nonl", "doc", "future"]), "entry": rng.random() < 0.5, "pp": rng.random() < 0.3}
    if kind == "script":
        case.update(dir=rng.choice(["", "", "sub", "a/b c", "pkg"]), name=rng.choice(SCRIPTS), spell=rng.choice(["rel", "rel", "abs", "dot", "updown", "link", "linkdir", "dslash"]), cwd=rng.choice(["", "", "sub", "other"]))
    else:
        case.update(mod=rng.choice(["prog", "pkg.prog", "pkg", "pkg.sub", "ns", "ns.prog", "pkg.__main__", "pkg.sub.prog", "ns.sub", "ns.sub.prog", "pkg.ns.prog"]), opt=rng.choice(["-m", "-m", "-mX", "--module", "--module="]))
    return case


ANSI = "print('\\x1b[31mred\\x1b[0m')\n"


def fixed(tier):
    rng = random.Random(23)
    out = []
    base = lambda: generate(rng, 0)   # noqa: E731
    # every feature, exit, script name, module layout
    exits = sorted(EXITS)
    feats = sorted(F)
    for k in range(0, len(exits)):
        c = base()
        c.update(exit=exits[k], feats=[feats[(3 * k + j) % len(feats)] for j in range(3)] + ["atexit", "const"])
        out.append(c)
    for k in range(0, len(feats), 4):
        c = base()
        c.update(exit="end", feats=feats[k:k + 4])
        out.append(c)
    for nm in sorted(set(SCRIPTS)):
        c = base()
        while c["kind"] != "script":
            c = base()
        c.update(name=nm, exit="end" if len(nm) % 2 else "value", feats=["const", "pickle", "ask", "getsource"])
        out.append(c)
    for m in ["prog", "pkg.prog", "pkg", "pkg.sub", "ns", "ns.prog", "pkg.__main__", "pkg.sub.prog", "ns.sub", "ns.sub.prog", "pkg.ns.prog"]:
        c = base()
        while c["kind"] != "module":
            c = base()
        c.update(mod=m, exit="exit3", feats=["const", "phase", "dialect", "ask", "selfimport"], args=["-v", "x"])
        out.append(c)
    for what in ["missing script", "missing module", "missing child", "not a package", "no main", "directory", "missing parent", "both"]:
        out.append({"reject": what})
    out.append({"ansi": ANSI})
    out += [{"pypackages": x} for x in ("script", "module", "elsewhere", "none")]
    return out


# ---------------------------------------------------------------- layout
def program(case, plain):
    """The source of the main program."""
    P = prefix(case)
    feats = [f for f in case["feats"]]
    if case["exit"] in ("macroerror",):
        feats = [f for f in feats if f not in MULTI]
    if "dialect" in feats and "phase" in feats:
        pass
    body, tops = [], []
    if not plain:
        tops.append(f"from {P}mlib import macros, const, aname, blk, deco, boom")
    else:
        tops.append("")
    heads = {"crlf": [], "bom": [], "lf": [], "nonl": [], "cookie": ["# -*- coding: latin-1 -*-"], "shebang": ["#!/usr/bin/env macropython"], "doc": ['"""Doc of the program."""'], "future": ['"""Doc."""', "from __future__ import annotations"]}[case["style"]]
    # phases have to be at the top level, and their import of `phase` first
    for f in sorted(feats, key=lambda f: (f not in MULTI)):
        if f != "phase" and f in MULTI and ("phase" in feats or f == "phaserel" and "phase2" in feats):
            continue
        text = F[f][1] if plain and F[f][1] is not None else F[f][0]
        body += text.replace("{P}", P).split("\n")
    ex = EXITS[case["exit"]]
    if ex is None:
        ex = "boom[1]"
    lines = heads + [f"ISMODULE = {case['kind'] == 'module'}; SELFNAME = {selfname(case)!r}"] + DESCRIBE.split("\n") + tops + body + ex.replace("{P}", P).split("\n")
    if case["style"] == "future":
        pass
    nl = "\r\n" if case["style"] == "crlf" else "\n"
    text = nl.join(lines) + ("" if case["style"] == "nonl" else nl)
    if case["style"] == "cookie":
        return text.replace("λ 日本", "ö").encode("latin-1")
    return (b"\xef\xbb\xbf" if case["style"] == "bom" else b"") + text.encode("utf-8")


def prefix(case):
    return "." if case["kind"] == "module" and case["mod"] != "prog" else ""


def selfname(case):
    if case["kind"] == "script":
        n = case["name"]
        return n[:-3] if n.endswith(".py") and n[:-3].isidentifier() and n not in ("__main__.py", "time.py", "site.py", "this.py", "sys.py", "colorsys.py") else "sib"
    m = case["mod"]
    return m + ".__main__" if m in ("pkg", "pkg.sub", "ns", "ns.sub") else m


def mainfile(case):
    if case["kind"] == "script":
        return os.path.join(case["dir"], case["name"])
    return selfname(case).replace(".", "/") + ".py"


def lay(root, case, plain):
    for d in ("sub", "other", "bin", "a/b c"):
        os.makedirs(os.path.join(root, d))
    def put(p, t):
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    put("bin/macropython", ENTRY)
    main = mainfile(case)
    if case["kind"] == "script":
        here = case["dir"]
        if here == "pkg":
            put("pkg/__init__.py", "raise Exception('a script does not import its package')")
    else:
        here = os.path.dirname(main)
        parts = selfname(case).split(".")[:-1]
        for k in range(1, len(parts) + 1):
            if parts[k - 1] != "ns":
                put("/".join(parts[:k]) + "/__init__.py", f"print('init of', __name__)\n")
        put("sub.py", "raise Exception('wrong module')")
        put("other/prog.py", "raise Exception('wrong module')")
    for f, t in (("mlib.py", MLIB), ("dlib.py", DLIB), ("sib.py", SIB), ("data.txt", "the data")):
        if not (f == case.get("name")):
            put(os.path.join(here, f), t)
    for f in ("mlib.py", "dlib.py", "sib.py", "prog.py"):
        put(os.path.join("wrong", f), "raise Exception('wrong module')")
    put(main, program(case, plain))
    for d in ("", "sub", "other"):
        put(os.path.join(d, "cwd.txt"), "cwd is " + d)
    if case["kind"] == "script":
        if case["spell"] == "link":
            os.symlink(os.path.join(root, main), os.path.join(root, "other", "linked.py"))
        elif case["spell"] == "linkdir":
            os.symlink(os.path.join(root, case["dir"]), os.path.join(root, "linkeddir"))


def command(root, case):
    """Arguments to python, and the directory to run it in."""
    if case["kind"] == "module":
        opt = {"-m": ["-m", case["mod"]], "-mX": ["-m" + case["mod"]], "--module": ["--module", case["mod"]], "--module=": ["--module=" + case["mod"]]}[case["opt"]]
        return opt, root
    cwd = os.path.join(root, case["cwd"]) if case["cwd"] else root
    real = os.path.join(root, mainfile(case))
    s = case["spell"]
    if s == "abs":
        path = real
    elif s == "link":
        path = os.path.relpath(os.path.join(root, "other", "linked.py"), cwd)
    elif s == "linkdir":
        path = os.path.relpath(os.path.join(root, "linkeddir", case["name"]), cwd)
    else:
        path = os.path.relpath(real, cwd)
        if s == "dot":
            path = "./" + path
        elif s == "updown":
            path = os.path.join(os.path.relpath(root, cwd), "sub", "..", mainfile(case))
        elif s == "dslash":
            path = path.replace("/", "//")
    if path.startswith("-"):
        path = "./" + path
    return [path], cwd


def clean_err(err, root):
    """The parts of the error output that don't depend on who runs the program."""
    out, skip, tracebacks = [], False, 0
    # whether a finished thread still counts when forking depends on timing
    err = re.sub(r"(?m)^.*is multi-threaded, use of fork.*\n.*\n", "", err)
    for line in err.splitlines():
        m = re.match(r'^[ |]*File "([^"]+)", line (\d+)(?:, in (.*))?$', line)
        if m:
            skip = True
            if m.group(1).startswith(root) and not m.group(1).startswith(root + "/bin/"):
                tracebacks += 1
                out.append(f"{os.path.realpath(m.group(1))}:{m.group(2)} {m.group(3)}")
            continue
        if skip and re.match(r"^[ |]*    ", line):
            continue
        skip = False
        if line.strip(" |+") in ("", "Traceback (most recent call last):", "Exception Group Traceback (most recent call last):") or "Previous line repeated" in line or "-----" in line:
            continue
        line = re.sub(r"^(/.*?)(:\d+: \w+Warning)", lambda m: os.path.realpath(m.group(1)) + m.group(2), line)
        out.append(re.sub(r"0x[0-9a-f]+|pid=\d+|in \d+\.\d+s", "#", line.strip(" |+")))
    return out, tracebacks


def judge(case, obs):
    root = os.path.realpath(tempfile.mkdtemp(dir=fw.SCRATCH))
    try:
        if "pypackages" in case:
            return pypackages(case, obs, root)
        if "ansi" in case:
            return ansi(case, obs, root)
        return (reject if "reject" in case else compare)(case, obs, root)
    finally:
        shutil.rmtree(root)


def env_of(root):
    env = fw.child_env(root, PYTHONPYCACHEPREFIX=None, C23ENV="value")
    return env


def run(root, case, who):
    args, cwd = command(root, case)
    env = env_of(root)
    if case.get("pp"):   # the search path already names the directory, behind one with other modules
        here = os.path.join(root, os.path.dirname(mainfile(case)) if case["kind"] == "script" else "")
        env["PYTHONPATH"] = os.pathsep.join([fw.REPO, os.path.join(root, "wrong"), here])
    if who == "python":
        if args[0].startswith("--module="):
            args = ["-m", args[0][9:]]
        elif args[0] == "--module":
            args = ["-m", args[1]]
        first = ["-B"]
        env["PYTHONPATH"] = env["PYTHONPATH"] if case.get("pp") else ""
    elif who == "entry":
        first = [os.path.join(root, "bin", "macropython")]
    else:
        first = ["-m", "mcpyrate.repl.macropython"]
    return fw.run_py(first + args + case["args"], cwd=cwd, env=env, stdin=case["stdin"], timeout=100)


def compare(case, obs, root):
    who = "entry" if case["entry"] or case["kind"] == "script" and case["cwd"] == "" and case["dir"] == "" and case["name"] in ("time.py", "site.py", "this.py", "sys.py", "colorsys.py", "class.py") else "-m"
    if who == "entry":
        obs.count("entry point")
    lay(root, case, True)
    ref = run(root, case, "python")
    shutil.rmtree(root)
    os.mkdir(root)
    lay(root, case, False)
    show = lambda p=None: f"{who} {command(root, case)} args {case['args']}\n{program(case, False).decode('utf-8', 'replace')}\n== python\n{ref}\n" + (f"== macropython\n{p}" if p else "")   # noqa: E731
    expect(ref.rc is not None, "reference-hangs", lambda: show()) if 0 else None
    if ref.rc is None:
        raise fw.Inconclusive(f"plain python hangs: {show()}")
    for k in (0, 1):
        p = run(root, case, who)
        obs.count("runs")
        expect(p.rc is not None, "hang", lambda: show(p))
        if case["exit"] == "macroerror":
            expect(p.rc == 1 and "boom on purpose" in p.err and "MacroApplicationError" in p.err, "macro-error", lambda: show(p))
            expect("DESCRIBE" not in p.out, "macro-error-ran", lambda: show(p))
            line = next(n for n, t in enumerate(program(case, False).splitlines(), 1) if t.startswith(b"boom["))
            expect(any(f"{os.path.basename(f)}:{line}" in re.sub(r"\x1b\[\d+m", "", p.err) for f in (mainfile(case), command(root, case)[0][0])), "macro-error-location", lambda: show(p))
            continue
        expect(p.rc == ref.rc, "exit-status", lambda: f"{ref.rc} vs {p.rc}\n{show(p)}")
        a, b = split(ref.out), split(p.out)
        if a[0]:
            expect(b[0], "not-described", lambda: show(p))
            for x, y in zip(a[0], b[0]):
                for key in x:
                    expect(x[key] == y[key], "env-" + key, lambda: f"{key}: python {x[key]!r}, macropython {y[key]!r}\n{show(p)}")
        expect(a[1] == b[1], "output", lambda: f"first difference: {next(((x, y) for x, y in zip(a[1].splitlines() + [None], b[1].splitlines() + [None]) if x != y), None)}\n{show(p)}")
        if case["exit"] not in PARSE_FAILS:
            (ea, ta), (eb, tb) = clean_err(ref.err, root), clean_err(p.err, root)
            if case["exit"] == "recursion":
                ea, eb = sorted(set(ea)), sorted(set(eb))
            expect(ea == eb, "error-output", lambda: f"python {ea}\nmacropython {eb}\n{show(p)}")
            obs.count("tracebacks", ta)
        else:
            expect("SyntaxError: invalid syntax" in p.err and any(os.path.basename(f) in p.err for f in (mainfile(case), command(root, case)[0][0])), "error-output", lambda: show(p))
    obs.count("programs")
    obs.count(case["kind"] + "s")
    obs.count("macros", program(case, False).count(b"const[") + program(case, False).count(b"aname"))
    obs.count("failing", ref.rc != 0)
    obs.count("arguments", len(case["args"]))
    obs.count("dialects", "dialect" in case["feats"] or "sdialect" in case["feats"])
    obs.count("multi-phase", any(f in case["feats"] for f in MULTI))
    obs.count("macro errors", case["exit"] == "macroerror")
    return fw.hash_(json.dumps({k: v for k, v in case.items() if k != "stdin"}, sort_keys=True))


def split(out):
    """The descriptions, and the other output."""
    d, rest = [], []
    for line in out.splitlines(keepends=True):
        if line.startswith("DESCRIBE "):
            d.append(json.loads(line[9:]))
        else:
            rest.append(line)
    return d, "".join(rest)


def reject(case, obs, root):
    os.makedirs(os.path.join(root, "pk"))
    for f in ("pk/__init__.py", "plain.py", "child.py"):
        with open(os.path.join(root, f), "w") as fh:
            fh.write(f"print('ran {f}')\n" if f != "pk/__init__.py" else "")
    args = {"missing script": ["nope.py"], "missing module": ["-m", "nope"], "missing child": ["-m", "pk.nope"], "not a package": ["-m", "plain.child"], "no main": ["-m", "pk"], "directory": ["pk"], "missing parent": ["-m", "nope.child"], "both": ["-m", "pk.__main__", "plain.py"]}[case["reject"]]
    p = fw.run_py(["-m", "mcpyrate.repl.macropython"] + args, cwd=root, env=env_of(root))
    expect(p.rc not in (0, None) and "ran child" not in p.out and p.err, "accepted", lambda: f"{args}: {p}")
    obs.count("rejected")
    return None


def pypackages(case, obs, root):
    """A local `__pypackages__` comes after the program's own directory, and before the installed packages; nothing else changes."""
    kind = case["pypackages"]
    home = os.path.join(root, "proj")
    os.makedirs(os.path.join(home, "__pypackages__"))
    os.makedirs(os.path.join(root, "cwd"))
    files = {"main.py": "import sys, json\nprint(json.dumps(sys.path))\nimport vend, both\nprint(vend.WHERE, both.WHERE)\n", "both.py": "WHERE = 'own'\n", "__pypackages__/vend.py": "WHERE = 'local package'\n", "__pypackages__/both.py": "WHERE = 'local package'\n"}
    if kind == "none":
        files = {k: v for k, v in files.items() if "__py" not in k} | {"vend.py": "WHERE = 'local package'\n"}
        os.rmdir(os.path.join(home, "__pypackages__"))
    for f, text in files.items():
        with open(os.path.join(home, f), "w") as fh:
            fh.write(text)
    args, cwd = {"module": (["-m", "main"], home), "elsewhere": (["../proj/main.py"], os.path.join(root, "cwd"))}.get(kind, (["main.py"], home))
    got = fw.run_py(["-m", "mcpyrate.repl.macropython"] + args, cwd=cwd, env=env_of(root))
    expect(got.rc == 0, "local-packages", lambda: f"{args}: {got}")
    lines = got.out.splitlines()
    expect(lines[1:] == ["local package own"], "local-packages", lambda: f"{args}: {lines[1:]}")
    path = json.loads(lines[0])
    ref = fw.run_py(args, cwd=cwd, env=dict(env_of(root), PYTHONPATH=os.pathsep.join([os.path.join(home, "__pypackages__")] + [x for x in [env_of(root).get("PYTHONPATH")] if x])))
    want = json.loads(ref.out.splitlines()[0])
    if kind == "none":
        want = [x for x in want if not x.endswith("__pypackages__")]
    expect(path[:2] == want[:2] and [x for x in path if x in want] == want, "local-packages", lambda: f"{args}: sys.path is {path}, of python {want}")
    obs.count("local packages")
    return repr(case)


def ansi(case, obs, root):
    """Terminal escape sequences in the output to a pipe or file."""
    with open(os.path.join(root, "prog.py"), "w") as f:
        f.write(case["ansi"])
    out = [fw.run_py(a + ["prog.py"], cwd=root, env=env_of(root)).out for a in ([], ["-m", "mcpyrate.repl.macropython"])]
    expect(out[0] == out[1], "ansi-stripped", lambda: f"the program's output to a pipe is {out[0]!r} under python, {out[1]!r} under macropython\n{case['ansi']}")
    return None
