"""Mutation testing of the checks: small systematic edits of /repo that pass the existing tests, and which checks notice them.

    mutate.py list                              how many mutants per file
    mutate.py run OUT.jsonl [-j N] [--sample K] [--seed S] [--files a.py,b.py] [--shards N]
    mutate.py retry OUT.jsonl OUT2.jsonl        survivors again, with all shards

Works in clones under /tmp/mutw; nothing in /repo is touched.
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import threading

V = "/verif"
REPO = "/repo"
MAP = {
    "unparser": "C01 C02", "astdumper": "C02 C26", "ansi": "C02", "colorizer": "C02 C26", "astcompat": "C01 C20", "astfixers": "C05 C06", "bunch": "C28",
    "compiler": "C16 C03 C15 C14 C12", "core": "C04 C05 C06 C07 C26 C25", "coreutils": "C21 C29 C17 C18 C16", "debug": "C26 C27", "dialects": "C17 C26 C21 C03",
    "expander": "C04 C05 C06 C07 C26 C27 C21", "importer": "C12 C13 C03 C16", "markers": "C19 C29 C02 C04", "metatools": "C27", "multiphase": "C14 C15 C26 C16 C25",
    "quotes": "C08 C09 C10 C11 C27 C25", "splicing": "C18", "utils": "C29 C20 C27 C07 C06 C26", "walkers": "C19", "activate": "C03 C12 C16",
    "repl/console": "C22", "repl/iconsole": "C22", "repl/macropython": "C23", "repl/utils": "C22 C23", "__init__": "C03",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}


class Src:
    def __init__(self, path):
        self.text = open(path).read()
        self.lines = self.text.split("\n")
        self.tree = ast.parse(self.text)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()) + 1)
        self.b = self.text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(path):
    """[(kind, start, end, replacement)]"""
    s = Src(path)
    out = []

    def rep(kind, node, text):
        a, b = s.span(node)
        if s.b[a:b].decode() != text:
            out.append((kind, node.lineno, a, b, text))
    doc = set()
    for n in ast.walk(s.tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
    skip = set()
    for n in ast.walk(s.tree):
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__all__":
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(s.tree):
        if id(n) in doc or id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep("cmp", n, f"({s.seg(n.left)} {CMP[type(n.ops[0])]} {s.seg(n.comparators[0])})")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep("bool", n, "(" + op.join(f"({s.seg(v)})" for v in n.values) + ")")
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                rep("boolpart", n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({s.seg(v)})" for v in rest) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep("not", n, f"({s.seg(n.operand)})")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep("true", n.test, "True")
            if not isinstance(n, ast.While):
                rep("false", n.test, "False")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep("arith", n, f"({s.seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {s.seg(n.right)})")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep("flag", n, str(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep("int", n, str(n.value + 1))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) >= 1:
                    a, b = s.span(k)
                    tail = s.b[b:]
                    j = len(tail) - len(tail.lstrip(b" ,\n"))
                    head = s.b[:a].rstrip()
                    if head.endswith(b","):
                        a = len(head) - 1
                    elif tail[:1] == b",":
                        b += j
                    out.append(("kwdrop", k.value.lineno, a, b, ""))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            rep("del", n, "pass")
        elif isinstance(n, ast.Raise):
            rep("noraise", n, "pass")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep("del", n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep("none", n, "return None")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "copy", "list", "sorted", "reversed", "tuple", "set", "dict") and len(n.args) == 1 and not n.keywords:
            rep("nocopy", n, f"({s.seg(n.args[0])})")
    good = []
    for m in out:
        kind, ln, a, b, t = m
        new = s.b[:a] + t.encode() + s.b[b:]
        try:
            ast.parse(new)
        except (SyntaxError, ValueError):
            continue
        good.append(m)
    return good


def allm(files=None):
    res = []
    for k in MAP:
        p = f"{REPO}/mcpyrate/{k}.py"
        if files and k not in files:
            continue
        for m in mutants(p):
            res.append((k,) + m)
    return res


def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env={**os.environ, **(env or {})}, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def worker(k, queue, lock, outf, shards, tests=True):
    d = f"/tmp/mutw/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = d + "/repo"
    subprocess.run(["cp", "-a", REPO, repo], check=True)
    subprocess.run(["cp", "-a", "/opt/vp", d + "/vp"], check=True)
    for f in glob.glob(d + "/vp/*"):
        if f.endswith((".sh", ".py")):
            t = open(f).read().replace("/opt/vp", d + "/vp").replace("/repo", repo)
            open(f, "w").write(t)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("passed", base))
    while True:
        with lock:
            if not queue:
                break
            m = queue.pop()
        key, kind, ln, a, b, t = m
        p = f"{repo}/mcpyrate/{key}.py"
        orig = open(f"{REPO}/mcpyrate/{key}.py", "rb").read()
        open(p, "wb").write(orig[:a] + t.encode() + orig[b:])
        rec = dict(m=m, old=orig[a:b].decode()[:200])
        try:
            if tests:
                rc, o = sh(f"bash {d}/vp/build.sh && bash {d}/vp/test.sh {d}/o.json", d, 60)
                try:
                    got = set(json.load(open(f"{d}/o.json"))["passed"])
                except Exception:
                    got = set()
                if rc == "timeout" or want - got:
                    rec["result"] = "tests"
                    continue
            rec["result"] = "survived"
            rec["rc"] = {}
            for c in MAP[key].split():
                rc, o = sh(f"python3 check.py {c} --quick --shards {shards}", V, 240, dict(VERIF_REPO=repo, VERIF_EVIDENCE=d, VERIF_REPLAYS=d))
                rec["rc"][c] = rc
                if rc == 1:
                    mech = [x[4:].split(" ")[0] for x in o.split("\n") if x.startswith("--- ") and "(" in x]
                    rec["result"] = f"{c}:{','.join(mech[:3])}"
                    break
                if rc not in (0, 1):
                    rec["out"] = o[-300:]
        finally:
            open(p, "wb").write(orig)
            if os.path.exists(d + "/o.json"):
                os.unlink(d + "/o.json")
            with lock:
                outf.write(json.dumps(rec) + "\n")
                outf.flush()
    shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = lambda n, dflt: a[a.index(n) + 1] if n in a else dflt
    if a[0] == "list":
        ms = allm()
        print(len(ms))
        for k in MAP:
            print(k, sum(m[0] == k for m in ms))
        return
    lock = threading.Lock()
    if a[0] == "retry":
        q = [tuple(json.loads(ln)["m"]) for ln in open(a[1]) if json.loads(ln)["result"] == "survived"]
        out, shards, tests = a[2], int(opt("--shards", "8")), False
    else:
        files = opt("--files", None)
        q = allm(set(files.split(",")) if files else None)
        random.Random(int(opt("--seed", "1"))).shuffle(q)
        done = set()
        if os.path.exists(a[1]):
            done = {json.dumps(json.loads(ln)["m"]) for ln in open(a[1])}
        q = [m for m in q if json.dumps(m) not in done]
        q = q[:int(opt("--sample", len(q)))]
        out, shards, tests = a[1], int(opt("--shards", "2")), True
    with open(out, "a") as f:
        ts = [threading.Thread(target=worker, args=(k, q, lock, f, shards, tests)) for k in range(int(opt("-j", "4")))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
