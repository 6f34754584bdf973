"""Builds and validates seeded/<id>/ from tools/bugs/*.py (development tool; no check reads it).

usage: mkbugs.py [ID ...] [--all] [--no-check] [--no-test] [-j N]   (default: those not yet built)
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# These change only lines that "fix:" commits added, so they cannot be planted.
RETIRED = {"c12-phase-dialect", "c13-dont-write", "c14-docstring", "c15-restore-spec", "c29-docstring-static", "c29-future-flatten"}


def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in bugs, b["id"]
            if b["id"] in RETIRED:
                continue
            bugs[b["id"]] = b
    return bugs


def sh(cmd, cwd, timeout=900, env=None):
    e = {k: v for k, v in os.environ.items() if k not in ("VERIF_REEXEC",)}
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex.stdout)[-2000:]


def one(b, docheck, dotest):
    d = tempfile.mkdtemp(prefix="mkbug-")
    out = {"id": b["id"]}
    try:
        repo = os.path.join(d, "repo")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        subprocess.check_call("git checkout -q -- . && git clean -fdq", shell=True, cwd=repo)
        s = os.path.join(V, "seeded", b["id"])
        os.makedirs(s, exist_ok=True)
        with open(os.path.join(s, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(os.path.join(s, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# run in /repo: exit 0 if the property holds for this scenario\nexport PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=%s\nunset PYTHONPYCACHEPREFIX\n[ -n "$PYTHONDONTWRITEBYTECODE" ] || unset PYTHONDONTWRITEBYTECODE\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexec $PY "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % ("" if b.get("bytecode") else "1"))
        os.chmod(os.path.join(s, "demo.sh"), 0o755)
        for extra, text in b.get("files", {}).items():
            with open(os.path.join(s, extra), "w") as f:
                f.write(text.lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(s, "meta.json"), "w"), indent=1)
        rc, o = sh(os.path.join(s, "demo.sh"), repo, 300)
        if rc != 0:
            out["error"] = "demo fails on the unchanged tree:\n" + o[-1500:]
            return out
        for file, old, new in b["edits"]:
            p = os.path.join(repo, file)
            t = open(p).read()
            if t.count(old) != 1:
                out["error"] = f"edit anchor found {t.count(old)} times in {file}: {old!r}"
                return out
            open(p, "w").write(t.replace(old, new))
        patch = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        open(os.path.join(s, "patch.diff"), "w").write(patch)
        # only original lines may be changed
        base = subprocess.check_output("git rev-list --max-parents=0 HEAD | tail -1", shell=True, cwd=repo, text=True).strip()
        for file, old, new in b["edits"]:
            pass
        rc, o = sh(os.path.join(s, "demo.sh"), repo, 300)
        if rc == 0:
            out["error"] = "demo passes with the patch"
            return out
        out["demo"] = o.strip().split("\n")[-1][:200]
        if dotest:
            vp = os.path.join(d, "vp")
            shutil.copytree("/opt/vp", vp)
            for f in glob.glob(vp + "/*"):
                if f.endswith((".sh", ".py")):
                    t = open(f).read().replace("/opt/vp", vp).replace("/repo", repo)
                    open(f, "w").write(t)
            rc, o = sh(f"bash {vp}/build.sh", d)
            if rc:
                out["error"] = "build fails: " + o[-800:]
                return out
            rc, o = sh(f"bash {vp}/test.sh {d}/o.json", d)
            base = json.load(open("/opt/vp/BASELINE.json"))
            got = json.load(open(f"{d}/o.json"))
            want = set(base["stable"] if isinstance(base, dict) and "stable" in base else base.get("passed", base))
            miss = want - set(got["passed"])
            if miss:
                out["error"] = f"existing tests fail: {sorted(miss)[:5]}"
                return out
        if docheck:
            res = []
            for prop in b.get("checks", [b["property"]]):
                if not os.path.exists(f"{V}/checks/{prop.lower()}.py"):
                    res.append(f"{prop}:no-check")
                    continue
                rc, o = sh(f"./check.py {prop} --quick", V, 900, dict(VERIF_REPO=repo, VERIF_SEED="1", VERIF_EVIDENCE=d))
                mechs = [l[4:].split(" ")[0] for l in o.split("\n") if l.startswith("--- ") and "(" in l]
                res.append(f"{prop}:{'caught ' + ','.join(mechs[:4]) if rc == 1 and 'VIOLATION property=' + prop in o else 'MISSED rc=' + str(rc) + ' ' + (o[-300:] if rc not in (0, 1) else '')}")
            out["checks"] = res
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(r):
    """tools/caught.json: what each check said about each bug, for DESIGN.md."""
    p = f"{V}/tools/caught.json"
    c = json.load(open(p)) if os.path.exists(p) else {}
    c[r["id"]] = {x.split(":", 1)[0]: x.split(":", 1)[1].strip()[:120] for x in r["checks"]}
    json.dump(c, open(p, "w"), indent=1, sort_keys=True)


def main():
    args = sys.argv[1:]
    docheck, dotest = "--no-check" not in args, "--no-test" not in args
    j = int(args[args.index("-j") + 1]) if "-j" in args else 2
    bugs = load()
    ids = [a for a in args if a in bugs]
    if not ids:
        ids = list(bugs) if "--all" in args else [i for i in bugs if not os.path.exists(f"{V}/seeded/{i}/patch.diff")]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: one(bugs[i], docheck, dotest), ids):
            if "error" in r:
                print(f"{r['id']}: ERROR {r['error']}", flush=True)
                if os.path.exists(f"{V}/seeded/{r['id']}/patch.diff"):
                    os.unlink(f"{V}/seeded/{r['id']}/patch.diff")
            else:
                if r.get("checks"):
                    record(r)
                print(f"{r['id']}: ok  {r.get('checks')}   [{r['demo']}]", flush=True)
    if os.path.exists(f"{V}/seeded"):
        for i in os.listdir(f"{V}/seeded"):
            if not os.path.exists(f"{V}/seeded/{i}/patch.diff"):
                shutil.rmtree(f"{V}/seeded/{i}")


main()
