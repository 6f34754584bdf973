"""Runtime-monitoring harness: shards, budgets, watchdogs, verdicts, evidence, replays.

A check module (checks/cXX.py) defines:

    ID, LEVEL, RULE                    strings
    QUICK = dict(n=..., secs=...)      random cases per run (all shards together) and wall-clock cap of the random part
    THOROUGH = dict(n=..., secs=...)
    def fixed(tier): -> list of cases                 (always run, in full; spread over shards)
    def generate(rng, i): -> case                     (JSON-able)
    def judge(case, obs): -> key or None              (raises Violation; key != None counts as distinct & non-trivial)
    MIN = {"counter": usual}                          (fewer observed events than 1/8 of this -> inconclusive)
    def setup(scratch)                                (optional; before forking)
Verdict: violated / held on what was observed / inconclusive (exit 1 / 0 / 2).
"""
import collections
import contextlib
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SCRATCH = None   # set by main(); each shard gets its own subdirectory


class Violation(Exception):
    """`mech`: short stable name of the mechanism (key for known findings); `msg`: the witness."""
    def __init__(self, mech, msg=""):
        super().__init__(f"{mech}: {msg}")
        self.mech = mech
        self.msg = msg


class Inconclusive(Exception):
    pass


class CaseHang(BaseException):
    """CPU-time watchdog fired inside a case. BaseException so that code under test cannot swallow it as Exception."""


def expect(cond, mech, msg=""):
    if not cond:
        raise Violation(mech, msg() if callable(msg) else msg)


def brief(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + f" ...[{len(s) - n} chars]... " + s[-n // 2:]


class Obs:
    """What the monitors observed (counters, samples)."""
    def __init__(self):
        self.counters = collections.Counter()
        self.notes = collections.defaultdict(set)

    def count(self, name, k=1):
        self.counters[name] += k

    def see(self, name, value):
        """Record a distinct value (states, orders, node types, ...)."""
        s = self.notes[name]
        if len(s) < 20000:
            s.add(value if isinstance(value, (str, int)) else hash_(value))


def hash_(x):
    return hashlib.sha1(repr(x).encode("utf-8", "backslashreplace")).hexdigest()[:16]


# ------------------------------------------------------------------ watchdog
@contextlib.contextmanager
def cpu_limit(seconds):
    def fire(signum, frame):
        raise CaseHang()
    old = signal.signal(signal.SIGPROF, fire)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ------------------------------------------------------------------ child processes
def child_env(scratch, **extra):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR")}
    env.update(PYTHONPATH=REPO, PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), IPYTHONDIR=os.path.join(scratch, "ipy"))
    for k, v in extra.items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v
    return env


class Proc:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return f"rc={self.rc}\n--stdout--\n{brief(self.out, 3000)}\n--stderr--\n{brief(self.err, 3000)}"


def run_py(args, cwd, env, stdin="", timeout=120, cpu=60, preexec=None):
    """Run the target interpreter. A CPU-limit or wall-clock timeout gives rc=None (-> Hang)."""
    import resource

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if preexec:
            preexec()
    p = subprocess.Popen([PY] + args, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        out, err = p.communicate(stdin.encode("utf-8"), timeout=timeout)
        rc = p.returncode
        if rc in (-signal.SIGXCPU, -signal.SIGKILL):
            rc = None
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return Proc(rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))


# ------------------------------------------------------------------ known findings
def load_known():
    """KNOWN_FINDINGS.txt: `finding: property=C01 key=<mech> <what fails>` and `fixed: property=C01 <commit> <what failed>`."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                prop = parts[1].partition("=")[2]
                key = parts[2].partition("=")[2]
                known[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return known


# ------------------------------------------------------------------ shards
def _evaluate(chk, case, obs, result, cur, cpu):
    with open(cur, "w") as f:
        json.dump(case, f)
    t0 = time.monotonic()
    viol = None
    key = None
    try:
        with cpu_limit(cpu):
            key = chk.judge(case, obs)
    except Violation as v:
        viol = (v.mech, v.msg)
    except Inconclusive as e:
        result["inconclusive"].append(str(e))
    except CaseHang:
        viol = ("no-termination", f"case used more than {cpu} s of CPU time")
    except (MemoryError, KeyboardInterrupt):
        result["inconclusive"].append("resources: " + traceback.format_exc()[-500:])
    except BaseException as e:
        viol = (f"unexpected-{type(e).__name__}", traceback.format_exc()[-6000:])
    result["evaluations"] += 1
    dt = time.monotonic() - t0
    if dt > result["slowest"]:
        result["slowest"] = dt
    if viol is not None:
        result["violations"].append((viol[0], viol[1], case))
    elif key is not None:
        result["keys"].add(key if isinstance(key, str) and len(key) <= 40 else hash_(key))
        if len(result["samples"]) < 2:
            result["samples"].append(case)


def _shard(chk, k, nshards, seed, tier, fixed, budget, scratch):
    global SCRATCH
    SCRATCH = os.path.join(scratch, f"s{k}")
    os.makedirs(SCRATCH, exist_ok=True)
    obs = Obs()
    result = dict(evaluations=0, violations=[], keys=set(), samples=[], inconclusive=[], slowest=0.0, fixed=0, random=0)
    cur = os.path.join(scratch, f"cur{k}.json")
    cpu = getattr(chk, "CASE_CPU", 60)
    maxviol = 8
    if hasattr(chk, "shard_setup"):
        chk.shard_setup(SCRATCH)
    for i in range(k, len(fixed), nshards):
        _evaluate(chk, fixed[i], obs, result, cur, cpu)
        result["fixed"] += 1
        if len({v[0] for v in result["violations"]}) >= maxviol or len(result["violations"]) >= 40:
            break
    deadline = time.monotonic() + budget["secs"]
    i = k
    while i < budget["n"] and time.monotonic() < deadline and len(result["violations"]) < maxviol:
        rng = random.Random(f"{seed}/{chk.ID}/{i}")
        case = chk.generate(rng, i)
        if case is not None:
            _evaluate(chk, case, obs, result, cur, cpu)
            result["random"] += 1
        i += nshards
    result["counters"] = obs.counters
    result["notes"] = {a: b for a, b in obs.notes.items()}
    with open(os.path.join(scratch, f"result{k}.pickle.tmp"), "wb") as f:
        pickle.dump(result, f)
    os.rename(os.path.join(scratch, f"result{k}.pickle.tmp"), os.path.join(scratch, f"result{k}.pickle"))


def main(chk, argv):
    global SCRATCH
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    nshards = getattr(chk, "SHARDS", 8)
    it = iter(argv)
    for a in it:
        if a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        elif a == "--shards":
            nshards = int(next(it))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"mcpv-{chk.ID}-")
    try:
        SCRATCH = scratch
        sys.pycache_prefix = os.path.join(scratch, "pyc")
        if replay:
            with open(replay) as f:
                data = json.load(f)
            if hasattr(chk, "setup"):
                chk.setup(scratch)
            if hasattr(chk, "shard_setup"):
                chk.shard_setup(scratch)
            obs = Obs()
            try:
                key = chk.judge(data["case"], obs)
            except Violation as v:
                print(f"{v.mech}: {v.msg}")
                print(f"VIOLATION property={chk.ID} replay={replay}")
                return 1
            print("no violation on replay; key", key)
            return 0
        return _main(chk, tier, seed, nshards, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(chk, tier, seed, nshards, scratch, t0):
    budget = chk.QUICK if tier == "quick" else getattr(chk, "THOROUGH", chk.QUICK)
    results = []
    died = []
    setup_viol = None
    fixed = []
    try:
        if hasattr(chk, "setup"):
            chk.setup(scratch)
        fixed = chk.fixed(tier) if hasattr(chk, "fixed") else []
    except Violation as v:
        setup_viol = (v.mech, v.msg, {"setup": True})
    except Exception as e:
        setup_viol = (f"setup-{type(e).__name__}", traceback.format_exc()[-6000:], {"setup": True})
    if setup_viol is None:
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(nshards):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    log = os.open(os.path.join(scratch, f"log{k}"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    _shard(chk, k, nshards, seed, tier, fixed, budget, scratch)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    except Exception:
                        pass
                    os._exit(code)
            pids[pid] = k
        cap = budget.get("cap", budget["secs"] * 2 + 240)
        end = time.monotonic() + cap
        while pids and time.monotonic() < end:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.02)
                continue
            k = pids.pop(pid, None)
            if k is None:
                continue
            if not os.path.exists(os.path.join(scratch, f"result{k}.pickle")):
                died.append((k, status))
        for pid, k in pids.items():
            for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                try:
                    target()
                except (ProcessLookupError, PermissionError):
                    pass
            with contextlib.suppress(ChildProcessError):
                os.waitpid(pid, 0)
            died.append((k, "watchdog"))
        for k in range(nshards):
            p = os.path.join(scratch, f"result{k}.pickle")
            if os.path.exists(p):
                with open(p, "rb") as f:
                    results.append(pickle.load(f))
    counters = collections.Counter()
    notes = collections.defaultdict(set)
    keys = set()
    samples, violations, inconclusive = [], [], []
    evaluations = nfixed = nrandom = 0
    slowest = 0
    for r in results:
        counters.update(r["counters"])
        for a, b in r["notes"].items():
            notes[a] |= b
        keys |= r["keys"]
        samples += r["samples"]
        violations += r["violations"]
        inconclusive += r["inconclusive"]
        evaluations += r["evaluations"]
        nfixed += r["fixed"]
        nrandom += r["random"]
        slowest = max(slowest, r["slowest"])
    if setup_viol:
        violations.append(setup_viol)
    for k, status in died:
        log = ""
        with contextlib.suppress(OSError):
            log = open(os.path.join(scratch, f"log{k}"), errors="replace").read()[-3000:]
        case = None
        with contextlib.suppress(Exception):
            case = json.load(open(os.path.join(scratch, f"cur{k}.json")))
        if status == "watchdog":
            inconclusive.append(f"shard {k} stopped by the watchdog in case {brief(case, 300)}")
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL):
            violations.append(("interpreter-crash", f"signal {os.WTERMSIG(status)}\n{log}", case))
        else:
            inconclusive.append(f"shard {k} died (status {status}): {log}")
    known = load_known()
    newv, knownseen = [], {}
    for mech, msg, case in violations:
        if (chk.ID, mech) in known:
            knownseen.setdefault(mech, known[(chk.ID, mech)])
        else:
            newv.append((mech, msg, case))
    for mech, what in sorted(knownseen.items()):
        print(f"KNOWN-FINDING: property={chk.ID} {mech}: {what}")
    for (prop, mech), what in known.items():
        if prop == chk.ID and mech not in knownseen:
            print(f"note: listed finding not reproduced in this run: {mech}")
    wall = time.monotonic() - t0
    coverage = dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=chk.RULE,
                    samples=[trim(s) for s in samples[:3]], fixed_cases=nfixed, random_cases=nrandom,
                    observed={k: v for k, v in sorted(counters.items())},
                    observed_distinct={k: len(v) for k, v in sorted(notes.items())},
                    slowest_case_s=round(slowest, 3), shards=nshards)
    if len(inconclusive):
        coverage["inconclusive"] = [brief(x, 400) for x in inconclusive[:10]]
    ev = dict(property=chk.ID, tier=tier, seed=seed, level=chk.LEVEL, coverage=coverage,
              assumptions=list(getattr(chk, "ASSUMPTIONS", [])), wall_s=round(wall, 3), violations=len(newv))
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))   # development runs against copies keep theirs apart
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{chk.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{chk.ID} tier={tier} seed={seed}: {evaluations} evaluations ({nfixed} fixed, {nrandom} random), {len(keys)} distinct non-trivial, {wall:.1f} s")
    print("observed:", {k: v for k, v in sorted(counters.items())}, "distinct:", coverage["observed_distinct"])
    if newv:
        bymech = {}
        for mech, msg, case in newv:
            bymech.setdefault(mech, []).append((msg, case))
        d = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays")), chk.ID)
        os.makedirs(d, exist_ok=True)
        for mech, lst in sorted(bymech.items()):
            msg, case = min(lst, key=lambda mc: len(json.dumps(mc[1])))
            path = os.path.join(d, f"{hash_([mech, case])}.json")
            with open(path, "w") as f:
                json.dump(dict(property=chk.ID, mech=mech, msg=msg, case=case, seed=seed, tier=tier), f, indent=1)
            print(f"--- {mech} ({len(lst)} cases)\n{brief(msg, 2500)}")
            print(f"VIOLATION property={chk.ID} replay={path}")
        return 1
    if inconclusive:
        print("INCONCLUSIVE:", *[brief(x, 1500) for x in inconclusive[:5]], sep="\n")
        return 2
    for name, low in getattr(chk, "MIN", {}).items():
        got = counters.get(name, 0)
        low = max(1, low // 8)   # a loaded machine gets through fewer cases; what matters is that nothing is blind
        if got < low:
            print(f"INCONCLUSIVE: monitor observed only {got} of {name!r} (need {low})")
            return 2
    return 0


def trim(x, n=1200):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [trim(v, n) for v in x[:30]]
    if isinstance(x, str):
        return brief(x, n)
    return x
