"""C19: random walker programs on the real walkers and on a reference walker; event logs compared."""
import ast
import copy
import random

import fw
import pygen
from fw import brief, expect

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "random per-node scripts (state edits, withstate, selective visits, exceptions, replacements) run on the real walkers and on a reference model; event logs, collected values, states and trees compared"
LEVEL_NOTE = "Both walker classes, node and suite entry points, nested state overrides, caught and escaping exceptions, reuse after reset, and every return form of transformers."
RULE = "Random modules with a random script per node, from a seed. Distinct by (module, seed, walker kind)."
QUICK = dict(n=16000, secs=12)
THOROUGH = dict(n=600000, secs=240)
MIN = {"events": 20000, "overrides": 2000, "exceptions": 300, "replaced": 300, "deleted": 300, "spliced": 200}
ASSUMPTIONS = ["scripts never change the tree behind the walker's back except through return values and assignments of visit results, as documented"]


class Boom(BaseException):
    pass


BOOMS = [type("Boom" + b.__name__, (Boom, b), {}) for b in (BaseException, Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, RuntimeError, SyntaxError, KeyboardInterrupt, GeneratorExit, AssertionError)[1:]] + [Boom]


class Cut(BaseException):
    """Too many events."""


# ------------------------------------------------------------------ reference walker
class Ref:
    def __init__(self, kind, callback, **b):
        self.kind, self.cb = kind, callback
        self.reset(**b)

    def reset(self, **b):
        self.cur = dict(b)
        self.over = []
        self.collected = []

    def snapshot(self):
        return dict(self.cur)

    def put(self, k, v):
        self.cur[k] = v

    def rebind(self, d):
        self.cur = dict(d)

    def collect(self, v):
        self.collected.append(v)
        return v

    def withstate(self, t, **b):
        self._set(t if isinstance(t, list) else [t], b)

    def generic_withstate(self, t, **b):
        kids = []
        for f in t._fields:
            v = getattr(t, f, None)
            kids += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)]
        self._set(kids, b)

    def _set(self, nodes, b):
        new = dict(self.cur)
        new.update(b)
        for n in nodes:
            self.over = [(m, s) for m, s in self.over if m is not n]
            self.over.append((n, new))

    def visit(self, t):
        if isinstance(t, list):
            out = []
            for x in list(t):
                r = self.visit(x)
                if self.kind == "T":
                    out += r if isinstance(r, list) else [] if r is None else [r]
            if self.kind == "T":
                t[:] = out
                return t
            return None
        mine = [s for m, s in self.over if m is t]
        self.over = [(m, s) for m, s in self.over if m is not t]
        saved = self.cur
        if mine:
            self.cur = mine[0]
        try:
            return self.cb(self, t)
        finally:
            if mine:
                self.cur = saved

    def generic_visit(self, t):
        for f in t._fields:
            if not hasattr(t, f):
                continue
            v = getattr(t, f)
            if isinstance(v, list):
                out = []
                for x in list(v):
                    if not isinstance(x, ast.AST):
                        out.append(x)
                        continue
                    r = self.visit(x)
                    if isinstance(r, list):
                        out += r
                    elif r is not None:
                        out.append(r)
                if self.kind == "T":
                    v[:] = out
            elif isinstance(v, ast.AST):
                r = self.visit(v)
                if self.kind == "T":
                    if r is None:
                        delattr(t, f)
                    else:
                        setattr(t, f, r)
        return t if self.kind == "T" else None


def real(kind, callback, **b):
    from mcpyrate.bunch import Bunch
    from mcpyrate.walkers import ASTTransformer, ASTVisitor

    class V(ASTVisitor):
        def examine(self, tree):
            return callback(self, tree)

    class T(ASTTransformer):
        def transform(self, tree):
            return callback(self, tree)
    for c in (V, T):
        c.snapshot = lambda self: dict(self.state.items())
        c.put = lambda self, k, v: setattr(self.state, k, v)
        c.rebind = lambda self, d: setattr(self, "state", Bunch(**d))
    return (V if kind == "V" else T)(**b)


# ------------------------------------------------------------------ scripts
def run(make, kind, case, trees, limit=1500):
    log = []
    seed = case["seed"]
    STAT.clear()

    def ev(*x):
        log.append(x)
        if len(log) > limit:
            raise Cut

    def fields(t):
        out = []
        for f in t._fields:
            v = getattr(t, f, None)
            if isinstance(v, ast.AST) or isinstance(v, list) and v and isinstance(v[0], ast.AST) and all(isinstance(x, ast.AST) for x in v):
                out.append(f)
        return out

    def cb(w, t):
        vid = getattr(t, "vid", None)
        ev("enter", type(t).__name__, vid, w.snapshot())
        if vid is None:
            r = w.generic_visit(t)
            return r
        r = random.Random(f"{seed}/{vid}")
        busy = case["busy"]
        fs = fields(t)
        for _ in range(r.randint(0, 2)):
            if r.random() > busy:
                continue
            q = r.randrange(6)
            if q == 0:
                ev("collect", w.collect((vid, "c")))
            elif q == 1:
                w.put(r.choice("abc"), vid)
            elif q == 2 and r.random() < 0.4:
                w.rebind({r.choice("abc"): -vid, "n": vid} if r.random() < 0.8 else {})
            elif q == 3 and fs:
                f = r.choice(fs)
                STAT["overrides"] = STAT.get("overrides", 0) + 1
                w.withstate(getattr(t, f), **({r.choice("abcd"): 1000 + vid} if r.random() < 0.9 else {}))
            elif q == 4:
                STAT["overrides"] = STAT.get("overrides", 0) + 1
                w.generic_withstate(t, **({r.choice("abcd"): 2000 + vid} if r.random() < 0.9 else {}))
            elif q == 5 and fs:
                v = getattr(t, r.choice(fs))
                v = v[-1] if isinstance(v, list) else v
                gf = fields(v)
                if gf:     # for a grandchild
                    STAT["overrides"] = STAT.get("overrides", 0) + 1
                    w.withstate(getattr(v, r.choice(gf)), g=vid)
        catch = r.random() < 0.25 * busy
        out = t
        try:
            q = r.random()
            if q < 0.6 or not fs:
                res = w.generic_visit(t)
                expect((res is t) if kind == "T" else res is None, "generic_visit-result", f"{res}")
            elif q < 0.9:
                for f in r.sample(fs, r.randint(0, len(fs))):
                    v = getattr(t, f)
                    res = w.visit(v)
                    if kind == "T":
                        if isinstance(v, list):
                            expect(res is v, "suite-result", "visiting a suite returns the suite")
                        if res is None and not isinstance(v, list):
                            delattr(t, f)
                        elif isinstance(res, list) and not isinstance(v, list):
                            setattr(t, f, v)
                        else:
                            setattr(t, f, res)
                    elif isinstance(v, list):
                        expect(res is None, "suite-result", "visitor returns something for a suite")
                    else:
                        ev("value", repr(res) if not isinstance(res, ast.AST) else "node")
            if r.random() < 0.08 * busy:
                STAT["exceptions"] = STAT.get("exceptions", 0) + 1
                raise r.choice(BOOMS)(vid)
        except Boom as e:
            if not catch:
                raise
            ev("caught", e.args[0], w.snapshot())
        ev("exit", vid, w.snapshot())
        if kind == "V":
            return ("val", vid)
        q = r.random()
        if isinstance(t, ast.stmt):
            if q < 0.06 * busy:
                STAT["deleted"] = STAT.get("deleted", 0) + 1
                return None
            if q < 0.1 * busy:
                STAT["spliced"] = STAT.get("spliced", 0) + 1
                new = ast.parse(f"new{vid} = 1").body[0]
                return r.choice([[t, new], [new], [], [new, t, copy.deepcopy(new)], [[new], [t, [None]]] if case["top"] else [new, t]])
            if q < 0.14 * busy:
                STAT["replaced"] = STAT.get("replaced", 0) + 1
                return ast.parse(f"rep{vid}").body[0]
        elif isinstance(t, ast.expr) and q < 0.1 * busy:
            STAT["replaced"] = STAT.get("replaced", 0) + 1
            return ast.Constant(value=vid)
        return out
    w = make(kind, cb, a=0, n=0) if case["init"] else make(kind, cb)
    results = []
    for k, tree in enumerate(trees):
        if k and case["reset"]:
            earlier = w.collected
            kept = list(earlier)
            w.reset(**({"z": k} if k == 1 else {}))
            log.append(("kept-over-reset", len(earlier) == len(kept) and all(x is y for x, y in zip(earlier, kept)), list(w.collected)))
        try:
            res = w.visit(tree)
            results.append("suite" if isinstance(res, list) and res is tree else dumpv(res) if isinstance(res, ast.AST) else dumpv(res))
        except Boom as e:
            results.append(("Boom", e.args[0]))
        except Cut:
            results.append("cut")
            break
        log.append(("end", w.snapshot(), list(w.collected)))
    return log, results, dict(STAT)


STAT = {}


def dumpv(x):
    if isinstance(x, list):
        return [dumpv(y) for y in x]
    if isinstance(x, ast.AST):
        return (type(x).__name__, getattr(x, "vid", None)) + tuple((f, dumpv(getattr(x, f))) for f in x._fields if hasattr(x, f))
    return repr(x)


def mark(trees):
    k = 1
    for t in trees:
        for root in t if isinstance(t, list) else [t]:
            for n in ast.walk(root):
                if not isinstance(n, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)):
                    n.vid = k
                    k += 1
    return trees


def parse(case):
    out = []
    for s in case["srcs"]:
        t = ast.parse(s)
        out.append(t.body if case["suite"] else t)
    return mark(out)


def fixed(tier):
    return [{"special": s} for s in sorted(SPECIAL)]


def generate(rng, i):
    srcs = []
    for _ in range(rng.choice([1, 1, 2])):
        g = pygen.Gen(rng, depth=rng.choice([1, 1, 2]))
        s = g.compilable(rng.randint(1, 3), rng.choice([0, 1, 1]))
        if s and len(s) < 800:
            srcs.append(s)
    if not srcs:
        return None
    return {"special": None, "srcs": srcs, "kind": rng.choice("VT"), "seed": rng.randrange(10 ** 9), "suite": rng.random() < 0.3, "init": rng.random() < 0.7, "reset": rng.random() < 0.6, "busy": rng.choice([0, 0.5, 1, 1]), "top": False}


def judge(case, obs):
    if case["special"]:
        SPECIAL[case["special"]](obs)
        return "special-" + case["special"]
    kind = case["kind"]
    a, b = parse(case), parse(case)
    before = dumpv(a)
    rl, rr, _ = run(lambda k, cb, **kw: Ref(k, cb, **kw), kind, case, a)
    ll, lr, stat = run(real, kind, case, b)
    for k, v in stat.items():
        obs.count(k, v)
    obs.count("events", len(ll))
    show = lambda: f"\nkind {kind} case {case['seed']}\n" + "\n".join(case["srcs"])  # noqa: E731
    for k, (x, y) in enumerate(zip(rl, ll)):
        expect(x == y, "event", lambda: f"event {k}: reference {x}, real {y}\nbefore: {ll[max(0, k - 6):k]}{show()}")
    expect(len(rl) == len(ll), "event-count", lambda: f"reference {len(rl)}, real {len(ll)}: {(rl + ll)[-3:]}{show()}")
    expect(rr == lr, "result", lambda: f"reference {brief(rr)}\nreal {brief(lr)}{show()}")
    expect(dumpv(a) == dumpv(b), "tree", lambda: f"reference {brief(dumpv(a))}\nreal {brief(dumpv(b))}{show()}")
    if kind == "V":
        expect(dumpv(b) == before, "visitor-modified", show)
    if case["busy"] == 0 and not any("cut" == r for r in lr):
        seen = [e[2] for e in ll if e[0] == "enter" and e[2] is not None]
        obs.see("quiet-orders", fw.hash_(seen))
    return fw.hash_(case)


# ------------------------------------------------------------------ documented examples and corners
def s_docs(obs):
    from mcpyrate.walkers import ASTTransformer, ASTVisitor

    class Kittifier(ASTTransformer):
        def transform(self, tree):
            if type(tree) is ast.Constant:
                self.collect(tree.value)
                tree.value = "meow!" if self.state.meows % 2 == 0 else "miaow!"
                self.state.meows += 1
            return self.generic_visit(tree)
    w = Kittifier(meows=0)
    t = w.visit(ast.parse("x = [1, 'a', (2, f(3, k=4))]\nif 5: 6"))
    expect(w.collected == [1, "a", 2, 3, 4, 5, 6], "docs", str(w.collected))
    expect([n.value for n in ast.walk(t) if isinstance(n, ast.Constant)].count("meow!") == 4 and w.state.meows == 7, "docs", ast.unparse(t))
    w.reset(meows=1)
    expect(w.collected == [] and w.state.meows == 1 and len(w.state) == 1, "reset", "")
    for c in (ASTTransformer, ASTVisitor):
        try:
            c()
        except TypeError:
            continue
        raise fw.Violation("abstract", f"{c} can be instantiated")


def s_every_node_once(obs):
    from mcpyrate.walkers import ASTTransformer, ASTVisitor
    import random as R
    for seed in range(120):
        g = pygen.Gen(R.Random(seed), depth=3)
        src = g.compilable(4, 2)
        if not src:
            continue
        tree = ast.parse(src)
        want = []

        def pre(n):
            want.append(n)
            for c in ast.iter_child_nodes(n):
                pre(c)
        pre(tree)
        for base, name in ((ASTVisitor, "examine"), (ASTTransformer, "transform")):
            got = []

            def f(self, t):
                got.append(t)
                return self.generic_visit(t)
            dump = ast.dump(tree, include_attributes=True)
            w = type("W", (base,), {name: f})()
            w.visit(tree)
            expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "order", lambda: f"{base.__name__} visits in another order\n{src}")
            expect(ast.dump(tree, include_attributes=True) == dump, "modified", src)
            obs.count("events", len(got))


def s_id_reuse(obs):
    """A state override belongs to the node it was registered for, not to a later node at the same address."""
    from mcpyrate.walkers import ASTTransformer, ASTVisitor
    for base, name in ((ASTVisitor, "examine"), (ASTTransformer, "transform")):
        seen = []

        def f(self, t):
            seen.append(self.state.a)
            return t
        w = type("W", (base,), {name: f})(a=0)
        for _ in range(300):
            w.withstate(ast.Name(id="gone", ctx=ast.Load()), a=1)
            w.visit(ast.Name(id="new", ctx=ast.Load()))
        expect(set(seen) == {0}, "id-reuse", f"{base.__name__}: state of a discarded node applied to another node, {seen.count(1)} of 300 times")


def s_exceptions(obs):
    from mcpyrate.walkers import ASTTransformer, ASTVisitor
    for base, name in ((ASTVisitor, "examine"), (ASTTransformer, "transform")):
        for exc in (ValueError, KeyboardInterrupt, GeneratorExit, StopIteration, KeyError, AttributeError, TypeError, IndexError, LookupError, RuntimeError, AssertionError, SyntaxError, OSError, Exception, BaseException):
            def f(self, t):
                if isinstance(t, ast.If):
                    self.withstate(t.body, depth=self.state.depth + 1)
                if isinstance(t, ast.Name) and t.id == "boom":
                    raise exc(self.state.depth)
                return self.generic_visit(t)
            w = type("W", (base,), {name: f})(depth=0)
            st = w.state
            try:
                w.visit(ast.parse("if 1:\n if 2:\n  if 3:\n   boom"))
            except exc as e:
                expect(e.args[0] == 3, "exception-depth", str(e.args))
            else:
                raise fw.Violation("exception-lost", str(exc))
            expect(w.state is st and w.state.depth == 0, "exception-state", f"{exc}: depth {w.state.depth}")


def s_mutation_scope(obs):
    from mcpyrate.walkers import ASTVisitor

    class W(ASTVisitor):
        def examine(self, t):
            if isinstance(t, ast.If):
                self.withstate(t.body, inner=True)
            if isinstance(t, ast.Name):
                self.state.count = self.state.count + 1
                self.collect((t.id, self.state.count, self.state.get("inner", False)))
            self.generic_visit(t)
    w = W(count=0)
    w.visit(ast.parse("a\nif b:\n c\n if d:\n  e\n f\nelse:\n g\nh"))
    expect(w.collected == [("a", 1, False), ("b", 2, False), ("c", 2, True), ("d", 3, True), ("e", 3, True), ("f", 4, True), ("g", 3, False), ("h", 4, False)], "mutation-scope", str(w.collected))
    expect(dict(w.state.items()) == {"count": 4}, "mutation-scope", str(w.state))

    class G(ASTVisitor):
        def examine(self, t):
            if isinstance(t, ast.Call):
                self.generic_withstate(t, n=10)
            if isinstance(t, ast.Name):
                self.state.n += 1
                self.collect((t.id, self.state.n))
            self.generic_visit(t)
    w = G(n=0)
    w.visit(ast.parse("f(a, g(b), c, k=d)\nx"))
    expect(w.collected == [("f", 11), ("a", 12), ("g", 11), ("b", 12), ("c", 13), ("d", 14), ("x", 1)], "generic_withstate", str(w.collected))


def s_empty_state(obs):
    from mcpyrate.walkers import ASTVisitor

    class W(ASTVisitor):
        def examine(self, t):
            if isinstance(t, ast.If):
                self.withstate(t.body)
            if isinstance(t, ast.Name):
                self.collect((t.id, dict(self.state.items())))
                self.state.x = t.id
            self.generic_visit(t)
    w = W()
    w.visit(ast.parse("if 1:\n a\n b\nc"))
    expect(w.collected == [("a", {}), ("b", {"x": "a"}), ("c", {})], "empty-state", str(w.collected))


SPECIAL = {f.__name__: f for f in (s_docs, s_every_node_once, s_id_reuse, s_exceptions, s_mutation_scope, s_empty_state)}
