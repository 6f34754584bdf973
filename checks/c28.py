"""C28: a Bunch under random operation sequences, against a dict model."""
import collections
import collections.abc as abc
import copy
import pickle
import random

import fw
from fw import brief, expect

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "random operation sequences run on a Bunch and on a dict model in lockstep; every result, error and the full state are compared after each operation"
LEVEL_NOTE = "Item, attribute, mapping and protocol operations in random order, on bunches from the constructor, copy, replace, bunchify (dict, OrderedDict, UserDict), pickle and copy.copy."
RULE = "Random sequences of 5 to 60 operations over a small key set (identifiers, keywords, names of Bunch methods, dunder-like, non-ASCII) and values incl. nested containers and bunches. Distinct by operation sequence."
QUICK = dict(n=12000, secs=8)
THOROUGH = dict(n=2000000, secs=240)
MIN = {"ops": 50000, "errors": 1000, "attr-ops": 10000}
ASSUMPTIONS = ["keys are strings; the repr is compared by evaluation when all keys are plain identifiers and values have an evaluable repr"]

KEYS = ["a", "b", "c", "foo", "x1", "_y", "__z__", "keyword", "get", "pop", "items", "update", "class", "é", "self", "name", "default", "other", "bindings", "_reserved", "data"]
RESERVED = None


def value(r):
    return r.choice([1, 0, None, "s", "", 2.5, [1, 2], {"k": 1}, (), True, "key 2"])


class Obj:
    pass


def setup(scratch):
    global RESERVED
    from mcpyrate.bunch import Bunch
    RESERVED = set(dir(Bunch()))


def fixed(tier):
    return [{"special": n} for n in sorted(SPECIAL)]


def generate(rng, i):
    return {"seed": rng.randrange(10 ** 12), "n": rng.choice([5, 15, 30, 60])}


def outcome(f):
    try:
        return ("ok", f())
    except (KeyError, TypeError, AttributeError, ValueError, RuntimeError) as e:
        return ("err", type(e).__name__)


def plain(x):
    from mcpyrate.bunch import Bunch
    if isinstance(x, Bunch):
        return dict(x.items())
    return x


def state(b):
    return [(k, b[k]) for k in b]


def judge(case, obs):
    if "special" in case:
        SPECIAL[case["special"]](obs)
        return "special-" + case["special"]
    from mcpyrate.bunch import Bunch, bunchify
    r = random.Random(case["seed"])
    init = {k: value(r) for k in r.sample(KEYS, r.randint(0, 6))}
    hist = [f"init {init}"]
    src = r.randrange(5)
    model = dict(init)
    backing = None
    if src == 0:
        b = Bunch(**init)
    elif src == 1:
        backing = dict(init)
        b = bunchify(backing)
    elif src == 2:
        backing = collections.OrderedDict(init)
        b = bunchify(backing)
    elif src == 3:
        b = Bunch()
        b.replace(Bunch(**init))
    else:
        b = Bunch()
        for k, v in init.items():
            b[k] = v
    others = []      # (bunch, its model): independent copies which must not change

    def show():
        return "\n" + "\n".join(hist[-25:]) + f"\nbunch: {state(b)}\nmodel: {model}"
    for _ in range(case["n"]):
        k = r.choice(KEYS)
        v = value(r)
        res = k in RESERVED
        op = r.randrange(26)
        obs.count("ops")
        if op == 0:
            what, f, g = f"b[{k!r}]", lambda: b[k], lambda: model[k]
        elif op == 1:
            what, f, g = f"b[{k!r}]={v!r}", lambda: b.__setitem__(k, v), lambda: model.__setitem__(k, v)
        elif op == 2:
            what, f, g = f"del b[{k!r}]", lambda: b.__delitem__(k), lambda: model.__delitem__(k)
        elif op in (3, 4, 5, 6, 7):
            obs.count("attr-ops")
            if res:
                if op == 3:
                    what = f"setattr reserved {k}"
                    o = outcome(lambda: setattr(b, k, v))
                    expect(o == ("err", "AttributeError"), "reserved-write", lambda: f"{what}: {o}{show()}")
                m = getattr(b, k)
                expect(callable(m) and getattr(m, "__self__", None) is b, "shadowed", lambda: f"b.{k} is {m!r}{show()}")
                expect(hasattr(b, k), "shadowed", k)
                f = g = lambda: None
                what = f"reserved {k}"
            elif op == 3:
                what, f = f"b.{k}={v!r}", lambda: setattr(b, k, v)

                def g():
                    model[k] = v
            elif op == 4:
                what, f = f"b.{k}", lambda: getattr(b, k)

                def g():
                    if k not in model:
                        raise AttributeError(k)
                    return model[k]
            elif op == 5:
                what, f = f"del b.{k}", lambda: delattr(b, k)

                def g():
                    if k not in model:
                        raise AttributeError(k)
                    del model[k]
            elif op == 6:
                what, f, g = f"hasattr {k}", lambda: hasattr(b, k), lambda: k in model
            else:
                what, f, g = f"getattr {k} default", lambda: getattr(b, k, v), lambda: model.get(k, v)
        elif op == 8:
            what, f, g = f"get({k!r})", lambda: b.get(k), lambda: model.get(k)
        elif op == 9:
            what, f, g = f"get({k!r}, {v!r})", lambda: b.get(k, v), lambda: model.get(k, v)
        elif op == 10:
            what, f, g = f"pop({k!r})", lambda: b.pop(k), lambda: model.pop(k)
        elif op == 11:
            what, f, g = f"pop({k!r}, {v!r})", lambda: b.pop(k, v), lambda: model.pop(k, v)
        elif op == 12:
            what, f, g = "popitem()", lambda: b.popitem(), lambda: model.popitem()
        elif op == 13:
            if r.random() < 0.3:
                what, f, g = "clear()", lambda: b.clear(), lambda: model.clear()
            else:
                what, f, g = "len/bool/in", lambda: (len(b), bool(b), k in b, k not in b), lambda: (len(model), bool(model), k in model, k not in model)
        elif op in (14, 15):
            new = {x: value(r) for x in r.sample(KEYS, r.randint(0, 4))}
            form = r.randrange(5)
            what = f"update form {form} {new}"
            if form == 0:
                new.pop("self", 0)
                f, g = lambda: b.update(**new), lambda: model.update(**new)
            elif form == 1:
                f, g = lambda: b.update(new), lambda: model.update(new)
            elif form == 2:
                f, g = lambda: b.update(list(new.items())), lambda: model.update(list(new.items()))
            elif form == 3:
                f, g = lambda: b.update(Bunch(**new)), lambda: model.update(new)
            else:
                f, g = lambda: b.update(collections.UserDict(new), zz=1), lambda: model.update(new, zz=1)
        elif op == 16:
            what, f, g = f"setdefault({k!r}, {v!r})", lambda: b.setdefault(k, v), lambda: model.setdefault(k, v)
        elif op == 17:
            what, f, g = f"setdefault({k!r})", lambda: b.setdefault(k), lambda: model.setdefault(k)
        elif op == 18:
            what, f, g = "views", lambda: (list(b), list(b.keys()), list(b.values()), list(b.items()), k in b.keys(), (k, v) in b.items(), len(b.items()), set(b.keys()) == set(model)), \
                lambda: (list(model), list(model.keys()), list(model.values()), list(model.items()), k in model.keys(), (k, v) in model.items(), len(model), True)
        elif op == 19:
            def f():
                it, n = iter(b), 0
                keysview = b.keys()
                for x in it:
                    n += 1
                b["__new__x"] = 1
                live = "__new__x" in keysview
                del b["__new__x"]
                return n, live

            def g():
                return len(model), True
            what = "live views"
        elif op == 20:
            what = "eq"
            o = dict(model)
            if r.random() < 0.5:
                o[k] = v
            perm = list(o.items())
            r.shuffle(perm)
            o = dict(perm)
            f, g = lambda: (b == o, o == b, b != o, o != b, b == Bunch(**o), b != Bunch(**o), b == 3, b != None, b == list(b)), \
                lambda: (model == o, o == model, model != o, model != o, model == o, model != o, False, True, False)  # noqa: E711
        elif op == 21:
            form = r.randrange(5)
            what = f"copy form {form}"

            def f():
                nb = [b.copy, lambda: copy.copy(b), lambda: pickle.loads(pickle.dumps(b)), lambda: copy.deepcopy(b), lambda: Bunch(**b)][form]()
                others.append((nb, copy.deepcopy(model)))
                if form in (2, 3):
                    for q in nb:
                        if isinstance(nb[q], (list, dict)) and nb[q] is b[q]:
                            return "aliased value"
                return (isinstance(nb, Bunch), nb is not b, state(nb) == state(b))

            def g():
                return (True, True, True)
        elif op == 22 and others:
            what = "replace"
            ob, om = r.choice(others)
            f = lambda: b.replace(ob)  # noqa: E731

            def g():
                model.clear()
                model.update(copy.deepcopy(om))
            backing = None
        elif op == 23:
            what = "replace bad"
            f, g = lambda: b.replace(r.choice([{}, 3, None, [("a", 1)]])), lambda: (_ for _ in ()).throw(TypeError())
        elif op == 24:
            what = "repr"

            def f():
                if all(x.isidentifier() and x not in ("class",) for x in b):
                    return eval(repr(b), {"Bunch": Bunch}) == model and list(eval(repr(b), {"Bunch": Bunch})) == list(model)
                return True

            def g():
                return True
        else:
            what = "abc"
            f, g = lambda: tuple(isinstance(b, c) for c in (abc.Mapping, abc.MutableMapping, abc.Container, abc.Iterable, abc.Sized)) + (dict(b) == model, {**b} == model, sorted(b) == sorted(model)), lambda: (True,) * 8
        hist.append(what)
        x, y = outcome(f), outcome(g)
        if y[0] == "err":
            obs.count("errors")
        expect(x[0] == y[0], "outcome", lambda: f"{what}: {x}, dict: {y}{show()}")
        if x[0] == "ok":
            expect(plain(x[1]) == y[1] and type(x[1]) is type(y[1]), "result", lambda: f"{what}: {x[1]!r}, dict: {y[1]!r}{show()}")
        else:
            expect(x[1] == y[1], "error-type", lambda: f"{what}: {x[1]}, expected {y[1]}{show()}")
        expect(state(b) == list(model.items()), "state", lambda: f"after {what}{show()}")
        if backing is not None:
            expect(list(backing.items()) == list(model.items()), "bunchify-copy", lambda: f"bunchify is not a view of its dict after {what}{show()}")
        obs.see("op", what.split("(")[0].split("[")[0])
    for nb, om in others:
        expect(state(nb) == list(om.items()), "copy-aliased", lambda: f"a copy changed: {state(nb)} != {om}{show()}")
    return fw.hash_(hist)


def s_bunchify(obs):
    from mcpyrate.bunch import Bunch, bunchify
    d = {"foo": "variable", "bar": "tavern"}
    b = bunchify(d)
    expect(type(b) is Bunch and b.foo == "variable" and b.bar == "tavern", "bunchify", "values")
    d["new"] = 3
    expect(b.new == 3 and len(b) == 3, "bunchify", "not a view of the dict")
    b.other = 4
    expect(d["other"] == 4, "bunchify", "not a view of the dict")
    expect(bunchify(b) is b, "bunchify", "not idempotent")
    c = b.copy()
    c.foo = 1
    expect(d["foo"] == "variable", "bunchify", "copy aliases")
    u = collections.UserDict(a=1)
    bu = bunchify(u)
    bu.z = 2
    expect(u["z"] == 2 and list(bu) == ["a", "z"], "bunchify", "UserDict")
    bu.update(q=3)
    expect(u["q"] == 3 and bu.pop("q") == 3 and "q" not in u and bu.copy() == {"a": 1, "z": 2}, "bunchify", "UserDict")
    for bad in ([], (), "abc", 3, None, {1, 2}, [("a", 1)], object()):
        expect(outcome(lambda: bunchify(bad)) == ("err", "TypeError"), "bunchify-type", repr(bad))
    for bad in ({"not ok": 1}, {"a": 1, "1x": 2}, {"": 1}, {"a-b": 0}):
        expect(outcome(lambda: bunchify(bad)) == ("err", "ValueError"), "bunchify-key", repr(bad))
    import types
    expect(outcome(lambda: bunchify(types.MappingProxyType({"a": 1}))) == ("err", "TypeError"), "bunchify-type", "immutable mapping")


def s_protocols(obs):
    from mcpyrate.bunch import Bunch
    b = Bunch(cat="meow", dog="woof")
    expect(not hasattr(b, "cow") and getattr(b, "cow", 1) == 1, "hasattr", "missing attribute")
    expect(outcome(lambda: b.cow)[1] == "AttributeError", "hasattr", "missing attribute")
    for f in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: x.copy(), lambda x: eval(repr(x), {"Bunch": Bunch})):
        c = f(b)
        expect(type(c) is Bunch and c == b and c is not b and list(c) == ["cat", "dog"] and c.cat == "meow", "copy", repr(c))
        c.cat = "miaow"
        c.cow = "moo"
        del c.dog
        expect(b == {"cat": "meow", "dog": "woof"}, "copy", "aliased")
        expect(outcome(lambda: setattr(c, "get", 1)) == ("err", "AttributeError"), "copy", "a copy lost its reserved names")
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        expect(pickle.loads(pickle.dumps(b, proto)) == b, "pickle", str(proto))
    inner = Bunch(x=[1], y=Bunch(z=2))
    d = copy.deepcopy(inner)
    d.x.append(2)
    d.y.z = 3
    expect(inner.x == [1] and inner.y.z == 2, "deepcopy", "aliased")
    s = copy.copy(inner)
    expect(s.x is inner.x and s.y is inner.y, "copy", "not shallow")
    b["self"] = 1
    expect(b.self == 1 and Bunch(self=2).self == 2, "self", "key named self")
    w = Bunch()
    w.update({"a": 1})
    w.update([("b", 2)], c=3)
    w.update(Bunch(d=4))
    expect(list(w.items()) == [("a", 1), ("b", 2), ("c", 3), ("d", 4)], "update", repr(w))
    try:
        hash(b)
    except TypeError:
        pass
    else:
        raise fw.Violation("hash", "a mutable mapping is hashable")
    it = iter(Bunch(a=1, b=2))
    expect([next(it), next(it)] == ["a", "b"], "iter", "order")


def s_reserved(obs):
    """No method can be shadowed, whatever way one writes the attribute; items may have such keys."""
    from mcpyrate.bunch import Bunch, bunchify
    for mk in (lambda: Bunch(), lambda: Bunch(a=1), lambda: Bunch(a=1).copy(), lambda: bunchify({"a": 1}), lambda: copy.copy(Bunch()), lambda: copy.deepcopy(Bunch(q=1)), lambda: pickle.loads(pickle.dumps(Bunch()))):
        for name in ("keys", "items", "values", "get", "pop", "popitem", "clear", "update", "setdefault", "copy", "replace", "__eq__", "__len__", "__getitem__", "__iter__", "__contains__", "__class__", "__repr__"):
            b = mk()
            before = state(b)
            o = outcome(lambda: setattr(b, name, 42))
            expect(o == ("err", "AttributeError"), "reserved-write", f"{name}: {o}")
            expect(state(b) == before, "reserved-write", f"{name} changed the data")
            b[name] = 42
            if not name.startswith("__"):
                expect(callable(getattr(b, name)), "shadowed", name)
            expect(b[name] == 42 and b.get(name) == 42 and name in b and b.pop(name) == 42 and state(b) == before, "item-access", name)
        b = mk()
        b.zebra = 1
        b.zebra = 2
        expect(b.zebra == 2 and b["zebra"] == 2, "rewrite", "attribute")


SPECIAL = {f.__name__: f for f in (s_bunchify, s_protocols, s_reserved)}
