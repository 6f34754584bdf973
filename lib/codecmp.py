"""Deep comparison of code objects."""
import types

ATTRS = ["co_name", "co_qualname", "co_flags", "co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_nlocals", "co_stacksize",
         "co_varnames", "co_names", "co_freevars", "co_cellvars", "co_code", "co_exceptiontable"]


def const(c):
    if isinstance(c, types.CodeType):
        return "code"
    if isinstance(c, tuple):
        return ("tuple",) + tuple(const(x) for x in c)
    if isinstance(c, frozenset):
        return ("frozenset",) + tuple(sorted(repr(const(x)) for x in c))
    return (type(c).__name__, repr(c))


def diff(a, b, positions="all", path="code"):
    """None if equal; else a description. positions: 'all' (every instruction), 'skip1' (all but those at line 1), 'lines', 'none'."""
    for attr in ATTRS:
        x, y = getattr(a, attr), getattr(b, attr)
        if x != y:
            return f"{path}.{attr}: {x!r} vs {y!r}"
    if len(a.co_consts) != len(b.co_consts):
        return f"{path}.co_consts: {a.co_consts!r} vs {b.co_consts!r}"
    for i, (x, y) in enumerate(zip(a.co_consts, b.co_consts)):
        if const(x) != const(y):
            return f"{path}.co_consts[{i}]: {x!r} vs {y!r}"
        if isinstance(x, types.CodeType):
            d = diff(x, y, positions, f"{path}.{x.co_name}")
            if d:
                return d
    if positions != "none":
        if a.co_firstlineno != b.co_firstlineno:
            return f"{path}.co_firstlineno: {a.co_firstlineno} vs {b.co_firstlineno}"
        p, q = list(a.co_positions()), list(b.co_positions())
        if positions == "lines":
            p, q = [x[0] for x in p], [x[0] for x in q]
        for i, (x, y) in enumerate(zip(p, q)):
            if x != y and not (positions == "skip1" and x[0] == y[0] == 1):
                return f"{path} position of instruction {i}: {x} vs {y}"
    return None


def walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from walk(c)
