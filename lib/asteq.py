"""Structural comparison of ASTs, independent of mcpyrate."""
import ast


def norm(node, ctx=True, kinds=False, in_fstr=False):
    """Canonical nested tuple of a tree (no positions)."""
    if isinstance(node, ast.JoinedStr):
        return ("JoinedStr", ("values", norm(joined_values(node), ctx, kinds)))
    if isinstance(node, ast.AST):
        out = [type(node).__name__]
        for f in node._fields:
            if f in ("type_comment", "type_ignores"):
                continue
            if f == "kind" and not kinds:
                continue
            if f == "ctx" and not ctx:
                continue
            v = getattr(node, f, None)
            if f in ("type_params", "decorator_list", "keywords", "kw_defaults", "posonlyargs") and v is None:
                v = []
            out.append((f, norm(v, ctx, kinds)))
        return tuple(out)
    if isinstance(node, (list, tuple)) and not isinstance(node, str):
        if isinstance(node, tuple):
            return ("tuple",) + tuple(norm(x, ctx, kinds) for x in node)
        return [norm(x, ctx, kinds) for x in node].__repr__() if False else ("list",) + tuple(norm(x, ctx, kinds) for x in node)
    if isinstance(node, (float, complex)):
        return (type(node).__name__, repr(node))
    return (type(node).__name__, node)


def equal(a, b, **kw):
    return norm(a, **kw) == norm(b, **kw)


def joined_values(node):
    """Parts of an f-string, without the empty and split text pieces that CPython's parser leaves behind."""
    out = []
    for v in node.values:
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            if not v.value:
                continue
            if out and isinstance(out[-1], ast.Constant):
                out[-1] = ast.Constant(value=out[-1].value + v.value)
                continue
        out.append(v)
    return out


def firstdiff(a, b, path="tree", ctx=True):
    """Human-readable first difference."""
    if isinstance(a, ast.AST) and isinstance(b, ast.AST):
        if type(a) is not type(b):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}: {safe_dump(a)} / {safe_dump(b)}"
        if isinstance(a, ast.JoinedStr):
            return firstdiff(joined_values(a), joined_values(b), f"{path}.values", ctx)
        for f in a._fields:
            if f in ("type_comment", "type_ignores", "kind") or (f == "ctx" and not ctx):
                continue
            d = firstdiff(getattr(a, f, None), getattr(b, f, None), f"{path}.{f}", ctx)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = firstdiff(x, y, f"{path}[{i}]", ctx)
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} elements: {[safe_dump(x) for x in a][:8]} / {[safe_dump(x) for x in b][:8]}"
        return None
    if type(a) is not type(b) or repr(a) != repr(b):
        return f"{path}: {safe_dump(a)} vs {safe_dump(b)}"
    return None


def safe_dump(x):
    try:
        s = ast.dump(x) if isinstance(x, ast.AST) else repr(x)
    except Exception as e:
        s = f"<{type(x).__name__} {e}>"
    return s if len(s) < 300 else s[:300] + "..."


def missing(want, got, path="tree"):
    """Fields that the nodes of `want` have and those of `got`, of the same shape, lack."""
    if isinstance(want, ast.AST) and isinstance(got, ast.AST):
        for f in want._fields:
            if hasattr(want, f):
                if not hasattr(got, f):
                    if f in ("kind", "type_comment"):
                        continue
                    return f"{path}: {type(got).__name__} has no field {f!r}"
                if not (isinstance(want, ast.JoinedStr) and f == "values"):
                    d = missing(getattr(want, f), getattr(got, f), f"{path}.{f}")
                    if d:
                        return d
    elif isinstance(want, list) and isinstance(got, list):
        for i, (x, y) in enumerate(zip(want, got)):
            d = missing(x, y, f"{path}[{i}]")
            if d:
                return d
    return None


def stdlib_files():
    """The interpreter's own library: a corpus of real code."""
    import os
    import sysconfig
    root = sysconfig.get_path("stdlib")
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "site-packages", "dist-packages", "bad_coding"))
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                if os.path.getsize(p) < 120000:
                    out.append(p)
    return out
