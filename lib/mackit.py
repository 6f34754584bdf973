"""Monitor macros, and a reference expander written from the documentation.

Each macro is a pure behaviour `b(tree, args, vis, info)`; `vis` is the object whose visit/visit_once/visit_recursively it may call.
The same behaviours run under mcpyrate (wrapped by real macro functions that log every call) and under the reference expander below.
"""
import ast
import copy
import sys
import types

import asteq

C = ast.Constant
N = lambda s: ast.Name(id=s, ctx=ast.Load())  # noqa: E731


def call(name, *args):
    return ast.Call(func=N(name), args=list(args), keywords=[])


def sub(name, tree, args=None):
    head = N(name)
    if args:
        head = ast.Subscript(value=head, slice=args[0] if len(args) == 1 and not isinstance(args[0], ast.Tuple) else ast.Tuple(elts=list(args), ctx=ast.Load()), ctx=ast.Load())
    return ast.Subscript(value=head, slice=tree, ctx=ast.Load())


def stm(s):
    return ast.parse(s).body


def withm(name, body, args=None):
    head = N(name)
    if args:
        head = ast.Subscript(value=head, slice=ast.Tuple(elts=list(args), ctx=ast.Load()), ctx=ast.Load())
    return ast.With(items=[ast.withitem(context_expr=head, optional_vars=None)], body=body)


def tup(*elts):
    return ast.Tuple(elts=list(elts), ctx=ast.Load())


dc = copy.deepcopy
MACROS = {}   # name -> (function, parametric, isname)


def macro(*, parametric=False, name=False):
    def deco(f):
        MACROS[f.__name__] = (f, parametric, name)
        return f
    return deco


# ---- macros usable in every position (dispatch on syntax)
def suite(tree):
    return tree if isinstance(tree, list) else [tree]


@macro()
def m_id(tree, args, vis, info):
    return tree


@macro()
def m_wrap(tree, args, vis, info):
    if info["syntax"] in ("expr", "name"):
        return call("wrap", tree)
    if info["syntax"] == "block":
        return [ast.If(test=N("cond"), body=tree, orelse=[])]
    return [tree, ast.Expr(value=call("decorated", C(value=tree.name)))] if hasattr(tree, "name") else tree


@macro()
def m_dup(tree, args, vis, info):
    if info["syntax"] in ("expr", "name"):
        return tup(tree, dc(tree))
    return suite(tree) + dc(suite(tree))


@macro()
def m_none(tree, args, vis, info):
    return None


@macro()
def m_emit(tree, args, vis, info):
    """Emit other macro invocations around the input."""
    if info["syntax"] in ("expr", "name"):
        return call("emit", sub("m_wrap", tree), sub("m_pid", C(value=1), [C(value=2), sub("m_id", C(value=3))]))
    return stm("before = 1") + [withm("m_wrap", suite(tree))] + [ast.Expr(value=sub("m_id", N("after")))]


@macro()
def m_inout(tree, args, vis, info):
    """Expand inside-out."""
    tree = vis.visit_recursively(tree)
    if info["syntax"] in ("expr", "name"):
        return call("inout", tree)
    return stm("inout = 1") + (suite(tree) if tree is not None else [])


@macro()
def m_visit(tree, args, vis, info):
    tree = vis.visit(tree)
    if info["syntax"] in ("expr", "name"):
        return call("visited", tree)
    return (suite(tree) if tree is not None else []) + stm("visited = 1")


@macro()
def m_once(tree, args, vis, info):
    tree = vis.visit_once(tree)
    if info["syntax"] in ("expr", "name"):
        return call("once", tree)
    return stm("once = 1") + [tree] if not isinstance(tree, list) else tree


@macro()
def m_oncerec(tree, args, vis, info):
    """visit_recursively, dynamically inside of a visit_once."""
    if info["syntax"] in ("expr", "name"):
        return tup(vis.visit_recursively(tree), C(value="rec"))
    t = vis.visit_recursively(tree)
    return suite(t) if t is not None else None


@macro()
def m_count(tree, args, vis, info):
    """Recursive macro: counts down over its own expansions."""
    if info["syntax"] in ("expr", "name"):
        if isinstance(tree, ast.Constant) and isinstance(tree.value, int) and not isinstance(tree.value, bool) and 0 < tree.value < 6:
            return tup(C(value=tree.value), sub("m_count", C(value=tree.value - 1)))
        return tree
    return tree


@macro(parametric=True)
def m_pid(tree, args, vis, info):
    if info["syntax"] in ("expr", "name"):
        return call("pid", tree, *args)
    return suite(tree) + [ast.Expr(value=call("pid", *args))]


@macro(parametric=True)
def m_pdrop(tree, args, vis, info):
    """Drops its arguments unexpanded."""
    if info["syntax"] in ("expr", "name"):
        return call("pdrop", tree, C(value=len(args)))
    return tree


@macro(parametric=True)
def m_pexp(tree, args, vis, info):
    """Expands its arguments (not the tree) explicitly."""
    if args:
        args = vis.visit(args)
    if info["syntax"] in ("expr", "name"):
        return call("pexp", *(args or []), tree)
    return [ast.Expr(value=call("pexp", *(args or [])))] + suite(tree)


@macro(parametric=True)
def m_pself(tree, args, vis, info):
    """Re-emits itself with one argument less."""
    if info["syntax"] in ("expr", "name"):
        if args:
            return sub("m_pself", tup(tree, args[0]), args[1:]) if len(args) < 5 else tree
        return call("pself", tree)
    if args and info["syntax"] == "block":
        return [withm("m_pself", [ast.Expr(value=args[0])] + tree, args[1:])]
    return tree


@macro()
def m_as(tree, args, vis, info):
    """Uses the as-part of a block invocation."""
    if info["syntax"] in ("expr", "name"):
        return tree
    ov = info.get("optional_vars")
    if ov is not None:
        return [ast.Assign(targets=[ov], value=C(value="as"))] + suite(tree)
    return tree


@macro()
def m_inner(tree, args, vis, info):
    """Puts generated nodes deep inside of the input."""
    for t in suite(tree):
        for n in list(ast.walk(t)):
            if isinstance(n, ast.Call) and not isinstance(n.func, ast.Lambda) and len(n.args) < 4:
                n.args.insert(0, call("inner"))
    return tree


@macro()
def m_gen(tree, args, vis, info):
    """Returns a one-shot iterable / a tuple instead of a list."""
    if info["syntax"] in ("expr", "name"):
        return tree
    return (s for s in suite(tree))


@macro()
def m_rev(tree, args, vis, info):
    if info["syntax"] in ("expr", "name"):
        if isinstance(tree, ast.Tuple):
            return tup(*reversed(tree.elts))
        return tree
    return tuple(reversed(suite(tree)))


@macro(name=True)
def n_same(tree, args, vis, info):
    return tree


@macro(name=True)
def n_fresh(tree, args, vis, info):
    """A new node of the same name: like returning the original one."""
    if info["syntax"] == "name":
        return N(tree.id)
    return tree


@macro(name=True)
def n_const(tree, args, vis, info):
    if info["syntax"] in ("expr", "name"):
        return C(value="n_const")
    return tree


@macro(name=True)
def n_emit(tree, args, vis, info):
    if info["syntax"] == "name":
        return call("n", sub("m_wrap", N("n_const")), N("n_same"))
    return tree


@macro(name=True)
def n_none(tree, args, vis, info):
    return None


@macro(name=True, parametric=True)
def n_par(tree, args, vis, info):
    if info["syntax"] == "name":
        return call("npar")
    if info["syntax"] == "expr":
        return call("npar", tree, *args)
    return tree


# ------------------------------------------------------------------ canonical trees
class Canon(ast.NodeTransformer):
    """Strip what the documentation allows the expander to add: markers, coverage dummies, dummies evaluating to None."""
    drop_pass = False   # also `pass`, which fills suites emptied in code without positions

    def visit(self, tree):
        if isinstance(tree, list):
            out = []
            for t in tree:
                r = self.visit(t)
                if isinstance(r, list):
                    out.extend(r)
                elif r is not None:
                    out.append(r)
            return out
        if isinstance(tree, ast.AST) and not type(tree).__module__.endswith("ast"):   # a marker
            return self.visit(tree.body) if tree.body is not None else None
        if isinstance(tree, ast.Assign) and len(tree.targets) == 1 and isinstance(tree.targets[0], ast.Name) and tree.targets[0].id.startswith("_mcpyrate"):
            return None
        if self.drop_pass and isinstance(tree, ast.Pass):
            return None
        if isinstance(tree, ast.Call) and isinstance(tree.func, ast.Lambda) and not tree.args and not tree.keywords \
                and isinstance(tree.func.body, ast.Constant) and tree.func.body.value is None and not ast.dump(tree.func.args).count("arg("):
            return ast.copy_location(C(value=None), tree)
        return super().visit(tree)


def canon(tree):
    return Canon().visit(dc(tree)) if tree is not None else None


def N_(tree):
    """Hashable canonical form."""
    if isinstance(tree, list):
        return ("list",) + tuple(asteq.norm(t, ctx=False) for t in Canon().visit(dc(tree)))
    if tree is None:
        return None
    return asteq.norm(canon(tree), ctx=False)


# ------------------------------------------------------------------ reference expander
class RefDone(ast.AST):
    """Opaque to the reference expander."""
    _fields = ("body",)

    def __init__(self, body=None):
        self.body = body


class RefExpander:
    def __init__(self, bindings, log, max_calls=4000):
        self.b = bindings     # name -> macro record name
        self.log = log
        self.recursive = True
        self.max_calls = max_calls

    # --- API that behaviours call
    def visit(self, tree):
        if tree is None or isinstance(tree, RefDone):
            return tree
        if isinstance(tree, list):
            out = self.many(tree)
            if out:
                tree[:] = out
                return tree
            return None
        return self.node(tree)

    def _mode(self, flag, tree):
        old, self.recursive = self.recursive, flag
        try:
            return self.visit(tree)
        finally:
            self.recursive = old

    def visit_recursively(self, tree):
        return self._mode(True, tree)

    def visit_once(self, tree):
        return RefDone(self._mode(False, tree))

    # --- machinery
    def many(self, lst):
        out = []
        for x in lst:
            r = self.visit(x) if isinstance(x, (ast.AST, RefDone)) else x
            if isinstance(x, (ast.AST, RefDone)) and r is None:
                continue
            out.extend(r) if isinstance(r, list) else out.append(r)
        return out

    def generic(self, node):
        for f in node._fields:
            v = getattr(node, f, None)
            if isinstance(v, list):
                v[:] = self.many(v)
            elif isinstance(v, ast.AST):
                r = self.node(v)
                if r is None:
                    delattr(node, f)
                else:
                    setattr(node, f, r)
        return node

    def head(self, c):
        """-> (name, args) of a macro-invocation head, if it is one."""
        if isinstance(c, ast.Name):
            return c.id, []
        if isinstance(c, ast.Subscript) and isinstance(c.value, ast.Name):
            return c.value.id, c.slice.elts if isinstance(c.slice, ast.Tuple) else [c.slice]
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and not c.keywords:
            return c.func.id, c.args
        return None, None

    def ismacro(self, c):
        name, args = self.head(c)
        if name is None or name not in self.b:
            return None
        if args and not MACROS[self.b[name]][1]:
            return None
        return name, args

    def apply(self, syntax, name, tree, args, invocation, **extra):
        if len(self.log) > self.max_calls:
            raise RecursionError("reference: too many calls")
        rec = self.b[name]
        info = dict(syntax=syntax, **extra)
        log_call(self.log, rec, tree, args, invocation, info)
        out = MACROS[rec][0](tree, args, self, info)
        if out is not None and not isinstance(out, (ast.AST, RefDone)):
            out = list(out)
        self.fill(out, invocation)
        if self.recursive and syntax != "name":
            out = self.visit(out)
        return out

    def fill(self, out, invocation):
        """Nodes without a position get that of the invocation."""
        if out is None or not hasattr(invocation, "lineno"):
            return
        stack = list(out) if isinstance(out, list) else [out]
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack.extend(n)
                continue
            if "lineno" in n._attributes and not hasattr(n, "lineno"):
                ast.copy_location(n, invocation)
            for f in n._fields:
                v = getattr(n, f, None)
                stack.extend(x for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST))

    def node(self, node):
        if isinstance(node, RefDone):
            return node
        if isinstance(node, ast.Subscript):
            m = self.ismacro(node.value)
            if m:
                out = self.apply("expr", m[0], node.slice, m[1], node)
                return ast.copy_location(C(value=None), node) if out is None else out
            return self.generic(node)
        if isinstance(node, ast.With):
            for item in node.items:
                m = self.ismacro(item.context_expr)
                if m:
                    whole = copy.copy(node)
                    whole.items = list(node.items)
                    node.items = [i for i in node.items if i is not item]
                    return self.apply("block", m[0], [node] if node.items else node.body, m[1], whole, optional_vars=item.optional_vars)
            return self.generic(node)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in reversed(node.decorator_list):
                m = self.ismacro(d)
                if m:
                    whole = copy.copy(node)
                    whole.decorator_list = list(node.decorator_list)
                    node.decorator_list = [x for x in node.decorator_list if x is not d]
                    return self.apply("decorator", m[0], node, m[1], whole)
            return self.generic(node)
        if isinstance(node, ast.Name) and node.id in self.b and MACROS[self.b[node.id]][2]:
            old, self.recursive = self.recursive, False
            out = self.apply("name", node.id, node, [], node)
            self.recursive = old
            if out is None:
                return RefDone(ast.copy_location(C(value=None), node))
            if isinstance(out, ast.Name) and out.id == node.id:
                return RefDone(out)
            return self.visit(out) if self.recursive else out
        return self.generic(node)


def log_call(log, rec, tree, args, invocation, info):
    ev = (rec, info["syntax"], N_(tree), N_(list(args)) if args is not None else None, N_(invocation),
          ("as", N_(info["optional_vars"])) if "optional_vars" in info else None)
    log.append(ev)


# ------------------------------------------------------------------ the real macros
LOG = []
EXPANDERS = set()


class Vis:
    """Thin adapter: what behaviours call -> the real expander."""
    def __init__(self, expander):
        self.e = expander

    def visit(self, t):
        return self.e.visit(t)

    def visit_once(self, t):
        return self.e.visit_once(t)

    def visit_recursively(self, t):
        return self.e.visit_recursively(t)


def make_module(modname="mcpv_mac"):
    from mcpyrate import namemacro, parametricmacro
    mod = types.ModuleType(modname)
    mod.__file__ = f"<{modname}>"

    def mk(rec, fn, parametric, isname):
        def f(tree, **kw):
            info = {k: kw[k] for k in ("syntax", "optional_vars") if k in kw}
            if (info["syntax"] == "block") != ("optional_vars" in kw):
                raise AssertionError(f"optional_vars in {info['syntax']} invocation: {'optional_vars' in kw}")
            log_call(LOG, rec, tree, kw["args"], kw["invocation"], info)
            EXPANDERS.add((type(kw["expander"]).__name__, kw["expander"].filename))
            return fn(tree, kw["args"], Vis(kw["expander"]), info)
        f.__name__ = f.__qualname__ = rec
        f.__module__ = modname
        if isname:
            f = namemacro(f)
        if parametric:
            f = parametricmacro(f)
        return f
    for rec, (fn, parametric, isname) in MACROS.items():
        setattr(mod, rec, mk(rec, fn, parametric, isname))
    mod.notcallable = 42
    sys.modules[modname] = mod
    return mod


# ------------------------------------------------------------------ random macro-using programs
EXPRM = [m for m in MACROS]
BLOCKM = [m for m in MACROS]


class Inject(ast.NodeTransformer):
    """Randomly turn parts of a macro-free module into macro invocations."""
    def __init__(self, rng, pe, ps, names, nest=3):
        self.r = rng
        self.pe = pe
        self.ps = ps
        self.names = names      # macro record -> use-site name
        self.keys = sorted(names)
        self.nest = nest
        self.n = 0
        self.nopat = 0

    def pick(self, pred=lambda m: True):
        ks = [k for k in self.keys if pred(k)]
        return self.r.choice(ks)

    def headexpr(self, m, call_ok=True):
        head = N(self.names[m])
        args = []
        if MACROS[m][1] and self.r.random() < 0.7:
            for _ in range(self.r.randint(1, 3)):
                a = self.r.choice([lambda: C(value=self.r.randint(0, 9)), lambda: N("argname"), lambda: sub(self.names[self.pick(lambda k: k != "m_none")], C(value="in arg")),
                                   lambda: tup(C(value=1), N("z")), lambda: N(self.names[self.pick(lambda k: MACROS[k][2])]), lambda: ast.List(elts=[C(value=5)], ctx=ast.Load())])()
                args.append(a)
            if call_ok and self.r.random() < 0.2:
                return ast.Call(func=head, args=args, keywords=[])
            if len(args) == 1 and not isinstance(args[0], ast.Tuple):
                return ast.Subscript(value=head, slice=args[0], ctx=ast.Load())
            return ast.Subscript(value=head, slice=tup(*args), ctx=ast.Load())
        return head

    def expr_inv(self, node):
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            if isinstance(node, (ast.Starred, ast.Slice)):
                return node
            node = ast.Subscript(value=self.headexpr(self.pick()), slice=node, ctx=ast.Load())
            self.n += 1
        return node

    def visit(self, node):
        if isinstance(node, ast.pattern):
            return node
        if isinstance(node, (ast.JoinedStr, ast.FormattedValue, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.type_param)):
            return node
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and self.r.random() < self.pe / 2:
            self.n += 1
            return N(self.names[self.pick(lambda k: MACROS[k][2])])
        if isinstance(node, ast.Slice):
            return node
        if isinstance(node, ast.NamedExpr):
            node.value = self.visit(node.value)
            return node
        if isinstance(node, ast.TypeAlias):
            return node
        if isinstance(node, ast.AugAssign):
            node.value = self.visit(node.value)
            return node
        if isinstance(node, ast.Call) and self.r.random() < 0.3:
            pass
        node = super().visit(node)
        if isinstance(node, ast.expr) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and not isinstance(node, (ast.Starred, ast.Slice)) and self.r.random() < self.pe:
            node = self.expr_inv(node)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and self.r.random() < self.ps * 2:
            for _ in range(self.r.randint(1, 3)):
                node.decorator_list.insert(self.r.randint(0, len(node.decorator_list)), self.headexpr(self.pick()))
                self.n += 1
        if isinstance(node, ast.With) and self.r.random() < self.ps * 2:
            node.items.insert(self.r.randint(0, len(node.items)), self.item())
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and self.r.random() < self.ps:
                i = self.r.randint(0, len(v) - 1)
                j = self.r.randint(i + 1, len(v))
                if any(isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in v[i:j]):
                    continue
                w = ast.With(items=[self.item() for _ in range(self.r.choice([1, 1, 2, 3]))], body=v[i:j])
                if self.r.random() < 0.2:
                    w.items.insert(self.r.randint(0, len(w.items)), ast.withitem(context_expr=call("cm"), optional_vars=self.r.choice([None, ast.Name(id="cmv", ctx=ast.Store())])))
                v[i:j] = [w]
                self.n += 1
        return node

    def item(self):
        self.n += 1
        ov = None
        if self.r.random() < 0.3:
            ov = self.r.choice([ast.Name(id="r", ctx=ast.Store()), ast.Tuple(elts=[ast.Name(id="r", ctx=ast.Store()), ast.Name(id="s", ctx=ast.Store())], ctx=ast.Store())])
        return ast.withitem(context_expr=self.headexpr(self.pick()), optional_vars=ov)


def program(rng, src, pe=0.12, ps=0.3, aliases=True, only=None, modname="mcpv_mac"):
    """-> (source with macro-imports, bindings use-site name -> record, number of injected invocations)"""
    keys = sorted(only or MACROS)
    names = {k: (f"zz_{k}" if aliases and rng.random() < 0.2 else k) for k in keys}
    # macro outputs refer to some macros by their own names: bind those as well
    tree = ast.parse(src)
    inj = Inject(rng, pe, ps, names)
    tree = inj.visit(tree)
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    bindings = {names[k]: k for k in keys}
    bindings.update({k: k for k in keys})
    imports = [f"{k} as {names[k]}" if names[k] != k else k for k in keys] + [k for k in keys if names[k] != k]
    rng.shuffle(imports)
    cut = rng.randint(0, len(imports))
    lines = [f"from {modname} import macros, " + ", ".join(part) for part in (imports[:cut], imports[cut:]) if part]
    return "\n".join(lines) + "\n" + text + "\n", bindings, inj.n
