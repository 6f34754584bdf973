"""Random generator of Python 3.12 source text covering the whole grammar.

`Gen(rng).module()` gives source text that `ast.parse` accepts (the generator validates and retries);
`.expr()` and `.suite()` give text of one expression / of a statement list.
Not all of it passes the symbol-table pass of the compiler; use `.compilable()` for that.
"""
import ast

NAMES = ["a", "b", "c", "x", "y", "foo", "bar", "spam", "_", "__x", "match", "case", "type", "print", "len", "self",
         "ValueError", "UserWarning", "äö", "Ω", "name_1", "it", "q", "u", "h", "m_0", "data"]
ATTRS = ["a", "b", "attr", "real", "imag", "match", "type", "x", "__class__", "foo", "ö"]
BINOPS = ["+", "-", "*", "@", "/", "%", "<<", ">>", "|", "^", "&", "//", "**"]
CMPOPS = ["==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in"]
STRFRAGS = ["", "abc", "'", '"', "\\n", "\\\\", "{", "}", "%s", "\\t", "\\x00", "\\x7f", "é", "\\u2028", "\\N{BULLET}", "#", " ", "$", "日本", "\\'", '\\"',
            "\\x1b[31m", "\\r", "\\ud800", "\\U0001f600", "\U0001f600", "\\a", "\\0", "//", "f'", "{{", "!r", ":", "\\x85", "\\xa0", "\\v", "\\f"]


class Gen:
    def __init__(self, rng, depth=4, names=None, features=None):
        self.r = rng
        self.maxdepth = depth
        self.names = names or NAMES
        self.base_ban = set(features or ())   # features banned throughout
        self.ban = set(self.base_ban)
        self.in_async = False

    # ---------------------------------------------------------------- helpers
    def ch(self, *opts):
        return self.r.choice(opts)

    def p(self, prob):
        return self.r.random() < prob

    def name(self):
        return self.r.choice(self.names)

    def n(self, lo, hi):
        return self.r.randint(lo, hi)

    # ---------------------------------------------------------------- literals
    def number(self):
        return self.r.choice(["0", "1", "2", "7", "42", "10**3", "0x1f", "0b101", "0o17", "1_000", "123456789012345678901234567890",
                              "1.0", "0.1", ".5", "1e10", "1e-10", "1e309", "3.14159", "1j", "0j", "2.5j", "1e400j", "1E5", "00", "0.0",
                              "0xFFFFFFFFFFFFFFFFFFFF", "1e100", "1.5e300j"])

    def string(self):
        kind = self.n(0, 9)
        if kind == 0:
            frs = [f for f in STRFRAGS if f.isascii() and not f.startswith(("\\u", "\\U", "\\N"))]
            body = "".join(self.r.choice(frs) for _ in range(self.n(0, 4))).replace('"', "'")
            return self.ch("b", "B") + '"' + body + '"'
        body = "".join(self.r.choice(STRFRAGS) for _ in range(self.n(0, 4)))
        if kind == 1:
            return 'u"' + body.replace('"', "") .rstrip("\\") + '"'
        if kind == 2:
            return 'r"' + body.replace('"', "").rstrip("\\") + '"'
        if kind == 3:
            return '"""' + body.replace('"', "'") + self.ch("\n", "\n  x", "") + ' """'
        if kind == 4:
            return '"' + body.replace('"', "'") + '" ' + "'z" + "'"
        return '"' + body.replace('"', "'") + '"'

    def fstring(self, d, nest=0):
        """PEP 701 f-strings, with every kind of part."""
        quote = self.ch('"', "'", '"""', "'''")
        parts = []
        for _ in range(self.n(0, 4)):
            k = self.n(0, 9)
            if k <= 3:
                s = self.r.choice(STRFRAGS)
                s = s.replace("{", "{{").replace("}", "}}") if "\\N" not in s else s
                if quote[0] in s or s.startswith("\\ud"):
                    s = "x"
                parts.append(s)
            else:
                e = self.expr(max(d - 1, 0))
                if "\n" in e and len(quote) == 1:
                    e = "x"
                if e.lstrip().startswith("{") or e.lstrip().startswith("*"):
                    e = " " + e
                # lambda and := need parentheses; others are bare
                if "lambda" in e or ":=" in e or e.lstrip().startswith("yield") or self.p(0.2):
                    e = "(" + e + ")"
                conv = self.ch("", "", "", "!r", "!s", "!a")
                eq = self.ch("", "", "", "=") if "\n" not in e else ""
                spec = ""
                if self.p(0.4):
                    spec = ":" + self.ch("", ">10", ".2f", "%H:%M", "{w}", "{w}.{p}", "{w!r:>{q}}", "x^{w}", "é", "{'a'}", " ", "\\n", "\\x41", "\\\\",
                                         "#x", "=+5", "'" if quote[0] == '"' else '"')
                parts.append("{" + e + eq + (" " if self.p(.1) and not eq else "") + conv + spec + "}")
        pre = self.ch("f", "f", "F", "rf") if not any("\\" in x for x in parts) else "f"
        return pre + quote + "".join(parts) + quote

    # ---------------------------------------------------------------- expressions
    def atom(self):
        k = self.n(0, 11)
        if k <= 4:
            return self.name()
        if k <= 6:
            return self.number()
        if k <= 8:
            return self.string()
        return self.ch("None", "True", "False", "...", "()", "[]", "{}", "(1)", "__debug__")

    def exprs(self, d, lo=0, hi=3, star=True):
        out = []
        for _ in range(self.n(lo, hi)):
            if star and self.p(0.12):
                out.append("*" + self.par(d))
            else:
                out.append(self.expr(d))
        return out

    def par(self, d):
        """An expression safe in operand position."""
        e = self.expr(d)
        return e if (e.isidentifier() or e.isdigit()) else "(" + e + ")"

    def expr(self, d=None):
        if d is None:
            d = self.maxdepth
        if d <= 0 or self.p(0.08):
            return self.atom()
        d -= 1
        k = self.n(0, 36)
        if k <= 3:
            op = self.r.choice(BINOPS)
            if self.p(0.5):
                return f"{self.operand(d)} {op} {self.operand(d)}"
            return f"{self.par(d)}{op}{self.par(d)}"
        if k == 4:
            return f"{self.ch('-', '+', '~', 'not ', '- ', '--', '-~')}{self.par(d)}"
        if k == 5:
            return self.ch("-1", "-1 ** 2", "(-1) ** 2", "2 ** -1", "not not a", "-1j", "- -1", "~-1", "not a in b", "(not a) in b", "-a.b", "(-1).real", "await_")
        if k <= 7:
            return self.ch(" and ", " or ").join(self.operand(d) for _ in range(self.n(2, 4)))
        if k == 8:
            return f"({self.par(d)} and {self.par(d)}) {self.ch('and','or')} {self.par(d)}"
        if k <= 10:
            s = self.operand(d)
            for _ in range(self.n(1, 3)):
                s += f" {self.r.choice(CMPOPS)} {self.operand(d)}"
            return s
        if k == 11:
            return f"{self.par(d)} if {self.par(d)} else {self.par(d)}"
        if k == 12:
            return f"lambda {self.params(d, ann=False)}: {self.expr(d)}"
        if k <= 15:
            return self.call(d)
        if k <= 17:
            e = self.par(d)
            if e.isdigit():
                e += " "
            return f"{e}.{self.r.choice(ATTRS)}"
        if k <= 20:
            return f"{self.par(d)}[{self.slices(d)}]"
        if k == 21:
            es = self.exprs(d, 0, 4)
            return "[" + ", ".join(es) + "]"
        if k == 22:
            es = self.exprs(d, 0, 4)
            return "(" + ", ".join(es) + ("," if es else "") + ")"
        if k == 23:
            return "{" + ", ".join(self.exprs(d, 1, 4)) + "}"
        if k == 24:
            items = []
            for _ in range(self.n(0, 4)):
                if self.p(0.25):
                    items.append("**" + self.par(d))
                else:
                    items.append(f"{self.expr(d)}: {self.expr(d)}" if self.p(.5) else f"{self.par(d)}: {self.par(d)}")
            return "{" + ", ".join(items) + "}"
        if k <= 28:
            return self.comp(d)
        if k == 29:
            return f"({self.name()} := {self.expr(d)})"
        if k == 30 and "yield" not in self.ban:
            return self.ch("(yield)", f"(yield {self.par(d)})", f"(yield from {self.par(d)})", f"(yield {self.par(d)}, 1)")
        if k == 31 and "await" not in self.ban:
            return f"(await {self.par(d)})"
        if k <= 34 and "fstring" not in self.ban:
            return self.fstring(d)
        if k == 35 and "fstring" not in self.ban:
            return self.string().replace("b\"", "\"").replace("B\"", "\"") + " " + self.fstring(d)
        return self.atom()

    def operand(self, d):
        e = self.expr(d)
        if e.startswith("lambda") or ":=" in e[:30] or " if " in e:
            return "(" + e + ")"
        return e

    def call(self, d):
        args = self.exprs(d, 0, 3)
        seen = set()
        kws = []
        for _ in range(self.n(0, 2)):
            if self.p(0.3):
                kws.append("**" + self.par(d))
            else:
                nm = self.name()
                if nm in seen:
                    continue
                seen.add(nm)
                kws.append(f"{nm}={self.par(d)}")
        if kws and self.p(0.2) and not any(k.startswith("**") for k in kws):
            kws.append("*" + self.par(d))
        if not kws and not args and self.p(0.3):
            return f"{self.par(d)}({self.par(d)} for {self.target(0)} in {self.par(d)})"
        return f"{self.par(d)}({', '.join(args + kws)})"

    def slices(self, d):
        def one():
            k = self.n(0, 5)
            if k <= 2:
                return self.expr(d)
            lo, hi, st = (self.par(d) if self.p(.5) else "" for _ in range(3))
            return f"{lo}:{hi}" + (f":{st}" if self.p(.4) else "")
        k = self.n(0, 9)
        if k <= 4:
            return one()
        if k == 5:
            return "()"
        if k == 6:
            return "*" + self.par(d) + self.ch("", ",", ", 1:2")
        if k == 7:
            return one() + ","
        if k == 8:
            return f"({self.par(d)}, {self.par(d)})"
        return ", ".join(one() for _ in range(self.n(2, 3)))

    def comp(self, d):
        gens = ""
        for _ in range(self.n(1, 2)):
            gens += f" {'async ' if 'await' not in self.ban and self.p(.1) else ''}for {self.target(1)} in {self.par(d)}"
            for _ in range(self.n(0, 2)):
                gens += f" if {self.par(d)}"
        k = self.n(0, 3)
        if k == 0:
            return "[" + self.par(d) + gens + "]"
        if k == 1:
            return "{" + self.par(d) + gens + "}"
        if k == 2:
            return "(" + self.par(d) + gens + ")"
        return "{" + f"{self.par(d)}: {self.par(d)}" + gens + "}"

    # ---------------------------------------------------------------- targets
    def target(self, d, simple=False):
        k = self.n(0, 9)
        if d <= 0 or k <= 3 or simple:
            return self.name()
        if k == 4:
            return f"{self.par(d-1)}[{self.slices(d-1)}]" if not simple else self.name()
        if k == 5:
            e = self.par(d - 1)
            return f"{e}{' ' if e.isdigit() else ''}.{self.r.choice(ATTRS)}"
        elts = [self.target(d - 1) for _ in range(self.n(1, 3))]
        if self.p(.3):
            i = self.n(0, len(elts) - 1)
            elts[i] = "*" + elts[i]
        if k <= 7:
            return "(" + ", ".join(elts) + ",)"
        return "[" + ", ".join(elts) + "]"

    # ---------------------------------------------------------------- parameters
    def params(self, d, ann=True):
        pool = list(dict.fromkeys(self.names))
        self.r.shuffle(pool)

        def par(star=""):
            s = star + pool.pop()
            if ann and self.p(.3):
                s += ": " + (("*" + self.par(d)) if star == "*" and self.p(.4) else self.par(d))
            return s
        out = []
        dflt = False

        def arg():
            nonlocal dflt
            s = par()
            if dflt or self.p(.3):
                dflt = True
                s += "=" + self.par(d)
            return s
        npos = self.n(0, 2) if self.p(.4) else 0
        for _ in range(npos):
            out.append(arg())
        if npos:
            out.append("/")
        for _ in range(self.n(0, 2)):
            out.append(arg())
        if self.p(.3):
            out.append(par("*"))
            star = True
        else:
            star = False
        nkw = self.n(0, 2) if self.p(.4) else 0
        if nkw and not star:
            out.append("*")
        for _ in range(nkw):
            out.append(par() + (("=" + self.par(d)) if self.p(.5) else ""))
        if self.p(.25):
            out.append(par("**"))
        return ", ".join(out)

    def typeparams(self, d):
        if "typeparams" in self.ban or not self.p(.25):
            return ""
        pool = list(dict.fromkeys(self.names))
        self.r.shuffle(pool)
        out = []
        for _ in range(self.n(1, 3)):
            k = self.n(0, 4)
            nm = pool.pop()
            if k <= 1:
                out.append(nm)
            elif k == 2:
                out.append(f"{nm}: {self.par(d)}")
            elif k == 3:
                out.append("*" + nm)
            else:
                out.append("**" + nm)
        return "[" + ", ".join(out) + "]"

    # ---------------------------------------------------------------- patterns
    def pattern(self, d, top=False, captures=None):
        if captures is None:
            captures = [n for n in dict.fromkeys(self.names) if n != "_"]
            self.r.shuffle(captures)
        k = self.n(0, 15)

        def cap():
            return captures.pop() if captures else "_"
        if d <= 0 or k <= 1:
            return self.ch(cap(), "_", "1", "None", "True", "'s'")
        if k == 2:
            return self.ch("-1", "-1.5", "-1j", "1+2j", "-1-2j", "-1.5 + 2j", "b'x'", "'a' 'b'", "1e309", "0x10", "False", '"""a\nb"""', "'\\''")
        if k == 3:
            return self.ch("a.b", "a.b.c", "foo.bar", "x.type")
        d -= 1
        if k <= 6:
            elts = [self.pattern(d, captures=captures) for _ in range(self.n(0, 3))]
            if self.p(.4):
                elts.insert(self.n(0, len(elts)), "*" + self.ch("_", cap()))
            br = self.ch("[]", "()")
            tail = "," if (br == "()" and len(elts) == 1) else ""
            return br[0] + ", ".join(elts) + tail + br[1]
        if k <= 8:
            keys = ["1", "'k'", "-1", "-2.5", "1+2j", "-1-1j", "None", "True", "a.b", "b'k'", "foo.bar.baz", "'a' 'c'"]
            self.r.shuffle(keys)
            items = [f"{keys.pop()}: {self.pattern(d, captures=captures)}" for _ in range(self.n(0, 3))]
            if self.p(.4):
                items.append("**" + cap() if captures else "'z': _")
            return "{" + ", ".join(items) + "}"
        if k <= 10:
            pos = [self.pattern(d, captures=captures) for _ in range(self.n(0, 2))]
            kw = [f"{nm}={self.pattern(d, captures=captures)}" for nm in self.r.sample(ATTRS, self.n(0, 2))]
            return f"{self.ch('int', 'a.B', 'Point', 'x.y.Z')}({', '.join(pos + kw)})"
        if k <= 12:
            alts = []
            for _ in range(self.n(2, 3)):
                a = self.pattern(d, captures=[])
                alts.append(f"({a})" if (" as " in a or "|" in a) else a)
            s = " | ".join(alts)
            return s if top or self.p(.5) else f"({s})"
        if k == 13 and captures:
            p = self.pattern(d, captures=captures)
            nm = cap()
            if " as " in p:
                p = f"({p})"
            return f"{p} as {nm}" if top else f"({p} as {nm})"
        if k == 14:
            return f"({self.pattern(d, captures=captures)})"
        if captures and top:
            return ", ".join([self.pattern(d, captures=captures) for _ in range(self.n(1, 3))]) + ","
        return cap()

    # ---------------------------------------------------------------- statements
    def block(self, d, ind, ctx):
        out = []
        for _ in range(self.n(1, 3)):
            out.append(self.stmt(d, ind, ctx))
        return "\n".join(out)

    def stmt(self, d, ind="", ctx="module"):
        """`ctx`: 'module', 'func', 'async', 'class', with '+loop' suffix."""
        ed = min(2, self.maxdepth - 1) if d > 0 else 1
        sub = ind + self.ch("    ", "    ", "  ", "\t") if False else ind + "    "
        infunc = ctx.startswith(("func", "async"))
        inasync = ctx.startswith("async")
        inloop = ctx.endswith("+loop")
        oldban = self.ban
        self.ban = set(self.base_ban)
        if not infunc:
            self.ban |= {"yield"}
        if not inasync:
            self.ban |= {"await"}
        try:
            return self._stmt(d, ind, ctx, ed, sub, infunc, inasync, inloop)
        finally:
            self.ban = oldban

    def _stmt(self, d, ind, ctx, ed, sub, infunc, inasync, inloop):
        E = lambda: self.expr(ed)
        if d <= 0 or self.p(.35):
            k = self.n(0, 21)
            if k <= 3:
                return ind + E()
            if k <= 6:
                tgts = " = ".join(self.target(1) for _ in range(self.n(1, 2)))
                val = ", ".join(self.exprs(ed, 1, 3)) + ("," if self.p(.1) else "")
                if val.startswith("*") and "," not in val:
                    val += ","
                return f"{ind}{tgts} = {val}"
            if k == 7:
                t = self.ch(self.name(), "(" + self.name() + ")", f"{self.name()}.attr", f"{self.name()}[{self.slices(0)}]")
                return f"{ind}{t}: {self.par(1)}" + (f" = {self.par(ed)}" if self.p(.6) else "")
            if k == 8:
                t = self.ch(self.name(), f"{self.name()}.attr", f"{self.name()}[{self.slices(1)}]")
                return f"{ind}{t} {self.r.choice(BINOPS)}= {self.par(ed)}"
            if k == 9 and infunc:
                return ind + self.ch("return", f"return {self.par(ed)}", "return 1, 2", "return *a, b")
            if k == 10:
                return ind + "pass"
            if k == 11 and inloop:
                return ind + self.ch("break", "continue")
            if k == 12:
                return f"{ind}del {', '.join(self.ch(self.name(), f'{self.name()}.x', f'{self.name()}[{self.slices(0)}]', '(a, b)', '[a, b]', '(a,)', '()') for _ in range(self.n(1, 2)))}"
            if k == 13:
                return f"{ind}assert {self.par(ed)}" + (f", {self.par(ed)}" if self.p(.5) else "")
            if k == 14:
                return ind + self.ch("raise", f"raise {self.par(ed)}", f"raise {self.par(ed)} from {self.par(ed)}", "raise ValueError from None")
            if k == 15 and infunc and not self.p(.5):
                return f"{ind}{self.ch('global', 'nonlocal')} g_{self.n(1, 9)}, h_{self.n(1, 9)}"
            if k == 15:
                return f"{ind}global g_{self.n(1, 9)}"
            if k == 16:
                return ind + self.ch("import os", "import os.path as osp, sys", "import a.b.c", "import äö as Ω, x")
            if k == 17:
                return ind + self.ch("from os import path", "from . import x", "from .a import b as c, d", "from ... import (x, y as z)", "from ..a.b import c", "from .... import k")
            if k == 18:
                return f"{ind}type {self.name()}{self.typeparams(1)} = {self.par(1)}"
            if k == 19 and infunc:
                return f"{ind}x = yield {self.par(1)}"
            if k == 20:
                return f"{ind}{self.name()} = {self.target(0)} = {self.par(ed)}; {self.name()} += 1"
            return ind + self.string()
        d -= 1
        k = self.n(0, 19)
        if k <= 2:
            s = f"{ind}if {E()}:\n{self.block(d, sub, ctx)}"
            for _ in range(self.n(0, 2)):
                s += f"\n{ind}elif {self.par(ed)}:\n{self.block(d, sub, ctx)}"
            if self.p(.4):
                s += f"\n{ind}else:\n{self.block(d, sub, ctx)}"
            return s
        loopctx = ctx.split("+")[0] + "+loop"
        if k == 3:
            s = f"{ind}while {E()}:\n{self.block(d, sub, loopctx)}"
            return s + (f"\n{ind}else:\n{self.block(d, sub, ctx)}" if self.p(.3) else "")
        if k <= 5:
            a = "async " if inasync and self.p(.4) else ""
            it = self.ch(self.par(ed), self.par(ed), "*a, b", "1, 2")
            s = f"{ind}{a}for {self.target(1)} in {it}:\n{self.block(d, sub, loopctx)}"
            return s + (f"\n{ind}else:\n{self.block(d, sub, ctx)}" if self.p(.3) else "")
        if k <= 8:
            s = f"{ind}try:\n{self.block(d, sub, ctx)}"
            mode = self.n(0, 3)
            nh = self.n(1, 2) if mode != 3 else 0
            starctx = ctx.split("+")[0]
            for i in range(nh):
                if mode == 2:
                    s += f"\n{ind}except* {self.par(1)}" + (f" as {self.name()}" if self.p(.5) else "") + f":\n{self.block(0, sub, 'class')}"
                else:
                    s += f"\n{ind}except {self.par(1)}" + (f" as {self.name()}" if self.p(.5) else "") + f":\n{self.block(d, sub, ctx)}"
            if mode == 1 and self.p(.5):
                s += f"\n{ind}except:\n{self.block(d, sub, ctx)}"
            if mode != 3 and self.p(.3):
                s += f"\n{ind}else:\n{self.block(d, sub, ctx)}"
            if mode == 3 or self.p(.3):
                s += f"\n{ind}finally:\n{self.block(d, sub, ctx)}"
            return s
        if k <= 10:
            a = "async " if inasync and self.p(.4) else ""
            items = []
            for _ in range(self.n(1, 3)):
                items.append(self.par(ed) + (f" as {self.target(1)}" if self.p(.5) else ""))
            if self.p(.15):
                items = [self.ch("((a, b))", "((a,))", "(a, b), c", "((a, b)) as c", "((yield_))", "(a := 1)", "()", "((a, *b))")]
            js = ", ".join(items)
            if self.p(.2):
                js = "(" + js + ",)"
            return f"{ind}{a}with {js}:\n{self.block(d, sub, ctx)}"
        if k <= 14:
            s = ""
            for _ in range(self.n(0, 2) if self.p(.4) else 0):
                s += f"{ind}@{self.expr(1)}\n"
            a = "async " if self.p(.25) else ""
            newctx = "async" if a else "func"
            s += f"{ind}{a}def {self.name()}{self.typeparams(1)}({self.params(1)})"
            if self.p(.3):
                s += f" -> {self.par(1)}"
            s += ":\n"
            if self.p(.2):
                s += f"{sub}'''doc{self.ch('', ' more', chr(10) + sub + 'x')}'''\n"
            return s + self.block(d, sub, newctx)
        if k <= 16:
            s = ""
            for _ in range(self.n(0, 2) if self.p(.4) else 0):
                s += f"{ind}@{self.expr(1)}\n"
            args = self.exprs(1, 0, 2)
            if self.p(.3):
                args.append(f"metaclass={self.par(1)}")
            if self.p(.2):
                args.append(f"**{self.par(1)}")
            s += f"{ind}class {self.name()}{self.typeparams(1)}" + (f"({', '.join(args)})" if args or self.p(.2) else "") + ":\n"
            return s + self.block(d, sub, "class")
        if k <= 18 and "match" not in self.ban:
            s = f"{ind}match {self.ch(E(), E(), 'a, b', '*a, b', '(a)', '-1', '[1]')}:\n"
            nc = self.n(1, 3)
            for i in range(nc):
                pat = self.pattern(2, top=True)
                g = f" if {self.expr(1)}" if self.p(.35) or i < nc - 1 else ""
                s += f"{sub}case {pat}{g}:\n{self.block(0, sub + '    ', ctx)}\n"
            return s.rstrip("\n")
        return f"{ind}if {E()}: pass\n{ind}else:\n{sub}if {E()}: pass"

    # ---------------------------------------------------------------- entry points (validated)
    def _try(self, fn, parse, tries=50):
        import warnings
        for _ in range(tries):
            text = fn()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    parse(text)
            except (SyntaxError, ValueError, RecursionError, MemoryError):
                continue
            return text
        return "pass" if parse is not _parse_eval else "x"

    def expression(self, d=None):
        return self._try(lambda: self.expr(d), _parse_eval)

    def statement(self, d=2, ctx="module"):
        def fn():
            t = self.stmt(d, "", ctx)
            return t
        return self._try(fn, ast.parse)

    def module(self, nstmts=4, d=2):
        out = []
        for _ in range(nstmts):
            out.append(self.statement(d))
        return "\n".join(out) + "\n"

    def suite(self, nstmts=3, d=2):
        return self.module(nstmts, d)

    def compilable(self, nstmts=3, d=2, tries=8):
        """Module text all of whose statements pass the compiler."""
        def chk(t):
            compile(t, "<gen>", "exec", dont_inherit=True)
        out = []
        for _ in range(nstmts):
            out.append(self._try(lambda: self.stmt(d, "", "module"), chk, tries))
        return "\n".join(out) + "\n"


def _parse_eval(t):
    return ast.parse(t, mode="eval")


if __name__ == "__main__":
    import random, sys, collections
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
    seen = collections.Counter()
    fails = 0
    for i in range(3000):
        g = Gen(rng)
        t = g.stmt(2)
        try:
            ast.parse(t)
        except Exception as e:
            fails += 1
            if fails < 6:
                print("----", e); print(t[:600])
    print("raw failure", fails, "/ 3000")
    for i in range(500):
        for n in ast.walk(ast.parse(Gen(rng).module())):
            seen[type(n).__name__] += 1
    allnodes = {n for n in dir(ast) if isinstance(getattr(ast, n), type) and issubclass(getattr(ast, n), ast.AST)}
    print(sorted(allnodes - set(seen)))
    print(seen.most_common(100))
