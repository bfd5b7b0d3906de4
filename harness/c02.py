"""C02: macro table and expansion (spec/Macro.tla)."""

import os
import re

from common import Failure, Namer, canon, eq, load_code, need, replay, run_tlc, sample

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\w\s]')
NAME = re.compile(r"(?<![A-Za-z0-9_])(x?)([AFG]|M\d+)((?:_1)?)(?![A-Za-z0-9_])")

#: the other words of the texts
TOKENS = {"f", "z", "unsigned", "int", "x", "y", "w", "xx"}


def ren(tok, names):
    """Give the macros of a history their own names."""
    if tok == "xx":
        # not a parameter but similar
        return names("px") + "x"
    return NAME.sub(lambda m: m[1] + names(m[2]) + m[3], tok)


def tokens(text):
    return TOK.findall(text)


class R:
    def __init__(self, rng, names):
        self.r, self.names = rng, names

    def text(self, toks, names=(), comments=True):
        """Tokens with white space as C allows (none needed around punctuation)."""
        out, prev = [], ""
        for t in toks:
            t = ren(t, self.names)
            glue = prev and (prev[-1].isalnum() or prev[-1] in "_\"'") and (t[0].isalnum() or t[0] in "_\"'")
            # + + must stay two tokens; nothing else here joins
            glue = glue or prev in ("+", "-") and t == prev
            out.append(" " if glue else self.r.choice(["", "", " ", "  ", "\t"]))
            if comments and self.r.random() < 0.03:
                out.append(" /* A F( */ ")
            out.append(t)
            prev = t
        return "".join(out)

    def param(self, t):
        if re.match(r"p\d+$", t):
            return self.names(t)
        return {"x": self.names("px"), "y": self.names("py"), "w": self.names("pw")}.get(t, t)

    def directive(self, word, rest):
        r = self.r
        s = r.choice(["", "", " "]) + "#" + r.choice(["", "", " "]) + word + r.choice([" ", " ", "  ", "\t"]) + rest
        if r.random() < 0.08 and "  " in s:
            s = s.replace("  ", " \\\n ", 1)
        return s + r.choice(["", "", "", " ", "  // F(1)", " /* A */"])

    def line(self, l):
        r = self.r
        n = ren(l["n"], self.names)
        if l["k"] == "undef":
            return self.directive("undef", n)
        if l["k"] == "fn":
            ps = r.choice([", ", ",", " , "]).join(self.param(x) for x in l["params"])
            if r.random() < 0.2:
                ps = " " + ps + " "
            b = self.text([self.param(t) for t in l["b"]])
            return self.directive("define", "%s(%s)%s%s" % (n, ps, r.choice([" ", "  "]), b.lstrip()))
        b = self.text(l["b"]).strip()
        # an object-like macro is separated from its text
        return self.directive("define", n + r.choice([" ", " ", "\t"]) + b)


def render(cases, rng, inline):
    """Headers (lists of lines) and the texts expected in place of their uses."""
    files, want, k = [[]], {}, 0
    namer = Namer(rng, TOKENS)
    maps = []
    for n, c in enumerate(cases):
        maps.append(lambda key, n=n: namer((n, key)))
        r = R(rng, maps[n])
        for l in c["h"]:
            if l["k"] == "file":
                files.append([])
            elif l["k"] == "use":
                tag = "uSe%d" % k
                k += 1
                files[-1].append("int %s = %s;" % (tag, r.text(l["b"])))
                want[tag] = (n, [ren(t, r.names) for t in l["e"]], files[-1][-1])
            else:
                files[-1].append(r.line(l))
                if rng.random() < 0.06:
                    files[-1] += ["#if 0", r.line({"k": "obj", "n": "A", "params": [], "b": ["9"]}), r.line({"k": "undef", "n": "F", "params": [], "b": []}), "#endif"]
        for u in inline(c):
            tag = "uSe%d" % k
            k += 1
            files[-1].append("int %s = %s;" % (tag, r.text(u["b"])))
            want[tag] = (n, [ren(t, r.names) for t in u["e"]], files[-1][-1])
    return files, want, maps


def run(CParser, d, cases, rng, inline, full):
    files, want, maps = render(cases, rng, inline)
    paths = []
    for i, lines in enumerate(files):
        p = os.path.join(d, "m%d_%d.h" % (os.getpid(), i))
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        paths.append(p)
    src = "\n--- next file\n".join("\n".join(ls) for ls in files)
    if full:
        p = CParser(paths)
    else:
        p = CParser(paths, process_all=False)
        for f in paths:
            p.remove_comments(f)
            p.preprocess(f)
    got = {}
    for f in paths:
        for line in p.files[f].split("\n"):
            m = re.match(r"\s*int (uSe\d+) =(.*);\s*$", line)
            if m:
                got[m[1]] = m[2]
    if len(src) > 4000:
        src = src[:4000] + "..."
    for tag, (n, toks, line) in want.items():
        need(tag in got, "the use is still in the text", line=line, source=src)
        if tokens(got[tag]) != tokens(" ".join(toks)):
            raise Failure("expansion of %r is %r, expected %r, in\n%s" % (line, got[tag].strip(), " ".join(toks), src))
    for n, c in enumerate(cases):
        for name, m in c["fin"].items():
            nm = maps[n](name)
            eq((nm in p.defs["macros"], nm in p.defs["fnmacros"]), (m["k"] == "obj", m["k"] == "fn"), "macro in force at the end", name=nm, source=src)
            if m["k"] == "obj":
                eq(tokens(p.defs["macros"][nm]), tokens(" ".join(ren(t, maps[n]) for t in m["body"])), "replacement text", name=nm, source=src)
            elif not full:
                # (a use can declare a variable of that name)
                need(nm not in p.defs["values"], "no value without object-like macro", name=nm, source=src)


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    inv, props = ["Latest", "Fixed", "Gen"], ["TextInert", "LocalDef"]
    small = run_tlc(ctx, "Macro", dict(MaxSteps=2, Rich=False, Many=False), inv, props, label="all pairs of directives")
    rich = run_tlc(ctx, "Macro", dict(MaxSteps=30, Rich=True, Many=False), ["Latest", "Gen"], simulate=ctx.q(250, 8000), depth=31)
    many = run_tlc(ctx, "Macro", dict(MaxSteps=60, Rich=True, Many=True), ["Latest", "Gen"], next="DrawMany", simulate=ctx.q(60, 3000), depth=61, label="many macros and parameters")
    d = ctx.tmp()
    ones = [c for c in canon(small.cases)]
    ones = sample(ctx.rng("pairs"), ones, ctx.q(4000, 10**9))
    ctx.rng("shuffle").shuffle(ones)
    todo = [{"n": i, "cases": ones[i : i + 8]} for i in range(0, len(ones), 8)]
    rc = canon(rich.cases) + canon(many.cases)
    ctx.rng("shuffle2").shuffle(rc)
    todo += [{"n": -1 - i, "cases": [c]} for i, c in enumerate(rc)]

    def fn(b):
        r = ctx.rng("use", b["n"])

        def inline(c):
            us = c["u"]
            return us if len(us) < 8 else r.sample(us, 8)

        run(CParser, d, b["cases"], ctx.rng("render", b["n"]), inline, b["n"] % 8 == 7)

    replay(ctx, todo, fn, "macro histories", weight=lambda b: len(b["cases"]))
