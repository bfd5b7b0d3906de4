"""C06: values of constants (spec/Expr.tla)."""

import os
import shutil
import subprocess
from fractions import Fraction

from common import Failure, MachineryError, Namer, canon, eq, load_code, need, replay, run_tlc, sample


def py(v):
    """The Python value a value of the specification stands for."""
    return {"int": lambda: v["n"], "flt": lambda: float(Fraction(v["n"], v["d"])), "str": lambda: v["s"], "none": lambda: None}[v["t"]]()


def same(got, want):
    if want is None:
        return got is None
    if isinstance(want, float):
        return type(got) is float and got == want
    return type(got) is type(want) and got == want


class R:
    def __init__(self, rng):
        self.r = rng

    def text(self, toks, tight=None):
        out, prev = "", ""
        for t in toks:
            # tokens that would run into each other are kept apart
            a, b = prev[-1:], t[0]
            glue = (a.isalnum() or a in "_.\"'") and (b.isalnum() or b in "_.\"'") or a in "+-&|*<>" and b == a
            # 0xE+1 is a single (bad) token in C
            glue = glue or a in "eEpP" and b in "+-" and (prev[:1].isdigit())
            out += self.r.choice([" ", " ", "  ", "\t"]) if prev and (glue or self.r.random() < 0.6) else ""
            out += t
            prev = t
        return out


def gcc_agrees(ctx, cases):
    """The specification's evaluator against the C compiler."""
    if not shutil.which("gcc"):
        return
    d = ctx.tmp()
    ints = [c for c in cases if c["v"]["t"] == "int"]
    flts = [c for c in cases if c["v"]["t"] == "flt"]
    src = ["#include <stdio.h>", "static const long long is[] = {"]
    src += ["  (%s)," % " ".join(c["e"]) for c in ints] + ["0};", "static const double fs[] = {"]
    src += ["  (%s)," % " ".join(c["e"]) for c in flts] + ["0};"]
    src += ["int main(void) { int i; for (i = 0; i < %d; i++) printf(\"%%lld\\n\", is[i]);" % len(ints)]
    src += ["for (i = 0; i < %d; i++) printf(\"%%.17g\\n\", fs[i]); return 0; }" % len(flts)]
    p = os.path.join(d, "e.c")
    with open(p, "w") as f:
        f.write("\n".join(src) + "\n")
    try:
        subprocess.run(["gcc", "-w", "-o", p[:-2], p], check=True, timeout=120, capture_output=True)
        out = subprocess.run([p[:-2]], check=True, timeout=60, capture_output=True, text=True).stdout.split()
    except (subprocess.SubprocessError, OSError) as e:
        raise MachineryError("gcc: %s" % getattr(e, "stderr", e))
    for c, o in zip(ints + flts, out):
        if float(o) != float(py(c["v"])):
            raise MachineryError("the specification disagrees with gcc: %s = %s" % (" ".join(c["e"]), o))
    ctx.extra["expressions_compared_with_gcc"] = len(ints) + len(flts)


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    pairs = run_tlc(ctx, "Expr", dict(MaxSteps=1, Mode="pairs"), ["Roundtrip", "GenOne"], init="InitPairs", label="all pairs of operators")
    lits = run_tlc(ctx, "Expr", dict(MaxSteps=1, Mode="lits"), ["GenOne"], init="InitLits", label="all literals")
    big = run_tlc(ctx, "Expr", dict(MaxSteps=1, Mode="lits"), ["GenBig"], init="InitBig", label="large literals")
    rich = run_tlc(ctx, "Expr", dict(MaxSteps=25, Mode="rich"), ["EnumRule", "Gen"], simulate=ctx.q(160, 6000), depth=26)
    gcc_agrees(ctx, canon(pairs.cases))
    d = ctx.tmp()

    ones = canon(pairs.cases)
    ones = sample(ctx.rng("p"), ones, ctx.q(2500, 10**9)) + canon(lits.cases)
    for b in canon(big.cases):
        n = sum(x * 10000**i for i, x in enumerate(b["l"]))
        ones.append({"e": [b["s"]], "big": n})
    ctx.rng("shuffle").shuffle(ones)
    todo = [{"n": i, "cases": ones[i : i + 40]} for i in range(0, len(ones), 40)]

    def fn1(b):
        rng = ctx.rng("one", b["n"])
        r, out, want = R(rng), [], []
        enums = []
        for i, c in enumerate(b["cases"]):
            v = c["big"] if "big" in c else py(c["v"])
            t = r.text(c["e"])
            out.append("#define m%d %s" % (i, t))
            want.append(("m%d" % i, v, t))
            if v is None:
                continue
            k = rng.randrange(4)
            if k == 0:
                out.append("int v%d = %s;" % (i, r.text(c["e"])))
                want.append(("v%d" % i, v, t))
            elif k == 1 and isinstance(v, int):
                enums.append("e%d = %s" % (i, r.text(c["e"])))
                want.append(("e%d" % i, v, t))
                if rng.random() < 0.5:
                    enums.append("f%d" % i)
                    want.append(("f%d" % i, v + 1, t + " plus one"))
            elif k == 2:
                out.append("double a%d[2] = { %s, %s%s };" % (i, r.text(c["e"]), "1", rng.choice(["", ",", " ,\n"])))
                want.append(("a%d" % i, [v, 1], t))
            elif k == 3 and isinstance(v, int) and v > 0:
                out.append("extern char s%d[%s][2], *t%d[3][ %s];" % (i, r.text(c["e"]), i, r.text(c["e"])))
                want.append(("s%d" % i, ("size", v), t))
        if enums:
            out.append("enum { %s };" % rng.choice([", ", ",\n"]).join(enums))
        path = os.path.join(d, "x%d.h" % os.getpid())
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")
        defs = CParser(path).defs
        for name, v, t in want:
            if isinstance(v, tuple):
                got = [list(defs["variables"][x][1].declarators) if x in defs["variables"] else None for x in (name, "t" + name[1:])]
                eq(got, [[[v[1]], [2]], ["*", [3], [v[1]]]], "array size", text=t)
                continue
            need(name in defs["values"], "the constant is recorded", name=name, text=t)
            got = defs["values"][name]
            ok = len(got) == 2 and same(got[0], v[0]) if isinstance(v, list) and isinstance(got, list) else same(got, v)
            if not ok:
                raise Failure("value of %s (%s) is %r, expected %r" % (name, t, got, v))

    replay(ctx, todo, fn1, "expressions", weight=lambda b: len(b["cases"]))

    def fn2(b):
        rng = ctx.rng("rich", b["n"])
        r, files, want = R(rng), [[]], []
        namer = Namer(rng)
        known = {n for h in b["c"]["h"] for n in h.get("ns", ())}

        def nm(t):
            return namer(t) if t in known else t

        for h in b["c"]["h"]:
            if h["k"] == "file":
                files.append([])
                continue
            ts = [r.text([nm(t) for t in e]) for e in h["es"]]
            h = dict(h, ns=[nm(n) for n in h["ns"]])
            n = h["ns"][0]
            vs = [py(v) for v in h["vs"]]
            out = files[-1]
            if h["k"] == "macro":
                out.append("#define %s %s" % (n, ts[0]))
                want.append(("values", n, vs[0]))
            elif h["k"] == "var":
                out.append("%s %s = %s;" % (rng.choice(["int", "static const double", "extern long"]), n, ts[0]))
                want.append(("values", n, vs[0]))
                want.append(("variables", n, vs[0]))
            elif h["k"] == "array":
                out.append("double %s[%d] = {%s};" % (n, len(ts), rng.choice([", ", ",\n"]).join(ts) + rng.choice(["", "", ", "])))
                want.append(("list", n, vs))
            elif h["k"] == "size":
                out.append(rng.choice(["int %s[%s];", "char *%s[%s];", "typedef int %s[%s];", "struct { int x; } %s[ %s ];"]) % (n, ts[0]))
                want.append(("size", n, vs[0]))
            else:
                ms = ["%s = %s" % (x, t) if t else x for x, t in zip(h["ns"], ts)]
                form = rng.choice(["enum {%s};", "enum tag" + n + " { %s, };", "typedef enum { %s } T" + n + ";"])
                out.append(form % rng.choice([", ", ",\n  "]).join(ms))
                want += [("values", x, v) for x, v in zip(h["ns"], vs)]
                want.append(("enum", "tag" + n if "tag" in form else None, dict(zip(h["ns"], vs))))
        paths = []
        for i, ls in enumerate(files):
            paths.append(os.path.join(d, "r%d_%d.h" % (os.getpid(), i)))
            with open(paths[-1], "w") as f:
                f.write("\n".join(ls) + "\n")
        src = "\n---\n".join("\n".join(ls) for ls in files)
        defs = CParser(paths).defs
        for kind, n, v in want:
            if kind == "enum":
                if n is not None:
                    got = defs["enums"].get(n)
                    ok = got is not None and list(got) == list(v) and all(same(got[k], v[k]) for k in v)
                else:
                    ok, got = any(dict(e) == v for e in defs["enums"].values()), defs["enums"]
                need(ok, "enumerators and values", name=n, got=got, want=v, source=src)
            elif kind == "size":
                t = defs["types"].get(n) if n in defs["types"] else defs["variables"].get(n, (None, None))[1]
                need(t is not None, "recorded", name=n, source=src)
                eq(t.declarators[-1], [v], "array size", name=n, source=src)
                need(type(t.declarators[-1][0]) is int, "array size is an integer", name=n, source=src)
            else:
                need(n in defs["values"], "the constant is recorded", name=n, source=src)
                got = defs["variables"][n][0] if kind == "variables" else defs["values"][n]
                ok = isinstance(got, list) and len(got) == len(v) and all(map(same, got, v)) if kind == "list" else same(got, v)
                if not ok:
                    raise Failure("value of %s is %r, expected %r, in\n%s" % (n, got, v, src))

    rc = canon(rich.cases)
    replay(ctx, [{"n": i, "c": c} for i, c in enumerate(rc)], fn2, "sequences of constants")
