"""C01: conditional directives (spec/Cond.tla)."""

import os

from common import Failure, Namer, canon, eq, load_code, need, replay, run_tlc, sample

WS = ["", " ", "  ", "\t"]


def lit(v, r):
    forms = [str(v), hex(v), "0X%X" % v]
    s = r.choice(forms)
    return s + r.choice(["", "", "U", "L", "UL", "u", "l", "LL", "ull"])


class R:
    """Renders conditions and lines with the spellings C allows."""

    def __init__(self, rng, name):
        self.r, self.name = rng, name

    def sp(self):
        return self.r.choice(["", " ", " ", "  "])

    def expr(self, e, ctx=0):
        # ctx: binding strength required: 0 any, 1 operand of ||, 2 of &&, 3 of !
        r, t = self.r, e["t"]
        if t == "def":
            n = self.name(e["m"])
            s = r.choice(["defined(%s)", "defined %s", "defined (%s)", "defined( %s )"]) % n
            lvl = 4
        elif t == "mac":
            s, lvl = self.name(e["m"]), 4
        elif t == "int":
            s, lvl = lit(e["v"], r), 4
        elif t == "not":
            s, lvl = "!" + self.sp() + self.expr(e["e"], 4), 2
            if e["e"]["t"] == "not":
                s = "!(" + self.expr(e["e"]) + ")"
        elif t == "cmp":
            s = self.expr(e["l"], 4) + self.sp() + e["o"] + self.sp() + self.expr(e["r"], 4)
            lvl = 2
        elif t == "and":
            s = self.expr(e["l"], 2) + self.sp() + "&&" + self.sp() + self.expr(e["r"], 2)
            lvl = 1
        else:
            s = self.expr(e["l"], 1) + self.sp() + "||" + self.sp() + self.expr(e["r"], 1)
            lvl = 0
        if lvl < ctx or r.random() < 0.1:
            s = "(" + self.sp() + s + self.sp() + ")"
        return s

    def directive(self, word, rest=""):
        r = self.r
        line = r.choice(["", "", " ", "\t"]) + "#" + r.choice(["", "", " ", "\t"]) + word
        if rest:
            sep = r.choice([" ", " ", "  ", "\t"])
            if rest[0] in "(!" and r.random() < 0.3:
                sep = ""
            line += sep + rest
        tail = r.choice(["", "", "", " ", " /* c */", " // c"])
        return line + tail

    def line(self, l):
        k = l["k"]
        if k in ("if", "elif"):
            s = self.expr(l["e"])
            if self.r.random() < 0.1 and " " in s:
                s = s.replace(" ", " \\\n ", 1)
            return self.directive(k, s)
        if k == "ifdef":
            return self.directive("ifdef", self.name(l["e"]["m"]))
        if k == "ifndef":
            return self.directive("ifndef", self.name(l["e"]["e"]["m"]))
        if k in ("else", "endif"):
            return self.directive(k)
        n = self.name(l["m"])
        if k == "undef":
            return self.directive("undef", n)
        if l["v"] == -2:
            return self.directive("define", n + self.r.choice(["(x) x", "(a, b) (a+b)", "() 1"]))
        return self.directive("define", n + " " + lit(l["v"], self.r))


PROBES = ["var", "typedef", "fn", "struct", "enum", "macro", "union", "undef", "pack"]


def probe(kind, name):
    """Lines of a probe; whether it was seen is decided by probe_seen."""
    return {
        "var": ["int %s;"],
        "typedef": ["typedef int %s;"],
        "fn": ["void %s(int x);"],
        "struct": ["struct %s { int x; };"],
        "union": ["union %s { int x; };"],
        "enum": ["enum { %s };"],
        "macro": ["#define %s 1"],
        "undef": ["#undef %s"],
        "pack": ["#pragma pack(push, 2)"],
    }[kind]


TABLE = {"var": "variables", "typedef": "types", "fn": "functions", "struct": "structs",
         "union": "unions", "enum": "values", "macro": "macros", "undef": "macros"}  # fmt: skip


def render(cases, rng):
    """One header out of several independent histories."""
    head, body, probes = [], [], []
    namer = Namer(rng)
    for n, c in enumerate(cases):
        r = R(rng, lambda m: namer((n, m)))
        k = [0]

        def put(live):
            # not after every line: directives also follow each other directly
            if rng.random() < 0.25:
                return
            name = namer.new()
            k[0] += 1
            kind = rng.choice(PROBES[:-1])
            if kind == "undef":
                head.append("#define %s 1" % name)
            body.extend(s % name if "%s" in s else s for s in probe(kind, name))
            probes.append((n, kind, name, live))

        for l, live in zip(c["lines"], c["live"]):
            body.append(r.line(l))
            put(live)
            if rng.random() < 0.1:
                # no effect whether taken or not
                body.append(rng.choice(["", "#error no", "#include \"nothing.h\"", "#pragma once", "#line 3", "/* #if 0 */", "// #endif", "#", "#warning w"]))
        for i in range(c["open"]):
            body.append(r.line({"k": "endif"}))
        name = namer.new()
        body.append("int %s;" % name)
        probes.append((n, "var", name, True))
    return "\n".join(head + body) + "\n", probes, namer


def seen(defs, kind, name):
    r = name in defs[TABLE[kind]]
    return not r if kind == "undef" else r


def run_batch(CParser, path, cases, rng):
    text, probes, namer = render(cases, rng)
    with open(path, "w") as f:
        f.write(text)
    defs = CParser(path).defs
    for n, kind, name, live in probes:
        if seen(defs, kind, name) != live:
            raise Failure("line taken iff every group around it is taken: %s %s expected %s in\n%s" % (kind, name, "kept" if live else "skipped", text))
    for n, c in enumerate(cases):
        for m, v in c["mac"].items():
            nm = namer((n, m))
            if v == -1:
                need(nm not in defs["macros"] and nm not in defs["fnmacros"], "macro not defined at the end", name=nm, text=text)
            elif v == -2:
                need(nm in defs["fnmacros"], "function-like macro defined at the end", name=nm, text=text)
            else:
                need(nm in defs["macros"] and defs["values"].get(nm) == v, "macro value at the end", name=nm, want=v, text=text)
    # nothing else takes effect
    known = {p[2] for p in probes}
    for kind in ("variables", "functions"):
        extra = set(defs[kind]) - known
        need(not extra, "only written declarations are recorded", extra=sorted(extra), text=text)


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    inv, props = ["Sane", "Gen"], ["SkippedInert", "OneBranch", "ElseRule"]
    small = run_tlc(ctx, "Cond", dict(MaxLines=ctx.q(4, 5), MaxNest=3, Rich=False), inv, props)
    mid = run_tlc(ctx, "Cond", dict(MaxLines=9, MaxNest=4, Rich=False), inv, simulate=ctx.q(80, 6000), depth=10)
    rich = run_tlc(ctx, "Cond", dict(MaxLines=24, MaxNest=5, Rich=True), inv, simulate=ctx.q(50, 8000), depth=25)
    deep = run_tlc(ctx, "Cond", dict(MaxLines=90, MaxNest=14, Rich=True), inv, simulate=ctx.q(12, 1500), depth=91, label="long files")
    one = run_tlc(ctx, "Cond", dict(MaxLines=1, MaxNest=1, Rich=True), ["GenExpr"], init="InitExpr", next="NextExpr", label="expressions")
    d = ctx.tmp()

    def batches(cases, size, what):
        cases = list(cases)
        ctx.rng(what).shuffle(cases)
        return [{"what": what, "n": i, "cases": cases[i : i + size]} for i in range(0, len(cases), size)]

    todo = batches(sample(ctx.rng("ex"), canon(small.cases), ctx.q(8000, 10**9)), 25, "exhaustive")
    todo += batches(canon(mid.cases), 6, "middle")
    todo += batches(canon(rich.cases), 3, "rich")
    todo += batches(canon(deep.cases), 1, "long")
    ctx.extra["histories"] = len(deep.cases) + len(small.cases) + len(mid.cases) + len(rich.cases)

    def fn(b):
        path = os.path.join(d, "h%d.h" % os.getpid())
        try:
            run_batch(CParser, path, b["cases"], ctx.rng(b["what"], b["n"]))
        except Failure:
            # name the single history where it fails alone as well
            if len(b["cases"]) > 1:
                for c in b["cases"]:
                    for k in range(3):
                        run_batch(CParser, path, [c], ctx.rng(b["what"], b["n"], k))
            raise

    replay(ctx, todo, fn, "conditional groups", weight=lambda b: len(b["cases"]))

    # every condition in every macro environment
    envs = {}
    for c in canon(one.cases):
        envs.setdefault((c["mac"]["A"], c["mac"]["B"]), []).append(c)
    todo = []
    for env, cs in sorted(envs.items()):
        cs = sample(ctx.rng("expr", env), cs, ctx.q(150, len(cs)))
        for i in range(0, len(cs), 100):
            todo.append({"env": env, "n": i, "conds": cs[i : i + 100]})
    ctx.extra["conditions"] = sum(len(t["conds"]) for t in todo)

    def fn2(b):
        rng = ctx.rng("cond", b["env"], b["n"])
        r = R(rng, Namer(rng, [x + str(i) for i in range(101) for x in "vw"]))
        out = []
        for m, v in zip("AB", b["env"]):
            if v != -1:
                out.append(r.line({"k": "define", "m": m, "v": v}))
        texts = []
        for i, c in enumerate(b["conds"]):
            s = r.expr(c["e"])
            texts.append(s)
            if rng.random() < 0.5:
                out += ["#if " + s, "int v%d;" % i, "#else", "int w%d;" % i, "#endif"]
            else:
                out += ["#if 0", "#elif " + s, "int v%d;" % i, "#else", "int w%d;" % i, "#endif"]
        path = os.path.join(d, "e%d.h" % os.getpid())
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")
        vs = CParser(path).defs["variables"]
        for i, c in enumerate(b["conds"]):
            eq(("v%d" % i in vs, "w%d" % i in vs), (c["v"] != 0, c["v"] == 0), "condition evaluates as in C", cond=texts[i], env=b["env"])

    replay(ctx, todo, fn2, "conditions", weight=lambda b: len(b["conds"]))
