"""C10: composition of headers, copies and initial definitions
(spec/Compose.tla)."""

import contextlib
import copy
import io
import os
import re

from common import Namer, canon, eq, load_code, need, replay, run_tlc, sample


NAME = re.compile(r"^((?:struct|union|enum) |use_|arr_|if_|ref_|)(m[abc]?|v[ab]?|s[ab]?|t[ab]|g[ab])(_e|)$")
#: base names of the headers, each line for a case
FILES = [["f%d.h" % i for i in range(1, 5)], ["a.h", "a", "a.h.h", "b.a.h"], ["f.h", "F.h", "f.hpp", "f"],
         ["\u00e9.h", "with space.h", "-.h", "None"], ["x.h", "xx.h", "x", "h"]]  # fmt: skip


def renamed(x, nm, key=""):
    if isinstance(x, dict):
        return {k: renamed(v, nm, k) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v, nm, key) for v in x]
    if key == "n":
        return NAME.sub(lambda m: m[1] + nm(m[2]) + m[3], x)
    return x


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser, Enum, Struct, Type, Union

    inv = ["Consistent", "Gen"]
    small = run_tlc(ctx, "Compose", dict(MaxParsers=3, MaxFiles=4, MaxStmts=1, Fixed=True), inv, ["Independent"], spec="SpecFixed", label="all compositions of fixed headers")
    sim = run_tlc(ctx, "Compose", dict(MaxParsers=6, MaxFiles=4, MaxStmts=16, Fixed=False), inv, init="InitSim", next="Draw", simulate=ctx.q(350, 12000), depth=30, label="random headers and copies")
    cases = sample(ctx.rng("s"), canon(small.cases), ctx.q(900, 11136)) + canon(sim.cases)
    for i, c in enumerate(cases):
        c["i"] = i
    base = ctx.tmp()

    def text(s, rng):
        k, n, v = s["k"], s["n"], s["v"]
        return {
            "var": "int %s = %d;" % (n, v),
            "macro": "#define %s %d" % (n, v),
            "fnmacro": "#define %s(x) (x + %d)" % (n, v),
            "undef": "#undef %s" % n,
            "type": "typedef int %s[%d];" % (n, v),
            "struct": "struct %s { int a[%d]; };" % (n, v),
            "union": "union %s { int a[%d]; };" % (n, v),
            "enum": "enum %s { %s_e = %d };" % (n, n, v),
            "func": "void %s(int a[%d]);" % (n, v),
            # the condition is false for a macro with parameters
            "use": "#if %s\nint use_%s = %s;\n#endif" % (n, n, n),
            "size": "#if %s\ntypedef int arr_%s[%s];\n#endif" % (n, n, n),
            "ifdef": "#ifdef %s\ntypedef int if_%s[%d];\n#endif" % (n, n, v),
            "ref": "typedef struct %s *ref_%s;" % (n, n),
        }[k] + rng.choice(["\n", "\n\n", " /* end */\n"])

    memo = {}

    def fnmacro(v):
        if v not in memo:
            p = os.path.join(base, "fn%d_%d.h" % (v, os.getpid()))
            with open(p, "w") as f:
                f.write("#define F(x) (x + %d)\n" % v)
            memo[v] = CParser(p).defs["fnmacros"]["F"]
        return memo[v]

    def value(c, n, v):
        """What stands for value v of the specification."""
        if c == "fnmacros":
            return fnmacro(v)
        if c == "macros":
            return str(v)
        if c == "values":
            return v or None
        if c == "variables":
            return (v or None, Type("int"))
        if c in ("structs", "unions"):
            cls = Struct if c == "structs" else Union
            return cls(("a", Type("int", [v]), None)) if v else cls()
        if c == "enums":
            return {n + "_e": v}
        if c == "functions":
            return Type(Type("void"), (("a", Type("int", [v]), None),))
        if " " in n:
            return Type(*n.split())
        if v == 200:
            return Type("struct " + n[len("ref_"):], "*")
        return Type("int", [v - 100 if v > 100 else v])

    def table(entries):
        res = {}
        for e in entries:
            res.setdefault(e["c"], {})[e["n"]] = value(e["c"], e["n"], e["v"])
        return res

    def filled(t):
        return {k: v for k, v in t.items() if v}

    def report(want, p, who, c, fname):
        wd = table(want["defs"])
        got = {k: dict(v) for k, v in p.defs.items() if v}
        eq(got, wd, "definitions", of=who, case=c["h"], files=c["files"])
        wf = {}
        for f in want["fd"]:
            if f["e"]:
                wf[fname[int(f["s"][1:]) - 1] if f["s"] else None] = table(f["e"])
        gf = {f: filled(t) for f, t in p.file_defs.items()}
        gf = {f: t for f, t in gf.items() if t}
        eq(gf, wf, "definitions per file", of=who, case=c["h"], files=c["files"])
        # searching
        names = {n for t in wf.values() for k in t.values() for n in k}
        for n in sorted(names)[:: 2] + ["nowhere", "s", ""]:
            exp = sorted(((f or "", k) for f, t in wf.items() for k in t if n in t[k]))
            eq(sorted((f or "", k) for f, k in p.find(n)), exp, "find", name=n, of=who, case=c["h"], files=c["files"])
        heads = sorted({n[:1] for n in names})[:2] + sorted({n[:3] for n in names})[:3] + sorted({"(use|if)_" + n[:2] for n in names})[:1]
        for r in (r"s", r".*b$", r"(use|if)_", r".*_", *heads):
            exp = sorted(((f or "", k, n) for f, t in wf.items() for k in t for n in t[k] if re.match(r, n)))
            eq(sorted((f or "", k, n) for f, k, n in p.find(re.compile(r))), exp, "find a pattern", pattern=r, of=who, case=c["h"], files=c["files"])

    def sections(text, **info):
        """The definitions in a printed report."""
        parts = re.split(r"^=+ (\w+) =+$", text, flags=re.M)
        eq(parts[0].strip(), "", "the report starts with a heading", **info)
        return {k: v for k, v in ((k, eval(v, {"Struct": Struct, "Union": Union, "Enum": Enum, "Type": Type})) for k, v in zip(parts[1::2], parts[2::2])) if v}

    def printed(want, p, who, c, fname):
        info = dict(of=who, case=c["h"], files=c["files"])
        eq(sections(str(p), **info), table(want["defs"]), "the definitions printed", **info)
        for f in want["fd"]:
            name = fname[int(f["s"][1:]) - 1] if f["s"] else None
            if name is None or name not in p.file_defs:
                continue
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                p.print_all(name)
            eq(sections(out.getvalue(), **info), table(f["e"]), "the definitions of a file printed", file=name, **info)

    def lines(p, e, d, c, fname, texts):
        """Declarations stay on their lines."""
        for w in sorted({w for f in e["fs"] for w in texts[f - 1] if w.startswith(("int ", "typedef ", "struct ", "union ", "enum ", "void "))})[:6]:
            exp = [(os.path.join(d, fname[f - 1]), i) for f in e["fs"] for i, x in enumerate(texts[f - 1]) if x.startswith(w)]
            got = [(f, i) for f, i, x in p.find_text(w)]
            eq(sorted(got), sorted(exp), "lines with a text", text=w, case=c["h"], files=c["files"])

    def fn(c):
        rng = ctx.rng("text", c["i"])
        fname = FILES[c["i"] % len(FILES)]
        if c["i"] % 3:
            c = renamed(c, Namer(rng, ["a", "x"]))
        d = os.path.join(base, "c%d" % c["i"])
        os.makedirs(d)
        texts = []
        for j, ss in enumerate(c["files"]):
            written = "".join(text(s, rng) for s in ss)
            # declarations without condition
            plain, inside = [], False
            for x in written.split("\n"):
                inside = x.startswith("#if") or inside and not x.startswith("#endif")
                plain.append("" if inside else x.split(" /*")[0])
            texts.append(plain)
            with open(os.path.join(d, fname[j]), "w") as f:
                f.write(written)
        parsers, given = [], []
        for e, want in zip(c["h"], c["ps"]):
            kw = {}
            for k in e["ks"]:
                kw.setdefault(k["c"], {})[k["n"]] = value(k["c"], k["n"], k["v"])
            src = [parsers[j - 1] for j in e["js"]]
            before = copy.deepcopy(kw), list(src)
            paths = [os.path.join(d, fname[f - 1]) for f in e["fs"]]
            args = dict(kw)
            if src or rng.random() < 0.5:
                args["copy_from"] = src[0] if len(src) == 1 and rng.random() < 0.5 else src
            pre = list(paths)
            how = rng.random()
            if how < 0.7:
                p = CParser(paths or None, **args)
            elif how < 0.85 and len(paths) == 1:
                p = CParser(paths[0], **args)
            else:
                p = CParser(paths, process_all=False, **args)
                p.process_all()
            eq((kw, src), before, "arguments left alone", case=c["h"])
            eq(paths, pre, "list of files left alone", case=c["h"])
            given.append((kw, before[0]))
            parsers.append(p)
            report(want, p, "parser %d" % len(parsers), c, fname)
            printed(want, p, "parser %d" % len(parsers), c, fname)
            lines(p, e, d, c, fname, texts)
        # nothing done since has changed an earlier parser
        for j, p in enumerate(parsers):
            report(c["ps"][j], p, "parser %d at the end" % (j + 1), c, fname)
            eq(given[j][0], given[j][1], "arguments left alone at the end", case=c["h"])

    replay(ctx, cases, fn, clause="composition", weight=lambda c: len(c["h"]))
    ctx.extra["exhaustive"] = "all pairs of parsers over four fixed headers, and copies of them (sampled for replay in the quick check)"
