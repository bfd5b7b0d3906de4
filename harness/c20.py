"""C20: what lies between and inside of declarations (spec/Scan.tla)."""

import os
import re

from common import Namer, canon, eq, load_code, replay, run_tlc, sample

WORD = re.compile(r"@[A-Zpq]?(?!\w)")
# comments (no literal of a piece with a comment comes before it)
NOTE = re.compile(r"^(/\*.*?\*/|//.*)")
CATS = ("variables", "types", "functions", "structs", "unions", "enums", "macros", "fnmacros")


def shown(t):
    """A type in the notation of the specification."""
    out = [t.type_spec]
    for d in t.declarators:
        if isinstance(d, str):
            out.append(d)
        elif isinstance(d, list):
            out.append("[%s]" % d[0])
        else:
            out.append("(%s)" % ", ".join(shown(a[1]) for a in d))
    return " ".join(out)


def entry(cat, v):
    if cat in ("structs", "unions"):
        return "; ".join("%s %s" % (m[0], shown(m[1])) for m in v.members)
    if cat == "enums":
        return "; ".join("%s %s" % x for x in v.items())
    if cat == "functions":
        return "%s (%s)" % (shown(v[0]), ", ".join(shown(a[1]) for a in v[1]))
    if cat == "variables":
        return shown(v[1])
    if cat == "types":
        return shown(v)
    if cat == "macros":
        return " ".join(v.split())
    return ""


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    inv = ["Either", "JunkSilent"]
    kinds = run_tlc(
        ctx, "Scan", dict(MaxSteps=ctx.q(5, 7), MaxDepth=3, Mode="kinds"), ["TypeOK", "Balanced", "GenAll"] + inv,
        ["BodiesSilent"], spec="Spec", timeout=1500, heap="16g", label="all short headers",
    )  # fmt: skip
    pairs = run_tlc(ctx, "Scan", dict(MaxSteps=5, MaxDepth=3, Mode="pairs"), inv + ["GenPairs"], init="InitPairs", next="Stop", label="all pieces next to declarations")
    long = run_tlc(ctx, "Scan", dict(MaxSteps=40, MaxDepth=6, Mode="sim"), ["TypeOK", "Balanced", "GenEnd"], next="Draw", simulate=ctx.q(200, 12000), depth=60)
    d = ctx.tmp()
    cases = sample(ctx.rng("k"), canon(kinds.cases), ctx.q(900, 40000)) + canon(pairs.cases) + canon(long.cases)
    ctx.rng("s").shuffle(cases)
    cases = [{"n": i, "h": c["h"]} for i, c in enumerate(cases)]

    def fn(c):
        rng = ctx.rng("layout", c["n"])
        namer = Namer(rng, avoid=["zz", "zy", "zx", "zw", "strcmp", "s", "c", "DECLARE", "BEGIN_DECLS", "point_t", "asm", "L", "try", "OPEN_", "CLOSE_"])
        files, want, left = [""], {k: {} for k in CATS}, [""]
        # braces that come from macros
        hidden = rng.random() < 0.3
        if hidden:
            files[0] = "#define OPEN_ {\n#define CLOSE_ }\n"
            want["macros"] = {"OPEN_": "{", "CLOSE_": "}"}
        for i, p in enumerate(c["h"]):
            if p["k"] == "N":
                files.append("")
                left.append("")
                continue

            def nm(text):
                return WORD.sub(lambda m: namer((i, "n")) if m[0] == "@" else namer((i, m[0])), text)

            t = nm(p["t"])
            for w in p["w"]:
                want[w["c"]][nm(w["n"])] = nm(w["v"])
            if p["u"]:
                left[-1] += bare(NOTE.sub(" ", t))
            if hidden and p["k"] in "LFGB" and t.endswith("{") and rng.random() < 0.5:
                t = t[:-1] + " OPEN_"
            elif hidden and p["k"] == "C" and rng.random() < 0.5:
                t = "CLOSE_"
            line = p["k"] in "MP" or "\n" in t or "//" in t
            files[-1] += ("\n" if line else rng.choice(["\n", "\n", " ", "\n\n", " /* } */ "])) + t + ("\n" if line else "")
        paths = []
        for j, text in enumerate(files):
            paths.append(os.path.join(d, "s%d_%d.h" % (c["n"], j)))
            with open(paths[-1], "w") as fd:
                fd.write(text.lstrip(" ") + "\n")
        src = "\n--\n".join(files)

        def look(p):
            return {k: {n: entry(k, v) for n, v in p.defs[k].items()} for k in CATS}

        got = look(CParser(paths))
        for k in CATS:
            eq(got[k], want[k], "exactly the declarations outside of unknown text and bodies are recorded", category=k, source=src)
        p = CParser(paths, process_all=False)
        res = p.process_all(return_unparsed=True)
        eq(look(p), want, "asking for the unparsed text changes nothing", source=src)
        eq([bare(t) for t in res], left, "the unparsed text is what is not understood", source=src)

    replay(ctx, cases, fn, "headers")


def bare(text):
    return "".join(text.split())
