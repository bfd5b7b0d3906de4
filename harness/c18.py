"""C18: comments, literals, joined lines, replacements (spec/Text.tla)."""

import os
import re

from common import canon, eq, load_code, need, replay, run_tlc, sample

BLANKS = re.compile(r""""(?:\\[\s\S]|[^"\\])*"|'(?:\\[\s\S]|[^'\\])*'|[ \t]+(?=\n|$)|[ \t]+""")


def _blank(m):
    s = m.group(0)
    if s[0] in "\"'":
        return s
    return "" if m.end() == len(m.string) or m.string[m.end()] == "\n" else " "


def norm(text):
    """Amount of white space within a line, and at its end, does not count."""
    return BLANKS.sub(_blank, text)


def pattern(p, rng):
    out = []
    for cs in p:
        out.append(re.escape(cs[0]) if len(cs) == 1 else "[%s]" % "".join(re.escape(c) for c in sorted(cs)))
    return "".join(out)


def chunks(xs, n):
    return [xs[i : i + n] for i in range(0, len(xs), n)]


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    base = os.path.realpath(ctx.tmp())
    tiny = ["a", "/", "*", '"', "'", "\\", "\n"]
    inv = ["Whole", "Stable", "Same", "Joined"]
    ex = run_tlc(ctx, "Text", dict(MaxLen=ctx.q(6, 7), Alphabet=set(tiny), MaxRules=1, Replacing=False), inv + ["Gen"], label="all short texts", heap="12g")
    rep = run_tlc(ctx, "Text", dict(MaxLen=ctx.q(3, 4), Alphabet={"a", "b", "/", "*", "\n"}, MaxRules=2, Replacing=True), inv + ["Gen"], label="all short texts with replacements", heap="12g")
    sim = run_tlc(ctx, "Text", dict(MaxLen=60, Alphabet={"a"}, MaxRules=3, Replacing=False), inv + ["GenR"], init="InitR", next="Draw", simulate=ctx.q(1500, 20000), depth=70, label="random texts", heap="8g")
    dirs = run_tlc(ctx, "Text", dict(MaxLen=60, Alphabet={"a"}, MaxRules=1, Replacing=False), ["GenD", "JoinedD"], init="InitD", next="NextD", label="joints in a directive")
    many = run_tlc(ctx, "Text", dict(MaxLen=60, Alphabet={"a"}, MaxRules=2, Replacing=True), ["GenM"], init="InitM", next="NextD", label="texts with many matches", heap="8g")
    plain = canon(ex.cases)
    ruled = [c for c in canon(rep.cases)]
    long_ = canon(sim.cases)
    ex = rep = sim = None
    rng = ctx.rng("s")
    plain = sample(rng, plain, ctx.q(25000, 400000))
    ruled = sample(rng, ruled, ctx.q(4000, 60000)) + sample(rng, canon(many.cases), ctx.q(1500, 60000))

    def S(cs):
        return "".join(cs)

    def load(batch, replaces, what):
        """A parser which has loaded the texts, one file each."""
        paths = []
        for k, c in enumerate(batch["cases"]):
            p = os.path.join(base, "%s%d_%d.h" % (what, batch["i"], k))
            with open(p, "w", newline="") as f:
                f.write(S(c["text"]))
            paths.append(p)
        try:
            return CParser(paths, process_all=False, replace=replaces), paths
        finally:
            for p in paths:
                os.remove(p)

    def run(p, path, c, end_to_end):
        text = S(c["text"])
        p.remove_comments(path)
        eq(norm(p.files[path]), norm(S(c["out"])), "comments removed, the rest kept", text=text)
        if end_to_end:
            p.preprocess(path)
            eq(norm(p.files[path]), norm(S(c["joined"])), "lines joined", text=text)

    def bulk(batch):
        p, paths = load(batch, None, "a")
        for path, c in zip(paths, batch["cases"]):
            eq(p.files[path], S(c["text"]), "loaded as written")
            run(p, path, c, batch["full"])

    batches = [{"i": i, "cases": b, "full": i % ctx.q(25, 8) == 0} for i, b in enumerate(chunks(plain, 100))]
    replay(ctx, batches, bulk, "short texts", weight=lambda b: len(b["cases"]))

    def ruled_batch(batch):
        rng = ctx.rng("r", batch["i"])
        rules = {}
        for r in batch["cases"][0]["rules"]:
            rules[pattern(r["p"], rng)] = S(r["w"])
        p, paths = load(batch, rules or None, "b")
        for path, c in zip(paths, batch["cases"]):
            eq(p.files[path], S(c["raw"]), "replacements", text=S(c["text"]), rules=list(rules.items()))
            if c["ok"]:
                run(p, path, c, batch["full"])

    groups = {}
    for c in ruled:
        groups.setdefault(repr(c["rules"]), []).append(c)
    batches = [b for k in sorted(groups) for b in chunks(groups[k], 40)]
    batches = [{"i": i, "cases": b, "full": i % 4 == 0} for i, b in enumerate(batches)]
    groups = {}
    for c in long_:
        groups.setdefault(repr(c["rules"]), []).append(c)
    n = len(batches)
    batches += [{"i": n + i, "cases": b, "full": True} for i, b in enumerate(b for k in sorted(groups) for b in chunks(groups[k], 10))]
    replay(ctx, batches, ruled_batch, "replacements", weight=lambda b: len(b["cases"]))

    def whole(c):
        """Comments, literals and joints of headers which are processed whole."""
        path = os.path.join(base, "d%d.h" % c["i"])
        with open(path, "w") as f:
            f.write("/* a */" * (c["i"] % 2) + S(c["text"]) + "\nint after; // b\n")
        p = CParser(path)
        os.remove(path)
        if c["found"]:
            eq(" ".join(p.defs["macros"].get("A", "").split()), "1 2", "the directive over several lines", text=S(c["text"]))
            need("after" in p.defs["variables"], "the line after the directive")

    ds = canon(dirs.cases)
    for i, c in enumerate(ds):
        c["i"] = i
        c["found"] = c["joined"][-2:] != ["\\", "\n"]
    replay(ctx, ds, whole, "directives")
    ctx.assumptions.append("white space within a line is compared as one blank, at the end of a line not at all; the content of literals is compared exactly")
