"""C05: typedef resolution (spec/TypeEval.tla)."""

import copy
import os
import re

from common import Failure, Namer, canon, eq, load_code, need, replay, run_tlc, sample

NAME = re.compile(r"^([A-E]|X|T\d+)$|(?<=^struct )S$|(?<=^enum )E1$|(?<=^union )U$")


def renamed(c, rng):
    """The case with names of all sorts."""
    nm = Namer(rng, ["a", "b", "Query"])

    def name(n):
        return NAME.sub(lambda m: nm(m[0]), n)

    def typ(t):
        return dict(t, b=name(t["b"]))

    h = []
    for e in c["h"]:
        e = dict(e, n=name(e["n"]), t=typ(e["t"]))
        if "r" in e:
            e["r"] = dict(e["r"], t=typ(e["r"]["t"]))
        h.append(e)
    return dict(c, h=h, tab={name(n): typ(t) for n, t in c.get("tab", {}).items()})


SIGS = {1: ("int", "a"), 2: ("char *", None)}


def canon_base(b):
    words = [w for w in b.split() if w != "signed"]
    return " ".join(words) or "int"


def meaning(base, quals, ds):
    """A type as plain data.  Qualifiers of arrays qualify their elements."""
    out, run = [[canon_base(base), sorted(set(quals))]], None
    for k, q, n in ds:
        if k == "arr":
            # same element: all sizes of adjacent arrays together
            out[-1][1] = sorted(set(out[-1][1]) | set(q))
            if len(out[-1]) == 2:
                out[-1].append([])
            out[-1][2].append(n)
        else:
            out.append([k if k == "ptr" else [k, n], sorted(set(q))])
    return out


def check(ctx):
    pyclibrary = load_code()
    from pyclibrary.c_parser import CParser, Type
    from pyclibrary.errors import DefinitionError

    inv, props = ["FailsRight", "Resolved"], ["Pure"]
    small = run_tlc(ctx, "TypeEval", dict(MaxSteps=4, Mode="small"), inv + ["Gen"], props, label="all small tables")
    rich = run_tlc(ctx, "TypeEval", dict(MaxSteps=40, Mode="rich"), inv + ["Gen"], simulate=ctx.q(500, 20000), depth=41)
    chain = run_tlc(ctx, "TypeEval", dict(MaxSteps=1, Mode="chain"), inv + ["GenChain"], props, init="InitChain", label="chains of 60")
    d = ctx.tmp()

    sigs = {1: (("a", Type("int"), None),), 2: ((None, Type("A", "*"), None), ("b", Type("char", [3]), None))}

    def order(ds):
        """Description order: adjacent array sizes as written in C."""
        out, i = [], 0
        while i < len(ds):
            j = i
            while j < len(ds) and ds[j]["k"] == "arr":
                j += 1
            out += ds[i:j][::-1]
            if j < len(ds):
                out.append(ds[j])
            i = j + 1
        return out

    def to_type(t):
        ds, quals = [], [tuple(t["q"])]
        for x in order(t["ds"]):
            ds.append("*" if x["k"] == "ptr" else [x["n"]] if x["k"] == "arr" else sigs[x["n"]])
            quals.append(tuple(x["q"]))
        return Type(t["b"], *ds, type_quals=tuple(quals))

    def got_meaning(t):
        ds = []
        for x, q in zip(t.declarators, t.type_quals[1:]):
            if x == "*":
                ds.append(("ptr", q, 0))
            elif isinstance(x, list):
                ds.append(("arr", q, x[0]))
            else:
                n = [k for k, v in sigs.items() if v == x]
                need(n, "signature is kept", sig=repr(x))
                ds.append(("fun", q, n[0]))
        return meaning(t.type_spec, t.type_quals[0], ds)

    def want_meaning(t):
        return meaning(t["b"], t["q"], [(x["k"], x["q"], x["n"]) for x in order(t["ds"])])

    def run(c, through, n):
        if n % 5:
            c = renamed(c, ctx.rng("names", n))
        table = {}
        p = None
        if through == "parser":
            p = CParser()
            table = p.defs["types"]
        for n, t in c.get("tab", {}).items():
            table[n] = to_type(t)
        for e in c["h"]:
            if e["k"] == "def":
                table[e["n"]] = to_type(e["t"])
            elif e["k"] == "del":
                del table[e["n"]]
            else:
                t = to_type(e["t"])
                before = repr(table), repr(t), copy.deepcopy(table)
                res = []
                for again in range(2):
                    try:
                        if p is not None:
                            arg = t if any(t.type_quals) or again == 0 else list(t)
                            res.append(("ok", p.eval_type(arg)))
                        else:
                            res.append(("ok", t.eval(table)))
                    except DefinitionError:
                        res.append(("error",))
                need(repr(table) == before[0] and repr(t) == before[1] and table == before[2], "evaluation changes neither type nor table", type=before[1], table=before[0])
                need(res[0] == res[1], "repeating the evaluation gives an equal result", type=before[1], table=before[0], results=repr(res))
                need((res[0][0] == "ok") == e["r"]["ok"], "resolves, or raises DefinitionError for unknown names and cycles", type=before[1], table=before[0], got=repr(res[0]), want=e["r"])
                if e["r"]["ok"]:
                    r = res[0][1]
                    need(type(r) is Type and len(r.type_quals) == len(r), "gives a type", got=repr(r))
                    g, w = got_meaning(r), want_meaning(e["r"]["t"])
                    if g != w:
                        raise Failure("%s resolves to %r, expected %s, with %s" % (before[1], r, w, before[0]))

    long = sample(ctx.rng("l"), canon(rich.cases), ctx.q(1500, 10**9))
    cases = [{"through": t, "n": i, "c": c} for i, c in enumerate(long + canon(chain.cases)) for t in ("type", "parser")]
    sm = sample(ctx.rng("s"), canon(small.cases), ctx.q(8000, 10**9))
    cases += [{"through": "type", "n": i, "c": c} for i, c in enumerate(sm)]
    replay(ctx, cases, lambda b: run(b["c"], b["through"], b["n"]), "typedef tables")

    # the same tables written as C
    def c_text(name, t):
        s, star = name, False
        for x in reversed(t["ds"]):
            if x["k"] == "ptr":
                s, star = "*" + " ".join([""] + x["q"] + [""])[0 if x["q"] else 1 :] + s, True
                continue
            if star:
                s = "(" + s + ")"
            star = False
            s += "[%s]" % (x["n"] if x["n"] >= 0 else "") if x["k"] == "arr" else {1: "(int a)", 2: "(A*, char b[3])"}[x["n"]]
        return "typedef %s %s %s;" % (" ".join(t["q"]), t["b"], s)

    def run_text(b):
        c = renamed(b["c"], ctx.rng("text names", b["n"]))
        tab = {}
        path = os.path.join(d, "t%d.h" % os.getpid())
        last = [e for e in c["h"] if e["k"] == "eval"][-1:]
        if not last:
            return
        e = last[0]
        i = c["h"].index(e)
        for x in c["h"][:i]:
            if x["k"] == "def":
                tab[x["n"]] = x["t"]
            elif x["k"] == "del":
                del tab[x["n"]]
        text = "\n".join(c_text(n, t) for n, t in tab.items()) + "\n" + c_text("Query", e["t"]) + "\n"
        with open(path, "w") as f:
            f.write(text)
        p = CParser(path)
        try:
            r = p.eval_type(["Query"])
        except DefinitionError:
            need(not e["r"]["ok"], "resolves", text=text)
            return
        need(e["r"]["ok"], "unknown names and cycles raise DefinitionError", text=text, got=repr(r))
        g, w = got_meaning(r), want_meaning(e["r"]["t"])
        if g != w:
            raise Failure("Query resolves to %r, expected %s, in\n%s" % (r, w, text))

    texts = sample(ctx.rng("t"), sm, ctx.q(2000, 50000)) + long
    replay(ctx, [{"n": i, "c": c} for i, c in enumerate(texts)], run_text, "typedefs in headers")
