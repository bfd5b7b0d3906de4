"""C04: declarations (spec/Decl.tla)."""

import os
import re

from common import Failure, Namer, canon, load_code, need, replay, run_tlc, sample

BODIES = [
    "{ }", "{}", "{ return 0; }", "{ int inner; inner = 1; return inner; }",
    "{\n  if (a) { int inner2 = 3; } else { }\n}", "{ char *s = \"}\"; f(); }",
    "{ struct S inner3; { { int inner4[3]; } } }", "{ typedef int inner5; inner6(); }",
    "{ static int inner7(int); /* } */ }",
]  # fmt: skip


PARAM = re.compile(r"p\d*|q|arg_\d+")
BASE = re.compile(r"(Tid|(?<=struct )S|(?<=union )U|(?<=enum )E)$")


def want_type(t, nm, pm):
    """The description a type must have, as plain data; nm and pm rename tags
    and parameters."""
    decls = []
    for d in t["ds"]:
        if d["k"] == "ptr":
            decls.append("*")
        elif d["k"] == "arr":
            decls.append(["arr", int(d["n"]) if d["n"] else -1])
        else:
            decls.append(["fun"] + [[pm(p["n"]) if p["n"] else None, want_type(p["t"], nm, pm)] for p in d["ps"]])
    return [BASE.sub(lambda m: nm(m[0]), t["b"]), decls, [t["q"]] + [d["q"] for d in t["ds"]]]


def got_type(t):
    decls = []
    for d in t.declarators:
        if isinstance(d, str):
            decls.append(d)
        elif isinstance(d, list):
            decls.append(["arr"] + d)
        else:
            decls.append(["fun"] + [[p[0], got_type(p[1])] for p in d])
    return [t.type_spec, decls, [list(q) for q in t.type_quals]]


class R:
    def __init__(self, rng):
        self.r = rng

    def gap(self):
        return self.r.choice([" "] * 12 + ["  ", "\t", "\n", "\n  ", " /* c, (*x) */ ", " // [3] int\n"])

    def join(self, toks):
        out, prev = "", ""
        for t in toks:
            for w in t.split(" "):
                word = (prev[-1:].isalnum() or prev[-1:] == "_") and (w[0].isalnum() or w[0] == "_")
                out += self.gap() if word or self.r.random() < 0.4 else ""
                out += w
                prev = w
        return out

    def declaration(self, c, names, nm, pm):
        r = self.r
        toks = []
        if c["cat"] == "typedef":
            toks.append("typedef")
        elif c["cat"] == "def":
            toks += r.choice([[], [], ["static"], ["inline"], ["static", "inline"], ["extern"]])
        elif all(d["kind"] == "functions" for d in c["ds"]) and r.random() < 0.2:
            toks += r.choice([["static", "inline"], ["inline"], ["extern", "inline"], ["inline", "static"]])
        elif c["stor"]:
            toks.append(c["stor"])
        n = r.randint(0, len(c["q"]))
        toks += c["q"][:n] + [BASE.sub(lambda m: nm(m[0]), c["base"])] + c["q"][n:]
        for i, d in enumerate(c["ds"]):
            if i:
                toks.append(",")
            toks += [names[i] if t == "NAME" else pm(t) if PARAM.fullmatch(t) else BASE.sub(lambda m: nm(m[0]), t) for t in d["toks"]]
        if c["cat"] == "def":
            return self.join(toks) + r.choice(["", " ", "\n"]) + r.choice(BODIES)
        return self.join(toks) + r.choice(["", "", " ", "\n"]) + ";"


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    inv = ["Roundtrip", "Gen"]
    small = run_tlc(ctx, "Decl", dict(MaxDer=ctx.q(5, 6), MaxDecl=1, Rich=False), inv, label="all derivations")
    pairs = run_tlc(ctx, "Decl", dict(MaxDer=ctx.q(1, 2), MaxDecl=2, Rich=False), inv, label="all pairs of declarators")
    rich = run_tlc(ctx, "Decl", dict(MaxDer=5, MaxDecl=3, Rich=True), inv, simulate=ctx.q(2500, 40000), depth=22)
    d = ctx.tmp()
    cases = canon(small.cases + pairs.cases + rich.cases)
    ctx.rng("order").shuffle(cases)
    size = 12
    todo = [{"n": i, "cases": cases[i : i + size]} for i in range(0, len(cases), size)]

    def run(cases, rng):
        r, out, want = R(rng), [], {"types": {}, "variables": {}, "functions": {}}
        nm = Namer(rng)
        for i, c in enumerate(cases):
            def pm(name):
                return nm((i, name))

            names = []
            for x in c["ds"]:
                name = nm.new()
                names.append(name)
                want[x["kind"]][name] = want_type(x["t"], nm, pm)
            out.append(r.declaration(c, names, nm, pm) + rng.choice(["\n", "\n", "\n\n", " ", "\n// int no1;\n", " /* int no2; */ "]))
        text = "".join(out)
        path = os.path.join(d, "d%d.h" % os.getpid())
        with open(path, "w") as f:
            f.write(text + "\n")
        defs = CParser(path).defs
        tags = {"struct " + nm("S"), "union " + nm("U"), "enum " + nm("E")}
        for kind, w in want.items():
            got = {n: v for n, v in defs[kind].items() if n not in tags}
            need(set(got) == set(w), "exactly the declared names are recorded", kind=kind, missing=sorted(set(w) - set(got)), extra=sorted(set(got) - set(w)), text=text)
            for n, t in w.items():
                v = got[n]
                if kind == "functions":
                    v = v.remove_compatibility_hack()
                elif kind == "variables":
                    need(v[0] is None, "no value without initialiser", name=n, text=text)
                    v = v[1]
                if got_type(v) != t:
                    raise Failure("type of %s %s is %r, expected %s, in\n%s" % (kind, n, v, t, text))
        need(set(defs["values"]) <= set(want["variables"]), "values only of variables", values=sorted(defs["values"]), text=text)
        need(set(defs["structs"]) <= {nm("S")} and set(defs["unions"]) <= {nm("U")} and set(defs["enums"]) <= {nm("E")} and not defs["macros"], "no tag but those referred to", text=text)

    def fn(b):
        try:
            run(b["cases"], ctx.rng(b["n"]))
        except Failure:
            for c in b["cases"]:
                run([c], ctx.rng(b["n"]))
            raise

    replay(ctx, todo, fn, "declarations", weight=lambda b: len(b["cases"]))
