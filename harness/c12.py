"""C12: looking up names in a library (spec/Lookup.tla)."""

import os
import re
import subprocess

from common import MachineryError, canon, eq, load_code, need, replay, run_tlc, sample

NAMES = ["x", "P_x", "Q_x", "P_Q_x", "y", "P_y", "Q_y", "z", "P_z", "Q_P_x"]
MISSING = ["z", "P_y"]
NAME = re.compile(r"^((?:(?:struct|union|enum) )?)((?:P_|Q_)*)([xyz]?)(_e)?$")
#: spellings of the prefixes and names
SPELL = [
    {"P_": "P_", "Q_": "Q_", "x": "x", "y": "y", "z": "z"}, {"P_": "lib", "Q_": "_q", "x": "Open", "y": "structure", "z": "int_"},
    {"P_": "_", "Q_": "LIB_", "x": "class1", "y": "xx", "z": "None_"}, {"P_": "a1_b_", "Q_": "A", "x": "e5", "y": "values1", "z": "A5"},
]  # fmt: skip


def spelled(x, sp):
    if isinstance(x, dict):
        return {k: spelled(v, sp) for k, v in x.items()}
    if isinstance(x, list):
        return [spelled(v, sp) for v in x]
    if isinstance(x, str):
        return NAME.sub(lambda m: m[1] + "".join(sp[w] for w in re.findall("P_|Q_", m[2])) + (sp[m[3]] if m[3] else "") + (m[4] or ""), x)
    return x


ERR = {"k": "error", "n": ""}


def check(ctx):
    load_code()
    from pyclibrary.c_library import CLibrary, build_array
    from pyclibrary.c_parser import CParser

    inv = ["Stateless", "Exact", "AttrKind", "Gen"]
    small = run_tlc(ctx, "Lookup", dict(MaxDefs=0, MaxLooks=ctx.q(2, 3)), inv, spec="SpecFixed", label="all sequences of lookups in a table", heap="12g")
    sim = run_tlc(ctx, "Lookup", dict(MaxDefs=16, MaxLooks=60), inv, init="InitRandom", next="Draw", simulate=ctx.q(250, 10000), depth=100, label="random tables")
    tiny = run_tlc(ctx, "Lookup", dict(MaxDefs=6, MaxLooks=30), inv, init="InitRandom", next="Draw", simulate=ctx.q(250, 10000), depth=60, label="small random tables")
    cases = sample(ctx.rng("s"), canon(small.cases), ctx.q(2500, 60000)) + canon(sim.cases) + canon(tiny.cases)
    small = sim = tiny = None
    for i, c in enumerate(cases):
        c["i"] = i
    base = ctx.tmp()
    for k, sp in enumerate(SPELL):
        with open(os.path.join(base, "l.c"), "w") as f:
            for i, n in enumerate(NAMES):
                if n not in MISSING:
                    f.write("int %s(void *p) { return %d; }\n" % (spelled(n, sp), 100 + i))
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-fno-builtin", "-o", os.path.join(base, "l%d.so" % k), os.path.join(base, "l.c")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("gcc: " + r.stderr)

    def header(tab):
        """The definitions, what they refer to first."""
        left = sorted(tab, key=lambda e: (e["k"], e["n"]))
        known = {("types", "nowhere"), ("int", "")}
        out = []
        while left:
            for e in left:
                refs = []
                if e["k"] == "types":
                    refs = [(e["t"]["k"], e["t"]["n"])]
                elif e["k"] in ("functions", "structs", "unions"):
                    refs = [("types", e["m"])]
                if all(r in known for r in refs):
                    break
            else:
                # pointers to types that follow
                e = next(e for e in left if e["k"] in ("structs", "unions"))
            left.remove(e)
            known.add((e["k"], e["n"]))
            n, v, m, t = e["n"], e["v"], e["m"], e["t"]
            word = {"int": "int", "types": t["n"], "structs": "struct " + t["n"], "unions": "union " + t["n"], "enums": "enum " + t["n"]}[t["k"]]
            out.append(
                {
                    "values": "int %s = %d;" % (n, v),
                    "functions": "int %s(%s *p);" % (n, m),
                    "types": "typedef %s %s;" % (word, n),
                    "structs": "struct %s { %s *p; char c[%d]; };" % (n, m, v + 1),
                    "unions": "union %s { %s *p; char c[%d]; };" % (n, m, v + 1),
                    "enums": "enum %s { %s_e = %d };" % (n, n, v),
                }[e["k"]]
            )
        return "\n".join(out) + "\n"

    memo = {}

    def parser(tab):
        text = header(tab)
        if text not in memo:
            if len(memo) > 50:
                memo.clear()
            p = os.path.join(base, "h%d_%d.h" % (os.getpid(), len(memo)))
            with open(p, "w") as f:
                f.write(text)
            memo[text] = CParser(p)
            os.remove(p)
        return memo[text]

    def get(lib, l):
        a, k, n = l["a"], l["k"], l["n"]
        if a == "attr":
            return getattr(lib, n)
        if a == "kind":
            return lib(k, n)
        if a == "table":
            return lib[k]
        if a == "member":
            return dict((f[0], f[1]) for f in lib(k, n)._fields_)["p"]._type_
        if a == "param":
            return lib("functions", n).arg_c_type("p")._type_
        return build_array(lib, n, 2)._type_

    def fn(c):
        path = os.path.join(base, "c%d.so" % c["i"])
        k = c["i"] % 7 % len(SPELL)
        os.link(os.path.join(base, "l%d.so" % k), path)
        c = spelled(c, SPELL[k])
        p = parser(c["tab"])
        text = header(c["tab"])
        pre = c["pre"]
        if len(pre) == 1 and c["i"] % 2:
            lib = CLibrary(path, p, prefix=pre[0])
        elif not pre and c["i"] % 2:
            lib = CLibrary(path, p)
        else:
            lib = CLibrary(path, p, prefix=list(pre))
        known, done = {}, []
        sizes = {(e["k"], e["n"]): e["v"] for e in c["tab"]}
        rng = ctx.rng("again", c["i"])
        again = sample(rng, c["h"], 25)
        rng.shuffle(again)
        for e in c["h"] + again:
            l, r = e["l"], e["r"]
            done.append([l[x] for x in "akn"])
            info = dict(prefixes=pre, header=text, lookups=done)
            try:
                got = get(lib, l)
            except Exception as ex:
                need(r == ERR, "the name is found: %s: %s" % (type(ex).__name__, ex), **info)
                ex = None
                continue
            need(r != ERR, "nothing is found", got=got, **info)
            key = (r["k"], r["n"])
            if r["k"] == "value":
                eq(got, int(r["n"]), "the value", **info)
                continue
            if r["k"] == "table":
                need(got is p.defs[r["n"]], "the table of the parser", **info)
                continue
            if key in known:
                need(got is known[key], "always the same object", object=key, got=got, **info)
                continue
            for other, o in known.items():
                need(got is not o, "different definitions, different objects", object=key, other=other, **info)
            known[key] = got
            if r["k"] == "function":
                eq(got(None)(), 100 + [spelled(n, SPELL[k]) for n in NAMES].index(r["n"]), "the function of that name", **info)
            elif r["k"] in ("structs", "unions"):
                eq(got.c.size, sizes[key] + 1, "the class of that definition", object=key, **info)
            elif r["k"] == "enums":
                eq(dict(got), {r["n"] + "_e": sizes[key]}, "the enum of that definition", **info)
        os.remove(path)

    replay(ctx, cases, fn, clause="lookups", weight=lambda c: len(c["h"]))
