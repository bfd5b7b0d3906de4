"""C19: descriptions of types as values (spec/TypeVal.tla)."""

import copy
import os
import pickle

from common import canon, eq, load_code, need, replay, run_tlc, sample


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser, Enum, Struct, Type, Union

    space = {"Type": Type, "Struct": Struct, "Union": Union, "Enum": Enum}
    small = run_tlc(ctx, "TypeVal", dict(MaxOps=0, MaxDecl=ctx.q(2, 2)), ["Inverse", "GenSmall"], init="InitSmall", label="all small types and those next to them")
    run_tlc(ctx, "TypeVal", dict(MaxOps=ctx.q(2, 3), MaxDecl=1), ["Kept", "Inverse", "OnlyFunctions"], init="InitSmall", label="all short histories")
    sim = run_tlc(ctx, "TypeVal", dict(MaxOps=8, MaxDecl=3), ["Kept", "Inverse", "OnlyFunctions", "Gen"], init="InitR", next="Draw", simulate=ctx.q(4000, 60000), depth=12, label="random descriptions")
    near, hists = canon(small.cases), canon(sim.cases)
    small = sim = None

    def decl(d):
        if d["d"] == "ptr":
            return "*"
        if d["d"] == "ref":
            return "&"
        if d["d"] == "arr":
            return [d["n"]]
        return tuple((p["name"] or None, build(p["t"]), None) for p in d["ps"])

    def quals(qs):
        return tuple(tuple(q) for q in qs)

    def build(v):
        if v["k"] == "type":
            qs = quals(v["quals"])
            if any(qs):
                return Type(v["base"], *map(decl, v["decls"]), type_quals=qs)
            return Type(v["base"], *map(decl, v["decls"]))
        if v["k"] == "hack":
            return Type(build(v["ret"]), decl(v["fn"]), type_quals=((), tuple(v["qual"])))
        if v["k"] in ("struct", "union"):
            ms = []
            for m in v["members"]:
                ms.append((m["name"] or None, build(m["t"]), None) + ((m["bits"],) if m["bits"] else ()))
            kw = {"pack": v["pack"]} if v["pack"] else {}
            return {"struct": Struct, "union": Union}[v["k"]](*ms, **kw)
        return Enum(**{i["name"]: i["val"] for i in v["items"]})

    def plain(t):
        return (t["base"],) + tuple(map(decl, t["decls"]))

    def exactly(x, v, what):
        """x is the description v, looked at through the accessors."""
        if v["k"] == "type":
            need(type(x) is Type, what + ": class", got=type(x).__name__)
            eq(x.type_spec, v["base"], what + ": base")
            eq(len(x.declarators), len(v["decls"]), what + ": derivations")
            eq([tuple(q) for q in x.type_quals], list(quals(v["quals"])), what + ": qualifiers")
            eq(tuple(x), plain(v), what + ": tuple")
            for g, w in zip(x.declarators, v["decls"]):
                exactly_decl(g, w, what)
        elif v["k"] == "hack":
            need(type(x) is Type, what + ": class", got=type(x).__name__)
            eq(len(x), 2, what + ": compatibility form")
            exactly(x[0], v["ret"], what + ": return type")
            exactly_decl(x[1], v["fn"], what)
            eq([tuple(q) for q in x.type_quals], [(), tuple(v["qual"])], what + ": qualifiers")
        elif v["k"] in ("struct", "union"):
            need(type(x) is {"struct": Struct, "union": Union}[v["k"]], what + ": class", got=type(x).__name__)
            eq(x.pack, v["pack"] or None, what + ": packing")
            eq(x["pack"], x.pack, what + ": packing")
            eq(sorted(x), ["members", "pack"], what + ": keys")
            need(x["members"] is x.members, what + ": members")
            eq(len(x.members), len(v["members"]), what + ": members")
            for g, w in zip(x.members, v["members"]):
                eq(g[0], w["name"] or None, what + ": name of a member")
                exactly(g[1], w["t"], what + ": type of a member")
                eq(tuple(g[2:]), (None, w["bits"]) if w["bits"] else (None,), what + ": rest of a member")
        else:
            need(type(x) is Enum, what + ": class", got=type(x).__name__)
            eq(dict(x), {i["name"]: i["val"] for i in v["items"]}, what + ": enumerators")

    def exactly_decl(g, w, what):
        if w["d"] == "fn":
            need(type(g) is tuple and len(g) == len(w["ps"]), what + ": parameters", got=g)
            for gp, wp in zip(g, w["ps"]):
                eq((gp[0], gp[2]), (wp["name"] or None, None), what + ": parameter")
                exactly(gp[1], wp["t"], what + ": type of a parameter")
        else:
            eq(g, decl(w), what + ": derivation")

    def equal(a, b, want, what):
        info = dict(a=repr(a), b=repr(b))
        for x, y in ((a, b), (b, a)):
            need((x == y) is want, what + ": ==", want=want, **info)
            need((x != y) is (not want), what + ": !=", want=not want, **info)
            need((x in [y]) is want or x is y, what + ": in", want=want, **info)

    def one_near(c):
        a = build(c["a"])
        exactly(a, c["a"], "built")
        exactly(a.add_compatibility_hack(), c["add"], "compatibility form")
        exactly(a.add_compatibility_hack().remove_compatibility_hack(), c["back"], "compatibility form and back")
        for n in c["near"]:
            b = build(n["b"])
            equal(a, b, n["same"], "two types")
            equal(a, plain(n["b"]), n["plain"], "a type and a tuple")
            equal(plain(c["a"]), b, n["plain"], "a tuple and a type")
        for other in (None, 0, "int", repr(a), list(a), {}, a[:-1], (*a, "*")):
            equal(a, other, False, "a type and something else")
        exactly(a, c["a"], "untouched")

    replay(ctx, near, one_near, "equality", weight=lambda c: len(c["near"]))

    def do(op, x):
        if op.startswith("pickle"):
            return pickle.loads(pickle.dumps(x, int(op[6:])))
        if op == "copy":
            return copy.copy(x)
        if op == "deepcopy":
            y = copy.deepcopy(x)
            if isinstance(x, (Struct, Union)):
                y2 = copy.deepcopy(x)
                y2.members.append(None)
                eq(x, y, "a deep copy shares nothing")
            return y
        if op == "repr":
            return eval(repr(x), dict(space))
        if op == "add":
            return x.add_compatibility_hack()
        if op == "remove":
            return x.remove_compatibility_hack()
        return x

    def one_hist(c):
        first = x = build(c["orig"])
        before = c["orig"]
        exactly(x, before, "built")
        for h in c["hist"]:
            if h["op"] == "rebuild":
                y = build(before)
            else:
                y = do(h["op"], x)
            exactly(x, before, "operand of " + h["op"])
            exactly(y, h["v"], h["op"])
            equal(x, y, h["v"] == before, h["op"])
            equal(first, y, h["v"] == c["orig"], h["op"] + " and the original")
            x, before = y, h["v"]

    replay(ctx, hists, one_hist, "histories")

    # What the parser itself makes of a header
    ctype = {"ptr": "*", "arr": "[]"}
    base = os.path.realpath(ctx.tmp())

    def declare(t, name):
        """C declaration of the type."""
        s, qs, last = name, t["quals"], None
        for i in range(len(t["decls"]), 0, -1):
            d = t["decls"][i - 1]
            if d["d"] == "ptr":
                s = "*" + " ".join([x for x in qs[i] if x in ("const", "volatile")] + [s])
                last = "ptr"
            else:
                if last == "ptr":
                    s = "(%s)" % s
                last = d["d"]
                if d["d"] == "arr":
                    s += "[%d]" % (abs(d["n"]) + 1)
                else:
                    s += "(%s)" % (", ".join(declare(p["t"], p["name"] or "") for p in d["ps"]) or "void")
        return " ".join([x for x in qs[0] if x in ("const", "volatile")] + [t["base"], s])

    def valid(t):
        if t["k"] != "type":
            return False
        prev = None
        for d in t["decls"]:
            if d["d"] == "ref" or d["d"] in ("arr", "fn") and prev == "fn" or d["d"] == "fn" and prev == "arr":
                return False
            if d["d"] == "fn" and not all(valid(p["t"]) for p in d["ps"]):
                return False
            prev = d["d"]
        return True

    values = [c["orig"] for c in hists if valid(c["orig"])]
    batches = [{"i": i, "types": values[i : i + 8]} for i in range(0, len(values), 8)]
    batches = sample(ctx.rng("p"), batches, ctx.q(60, 1500))

    def parsed(b):
        path = os.path.join(base, "p%d.h" % b["i"])
        with open(path, "w") as f:
            f.write("typedef int T;\nenum e { A%d, B = 5 };\nstruct s;\n" % b["i"])
            for k, t in enumerate(b["types"]):
                f.write("%s;\n" % declare(t, "x%d" % k))
                f.write("typedef %s;\n" % declare(t, "t%d" % k))
                f.write("#pragma pack(%s)\n" % ["", "1", "2", "4"][k % 4])
                f.write("struct s%d { int a; t%d *b; unsigned int c : %d; };\nunion u%d { char a[2]; t%d *b; };\n" % (k, k, k + 1, k, k))
        p = CParser(path)
        os.remove(path)
        for kind, defs in p.defs.items():
            for name, x in defs.items():
                for op in ("pickle0", "pickle1", "pickle2", "pickle5", "copy", "deepcopy", "repr"):
                    y = do(op, x)
                    need(type(y) is type(x), op + ": class", name=name, got=type(y).__name__, want=type(x).__name__)
                    equal(x, y, True, "%s of %s %s" % (op, kind, name))
                    eq(repr(y), repr(x), "%s of %s %s" % (op, kind, name))
                    same_quals(x, y, op)
                if isinstance(x, Type):
                    y = x.remove_compatibility_hack()
                    equal(x, y.add_compatibility_hack() if kind == "functions" else y, True, "compatibility form of %s" % name)
                    equal(y, y.add_compatibility_hack().remove_compatibility_hack(), True, "compatibility form of %s and back" % name)
        need(len(p.defs["structs"]) > len(b["types"]) and len(p.defs["functions"]) + len(p.defs["variables"]) == len(b["types"]), "all declared")

    def same_quals(x, y, op):
        if isinstance(x, Type):
            eq(y.type_quals, x.type_quals, op + ": qualifiers")
        if isinstance(x, (tuple, list)):
            for g, w in zip(x, y):
                same_quals(g, w, op)
        elif isinstance(x, (Struct, Union)):
            same_quals(x.members, y.members, op)

    replay(ctx, batches, parsed, "what the parser makes", weight=lambda b: len(b["types"]))
    ctx.assumptions.append("the names of enumerators are Python identifiers when the repr of an enum is evaluated")
