"""C07: the registry of tags (spec/Tags.tla)."""

import os
import re

from common import Namer, canon, eq, load_code, need, replay, run_tlc, sample

WORD = re.compile(r"\b([SUE][a-d]|n\d+)\b")
CAT = {"struct": "structs", "union": "unions", "enum": "enums"}


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    small = run_tlc(
        ctx, "Tags", dict(MaxSteps=ctx.q(4, 5), MaxDepth=2, Rich=False),
        ["TypeOK", "OneEntry", "Closed", "GenEnd"], ["StaysDefined"], spec="Spec", timeout=1500, heap="16g", label="all short headers",
    )  # fmt: skip
    big = run_tlc(
        ctx, "Tags", dict(MaxSteps=36, MaxDepth=4, Rich=True), ["TypeOK", "OneEntry", "Closed", "GenEnd"],
        next="Draw", simulate=ctx.q(500, 20000), depth=60, label="long headers",
    )  # fmt: skip
    cases = canon(small.cases)
    cases = sample(ctx.rng("d"), [c for c in cases if c["entries"]], ctx.q(3000, 60000)) + sample(
        ctx.rng("r"), [c for c in cases if not c["entries"]], ctx.q(1500, 30000)
    )
    ctx.rng("s").shuffle(cases)
    bc = canon(big.cases)
    batches = [{"n": i, "cases": cases[i : i + 15]} for i in range(0, len(cases), 15)]
    k = len(batches)
    batches += [{"n": k + i, "cases": bc[i : i + 2]} for i in range(0, len(bc), 2)]
    d = ctx.tmp()

    def fn(b):
        rng = ctx.rng("layout", b["n"])
        namer, mine = Namer(rng), {}

        def nm(key):
            """Tags have a name space of their own."""
            n, i = key
            if n[0] == "n" and key not in mine:
                free = [x for x in (k + j for k in "SUE" for j in "abcd") if x not in mine.setdefault(i, [])]
                t = rng.choice(free) if free and rng.random() < 0.25 else None
                mine[i].append(t)
                mine[key] = namer((t, i) if t else key)
            return mine[key] if n[0] == "n" else namer(key)

        files = []
        for i, c in enumerate(b["cases"]):
            f, cur = 0, []
            for piece in [*c["h"], "--file"]:
                if piece == "--file":
                    while len(files) <= f:
                        files.append([])
                    files[f].append(cur)
                    f, cur = f + 1, []
                else:
                    t = WORD.sub(lambda m: nm((m[0], i)), piece)
                    cur.append(rng.choice(["", "  ", "\n", " /* c; */ "]) + t)
        paths = []
        for j, parts in enumerate(files):
            paths.append(os.path.join(d, "b%d_%d.h" % (b["n"], j)))
            with open(paths[-1], "w") as fd:
                fd.write("\n".join("\n".join(p) for p in parts) + "\n")
        defs = CParser(paths).defs
        src = "\n--\n".join(open(p).read() for p in paths)
        if len(b["cases"]) > 2:
            src = [c["h"] for c in b["cases"]]
        # names of the anonymous entries, found by the names of their members
        anon, count = {}, {"struct": 0, "union": 0, "enum": 0}
        tags = set()
        for i, c in enumerate(b["cases"]):
            tags |= {nm((t, i)) for t in c["refs"]} | {nm((e["id"], i)) for e in c["entries"] if e["id"][0] != "#"}

        def first(e, i, named=True):
            """First named member, looking into anonymous ones."""
            return [nm((m["n"], i)) if m["n"] else None for m in e["members"]]

        for i, c in enumerate(b["cases"]):
            for e in c["entries"]:
                count[e["kind"]] += 1
                if e["id"][0] != "#":
                    continue
                want = first(e, i)
                table = defs[CAT[e["kind"]]]
                if not any(want):
                    # only anonymous members: those are in the table already
                    inner = [anon[i, m["base"]["n"]] if m["base"]["k"] == "tag" else None for m in e["members"]]
                    found = [n for n, s in table.items() if [m[1].type_spec.split()[-1] for m in s.members] == inner]
                elif e["kind"] == "enum":
                    found = [n for n, s in table.items() if list(s) == want]
                else:
                    found = [n for n, s in table.items() if [m[0] for m in s.members] == want]
                eq(len(found), 1, "one entry per anonymous definition", kind=e["kind"], members=want, found=found, source=src)
                need(found[0] not in tags, "anonymous entries are different from all tags", name=found[0], source=src)
                anon[i, e["id"]] = found[0]
            for t in c["refs"]:
                count[{"S": "struct", "U": "union", "E": "enum"}[t[0]]] += 1
        for kind, cat in CAT.items():
            need(len({v for (i, k), v in anon.items() if v in defs[cat]}) == len([1 for v in anon.values() if v in defs[cat]]),
                 "anonymous entries never collide", source=src)  # fmt: skip
            eq(len(defs[cat]), count[kind], "number of entries", kind=kind, got_names=sorted(defs[cat]), source=src)

        def typ(i, r):
            base = r["base"]
            if base["k"] == "base":
                n = base["n"]
            else:
                e = [e for e in b["cases"][i]["entries"] if e["id"] == base["n"]]
                kind = e[0]["kind"] if e else {"S": "struct", "U": "union", "E": "enum"}[base["n"][0]]
                n = kind + " " + (anon[i, base["n"]] if base["n"][0] == "#" else nm((base["n"], i)))
            return [n] + ["*"] * r["p"] + ([[r["a"]]] if r["a"] else [])

        def same(t, i, r, what):
            eq(list(t), typ(i, r), what, name=r["n"], source=src)
            eq("const" in t.type_quals[0], r["q"], "qualifier of " + what, name=r["n"], source=src)

        for i, c in enumerate(b["cases"]):
            for t in c["refs"]:
                name = nm((t, i))
                cat = {"S": "structs", "U": "unions", "E": "enums"}[t[0]]
                need(name in defs[cat], "a tag referred to has an entry", tag=name, source=src)
                e = defs[cat][name]
                need(len(e if cat == "enums" else e.members) == 0, "a tag only referred to has no members", tag=name, got=e, source=src)
            for e in c["entries"]:
                name = anon[i, e["id"]] if e["id"][0] == "#" else nm((e["id"], i))
                need(name in defs[CAT[e["kind"]]], "the tag is recorded", tag=name, source=src)
                got = defs[CAT[e["kind"]]][name]
                if e["kind"] == "enum":
                    want = [(nm((m["n"], i)), m["v"]) for m in e["members"]]
                    eq(list(got.items()), want, "enumerators", tag=name, source=src)
                    for n, v in want:
                        eq(defs["values"].get(n), v, "value of an enumerator", name=n, source=src)
                    continue
                eq([m[0] for m in got.members], first(e, i), "names of the members in order", tag=name, source=src)
                for m, w in zip(got.members, e["members"]):
                    same(m[1], i, w, "type of a member of " + name)
                    eq(m[3] if len(m) > 3 else -1, w["b"], "bit width of a member", tag=name, member=m[0], source=src)
                    eq(m[2], None, "default of a member", tag=name, member=m[0], source=src)
                t = defs["types"].get(e["kind"] + " " + name)
                need(t is not None and list(t) == [e["kind"], name], "the type of the tag", tag=name, got=t, source=src)
            for r in c["names"]:
                n = nm((r["n"], i))
                need(n in defs[r["cat"]], "the name is recorded", name=n, cat=r["cat"], source=src)
                t = defs[r["cat"]][n]
                if r["cat"] == "variables":
                    t = t[1]
                if r["cat"] == "functions":
                    eq([p[0] for p in t[1]], [nm((p, i)) for p in r["params"]], "parameters", name=n, source=src)
                    t = t[0]
                same(t, i, r, "type of " + r["cat"])

    replay(ctx, batches, fn, "headers", weight=lambda b: len(b["cases"]))
