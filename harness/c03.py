"""C03: #pragma pack (spec/Pack.tla)."""

import os

from common import Failure, Namer, canon, eq, load_code, replay, run_tlc, sample


class R:
    def __init__(self, rng, name):
        self.name = name
        self.r, self.n, self.out, self.want = rng, 0, [], []
        self.odd = dict(zip(["r1", "r2"], rng.sample(["push", "pop", "show", "pack"], 2))) if rng.random() < 0.1 else {}
        self.macros = {v: "PK%d" % v for v in (1, 2, 4, 8, 16)}

    def head(self):
        return ["#define %s %d" % (m, v) for v, m in self.macros.items()]

    def sp(self):
        return self.r.choice(["", "", " ", "\t"])

    def pragma(self, e):
        r = self.r
        ops = [] if e["k"] == "set" else [e["k"]]
        if e["n"]:
            ops.append(self.odd.get(e["n"]) or self.name(e["n"]))
        if e["v"]:
            ops.append(self.macros[e["v"]] if r.random() < 0.15 else str(e["v"]))
        body = ("%s,%s" % (self.sp(), self.sp())).join(ops)
        s = "%s#%spragma pack%s(%s%s%s)" % (self.sp(), self.sp(), self.sp(), self.sp(), body, self.sp())
        return s + r.choice(["", "", " ", " // pack(1)", " /* x */"])

    def branch(self, e):
        r = self.r
        if e["k"] in ("else", "endif"):
            s = e["k"] + r.choice(["", "", " ", " // x", " /* PK1 */"])
        elif e["k"] == "elif":
            s = "elif " + r.choice([["0", "defined(NOPE)", "PK2 == 3", "!defined(PK1)"], ["1", "defined(PK1)", "PK4 > 3", "!defined(NOPE)"]][e["v"]])
        else:
            s = r.choice([["if 0", "ifdef NOPE", "ifndef PK1", "if PK2 == 3", "if defined(NOPE)"],
                          ["if 1", "ifdef PK1", "ifndef NOPE", "if PK4 > 3", "if defined(PK1)"]][e["v"]])  # fmt: skip
        return "%s#%s%s" % (self.sp(), self.sp(), s)

    def noise(self):
        r = self.r
        while r.random() < 0.3:
            self.n += 1
            self.out += r.choice([
                [""], ["", ""], ["// #pragma pack(1)"], ["/* a", "   #pragma pack(1)", "*/"],
                ["#pragma once"], ["#pragma omp parallel"], ["#pragma warning(push)"], ["#pragma GCC diagnostic pop"],
                ["#define NZ%d \\" % self.n, "  (1 + \\", "   2)"],
                ["#define NY%d 1" % self.n, "#undef NY%d" % self.n], ["#undef NOTHING"],
                ["#if 0", "#pragma pack(push, r1, 1)", "#define NX 1", "#undef NX", "#elif 1", "#else", "#pragma pack(1)", "#endif"],
                ["#ifdef NOPE", "#pragma pack(pop)", "#else", "#endif"],
                ["#ifndef NOPE", "#else", "int nope;", "#pragma pack(pop)", "#endif"],
                ["#include <nothing.h>"], ["#error"], ["int nv%d; /* x" % self.n, " */ int nw%d;" % self.n],
            ])  # fmt: skip

    def struct(self, kind, v, name):
        """A complete struct, on one or several lines."""
        r = self.r
        self.want.append((kind, name, v))
        f = r.randrange(7)
        if f == 0:
            self.out.append("%s %s { int x; };" % (kind, name))
        elif f == 1:
            self.out += ["%s %s" % (kind, name), "{", "  int x;", "  char y[2];", "};"]
        elif f == 2:
            self.out.append("typedef %s %s { char c; int x; } T%s;" % (kind, name, name))
        elif f == 3:
            self.want[-1] = ("anon", kind, name, v)
            self.out += ["typedef %s {" % kind, " int x; // m", "} %s;" % name]
        elif f == 4:
            self.out += ["int before%s; %s %s { int \\" % (name, kind, name), "x; } ; int after%s;" % name]
        elif f == 5:
            self.out += ["typedef struct { int q; } Q%s; %s %s {" % (name, kind, name), " int x; };"]
        else:
            self.out += ["%s %s { /* c" % (kind, name), "*/ int x; };"]


def build(case, rng, name):
    """Files (lists of lines) and expectations of a history with its structs."""
    r = R(rng, name)
    files, sn, stack, depth = [], 0, [], 0
    r.out = r.head()
    if rng.random() < 0.3:
        r.out = r.out + ["", ""]
    for i, e in enumerate(case["h"]):
        r.noise()
        if e["k"] in ("set", "push", "pop"):
            r.out.append(r.pragma(e))
        elif e["k"] in ("struct", "union"):
            sn += 1
            tag = name(sn)
            r.want.append((e["k"], tag, e["v"]))
            stack.append(tag)
            r.out.append(rng.choice(["%s %s {", "%s %s\n{", "%s %s { int a0;"]) % (e["k"], tag))
        elif e["k"] == "end":
            tag = stack.pop()
            r.out.append(rng.choice(["int m%s; }%s;", "char m%s;\n}%s;"]) % (tag, " v" + tag if stack or rng.random() < 0.5 else ""))
        elif e["k"] == "ghost":
            sn += 1
            r.out.append(rng.choice(["struct %s { int a; };", "union %s {\nint a; } gv%d;" % ("%s", i), "typedef struct { int a; } %s;"]) % name(("g", sn)))
        elif e["k"] in ("if", "elif", "else", "endif"):
            r.out.append(r.branch(e))
            depth += {"if": 1, "endif": -1}.get(e["k"], 0)
        else:
            files.append(r.out)
            r.out = r.head()
        if not case.get("nested") and case["seen"][i] != 99 and not case.get("nested") and rng.random() < 0.85:
            r.noise()
            r.struct(rng.choice(["struct", "union"]), case["seen"][i], name("P%d" % i))
    r.out += ["#endif"] * depth
    for tag in reversed(stack):
        r.out.append("int m%s; } w%s;" % (tag, tag))
    files.append(r.out)
    return files, r.want


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    inv, props = ["Sane", "Gen"], ["PopTop", "PopName", "OnlyPack"]
    small = run_tlc(ctx, "Pack", dict(MaxSteps=ctx.q(3, 4), MaxVal=4, Wide=False, Conds=False), inv, props, init="SInit", next="SNext")
    cond = run_tlc(ctx, "Pack", dict(MaxSteps=4, MaxVal=4, Wide=False, Conds=True), inv, props + ["Off", "OneBranch"], init="SInit", next="SNext")
    wide = run_tlc(ctx, "Pack", dict(MaxSteps=30, MaxVal=16, Wide=True, Conds=True), inv, init="SInit", next="SNext", simulate=ctx.q(150, 4000), depth=31)
    long = run_tlc(ctx, "Pack", dict(MaxSteps=8, MaxVal=4, Wide=False, Conds=True), inv, init="SInit", next="SNext", simulate=ctx.q(150, 1000), depth=9, seed=ctx.seed + 1)
    d = ctx.tmp()
    todo = []
    for what, cases, size in (
        ("exhaustive", sample(ctx.rng("x"), canon(small.cases), ctx.q(2400, 40000)), 16),
        ("conds", sample(ctx.rng("z"), canon(cond.cases), ctx.q(2000, 40000)), 16),
        ("long", sample(ctx.rng("y"), canon(long.cases), ctx.q(400, 20000)), 8),
        ("wide", canon(wide.cases), 3),
    ):
        cases = list(cases)
        ctx.rng(what).shuffle(cases)
        for c in cases:
            c["nested"] = what == "wide"
        todo += [{"what": what, "n": i, "cases": cases[i : i + size]} for i in range(0, len(cases), size)]

    def fn(b):
        rng = ctx.rng(b["what"], b["n"])
        paths, want, texts = [], [], {}
        namer = Namer(rng)
        for j, c in enumerate(b["cases"]):
            files, w = build(c, rng, lambda key: namer((j, key)))
            for k, lines in enumerate(files):
                p = os.path.join(d, "p%d_%d_%d.h" % (os.getpid(), j, k))
                with open(p, "w") as f:
                    f.write("\n".join(lines) + "\n")
                paths.append(p)
            want += [(j, x) for x in w]
            texts[j] = "\n---\n".join("\n".join(x) for x in files)
        defs = CParser(paths).defs
        for j, w in want:
            kind, name, v = w[-3:]
            if len(w) == 4:
                t = defs["types"].get(name)
                got = defs[kind + "s"].get(t.type_spec[len(kind) + 1 :]) if t is not None else None
            else:
                got = defs[kind + "s"].get(name)
            if got is None:
                raise Failure("%s %s is not recorded\n%s" % (kind, name, texts[j]))
            if got.pack != (v or None):
                raise Failure("packing of %s %s is %s, expected %s\n%s" % (kind, name, got.pack, v or None, texts[j]))

    replay(ctx, todo, fn, "packing", weight=lambda b: len(b["cases"]))
