"""C16: initialisation (spec/Init.tla)."""

import ctypes
import os
import subprocess

from common import MachineryError, canon, eq, isolated, load_code, need, replay, run_tlc, sample
from c08 import BASES


class Own(ctypes.Structure):
    _fields_ = [("a", ctypes.c_char), ("b", ctypes.c_double)]


CLASSES = [None, ctypes.c_short, ctypes.c_double, ctypes.c_longlong, ctypes.c_uint32, Own, ctypes.c_int16, ctypes.c_void_p]
TYPES = ["my_t", "other", "__int64", "size_t", "time_t", "long", "u32", "T2", "Handle", "int8_t", "int"]
OWN = ["my_t", "other", "__int64", "u32", "T2", "Handle"]
MODS = ["MOD", "__mod", "API", "__declspec", "__restrict", "far_", "X1", "WINAPI", "__based", "__fastcall", "__sptr", "__uptr", "__w64", "__unaligned", "__nullterminated"]


def check(ctx):
    load_code()
    import pyclibrary
    from pyclibrary.c_library import CLibrary
    from pyclibrary.c_parser import CParser, Type
    from pyclibrary.errors import DefinitionError

    inv = ["FirstOnly", "Kept", "Fun", "Gen"]
    small = run_tlc(ctx, "Init", dict(MaxOps=2, Wide=False), inv, ["Once"], spec="Spec", label="all pairs of operations")
    sim = run_tlc(ctx, "Init", dict(MaxOps=5, Wide=True), inv, next="Draw", simulate=ctx.q(300, 8000), depth=10, label="random operations")
    cases = sample(ctx.rng("s"), canon(small.cases), ctx.q(330, 10000)) + canon(sim.cases)
    cases = [{"h": h, "i": i} for i, h in enumerate(cases)]
    small = sim = None
    base = ctx.tmp()
    so = os.path.join(base, "l.so")
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write("int f(void *p) { return 1; }\n")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc: " + r.stderr)
    std = sorted(BASES)
    std_text = ["typedef %s std%d;\n" % (n, i) for i, n in enumerate(std)]
    type_text = {n: "typedef %s td_%s; struct st_%s { %s a; %s *b; };\n" % (n, n, n, n, n) for n in TYPES}

    def mod_text(m):
        return (
            "int {m} {m}1; {m} int {m}2; static {m} char *{m}3; int * {m} {m}4; typedef struct st_int {m} {m}5;\n"
            'int {m} {m}6(int {m} a, char * {m} b); typedef int ({m} *{m}7)(int); int {m}(1, "a") {m}8; {m}(x) int {m}9;\n'
            "struct {m}S {{ int {m} a; {m} char b; }};\n"
        ).replace("{m}1", "v_{m}1").replace("{m}2", "v_{m}2").replace("{m}3", "v_{m}3").replace("{m}4", "v_{m}4").replace("{m}5", "t_{m}5").replace("{m}6", "f_{m}6").replace("{m}7", "t_{m}7").replace("{m}8", "v_{m}8").replace("{m}9", "v_{m}9").replace("{m}S", "S_{m}").format(m=m)  # fmt: skip

    def plain(defs, m):
        """Tell whether the modifier was skipped wherever it stands."""
        v = {k: d[1] for k, d in defs["variables"].items()}
        i = Type("int")
        try:
            f = defs["functions"]["f_%s6" % m]
            return (
                [v["v_%s%d" % (m, n)] for n in (1, 2, 8, 9)] == [i] * 4
                and v["v_%s3" % m] == Type("char", "*")
                and v["v_%s4" % m] == Type("int", "*")
                and defs["types"]["t_%s5" % m] == Type("struct st_int")
                and (f[0], f[1]) == (i, (("a", i, None), ("b", Type("char", "*"), None)))
                and defs["types"]["t_%s7" % m] == Type("int", ((None, i, None),), "*")
                and defs["structs"]["S_" + m].members == [("a", i, None), ("b", Type("char"), None)]
            )
        except KeyError:
            return False

    def probe(e, k, n, deep, **info):
        """Look at what is recognised now."""
        given = {t["n"]: t["c"] for t in e["types"]}
        path = os.path.join(base, "p%d_%d.h" % (n, k))
        rng = ctx.rng("mods", n, k)
        names = set(sample(rng, TYPES, 5)) | set(given)
        mods = sample(rng, [m for m in MODS if m in e["mods"]], 2)
        mods += sample(rng, [m for m in ("MOD", "API", "far_", "WINAPI") if m not in e["mods"]], 1)
        part = rng.sample(range(len(std)), len(std) if n % 10 == 0 else 8) if deep else []
        with open(path, "w") as f:
            f.write("".join(std_text[i] for i in part) + "".join(type_text[t] for t in TYPES if t in names))
        p = CParser(path)
        for m in mods:
            with open(path, "w") as f:
                f.write(mod_text(m))
            q = CParser(path)
            if m in e["mods"]:
                need(plain(q.defs, m), "modifiers are skipped", modifier=m, got={k: dict(v) for k, v in q.defs.items()}, **info)
            else:
                need(q.defs["variables"].get("v_%s1" % m, (0, 0))[1] != Type("int"), "no other modifier is skipped", modifier=m, **info)
        os.remove(path)
        for t in TYPES:
            fund = t in given or t in BASES
            eq(bool(p.is_fund_type(t)), fund, "declared types are fundamental", type=t, **info)
            eq(Type(t).is_fund_type(), fund, "declared types are fundamental", type=t, **info)
        lpath = os.path.join(base, "p%d_%d.so" % (n, k))
        os.link(so, lpath)
        lib = CLibrary(lpath, p)
        for t in sorted(names):
            if t in given or t in BASES:
                eq(p.eval_type(["td_" + t]), Type(t), "declared types are fundamental", type=t, **info)
                if t in given and given[t] == 0:
                    continue
                want = CLASSES[given[t]] if t in given else BASES[t]
                got = lib("types", "td_" + t)
                need(got is want, "the ctypes type given", type=t, got=got, want=want, **info)
                fields = lib("structs", "st_" + t)._fields_
                need(fields[0][1] is want and fields[1][1] is ctypes.POINTER(want), "the ctypes type given", type=t, got=fields, **info)
            else:
                try:
                    got = p.eval_type(["td_" + t])
                except DefinitionError:
                    continue
                need(False, "no other type is known", type=t, got=got, **info)
        for i in part:
            t = std[i]
            if t not in given and "int" not in given and "long" not in given:
                need(lib("types", "std%d" % i) is BASES[t], "standard types stay recognised", type=t, **info)

    def story(c):
        seen = []
        rng = ctx.rng("c", c["i"])
        last = len(c["h"]) - 1
        for k, e in enumerate(c["h"]):
            seen.append({x: e[x] for x in ("a", "sys", "ts", "ms")})
            info = dict(history=seen)
            if e["a"] in ("init", "auto"):
                f = pyclibrary.init if e["a"] == "init" else pyclibrary.auto_init
                ts = {t["n"]: CLASSES[t["c"]] for t in e["ts"]}
                ms = rng.sample(e["ms"], len(e["ms"]))
                way = rng.randrange(3)
                a, b = (ts or rng.choice([None, {}])), (ms or rng.choice([None, []]))
                args = [(a, b), (a,), ()][way]
                kw = [{}, dict(extra_modifiers=b), dict(extra_types=a, extra_modifiers=b)][way]
                if e["a"] == "auto" and (e["sys"] or rng.random() < 0.5):
                    kw["os"] = e["sys"] or None
                kept = (dict(ts), list(ms))
                try:
                    f(*args, **kw)
                except RuntimeError:
                    need(not e["ok"], "the first initialisation is accepted", **info)
                else:
                    need(e["ok"], "a later initialisation raises RuntimeError", **info)
                need((ts, ms) == kept and list(ts) == list(kept[0]), "what the caller gave stays", **info)
                # the caller may use them for something else
                ts["Handle2"] = ctypes.c_int
                for x in list(ts):
                    ts[x] = ctypes.c_float
                ms.append("X1")
                ms[:] = ms[1:]
            elif e["a"] == "parser":
                CParser() if rng.random() < 0.5 else CParser([])
            else:
                path = os.path.join(base, "o%d_%d.so" % (c["i"], k))
                os.link(so, path)
                hp = path[:-2] + "h"
                with open(hp, "w") as f:
                    f.write("int f(void *p);\n")
                lib = CLibrary(path, [hp]) if rng.random() < 0.7 else CLibrary(path, [hp], lock_calls=True)
                eq(lib.f(None)(), 1, "the library works", **info)
            if k == last or rng.random() < 0.15:
                probe(e, k, c["i"], k == last, **info)

    def fn(c):
        isolated(story, c)

    replay(ctx, cases, fn, clause="initialisation")
