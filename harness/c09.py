"""C09: the cache file (spec/Cache.tla)."""

import contextlib
import os
import pickle

from common import canon, eq, load_code, need, replay, run_tlc, sample

T0 = 1_000_000_000  # logical time 0; the real clock is far later


def content(h, v):
    """Content number v of header h: all kinds of definitions, some of which
    depend on the arguments and on the other headers."""
    t = [
        "/* é */ #define junk%d 1" % h,
        "#define V%d %d" % (h, v),
        "#define STR%d \"é%d\"" % (h, v),
        "#define FN%d(x) (x + %d)" % (h, v),
        "#ifdef OPT\n#define OPT_SEEN%d (OPT + %d)\n#endif" % (h, v),
        "#ifdef COPIED\nint copied%d = COPIED;\n#endif" % h,
        "int shared = %d; const char *name%d[%d];" % (10 * h + v, h, v + 1),
        "ALPHA fa%d(int x%d, BETA y);" % (h, v),
        "struct S%d { int a%d; struct S1 *n; unsigned b : %d; };" % (h, v, v % 5 + 1),
        "#pragma pack(%d)\ntypedef union { char c[%d]; struct S%d s; } U%d;\n#pragma pack()" % (2 ** (v % 3), v + 2, h, h),
        "enum E%d { E%d_A = V%d, E%d_B };" % (h, h, h, h),
        "typedef int (*cb%d)(const struct S%d *p, long q[V%d + 1]);" % (h, h, h),
        "#ifdef V1\nint after_one_%d = V1;\n#undef FN1\n#endif" % h if h > 1 else "",
        "#define CHANGING %d" % v if h != 2 else "#define CHANGING(a) a",
        "#undef GONE\n" if (v + h) % 2 else "#define GONE %d" % h,
    ]
    if v % 3 == 1:
        t.append("int only_odd%d;" % h)
    return "\n".join(t) + "\n"


def check(ctx):
    load_code()
    from pyclibrary.c_parser import CParser

    small = run_tlc(ctx, "Cache", dict(NHeaders=2, NArgs=2, MaxSteps=ctx.q(4, 5)), ["Fresh", "ErrorOnlyIfMissing", "Current", "Gen"], heap="12g", label="all short histories")
    pairs = run_tlc(ctx, "Cache", dict(NHeaders=2, NArgs=17, MaxSteps=4), ["Fresh", "ErrorOnlyIfMissing", "Current", "Gen"], init="InitPairs", next="NextPairs", label="all changes of arguments")
    sim = run_tlc(ctx, "Cache", dict(NHeaders=3, NArgs=17, MaxSteps=30), ["Fresh", "ErrorOnlyIfMissing", "Current", "Gen"], next="Draw", simulate=ctx.q(70, 6000), depth=31, label="long histories")
    cases = [dict(c, n=2) for c in canon(pairs.cases)]
    cases += [dict(c, n=2) for c in sample(ctx.rng("s"), canon(small.cases), ctx.q(200, 12000))] + [dict(c, n=3) for c in canon(sim.cases)]
    for i, c in enumerate(cases):
        c["i"] = i
    base = ctx.tmp()

    def others():
        """Parsers to copy from."""
        res = []
        for k in (1, 2):
            p = os.path.join(base, "copy%d_%d.h" % (k, os.getpid()))
            with open(p, "w") as f:
                f.write("#define COPIED %d\nint from_copy = %d;\n" % (k, k))
            res.append(CParser(p))
        # a parser of files which are then parsed again in another order
        e = os.path.join(base, "copied%d" % os.getpid())
        os.makedirs(e)
        ps = []
        for h in (1, 2):
            ps.append(os.path.join(e, names(2)[h - 1]))
            with open(ps[-1], "w", encoding="utf-8") as f:
                f.write(content(h, h + 1))
        res.append(CParser(ps))
        return res

    memo = {}

    def arguments(n, a):
        """Arguments number a; 0 mod 3 leave out the last header."""
        if "copies" not in memo:
            memo["copies"] = others()
        c1, c2, c3 = memo["copies"]
        kw = [
            {},
            {"macros": {"OPT": "1"}},
            {},
            {"macros": {"OPT": "2"}},
            {"types": {"ALPHA": ("int",)}, "values": {"OPT": 3}},
            {"encoding": "latin-1"},
            {"replace": {"ALPHA": "int", "BETA": "ALPHA"}},
            {"replace": {"BETA": "ALPHA", "ALPHA": "int"}},
            {"replace": {"ALPHA": "int", "BETA": "char *"}},
            {"copy_from": c1},
            {"copy_from": [c2]},
            {"copy_from": [c1, c2]},
            {"copy_from": [c2, c1]},
            {"replace": {"ALPHA": "BETA", "BETA": "short"}, "macros": {"OPT": ""}},
            {"variables": {"shared": (5, ("int",))}},
            {"macros": {"GONE": "1", "FN1": "2", "CHANGING": "0"}},
            {"copy_from": c3, "macros": {"GONE": "1"}},
        ][a - 1]
        files = list(range(1, n + 1))
        if a % 3 == 0 and n > 1:
            files.pop()
        if a in (14, 17):
            files.reverse()
        return files, kw

    def names(n):
        return ["a.h", "b.h", "c.h"][:n]

    def fresh(n, a, snap):
        """What a parser without cache reports."""
        files, kw = arguments(n, a)
        key = (n, a, tuple(snap[h - 1] for h in files))
        if key not in memo:
            d = os.path.join(base, "fresh%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
            ps = []
            for h in files:
                ps.append(os.path.join(d, names(n)[h - 1]))
                with open(ps[-1], "w", encoding="utf-8") as f:
                    f.write(content(h, snap[h - 1]))
            p = CParser(ps, **kw)
            memo[key] = (p.defs, p.file_defs)
        return memo[key]

    def by_base(fd):
        return {os.path.basename(k) if k else k: v for k, v in fd.items() if any(v.values())}

    def fn(c):
        n = c["n"]
        rng = ctx.rng("play", c["i"])
        d = os.path.join(base, "case%d" % c["i"])
        os.makedirs(d)
        path = [os.path.join(d, x) for x in names(n)]
        cache = os.path.join(d, "the.cache")
        state = {"ver": [0] * n, "t": [0] * n, "there": [True] * n, "clock": 1, "ct": 0, "args": c["first"]}
        # length of the steps of the clock (files differ by less than a second as well)
        tick = (1, 1 / 8, 1 / 256)[c["i"] % 3]

        def put(h):
            with open(path[h - 1], "w", encoding="utf-8") as f:
                f.write(content(h, state["ver"][h - 1]))
            os.utime(path[h - 1], (T0 + state["t"][h - 1] * tick,) * 2)

        def opened(a, chk, how):
            files, kw = arguments(n, a)
            ps = [path[h - 1] for h in files]
            if how == 0:
                return CParser(ps, cache=cache, check_cache_validity=chk, **kw), "unknown"
            p = CParser(ps, process_all=False, **kw)
            return p, p.process_all(cache=cache, check_cache_validity=chk)

        for h in range(1, n + 1):
            put(h)
        done = []
        for e in c["h"]:
            h, i = e["h"], e["h"] - 1
            done.append({k: e[k] for k in ("a", "h", "n", "chk", "use", "st", "args", "cargs", "snap")})
            if e["a"] in ("edit", "back"):
                state["ver"][i] = e["n"]
                if e["a"] == "edit":
                    state["clock"] += 1
                    state["t"][i] = state["clock"]
                put(h)
            elif e["a"] == "touch":
                state["clock"] += 1
                state["t"][i] = state["clock"]
                put(h)
            elif e["a"] == "same":
                state["t"][i] = state["ct"]
                put(h)
            elif e["a"] == "remove":
                os.remove(path[i])
            elif e["a"] == "restore":
                put(h)
            elif e["a"] == "args":
                state["args"] = e["n"]
            elif e["a"] == "damage":
                if e["n"] == 1:
                    os.remove(cache)
                else:
                    with open(cache, "rb") as f:
                        data = f.read()
                    if e["n"] == 2:
                        data = rng.choice([b"", b"garbage", pickle.dumps([1, 2]), pickle.dumps(None), pickle.dumps({}), os.urandom(0) + bytes(100), data[::-1], b"int x;\n", pickle.dumps({"a": 1})[:-1]])
                    else:
                        data = data[: rng.choice([0, 1, len(data) - 1, len(data) // 2, rng.randrange(max(1, len(data)))])] if data else data
                    with open(cache, "wb") as f:
                        f.write(data)
                    os.utime(cache, (T0 + state["ct"] * tick,) * 2)
            elif e["a"] == "old":
                if os.path.exists(cache):
                    os.remove(cache)
                v = CParser.cache_version
                try:
                    CParser.cache_version = v - 1
                    opened(e["args"], True, 0)
                finally:
                    CParser.cache_version = v
                need(os.path.isfile(cache), "a cache is written", history=done)
                state["clock"] += 1
                state["ct"] = state["clock"]
                os.utime(cache, (T0 + state["ct"] * tick,) * 2)
            else:
                before = os.stat(cache).st_mtime if os.path.exists(cache) else None
                how = rng.randrange(2)
                try:
                    p, ret = opened(e["args"], e["chk"], how)
                except OSError:
                    eq("error", e["st"], "OSError only if a header is missing and no cache usable", history=done)
                    continue
                eq("ok", e["st"], "missing headers without usable cache are an error", history=done)
                after = os.stat(cache).st_mtime if os.path.exists(cache) else None
                if e["use"]:
                    need(ret in ("unknown", None), "a current cache is used instead of parsing", history=done)
                    eq(after, before, "a cache which is used is left as it is", history=done)
                else:
                    need(ret is not None, "no other cache is used", history=done)
                    need(after is not None and after > T0 + 10**6, "the cache is replaced by a current one", history=done)
                    state["clock"] += 1
                    state["ct"] = state["clock"]
                    os.utime(cache, (T0 + state["ct"] * tick,) * 2)
                defs, fdefs = fresh(n, e["cargs"], e["snap"])
                got = by_base(p.file_defs)
                want = by_base(fdefs)
                if e["cargs"] == e["args"]:
                    for cat in defs:
                        eq(p.defs[cat], defs[cat], "definitions (%s)" % cat, history=done)
                        for x in defs[cat]:
                            eq(repr(p.defs[cat][x]), repr(defs[cat][x]), "definition of %s" % x, history=done)
                    eq(sorted(map(str, got)), sorted(map(str, want)), "files with definitions", history=done)
                    for f in want:
                        eq(got[f], want[f], "definitions of %s" % f, history=done)
                    # headers may be missing
                    eq(p.find_text("no such text"), [], "lines with a text", history=done)
                else:
                    for f in want:
                        need(f in got, "definitions of %s" % f, history=done)
                        for cat in want[f]:
                            for x in want[f][cat]:
                                need(x in got[f][cat] and got[f][cat][x] == want[f][cat][x], "an intact cache is loaded as it is", file=f, cat=cat, name=x, history=done)

    replay(ctx, cases, fn, "histories")

    # the cache cut off at every byte
    def cut(b):
        d = os.path.join(base, "cut%d" % b["n"])
        os.makedirs(d)
        p = os.path.join(d, "a.h")
        with open(p, "w") as f:
            f.write("#define N 3\nint x[N];\nstruct S { int a; };\ntypedef struct S *PS;\nenum { Q = N };\nvoid f(PS p);\n")
        os.utime(p, (T0, T0))
        want = CParser(p).defs
        cache = os.path.join(d, "c")
        CParser(p, cache=cache)
        with open(cache, "rb") as f:
            data = f.read()
        step = b["of"]
        for k in range(b["n"], len(data), step):
            with open(cache, "wb") as f:
                f.write(data[:k])
            for chk in (True, False)[: 1 + (k % 7 == 0)]:
                got = CParser(p, cache=cache, check_cache_validity=chk)
                eq(got.defs, want, "cache cut off after %d bytes" % k)
                with open(cache, "rb") as f:
                    eq(len(f.read()), len(data), "the cache cut off after %d bytes is replaced" % k)
                with open(cache, "wb") as f:
                    f.write(data[:k])

    size = 16
    replay(ctx, [{"n": i, "of": ctx.q(size * 4, size)} for i in range(size)], cut, "cache cut off", case_timeout=300)
