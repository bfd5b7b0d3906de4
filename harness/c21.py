"""C21: arrays, casts and callbacks (spec/Memory.tla)."""

import ctypes
import gc
import os
import re
import subprocess

from common import MachineryError, canon, eq, isolated, load_code, need, replay, run_tlc, sample

HEADER = """
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef char ch;
typedef u16 row[2];
struct P { u8 a; u16 b; };
typedef struct P P;
union U { u32 i; u8 c[4]; };
typedef union U U;
typedef u8 *pu8; typedef u16 *pu16; typedef u32 *pu32; typedef char *pch; typedef struct P *pP; typedef row *prow; typedef U *pU; typedef void *pvoid;
typedef int (*each)(int n, u16 *x);
typedef int (*less)(const u16 *x, const u16 *y);
typedef int (*fn)(int n, int x);
void add_u8(u8 *a, int n, u8 d);
void add_u16(unsigned short *a, int n, u16 d);
void add_u32(pu32 a, int n, u32 d);
void setp(struct P *p, int k, u8 a, u16 b);
void copy(void *dst, const void *src, int n);
u16 *after(u16 *a, int n);
int apply(each f, u16 *a, int n);
void sort16(u16 *a, int n, int (*cmp)(const u16 *x, const u16 *y));
void keep(fn f);
int fire(int n, int x);
fn kept(void);
void use_ch(char *s); void use_row(row *r); void use_U(union U *u); void use_P(P *p);
struct V { long tag; long (*f)(int a, long b); void (*g)(void); };
int mix(int (*f)(char c, short s, double d, u8 u, P *p), int n);
void times(void (*f)(void), int n);
long member(struct V *v, int x);
double half(double (*f)(float, long long), int n);
"""
SOURCE = """
#include <string.h>
%s
void add_u8(u8 *a, int n, u8 d) { while (n-- > 0) *a++ += d; }
void add_u16(unsigned short *a, int n, u16 d) { while (n-- > 0) *a++ += d; }
void add_u32(pu32 a, int n, u32 d) { while (n-- > 0) *a++ += d; }
void setp(struct P *p, int k, u8 a, u16 b) { p[k].a = a; p[k].b = b; }
void copy(void *dst, const void *src, int n) { memmove(dst, src, n); }
u16 *after(u16 *a, int n) { return a + n; }
int apply(each f, u16 *a, int n) { int i, s = 0; for (i = 0; i < n; i++) s += f(i, a + i); return s; }
void sort16(u16 *a, int n, less cmp) {
  int i, j; for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(a + j, a + j - 1); j--) { u16 t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
static fn it;
void keep(fn f) { it = f; }
int fire(int n, int x) { return it(n, x); }
fn kept(void) { return it; }
int mix(int (*f)(char c, short s, double d, u8 u, P *p), int n) { P p = { n, 3 * n }; return f(65 + n %% 26, -n, n * 0.5, 200 + n, &p); }
void times(void (*f)(void), int n) { int i; for (i = 0; i < n %% 5; i++) f(); }
long member(struct V *v, int x) { long r = v->f(x, 7 - x); v->g(); return r; }
double half(double (*f)(float, long long), int n) { return 2 * f(n * 0.25f, 1000LL * n); }
void use_ch(char *s) {} void use_row(row *r) {} void use_U(union U *u) {} void use_P(P *p) {}
"""
LEAVES = {"u8": 1, "ch": 1, "u16": 1, "u32": 1, "P": 2, "row": 2, "U": 5}
SIZES = {"u8": 1, "ch": 1, "u16": 2, "u32": 4, "P": 4, "row": 4, "U": 4, "void": 1}
NAMES = {  # names of the element types, and of pointers to them
    "u8": (["unsigned char", "u8", "uint8_t"], ["pu8"]), "ch": (["char", "ch"], ["pch"]), "u16": (["unsigned short", "u16", "unsigned short int"], ["pu16"]),
    "u32": (["unsigned int", "u32", "unsigned"], ["pu32"]), "P": (["struct P", "P"], ["pP"]), "row": (["row"], ["prow"]),
    "U": (["union U", "U"], ["pU"]), "void": ([], ["pvoid"]),
}  # fmt: skip
# functions with a parameter of the pointer type
PARAMS = {"u8": ("add_u8", "a"), "u16": ("after", "a"), "u32": ("add_u32", "a"), "P": ("setp", "p"), "void": ("copy", "dst"), "row": ("use_row", "r"), "U": ("use_U", "u")}


def num(bs):
    return sum(b << (8 * i) for i, b in enumerate(bs))


def turn(c, n, x):
    return {1: x + n + 1, 2: 2 * x, 3: 65535 - x}.get(c, n)


def lower(c, x, y):
    return {1: x < y, 2: x > y}.get(c, x % 256 < y % 256)


def check(ctx):
    load_code()
    from pyclibrary import CLibrary, CParser, build_array, cast_to
    from pyclibrary.c_parser import Type

    inv = ["TypeOK", "Shared", "NoDangling", "Gen"]
    small = run_tlc(
        ctx, "Memory", dict(MaxObjs=1, MaxHandles=4, MaxSteps=ctx.q(3, 4), Small=True), inv, ["OneObject"], spec="Spec",
        timeout=1500, heap="16g", label="all short histories",
    )  # fmt: skip
    long = run_tlc(
        ctx, "Memory", dict(MaxObjs=4, MaxHandles=9, MaxSteps=36, Small=False), inv, next="Draw", simulate=ctx.q(500, 20000), depth=40, label="long histories"
    )
    cases = sample(ctx.rng("k"), canon(small.cases), ctx.q(2500, 80000)) + canon(long.cases)
    ctx.rng("s").shuffle(cases)
    cases = [{"n": i, "h": c["h"]} for i, c in enumerate(cases)]
    base = ctx.tmp()
    hdr, so = os.path.join(base, "l.h"), os.path.join(base, "l.so")
    with open(hdr, "w") as f:
        f.write(HEADER)
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write(SOURCE % HEADER.replace("int (*cmp)(const u16 *x, const u16 *y)", "less cmp"))
    r = subprocess.run(["gcc", "-w", "-O0", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc: " + r.stderr[:3000])
    parsers = [CParser(hdr)]
    # parameters without names
    anon = os.path.join(base, "m.h")
    with open(anon, "w") as f:
        f.write(re.sub(r"(?<=\(\*)(each|less|fn|f|cmp)\)\(([^()]+)\)", lambda m: m[1] + ")(" + re.sub(r"(?<=[\w* ])\b(n|x|y|c|s|d|u|p|a|b)(?=,|$)", "", m[2]) + ")", HEADER))
    parsers.append(CParser(anon))
    batches = [{"n": i, "cases": cases[i : i + 25]} for i in range(0, len(cases), 25)]

    def elem(rng, lib, t):
        """An element type, in any of the ways to give one."""
        n = rng.choice(NAMES[t][0])
        k = rng.randrange(3)
        if k == 0:
            return n
        if k == 1:
            return Type(*{"row": ("unsigned short", [2])}.get(t, (n,))) if rng.random() < 0.5 else Type(n)
        return lib("types", {"struct P": "P", "union U": "U", "unsigned short int": "u16", "uint8_t": "u8"}.get(n, t))

    def point(rng, lib, t):
        n = rng.choice(NAMES[t][1])
        k = rng.randrange(4)
        if k == 0:
            return n
        if k == 1:
            return Type(n) if t == "row" or rng.random() < 0.5 else Type(rng.choice(NAMES[t][0]), "*") if t != "void" else Type("void", "*")
        if k == 2 and t in PARAMS:
            f, a = PARAMS[t]
            return getattr(lib, f).arg_c_type(rng.choice([a, 0]))
        return lib("types", n)

    def leaf(h, t, e, l, v=None):
        """Read or write a leaf of an element."""
        if t in ("u8", "u16", "u32"):
            if v is None:
                return h[e]
            h[e] = v
        elif t == "ch":
            if v is None:
                return h[e][0]
            h[e] = bytes([v])
        elif t == "P":
            if v is None:
                return getattr(h[e], "ab"[l])
            setattr(h[e], "ab"[l], v)
        elif t == "row":
            if v is None:
                return h[e][l]
            h[e][l] = v
        elif l == 0:
            if v is None:
                return h[e].i
            h[e].i = v
        else:
            if v is None:
                return h[e].c[l - 1]
            h[e].c[l - 1] = v

    def at(h, dims, e):
        """The innermost array which has element e, and its index there."""
        while len(dims) > 1:
            n = 1
            for x in dims[1:]:
                n *= x
            h, e, dims = h[e // n], e % n, dims[1:]
        return h, e

    def one(rng, lib, h):
        hs = []  # [object, type, dims, count]
        kept, text = [], []
        for step in h:
            text.append(step["e"])
            # (in a function of its own: no variable keeps a handle alive)
            act(rng, lib, hs, kept, step["e"], text)
            if step["e"]["op"] == "drop":
                gc.collect()
                # use the room again, should it be free
                junk = [ctypes.create_string_buffer(b"\x5a" * k, k) for k in range(1, 65) for _ in range(4)]
                del junk
            look(hs, step["see"], text)

    def act(rng, lib, hs, kept, e, text):
        op = e["op"]
        x = hs[e["h"] - 1] if "h" in e else None
        if op == "build":
            dims = e["dims"]
            vals = [num(v) for v in e["vals"]]
            if e["t"] == "ch":
                vals = [bytes([v]) for v in vals]
            size = dims[0] if len(dims) == 1 and rng.random() < 0.7 else tuple(dims)
            form = rng.choice([list, tuple, iter, lambda v: (y for y in v)] + ([bytes] if e["t"] == "u8" else []))
            given = rng.choice([(), (None,), ([],), ((),)]) if not vals else (form(vals),)
            if rng.random() < 0.3 and given:
                a = build_array(lib, elem(rng, lib, e["t"]), size=size, vals=given[0])
            else:
                a = build_array(lib, elem(rng, lib, e["t"]), size, *given)
            n = 1
            for k in dims:
                n *= k
            eq(ctypes.sizeof(a), n * SIZES[e["t"]], "size of an array", history=text)
            hs.append([a, e["t"], dims, n])
        elif op == "row":
            d = x[2][1:]
            hs.append([x[0][e["r"]], x[1], d, x[3] // x[2][0]])
        elif op == "cast":
            p = cast_to(lib, x[0], point(rng, lib, e["t"]))
            if e["t"] == "ch" and isinstance(p, ctypes.c_char_p):
                # char * is a string to ctypes; go on with the address
                q = ctypes.cast(p, ctypes.POINTER(ctypes.c_char))
                p, q.origin = q, p
            hs.append([p, e["t"], None, None])
        elif op == "write":
            o, i = at(x[0], x[2], e["e"]) if x[2] else (x[0], e["e"])
            leaf(o, x[1], i, e["l"] - 1, num(e["v"]))
        elif op == "add":
            r = getattr(lib, "add_" + x[1])(x[0], e["n"], num(e["d"]))
            need(r[0] is x[0], "the result has the array that was given", got=r[0], history=text)
        elif op == "setp":
            f = lib.setp
            if rng.random() < 0.5:
                f(x[0], e["e"], num(e["a"]), num(e["b"]))
            else:
                f(b=num(e["b"]), p=x[0], a=num(e["a"]), k=e["e"])
        elif op == "copy":
            lib.copy(x[0], hs[e["g"] - 1][0], e["n"])
        elif op == "after":
            r = lib.after(x[0], e["n"])
            hs.append([r() if rng.random() < 0.5 else r.rval, "u16", None, None])
        elif op == "apply":
            def f(n, p, c=e["c"]):
                v = turn(c, n, p[0]) % 65536
                p[0] = v
                return v

            cls = rng.choice([lambda: lib.apply.arg_c_type("f"), lambda: lib.apply.arg_c_type(0), lambda: lib("types", "each")])()
            eq(lib.apply(cls(f), x[0], e["n"])(), e["r"], "what C makes of the results of a callback", history=text)
        elif op == "sort":
            cls = rng.choice([lambda: lib.sort16.arg_c_type("cmp"), lambda: lib.sort16.arg_c_type(2), lambda: lib("types", "less")])()
            lib.sort16(x[0], e["n"], cls(lambda p, q, c=e["c"]: lower(c, p[0], q[0])))
        elif op == "keep":
            cls = rng.choice([lambda: lib.keep.arg_c_type("f"), lambda: lib("types", "fn")])()
            kept.append(cls(lambda n, v, c=e["c"]: turn(c, n, v)))
            lib.keep(kept[-1])
            del kept[:-1]
        elif op == "shape":
            n, k, seen = e["n"], e["k"], []
            if k == "mix":

                def f(c, s, d, u, p):
                    seen.extend([c[0], s, d * 2, u, p[0].a, p[0].b])
                    return 5 * n

                r = lib.mix(lib.mix.arg_c_type(rng.choice(["f", 0]))(f), n)()
            elif k == "times":
                lib.times(lib.times.arg_c_type(rng.choice(["f", 0]))(lambda: seen.append(0)), n)
                r, seen = len(seen), []
            elif k == "half":

                def f(x, y):
                    seen.extend([x * 4, y])
                    return n * 1.5

                r = lib.half(lib.half.arg_c_type("f")(f), n)()
            else:
                V, done = lib("structs", "V"), []

                def f(a, b):
                    seen.extend([a, b])
                    return 100 * n

                ts = dict(V._fields_)
                v = V(5, ts["f"](f), ts["g"](lambda: done.append(1)))
                r = lib.member(v, n)() if rng.random() < 0.5 else lib.member(x=n, v=v)()
                eq((v.tag, done), (5, [1]), "callbacks in a struct", history=text)
            eq(seen, e["args"], "arguments of a callback", history=text)
            eq(r, e["r"], "result by way of a callback", history=text)
        elif op == "fire":
            got = lib.fire(e["n"], e["x"])() if e["how"] == 1 else lib.kept()()(e["n"], e["x"])
            eq(got, e["r"], "what the kept callback returns", history=text)
        else:
            hs[e["h"] - 1] = None

    def look(hs, see, text):
        for i, (y, want) in enumerate(zip(hs, see)):
            if y is None or y[1] == "void":
                continue
            k = LEAVES[y[1]]
            got = []
            for j in range(len(want)):
                o, n = at(y[0], y[2], j // k) if y[2] else (y[0], j // k)
                got.append(leaf(o, y[1], n, j % k))
            eq(got, [num(w) for w in want], "what a handle shows", handle=i + 1, history=text)
            if y[2]:
                eq(len(y[0]), y[2][0], "length of an array", history=text)

    def fn(b):
        def run():
            # only what is made from now on is collected
            gc.freeze()
            gc.disable()
            lib = CLibrary(so, parsers[b["n"] % 2])
            for c in b["cases"]:
                one(ctx.rng("use", c["n"]), lib, c["h"])

        isolated(run)

    replay(ctx, batches, fn, "histories", weight=lambda b: len(b["cases"]))
