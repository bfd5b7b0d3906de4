"""C13, C14: calls and their results (spec/Call.tla)."""

import ctypes
import os
import subprocess
from ctypes import CFUNCTYPE, POINTER, addressof, byref, c_char_p, c_void_p, pointer

from common import MachineryError, canon, eq, load_code, need, replay, run_tlc, sample

HEAD = """
struct S { int a; double b; };
union U { int a; char c[12]; };
enum E { E0, E1 = 5 };
typedef long td;
typedef struct S ST;
typedef int *pint;
typedef struct S *pS;
"""


class S(ctypes.Structure):
    _fields_ = [("a", ctypes.c_int), ("b", ctypes.c_double)]


class U(ctypes.Union):
    _fields_ = [("a", ctypes.c_int), ("c", ctypes.c_char * 12)]


INF = float("inf")
MAX = {n: 2**n - 1 for n in (7, 8, 15, 16, 31, 32, 63, 64)}
#: scalar kinds: C type, ctypes type, the values 1..6
SCALARS = {
    "int": ("int", ctypes.c_int, [0, -1, MAX[31], -MAX[31] - 1, 42, 7]),
    "short": ("short", ctypes.c_short, [0, -1, MAX[15], -MAX[15] - 1, 42, 7]),
    "double": ("double", ctypes.c_double, [0.0, -1.5, 1e300, 5e-324, INF, 3]),
    "float": ("float", ctypes.c_float, [0.0, -1.5, 2.0**100, 0.25, INF, 3]),
    "ll": ("long long", ctypes.c_longlong, [0, -1, MAX[63], -MAX[63] - 1, 42, 7]),
    "ull": ("unsigned long long", ctypes.c_ulonglong, [0, 1, MAX[64], MAX[63] + 1, 42, 7]),
    "uchar": ("unsigned char", ctypes.c_ubyte, [0, 1, 255, 128, 42, 7]),
    "bool": ("bool", ctypes.c_bool, [False, True, False, True, True, False]),
    "enum": ("enum E", ctypes.c_int, [0, 5, 1, 2, 3, 4]),
    "td": ("td", ctypes.c_long, [0, -1, MAX[63], -MAX[63] - 1, 42, 7]),
    "int8": ("int8_t", ctypes.c_int8, [0, -1, 127, -128, 42, 7]),
    "char": ("char", ctypes.c_char, [b"a", b"\0", b"\xff", b" ", b"'", b"\\"]),
    "long": ("long", ctypes.c_long, [0, -1, MAX[63], -MAX[63] - 1, 42, 7]),
    "ushort": ("unsigned short", ctypes.c_ushort, [0, 1, MAX[16], 32768, 42, 7]),
    "struct": ("struct S", S, [0, -1, MAX[31], -MAX[31] - 1, 42, 7]),
    "uint": ("unsigned int", ctypes.c_uint, [0, 1, MAX[32], 2**31, 42, 7]),
}
#: pointer kinds: declarator, what it points to (a scalar kind, another
#: pointer kind, "void" or "fn")
POINTERS = {
    "p_int": ("int *@", "int"),
    "p_double": ("double *@", "double"),
    "p_short": ("short *@", "short"),
    "p_ull": ("unsigned long long *@", "ull"),
    "p_td": ("td *@", "td"),
    "pint": ("pint @", "int"),
    "p_enum": ("enum E *@", "enum"),
    "p_bool": ("bool *@", "bool"),
    "p_float": ("float *@", "float"),
    "p_cint": ("const int *@", "int"),
    "p_void": ("void *@", "void"),
    "p_struct": ("struct S *@", "struct"),
    "p_union": ("union U *@", "union"),
    "p_tstruct": ("ST *@", "struct"),
    "ptstruct": ("pS @", "struct"),
    "p_uchar": ("unsigned char *@", "uchar"),
    "p_long": ("long *@", "long"),
    "pp_int": ("int **@", "p_int"),
    "pp_void": ("void **@", "p_void"),
    "pp_struct": ("struct S **@", "p_struct"),
    "pp_double": ("double **@", "p_double"),
    "ppint": ("pint *@", "p_int"),
    "pp_char": ("char **@", "p_char"),
    "p_char": ("char *@", "char"),
    "p_cchar": ("const char *@", "char"),
    "arr": ("int @[]", "int"),
    "fn": ("int (*@)(int)", "fn"),
    "ppp_int": ("int ***@", "pp_int"),
    "p_arr": ("int (*@)[3]", "a3"),
}
READONLY = ("p_char", "p_cchar", "ppp_int", "fn", "p_arr")
RETS = {
    "void": "void @", "p_char": "char *@", "p_int": "int *@", "p_struct": "struct S *@", "p_void": "void *@",
    "pint": "pint @", "ptstruct": "pS @", "rfn": "int (*@)(int)", "rarr": "int (*@)[3]",
}  # fmt: skip
ODD = ["self", "lib", "args", "kwargs", "func", "sig", "name", "res", "key", "pA", "_x", "n0", "val", "arg"]
FN = CFUNCTYPE(ctypes.c_int, ctypes.c_int)


def declarator(kind):
    if kind in POINTERS:
        return POINTERS[kind][0]
    return SCALARS[kind][0] + " @"


def ret_declarator(kind):
    return RETS.get(kind) or SCALARS[kind][0] + " @"


def ctype(kind):
    if kind in SCALARS:
        return SCALARS[kind][1]
    if kind == "union":
        return U
    if kind == "a3":
        return ctypes.c_int * 3
    if kind == "void":
        return ctypes.c_longlong
    if kind == "p_void":
        return c_void_p
    if kind in ("p_char", "p_cchar"):
        return c_char_p
    return POINTER(ctype(POINTERS[kind][1]))


def sig_key(s):
    return "_".join([s["ret"]] + [p["k"] for p in s["ps"]])


def c_source(sigs):
    """The functions of all signatures; fK_<key> for the numbers K."""
    out = [
        "#include <string.h>", "#include <stdio.h>", "#include <stdbool.h>", "#include <stdint.h>", HEAD,
        "typedef struct { unsigned long long addr; unsigned char bytes[16]; int called; } slot;",
        "struct { int func; slot a[14]; } recs[64]; int nrec;",
        "static char strs[64][16][8]; static struct S ss[64][16]; static int is[64][16]; static double ds[64][16];",
        "static int *pis[64][16]; static int plus(int x) { return x + 1000; }",
    ]  # fmt: skip
    for k, s in sorted(sigs.items()):
        f, n = k
        name = "f%d_%s" % (f, sig_key(s))
        ps = [declarator(p["k"]).replace("@", "a%d" % i) for i, p in enumerate(s["ps"], 1)]
        body = ["int c = nrec < 63 ? ++nrec : 63, w; recs[c].func = %d;" % f]
        for i, p in enumerate(s["ps"], 1):
            kind, a, w = p["k"], "a%d" % i, "(16 * c + %d)" % i
            sl = "recs[c].a[%d]" % i
            if kind in SCALARS:
                body.append("memcpy(%s.bytes, &%s, sizeof %s);" % (sl, a, a))
                continue
            body.append("%s.addr = (unsigned long long) %s;" % (sl, a))
            to = POINTERS[kind][1]
            if to == "fn":
                body.append("if (%s) %s.called = %s(7);" % (a, sl, a))
                continue
            size = "8" if to == "void" else "sizeof *" + a
            if to == "char":
                size = "2"
            body.append("if (%s) { memcpy(%s.bytes, %s, %s > 16 ? 16 : %s);" % (a, sl, a, size, size))
            if kind not in READONLY:
                w0 = {
                    "struct": "{a}->a = {w}; {a}->b = {w} + 0.5;",
                    "union": "{a}->a = {w};",
                    "void": "*(void **) {a} = (void *) (unsigned long long) {w};",
                    "p_void": "*{a} = (void *) (unsigned long long) {w};",
                    "p_int": "is[c][{i}] = {w}; *{a} = &is[c][{i}];",
                    "p_double": "ds[c][{i}] = {w}; *{a} = &ds[c][{i}];",
                    "p_struct": "ss[c][{i}].a = {w}; *{a} = &ss[c][{i}];",
                    "p_char": 'sprintf(strs[c][{i}], "s%d", {w}); *{a} = strs[c][{i}];',
                }.get(to, "*(%s *) {a} = {w};" % (SCALARS[to][0] if to in SCALARS else ""))
                body.append("if ((c + %d) %% 4 != 3) { %s }" % (i, w0.format(a=a, w=w, i=i)))
            body.append("}")
        r = s["ret"]
        body.append("w = c % 4 == 3 ? 0 : 16 * c + 15;")
        if r in RETS and r != "void":
            body.append("if (!w) return 0;")
        body.append(
            {
                "void": "return;",
                "p_char": 'sprintf(strs[c][15], "s%d", w); return strs[c][15];',
                "p_int": "is[c][15] = w; return &is[c][15];",
                "pint": "is[c][15] = w; return &is[c][15];",
                "rfn": "return plus;",
                "rarr": "is[c][15] = w; return (int (*)[3]) &is[c][13];",
                "p_struct": "ss[c][15].a = w; return &ss[c][15];",
                "ptstruct": "ss[c][15].a = w; return &ss[c][15];",
                "p_void": "return (void *) (unsigned long long) w;",
                "struct": "ss[c][15].a = w; return ss[c][15];",
            }.get(r, "return w;")
        )
        out.append("%s { %s }" % (ret_declarator(r).replace("@", "%s(%s)" % (name, ", ".join(ps) or "void")), " ".join(body)))
    return "\n".join(out) + "\n"


class Slot(ctypes.Structure):
    _fields_ = [("addr", ctypes.c_ulonglong), ("bytes", ctypes.c_ubyte * 16), ("called", ctypes.c_int)]


class Rec(ctypes.Structure):
    _fields_ = [("func", ctypes.c_int), ("a", Slot * 14)]


class Given:
    """A value passed for a parameter: number v of the kind."""

    def __init__(self, kind, v, lib):
        self.null = False
        self.called = 0
        self.addr = 0
        if kind in SCALARS:
            ct, vals = SCALARS[kind][1:]
            val = vals[v - 1]
            if kind == "struct":
                self.arg = lib.S(val, val + 0.5)
                self.raw = bytes(S(val, val + 0.5))
            else:
                self.arg = ct(val) if v == 6 else val
                self.raw = bytes(ct(val))
            return
        to = POINTERS[kind][1]
        self.raw = b""
        if to == "fn":
            self.arg = FN(lambda x, v=v: x * 100 + v)
            self.addr = ctypes.cast(self.arg, c_void_p).value
            self.called = 700 + v
            return
        if to == "char":
            text = b"x%d" % v
            self.arg = [text, c_char_p(text), ctypes.create_string_buffer(text)][v % 3]
            self.raw = text
            if v % 3 == 2:
                self.addr = addressof(self.arg)
            elif v % 3 == 1:
                self.addr = ctypes.cast(self.arg, c_void_p).value
            else:
                self.addr = None
            return
        if to in ("struct", "union"):
            cls = lib.S if to == "struct" else lib.U
            self.obj = cls(v)
        elif to in SCALARS:
            vals = SCALARS[to][2]
            self.obj = ctype(to)(vals[v - 1])
            cls = ctype(to)
        elif to == "a3":
            cls = ctypes.c_int * 3
            self.obj = cls(v, v * 100, -v)
        elif to == "void":
            cls = ctypes.c_longlong
            self.obj = cls(v * 1000)
        elif to == "p_struct":
            cls = POINTER(lib.S)
            self.obj = pointer(lib.S(v))
        elif to == "p_void":
            cls = c_void_p
            self.obj = c_void_p(v * 1000)
        elif to == "p_char":
            cls = c_char_p
            self.obj = c_char_p(b"x%d" % v)
        elif to == "pp_int":
            self.obj = pointer(pointer(ctypes.c_int(v)))
            cls = type(self.obj)
        else:
            self.obj = pointer(ctype(POINTERS[to][1])(v))
            cls = type(self.obj)
        self.raw = bytes(self.obj)[:16]
        way = v % 3
        if way == 0:
            self.arg = pointer(self.obj)
            self.addr = addressof(self.obj)
        elif way == 1 and to != "void":
            self.arg = (cls * 2)(self.obj)
            self.addr = addressof(self.arg)
        elif way == 1:
            self.arg = addressof(self.obj)
            self.addr = self.arg
        else:
            self.arg = byref(self.obj)
            self.addr = addressof(self.obj)


def value_of(arg):
    """The Python value of an argument as passed."""
    if isinstance(arg, (ctypes.Structure, ctypes.Union)) or not hasattr(arg, "value"):
        return arg
    return arg.value


def same(got, want):
    return got is want or type(got) is type(want) and got == want


def check_auto(got, kind, w, **info):
    """The value of a generated pointer after the call wrote w."""
    to = POINTERS[kind][1]
    if not w and to in POINTERS or to == "void" and not w:
        need(not got, "nothing was written", got=got, **info)
    elif not w and to == "bool":
        need(got is False, "nothing was written", got=got, **info)
    elif not w and to == "struct":
        eq([got.a, got.b], [0, 0], "nothing was written", **info)
    elif to in ("struct", "union"):
        eq(got.a, w, "what was written", **info)
        if to == "struct":
            eq(got.b, w + 0.5, "what was written", **info)
    elif to in ("p_int", "p_double"):
        eq(got[0], w, "what was written", **info)
    elif to == "p_struct":
        eq(got[0].a, w, "what was written", **info)
    elif to == "p_char":
        eq(got, b"s%d" % w, "what was written", **info)
    elif to == "bool":
        need(got is True, "what was written", got=got, **info)
    else:
        if to == "uchar":
            w &= 255
        eq(got, w, "what was written", **info)


def check_ret(got, kind, w, **info):
    if kind == "void":
        need(got is None, "the value returned", got=got, **info)
    elif kind in RETS and not w:
        need(not got, "NULL is returned", got=got, **info)
    elif kind == "bool":
        need(got is bool(w), "the value returned", got=got, **info)
    elif kind in ("p_int", "pint"):
        eq(got[0], w, "the value returned", **info)
    elif kind == "rfn":
        eq(got(7), 1007, "the function returned", **info)
    elif kind == "rarr":
        eq(got[0][2], w, "the value returned", **info)
    elif kind in ("p_struct", "ptstruct"):
        eq(got[0].a, w, "the value returned", **info)
    elif kind == "struct":
        eq(got.a, w, "the value returned", **info)
    elif kind == "p_char":
        eq(got, b"s%d" % w, "the value returned", **info)
    else:
        eq(got, w & 255 if kind == "uchar" else w, "the value returned", **info)


def run(ctx, results):
    load_code()
    from pyclibrary.c_library import CLibrary
    from pyclibrary.c_parser import CParser

    inv = ["Fresh", "Refused"]
    small = run_tlc(ctx, "Call", dict(MaxFuncs=1, MaxParams=3, MaxEvents=1, Small=not ctx.thorough), inv + ["GenShort"], ["Stay"], spec="SpecShort", label="all ways to call short signatures")
    sim = run_tlc(ctx, "Call", dict(MaxFuncs=3, MaxParams=6, MaxEvents=14, Small=True), inv + ["Gen"], init="InitSim", next="Draw", simulate=ctx.q(900, 12000), depth=24, label="random signatures and sequences of calls")
    wide = run_tlc(ctx, "Call", dict(MaxFuncs=1, MaxParams=13, MaxEvents=8, Small=True), inv + ["Gen"], init="InitSim", next="Draw", simulate=ctx.q(150, 3000), depth=12, label="functions of many parameters")
    chosen = sample(ctx.rng("short"), canon(small.cases), ctx.q(8000, 150000))
    groups = {}
    for c in chosen:
        groups.setdefault(repr(c["sigs"]), []).append(c)
    # cases with the same signature share a library
    cases = []
    for k in sorted(groups):
        g = groups[k]
        for i in range(0, len(g), 60):
            cases.append({"sigs": g[0]["sigs"], "hs": [c["h"] for c in g[i : i + 60]]})
    cases += [{"sigs": c["sigs"], "hs": [c["h"]]} for c in canon(sim.cases) + canon(wide.cases)]
    small = sim = wide = chosen = groups = None
    for i, c in enumerate(cases):
        c["i"] = i
    base = ctx.tmp()
    sigs = {}
    for c in cases:
        for f, s in enumerate(c["sigs"], 1):
            sigs[(f, sig_key(s))] = s
    so = os.path.join(base, "l.so")
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write(c_source(sigs))
    r = subprocess.run(["gcc", "-w", "-O0", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc: " + r.stderr[:3000])
    zeros = bytes(16)

    def fn(case):
        rng = ctx.rng("case", case["i"])
        names = []
        decls = []
        for f, s in enumerate(case["sigs"], 1):
            odd = rng.sample(ODD, len(s["ps"])) if rng.random() < 0.4 else ["a%d" % (i + (f if rng.random() < 0.2 else 0)) for i in range(len(s["ps"]))]
            if len(set(odd)) != len(odd):
                odd = ["a%d" % i for i in range(len(odd))]
            odd = [n if p["n"] else "" for n, p in zip(odd, s["ps"])]
            names.append(odd)
            ps = [declarator(p["k"]).replace("@", n).strip() for n, p in zip(odd, s["ps"])]
            conv = rng.choice(["", "", "__cdecl ", "__stdcall "])
            # a pointer followed by a convention is not supported
            if "*@" in ret_declarator(s["ret"]):
                conv = ""
            fname = "f%d_%s" % (f, sig_key(s))
            decls.append(ret_declarator(s["ret"]).replace("@", "%s%s(%s)" % (conv, fname, ", ".join(ps) or rng.choice(["void", ""]))) + ";")
        text = HEAD + "\n".join(decls) + "\n"
        path = os.path.join(base, "c%d.so" % case["i"])
        os.link(so, path)
        hp = os.path.join(base, "c%d.h" % case["i"])
        with open(hp, "w") as fd:
            fd.write(text)
        lib = CLibrary(path, CParser(hp))
        raw = ctypes.CDLL(so)
        nrec = ctypes.c_int.in_dll(raw, "nrec")
        recs = (Rec * 64).in_dll(raw, "recs")
        for h in case["hs"]:
            nrec.value = 0
            ctypes.memset(recs, 0, ctypes.sizeof(recs))
            one(h, case["sigs"], names, lib, nrec, recs, "\n".join(decls), rng)
        os.remove(path)
        os.remove(hp)

    def one(h, sigs, names, lib, nrec, recs, text, rng):
        live, done = {}, []
        for e in h:
            f = e["f"]
            info = dict(header=text, calls=done)
            if e["a"] == "set":
                r, i = e["r"], e["i"]
                given, obj = live[r]
                val = ["replaced", 12, None, [1], 2.5, b"b"][e["vs"][0] - 1]
                n = names[sigs_of[r] - 1][i - 1] if (sigs_of := {x["a"] == "call" and x["r"] or 0: x["f"] for x in h}) else ""
                if n and rng.random() < 0.5:
                    obj[n] = val
                else:
                    obj[i - 1] = val
                given[i - 1] = Replaced(val)
                done.append("result %d: argument %d replaced by %r" % (r, i, val))
            elif e["a"] == "discard":
                del live[e["r"]]
                done.append("result %d discarded" % e["r"])
            else:
                sig, ns = sigs[f - 1], names[f - 1]
                args, kw, given = [], {}, []
                for i, (m, v, p) in enumerate(zip(e["ms"], e["vs"], sig["ps"])):
                    g = Given(p["k"], v, lib) if m in ("pos", "kw") else None
                    given.append(g)
                    a = g.arg if g else object() if m in ("posbad", "kwbad") else None
                    if m in ("pos", "posnull", "posbad"):
                        args.append(a)
                    elif m in ("kw", "kwnull", "kwbad"):
                        kw[ns[i]] = a
                if e["u"]:
                    others = [n for o in names for n in o if n and n not in ns] + ["zz", "", "f", "a0"]
                    kw[next(n for n in rng.sample(others, len(others)) if n not in ns)] = rng.choice([1, None])
                items = list(kw.items())
                rng.shuffle(items)
                kw = dict(items)
                done.append("%d: f%d(%s)" % (len(done) + 1, f, ", ".join([repr(a) for a in args] + ["%s=%r" % x for x in kw.items()])))
                before = nrec.value
                call = getattr(lib, "f%d_%s" % (f, sig_key(sig)))
                nargs, nkw = list(args), dict(kw)
                try:
                    obj = call(*args, **kw)
                except (TypeError, ctypes.ArgumentError) as ex:
                    need(e["err"], "the call is made: %s" % ex, **info)
                    eq(type(ex).__name__, {"call": "TypeError", "value": "ArgumentError"}[e["err"]], "the exception: %s" % ex, **info)
                    eq(nrec.value, before, "the function is not called", **info)
                    ex = None
                    continue
                need(not e["err"], "an exception is raised", **info)
                need(nargs == args and nkw == kw, "the arguments of the caller stay", **info)
                if not results:
                    eq(nrec.value, before + 1, "the function is called once", **info)
                    arrived(e, sig, given, recs[nrec.value], **info)
                live[e["r"]] = (given, obj)
            if results:
                for r, x in enumerate(e["res"], 1):
                    need(x["live"] == (r in live), "machinery", **info)
                    if x["live"]:
                        read(x, sigs[x["f"] - 1], names[x["f"] - 1], *live[r], rng, result=r, **info)

    def arrived(e, sig, given, rec, **info):
        eq(rec.func, e["f"], "the function called", **info)
        addrs = set()
        for i, (m, p, g) in enumerate(zip(e["ms"], sig["ps"], given), 1):
            info["parameter"] = i
            s = rec.a[i]
            got = bytes(s.bytes)
            if m in ("posnull", "kwnull"):
                eq(s.addr, 0, "NULL arrives", **info)
            elif m == "omit":
                need(s.addr, "a pointer arrives", **info)
                eq(got, zeros, "the object is zero-initialised", **info)
                need(s.addr not in addrs, "an object of its own", **info)
                addrs.add(s.addr)
            else:
                raw = g.raw
                if p["k"] in SCALARS:
                    if p["k"] == "struct":
                        # without the padding
                        got, raw = got[:4] + got[8:], raw[:4] + raw[8:]
                elif g.addr is not None:
                    eq(s.addr, g.addr, "the pointer arrives", **info)
                if POINTERS.get(p["k"], ("", ""))[1] == "struct":
                    got, raw = got[:4] + got[8:], raw[:4] + raw[8:]
                eq(got[: len(raw)], raw, "the value arrives", **info)
                eq(s.called, g.called, "the callback arrives", **info)

    def read(x, sig, ns, given, obj, rng, **info):
        check_ret(obj(), sig["ret"], x["ret"], **info)
        val, args = obj
        args = list(args)
        check_ret(val, sig["ret"], x["ret"], **info)
        eq(len(args), len(sig["ps"]), "one value per argument", **info)
        auto = obj.auto()
        k = 0
        for i, (a, p) in enumerate(zip(x["args"], sig["ps"])):
            info["argument"] = i + 1
            vals = [args[i], obj[i]]
            if ns[i]:
                vals.append(obj[ns[i]])
            if a["o"] == "auto":
                need(k < len(auto), "generated arguments are listed", auto=auto, **info)
                vals.append(auto[k])
                k += 1
            for got in vals:
                if a["o"] == "auto":
                    check_auto(got, p["k"], a["v"], **info)
                elif a["o"] == "null":
                    need(not got, "NULL was passed", got=got, **info)
                elif a["o"] == "set":
                    need(same(got, given[i].val), "the argument put there", got=got, want=given[i].val, **info)
                else:
                    need(same(got, value_of(given[i].arg)), "the argument as passed", got=got, want=value_of(given[i].arg), **info)
        eq(len(auto), k, "only generated arguments are listed", **info)
        n = rng.choice(["zz", "nothing", "rval"])
        for n in (n, *[m for m in ODD[:6] if m not in ns][:1]):
            try:
                got = obj[n]
            except KeyError:
                pass
            else:
                need(False, "KeyError is raised", name=n, got=got, **info)

    replay(ctx, cases, fn, clause="results" if results else "arguments", weight=lambda c: len(c["hs"]))


class Replaced:
    def __init__(self, val):
        self.val = self.arg = val
