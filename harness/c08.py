"""C08: layout of the ctypes classes (spec/Layout.tla)."""

import copy
import ctypes
import os
import shutil
import subprocess

from common import Failure, MachineryError, Namer, canon, eq, load_code, need, replay, run_tlc, sample

BASES = {
    "char": ctypes.c_char, "short": ctypes.c_short, "short int": ctypes.c_short, "int": ctypes.c_int,
    "double": ctypes.c_double, "unsigned char": ctypes.c_ubyte, "long": ctypes.c_long, "long int": ctypes.c_long,
    "float": ctypes.c_float, "long double": ctypes.c_longdouble, "bool": ctypes.c_bool, "wchar_t": ctypes.c_wchar,
    "unsigned long long": ctypes.c_ulonglong, "unsigned long long int": ctypes.c_ulonglong, "size_t": ctypes.c_size_t,
    "ssize_t": ctypes.c_ssize_t, "unsigned": ctypes.c_uint, "unsigned int": ctypes.c_uint,
    "unsigned short": ctypes.c_ushort, "unsigned short int": ctypes.c_ushort, "time_t": ctypes.c_time_t,
    "long long": ctypes.c_longlong, "long long int": ctypes.c_longlong, "unsigned long": ctypes.c_ulong,
    "unsigned long int": ctypes.c_ulong, "long unsigned int": ctypes.c_ulong,
    **{p + "int%d_t" % n: getattr(ctypes, "c_%sint%d" % (p, n)) for p in ("", "u") for n in (8, 16, 32, 64)},
}  # fmt: skip
KW = {"struct": "struct", "union": "union", "enum": "enum", "bad": "struct"}
LET = {"struct": "S", "union": "U", "enum": "E", "bad": "S", "typedef": "T"}


class Header:
    """The header text of a case; suf keeps names of several cases apart."""

    def __init__(self, decls, suf="", rng=None, nm=None):
        self.d, self.suf, self.rng, self.nm = decls, suf, rng, nm

    def name(self, i):
        if self.nm:
            return self.nm((self.suf, i))
        return "%s%d%s" % (LET[self.d[i - 1]["kind"]], i, self.suf)

    def base(self, b):
        if b["k"] in ("base", "void"):
            return b["n"]
        if b["k"] == "opaque":
            return "struct Op" + self.suf
        k = self.d[b["i"] - 1]["kind"]
        return self.name(b["i"]) if k == "typedef" else KW[k] + " " + self.name(b["i"])

    def decl(self, t, name):
        text = name
        for m in reversed(t["m"]):
            if m["k"] == "ptr":
                text = "*" + text
            elif m["k"] == "fp":
                ps = ", ".join(self.decl(p, self.rng.choice(["", "p%d" % j]) if self.rng else "") for j, p in enumerate(m["ps"]))
                text = "(*%s)(%s)" % (text, ps or "void")
            else:
                if text.startswith("*"):
                    text = "(" + text + ")"
                text += "[%s]" % (m["n"] if m["k"] == "arr" else "")
        return (self.base(t["b"]) + " " + text).strip()

    def mname(self, i, j):
        if self.nm:
            return self.nm((self.suf, i, j))
        return "m%d_%d" % (i, j)

    def anon_text(self, i):
        """Text of the body of an anonymous member."""
        return "%s { %s }" % (KW[self.d[i - 1]["kind"]], " ".join(self.members(i)))

    def members(self, i):
        out = []
        for j, m in enumerate(self.d[i - 1]["members"]):
            if m["anon"]:
                raise MachineryError("nested anonymous member")
            t = self.decl(m["t"], self.mname(i, j))
            out.append(t + (" : %d" % m["w"] if m["w"] >= 0 else "") + ";")
        return out

    def text(self, known_only=False):
        out, packed = [], 0
        for i, d in enumerate(self.d, 1):
            if d["pack"] != packed:
                out.append("#pragma pack(%s)" % (d["pack"] or ""))
                packed = d["pack"]
            if d["kind"] == "typedef":
                out.append("typedef %s;" % self.decl(d["members"][0]["t"], self.name(i)))
            elif d["kind"] == "enum":
                out.append("enum %s { e%d%s, f%d%s = 7 };" % (self.name(i), i, self.suf, i, self.suf))
            elif d["kind"] == "bad":
                out.append("struct %s { int x; unknown_t y; };" % self.name(i) if not known_only else "struct %s { char x; };" % self.name(i))
            else:
                ms = []
                for j, m in enumerate(d["members"]):
                    if m["anon"]:
                        k = m["t"]["b"]["i"]
                        ms.append(self.anon_text(k) + ";")
                    else:
                        t = self.decl(m["t"], self.mname(i, j))
                        ms.append(t + (" : %d" % m["w"] if m["w"] >= 0 else "") + ";")
                out.append("%s %s {\n  %s\n};" % (d["kind"], self.name(i), "\n  ".join(ms)))
        if packed:
            out.append("#pragma pack()")
        return "\n".join(out) + "\n"


def gcc_agrees(ctx, cases):
    """Sizes, alignments, offsets and bits of the specification against gcc."""
    if not shutil.which("gcc"):
        return
    d = ctx.tmp()
    n = 0
    procs = []
    for k in range(0, len(cases), 150):
        src = ["#include <stdbool.h>", "#include <stddef.h>", "#include <stdint.h>", "#include <time.h>", "#include <sys/types.h>", "#include <string.h>", "#include <stdio.h>", "#include <wchar.h>"]
        run = []
        for q, c in enumerate(cases[k : k + 150]):
            h = Header(c["decls"], "_%d" % q)
            src.append("struct Op_%d { char x; };" % q)
            src.append(h.text(True))
            for i, t in enumerate(c["decls"], 1):
                if t["broken"] == "yes":
                    continue
                full = h.base({"k": "ref", "i": i})
                src.append("_Static_assert(sizeof(%s) == %d && _Alignof(%s) == %d, \"%d %d\");" % (full, t["size"], full, t["align"], q, i))
                n += 1
                if t["kind"] not in ("struct", "union"):
                    continue
                for j, m in enumerate(t["members"]):
                    if m["anon"]:
                        for jj, mm in enumerate(c["decls"][m["t"]["b"]["i"] - 1]["members"]):
                            if mm["w"] < 0:
                                src.append("_Static_assert(offsetof(%s, %s) == %d, \"%d %d\");" % (full, h.mname(m["t"]["b"]["i"], jj), (m["off"] + mm["off"]) // 8, q, i))
                    elif m["w"] < 0:
                        src.append("_Static_assert(offsetof(%s, %s) == %d, \"%d %d\");" % (full, h.mname(i, j), m["off"] // 8, q, i))
                    else:
                        run.append("{ %s x; memset(&x, 0, sizeof x); x.%s = -1; if (chk(&x, sizeof x, %d, %d)) { printf(\"%d %d %d\\n\"); return 1; } }" % (full, h.mname(i, j), m["off"], m["w"], q, i, j))
        src.append("static int chk(void *p, int n, int o, int w) { int i; for (i = 0; i < 8 * n; i++) if (((((unsigned char *)p)[i / 8] >> (i % 8)) & 1) != (i >= o && i < o + w)) return 1; return 0; }")
        src.append("int main(void) {\n%s\nreturn 0; }" % "\n".join(run))
        p = os.path.join(d, "l%d.c" % k)
        with open(p, "w") as f:
            f.write("\n".join(src) + "\n")
        procs.append((p, subprocess.Popen(["sh", "-c", "gcc -O0 -w -o '%s' '%s' && '%s'" % (p[:-2], p, p[:-2])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(procs) == 8:
            procs = finish(procs)
    while procs:
        procs = finish(procs)
    shutil.rmtree(d, ignore_errors=True)
    ctx.extra["types_compared_with_gcc"] = n


def finish(procs):
    p, pr = procs.pop(0)
    out = pr.communicate(timeout=300)[0]
    if pr.returncode:
        raise MachineryError("the specification disagrees with gcc (%s): %s" % (p, out[-1500:]))
    return procs


def check(ctx):
    load_code()
    from pyclibrary import CLibrary, CParser

    one = run_tlc(ctx, "Layout", dict(Mode="one", MaxDecls=1, MaxMembers=ctx.q(3, 4), MaxReq=0), ["Sound", "GenOne"],
                  init="InitOne", next="NextOne", heap="12g", timeout=1500, label="all structs of a few members")  # fmt: skip
    order = run_tlc(ctx, "Layout", dict(Mode="order", MaxDecls=3, MaxMembers=ctx.q(1, 2), MaxReq=3), ["Sound", "Gen"], ["Pure"],
                    spec="SpecOrder", timeout=900, label="mutual references, all orders of requests")  # fmt: skip
    sim = run_tlc(ctx, "Layout", dict(Mode="sim", MaxDecls=8, MaxMembers=6, MaxReq=10), ["Sound", "Gen"],
                  init="InitSim", next="Draw", simulate=ctx.q(500, 15000), depth=110, timeout=1500, label="large headers")  # fmt: skip
    wide = run_tlc(ctx, "Layout", dict(Mode="wide", MaxDecls=3, MaxMembers=40, MaxReq=6), ["Sound", "Gen"],
                   init="InitSim", next="Draw", simulate=ctx.q(40, 1500), depth=180, timeout=1500, label="large structs")  # fmt: skip
    ones = sample(ctx.rng("one"), canon(one.cases), ctx.q(1600, 40000))
    orders = sample(ctx.rng("order"), canon(order.cases), ctx.q(700, 30000))
    sims = canon(sim.cases) + canon(wide.cases)
    gcc_agrees(ctx, ones + sims + orders[:200])

    # a library to ask for the types; every case has a file of its own
    base = ctx.tmp()
    so = os.path.join(base, "l.so")
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write("int nothing(void) { return 0; }\n")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], check=True, timeout=60)

    def conforms(c, h, cls, i, seen, src, anon=False):
        """cls is the class of declaration i."""
        d = c["decls"][i - 1]
        if d["kind"] == "typedef":
            return shape(c, h, cls, d["members"][0]["t"], seen, src)
        if d["kind"] == "enum":
            return need(cls is ctypes.c_int, "an enum is an int", got=cls, source=src)
        need(isinstance(cls, type) and issubclass(cls, ctypes.Structure if d["kind"] in ("struct", "bad") else ctypes.Union), "kind of class", name=h.name(i), got=cls, source=src)
        if i in seen and not anon:
            return need(seen[i] is cls, "a single class per struct", name=h.name(i), source=src)
        if not anon:
            seen[i] = cls
        eq(ctypes.sizeof(cls), d["size"], "size of " + h.name(i), source=src)
        eq(ctypes.alignment(cls), d["align"], "alignment of " + h.name(i), source=src)
        names = []
        flat = []
        for j, m in enumerate(d["members"]):
            names.append(None if m["anon"] else h.mname(i, j))
            if m["anon"]:
                k = m["t"]["b"]["i"]
                flat += [(h.mname(k, jj), m["off"] + mm["off"], mm) for jj, mm in enumerate(c["decls"][k - 1]["members"])]
            else:
                flat.append((h.mname(i, j), m["off"], m))
        fields = cls._fields_
        eq(len(fields), len(names), "number of members of " + h.name(i), source=src)
        for f, n, m in zip(fields, names, d["members"]):
            if n is not None:
                eq(f[0], n, "name of a member of " + h.name(i), source=src)
                shape(c, h, f[1], m["t"], seen, src)
            else:
                # an anonymous struct is another one with the same layout
                conforms(c, h, f[1], m["t"]["b"]["i"], seen, src, True)
        for n, off, m in flat:
            fd = getattr(cls, n)
            if m["w"] < 0:
                eq(fd.offset, off // 8, "offset of %s.%s" % (h.name(i), n), source=src)
            else:
                x = cls()
                setattr(x, n, -1 if "unsigned" not in m["t"]["b"]["n"] else (1 << m["w"]) - 1)
                bits = int.from_bytes(bytes(x), "little")
                eq(bits, ((1 << m["w"]) - 1) << off, "bits of %s.%s" % (h.name(i), n), source=src)
                need(bool(getattr(x, n) < 0) == ("unsigned" not in m["t"]["b"]["n"]), "sign of a bit field", name=n, source=src)

    def shape(c, h, cls, t, seen, src):
        ms = t["m"]
        if not ms:
            b = t["b"]
            if b["k"] == "base":
                return need(cls is BASES[b["n"]], "class of a base type", typ=b["n"], got=cls, source=src)
            if b["k"] == "void":
                return need(cls is None, "void", got=cls, source=src)
            if b["k"] == "opaque":
                return need(issubclass(cls, ctypes.Structure), "opaque struct", got=cls, source=src)
            return conforms(c, h, cls, b["i"], seen, src)
        m, inner = ms[-1], {"b": t["b"], "m": ms[:-1]}
        # a typedef may stand between
        if m["k"] == "ptr":
            r = resolve(c, inner)
            if not r["m"] and r["b"]["n"] in ("char", "void", "wchar_t"):
                want = {"char": ctypes.c_char_p, "void": ctypes.c_void_p, "wchar_t": ctypes.c_wchar_p}[r["b"]["n"]]
                return need(cls is want, "pointer to " + r["b"]["n"], got=cls, source=src)
            need(hasattr(cls, "_type_") and issubclass(cls, ctypes._Pointer), "pointer", got=cls, source=src)
            return shape(c, h, cls._type_, inner, seen, src)
        if m["k"] == "fp":
            need(issubclass(cls, ctypes._CFuncPtr), "function pointer", got=cls, source=src)
            eq(len(cls._argtypes_), len(m["ps"]), "number of parameters", source=src)
            for a, p in zip(cls._argtypes_, m["ps"]):
                shape(c, h, a, p, seen, src)
            return shape(c, h, cls._restype_, inner, seen, src)
        need(isinstance(cls, type) and issubclass(cls, ctypes.Array), "array", got=cls, source=src)
        eq(cls._length_, m["n"], "length of an array", source=src)
        shape(c, h, cls._type_, inner, seen, src)

    def resolve(c, t):
        while t["b"]["k"] == "ref" and c["decls"][t["b"]["i"] - 1]["kind"] == "typedef":
            u = c["decls"][t["b"]["i"] - 1]["members"][0]["t"]
            t = {"b": u["b"], "m": u["m"] + t["m"]}
        return t

    def ask(lib, c, h, i, via):
        d = c["decls"][i - 1]
        n = h.name(i)
        if d["kind"] == "typedef":
            r = resolve(c, {"b": {"k": "ref", "i": i, "n": ""}, "m": []})
            if via == "alias" and not r["m"] and r["b"]["k"] == "ref" and c["decls"][r["b"]["i"] - 1]["kind"] in ("struct", "union"):
                return lib(c["decls"][r["b"]["i"] - 1]["kind"] + "s", n)
            return getattr(lib, n) if via == "attr" else lib("types", n)
        if d["kind"] == "enum":
            # the enum itself is a table of values; its type has no name of its own
            lib("enums", n)
            return ctypes.c_int
        return getattr(lib, n) if via == "attr" else lib(KW[d["kind"]] + "s", n)

    def snap(p):
        return repr({k: copy.copy(v) for k, v in p.defs.items()})

    def play(b):
        nm = Namer(ctx.rng("names", b["n"]), ["p%d" % j for j in range(9)]) if b["n"] % 4 else None
        text = "".join("struct Op%s;\n" % h.suf + h.text() for h in (Header(c["decls"], "_%d" % q, ctx.rng("t", b["n"], q), nm) for q, c in enumerate(b["cases"])))
        path = os.path.join(base, "h%d.h" % b["n"])
        with open(path, "w") as f:
            f.write(text)
        lp = os.path.join(base, "l%d.so" % b["n"])
        os.link(so, lp)
        try:
            parser = CParser(path)
            before = snap(parser)
            lib = CLibrary(lp, parser)
            for q, c in enumerate(b["cases"]):
                h = Header(c["decls"], "_%d" % q, None, nm)
                src = text if len(b["cases"]) == 1 else h.text()
                seen = {}
                for i, via in c["reqs"] or [[1, "tag"], [1, "types"]]:
                    state = c["decls"][i - 1]["broken"]
                    try:
                        cls = ask(lib, c, h, i, via)
                    except Exception as e:
                        if state != "no":
                            continue
                        raise Failure("asking for %s raised %r in\n%s" % (h.name(i), e, src))
                    need(state != "yes", "a type which cannot be represented raises", name=h.name(i), got=cls, source=src)
                    if state == "maybe":
                        # where an unknown type is behind a pointer either is right
                        continue
                    conforms(c, h, cls, i, seen, src)
                    need(ask(lib, c, h, i, via) is cls, "asking again gives the same", name=h.name(i), source=src)
            eq(snap(parser), before, "definitions stay as parsed", source=text[:2000])
        finally:
            os.remove(lp)
            os.remove(path)

    def fn(b):
        play(b)

    todo = [{"cases": ones[i : i + 40]} for i in range(0, len(ones), 40)]
    todo += [{"cases": [c]} for c in orders + sims]
    for n, b in enumerate(todo):
        b["n"] = n
    replay(ctx, todo, fn, "layout", weight=lambda b: len(b["cases"]))
