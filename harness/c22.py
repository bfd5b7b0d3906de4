"""C22: the architecture of the library a path leads to (spec/Arch.tla)."""

import gc
import os
import shutil
import struct
import subprocess
import sys

from common import MachineryError, canon, eq, isolated, load_code, need, replay, run_tlc, sample

NPATHS = 4
# names say nothing about the file
NAMES = """liba.so 32-bit 64-bit libx-32-bit.so ELF-64-bit-LSB x86_64.so i386.dll -b - -- --help a:b.so .so lib%s.so ~lib.so lib*.so $HOME lib'a" {x}.so
libé.so 図書.so @args lib#.so""".split() + ["two words.so", "ELF 32-bit LSB shared object", "a: ELF 64-bit", " lead", "new\nline", "tab\t.so", "bad\udcff.so", "(for architecture i386)"]


def elf(bits, order):
    e = "<" if order == "le" else ">"
    ident = b"\x7fELF" + bytes([1 if bits == 32 else 2, 1 if order == "le" else 2, 1]) + b"\0" * 9
    machine = {(32, "le"): 3, (64, "le"): 62, (32, "be"): 20, (64, "be"): 21}[bits, order]
    if bits == 32:
        return ident + struct.pack(e + "HHIIIIIHHHHHH", 3, machine, 1, 0, 0, 0, 0, 52, 32, 0, 40, 0, 0)
    return ident + struct.pack(e + "HHIQQQIHHHHHH", 3, machine, 1, 0, 0, 0, 0, 64, 56, 0, 64, 0, 0)


def pe(rng, code, offset, damage):
    fill = lambda n: bytes(rng.randrange(1, 250) for _ in range(min(n, 300))).ljust(n, b"\x90")  # noqa: E731
    if damage == "far":
        return b"MZ" + fill(58) + struct.pack("<l", offset + 1000) + fill(offset)
    head = (b"ZM" if damage == "mz" else b"MZ") + fill(58) + struct.pack("<l", offset)
    head += fill(offset - 64)
    if damage == "short":
        return head + b"PE\0\0" + bytes(code[:1]) if rng.random() < 0.7 else head[: rng.randrange(1, 64)]
    return head + (b"NE\0\0" if damage == "pe" else b"PE\0\0") + bytes(code) + fill(40)


def check(ctx):
    load_code()
    from pyclibrary import CLibrary, utils

    inv, props = ["TypeOK", "OnlyTheFile", "Refused"], ["Pure"]
    small = run_tlc(
        ctx, "Arch", dict(NPaths=2, MaxSteps=ctx.q(3, 4), Small=True), inv + ["GenSmall"], props, spec="Spec", label="all short histories", heap="12g", timeout=1500
    )  # fmt: skip
    long = run_tlc(ctx, "Arch", dict(NPaths=NPATHS, MaxSteps=60, Small=False), inv + ["Gen"], next="Draw", simulate=ctx.q(200, 6000), depth=64, label="long histories")
    cases = sample(ctx.rng("k"), canon(small.cases), ctx.q(800, 20000)) + canon(long.cases)
    for i, c in enumerate(cases):
        c["i"] = i
    base = os.path.realpath(ctx.tmp())
    so = os.path.join(base, "where.so")
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write("int where(void) { return 7; }\n")
    with open(os.path.join(base, "w.h"), "w") as f:
        f.write("int where(void);\n")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc: " + r.stderr)
    if struct.calcsize("P") != 8:
        raise MachineryError("the specification is for a Python with 64 bits")

    def content(rng, k):
        if k[0] == "elf":
            return elf(k[1], k[2]) + b"\0" * rng.choice([0, 100, 5000])
        if k[0] == "so":
            return open(so, "rb").read()
        if k[0] == "text":
            return rng.choice(["ELF 64-bit LSB\n", "/* GNU ld script */\nINPUT(libc.so.6 32-bit)\n", "plain 32-bit text", "\n", "héé 64-bit\n"]).encode()
        if k[0] == "empty":
            return b""
        if k[0] == "bytes":
            return b"\0\0\1\2" + bytes([200, 201, 0, 7]) * rng.randrange(3, 60)
        return pe(rng, *k[1:])

    def story(c):
        rng = ctx.rng("c", c["i"])
        root = os.path.join(base, "c%d" % c["i"])
        dirs = [os.path.join(root, rng.choice(["d", "32-bit", "64-bit", "two words", "é", "-d"])) for _ in range(2)]
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        os.chdir(dirs[0])
        names = rng.sample(NAMES, NPATHS)
        paths = [None] + [os.path.join(dirs[rng.random() < 0.3], n) for n in names]
        objs, done, env = [], [], os.environ["PATH"]

        def spell(p):
            d, n = os.path.split(paths[p])
            k = rng.randrange(5)
            return paths[p] if k < 2 else os.path.relpath(paths[p]) if k == 2 else os.path.join(os.path.relpath(d), n) if k == 3 else d + os.sep + os.sep + n

        def same(got, r, how, **info):
            if how == "arch":
                eq(tuple(got), tuple(r), "the architecture", **info)
            elif how == "bitness":
                eq(got, ", ".join(map(str, r)) or "n/a", "the bitness", **info)
            else:
                eq(got, (int(how[3:5]) in r) if r else "n/a", how, **info)

        try:
            for e in c["h"]:
                done.append(e)
                info = dict(history=done, names=[os.path.relpath(p, root) for p in paths[1:]])
                if e["op"] == "put":
                    p = paths[e["p"]]
                    if os.path.isdir(p) and not os.path.islink(p):
                        os.rmdir(p)
                    elif os.path.lexists(p):
                        os.remove(p)
                    x = e["x"]
                    if x[0] == "dir":
                        os.mkdir(p)
                    elif x[0] == "link":
                        os.symlink(paths[x[1]] if rng.random() < 0.5 else os.path.relpath(paths[x[1]], os.path.dirname(p)), p)
                    elif x[0] == "file":
                        with open(p, "wb") as f:
                            f.write(content(rng, x[1]))
                    objs = [objs[i - 1] for i in e["keep"]]
                elif e["op"] == "make":
                    objs.append(utils.LibraryPath(os.path.abspath(spell(e["p"])) if rng.random() < 0.3 else spell(e["p"])))
                elif e["op"] == "platform":
                    # the files of the other platform are recognised by reading them
                    sys.platform, objs = e["x"], []
                elif e["op"] == "tool":
                    os.environ["PATH"] = env if e["x"] else root
                    objs = []
                elif e["op"] == "ask":
                    o = objs[e["i"] - 1]
                    same(getattr(o, e["how"]), e["r"], e["how"], path=str(o), **info)
                elif e["op"] == "open":
                    p = spell(e["p"])
                    if os.sep not in p:
                        p = os.path.join(".", p)
                    name = e["how"] == "name"
                    if name:
                        p = os.path.basename(p)
                        utils.LIBRARY_DIRS[:] = [os.path.dirname(paths[e["p"]])]
                    lib = None
                    try:
                        lib = CLibrary(p, [os.path.join(base, "w.h")])
                        got = "ok"
                    except (OSError, AssertionError, UnicodeDecodeError) as ex:  # ctypes cannot decode its own messages
                        got = ex
                    if e["r"] == "ok":
                        need(got == "ok", "the library is opened", path=p, ex=got, **info)
                        eq(lib.where()(), 7, "the library works", path=p, **info)
                    else:
                        need(got != "ok", "the library is refused", path=p, want=e["r"], **info)
                        bits = isinstance(got, OSError) and "bitness" in str(got).replace(p, "").replace(os.path.realpath(p), "")
                        eq(bits, e["r"] == "bitness", "it is refused for its word size", path=p, ex=got, **info)
                    if name and e["r"] != "absent":
                        o = utils.find_library(p)
                        eq(os.path.realpath(o.path), os.path.realpath(paths[e["p"]]), "the library found", **info)
                        same(o.arch, {"ok": [64], "bitness": [32]}.get(e["r"], o.arch), "arch", path=p, **info)
                    lib = None
                    gc.collect()
        finally:
            os.chdir(base)
            shutil.rmtree(root)

    def fn(c):
        isolated(story, c)

    replay(ctx, cases, fn, clause="arch", weight=lambda c: len(c["h"]))
