"""C11: the registry of wrappers (spec/LibReg.tla)."""

import ctypes
import gc
import os
import shutil
import subprocess

from common import MachineryError, canon, eq, isolated, load_code, need, replay, run_tlc, sample

HEADER = """#define MARK %d
#define PRE_MARK %d
int which(void);
int twice(int *value);
struct s%d { int a[%d]; };
"""
SOURCE = """int which(void) { return %d; }
int twice(int *value) { *value = %d; return 2 * %d; }
"""


def check(ctx):
    load_code()
    import pyclibrary
    from pyclibrary import utils
    from pyclibrary.c_library import CLibrary
    from pyclibrary.c_parser import CParser

    small = run_tlc(ctx, "LibReg", dict(NSlots=2, MaxSteps=3, NArgs=3), ["OneWrapper", "GenOpen"], ["Stable"], spec="Spec", label="all short histories", heap="12g")
    sim = run_tlc(ctx, "LibReg", dict(NSlots=4, MaxSteps=40, NArgs=3), ["OneWrapper", "Gen"], next="Draw", simulate=ctx.q(35, 6000), depth=41, label="long histories")
    cases = sample(ctx.rng("s"), canon(small.cases), ctx.q(350, 30000)) + canon(sim.cases)
    small = sim = None
    for i, c in enumerate(cases):
        c["i"] = i
    base = os.path.realpath(ctx.tmp())
    sources = os.path.join(base, "lib")
    os.mkdir(sources)
    for k in (1, 2, 3):
        src = os.path.join(sources, "%d.c" % k)
        with open(src, "w") as f:
            f.write(SOURCE % (k, k, k))
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", os.path.join(sources, "%d.so" % k), src], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("gcc: " + r.stderr)
    for a in (1, 2, 3):
        with open(os.path.join(sources, "h%d.h" % a), "w") as f:
            f.write(HEADER % (a, 10 + a, a, a))
    tools = os.path.join(base, "tools")
    os.mkdir(tools)
    if shutil.which("file"):
        os.symlink(shutil.which("file"), os.path.join(tools, "file"))
    NAMES = {"a": "libverifa.so", "b": "libverifb.so", "junk": "libverifjunk.so", "flink": "libverifflink.so"}

    def run(c):
        top = os.path.join(base, "c%d" % c["i"])
        ds = {1: os.path.join(top, "one"), 2: os.path.join(top, "two"), 3: os.path.join(top, "dlink")}
        os.makedirs(ds[1])
        os.makedirs(ds[2])
        files = {1: os.path.join(ds[1], NAMES["a"]), 2: os.path.join(ds[2], NAMES["a"]), 3: os.path.join(ds[1], NAMES["b"])}
        for k, p in files.items():
            # a file of its own, for the dynamic loader as well
            with open(os.path.join(sources, "%d.so" % k), "rb") as f, open(p, "wb") as g:
                g.write(f.read())
        with open(os.path.join(ds[2], NAMES["junk"]), "w") as f:
            f.write("no library")
        flink = os.path.join(ds[2], NAMES["flink"])
        os.symlink(files[3], flink)
        os.symlink(ds[1], ds[3])
        os.chdir(ds[1])
        # looking for the names of system libraries runs programs: only file is needed
        os.environ["PATH"] = tools
        gc.collect()
        gc.freeze()  # only what is made from here on is ever collected
        rng = ctx.rng("play", c["i"])
        done, slots, ids = [], {}, {}
        relative = rng.random() < 0.3

        def path(g):
            n = NAMES[g["n"]]
            d = ds.get(g["d"])
            if g["k"] in ("abs", "cdll"):
                return os.path.join(d, n)
            if g["k"] == "up":
                return os.path.join(ds[2], "..", os.path.basename(d), n) if rng.random() < 0.5 else d + "//./" + n
            if g["k"] in ("out", "cdllout"):
                return os.path.join("..", os.path.basename(d), n)
            if g["k"] == "bare":
                return n
            return "./" + n

        def arguments(x):
            """Arguments of kind x, as headers and keyword arguments."""
            good = x if x in "123" else rng.choice("123")
            h = os.path.join(sources, "h%s.h" % good)
            kw = [{}, {"prefix": "PRE_"}, {"prefix": ["PRE_"], "lock_calls": True}][int(good) - 1]
            kw = dict(kw)
            if x == "noheader":
                return [os.path.join(top, "none.h")], kw
            if x == "headers":
                return rng.choice([h, None, (h,)]), kw
            if x == "convention":
                kw["convention"] = "nodll"
            return ([h] if rng.random() < 0.5 else CParser(h)), kw

        def works(lib, w, f, args):
            eq(lib.which()(), f, "the wrapper calls the functions of its file", history=done)
            ret, (v,) = lib.twice()
            eq((ret, v), (2 * f, f), "the wrapper calls the functions of its file", history=done)
            eq(lib.MARK, args, "the wrapper has the headers it was opened with", history=done)
            eq(lib["values"]["MARK"], args, "the wrapper has the headers it was opened with", history=done)
            eq(ctypes.sizeof(getattr(lib, "s%d" % args)), 4 * args, "the wrapper has the headers it was opened with", history=done)
            need(isinstance(lib, CLibrary), "a CLibrary", history=done)

        for e in c["h"]:
            done.append({k: e[k] for k in ("a", "g", "s", "x", "y", "r")})
            if e["a"] == "open":
                p = path(e["g"])
                headers, kw = arguments(e["x"])
                if e["g"]["k"].startswith("cdll"):
                    # dlopen compares the names of what it has loaded first:
                    # without this it would miss changed links
                    p = os.path.dirname(p) + "/." * len(done) + "/" + os.path.basename(p)
                    p = ctypes.CDLL(p)
                cls = rng.choice([CLibrary, CLibrary, pyclibrary.CLibrary])
                lib = None
                try:
                    lib = cls(p, headers, **kw)
                except Exception as ex:
                    need(e["r"]["w"] == 0, "the library can be opened: %s: %s" % (type(ex).__name__, ex), history=done)
                    ex = None
                else:
                    need(e["r"]["w"] != 0, "the library cannot be opened", history=done)
                p = None
                if lib is None:
                    gc.collect()
                    continue
                w = e["r"]["w"]
                for v, other in slots.values():
                    o = other[-1]
                    if v == w:
                        need(o is lib, "the same file gives the same wrapper", history=done)
                    else:
                        need(o is not lib, "different files have different wrappers", history=done)
                if w not in ids and e["y"] == "wrapper":
                    ids[w] = True  # a wrapper nothing was asked of yet
                else:
                    works(lib, w, e["r"]["f"], e["r"]["args"])
                if e["y"] == "function":
                    f = lib.which
                    slots[e["s"]] = (w, _Kept(f, "lib"))
                elif e["y"] == "result":
                    slots[e["s"]] = (w, _Kept(lib.twice(), "lib"))
                else:
                    slots[e["s"]] = (w, [lib])
                lib = f = o = other = None
            elif e["a"] == "drop":
                del slots[e["s"]]
                lib = other = o = f = None
                gc.collect()
            elif e["a"] == "cd":
                os.chdir(ds[e["s"]])
            elif e["a"] == "dlink":
                os.remove(ds[3])
                os.symlink("one two".split()[e["s"] - 1] if relative else ds[e["s"]], ds[3])
            elif e["a"] == "flink":
                os.remove(flink)
                os.symlink(files[e["s"]], flink)
            elif e["a"] == "dir":
                utils.add_library_locations([ds[e["s"]]])
        args = {e["r"]["w"]: (e["r"]["f"], e["r"]["args"]) for e in c["h"] if e["a"] == "open" and e["r"]["w"]}
        for w, kept in slots.values():
            works(kept[-1], w, *args[w])

    def fn(c):
        isolated(run, c)

    replay(ctx, cases, fn, clause="opening libraries", weight=lambda c: len(c["h"]))


class _Kept:
    """Keeps an object, which keeps the wrapper."""

    def __init__(self, obj, attr):
        self.obj, self.attr = obj, attr

    def __getitem__(self, i):
        return getattr(self.obj, self.attr)
