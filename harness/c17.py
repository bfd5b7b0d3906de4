"""C17: finding headers and libraries (spec/Search.tla)."""

import os
import shutil
import subprocess

from common import MachineryError, canon, eq, isolated, load_code, need, replay, run_tlc, sample

NDIRS = 4
# names that mean something to programs, not to the search
HEADERS = ["a b.h", "é.h", "a;b.h", "$HOME.h", "a'b.h", "-I.h", "a.h.h", ".h", "h", "{a}.h", "%s.h", "a*.h", "~a.h", "A.H", "a.hpp", "c:a.h", "#a.h", "lib.so"]
LIBRARIES = ["lib a.so", "liba;touch side;.so", "liba$(touch side).so", "liba -o side", "-liba.so", "liba`touch side`.so", "lib'a.so", 'lib"a.so', "liba>side", "liba|touch side",
             "liba.so.1.2", "liba", "a.h", "libé.so", "lib*.so", "a.dll", "lib(a).so", "~liba.so", "liba&touch side", "lib%s.so", "lib[a].so", "liba\\.so", "#liba.so", "liba.so\ntouch side"]  # fmt: skip


def check(ctx):
    load_code()
    import pyclibrary
    from pyclibrary import utils
    from pyclibrary.c_library import CLibrary
    from pyclibrary.c_parser import CParser

    small = run_tlc(ctx, "Search", dict(NDirs=ctx.q(2, 3), MaxOps=3), ["Sound", "Latest", "GenSmall"], ["Pure"], spec="SpecSmall", label="all registrations", heap="12g")
    sim = run_tlc(ctx, "Search", dict(NDirs=NDIRS, MaxOps=40), ["Sound", "Latest", "Gen"], next="Draw", simulate=ctx.q(400, 6000), depth=50, label="random histories")
    cases = sample(ctx.rng("s"), canon(small.cases), ctx.q(1500, 40000)) + canon(sim.cases)
    small = sim = None
    for i, c in enumerate(cases):
        c["i"] = i
    base = os.path.realpath(ctx.tmp())
    for d in range(NDIRS + 1):
        with open(os.path.join(base, "l.c"), "w") as f:
            f.write("int where(void) { return %d; }\n" % d)
        so = os.path.join(base, "l%d.so" % d)
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("gcc: " + r.stderr)
    with open(os.path.join(base, "w.h"), "w") as f:
        f.write("int where(void); double cos(double);\n")
    own = os.path.join(os.path.dirname(os.path.realpath(pyclibrary.__file__)), "headers")
    fixed_own = next(n for n in sorted(os.listdir(own), key=lambda n: os.path.getsize(os.path.join(own, n))) if os.path.isfile(os.path.join(own, n)))
    system = "/usr/include"
    fixed_sys = min((n for n in os.listdir(system) if n.endswith(".h")), key=lambda n: (os.path.getsize(os.path.join(system, n)), n))
    usual = [None, "a.h", "b.h", os.path.join("sub", "a.h"), "odd name", fixed_own, fixed_sys, "libverifa.so", "verifb.so.1", "m"]

    def story(c):
        nrng = ctx.rng("n", c["i"])
        names = list(usual)
        if nrng.random() < 0.5:
            names[1:5] = nrng.sample(HEADERS, 3) + [os.path.join(nrng.choice(["sub", "s u b", ".s", "é"]), "a.h")]
            names[7:9] = nrng.sample(LIBRARIES, 2)
        root = os.path.join(base, "c%d" % c["i"])
        rng = ctx.rng("c", c["i"])
        paths = [os.path.join(root, "cwd")] + [os.path.join(root, "d%d" % d) for d in range(1, NDIRS + 1)]
        os.makedirs(paths[0])
        os.chdir(paths[0])

        def put(d, n, what):
            p = os.path.join(paths[d], names[n])
            if os.path.islink(p) or os.path.isfile(p):
                os.remove(p)
            elif os.path.isdir(p):
                os.rmdir(p)
            if what == "none":
                return
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if what == "dir":
                os.mkdir(p)
            elif what == "link":
                os.symlink(os.path.join(root, "nowhere"), p)
            elif n >= 7:
                shutil.copy(os.path.join(base, "l%d.so" % d), p)
            else:
                with open(p, "w") as f:
                    f.write("#define WHERE %d\n" % d)

        allowed = {os.path.split(n)[0].split(os.sep)[0] or n for n in names[1:]}
        for d in range(1, NDIRS + 1):
            if d in c.get("there", [d]):
                os.mkdir(paths[d])
        for d, e in (c.get("entry") or {}).items():
            for n, what in e.items():
                put(int(d), int(n), what)

        def spell(d):
            """The directory in some spelling."""
            return rng.choice([paths[d], paths[d], os.path.relpath(paths[d]), paths[d] + os.sep, os.path.join(paths[d], "..", os.path.basename(paths[d]))])

        def check_path(got, r, n, **info):
            if r["by"] == "syslib":
                need(os.path.isfile(got) and os.path.basename(os.path.realpath(got)).startswith("lib%s." % names[n]), "the file found", got=got, **info)
                return
            if r["by"] == "dir":
                want = os.path.join(paths[r["d"]], names[n])
            else:
                want = os.path.join({"own": own, "system": system}[r["by"]], names[n])
            need(os.path.isfile(got) and os.path.realpath(got) == os.path.realpath(want), "the file found", got=got, want=want, **info)

        done = []
        for e in c["h"]:
            a, n, r = e["a"], e["n"], e["r"]
            done.append([a, e["ds"], names[n] if n else "", e["what"]])
            info = dict(history=done, start=[c.get("there"), c.get("entry")])
            if a == "put":
                put(e["ds"][0], n, e["what"])
            elif a == "rmdir":
                shutil.rmtree(paths[e["ds"][0]])
            elif a == "mkdir":
                os.mkdir(paths[e["ds"][0]])
            elif a == "register":
                ds = [spell(d) for d in e["ds"]]
                arg = rng.choice([list, tuple])(ds)
                (pyclibrary.utils.add_header_locations if e["what"] == "h" else pyclibrary.utils.add_library_locations)(arg)
                eq(list(arg), ds, "the argument stays", **info)
                if isinstance(arg, list):
                    # the caller may use it for something else
                    arg[:] = [paths[0]]
            elif a == "path":
                p = os.path.join(spell(e["ds"][0]), names[n])
                if r["by"]:
                    p = rng.choice([p, os.path.relpath(p)])
                else:
                    # a relative path is also looked for in the directories
                    p = os.path.abspath(p)
                if os.sep not in p:
                    # given by name
                    p = os.path.join(".", p)
                if n < 7:
                    try:
                        q = CParser([p])
                    except OSError as ex:
                        need(r["by"] == "", "the header is found: %s" % ex, path=p, **info)
                    else:
                        eq(q.defs["values"].get("WHERE"), r["d"], "the header found", path=p, **info)
                elif r["by"]:
                    eq(CLibrary(p, [os.path.join(base, "w.h")]).where()(), r["d"], "the library found", path=p, **info)
            elif a == "find":
                name, ds = names[n], [spell(d) for d in e["ds"]]
                arg = ds or rng.choice([None, []])
                if ds and rng.random() < 0.3:
                    arg = tuple(ds)
                f = utils.find_header if n < 7 else utils.find_library
                try:
                    got = f(name) if arg is None else f(name, arg)
                except OSError as ex:
                    need(r["by"] == "", "the file is found: %s" % ex, **info)
                else:
                    need(r["by"], "OSError is raised", got=got, **info)
                    check_path(got, r, n, **info)
                if arg is not None:
                    eq(list(arg), ds, "the argument stays", **info)
            elif n >= 7:
                try:
                    lib = CLibrary(names[n], [os.path.join(base, "w.h")])
                except OSError as ex:
                    need(r["by"] == "", "the library is found: %s" % ex, **info)
                else:
                    need(r["by"], "OSError is raised", got=lib, **info)
                    if r["by"] == "syslib":
                        eq(lib.cos(0.0)(), 1.0, "the library found", **info)
                    else:
                        eq(lib.where()(), r["d"], "the library found", **info)
            else:
                arg = [names[n]]
                try:
                    p = CParser(arg if rng.random() < 0.5 else names[n])
                except OSError as ex:
                    need(r["by"] == "", "the header is found: %s" % ex, **info)
                    continue
                need(r["by"], "OSError is raised", **info)
                eq(arg, [names[n]], "the argument stays", **info)
                want = r["d"] if r["by"] == "dir" else None
                eq(p.defs["values"].get("WHERE"), want, "the header found", **info)
        left = set(os.listdir(paths[0]))
        need(left <= allowed, "searching leaves nothing behind", left=sorted(left - allowed), names=names)
        os.chdir(base)
        shutil.rmtree(root)

    def fn(c):
        isolated(story, c)

    replay(ctx, cases, fn, clause="search", weight=lambda c: len(c["h"]))
