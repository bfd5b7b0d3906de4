"""C15: calls into a locked library (spec/Lock.tla, spec/LockTrace.tla)."""

import ctypes
import json
import os
import subprocess
import sys
import threading
import time

from common import Failure, MachineryError, canon, load_code, replay, run_tlc, sample

SOURCE = r"""
#include <stdatomic.h>
#include <unistd.h>
typedef struct { int e, c, v; } event;
event events[8192]; atomic_int nevents; atomic_int gate[512], blocked[512]; int jitter;
void rec(int e, int c, int v) { int i = atomic_fetch_add(&nevents, 1); events[i].c = c; events[i].v = v; events[i].e = e; }
void reset(int j) { for (int i = 0; i < 8192; i++) events[i].e = 0; nevents = 0; jitter = j;
  for (int i = 0; i < 512; i++) gate[i] = blocked[i] = 0; }
void open_gate(int c) { atomic_store(&gate[c], 1); }
int is_blocked(int c) { return atomic_load(&blocked[c]) && !atomic_load(&gate[c]); }
static int body(int c, int *out, int (*cb)(int)) {
  rec(2, c, 0);
  if (jitter) usleep((c * 7919u) % 5 * 60);
  else { atomic_store(&blocked[c], 1); while (!atomic_load(&gate[c])) usleep(40); }
  if (cb) cb(c);
  if (jitter) usleep((c * 104729u) % 3 * 40);
  if (out) *out = 5 * c;
  rec(3, c, 0);
  return 2 * c + 1;
}
int P_f(int c, int *out, int (*cb)(int)) { return body(c, out, cb); }
int P_g(int c, int *out, int (*cb)(int)) { return body(c, out, cb); }
int h(int c, int *out, int (*cb)(int)) { return body(c, out, cb); }
static __thread int next;
void set_next(int c) { next = c; }
int P_noargs(void) { return body(next, 0, 0); }
void nothing(void) { body(next, 0, 0); }
void P_onlyout(int *out) { body(next, out, 0); }
double dbl(double c) { return body(c, 0, 0); }
void many(char a, short b, int *o1, double d, int *o2, int c) { body(c, o1, 0); *o2 = *o1 + a + b + d; }
typedef struct { int a, b; } pair;
pair *ptr(const char *text) { static __thread pair p; p.a = body(next, &p.b, 0); return &p; }
"""
HEADER = "".join("int %s(int c, int *out, int (*cb)(int));\n" % n for n in ("P_f", "P_g", "h")) + """int P_missing(int a);
int P_noargs(void); void nothing(); void P_onlyout(int *out); double dbl(double c);
void many(char a, short b, int *o1, double d, int *o2, int c);
typedef struct { int a, b; } pair; pair *ptr(const char *text);
"""
#: functions of other shapes: arguments, and is the result right
SHAPES = {
    "noargs": (lambda c: (), lambda c, r: r() == 2 * c + 1),
    "P_noargs": (lambda c: (), lambda c, r: r() == 2 * c + 1),
    "nothing": (lambda c: (), lambda c, r: r() is None),
    "onlyout": (lambda c: (), lambda c, r: r["out"] == 5 * c),
    "dbl": (lambda c: (c,), lambda c, r: r() == 2 * c + 1),
    "many": (lambda c: (b"\1", 2, ctypes.pointer(ctypes.c_int()), 4, ctypes.pointer(ctypes.c_int()), c), lambda c, r: r["o2"].contents.value == 5 * c + 7),
    "ptr": (lambda c: (b"x",), lambda c, r: (r().contents.a, r().contents.b) == (2 * c + 1, 5 * c)),
}
EVENTS = [None, "call", "enter", "leave", "return", "error", "end"]
CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)
LIMIT = 20


class Event(ctypes.Structure):
    _fields_ = [("e", ctypes.c_int), ("c", ctypes.c_int), ("v", ctypes.c_int)]


class Stop(Exception):
    pass


def check(ctx):
    load_code()
    from pyclibrary.c_library import CLibrary
    from pyclibrary.c_parser import CParser

    consts = dict(Threads=2, MaxCalls=2, MaxDepth=3, Reentrant=True, MaxStarts=3, MaxOps=3, Deep=False)
    run_tlc(ctx, "Lock", dict(consts, Threads=ctx.q(3, 4), MaxCalls=1, MaxDepth=2), ["Mutex", "Held"], ["Ends"], spec="Spec", label="design, many threads")
    run_tlc(ctx, "Lock", dict(consts, MaxDepth=ctx.q(3, 4)), ["Mutex", "Held"], ["Ends"], spec="Spec", label="design, deep callbacks")
    r = run_tlc(ctx, "Lock", dict(consts, Reentrant=False), ["Mutex"], ["Ends"], spec="Spec", allow_violation=True, label="design without re-entrance: deadlock expected")
    if not r.violated:
        raise MachineryError("the specification does not see the deadlock")
    a = run_tlc(ctx, "Lock", consts, ["Balanced", "Gen"], spec="SpecS", label="scripts of three calls")
    b = run_tlc(ctx, "Lock", dict(consts, MaxStarts=2, Deep=True), ["Balanced", "Gen"], spec="SpecS", label="scripts of two calls with callbacks")
    c = run_tlc(ctx, "Lock", dict(consts, MaxStarts=6), ["Balanced", "Gen"], init="InitS", next="Draw", simulate=ctx.q(300, 4000), depth=150, label="random scripts")
    rng = ctx.rng("s")
    cases = [{"s": s, "free": False} for s in sample(rng, canon(a.cases), ctx.q(400, 1000)) + sample(rng, canon(b.cases), ctx.q(700, 4000)) + canon(c.cases)]
    cases += [{"s": [x for x in s if x["a"] == "start"], "free": True} for s in canon(c.cases)]
    for i, x in enumerate(cases):
        x["i"] = i
    base = ctx.tmp()
    with open(os.path.join(base, "l.c"), "w") as f:
        f.write(SOURCE)
    so = os.path.join(base, "l.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(base, "l.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc: " + r.stderr)
    with open(os.path.join(base, "l.h"), "w") as f:
        f.write(HEADER)

    def fn(case):
        sys.unraisablehook = lambda *a: None
        path = os.path.join(base, "c%d.so" % case["i"])
        os.link(so, path)
        raw = ctypes.PyDLL(so)
        raw.reset(1 if case["free"] else 0)
        events = (Event * 8192).in_dll(raw, "events")
        nevents = ctypes.c_int.in_dll(raw, "nevents")
        opener = dict(lock_calls=True, prefix=["P_"])
        if case["i"] % 3 == 0:
            lib = CLibrary(path, [os.path.join(base, "l.h")], **opener)
        else:
            lib = CLibrary(ctypes.CDLL(path) if case["i"] % 3 == 1 else path, CParser(os.path.join(base, "l.h")), **opener)
        os.remove(path)
        ids = iter(range(1, 512))
        mine = {}
        lock = threading.Lock()
        finished = []
        go = threading.Event()
        stop = []
        crng = ctx.rng("names", case["i"])
        plan = {}

        def number(t, node):
            """Number the calls in advance, deterministically."""
            c = next(ids)
            mine[c] = t
            plan[id(node)] = (c, crng.choice(["P_f", "f", "h"]), crng.randrange(3))
            if node["k"] == "plain" and not node["cs"] and crng.random() < 0.5:
                plan[id(node)] = (c, crng.choice(sorted(SHAPES)), crng.randrange(3))
            for x in node["cs"]:
                number(t, x)

        def make(node):
            c, name, way = plan[id(node)]
            k = node["k"]
            if k == "other":
                name = "g"
            func = lib("functions", name) if way == 1 else getattr(lib, name)
            bad = k in ("fails", "refused")
            cb = None
            if node["cs"] or k == "raises":

                def back(_):
                    for x in node["cs"]:
                        make(x)
                    if k == "raises":
                        raise Stop()
                    return 1

                cb = CB(back)
            raw.rec(1, c, 1 if bad else 0)
            try:
                if k == "fails":
                    res = func("text", cb=None) if way else func(c, "text", None)
                elif name in SHAPES:
                    raw.set_next(c)
                    args, right = SHAPES[name]
                    res = func(*args(c))
                    raw.rec(4, c, 2 * c + 1 if right(c, res) else -1)
                    return
                elif k == "refused":
                    res = func(cb=None) if way else func(c, nothing=1)
                else:
                    res = func(c, cb=cb) if way else func(cb=cb, c=c)
                v = res() if res["out"] == 5 * c and res["c"] == c else -1
            except Exception as e:
                if not bad:
                    stop.append("%s: %s" % (type(e).__name__, e))
                raw.rec(5, c, 0)
                return
            raw.rec(4, c, v)

        def thread(ops):
            go.wait()
            try:
                for node in ops:
                    make(node)
            finally:
                with lock:
                    finished.append(1)

        started = []

        def blocked():
            return [c for c in mine if raw.is_blocked(c)]

        def settle(what):
            end = time.time() + LIMIT
            while len(finished) < len(started) and not blocked():
                if time.time() > end:
                    raise Failure("every call is executed: stuck after %s: %s" % (what, trace()))
                time.sleep(0.0002)

        def trace():
            res = [[EVENTS[e.e], mine.get(e.c, 0), e.c, e.v] for e in events[: nevents.value]]
            return res

        def begin(ops):
            t = threading.Thread(target=thread, args=(ops,), daemon=True)
            started.append(t)
            for node in ops:
                number(len(started), node)
            t.start()

        try:
            if not case["free"]:
                go.set()
            for k, s in enumerate(case["s"]):
                if s["a"] == "start":
                    busy = blocked()
                    begin(s["ops"])
                    if case["free"]:
                        continue
                    settle("step %d" % k)
                    if busy:
                        # time for the new thread to do what it must not
                        time.sleep(0.001)
                else:
                    b = blocked()
                    if not b:
                        raise Failure("a function is running: nothing runs at step %d: %s" % (k, trace()))
                    c = b[crng.randrange(len(b))]
                    raw.open_gate(c)
                    settle("step %d" % k)
            go.set()
            end = time.time() + LIMIT
            while len(finished) < len(started):
                if time.time() > end:
                    raise Failure("every call is executed: stuck at the end: %s" % trace())
                time.sleep(0.0005)
            for t in started:
                t.join(LIMIT)
            raw.rec(6, 0, 0)
        finally:
            for c in range(512):
                raw.open_gate(c)
        with open(os.path.join(base, "trace%d.json" % case["i"]), "w") as f:
            json.dump([trace(), stop], f)

    if replay(ctx, cases, fn, clause="progress", case_timeout=120):
        return
    # What happened, against the specification
    traces, errors = [], {}
    for x in cases:
        with open(os.path.join(base, "trace%d.json" % x["i"])) as f:
            t, e = json.load(f)
        traces.append(t)
        errors[len(traces)] = e
    overlap = 0
    for i in range(0, len(traces), 1500):
        part = traces[i : i + 1500]
        body = ",\n".join(
            "<<" + ", ".join('[e |-> "%s", t |-> %d, c |-> %d, v |-> %d]' % (e, t or 1, c, v) for e, t, c, v in tr) + ">>" for tr in part
        )
        data = "---- MODULE TraceData ----\nEXTENDS Integers\nMaxThreads == %d\nTraces == <<\n%s\n>>\n====\n" % (
            max(e[1] for tr in part for e in tr), body,
        )  # fmt: skip
        r = run_tlc(ctx, "LockTrace", {}, ["TMutex", "Report", "Done"], init="TInit", next="TNext", extra_files=[("TraceData.tla", data)], label="recorded histories", heap="8g")
        seen = set()
        for c in canon(r.cases):
            seen.add(c["n"])
            if c["pos"]:
                n = i + c["n"]
                overlap += 1
                if overlap < 20:
                    ctx.fail("history", cases[n - 1], "event %d is not allowed: %s %s" % (c["pos"], json.dumps(traces[n - 1][: c["pos"]]), errors[n]))
        if seen != set(range(1, len(part) + 1)):
            raise MachineryError("histories not checked")
    ctx.extra["events checked"] = sum(map(len, traces))
