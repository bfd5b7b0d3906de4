"""Shared machinery: running TLC, replaying its behaviours, evidence.

The specification (TLA+, ../spec) is the only oracle.  A check
  1. has TLC explore the module exhaustively within small constants, checking
     the invariants of the design;
  2. has TLC print behaviours together with the observations the
     specification allows (lines "CASE"), exhaustively for small bounds and
     by seeded simulation for larger ones;
  3. replays every behaviour into the real code through its public API and
     compares.
"""

import hashlib
import json
import logging
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
NPROC = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, REPO)


def load_code():
    """Import the code under test from /repo's working tree."""
    logging.disable(logging.CRITICAL)
    import pyclibrary

    f = os.path.abspath(pyclibrary.__file__)
    if not f.startswith(REPO + os.sep):
        raise MachineryError("pyclibrary imported from %s" % f)
    return pyclibrary


class MachineryError(Exception):
    """The check itself failed; never a verdict on the code."""


class Failure(Exception):
    """Raised while replaying: the code disagrees with the specification."""


def need(cond, clause, **info):
    """Fail the case, naming the violated clause."""
    if not cond:
        raise Failure(clause + (": " + json.dumps(info, default=repr) if info else ""))


def eq(got, want, clause, **info):
    if got != want:
        info["got"], info["want"] = got, want
        raise Failure(clause + ": " + json.dumps(info, default=repr, sort_keys=True))


# --------------------------------------------------------------------- TLC


class Tlc:
    def __init__(self):
        self.states = self.transitions = 0
        self.cases = []
        self.runs = []


_WORD = re.compile(r"^<<\"CASE\", (\".*\")>>$")


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    raise TypeError(v)


def run_tlc(
    ctx,
    module,
    consts=(),
    invariants=(),
    properties=(),
    constraints=(),
    spec=None,
    init="Init",
    next="Next",
    view=None,
    postcondition=None,
    simulate=None,
    depth=None,
    workers=NPROC,
    timeout=600,
    seed=None,
    heap="6g",
    extra_files=(),
    allow_violation=False,
    label=None,
    coverage=False,
):
    """Run TLC on spec/<module>.tla, return the list of CASE objects printed."""
    seed = ctx.seed if seed is None else seed
    d = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in extra_files:
        with open(os.path.join(d, name), "w") as fd:
            fd.write(text)
    cfg = []
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + init, "NEXT " + next]
    for k, v in dict(consts).items():
        cfg.append("CONSTANT %s = %s" % (k, tla_value(v)))
    cfg += ["INVARIANT " + i for i in invariants]
    cfg += ["PROPERTY " + i for i in properties]
    cfg += ["CONSTRAINT " + i for i in constraints]
    if view:
        cfg.append("VIEW " + view)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, "M.cfg"), "w") as fd:
        fd.write("\n".join(cfg) + "\n")
    cmd = [
        "java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS,
        "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
        "-config", "M.cfg",
    ]  # fmt: skip
    if simulate:
        # one worker: the sequence of behaviours depends on the seed only
        cmd += ["-workers", "1", "-seed", str(seed), "-simulate", "num=%d" % simulate]
        cmd += ["-depth", str(depth or 100)]
    else:
        cmd += ["-workers", str(workers)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(module)
    out_path = os.path.join(d, "out")
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    with open(out_path, "w") as fd:
        try:
            rc = subprocess.run(
                cmd, cwd=d, stdout=fd, stderr=subprocess.STDOUT, timeout=timeout, env=env
            ).returncode
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
    cases, rest = [], []
    with open(out_path) as fd:
        for line in fd:
            m = _WORD.match(line.rstrip("\n"))
            if m:
                cases.append(json.loads(json.loads(m.group(1))))
            else:
                rest.append(line)
    text = "".join(rest)
    shutil.rmtree(d, ignore_errors=True)
    violated = "is violated" in text or "was violated" in text or "Postcondition" in text and "violated" in text
    if rc != 0 and not (allow_violation and violated):
        raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, text[-6000:]))
    gen = dist = 0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        gen, dist = int(m[1]), int(m[2])
    else:
        ms = re.findall(r"(\d+) states checked", text.replace(",", ""))
        if ms:
            gen = dist = int(ms[-1])
    ctx.states += dist
    ctx.transitions += gen
    ctx.tlc_runs.append(
        {
            "module": module,
            "label": label or ("simulate" if simulate else "exhaustive"),
            "constants": {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in dict(consts).items()},
            "invariants": list(invariants) + list(properties),
            "states": dist,
            "generated": gen,
            "cases": len(cases),
        }
    )
    res = Tlc()
    res.cases, res.text, res.rc, res.violated = cases, text, rc, violated
    res.states, res.transitions = dist, gen
    return res


# ------------------------------------------------------------------ replay


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout()


def replay(ctx, cases, fn, clause="replay", nproc=NPROC, case_timeout=60, weight=None):
    """Run fn(case) for all cases in forked processes.

    fn raises Failure (or any other exception: an exception escaping from the
    code under test where the specification allows none) when the code does
    not conform.  A process that dies or a case that never ends counts as a
    failure of that case.
    """
    cases = list(cases)
    if not cases:
        raise MachineryError("no cases to replay for %s" % clause)
    ctx.traces += sum(weight(c) for c in cases) if weight else len(cases)
    if len(ctx.samples) < 12:
        for c in (cases[0], cases[len(cases) // 2], cases[-1]):
            text = json.dumps(c)
            ctx.samples.append({"clause": clause, "case": c if len(text) < 3000 else text[:3000]})
    n = min(nproc, len(cases))
    todo = [list(range(i, len(cases), n)) for i in range(n)]
    running = {}
    failures = []
    stopped = False

    def start(slot, idxs):
        if not idxs:
            return
        path = os.path.join(ctx.scratch, "res_%s_%d_%d" % (abs(hash(clause)), slot, idxs[0]))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                _child(ctx, cases, idxs, fn, path, case_timeout)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        running[pid] = (slot, idxs, path)

    for s in range(n):
        start(s, todo[s])
    while running:
        pid, status = os.wait()
        if pid not in running:
            continue
        slot, idxs, path = running.pop(pid)
        done, last = set(), None
        try:
            with open(path) as fd:
                for line in fd:
                    if not line.endswith("\n"):
                        break
                    r = json.loads(line)
                    if r[0] == "s":
                        last = r[1]
                    elif r[0] == "d":
                        done.add(r[1])
                    elif r[0] == "f":
                        done.add(r[1])
                        failures.append((r[1], r[2]))
            os.remove(path)
        except FileNotFoundError:
            pass
        left = [i for i in idxs if i not in done]
        if stopped:
            continue
        if status != 0:
            if last is None or last in done:
                raise MachineryError("replay worker failed outside of a case")
            failures.append((last, "the process died (status %d)" % status))
            left = [i for i in left if i != last]
            if len(failures) < 20:
                start(slot, left)
        elif left:
            if len(failures) < 20:
                raise MachineryError("cases not run: %s" % left[:5])
        if len(failures) >= 20:
            stopped = True
            for p in list(running):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
    for i, why in sorted(failures):
        ctx.fail(clause, cases[i], why)
    return len(failures)


def _child(ctx, cases, idxs, fn, path, case_timeout):
    signal.signal(signal.SIGALRM, _alarm)
    nfail = 0
    with open(path, "w") as out:
        for k, i in enumerate(idxs):
            out.write(json.dumps(["s", i]) + "\n")
            out.flush()
            signal.alarm(case_timeout)
            try:
                try:
                    fn(cases[i])
                finally:
                    signal.alarm(0)
                r = ["d", i]
            except MachineryError:
                raise
            except CaseTimeout:
                r = ["f", i, "did not end within %d s" % case_timeout]
            except Failure as e:
                r = ["f", i, str(e)]
            except Exception as e:
                r = ["f", i, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))]
            out.write(json.dumps(r) + "\n")
            if r[0] == "f":
                out.flush()
                nfail += 1
                if nfail >= 5:
                    # report the rest as not needed
                    for j in idxs[k + 1 :]:
                        out.write(json.dumps(["d", j]) + "\n")
                    return


def isolated(fn, *args, timeout=60):
    """Run fn(*args) in a process of its own, so that what it does to the
    module's global state and to the current directory stays there."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                fn(*args)
                out = ["ok", ""]
            except MachineryError as e:
                out = ["machinery", str(e)]
            except Failure as e:
                out = ["failure", str(e)]
            except BaseException as e:
                out = ["failure", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))]
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    try:
        what, why = json.loads(text)
    except ValueError:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            raise Failure("did not end within %d s" % timeout)
        raise Failure("the process died (status %d)" % status)
    if what == "machinery":
        raise MachineryError(why)
    if what == "failure":
        raise Failure(why)


# ----------------------------------------------------------------- context


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.tlc_runs = []
        self.samples = []
        self.failures = []
        self.extra = {}
        self.assumptions = []
        self.t0 = time.time()

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *what):
        """A generator depending on the seed and what it is for only."""
        h = hashlib.sha256(repr((self.seed,) + what).encode()).digest()
        return random.Random(h)

    def fail(self, clause, case, why):
        self.failures.append({"property": self.prop, "clause": clause, "why": why, "case": case, "seed": self.seed, "tier": self.tier})

    def tmp(self, name=""):
        return tempfile.mkdtemp(prefix="t_", dir=self.scratch)


SHAPES = """n@ N@ _n@ n@_ n_@ _N@_ n@__ enum@ struct@ union_@ int@ unsigned@ const_@ typedef@ void@ static_@ char@_t long@ e@ E@ L@ u@
x@ f@ p@ P_@ d@_ if@ elif_@ define@ defined@ undef@ pack@ push@ pop@ a@a self@ None@ class@ X@y long_name_with_0_digits_1_and_2_parts_@ endif@
o@ T@ double_@ signed@ register@ inline@ extern@ return@ main@ pragma@ include@ Z@ z@z z@z_ aa@ size_of@ Self_@ _@ _e@ false@ once@ error@
""".split()
KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while bool wchar_t defined byte size_t ssize_t
time_t near far __int64 once include define undef pragma pack error""".split())


class Namer:
    """Distinct identifiers of all sorts: looking like keywords or numbers,
    with underscores, or starting or ending like one another."""

    def __init__(self, rng, avoid=()):
        self.r, self.k, self.old, self.known = rng, 0, [], {}
        self.used = set(avoid)

    def new(self):
        while True:
            self.k += 1
            if self.old and self.r.random() < 0.3:
                n = self.r.choice(self.old)
                n = self.r.choice([n + "_%d" % self.k, n + "x%d" % self.k, "%s_%d_%s" % (self.r.choice("xAq"), self.k, n), n + n[-1] * 2] + [n[:-1]] * (len(n) > 3))
            else:
                n = self.r.choice(SHAPES).replace("@", str(self.k))
            if n and not n[0].isdigit() and not n.startswith("__") and len(n) < 50 and n not in self.used and n not in KEYWORDS:
                break
        self.used.add(n)
        self.old.append(n)
        return n

    def __call__(self, key):
        if key not in self.known:
            self.known[key] = self.new()
        return self.known[key]


def sample(rng, cases, n):
    """A seeded selection of at most n cases, in the original order."""
    if len(cases) <= n:
        return list(cases)
    keep = sorted(rng.sample(range(len(cases)), n))
    return [cases[i] for i in keep]


def canon(cases):
    """Distinct cases in a deterministic order."""
    seen = {}
    for c in cases:
        seen.setdefault(json.dumps(c, sort_keys=True), c)
    return [seen[k] for k in sorted(seen)]
