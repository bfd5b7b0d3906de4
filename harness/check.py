"""Entry point of all checks: check.py <property> [--replay FILE]."""

import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import common


def known_findings(prop):
    """Findings listed (never added to at run time): clause + key text."""
    res = []
    path = os.path.join(common.VERIF, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    res.append(d)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    ctx = common.Ctx(prop, tier, seed, scratch)
    try:
        os.chdir(scratch)
        mod = importlib.import_module(prop.lower())
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            rec = json.load(open(sys.argv[3]))
            ctx.tier, ctx.seed = rec["tier"], rec["seed"]
            ctx.thorough = ctx.tier == "thorough"
        mod.check(ctx)
    except Exception:
        # the machinery broke: no verdict
        traceback.print_exc()
        print("ERROR property=%s the check itself failed" % prop)
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    new = []
    for f in ctx.failures:
        text = f["clause"] + " " + f["why"] + " " + json.dumps(f["case"])
        k = [d for d in known if d["match"] in text]
        if k:
            k[0]["seen"] = True
        else:
            new.append(f)
    for d in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))

    ev = os.path.join(common.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay_path = None
    rdir = os.path.join(ev, "replay")
    if os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(rdir, f))
    if new:
        os.makedirs(rdir, exist_ok=True)
        for n, f in enumerate(new[:10]):
            p = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(p, "w") as fd:
                json.dump(f, fd, indent=1, default=repr)
            replay_path = replay_path or p
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:12],
        "tlc_runs": ctx.tlc_runs,
    }
    cov.update(ctx.extra)
    with open(os.path.join(ev, prop + ".json"), "w") as fd:
        json.dump(
            {
                "property": prop,
                "tier": ctx.tier,
                "seed": ctx.seed,
                "level": "model_checking",
                "coverage": cov,
                "assumptions": ctx.assumptions,
                "wall_s": round(time.time() - ctx.t0, 2),
                "violations": len(new),
            },
            fd,
            indent=1,
            default=repr,
        )
    for f in new[:5]:
        print("FAILED %s: %s" % (f["clause"], f["why"][:600]))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    print(
        "OK property=%s states=%d traces=%d wall=%.1fs"
        % (prop, ctx.states, ctx.traces, time.time() - ctx.t0)
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
