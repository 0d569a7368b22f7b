"""Checks of the incremental solver (IncSat, IncTrace)."""
import json
import os
import re
from vlib import *

ANSWERS = {"verdict", "model", "why", "whydst", "reread"}
ALL = ANSWERS | {"late", "testbcp", "testlits", "untest", "rsntrue", "rsnsuffice", "rsncycle", "actlit", "actrefuse",
                 "lit", "args", "inner", "conn", "learnt", "fixed", "reason", "given"}


def generate(c, kind, n, keep, budget, base=0):
    out = os.path.join(c.dir, "%s.ndjson" % kind)
    st = json.loads(c.run_drv("inc", "-kind", kind, "-seed", c.seed, "-n", n, "-keep", keep, "-budget", "%ds" % budget,
                              "-base", base, "-out", out).strip().splitlines()[-1])
    e = c.info.setdefault("executed", {})
    e[kind] = st
    recs = [json.loads(l) for l in open(out)]
    os.unlink(out)
    return recs


def plans(c, calls):
    """every sequence of calls on a connection the specification allows; replayed by kind "plan"."""
    out = c.tlc_print("CtlPlan", {"Calls": calls}, "PLAN")
    f = os.path.join(c.dir, "plans.json")
    ps = [re.findall(r'"([^"]*)"', l)[1:] for l in out]
    with open(f, "w") as fh:
        json.dump(ps, fh)
    os.environ["ZZPLANS"] = f
    c.info["plans"] = len(ps)
    return len(ps)


def histories(c, calls):
    """every history of IncMC; replayed by kind "hist"."""
    ps = [l.strip('"').split(",", 1)[1] for l in
          c.tlc_print("IncMC", {"Calls": calls, "Acts": 2, "Depth": 2, "Show": True}, '"PLAN', workers=CPUS)]
    if len(ps) < 1000:
        raise CheckError("histories of IncMC: %d" % len(ps))
    f = os.path.join(c.dir, "hist.txt")
    with open(f, "w") as fh:
        fh.write("\n".join(ps) + "\n")
    os.environ["ZZHIST"] = f
    c.info["histories"] = len(ps)
    return len(ps)


def rawplans(c, requests):
    """every sequence of requests in every phase of a connection; replayed by kind "rawplan"."""
    out = c.tlc_print("CrispPlan", {"Requests": requests}, "PLAN")
    f = os.path.join(c.dir, "rawplans.json")
    ps = [re.findall(r'"([^"]*)"', l)[1:] for l in out]
    with open(f, "w") as fh:
        json.dump(ps, fh)
    os.environ["ZZRAWPLANS"] = f
    c.info["plans"] = len(ps)
    return len(ps)


def axplans(c, calls):
    """every sequence of calls of a client of an exchanger; replayed by kind "axplan"."""
    out = c.tlc_print("AxPlan", {"Calls": calls}, "PLAN")
    f = os.path.join(c.dir, "axplans.json")
    ps = [re.findall(r'"([^"]*)"', l)[1:] for l in out]
    with open(f, "w") as fh:
        json.dump(ps, fh)
    os.environ["ZZAXPLANS"] = f
    c.info["plans"] = len(ps)
    return len(ps)


def replay(c, script):
    f, o = os.path.join(c.dir, "rp.json"), os.path.join(c.dir, "rp.out")
    with open(f, "w") as fh:
        json.dump(script, fh)
    c.run_drv("inc-crash", f, o)
    r = json.load(open(o))
    return r


def judge(c, recs, aspects, name, module="IncTrace"):
    """validate the traces of recs; confirm and report the rejected ones."""
    if recs:
        c.sample({"script": recs[-1]["script"]["ops"][:12], "trace": recs[-1]["trace"]["ev"][:12]})
    rej = c.tlc_traces(module, [r["trace"] for r in recs], {"Aspects": set(aspects)}, name=name)
    # re-execute a few and validate again
    seen = set()
    for idx, pos, asp in sorted(rej, key=lambda x: len(recs[x[0]]["trace"]["ev"])):
        key = (tuple(asp), recs[idx]["trace"]["ev"][pos - 1]["e"])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 4:
            break
        r = recs[idx]
        again = None
        for _ in range(3):
            r2 = replay(c, r["script"])
            rj = c.tlc_traces(module, [r2["trace"]], {"Aspects": set(aspects)}, name=name + "-confirm", shards=1)
            if rj:
                again = (r2, rj[0])
                break
        ev = r["trace"]["ev"]
        if again is None and set(asp) <= {"late", "live"} and ev[pos - 1]["e"] in ("hang", "try"):
            continue  # a loaded machine
        if again:
            r2, (_, pos, asp) = again
            ev = r2["trace"]["ev"]
        what = "%s: event %d %s is rejected by the specification: %s%s" % (
            name, pos, json.dumps(ev[pos - 1])[:300], ",".join(asp), "" if again else " (not deterministic)")
        c.violation({"kind": "inc", "script": r["script"], "event": pos, "aspects": asp,
                     "trace": ev[max(0, pos - 40):pos]}, what)


def run(c, kinds, aspects, module="IncTrace"):
    """kinds: {kind: (scripts, traces kept, budget seconds)}"""
    mul = 10 if c.thorough else 1
    for k, (n, keep, budget) in kinds.items():
        recs = generate(c, k, n * mul, keep * (4 if c.thorough else 1), budget * mul)
        judge(c, recs, aspects, k, module)
