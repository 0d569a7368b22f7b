"""Checks of traces that one driver index determines (circuits, aiger, ...)."""
import json
import os
from vlib import *


def generate(c, cmd, kind, n, keep, budget, base=0, seed=None):
    out = os.path.join(c.dir, "%s-%s.ndjson" % (cmd, kind))
    seed = c.seed if seed is None else seed
    try:
        st = json.loads(c.run_drv(cmd, "-kind", kind, "-seed", seed, "-n", n, "-keep", keep,
                                  "-budget", "%dms" % int(budget * 1000), "-base", base, "-out", out).strip().splitlines()[-1])
    except CheckError as e:
        return [dead(c, cmd, kind, seed, base if n == 1 else None, out, e)]
    c.info.setdefault("executed", {})[cmd + "/" + kind] = st
    recs = [json.loads(l) for l in open(out)]
    os.unlink(out)
    return recs


def dead(c, cmd, kind, seed, idx, out, err):
    """the process of the driver died: find the index which kills it; that is a trace which ends in a panic."""
    if idx is None:
        try:
            at = sorted(set(int(l) for l in open(out + ".cur").read().replace("\0", " ").split()))
        except OSError:
            raise err
        for i in at:
            try:
                c.run_drv(cmd, "-kind", kind, "-seed", seed, "-n", 1, "-keep", 1, "-base", i, "-out", out)
            except CheckError as e:
                idx, err = i, e
                break
        else:
            raise err
    return {"sus": "panic", "idx": idx, "trace": {"lanes": 1, "in": [], "lim": -1, "ev": [
        {"e": "panic", "c": 1, "s": 0, "msg": "the process died: " + str(err)[-800:]}]}}


def judge(c, module, cmd, kind, recs, aspects, known=None):
    """validate; confirm every rejection by running its index again."""
    name = "%s-%s" % (cmd, kind)
    if recs:
        r = min(recs, key=lambda r: abs(len(r["trace"]["ev"]) - 12))
        c.sample({"kind": name, "trace": r["trace"]["ev"][:14]})
    rej = c.tlc_traces(module, [r["trace"] for r in recs], {"Aspects": set(aspects)}, name=name)
    seen = set()
    for j, pos, asp in sorted(rej, key=lambda x: len(recs[x[0]]["trace"]["ev"])):
        ev = recs[j]["trace"]["ev"][pos - 1]
        if known and known(ev, asp):
            continue
        key = (tuple(asp), ev["e"])
        if key in seen or len(seen) >= 4:
            continue
        seen.add(key)
        idx = recs[j]["idx"]
        again = generate(c, cmd, kind, 1, 1, 1, base=idx)
        rj = c.tlc_traces(module, [again[0]["trace"]], {"Aspects": set(aspects)}, name=name + "-confirm", shards=1)
        if not rj and ev.get("msg") == "does not end":      # a machine too busy
            continue
        if not rj and set(asp) <= {"late"}:
            continue
        what = "%s: event %d %s is rejected by the specification: %s%s" % (
            name, pos, json.dumps(ev)[:300], ",".join(asp), "" if rj else " (not deterministic)")
        c.violation({"kind": name, "driver": [cmd, "-kind", kind, "-seed", c.seed, "-base", idx, "-n", 1, "-keep", 1],
                     "event": pos, "aspects": asp, "trace": recs[j]["trace"]}, what)


def run(c, module, cmd, kinds, aspects, known=None):
    mul = 10 if c.thorough else 1
    for k, (n, keep, budget) in kinds.items():
        recs = generate(c, cmd, k, n * mul, keep * (5 if c.thorough else 1), budget * mul)
        judge(c, module, cmd, k, recs, aspects, known)
