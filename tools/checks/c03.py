from .common import *

LEVEL = "translation_validation"

def describe(r, at=None):
    t = r["shows"][0]
    if r["id"] % 10 == 9: return "capture", t + "\n -> " + r["shows"][-1]
    if at: t += "\n %s -> %s" % (r["names"][at - 1], r["shows"][at - 1])
    return (r["names"][at - 1] if at else "case"), t + "\n(case %s-%s)" % (r["_shard"], r["id"])

def run(rep, tier):
    drv, = build("drv_rewrite")
    wd = workdir("C03")
    rows = shards(drv, wd, jobs(SEED, 400 if tier == "quick" else 6000), rep=rep, timeout=100 if tier == "quick" else 900)
    for r in rows:
        if r["err"]: rep.violation("threw", r["err"] + "\n" + describe(r)[1])
        if r["stale"]: rep.violation("stale", r["stale"] + "\n" + describe(r)[1])
    zero, skipped, st = value_check(rep, rows, wd, "rewrite", describe, timeout=600 if tier == "quick" else 5000)
    for r in rows[:8]: rep.sample({"in": r["shows"][0], "out": dict(zip(r["names"][1:], r["shows"][1:]))})
    rep.cov.update(programs=st["judged"], disagreements_checked=sum(len(r["e"]) - 1 for r in rows), zero_valued=len(zero), too_expensive=len(skipped), tlc_states=st["distinct"],
                   spec="SameValue.tla over TensorAlgebra.tla")
