from .common import *

LEVEL = "translation_validation"

def describe(r, at=None):
    o = "\n".join("  %s%s: %s" % (">" if k + 1 == at else " ", n, s[:1200]) for k, (n, s) in enumerate(zip(r["names"], r["shows"])))
    return "%s of %s\n%s\n(case %s-%s)" % (r["kind"], r["show"], o, r["_shard"], r["id"])

def run(rep, tier):
    drv, = build("drv_mbpt")
    wd = workdir("C17")
    rows = shards(drv, wd, jobs(SEED, 400 if tier == "quick" else 8000), rep=rep, timeout=150 if tier == "quick" else 1500)
    ready, kinds = [], collections.Counter()
    for r in rows:
        for e in r["err"]: rep.violation(r["kind"] + " failed", e + "\n" + describe(r))
        if r["checks"]: ready.append(r)
        kinds[r["kind"]] += 1
    verdicts, st = judge(ready, wd, module="OperatorMap", keep=("st", "V", "m", "starts", "idx", "ext", "env", "ops", "phi", "rdm", "checks"), timeout=600 if tier == "quick" else 5000)
    zero = 0
    for k, v in sorted(verdicts.items()):
        if v["v"] == "zero": zero += 1
        else: rep.violation("%s %s" % (ready[k]["kind"], v["v"]), "%s (%s)\n%s" % (v["v"], v["at"], describe(ready[k], v["at"])))
    for r in ready[:8]: rep.sample({"kind": r["kind"], "in": r["show"], "out": [s[:400] for s in r["shows"]]})
    rep.cov.update(programs=len(ready), disagreements_checked=sum(len(r["checks"]) for r in ready), kinds=dict(kinds), zero_valued=zero, tlc_states=st["distinct"], spec="OperatorMap.tla over FockAlgebra.tla and TensorAlgebra.tla")
