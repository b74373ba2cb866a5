from .common import *

LEVEL = "model_checking"
KEYS = ("trees", "least", "veto", "withper", "batched", "hooked", "reg", "size", "ref", "same", "occ", "ops")

def describe(r, at=None):
    return "value", r["shows"][0] + "\n(case %s-%s)" % (r["_shard"], r["id"])

def run(rep, tier):
    cache, drv = build("drv_cache", "drv_eval")
    wd = workdir("C08")
    quick = tier == "quick"
    mc = model_check("CacheHistory", wd, env={"STEPS": 4 if quick else 6}, timeout=3000)
    hist = []
    for k, nkeys in enumerate((3, 5)):
        t, st = gen_traces("CacheHistory", wd, 1000 if quick else 20000, 14 if quick else 30, env={"NKEYS": nkeys}, procs=2 if quick else 4, timeout=3000, seed=SEED * 10 + k)
        hist += t
    done, bad = replay(rep, cache, hist, wd, timeout=100 if quick else 3000)
    rows = shards(drv, wd, jobs(SEED, 800 if quick else 12000), rep=rep, timeout=150 if quick else 3000)
    values = [r for r in rows if r["kind"] == "value"]
    for r in values:
        if r["err"]: rep.violation("threw", r["err"] + "\n" + describe(r)[1])
    zero, skipped, st = value_check(rep, [r for r in values if len(r["e"]) > 1], wd, "value", describe, timeout=600 if quick else 5000)
    traces = [r for r in rows if r["kind"] == "cache"]
    v, js = judge(traces, wd, module="EvalTrace", keep=KEYS, timeout=600 if quick else 5000, name="evals")
    for k, x in sorted(v.items()):
        r = traces[k]
        op = r["ops"][x["at"] - 1] if x["at"] else {}
        rep.violation(x["why"].replace(" ", "-"), "%s\n%s\ncache %s\noperation %d of %s: %s\n(case %s-%s)" %
                      (x["why"], r["show"], r["reg"], x["at"], [(o["op"], o.get("ts")) for o in r["ops"]], op, r["_shard"], r["id"]))
    for t in hist[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    for r in traces[:6]: rep.sample({"forest": r["show"], "cache": r["reg"], "history": [(o["op"], o.get("ts")) for o in r["ops"]]})
    rep.cov.update(states=mc["distinct"] + js["distinct"], transitions=mc["states"] + js["states"], traces_validated_against_impl=len(done) + len(traces),
                   cache_histories=len(done), forests=len(traces), evaluations=sum(o["op"] == "eval" for r in traces for o in r["ops"]),
                   registered=sum(len(r["reg"]) for r in traces), values_compared=st["judged"], zero_valued=len(zero), too_expensive=len(skipped),
                   batched=sum(r["batched"] for r in traces), persistent=sum(q["per"] for r in traces for q in r["reg"]),
                   spec="Cache.tla, CacheHistory.tla, EvalTrace.tla, SameValue.tla")
