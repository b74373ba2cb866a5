from .common import *
import collections

LEVEL = "model_checking"

def run(rep, tier):
    shared, prog = build("drv_parallel", "drv_threads")
    wd = workdir("C18")
    quick = tier == "quick"
    mc = model_check("Parallel", wd, env={"STEPS": 6 if quick else 8}, timeout=3000)
    mc2 = model_check("Schedules", wd, timeout=600)
    traces, st = gen_traces("Parallel", wd, 1500 if quick else 20000, 12 if quick else 25, timeout=3000, procs=8)
    rows, bad = replay(rep, shared, traces, wd, timeout=300 if quick else 3000)
    rows2 = shards(prog, wd, jobs(SEED, 240 if quick else 4000), timeout=300 if quick else 3000, rep=rep)
    for r in rows2:
        if r["err"]: rep.violation("threads:%s:error" % r["kind"], "%s: %s" % (r["given"], r["err"]))
    rows2 = [r for r in rows2 if not r["err"]]
    verdicts, jst = judge(rows2, wd, module="Schedules", keep=("runs",), timeout=1500)
    for k, r in enumerate(rows2):
        v = verdicts.get(k)
        if v is None: raise CheckError("computation %d was not judged" % k)
        if v["v"] != "ok":
            a, b = r["runs"][0]["terms"], r["runs"][v["at"] - 1]["terms"]
            ca, cb = collections.Counter(a), collections.Counter(b)
            rep.violation("threads:" + r["kind"], "%s of %s: %s\nmissing: %s\nextra: %s" % (r["kind"], r["given"], v["v"], list((ca - cb).elements())[:5], list((cb - ca).elements())[:5]))
    for t in traces[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    for r in rows2[:1]: rep.sample({"kind": r["kind"], "given": r["given"]})
    rep.cov.update(states=mc["distinct"] + mc2["distinct"], transitions=mc["states"] + mc2["states"], traces_validated_against_impl=len(rows) + sum(len(r["runs"]) for r in rows2),
                   computations=dict(collections.Counter(r["kind"] for r in rows2)), spec="Parallel.tla, Schedules.tla")
