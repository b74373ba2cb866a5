from .common import *
import collections

LEVEL = "translation_validation"

def run(rep, tier):
    drv, = build("drv_orders")
    wd = workdir("C13")
    quick = tier == "quick"
    batches, st = gen_traces("Objects", wd, 1200 if quick else 20000, 14, timeout=3000, procs=8)
    n = min(NPROC, len(batches)); js = []
    for k in range(n):
        p = os.path.join(wd, "batch-%d.in" % k)
        with open(p, "w") as f:
            for t in batches[k::n]: f.write(json.dumps(t) + "\n")
        js.append((p,))
    rows = shards(drv, wd, js, timeout=120 if quick else 1500, rep=rep)
    verdicts, jst = judge(rows, wd, module="Orders", keep=("o", "eq", "ne", "hash", "lt", "same", "err"), timeout=3000)
    pairs = 0
    for k, r in enumerate(rows):
        v = verdicts.get(k)
        if v is None: raise CheckError("batch %d was not judged" % k)
        pairs += v["pairs"]
        if v["v"] == "ok": continue
        what = "\n".join(json.dumps(r["o"][i - 1], ensure_ascii=False) for i in v["at"] if i)
        rep.violation("orders:%s:%s" % (r["fam"], v["v"]), "%s\n%s" % (v["v"], what))
    rep.cov.update(programs=sum(len(r["o"]) for r in rows), disagreements_checked=sum(len(r["o"]) ** 2 for r in rows), equal_pairs=pairs, batches=len(rows),
                   families=dict(collections.Counter(r["fam"] for r in rows)), spec="Objects.tla, Orders.tla")
    for r in rows[:2]: rep.sample({"batch": r["o"][:4]})
