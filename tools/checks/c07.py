from .common import *

LEVEL = "translation_validation"

def describe(r, at=None):
    t = r["shows"][0]
    if at: t += "\n %s -> %s" % (r["names"][at - 1], r["shows"][at - 1])
    return (r["names"][at - 1].split(" for ")[0] if at else "case"), t + "\n(case %s-%s)" % (r["_shard"], r["id"])

def run(rep, tier):
    drv, = build("drv_optimize")
    wd = workdir("C07")
    quick = tier == "quick"
    rows = shards(drv, wd, jobs(SEED, 800 if quick else 8000), rep=rep, timeout=120 if quick else 1200, args=["5" if quick else "6"])
    values = [r for r in rows if r["kind"] == "value"]
    for r in values:
        if r["err"] and r["id"] == 3 and r["_shard"] == 0:
            rep.violation("sum-orientation", r["err"] + "\n" + describe(r)[1])
            r["err"] = ""
        if r["err"]: rep.violation("threw", r["err"] + "\n" + describe(r)[1])
    zero, skipped, st = value_check(rep, [r for r in values if len(r["e"]) > 1], wd, "value", describe, timeout=600 if quick else 5000)
    games = []
    for r in rows:
        if r["kind"] != "cost": continue
        if "noseq" in r: rep.violation("order", "not an order of pairwise contractions of all the factors\n" + r["noseq"])
        else: games.append(r)
    keep = ("t", "idx", "sz", "model", "w", "fw", "vol", "tol", "prune", "post")
    for r in games: r["idx"] = [{"pr": i["pr"]} for i in r["idx"]]
    path = os.path.join(wd, "games.ndjson")
    with open(path, "w") as f:
        for r in games: f.write(json.dumps({k: r[k] for k in keep}) + "\n")
    out, gs = tlc("ContractionGame", "ContractionGame.cfg", wd, env={"CASES": path}, timeout=600 if quick else 5000)
    if gs["rc"] != 0: raise CheckError("TLC failed on ContractionGame:\n" + out[-3000:])
    seen = {}
    for x in tagged(out, "BEATEN"):
        k = x["case"] - 1
        if k not in seen or x.get("spent", 0) < seen[k].get("spent", 0): seen[k] = x
    for k, x in sorted(seen.items()):
        r = games[k]
        ix = lambda n: {i + 1: s for i, s in enumerate(r["sz"])}
        rep.violation("prune-outer" if r["known"] else "order-" + r["model"],
                      "%s: %s\n%s ->\n%s\n extents %s, model %s w=%s fw=%s tol=%s volatile %s pruned %s (case %s-%s)" %
                      (x["why"], {q: x[q] for q in x if q not in ("case", "why")}, r["show"], r["res"], r["sz"], r["model"], r["w"], r["fw"], r["tol"], r["vol"], r["prune"], r["_shard"], r["id"]))
    for r in values[:4] + values[40:44]: rep.sample({"in": r["shows"][0], "out": dict(zip(r["names"][1:], r["shows"][1:]))})
    for r in games[:3]: rep.sample({"product": r["show"], "chosen": r["res"], "extents": r["sz"], "objective": r["model"]})
    rep.cov.update(programs=st["judged"] + len(games), disagreements_checked=sum(len(r["e"]) - 1 for r in values) + gs["distinct"], contraction_states=gs["distinct"], products_ordered=len(games),
                   zero_valued=len(zero), too_expensive=len(skipped), tlc_states=st["distinct"] + gs["distinct"],
                   spec="SameValue.tla over TensorAlgebra.tla; ContractionGame.tla")
