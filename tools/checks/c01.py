from .common import *
from .common import _cost

LEVEL = "translation_validation"
KEYS = ("idx", "ext", "as", "e", "f", "st", "V", "starts", "need", "avoid")

def describe(r, at=None):
    t = "%s vacuum %s external %s need %s avoid %s\n" % (r["st"], r["V"], r["ext"], r["need"], r["avoid"]) + r["shows"][0]
    if at: t += "\n %s -> %s" % (r["names"][at - 1], r["shows"][at - 1])
    return (r["names"][at - 1] if at else "case"), t + "\n(case %s-%s)" % (r["_shard"], r["id"])

def operator_check(rep, rows, wd, what, timeout=700):
    """SameOperator.tla on rows; returns zero-valued rows, skipped, statistics"""
    todo, skipped = [], 0
    for k, r in enumerate(rows):
        if len(r["e"]) < 2: continue
        c = sum(_cost(r, e) for e in r["e"])
        if "op" in r["f"][1:]: c *= len(r["starts"]) * (3 if r["st"] == "X" else 1)
        n = len(r["as"])
        while n > 1 and n * c > 20000: n -= 1
        if c > 60000: skipped += 1
        else: todo.append((n * c, k, n))
    todo.sort(reverse=True)
    slim = []
    for c, k, n in todo:
        r = {q: rows[k][q] for q in KEYS}
        r["as"] = r["as"][:n]
        slim.append(r)
    v, st = judge(slim, wd, module="SameOperator", timeout=timeout, name="operators")
    zero = 0
    for m, x in sorted(v.items()):
        r = rows[todo[m][1]]
        if x["v"] == "differs":
            key, text = describe(r, x["at"])
            rep.violation("%s:%s" % (what, key), "not the operator (or expectation value) that went in\n" + text)
        elif x["v"] == "zero": zero += 1
    st["judged"] = len(slim)
    return zero, skipped, st

def run(rep, tier):
    drv, = build("drv_wick")
    wd = workdir("C01")
    rows = shards(drv, wd, jobs(SEED, 1800 if tier == "quick" else 12000), rep=rep, timeout=100 if tier == "quick" else 1500)
    for r in rows:
        if r["err"]: rep.violation("threw", r["err"] + "\n" + describe(r)[1])
    zero, skipped, st = operator_check(rep, rows, wd, "wick", timeout=600 if tier == "quick" else 6000)
    for r in rows[:8]: rep.sample({"in": r["shows"][0], "out": dict(zip(r["names"][1:], r["shows"][1:]))})
    rep.cov.update(programs=st["judged"], disagreements_checked=sum(len(r["e"]) - 1 for r in rows), zero_valued=zero, too_expensive=skipped, tlc_states=st["distinct"],
                   spec="SameOperator.tla over FockAlgebra.tla")
