from .common import *

LEVEL = "translation_validation"

def describe(r, at=None):
    t = "%s %s\n" % (r["method"], r["cls"]) + "\n".join(r["text"])
    if at: t += "\n -> " + (r["forms"][at - 2] if at - 2 < len(r["forms"]) else "?")
    return "%s-%s" % (r["_shard"], r["id"]), t

def run(rep, tier):
    drv, = build("drv_canon")
    wd = workdir("C02")
    n = 640 if tier == "quick" else 8000
    rows = shards(drv, wd, jobs(SEED, n), rep=rep, timeout=60 if tier == "quick" else 600)
    for r in rows:
        if r["err"]: rep.violation("threw", r["err"] + "\n" + describe(r)[1])
    good = [r for r in rows if not r["err"]]
    zero, skipped, st = value_check(rep, good, wd, "canonicalize", describe, timeout=600 if tier == "quick" else 5000)
    forms = idem = 0
    for k, r in enumerate(good):
        if k in zero or k in skipped: continue
        forms += r["strict"]
        if r["strict"] and len(r["forms"]) > 1:
            rep.violation("forms", "presentations of one network have different canonical forms\n%s\n->\n%s" % (describe(r)[1], "\n".join(r["forms"])))
        if r["strictIdem"] and not r["idem"]:
            rep.violation("idem", "canonicalizing again changes the form\n%s\n%s" % (describe(r)[1], r["idemText"]))
    # the one documented exception: indistinguishable external indices outside of a sum
    fixed, = [x for x in shards(drv, wd, [("fixed", 0)], rep=rep)] or [None]
    if fixed and len(fixed["forms"]) > 1:
        rep.violation("exchange-of-externals", "one network, several canonical forms: " + " ; ".join(fixed["forms"]))
    for r in good[:6]: rep.sample({"in": r["text"], "out": r["forms"], "method": r["method"]})
    rep.cov.update(programs=st["judged"], disagreements_checked=sum(len(r["e"]) - 1 for r in good) , presentations=sum(len(r["text"]) for r in good), zero_valued=len(zero), unique_form_required=forms,
                   tlc_states=st["distinct"], spec="SameValue.tla over TensorAlgebra.tla")
