from .common import *
from . import program_text

LEVEL = "translation_validation"

# documented limits of generators
LIMITS = ("how to represent a zero-dimensional domain", "ITF only supports Power with a Constant base", "ITF can only handle binary contractions", "Too many unique indices", "limit: ")

def describe(r, v=None):
    text = "\n".join("%3d %s" % (k + 1, t) for k, t in enumerate(r["text"]) if not t.startswith(("declare ", "index "))) or r["code"]
    return "%s\n%s\n%s(case %s-%s)" % (r["kind"], r["show"], text, r["_shard"], r["id"])

def rebound(r):
    """known finding: the text of an ITensor program has one name for all uses of a block, however its slots are labelled"""
    uses = collections.defaultdict(set)
    for i in r["inputs"]: uses[i["nm"]].add(tuple(i["sl"]))
    return r["kind"] == "itensor" and any(len(u) > 1 for u in uses.values())

def run(rep, tier):
    drv, = build("drv_export")
    wd = workdir("C09")
    rows = shards(drv, wd, jobs(SEED, 5000 if tier == "quick" else 30000), rep=rep, timeout=100 if tier == "quick" else 900)
    ready, kinds, limits = [], collections.Counter(), 0
    for r in rows:
        if r["err"]:
            if any(t in r["err"] for t in LIMITS): limits += 1
            else: rep.violation(r["kind"] + " threw", r["err"] + "\n" + describe(r))
            continue
        if r["kind"] not in ("record", "optimized"):
            try: r = program_text.read(r)
            except program_text.Unreadable as e:
                rep.violation("itensor-one-binding" if rebound(r) else r["kind"] + " unreadable", "%s\n%s" % (e, describe(r)))
                continue
        ready.append(r)
        kinds[r["kind"]] += 1
    verdicts, st = judge(ready, wd, module="Program", keep=("idx", "objs", "inputs", "want", "st", "decl"), timeout=600 if tier == "quick" else 5000)
    zero = 0
    for k, v in sorted(verdicts.items()):
        if v["v"] == "zero": zero += 1
        else: rep.violation("itensor-one-binding" if rebound(ready[k]) else v["v"], "%s (%s)\n%s" % (v["v"], v["at"], describe(ready[k])))
    for r in ready[:8]: rep.sample({"kind": r["kind"], "in": r["show"], "program": r["text"][:40]})
    rep.cov.update(programs=len(ready), disagreements_checked=len(ready), statements=sum(len(r["st"]) for r in ready), kinds=dict(kinds), refused_within_documented_limits=limits,
                   zero_valued=zero, tlc_states=st["distinct"], spec="Program.tla over TensorAlgebra.tla")
