from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    ind, fresh = build("drv_indices", "drv_fresh")
    wd = workdir("C15")
    quick = tier == "quick"
    mc = model_check("Indices", wd, timeout=600)
    traces, st = gen_traces("Indices", wd, 1000 if quick else 16000, 12 if quick else 25, timeout=3000, procs=8)
    rows, bad = replay(rep, ind, traces, wd, timeout=100 if quick else 2000)
    mc2 = model_check("FreshIndices", wd, env={"STEPS": 5 if quick else 7}, timeout=3000)
    traces2, st2 = gen_traces("FreshIndices", wd, 600 if quick else 8000, 15 if quick else 30, timeout=3000, procs=8)
    rows2, bad = replay(rep, fresh, traces2, wd, timeout=100 if quick else 2000, name="fresh", what="fresh")
    for t in traces[:1] + traces2[:1]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    rep.cov.update(states=mc["distinct"] + mc2["distinct"], transitions=mc["states"] + mc2["states"], traces_validated_against_impl=len(rows) + len(rows2), spec="Indices.tla, FreshIndices.tla")
