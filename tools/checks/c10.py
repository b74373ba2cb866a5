from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_context")
    wd = workdir("C10")
    quick = tier == "quick"
    mc = model_check("Context", wd, env={"STEPS": 5 if quick else 7}, timeout=3000)
    traces, st = gen_traces("Context", wd, 600 if quick else 12000, 16 if quick else 30, timeout=3000)
    rows, bad = replay(rep, drv, traces, wd, timeout=100 if quick else 2000)
    for t in traces[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    rep.cov.update(states=mc["distinct"], transitions=mc["states"], traces_validated_against_impl=len(rows), spec="Context.tla")
