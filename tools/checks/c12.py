from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_opregistry")
    wd = workdir("C12")
    quick = tier == "quick"
    mc = model_check("OpRegistry", wd, env={"STEPS": 5 if quick else 7}, timeout=3000)
    traces, st = gen_traces("OpRegistry", wd, 800 if quick else 16000, 20 if quick else 40, timeout=3000)
    rows, bad = replay(rep, drv, traces, wd, timeout=100 if quick else 2000)
    for t in traces[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    rep.cov.update(states=mc["distinct"], transitions=mc["states"], traces_validated_against_impl=len(rows), spec="OpRegistry.tla")
