from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_exprhist")
    wd = workdir("C04")
    quick = tier == "quick"
    mc = model_check("ExprHistory", wd, env={"STEPS": 4 if quick else 5}, timeout=3000)
    traces, st = gen_traces("ExprHistory", wd, 4000 if quick else 60000, 14 if quick else 25, timeout=3000)
    rows, bad = replay(rep, drv, traces, wd, timeout=100 if quick else 3000)
    for t in traces[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    rep.cov.update(states=mc["distinct"], transitions=mc["states"], traces_validated_against_impl=len(rows),
                   steps_replayed=sum(r["steps"] for r in rows), spec="ExprHistory.tla")
