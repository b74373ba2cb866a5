from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_tree")
    wd = workdir("C14")
    quick = tier == "quick"
    mc = model_check("BinaryTree", wd, env={"STEPS": 4}, timeout=3000)
    traces, st = gen_traces("BinaryTree", wd, 1600 if quick else 16000, 20 if quick else 40, timeout=3000)
    rows, bad = replay(rep, drv, traces, wd, timeout=100 if quick else 2000)
    for t in traces[:2]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
    rep.cov.update(states=mc["distinct"], transitions=mc["states"], traces_validated_against_impl=len(rows), spec="BinaryTree.tla")
