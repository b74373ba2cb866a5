from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_scalars")
    wd = workdir("C16")
    quick = tier == "quick"
    states = trans = 0
    n = 0
    for module, num, steps in (("Scalars", 1200, 20), ("Costs", 1200, 20), ("Combinatorics", 400, 20)):
        mc = model_check(module, wd, timeout=900)
        states += mc["distinct"]; trans += mc["states"]
        traces, st = gen_traces(module, wd, num if quick else num * 20, steps, timeout=3000, procs=8)
        rows, bad = replay(rep, drv, traces, wd, timeout=200 if quick else 3000, name=module.lower(), what=module)
        for t in traces[:1]: rep.sample([{k: v for k, v in s.items() if k != "see"} for s in t])
        n += len(rows)
    rep.cov.update(states=states, transitions=trans, traces_validated_against_impl=n, spec="Scalars.tla, Costs.tla, Combinatorics.tla")
