from .common import *

LEVEL = "model_checking"

def run(rep, tier):
    drv, = build("drv_syntax")
    wd = workdir("C05")
    quick = tier == "quick"
    mc = model_check("Texts", wd, env={"STEPS": 5 if quick else 6}, timeout=900 if quick else 6000)
    traces, st = gen_traces("Texts", wd, 1200 if quick else 24000, 20, timeout=3000, procs=8)
    rows, bad = replay(rep, drv, traces, wd, timeout=200 if quick else 3000, name="texts", what="Texts")
    texts = [s for t in traces for s in t]
    count = {k: sum(1 for s in texts if s["op"] == "write" and k == "write" or s["op"] == "read" and s["see"].get("r", "any") == k) for k in ("write", "ok", "reject", "any")}
    for t in traces[:3]: rep.sample([{"text": "".join(s["text"]), "read": s["see"].get("r", "any")} if s["op"] == "read" else {"write": s["t"]} for s in t[:6]])
    rep.cov.update(states=mc["distinct"], transitions=mc["states"], traces_validated_against_impl=len(rows), spec="Syntax.tla, Texts.tla", texts=count)
