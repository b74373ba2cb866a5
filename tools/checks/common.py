"""Pieces shared by the checks."""
import collections, concurrent.futures, json, os, subprocess, sys, time
import vlib
from vlib import *

NPROC = 8

def shards(driver, wd, jobs, timeout=300, rep=None, args=()):
    """Runs `driver OUT <job args>` for every job in parallel.  A driver that
    dies or hangs twice on the same input is a violation.  Returns rows."""
    def one(k):
        out = os.path.join(wd, "%s-%d.ndjson" % (os.path.basename(driver), k))
        cmd = [driver, out] + [str(x) for x in jobs[k]] + list(args)
        rc, tail = run_driver(cmd, timeout, cwd=wd)
        if rc != 0:
            rc2, tail2 = run_driver(cmd, timeout, cwd=wd)
            if rc2 == 0: rc = 0
        return k, rc, tail, out
    rows = []
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for k, rc, tail, out in ex.map(one, range(len(jobs))):
            n = 0
            if os.path.exists(out):
                for line in open(out):
                    try: r = json.loads(line)
                    except ValueError: break
                    r["_shard"] = k
                    rows.append(r); n += 1
            if rc != 0:
                if rc in (2, 3): raise CheckError("driver: " + tail)
                if rep is None: raise CheckError("driver %s ended with %s: %s" % (driver, rc, tail))
                rep.violation("crash", "%s %s ended with %s after %d records\n%s" % (driver, jobs[k], rc, n, tail))
    return rows

def judge(rows, wd, module="SameValue", timeout=700, tag="JUDGED", name="cases", keep=None, env=None, cfg=None):
    """Hands the records to the trace specification; returns verdict by row."""
    path = os.path.join(wd, name + ".ndjson")
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps({k: v for k, v in r.items() if keep is None or k in keep}) + "\n")
    e = {"CASES": path}
    if env: e.update(env)
    out, st = tlc(module, cfg or module + ".cfg", wd, env=e, timeout=timeout)
    if st["rc"] != 0:
        raise CheckError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    return {x["case"] - 1: x for x in tagged(out, tag)}, st

VALUE_KEYS = ("idx", "ext", "as", "e")
def _occ(r, e, c):
    if e["k"] == "t":
        for s in ("b", "q", "x"):
            for i in e[s]:
                if i:
                    c.add(i)
                    c.update(r["idx"][i - 1]["pr"])
    if e["k"] == "call":
        for i in e["args"]:
            if i:
                c.add(i)
                c.update(r["idx"][i - 1]["pr"])
        return
    for f in e.get("a", ()): _occ(r, f, c)
    if "e" in e: _occ(r, e["e"], c)
def _cost(r, e):
    """leaf evaluations needed for one assignment, roughly"""
    if e["k"] == "+": return sum(_cost(r, f) for f in e["a"])
    c = set()
    _occ(r, e, c)
    x = 1
    for i in c - set(r["ext"]): x *= r["idx"][i - 1]["n"]
    return x * max(1, len(e.get("a", (1,)))) * _calls(r, e)
def _calls(r, e):
    """cost of the bodies of definitions used, for one assignment"""
    if e["k"] == "call":
        b = {**r, "ext": list(r["ext"]) + e["formals"]}
        return max(1, _cost(b, e["e"]))
    n = sum(_calls(r, f) - 1 for f in e.get("a", ()))
    if "e" in e and e["k"] != "call": n += _calls(r, e["e"]) - 1
    return 1 + n

def value_check(rep, rows, wd, what, describe, timeout=700, name="cases", cap=4000, hard=12000):
    """All e[n] of a row must have one value.  Returns indices of rows whose
    value is zero, and of rows too expensive to evaluate."""
    todo, skipped = [], set()
    for k, r in enumerate(rows):
        c = sum(_cost(r, e) for e in r["e"])
        n = len(r["as"])
        while n > 1 and n * c > cap: n -= 1
        if c > hard or n == 0: skipped.add(k)
        else: todo.append((n * c, k, n))
    todo.sort(reverse=True)          # expensive ones first, to keep all workers busy
    slim = []
    for c, k, n in todo:
        r = {q: rows[k][q] for q in VALUE_KEYS}
        if "f" in rows[k]: r["f"] = rows[k]["f"]
        r["as"] = r["as"][:n]
        slim.append(r)
    v, st = judge(slim, wd, timeout=timeout, name=name)
    zero = set()
    for m, x in sorted(v.items()):
        k = todo[m][1]
        if x["v"] == "differs":
            key, text = describe(rows[k], x["at"])
            rep.violation("%s:%s" % (what, key), "%s changed the value\n%s" % (what, text))
        elif x["v"] == "shape":
            key, text = describe(rows[k], x["at"])
            rep.violation("%s-shape:%s" % (what, key), "the result does not have the form '%s'\n%s" % (rows[k]["f"][x["at"] - 1], text))
        elif x["v"] == "zero": zero.add(k)
    st["judged"] = len(slim)
    return zero, skipped, st

def jobs(seed0, total, n=NPROC):
    per = (total + n - 1) // n
    return [(seed0 * 100 + k, per) for k in range(n)]

def gen_traces(module, wd, num, steps, seed=None, cfg=None, procs=4, timeout=300, env=None, name="traces"):
    """Random behaviours of a specification (TLC -simulate).  Returns a list of
    distinct behaviours, each a list of steps, and the number of states."""
    def one(k):
        d = os.path.join(wd, "gen%d" % k); os.makedirs(d, exist_ok=True)
        e = {"STEPS": steps}
        if env: e.update(env)
        return tlc(module, cfg or module + "_gen.cfg", d, workers=1, timeout=timeout, env=e,
                   extra=["-simulate", "num=%d" % max(1, num // procs), "-depth", str(steps + 3), "-seed", str((seed or SEED) * 100 + k)])
    seen, res, states = set(), [], 0
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        for out, st in ex.map(one, range(procs)):
            if st["rc"] != 0: raise CheckError("TLC failed on %s:\n%s" % (module, out[-2500:]))
            states += st["states"]
            for t in tagged(out, "TRACE"):
                s = json.dumps(t, sort_keys=True)
                if s not in seen: seen.add(s); res.append(t)
    if not res: raise CheckError("%s produced no behaviour" % module)
    return res, states

def model_check(module, wd, cfg=None, env=None, timeout=600, workers=8):
    """Exhaustive check of a specification's own invariants."""
    out, st = tlc(module, cfg or module + "_mc.cfg", wd, env=env, timeout=timeout, workers=workers)
    if st["rc"] != 0: raise CheckError("TLC: the model %s violates its own properties or failed:\n%s" % (module, out[-3000:]))
    return st

def replay(rep, driver, traces, wd, timeout=300, name="traces", args=(), what="replay"):
    """Replays behaviours into the real code; the driver writes a line for each
    behaviour it followed, with the first difference if there is one."""
    n = min(NPROC, len(traces))
    jobs_ = []
    for k in range(n):
        p = os.path.join(wd, "%s-%d.in" % (name, k))
        with open(p, "w") as f:
            for t in traces[k::n]: f.write(json.dumps(t) + "\n")
        jobs_.append((p,))
    rows = shards(driver, wd, jobs_, timeout=timeout, rep=rep, args=args)
    bad = 0
    for r in rows:
        if r.get("diff"):
            bad += 1
            t = traces[r["_shard"]::n][r["t"]]
            ops = [{k: v for k, v in s.items() if k not in ("see",)} for s in t[:r["step"] + 1]]
            rep.violation("%s:%s" % (what, r.get("key", "diff")), "after the operations\n%s\n%s" % ("\n".join(json.dumps(o, ensure_ascii=False) for o in ops), r["diff"]))
    return rows, bad
