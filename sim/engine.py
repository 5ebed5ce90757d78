"""Executing, minimising and replaying plans of one property."""

import copy
import gc
import importlib
import json
import signal
import time

from . import common

LIMIT = 60  # seconds of processor time for one plan (the typical one takes 20 ms); three times that in real time


class RealTimeout(BaseException):
    pass


def _alarm(*_):
    raise RealTimeout()


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def execute(mod, plan, limit=LIMIT):
    """Run a plan (JSON). Returns (violation|None, stats, concrete plan)."""
    plan = json.loads(json.dumps(plan))
    st = common.Stats()
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 3 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        v = mod.run(plan, st)
    except RealTimeout:
        common.W.CUR = None
        v = {"kind": "timeout", "msg": f"a run did not end within {limit} s of processor time"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
    return v, st, plan


def one(mod, seed, tier):
    plan = mod.make(seed, tier)
    return execute(mod, plan)


def minimise(mod, plan, viol, budget=60.0, log=None):
    """Greedy reduction that keeps the class of the violation."""
    t0 = time.time()
    best = plan
    tried = kept = 0
    shr = getattr(mod, "shrink", common.shrink_plan)
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in shr(best):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                v, _, conc = execute(mod, copy.deepcopy(cand), 20)
            except Exception:
                continue
            if v and v["kind"] == viol["kind"]:
                best, viol = conc, v
                kept += 1
                progress = True
                break
    return best, viol, {"tried": tried, "kept": kept}


def work(prop, base, start, stride, count, tier, deadline, emit):
    """Run seeds start, start+stride, ...; emit one record per seed."""
    mod = module(prop)
    for k in range(count):
        if time.time() > deadline:
            emit({"stop": k})
            return
        i = start + k * stride
        v, st, plan = one(mod, f"{base}:{i}", tier)
        rec = {
            "i": i, "sig": st.sig(), "triv": st.trivial, "runs": st.runs, "ops": st.ops, "lines": st.lines,
            "sw": st.switches, "sim": round(st.simtime, 4), "fired": dict(st.fired), "probes": dict(st.probes),
        }
        if v:
            rec["v"] = v
            rec["plan"] = plan
        elif k < 1 and start < 3:
            rec["sample"] = plan
        emit(rec)
        if v:
            return
        if k % 50 == 49:
            gc.collect()
